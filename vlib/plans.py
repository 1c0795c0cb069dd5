"""Workload plans of every property."""
from vlib.driver import Job
from vlib.hipcfg import hip_params, top_of
from vlib.props import Prop


def seeds(seed, n, salt=0):
    return [((seed * 1000003 + salt * 7919 + k * 104729) & 0x7fffffff) for k in range(n)]


def reps(tier, q, t):
    return t if tier == "thorough" else q


def plan_c01(tier, seed):
    js = []
    for s in seeds(seed, reps(tier, 7, 32), 1):
        js.append(Job("codec:tlp", s, kind="py", n=reps(tier, 6000, 30000)))
    for s in seeds(seed, reps(tier, 2, 8), 2):
        js.append(Job("codec:tlp_check", s, kind="py", n=reps(tier, 12000, 50000)))
    js.append(Job("codec:pcie_id", seed, kind="py"))
    return js


Prop("C01", plan_c01,
     rule="random field values (all packet types of memory, I/O, configuration, completion and atomic operations; boundary-biased) encoded, decoded, copied, compared and validated against a table-driven reference layout; a case is non-trivial and distinct by its (type, field values)",
     require={"tlp_cases": 5000, "validator_accept": 1000, "validator_reject": 500, "ids": 65536})


def plan_c02(tier, seed):
    return [Job("codec:dllp", s, kind="py", n=reps(tier, 4000, 25000)) for s in seeds(seed, reps(tier, 8, 32), 3)]


Prop("C02", plan_c02,
     rule="random DLLPs of every supported type against a serial-LFSR CRC and a reference layout; each frame also with all single-bit, sampled double-bit and burst (2..16 bit) corruptions; distinct by (type, field values)",
     require={"dllp_cases": 5000, "corrupted": 100000})


def link_jobs(tier, seed, mons, salt, n=1):
    js = []
    for k, s in enumerate(seeds(seed, 10 * n, salt)):
        js.append(Job("link:run", s, fc=["tiny", "mixed", "default", "mixed", "inf"][k % 5], hostile=["none", "delay", "dup", "ooo"][(k // 2) % 4],
                      n=reps(tier, 300, 800), monitors=mons, maxdw=[32, 64, 256, 1024][k % 4], junk=True, pattern=["dense", None][k % 2]))
    return js


def plan_c03(tier, seed):
    js = []
    n = reps(tier, 1, 6)
    for k, s in enumerate(seeds(seed, 8 * n, 4)):
        topo = ["single", "single", "multi", "switch"][k % 4]
        js.append(Job("traffic:run", s, topo=topo, hostile=["none", "delay", "dup", "ooo"][(k // 4 + k) % 4], monitors="seq", ops=reps(tier, 120, 400), fc=["default", "mixed"][k % 2]))
    js += link_jobs(tier, seed, "seq", 5, n)
    # sequence numbers wrap (12 bits) under every kind of disturbance
    for k, s in enumerate(seeds(seed, 4 * n, 6)):
        js.append(Job("link:run", s, fc="inf" if k % 2 else "default", hostile=["none", "dup", "ooo", "delay"][k % 4], n=1600, monitors="seq", maxdw=8, hold=50, junk=True,
                      pattern="dense", link=[5, 16], _w=9, _limit_us=100000))
    # long links: more packets in flight than sequence numbers can tell apart
    for k, s in enumerate(seeds(seed, 2 * n, 7)):
        js.append(Job("link:run", s, fc="inf", hostile="none", n=1600, monitors="seq", maxdw=4, hold=20, junk=True, pattern="dense", link=[[5, 16], [3, 8]][k % 2], pdelay=[0.8, 6][k % 2], _w=9, _limit_us=100000))
    return js


Prop("C03", plan_c03, rule="generated hierarchies (single, multi-port, switch) and raw link pairs whose packets and ACK/NAK/credit DLLPs pass through a monitor at both ends of every link; hostile pumps delay, duplicate, reorder and drop acknowledgements; distinct by (topology, disturbance, credit shape, packet type, sequence region)", require={"tlps_on_links": 1000, "seq_wraps": 2})


def plan_c04(tier, seed):
    js = []
    n = reps(tier, 1, 6)
    for k, s in enumerate(seeds(seed, 10 * n, 14)):
        js.append(Job("traffic:run", s, topo=["single", "switch", "multi", "deep", "switch"][k % 5], hostile=["none", "delay", "none", "dup", "ooo"][(k // 5 + k) % 5], monitors="fc",
                      ops=reps(tier, 100, 300), fc=["tiny", "mixed", "default", "tiny", "mixed", "inf"][k % 6], mps=[0, 1, 2][k % 3], maxlen=[300, 700, 1500][k % 3]))
    js += link_jobs(tier, seed, "fc", 15, n)
    # counters wrap (12-bit header, 16-bit data)
    for k, s in enumerate(seeds(seed, 3 * n, 16)):
        js.append(Job("link:run", s, fc=[[5, 600, 7, 9, 3, 700], [64, 1024, 64, 64, 64, 1024], [2047, 2047, 2047, 2047, 2047, 2047]][k % 3], hostile="none", n=5000, monitors="fc", maxdw=256, hold=20,
                      pattern="dense", link=[5, 16], _w=9, _limit_us=200000))
    return js


Prop("C04", plan_c04, rule="the same link traffic with receive buffers from 1 header/1 payload up to infinite; a credit ledger per link and direction is rebuilt from the packets and update DLLPs seen on the wire; counters wrap; distinct by (topology, credit shape, pool, level)", require={"tlps_on_links": 1000})


def plan_c15(tier, seed):
    js = []
    n = reps(tier, 1, 6)
    for k, s in enumerate(seeds(seed, 10 * n, 24)):
        js.append(Job("link:run", s, fc=["tiny", "mixed", "default"][k % 3], hostile="none", n=reps(tier, 250, 600), monitors="rate", maxdw=[32, 64, 256, 1024][k % 4], pattern=["dense", None][k % 2],
                      link=[1 + k % 5, [1, 2, 4, 8, 16][(k // 5 + k) % 5]]))
    for k, s in enumerate(seeds(seed, 9 * n, 25)):
        js.append(Job("link:run", s, fc=[[3, 40, 2, 3, 4, 50], "default", [1, 32, 1, 1, 1, 32]][k % 3], hostile="none", n=reps(tier, 300, 600), monitors="rate", maxdw=64, stall=["NP", "P", "CPL"][(k + k // 3) % 3]))
    for k, s in enumerate(seeds(seed, 8 * n, 26)):
        js.append(Job("traffic:run", s, topo=["single", "switch", "deep", "multi"][k % 4], hostile="none", monitors="rate", ops=reps(tier, 100, 300), fc=["tiny", "mixed"][(k // 4 + k) % 2], agents=8))
    for k, s in enumerate(seeds(seed, 6 * n, 27)):
        js.append(Job("traffic:storm", s, topo=["switch", "multi", "deep"][k % 3], fc=["default", "tiny"][(k // 3) % 2], reads=[256, 100][(k // 3) % 2], writes=[0, 300, 100][k % 3], monitors="rate", _w=6))
    return js


Prop("C15", plan_c15, rule="links and hierarchies with the smallest legal receive buffers, blocked traffic classes and read storms between endpoints; decided in simulated time: every packet must be delivered and acknowledged within bounds derived from the link rate; distinct by (topology, stalled class, rate, width, credit shape)", require={"tlps_on_links": 1000})


def req_jobs(tier, seed, salt, n, errors):
    js = []
    for k, s in enumerate(seeds(seed, 8 * n, salt)):
        js.append(Job("request:ep", s, ext=bool(k & 1), agents=[6, 40, 2][k % 3], ops=reps(tier, 240, 600), errors=errors, backpressure=[0.2, 0, 0.6][k % 3],
                      tag_count=[None, None, 5, 40][(k // 2) % 4]))
    for k, s in enumerate(seeds(seed, 8 * n, salt + 1)):
        js.append(Job("request:rc", s, agents=[6, 40, 2][k % 3], ops=reps(tier, 150, 400), errors=errors, mps=k % 4, mrrs=(k * 5 + 2) % 6, tag_count=[32, 7, 256, 32][k % 4],
                      fc=["default", "tiny", "mixed"][k % 3], _w=2))
    return js


def plan_c05(tier, seed):
    return req_jobs(tier, seed, 40, reps(tier, 1, 6), errors=False) + req_jobs(tier, seed, 44, reps(tier, 1, 3), errors=True)[::2]


Prop("C05", plan_c05, rule="reads, writes and configuration requests (memory, I/O, configuration) of random address/length/data issued through every requester interface against a harness completer, all limits (MPS, MRRS, tags) varied; distinct by (operation, alignment, length class, limits)", require={"requests_judged": 2000, "ops_config": 100})


def plan_c08(tier, seed):
    return req_jobs(tier, seed, 70, reps(tier, 2, 8), errors=True)


Prop("C08", plan_c08, rule="requesters driven past their tag limits against a completer that delays, drops and reorders completions and sends completions after the time-out; tags on the wire tracked from first use to release; distinct by (requester, limit, outcome, outstanding)", require={"requests_judged": 1500, "full_tag_bursts": 10, "tags_reused_after_timeout": 5, "late_completions": 5})


def resp_jobs(tier, seed, salt, n, ops):
    js = []
    for k, s in enumerate(seeds(seed, 10 * n, salt)):
        js.append(Job("respond:run", s, topo=["switch", "single", "deep", "multi", "switch", "wide"][k % 6], fc=["default", "tiny", "mixed"][k % 3], mps=[0, 1, 2, 5, 3, 4, 0][k % 7],
                      ops=reps(tier, ops, 2 * ops), agents=[8, 16, 4][k % 3], rcb128=bool((k // 2) % 2), every=k % 3 == 1, wide_tags=k % 4 == 3, _w=2))
    return js


def plan_c06(tier, seed):
    return resp_jobs(tier, seed, 50, reps(tier, 2, 10), 400)


Prop("C06", plan_c06, rule="raw memory, I/O and configuration requests of every shape (all byte-enable patterns, zero length, boundary lengths) sent to the root complex and to every endpoint; completions judged field by field against the request; distinct by (target, type, alignment, length class, limits)", require={"completions": 2000, "split_every_boundary": 50})


def plan_c07(tier, seed):
    return resp_jobs(tier, seed, 60, reps(tier, 1, 5), 300) + req_jobs(tier, seed, 61, reps(tier, 1, 4), errors=True)


Prop("C07", plan_c07, rule="the raw request mix with unmatched addresses, absent devices, callbacks that fail and completers that answer late, never or with errors; completions counted per request until the system is quiet; distinct by (requester, type, outcome)", require={"nonposted_requests": 1000, "unmatched_requests": 100, "faulty_requests": 25, "cfg_absent_device": 10})


def plan_c09(tier, seed):
    js = []
    n = reps(tier, 1, 6)
    for k, s in enumerate(seeds(seed, 8 * n, 80)):
        js.append(Job("respond:run", s, topo=["switch", "deep", "wide", "multi"][k % 4], fc=["default", "tiny", "mixed"][k % 3], mps=k % 3, ops=reps(tier, 200, 500), agents=8, route=True,
                      nfunc=[1, [1, 2, 3]][(k // 4) % 2], _w=2))
    for k, s in enumerate(seeds(seed, 8 * n, 81)):
        js.append(Job("traffic:run", s, topo=["deep", "wide", "switch", "multi"][k % 4], fc=["default", "mixed"][k % 2], hostile=["none", "delay"][(k // 4) % 2], monitors="route", ops=reps(tier, 120, 400),
                      nfunc=[1, [1, 2, 4]][(k // 2) % 2], agents=8, _w=2))
    return js


Prop("C09", plan_c09, rule="random trees of root ports and switches; every request and completion is followed over all links it appears on and compared with the path its address or ID prescribes; distinct by (type, path, position)",
     require={"packets_routed": 3000, "distinct_packets_followed": 1000})


def plan_c10(tier, seed):
    js = []
    n = reps(tier, 1, 8)
    for k, s in enumerate(seeds(seed, 20 * n, 90)):
        js.append(Job("enum:run", s, topo=["wide", "deep", "switch", "multi", "wide"][k % 5], crs=k % 3 == 2, again=k % 2 == 1, mps_mix=k % 4 == 3, mps=[0, 5, 2, 3][k % 4],
                      bridge_bars=k % 3 != 1, fc=["default", "mixed"][(k // 3) % 2], access=k % 4 != 2, _w=3))
    return js


Prop("C10", plan_c10, rule="random hierarchies with random address ranges (16 bytes to 1 TB, every type), expansion ROMs, multi-function devices, bridges with ranges of their own, devices not ready at first and repeated enumeration; results compared with the registers of the functions; distinct by (range type, size, depth, owner)",
     require={"functions_found": 100, "ranges_assigned": 200, "range_accesses": 200, "enumerations_repeated": 5, "devices_not_ready_at_first": 3})


def plan_c11(tier, seed):
    js = []
    n = reps(tier, 2, 12)
    for k, s in enumerate(seeds(seed, 10 * n, 100)):
        js.append(Job("irq:run", s, topo=["switch", "deep", "multi", "wide", "single"][k % 5], nfunc=[[1, 2, 3], [1], [8]][k % 3], fc=["default", "tiny", "mixed"][(k // 2) % 3], rounds=3 + k % 2, irqs=reps(tier, 50, 120)))
    return js


Prop("C11", plan_c11, rule="functions with random MSI and MSI-X capabilities (32/64-bit, 1..32 messages, tables of 1..40 entries at random offsets) over random trees; vectors allocated, freed and allocated again in random and concurrent order; signalled, handled and preceding data counted per vector; distinct by (capability, mode, asked, granted)",
     require={"interrupts_msi": 1000, "interrupts_msix": 1000, "vectors_freed": 10, "vectors_refused": 3, "vectors_signalled": 300})


def plan_c12(tier, seed):
    js = []
    for k, s in enumerate(seeds(seed, reps(tier, 12, 64), 110)):
        js.append(Job("cfgregs:regs", s, kind="py", n=reps(tier, 500, 2000), funcs=reps(tier, 60, 150)))
    n = reps(tier, 1, 8)
    for k, s in enumerate(seeds(seed, 10 * n, 111)):
        js.append(Job("cfgregs:link", s, topo=["switch", "deep", "multi", "wide", "single"][k % 5], nfunc=[[1, 2, 3], [1], [8]][k % 3], fc=["default", "tiny", "mixed"][(k // 2) % 3], n=reps(tier, 100, 300), _w=2))
    return js


Prop("C12", plan_c12, rule="random functions of both header types with random ranges, ROMs and capabilities, every register accessed with every byte-enable combination while status bits change, compared bit by bit with the register layouts of the specifications; the same through the root complex at every byte offset and length, all functions at once; distinct by (header, access, register, byte enables)",
     require={"register_writes": 60000, "functions": 200, "link_writes": 1000, "link_reads": 1000, "functions_over_link": 40, "absent_functions_read": 20})


def plan_c13(tier, seed):
    js = []
    for k, s in enumerate(seeds(seed, reps(tier, 8, 64), 120)):
        js.append(Job("caps:lists", s, kind="py", funcs=reps(tier, 20, 60), n=60))
    for k, s in enumerate(seeds(seed, reps(tier, 8, 48), 121)):
        js.append(Job("caps:link", s, topo=["switch", "deep", "multi", "wide", "single"][k % 5], nfunc=[[1, 2, 3], [1], [4]][k % 3], fc=["default", "tiny", "mixed"][(k // 2) % 3], rounds=3, _w=2))
    return js


Prop("C13", plan_c13, rule="random sequences of registrations (placed automatically, at free and at occupied positions), moves and removals of standard and extended capabilities of every length; after every change the lists are walked as software does and every register of both areas is read; then found and accessed through enumeration of random trees; distinct by (list, length, position, list size, number displaced)",
     require={"registered": 500, "moved": 200, "removed": 200, "bumped": 100, "capabilities_discovered": 100, "capability_accesses": 500})


def plan_c14(tier, seed):
    js = []
    n = reps(tier, 1, 8)
    for k, s in enumerate(seeds(seed, 20 * n, 130)):
        js.append(Job("traffic:run", s, topo=["switch", "deep", "multi", "wide", "single"][k % 5], fc=["default", "tiny", "mixed", "inf"][k % 4], hostile=["none", "delay", "dup", "ooo"][(k // 5) % 4],
                      mps=[0, 1, 2, 3, 5][(k // 4) % 5], monitors="none", ops=reps(tier, 150, 500), nfunc=[1, [1, 2, 4]][(k // 2) % 2], agents=[4, 8, 1][k % 3], maxlen=[600, 4000, 200][(k // 3) % 3], _w=2))
    for k, s in enumerate(seeds(seed, 4 * n, 131)):
        js.append(Job("traffic:storm", s, topo=["switch", "deep", "wide", "multi"][k % 4], fc=["default", "tiny"][k % 2], reads=reps(tier, 256, 600), writes=32, monitors="none"))
    return js


Prop("C14", plan_c14, rule="several agents (root complex, endpoints) at once write and read random byte ranges of host memory and of each other's memory and I/O ranges, by every access helper and through windows, over random trees, buffer sizes, payload limits and link faults; each agent owns slices of every target, so every read has one right answer, and all images are compared at the end; distinct by (agent, target, alignment, length)",
     require={"op_mem": 2000, "op_io": 300, "images_compared": 60, "window_accesses": 100, "storm_reads": 1000})


def plan_c16(tier, seed):
    js = []
    n = reps(tier, 1, 8)
    for k, s in enumerate(seeds(seed, 20 * n, 150)):
        js.append(Job("order:run", s, topo=["switch", "deep", "multi", "wide", "single"][k % 5], fc=["tiny", "default", "tiny", "mixed"][k % 4], hostile=["none", "delay"][(k // 2) % 2],
                      mps=[0, 1, 2][(k // 3) % 3], rounds=reps(tier, 15, 60), nfunc=[1, [1, 2]][(k // 2) % 2], slow=(k // 2) % 2 == 1, _w=2))
    return js


Prop("C16", plan_c16, rule="producers (host and functions) write data blocks and then flags into host memory and each other's memory while consumers watch the memory, poll over the link and read registers the producers update, under unrelated traffic, small buffers and delays; inside every switch and the root complex each departure is compared with everything that entered before; distinct by (flow, place, topology) and (link, class, classes waiting)",
     require={"flows": 20, "departures_P": 10000, "departures_NP": 5000, "departures_CPL": 5000, "flags_seen_locally": 300, "flags_polled_remotely": 200, "registers_polled": 1000, "read_flushes": 100})


US_STREAMS = [("rq", 64, 60, 1), ("rq", 128, 62, 1), ("rq", 256, 60, 1), ("rq", 256, 62, 1), ("rq", 512, 137, 1), ("rq", 512, 137, 2),
              ("rc", 64, 75, 1), ("rc", 128, 75, 1), ("rc", 256, 75, 1), ("rc", 256, 75, 2), ("rc", 512, 161, 1), ("rc", 512, 161, 2), ("rc", 512, 161, 4),
              ("cq", 64, 85, 1), ("cq", 128, 88, 1), ("cq", 256, 85, 1), ("cq", 256, 88, 1), ("cq", 512, 183, 1), ("cq", 512, 183, 2),
              ("cc", 64, 33, 1), ("cc", 128, 33, 1), ("cc", 256, 33, 1), ("cc", 512, 81, 1), ("cc", 512, 81, 2)]
AV_STREAMS = [("s10", 256, 1), ("s10", 512, 2), ("ptile", 128, 1), ("ptile", 256, 1), ("ptile", 512, 2)]


def plan_c17(tier, seed):
    js = []
    n = reps(tier, 1, 8)
    k = 0
    for rep in range(n):
        for i, (ifc, w, uw, sg) in enumerate(US_STREAMS):
            for m in (["both", "sink", "source"] if sg > 1 or tier == "thorough" or w >= 256 else [["both", "sink", "source"][(i + seed + rep) % 3], "both"]):
                k += 1
                js.append(Job("streams:axis", seeds(seed, 1, 170 + k)[0], top="top_us", _limit_us=1000, hdl_params=dict(W=w, UW=uw), ifc=ifc, width=w, uw=uw, segs=sg, mode=m,
                              limit=[None, [True, 1], [True, 4], [False, 300]][k % 4], sink_limit=[None, 1, 3][k % 3]))
        for i, (ifc, w, sg) in enumerate(AV_STREAMS):
            lats = [0, 1, 3, 17, 18, 27]
            for rx in (True, False):
                for m in ["both", "sink", "source"]:
                    for lat in (lats if tier == "thorough" else [lats[(k + seed) % 6], lats[(k // 2 + 3 + seed) % 6]][:2]):
                        k += 1
                        js.append(Job("streams:avst", seeds(seed, 1, 170 + k)[0], top="top_avst", _limit_us=1000,
                                      hdl_params=dict(W=w, S=sg, FW=2 if ifc == "s10" else 3, EW=2 if (ifc, w) == ("ptile", 128) else 3),
                                      ifc=ifc, rx=rx, width=w, segs=sg, latency=lat, mode=m, full=k % 3 != 0,
                                      limit=[None, [True, 1], [True, 4], [False, 300]][(k // 3) % 4], sink_limit=[None, 1, 3][(k // 2) % 3]))
    return js


Prop("C17", plan_c17, rule="random packets of every length and first/last alignment, with random side-band contents, through every streaming interface model at every width, segmentation and ready latency, with random pauses, queue limits and idle gaps, model against model on the same wires and each model against an independent decoder or encoder; distinct by (interface, width, length class, start lane, stall)",
     require={"frames_compared": 4000, "stalled_beats": 1000, "straddled_beats": 300, "source_waits": 100, "limited_sends": 100, "beats_after_ready_fell": 50})


def hip_job(scen, seed, flav, width, **kw):
    kw.setdefault("_limit_us", 3000)
    return Job("hip:" + scen, seed, top=top_of(flav), hdl_params=hip_params(flav, width), flav=flav, width=width, **kw)


XIL_DEVS = [("us", 64, 1), ("us", 128, 2), ("us", 256, 2), ("usp", 64, 2), ("usp", 128, 1), ("usp", 256, 4), ("usp", 512, 3), ("usp", 512, 4)]
INTEL_DEVS = [("s10", 256, 4, False), ("s10", 256, 1, False), ("s10", 512, 3, False), ("s10", 256, 2, True), ("ptile", 128, 2, False), ("ptile", 256, 4, False), ("ptile", 256, 1, False), ("ptile", 512, 3, False)]


def plan_c18(tier, seed):
    js = []
    for rep in range(reps(tier, 2, 10)):
        for i, (fl, w, pf, lt) in enumerate(INTEL_DEVS):
            k = rep * len(INTEL_DEVS) + i
            js.append(hip_job("intel", seeds(seed, 1, 1800 + k)[0], fl, w, pf=pf, mps=[0, 1, 2][(k + seed) % 3], l_tile=lt, ext_tag=(k // 2 + rep) % 2 == 1, n=reps(tier, 110, 200)))
    return js


Prop("C18", plan_c18, rule="host and user exchange random memory, I/O, configuration and completion packets through each model on a link of a simulated hierarchy; every packet on the link is compared with the frame on the interface in both directions, with all side-band fields, under pausing and ready latency; distinct by (direction, type, length, alignment)",
     require={"received_P": 300, "received_NP": 500, "received_CPL": 2000, "transmitted_P": 300, "transmitted_NP": 800, "transmitted_CPL": 1000, "unsupported_answered": 50, "straddled_beats": 100, "transfers_after_ready_fell": 5000})


STRADDLES = {("us", 256): [None, dict(rc=1)], ("usp", 256): [None, dict(rc=1)],
             ("usp", 512): [None, dict(cq=1, cc=1, rq=1, rc=1), dict(cq=1, rq=1, rc4=1), dict(cc=1, rc=1), dict(rc4=1, cc=1)]}


def straddle_of(fl, w, k):
    c = STRADDLES.get((fl, w), [None])
    return c[k % len(c)]


def plan_c19(tier, seed):
    js = []
    for rep in range(reps(tier, 2, 10)):
        for i, (fl, w, pf) in enumerate(XIL_DEVS):
            k = rep * len(XIL_DEVS) + i
            js.append(hip_job("completer", seeds(seed, 1, 1900 + k)[0], fl, w, pf=pf, mps=[0, 1, 2][(k + seed) % 3], straddle=straddle_of(fl, w, rep + i + seed), parity=(k + rep) % 2 == 1, n=reps(tier, 80, 160)))
    return js


Prop("C19", plan_c19, rule="random host requests to every base address register of every function, and beyond them, against the completer request interface; random completions of the user, right and wrong, against the link and the requesting host; with and without np_req throttling, straddling, parity; distinct by (type, function, BAR, length, alignment)",
     require={"requests_P": 300, "requests_NP": 600, "completions_to_host": 1200, "unsupported_answered": 30, "config_answered": 50, "np_held_rounds": 3, "np_counted_rounds": 3, "np_pulsed_rounds": 3, "discontinued": 20})


def plan_c20(tier, seed):
    js = []
    for rep in range(reps(tier, 2, 10)):
        for i, (fl, w, pf) in enumerate(XIL_DEVS):
            k = rep * len(XIL_DEVS) + i
            js.append(hip_job("requester", seeds(seed, 1, 2000 + k)[0], fl, w, pf=pf, mps=[0, 1, 2][(k + seed) % 3], straddle=straddle_of(fl, w, rep + i + seed), parity=(k + rep) % 2 == 1,
                              client_tag=(k + rep + seed) % 3 != 0, ext_tag=(k // 2) % 2 == 1, n=reps(tier, 100, 220)))
    for j, (fl, w, nb) in enumerate([("us", 256, 1100), ("usp", 256, 2200)]):
        js.append(hip_job("requester", seeds(seed, 1, 2090 + j)[0], fl, w, pf=1, n=20, rounds=1, io_burst=nb))
    return js


Prop("C20", plan_c20, rule="random user requests on the requester interface (valid, to absent targets, without bus mastering, discontinued), answered by a harness completer with split, failing, poisoned, missing, repeated or foreign completions; sequence numbers, tags, tag counts and completion frames compared with what crossed the link; distinct by (type, length, alignment, outcome)",
     require={"requests_P": 500, "requests_NP": 800, "completions_code_0": 1500, "completions_code_2": 20, "discontinued": 20, "sequence_numbers": 1500, "tags_reported": 200, "requests_without_mastering": 50})


def plan_c21(tier, seed):
    js = []
    for rep in range(reps(tier, 1, 6)):
        for i, (fl, w, pf) in enumerate([("us", 256, 2), ("us", 64, 1), ("usp", 256, 4), ("usp", 512, 3), ("usp", 128, 1)]):
            k = rep * 5 + i
            js.append(hip_job("sideband", seeds(seed, 1, 2100 + k)[0], fl, w, pf=pf, msix=(k + seed) % 2 == 0, rounds=reps(tier, 2, 5)))
        for i, (fl, w, pf, lt) in enumerate([("s10", 256, 4, False), ("s10", 512, 1, False), ("s10", 256, 3, True), ("ptile", 256, 4, False), ("ptile", 512, 2, False), ("ptile", 128, 1, False)]):
            k = rep * 6 + i
            js.append(hip_job("sideband", seeds(seed, 1, 2150 + k)[0], fl, w, pf=pf, l_tile=lt, msix=(k + seed) % 2 == 0, rounds=reps(tier, 2, 6)))
    return js


Prop("C21", plan_c21, rule="random register contents written over the link and the management interface; every status, flow control and configuration output compared with the registers read over the link and with a ledger of the traffic; interrupts signalled on the side band compared with the packets they cause; distinct by (model, output, value)",
     require={"management_accesses": 60, "status_outputs_checked": 10, "tl_cfg_words_checked": 200, "interrupts": 60, "credit_selections_checked": 20, "credit_outputs_checked": 4, "retry_completions": 10})


def plan_c22(tier, seed):
    js = []
    for s in seeds(seed, reps(tier, 4, 16), 2200):
        js.append(Job("codec:us", s, kind="py", n=reps(tier, 6000, 30000)))
    for s in seeds(seed, reps(tier, 4, 16), 2250):
        js.append(Job("codec:intel_frames", s, kind="py", n=reps(tier, 5000, 25000)))
    return js


Prop("C22", plan_c22, rule="random field values of every packet type each interface carries, packed and unpacked against descriptor layouts written from the product guides; with bit flips, inconsistent byte enables and types of other interfaces; distinct by (interface, type, descriptor)",
     require={"us_frames": 10000, "intel_frames": 10000})


RXBUF = [("us", 256, 2, (64, 1024), None), ("us", 64, 1, (64, 1024), None), ("usp", 256, 2, (256, 2048), None), ("usp", 512, 1, (256, 2048), None),
         ("s10", 256, 2, (770, 2432), None), ("s10", 512, 1, (770, 2432), None),
         ("ptile", 512, 2, (1144, 2888), None), ("ptile", 256, 1, (1144, 2888), None), ("ptile", 256, 1, (572, 1444), dict(port_num=1)), ("ptile", 128, 1, (286, 722), dict(port_num=2))]


def plan_c23(tier, seed):
    js = []
    for rep in range(reps(tier, 1, 6)):
        for i, (fl, w, pf, lim, ex) in enumerate(RXBUF):
            js.append(hip_job("rxbuf", seeds(seed, 1, 2300 + 10 * rep + i)[0], fl, w, pf=pf, limits=lim, extra=ex, episodes=reps(tier, 5, 8)))
    return js


Prop("C23", plan_c23, rule="bursts of completions of random sizes, mixed with requests, while the user pauses the interface for random times; each accepted or dropped completion judged with the occupancy computed from what had arrived and what had been taken; distinct by (model, type, size)",
     require={"completions_arrived": 5000, "completions_dropped": 300, "requests_between": 80})
