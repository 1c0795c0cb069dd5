"""Streaming interfaces of the hard IP models: library source and sink on
one set of wires, or one of them against an independent counterpart."""
import random

import cocotb
from cocotb.clock import Clock
from cocotb.triggers import Event, RisingEdge, Timer
from cocotbext.axi import AxiStreamBus

from cocotbext.pcie.xilinx.us import interface as us_if
from cocotbext.pcie.intel.s10 import interface as s10_if
from cocotbext.pcie.intel.ptile import interface as pt_if
from cocotbext.pcie.core.tlp import TlpType

from scen.link import rand_tlp
from vlib.snap import Snap
from vlib.streams import AvstDecoder, AxisDecoder, Rec, avst_beats, axis_beats, odd_parity


def pauses(r):
    """endless pause pattern with changing density"""
    while True:
        p = r.choice([0, 0, 0.1, 0.5, 0.9])
        for _ in range(r.randrange(1, 120)):
            yield r.random() < p


async def traffic(dut, mon, rng, src, sink, frames, rec_of, dec, push, pull, gaps=True, limit=None, sink_limit=None):
    """Sends frames through src (or the driver push) and collects from sink;
    returns the records that came out"""
    r = random.Random(rng.getrandbits(48))
    edge = RisingEdge(dut.clk)
    got = []
    n = len(frames)
    if src is not None:
        if limit is not None:
            if limit[0]:
                src.queue_occupancy_limit_frames = limit[1]
            else:
                src.queue_occupancy_limit_bytes = limit[1]
        src.set_pause_generator(pauses(random.Random(rng.getrandbits(48))))
    if sink is not None:
        if sink_limit:
            sink.queue_occupancy_limit_frames = sink_limit
        sink.set_pause_generator(pauses(random.Random(rng.getrandbits(48))))

    sent = [0]

    async def feeder():
        k = 0
        while k < n:
            if gaps and r.random() < 0.15:
                for _ in range(r.choice([1, 2, 3, 10, 40])):
                    await edge
            if r.random() < 0.5:
                await src.send(frames[k])
            else:
                while src.full():
                    await edge
                src.send_nowait(frames[k])
            k += 1
            sent[0] = k
            if limit is not None:
                if limit[0]:
                    mon.check(src.count() <= limit[1] + 1, "stream-limit", lambda: f"{src.count()} frames queued, limit {limit[1]}")
                mon.count("limited_sends")
            if r.random() < 0.1:
                # wait returns when everything given so far has been transferred
                await src.wait()
                await edge
                mon.check(len(dec.out) == k and dec.cur is None, "stream-wait", lambda: f"wait() returned after {len(dec.out)} of {k} frames were transferred")
                mon.check(src.idle(), "stream-wait", "not idle after wait()")
                mon.count("source_waits")

    async def collector():
        while len(got) < n:
            if r.random() < 0.2:
                await Timer(r.randrange(1, 300), "ns")
            if r.random() < 0.3:
                await sink.wait()
                if sink.empty():
                    continue
            if not sink.empty() and r.random() < 0.5:
                mon.check(sink.count() > 0, "stream-count", "count() is 0 although not empty")
                f = sink.recv_nowait()
            else:
                f = await sink.recv()
            got.append(rec_of(f))

    ft = cocotb.start_soon(feeder() if src is not None else push())
    ct = cocotb.start_soon(collector() if sink is not None else pull())

    async def settled(task, what):
        # everyone gets a turn again and again, so something moves
        last, still = None, 0
        while not task.done():
            for _ in range(500):
                await edge
                if task.done():
                    return True
            cur = (sent[0], len(got), len(dec.out), dec.beats)
            still = 0 if cur != last else still + 1
            last = cur
            if still >= 30:
                mon.violate("stream-stuck", f"{what}: nothing moved in {500 * still} cycles; {sent[0]} of {n} frames given to the source, {len(dec.out)} transferred, {len(got)} taken from the sink")
                task.kill()
                return False
        return True

    ok = await settled(ft, "sending")
    if not ok:
        ct.kill()
        return got
    if src is not None:
        src.clear_pause_generator()
        src.pause = False
    if sink is not None:
        sink.clear_pause_generator()
        sink.pause = False
        left = 200 + 4 * sum(len(f.data) for f in frames[-40:])
        sink.queue_occupancy_limit_frames = -1
    if src is not None:
        if not await settled(cocotb.start_soon(src.wait()), "wait()"):
            ct.kill()
            return got
        for _ in range(40):
            await edge
        mon.check(src.idle() and src.empty() and src.queue_occupancy_frames == 0 and src.queue_occupancy_bytes == 0, "stream-occupancy", lambda: f"source at rest: {src.queue_occupancy_frames} frames, {src.queue_occupancy_bytes} units")
    if sink is not None:
        if not await settled(ct, "receiving"):
            return got
        mon.check(sink.idle() and sink.empty() and sink.queue_occupancy_frames == 0 and sink.queue_occupancy_bytes == 0, "stream-occupancy", lambda: f"sink at rest: {sink.queue_occupancy_frames} frames, {sink.queue_occupancy_bytes} units")
    for _ in range(20):
        await edge
    return got


def compare(mon, name, sent, got, what):
    mon.count("frames_compared", len(got))
    for k, (a, b) in enumerate(zip(sent, got)):
        d = a.diff(b)
        if d:
            mon.violate("stream-content", f"{name}: frame {k} {what} differs in {d}: sent {({x: getattr(a, x, None) for x in d if x not in ('data', 'par', 'be')})} got {({x: getattr(b, x, None) for x in d if x not in ('data', 'par', 'be')})} ({a} / {b})")
            return
        mon.ev()
    mon.check(len(sent) == len(got), "stream-count", lambda: f"{name}: {len(sent)} frames sent, {len(got)} {what}")


async def axis(dut, mon, rng, ifc="rq", width=64, uw=60, segs=1, mode="both", n=200, limit=None, sink_limit=None):
    cocotb.start_soon(Clock(dut.clk, 4, "ns").start())
    bus = AxiStreamBus.from_prefix(dut, "x")
    if mode == "source":
        dut.x_tready.setimmediatevalue(0)
    if mode == "sink":
        for s in ("tdata", "tvalid", "tlast", "tkeep", "tuser"):
            getattr(bus, s).setimmediatevalue(0)
    kind = ifc
    K = ifc.capitalize()
    src = getattr(us_if, K + "Source")(bus, dut.clk, segments=segs) if mode != "sink" else None
    sink = getattr(us_if, K + "Sink")(bus, dut.clk, segments=segs) if mode != "source" else None
    dec = AxisDecoder(mon, kind, width, uw, segs)
    cocotb.start_soon(dec.watch(dut.clk, bus))
    frames, want = [], []
    has_be = kind in ("rc", "cq")
    for k in range(n):
        f = us_if.UsPcieFrame()
        ln = rng.choice([3, 4, 5, 7, 8, 9, 12, 15, 16, 17, rng.randrange(3, 40), rng.randrange(3, 140)])
        f.data = [rng.getrandbits(32) for _ in range(ln)]
        f.update_parity()
        mon.check(f.parity == [odd_parity(d, 4) for d in f.data] and f.check_parity(), "parity", lambda: f"update_parity of {f!r}")
        if rng.random() < 0.2:
            j = rng.randrange(ln)
            f.parity[j] ^= 1 << rng.randrange(4)
            mon.check(not f.check_parity(), "parity", lambda: f"check_parity accepts a wrong bit of dword {j} of {f!r}")
        w = Rec(data=list(f.data), par=list(f.parity), disc=False)
        if has_be:
            f.byte_en = [rng.getrandbits(4) for _ in range(ln)]
            w.be = list(f.byte_en)
        if kind in ("rq", "cq"):
            w.fbe = f.first_be = rng.getrandbits(4)
            w.lbe = f.last_be = rng.getrandbits(4)
        if kind == "rq":
            w.seq = f.seq_num = rng.getrandbits(4 if uw == 60 else 6)
        if segs == 1 and rng.random() < 0.1:
            w.disc = f.discontinue = True
        g = us_if.UsPcieFrame(f)
        mon.check(g == f and g.data is not f.data and len(g) == ln, "frame-copy", lambda: f"copy of {f!r} is {g!r}")
        frames.append(f)
        want.append(w)

    def rec_of(f):
        r = Rec(data=list(f.data), par=list(f.parity), disc=bool(f.discontinue))
        if has_be:
            r.be = list(f.byte_en)
        if kind in ("rq", "cq"):
            r.fbe, r.lbe = f.first_be, f.last_be
        if kind == "rq":
            r.seq = f.seq_num
        return r

    rr = random.Random(rng.getrandbits(48))

    async def push():
        p = pauses(rr)
        for b in axis_beats(kind, width, uw, segs, want, rr):
            while b is not None and next(p) or b is None:
                bus.tvalid.value = 0
                await RisingEdge(dut.clk)
                if b is None:
                    break
            if b is None:
                continue
            bus.tdata.value, bus.tkeep.value, bus.tlast.value, bus.tuser.value = b
            bus.tvalid.value = 1
            await RisingEdge(dut.clk)
            while not int(bus.tready.value):
                await RisingEdge(dut.clk)
        bus.tvalid.value = 0

    async def pull():
        for b in pauses(rr):
            bus.tready.value = int(not b)
            await RisingEdge(dut.clk)

    got = await traffic(dut, mon, rng, src, sink, frames, rec_of, dec, push, pull, limit=limit, sink_limit=sink_limit)
    name = f"{kind}{width}/{uw}x{segs}"
    compare(mon, name, want, dec.out, "on the wires")
    mon.check(dec.cur is None, "axis-framing", f"{name}: unfinished packet")
    if sink is not None:
        compare(mon, name, want, got, "received")
    mon.count(f"frames_{kind}", n)
    mon.count("beats", dec.beats)
    mon.count("stalled_beats", dec.stalls)
    mon.count("straddled_beats", dec.straddled)
    for w in want:
        mon.sig(name, mode, len(w.data) % (width // 32 or 1), len(w.data) // (width // 32))
    mon.sample(dict(interface=name, mode=mode, frames=n, beats=dec.beats, stalls=dec.stalls, straddled=dec.straddled))


async def avst(dut, mon, rng, ifc="s10", rx=True, width=256, segs=1, latency=0, mode="both", n=150, full=True, limit=None, sink_limit=None):
    cocotb.start_soon(Clock(dut.clk, 4, "ns").start())
    kind = ifc
    m = s10_if if kind == "s10" else pt_if
    P = "S10" if kind == "s10" else "PTile"
    bus = getattr(m, f"{P}{'Rx' if rx else 'Tx'}Bus").from_prefix(dut, "x" if full else "y")
    has = [s for s in bus._signals if s not in ("valid", "ready")]
    dut_sigs = {s: getattr(bus, s) for s in list(bus._signals) if hasattr(bus, s)}
    if mode == "source":
        bus.ready.setimmediatevalue(0)
    if mode == "sink":
        for s in dut_sigs:
            if s != "ready":
                getattr(bus, s).setimmediatevalue(0)
    src = getattr(m, P + "PcieSource")(bus, dut.clk, ready_latency=latency) if mode != "sink" else None
    sink = getattr(m, P + "PcieSink")(bus, dut.clk, ready_latency=latency) if mode != "source" else None
    F = getattr(m, P + "PcieFrame")
    dec = AvstDecoder(mon, kind, width, segs, latency, has, f"{kind}{'rx' if rx else 'tx'}")
    cocotb.start_soon(dec.watch(dut.clk, bus))
    frames, want, tlps = [], [], []
    parn = "parity" if kind == "s10" else "data_par"
    for k in range(n):
        t = rand_tlp(rng, rng.choice(["P", "P", "NP", "CPL"]), k, rng.choice([1, 4, 16, 33, 80]))
        raw = bytes(t.pack())
        f = F.from_tlp(t)
        back = f.to_tlp()
        mon.check(bytes(back.pack()) == raw, "frame-tlp", lambda: f"{Snap(t)} became {Snap(back)} by way of a frame")
        hl = 4 * t.get_header_size_dw()
        dws = [int.from_bytes(raw[i:i + 4], "little") for i in range(hl, len(raw), 4)]
        hd = [int.from_bytes(raw[i:i + 4], "big") for i in range(0, hl, 4)]
        if kind == "s10":
            wd = hd + dws
        else:
            wd = dws
            f.tlp_prfx = rng.getrandbits(32)
            f.update_parity()
            h = int.from_bytes(raw[:hl].ljust(16, b"\0"), "big")
            ep = lambda v, b: odd_parity(v, b) ^ (1 << b) - 1
            mon.check((f.hdr_par, f.tlp_prfx_par) == (ep(h, 16), ep(f.tlp_prfx, 4)), "parity", lambda: f"header parity of {f!r}")
        mon.check(list(f.data) == wd, "frame-tlp", lambda: f"frame data of {Snap(t)}: {[hex(x) for x in f.data[:6]]}, expected {[hex(x) for x in wd[:6]]}")
        mon.check(f.parity == [odd_parity(d, 4) for d in f.data] and f.check_parity(), "parity", lambda: f"update_parity of {f!r}")
        if rng.random() < 0.2 and f.data:
            j = rng.randrange(len(f.data))
            f.parity[j] ^= 1 << rng.randrange(4)
            mon.check(not f.check_parity(), "parity", lambda: f"check_parity accepts a wrong bit of dword {j}")
        f.func_num = rng.randrange(4 if kind == "s10" else 8)
        f.vf_num = rng.choice([None, 0, rng.randrange(2048)])
        f.bar_range = rng.randrange(8)
        f.err = rng.randrange(2)
        w = Rec(data=list(wd), par=list(f.parity), func_num=f.func_num, vf=f.vf_num, bar_range=f.bar_range, err=f.err)
        if kind != "s10":
            f.tlp_abort = w.tlp_abort = rng.randrange(2)
            w.hdr, w.prfx, w.hdr_par, w.tlp_prfx_par = h, f.tlp_prfx, f.hdr_par, f.tlp_prfx_par
        g = F(f)
        mon.check(g == f and g.data is not f.data, "frame-copy", lambda: f"copy of {f!r} is {g!r}")
        frames.append(f)
        want.append(w)
        tlps.append((raw, t))

    def strip(w):
        """what this set of signals can carry"""
        d = Rec(data=w.data)
        if parn in has:
            d.par = w.par
        for x in ("func_num", "bar_range", "err", "tlp_abort", "hdr_par", "tlp_prfx_par"):
            if x in has and hasattr(w, x):
                setattr(d, x, getattr(w, x))
        if "vf_active" in has:
            d.vf = w.vf if "vf_num" in has else None if w.vf is None else 0
        if kind != "s10":
            d.hdr, d.prfx = w.hdr, w.prfx
        return d

    def rec_of(f):
        r = Rec(data=list(f.data), par=list(f.parity), func_num=f.func_num, vf=f.vf_num, bar_range=f.bar_range, err=f.err, frame=f)
        if kind != "s10":
            r.tlp_abort, r.hdr, r.prfx, r.hdr_par, r.tlp_prfx_par = f.tlp_abort, f.hdr, f.tlp_prfx, f.hdr_par, f.tlp_prfx_par
        return r

    rr = random.Random(rng.getrandbits(48))
    edge = RisingEdge(dut.clk)

    async def push():
        p = pauses(rr)
        ready = [0] * (latency + 1)
        beats = avst_beats(kind, width, segs, want, rr)
        i = 0
        while i < len(beats):
            # the value for the cycle after this edge
            await edge
            rd = int(bus.ready.value)
            ready.append(rd)
            if latency:
                allowed = ready[-latency]
            else:
                # accepted or nothing there
                if int(bus.valid.value) and not rd:
                    continue
                allowed = 1
            if not allowed or next(p) or beats[i] is None:
                if beats[i] is None:
                    i += 1
                bus.valid.value = 0
                continue
            for s, h in dut_sigs.items():
                if s != "ready":
                    h.value = beats[i][s]
            i += 1
        while True:
            await edge
            if latency or int(bus.ready.value):
                break
        bus.valid.value = 0

    async def pull():
        for b in pauses(rr):
            bus.ready.value = int(not b)
            await edge

    got = await traffic(dut, mon, rng, src, sink, frames, rec_of, dec, push, pull, limit=limit, sink_limit=sink_limit)
    name = f"{kind}{'rx' if rx else 'tx'}{width}x{segs}L{latency}{'' if full else 'min'}"
    sw = [strip(w) for w in want]
    compare(mon, name, sw, dec.out, "on the wires")
    mon.check(dec.cur is None, "avst-framing", f"{name}: unfinished packet")
    if sink is not None:
        compare(mon, name, sw, [strip(g) for g in got], "received")
        for (raw, t), g in zip(tlps, got):
            b = g.frame.to_tlp()
            mon.check(bytes(b.pack()) == raw, "frame-tlp", lambda: f"{Snap(t)} was received as {Snap(b)}")
    mon.count(f"frames_{kind}", n)
    mon.count("beats", dec.beats)
    mon.count("stalled_beats", dec.stalls)
    mon.count("beats_after_ready_fell", dec.late)
    mon.count("straddled_beats", dec.straddled)
    for w in want:
        mon.sig(name, mode, len(w.data) % (width // 32 // segs), len(w.data) // (width // 32 // segs))
    mon.sample(dict(interface=name, mode=mode, frames=n, beats=dec.beats, stalls=dec.stalls, straddled=dec.straddled))
