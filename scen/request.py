"""Requester side: what the read/write calls of an endpoint function or the root
complex put on the link, and what they return, against a completer under
harness control."""
import bisect
import random

import cocotb
from cocotb.triggers import Event, Timer
from cocotb.utils import get_sim_time

from cocotbext.pcie.core import MemoryEndpoint
from cocotbext.pcie.core.tlp import TlpAttr, TlpTc, TlpType
from cocotbext.pcie.core.utils import PcieId

from vlib import ref_tlp as R
from vlib.completer import Completer, ref_data
from vlib.links import CreditMonitor, SeqMonitor
from vlib.snap import Snap
from vlib.topo import Topo

T_OP = 4000      # ns, completion timeout of operations that use one


class Op:
    def __init__(self, kind, addr, length, data=None, tc=0, attr=0, timeout=0):
        self.kind, self.addr, self.length, self.data, self.tc, self.attr, self.timeout = kind, addr, length, data, tc, attr, timeout
        self.reqs = []
        self.result = None
        self.exc = None
        self.ended = False

    def __repr__(self):
        return f"{self.kind}({self.addr:#x}, {self.length}, tc={self.tc}, attr={self.attr}, timeout={self.timeout})"


class Ledger:
    """Attributes requests to operations by their private address windows and
    judges them once the operations have ended"""

    def __init__(self, mon, limits, requester_id):
        self.mon = mon
        self.limits = limits          # () -> (max payload bytes, max read request bytes)
        self.requester_id = requester_id
        self.ops = {"mem": [], "io": []}
        self.keys = {"mem": [], "io": []}

    def add(self, op):
        sp = op.kind.split("_")[0]
        k = bisect.bisect(self.keys[sp], op.addr)
        self.keys[sp].insert(k, op.addr)
        self.ops[sp].insert(k, op)

    def find(self, s):
        sp = "io" if s.name.startswith("IO") else "mem"
        k = bisect.bisect(self.keys[sp], s.address + 3) - 1
        if k >= 0:
            op = self.ops[sp][k]
            if (op.addr & ~3) <= s.address < op.addr + max(op.length, 1):
                return op
        return None

    def on_request(self, s):
        mon = self.mon
        op = self.find(s)
        if not mon.check(op is not None, "stray-request", lambda: f"request {s} matches no operation in progress"):
            return None
        mon.check(not op.ended or op.exc is not None or s.cls == "P", "stray-request", lambda: f"request {s} issued after {op} had ended")
        op.reqs.append(s)
        mps, mrrs = self.limits()
        want = {"mem_read": "MEM_READ", "mem_write": "MEM_WRITE", "io_read": "IO_READ", "io_write": "IO_WRITE"}[op.kind]
        if s.address >= 1 << 32:
            want += "_64"
        mon.check(s.name == want, "request-type", lambda: f"{s} for {op}: expected {want}")
        mon.check(s.address & 3 == 0 and 1 <= s.length <= 1024, "request-shape", lambda: f"{s}")
        mon.check((s.address & 0xfff) + 4 * s.length <= 4096, "cross-4k", lambda: f"{s} crosses a 4 KB boundary")
        if op.kind == "mem_write":
            mon.check(4 * s.length <= mps, "above-mps", lambda: f"{s}: {4 * s.length} bytes exceed the maximum payload size {mps}")
        if op.kind == "mem_read":
            mon.check(4 * s.length <= mrrs, "above-mrrs", lambda: f"{s}: {4 * s.length} bytes exceed the maximum read request size {mrrs}")
        if op.kind.startswith("io"):
            mon.check(s.length == 1 and s.tc == 0 and s.attr == 0, "io-shape", lambda: f"{s}")
        else:
            mon.check(s.tc == op.tc and s.attr == op.attr, "tc-attr", lambda: f"{s} for {op}")
        if s.length == 1:
            mon.check(s.last_be == 0, "byte-enables", lambda: f"{s}: one dword with last byte enables set")
        else:
            mon.check(s.first_be in (0xf, 0xe, 0xc, 8) and s.last_be in (1, 3, 7, 0xf), "byte-enables", lambda: f"{s}: byte enables not contiguous")
        rid = int(self.requester_id())
        mon.check(s.requester_id == rid, "requester-id", lambda: f"{s}: requester {s.requester_id:#x}, expected {rid:#x}")
        has = len(s.data) if "WRITE" in s.name else 4 * s.length
        mon.check(has == 4 * s.length and ("WRITE" in s.name or not s.data), "payload-length", lambda: f"{s}")
        mon.check(not (s.ep or s.td or s.th or s.at or s.ph), "header-flags", lambda: f"{s}: reserved or unrequested header bits set")
        return op

    def enabled(self, s):
        be = [s.first_be] + [0xf] * (s.length - 2) + ([s.last_be] if s.length > 1 else [])
        for d in range(s.length):
            for i in range(4):
                if be[d] >> i & 1:
                    yield s.address + 4 * d + i, (s.data[4 * d + i] if s.data else None)

    def judge(self, op):
        """coverage of one finished operation; op.exc allows a prefix only"""
        mon = self.mon
        seen = {}
        for s in op.reqs:
            for a, b in self.enabled(s):
                if not mon.check(a not in seen, "covered-twice", lambda: f"{op}: byte {a:#x} requested twice"):
                    return
                seen[a] = b
        mon.count("ops_" + op.kind)
        mon.count("requests_judged", len(op.reqs))
        mon.maxi("requests_per_op", len(op.reqs))
        mon.sig(op.kind, op.addr & 0xfff, op.length, self.limits())
        if op.length == 0:
            mon.check(len(op.reqs) == 1 and not seen and op.reqs[0].length == 1, "zero-length", lambda: f"{op}: {op.reqs}")
            return
        want = range(op.addr, op.addr + op.length)
        missing = [a for a in want if a not in seen]
        mon.check(not missing, "not-covered", lambda: f"{op}: {len(missing)} bytes never requested, first {missing[0]:#x}: {op.reqs[:4]}")
        extra = [a for a in seen if a not in want]
        mon.check(not extra, "extra-bytes", lambda: f"{op}: {len(extra)} bytes outside the operation, first {extra[0]:#x}: {op.reqs[:4]}")
        if op.data is not None:
            bad = [a for a in want if a in seen and seen[a] != op.data[a - op.addr]]
            mon.check(not bad, "write-data", lambda: f"{op}: wrong data at {bad[0]:#x}")


def variants(obj, op, r):
    """Call one of the equivalent helpers for an operation"""
    kw = {}
    if op.timeout:
        t = op.timeout
        kw = r.choice([dict(timeout=t), dict(timeout=t, timeout_unit="ns"), dict(timeout=t // 1000, timeout_unit="us")])
    if op.kind.startswith("mem"):
        kw.update(attr=TlpAttr(op.attr), tc=TlpTc(op.tc))
    n = op.length
    bo = r.choice(["little", "big"])
    ch = ["plain"]
    for w, nm in ((2, "word"), (4, "dword"), (8, "qword")):
        if n and n % w == 0:
            ch.append((w, nm + "s"))
        if n == w:
            ch += [(w, nm)] * 2
    if n == 1:
        ch.append((1, "byte"))
    if n and n % 3 == 0:
        ch.append((3, "ws"))
    c = r.choice(ch) if r.random() < 0.5 else "plain"
    f = lambda s: getattr(obj, f"{op.kind}{s}")

    async def rd():
        if c == "plain":
            return bytes(await f("")(op.addr, n, **kw))
        w, nm = c
        if nm == "byte":
            return bytes([await f("_byte")(op.addr, **kw)])
        if nm == "ws":
            x = await f("_words")(op.addr, n // 3, byteorder=bo, ws=3, **kw)
        elif nm.endswith("s"):
            x = await f("_" + nm)(op.addr, n // w, byteorder=bo, **kw)
        else:
            x = [await f("_" + nm)(op.addr, byteorder=bo, **kw)]
        return b"".join(v.to_bytes(w, bo) for v in x)

    async def wr():
        if c == "plain":
            return await f("")(op.addr, op.data, **kw)
        w, nm = c
        x = [int.from_bytes(op.data[i:i + w], bo) for i in range(0, n, w)]
        if nm == "byte":
            return await f("_byte")(op.addr, x[0], **kw)
        if nm == "ws":
            return await f("_words")(op.addr, x, byteorder=bo, ws=3, **kw)
        if nm.endswith("s"):
            return await f("_" + nm)(op.addr, x, byteorder=bo, **kw)
        return await f("_" + nm)(op.addr, x[0], byteorder=bo, **kw)

    return rd() if "read" in op.kind else wr()


async def do_op(mon, obj, op, r, comp):
    try:
        op.result = await variants(obj, op, r)
    except Exception as e:
        op.exc = e
    op.ended = True


def judge_outcome(mon, op, comp, by_req):
    """the call returned exactly what its requests' completions say"""
    if op.kind == "mem_write":
        mon.check(op.exc is None, "outcome", lambda: f"{op} raised {op.exc!r}")
        return
    outs = [by_req.get(id(s)) for s in op.reqs]
    bad = [o for o in outs if o != "ok"]
    mon.count("outcome_" + ("bad" if bad else "ok"))
    if bad:
        mon.check(op.exc is not None, "error-not-reported", lambda: f"{op} returned normally although requests ended {bad}")
        mon.check(op.exc is None or not isinstance(op.exc, (AssertionError, AttributeError, TypeError, IndexError, KeyError)), "wrong-exception",
                  lambda: f"{op} raised {op.exc!r} for requests that ended {bad}")
    else:
        mon.check(op.exc is None, "spurious-error", lambda: f"{op} raised {op.exc!r} although every request was completed successfully")
        if "read" in op.kind and op.exc is None:
            want = ref_data(op.addr, op.length, comp.salt)
            mon.check(op.result == want, "read-data", lambda: f"{op}: got {op.result[:24].hex()}.. ({len(op.result)} bytes), expected {want[:24].hex()}..")


def rand_len(r, cap):
    return min(cap, r.choice([0, 1, 1, 2, 3, 4, 5, 6, 8, 12, 16, 31, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1024, 4095, 4096, 4097,
                              r.randrange(0, 40), r.randrange(0, 600), r.randrange(0, cap + 1)]))


async def ep(dut, mon, rng, ops=150, agents=6, errors=True, ext=False, limits_change=True, backpressure=0.2, tag_count=None, **kw):
    """Endpoint function driven directly at its link-side interface"""
    f = MemoryEndpoint()
    f.pcie_id = PcieId(rng.randrange(1, 256), rng.randrange(32), rng.randrange(8))
    f.bus_master_enable = True
    f.pcie_cap.extended_tag_field_enable = ext
    if tag_count:
        f.tag_count = tag_count
    cur = {}

    def new_limits():
        f.pcie_cap.max_payload_size = rng.choice([0, 0, 1, 2, 3, 4, 5])
        f.pcie_cap.max_read_request_size = rng.choice([0, 0, 1, 2, 3, 4, 5])
        cur["l"] = (128 << f.pcie_cap.max_payload_size, 128 << f.pcie_cap.max_read_request_size)

    new_limits()
    led = Ledger(mon, lambda: cur["l"], lambda: f.pcie_id)
    comp = Completer(mon, rng, f.upstream_recv, lambda: PcieId(0, 0, 0), lambda: min(256 if ext else 32, f.tag_count), mps=128, rcb=rng.choice([64, 128]),
                     p_ur=0.03 if errors else 0, p_ca=0.03 if errors else 0, p_drop=0.15 if errors else 0, p_late=0.5, salt=rng.getrandbits(32))
    comp.timeout_of = lambda s: led.find(s).timeout if led.find(s) else 0
    pend = []

    async def tx(tlp):
        mon.count("tlps_sent")
        s = Snap(tlp, get_sim_time("ns"))
        led.on_request(s)
        before = len(comp.reqs)
        comp.start(tlp)
        if len(comp.reqs) > before:
            # the ledger and the completer share one snapshot object
            op = led.find(s)
            if op is not None and op.reqs:
                op.reqs[-1] = comp.reqs[-1]
                pend.append((comp.reqs[-1], comp.active.get(comp.reqs[-1].tag) if s.cls == "NP" else None))
        if rng.random() < backpressure:
            await Timer(rng.randrange(1, 200), "ns")

    f.upstream_tx_handler = tx
    nxt = {"mem": 0x1000, "hi": (1 << 32) + (rng.getrandbits(28) << 12), "4g": 0xffff_ffff, "io": rng.randrange(0x100, 0x4000)}
    alls = []

    def mk(r):
        kind = r.choice(["mem_read"] * 4 + ["mem_write"] * 4 + ["io_read", "io_write"])
        sp = kind.split("_")[0]
        ln = rand_len(r, 9000 if r.random() < 0.1 else 1500) if sp == "mem" else r.choice([0, 1, 2, 3, 4, 5, 8, 13, 24])
        if sp == "io":
            a = nxt["io"] + r.randrange(4)
            nxt["io"] = ((a + ln) | 3) + 5
        else:
            reg = r.choice(["mem", "hi"])
            if nxt["4g"] and r.random() < 0.05:
                # straddle the 4 GB boundary
                a, ln = (1 << 32) - r.randrange(1, 600), r.randrange(600, 1500)
                nxt["4g"] = 0
            else:
                a = nxt[reg]
                if r.random() < 0.6:
                    # end of a page in the middle
                    a = ((a + 4095 + ln) & ~4095) - r.randrange(0, ln + 8)
                    a = max(a, nxt[reg])
                else:
                    a += r.choice([0, 0, r.randrange(4), r.randrange(256)])
                nxt[reg] = ((a + ln) | 3) + 5
        return Op(kind, a, ln, r.randbytes(ln) if "write" in kind else None, r.randrange(8) if sp == "mem" else 0, r.choice([0, 0, 1, 2, 4, 7]) if sp == "mem" else 0,
                  T_OP if r.random() < 0.35 and kind != "mem_write" else 0)

    # mastering disabled: nothing may be sent
    f.bus_master_enable = False
    n0 = mon.stats.get("tlps_sent", 0)
    for kind in ("mem_read", "mem_write", "io_read", "io_write"):
        op = Op(kind, 0x200, 8, bytes(8) if "write" in kind else None)
        await do_op(mon, f, op, rng, comp)
        mon.check(op.exc is not None, "master-disabled", lambda: f"{kind} with bus mastering disabled returned normally")
    mon.check(mon.stats.get("tlps_sent", 0) == n0, "master-disabled", "request sent with bus mastering disabled")
    f.bus_master_enable = True

    rounds = 4 if limits_change else 1
    for rd in range(rounds):
        new_limits()

        async def agent(seed):
            r = random.Random(seed)
            for k in range(max(1, ops // agents // rounds)):
                op = mk(r)
                led.add(op)
                alls.append(op)
                await do_op(mon, f, op, r, comp)
                if r.random() < 0.1:
                    await Timer(r.randrange(1, 2000), "ns")

        ts = [cocotb.start_soon(agent(rng.getrandbits(48))) for _ in range(agents)]
        for x in ts:
            await x.join()
        # operations that failed leave their other requests to finish
        await Timer(8 * T_OP, "ns")
        outcome = {id(s): (p.outcome if p else "ok") for s, p in pend}
        for op in alls:
            led.judge(op)
            judge_outcome(mon, op, comp, outcome)
        for x in comp.reqs:
            pass
        alls.clear()
        pend.clear()
        led.keys = {"mem": [], "io": []}
        led.ops = {"mem": [], "io": []}
        for t, p in list(comp.active.items()):
            mon.check(p.outcome in ("drop", "partial-drop"), "request-open", lambda: f"{p.req} still open after all operations ended ({p.outcome})")
            del comp.active[t]
    # credits: each completion handed over is released exactly once
    bad = [rec for rec in comp.created if rec[1] != 1]
    mon.check(not bad, "completion-credit", lambda: f"{len(bad)} of {len(comp.created)} completions released {sorted(set(b[1] for b in bad))} times instead of once")
    mon.count("completions_tracked", len(comp.created))
    # every tag is usable again
    limit = comp.tag_limit()
    comp.p_ur = comp.p_ca = comp.p_drop = 0
    comp.hold = Event()
    burst = []
    base = 1 << 40
    for k in range(limit + 20):
        op = Op("mem_read", base + 64 * k, 16)
        led.add(op)
        burst.append((op, cocotb.start_soon(do_op(mon, f, op, random.Random(k), comp))))
    await Timer(limit * 250 + 10000, "ns")
    mon.check(len(comp.active) == limit, "tags-lost", lambda: f"{len(comp.active)} of {limit} tags in use with {limit + 20} reads waiting")
    comp.hold.set()
    for op, t in burst:
        await t.join()
        mon.check(op.exc is None and op.result == ref_data(op.addr, 16, comp.salt), "read-data", lambda: f"{op}: {op.exc!r}")
    mon.count("full_tag_bursts")
    mon.sample(dict(function=str(f.pcie_id), tag_limit=limit, requests=len(comp.reqs), max_outstanding=comp.max_out))


class Responder(MemoryEndpoint):
    """Endpoint whose requests are answered by the harness"""
    capture = None

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        for t in (TlpType.IO_READ, TlpType.IO_WRITE, TlpType.MEM_READ, TlpType.MEM_READ_64, TlpType.MEM_WRITE, TlpType.MEM_WRITE_64):
            self.register_rx_tlp_handler(t, self.take)

    async def take(self, tlp):
        await self.capture(tlp)


async def rc(dut, mon, rng, ops=150, agents=6, errors=True, mps=0, mrrs=2, tag_count=32, fc="default", **kw):
    """Root complex as requester, through a real link, switch or not"""
    def factory():
        e = Responder()
        e.configure_bar(0, 1 << 26)
        e.configure_bar(1, 1 << 14, io=True)
        e.configure_bar(2, 1 << 40, ext=True, prefetch=True)
        return e

    t = Topo(mon, rng, rng.choice(["single", "switch"]), fc=fc, mps=mps, ep_factory=factory, max_mps_sup=5, ports=2)
    t.links.add(CreditMonitor(mon, t.expect_init))
    root = t.rc
    root.tag_count = tag_count
    await t.up()
    root.max_read_request_size = mrrs
    f = t.eps[-1]
    dev = t.pdev[f]
    lim = (128 << mps, 128 << mrrs)
    led = Ledger(mon, lambda: lim, lambda: PcieId(0, 0, 0))
    comp = Completer(mon, rng, f.send, lambda: f.pcie_id, lambda: tag_count, mps=128 << mps, rcb=rng.choice([64, 128]),
                     p_ur=0.03 if errors else 0, p_ca=0.03 if errors else 0, p_drop=0.15 if errors else 0, p_late=0.5, salt=rng.getrandbits(32))
    t_op = 150000
    comp.timeout_of = lambda s: led.find(s).timeout if led.find(s) else 0
    pend = []

    async def tx(tlp):
        s = Snap(tlp, get_sim_time("ns"))
        led.on_request(s)
        comp.start(tlp)
        op = led.find(s)
        if op is not None and op.reqs:
            op.reqs[-1] = comp.reqs[-1]
            pend.append((comp.reqs[-1], comp.active.get(comp.reqs[-1].tag) if s.cls == "NP" else None))

    f.capture = tx
    sent = {}
    orig_send = root.send

    async def send(tlp):
        sent.setdefault((tlp.tag, tlp.address), []).append(get_sim_time("ns"))
        await orig_send(tlp)

    root.send = send
    comp.sent_at = lambda s: sent[(s.tag, s.address)].pop(0) if sent.get((s.tag, s.address)) else None
    for e in t.eps:
        if e is not f:
            async def other(tlp):
                mon.violate("misrouted", f"{tlp!r} reached the wrong endpoint")
            e.capture = other
    nxt = {"mem": dev.bar_addr[0], "hi": dev.bar_addr[2] + (rng.getrandbits(24) << 12), "io": dev.bar_addr[1]}
    alls = []

    def mk(r):
        kind = r.choice(["mem_read"] * 4 + ["mem_write"] * 4 + ["io_read", "io_write"])
        sp = kind.split("_")[0]
        ln = rand_len(r, 9000 if r.random() < 0.1 else 1500) if sp == "mem" else r.choice([0, 1, 2, 3, 4, 5, 8, 13, 24])
        if sp == "io":
            a = nxt["io"] + r.randrange(4)
            nxt["io"] = ((a + ln) | 3) + 5
        else:
            reg = r.choice(["mem", "hi"])
            a = nxt[reg]
            if r.random() < 0.6:
                a = max(nxt[reg], ((a + 4095 + ln) & ~4095) - r.randrange(0, ln + 8))
            else:
                a += r.choice([0, 0, r.randrange(4), r.randrange(256)])
            nxt[reg] = ((a + ln) | 3) + 5
        return Op(kind, a, ln, r.randbytes(ln) if "write" in kind else None, r.randrange(8) if sp == "mem" else 0, r.choice([0, 0, 1, 2, 4, 7]) if sp == "mem" else 0,
                  t_op if r.random() < 0.35 and kind != "mem_write" else 0)

    # configuration requests on the final link
    cfgs = []

    class CfgSpy:
        def tx_start(self, dd, is_tlp, pkt):
            pass

        def accepted(self, dd, is_tlp, pkt):
            pass

        def finish(self, dd):
            pass

        def deliver(self, dd, s):
            pass

        def arrive(self, dd, is_tlp, s):
            if is_tlp and s.name.startswith("CFG_") and dd.name.endswith(":down") and dd is t.links.dirs[-2]:
                cfgs.append(s)

    t.links.add(CfgSpy())

    async def config_ops(n):
        r = random.Random(rng.getrandbits(32))
        for k in range(n):
            ln = r.choice([1, 1, 2, 2, 3, 4, 4, 5, 8, 13, 64])
            wr = r.random() < 0.4
            off = 0x3c if wr else r.randrange(0, 0x140)
            if wr:
                ln = 1
            n0 = len(cfgs)
            data = r.randbytes(ln)
            if wr:
                await root.config_write(f.pcie_id, off, data)
            else:
                got = await root.config_read(f.pcie_id, off, ln)
                mon.check(len(got) == ln, "config-length", f"config_read of {ln} bytes returned {len(got)}")
            seen = []
            for s in cfgs[n0:]:
                mon.check(s.name == ("CFG_WRITE_0" if wr else "CFG_READ_0") and s.length == 1 and s.last_be == 0 and s.tc == 0 and s.attr == 0 and s.completer_id == int(f.pcie_id) and s.address < 4096,
                          "config-shape", lambda: f"{s}")
                for i in range(4):
                    if s.first_be >> i & 1:
                        seen.append(s.address + i)
                        if wr:
                            mon.check(s.data[i] == data[s.address + i - off], "write-data", lambda: f"{s} wrong data")
            mon.check(seen == list(range(off, off + ln)), "config-coverage", lambda: f"config {'write' if wr else 'read'} at {off:#x}+{ln}: bytes {seen}")
            if wr:
                mon.check(f.interrupt_line == data[0], "write-data", "interrupt line not written")
            mon.count("ops_config")
            mon.sig("cfg", wr, off & 3, ln)

    tasks = [cocotb.start_soon(config_ops(60))]

    async def agent(seed):
        r = random.Random(seed)
        for k in range(max(1, ops // agents)):
            op = mk(r)
            led.add(op)
            alls.append(op)
            await do_op(mon, root, op, r, comp)
            if r.random() < 0.1:
                await Timer(r.randrange(1, 2000), "ns")

    tasks += [cocotb.start_soon(agent(rng.getrandbits(48))) for _ in range(agents)]
    for x in tasks:
        await x.join()
    await Timer(3 * t_op, "ns")
    outcome = {id(s): (p.outcome if p else "ok") for s, p in pend}
    for op in alls:
        led.judge(op)
        judge_outcome(mon, op, comp, outcome)
    for tg, p in list(comp.active.items()):
        mon.check(p.outcome in ("drop", "partial-drop"), "request-open", lambda: f"{p.req} still open after all operations ended ({p.outcome})")
        del comp.active[tg]
    mon.count("completions_tracked", len(comp.created))
    comp.p_ur = comp.p_ca = comp.p_drop = 0
    comp.hold = Event()
    burst = []
    base = nxt["mem"] + 0x1000 & ~0xfff
    for k in range(tag_count + 20):
        op = Op("mem_read", base + 64 * k, 16)
        led.add(op)
        burst.append((op, cocotb.start_soon(do_op(mon, root, op, random.Random(k), comp))))
    await Timer(200, "us")
    mon.check(len(comp.active) == tag_count, "tags-lost", lambda: f"{len(comp.active)} of {tag_count} tags in use with {tag_count + 20} reads waiting")
    comp.hold.set()
    for op, tk in burst:
        await tk.join()
        mon.check(op.exc is None and op.result == ref_data(op.addr, 16, comp.salt), "read-data", lambda: f"{op}: {op.exc!r}")
    mon.count("full_tag_bursts")
    await Timer(100, "us")
    t.links.finish()
    mon.sample(dict(requester="root complex", mps=128 << mps, mrrs=128 << mrrs, requests=len(comp.reqs), max_outstanding=comp.max_out))
