"""The hard IP device models: what their user interfaces show and take must
be what crosses the link, for every mix of traffic and every readiness."""
import random

import cocotb
from cocotb.queue import Queue
from cocotb.triggers import Event, First, Lock, RisingEdge, Timer
from cocotb.utils import get_sim_time

from cocotbext.pcie.core.tlp import CplStatus, Tlp, TlpAttr, TlpTc, TlpType
from cocotbext.pcie.core.utils import PcieId
from cocotbext.pcie.intel.ptile.interface import PTilePcieFrame
from cocotbext.pcie.intel.s10.interface import S10PcieFrame

from scen.link import rand_tlp
from scen.respond import mkreq, rand_shape
from vlib import ref_tlp as R
from vlib.completer import Completer, ref_data, split_points
from vlib.hip import (OrderedExpect, Rec, Tb, cc_desc, cq_desc, dwords, rc_desc, rq_desc, show, strip_par, odd_parity)
from vlib.links import CreditMonitor
from vlib.snap import Snap

CFG_TAGS = range(224, 240)
UR_TAGS = range(240, 256)


def frame_eq(got, want):
    return show(got, want) if got.diff(want) else None


def snap_eq(fields):
    def eq(got, want):
        """want: dict of fields"""
        bad = {k: (getattr(got, k), want[k]) for k in fields if k in want and getattr(got, k) != want[k]}
        return f"{got}: {({k: (f'{a:#x}' if isinstance(a, int) else a, f'{b:#x}' if isinstance(b, int) else b) for k, (a, b) in bad.items() if k != 'data'})}{' data' if 'data' in bad else ''} (got, expected)" if bad else None
    return eq


CPL_FIELDS = ("name", "requester_id", "completer_id", "tag", "tc", "attr", "status", "byte_count", "lower_address", "length", "ep", "data")
REQ_FIELDS = ("name", "requester_id", "tag", "tc", "attr", "at", "length", "first_be", "last_be", "address", "ep", "data")


class HostCheck:
    """Completions the model makes on its own account"""

    def __init__(self, tb):
        self.tb = tb
        self.ur = {}
        self.cfg = {}
        self.order = 0

    def own(self, s):
        """True when the completion is not the user's"""
        mon = self.tb.mon
        if s.cls != "CPL":
            return False
        if s.requester_id == 0 and s.tag < 32:
            return True     # the host's own configuration accesses
        if s.tag in self.ur:
            q = self.ur.pop(s.tag)
            mon.check(s.status == 1 and s.requester_id == q.requester_id and s.tc == q.tc and s.attr == q.attr and not s.data and s.completer_id >> 8 == self.tb.bus, "ur-completion",
                      lambda: f"{s} answers {q}, which matches no range of the device")
            mon.count("unsupported_answered")
            return True
        if s.tag in self.cfg:
            want, cid = self.cfg.pop(s.tag)
            mon.check(s.status == 0 and s.completer_id == cid and s.data == want, "cfg-completion", lambda: f"{s}: configuration read expected {want.hex()} from {cid:#x}")
            mon.count("config_answered")
            return True
        return False


async def host_traffic(tb, hc, r, n, expect, kinds=("P", "NP"), gap=200, extras=True):
    """n requests to the device; expect(snap, fn, bar, type, size) for those
    that belong to a function"""
    mon = tb.mon
    for k in range(n):
        if gap and r.random() < 0.5:
            await Timer(r.randrange(1, gap), "ns")
        x = r.random()
        if extras and x < 0.06:
            a, t = tb.nobody(r)
            if a is None:
                continue
            w = r.random() < 0.4
            free = [t for t in UR_TAGS if t not in hc.ur]
            if not free:
                continue
            nm = ("IO_" if t == "io" else "MEM_") + ("WRITE" if w else "READ") + ("_64" if t != "io" and a >> 32 else "")
            q = mkreq(nm, 0, free[0], a, 1, 0xf, 0, 0, 0, bytes(4) if w else None)
            s = Snap(q)
            if s.cls == "NP":
                hc.ur[free[0]] = s
            mon.count("requests_to_nobody")
            await tb.rc.send(q)
            continue
        if extras and x < 0.12:
            free = [t for t in CFG_TAGS if t not in hc.cfg]
            f = r.choice(tb.fns)
            if free:
                q = mkreq("CFG_READ_1", 0, free[0], 0, 1, 0xf, 0, 0, 0, None, int(f.pcie_id))
                hc.cfg[free[0]] = ((f.vendor_id | f.device_id << 16).to_bytes(4, "little"), int(f.pcie_id))
                await tb.rc.send(q)
            continue
        q, fn, bar, t, size = tb.rand_host(r, k, kinds)
        expect(Snap(q), fn, bar, t, size)
        await tb.rc.send(q)


def to_device(tb, s):
    return s.cls != "CPL" and not s.name.startswith("CFG")


def user_completions(r, s, fn, bus, mps, devfn_noise=True):
    """Plain fields of the completions a user design returns for request s"""
    base = dict(rid=s.requester_id, tag=s.tag, tc=s.tc, attr=s.attr, status=0, ep=False)
    if r.random() < 0.3:
        base["cid"], base["cid_en"] = r.choice([bus << 8 | fn, bus << 8 | fn, r.randrange(0x10000)]), True
    else:
        base["cid"], base["cid_en"] = r.randrange(256) << 8 | fn, False
    base["locked"] = r.random() < 0.04
    if r.random() < 0.08:
        return [dict(base, status=r.choice([1, 4]), bc=r.choice([4, r.randrange(4097)]), lower=r.randrange(128), length=0, data=b"")]
    if "WRITE" in s.name:
        return [dict(base, bc=4, lower=0, length=0, data=b"")]
    if s.name.startswith("IO"):
        return [dict(base, bc=4, lower=0, length=1, data=r.randbytes(4))]
    be = s.last_be if s.length > 1 else s.first_be
    start = s.address + next((i for i in range(4) if s.first_be >> i & 1), 0)
    end = s.address + 4 * (s.length - 1) + (be.bit_length() if be else 1)
    out = []
    for a, b in split_points(r, start, end, 128 << mps, 64, r.choice(["rcb", "big", "rand"])):
        lo, hi = a & ~3, (b + 3) & ~3
        out.append(dict(base, bc=end - a, lower=a & 0x7f, length=(hi - lo) // 4, data=r.randbytes(hi - lo), ep=r.random() < 0.03))
    return out


def cpl_want(tb, f):
    cid = f["cid"] if f["cid_en"] else tb.bus << 8 | f["cid"] & 0xff
    nm = "CPL" + ("_LOCKED" if f["locked"] else "") + ("_DATA" if f["length"] else "")
    return dict(name=nm, requester_id=f["rid"], completer_id=cid, tag=f["tag"], tc=f["tc"], attr=f["attr"], status=f["status"], byte_count=f["bc"], lower_address=f["lower"],
                length=f["length"], ep=f["ep"], data=f["data"])


async def run_queue(r, pend, send, more):
    """Sends lists of items in random interleaving, each list in order"""
    while True:
        if not pend:
            more.clear()
            await more.wait()
            continue
        k = r.randrange(min(len(pend), 6))
        item = pend[k].pop(0)
        if not pend[k]:
            pend.pop(k)
        await send(item)


async def completer(dut, mon, rng, flav="usp", width=256, pf=1, mps=0, straddle=None, parity=False, n=200, np_mode="mixed", rounds=3, background=True):
    """Completer request and completer completion interfaces"""
    tb = Tb(dut, mon, rng, flav, width, pf=pf, mps=mps, straddle=straddle, parity=parity)
    await tb.setup()
    r = random.Random(rng.getrandbits(48))
    hc = HostCheck(tb)
    name = f"{flav}{width}"
    exp = OrderedExpect(mon, f"{name} cq", frame_eq)
    info = {}       # id of expected frame -> (snap, fn)
    meta = []       # per request given to the host side, in send order

    def expect(s, fn, bar, t, size):
        meta.append((s.content(), fn, bar, t, size))

    bytag = {}

    def on_in(s):
        """a request reaches the device: from here on the interface owes it"""
        if not to_device(tb, s):
            return
        c = s.content()
        k = next((k for k, m in enumerate(meta) if m[0] == c), None)
        if k is None:
            return      # a request that matches nothing
        _, fn, bar, t, size = meta.pop(k)
        w = cq_desc(s, fn, bar, size)
        info[id(w)] = (s, fn, w)
        exp.push(s.cls, w)
        mon.sig(flav, width, s.name, len(s.data) % 64, s.first_be, s.last_be, fn, bar, t)

    tb.on_in.append(on_in)

    # non-posted flow control
    st = dict(req=0, pulses=0, np=0)

    async def np_watch():
        while True:
            await tb.edge
            if int(dut.cq_np_req.value):
                st["pulses"] += 1

    cocotb.start_soon(np_watch())

    # user side completions
    cexp = OrderedExpect(mon, f"{name} cc", snap_eq(CPL_FIELDS))
    pend = []
    more = Event()

    async def send_cc(f):
        disc = not straddle and r.random() < 0.04
        fr = tb.us_frame(cc_desc(f) + dwords(f["data"]), discontinue=disc)
        if not disc:
            cexp.push("CPL", cpl_want(tb, f))
        else:
            mon.count("discontinued")
        await tb.cc.send(fr)
        if r.random() < 0.2:
            await Timer(r.randrange(1, 200), "ns")

    cocotb.start_soon(run_queue(r, pend, send_cc, more))

    def on_out(s):
        if hc.own(s):
            return
        if s.cls == "CPL":
            cexp.take("CPL", s)
            mon.count("completions_to_host")
            mon.sig("cc", flav, width, s.status, len(s.data) % 64, s.lower_address & 3)

    tb.on_out.append(on_out)

    async def user():
        k = 0
        while True:
            await tb.edge
            while k < len(tb.cqdec.out):
                f = strip_par(mon, tb.cqdec.out[k], parity, name)
                k += 1
                cls = "P" if f.data[2] >> 11 & 15 == 1 else "NP"
                w = exp.take(cls, f)
                mon.count("requests_" + cls)
                if cls == "NP":
                    st["np"] += 1
                    mon.check(st["np"] <= st["pulses"], "np-credit", lambda: f"{name}: {st['np']} non-posted requests delivered, {st['pulses']} asked for")
                if cls == "NP" and w is not None:
                    s, fn, _ = info[id(w)]
                    pend.append(user_completions(r, s, fn, tb.bus, mps))
                    more.set()

    cocotb.start_soon(user())

    if background:
        # other users of the transmit path
        async def bg():
            while True:
                n = r.randrange(1, 16)
                fn = r.randrange(pf)
                d = rq_desc(dict(addr=r.randrange(1 << 20) & ~0xfff, length=n, rt=1, rid=fn, tag=0, tc=0, attr=0)) + [r.getrandbits(32) for _ in range(n)]
                await tb.rq.send(tb.us_frame(d, first_be=0xf, last_be=0xf if n > 1 else 0))
                await Timer(r.randrange(50, 3000), "ns")
        cocotb.start_soon(bg())

    async def pulser():
        """single requests at any time, never more than the counter holds"""
        while st["req"]:
            if st["pulses"] - st["np"] < 20 and r.random() < st["req"]:
                dut.cq_np_req.value = 1
            else:
                dut.cq_np_req.value = 0
            await tb.edge
        dut.cq_np_req.value = 0
        await tb.idle(2)

    async def give(k):
        """exactly k single-cycle requests"""
        for _ in range(k):
            dut.cq_np_req.value = 1
            await tb.edge
            dut.cq_np_req.value = 0
            for _ in range(r.choice([0, 1, 2, 5])):
                await tb.edge

    for rd in range(rounds):
        mode = np_mode if np_mode != "mixed" else ["held", "pulse", "none"][rd % 3]
        task = None
        if mode == "held":
            # held with the counter saturating
            while int(dut.cq_np_req.value) == 0:
                dut.cq_np_req.value = 1
                await tb.edge
            await host_traffic(tb, hc, r, n, expect, gap=r.choice([0, 100, 400]))
            await tb.quiesce(lambda: not meta and exp.pending() == 0 and cexp.pending() == 0 and not pend and not hc.ur and not hc.cfg, f"{name}: traffic with non-posted requests enabled")
            await tb.idle(60)
            dut.cq_np_req.value = 0
            await tb.idle(2)
            # the counter saturates
            await tb.idle(3)
            cnt = int(dut.cq_np_req_count.value)
            mon.check(cnt == 32, "np-count", lambda: f"{name}: request count {cnt} after being held for a long time, the maximum is 32")
            # use up what is left over
            await host_traffic(tb, hc, r, 32, expect, kinds=("NP",), extras=False)
            await tb.quiesce(lambda: not meta and exp.pending() == 0, f"{name}: left over requests")
            await tb.idle(5)
            cnt = int(dut.cq_np_req_count.value)
            mon.check(cnt == 0, "np-count", lambda: f"{name}: request count {cnt} after 32 further requests")
            st["pulses"] = st["np"]
            mon.count("np_held_rounds")
        elif mode == "pulse":
            st["req"] = r.choice([0.02, 0.1, 0.5])
            task = cocotb.start_soon(pulser())
            await host_traffic(tb, hc, r, n // 2, expect, gap=r.choice([100, 400]))
            st["req"] = max(st["req"], 0.1)
            await tb.quiesce(lambda: not meta and exp.pending() == 0 and cexp.pending() == 0 and not pend and not hc.ur and not hc.cfg, f"{name}: traffic with pulsed non-posted requests", 2000)
            st["req"] = 0
            await task.join()
            await tb.idle(5)
            left = st["pulses"] - st["np"]
            cnt = int(dut.cq_np_req_count.value)
            mon.check(cnt == left, "np-count", lambda: f"{name}: request count {cnt} after {st['pulses']} requests and {st['np']} deliveries")
            mon.count("np_pulsed_rounds")
            if left:
                await host_traffic(tb, hc, r, left, expect, kinds=("NP",), extras=False)
                await tb.quiesce(lambda: not meta and exp.pending() == 0, f"{name}: left over requests")
        else:
            # none wanted: posted requests pass, non-posted wait, then exactly
            # as many come as are asked for, whatever the interface is doing
            base = st["np"]
            await host_traffic(tb, hc, r, 40, expect, gap=30)
            await tb.quiesce(lambda: not meta and exp.pending("P") == 0, f"{name}: posted requests while non-posted ones wait")
            await tb.idle(50)
            mon.check(st["np"] == base, "np-credit", lambda: f"{name}: {st['np'] - base} non-posted requests delivered without being asked for")
            wait = exp.pending("NP")
            k = min(wait, r.randrange(1, 20))
            # the interface is stalled, or not, while they are asked for
            tb.stall["cq"] = r.random() < 0.6
            # and has something to send
            await host_traffic(tb, hc, r, 4, expect, kinds=("P",), extras=False, gap=0)
            await tb.idle(r.choice([0, 5, 60]))
            await give(k)
            await tb.idle(r.choice([0, 10, 100]))
            tb.stall["cq"] = False
            await tb.quiesce(lambda: not meta and exp.pending("P") == 0 and st["np"] - base == k, f"{name}: {k} single requests for non-posted packets ({wait} waiting)")
            await tb.idle(100)
            mon.check(st["np"] - base == k, "np-credit", lambda: f"{name}: {st['np'] - base} non-posted requests delivered for {k} requests")
            mon.count("np_counted_rounds")
            mon.count("np_pulses_counted", k)
            # the rest
            st["req"] = 0.5
            task = cocotb.start_soon(pulser())
            await tb.quiesce(lambda: exp.pending() == 0 and cexp.pending() == 0 and not pend, f"{name}: remaining non-posted requests")
            st["req"] = 0
            await task.join()
            await tb.idle(5)
            left = st["pulses"] - st["np"]
            if left:
                await host_traffic(tb, hc, r, left, expect, kinds=("NP",), extras=False)
                await tb.quiesce(lambda: not meta and exp.pending() == 0, f"{name}: left over requests")
    await tb.quiesce(lambda: not meta and exp.pending() == 0 and cexp.pending() == 0 and not pend and not hc.ur and not hc.cfg, f"{name}: everything")
    mon.check(tb.cqdec.cur is None, "axis-framing", f"{name}: unfinished packet")
    mon.count("stalled_beats", tb.cqdec.stalls)
    mon.count("straddled_beats", tb.cqdec.straddled)
    mon.sample(dict(device=name, functions=pf, ranges=[(k, i, t, hex(z)) for k, i, t, z, a in tb.space], requests=exp.matched, completions=cexp.matched))


# ---------------------------------------------------------------------------
# requester side

RT_NAME = ["MEM_READ", "MEM_WRITE", "IO_READ", "IO_WRITE", "FETCH_ADD", "SWAP", "CAS"]
NORMAL, POISONED, BAD_STATUS, NO_DATA, MISMATCH, BAD_ADDRESS, BAD_TAG = range(7)


class Stuck(Exception):
    pass


class UserCompleter(Completer):
    def piece(self, s, pc, pieces):
        if s.name.startswith(("FETCH", "SWAP", "CAS")):
            n = s.length // 2 if s.name.startswith("CAS") else s.length
            return self.mk(s, CplStatus.SC, ref_data(s.address, 4 * n), 4 * n, 0)
        return super().piece(s, pc, pieces)


def start_of(s):
    return s.address + next((i for i in range(4) if s.first_be >> i & 1), 0)


def bytes_of(s):
    """number of bytes between the first and the last enabled one"""
    be = s.last_be if s.length > 1 else s.first_be
    return s.address + 4 * (s.length - 1) + (be.bit_length() if be else 1) - start_of(s)


class RcRef:
    """What the requester completion interface has to show for each completion
    that arrives, from the requests that were sent before"""

    def __init__(self, fids):
        self.fids = fids
        self.active = {}
        self.queue = []

    def sent(self, s):
        self.active[s.tag] = s

    def arrived(self, s):
        """(frame, fault) or None when nothing is to be shown"""
        if s.requester_id not in self.fids:
            return None
        q = self.active.get(s.tag)
        err = POISONED if s.ep else NORMAL
        lower, done = s.lower_address, False
        if q is None:
            err = BAD_TAG
        elif (s.requester_id, s.tc, s.attr) != (q.requester_id, q.tc, q.attr):
            err = MISMATCH
        elif s.status:
            err, done = BAD_STATUS, True
        elif q.name.startswith("MEM_READ"):
            full = start_of(q) + bytes_of(q) - s.byte_count
            if full & 0x7f != lower:
                err = BAD_ADDRESS
            else:
                lower = full & 0xfff
            done = s.byte_count <= 4 * s.length - (lower & 3)
            if not s.data:
                err, done = NO_DATA, True
        else:
            done = True
        if done:
            del self.active[s.tag]
        return rc_desc(s, lower, err, done), err


def flip_lower(r, c):
    c.lower_address ^= 1 << r.randrange(2, 7)


async def requester(dut, mon, rng, **kw):
    """Requester request and requester completion interfaces"""
    try:
        await requester_run(dut, mon, rng, **kw)
    except Stuck:
        pass


async def requester_run(dut, mon, rng, flav="usp", width=256, pf=1, mps=0, straddle=None, parity=False, client_tag=True, ext_tag=False, n=250, faults=True, io_burst=0, rounds=2):
    tb = Tb(dut, mon, rng, flav, width, pf=pf, mps=mps, straddle=straddle, parity=parity, client_tag=client_tag, ext_tag=ext_tag)
    await tb.setup()
    r = random.Random(rng.getrandbits(48))
    name = f"{flav}{width}"
    total = min(256 if ext_tag else 32, 64 if flav == "us" else 256)
    nclient = min(total, 250)
    hc = HostCheck(tb)
    fids = [int(f.pcie_id) for f in tb.fns]
    ref = RcRef(set(fids))
    exp = OrderedExpect(mon, f"{name} rq", snap_eq(REQ_FIELDS))
    rcq = []        # expected completion frames, in the order they arrive
    st = dict(extra=0, limit=28 if flav == "us" else 200, used=0, rcn=0, p_fault=0)
    cost_of = {}    # tag -> buffer space set aside for it (client tags), or list of costs
    tags_busy = set()
    np_seen = Event()
    freed = Event()

    comp = UserCompleter(mon, r, None, lambda: PcieId(0, 1, 0), lambda: total, mps=128 << mps, rcb=64, delay=600, p_ur=0.02, p_ca=0.02)

    async def send(c):
        q = ref.active.get(c.tag)
        if faults and r.random() < st["p_fault"] and q is not None:
            x = r.choice(["tag", "mismatch", "lower", "nodata", "poison", "absent"])
            if x in ("tag", "mismatch", "absent") and st["extra"] >= 5:
                x = "poison"
            d = Tlp(c)
            if x == "tag":
                if nclient == 256 or (not client_tag and total == 256):
                    x = ""
                else:
                    d.tag = r.randrange(total if total < 256 else nclient, 256)
            elif x == "mismatch":
                if r.random() < 0.4:
                    d.tc = TlpTc(d.tc ^ r.randrange(1, 8))
                elif pf > 1 and r.random() < 0.5:
                    d.requester_id = PcieId.from_int(r.choice([i for i in fids if i != int(d.requester_id)]))
                else:
                    d.attr = TlpAttr(d.attr ^ r.randrange(1, 8))
            elif x == "absent":
                d.requester_id = d.requester_id._replace(function=r.randrange(pf, 8))
            if x in ("tag", "mismatch", "absent"):
                if x != "absent":
                    st["extra"] += 1
                await tb.rc.send(d)
            elif x == "lower" and q.name.startswith("MEM") and c.status == CplStatus.SC:
                flip_lower(r, c)
            elif x == "nodata" and q.name.startswith("MEM") and c.status == CplStatus.SC and c.byte_count <= 4 * c.length - (c.lower_address & 3):
                c.fmt_type = TlpType.CPL
                c.data = bytearray()
                c.length = 0
            elif x == "poison" and c.status == CplStatus.SC and c.has_data():
                c.ep = True
        await tb.rc.send(c)

    comp.send = send
    tb.host_np = lambda tlp: comp.start(Tlp(tlp))
    seqs = []       # sequence numbers of transmitted requests
    nptags = []

    def on_out(s):
        if hc.own(s):
            return
        w = exp.take("P" if s.cls == "P" else "NP" if s.cls == "NP" else "CPL", s)
        if s.cls == "NP":
            ref.sent(s)
            nptags.append(s.tag)
            if not client_tag and w is not None:
                w["cost_tag"] = s.tag
                cost_of[s.tag] = w["cost"]
        if w is not None:
            seqs.append((s.cls, w["seq"]))
        mon.count("requests_" + s.cls)
        mon.sig("rq", flav, width, s.name, len(s.data) % 64, s.first_be, s.last_be)

    def on_in(s):
        if s.cls != "CPL":
            return
        w = ref.arrived(s)
        if w is None:
            mon.count("completions_for_absent_function")
            return
        rcq.append((w[0], w[1], s, cost_of.pop(s.tag) if w[0].data[0] >> 30 & 1 else 0))
        mon.count(f"completions_code_{w[1]}")
        mon.sig("rc", flav, width, w[1], len(s.data) % 64, s.lower_address & 3, s.status)

    tb.on_out.append(on_out)
    tb.on_in.append(on_in)

    async def user_rx():
        k = 0
        while True:
            await tb.edge
            while k < len(tb.rcdec.out):
                f = strip_par(mon, tb.rcdec.out[k], parity, f"{name} rc")
                k += 1
                if not mon.check(bool(rcq), "unexpected", lambda: f"{name} rc: packet without a completion {f.data[:3]}"):
                    continue
                w, err, s, cost = rcq.pop(0)
                d = frame_eq(f, w)
                mon.check(d is None, "content", lambda: f"{name} rc: {s}: {d}")
                if err in (BAD_TAG, MISMATCH):
                    st["extra"] -= 1
                if w.data[0] >> 30 & 1:
                    tag = w.data[2] & 0xff
                    st["used"] -= cost
                    tags_busy.discard(tag)
                    freed.set()

    async def side():
        """sequence numbers and tags reported to the user"""
        wide = width == 512 and flav == "usp"
        while True:
            await tb.edge
            for i in range(2 if wide else 1):
                if int(getattr(dut, f"rq_seq_num_vld{i}").value):
                    seq_got.append(int(getattr(dut, f"rq_seq_num{i}").value))
                if int(getattr(dut, f"rq_tag_vld{i}").value):
                    tag_got.append(int(getattr(dut, f"rq_tag{i}").value))

    seq_got, tag_got = [], []
    cocotb.start_soon(user_rx())
    cocotb.start_soon(side())
    off = set()     # functions without bus mastering

    async def wait_freed():
        freed.clear()
        if await First(freed.wait(), Timer(400, "us")) is not freed and not freed.is_set():
            mon.violate("stuck", f"{name}: no request completed within 400 us, {len(comp.active)} outstanding, {exp.pending('NP')} not sent")
            raise Stuck()

    def pieces(f):
        return 2 + f["length"] // 16 if f["rt"] == 0 else 1

    async def one(kinds, small=False, sure=False):
        """one request of the user"""
        while True:
            rt = r.choice(kinds)
            fn = r.randrange(pf)
            f = dict(rt=rt, tc=r.randrange(8), attr=r.randrange(8), at=r.choice([0, 0, 0, 1, 2]), ep=False, tag=0)
            be = 0xf, 0
            if rt < 2:
                a = r.choice([r.randrange(1 << 31), r.randrange(1 << 31), r.randrange(1 << 12), r.getrandbits(64) | 1 << 40]) & ~3
                if a >> 63:
                    a ^= 1 << 63
                room = (st["limit"] // 2 - 2) * 16 if rt == 0 else 32 << mps
                ln, fb, lb = rand_shape(r, 8 if small else min(1024, room))
                if ln == 2:
                    a &= ~7
                ln = min(ln, (4096 - a % 4096) // 4)
                if ln == 1:
                    lb = 0
                be = fb, lb
            elif rt < 4:
                a, ln, be, f["tc"], f["attr"], f["at"] = r.randrange(1 << 31) & ~3, 1, (r.randrange(1, 16), 0), 0, 0, 0
            else:
                sz = r.choice([1, 2, 4] if rt == 6 else [1, 2])
                a = r.choice([r.randrange(1 << 31), r.getrandbits(48) | 1 << 40]) & ~(8 * sz - 1)
                ln, be = sz * 2 if rt == 6 else sz, (0xf, 0xf if sz * (2 if rt == 6 else 1) > 1 else 0)
            f["addr"], f["length"] = a, ln
            np_ = rt != 1
            f["cost"] = pieces(f)
            if np_ and st["used"] + f["cost"] > st["limit"]:
                kinds = [1] if 1 in kinds else kinds
                if kinds != [1]:
                    await wait_freed()
                continue
            if np_ and client_tag:
                free = [t for t in range(nclient) if t not in tags_busy]
                if not free:
                    await wait_freed()
                    continue
                f["tag"] = r.choice(free)
            break
        rid_en = r.random() < 0.25
        f["rid_en"] = rid_en
        f["rid"] = fids[fn] if rid_en else r.randrange(256) << 8 | fn
        if rid_en and not np_:
            f["rid"] = r.getrandbits(13) << 3 | fn
        if rt in (1, 3, 4, 5, 6):
            f["data"] = r.randbytes(4 * ln)
            f["ep"] = r.random() < 0.03
        else:
            f["data"] = b""
        if not np_ or not client_tag:
            f["tag"] = r.randrange(32)
        f["seq"] = seq = r.randrange(8) * 2 + (1 if np_ else 0) + (16 * r.randrange(4) if flav == "usp" else 0)
        disc = not straddle and not sure and r.random() < 0.03
        fr = tb.us_frame(rq_desc(f) + dwords(f["data"]), first_be=be[0], last_be=be[1], discontinue=disc, seq_num=seq)
        if disc:
            mon.count("discontinued")
        elif fn in off:
            mon.count("requests_without_mastering")
        else:
            nm = RT_NAME[rt] + ("_64" if a >> 32 else "")
            w = dict(name=nm, requester_id=f["rid"] if rid_en else tb.bus << 8 | fn, tc=f["tc"], attr=f["attr"], at=f["at"], length=ln, first_be=be[0], last_be=be[1], address=a, ep=f["ep"],
                     data=f["data"], seq=seq, cost=f["cost"])
            if not np_ or client_tag:
                w["tag"] = f["tag"]
            if np_:
                st["used"] += f["cost"]
                if client_tag:
                    tags_busy.add(f["tag"])
                    cost_of[f["tag"]] = f["cost"]
            exp.push("NP" if np_ else "P", w)
        await tb.rq.send(fr)

    def idle():
        return exp.pending() == 0 and not rcq and not comp.active and not ref.active and st["used"] == 0 and tb.rq.idle()

    async def settle(what, us=600):
        ok = await tb.quiesce(idle, f"{name}: {what}", us)
        await tb.idle(40)
        mon.check([s & 1 for s in seq_got].count(0) == sum(c == "P" for c, _ in seqs) and len(seq_got) == len(seqs), "seq-num", lambda: f"{name}: {len(seq_got)} sequence numbers reported, {len(seqs)} requests transmitted")
        if client_tag:
            k = next((k for k in range(min(len(seqs), len(seq_got))) if seqs[k][1] != seq_got[k]), None)
            mon.check(k is None, "seq-num", lambda: f"{name}: sequence number {k} is {seq_got[k]}, transmitted was {seqs[k]}")
        else:
            for c, b in (("P", 0), ("NP", 1)):
                mon.check([x for x in seq_got if x & 1 == b] == [x for k, x in seqs if k == c], "seq-num", lambda: f"{name}: sequence numbers of {c} requests differ from the order of transmission")
            mon.check(tag_got == nptags, "rq-tag", lambda: f"{name}: reported tags {tag_got[-8:]} ({len(tag_got)}), tags of transmitted requests {nptags[-8:]} ({len(nptags)})")
            av = int(dut.rq_tag_av.value)
            mx = 15 if flav == "usp" else 3
            mon.check(av == min(mx, total - len(ref.active)), "tag-av", lambda: f"{name}: {av} tags available with {len(ref.active)} of {total} in use")
        mon.count("sequence_numbers", len(seq_got))
        mon.count("tags_reported", len(tag_got))
        for x in (seqs, seq_got, tag_got, nptags):
            x.clear()
        return ok

    bg = dict(on=True)

    async def host_bg():
        while bg["on"]:
            q, fn, bar, t, size = tb.rand_host(r, 0, ("P",))
            await tb.rc.send(q)
            await Timer(r.randrange(50, 3000), "ns")

    cocotb.start_soon(host_bg())
    for rd in range(rounds):
        st["p_fault"] = r.choice([0.05, 0.2])
        kinds = r.choice([[0, 1], [0, 1, 2, 3], [0, 0, 0, 1]])
        for _ in range(n):
            await one(kinds)
            if r.random() < 0.1:
                await Timer(r.randrange(1, 2000), "ns")
        if not await settle("requests and their completions"):
            return
        # requests of a function without bus mastering go nowhere
        fn = r.randrange(pf)
        await tb.pdev[fn].clear_master()
        off.add(fn)
        for _ in range(12):
            await one([0, 1, 3])
        if not await settle("requests while one function may not send"):
            return
        await tb.pdev[fn].set_master()
        off.clear()
        if not client_tag:
            # all tags in use, posted requests still flow
            st["p_fault"] = 0
            hold = comp.hold = Event()
            lim = st["limit"]
            st["limit"] = 10000
            extra = r.randrange(1, 20)
            left = r.randrange(0, 4)
            for _ in range(total - left):
                await one([2, 3], sure=True)
            await tb.quiesce(lambda: exp.pending() == 0 and tb.rq.idle(), f"{name}: {total - left} requests outstanding")
            await tb.idle(60)
            mx = 15 if flav == "usp" else 3
            av = int(dut.rq_tag_av.value)
            mon.check(av == min(mx, left), "tag-av", lambda: f"{name}: {av} tags available with {total - left} of {total} in use")
            for _ in range(left + min(extra, 6)):
                await one([2, 3], sure=True)
            for _ in range(10):
                await one([1], True)
            await tb.quiesce(lambda: exp.pending("P") == 0, f"{name}: posted requests while all tags are in use")
            await tb.idle(100)
            mon.check(exp.pending("NP") == min(extra, 6) and len(comp.active) == total, "tag-limit", lambda: f"{name}: {len(comp.active)} requests outstanding of {total}, {exp.pending('NP')} waiting")
            hold.set()
            for _ in range(extra):
                await one([2, 3])
            st["limit"] = lim
            await tb.quiesce(idle, f"{name}: requests that waited for tags")
            comp.hold = None
            mon.count("tag_exhaustions")
            if not await settle("requests after all tags had been in use"):
                return
    if io_burst:
        st["p_fault"] = 0
        comp.delay = 0
        for _ in range(io_burst):
            await one([3])
        await one([2])
        await one([0])
        if not await settle(f"{io_burst} I/O writes", 2000):
            return
        mon.count("io_write_bursts")
    bg["on"] = False
    mon.check(tb.rcdec.cur is None, "axis-framing", f"{name}: unfinished packet")
    mon.count("stalled_beats", tb.rcdec.stalls)
    mon.count("straddled_beats", tb.rcdec.straddled)
    mon.sample(dict(device=name, functions=pf, tags=total, client_tags=client_tag, requests=exp.matched, most_outstanding=comp.max_out))


# ---------------------------------------------------------------------------
# Intel: headers and payload as they are

def enc_fields(s):
    """fields of a snapshot for the reference header encoder"""
    f = {k: int(getattr(s, k)) for k in ("tc", "ln", "th", "td", "ep", "attr", "at", "length", "completer_id", "status", "bcm", "byte_count", "requester_id", "tag", "first_be", "last_be", "lower_address", "ph")}
    f["addr_dw"] = s.address >> 2
    return f


def header(flav, name, fields, data):
    """(header value or None, data words) on the bus"""
    h = R.encode(name, fields)
    pay = dwords(data)
    if flav == "ptile":
        return int.from_bytes(h.ljust(16, b"\0"), "big"), pay
    return None, [int.from_bytes(h[i:i + 4], "big") for i in range(0, len(h), 4)] + pay


def part_eq(got, want):
    d = {k: (getattr(got, k, None), v) for k, v in want.items() if k != "about" and getattr(got, k, None) != v}
    if not d:
        return None
    return show(Rec(**{k: a for k, (a, b) in d.items()}), Rec(**{k: b for k, (a, b) in d.items()})) + f" for {want['about']}"


async def intel(dut, mon, rng, flav="s10", width=256, pf=1, mps=0, l_tile=False, ext_tag=False, n=150, rounds=2):
    """Receive and transmit streams of the Intel models"""
    tb = Tb(dut, mon, rng, flav, width, pf=pf, mps=mps, l_tile=l_tile, ext_tag=ext_tag)
    await tb.setup()
    r = random.Random(rng.getrandbits(48))
    name = f"{flav}{width}"
    hc = HostCheck(tb)
    fids = {int(f.pcie_id): k for k, f in enumerate(tb.fns)}
    meta, rxq = [], []
    exp = OrderedExpect(mon, f"{name} tx", snap_eq(REQ_FIELDS + CPL_FIELDS))
    st = dict(used=0, limit=250)
    active = {}
    total = 256 if ext_tag else 32
    freed = Event()
    comp = UserCompleter(mon, r, None, lambda: PcieId(0, 1, 0), lambda: total, mps=128 << mps, rcb=64, delay=600, p_ur=0.03, p_ca=0.03)
    pend, more = [], Event()

    async def send(c):
        if r.random() < 0.03 and c.has_data():
            c.ep = True
        await tb.rc.send(c)
        if r.random() < 0.03:
            # for nobody
            d = Tlp(c)
            d.requester_id = d.requester_id._replace(function=r.randrange(pf, 8))
            await tb.rc.send(d)

    comp.send = send
    tb.host_np = lambda tlp: comp.start(Tlp(tlp))

    def expect(s, fn, bar, t, size):
        meta.append((s.content(), fn, bar, t, size))

    def on_in(s):
        if s.name.startswith("CFG"):
            return
        w = dict(about=s, err=0, tlp_abort=0, prfx=0)
        if s.cls == "CPL":
            if s.requester_id not in fids:
                mon.count("completions_for_absent_function")
                return
            fn = fids[s.requester_id]
            q = active[s.tag]
            last = s.status != 0 or not q.name.startswith("MEM_READ") or s.byte_count <= 4 * s.length - (s.lower_address & 3)
            w["done"] = s.tag if last else None
        else:
            c = s.content()
            k = next((k for k, m in enumerate(meta) if m[0] == c), None)
            if k is None:
                return
            _, fn, bar, t, size = meta.pop(k)
            w["bar_range"] = 6 if t == "io" else bar
            w["done"] = None
        w["func_num"] = fn
        hdr, w["data"] = header(flav, s.name, enc_fields(s), s.data)
        if hdr is not None:
            w["hdr"] = hdr
        for k in ("err", "tlp_abort", "func_num", "bar_range"):
            if k not in tb.rxhas:
                w.pop(k, None)
        if flav == "s10":
            w.pop("prfx")
        rxq.append((s, fn, w))
        mon.sig("rx", flav, width, s.name, len(s.data) % 128, fn)

    def on_out(s):
        if hc.own(s):
            return
        exp.take(s.cls, s)
        mon.count("transmitted_" + s.cls)
        mon.sig("tx", flav, width, s.name, len(s.data) % 128)

    tb.on_in.append(on_in)
    tb.on_out.append(on_out)

    async def rx():
        k = 0
        while True:
            await tb.edge
            while k < len(tb.rxdec.out):
                f = tb.rxdec.out[k]
                k += 1
                if not mon.check(bool(rxq), "unexpected", lambda: f"{name} rx: packet without a counterpart {[hex(d) for d in f.data[:4]]}"):
                    continue
                s, fn, w = rxq.pop(0)
                done = w.pop("done")
                d = part_eq(f, w)
                mon.check(d is None, "content", lambda: f"{name} rx: {d}")
                mon.count("received_" + s.cls)
                if done is not None:
                    q, cost = active.pop(done), costs.pop(done)
                    st["used"] -= cost
                    freed.set()
                if s.cls == "NP":
                    pend.append(user_completions(r, s, fn, tb.bus, mps))
                    more.set()

    costs = {}
    cocotb.start_soon(rx())

    lock = Lock()

    async def put(w):
        s = dict(w)
        s["addr_dw"] = s.get("address", 0) >> 2
        hdr, data = header(flav, s["name"], s, s["data"])
        if flav == "s10":
            f = S10PcieFrame()
        else:
            f = PTilePcieFrame()
            f.hdr = hdr
        f.data = data
        f.update_parity()
        async with lock:
            exp.push("CPL" if w["name"].startswith("CPL") else "P" if w["name"].startswith("MEM_WRITE") else "NP", w)
            await tb.tx.send(f)

    async def send_cpl(f):
        w = cpl_want(tb, f)
        if w["length"] == 0:
            w["ep"] = False
        await put(w)

    cocotb.start_soon(run_queue(r, pend, send_cpl, more))

    async def one(kinds):
        while True:
            rt = r.choice(kinds)
            fn = r.randrange(pf)
            w = dict(requester_id=int(tb.fns[fn].pcie_id), tc=r.randrange(8), attr=r.randrange(8), at=r.choice([0, 0, 0, 1, 2]), ep=False, tag=r.randrange(256))
            if rt < 2:
                a = r.choice([r.randrange(1 << 31), r.randrange(1 << 12), r.getrandbits(63) | 1 << 40]) & ~3
                ln, fb, lb = rand_shape(r, 1024 if rt == 0 else 32 << mps)
                if ln == 2:
                    a &= ~7
                ln = min(ln, (4096 - a % 4096) // 4)
                if ln == 1:
                    lb = 0
            elif rt < 4:
                a, ln, fb, lb, w["tc"], w["attr"], w["at"] = r.randrange(1 << 31) & ~3, 1, r.randrange(1, 16), 0, 0, 0, 0
            else:
                sz = r.choice([1, 2, 4] if rt == 6 else [1, 2])
                a = r.choice([r.randrange(1 << 31), r.getrandbits(48) | 1 << 40]) & ~(8 * sz - 1)
                ln = sz * 2 if rt == 6 else sz
                fb, lb = 0xf, 0xf if ln > 1 else 0
            cost = 2 + ln // 16 if rt == 0 else 1
            if rt != 1:
                if st["used"] + cost > st["limit"] or len(active) >= total:
                    if 1 in kinds:
                        kinds = [1]
                        continue
                    freed.clear()
                    await First(freed.wait(), Timer(300, "us"))
                    continue
                w["tag"] = r.choice([t for t in range(total) if t not in active])
            break
        w.update(name=RT_NAME[rt] + ("_64" if a >> 32 else ""), address=a, length=ln, first_be=fb, last_be=lb, data=b"")
        if rt in (1, 3, 4, 5, 6):
            w["data"] = r.randbytes(4 * ln)
            w["ep"] = r.random() < 0.03
        if rt == 1 and r.random() < 0.2:
            w["requester_id"] = r.getrandbits(16)
        if rt != 1:
            st["used"] += cost
            costs[w["tag"]] = cost
            active[w["tag"]] = Rec(name=w["name"])
        await put(w)

    def idle():
        return not meta and not rxq and exp.pending() == 0 and not pend and not active and not comp.active and not hc.ur and not hc.cfg

    for rd in range(rounds):
        kinds = r.choice([[0, 1], [0, 1, 2, 3], [0, 0, 0, 1]])
        host = cocotb.start_soon(host_traffic(tb, hc, r, n, expect, gap=r.choice([0, 100, 400])))
        for _ in range(n):
            await one(kinds)
            if r.random() < 0.1:
                await Timer(r.randrange(1, 2000), "ns")
        await host.join()
        if not await tb.quiesce(idle, f"{name}: traffic in both directions"):
            return
    mon.check(tb.rxdec.cur is None, "avst-framing", f"{name}: unfinished packet")
    mon.count("transfers_after_ready_fell", tb.rxdec.late)
    mon.count("straddled_beats", tb.rxdec.straddled)
    mon.sample(dict(device=name, functions=pf, ranges=[(k, i, t, hex(z)) for k, i, t, z, a in tb.space], transmitted=exp.matched, most_outstanding=comp.max_out))


# ---------------------------------------------------------------------------
# receive completion buffer

async def rxbuf(dut, mon, rng, flav="usp", width=256, pf=1, mps=2, limits=(256, 2048), extra=None, episodes=6, flow=800):
    """Completions are dropped when, and only when, the buffer has no room"""
    tb = Tb(dut, mon, rng, flav, width, pf=pf, mps=mps, extra=extra, side=("cfg_local_error",))
    await tb.setup()
    r = random.Random(rng.getrandbits(48))
    name = f"{flav}{width}"
    xil = tb.xil
    nh, nd = limits
    bus = "rc" if xil else "rx"
    dec = tb.rcdec if xil else tb.rxdec
    fids = [int(f.pcie_id) for f in tb.fns]
    log = []        # ("in", index) and ("out", number of packets seen so far)
    items = []      # what arrived, in order: (snap, cost, expected frame)
    errs = []
    st = dict(sent=0, expected=0)

    def cost(s):
        return -(-len(s.data) // 16) + (1 if xil else 0)

    def on_in(s):
        if s.cls == "CPL":
            w = rc_desc(s, s.lower_address, BAD_TAG, False) if xil else None
        elif xil or s.name.startswith("CFG"):
            return
        if not xil:
            hdr, data = header(flav, s.name, enc_fields(s), s.data)
            w = dict(about=s, data=data)
            if hdr is not None:
                w["hdr"] = hdr
        log.append(("in", len(items)))
        items.append((s, cost(s), w))
        mon.sig("rxbuf", flav, s.name, len(s.data))

    tb.on_in.append(on_in)

    async def watch():
        k = 0
        while True:
            await tb.edge
            if len(dec.out) != k:
                log.append(("out", len(dec.out)))
                k = len(dec.out)
            if flav == "usp" and int(dut.cfg_local_error_valid.value):
                errs.append(int(dut.cfg_local_error_out.value))
            if flav == "us" and int(dut.cfg_local_error.value):
                errs.append(15)

    cocotb.start_soon(watch())
    if xil:
        dut.cq_np_req.value = 1

    async def cpl(size):
        k = st["sent"]
        st["sent"] += 1
        st["expected"] += 1
        t = Tlp()
        t.fmt_type = TlpType.CPL_DATA if size else TlpType.CPL
        t.requester_id = PcieId.from_int(r.choice(fids))
        t.completer_id = PcieId(0, 1, 0)
        t.tag = k & 0xff
        t.tc, t.attr = TlpTc(k >> 8 & 7), TlpAttr(k >> 11 & 7)
        t.byte_count = r.randrange(max(1, 4 * size), 4097)
        if size:
            t.set_data(r.randbytes(4 * size))
        await tb.rc.send(t)

    async def req():
        q, fn, bar, t, size = tb.rand_host(r, 0, ("P",))
        if not xil:
            st["expected"] += 1
        await tb.rc.send(q)

    async def arrived():
        await tb.quiesce(lambda: len(items) == st["expected"], f"{name}: traffic arriving while the interface is stalled", 2000)
        await tb.idle(30)

    async def drain():
        tb.stall[bus] = False
        tb.open[bus] = True
        k = -1
        while k != len(dec.out):
            k = len(dec.out)
            await tb.idle(150)
        tb.open[bus] = False

    big = 32 << mps
    styles = ["header", "data", "mixed", "requests", "data", "header"]
    for ep in range(episodes):
        style = styles[ep % len(styles)]
        if ep == 1:
            # a long run of small completions which the user takes as they
            # come: whatever is not given back adds up
            tb.stall[bus] = False
            for k in range(flow):
                await cpl(0 if k % 8 < 5 else r.choice([1, 4, 5]))
                if k % 16 == 15:
                    await tb.idle(r.randrange(40))
            await arrived()
            await drain()
            mon.count("flow_completions", flow)
        tb.stall[bus] = True
        await tb.idle(4)
        unit = nh if style in ("header", "requests") else min(nh, nd // (big // 4 + 1))
        if style == "requests":
            # packets ahead of the completions that take no completion space
            for _ in range(r.randrange(20, 60)):
                await req()
        n = int(unit * r.choice([0.5, 1.1, 1.3])) + r.randrange(10) if ep > 1 else int(unit * 1.2) + 12
        for _ in range(n):
            if style == "mixed" and r.random() < 0.3:
                await req()
            await cpl(0 if style == "header" else big if style == "data" else r.choice([0, 0, 1, 4, 5, big, r.randrange(1, big + 1)]))
        await arrived()
        if style in ("mixed", "requests"):
            # let some of it out, then fill again
            for _ in range(3):
                tb.stall[bus] = False
                tb.open[bus] = True
                await tb.idle(r.randrange(5, 80))
                tb.stall[bus] = True
                for _ in range(r.randrange(1, unit // 2)):
                    await cpl(r.choice([0, 0, 1, big]))
                await arrived()
        await drain()
        mon.count("fills_" + style)
    # offline: which were delivered, then every decision against the space
    # there was at that moment
    got = dec.out
    taken = []
    k = 0
    for f in got:
        while k < len(items):
            s, c, w = items[k]
            if xil:
                f2 = strip_par(mon, f, False, name)
                d = frame_eq(f2, w)
                same = (f2.data[2] & 0xff, f2.data[2] >> 25 & 7, f2.data[2] >> 28 & 7) == (s.tag, s.tc, s.attr)
            else:
                d = part_eq(f, w)
                same = d is None
            k += 1
            if same:
                mon.check(d is None, "content", lambda: f"{name}: {s}: {d}")
                taken.append(k - 1)
                break
        else:
            mon.violate("content", f"{name}: a packet seen on the interface is none of those that arrived, or out of order")
            return
    tset = set(taken)
    SLACK = 8
    fifo = []       # delivered to the buffer, not yet seen on the interface
    seen = drops = peak = 0
    for ev, x in log:
        if ev == "out":
            while seen < x:
                fifo.pop(0)
                seen += 1
            continue
        s, c, w = items[x]
        if s.cls != "CPL":
            mon.check(x in tset, "request-lost", lambda: f"{name}: {s} never seen on the interface")
            if x in tset:
                fifo.append(x)
            continue
        inb = [i for i in fifo if items[i][0].cls == "CPL"]
        h, d = len(inb), sum(items[i][1] for i in inb)
        if x in tset:
            out = [i for i in fifo[SLACK:] if items[i][0].cls == "CPL"]
            h2, d2 = len(out), sum(items[i][1] for i in out)
            mon.check(h2 + 1 <= nh and d2 + c <= nd, "overfull", lambda: f"{name}: completion {x} of {len(s.data)} bytes accepted with {h2} completions and {d2} data units in a buffer for {nh} and {nd}")
            fifo.append(x)
            peak = max(peak, h + 1)
        else:
            drops += 1
            mon.check(h + 1 > nh or d + c > nd, "dropped", lambda: f"{name}: completion {x} of {len(s.data)} bytes dropped with only {h} completions and {d} data units in a buffer for {nh} and {nd}")
    if xil:
        await tb.idle(drops + 10)
        if flav == "usp":
            mon.check(len(errs) == drops and set(errs) <= {15}, "local-error", lambda: f"{name}: local errors {errs[:10]} ({len(errs)}), dropped completions {drops}")
        else:
            mon.check((len(errs) > 0) == (drops > 0) and len(errs) <= drops, "local-error", lambda: f"{name}: {len(errs)} local errors, {drops} dropped completions")
    mon.count("completions_arrived", sum(i[0].cls == "CPL" for i in items))
    mon.count("completions_dropped", drops)
    mon.count("requests_between", sum(i[0].cls != "CPL" for i in items))
    mon.maxi("most_buffered", peak)
    mon.sample(dict(device=name, limits=limits, arrived=len(items), dropped=drops, peak=peak))


# ---------------------------------------------------------------------------
# side band

class Regs:
    """Configuration space of one function as the host reads it"""

    def __init__(self, pd):
        self.pd = pd
        self.v = {}
        self.caps = {}

    async def find(self):
        p = await self.pd.config_read_byte(0x34)
        while p:
            v = await self.pd.config_read_dword(p)
            self.caps[v & 0xff] = p
            p = v >> 8 & 0xff
        p = 0x100
        while p:
            v = await self.pd.config_read_dword(p)
            if v == 0:
                break
            self.caps[v & 0xffff | 0x10000] = p
            p = v >> 20

    def at(self, where):
        """address of "cmd", ("exp", offset), ..."""
        if isinstance(where, int):
            return where
        c, o = where
        return self.caps[c] + o

    async def refresh(self, words):
        for w in words:
            self.v[w] = await self.pd.config_read_dword(self.at(w) & ~3) >> 8 * (self.at(w) & 3)

    def bits(self, where, hi, lo=None):
        lo = hi if lo is None else lo
        return self.v[where] >> lo & (1 << hi - lo + 1) - 1


PM, MSI, EXP, MSIX, AER = 0x01, 0x05, 0x10, 0x11, 0x10001        # extended capabilities: with bit 16 set
CMD = 4
DEVCTL, LNKCTL, LNKSTA, SLTCTL, ROOTCTL, DEVCTL2, EXPCAP = ((EXP, o) for o in (0x08, 0x10, 0x12, 0x18, 0x1c, 0x28, 0x02))
MSICTL, MSIADDR, MSIADDRH, MSIDATA, MSIMASK, MSIPEND = ((MSI, o) for o in (2, 4, 8, 12, 16, 20))
MSIXCTL, PMCSR = (MSIX, 2), (PM, 4)
UMASK, USEV, CMASK = ((AER, o) for o in (0x08, 0x0c, 0x14))

# (register, mask of the bits the host varies)
VARY = [(CMD, 0x0547), (DEVCTL, 0x7fff & ~0x0600), (LNKCTL, 0x0008), (DEVCTL2, 0x03e0 & ~0x0010), (MSICTL, 0x0071), (MSIXCTL, 0xc000), (MSIADDR, 0xfffffffc), (MSIADDRH, 0xffffffff),
        (MSIDATA, 0xffff), (MSIMASK, 0xffffffff), (UMASK, 0xffffffff), (USEV, 0xffffffff), (CMASK, 0xffffffff)]


def xil_status(tb, regs):
    """expected values of the status outputs of the UltraScale models"""
    r0 = regs[0]
    usp = tb.flav == "usp"
    width, speed = r0.bits(LNKSTA, 9, 4), r0.bits(LNKSTA, 3, 0)
    e = {
        "cfg_negotiated_width": {1: 0, 2: 1, 4: 2, 8: 3, 16: 4}[width] if usp else width,
        "cfg_current_speed": speed - 1 if usp else 1 << speed - 1,
        "cfg_max_payload": r0.bits(DEVCTL, 7, 5) & (3 if usp else 7),
        "cfg_max_read_req": r0.bits(DEVCTL, 14, 12),
        "cfg_rcb_status": sum(r.bits(LNKCTL, 3) << k for k, r in enumerate(regs)),
        "cfg_function_status": sum((r.bits(CMD, 2, 0) | r.bits(CMD, 10) << 3) << 4 * k for k, r in enumerate(regs)),
        "user_lnk_up": 1,
        "cfg_phy_link_down": 0,
        "cfg_bus_number": tb.bus,
    }
    if all(MSI in r.caps for r in regs):
        e["cfg_interrupt_msi_enable"] = sum(r.bits(MSICTL, 0) << k for k, r in enumerate(regs))
        e["cfg_interrupt_msi_mmenable"] = sum(r.bits(MSICTL, 6, 4) << 3 * k for k, r in enumerate(regs))
    if all(MSIX in r.caps for r in regs):
        e["cfg_interrupt_msix_enable"] = sum(r.bits(MSIXCTL, 15) << k for k, r in enumerate(regs))
        e["cfg_interrupt_msix_mask"] = sum(r.bits(MSIXCTL, 14) << k for k, r in enumerate(regs))
    return {k: v for k, v in e.items() if k in tb.kw}


def f(reg, hi, lo=None, at=None):
    return reg, hi, hi if lo is None else lo, at


ID_DEV, ID_BUS, AERNUM = "dev", "bus", "aernum"
CTL1 = [f(ROOTCTL, 2, at=15), f(ROOTCTL, 1, at=14), f(ROOTCTL, 0, at=13)]
LOW0 = [f(CMD, 1, at=15), f(DEVCTL2, 9, at=14), f(CMD, 6, at=13), f(CMD, 8, at=12), f(DEVCTL, 2, at=11), f(DEVCTL, 1, at=10), f(DEVCTL, 0, at=9), f(DEVCTL, 3, at=8), f(CMD, 2, at=7),
        f(DEVCTL, 8, at=6), f(DEVCTL, 14, 12, at=3), f(DEVCTL, 7, 5, at=0)]
HI0 = [f(DEVCTL2, 8, at=15), f(DEVCTL, 11, at=14), f(DEVCTL, 4, at=13), f(ID_DEV, 4, 0, at=8), f(ID_BUS, 7, 0, at=0)]
SLOT = [f(SLTCTL, 10, at=4), f(SLTCTL, 7, 6, at=2), f(SLTCTL, 9, 8, at=0)]
MSIBITS = [f(MSIXCTL, 14, at=6), f(MSIXCTL, 15, at=5), f(MSICTL, 6, 4, at=2), f(MSICTL, 7, at=1), f(MSICTL, 0, at=0)]


def up(fields, n):
    return [(a, b, c, d + n) for a, b, c, d in fields]


# contents of the multiplexed configuration output, by flavour and index
TLCFG = {
    "ptile": {0: LOW0, 1: HI0,
              2: [f(PMCSR, 3, at=15), f(LNKCTL, 3, at=14), f(CMD, 10, at=13), f(EXPCAP, 13, 9, at=8)] + SLOT,
              4: [f(DEVCTL2, 7, at=14), f(DEVCTL2, 5, at=7), f(DEVCTL2, 6, at=6)],
              5: [f(LNKSTA, 3, 0, at=12)],
              6: [f(MSIADDR, 15, 0, at=0)], 7: [f(MSIADDR, 31, 16, at=0)], 8: [f(MSIADDRH, 15, 0, at=0)], 9: [f(MSIADDRH, 31, 16, at=0)],
              10: [f(MSIMASK, 15, 0, at=0)], 11: [f(MSIMASK, 31, 16, at=0)],
              12: CTL1 + [f(AERNUM, 4, 0, at=8), f(MSICTL, 10, at=7)] + MSIBITS,
              13: [f(MSIDATA, 15, 0, at=0)],
              14: [f(UMASK, 15, 0, at=0)], 15: [f(UMASK, 31, 16, at=0)], 16: [f(CMASK, 15, 0, at=0)], 17: [f(CMASK, 31, 16, at=0)], 18: [f(USEV, 15, 0, at=0)], 19: [f(USEV, 31, 16, at=0)]},
    "htile": {0: up(HI0, 16) + LOW0,
              1: [f(PMCSR, 3, at=15), f(LNKCTL, 3, at=14), f(CMD, 10, at=13), f(EXPCAP, 13, 9, at=8)] + SLOT,
              2: [f(LNKSTA, 3, 0, at=28), f(DEVCTL2, 5, at=7), f(DEVCTL2, 6, at=6)],
              3: [f(MSIADDR, 31, 0, at=0)], 4: [f(MSIADDRH, 31, 0, at=0)], 5: [f(MSIMASK, 31, 0, at=0)],
              6: [f(MSIDATA, 15, 0, at=16)] + CTL1 + [f(AERNUM, 4, 0, at=8)] + MSIBITS,
              7: [f(UMASK, 31, 0, at=0)], 8: [f(CMASK, 31, 0, at=0)], 9: [f(USEV, 31, 0, at=0)]},
    "ltile": {0: up(HI0, 16) + [f(CMD, 1, at=15), f(DEVCTL2, 9, at=14), f(LNKSTA, 9, 4, at=8), f(CMD, 2, at=7), f(DEVCTL, 8, at=6), f(DEVCTL, 14, 12, at=3), f(DEVCTL, 7, 5, at=0)],
              1: up(CTL1, 16) + [f(AERNUM, 4, 0, at=24), f(LNKSTA, 9, 4, at=18), f(PMCSR, 3, at=17), f(LNKCTL, 3, at=16), f(CMD, 10, at=13), f(EXPCAP, 13, 9, at=8)] + SLOT,
              2: [f(LNKSTA, 3, 0, at=12), f(DEVCTL2, 5, at=5), f(DEVCTL2, 6, at=4)],
              3: [f(MSIADDR, 31, 0, at=0)], 4: [f(MSIADDRH, 31, 0, at=0)], 5: [f(MSIMASK, 31, 0, at=0)],
              6: [f(MSIDATA, 15, 0, at=16)] + MSIBITS,
              7: [f(LNKSTA, 3, 0, at=6), f(LNKSTA, 9, 4, at=0)]},
}


async def sideband(dut, mon, rng, flav="usp", width=256, pf=2, l_tile=False, rounds=4, msix=False, msi=None, n=12):
    """Configuration, status, flow control and interrupt signals"""
    fcm = CreditMonitor(mon)
    tb = Tb(dut, mon, rng, flav, width, pf=pf, ext_tag=rng.random() < 0.5, l_tile=l_tile, msi=msi or [rng.choice([1, 2, 4, 8, 16, 32]) for _ in range(pf)], msix=msix, side=("cfg_", "user_"))
    tb.monitors.append(fcm)
    for fn in tb.dev.functions:
        fn.msi_cap.msi_per_vector_mask_capable = 1
    await tb.setup()
    r = random.Random(rng.getrandbits(48))
    name = f"{flav}{width}"
    width, speed = r.choice([1, 2, 4, 8, 16]), r.randrange(1, 4)
    for fn in tb.fns:
        # the models leave the link status to the user
        fn.pcie_cap.negotiated_link_width, fn.pcie_cap.current_link_speed = width, speed
    regs = [Regs(d) for d in tb.pdev]
    for g in regs:
        await g.find()
    have = [MSI] if tb.xil else [MSI, AER]
    if msix:
        have.append(MSIX)
    for k, g in enumerate(regs):
        mon.check(all(c in g.caps for c in have + [EXP, PM]), "caps", lambda: f"{name}: function {k}: capabilities {g.caps}")

    def present(where, g):
        return isinstance(where, int) or where[0] in g.caps

    words = [w for w in (CMD, DEVCTL, LNKCTL, LNKSTA, SLTCTL, ROOTCTL, DEVCTL2, EXPCAP, MSICTL, MSIADDR, MSIADDRH, MSIDATA, MSIMASK, MSIXCTL, PMCSR, UMASK, USEV, CMASK) if present(w, regs[0])]

    async def refresh():
        for g in regs:
            await g.refresh(words)

    await refresh()
    # parameters of the interrupt capabilities
    for k, g in enumerate(regs):
        mon.check(1 << g.bits(MSICTL, 3, 1) == tb.msi[k], "msi-count", lambda: f"{name}: function {k} offers {1 << g.bits(MSICTL, 3, 1)} MSI vectors, {tb.msi[k]} were configured")
        if msix:
            mon.check(g.bits(MSIXCTL, 10, 0) == 7, "msix-size", lambda: f"{name}: function {k}: MSI-X table size field {g.bits(MSIXCTL, 10, 0)}")
    vary = [(w, m) for w, m in VARY if present(w, regs[0])]

    async def randomise(keep_cmd=False):
        for g in regs:
            for w, m in vary:
                if r.random() < 0.7:
                    a = g.at(w)
                    sh = 8 * (a & 3)
                    old = await g.pd.config_read_dword(a & ~3)
                    v = r.choice([r.getrandbits(32), r.getrandbits(32), 0, 0xffffffff]) & m
                    if w == DEVCTL:
                        v = v & ~0xe0 | r.randrange(4) << 5     # payload sizes up to what is supported
                        if v >> 12 & 7 > 5:
                            v &= ~0x4000
                    if w == MSICTL:
                        v = v & ~0x70 | r.randrange(g.bits(MSICTL, 3, 1) + 1) << 4
                    if w == CMD and keep_cmd:
                        v |= 4
                    new = old & ~(m << sh) | v << sh
                    if w in (CMD, LNKCTL, DEVCTL, DEVCTL2):
                        # word access, status bits untouched
                        await g.pd.config_write_word(a, new >> sh & 0xffff)
                    elif w in (MSICTL, MSIXCTL):
                        await g.pd.config_write_word(a, new >> 16 & 0xffff)
                    else:
                        await g.pd.config_write_dword(a, new & 0xffffffff)
        await refresh()
        await tb.idle(6)

    def fc_expect():
        """credit counters at rest, from what crossed the link"""
        out = next(d for d in tb.links.dirs if d.tx is tb.devport)
        so, si = fcm.get(out), fcm.get(out.rev)
        o, i = {}, {}
        for c in ("P", "NP", "CPL"):
            o[c] = [(so[c]["lim"][k] - so[c]["used"][k], so[c]["lim"][k], so[c]["used"][k]) for k in (0, 1)]
            i[c] = [((si[c]["adv"][k] - si[c]["rcvd"][k], si[c]["adv"][k]) if si[c]["adv_init"][k] else None, si[c]["rcvd"][k]) for k in (0, 1)]
        return o, i

    async def traffic():
        """some traffic so that the counters move, then silence"""
        for _ in range(r.randrange(3, 20)):
            q, fn, bar, t, size = tb.rand_host(r, 0, ("P",))
            await tb.rc.send(q)
        for _ in range(r.randrange(3, 20)):
            await r.choice(tb.pdev).config_read_dword(4 * r.randrange(16))
        if tb.xil:
            for _ in range(r.randrange(10)):
                ln = r.randrange(1, 32)
                await tb.rq.send(tb.us_frame(rq_desc(dict(addr=0x1000, length=ln, rt=1, rid=r.randrange(pf), tag=0, tc=0, attr=0)) + [0] * ln, first_be=15, last_be=15 if ln > 1 else 0))
        await Timer(60, "us")

    async def check_fc():
        o, i = fc_expect()
        init = {c: [x[0] for x in v] for c, v in o.items()}
        if not tb.xil:
            await tb.idle(16)
            if flav == "s10":
                want = dict(tx_ph_cdts=o["P"][0][0] & 0xff, tx_pd_cdts=o["P"][1][0] & 0xfff, tx_nph_cdts=o["NP"][0][0] & 0xff, tx_cplh_cdts=o["CPL"][0][0] & 0xff)
                if l_tile:
                    want.update(tx_npd_cdts=o["NP"][1][0] & 0xfff, tx_cpld_cdts=o["CPL"][1][0] & 0xfff)
                for k, v in want.items():
                    g = int(getattr(dut, k).value)
                    mon.check(g == v, "credits", lambda: f"{name}: {k} {g}, expected {v} from the traffic on the link")
            else:
                seen = {}
                for _ in range(14):
                    await tb.edge
                    seen[int(dut.tx_cdts_limit_tdm_idx.value)] = int(dut.tx_cdts_limit.value)
                want = {0: o["P"][0][1] & 0xfff, 1: o["NP"][0][1] & 0xfff, 2: o["CPL"][0][1] & 0xfff, 4: o["P"][1][1] & 0xffff, 5: o["NP"][1][1] & 0xffff, 6: o["CPL"][1][1] & 0xffff}
                mon.check(seen == want, "credits", lambda: f"{name}: credit limits by index {seen}, expected {want} from the traffic on the link")
            mon.count("credit_outputs_checked")
            return
        for sel in range(8):
            dut.cfg_fc_sel.value = sel
            await tb.idle(4)
            got = {c: (int(getattr(dut, f"cfg_fc_{a}h").value), int(getattr(dut, f"cfg_fc_{a}d").value)) for c, a in (("P", "p"), ("NP", "np"), ("CPL", "cpl"))}
            for c in got:
                for k in (0, 1):
                    x = i[c][k]
                    if sel in (4, 5, 6):
                        w = o[c][k][sel - 4]
                    elif sel == 2:
                        w = x[1]
                    elif sel in (0, 1) and flav == "us":
                        if x[0] is None:
                            continue
                        w = x[0][sel]
                    elif sel == 3 or sel == 7 or flav == "usp":
                        w = 0
                    w &= 0xfff if k else 0xff
                    mon.check(got[c][k] == w, "credits", lambda: f"{name}: selection {sel}: {c} {'data' if k else 'header'} {got[c][k]}, expected {w} from the traffic on the link")
            mon.count("credit_selections_checked")
            mon.sig("fc", flav, sel, tuple(got.values()))

    async def check_tlcfg():
        tab = TLCFG["ptile" if flav == "ptile" else "ltile" if l_tile else "htile"]
        seen = {}
        for _ in range(36 * pf):
            await tb.edge
            seen[int(dut.tl_cfg_func.value), int(dut.tl_cfg_add.value)] = int(dut.tl_cfg_ctl.value)
        for k, g in enumerate(regs):
            for a, fields in tab.items():
                w = 0
                for reg, hi, lo, at in fields:
                    if reg == ID_DEV:
                        v = int(tb.fns[k].pcie_id) >> 3 & 31
                    elif reg == ID_BUS:
                        v = int(tb.fns[k].pcie_id) >> 8
                    elif reg == AERNUM:
                        v = aernum[k]
                    elif reg in g.v:
                        v = g.bits(reg, hi, lo)
                    else:
                        v = 0
                    w |= v << at
                got = seen.get((k, a))
                mon.check(got == w, "tl-cfg", lambda: f"{name}: function {k} index {a}: {got if got is None else hex(got)}, expected {w:#x} from its registers")
        mon.count("tl_cfg_words_checked", pf * len(tab))

    async def check_status():
        for _ in range(3):
            await tb.edge
        for k, v in xil_status(tb, regs).items():
            g = int(getattr(dut, k).value)
            mon.check(g == v, "status", lambda: f"{name}: {k} {g:#x}, expected {v:#x} from the registers")
            mon.sig("status", flav, k, v)
        mon.count("status_outputs_checked")
        # mask bits of the selected function
        for k, g in enumerate(regs):
            dut.cfg_interrupt_msi_select.value = k
            await tb.idle(3)
            v = int(dut.cfg_interrupt_msi_data.value)
            mon.check(v == g.bits(MSIMASK, 31, 0), "msi-data", lambda: f"{name}: mask of function {k} {v:#x}, register {g.bits(MSIMASK, 31, 0):#x}")

    dones = []

    async def mgmt(fn, reg, data=None, be=0xf):
        """one access over the management interface"""
        if flav == "usp":
            dut.cfg_mgmt_function_number.value = fn
            dut.cfg_mgmt_addr.value = reg
        else:
            dut.cfg_mgmt_addr.value = fn << 10 | reg
        dut.cfg_mgmt_write_data.value = data or 0
        dut.cfg_mgmt_byte_enable.value = be
        dut.cfg_mgmt_write.value = int(data is not None)
        dut.cfg_mgmt_read.value = int(data is None)
        for _ in range(60):
            await tb.edge
            if int(dut.cfg_mgmt_read_write_done.value):
                break
        else:
            mon.violate("mgmt", f"{name}: management access of register {reg:#x} of function {fn} never done")
        v = int(dut.cfg_mgmt_read_data.value)
        dut.cfg_mgmt_write.value = 0
        dut.cfg_mgmt_read.value = 0
        for _ in range(r.choice([1, 1, 2, 10])):
            await tb.edge
            mon.check(not int(dut.cfg_mgmt_read_write_done.value), "mgmt", lambda: f"{name}: done asserted again after an access")
        mon.count("management_accesses")
        return v

    async def check_mgmt():
        for _ in range(n):
            k = r.randrange(pf)
            g = regs[k]
            regno = r.choice([r.randrange(16), r.randrange(1024), r.choice(list(g.caps.values())) // 4 + r.randrange(6), g.at(MSIADDR) // 4])
            v = await mgmt(k, regno)
            w = await g.pd.config_read_dword(4 * regno)
            mon.check(v == w, "mgmt", lambda: f"{name}: register {regno:#x} of function {k} reads {v:#x} over the management interface, {w:#x} over the link")
            # writes, to registers of known behaviour
            a, m = r.choice([(0x3c, 0xff), (g.at(MSIADDR), 0xfffffffc), (g.at(MSIADDRH), 0xffffffff), (g.at(MSIMASK), 0xffffffff), (0x10, None)])
            if m is None:
                i, t, size = tb.bars[k][0]
                m = ~(size - 1) & 0xffffffff
            old = await g.pd.config_read_dword(a)
            v, be = r.getrandbits(32), r.randrange(16)
            others = [await h.pd.config_read_dword(a if a < 0x40 else h.at((MSI, a - g.caps[MSI]))) if h is not g else None for h in regs]
            await mgmt(k, a // 4, v, be)
            mb = sum(0xff << 8 * b for b in range(4) if be >> b & 1)
            want = old & ~(m & mb) | v & m & mb
            got = await g.pd.config_read_dword(a)
            mon.check(got == want, "mgmt", lambda: f"{name}: register {a:#x} of function {k} was {old:#x}, reads {got:#x} after writing {v:#x} with enables {be:#x}; expected {want:#x}")
            for h, o in zip(regs, others):
                if h is not g:
                    x = await h.pd.config_read_dword(a if a < 0x40 else h.at((MSI, a - g.caps[MSI])))
                    mon.check(x == o, "mgmt", lambda: f"{name}: write to function {k} changed register {a:#x} of another function from {o:#x} to {x:#x}")
            if a == 0x10:
                await g.pd.config_write_dword(0x10, old)

    async def setup_msi(g):
        ad = r.choice([r.randrange(1 << 31), r.getrandbits(63) | 1 << 40]) & ~3
        await g.pd.config_write_dword(g.at(MSIADDR), ad & 0xffffffff)
        await g.pd.config_write_dword(g.at(MSIADDRH), ad >> 32)
        await g.pd.config_write_dword(g.at(MSIDATA), r.randrange(1 << 16))
        mme = r.randrange(g.bits(MSICTL, 3, 1) + 1)
        old = await g.pd.config_read_word(g.at(MSICTL))
        await g.pd.config_write_word(g.at(MSICTL), old & ~0x70 | mme << 4 | 1)
        old = await g.pd.config_read_word(CMD)
        await g.pd.config_write_word(CMD, old | 4)

    sent = dict(msi=0, msix=0, fail=0)

    async def irq_watch():
        while True:
            await tb.edge
            sent["msi"] += int(dut.cfg_interrupt_msi_sent.value)
            sent["msix"] += int(dut.cfg_interrupt_msix_sent.value) if msix else 0
            sent["fail"] += int(dut.cfg_interrupt_msi_fail.value)

    async def one_write(n0, addr, data, k, tc, attr, what):
        ok = await tb.quiesce(lambda: len(tb.l_out) > n0, f"{name}: {what}", 50)
        await tb.idle(20)
        new = [s for s in tb.l_out[n0:]]
        nm = "MEM_WRITE" + ("_64" if addr >> 32 else "")
        if ok:
            s = new[0]
            mon.check(len(new) == 1 and s.name == nm and s.address == addr and s.data == data.to_bytes(4, "little") and s.first_be == 0xf and s.length == 1
                      and s.requester_id == int(tb.fns[k].pcie_id) and s.tc == tc and s.attr == attr, "interrupt", lambda: f"{name}: {what} made {new}, expected one write of {data:#x} to {addr:#x}, tc {tc} attr {attr}")
            mon.count("interrupts")
            mon.sig("irq", flav, k, data & 31, tc, attr)

    async def check_irq():
        for g in regs:
            await setup_msi(g)
        await refresh()
        for _ in range(n):
            k = r.randrange(pf)
            g = regs[k]
            mme = g.bits(MSICTL, 6, 4)
            v = r.randrange(1 << mme)
            addr = g.bits(MSIADDR, 31, 0) | g.bits(MSIADDRH, 31, 0) << 32
            data = g.bits(MSIDATA, 15, 0) & ~((1 << mme) - 1) | v
            tc, attr = (0, r.randrange(8)) if tb.xil else (r.randrange(8), 0)
            n0, s0 = len(tb.l_out), dict(sent)
            if tb.xil:
                dut.cfg_interrupt_msi_function_number.value = k
                dut.cfg_interrupt_msi_attr.value = attr
                if msix and r.random() < 0.5:
                    addr, data = r.choice([r.randrange(1 << 31), r.getrandbits(63) | 1 << 40]) & ~3, r.getrandbits(32)
                    await g.pd.config_write_word(g.at(MSIXCTL), 0x8000)
                    await tb.idle(4)
                    n0 = len(tb.l_out)
                    dut.cfg_interrupt_msix_address.value = addr
                    dut.cfg_interrupt_msix_data.value = data
                    dut.cfg_interrupt_msix_int.value = 1
                    await tb.edge
                    dut.cfg_interrupt_msix_int.value = 0
                    await one_write(n0, addr, data, k, tc, attr, f"MSI-X of function {k}")
                    mon.check(sent["msix"] == s0["msix"] + 1 and sent["msi"] == s0["msi"] and not sent["fail"], "interrupt-sent", lambda: f"{name}: sent counts {s0} to {sent} for one MSI-X interrupt")
                    continue
                dut.cfg_interrupt_msi_int.value = 1 << v
                await tb.edge
                dut.cfg_interrupt_msi_int.value = 0
                await one_write(n0, addr, data, k, tc, attr, f"MSI {v} of function {k}")
                mon.check(sent["msi"] == s0["msi"] + 1 and sent["msix"] == s0["msix"] and not sent["fail"], "interrupt-sent", lambda: f"{name}: sent counts {s0} to {sent} for one MSI")
                # pending bits are the user's
                p = r.getrandbits(32)
                k2 = r.randrange(pf)
                before = [await h.pd.config_read_dword(h.at(MSIPEND)) for h in regs]
                dut.cfg_interrupt_msi_pending_status.value = p
                dut.cfg_interrupt_msi_pending_status_function_num.value = k2
                en = r.random() < 0.8
                dut.cfg_interrupt_msi_pending_status_data_enable.value = int(en)
                await tb.idle(2)
                dut.cfg_interrupt_msi_pending_status_data_enable.value = 0
                await tb.idle(2)
                after = [await h.pd.config_read_dword(h.at(MSIPEND)) for h in regs]
                want = [p if en and j == k2 else x for j, x in enumerate(before)]
                mon.check(after == want, "msi-pending", lambda: f"{name}: pending registers {after}, expected {want} after status {p:#x} for function {k2}, enable {en}")
            else:
                dut.app_msi_func_num.value = k
                dut.app_msi_num.value = v
                dut.app_msi_tc.value = tc
                dut.app_msi_req.value = 1
                acks = 0
                for _ in range(200):
                    await tb.edge
                    if int(dut.app_msi_ack.value):
                        acks += 1
                        break
                for _ in range(r.randrange(0, 5)):
                    # a slow user
                    await tb.edge
                    acks += int(dut.app_msi_ack.value)
                dut.app_msi_req.value = 0
                for _ in range(6):
                    await tb.edge
                    acks += int(dut.app_msi_ack.value)
                await one_write(n0, addr, data, k, tc, attr, f"MSI {v} of function {k}")
                mon.check(acks == 1, "interrupt-sent", lambda: f"{name}: {acks} acknowledge cycles for one MSI request")
        await refresh()

    async def check_crs():
        """configuration space access disabled by the user"""
        got = []

        def on_out(s):
            if s.cls == "CPL" and s.tag in CFG_TAGS:
                got.append(s)
        tb.on_out.append(on_out)
        dut.cfg_config_space_enable.value = 0
        await tb.idle(4)
        for j in range(4):
            k = r.randrange(pf)
            w = r.random() < 0.5
            q = mkreq("CFG_WRITE_1" if w else "CFG_READ_1", 0, 224 + j, 0, 1, 1, 0, r.randrange(8) * 0, 0, b"\xff\0\0\0" if w else None, int(tb.fns[k].pcie_id))
            q.register_number = 15
            c0 = len(got)
            await tb.rc.send(q)
            if await tb.quiesce(lambda: len(got) > c0, f"{name}: configuration access while disabled", 50):
                s = got[-1]
                mon.check(s.status == 2 and not s.data and s.tag == 224 + j and s.requester_id == 0, "crs", lambda: f"{name}: {s} for a configuration access while the user has them disabled")
                mon.count("retry_completions")
        dut.cfg_config_space_enable.value = 1
        await tb.idle(4)
        for k, g in enumerate(regs):
            v = await g.pd.config_read_dword(0x3c)
            mon.check(v & 0xff == lines[k], "crs", lambda: f"{name}: interrupt line {v & 0xff:#x} of function {k} after accesses while disabled, was {lines[k]:#x}")
        tb.on_out.remove(on_out)

    aernum = [0] * pf
    if tb.xil:
        cocotb.start_soon(irq_watch())
    for rd in range(rounds):
        await randomise()
        if tb.xil:
            await check_status()
            await check_mgmt()
            await refresh()
            await check_status()
        else:
            for k in range(pf):
                aernum[k] = r.randrange(32)
                tb.fns[k].aer_ext_cap.advanced_error_interrupt_message_number = aernum[k]
            await tb.idle(36 * pf)
            await check_tlcfg()
        for g in regs:
            # everything on again
            o = await g.pd.config_read_word(CMD)
            await g.pd.config_write_word(CMD, o | 7)
        if tb.xil or flav == "s10":
            await check_irq()
            if tb.xil:
                await check_status()
            else:
                await check_tlcfg()
        await traffic()
        await check_fc()
        if tb.xil:
            lines = [await g.pd.config_read_dword(0x3c) & 0xff for g in regs]
            await check_crs()
    mon.sample(dict(device=name, functions=pf, msi=tb.msi, rounds=rounds))
