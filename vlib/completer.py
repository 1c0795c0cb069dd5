"""A request completer under harness control, and the ledger of what it saw.

Completions are built from the base specification's rules (byte count, lower
address, completion boundary), never with the tree's helpers."""
import random

import cocotb
from cocotb.triggers import Event, Timer
from cocotb.utils import get_sim_time

from cocotbext.pcie.core.tlp import Tlp, TlpType, TlpAttr, TlpTc, CplStatus
from cocotbext.pcie.core.utils import PcieId

from vlib.snap import Snap


def ref_data(addr, n, salt=0):
    """contents of the reference memory"""
    return bytes((((a * 2654435761) ^ (a >> 32) * 40503 ^ salt) >> 11) & 0xff for a in range(addr, addr + n))


def split_points(rng, start, end, mps, rcb, style):
    """Byte ranges of the completions of a read of [start, end): every cut on
    a completion boundary, no piece above the payload limit"""
    out = []
    a = start
    while a < end:
        limit = (a & ~3) + mps
        if style == "rcb":
            stop = (a & ~(rcb - 1)) + rcb
        elif style == "big":
            stop = end if end <= limit else limit & ~(rcb - 1)
        else:
            stop = (a & ~(rcb - 1)) + rcb * rng.randrange(1, 1 + mps // rcb)
        stop = min(stop, end)
        if stop > limit:
            stop = limit & ~(rcb - 1)
        out.append((a, stop))
        a = stop
    return out


class Pending:
    __slots__ = ("req", "t0", "outcome", "done", "last", "late", "timeout")


class Completer:
    """send: coroutine used to return completions"""

    def __init__(self, mon, rng, send, cpl_id, tag_limit, mps=128, rcb=64, delay=400, p_ur=0.0, p_ca=0.0, p_drop=0.0, p_late=0.0, salt=0, io_size=None):
        self.mon = mon
        self.rng = rng
        self.send = send
        self.cpl_id = cpl_id
        self.tag_limit = tag_limit
        self.mps = mps
        self.rcb = rcb
        self.delay = delay
        self.p_ur, self.p_ca, self.p_drop, self.p_late = p_ur, p_ca, p_drop, p_late
        self.salt = salt
        self.active = {}       # tag -> Pending
        self.quiet_until = {}  # tag -> earliest legal reuse after a timeout
        self.hold = None       # Event: completions wait for it
        self.created = []      # completions handed over (for credit bookkeeping)
        self.max_out = 0
        self.reqs = []

    def sent_at(self, s):
        """when the requester sent this request, if it is seen only later"""
        return s.time

    def timeout_of(self, s):
        """completion timeout used by the operation this request belongs to, ns"""
        return 0

    def request(self, tlp):
        """Called with every request of the side under test; returns its snapshot"""
        now = get_sim_time("ns")
        s = Snap(tlp, now)
        self.reqs.append(s)
        if s.cls == "P":
            return s
        mon = self.mon
        lim = self.tag_limit()
        mon.check(s.tag < lim, "tag-range", lambda: f"tag {s.tag} of {s} exceeds the {lim} tags in use")
        p = self.active.get(s.tag)
        ts = self.sent_at(s)
        if p is not None:
            ok = p.outcome in ("drop", "partial-drop") and p.timeout and (ts is None or ts >= p.last + p.timeout - 0.01)
            mon.check(ok, "tag-reuse", lambda: f"{s} reuses tag of outstanding request {p.req} (seen {p.t0} ns, last activity {p.last} ns, reused {ts} ns, outcome so far {p.outcome}, timeout {p.timeout})")
            mon.count("tags_reused_after_timeout")
        p = Pending()
        p.req, p.t0, p.outcome, p.done, p.last, p.late, p.timeout = s, now, "open", False, now if ts is None else ts, False, self.timeout_of(s)
        self.active[s.tag] = p
        self.max_out = max(self.max_out, len(self.active))
        mon.maxi("outstanding", len(self.active))
        return s

    def start(self, tlp):
        s = self.request(tlp)
        if s.cls == "NP":
            return cocotb.start_soon(self.complete(s, self.active[s.tag], random.Random(self.rng.getrandbits(48))))
        return None

    def mk(self, s, status=CplStatus.SC, data=None, byte_count=4, lower=0):
        c = Tlp()
        c.fmt_type = TlpType.CPL_DATA if data is not None else TlpType.CPL
        c.requester_id = PcieId.from_int(s.requester_id)
        c.completer_id = PcieId.from_int(int(self.cpl_id()))
        c.tag = s.tag
        c.tc = TlpTc(s.tc)
        c.attr = TlpAttr(s.attr)
        c.status = status
        c.byte_count = byte_count
        c.lower_address = lower
        if data is not None:
            c.set_data(data)
        rec = [c, 0]

        def cb():
            rec[1] += 1
        if c.release_fc_cb is None:
            c.release_fc_cb = cb
        self.created.append(rec)
        return c

    def first_off(self, s):
        return next((i for i in range(4) if s.first_be >> i & 1), 0)

    def byte_range(self, s):
        """[start, end) of the enabled bytes of a request"""
        be = s.last_be if s.length > 1 else s.first_be
        start = s.address + self.first_off(s)
        end = s.address + 4 * (s.length - 1) + (be.bit_length() if be else 1)
        return start, end

    async def pause(self, r):
        if self.hold is not None:
            await self.hold.wait()
        if self.delay and r.random() < 0.8:
            await Timer(r.randrange(1, self.delay + 1), "ns")

    async def finish(self, s, p, c, outcome):
        if self.active.get(s.tag) is p:
            del self.active[s.tag]
        p.outcome = outcome
        p.done = True
        if c is not None:
            await self.send(c)

    async def complete(self, s, p, r):
        x = r.random()
        plan = "ur" if x < self.p_ur else "ca" if x < self.p_ur + self.p_ca else "drop" if x < self.p_ur + self.p_ca + self.p_drop else "ok"
        if plan == "drop" and not p.timeout:
            plan = "ca"
        bad = {"ur": CplStatus.UR, "ca": CplStatus.CA}.get(plan)
        p.late = r.random() < self.p_late
        if "READ" in s.name and s.name.startswith("MEM"):
            start, end = self.byte_range(s)
            pieces = split_points(r, start, end, self.mps, self.rcb, r.choice(["rcb", "big", "rand", "rand"]))
            self.mon.maxi("completions_per_read", len(pieces))
        else:
            pieces = [None]
        stop_at = r.randrange(0, len(pieces)) if plan != "ok" else None
        for k, pc in enumerate(pieces):
            await self.pause(r)
            if self.active.get(s.tag) is not p:
                return      # timed out meanwhile and the tag is in use again
            if k == stop_at:
                p.outcome = "partial-drop" if k and plan == "drop" else plan
                if plan == "drop":
                    self.mon.count("requests_left_unanswered")
                    if p.late:
                        # answer long after the requester gave up
                        await Timer(2 * p.timeout + 10, "ns")
                        if self.active.get(s.tag) is p:
                            del self.active[s.tag]
                            self.mon.count("late_completions")
                            await self.send(self.piece(s, pc, pieces))
                    return
                self.mon.count("completions_" + plan)
                await self.finish(s, p, self.mk(s, bad, None, 4 if pc is None else pieces[-1][1] - pc[0], 0 if pc is None else pc[0] & 0x7f), plan)
                return
            c = self.piece(s, pc, pieces)
            p.last = get_sim_time("ns")
            if k == len(pieces) - 1:
                await self.finish(s, p, c, "ok")
            else:
                await self.send(c)
                p.last = get_sim_time("ns")

    def piece(self, s, pc, pieces):
        if s.name.startswith("MEM"):
            a, b = pc
            lo, hi = a & ~3, (b + 3) & ~3
            return self.mk(s, CplStatus.SC, ref_data(lo, hi - lo, self.salt), pieces[-1][1] - a, a & 0x7f)
        if "READ" in s.name:
            return self.mk(s, CplStatus.SC, ref_data(s.address, 4, self.salt), 4, 0)
        return self.mk(s, CplStatus.SC, None, 4, 0)

    def outcome_of(self, s):
        pass
