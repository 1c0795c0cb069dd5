"""Observation (and disturbance) of links between simulated ports.

Each direction of a link is tapped at two public points of the ports it joins:
the start of serialisation at the transmitter and the arrival at the receiver.
Packets handed up by the receiving port are seen at its receive handler."""
import cocotb
from cocotb.queue import Queue
from cocotb.triggers import Timer
from cocotb.utils import get_sim_time

from cocotbext.pcie.core.dllp import Dllp
from cocotbext.pcie.core.tlp import Tlp

from vlib.snap import Snap


class Dir:
    """One direction of a link"""

    def __init__(self, name, tx, rx):
        self.name = name
        self.tx = tx
        self.rx = rx
        self.rev = None
        self.n_tlp = 0
        self.n_dllp = 0
        self.recent = []
        self.settle = None

    def __repr__(self):
        return self.name


class Monitor:
    """Observer interface; all methods optional"""
    wants_deliver = False

    def tx_start(self, d, is_tlp, pkt):
        pass

    def arrive(self, d, is_tlp, pkt):
        pass

    def accepted(self, d, is_tlp, pkt):
        pass

    def deliver(self, d, snap):
        pass

    def finish(self, d):
        pass


class DllpSnap:
    __slots__ = ("type", "seq", "vc", "hdr_fc", "data_fc", "time")

    def __init__(self, p, time):
        self.type = p.type.name
        self.seq = p.seq
        self.vc = p.vc
        self.hdr_fc = p.hdr_fc
        self.data_fc = p.data_fc
        self.time = time

    def __repr__(self):
        return f"<{self.type} seq={self.seq} vc={self.vc} hdr={self.hdr_fc} data={self.data_fc}>"


class Hostile:
    """Order-preserving disturbance of one link direction"""

    def __init__(self, rng, delay_ns=0, p_delay=0.0, p_dup=0.0, p_drop_ack=0.0, p_ooo=0.0):
        self.rng = rng
        self.delay_ns = delay_ns
        self.p_delay = p_delay
        self.p_dup = p_dup
        self.p_drop_ack = p_drop_ack
        self.p_ooo = p_ooo
        self.active = True


class LinkSet:
    def __init__(self, mon):
        self.mon = mon
        self.dirs = []
        self.monitors = []
        self.swallow = {}

    def add(self, m):
        self.monitors.append(m)
        return m

    def tap(self, a, b, name="link", hostile=None):
        """Tap the link between two connected ports; name reads a->b"""
        assert a.other is b and b.other is a
        ab, ba = Dir(f"{name}:down", a, b), Dir(f"{name}:up", b, a)
        ab.rev, ba.rev = ba, ab
        for d in (ab, ba):
            self._tap_dir(d, hostile)
            self.dirs.append(d)
        return ab, ba

    def _tap_dir(self, d, hostile):
        orig_tx = d.tx.handle_tx
        orig_rx = d.rx.ext_recv
        mons = self.monitors
        mon = self.mon

        async def handle_tx(pkt):
            is_tlp = not isinstance(pkt, Dllp)
            s = Snap(pkt, get_sim_time()) if is_tlp else DllpSnap(pkt, get_sim_time())
            for m in mons:
                m.tx_start(d, is_tlp, s)
            await orig_tx(pkt)

        async def accept(pkt):
            is_tlp = not isinstance(pkt, Dllp)
            s = Snap(pkt, get_sim_time()) if is_tlp else DllpSnap(pkt, get_sim_time())
            if is_tlp:
                d.n_tlp += 1
            else:
                d.n_dllp += 1
            for m in mons:
                m.arrive(d, is_tlp, s)
            await orig_rx(pkt)
            for m in mons:
                m.accepted(d, is_tlp, s)

        d.tx.handle_tx = handle_tx

        if hostile is None:
            d.rx.ext_recv = accept
        else:
            q = Queue()
            last_due = 0

            async def ext_recv(pkt):
                nonlocal last_due
                is_tlp = not isinstance(pkt, Dllp)
                # order-preserving jitter: does not reduce the link's throughput
                due = get_sim_time("ps")
                if hostile.active and hostile.p_delay and hostile.rng.random() < hostile.p_delay:
                    due += hostile.rng.randrange(1, max(2, int(hostile.delay_ns * 1000)))
                last_due = max(last_due, due)
                # the sender keeps and may reuse its object: what is on the wire is a copy
                q.put_nowait((last_due, Tlp(pkt) if is_tlp else Dllp(pkt)))

            nacks = 0

            async def again(pkt, seen):
                # unless a later acknowledgement makes up for it, the sender's
                # replay gets it repeated
                await Timer(hostile.rng.randrange(5000, 20000), "ns")
                if seen == nacks and hostile.active:
                    mon.count("acks_repeated")
                    await accept(pkt)

            async def pump():
                nonlocal nacks
                h = hostile
                rng = h.rng
                recent = d.recent = []
                while True:
                    due, pkt = await q.get()
                    now = get_sim_time("ps")
                    if due > now:
                        await Timer(int(due - now), "ps")
                    is_tlp = not isinstance(pkt, Dllp)
                    if not is_tlp:
                        if pkt.type.name == "NAK":
                            # replay is the disturbing link's own business
                            mon.count("naks_seen")
                            continue
                        if h.active and pkt.type.name == "ACK" and rng.random() < h.p_drop_ack:
                            mon.count("acks_dropped")
                            cocotb.start_soon(again(pkt, nacks))
                            continue
                        nacks += pkt.type.name == "ACK"
                    if h.active and is_tlp and h.p_dup and recent and rng.random() < h.p_dup:
                        # replay of already delivered packets, oldest first
                        k = rng.randrange(1, len(recent) + 1)
                        for old in recent[-k:]:
                            mon.count("tlps_duplicated")
                            await accept(Tlp(old))
                            if rng.random() < 0.25:
                                # a replayed packet takes time on the wire
                                await Timer(rng.choice([2, 10, 60]), "ns")
                    if h.active and is_tlp and h.p_ooo and rng.random() < h.p_ooo:
                        # lost packet: following packets arrive first, then all
                        # are sent again in order
                        await Timer(rng.randrange(1, 200), "ns")
                        run = [pkt]
                        dl = []
                        while not q.empty():
                            x = q.get_nowait()[1]
                            (dl if isinstance(x, Dllp) else run).append(x)
                        for x in dl:
                            if x.type.name != "NAK":
                                await accept(x)
                        for x in run[1:]:
                            mon.count("tlps_out_of_sequence")
                            await accept(Tlp(x))
                        for x in run:
                            await accept(Tlp(x))
                            recent.append(x)
                        del recent[:-20]
                        continue
                    await accept(pkt)
                    if is_tlp:
                        recent.append(pkt)
                        del recent[:-20]

            async def settle():
                # what a replay timer does when an acknowledgement was lost
                if d.recent:
                    mon.count("settle_replays")
                    await accept(Tlp(d.recent[-1]))

            d.settle = settle
            cocotb.start_soon(pump())
            d.rx.ext_recv = ext_recv

        orig_handler = d.rx.rx_handler

        async def rx_handler(tlp):
            s = Snap(tlp, get_sim_time())
            for m in mons:
                m.deliver(d, s)
            await orig_handler(tlp)

        d.rx.rx_handler = rx_handler

    async def settle(self):
        for d in self.dirs:
            if d.settle is not None:
                await d.settle()
        await Timer(60, "us")

    def finish(self):
        for d in self.dirs:
            self.mon.count("tlps_on_links", d.n_tlp)
            self.mon.count("dllps_on_links", d.n_dllp)
            for m in self.monitors:
                m.finish(d)


class SeqMonitor(Monitor):
    """Data link layer: consecutive sequence numbers, exactly-once in-order
    hand-up of exactly what was sent, acknowledgements only for what arrived."""

    def __init__(self, mon):
        self.mon = mon
        self.st = {}

    def get(self, d):
        s = self.st.get(d)
        if s is None:
            s = self.st[d] = dict(next=0, sent=[], got=0, arrived=0, acked=-1, wraps=0, ackd_seen=0, naks=0, gap=False, nacked=0)
        return s

    def tx_start(self, d, is_tlp, p):
        s = self.get(d)
        if is_tlp:
            self.mon.check(p.seq == s["next"], "link-seq", lambda: f"{d}: transmitted sequence number {p.seq}, expected {s['next']}: {p}")
            s["next"] = (s["next"] + 1) & 0xfff
            if s["next"] == 0:
                s["wraps"] += 1
            s["sent"].append((p.seq, p))
            out = len(s["sent"]) - s["nacked"]
            self.mon.check(out <= 2047, "link-window", lambda: f"{d}: {out} packets sent but not acknowledged: {p}")
            self.mon.maxi("unacknowledged", out)
        elif p.type in ("ACK", "NAK"):
            # acknowledges packets received in the other direction
            r = self.get(d.rev)
            done = r["arrived"]     # packets of the reverse direction accepted here
            ahead = (p.seq - ((done - 1) & 0xfff)) & 0xfff
            self.mon.check(ahead == 0 or (p.type == "ACK" and ahead >= 2048),
                           "link-ack", lambda: f"{d}: {p} sent although {done} packets (last sequence number {(done - 1) & 0xfff}) were accepted")
            if p.type == "NAK":
                s["naks"] += 1
                self.mon.check(r["gap"], "link-nak", lambda: f"{d}: {p} sent although no packet is missing")
                self.mon.count("naks_sent")

    def arrive(self, d, is_tlp, p):
        if is_tlp:
            s = self.get(d)
            if p.seq == (s["arrived"] & 0xfff):
                s["arrived"] += 1
                s["gap"] = False
            elif (p.seq - s["arrived"]) & 0xfff < 2048:
                s["gap"] = True
        elif p.type == "ACK":
            r = self.get(d.rev)
            r["acked"] = p.seq
            step = (p.seq - (r["nacked"] - 1)) & 0xfff
            if step < 2048:
                r["nacked"] += step

    def deliver(self, d, p):
        s = self.get(d)
        k = s["got"]
        s["got"] += 1
        if not self.mon.check(k < len(s["sent"]), "link-delivery", lambda: f"{d}: delivery number {k} but only {len(s['sent'])} packets were transmitted: {p}"):
            return
        seq, w = s["sent"][k]
        self.mon.check(k < s["arrived"], "link-delivery", lambda: f"{d}: packet handed up before it arrived in sequence: {p}")
        self.mon.check(p.content() == w.content() and p.seq == seq, "link-delivery",
                       lambda: f"{d}: delivery {k} is {p}, transmitted {k} was {w}; differs in {p.diff(w)}")
        self.mon.sig(d.name, p.name, p.seq)
        s["sent"][k] = None

    def finish(self, d):
        s = self.get(d)
        self.mon.check(s["got"] == len(s["sent"]), "link-loss", lambda: f"{d}: {len(s['sent'])} packets transmitted, {s['got']} handed up")
        n = len(s["sent"])
        self.mon.count("seq_wraps", s["wraps"])
        if n:
            self.mon.check(s["acked"] == ((n - 1) & 0xfff), "link-ack-final", lambda: f"{d}: all {n} packets delivered but last acknowledgement received is {s['acked']}")
            rb = getattr(d.tx, "retry_buffer", None)
            if rb is not None and hasattr(rb, "qsize"):
                self.mon.check(rb.qsize() == 0, "link-retry", lambda: f"{d}: retry buffer still holds {rb.qsize()} acknowledged packets")
                self.mon.count("retry_buffers_drained")


class CreditMonitor(Monitor):
    """Credit-based flow control seen from outside: per direction and class,
    unbounded shadow counters of advertised, consumed and received credits."""
    HB, DB = 12, 16

    def __init__(self, mon, expect_init=None):
        self.mon = mon
        self.st = {}
        self.rxseq = {}
        self.expect_init = expect_init or {}

    def get(self, d):
        s = self.st.get(d)
        if s is None:
            s = self.st[d] = {c: dict(init=None, lim=None, used=[0, 0], rcvd=[0, 0], adv=None, adv_init=None, fc2=False, ups=0) for c in ("P", "NP", "CPL")}
        return s

    # credits consumed by packets travelling in d are advertised by DLLPs travelling in d.rev
    def tx_start(self, d, is_tlp, p):
        mon = self.mon
        if is_tlp:
            c = self.get(d)[p.cls]
            if not mon.check(all(x["init"] is not None for x in self.get(d).values()), "fc-before-init", lambda: f"{d}: {p} transmitted before flow control initialisation completed"):
                return
            mon.check(any(x["fc2"] for x in self.get(d).values()), "fc-before-init",
                      lambda: f"{d}: {p} transmitted before the second initialisation stage completed")
            need = (1, p.dcred())
            for k in (0, 1):
                c["used"][k] += need[k]
                if c["init"][k]:
                    mon.check(c["used"][k] <= c["lim"][k], "fc-overcommit",
                              lambda: f"{d}: {p} brings {p.cls} {'data' if k else 'header'} consumption to {c['used'][k]}, advertised limit is {c['lim'][k]} (initial {c['init'][k]})")
                    left = c["lim"][k] - c["used"][k]
                    if left == 0:
                        mon.count(f"credits_exhausted_{p.cls}")
                        mon.sig("exhaust", d.name, p.cls, k, c["used"][k])
                    mon.maxi(f"consumed_{p.cls}_{'data' if k else 'hdr'}", c["used"][k])
                else:
                    mon.count("infinite_credit_uses")
        elif "_FC" in p.type:
            # what the receiver of d.rev advertises
            kind, cls = p.type.rsplit("_", 1)
            c = self.get(d.rev)[cls]
            vals = (p.hdr_fc, p.data_fc)
            mon.check(p.vc == 0, "fc-vc", lambda: f"{d}: {p} for inactive virtual channel {p.vc}")
            if kind.startswith("INIT"):
                exp = self.expect_init.get(d.tx)
                if exp is not None:
                    e = exp[("P", "NP", "CPL").index(cls) * 2:][:2]
                    if c["ups"] == 0 and sum(c["rcvd"]) == 0:
                        mon.check(list(vals) == list(e), "fc-init-value", lambda: f"{d}: {p} advertises {vals}, receive buffers were configured as {e}")
                if c["adv"] is None:
                    c["adv"] = list(vals)
                    c["adv_init"] = list(vals)
                elif sum(c["rcvd"]) == 0:
                    mon.check(list(vals) == c["adv_init"], "fc-init-value", lambda: f"{d}: {p} changes the initial advertisement {c['adv_init']}")
            else:
                c["ups"] += 1
                if not mon.check(c["adv"] is not None, "fc-update-early", lambda: f"{d}: {p} before initialisation"):
                    return
                for k, bits in ((0, self.HB), (1, self.DB)):
                    if c["adv_init"][k] == 0:
                        mon.check(vals[k] == 0, "fc-infinite", lambda: f"{d}: {p} advertises a limit for infinite {cls} credits")
                        continue
                    step = (vals[k] - c["adv"][k]) % (1 << bits)
                    mon.check(step < 1 << (bits - 1), "fc-regress", lambda: f"{d}: {p} lowers the {cls} {'data' if k else 'header'} limit from {c['adv'][k] % (1 << bits)} to {vals[k]}")
                    new = c["adv"][k] + step
                    mon.check(new <= c["adv_init"][k] + c["rcvd"][k], "fc-overreturn",
                              lambda: f"{d}: {p} advertises {new} {cls} {'data' if k else 'header'} credits: initial {c['adv_init'][k]} plus {c['rcvd'][k]} received so far")
                    c["adv"][k] = new
                mon.count("updates_checked")

    def arrive(self, d, is_tlp, p):
        if not is_tlp and "_FC" in p.type:
            kind, cls = p.type.rsplit("_", 1)
            c = self.get(d.rev)[cls]
            vals = (p.hdr_fc, p.data_fc)
            if kind.startswith("INIT"):
                if c["init"] is None:
                    c["init"] = list(vals)
                    c["lim"] = list(vals)
                if kind == "INIT_FC2":
                    c["fc2"] = True
                    self.mon.count("fc_init2_seen")
            elif c["init"] is not None:
                c["fc2"] = True
                for k, bits in ((0, self.HB), (1, self.DB)):
                    if c["init"][k]:
                        c["lim"][k] += (vals[k] - c["lim"][k]) % (1 << bits)
        elif is_tlp:
            s = self.get(d)
            if p.seq == (self.rxseq.get(d, 0) & 0xfff):
                self.rxseq[d] = self.rxseq.get(d, 0) + 1
                c = s[p.cls]
                need = (1, p.dcred())
                for k in (0, 1):
                    c["rcvd"][k] += need[k]
                    # receiver's own buffer
                    if c["adv_init"] and c["adv_init"][k]:
                        self.mon.check(c["rcvd"][k] <= c["adv"][k], "fc-overrun",
                                       lambda: f"{d}: {p} overruns the receive buffer: {c['rcvd'][k]} {p.cls} {'data' if k else 'header'} credits received, {c['adv'][k]} ever advertised")

    def finish(self, d):
        for cls, c in self.get(d).items():
            if c["adv_init"] is None:
                self.mon.violate("fc-no-init", f"{d}: no {cls} credits were ever advertised")
                continue
            for k in (0, 1):
                if c["adv_init"][k]:
                    self.mon.check(c["adv"][k] == c["adv_init"][k] + c["rcvd"][k], "fc-leak",
                                   lambda: f"{d}: at rest the advertised {cls} {'data' if k else 'header'} limit is {c['adv'][k]}, initial {c['adv_init'][k]} plus received {c['rcvd'][k]} "
                                           f"= {c['adv_init'][k] + c['rcvd'][k]}")
                    self.mon.check(c["lim"][k] == c["adv"][k], "fc-leak", lambda: f"{d}: at rest the transmitter's {cls} limit {c['lim'][k]} is not the advertised {c['adv'][k]}")
            self.mon.count("credit_pools_balanced")
            # the same, as the ports report it (models expose these counters)
            try:
                txs = {"P": ("ph", "pd"), "NP": ("nph", "npd"), "CPL": ("cplh", "cpld")}[cls]
                for k in (0, 1):
                    t = getattr(d.tx.fc_state[0], txs[k])
                    r = getattr(d.rx.fc_state[0], txs[k])
                    if c["adv_init"][k]:
                        ta, ra = t.tx_credits_available, r.rx_credits_available
                        self.mon.check(ta == c["lim"][k] - c["used"][k], "fc-report", lambda: f"{d}: transmitter reports {ta} {cls} credits available, limit {c['lim'][k]} minus consumed {c['used'][k]} expected")
                        self.mon.check(ra == c["adv_init"][k], "fc-report", lambda: f"{d}: idle receiver reports {ra} {cls} credits available, {c['adv_init'][k]} expected")
                        self.mon.count("port_reports_checked")
            except AttributeError:
                pass


class RateMonitor(Monitor):
    """Serialisation and propagation: no packet faster than the negotiated link"""
    GBPS = {1: 2.5 * 8 / 10, 2: 5 * 8 / 10, 3: 8 * 128 / 130, 4: 16 * 128 / 130, 5: 32 * 128 / 130}

    def __init__(self, mon, ack_bound=True):
        self.mon = mon
        self.st = {}
        self.unacked = {}
        self.ack_bound = ack_bound
        self.ret = {}

    def link(self, d):
        s = self.st.get(d)
        if s is None:
            sp = min(x.max_link_speed for x in (d.tx, d.rx) if x.max_link_speed) if d.tx.max_link_speed or d.rx.max_link_speed else None
            w = min(x.max_link_width for x in (d.tx, d.rx) if x.max_link_width) if d.tx.max_link_width or d.rx.max_link_width else None
            s = self.st[d] = dict(speed=sp, width=w, free=0, fly=[], first=None, bytes=0)
            if sp and w:
                self.mon.check((d.tx.cur_link_speed, d.tx.cur_link_width) == (sp, w), "link-negotiation",
                               lambda: f"{d}: trained to gen {d.tx.cur_link_speed} x{d.tx.cur_link_width}, expected gen {sp} x{w}")
                self.mon.sig("link", sp, w)
        return s

    def tx_start(self, d, is_tlp, p):
        s = self.link(d)
        if not (s["speed"] and s["width"]):
            return
        size = p.wire() if is_tlp else 8
        ps = size * 8 / (self.GBPS[s["speed"]] * s["width"]) * 1000
        self.mon.check(p.time >= s["free"] - 1.01, "link-rate", lambda: f"{d}: {p} starts at {p.time} ps, {s['free'] - p.time:.0f} ps before the previous packet has been serialised")
        s["free"] = p.time + ps
        delay = (d.tx.port_delay + d.rx.port_delay) * 1e12
        s["fly"].append((p.time + ps + delay, p))
        s["maxps"] = max(s.get("maxps", 0), ps)
        if not is_tlp and "_FC" in p.type:
            self.fc_seen(d, p)
        if is_tlp:
            self.mon.count("rate_checked_tlps")

    def released(self, d, cls, dcred, time):
        """The receiver of d gave back the buffer of a packet"""
        c = self.ret.setdefault((d, cls), dict(init=None, rel=[0, 0], adv=[0, 0], wait=[]))
        c["rel"][0] += 1
        c["rel"][1] += dcred
        c["wait"].append((time, list(c["rel"])))

    def fc_seen(self, d, p):
        """p, travelling in d, advertises buffers of the receiver of d.rev"""
        kind, cls = p.type.rsplit("_", 1)
        c = self.ret.setdefault((d.rev, cls), dict(init=None, rel=[0, 0], adv=[0, 0], wait=[]))
        v = (p.hdr_fc, p.data_fc)
        if kind != "UPDATE_FC":
            c["init"] = c["init"] or v
            c["adv"] = list(v)
            return
        for k, bits in ((0, 12), (1, 16)):
            c["adv"][k] += (v[k] - c["adv"][k]) % (1 << bits)
        w = c["wait"]
        while w and all(not c["init"][k] or c["adv"][k] >= c["init"][k] + w[0][1][k] for k in (0, 1)):
            t, _ = w.pop(0)
            lag = p.time - t
            # the update timer, the packet being sent, and link management packets
            s = self.link(d)
            bound = 5e6 + 1.5 * s.get("maxps", 0)
            self.mon.check(lag <= bound, "credit-return", lambda: f"{d}: {cls} buffer given back at {t} ps, advertised {lag / 1e6:.1f} us later (at most {bound / 1e6:.1f} us expected)")
            self.mon.maxi("credit_return_ns", int(lag / 1000))
            self.mon.count("credit_returns_timed")

    def arrive(self, d, is_tlp, p):
        s = self.link(d)
        if s["fly"]:
            t, w = s["fly"].pop(0)
            self.mon.check(abs(p.time - t) <= 3, "link-latency", lambda: f"{d}: {p} arrives at {p.time} ps, expected {t:.0f} ps for a gen {s['speed']} x{s['width']} link")
