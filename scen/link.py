"""Two ports joined back to back: dense link-level stress."""
import random

import cocotb
from cocotb.triggers import Event, Timer
from cocotb.utils import get_sim_time

from cocotbext.pcie.core.dllp import Dllp
from cocotbext.pcie.core.port import SimPort
from cocotbext.pcie.core.tlp import Tlp, TlpType
from cocotbext.pcie.core.utils import PcieId

from vlib.links import CreditMonitor, Hostile, LinkSet, RateMonitor, SeqMonitor
from vlib.topo import rand_fc

KINDS = {
    "P": [TlpType.MEM_WRITE, TlpType.MEM_WRITE_64],
    "NP": [TlpType.MEM_READ, TlpType.MEM_READ_64, TlpType.IO_READ, TlpType.IO_WRITE, TlpType.CFG_WRITE_0, TlpType.FETCH_ADD, TlpType.CAS_64],
    "CPL": [TlpType.CPL, TlpType.CPL_DATA],
}


def rand_tlp(rng, cls, uid, maxdw):
    t = Tlp()
    t.fmt_type = rng.choice(KINDS[cls])
    t.requester_id = PcieId(rng.randrange(256), rng.randrange(32), rng.randrange(8))
    t.completer_id = PcieId(rng.randrange(256), rng.randrange(32), rng.randrange(8))
    t.tag = uid & 0x3ff
    t.tc = rng.randrange(8)
    t.address = rng.getrandbits(32 if t.fmt_type not in (TlpType.MEM_WRITE_64, TlpType.MEM_READ_64, TlpType.CAS_64) else 64) & ~3
    t.length = 1
    t.first_be = 0xf
    if t.fmt_type in (TlpType.MEM_WRITE, TlpType.MEM_WRITE_64, TlpType.CPL_DATA):
        t.length = rng.choice([1, 1, 2, 3, 4, 5, 8, 9, maxdw, rng.randrange(1, maxdw + 1)])
    elif t.fmt_type in (TlpType.MEM_READ, TlpType.MEM_READ_64):
        t.length = rng.randrange(1, 1025)
    elif t.fmt_type == TlpType.CAS_64:
        t.length = 4
    if t.fmt_type in (TlpType.CPL, TlpType.CPL_DATA):
        t.byte_count = rng.randrange(1, 4097)
    t.last_be = 0xf if t.length > 1 else 0
    if t.has_data():
        t.data = bytearray(rng.randbytes(4 * t.length))
    return t


async def run(dut, mon, rng, fc="default", hostile="none", n=400, monitors="seq,fc,rate", maxdw=32, link=None, senders=1, hold=2000, junk=False, pattern=None, stall=None, pdelay=0):
    h = None
    if hostile == "delay":
        h = Hostile(rng, delay_ns=rng.choice([20, 300, 1500]), p_delay=0.3)
    elif hostile == "dup":
        h = Hostile(rng, delay_ns=100, p_delay=0.1, p_dup=0.15, p_drop_ack=0.3)
    elif hostile == "ooo":
        h = Hostile(rng, delay_ns=100, p_delay=0.1, p_dup=0.05, p_drop_ack=0.2, p_ooo=0.1)
    ls = LinkSet(mon)
    rm = None
    init = {}

    def mk():
        f = fc if isinstance(fc, list) else rand_fc(rng, fc, maxdw * 4) or [64, 1024, 64, 64, 64, 1024]
        p = SimPort(fc_init=[f] + [[0] * 6] * 7)
        init[p] = f
        p.max_link_speed, p.max_link_width = link or (rng.choice([1, 2, 3, 4, 5]), rng.choice([1, 2, 4, 8, 16]))
        if pdelay:
            p.port_delay = pdelay * rng.choice([0.3, 1, 1]) * 1e-6
        return p

    a, b = mk(), mk()
    sm = SeqMonitor(mon)
    if "seq" in monitors:
        ls.add(sm)
    junk = junk and "seq" in monitors
    if "fc" in monitors:
        ls.add(CreditMonitor(mon, init))
    if "rate" in monitors:
        rm = ls.add(RateMonitor(mon))
    stalled = {"P": False, "NP": False, "CPL": False}
    if stall:
        stalled[stall] = True
    go = Event()
    total = {a: 0, b: 0}
    got = {a: 0, b: 0}
    done = Event()
    sent_order = {a: {"P": [], "NP": [], "CPL": []}, b: {"P": [], "NP": [], "CPL": []}}
    recv_order = {a: {"P": [], "NP": [], "CPL": []}, b: {"P": [], "NP": [], "CPL": []}}

    from vlib.snap import Snap

    def receiver(p, peer):
        r = random.Random(rng.getrandbits(64))
        pool = []

        async def rx(tlp):
            s = Snap(tlp, 0)
            recv_order[peer][s.cls].append(s.content())
            got[peer] += 1
            pool.append((s.cls, tlp, s.dcred()))
            kick.set()
            if r.random() < 0.05:
                await Timer(r.randrange(1, max(2, hold)), "ns")

        kick = Event()

        async def releaser():
            # give buffers back late and in any order
            while True:
                k = [i for i, (c, _, _) in enumerate(pool) if not stalled[c]]
                if not k:
                    kick.clear()
                    await kick.wait()
                    continue
                if r.random() < 0.3:
                    await Timer(r.randrange(1, max(2, hold)), "ns")
                c, t, dc = pool.pop(r.choice(k))
                t.release_fc()
                if rm:
                    rm.released(ls.dirs[0] if p is b else ls.dirs[1], c, dc, get_sim_time())
                if r.random() < 0.02:
                    t.release_fc()      # releasing twice must not return credits twice
                    mon.count("double_releases")

        p.rx_handler = rx
        cocotb.start_soon(releaser())
        return kick

    kicks = [receiver(a, b), receiver(b, a)]
    a.connect(b)
    ls.tap(a, b, "ab", h)

    uid = 0

    async def sender(p, cls_list, cnt):
        nonlocal uid
        r = random.Random(rng.getrandbits(64))
        for _ in range(cnt):
            uid += 1
            c = r.choice(cls_list)
            t = rand_tlp(r, c, uid, maxdw)
            s = Snap(t)
            total[p] += 1
            sent_order[p][s.cls].append(s.content())
            await p.send(t)
            if pattern != "dense" and r.random() < 0.1:
                await Timer(r.randrange(1, 500), "ns")

    tasks = []
    for p in (a, b):
        # one sender per class: order within a class is what was sent
        for c in ("P", "NP", "CPL"):
            tasks.append((c, cocotb.start_soon(sender(p, [c], n))))

    if junk:
        async def junker(p):
            r = random.Random(rng.getrandbits(64))
            for _ in range(n // 4):
                await Timer(r.randrange(50, 3000), "ns")
                st = seqm.st.get(ls.dirs[0] if p is a else ls.dirs[1])
                if not st:
                    continue
                # acknowledgement of a packet not sent yet, or long acknowledged
                nxt = st["next"]
                k = r.choice([nxt + r.randrange(1, 500), nxt, (p.ackd_seq if hasattr(p, "ackd_seq") else nxt) - r.randrange(0, 500)]) & 0xfff
                before = p.retry_buffer.qsize() if hasattr(p, "retry_buffer") else None
                p.handle_dllp(Dllp.create_ack(k))
                if before is not None:
                    mon.check(p.retry_buffer.qsize() == before, "ack-junk", lambda: f"acknowledgement of sequence number {k} (next to send {nxt}) released retry buffer entries")
                mon.count("junk_acks")
        seqm = sm
        for p in (a, b):
            cocotb.start_soon(junker(p))

    if stall:
        # other classes must finish while one class gets no buffers back
        for c, t in tasks:
            if c != stall:
                await t.join()
        mon.count("classes_progress_while_stalled")
        mon.count("stalled_class_blocked", sum(not t.done() for c, t in tasks if c == stall))
        mon.sig("stall", stall, tuple(init[a]), tuple(init[b]))
        stalled[stall] = False
        for k in kicks:
            k.set()
    for c, t in tasks:
        await t.join()
    # everything has been handed to the link; it drains on its own
    while got[a] < total[a] or got[b] < total[b]:
        await Timer(5, "us")
    await Timer(200, "us")
    if h:
        h.active = False
        await ls.settle()
    for p in (a, b):
        for c in ("P", "NP", "CPL"):
            mon.check(sent_order[p][c] == recv_order[p][c], "link-order", lambda: f"{c} packets were not received exactly once in the order they were sent "
                      f"({len(sent_order[p][c])} sent, {len(recv_order[p][c])} received)")
    ls.finish()
    mon.count("tlps_end_to_end", got[a] + got[b])
    mon.sample(dict(fc=[init[a], init[b]], link=[(x.cur_link_speed, x.cur_link_width) for x in (a, b)], hostile=hostile, tlps=[got[a], got[b]]))
