"""Concurrent traffic over random hierarchies with link-level monitors."""
import random

import cocotb
from cocotb.triggers import Timer
from cocotbext.axi import MemoryRegion

from vlib import access
from vlib.links import SeqMonitor, CreditMonitor, RateMonitor, Hostile
from vlib.route import RouteMonitor
from vlib.topo import Topo


async def gen_traffic(t, mon, rng, ops, agents=4, maxlen=600, io=True, p2p=True, reads=0.45, slots=None):
    """Agents (root complex, endpoints) write and read random byte ranges of
    each other's memory; every read is compared with a model of the range the
    agent owns. Returns the models for a final comparison."""
    rc = t.rc
    base, rcmem = rc.alloc_region(1 << 16)
    iobase, rciomem = rc.alloc_io_region(1 << 8)
    bars = {}
    targets = []      # (name, kind, address, size, store, owner)
    targets.append(("rc", "mem", base, 1 << 16, rcmem, None))
    targets.append(("rc", "io", iobase, 1 << 8, rciomem, None))
    for n, ep in enumerate(t.eps):
        if ep not in t.pdev:
            continue
        for (k, addr, size, m), (bi, *_) in zip(t.windows(ep), t.mems[ep]):
            bars[len(targets)] = bi
            targets.append((f"ep{n}", "io" if k == "io" else "mem", addr, size, m, ep))
    # host memory whose address, cut to 32 bits or taken as an I/O address, is one of a function
    seen = set()
    for tn, kind, addr, size, store, owner in list(targets[2:]):
        if rng.random() < 0.4 and len(seen) < 3:
            ha = addr & 0xfffff000 | (rng.getrandbits(31) | 1) << 32 if kind == "mem" else addr & 0xfffff000
            if kind == "io" and ha == 0x8000_0000 or ha in seen or kind == "mem" and addr >> 32:
                continue
            seen.add(ha)
            reg = MemoryRegion(0x1000)
            rc.mem_address_space.register_region(reg, ha)
            t.host_ranges.append((ha, ha + 0x1000))
            targets.append(("rc", "mem", ha, 0x1000, reg.mem, None))
            mon.count("alias_regions")
    mon.count("targets", len(targets))
    # give every agent its own slice of every target
    who = [("rc", None)] + [(f"ep{n}", ep) for n, ep in enumerate(t.eps) if ep in t.pdev]
    ags = [who[0]] + [rng.choice(who) for _ in range(agents - 1)] if agents > 1 else [who[0]]
    if len(who) > 1 and all(a[0] == "rc" for a in ags):
        ags[-1] = who[1]
    models = {}
    for ti, (tn, kind, addr, size, store, owner) in enumerate(targets):
        models[ti] = bytearray(size)
        fill = rng.randbytes(min(size, 1 << 16))
        models[ti][:len(fill)] = fill
        store[:len(fill)] = fill

    async def agent(ai, name, ep):
        r = random.Random(rng.getrandbits(64))
        obj = rc if ep is None else ep
        mine = []
        for ti, (tn, kind, addr, size, store, owner) in enumerate(targets):
            if owner is not None and ep is not None and t.siblings(owner, ep):
                continue      # no access to functions of the same device
            if tn == "rc" and ep is None:
                continue
            if kind == "io" and not io:
                continue
            if not p2p and ep is not None and tn != "rc":
                continue
            step = size // len(ags)
            mine.append((ti, ai * step, (ai + 1) * step))
        if not mine:
            return
        for k in range(ops):
            ti, lo, hi = r.choice(mine)
            tn, kind, addr, size, store, owner = targets[ti]
            ln = r.choice([1, 2, 3, 4, 5, 8, 64, 127, 128, 129, r.randrange(1, maxlen + 1), r.randrange(1, 33)])
            if kind == "io":
                ln = r.randrange(1, 12)
            ln = min(ln, hi - lo)
            if r.random() < 0.3 and hi - lo > 4096 + 64:
                # straddle a page boundary
                pg = r.randrange((lo >> 12) + 1, hi >> 12) << 12 if (hi >> 12) > (lo >> 12) + 1 else ((lo >> 12) + 1) << 12
                off = max(lo, min(pg - r.randrange(1, max(2, ln)), hi - ln))
            else:
                off = r.randrange(lo, hi - ln + 1)
            a = addr + off
            mon.count(f"op_{kind}")
            mon.sig(name, tn, kind, off & 0x7f, ln)
            via = (obj, kind, ())
            if ep is None and owner is not None and r.random() < 0.4:
                # through the window enumeration made for the range
                via = (t.pdev[owner].bar_window[bars[ti]], "", ())
                a = off
                mon.count("window_accesses")
            if r.random() < reads:
                got = await access.rd(r, *via, a, ln, plain=0.6)
                want = bytes(models[ti][off:off + ln])
                mon.check(got == want, "data-read", lambda: f"{name} read {ln} bytes at {tn}+{off:#x} ({kind}): got {got[:32].hex()} expected {want[:32].hex()}")
            else:
                data = r.randbytes(ln)
                models[ti][off:off + ln] = data
                await access.wr(r, *via, a, data, plain=0.6)
            if r.random() < 0.1:
                await Timer(r.randrange(1, 300), "ns")

    tasks = [cocotb.start_soon(agent(i, n, e)) for i, (n, e) in enumerate(ags)]
    for x in tasks:
        await x.join()
    # posted writes drain
    await Timer(20, "us")

    def final():
        for ti, (tn, kind, addr, size, store, owner) in enumerate(targets):
            got = bytes(store[:size])
            if got != bytes(models[ti]):
                k = next(i for i in range(size) if got[i] != models[ti][i])
                mon.violate("data-final", f"{tn} {kind}: byte {k:#x} is {got[k]:#x}, expected {models[ti][k]:#x}")
            mon.ev()
            mon.count("images_compared")
    return final


async def run(dut, mon, rng, topo="single", fc="default", mps=0, hostile="none", monitors="seq,fc", ops=100, agents=4, nfunc=1, maxlen=600, **kw):
    h = None
    if hostile == "delay":
        h = Hostile(rng, delay_ns=rng.choice([50, 300, 1500]), p_delay=0.3)
    elif hostile == "dup":
        h = Hostile(rng, delay_ns=100, p_delay=0.1, p_dup=0.1, p_drop_ack=0.3)
    elif hostile == "ooo":
        h = Hostile(rng, delay_ns=100, p_delay=0.1, p_dup=0.05, p_drop_ack=0.2, p_ooo=0.1)
    t = Topo(mon, rng, topo, fc=fc, mps=mps, hostile=h, nfunc=nfunc)
    ms = monitors.split(",")
    if "seq" in ms:
        t.links.add(SeqMonitor(mon))
    if "fc" in ms:
        t.links.add(CreditMonitor(mon, t.expect_init))
    if "rate" in ms:
        t.links.add(RateMonitor(mon))
    await t.up()
    if "route" in ms:
        await Timer(20, "us")
        rm = t.links.add(RouteMonitor(mon, t))
        rm.start()
    final = await gen_traffic(t, mon, rng, ops, agents, maxlen)
    await Timer(150, "us")
    if h:
        h.active = False
        await t.links.settle()
    if "route" in ms:
        rm.conclude()
    final()
    t.links.finish()
    mon.sample(dict(topology=topo, links=[d.name for d in t.links.dirs], fc=fc, mps=128 << mps, tlps={d.name: d.n_tlp for d in t.links.dirs}))


async def storm(dut, mon, rng, topo="switch", fc="default", reads=256, writes=0, monitors="rate", **kw):
    """Every endpoint reads from its neighbour with as many requests
    outstanding as it has tags"""
    t = Topo(mon, rng, topo, fc=fc, ext_tag=True)
    ms = monitors.split(",")
    if "rate" in ms:
        t.links.add(RateMonitor(mon))
    if "fc" in ms:
        t.links.add(CreditMonitor(mon, t.expect_init))
    await t.up()
    tasks = []
    for k, ep in enumerate(t.eps):
        peer = t.eps[(k + 1) % len(t.eps)]
        kind, addr, size, m = [w for w in t.windows(peer) if w[0] != "io"][0] if any(w[0] != "io" for w in t.windows(peer)) else t.windows(peer)[0]
        m[0:size] = rng.randbytes(size)
        img = bytes(m[0:size])

        async def one(ep=ep, addr=addr, size=size, img=img, seed=rng.getrandbits(32)):
            r = random.Random(seed)
            ln = r.randrange(1, 65)
            off = r.randrange(0, size - ln)
            got = await ep.mem_read(addr + off, ln)
            mon.check(bytes(got) == img[off:off + ln], "data-read", "peer read returned wrong data")
            mon.count("storm_reads")

        async def wr(ep=ep, addr=addr, seed=rng.getrandbits(32), img=img, size=size):
            r = random.Random(seed)
            off = r.randrange(0, size - 64)
            await ep.mem_write(addr + off, img[off:off + 64])
            mon.count("storm_writes")

        for i in range(max(reads, writes)):
            if i < reads:
                tasks.append(cocotb.start_soon(one()))
            if i < writes:
                tasks.append(cocotb.start_soon(wr()))
    for x in tasks:
        await x.join()
    mon.sig("storm", topo, len(t.eps), reads, writes)
    await Timer(100, "us")
    t.links.finish()
