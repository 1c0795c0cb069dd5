"""Producer/consumer: whoever sees the flag sees the data behind it."""
import random
import struct

import cocotb
from cocotb.triggers import Timer
from cocotbext.axi import MemoryRegion

from vlib.links import Hostile
from vlib.order import OrderMonitor
from vlib.topo import Topo
from scen.traffic import gen_traffic

BLK = 64        # stamps in a block


class SlowRegion(MemoryRegion):
    def __init__(self, size, rng):
        super().__init__(size)
        self.rng = random.Random(rng.getrandbits(48))

    async def _read(self, address, length, **kwargs):
        if self.rng.random() < 0.5:
            await Timer(self.rng.choice([1, 20, 100]), "ns")
        return await super()._read(address, length, **kwargs)

    async def _write(self, address, data, **kwargs):
        if self.rng.random() < 0.5:
            await Timer(self.rng.choice([1, 20, 100]), "ns")
        await super()._write(address, data, **kwargs)


async def run(dut, mon, rng, topo="switch", fc="tiny", mps=0, hostile="none", nfunc=1, rounds=40, cross=40, slow=False, **kw):
    h = Hostile(rng, delay_ns=rng.choice([50, 300, 1500]), p_delay=0.3) if hostile == "delay" else None
    t = Topo(mon, rng, topo, fc=fc, mps=mps, hostile=h, nfunc=nfunc)
    rc = t.rc
    await t.up()
    await Timer(20, "us")
    om = t.links.add(OrderMonitor(mon, t))
    om.start()
    if slow:
        # host memory with an access time
        sr = SlowRegion(1 << 18, rng)
        base, host = 0x9000_0000, sr.mem
        rc.mem_address_space.register_region(sr, base)
        t.host_ranges.append((base, base + (1 << 18)))
        mon.count("slow_host_memories")
    else:
        base, host = rc.alloc_region(1 << 18)
    # places for data and flags: (owner, address, store, offset of the store)
    spots = []
    for k in range(6):
        spots.append((None, base + k * 0x8000, host, k * 0x8000))
    for ep in t.eps:
        for kind, addr, size, m in t.windows(ep):
            if kind != "io" and size >= 8192:
                spots.append((ep, addr + size // 2, m, size // 2))
                break
    rng.shuffle(spots)
    producers = [("rc", None)] + [(f"ep{n}", e) for n, e in enumerate(t.eps)]
    stop = []

    def look(spot, r):
        """flag first, then the data: what a consumer next to the memory sees"""
        _, _, m, o = spot
        flag = struct.unpack_from("<L", m, o + 2048)[0]
        data = struct.unpack_from(f"<{BLK}L", m, o)
        tail = struct.unpack_from(f"<{BLK}L", m, o + 2048 + 256)
        return flag, min(data), min(tail)

    async def flow(pi, spot, seed):
        name, pe = producers[pi]
        r = random.Random(seed)
        owner, addr, m, o = spot
        obj = rc if pe is None else pe
        st = dict(flag=0)
        for n in range(1, rounds + 1):
            ln = r.choice([BLK * 4, BLK * 4, 4])
            # the data, in pieces whose last stamp counts
            order = list(range(0, BLK * 4, ln)) if ln > 4 else r.sample(range(0, BLK * 4, 4), BLK)
            for p in order:
                await obj.mem_write(addr + p, struct.pack("<L", n) * (ln // 4))
            await obj.mem_write(addr + 2048 + 256, struct.pack("<L", n) * BLK)
            st["data"] = n
            await obj.mem_write(addr + 2048, struct.pack("<L", n))
            st["flag"] = n
            if pe is not None and owner is None:
                # a register of its own tells the host
                reg = t.windows(pe)
                kind, ra, size, rm = next(w for w in reg if w[0] != "io")
                struct.pack_into("<L", rm, pi * 0, n)
            if r.random() < 0.35:
                # a read of the producer pushes what it wrote
                await obj.mem_read(addr + r.choice([0, 2048, 3000, 4]), r.choice([0, 1, 4, 8]))
                f, d, tl = look(spot, r)
                mon.check(f == n and d >= n and tl >= n, "read-passed-write", lambda: f"{name} round {n}: its read completed while flag {f}, data {d}/{tl} are in memory")
                mon.count("read_flushes")
            if r.random() < 0.3:
                await Timer(r.randrange(1, 400), "ns")

    async def local_consumer(spot, seed):
        r = random.Random(seed)
        last = 0
        while not stop:
            await Timer(r.choice([1, 3, 10, 50, 200]), "ns")
            f, d, tl = look(spot, r)
            if f != last:
                last = f
                mon.check(d >= f and tl >= f, "flag-before-data", lambda: f"flag {f} is in memory at {spot[1]:#x}, data only {d}/{tl}")
                mon.count("flags_seen_locally")

    async def remote_consumer(spot, seed):
        """host software polls over the link"""
        r = random.Random(seed)
        owner, addr, m, o = spot
        while not stop:
            f = struct.unpack("<L", await rc.mem_read(addr + 2048, 4))[0]
            d = struct.unpack(f"<{BLK}L", await rc.mem_read(addr, BLK * 4))
            mon.check(min(d) >= f, "flag-before-data", lambda: f"host read flag {f} at {addr:#x} and then data {min(d)}")
            mon.count("flags_polled_remotely")
            await Timer(r.choice([10, 100, 500]), "ns")

    async def status_consumer(pi, spot, seed):
        """host reads a register of the producer: what it announces is in host memory"""
        r = random.Random(seed)
        pe = producers[pi][1]
        kind, ra, size, rm = next(w for w in t.windows(pe) if w[0] != "io")
        while not stop:
            n = struct.unpack("<L", await rc.mem_read(ra, 4))[0]
            f, d, tl = look(spot, r)
            mon.check(f >= n and d >= n and tl >= n, "completion-passed-write", lambda: f"register of {producers[pi][0]} read as {n}, but flag {f}, data {d}/{tl} are in host memory")
            mon.count("registers_polled")
            await Timer(r.choice([1, 50, 300]), "ns")

    flows = []
    cons = []
    used = set()
    for spot in spots[:6]:
        owner = spot[0]
        ok = [i for i, (n, e) in enumerate(producers) if i not in used and e is not owner and not (e is not None and owner is not None and t.siblings(e, owner))
              and (e is None or any(w[0] != "io" for w in t.windows(e)))]
        if not ok:
            continue
        pi = rng.choice(ok)
        if pi:
            used.add(pi)
        st = producers[pi][1]
        if owner is None and st is not None:
            kind, ra, size, rm = next(w for w in t.windows(st) if w[0] != "io")
            struct.pack_into("<L", rm, 0, 0)
            cons.append(status_consumer(pi, spot, rng.getrandbits(32)))
        struct.pack_into(f"<{BLK}L", spot[2], spot[3], *[0] * BLK)
        flows.append(flow(pi, spot, rng.getrandbits(32)))
        cons.append(local_consumer(spot, rng.getrandbits(32)))
        if owner is not None:
            cons.append(remote_consumer(spot, rng.getrandbits(32)))
        mon.sig("flow", producers[pi][0], owner is None, topo, fc, hostile)
        mon.count("flows")
    cs = [cocotb.start_soon(c) for c in cons]

    async def noise(ep, seed):
        r = random.Random(seed)
        while not stop:
            # reads and writes that keep the buffers full, away from the spots
            tgt = r.choice(t.eps)
            if ep is not None and t.siblings(ep, tgt):
                tgt = None
            if tgt is None:
                a, sz = base + 0x38000, 0x4000
            else:
                ws = [w for w in t.windows(tgt) if w[0] != "io"]
                if not ws:
                    continue
                kind, a, sz, m = ws[0]
                sz //= 4
                a += 64
                sz -= 64
            if ep is None and tgt is None:
                await Timer(10, "ns")
                continue
            obj = rc if ep is None else ep
            ln = r.randrange(1, 300)
            if r.random() < 0.6:
                await obj.mem_read(a + r.randrange(sz - ln), ln)
            else:
                await obj.mem_write(a + r.randrange(sz - ln), bytes(ln))
            if r.random() < 0.2:
                await Timer(r.randrange(100, 1000), "ns")

    ns = [cocotb.start_soon(noise(rng.choice([None] + t.eps), rng.getrandbits(32))) for _ in range(kw.get("noises", 4))]
    fs = [cocotb.start_soon(f) for f in flows]
    for f in fs:
        await f
    stop.append(1)
    for x in cs + ns:
        await x
    await Timer(200, "us")
    if h:
        h.active = False
        await t.links.settle()
    om.conclude()
    for spot in spots[:6]:
        f, d, tl = look(spot, rng)
        if f:
            mon.check(f == rounds and d == rounds and tl == rounds, "lost-write", lambda: f"at the end flag {f}, data {d}/{tl}, expected {rounds}")
    mon.sample(dict(topology=topo, fc=fc, flows=len(flows)))
