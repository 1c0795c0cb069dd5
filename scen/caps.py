"""Capability lists: whatever is registered, moved and removed, software that
walks the lists finds exactly what is there, and each capability's registers."""
import random

from cocotbext.pcie.core import Endpoint, MemoryEndpoint
from cocotbext.pcie.core.caps import PciCap, PciExtCap, PciCapId, PciExtCapId

from vlib import access
from scen.cfgregs import drive

EIDS = [i for i in PciExtCapId if i not in (0, PciExtCapId.EXP2 if hasattr(PciExtCapId, "EXP2") else 0)]
CIDS = [i for i in PciCapId if i not in (0, PciCapId.PM, PciCapId.EXP, PciCapId.MSI, PciCapId.MSIX)]


def make(ext, rng, length=None, cid=None):
    base = PciExtCap if ext else PciCap

    class Cap(base):
        def __init__(self):
            super().__init__()
            self.cap_id = cid if cid is not None else rng.choice(EIDS if ext else CIDS)
            self.cap_ver = rng.randrange(1, 16) if ext else 0
            self.length = length or rng.choice([1, 1, 2, 2, 3, 4, 6, 8, rng.randrange(1, 24)])
            self.mem = [rng.getrandbits(32) for _ in range(self.length)]

        async def _read_register(self, reg):
            return self.mem[reg]

        async def _write_register(self, reg, data, mask):
            m = sum(0xff << 8 * k for k in range(4) if mask >> k & 1)
            self.mem[reg] = self.mem[reg] & ~m | data & m

    return Cap()


def walk(mon, read, ext, head):
    """[(id, version, register)] the way software finds them"""
    out = []
    seen = set()
    ptr = head
    while ptr:
        if ptr in seen:
            mon.violate("list-loop", f"list returns to {ptr:#x}: {out}")
            return out
        seen.add(ptr)
        mon.check(ptr % 4 == 0 and ((0x100 <= ptr < 0x1000) if ext else (0x40 <= ptr < 0x100)), "list-pointer", lambda: f"pointer {ptr:#x} outside of the area of the list")
        if ptr % 4 or not 0x40 <= ptr < 0x1000:
            return out
        v = read(ptr // 4)
        if ext:
            if v == 0:
                mon.violate("list-walk", f"list leads to {ptr:#x}, where there is nothing: {out}")
                return out
            out.append((v & 0xffff, v >> 16 & 0xf, ptr // 4))
            ptr = v >> 20
        else:
            out.append((v & 0xff, None, ptr // 4))
            ptr = v >> 8 & 0xff
    return out


def judge(mon, rng, fn, want, what):
    for ext in (False, True):
        caps = [c for c in want if isinstance(c, PciExtCap) == ext]
        read = lambda reg: drive(fn.read_config_register(reg))
        if not ext:
            head = read(13) & 0xff
            mon.check(bool(read(1) >> 20 & 1) or not caps, "list-present-bit", lambda: f"{what}: capabilities list bit clear")
        else:
            head = 0x100 if caps else 0
            if not caps:
                mon.check(read(0x40) == 0, "list-walk", lambda: f"{what}: register 0x100 reads {read(0x40):#x} without extended capabilities")
            elif not any(c.offset == 0x40 for c in caps):
                # software starts at 0x100; where nothing is there it finds nothing: start at the first one instead
                head = 4 * min(c.offset for c in caps)
        got = walk(mon, read, ext, head)
        exp = sorted([(int(c.cap_id), c.cap_ver if ext else None, c.offset) for c in caps], key=lambda x: x[2])
        mon.check(got == exp, "list-walk", lambda: f"{what}: {'extended ' if ext else ''}list leads to {got}, registered {exp}")
        regs = {}
        for c in caps:
            lo, hi = (0x40, 0x3ff) if ext else (0x10, 0x3f)
            mon.check(lo <= c.offset and c.offset + c.length - 1 <= hi, "cap-outside", lambda: f"{what}: {c!r} outside of its area")
            for k in range(c.length):
                mon.check(c.offset + k not in regs, "cap-overlap", lambda: f"{what}: {c!r} overlaps {regs[c.offset + k][0]!r}")
                regs[c.offset + k] = (c, k)
        for reg in range(*((0x40, 0x400) if ext else (0x10, 0x40))):
            if reg in regs:
                c, k = regs[reg]
                if not hasattr(c, "mem"):
                    continue
                if k:
                    mon.check(read(reg) == c.mem[k], "cap-register", lambda: f"{what}: register {reg:#x} reads {read(reg):#x}, register {k} of {c!r} holds {c.mem[k]:#x}")
                elif not ext:
                    mon.check(read(reg) >> 16 == c.mem[0] >> 16, "cap-register", lambda: f"{what}: register {reg:#x} upper half differs")
            else:
                mon.check(read(reg) == 0, "cap-register", lambda: f"{what}: register {reg:#x} reads {read(reg):#x} where no capability is")
        # writes reach the capability and nothing else
        for c in rng.sample(caps, min(2, len(caps))):
            if hasattr(c, "mem") and c.length > 1:
                k = rng.randrange(1, c.length)
                d, m = rng.getrandbits(32), rng.randrange(1, 16)
                bm = sum(0xff << 8 * i for i in range(4) if m >> i & 1)
                old = {id(x): list(x.mem) for x in want if hasattr(x, "mem")}
                old[id(c)][k] = old[id(c)][k] & ~bm | d & bm
                drive(fn.write_config_register(c.offset + k, d, m))
                for x in want:
                    if hasattr(x, "mem"):
                        mon.check(x.mem == old[id(x)], "cap-write", lambda: f"{what}: write to register {k} of {c!r}: {x!r} holds {x.mem}")


def lists(mon, rng, funcs=30, n=60):
    for _ in range(funcs):
        fn = rng.choice([Endpoint, Endpoint, MemoryEndpoint])()
        want = [fn.pm_cap, fn.pcie_cap]
        gone = []
        mon.count("functions")
        judge(mon, rng, fn, want, "new function")
        for step in range(n):
            r = rng.random()
            ext = rng.random() < 0.5
            mine = [c for c in want if isinstance(c, PciExtCap) == ext]
            reg = fn.register_extended_capability if ext else fn.register_capability
            lo, hi = (0x40, 0x3ff) if ext else (0x10, 0x3f)
            if r < 0.5 or not mine:
                if gone and rng.random() < 0.3 and any(isinstance(c, PciExtCap) == ext for c in gone):
                    c = rng.choice([c for c in gone if isinstance(c, PciExtCap) == ext])
                    again = True
                else:
                    c = make(ext, rng)
                    again = False
            elif r < 0.7:
                c = rng.choice(mine)
                again = True
            else:
                c = rng.choice(mine)
                (fn.deregister_extended_capability if ext else fn.deregister_capability)(c)
                want.remove(c)
                gone.append(c)
                mon.count("removed")
                judge(mon, rng, fn, want, f"after {step + 1} changes: removal of {c!r}")
                continue
            # a position: none, a free or an occupied one
            off = None
            if rng.random() < 0.4:
                off = rng.choice([rng.randrange(lo, hi + 2 - c.length), lo, hi + 1 - c.length] + [min(x.offset + rng.randrange(-1, x.length + 1), hi + 1 - c.length) for x in mine[:3]])
                off = max(off, lo)
            if off is None and again and c in gone:
                c.offset = rng.choice([None, c.offset])
            before = {id(x): x.offset for x in mine}
            place = off if off is not None else (c.offset or None)
            if place is not None:
                hit = [x for x in mine if x is not c and x.offset < place + c.length and place < x.offset + x.length]
            else:
                hit = []
            try:
                reg(c, off)
            except Exception as e:
                # no room: allowed only if there is really none behind the others
                if hit and "space" in str(e):
                    mon.count("refused_for_space")
                    break       # what is left of the list is not specified
                tail = hi - max([x.offset + x.length - 1 for x in mine if x is not c], default=lo - 1)
                if "space" not in str(e) or tail >= c.length:
                    mon.exception(e, f"registration of {c!r} at {off}")
                    return
                mon.count("refused_for_space")
                if again:
                    break       # what is left of the list is not specified
                judge(mon, rng, fn, want, f"after a refused registration of {c!r}")
                continue
            if c in gone:
                gone.remove(c)
            if c not in want:
                want.append(c)
            mon.count("moved" if again else "registered")
            if hit:
                mon.count("bumped", len(hit))
            if off is not None:
                mon.check(c.offset == off, "cap-position", lambda: f"{c!r} was to be at {off:#x}")
            for x in mine:
                if x is not c and x not in hit:
                    mon.check(x.offset == before[id(x)], "cap-position", lambda: f"{x!r} was at {before[id(x)]:#x} and not in the way of {c!r}")
            mon.check(c.parent is fn, "cap-parent", "parent of a registered capability")
            mon.sig(ext, c.length, off, len(mine), len(hit))
            judge(mon, rng, fn, want, f"after {step + 1} changes: registration of {c!r}")
            if mon.violations:
                return
    mon.sample(dict(last=[repr(c)[:120] for c in want][:10]))


async def link(dut, mon, rng, topo="switch", nfunc=(1, 2, 3), rounds=3, fc="default", **kw):
    """found by enumeration, and accessed by capability"""
    import cocotb
    from vlib.topo import Topo
    have = {}

    def factory():
        ep = MemoryEndpoint()
        ep.add_mem_region(4096)
        change(ep)
        return ep

    def change(ep):
        for c in list(have.get(ep, [])):
            if rng.random() < 0.5 and c.offset != 0x40:
                (ep.deregister_extended_capability if isinstance(c, PciExtCap) else ep.deregister_capability)(c)
                have[ep].remove(c)
        for ext in (False, True):
            ids = [i for i in (EIDS if ext else CIDS) if not any(c.cap_id == i for c in have.get(ep, []))]
            for cid in rng.sample(ids, rng.randrange(0, 5)):
                c = make(ext, rng, length=rng.choice([1, 2, 3, 4, 5]), cid=cid)
                try:
                    (ep.register_extended_capability if ext else ep.register_capability)(c)
                except Exception as e:
                    if "space" in str(e):
                        continue
                    raise
                have.setdefault(ep, []).append(c)

    t = Topo(mon, rng, topo, fc=fc, mps=0, nfunc=list(nfunc), ep_factory=factory, tap=True)
    rc = t.rc
    for rnd in range(rounds):
        await t.up()

        async def agent(ep, seed):
            r = random.Random(seed)
            d = rc.find_device(ep.pcie_id)
            caps = have.get(ep, [])
            for ext in (False, True):
                got = sorted((int(i), o) for i, o in (d.ext_capabilities if ext else d.capabilities))
                exp = sorted((int(c.cap_id), 4 * c.offset) for c in (ep.ext_capabilities if ext else ep.capabilities).list)
                own = sorted((int(c.cap_id), 4 * c.offset) for c in caps + ([] if ext else [ep.pm_cap, ep.pcie_cap]) if isinstance(c, PciExtCap) == ext)
                mon.check(got == exp == own, "discovery", lambda: f"{ep.pcie_id}: enumeration found {got}, function has {own}")
                mon.count("capabilities_discovered", len(got))
            for c in caps:
                off = d.get_capability_offset(c.cap_id)
                mon.check(off == 4 * c.offset, "discovery", lambda: f"{ep.pcie_id}: {c!r} reported at {off}")
                for k in range(6):
                    if c.length < 2:
                        break
                    via = r.choice([(rc, "capability", (ep.pcie_id, c.cap_id)), (d, "capability", (c.cap_id,))])
                    a = r.randrange(4, 4 * c.length)
                    ln = min(r.choice([1, 2, 3, 4, 8]), 4 * c.length - a)
                    img = b"".join(x.to_bytes(4, "little") for x in c.mem)
                    if r.random() < 0.5:
                        got = await access.rd(r, *via, a, ln, timeout=100, timeout_unit="us")
                        mon.check(got == img[a:a + ln], "cap-register", lambda: f"{ep.pcie_id}: {ln} bytes at {a} of {c!r}: {got.hex()}, expected {img[a:a + ln].hex()}")
                    else:
                        data = r.randbytes(ln)
                        await access.wr(r, *via, a, data, timeout=100, timeout_unit="us")
                        img = img[:a] + data + img[a + ln:]
                        got = b"".join(x.to_bytes(4, "little") for x in c.mem)
                        mon.check(got == img, "cap-register", lambda: f"{ep.pcie_id}: after writing {data.hex()} at {a} of {c!r}: {got.hex()}, expected {img.hex()}")
                    mon.count("capability_accesses")
                    mon.sig("link", c.cap_id, a & 3, ln)

        ts = [cocotb.start_soon(agent(ep, rng.getrandbits(32))) for ep in t.eps]
        for x in ts:
            await x
        for ep in t.eps:
            change(ep)
    mon.sample(dict(functions=len(t.eps), capabilities=[repr(c)[:90] for c in have.get(t.eps[0], [])]))
