"""Configuration space: every register of every function type and capability
against the reference layout, directly and through the link."""
import random

from cocotbext.pcie.core import Endpoint
from cocotbext.pcie.core.bridge import Bridge
from cocotbext.pcie.core.caps import (PmCapability, PcieCapability, PcieExtendedCapability, MsiCapability, MsixCapability, AerExtendedCapability)

from vlib import access, ref_cfg

PARSED = {k: ref_cfg.parse(getattr(ref_cfg, k)) for k in ("TYPE0", "TYPE1", "PM", "EXP", "MSIX", "AER", "EXP2")}


def drive(coro):
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    coro.close()
    raise RuntimeError("register access waited for something")


class Field:
    __slots__ = ("obj", "name", "idx", "reg", "lsb", "width", "acc", "const", "val")

    def __init__(self, obj, base, f):
        reg, self.acc, self.name, self.idx, self.lsb, self.width, self.const = f
        self.obj = obj
        self.reg = base + reg
        self.val = 0

    @property
    def mask(self):
        return (1 << self.width) - 1

    def attr(self):
        v = getattr(self.obj, self.name)
        if self.idx is not None:
            v = v[self.idx]
        return int(v)

    def put(self, v):
        self.val = v & self.mask
        if self.const is not None:
            return
        if self.idx is not None:
            getattr(self.obj, self.name)[self.idx] = self.val
        else:
            setattr(self.obj, self.name, bool(v) if self.width == 1 else self.val)


class Model:
    """Expected contents of the 4 kB configuration space of one function"""

    def __init__(self, mon, rng, fn):
        self.mon = mon
        self.rng = rng
        self.fn = fn
        self.fields = {}        # reg -> [Field]
        self.raw = {}           # reg -> [value, rw mask, why]
        self.windows = []
        self.bars = {}

    def add(self, obj, base, fields, randomize=True, keep=()):
        for f in fields:
            x = Field(obj, base, f)
            if x.const is not None:
                x.val = x.const
            elif randomize and x.name not in keep:
                x.put(self.rng.getrandbits(x.width))
            else:
                x.val = x.attr() & x.mask
            self.fields.setdefault(x.reg, []).append(x)

    def read(self, reg):
        v = 0
        if reg in self.raw:
            v = self.raw[reg][0]
        for f in self.fields.get(reg, ()):
            v |= f.val << f.lsb
        return v

    def write(self, reg, data, be):
        bm = sum(0xff << 8 * k for k in range(4) if be >> k & 1)
        if reg in self.raw:
            r = self.raw[reg]
            m = r[1] & bm
            r[0] = (r[0] & ~m) | (data & m)
        for f in self.fields.get(reg, ()):
            m = (bm >> f.lsb) & f.mask
            d = (data >> f.lsb) & m
            if f.acc == "rw":
                f.val = (f.val & ~m) | d
            elif f.acc == "w1c":
                f.val &= ~d

    def resync(self, regs):
        for reg in regs:
            for f in self.fields.get(reg, ()):
                if f.acc == "x":
                    f.val = f.attr() & f.mask

    def check_attrs(self, regs, what):
        for reg in regs:
            for f in self.fields.get(reg, ()):
                if f.const is None:
                    got = f.attr()
                    self.mon.check(got == f.val, "register-effect", lambda: f"{what}: {type(f.obj).__name__}.{f.name} (register {reg:#x} bits {f.lsb}+{f.width}) is {got:#x}, expected {f.val:#x}")


def link_model(mon, rng, fn, typ, caps, bars=True, randomize=True, keep=()):
    """caps: [(capability, kind)] registered with fn"""
    m = Model(mon, rng, fn)
    m.add(fn, 0, PARSED[typ], randomize, keep=("capabilities_ptr", "vendor_id", "header_layout", "multifunction_device", "capabilities_list") + tuple(keep))
    nbar = 6 if typ == "TYPE0" else 2
    for i in range(nbar):
        m.raw[4 + i] = [fn.bar[i], fn.bar_mask[i]]
    rom = 12 if typ == "TYPE0" else 14
    m.raw[rom] = [fn.expansion_rom_addr & 0xfffff800 | bool(fn.expansion_rom_enable), (fn.expansion_rom_addr_mask & 0xfffff800 | 1) if fn.expansion_rom_addr_mask else 0]
    if typ == "TYPE1":
        m.raw[7] = [0x0101, 0xf0f0]
        m.raw[8] = [0, 0xfff0fff0]
        m.raw[9] = [0x00010001, 0xfff0fff0]
        for r in (10, 11, 12):
            m.raw[r] = [0, 0xffffffff]
        for reg, lsb, width, attr, shift, low in ref_cfg.TYPE1_WINDOWS:
            m.raw[reg][0] |= ((getattr(fn, attr) >> shift) & ((1 << width) - 1)) << lsb
    for cap, kind in caps:
        base = cap.offset
        if kind == "MSI":
            m.add(cap, base, ref_cfg.parse(ref_cfg.msi(cap.msi_64bit_address_capable, cap.msi_per_vector_mask_capable, cap.msi_extended_message_data_capable)), randomize,
                  keep=("msi_64bit_address_capable", "msi_per_vector_mask_capable", "msi_extended_message_data_capable"))
            m.raw[base + 1] = [cap.msi_message_address & 0xfffffffc, 0xfffffffc]
            if cap.msi_64bit_address_capable:
                m.raw[base + 2] = [cap.msi_message_address >> 32, 0xffffffff]
        else:
            m.add(cap, base, [f for f in PARSED[kind] if f[0] < cap.length], randomize, keep=keep)
        if kind == "MSIX":
            m.raw[base + 1] = [cap.msix_table_offset & ~7, 0]
            m.raw[base + 2] = [cap.msix_pba_offset & ~7, 0]
    # list headers
    for lst, ext in ((fn.capabilities, False), (fn.ext_capabilities, True)):
        o = sorted(lst.list, key=lambda c: c.offset)
        for k, c in enumerate(o):
            nxt = 4 * o[k + 1].offset if k + 1 < len(o) else 0
            v = (nxt << 20 | c.cap_ver << 16 | c.cap_id) if ext else (nxt << 8 | c.cap_id)
            m.raw.setdefault(c.offset, [0, 0])[0] |= v
    return m


def check_windows(m, what):
    fn = m.fn
    exp = {}
    for reg, lsb, width, attr, shift, low in ref_cfg.TYPE1_WINDOWS:
        exp[attr] = exp.get(attr, low or 0) | ((m.raw[reg][0] >> lsb) & ((1 << width) - 1)) << shift
    for a, v in exp.items():
        m.mon.check(getattr(fn, a) == v, "register-effect", lambda: f"{what}: {a} is {getattr(fn, a):#x}, expected {v:#x}")


def rand_function(mon, rng):
    typ = rng.choice(["TYPE0", "TYPE0", "TYPE1"])
    fn = Endpoint() if typ == "TYPE0" else Bridge()
    caps = [(fn.pm_cap, "PM"), (fn.pcie_cap, "EXP")]
    n = 6 if typ == "TYPE0" else 2
    k = 0
    while k < n:
        r = rng.random()
        if r < 0.25:
            fn.configure_bar(k, 1 << rng.randrange(4, 17), io=True)
        elif r < 0.5:
            fn.configure_bar(k, 1 << rng.randrange(4, 32), prefetch=rng.random() < 0.5)
        elif r < 0.8 and k + 1 < n:
            fn.configure_bar(k, 1 << rng.randrange(4, 64), ext=True, prefetch=rng.random() < 0.7)
            k += 1
        k += 1
    if rng.random() < 0.5:
        fn.expansion_rom_addr_mask = ~((1 << rng.randrange(11, 25)) - 1) & 0xfffff800
    if rng.random() < 0.7:
        c = MsiCapability()
        c.msi_64bit_address_capable = rng.random() < 0.5
        c.msi_per_vector_mask_capable = rng.random() < 0.5
        c.msi_extended_message_data_capable = rng.random() < 0.5
        fn.register_capability(c, rng.choice([None, None, 0x10, 0x30]))
        caps.append((c, "MSI"))
    if rng.random() < 0.7:
        c = MsixCapability()
        c.msix_table_offset = 8 * rng.getrandbits(20)
        c.msix_pba_offset = 8 * rng.getrandbits(20)
        fn.register_capability(c, rng.choice([None, None, 0x3d]))
        caps.append((c, "MSIX"))
    if rng.random() < 0.7:
        c = AerExtendedCapability()
        c.length = rng.choice([11, 11, 14, 18])
        fn.register_extended_capability(c, rng.choice([None, 0x40]))
        caps.append((c, "AER"))
    if rng.random() < 0.7:
        c = PcieExtendedCapability()
        c.length = rng.choice([4, 5, 7, 11, 19])
        fn.register_extended_capability(c, rng.choice([None, 0x100, 0x3e0]))
        caps.append((c, "EXP2"))
    return fn, typ, caps


def step(mon, rng, m, typ, rd, wr, hot):
    """one random access; returns the registers it concerned"""
    reg = rng.choice(hot) if rng.random() < 0.85 else rng.randrange(1024)
    if rng.random() < 0.6:
        be = rng.choice([0xf, 0xf, 1, 2, 4, 8, 3, 0xc, rng.randrange(16)])
        data = rng.choice([rng.getrandbits(32), rng.getrandbits(32), 0, 0xffffffff, 1 << rng.randrange(32), ~(1 << rng.randrange(32)) & 0xffffffff])
        before = m.read(reg)
        drive(wr(reg, data, be))
        m.write(reg, data, be)
        m.resync([reg])
        what = f"write {data:#010x} enables {be:#x} to register {reg:#x} (was {before:#010x})"
        mon.count("register_writes")
        mon.sig(typ, "w", reg, be, data & before == before)
    else:
        what = f"read of register {reg:#x}"
    got = drive(rd(reg))
    want = m.read(reg)
    mon.check(got == want, "register-value", lambda: f"{what}: {type(m.fn).__name__} register {reg:#x} reads {got!r} ({got ^ want if isinstance(got, int) else 0:#x} differs), expected {want:#010x}")
    mon.count("register_reads")
    m.check_attrs([reg], what)
    if typ == "TYPE1" and 7 <= reg <= 12:
        check_windows(m, what)
    return reg


def flip_hw(rng, m):
    """hardware changes status bits between accesses"""
    fs = [f for r in m.fields.values() for f in r if f.acc in ("w1c", "ro") and f.const is None and f.name not in
          ("capabilities_ptr", "header_layout", "vendor_id", "msi_64bit_address_capable", "msi_per_vector_mask_capable", "msi_extended_message_data_capable")]
    for f in rng.sample(fs, min(6, len(fs))):
        f.put(rng.getrandbits(f.width))


def regs(mon, rng, n=300, funcs=20):
    for _ in range(funcs):
        fn, typ, caps = rand_function(mon, rng)
        m = link_model(mon, rng, fn, typ, caps)
        hot = sorted(set(m.fields) | set(m.raw))
        mon.count("functions")
        for c, k in caps:
            mon.count("cap_" + k)
        for k in range(n):
            try:
                step(mon, rng, m, typ, fn.read_config_register, fn.write_config_register, hot)
            except Exception as e:
                mon.exception(e, "register access")
                return
            if k % 10 == 0:
                flip_hw(rng, m)
        # nothing else moved
        for reg in range(1024):
            got = drive(fn.read_config_register(reg))
            mon.check(got == m.read(reg), "register-value", lambda: f"after {n} accesses: {type(fn).__name__} register {reg:#x} reads {got!r}, expected {m.read(reg):#010x}")
        m.check_attrs(list(m.fields), "at the end")
    mon.sample(dict(function=type(fn).__name__, registers=len(hot), capabilities=[(k, hex(c.offset * 4)) for c, k in caps]))


async def link(dut, mon, rng, topo="switch", nfunc=(1, 2, 3), n=60, fc="default", **kw):
    """the same through the root complex and the tree, all functions at once"""
    import cocotb
    from cocotb.triggers import Timer
    from vlib.topo import Topo
    from scen.enum import find_bridges
    from cocotbext.pcie.core import MemoryEndpoint

    extra = {}

    def factory():
        ep = MemoryEndpoint()
        for _ in range(rng.randrange(3)):
            rng.choice([ep.add_mem_region, ep.add_prefetchable_mem_region, ep.add_io_region])(1 << rng.randrange(4, 9))
        caps = extra[ep] = []
        if rng.random() < 0.6:
            c = MsiCapability()
            c.msi_64bit_address_capable = rng.random() < 0.5
            c.msi_per_vector_mask_capable = rng.random() < 0.5
            c.msi_extended_message_data_capable = rng.random() < 0.5
            ep.register_capability(c)
            caps.append((c, "MSI"))
        if rng.random() < 0.6:
            c = MsixCapability()
            ep.register_capability(c)
            caps.append((c, "MSIX"))
        for cls, k in ((AerExtendedCapability, "AER"), (PcieExtendedCapability, "EXP2")):
            if rng.random() < 0.6:
                c = cls()
                ep.register_extended_capability(c)
                caps.append((c, k))
        return ep

    t = Topo(mon, rng, topo, fc=fc, mps=0, nfunc=list(nfunc), ep_factory=factory, tap=True)
    rc = t.rc
    await t.up()
    await Timer(2, "us")
    jobs = [(f, "TYPE0", extra[f]) for f in t.eps] + [(b, "TYPE1", []) for b in find_bridges(t)]

    def window_regs(m, reg):
        if m.typ == "TYPE1" and 7 <= reg <= 12:
            check_windows(m, f"register {reg:#x}")

    async def agent(f, typ, caps, seed):
        r = random.Random(seed)
        m = link_model(mon, r, f, typ, [(f.pm_cap, "PM"), (f.pcie_cap, "EXP")] + caps, randomize=False)
        m.typ = typ
        hot = sorted(set(m.fields) | set(m.raw))
        # registers that decide where requests of the others go
        frozen = {1} | ({6, 7, 8, 9, 10, 11, 12, 15} if typ == "TYPE1" else set())
        via = [(rc, "config", (f.pcie_id,)), (rc.find_device(f.pcie_id), "config", ())]
        mon.count("functions_over_link")
        for k in range(n):
            start = 4 * (r.choice(hot) if r.random() < 0.9 else r.randrange(1024)) + r.randrange(4)
            ln = min(r.choice([1, 2, 3, 4, 4, 5, 6, 8, 11, 16]), 4096 - start)
            touched = sorted({a >> 2 for a in range(start, start + ln)})
            if r.random() < 0.5 and not frozen & set(touched):
                data = bytes(r.choice([r.randrange(256), 0, 0xff, 1 << r.randrange(8)]) for _ in range(ln))
                # bytes of one register are written together
                for reg in touched:
                    be = d = 0
                    for i in range(4):
                        o = 4 * reg + i - start
                        if 0 <= o < ln:
                            be |= 1 << i
                            d |= data[o] << 8 * i
                    m.write(reg, d, be)
                await access.wr(r, *r.choice(via), start, data, timeout=100, timeout_unit="us")
                m.resync(touched)
                mon.count("link_writes")
                what = f"write of {data.hex()} at {start:#x}"
                m.check_attrs(touched, f"{f.pcie_id} {what}")
                mon.sig(typ, "W", start, ln)
            else:
                got = await access.rd(r, *r.choice(via), start, ln, timeout=100, timeout_unit="us")
                want = b"".join(m.read(reg).to_bytes(4, "little") for reg in touched)[start % 4:][:ln]
                mon.count("link_reads")
                mon.check(got == want, "register-value", lambda: f"{type(f).__name__} {f.pcie_id}: {ln} bytes at {start:#x} read {got.hex()}, expected {want.hex()}")
                mon.sig(typ, "R", start, ln)
            if k % 10 == 0:
                fs = [x for regs in m.fields.values() for x in regs if x.acc == "w1c"]
                for x in r.sample(fs, min(8, len(fs))):
                    x.put(r.getrandbits(x.width))
        for reg in hot:
            got = await rc.config_read_dword(f.pcie_id, 4 * reg, timeout=100, timeout_unit="us")
            mon.check(got == m.read(reg), "register-value", lambda: f"{type(f).__name__} {f.pcie_id} at the end: register {reg:#x} reads {got:#010x}, expected {m.read(reg):#010x}")
        m.check_attrs(hot, f"{f.pcie_id} at the end")

    # functions and devices that do not exist
    async def nobody(seed):
        r = random.Random(seed)
        for k in range(10):
            d = r.choice(t.eps).pcie_id
            x = d._replace(function=7) if hasattr(d, "_replace") else None
            x = type(d)(d.bus, r.choice([d.device, 9]), 7)
            if rc.find_device(x) is not None:
                continue
            got = bytes(await rc.config_read(x, 4 * r.randrange(64), 4, timeout=100, timeout_unit="us"))
            mon.check(got == b"\xff" * 4, "absent-function", lambda: f"read of absent function {x} gives {got.hex()}")
            await rc.config_write(x, 4 * r.randrange(64), b"\x5a" * 4, timeout=100, timeout_unit="us")
            mon.count("absent_functions_read")

    ts = [cocotb.start_soon(agent(*j, rng.getrandbits(32))) for j in jobs] + [cocotb.start_soon(nobody(rng.getrandbits(32)))]
    for x in ts:
        await x
    mon.sample(dict(functions=[f"{type(f).__name__} {f.pcie_id}" for f, _, _ in jobs][:12]))
