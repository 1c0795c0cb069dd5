"""Enumeration: what the root complex believes after enumerate() against the
registers of the functions themselves, read directly."""
import cocotb
from cocotb.triggers import Timer

from cocotbext.pcie.core import Endpoint
from cocotbext.pcie.core.caps import MsiCapability, MsixCapability, AerExtendedCapability
from cocotbext.pcie.core.caps.common import PciCap, PciExtCap
from cocotbext.pcie.core.tlp import Tlp, TlpType, CplStatus
from cocotbext.pcie.core.utils import PcieId

from vlib.topo import Topo


class DummyCap(PciCap):
    def __init__(self, cid, length):
        super().__init__()
        self.cap_id = cid
        self.length = length

    async def _read_register(self, reg):
        return 0x5a5a0000 + reg

    async def _write_register(self, reg, data, mask):
        pass


class DummyExtCap(PciExtCap):
    def __init__(self, cid, length):
        super().__init__()
        self.cap_id = cid
        self.cap_ver = 1
        self.length = length

    async def _read_register(self, reg):
        return 0x5b5b0000 + reg

    async def _write_register(self, reg, data, mask):
        pass


class RecEp(Endpoint):
    """Endpoint that records every access to its address ranges"""
    log_hits = None

    def __init__(self, hits):
        super().__init__()
        self.hits = hits
        self.crs_left = 0
        for t in (TlpType.MEM_READ, TlpType.MEM_READ_64, TlpType.MEM_WRITE, TlpType.MEM_WRITE_64, TlpType.IO_READ, TlpType.IO_WRITE):
            self.register_rx_tlp_handler(t, self.on_access)
        self.register_rx_tlp_handler(TlpType.CFG_READ_0, self.on_cfg_read)
        self.n_cfg = 0

    async def on_cfg_read(self, tlp):
        if self.crs_left > 0:
            self.crs_left -= 1
            self.n_cfg += 1
            cpl = Tlp.create_completion_for_tlp(tlp, tlp.completer_id, has_data=False)
            cpl.status = CplStatus.CRS
            cpl.byte_count = 4
            await self.send(cpl)
            return
        await self.handle_config_0_read_tlp(tlp)

    async def on_access(self, tlp):
        self.hits.append((self, tlp.fmt_type, tlp.address + tlp.get_first_be_offset(), bytes(tlp.get_data())))
        if tlp.fmt_type in (TlpType.MEM_WRITE, TlpType.MEM_WRITE_64):
            return
        if tlp.fmt_type == TlpType.IO_WRITE:
            cpl = Tlp.create_completion_for_tlp(tlp, self.pcie_id, has_data=False)
            cpl.byte_count = 4
        else:
            cpl = Tlp.create_completion_data_for_tlp(tlp, self.pcie_id)
            cpl.set_data(bytes(4))
            cpl.byte_count = 4
        await self.send(cpl)


def rand_bars(rng, ep, nbar, budget):
    """configure random BARs, return [(index, kind, size)]"""
    out = []
    k = 0
    while k < nbar:
        r = rng.random()
        if r < 0.3:
            k += 1
            continue
        if r < 0.45:
            size = 1 << rng.choice([4, 4, 5, 6, 8, 10, 12])
            if budget["io"] >= size:
                budget["io"] -= size
                ep.configure_bar(k, size, io=True)
                out.append((k, "io", size))
            k += 1
            continue
        ext = rng.random() < 0.5 and k + 1 < nbar
        pref = rng.random() < 0.5
        if ext and pref:
            size = 1 << rng.choice([7, 10, 12, 16, 20, 24, 28, 30, 31, 32, 33, 34, 36, 40])
        else:
            size = 1 << rng.choice([4, 5, 7, 10, 12, 12, 14, 16, 18, 20, 21, 24, 26])
            if budget["mem"] < size:
                k += 1
                continue
            budget["mem"] -= size
        # a size that is no power of two is rounded up
        ask = size - rng.choice([0, 0, 0, 1, size // 4])
        if ask.bit_length() and 1 << (ask - 1).bit_length() != size:
            ask = size
        ep.configure_bar(k, ask, ext=ext, prefetch=pref)
        out.append((k, "pref" if ext and pref else "mem", size))
        k += 2 if ext else 1
    return out


def bar_regs(fn, idx):
    v = fn.bar[idx]
    if v & 1:
        return "io", v & ~3
    if v & 4:
        return ("pref" if v & 8 else "mem"), (v & ~0xf) | fn.bar[idx + 1] << 32
    return "mem", v & ~0xf


async def run(dut, mon, rng, topo="wide", nfunc=(1, 1, 2, 3, 8), crs=False, again=False, mps_mix=False, access=True, bridge_bars=True, **kw):
    hits = []
    eps = []
    budget = dict(io=1 << 16, mem=1 << 28)
    state = dict(mps=None, n=0)

    def factory():
        ep = RecEp(hits)
        state["n"] += 1
        ep.vendor_id = rng.choice([0x1234, 0x10ee, 0x8086, 0x0001, 0xfffe])
        ep.device_id = 0x1000 + state["n"]
        ep.revision_id = rng.randrange(256)
        ep.class_code = rng.getrandbits(24)
        ep.subsystem_vendor_id = rng.getrandbits(16)
        ep.subsystem_id = rng.getrandbits(16)
        ep.vbars = rand_bars(rng, ep, 6, budget)
        ep.vrom = 0
        if rng.random() < 0.4:
            size = 1 << rng.choice([11, 12, 16, 20])
            if budget["mem"] >= size:
                budget["mem"] -= size
                ep.vrom = size
                ep.expansion_rom_addr_mask = ~(size - 1) & 0xfffff800
        if rng.random() < 0.5:
            ep.register_capability(MsiCapability())
        if rng.random() < 0.5:
            ep.register_capability(MsixCapability())
        for _ in range(rng.choice([0, 0, 1, 2])):
            ep.register_capability(DummyCap(rng.choice([0x03, 0x09, 0x0d, 0x14]), rng.choice([2, 3, 4])), rng.choice([None, 0x38, 0x3c]))
        if rng.random() < 0.5:
            ep.register_extended_capability(AerExtendedCapability(), 0x40)
            for _ in range(rng.choice([0, 1, 2])):
                ep.register_extended_capability(DummyExtCap(rng.choice([0x0b, 0x23, 0x03, 0x15]), rng.choice([2, 8, 40])), rng.choice([None, 0x80, 0x200, 0x3d0]))
        eps.append(ep)
        return ep

    t = Topo(mon, rng, topo, fc=kw.get("fc", "default"), mps=kw.get("mps", 0), max_mps_sup=kw.get("mps", 0), nfunc=list(nfunc), ep_factory=factory, ext_tag=None,
             tap=False)
    rc = t.rc
    timeout = 100000
    # bridges with address ranges of their own, and function numbering gaps
    all_bridges = find_bridges(t)
    for b in all_bridges:
        b.vbars = []
        b.vrom = 0
        if bridge_bars and rng.random() < 0.4:
            b.vbars = rand_bars(rng, b, 2, budget)
    if mps_mix:
        for dev in t.devs:
            m = rng.randrange(0, 6)
            for f in dev.functions:
                f.pcie_cap.max_payload_size_supported = m
        for sw in t.switches:
            m = rng.randrange(0, 6)
            for b in [sw.upstream_bridge] + [x for x in sw.endpoints]:
                b.pcie_cap.max_payload_size_supported = m
    if crs:
        for ep in eps:
            if ep.function_num == 0 and rng.random() < 0.5:
                ep.crs_left = rng.choice([1, 1, 2, 5])
                mon.count("devices_not_ready_at_first")

    await rc.enumerate(timeout=timeout)
    mon.count("enumerations")
    judge(mon, rng, t, eps, all_bridges, rc)
    if access:
        await touch(mon, rng, t, eps, hits, rc)
    await probe_again(mon, rng, rc, eps, all_bridges)
    await enable(mon, rng, rc, eps, all_bridges)
    if again:
        for _ in range(rng.choice([1, 2])):
            if rng.random() < 0.5:
                # a device whose address ranges were reprogrammed meanwhile
                ep = rng.choice(eps)
                d = rc.find_device(ep.pcie_id)
                if d is not None and ep.vbars:
                    await d.config_write_dword(0x10 + 4 * ep.vbars[0][0], 0)
            await rc.enumerate(timeout=timeout)
            mon.count("enumerations_repeated")
            judge(mon, rng, t, eps, all_bridges, rc)
            if access:
                await touch(mon, rng, t, eps, hits, rc)


def find_bridges(t):
    out = list(t.rc.endpoints)
    for sw in t.switches:
        out += [sw.upstream_bridge] + list(sw.endpoints)
    return out


def walk(bus, out):
    for d in bus.devices:
        out.append((bus, d))
    for c in bus.children:
        walk(c, out)


def buses(bus, out):
    out.append(bus)
    for c in bus.children:
        buses(c, out)


def judge(mon, rng, t, eps, bridges, rc):
    found = []
    walk(rc.host_bridge.bus, found)
    by_id = {}
    for bus, d in found:
        mon.check(int(d.pcie_id) not in by_id, "found-twice", lambda: f"function {d.pcie_id} is listed more than once")
        by_id[int(d.pcie_id)] = (bus, d)
    real = {}
    for f in eps + bridges:
        mon.check(int(f.pcie_id) not in real, "id-shared", lambda: f"functions {f!r} and {real[int(f.pcie_id)]!r} both answer as {f.pcie_id}")
        real[int(f.pcie_id)] = f
    for i, f in real.items():
        if not mon.check(i in by_id, "not-found", lambda: f"function {f.pcie_id} (device id {f.device_id:#x}) exists and was not found; found {sorted(str(d.pcie_id) for _, d in found)}"):
            continue
        d = by_id[i][1]
        mon.check(rc.find_device(f.pcie_id) is d, "find-device", lambda: f"lookup of {f.pcie_id} gives another object")
        for a in ("vendor_id", "device_id", "revision_id", "class_code"):
            mon.check(getattr(d, a) == getattr(f, a), "wrong-identity", lambda: f"{f.pcie_id}: {a} {getattr(d, a):#x}, function has {getattr(f, a):#x}")
        if f in eps:
            for a in ("subsystem_vendor_id", "subsystem_id"):
                mon.check(getattr(d, a) == getattr(f, a), "wrong-identity", lambda: f"{f.pcie_id}: {a} {getattr(d, a):#x}, function has {getattr(f, a):#x}")
        mon.check((d.header_type & 0x7f) == (0 if f in eps else 1), "wrong-identity", lambda: f"{f.pcie_id}: header type {d.header_type}")
        caps = sorted((int(c.cap_id), c.offset * 4) for c in f.capabilities.list)
        mon.check(sorted((int(a), b) for a, b in d.capabilities) == caps, "capability-list", lambda: f"{f.pcie_id}: found capabilities {d.capabilities}, function has {caps}")
        caps = sorted((int(c.cap_id), c.offset * 4) for c in f.ext_capabilities.list)
        if not caps or caps and min(o for _, o in caps) == 0x100:
            mon.check(sorted((int(a), b) for a, b in d.ext_capabilities) == caps, "capability-list", lambda: f"{f.pcie_id}: found extended capabilities {d.ext_capabilities}, function has {caps}")
    for i, (bus, d) in by_id.items():
        mon.check(i in real, "phantom", lambda: f"function {d.pcie_id} was found and does not exist")
    mon.count("functions_found", len(by_id))

    # bus numbers
    bs = []
    buses(rc.host_bridge.bus, bs)
    nums = [b.bus_num for b in bs]
    mon.check(len(set(nums)) == len(nums), "bus-number-shared", lambda: f"bus numbers {nums}")
    links = {}
    for b in bridges:
        pri, sec, sub = b.pri_bus_num, b.sec_bus_num, b.sub_bus_num
        mon.check(pri == b.pcie_id.bus, "bus-numbers", lambda: f"bridge {b.pcie_id}: primary bus {pri}")
        mon.check(pri < sec <= sub, "bus-numbers", lambda: f"bridge {b.pcie_id}: {pri}/{sec}/{sub}")
        links[b] = (sec, sub)
    for f in eps + bridges:
        # a function sits on a bus that all bridges above it cover
        chain = [b for b in bridges if b is not f and b.sec_bus_num <= f.pcie_id.bus <= b.sub_bus_num]
        direct = [b for b in chain if b.sec_bus_num == f.pcie_id.bus]
        if f.pcie_id.bus:
            mon.check(len(direct) == 1, "bus-numbers", lambda: f"{f.pcie_id}: {len(direct)} bridges have that secondary bus")
        f.vchain = chain
        f.vdirect = direct[0] if direct else None
    for x in bridges:
        for y in bridges:
            if x is not y:
                a, b = links[x], links[y]
                inside = a[0] <= b[0] and b[1] <= a[1] and x in y.vchain
                around = b[0] <= a[0] and a[1] <= b[1] and y in x.vchain
                apart = a[1] < b[0] or b[1] < a[0]
                mon.check(inside or around or apart, "bus-numbers", lambda: f"bridges {x.pcie_id} {a} and {y.pcie_id} {b} overlap")
    # address ranges
    rngs = []       # (kind, lo, hi, function, what)
    for f in eps + bridges:
        d = by_id.get(int(f.pcie_id), (None, None))[1]
        if d is None:
            continue
        want = {i: (k, s) for i, k, s in f.vbars}
        for i in range(6 if f in eps else 2):
            if i in want:
                kind, size = want[i]
                k2, addr = bar_regs(f, i)
                mon.check(d.bar_size[i] == size, "bar-size", lambda: f"{f.pcie_id} BAR{i}: size {d.bar_size[i]:#x}, implemented {size:#x}")
                mon.check(d.bar_addr[i] == addr, "bar-address", lambda: f"{f.pcie_id} BAR{i}: recorded address {d.bar_addr[i]!r}, register holds {addr:#x}")
                mon.check(addr % size == 0, "bar-unaligned", lambda: f"{f.pcie_id} BAR{i}: {addr:#x} size {size:#x}")
                mon.check(kind == "io" or kind == "pref" or addr + size <= 1 << 32, "bar-above-4g", lambda: f"{f.pcie_id} BAR{i}: {addr:#x} size {size:#x}")
                rngs.append((kind, addr, addr + size - 1, f, f"BAR{i}"))
                mon.maxi("bar_size_log2", size.bit_length() - 1)
                mon.sig("bar", kind, size, len(f.vchain), f in eps)
                w = d.bar_window[i]
                mon.check(w is not None and w.size == size, "bar-window", lambda: f"{f.pcie_id} BAR{i}: window {w!r}")
            else:
                below = i - 1 in want and f.bar[i - 1] & 4 and not f.bar[i - 1] & 1
                if not below:
                    mon.check(not d.bar_size[i] and d.bar_addr[i] is None, "bar-phantom", lambda: f"{f.pcie_id} BAR{i}: size {d.bar_size[i]} address {d.bar_addr[i]}")
        if f.vrom:
            mon.check(d.expansion_rom_size == f.vrom and d.expansion_rom_addr == f.expansion_rom_addr, "rom", lambda: f"{f.pcie_id}: expansion ROM {d.expansion_rom_size} at {d.expansion_rom_addr}, function {f.vrom} at {f.expansion_rom_addr:#x}")
            mon.check(f.expansion_rom_addr % f.vrom == 0, "bar-unaligned", lambda: f"{f.pcie_id} ROM {f.expansion_rom_addr:#x} size {f.vrom:#x}")
            rngs.append(("mem", f.expansion_rom_addr, f.expansion_rom_addr + f.vrom - 1, f, "ROM"))
            mon.count("roms")
    mon.count("ranges_assigned", len(rngs))

    def win(b, kind):
        if kind == "io":
            return b.io_base, b.io_limit
        if kind == "mem":
            return b.mem_base, b.mem_limit
        return b.prefetchable_mem_base, b.prefetchable_mem_limit

    for io in (True, False):
        rs = sorted([r for r in rngs if (r[0] == "io") == io], key=lambda r: r[1])
        for a, b in zip(rs, rs[1:]):
            mon.check(a[2] < b[1], "ranges-overlap", lambda: f"{a[3].pcie_id} {a[4]} {a[1]:#x}-{a[2]:#x} and {b[3].pcie_id} {b[4]} {b[1]:#x}-{b[2]:#x}")
    lims = dict(io=(rc.io_base, rc.io_limit), mem=(rc.mem_base, rc.mem_limit), pref=(rc.prefetchable_mem_base, rc.prefetchable_mem_limit))
    for kind, lo, hi, f, what in rngs:
        for b in f.vchain:
            w = win(b, kind)
            mon.check(w[0] <= lo and hi <= w[1], "outside-window", lambda: f"{f.pcie_id} {what} {lo:#x}-{hi:#x} not in {kind} window {w[0]:#x}-{w[1]:#x} of bridge {b.pcie_id}")
        mon.check(lims[kind][0] <= lo and hi <= lims[kind][1], "outside-window", lambda: f"{f.pcie_id} {what} {lo:#x}-{hi:#x} not in {kind} range {lims[kind][0]:#x}-{lims[kind][1]:#x} of the root complex")
        # ... and in no window of a bridge that does not lead there
        for b in bridges:
            if b in f.vchain:
                continue
            for k2 in (("io",) if kind == "io" else ("mem", "pref")):
                w = win(b, k2)
                mon.check(hi < w[0] or w[1] < lo, "foreign-window", lambda: f"{f.pcie_id} {what} {lo:#x}-{hi:#x} lies in {k2} window {w[0]:#x}-{w[1]:#x} of bridge {b.pcie_id}, which does not lead there")
    for x in bridges:
        for y in bridges:
            if x is y or int(x.pcie_id) > int(y.pcie_id):
                continue
            for kind in ("io", "mem", "pref"):
                a, b = win(x, kind), win(y, kind)
                if a[0] > a[1] or b[0] > b[1]:
                    continue
                mon.count("window_pairs")
                if x in y.vchain:
                    mon.check(a[0] <= b[0] and b[1] <= a[1], "windows-nested", lambda: f"{kind} window {b[0]:#x}-{b[1]:#x} of {y.pcie_id} not in {a[0]:#x}-{a[1]:#x} of {x.pcie_id} above it")
                elif y not in x.vchain:
                    mon.check(a[1] < b[0] or b[1] < a[0], "windows-overlap", lambda: f"{kind} windows of {x.pcie_id} {a[0]:#x}-{a[1]:#x} and {y.pcie_id} {b[0]:#x}-{b[1]:#x}")

    # link configuration
    for f in eps + bridges:
        sup = f.pcie_cap.max_payload_size_supported
        mon.check(f.pcie_cap.max_payload_size <= sup, "mps", lambda: f"{f.pcie_id}: payload size {f.pcie_cap.max_payload_size}, supports {sup}")
        if f.vdirect is not None:
            p = f.vdirect.pcie_cap
            mon.check(f.pcie_cap.max_payload_size <= p.max_payload_size, "mps", lambda: f"{f.pcie_id}: payload size {f.pcie_cap.max_payload_size}, bridge above {p.max_payload_size}")
            if f.vdirect.pcie_cap.pcie_device_type == 4:
                mon.check(p.max_payload_size <= sup, "mps", lambda: f"root port above {f.pcie_id}: payload size {p.max_payload_size}, device supports {sup}")
        mon.check(bool(f.pcie_cap.extended_tag_field_enable) == bool(f.pcie_cap.extended_tag_supported), "extended-tags", lambda: f"{f.pcie_id}: enabled {f.pcie_cap.extended_tag_field_enable}, supported {f.pcie_cap.extended_tag_supported}")
    mon.maxi("tree_depth", max(len(f.vchain) for f in eps) if eps else 0)
    mon.maxi("buses", len(bs))


async def touch(mon, rng, t, eps, hits, rc):
    """first and last bytes of every range through the windows handed out"""
    for f in eps:
        d = rc.find_device(f.pcie_id)
        if d is None:
            continue
        for i, kind, size in f.vbars:
            for off in {0, size - 4, rng.randrange(0, size, 4)}:
                hits.clear()
                data = rng.getrandbits(32)
                w = d.bar_window[i]
                try:
                    if rng.random() < 0.5:
                        await w.write_dword(off, data, timeout=100, timeout_unit="us")
                        await Timer(40 if kind != "io" else 0.001, "us")
                        want = data.to_bytes(4, "little")
                    else:
                        await w.read_dword(off, timeout=100, timeout_unit="us")
                        want = b""
                except Exception as e:
                    mon.violate("range-unreachable", f"{f.pcie_id} BAR{i} ({kind}, {size:#x}) offset {off:#x}: {e!r}")
                    continue
                mon.check(len(hits) == 1 and hits[0][0] is f and hits[0][2] == bar_regs(f, i)[1] + off and hits[0][3][:4] == want, "range-unreachable",
                          lambda: f"{f.pcie_id} BAR{i} ({kind}, {size:#x}) offset {off:#x}: seen {[(h[0].pcie_id, h[1].name, hex(h[2]), h[3]) for h in hits]}")
                mon.count("range_accesses")


async def probe_again(mon, rng, rc, eps, bridges):
    """sizing the address ranges leaves their contents alone"""
    for f in rng.sample(eps, min(3, len(eps))):
        d = rc.find_device(f.pcie_id)
        if d is None:
            continue
        before = (list(f.bar), f.expansion_rom_addr)
        await d.read_bars(6, 0x30)
        mon.check((list(f.bar), f.expansion_rom_addr) == before, "probe-destroys", lambda: f"{f.pcie_id}: registers {before} before sizing, {f.bar} {f.expansion_rom_addr} after")
        mon.count("probes_repeated")


async def enable(mon, rng, rc, eps, bridges):
    order = list(eps) * 2 + [b for b in bridges if rng.random() < 0.5]
    rng.shuffle(order)
    cnt = {}
    for f in order[:12]:
        d = rc.find_device(f.pcie_id)
        if d is None:
            continue
        r = rng.random()
        if r < 0.75:
            await d.enable_device()
            cnt[f] = cnt.get(f, 0) + 1
            mon.check(f.memory_space_enable and f.io_space_enable, "not-enabled", lambda: f"{f.pcie_id}: enabled and decodes nothing")
            for b in f.vchain:
                mon.check(b.memory_space_enable and b.io_space_enable and b.bus_master_enable, "bridge-not-enabled",
                          lambda: f"{f.pcie_id} enabled, bridge {b.pcie_id} above it: memory {b.memory_space_enable} io {b.io_space_enable} master {b.bus_master_enable}")
            mon.count("enables")
            if rng.random() < 0.5:
                await d.set_master()
                mon.check(f.bus_master_enable, "no-bus-master", lambda: f"{f.pcie_id}")
        elif cnt.get(f) and f in eps:
            await d.set_master()
            await d.disable_device()
            cnt[f] -= 1
            mon.check(bool(f.bus_master_enable) == (cnt[f] > 0), "disable", lambda: f"{f.pcie_id}: {cnt[f]} users left, bus master {f.bus_master_enable}")
            mon.count("disables")
