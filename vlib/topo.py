"""Random PCIe hierarchies built from the library's own components."""
import random

from cocotbext.pcie.core import RootComplex, MemoryEndpoint, Device, Switch
from cocotbext.pcie.core.port import SimPort
from cocotbext.pcie.core.utils import PcieId

from vlib.links import LinkSet

FC_DEFAULT_EP = [64, 1024, 64, 64, 0, 0]
FC_DEFAULT_BR = [64, 1024, 64, 64, 64, 1024]


def rand_fc(rng, kind, mps_bytes=128):
    """Receive buffer sizes; data pools hold at least one packet of mps_bytes"""
    u = mps_bytes // 16
    if kind == "default":
        return None
    if kind == "tiny":
        return [rng.choice([1, 2, 3]), u + rng.choice([0, 1, 3]), rng.choice([1, 2]), rng.choice([1, 2, 4]), rng.choice([1, 2, 3]), u + rng.choice([0, 2, 8])]
    if kind == "inf":
        return [0] * 6
    if kind == "mixed":
        return [rng.choice([0, 1, 2, 7, 64]), rng.choice([0, u, 2 * u + 1, 1024]), rng.choice([0, 1, 3, 64]), rng.choice([0, 1, 2, 64]),
                rng.choice([0, 1, 4, 64]), rng.choice([0, u, 3 * u, 1024])]
    raise ValueError(kind)


class Topo:
    def __init__(self, mon, rng, kind="single", fc="default", mps=0, hostile=None, max_mps_sup=None, nfunc=1, link=None, ports=None, tap=True,
                 ep_factory=None, ext_tag=None):
        self.mon = mon
        self.rng = rng
        self.links = LinkSet(mon)
        self.rc = RootComplex()
        self.rc.max_payload_size = mps
        self.mps_bytes = 128 << mps
        self.fc = fc
        self.hostile = hostile
        self.link = link
        self.nfunc = nfunc
        self.host_ranges = []
        self.ext_tag = ext_tag
        self.mps_sup = max_mps_sup if max_mps_sup is not None else mps
        self.eps = []          # endpoint functions
        self.devs = []
        self.switches = []
        self.mems = {}         # ep -> [(bar index, kind, mmap, size)]
        self.expect_init = {}
        self.want_tap = tap
        self.ep_factory = ep_factory
        self.enum_timeout = 100000
        self.tree = []         # links with their parent link and what hangs below
        self.port_parent = {}
        self.pairs = []        # (upstream-side port, device-side port, name)
        getattr(self, "build_" + kind)(ports)

    def siblings(self, a, b):
        return any(a in d.functions and b in d.functions for d in self.devs)

    def speed(self, port):
        if self.link is None:
            port.max_link_speed = self.rng.choice([1, 2, 3, 4, 5, 3])
            port.max_link_width = self.rng.choice([1, 2, 4, 8, 16, 16])
        else:
            port.max_link_speed, port.max_link_width = self.link

    def mkport(self, default):
        f = rand_fc(self.rng, self.fc, max(self.mps_bytes, 128 << self.mps_sup)) or default
        p = SimPort(fc_init=[f] + [[0] * 6] * 7)
        self.expect_init[p] = f
        self.speed(p)
        return p

    def retire(self, port):
        """A port that is not used still has to be connected; whatever is
        sent to it is never answered"""
        if port.other is None:
            p = SimPort()

            async def drop(tlp):
                tlp.release_fc()
                self.mon.count("dropped_in_empty_slot")
            p.rx_handler = drop
            p.connect(port)

    def root_port(self):
        p = self.mkport(FC_DEFAULT_BR)
        br = self.rc.make_port()
        self.retire(br.downstream_port)
        br.set_downstream_port(p)
        br.pcie_cap.max_payload_size_supported = 5
        return br, p

    def join(self, up_port, dn_port, name, node=None):
        up_port.connect(dn_port)
        self.pairs.append((up_port, dn_port, name))
        if self.want_tap:
            dirs = self.links.tap(up_port, dn_port, name, self.hostile)
            self.tree.append(dict(dirs=dirs, parent=self.port_parent.get(up_port), node=node, name=name))
        return len(self.tree) - 1

    def endpoint(self, up_port, name):
        dev = Device()
        p = self.mkport(FC_DEFAULT_EP)
        if self.fc == "default":
            f = FC_DEFAULT_EP
            self.expect_init[p] = f
        self.retire(dev.upstream_port)
        dev.set_port(p)
        n = self.nfunc if isinstance(self.nfunc, int) else self.rng.choice(self.nfunc)
        nums = None
        if 1 < n < 8 and self.rng.random() < 0.3:
            # function numbers with gaps
            nums = [0] + sorted(self.rng.sample(range(1, 8), n - 1))
        for k in range(n):
            ep = self.ep_factory() if self.ep_factory else None
            auto = ep is None
            if auto:
                ep = MemoryEndpoint()
            ep.pcie_cap.max_payload_size_supported = self.mps_sup
            ep.pcie_cap.extended_tag_supported = self.ext_tag if self.ext_tag is not None else self.rng.random() < 0.5
            if nums:
                ep.pcie_id = PcieId(0, 0, nums[k])
                dev.add_function(ep)
                self.mon.count("sparse_functions")
            else:
                dev.append_function(ep)
            self.eps.append(ep)
            if auto:
                self.bars(ep)
        self.devs.append(dev)
        self.join(up_port, p, name, dev)
        return dev

    def bars(self, ep):
        rng = self.rng
        ms = []
        idx = 0
        kinds = rng.choice([["mem"], ["mem", "pref"], ["pref", "io"], ["mem", "io", "pref"], ["io", "mem"], ["mem", "mem", "io"]])
        for k in kinds:
            if k == "io":
                size = rng.choice([16, 64, 256])
                m = ep.add_io_region(size)
            elif k == "mem":
                size = rng.choice([4096, 8192, 16384, 65536])
                m = ep.add_mem_region(size)
            else:
                size = rng.choice([4096, 16384, 1 << 20])
                m = ep.add_prefetchable_mem_region(size)
            ms.append((idx, k, m, size))
            idx += 2 if k == "pref" else 1
        self.mems[ep] = ms

    def switch(self, up_port, name, ndown):
        sw = Switch()
        p = self.mkport(FC_DEFAULT_BR)
        self.retire(sw.upstream_bridge.upstream_port)
        sw.set_upstream_port(p)
        sw.upstream_bridge.pcie_cap.max_payload_size_supported = 5
        self.switches.append(sw)
        idx = self.join(up_port, p, name, sw)
        downs = []
        for k in range(ndown):
            dp = self.mkport(FC_DEFAULT_BR)
            br = sw.make_port()
            self.retire(br.downstream_port)
            br.set_downstream_port(dp)
            br.pcie_cap.max_payload_size_supported = 5
            downs.append(dp)
            self.port_parent[dp] = idx
        return sw, downs

    def build_single(self, ports):
        _, p = self.root_port()
        self.endpoint(p, "rc-ep")

    def build_multi(self, ports):
        for k in range(ports or self.rng.choice([2, 3])):
            _, p = self.root_port()
            self.endpoint(p, f"rc-ep{k}")

    def build_switch(self, ports):
        _, p = self.root_port()
        sw, downs = self.switch(p, "rc-sw", ports or self.rng.choice([2, 3]))
        for k, d in enumerate(downs):
            self.endpoint(d, f"sw-ep{k}")

    def build_deep(self, ports):
        _, p = self.root_port()
        sw, downs = self.switch(p, "rc-sw", 2)
        self.endpoint(downs[0], "sw-ep")
        sw2, downs2 = self.switch(downs[1], "sw-sw2", 2)
        for k, d in enumerate(downs2):
            self.endpoint(d, f"sw2-ep{k}")
        _, p = self.root_port()
        self.endpoint(p, "rc-ep")

    def build_wide(self, ports):
        """several switches and endpoints at random"""
        n = 0

        def grow(port, depth, name):
            nonlocal n
            if depth < 3 and self.rng.random() < 0.45:
                sw, downs = self.switch(port, name + "-sw", self.rng.choice([1, 2, 3]))
                for k, d in enumerate(downs):
                    if self.rng.random() < 0.85:
                        grow(d, depth + 1, f"{name}.{k}")
                    else:
                        self.retire(d)      # an empty slot
            else:
                n += 1
                self.endpoint(port, name + "-ep")

        for k in range(self.rng.choice([1, 2, 3])):
            _, p = self.root_port()
            grow(p, 0, f"r{k}")

    async def up(self, master=True):
        """Enumerate and enable everything"""
        await self.rc.enumerate(timeout=self.enum_timeout)
        self.pdev = {}
        for ep in self.eps:
            d = self.rc.find_device(ep.pcie_id)
            if d is None:
                self.mon.violate("enumeration", f"function {ep.pcie_id} not found by enumeration")
                continue
            self.pdev[ep] = d
            await d.enable_device()
            if master:
                await d.set_master()

    def windows(self, ep):
        """[(kind, absolute address, size, backing store)]"""
        d = self.pdev[ep]
        return [(k, d.bar_addr[i], size, m) for i, k, m, size in self.mems[ep]]
