"""Test bench around a hard IP model: a root complex whose raw traffic the
harness controls on one side, the model's user interfaces on the other."""
import inspect
import random

import cocotb
from cocotb.triggers import RisingEdge, Timer
from cocotb.utils import get_sim_time
from cocotbext.axi import AxiStreamBus

from cocotbext.pcie.core import RootComplex
from cocotbext.pcie.core.tlp import Tlp, TlpAt, TlpAttr, TlpTc, TlpType
from cocotbext.pcie.core.utils import PcieId
from cocotbext.pcie.intel.ptile import PTilePcieDevice
from cocotbext.pcie.intel.ptile.interface import PTilePcieFrame, PTilePcieSource, PTileRxBus, PTileTxBus
from cocotbext.pcie.intel.s10 import S10PcieDevice
from cocotbext.pcie.intel.s10.interface import S10PcieFrame, S10PcieSource, S10RxBus, S10TxBus
from cocotbext.pcie.xilinx.us import UltraScalePcieDevice, UltraScalePlusPcieDevice
from cocotbext.pcie.xilinx.us.interface import CcSource, RqSource, UsPcieFrame

from vlib import ref_tlp as R
from vlib.hipcfg import XIL, hip_params, top_of  # noqa: F401
from vlib.links import LinkSet, Monitor
from vlib.snap import Snap
from vlib.streams import AvstDecoder, AxisDecoder, Rec, odd_parity

def pauses(r, heavy=(0, 0, 0.1, 0.5, 0.9)):
    while True:
        p = r.choice(heavy)
        for _ in range(r.randrange(1, 120)):
            yield r.random() < p


class LinkRec(Monitor):
    """What crosses the link of the device under test"""

    def __init__(self, tb):
        self.tb = tb

    def deliver(self, d, s):
        tb = self.tb
        if not tb.on:
            return
        if d.rx is tb.devport:
            tb.l_in.append(s)
            for cb in tb.on_in:
                cb(s)
        else:
            tb.l_out.append(s)
            for cb in tb.on_out:
                cb(s)


class Tb:
    def __init__(self, dut, mon, rng, flav, width, pf=1, mps=0, straddle=None, client_tag=True, ext_tag=False, parity=False, l_tile=False, msi=None, msix=False, extra=None, side=()):
        self.dut, self.mon, self.rng = dut, mon, rng
        self.flav, self.width, self.pf = flav, width, pf
        self.straddle = straddle or {}
        self.client_tag, self.ext_tag, self.parity = client_tag, ext_tag, parity
        self.mps = mps
        self.on = False
        self.l_in, self.l_out = [], []
        self.monitors = []      # further observers of the link
        self.on_in, self.on_out = [], []
        self.host_np = None     # called with every non-posted request that reaches the host
        self.msi = msi or [0] * pf
        self.msix = msix
        self.side = side        # prefixes of further signals of the model to connect
        self.xil = flav in XIL
        self.make(l_tile, extra or {})

    def make(self, l_tile, extra):
        dut, mon, rng, width = self.dut, self.mon, self.rng, self.width
        kw = dict(pf_count=self.pf, max_payload_size=1024, enable_extended_tag=self.ext_tag)
        for k, n in enumerate(self.msi):
            if n:
                kw[f"pf{k}_msi_enable"] = True
                kw[f"pf{k}_msi_count"] = n
            if self.msix:
                kw[f"pf{k}_msix_enable"] = True
                kw[f"pf{k}_msix_table_size"] = 7
                kw[f"pf{k}_msix_table_offset"] = 0x100 * (k + 1)
                kw[f"pf{k}_msix_pba_offset"] = 0x800 * (k + 1)
        if self.xil:
            st = self.straddle
            seg = dict(rq=2 if st.get("rq") else 1, cq=2 if st.get("cq") else 1, cc=2 if st.get("cc") else 1,
                       rc=4 if st.get("rc4") else 2 if st.get("rc") else 1)
            self.seg = seg
            if self.flav == "usp":
                kw.update(cq_straddle=bool(st.get("cq")), cc_straddle=bool(st.get("cc")), rq_straddle=bool(st.get("rq")), rc_4tlp_straddle=bool(st.get("rc4")))
            kw.update(rc_straddle=bool(st.get("rc") or st.get("rc4")), alignment="dword", enable_client_tag=self.client_tag, enable_parity=self.parity)
            buses = {k: AxiStreamBus.from_prefix(dut, k) for k in ("rq", "rc", "cq", "cc")}
            self.buses = buses
            for n in ("cq_np_req", "cfg_mgmt_addr", "cfg_mgmt_function_number", "cfg_mgmt_write", "cfg_mgmt_read", "cfg_mgmt_write_data", "cfg_mgmt_byte_enable", "cfg_fc_sel",
                      "cfg_interrupt_msi_select", "cfg_interrupt_msi_int", "cfg_interrupt_msi_pending_status", "cfg_interrupt_msi_pending_status_data_enable",
                      "cfg_interrupt_msi_pending_status_function_num", "cfg_interrupt_msix_address", "cfg_interrupt_msix_data", "cfg_interrupt_msix_int", "cfg_interrupt_msi_attr",
                      "cfg_interrupt_msi_function_number"):
                getattr(dut, n).setimmediatevalue(0)
            dut.cfg_config_space_enable.setimmediatevalue(1)
            for b in ("rc", "cq"):
                buses[b].tready.setimmediatevalue(0)
            kw.update(user_clk=dut.user_clk, user_reset=dut.user_reset, user_lnk_up=dut.user_lnk_up,
                      rq_bus=buses["rq"], rc_bus=buses["rc"], cq_bus=buses["cq"], cc_bus=buses["cc"],
                      pcie_rq_tag_av=dut.rq_tag_av, pcie_cq_np_req=dut.cq_np_req, pcie_cq_np_req_count=dut.cq_np_req_count)
            if self.flav == "usp":
                for k in range(2):
                    kw[f"pcie_rq_seq_num{k}"] = getattr(dut, f"rq_seq_num{k}")
                    kw[f"pcie_rq_seq_num_vld{k}"] = getattr(dut, f"rq_seq_num_vld{k}")
                    kw[f"pcie_rq_tag{k}"] = getattr(dut, f"rq_tag{k}")
                    kw[f"pcie_rq_tag_vld{k}"] = getattr(dut, f"rq_tag_vld{k}")
            else:
                kw.update(pcie_rq_seq_num=dut.rq_seq_num0, pcie_rq_seq_num_vld=dut.rq_seq_num_vld0, pcie_rq_tag=dut.rq_tag0, pcie_rq_tag_vld=dut.rq_tag_vld0)
            cls = UltraScalePlusPcieDevice if self.flav == "usp" else UltraScalePcieDevice
            for n in inspect.signature(cls.__init__).parameters:
                if n not in kw and n.startswith(tuple(self.side)) and hasattr(dut, n):
                    kw[n] = getattr(dut, n)
            kw.update(extra)
            self.clk = dut.user_clk
            self.kw = kw
            self.dev = cls(**kw)
            self.rq = RqSource(buses["rq"], self.clk, segments=seg["rq"])
            self.cc = CcSource(buses["cc"], self.clk, segments=seg["cc"])
            for s in (self.rq, self.cc):
                s.queue_occupancy_limit_frames = rng.choice([1, 4, 20])
                s.set_pause_generator(pauses(random.Random(rng.getrandbits(48)), (0, 0, 0, 0.1, 0.6)))
            uw = dict(rc=len(buses["rc"].tuser), cq=len(buses["cq"].tuser))
            self.rcdec = AxisDecoder(mon, "rc", width, uw["rc"], seg["rc"])
            self.cqdec = AxisDecoder(mon, "cq", width, uw["cq"], seg["cq"])
            self.ready = dict(rc=pauses(random.Random(rng.getrandbits(48))), cq=pauses(random.Random(rng.getrandbits(48))))
        else:
            kw.update(extra)
            if self.flav == "s10":
                kw["l_tile"] = l_tile
                self.clk = dut.clk
                self.rxbus, self.txbus = S10RxBus.from_prefix(dut, "rx"), S10TxBus.from_prefix(dut, "tx")
                for n in ("app_msi_req", "app_msi_tc", "app_msi_num", "app_msi_func_num"):
                    getattr(dut, n).setimmediatevalue(0)
                kw.update(coreclkout_hip=dut.clk, reset_status=dut.reset_status, rx_bus=self.rxbus, tx_bus=self.txbus,
                          tx_ph_cdts=dut.tx_ph_cdts, tx_pd_cdts=dut.tx_pd_cdts, tx_nph_cdts=dut.tx_nph_cdts, tx_cplh_cdts=dut.tx_cplh_cdts,
                          app_msi_req=dut.app_msi_req, app_msi_ack=dut.app_msi_ack, app_msi_tc=dut.app_msi_tc, app_msi_num=dut.app_msi_num, app_msi_func_num=dut.app_msi_func_num,
                          tl_cfg_func=dut.tl_cfg_func, tl_cfg_add=dut.tl_cfg_add, tl_cfg_ctl=dut.tl_cfg_ctl)
                if l_tile:
                    kw.update(tx_npd_cdts=dut.tx_npd_cdts, tx_cpld_cdts=dut.tx_cpld_cdts)
                self.rxbus.ready.setimmediatevalue(0)
                self.dev = S10PcieDevice(**kw)
                self.tx = S10PcieSource(self.txbus, dut.clk, ready_latency=3)
                lat = 18 if width == 512 else 17
            else:
                self.clk = dut.clk
                self.rxbus, self.txbus = PTileRxBus.from_prefix(dut, "rx"), PTileTxBus.from_prefix(dut, "tx")
                kw.update(coreclkout_hip=dut.clk, reset_status=dut.reset_status, rx_bus=self.rxbus, tx_bus=self.txbus,
                          tx_cdts_limit=dut.tx_cdts_limit, tx_cdts_limit_tdm_idx=dut.tx_cdts_limit_tdm_idx,
                          tl_cfg_func=dut.tl_cfg_func, tl_cfg_add=dut.tl_cfg_add, tl_cfg_ctl=dut.tl_cfg_ctl)
                self.rxbus.ready.setimmediatevalue(0)
                self.dev = PTilePcieDevice(**kw)
                self.tx = PTilePcieSource(self.txbus, dut.clk, ready_latency=3)
                lat = 27
            self.tx.queue_occupancy_limit_frames = rng.choice([1, 4, 20])
            self.tx.set_pause_generator(pauses(random.Random(rng.getrandbits(48)), (0, 0, 0, 0.1, 0.6)))
            has = [s for s in self.rxbus._signals if s not in ("valid", "ready")]
            has += [s for s in self.rxbus._optional_signals if hasattr(self.rxbus, s) and s not in has]
            self.rxhas = has
            self.rxdec = AvstDecoder(mon, self.flav, width, width // 256 or 1, lat, has, "rx")
            self.ready = dict(rx=pauses(random.Random(rng.getrandbits(48))))
        self.edge = RisingEdge(self.clk)
        self.stall = {k: False for k in self.ready}     # interface held not ready
        self.open = {k: False for k in self.ready}      # interface always ready

    async def setup(self):
        mon, rng = self.mon, self.rng
        rc = self.rc = RootComplex()
        rc.max_payload_size = self.mps
        br = self.br = rc.make_port()
        br.pcie_cap.max_payload_size_supported = 5
        br.connect(self.dev)
        self.devport = self.dev.upstream_port
        self.links = LinkSet(mon)
        self.links.tap(br.downstream_port, self.devport, "hip")
        self.links.add(LinkRec(self))
        for m in self.monitors:
            self.links.add(m)
        self.fns = list(self.dev.functions)
        self.bars = []
        for k, f in enumerate(self.fns):
            lay = rng.choice([["m32"], ["m64", "m32"], ["m32", "io"], ["m64", "io", "m32"], ["io", "m32", "m64"], ["m32", "m32", "m64"]])
            if k == 0 and self.msix:
                lay = ["m32"] + lay[:2]
            bs = []
            i = 0
            for t in lay:
                size = 1 << (rng.randrange(4, 9) if t == "io" else rng.randrange(12, 21))
                f.configure_bar(i, size, t == "m64", t == "m64", t == "io")
                bs.append((i, t, size))
                i += 2 if t == "m64" else 1
            self.bars.append(bs)
        if self.xil:
            for b, dec in (("rc", self.rcdec), ("cq", self.cqdec)):
                cocotb.start_soon(dec.watch(self.clk, self.buses[b]))
                cocotb.start_soon(self.drive_ready(b, self.buses[b].tready))
        else:
            cocotb.start_soon(self.rxdec.watch(self.clk, self.rxbus))
            cocotb.start_soon(self.drive_ready("rx", self.rxbus.ready))
        rst = self.dut.user_reset if self.xil else self.dut.reset_status
        await self.edge
        await self.edge
        await self.edge
        while not int(rst.value):
            await self.edge
        while int(rst.value):
            await self.edge
        await rc.enumerate()
        self.pdev = []
        self.space = []     # (function, bar, type, size, address)
        for k, f in enumerate(self.fns):
            d = rc.find_device(f.pcie_id)
            assert d is not None, f"function {k} not found"
            self.pdev.append(d)
            await d.enable_device()
            await d.set_master()
            for i, t, size in self.bars[k]:
                self.space.append((k, i, t, size, d.bar_addr[i]))
        self.bus = int(self.fns[0].pcie_id) >> 8

        async def rc_rx(tlp):
            s = Snap(tlp, get_sim_time("ns"))
            if s.cls == "CPL" and s.tag < 32 and s.requester_id == 0:
                await rc.downstream_recv(tlp)
                return
            if s.cls == "NP" and self.host_np is not None:
                self.host_np(tlp)
            tlp.release_fc()

        rc.upstream_bridge.upstream_tx_handler = rc_rx
        self.on = True

    async def drive_ready(self, name, sig):
        for p in self.ready[name]:
            sig.value = int(not self.stall[name] and (self.open[name] or not p))
            await self.edge

    async def idle(self, n):
        for _ in range(n):
            await self.edge

    async def quiesce(self, cond, what, us=400):
        """Wait until cond() holds; finite work, so simulated time decides"""
        t0 = get_sim_time("us")
        while not cond():
            await self.idle(20)
            if get_sim_time("us") - t0 > us:
                self.mon.violate("stuck", f"{what} did not complete within {us} us")
                return False
        return True

    # -- requests of the host ---------------------------------------------

    def rand_host(self, r, uid, kinds=("P", "NP")):
        """A legal request of the host to one of the device's ranges:
        (tlp, function, bar, type, size)"""
        from scen.respond import mkreq, rand_shape
        while True:
            k, i, t, size, addr = r.choice(self.space)
            cls = r.choice(kinds)
            if t == "io":
                if "NP" not in kinds:
                    continue
                a = addr + 4 * r.randrange(size // 4)
                w = r.random() < 0.5
                q = mkreq("IO_WRITE" if w else "IO_READ", self.host_rid(r), 32 + r.randrange(192), a, 1, r.randrange(16), 0, 0, 0, r.randbytes(4) if w else None)
                return q, k, i, t, size
            room = 1024 if cls == "NP" else 32 << self.mps
            n, fb, lb = rand_shape(r, min(room, r.choice([4, 40, 1024])))
            a = addr + 4 * r.randrange(size // 4)
            if r.random() < 0.2:
                a = addr + size - 4 * n if r.random() < 0.5 else addr
            if n == 2:
                a &= ~7
            n = min(n, (4096 - a % 4096) // 4, (addr + size - a) // 4)
            if n == 1:
                lb = 0
                if fb == 0 and cls == "P":
                    fb = 0xf
            nm = ("MEM_READ" if cls == "NP" else "MEM_WRITE") + ("_64" if a >> 32 else "")
            q = mkreq(nm, self.host_rid(r), 32 + r.randrange(192), a, n, fb, lb, r.randrange(8), r.randrange(8), r.randbytes(4 * n) if cls == "P" else None)
            q.at = TlpAt(r.choice([0, 0, 0, 1, 2]))
            return q, k, i, t, size

    def host_rid(self, r):
        return r.choice([0, 0, 0xfff8, 0x9a05, r.randrange(0x8000, 0x10000)])

    def nobody(self, r):
        """an address the bridge forwards but no function decodes"""
        for _ in range(200):
            k, i, t, size, addr = r.choice(self.space)
            if t == "io":
                a = (addr & ~0xfff) + 4 * r.randrange(1024)
            else:
                a = (addr & ~0xfffff) + 4 * r.randrange(1 << 18)
            a -= a % 64
            if not any((x[2] == "io") == (t == "io") and x[4] - 4096 < a < x[4] + x[3] + 4096 and (t != "io" or x[4] - 64 < a < x[4] + x[3] + 64) for x in self.space):
                return a, t
        return None, None

    # -- descriptors --------------------------------------------------------

    def us_frame(self, data, **kw):
        f = UsPcieFrame()
        f.data = list(data)
        f.parity = [odd_parity(d, 4) for d in data]
        for k, v in kw.items():
            setattr(f, k, v)
        return f


def dwords(data):
    return [int.from_bytes(data[i:i + 4], "little") for i in range(0, len(data), 4)]


REQTYPE = {"MEM_READ": 0, "MEM_READ_64": 0, "MEM_WRITE": 1, "MEM_WRITE_64": 1, "IO_READ": 2, "IO_WRITE": 3,
           "FETCH_ADD": 4, "FETCH_ADD_64": 4, "SWAP": 5, "SWAP_64": 5, "CAS": 6, "CAS_64": 6, "MEM_READ_LOCKED": 7, "MEM_READ_LOCKED_64": 7,
           "CFG_READ_0": 8, "CFG_READ_1": 9, "CFG_WRITE_0": 10, "CFG_WRITE_1": 11}


def lane_be(n, fbe, lbe):
    """byte enables of n payload dwords"""
    return [] if not n else [fbe] if n == 1 else [fbe] + [0xf] * (n - 2) + [lbe]


def cq_desc(s, fn, bar, size):
    """Completer request descriptor for request s (product guide tables)"""
    d = [(s.address & 0xfffffffc) | s.at, s.address >> 32,
         s.length | REQTYPE[s.name] << 11 | s.requester_id << 16,
         s.tag | fn << 8 | bar << 16 | (size - 1).bit_length() << 19 | s.tc << 25 | s.attr << 28]
    pay = dwords(s.data)
    return Rec(data=d + pay, fbe=s.first_be, lbe=s.last_be, be=[0] * 4 + lane_be(len(pay), s.first_be, s.last_be), disc=False)


def cc_desc(f):
    """Completer completion descriptor from plain fields"""
    return [f["lower"] | f.get("at", 0) << 8 | f["bc"] << 16 | bool(f.get("locked")) << 29,
            f["length"] | f["status"] << 11 | bool(f.get("ep")) << 14 | f["rid"] << 16,
            f["tag"] | f["cid"] << 8 | bool(f.get("cid_en")) << 24 | f["tc"] << 25 | f["attr"] << 28]


def rq_desc(f):
    return [(f["addr"] & 0xfffffffc) | f.get("at", 0), f["addr"] >> 32,
            f["length"] | f["rt"] << 11 | bool(f.get("ep")) << 15 | f["rid"] << 16,
            f["tag"] | f.get("cid", 0) << 8 | bool(f.get("rid_en")) << 24 | f["tc"] << 25 | f["attr"] << 28]


def rc_be(lower, bc, n):
    """enabled bytes of a completion's payload"""
    out = []
    pos = lower & 3
    end = pos + bc
    for k in range(n):
        v = 0
        for b in range(4):
            if pos <= 4 * k + b < end:
                v |= 1 << b
        out.append(v)
    return out


def rc_desc(s, lower, err, done):
    d = [lower | err << 12 | s.byte_count << 16 | ("LOCKED" in s.name) << 29 | bool(done) << 30,
         s.length | s.status << 11 | bool(s.ep) << 14 | s.requester_id << 16,
         s.tag | s.completer_id << 8 | s.tc << 25 | s.attr << 28]
    pay = dwords(s.data)
    return Rec(data=d + pay, be=[0] * 3 + rc_be(lower, s.byte_count, len(pay)), disc=False)


def strip_par(mon, f, check, name):
    """drop the parity of a decoded frame, after judging it when asked for"""
    if check:
        mon.check(f.par == [odd_parity(d, 4) for d in f.data], "parity", lambda: f"{name}: parity {f.par[:6]} of {[hex(d) for d in f.data[:6]]}")
    g = Rec(**{k: v for k, v in f.__dict__.items() if k != "par"})
    return g


def show(a, b):
    """first differences of two frames"""
    r = []
    for k in sorted(set(a.__dict__) | set(b.__dict__)):
        x, y = getattr(a, k, None), getattr(b, k, None)
        if x != y:
            if isinstance(x, list) and isinstance(y, list):
                i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
                r.append(f"{k}[{i}] {[hex(v) for v in x[i:i + 2]]} expected {[hex(v) for v in y[i:i + 2]]} (lengths {len(x)}, {len(y)})")
            else:
                r.append(f"{k} {x} expected {y}")
    return "; ".join(r)


class OrderedExpect:
    """Expected sequence in which posted packets stay in order, non-posted
    (and completions) stay in order, and none of these overtakes an earlier
    posted packet."""

    def __init__(self, mon, name, eq):
        self.mon, self.name, self.eq = mon, name, eq
        self.q = {"P": [], "NP": [], "CPL": []}
        self.n = 0
        self.matched = 0

    def push(self, cls, item):
        self.q[cls].append((self.n, item))
        self.n += 1

    def pending(self, cls=None):
        return len(self.q[cls]) if cls else sum(len(v) for v in self.q.values())

    def take(self, cls, got):
        mon = self.mon
        q = self.q[cls]
        if not mon.check(bool(q), "unexpected", lambda: f"{self.name}: {got} has no counterpart"):
            return None
        k, want = q.pop(0)
        d = self.eq(got, want)
        mon.check(d is None, "content", lambda: f"{self.name}: packet {k} ({cls}): {d}")
        if cls != "P" and self.q["P"]:
            p = self.q["P"][0][0]
            mon.check(p > k, "order", lambda: f"{self.name}: {cls} packet {k} came before earlier posted packet {p}")
        self.matched += 1
        return want
