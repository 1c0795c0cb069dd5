"""Independent encoders, decoders and protocol rules for the streaming
interfaces of the hard IP blocks (layouts from PG213, UG-20161 and UG-20225)."""
from cocotb.triggers import RisingEdge


def odd_parity(v, n):
    """one bit per byte that makes the number of ones odd"""
    r = 0
    for k in range(n):
        if bin(v >> 8 * k & 0xff).count("1") % 2 == 0:
            r |= 1 << k
    return r


# first_be, last_be of k-th packet starting in the beat; start and end markers
US = {
    ("rq", 512): dict(fbe=lambda k: 4 * k, lbe=lambda k: 8 + 4 * k, sop=20, sptr=22, eop=26, eptr=28, disc=36, seq=lambda k: 61 + 6 * k, par=73, uw=137),
    ("rq", 0): dict(fbe=lambda k: 0, lbe=lambda k: 4, disc=11, seqlo=24, seqhi=60, par=28, uw=62),
    ("rc", 512): dict(be=0, sop=64, sptr=68, eop=76, eptr=80, disc=96, par=97, uw=161),
    ("rc", 0): dict(be=0, sof=32, eof=34, disc=42, par=43, uw=75),
    ("cq", 512): dict(fbe=lambda k: 4 * k, lbe=lambda k: 8 + 4 * k, be=16, sop=80, sptr=82, eop=86, eptr=88, disc=96, par=119, uw=183),
    ("cq", 0): dict(fbe=lambda k: 0, lbe=lambda k: 4, be=8, sopbit=40, disc=41, par=53, uw=88),
    ("cc", 512): dict(sop=0, sptr=2, eop=6, eptr=8, disc=16, par=17, uw=81),
    ("cc", 0): dict(disc=0, par=1, uw=33),
}


class Rec:
    """A frame as plain values"""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def diff(self, o):
        ks = set(self.__dict__) | set(o.__dict__)
        return sorted(k for k in ks if getattr(self, k, None) != getattr(o, k, None))

    def __repr__(self):
        d = dict(self.__dict__)
        if "data" in d:
            d["data"] = f"{len(d['data'])} dwords {[hex(x) for x in d['data'][:3]]}"
        for k in ("par", "be"):
            d.pop(k, None)
        return str(d)


class AxisDecoder:
    """Follows one AXI stream interface of an UltraScale(+) block"""

    def __init__(self, mon, kind, width, uw, segs, name=""):
        self.mon, self.kind, self.width, self.uw, self.segs = mon, kind, width, uw, segs
        self.name = name or kind
        self.L = US[kind, 512 if width == 512 else 0]
        self.lanes = width // 32
        self.cur = None
        self.out = []
        self.prev = None
        self.beats = 0
        self.stalls = 0
        self.straddled = 0

    def sample(self, valid, ready, data, keep, last, user):
        mon = self.mon
        if self.prev is not None:
            mon.check(valid == 1 and self.prev == (data, keep, last, user), "axis-stability",
                      lambda: f"{self.name}: transfer withdrawn or changed while waiting for ready: {[hex(x) for x in self.prev[:1]]} -> valid {valid} {data:#x}")
            self.stalls += 1
        self.prev = (data, keep, last, user) if valid and not ready else None
        if valid and ready:
            self.beat(data, keep, last, user)

    def start(self, k, user):
        L = self.L
        f = Rec(data=[], par=[])
        if "be" in L:
            f.be = []
        if "fbe" in L:
            f.fbe = user >> L["fbe"](k) & 0xf
            f.lbe = user >> L["lbe"](k) & 0xf
        if "seq" in L:
            f.seq = user >> L["seq"](k) & 0x3f
        elif "seqlo" in L:
            f.seq = user >> L["seqlo"] & 0xf
            if self.uw > 60:
                f.seq |= (user >> L["seqhi"] & 3) << 4
        f.disc = False
        self.cur = f

    def beat(self, data, keep, last, user):
        L, mon = self.L, self.mon
        self.beats += 1
        n = self.lanes
        per = n // self.segs
        sops, eops = [], []
        if self.segs == 1:
            cnt = bin(keep).count("1")
            mon.check(keep == (1 << cnt) - 1 and cnt and (last or cnt == n), "axis-keep", lambda: f"{self.name}: tkeep {keep:#x} with tlast {last}")
            if self.cur is None:
                sops.append(0)
            if last:
                eops.append(cnt - 1)
            # the markers next to the data say the same
            if "sop" in L:
                m = user >> L["sop"] & 3
                mon.check(m == (1 if sops else 0) and (not m or user >> L["sptr"] & 3 == 0), "axis-sop", lambda: f"{self.name}: is_sop {m} for a beat that {'starts' if sops else 'continues'} a packet")
                m = user >> L["eop"] & 3
                mon.check(m == (1 if eops else 0) and (not m or user >> L["eptr"] & 15 == cnt - 1), "axis-eop", lambda: f"{self.name}: is_eop {m} pointer {user >> L['eptr'] & 15}, tlast {last}, {cnt} dwords")
            elif "sof" in L:
                m = user >> L["sof"] & 3
                mon.check(m == (1 if sops else 0), "axis-sop", lambda: f"{self.name}: is_sof {m} for a beat that {'starts' if sops else 'continues'} a packet")
                m = user >> L["eof"] & 0xff
                mon.check((m & 1 == 1 and m >> 1 & 7 == cnt - 1 if eops else m & 1 == 0) and not m & 0x10, "axis-eop", lambda: f"{self.name}: is_eof {m:#x}, tlast {last}, {cnt} dwords")
            elif "sopbit" in L:
                m = user >> L["sopbit"] & 1
                mon.check(m == (1 if sops else 0), "axis-sop", lambda: f"{self.name}: sop {m} for a beat that {'starts' if sops else 'continues'} a packet")
        else:
            if "sop" in L:
                mx = 4 if self.kind == "rc" else 2
                for k in range(mx):
                    if user >> (L["sop"] + k) & 1:
                        sops.append((user >> (L["sptr"] + 2 * k) & 3) * 4)
                    if user >> (L["eop"] + k) & 1:
                        eops.append(user >> (L["eptr"] + 4 * k) & 15)
                # markers are used from the first on
                for b in ("sop", "eop"):
                    m = user >> L[b] & (1 << mx) - 1
                    mon.check(m & (m + 1) == 0, "axis-marker", lambda: f"{self.name}: is_{b} {m:#x} has a gap")
            else:
                if user >> L["sof"] & 1:
                    sops.append(4 if self.cur is not None else 0)
                if user >> L["sof"] & 2:
                    sops.append(4)
                for k in range(2):
                    if user >> (L["eof"] + 4 * k) & 1:
                        eops.append(user >> (L["eof"] + 4 * k + 1) & 7)
            mon.check(all(s % per == 0 for s in sops) and sops == sorted(set(sops)) and eops == sorted(set(eops)), "axis-marker",
                      lambda: f"{self.name}: packets start in lanes {sops} and end in {eops}")
            if len(sops) > 1 or (sops and sops[0]):
                self.straddled += 1
        k = 0
        any_disc = user >> L["disc"] & 1
        touched = []
        for lane in range(n):
            if lane in sops:
                if not mon.check(self.cur is None, "axis-framing", lambda: f"{self.name}: packet starts in lane {lane} before the previous one ended (starts {sops}, ends {eops})"):
                    self.cur = None
                self.start(k, user)
                k += 1
            f = self.cur
            if f is not None and not any(f is t for t in touched):
                touched.append(f)
            if f is not None:
                f.data.append(data >> 32 * lane & 0xffffffff)
                f.par.append(user >> (L["par"] + 4 * lane) & 0xf)
                if "be" in L:
                    f.be.append(user >> (L["be"] + 4 * lane) & 0xf)
            if lane in eops:
                if mon.check(f is not None, "axis-framing", lambda: f"{self.name}: end of packet in lane {lane} outside of a packet (starts {sops}, ends {eops})"):
                    self.out.append(f)
                self.cur = None
        if any_disc:
            for f in touched:
                f.disc = True

    async def watch(self, clk, bus):
        edge = RisingEdge(clk)
        while True:
            await edge
            v, r = int(bus.tvalid.value), int(bus.tready.value)
            if v or self.prev is not None:
                self.sample(v, r, int(bus.tdata.value), int(bus.tkeep.value), int(bus.tlast.value), int(bus.tuser.value))


def axis_beats(kind, width, uw, segs, frames, rng, dense=0.8):
    """Beats [(data, keep, last, user) or None for a pause] an independent
    transmitter makes of frames"""
    L = US[kind, 512 if width == 512 else 0]
    lanes = width // 32
    per = lanes // segs
    out = []
    q = list(frames)
    cur, pos = None, 0
    while q or cur is not None:
        if rng.random() < 0.15:
            out.append(None)
        data = keep = last = user = 0
        ns = ne = 0
        open_at_start = cur is not None
        for s in range(segs):
            if cur is None:
                if not q or (s and (rng.random() > dense or q[0].disc)):
                    break
                cur, pos = q.pop(0), 0
                if "sop" in L:
                    user |= 1 << (L["sop"] + ns) | (s * per // 4) << (L["sptr"] + 2 * ns)
                elif "sof" in L:
                    user |= 1 << (L["sof"] + ns)
                elif "sopbit" in L:
                    user |= 1 << L["sopbit"]
                if "fbe" in L:
                    user |= cur.fbe << L["fbe"](ns) | cur.lbe << L["lbe"](ns)
                if "seq" in L:
                    user |= cur.seq << L["seq"](ns)
                elif "seqlo" in L:
                    user |= (cur.seq & 0xf) << L["seqlo"]
                    if uw > 60:
                        user |= (cur.seq >> 4) << L["seqhi"]
                ns += 1
            lane = s * per
            while lane < (s + 1) * per and pos < len(cur.data):
                data |= cur.data[pos] << 32 * lane
                keep |= 1 << lane
                user |= cur.par[pos] << (L["par"] + 4 * lane)
                if "be" in L:
                    user |= cur.be[pos] << (L["be"] + 4 * lane)
                pos += 1
                lane += 1
            if cur.disc:
                user |= 1 << L["disc"]
            if pos == len(cur.data):
                if "eop" in L:
                    user |= 1 << (L["eop"] + ne) | (lane - 1) << (L["eptr"] + 4 * ne)
                elif "eof" in L:
                    user |= 1 << (L["eof"] + 4 * ne) | (lane - 1) << (L["eof"] + 4 * ne + 1)
                ne += 1
                if segs == 1:
                    last = 1
                d = cur.disc
                cur = None
                if d:
                    break
        out.append((data, keep, last, user))
    return out


class AvstDecoder:
    """Follows one Avalon stream interface of a Stratix 10 or P-Tile block"""

    def __init__(self, mon, kind, width, segs, latency, has, name="avst"):
        self.mon, self.kind, self.width, self.segs, self.latency, self.has = mon, kind, width, segs, latency, has
        self.name = name
        self.per = width // 32 // segs
        self.ew = (self.per - 1).bit_length()
        self.fw = 2 if kind == "s10" else 3
        self.cur = None
        self.left = 0
        self.out = []
        self.hist = [0] * (latency + 1)
        self.prev = None
        self.beats = 0
        self.stalls = 0
        self.late = 0
        self.straddled = 0

    def sample(self, v, ready, sig):
        """v: valid bits; sig: function name -> value"""
        mon = self.mon
        self.hist.append(ready)
        was = self.hist.pop(0) if self.latency else ready
        if self.latency:
            was = self.hist[-1 - self.latency]
            if not ready and was:
                self.late += 1
            if v:
                if mon.check(was, "avst-ready", lambda: f"{self.name}: valid although ready was low {self.latency} cycles earlier"):
                    self.beat(v, sig)
            return
        snap = {k: sig(k) for k in self.has}
        if self.prev is not None:
            mon.check(self.prev == (v, snap), "avst-stability", lambda: f"{self.name}: transfer withdrawn or changed while waiting for ready")
            self.stalls += 1
        self.prev = (v, snap) if v and not ready else None
        if v and ready:
            self.beat(v, sig)

    def beat(self, v, sig):
        mon, per = self.mon, self.per
        self.beats += 1
        data, sop, eop = sig("data"), sig("sop"), sig("eop")
        parn = "parity" if self.kind == "s10" else "data_par"
        nsop = 0
        for s in range(self.segs):
            if not v >> s & 1:
                continue
            if sop >> s & 1:
                nsop += 1
                if not mon.check(self.cur is None, "avst-framing", lambda: f"{self.name}: sop inside of a packet"):
                    self.cur = None
                f = self.cur = Rec(data=[])
                if parn in self.has:
                    f.par = []
                if self.kind == "s10":
                    dw0 = data >> 32 * per * s & 0xffffffff
                    self.left = 3 + (dw0 >> 29 & 1) + ((dw0 & 0x3ff or 1024) if dw0 >> 30 & 1 else 0)
                else:
                    f.hdr = sig("hdr") >> 128 * s & (1 << 128) - 1
                    f.prfx = sig("tlp_prfx") >> 32 * s & 0xffffffff
                    for n, w in (("hdr_par", 16), ("tlp_prfx_par", 4)):
                        if n in self.has:
                            setattr(f, n, sig(n) >> w * s & (1 << w) - 1)
                    self.left = (f.hdr >> 96 & 0x3ff or 1024) if f.hdr >> 126 & 1 else 0
                for n, w in (("bar_range", 3), ("func_num", self.fw), ("err", 1), ("tlp_abort", 1)):
                    if n in self.has:
                        setattr(f, n, sig(n) >> w * s & (1 << w) - 1)
                if "vf_active" in self.has:
                    va = sig("vf_active") >> s & 1
                    f.vf = None if not va else (sig("vf_num") >> 11 * s & 0x7ff) if "vf_num" in self.has else 0
            f = self.cur
            if not mon.check(f is not None, "avst-framing", lambda: f"{self.name}: data outside of a packet"):
                continue
            if "err" in self.has:
                f.err |= sig("err") >> s & 1
            if "tlp_abort" in self.has:
                f.tlp_abort |= sig("tlp_abort") >> s & 1
            n = min(per, self.left)
            for k in range(s * per, s * per + n):
                f.data.append(data >> 32 * k & 0xffffffff)
                if parn in self.has:
                    f.par.append(sig(parn) >> 4 * k & 0xf)
            self.left -= n
            if eop >> s & 1:
                mon.check(self.left == 0, "avst-framing", lambda: f"{self.name}: eop {self.left} dwords early")
                if "empty" in self.has and n:
                    e = sig("empty") >> self.ew * s & (1 << self.ew) - 1
                    mon.check(e == per - n, "avst-empty", lambda: f"{self.name}: empty {e} in a last segment with {n} of {per} dwords")
                self.out.append(f)
                self.cur = None
            else:
                mon.check(self.left > 0, "avst-framing", lambda: f"{self.name}: no eop with the last data of a packet")
        if nsop > 1 or (sop and not sop & 1):
            self.straddled += 1

    async def watch(self, clk, bus):
        edge = RisingEdge(clk)
        sigs = {k: getattr(bus, k) for k in self.has}
        cache = {}

        def sig(n):
            if n not in cache:
                cache[n] = int(sigs[n].value)
            return cache[n]
        while True:
            await edge
            cache.clear()
            self.sample(int(bus.valid.value), int(bus.ready.value), sig)


def avst_beats(kind, width, segs, frames, rng, dense=0.8):
    """Beats {signal: value} (None: pause) an independent transmitter makes"""
    per = width // 32 // segs
    ew = (per - 1).bit_length()
    fw = 2 if kind == "s10" else 3
    out = []
    q = list(frames)
    cur, pos = None, 0
    parn = "parity" if kind == "s10" else "data_par"
    while q or cur is not None:
        if rng.random() < 0.15:
            out.append(None)
        b = dict(data=0, empty=0, sop=0, eop=0, valid=0, err=0, hdr=0, tlp_prfx=0, bar_range=0, tlp_abort=0, vf_active=0, func_num=0, vf_num=0, hdr_par=0, tlp_prfx_par=0)
        b[parn] = 0
        for s in range(segs):
            if cur is None:
                if not q:
                    break
                if rng.random() > dense and not (s == segs - 1 and not b["valid"]):
                    continue        # an empty segment
                cur, pos = q.pop(0), 0
                b["sop"] |= 1 << s
                if kind != "s10":
                    b["hdr"] |= cur.hdr << 128 * s
                    b["tlp_prfx"] |= cur.prfx << 32 * s
                    b["hdr_par"] |= cur.hdr_par << 16 * s
                    b["tlp_prfx_par"] |= cur.tlp_prfx_par << 4 * s
            b["valid"] |= 1 << s
            b["bar_range"] |= cur.bar_range << 3 * s
            b["func_num"] |= cur.func_num << fw * s
            b["err"] |= cur.err << s
            b["tlp_abort"] |= getattr(cur, "tlp_abort", 0) << s
            if cur.vf is not None:
                b["vf_active"] |= 1 << s
                b["vf_num"] |= cur.vf << 11 * s
            k = s * per
            while k < (s + 1) * per and pos < len(cur.data):
                b["data"] |= cur.data[pos] << 32 * k
                b[parn] |= cur.par[pos] << 4 * k
                pos += 1
                k += 1
            if pos == len(cur.data):
                b["eop"] |= 1 << s
                if k > s * per:
                    b["empty"] |= ((s + 1) * per - k) << ew * s
                cur = None
        out.append(b)
    return out
