"""C01 / C02: packet codecs against the reference layouts."""
from vlib import ref_tlp as R


def gen_fields(rng, name, maxdw):
    f = dict(
        tc=rng.randrange(8), ln=rng.randrange(2), th=rng.randrange(2), td=rng.randrange(2), ep=rng.randrange(2),
        attr=rng.randrange(8), at=rng.randrange(3),
        requester_id=rng.choice([0, 0xffff, rng.randrange(65536), rng.randrange(65536)]),
        tag=rng.choice([0, 31, 32, 255, 256, 511, 512, 768, 1023, rng.randrange(1024), rng.randrange(1024)]),
    )
    if name in R.CPL:
        f["completer_id"] = rng.choice([0, 0xffff, rng.randrange(65536)])
        f["status"] = rng.choice([0, 1, 2, 4])
        f["bcm"] = rng.randrange(2)
        f["byte_count"] = rng.choice([1, 4096, 4095, 2048, rng.randrange(1, 4097)])
        f["lower_address"] = rng.randrange(128)
        f["length"] = rng.choice([1, rng.randrange(1, maxdw + 1), maxdw]) if R.has_data(name) else 0
    elif name in R.CFG:
        f["completer_id"] = rng.choice([0, 0xffff, rng.randrange(65536)])
        f["regno"] = rng.choice([0, 1023, rng.randrange(1024)])
        f["length"] = 1
        f["first_be"] = rng.randrange(16)
        f["last_be"] = 0
    else:
        f["first_be"] = rng.randrange(16)
        f["last_be"] = rng.randrange(16)
        bits = 62 if R.hdr_dw(name) == 4 else 30
        f["addr_dw"] = rng.choice([0, (1 << bits) - 1, rng.randrange(1 << bits), 1 << rng.randrange(bits)])
        f["ph"] = rng.randrange(4)
        f["length"] = rng.choice([1, 2, maxdw, rng.randrange(1, maxdw + 1)])
        if name in R.MEM and not R.has_data(name):
            f["length"] = rng.choice([f["length"], 1024, 1023, 512])
        if name in R.IO:
            f["length"] = 1
            f["last_be"] = 0
    return f


def build(Tlp, T, name, f, data):
    from cocotbext.pcie.core.tlp import TlpAt, TlpAttr, TlpTc, CplStatus
    from cocotbext.pcie.core.utils import PcieId
    t = Tlp()
    t.fmt_type = T[name]
    t.tc = TlpTc(f["tc"])
    t.ln, t.th, t.td, t.ep = bool(f["ln"]), bool(f["th"]), bool(f["td"]), bool(f["ep"])
    t.attr = TlpAttr(f["attr"])
    t.at = TlpAt(f["at"])
    t.length = f["length"]
    t.requester_id = PcieId.from_int(f["requester_id"])
    t.tag = f["tag"]
    if "completer_id" in f:
        t.completer_id = PcieId.from_int(f["completer_id"])
    if "status" in f:
        t.status = CplStatus(f["status"])
        t.bcm = bool(f["bcm"])
        t.byte_count = f["byte_count"]
        t.lower_address = f["lower_address"]
    if "first_be" in f:
        t.first_be, t.last_be = f["first_be"], f["last_be"]
    if "regno" in f:
        t.address = f["regno"] << 2
    if "addr_dw" in f:
        t.address = f["addr_dw"] << 2
        t.ph = f["ph"]
    t.data = bytearray(data)
    return t


# public attributes of a packet, as read back
def view(t):
    return dict(fmt=int(t.fmt), type=int(t.type), tc=int(t.tc), ln=bool(t.ln), th=bool(t.th), td=bool(t.td), ep=bool(t.ep),
                attr=int(t.attr), at=int(t.at), length=t.length, completer_id=int(t.completer_id), status=int(t.status),
                bcm=bool(t.bcm), byte_count=t.byte_count, requester_id=int(t.requester_id), tag=t.tag,
                first_be=t.first_be, last_be=t.last_be, lower_address=t.lower_address, address=t.address, ph=t.ph,
                data=bytes(t.data))


def expect_view(name, f, data):
    v = dict(fmt=R.TYPES[name][0], type=R.TYPES[name][1], completer_id=0, status=0, bcm=False, byte_count=0,
             first_be=0, last_be=0, lower_address=0, ph=0, address=0, data=bytes(data))
    for k, x in f.items():
        if k == "regno":
            v["address"] = x << 2
        elif k == "addr_dw":
            v["address"] = x << 2
        else:
            v[k] = x
    for k in ("ln", "th", "td", "ep", "bcm"):
        v[k] = bool(v[k])
    return v


def diff(a, b):
    return {k: (a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)}


def tlp(mon, rng, n=2000, maxdw=64):
    from cocotbext.pcie.core.tlp import Tlp, TlpType, TlpAttr, TlpTc, TlpAt, CplStatus
    from cocotbext.pcie.core.utils import PcieId
    T = {t.name: t for t in TlpType}
    names = sorted(R.TYPES)
    for k in range(n):
        name = names[k % len(names)]
        md = 1024 if rng.random() < 0.02 else maxdw
        f = gen_fields(rng, name, md)
        data = rng.randbytes(4 * f["length"]) if R.has_data(name) else b""
        t = build(Tlp, T, name, f, data)
        want = R.encode(name, f) + data
        got = bytes(t.pack())
        mon.sig(name, tuple(sorted(f.items())))
        mon.sample(f"{name} {f} -> {want[:16].hex()}", name, 1)
        mon.check(got == want, "encode", lambda: f"{name} {f}: packed {got[:16].hex()}.. ({len(got)} bytes), specification says {want[:16].hex()}.. ({len(want)} bytes)")
        mon.check(bytes(t) == want and bytes(t.pack_header()) == want[:4 * R.hdr_dw(name)], "encode",
                  lambda: f"{name} {f}: bytes()/header encoding differs from the specification")
        ev = expect_view(name, f, data)
        # decode the reference bytes, given as bytes or bytearray
        raw = want if k & 1 else bytearray(want)
        u = Tlp.unpack(raw)
        uv = view(u)
        mon.check(uv == ev, "decode", lambda: f"{name}: decoding {want[:16].hex()} gave (got, expected) {diff(uv, ev)}")
        mon.check(bytes(u.pack()) == want, "roundtrip", lambda: f"{name} {want[:16].hex()} re-encoded as {bytes(u.pack())[:16].hex()}")
        h = Tlp.unpack_header(want[:4 * R.hdr_dw(name)])
        mon.check(view(h) == dict(ev, data=b""), "decode", lambda: f"{name}: header-only decode differs {diff(view(h), dict(ev, data=b''))}")
        mon.check(u == t and t == u and not (u != t), "equality", lambda: f"{name}: decoded packet compares unequal to the original {diff(view(u), view(t))}")
        # sizes and classification
        hs = 4 * R.hdr_dw(name)
        mon.check((t.get_header_size(), t.get_header_size_dw(), t.get_payload_size(), t.get_payload_size_dw(), t.get_size(), t.get_size_dw(),
                   t.has_data()) == (hs, hs // 4, len(data), len(data) // 4, len(want), len(want) // 4, R.has_data(name)),
                  "sizes", lambda: f"{name} {f}: reported sizes disagree with the encoding")
        mon.check(t.get_data_credits() == -(-len(data) // 16), "sizes", lambda: f"{name} {len(data)} bytes: {t.get_data_credits()} data credits")
        cls = R.fc_class(name)
        mon.check(t.get_fc_type().name == cls and (t.is_posted(), t.is_nonposted(), t.is_completion()) == (cls == "P", cls == "NP", cls == "CPL"),
                  "class", lambda: f"{name}: classified {t.get_fc_type()} expected {cls}")
        # copies
        t.seq = rng.randrange(4096)
        c = Tlp(t)
        mon.check(view(c) == view(t) and c.seq == t.seq, "copy", lambda: f"{name}: copy differs {diff(view(c), view(t))}")
        mon.check(c == t, "equality", lambda: f"{name}: copy compares unequal")
        if data:
            c.data[rng.randrange(len(data))] ^= 0xff
            mon.check(bytes(t.data) == data, "copy", lambda: f"{name}: writing to a copy changed the original's data")
            mon.check(c != t, "equality", lambda: f"{name}: packets with different data compare equal")
        # equality notices every field
        fld = rng.choice(["tc", "ln", "th", "td", "ep", "attr", "at", "length", "completer_id", "status", "bcm", "byte_count",
                          "requester_id", "tag", "first_be", "last_be", "lower_address", "address", "ph", "seq"])
        c = Tlp(t)
        if fld in ("ln", "th", "td", "ep", "bcm"):
            setattr(c, fld, not getattr(c, fld))
        elif fld == "tc":
            c.tc = TlpTc(int(c.tc) ^ (1 << rng.randrange(3)))
        elif fld == "attr":
            c.attr = TlpAttr(int(c.attr) ^ (1 << rng.randrange(3)))
        elif fld == "at":
            c.at = TlpAt((int(c.at) + 1) % 3)
        elif fld == "status":
            c.status = CplStatus.CA if c.status != CplStatus.CA else CplStatus.UR
        elif fld in ("completer_id", "requester_id"):
            setattr(c, fld, PcieId.from_int(int(getattr(c, fld)) ^ (1 << rng.randrange(16))))
        elif fld == "address":
            c.address ^= 1 << rng.randrange(2, 32)
        else:
            w = dict(length=10, byte_count=12, tag=10, first_be=4, last_be=4, lower_address=7, ph=2, seq=12)[fld]
            setattr(c, fld, getattr(c, fld) ^ (1 << rng.randrange(w)))
        mon.check(not (c == t), "equality", lambda: f"{name}: packets that differ in {fld} compare equal")
        mon.count("tlp_cases")


def tlp_check(mon, rng, n=2000):
    """The validator accepts every well-formed packet and rejects each malformation."""
    import contextlib
    import io as _io
    from cocotbext.pcie.core.tlp import Tlp, TlpType
    T = {t.name: t for t in TlpType}
    names = sorted(set(R.TYPES) - R.ATOMIC)

    def ok(t):
        with contextlib.redirect_stdout(_io.StringIO()):
            return t.check()

    for k in range(n):
        name = names[k % len(names)]
        f = gen_fields(rng, name, 1024 if rng.random() < 0.05 else 32)
        if name in R.CPL and R.has_data(name):
            # well-formed: remaining byte count covers what this packet carries
            off = f["lower_address"] & 3
            carried = max(1, f["length"] * 4 - off - rng.randrange(4))
            if carried + off <= (f["length"] - 1) * 4:
                carried = (f["length"] - 1) * 4 - off + 1
            f["byte_count"] = min(4096, carried + rng.choice([0, 0, rng.randrange(1024)]))
        if name in R.MEM:
            # keep inside the 4 KiB page
            page = f["addr_dw"] & ~0x3ff
            f["addr_dw"] = page | rng.choice([rng.randrange(0, 1025 - f["length"]), 1024 - f["length"], 0])
        data = rng.randbytes(4 * f["length"]) if R.has_data(name) else b""
        t = build(Tlp, T, name, f, data)
        mon.sig("check", name, f["length"])
        mon.check(ok(t) is True, "validate-accept", lambda: f"validator rejects well-formed {name} {f}")
        mon.count("validator_accept")
        bad = Tlp(t)
        kind = None
        r = rng.random()
        if R.has_data(name) and r < 0.3:
            kind = "data length mismatch"
            if rng.random() < 0.5:
                bad.data = bad.data[:-4]
            else:
                bad.data = bad.data + b"\0\0\0\0"
        elif R.has_data(name) and r < 0.4 and name not in R.MEM:
            kind = "more than 1024 dwords"
            bad.data = bytearray(4 * 1025)
            bad.length = 1025
            bad.byte_count = 4096
        elif name in R.MEM:
            kind = "4K crossing"
            start = rng.randrange(1, 1024)
            ln = rng.randrange(1025 - start, 1025)
            bad.address = (bad.address & ~0xfff) | start * 4
            bad.length = ln
            if R.has_data(name):
                bad.data = bytearray(4 * ln)
        elif name in R.CFG or name in R.IO:
            if r < 0.65:
                kind = "length other than one dword"
                bad.length = rng.choice([2, 3, 1024])
                if R.has_data(name):
                    bad.data = bytearray(4 * bad.length)
            else:
                kind = "last byte enables set"
                bad.last_be = rng.randrange(1, 16)
        elif name in ("CPL_DATA", "CPL_LOCKED_DATA"):
            if bad.length >= 3:
                kind = "byte count too small"
                bad.byte_count = rng.randrange(1, max(2, bad.length * 4 - 3 - (bad.lower_address & 3) - 0))
                if bad.byte_count + (bad.lower_address & 3) + 3 >= bad.length * 4:
                    kind = None
        else:
            kind = "reserved length set"
            bad.length = rng.randrange(1, 1024)
        if kind:
            mon.check(ok(bad) is False, "validate-reject", lambda: f"validator accepts {name} with {kind}: {bad!r}"[:600])
            mon.count("validator_reject")
            mon.sample(f"{name}: {kind}", kind, 1)


def pcie_id(mon, rng):
    from cocotbext.pcie.core.utils import PcieId
    for v in range(65536):
        p = PcieId.from_int(v)
        mon.check((p.bus, p.device, p.function) == (v >> 8, (v >> 3) & 31, v & 7) and int(p) == v, "id", f"id {v:#x} -> {p!r} -> {int(p):#x}")
    mon.count("ids", 65536)
    for _ in range(500):
        b, d, f = rng.randrange(256), rng.randrange(32), rng.randrange(8)
        mon.check(PcieId(PcieId(b, d, f)) == PcieId(b, d, f) == PcieId((b, d, f)), "id", "copy of id differs")
        k = rng.randrange(3)
        bad = [b, d, f]
        bad[k] = rng.choice([-1, [256, 32, 8][k], [256, 32, 8][k] + rng.randrange(1000)])
        try:
            PcieId(*bad)
            mon.violate("id", f"PcieId{tuple(bad)} accepted")
        except ValueError:
            mon.ev()
    mon.sig("ids")


def dllp(mon, rng, n=3000):
    from cocotbext.pcie.core.dllp import Dllp, DllpType, FcScale
    names = sorted(R.DLLP_TYPES)

    def view(d):
        return dict(type=int(d.type), seq=d.seq, vc=d.vc, hdr_scale=int(d.hdr_scale), hdr_fc=d.hdr_fc, data_scale=int(d.data_scale),
                    data_fc=d.data_fc, feature_support=d.feature_support, feature_ack=bool(d.feature_ack))

    fcn = {"P", "NP", "CPL"}
    for k in range(n):
        name = names[k % len(names)]
        f = {}
        d = Dllp()
        d.type = DllpType(R.DLLP_TYPES[name])
        if name in ("ACK", "NAK"):
            f["seq"] = d.seq = rng.choice([0, 0xfff, 0x800, rng.randrange(4096)])
            if rng.random() < 0.5:
                d = Dllp.create_ack(f["seq"]) if name == "ACK" else Dllp.create_nak(f["seq"])
        elif name == "DATA_LINK_FEATURE":
            f["feature_support"] = d.feature_support = rng.choice([0, 0x7fffff, rng.randrange(1 << 23)])
            f["feature_ack"] = rng.randrange(2)
            d.feature_ack = bool(f["feature_ack"])
        elif "_FC" in name:
            f["vc"] = d.vc = rng.randrange(8)
            f["hdr_scale"] = rng.randrange(4)
            d.hdr_scale = FcScale(f["hdr_scale"])
            f["data_scale"] = rng.randrange(4)
            d.data_scale = FcScale(f["data_scale"])
            f["hdr_fc"] = d.hdr_fc = rng.choice([0, 255, 128, rng.randrange(256)])
            f["data_fc"] = d.data_fc = rng.choice([0, 4095, 2048, rng.randrange(4096)])
            mon.check(d.get_fc_type().name == name.rsplit("_", 1)[1], "dllp-class", f"{name}: credit type {d.get_fc_type()}")
        want = R.encode_dllp(name, f)
        mon.sig(name, tuple(f.items()))
        mon.sample(f"{name} {f} -> {want.hex()}", name, 1)
        got = bytes(d.pack())
        mon.check(got == want and bytes(d) == want, "dllp-encode", lambda: f"{name} {f}: packed {got.hex()} expected {want.hex()}")
        full = want + R.crc16_dllp(want)
        mon.check(bytes(d.pack_crc()) == full, "dllp-crc", lambda: f"{name} {f}: with CRC {bytes(d.pack_crc()).hex()} expected {full.hex()}")
        for u in (Dllp.unpack(want), Dllp.unpack_crc(full)):
            mon.check(view(u) == view(d) and u == d, "dllp-decode", lambda: f"{name}: {want.hex()} decoded as {u!r}, expected {d!r}")
            mon.check(bytes(u.pack()) == want, "dllp-decode", lambda: f"{name}: round trip of {want.hex()} gives {u.pack().hex()}")
        mon.check((d.get_size(), d.get_wire_size()) == (6, 8), "dllp-size", "DLLP size")
        c = Dllp(d)
        mon.check(view(c) == view(d) and c == d, "dllp-copy", lambda: f"copy of {d!r} is {c!r}")
        fld = rng.choice(["seq", "vc", "hdr_fc", "data_fc", "feature_support"])
        setattr(c, fld, getattr(c, fld) ^ 1)
        mon.check(c != d, "dllp-equality", lambda: f"DLLPs that differ in {fld} compare equal")
        c = Dllp(d)
        fld = rng.choice(["hdr_scale", "data_scale", "feature_ack", "type"])
        if fld == "feature_ack":
            c.feature_ack = not c.feature_ack
        elif fld == "type":
            c.type = DllpType.VEND
        else:
            setattr(c, fld, FcScale((int(getattr(c, fld)) + 1) % 4))
        mon.check(c != d, "dllp-equality", lambda: f"DLLPs that differ in {fld} compare equal")
        # corruption: every single-bit, a sample of double-bit, every burst length up to 16
        full_i = int.from_bytes(full, "big")
        masks = [1 << i for i in range(48)]
        for _ in range(24):
            i, j = rng.sample(range(48), 2)
            masks.append((1 << i) | (1 << j))
        for blen in range(2, 17):
            s = rng.randrange(0, 48 - blen + 1)
            body = (1 << (blen - 1)) | 1 | (rng.randrange(1 << blen))
            # bursts are contiguous in transmission order (lsb of each byte first)
            m = 0
            for b in range(blen):
                if (body >> b) & 1:
                    pos = s + b
                    m |= 1 << ((5 - pos // 8) * 8 + pos % 8)
            masks.append(m)
        for m in masks:
            bad = (full_i ^ m).to_bytes(6, "big")
            try:
                Dllp.unpack_crc(bad)
                mon.violate("dllp-corruption", f"{name}: corrupted frame {bad.hex()} (was {full.hex()}) accepted")
            except Exception:
                mon.ev()
            mon.count("corrupted")
        for bad in (full[:5], full + b"\0", full[:4], b""):
            try:
                Dllp.unpack_crc(bad)
                mon.violate("dllp-length", f"frame of {len(bad)} bytes accepted")
            except Exception:
                mon.ev()
        mon.count("dllp_cases")


# ---------------------------------------------------------------------------
# hard IP frames

RQ_NAMES = ["MEM_READ", "MEM_READ_64", "MEM_READ_LOCKED", "MEM_READ_LOCKED_64", "MEM_WRITE", "MEM_WRITE_64", "IO_READ", "IO_WRITE",
            "FETCH_ADD", "FETCH_ADD_64", "SWAP", "SWAP_64", "CAS", "CAS_64"]
REQ_TYPE = {"MEM_READ": 0, "MEM_WRITE": 1, "IO_READ": 2, "IO_WRITE": 3, "FETCH_ADD": 4, "SWAP": 5, "CAS": 6, "MEM_READ_LOCKED": 7,
            "CFG_READ_0": 8, "CFG_READ_1": 9, "CFG_WRITE_0": 10, "CFG_WRITE_1": 11}
CPL_NAMES = ["CPL", "CPL_DATA", "CPL_LOCKED", "CPL_LOCKED_DATA"]


def frame_view(p):
    return dict(data=list(p.data), byte_en=list(p.byte_en), parity=list(p.parity), first_be=p.first_be, last_be=p.last_be, discontinue=bool(p.discontinue), seq_num=p.seq_num)


def us_view(t):
    v = view(t)
    v.update(bar_id=t.bar_id, bar_aperture=t.bar_aperture, completer_id_enable=bool(t.completer_id_enable), requester_id_enable=bool(t.requester_id_enable),
             discontinue=bool(t.discontinue), seq_num=t.seq_num, error_code=int(t.error_code), request_completed=bool(t.request_completed))
    return v


def us(mon, rng, n=3000, maxdw=48):
    """UltraScale descriptors: packing, unpacking, parity, byte enables, copies"""
    from cocotbext.pcie.core.tlp import Tlp, TlpType
    from cocotbext.pcie.xilinx.us.interface import UsPcieFrame
    from cocotbext.pcie.xilinx.us.tlp import ErrorCode, Tlp_us
    from vlib.hip import cc_desc, dwords, lane_be, rc_be, rq_desc
    from vlib.streams import odd_parity
    T = {t.name: t for t in TlpType}
    ifs = {"cq": RQ_NAMES, "cc": CPL_NAMES, "rq": RQ_NAMES + sorted(R.CFG), "rc": CPL_NAMES}
    cases = [(i, nm) for i, names in ifs.items() for nm in names]
    for k in range(n):
        ifc, name = cases[k % len(cases)]
        f = gen_fields(rng, name, 1024 if rng.random() < 0.02 else maxdw)
        f.update(ln=0, th=0, td=0, tag=rng.choice([0, 255, rng.randrange(256)]))
        if "ph" in f:
            f["ph"] = 0
        if name in R.CPL:
            f["bcm"] = 0
            if f["length"]:
                # the remaining bytes reach into the last dword
                low = (f["length"] - 1) * 4 - (f["lower_address"] & 3) + 1
                f["byte_count"] = rng.choice([max(1, low), max(1, low) + rng.randrange(4), max(1, low) + rng.randrange(200), 4096])
                f["byte_count"] = min(max(1, f["byte_count"]), 4096)
        elif "addr_dw" in f and R.hdr_dw(name) == 4:
            f["addr_dw"] |= 1 << rng.randrange(30, 62)
        x = dict(bar_id=0, bar_aperture=0, completer_id_enable=False, requester_id_enable=False, discontinue=rng.random() < 0.1, seq_num=0, error_code=0, request_completed=False)
        if ifc == "cq":
            f["completer_id"] = rng.randrange(8)
            f["ep"] = 0
            x.update(bar_id=rng.randrange(8), bar_aperture=rng.randrange(64))
        elif ifc == "cc":
            x["completer_id_enable"] = rng.random() < 0.5
        elif ifc == "rq":
            f.setdefault("completer_id", rng.choice([0, 0xffff, rng.randrange(65536)]))
            if name in R.CFG:
                f["at"] = 0
            x.update(requester_id_enable=rng.random() < 0.5, seq_num=rng.randrange(64))
        else:
            f["lower_address"] = (f["lower_address"] & 3) | rng.choice([0, 0xffc, rng.randrange(1024) << 2])
            x.update(error_code=rng.choice([int(e) for e in ErrorCode]), request_completed=rng.random() < 0.5)
            f["at"] = 0
        data = rng.randbytes(4 * f["length"]) if R.has_data(name) else b""
        t = build(Tlp_us, T, name, f, data)
        for a, v in x.items():
            setattr(t, a, ErrorCode(v) if a == "error_code" else v)
        # what the product guides say
        pay = dwords(data)
        addr = f.get("addr_dw", f.get("regno", 0)) << 2
        if ifc == "cq":
            desc = [addr & 0xffffffff | f["at"], addr >> 32, f["length"] | REQ_TYPE[name.removesuffix("_64")] << 11 | f["requester_id"] << 16,
                    f["tag"] | f["completer_id"] << 8 | x["bar_id"] << 16 | x["bar_aperture"] << 19 | f["tc"] << 25 | f["attr"] << 28]
            be = [0] * 4 + lane_be(len(pay), f["first_be"], f["last_be"])
        elif ifc == "rq":
            desc = rq_desc(dict(addr=addr, at=f["at"], length=f["length"], rt=REQ_TYPE[name.removesuffix("_64")], ep=f["ep"], rid=f["requester_id"], tag=f["tag"], cid=f["completer_id"],
                                rid_en=x["requester_id_enable"], tc=f["tc"], attr=f["attr"]))
            be = None
        elif ifc == "cc":
            desc = cc_desc(dict(lower=f["lower_address"], at=f["at"], bc=f["byte_count"], locked="LOCKED" in name, length=f["length"], status=f["status"], ep=f["ep"], rid=f["requester_id"],
                                tag=f["tag"], cid=f["completer_id"], cid_en=x["completer_id_enable"], tc=f["tc"], attr=f["attr"]))
            be = None
        else:
            desc = [f["lower_address"] | x["error_code"] << 12 | f["byte_count"] << 16 | ("LOCKED" in name) << 29 | x["request_completed"] << 30,
                    f["length"] | f["status"] << 11 | f["ep"] << 14 | f["requester_id"] << 16, f["tag"] | f["completer_id"] << 8 | f["tc"] << 25 | f["attr"] << 28]
            be = [0] * 3 + rc_be(f["lower_address"], f["byte_count"], len(pay))
        want = dict(data=desc + pay, byte_en=be or [], parity=[odd_parity(d, 4) for d in desc + pay], first_be=f.get("first_be", 0) if ifc in ("cq", "rq") else 0,
                    last_be=f.get("last_be", 0) if ifc in ("cq", "rq") else 0, discontinue=x["discontinue"], seq_num=x["seq_num"])
        mon.sig("us", ifc, name, tuple(desc))
        mon.sample(f"{ifc} {name} {f} {x}", f"{ifc} {name}", 1)
        p = getattr(t, f"pack_us_{ifc}")()
        got = frame_view(p)
        if be is None:
            got["byte_en"] = []
        mon.check(got == want, "us-encode", lambda: f"{ifc} {name} {f} {x}: (got, expected) {diff(got, want)}"[:900])
        ev = dict(expect_view(name, f, data), **x)
        unpack = getattr(Tlp_us, f"unpack_us_{ifc}")
        # decode the reference frame
        q = UsPcieFrame()
        for a, v in want.items():
            setattr(q, a, list(v) if isinstance(v, list) else v)
        par = rng.random() < 0.5
        u = unpack(q, par)
        mon.check(us_view(u) == ev, "us-decode", lambda: f"{ifc} {name} {[hex(d) for d in desc]}: (got, expected) {diff(us_view(u), ev)}"[:900])
        mon.check(frame_view(q) == want, "us-decode", lambda: f"{ifc} {name}: unpacking changed the frame")
        # copies
        c = Tlp_us(t)
        mon.check(us_view(c) == us_view(t), "us-copy", lambda: f"{ifc} {name}: copy differs {diff(us_view(c), us_view(t))}")
        b = Tlp(t)
        mon.check(view(b) == view(t), "us-copy", lambda: f"{ifc} {name}: as a plain packet {diff(view(b), view(t))}")
        b = Tlp_us(build(Tlp, T, name, f, data))
        mon.check(view(b) == view(t), "us-copy", lambda: f"{ifc} {name}: from a plain packet {diff(view(b), view(t))}")
        c = UsPcieFrame(p)
        mon.check(frame_view(c) == frame_view(p) and c == p, "us-copy", lambda: f"{ifc} {name}: frame copy differs {diff(frame_view(c), frame_view(p))}")
        i, bit = rng.randrange(len(c.data)), rng.randrange(32)
        c.data[i] ^= 1 << bit
        mon.check(p.data[i] == want["data"][i] and c != p, "us-copy", lambda: f"{ifc} {name}: frame copies share their data, or compare equal with different data")
        # parity notices a flipped bit
        mon.check(p.check_parity() and not c.check_parity(), "us-parity", lambda: f"{ifc} {name}: parity check of dword {i} with bit {bit} flipped")
        c = UsPcieFrame(q)
        c.data[-1] ^= 1 << bit
        c.parity[-1] ^= 0
        if pay:
            try:
                unpack(c, True)
                mon.violate("us-parity", f"{ifc} {name}: frame with a flipped bit unpacked with parity check")
            except AssertionError:
                mon.ev()
        if be and pay:
            c = UsPcieFrame(q)
            c.byte_en[rng.randrange(len(c.byte_en))] ^= 1 << rng.randrange(4)
            try:
                unpack(c)
                mon.violate("us-be", f"{ifc} {name}: frame with inconsistent byte enables {c.byte_en} unpacked")
            except AssertionError:
                mon.ev()
        # packets of other kinds are refused
        nm = rng.choice([z for z in R.TYPES if z not in ifs[ifc]])
        b = Tlp_us(t)
        b.fmt_type = T[nm]
        try:
            getattr(b, f"pack_us_{ifc}")()
            mon.violate("us-encode", f"{nm} packed for the {ifc} interface")
        except Exception as e:
            mon.check(not isinstance(e, (AttributeError, KeyError)), "us-encode", f"{nm} on {ifc}: {e!r}")
        mon.count("us_frames")


def intel_frames(mon, rng, n=3000, maxdw=48):
    """Intel frames: header and payload words, parity, copies"""
    from cocotbext.pcie.core.tlp import Tlp, TlpType
    from cocotbext.pcie.intel.ptile.interface import PTilePcieFrame
    from cocotbext.pcie.intel.s10.interface import S10PcieFrame
    from vlib.hip import dwords
    T = {t.name: t for t in TlpType}
    names = sorted(R.TYPES)
    attrs = {S10PcieFrame: ["data", "parity", "func_num", "vf_num", "bar_range", "err"],
             PTilePcieFrame: ["tlp_prfx", "hdr", "data", "tlp_prfx_par", "hdr_par", "parity", "func_num", "vf_num", "bar_range", "tlp_abort", "err"]}
    for k in range(n):
        name = names[k % len(names)]
        f = gen_fields(rng, name, 1024 if rng.random() < 0.02 else maxdw)
        data = rng.randbytes(4 * f["length"]) if R.has_data(name) else b""
        t = build(Tlp, T, name, f, data)
        hdr = R.encode(name, f)
        ev = expect_view(name, f, data)
        mon.sig("intel", name, tuple(sorted(f.items())))
        for cls in (S10PcieFrame, PTilePcieFrame):
            what = f"{cls.__name__} {name}"
            p = cls.from_tlp(t) if k & 1 else cls(t)
            pay = dwords(data)
            if cls is S10PcieFrame:
                want = [int.from_bytes(hdr[i:i + 4], "big") for i in range(0, len(hdr), 4)] + pay
                mon.check(p.data == want, "intel-encode", lambda: f"{what} {f}: words {[hex(x) for x in p.data[:5]]}, expected {[hex(x) for x in want[:5]]} ({len(p.data)}, {len(want)} words)")
            else:
                mon.check(p.hdr == int.from_bytes(hdr.ljust(16, b"\0"), "big") and p.data == pay and p.tlp_prfx == 0, "intel-encode", lambda: f"{what} {f}: header {p.hdr:#034x}, expected {hdr.hex()}; {len(p.data)} words of payload, expected {len(pay)}")
            # a frame built by hand
            q = cls()
            if cls is S10PcieFrame:
                q.data = list(want)
            else:
                q.hdr, q.data = int.from_bytes(hdr.ljust(16, b"\0"), "big"), list(pay)
                q.tlp_prfx = rng.getrandbits(32)
            q.func_num, q.vf_num, q.bar_range, q.err = rng.randrange(8), rng.choice([None, 3]), rng.randrange(8), rng.randrange(2)
            u = q.to_tlp()
            mon.check(view(u) == ev, "intel-decode", lambda: f"{what} {hdr.hex()}: (got, expected) {diff(view(u), ev)}"[:900])
            q.update_parity()
            mon.check(q.check_parity() and p.check_parity(), "intel-parity", lambda: f"{what}: fresh parity fails its check")
            c = cls(q)
            a, b = [{x: getattr(z, x) for x in attrs[cls]} for z in (c, q)]
            mon.check(a == b and c == q, "intel-copy", lambda: f"{what}: copy differs {diff(a, b)}")
            spots = ["data"] * bool(c.data) + (["hdr", "tlp_prfx"] if cls is PTilePcieFrame else [])
            if spots:
                s, bit = rng.choice(spots), rng.randrange(32)
                if s == "data":
                    i = rng.randrange(len(c.data))
                    c.data[i] ^= 1 << bit
                else:
                    setattr(c, s, getattr(c, s) ^ 1 << bit)
                mon.check(not c.check_parity() and q.check_parity() and c != q, "intel-parity", lambda: f"{what}: bit {bit} of {s} of a copy flipped: parity check {c.check_parity()}, original {q.check_parity()}")
            # equality notices every attribute
            c = cls(q)
            s = rng.choice(attrs[cls])
            v = getattr(c, s)
            setattr(c, s, v + [0] if isinstance(v, list) else (v or 0) + 1)
            mon.check(not c == q, "intel-copy", lambda: f"{what}: frames that differ in {s} compare equal")
            mon.count("intel_frames")
