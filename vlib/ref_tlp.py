"""Reference TLP / DLLP layouts, written from the PCIe base specification as a
table of (dword, high bit, low bit) positions; shares no code with the tree."""

# name -> (fmt, type)
TYPES = {
    "MEM_READ": (0, 0x00), "MEM_READ_64": (1, 0x00),
    "MEM_READ_LOCKED": (0, 0x01), "MEM_READ_LOCKED_64": (1, 0x01),
    "MEM_WRITE": (2, 0x00), "MEM_WRITE_64": (3, 0x00),
    "IO_READ": (0, 0x02), "IO_WRITE": (2, 0x02),
    "CFG_READ_0": (0, 0x04), "CFG_WRITE_0": (2, 0x04),
    "CFG_READ_1": (0, 0x05), "CFG_WRITE_1": (2, 0x05),
    "CPL": (0, 0x0A), "CPL_DATA": (2, 0x0A),
    "CPL_LOCKED": (0, 0x0B), "CPL_LOCKED_DATA": (2, 0x0B),
    "FETCH_ADD": (2, 0x0C), "FETCH_ADD_64": (3, 0x0C),
    "SWAP": (2, 0x0D), "SWAP_64": (3, 0x0D),
    "CAS": (2, 0x0E), "CAS_64": (3, 0x0E),
}
MSG_TYPES = {}
for _i, _n in enumerate(["TO_RC", "ADDR", "ID", "BCAST", "LOCAL", "GATHER"]):
    MSG_TYPES["MSG_" + _n] = (1, 0x10 + _i)
    MSG_TYPES["MSG_DATA_" + _n] = (3, 0x10 + _i)

CPL = {"CPL", "CPL_DATA", "CPL_LOCKED", "CPL_LOCKED_DATA"}
CFG = {"CFG_READ_0", "CFG_WRITE_0", "CFG_READ_1", "CFG_WRITE_1"}
IO = {"IO_READ", "IO_WRITE"}
MEM = {n for n in TYPES if n.startswith("MEM_")}
ATOMIC = {n for n in TYPES if n.split("_")[0] in ("FETCH", "SWAP", "CAS")}
POSTED = {"MEM_WRITE", "MEM_WRITE_64"} | set(MSG_TYPES)
LEN0_RESERVED = {"CPL", "CPL_LOCKED"}

BY_FMT_TYPE = {v: k for k, v in list(TYPES.items()) + list(MSG_TYPES.items())}


def fc_class(name):
    return "P" if name in POSTED else "CPL" if name in CPL else "NP"


def has_data(name):
    return (TYPES.get(name) or MSG_TYPES[name])[0] & 2 != 0


def hdr_dw(name):
    return 4 if (TYPES.get(name) or MSG_TYPES[name])[0] & 1 else 3


def layout(name):
    """field -> list of (dword index, msb, lsb), most significant piece first"""
    f = {
        "fmt": [(0, 31, 29)], "type": [(0, 28, 24)],
        "tc": [(0, 22, 20)], "ln": [(0, 17, 17)], "th": [(0, 16, 16)],
        "td": [(0, 15, 15)], "ep": [(0, 14, 14)],
        "attr": [(0, 18, 18), (0, 13, 12)], "at": [(0, 11, 10)], "length": [(0, 9, 0)],
    }
    if name in CPL:
        f.update({
            "completer_id": [(1, 31, 16)], "status": [(1, 15, 13)], "bcm": [(1, 12, 12)], "byte_count": [(1, 11, 0)],
            "requester_id": [(2, 31, 16)], "tag": [(0, 23, 23), (0, 19, 19), (2, 15, 8)], "lower_address": [(2, 6, 0)],
        })
    else:
        f.update({
            "requester_id": [(1, 31, 16)], "tag": [(0, 23, 23), (0, 19, 19), (1, 15, 8)],
            "last_be": [(1, 7, 4)], "first_be": [(1, 3, 0)],
        })
        if name in CFG:
            f.update({"completer_id": [(2, 31, 16)], "regno": [(2, 11, 2)]})
        elif hdr_dw(name) == 4:
            f.update({"addr_dw": [(2, 31, 0), (3, 31, 2)], "ph": [(3, 1, 0)]})
        else:
            f.update({"addr_dw": [(2, 31, 2)], "ph": [(2, 1, 0)]})
    return f


def encode(name, fields):
    dws = [0] * hdr_dw(name)
    fields = dict(fields)
    fields["fmt"], fields["type"] = TYPES[name]
    for k, pieces in layout(name).items():
        v = fields.get(k, 0)
        total = sum(m - l + 1 for _, m, l in pieces)
        v &= (1 << total) - 1     # 1024 dwords and 4096 bytes are encoded as zero
        for d, m, l in pieces:
            w = m - l + 1
            total -= w
            dws[d] |= ((v >> total) & ((1 << w) - 1)) << l
    return b"".join(d.to_bytes(4, "big") for d in dws)


def decode(pkt):
    dw0 = int.from_bytes(pkt[0:4], "big")
    name = BY_FMT_TYPE[(dw0 >> 29, (dw0 >> 24) & 0x1f)]
    dws = [int.from_bytes(pkt[4 * i:4 * i + 4], "big") for i in range(hdr_dw(name))]
    res = {}
    for k, pieces in layout(name).items():
        v = 0
        for d, m, l in pieces:
            w = m - l + 1
            v = (v << w) | ((dws[d] >> l) & ((1 << w) - 1))
        res[k] = v
    if res["length"] == 0 and name not in LEN0_RESERVED:
        res["length"] = 1024
    if name in CPL and res["byte_count"] == 0:
        res["byte_count"] = 4096
    return name, res


def crc16_dllp(data):
    """Serial LFSR of the base specification: generator 100Bh, all-ones seed,
    each byte least significant bit first, remainder complemented and sent
    with bit 15 of the remainder as bit 0 of the first CRC byte."""
    reg = 0xffff
    for b in data:
        for i in range(8):
            fb = ((reg >> 15) & 1) ^ ((b >> i) & 1)
            reg = (reg << 1) & 0xffff
            if fb:
                reg ^= 0x100B
    reg ^= 0xffff
    out = bytearray(2)
    for i in range(16):
        if (reg >> (15 - i)) & 1:
            out[i // 8] |= 1 << (i % 8)
    return bytes(out)


DLLP_TYPES = {
    "ACK": 0x00, "NAK": 0x10, "PM_ENTER_L1": 0x20, "PM_ENTER_L23": 0x21, "PM_ACT_ST_REQ_L1": 0x23, "PM_REQ_ACK": 0x24,
    "NOP": 0x31, "DATA_LINK_FEATURE": 0x02,
    "INIT_FC1_P": 0x40, "INIT_FC1_NP": 0x50, "INIT_FC1_CPL": 0x60,
    "INIT_FC2_P": 0xC0, "INIT_FC2_NP": 0xD0, "INIT_FC2_CPL": 0xE0,
    "UPDATE_FC_P": 0x80, "UPDATE_FC_NP": 0x90, "UPDATE_FC_CPL": 0xA0,
}


def encode_dllp(name, f):
    b = DLLP_TYPES[name] << 24
    if name in ("ACK", "NAK"):
        b |= f["seq"]
    elif name == "DATA_LINK_FEATURE":
        b |= (f["feature_ack"] << 23) | f["feature_support"]
    elif "_FC" in name:
        b |= (f["vc"] << 24) | (f["hdr_scale"] << 22) | (f["hdr_fc"] << 14) | (f["data_scale"] << 12) | f["data_fc"]
    return b.to_bytes(4, "big")


def be_offsets(nbytes_addr, length):
    """(dword address, dwords, first be, last be) of a byte range, from first principles"""
    if length == 0:
        return nbytes_addr & ~3, 1, 0, 0
    first = nbytes_addr & ~3
    last = (nbytes_addr + length - 1) & ~3
    n = (last - first) // 4 + 1
    be = [0] * n
    fb = sum(1 << i for i in range(4) if nbytes_addr <= first + i < nbytes_addr + length)
    lb = sum(1 << i for i in range(4) if nbytes_addr <= last + i < nbytes_addr + length) if n > 1 else 0
    return first, n, fb, lb
