"""Immutable picture of a packet as it was at one point of its journey."""
from vlib import ref_tlp as R

CLS = {}
for _n in list(R.TYPES) + list(R.MSG_TYPES):
    CLS[(R.TYPES.get(_n) or R.MSG_TYPES[_n])] = (_n, R.fc_class(_n))


class Snap:
    __slots__ = ("name", "cls", "fmt", "type", "tc", "ln", "th", "td", "ep", "attr", "at", "length", "completer_id", "status", "bcm",
                 "byte_count", "requester_id", "tag", "first_be", "last_be", "lower_address", "address", "ph", "data", "seq", "time", "uid")

    CONTENT = ("tc", "ln", "th", "td", "ep", "attr", "at", "length", "completer_id", "status", "bcm",
               "byte_count", "requester_id", "tag", "first_be", "last_be", "lower_address", "address", "ph", "data")

    def __init__(self, t, time=0):
        self.fmt = int(t.fmt)
        self.type = int(t.type)
        self.name, self.cls = CLS[(self.fmt, self.type)]
        self.tc = int(t.tc)
        self.ln = bool(t.ln)
        self.th = bool(t.th)
        self.td = bool(t.td)
        self.ep = bool(t.ep)
        self.attr = int(t.attr)
        self.at = int(t.at)
        self.length = t.length
        self.completer_id = int(t.completer_id)
        self.status = int(t.status)
        self.bcm = bool(t.bcm)
        self.byte_count = t.byte_count
        self.requester_id = int(t.requester_id)
        self.tag = t.tag
        self.first_be = t.first_be
        self.last_be = t.last_be
        self.lower_address = t.lower_address
        self.address = t.address
        self.ph = t.ph
        self.data = bytes(t.data)
        self.seq = t.seq
        self.time = time

    def content(self, with_type=True):
        c = tuple(getattr(self, k) for k in self.CONTENT)
        return (self.name,) + c if with_type else c

    def diff(self, o):
        d = {k: (getattr(self, k), getattr(o, k)) for k in ("name",) + self.CONTENT if getattr(self, k) != getattr(o, k)}
        return {k: v if k != "data" else ("..", "..") for k, v in d.items()}

    def dcred(self):
        return -(-len(self.data) // 16)

    def hdr_dw(self):
        return R.hdr_dw(self.name)

    def wire(self):
        return 4 * self.hdr_dw() + len(self.data) + 8

    def __repr__(self):
        def pid(v):
            return f"{v >> 8:02x}:{(v >> 3) & 31:02x}.{v & 7}"
        if self.cls == "CPL":
            return (f"<{self.name} req={pid(self.requester_id)} tag={self.tag} cpl={pid(self.completer_id)} st={self.status} bc={self.byte_count} "
                    f"la={self.lower_address:#x} len={self.length} tc={self.tc} attr={self.attr} data={self.data[:8].hex()}..[{len(self.data)}] seq={self.seq}>")
        return (f"<{self.name} req={pid(self.requester_id)} tag={self.tag} dst={pid(self.completer_id)} addr={self.address:#x} len={self.length} "
                f"be={self.first_be:#x}/{self.last_be:#x} tc={self.tc} attr={self.attr} data={self.data[:8].hex()}..[{len(self.data)}] seq={self.seq}>")
