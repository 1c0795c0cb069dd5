"""Completer side: raw requests of every legal shape sent to the root complex
and to endpoints, each judged by the completions that come back."""
import random

import cocotb
from cocotb.triggers import Event, Timer
from cocotb.utils import get_sim_time

from cocotbext.axi import Region
from cocotbext.pcie.core import MemoryEndpoint, Endpoint
from cocotbext.pcie.core.tlp import Tlp, TlpAttr, TlpTc, TlpType
from cocotbext.pcie.core.utils import PcieId

from vlib.links import CreditMonitor
from vlib.route import RouteMonitor
from vlib.snap import Snap
from vlib.topo import Topo


class Req:
    def __init__(self, tlp, want, data=None, target=None):
        self.s = Snap(tlp, get_sim_time("ns"))
        self.want = want        # 'data' | 'cpl' | 'ur' | 'ca'
        self.data = data        # expected bytes of the dwords requested
        self.target = target    # dict(mps, rcb, every, cid)
        self.cpls = []
        self.done = False
        self.pos = None

    def __repr__(self):
        return f"{self.s} (expecting {self.want} from {self.target['name'] if self.target else '?'})"


class Book:
    """Outstanding requests of one requester and the verdict on completions"""

    def __init__(self, mon, rid, tags):
        self.mon = mon
        self.rid = rid
        self.free = list(tags)
        self.out = {}
        self.wait = Event()
        self.all = []

    async def tag(self):
        while not self.free:
            self.wait.clear()
            await self.wait.wait()
        return self.free.pop(0)

    def add(self, req):
        self.out[req.s.tag] = req
        self.all.append(req)
        self.mon.maxi("outstanding", len(self.out))

    def completion(self, tlp):
        mon = self.mon
        c = Snap(tlp, get_sim_time("ns"))
        tlp.release_fc()
        mon.count("completions")
        r = self.out.get(c.tag)
        if not mon.check(r is not None, "unsolicited-completion", lambda: f"completion {c} answers no outstanding request of {self.rid}; earlier requests with this tag {[q for q in self.all if q.s.tag == c.tag]} {[q.cpls for q in self.all if q.s.tag == c.tag]}"):
            return
        r.cpls.append(c)
        s = r.s
        mon.check(c.requester_id == s.requester_id and c.tc == s.tc and c.attr == s.attr, "completion-echo", lambda: f"{c} for {r}: requester id, traffic class or attributes differ")
        mon.check(not (c.ep or c.td or c.th or c.bcm or c.ln), "completion-flags", lambda: f"{c} for {r}")
        fin = self.judge(r, c)
        if fin:
            del self.out[s.tag]
            r.done = True
            mon.count("answered_" + r.want)
            mon.sig(s.name, s.length, s.address & 0x7f, s.first_be, s.last_be, r.want, r.target and r.target["name"])
            mon.maxi("completions_per_read", len(r.cpls))

            # a tag is not reused until late duplicates would have shown
            async def later():
                await Timer(3, "us")
                self.free.append(s.tag)
                self.wait.set()
            cocotb.start_soon(later())

    def judge(self, r, c):
        """True when this completion ends the request"""
        mon = self.mon
        s = r.s
        t = r.target
        if r.want in ("ur", "ca", "none"):
            mon.check(c.status in ((1, 4) if r.want == "none" else (1,) if r.want == "ur" else (4,)) and c.name == "CPL" and not c.data, "completion-status", lambda: f"{c} for {r}")
            return True
        if not mon.check(c.status == 0, "completion-status", lambda: f"{c} for {r}"):
            return True
        if t.get("cid") is not None:
            mon.check(c.completer_id == t["cid"](), "completer-id", lambda: f"{c} for {r}: completer {c.completer_id:#x}, expected {t['cid']():#x}")
        if r.want == "cpl":
            mon.check(c.name == "CPL" and not c.data and c.byte_count == 4 and c.lower_address == 0, "write-completion", lambda: f"{c} for {r}")
            return True
        if not mon.check(c.name == "CPL_DATA" and len(c.data) == 4 * c.length and c.length > 0, "completion-data", lambda: f"{c} for {r}"):
            return True
        if s.name.startswith("IO") or s.name.startswith("CFG"):
            mon.check(c.length == 1 and c.byte_count == 4 and c.lower_address == 0, "read-completion", lambda: f"{c} for {r}")
            if r.data is not None:
                for i in range(4):
                    if s.first_be >> i & 1:
                        mon.check(c.data[i] == r.data[i], "read-data", lambda: f"{c} for {r}: byte {i} is {c.data[i]:#x}, expected {r.data[i]:#x}")
            return True
        # memory read
        be = s.last_be if s.length > 1 else s.first_be
        start = s.address + next((i for i in range(4) if s.first_be >> i & 1), 0)
        end = s.address + 4 * (s.length - 1) + (be.bit_length() if be else 1)
        pos = start if r.pos is None else r.pos
        mon.check(c.byte_count == end - pos, "byte-count", lambda: f"{c} for {r}: byte count {c.byte_count}, expected {end - pos}")
        mon.check(c.lower_address == pos & 0x7f, "lower-address", lambda: f"{c} for {r}: lower address {c.lower_address:#x}, expected {pos & 0x7f:#x}")
        mps = t["mps"]()
        mon.check(4 * c.length <= mps, "above-mps", lambda: f"{c} for {r}: {4 * c.length} bytes exceed {mps}")
        lo = pos & ~3
        hi = lo + 4 * c.length
        last = hi >= ((end + 3) & ~3)
        rcb = t["rcb"]()
        if not last:
            mon.check(hi % rcb == 0, "completion-boundary", lambda: f"{c} for {r}: ends at {hi:#x}, not on a {rcb} byte boundary")
        else:
            mon.check(hi == (end + 3) & ~3, "too-much-data", lambda: f"{c} for {r}: data up to {hi:#x}, request ends at {end:#x}")
        if t.get("every") and t["every"]():
            mon.check(hi - (lo & ~(rcb - 1)) <= rcb, "completion-boundary", lambda: f"{c} for {r}: crosses a {rcb} byte boundary although splitting at every one was asked for")
            mon.count("split_every_boundary")
        if r.data is not None:
            a = pos - s.address
            b = min(hi, end) - s.address
            mon.check(c.data[pos - lo:pos - lo + (b - a)] == r.data[a:b], "read-data", lambda: f"{c} for {r}: wrong data")
        r.pos = hi
        return last


class Prober(Endpoint):
    book = None

    async def upstream_recv(self, tlp):
        if self.book is not None and Snap(tlp).cls == "CPL":
            self.book.completion(tlp)
        else:
            await super().upstream_recv(tlp)


class Faulty(Region):
    async def _read(self, addr, length, **kw):
        raise RuntimeError("device error")

    async def _write(self, addr, data, **kw):
        raise RuntimeError("device error")

    async def read(self, addr, length, **kw):
        raise RuntimeError("device error")

    async def write(self, addr, data, **kw):
        raise RuntimeError("device error")


def mkreq(name, rid, tag, addr, length, fbe, lbe, tc=0, attr=0, data=None, dst=None):
    t = Tlp()
    t.fmt_type = getattr(TlpType, name)
    t.requester_id = PcieId.from_int(rid)
    t.tag = tag
    t.address = addr
    t.first_be, t.last_be = fbe, lbe
    t.tc, t.attr = TlpTc(tc), TlpAttr(attr)
    if dst is not None:
        t.completer_id = PcieId.from_int(dst)
    if data is not None:
        t.set_data(data)
    t.length = length
    return t


def rand_shape(r, room_dw):
    """(length, first_be, last_be) legal for a memory request of up to room_dw dwords"""
    n = min(room_dw, r.choice([1, 1, 1, 2, 2, 3, 4, 8, 16, 31, 32, 33, 63, 64, 65, 127, 128, 256, 1024, r.randrange(1, 1025), r.randrange(1, 70)]))
    if n == 1:
        return 1, r.choice([0, 0xf, 1, 2, 4, 8, 3, 6, 0xc, 7, 0xe, 5, 9, 0xa, 0xb, 0xd]), 0
    if n == 2 and r.random() < 0.3:
        return 2, r.choice(range(1, 16)), r.choice(range(1, 16))     # only legal on a quadword
    return n, r.choice([0xf, 0xf, 0xe, 0xc, 8]), r.choice([0xf, 0xf, 7, 3, 1])


def apply_be(img, off, length, fbe, lbe, data):
    be = [fbe] + [0xf] * (length - 2) + ([lbe] if length > 1 else [])
    for d in range(length):
        for i in range(4):
            if be[d] >> i & 1:
                img[off + 4 * d + i] = data[4 * d + i]


async def run(dut, mon, rng, topo="switch", fc="default", mps=0, ops=200, agents=8, rcb128=False, every=False, wide_tags=False, route=False, **kw):
    probers = []

    def factory():
        if not probers or rng.random() < 0.2:
            p = Prober()
            p.configure_bar(0, 4096)
            probers.append(p)
            return p
        return None

    t = Topo(mon, rng, topo, fc=fc, mps=mps, ep_factory=factory, max_mps_sup=rng.choice([mps, 5]))
    t.links.add(CreditMonitor(mon, t.expect_init))
    rc = t.rc
    rc.read_completion_boundary = rcb128
    rc.split_on_all_rcb = every
    await t.up()
    if route:
        await Timer(20, "us")
        rm = t.links.add(RouteMonitor(mon, t))
        rm.start()
    spaces = []     # (kind, addr, size, backing store, target dict)
    rct = dict(name="rc", mps=lambda: 128 << mps, rcb=lambda: 128 if rcb128 else 64, every=lambda: every, cid=lambda: 0)
    a, m = rc.alloc_region(1 << 16)
    spaces.append(["mem", a, 1 << 16, m, rct, None])
    a, m = rc.alloc_io_region(1 << 8)
    spaces.append(["io", a, 1 << 8, m, rct, None])
    # a region of the host whose device always fails
    bad = {"MEM": rc.mem_pool.alloc_region(1 << 12, Faulty).get_absolute_address(0),
           "IO": rc.io_pool.alloc_region(1 << 8, Faulty).get_absolute_address(0)}
    eps = [e for e in t.eps if e in t.pdev]
    for k, e in enumerate(eps):
        if e in probers:
            continue
        tg = dict(name=f"ep{k}", mps=lambda e=e: 128 << e.pcie_cap.max_payload_size, rcb=lambda: 128, cid=lambda e=e: int(e.pcie_id))
        for kind, addr, size, mm in t.windows(e):
            spaces.append(["io" if kind == "io" else "mem", addr, size, mm, tg, e])
    imgs = []
    wptr = []
    for sp in spaces:
        n = min(sp[2], 1 << 15)
        sp[3][:n] = rng.randbytes(n)
        imgs.append(bytearray(sp[3][:sp[2]]))
        wptr.append(n // 2)       # upper half of the filled part receives writes, once each
    limits = [min(sp[2], 1 << 15) for sp in spaces]
    books = {}
    users = []
    for p in probers:
        if p not in t.pdev:
            continue
        tags = list(range(256))
        rng.shuffle(tags)
        if wide_tags:
            tags = [x + 256 * rng.randrange(4) for x in tags]
        p.book = Book(mon, p.pcie_id, tags[:rng.choice([3, 32, 256])])
        users.append((p, p.book, int(p.pcie_id), p.upstream_send))
    # the root complex as a raw requester
    tags = list(range(32, 256))     # below: the root complex's own requests
    rng.shuffle(tags)
    rb = Book(mon, "rc", tags[:64])

    async def rc_rx(tlp):
        if Snap(tlp).cls == "CPL" and tlp.tag >= 32:
            rb.completion(tlp)
        else:
            await rc.downstream_recv(tlp)

    rc.upstream_bridge.upstream_tx_handler = rc_rx
    users.append((None, rb, 0, rc.send))
    win = []
    for lo, hi in [(0xc000_0000, 1 << 32), (0x8000_0000_0000_0000, 0x8000_1000_0000_0000)]:
        win.append((lo, hi))
    funcs = {int(e.pcie_id): e for e in eps}
    for sw in t.switches:
        for b in [sw.upstream_bridge] + list(sw.endpoints):
            funcs[int(b.pcie_id)] = b

    async def agent(seed, user):
        r = random.Random(seed)
        p, book, rid, send = user
        for k in range(max(1, ops // agents)):
            tag = await book.tag()
            x = r.random()
            tc, attr = r.randrange(8), r.choice([0, 0, 1, 2, 4, 7])
            if p is None and x < 0.15:
                # configuration requests
                y = r.random()
                if y < 0.6:
                    dst = r.choice(list(funcs))
                    e = funcs[dst]
                    if r.random() < 0.5:
                        reg = r.choice([0, 8, 0x10, 0x2c, 0x34, 0x100])
                        q = mkreq("CFG_READ_1", rid, tag, reg, 1, r.randrange(16), 0, 0, 0, None, dst)
                        want = None
                        if reg == 0:
                            want = (e.vendor_id | e.device_id << 16).to_bytes(4, "little")
                        req = Req(q, "data", want, dict(name=f"cfg", cid=lambda dst=dst: dst))
                    else:
                        q = mkreq("CFG_WRITE_1", rid, tag, 0x3c, 1, r.randrange(16), 0, 0, 0, r.randbytes(4), dst)
                        req = Req(q, "cpl", None, dict(name="cfg", cid=lambda dst=dst: dst))
                else:
                    # a function that does not exist
                    while True:
                        b = r.choice([r.choice(list(funcs)) >> 8, r.randrange(maxbus + 1, 256)])
                        dst = b << 8 | r.randrange(256)
                        if dst not in funcs and (b > maxbus or (dst & 7)):
                            break
                    nm = r.choice(["CFG_READ_1", "CFG_WRITE_1"])
                    q = mkreq(nm, rid, tag, 4 * r.randrange(1024), 1, 0xf, 0, 0, 0, bytes(4) if "WRITE" in nm else None, dst)
                    req = Req(q, "ur", None, dict(name="cfg-none"))
                    if b <= maxbus and dst & 0xf8:
                        mon.count("cfg_absent_device")
                mon.count("cfg_requests")
            elif x < 0.25:
                # nothing decodes this address
                kind = r.choice(["MEM_READ", "MEM_READ", "IO_READ", "IO_WRITE", "MEM_WRITE"])
                if kind.startswith("MEM"):
                    while True:
                        lo, hi = r.choice(win)
                        a = r.choice([r.randrange(lo, hi), r.choice(spaces)[1] ^ (1 << r.randrange(20, 63)), (1 << r.randrange(33, 62)) + r.randrange(1 << 20),
                                      r.randrange(lo, min(hi, lo + (1 << 22)))]) & ~0xfff
                        if any(s[0] == "mem" and s[1] - 4096 < a < s[1] + s[2] + 4096 for s in spaces) or any(a >> 12 == pr[1] >> 12 for pr in prb):
                            continue
                        if 0 <= a < 0x8100_0000:
                            continue     # host memory and message region
                        if a >= 1 << 63 and a >= 0x8000_1000_0000_0000:
                            continue
                        break
                else:
                    a = 0x8000_0000 + 4 * r.randrange(1 << 18)
                    if any(s[0] == "io" and s[1] - 16 < a < s[1] + s[2] + 16 for s in spaces):
                        book.free.append(tag)
                        continue
                n, fb, lb = (1, 0xf, 0) if kind.startswith("IO") else rand_shape(r, 32)
                if kind.startswith("MEM") and a >= 1 << 32:
                    kind += "_64"
                q = mkreq(kind, rid, tag, a, n, fb, lb, tc if kind.startswith("MEM") else 0, attr if kind.startswith("MEM") else 0, bytes(4 * n) if "WRITE" in kind else None)
                # inside its own windows the host may retry the access itself
                req = Req(q, "none" if p is not None and any(lo <= a < hi for lo, hi in win + [(0x8000_0000, 0xc000_0000)]) else "ur", None, dict(name="none"))
                mon.count("unmatched_requests")
            elif x < 0.30 and p is not None:
                kind = r.choice(["MEM_READ", "IO_READ", "IO_WRITE"])
                n, fb, lb = (1, 0xf, 0) if kind.startswith("IO") else rand_shape(r, 32)
                off = 4 * r.randrange(32)
                q = mkreq(kind, rid, tag, bad[kind.split('_')[0]] + off, n, fb or 0xf, lb, tc if kind.startswith("MEM") else 0, attr if kind.startswith("MEM") else 0, bytes(4) if "WRITE" in kind else None)
                req = Req(q, "ca", None, dict(name="faulty"))
                mon.count("faulty_requests")
            else:
                # the host does not send requests to itself
                ok = [i for i, sp in enumerate(spaces) if (sp[5] is not None if p is None else sp[5] is None or not t.siblings(p, sp[5]))]
                if not ok:
                    book.free.append(tag)
                    continue
                si = r.choice(ok)
                kind, base, size, mm, tg, e = spaces[si]
                lim = limits[si]
                if kind == "io":
                    wr = r.random() < 0.5
                    off = 4 * r.randrange(0, lim // 8)
                    fb = r.randrange(16)
                    if wr:
                        off = wptr[si]
                        if off + 4 > lim:
                            book.free.append(tag)
                            continue
                        wptr[si] += 4
                        d = r.randbytes(4)
                        apply_be(imgs[si], off, 1, fb, 0, d)
                        req = Req(mkreq("IO_WRITE", rid, tag, base + off, 1, fb, 0, 0, 0, d), "cpl", None, tg)
                        q = mkreq("IO_WRITE", rid, tag, base + off, 1, fb, 0, 0, 0, d)
                    else:
                        q = mkreq("IO_READ", rid, tag, base + off, 1, fb, 0)
                        req = Req(q, "data", bytes(imgs[si][off:off + 4]), tg)
                else:
                    wr = r.random() < 0.35
                    half = lim // 2
                    if wr:
                        off = wptr[si] + 4 * r.choice([0, 0, 1, 5, 30])
                        room = min((lim - off) // 4, (4096 - ((base + off) & 0xfff)) // 4, 32 << mps)
                        if off >= lim or room < 1:
                            wptr[si] = (off + 4095) & ~4095
                            book.free.append(tag)
                            continue
                    else:
                        off = 4 * r.randrange(0, half // 4)
                        if r.random() < 0.3:
                            off = min(half - 4, (off | 0xfff) + 1 - 4 * r.randrange(1, 40)) & ~3
                            off = max(0, off)
                        room = min((half - off) // 4, (4096 - ((base + off) & 0xfff)) // 4)
                    n, fb, lb = rand_shape(r, room)
                    a = base + off
                    if n == 2 and (a & 7):
                        fb, lb = 0xf, 0xf
                    sfx = "_64" if a >= 1 << 32 else ""
                    if wr:
                        wptr[si] = off + 4 * n
                        d = r.randbytes(4 * n)
                        apply_be(imgs[si], off, n, fb, lb, d)
                        q = mkreq("MEM_WRITE" + sfx, rid, tag, a, n, fb, lb, tc, attr, d)
                        req = Req(q, "none", None, tg)
                        mon.sig("w", tg["name"], n, fb, lb, a & 0x7f)
                    else:
                        q = mkreq("MEM_READ" + sfx, rid, tag, a, n, fb, lb, tc, attr)
                        req = Req(q, "data", bytes(imgs[si][off:off + 4 * n]), tg)
            if "MEM_WRITE" in req.s.name:
                mon.count("posted_requests")
                book.all.append(req)
                await send(q)
                # a completion for it would be unsolicited: keep the tag idle
                async def later(tag=tag):
                    await Timer(20, "us")
                    book.free.append(tag)
                    book.wait.set()
                cocotb.start_soon(later())
            else:
                mon.count("nonposted_requests")
                book.add(req)
                await send(q)
            if r.random() < 0.1:
                await Timer(r.randrange(1, 500), "ns")

    prb = []
    for p in probers:
        if p in t.pdev:
            prb.append(("mem", t.pdev[p].bar_addr[0], 4096))
    maxbus = 200
    ts = [cocotb.start_soon(agent(rng.getrandbits(48), users[k % len(users)])) for k in range(max(agents, len(users)))]
    for x in ts:
        await x.join()
    await Timer(200, "us")
    if route:
        rm.conclude()
    for p, b, rid, send in users:
        for q in b.out.values():
            mon.violate("unanswered", f"no (complete) outcome for {q} after 200 us of quiet; completions so far {q.cpls}")
        mon.ev(len(b.all))
    for si, sp in enumerate(spaces):
        got = bytes(sp[3][:sp[2]])
        if got != bytes(imgs[si]):
            k = next(i for i in range(sp[2]) if got[i] != imgs[si][i])
            mon.violate("write-effect", f"{sp[4]['name']} {sp[0]} at {sp[1]:#x}+{k:#x}: {got[k]:#x}, expected {imgs[si][k]:#x}")
        mon.ev()
        mon.count("images_compared")
    t.links.finish()
    mon.sample(dict(topology=topo, mps=128 << mps, requesters=[str(u[1].rid) for u in users], spaces=[(s[0], hex(s[1]), s[2], s[4]["name"]) for s in spaces][:6]))
