"""Routing monitor: where every packet must and must not appear in the tree,
from the address each function decodes and the numbers it was given."""
from collections import Counter

from vlib.links import Monitor


def decode_bars(func):
    """[(space, base, size)] claimed by a function's base address registers"""
    out = []
    k = 0
    while k < len(func.bar):
        v, m = func.bar[k], func.bar_mask[k]
        if v & 1:
            if m:
                out.append(("io", v & m, (~m & 0xffffffff) + 1))
            k += 1
        elif v & 4:
            v |= func.bar[k + 1] << 32
            m |= func.bar_mask[k + 1] << 32
            if m:
                out.append(("mem", v & m, (~m & (1 << 64) - 1) + 1))
            k += 2
        else:
            if m:
                out.append(("mem", v & m, (~m & 0xffffffff) + 1))
            k += 1
    return out


class RouteMonitor(Monitor):
    def __init__(self, mon, topo):
        self.mon = mon
        self.topo = topo
        self.on = False
        self.rx = {}

    def start(self):
        """Call once addresses and bus numbers are settled and the links idle"""
        t = self.topo
        self.at = {}            # direction -> (link index, 'down' | 'up')
        self.bars = []          # (space, base, end, link index)
        self.ids = {}           # function number -> (link index, directly attached)
        for k, n in enumerate(t.tree):
            self.at[n["dirs"][0]] = (k, "down")
            self.at[n["dirs"][1]] = (k, "up")
            node = n["node"]
            if hasattr(node, "functions"):
                for f in node.functions:
                    self.ids[int(f.pcie_id)] = (k, True)
                    for sp, base, size in decode_bars(f):
                        self.bars.append((sp, base, base + size, k))
            else:
                self.ids[int(node.upstream_bridge.pcie_id)] = (k, True)
                for e in node.endpoints:
                    self.ids[int(e.pcie_id)] = (k, False)
        self.above = {}
        for k in range(len(t.tree)):
            path = []
            j = k
            while j is not None:
                path.append(j)
                j = t.tree[j]["parent"]
            self.above[k] = path        # from the link itself up to the root
        self.seen = [(Counter(), Counter()) for _ in t.tree]
        self.first = {}
        self.on = True

    def dest(self, s):
        """Link below which the packet must end up; -1 root complex, None unknown"""
        if s.cls == "CPL":
            if s.requester_id == 0:
                return -1
            r = self.ids.get(s.requester_id)
            return r[0] if r else None
        if s.name.startswith("CFG"):
            r = self.ids.get(s.completer_id)
            return r[0] if r else None
        sp = "io" if s.name.startswith("IO") else "mem"
        for b in self.bars:
            if b[0] == sp and b[1] <= s.address < b[2]:
                return b[3]
        if sp == "mem" and any(a <= s.address < b for a, b in self.topo.host_ranges):
            return -1
        if s.address < 0x8000_0000 or (sp == "mem" and 0x8000_0000 <= s.address < 0x8000_0010):
            return -1
        return None

    def arrive(self, d, is_tlp, s):
        if is_tlp:
            # repeated transmissions count once
            if s.seq != self.rx.setdefault(d, s.seq) & 0xfff:
                return
            self.rx[d] += 1
        if not self.on or not is_tlp or s.name.startswith("MSG") or d not in self.at:
            return
        mon = self.mon
        k, way = self.at[d]
        dst = self.dest(s)
        mon.count("packets_routed")
        if dst is None:
            mon.count("packets_without_owner")
            return
        below = dst != -1 and k in self.above[dst]
        # a function reaching out to its own device is handed back by the port above
        own = d.n_tlp >= 0 and s.cls != "CPL" and dst == k
        if way == "down":
            mon.check(below, "misrouted", lambda: f"{s} seen on {d}, but its target lies {'in the root complex' if dst == -1 else 'below ' + self.topo.tree[dst]['name']}")
        elif not own:
            mon.check(not below, "misrouted", lambda: f"{s} seen on {d}, but its target lies below that link ({self.topo.tree[dst]['name']})")
        if s.name.startswith("CFG"):
            direct = self.ids[s.completer_id] == (k, True)
            mon.check(s.name.endswith("_0") == direct, "config-type", lambda: f"{s} seen on {d}: type {'0 expected' if direct else '1 expected'}")
            mon.check(way == "down", "misrouted", lambda: f"{s} travels upstream on {d}")
        self.seen[k][way == "up"][self.key(s)] += 1

    def key(self, s):
        c = s.content(False)
        n = s.name
        return ("CFG_R" if n.startswith("CFG_R") else "CFG_W" if n.startswith("CFG_W") else n,) + c

    def conclude(self):
        """With everything drained: what enters a path leaves it, unchanged"""
        mon = self.mon
        t = self.topo
        keys = set()
        for up, dn in self.seen:
            keys |= set(up) | set(dn)
        lens = Counter()
        for key in keys:
            dst = self.key_dest(key)
            if dst is None:
                continue
            ups = [k for k in range(len(t.tree)) if self.seen[k][1][key]]
            downs = [k for k in range(len(t.tree)) if self.seen[k][0][key]]
            own = [k for k in ups if dst == k]
            if own and key[0][:3] != "CPL":
                continue
            # every packet going up from a link continues unless it turns into a
            # branch below the parent; every packet going down continues
            for k in range(len(t.tree)):
                n_up, n_dn = self.seen[k][1][key], self.seen[k][0][key]
                p = t.tree[k]["parent"]
                kids = [j for j in range(len(t.tree)) if t.tree[j]["parent"] == k]
                if kids:
                    into = n_dn + sum(self.seen[j][1][key] for j in kids)
                    outof = n_up + sum(self.seen[j][0][key] for j in kids)
                    if dst == k:
                        continue    # consumed or produced by the switch itself
                    src_here = key[0][:3] == "CPL"
                    ok = outof == into or (src_here and outof >= into)
                    mon.check(ok, "not-conserved", lambda: f"switch below {t.tree[k]['name']}: {into} in, {outof} out of packet {key}")
            roots = [k for k in range(len(t.tree)) if t.tree[k]["parent"] is None]
            if dst != -1 and key[0][:3] != "CPL" and self.requester(key) != 0:
                i, o = sum(self.seen[k][1][key] for k in roots), sum(self.seen[k][0][key] for k in roots)
                mon.check(i == o, "not-conserved", lambda: f"root complex: {i} in, {o} out of packet {key}")
            lens[(len(ups), len(downs))] += 1
            mon.sig("path", tuple(ups), tuple(downs), key[0])
        for (u, d), n in lens.items():
            mon.count(f"paths_up{u}_down{d}", n)
        mon.count("distinct_packets_followed", len(keys))

    def requester(self, key):
        return key[13]

    def key_dest(self, key):
        name = key[0]
        f = dict(zip(("tc", "ln", "th", "td", "ep", "attr", "at", "length", "completer_id", "status", "bcm",
                      "byte_count", "requester_id", "tag", "first_be", "last_be", "lower_address", "address", "ph", "data"), key[1:]))

        class S:
            pass
        s = S()
        s.__dict__.update(f)
        s.name = name
        s.cls = "CPL" if name.startswith("CPL") else "X"
        return self.dest(s)
