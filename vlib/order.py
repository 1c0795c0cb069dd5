"""Ordering monitor: what passes what inside switches and the root complex."""
from collections import Counter, OrderedDict

from vlib.route import RouteMonitor


class OrderMonitor(RouteMonitor):
    """For every packet that leaves a node, everything that entered on the
    same link earlier, leaves on the same link and must not be passed by it,
    has left before."""

    def start(self):
        super().start()
        self.pend = {}      # direction into a node -> list of [key, snap, next direction]
        self.src = {}       # direction out of a node -> directions into it
        t = self.topo
        n = len(t.tree)
        into = {}
        for k in range(n):
            dn, up = t.tree[k]["dirs"]
            into.setdefault(k, []).append(dn)                    # node below link k
            into.setdefault(t.tree[k]["parent"], []).append(up)  # node above
        for k in range(n):
            dn, up = t.tree[k]["dirs"]
            self.src[up] = [d for d in into.get(k, []) if d is not up and d is not up.rev]
            p = t.tree[k]["parent"]
            self.src[dn] = [d for d in into.get(p, []) if d is not dn.rev]
        for d in self.at:
            self.pend[d] = []

    def next_hop(self, d, s):
        k, way = self.at[d]
        t = self.topo
        dst = self.dest(s)
        if dst is None or dst == k:
            return None
        if way == "down":
            if dst == -1 or k not in self.above[dst]:
                return None
            j = dst
            while t.tree[j]["parent"] != k:
                j = t.tree[j]["parent"]
            return t.tree[j]["dirs"][0]
        p = t.tree[k]["parent"]
        if dst == p:
            return None
        if dst == -1:
            return None if p is None else t.tree[p]["dirs"][1]
        if p is None or p in self.above[dst]:
            j = dst
            while t.tree[j]["parent"] != p:
                j = t.tree[j]["parent"]
            return t.tree[j]["dirs"][0] if j != k else None
        return t.tree[p]["dirs"][1]

    def arrive(self, d, is_tlp, s):
        if not is_tlp:
            return
        if s.seq != self.rx.setdefault(d, s.seq) & 0xfff:
            return
        self.rx[d] += 1
        if not self.on or s.name.startswith("MSG") or d not in self.at:
            return
        mon = self.mon
        key = self.key(s)
        for i in self.src[d]:
            w = self.pend[i]
            for x in range(len(w)):
                if w[x][0] == key and w[x][2] is d:
                    break
            else:
                continue
            mon.count("departures_checked")
            over = 0
            for y in range(x):
                a = w[y][1]
                if w[y][2] is not d:
                    continue
                over += 1
                mon.ev()
                if a.cls == "P" and not s.attr & 2 and not s.attr & 4:
                    mon.violate("passed-posted", f"{s} left on {d} before {a}, which entered earlier on {i}")
                elif a.cls == "CPL" and s.cls == "CPL" and (a.requester_id, a.tag) == (s.requester_id, s.tag):
                    mon.violate("completions-reordered", f"{s} left on {d} before {a}, which entered earlier on {i}")
                elif a.cls == s.cls and s.cls == "P":
                    mon.count("posted_passes_posted_relaxed")
            if over:
                mon.count(f"allowed_overtakes_{s.cls}", over)
            mon.count(f"departures_{s.cls}")
            mon.sig("dep", d.name, s.cls, tuple(w[y][1].cls for y in range(max(0, x - 3), x)))
            del w[x]
            break
        nh = self.next_hop(d, s)
        if nh is not None:
            self.pend[d].append((key, s, nh))
            mon.maxi("waiting_in_a_node", len(self.pend[d]))

    def conclude(self):
        left = sum(len(w) for w in self.pend.values())
        self.mon.check(left == 0, "not-forwarded", lambda: f"{left} packets entered a switch or the root complex and never left: {[str(w[0][1]) for w in self.pend.values() if w][:3]}")
