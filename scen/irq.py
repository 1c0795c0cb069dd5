"""MSI and MSI-X: every interrupt a function signals reaches the handlers of
its own vector, once, after the data written before it."""
import random
import struct

import cocotb
from cocotb.triggers import Timer, Event

from cocotbext.pcie.core import MemoryEndpoint
from cocotbext.pcie.core.caps import MsiCapability, MsixCapability

from vlib.topo import Topo


class IrqEp(MemoryEndpoint):
    pass


async def run(dut, mon, rng, topo="switch", nfunc=(1, 2, 3), rounds=3, irqs=60, fc="default", **kw):
    eps = []

    def factory():
        ep = IrqEp()
        ep.vmode = rng.choice(["msi", "msi", "msix", "msix", "both", "none"])
        m1 = ep.add_mem_region(1 << 14)
        m2 = ep.add_prefetchable_mem_region(1 << 14)
        ep.vbars = [(0, m1), (1, m2)]
        if ep.vmode in ("msi", "both"):
            ep.msi = MsiCapability()
            ep.msi.msi_multiple_message_capable = rng.randrange(6)
            ep.msi.msi_64bit_address_capable = rng.random() < 0.7
            ep.msi.msi_per_vector_mask_capable = rng.random() < 0.5
            ep.msi.msi_extended_message_data_capable = rng.random() < 0.5
            ep.register_capability(ep.msi, rng.choice([None, 0x30]))
        if ep.vmode in ("msix", "both"):
            ep.msix = MsixCapability()
            n = rng.choice([1, 2, 3, 5, 8, 17, 31, 32, 33, 40])
            ep.vtab = rng.randrange(2)
            ep.vtaboff = rng.randrange(0, (1 << 13) - 16 * n, 8)
            ep.msix.msix_table_size = n - 1
            ep.msix.msix_table_bar_indicator_register = ep.vbars[ep.vtab][0]
            ep.msix.msix_table_offset = ep.vtaboff
            ep.msix.msix_pba_bar_indicator_register = ep.vbars[1 - ep.vtab][0]
            ep.msix.msix_pba_offset = 8 * rng.randrange(1024, 2000)
            ep.register_capability(ep.msix)
        eps.append(ep)
        return ep

    t = Topo(mon, rng, topo, fc=fc, mps=0, nfunc=list(nfunc), ep_factory=factory, tap=True)
    rc = t.rc
    await t.up()
    base, mem = rc.alloc_region(1 << 16)
    hrng = random.Random(rng.getrandbits(48))
    rcv = {}        # (function index, vector) -> count
    owner = {}      # id(vector object) -> (function, number)
    exp = {}
    slots = {}
    st = dict(total=0, rcvd=0)

    def handler(fi, v, which=0):
        async def cb():
            rcv[(fi, v, which)] = rcv.get((fi, v, which), 0) + 1
            st["rcvd"] += 1
            slow = hrng.random() < 0.3
            if not which:
                look()
            if slow:
                # the next interrupt comes while this one is being handled
                await Timer(hrng.choice([10, 300, 2000]), "ns")
                mon.count("slow_handlers")

        def look():
            # what the function wrote before it signalled is there
            k = (fi, v)
            mon.check(exp.get(k, 0) >= rcv[(fi, v, 0)], "irq-not-signalled", lambda: f"function {fi} vector {v}: {rcv[(fi, v, 0)]} interrupts seen, {exp.get(k, 0)} signalled")
            seen = struct.unpack_from("<L", mem, 4 * slots[k])[0]
            mon.check(seen >= rcv[(fi, v, 0)], "irq-overtakes-data", lambda: f"function {fi} vector {v}: interrupt {rcv[(fi, v, 0)]} seen before the data written ahead of it (memory holds {seen})")
        return cb

    def table(ep, k):
        m = ep.vbars[ep.vtab][1]
        return struct.unpack_from("<QLL", m, ep.vtaboff + 16 * k)

    state = {}
    base_vec = {}
    sec = {}
    bound = {}
    for rnd in range(rounds):
        order = [i for i, e in enumerate(eps) if e in t.pdev]
        rng.shuffle(order)
        mk = []
        for i in order:
            e = eps[i]
            d = t.pdev[e]
            if i in state and rng.random() < 0.5:
                await d.free_irq_vectors()
                mon.check(not (hasattr(e, "msi") and e.msi.msi_enable) and not (hasattr(e, "msix") and e.msix.msix_enable), "irq-free", lambda: f"function {i}: still enabled after its vectors were freed")
                del state[i]
                # nothing may be signalled now
                for attr, c in (("msi", "issue_msi_interrupt"), ("msix", "issue_msix_interrupt")):
                    if hasattr(e, attr):
                        try:
                            await (getattr(e.msi, c)() if attr == "msi" else e.msix.issue_msix_interrupt(0x8000_0000, 0))
                            mon.violate("irq-while-disabled", f"function {i} {attr}")
                        except Exception:
                            mon.ev()
                mon.count("vectors_freed")
            if i not in state:
                mk.append(i)

        async def alloc(i):
            e = eps[i]
            d = t.pdev[e]
            await d.enable_device()
            await d.set_master()
            lo = rng.choice([1, 1, 1, 2, 8])
            hi = rng.choice([1, 2, 4, 8, 32, 64])
            use = e.vmode
            if use == "both" and rng.random() < 0.3:
                use = "msi"
                n = await d.enable_msi_range(lo, hi)
            else:
                n = await d.alloc_irq_vectors(lo, hi)
                if use == "both":
                    use = "msix" if d.msix_enabled else "msi"
            cap = {"msi": 1 << e.msi.msi_multiple_message_capable if hasattr(e, "msi") else 0, "msix": e.msix.msix_table_size + 1 if hasattr(e, "msix") else 0, "none": 0}
            cap["both"] = max(cap.values())
            ok = cap[use] >= lo and hi >= lo
            if e.vmode == "both":
                pass
            mon.check((n == min(hi, cap[use])) if ok else n < 0, "irq-count", lambda: f"function {i} ({e.vmode}): asked for {lo}..{hi}, has {cap}, got {n}")
            mon.sig(e.vmode, use, lo, hi, n)
            if n < 0:
                mon.count("vectors_refused")
                return
            state[i] = (use, n)
            mon.count("vectors_allocated", n)
            mon.check(len(d.msi_vectors) >= n, "irq-count", lambda: f"function {i}: granted {n}, {len(d.msi_vectors)} vector objects")
            for v in range(n):
                o = d.msi_vectors[v]
                k = owner.setdefault(id(o), (i, v))
                mon.check(k == (i, v), "irq-shared", lambda: f"vector {v} of function {i} is vector {k[1]} of function {k[0]}")
                if (i, v) not in slots or base_vec.get((i, v)) is not o:
                    base_vec[(i, v)] = o
                    bound[(i, v)] = exp.get((i, v), 0)
                    slots.setdefault((i, v), len(slots))
                    d.request_irq(v, handler(i, v))
                    sec.pop((i, v), None)
                    if rng.random() < 0.2:
                        sec[(i, v)] = exp.get((i, v), 0)
                        rcv[(i, v, 1)] = 0
                        d.request_irq(v, handler(i, v, 1))
            if use == "msi":
                mon.check(e.msi.msi_enable and 1 << e.msi.msi_multiple_message_enable >= n, "irq-count", lambda: f"function {i}: granted {n} messages, enable field {e.msi.msi_multiple_message_enable}")
                for bad in (-1, 1 << e.msi.msi_multiple_message_enable):
                    try:
                        await e.msi.issue_msi_interrupt(bad)
                        mon.violate("irq-out-of-range", f"function {i} signalled message {bad}")
                    except ValueError:
                        mon.ev()
            else:
                mon.check(e.msix.msix_enable and not e.msix.msix_function_mask, "irq-count", f"function {i}: MSI-X not enabled")
                for v in range(e.msix.msix_table_size + 1):
                    a, dd, c = table(e, v)
                    mon.check((a, dd) == (d.msi_vectors[v].addr, d.msi_vectors[v].data) and not c & 1, "msix-table",
                              lambda: f"function {i} entry {v}: {a:#x}/{dd:#x}/{c:#x}, vector {d.msi_vectors[v].addr:#x}/{d.msi_vectors[v].data:#x}")
                # what was beyond the table is untouched
                end = e.vtaboff + 16 * (e.msix.msix_table_size + 1)
                m = e.vbars[e.vtab][1]
                mon.check(bytes(m[end:end + 64]) == bytes(64), "msix-table", lambda: f"function {i}: data behind the table changed")

        if rng.random() < 0.5:
            ts = [cocotb.start_soon(alloc(i)) for i in mk]
            for x in ts:
                await x.join()
            mon.count("concurrent_allocations", len(mk) > 1)
        else:
            for i in mk:
                await alloc(i)

        async def source(i, seed):
            r = random.Random(seed)
            e = eps[i]
            d = t.pdev[e]
            use, n = state[i]
            for _ in range(irqs):
                v = r.choice([0, n - 1, r.randrange(n)])
                k = (i, v)
                seq = exp.get(k, 0) + 1
                # the data of one vector is written and signalled by one source
                ln = r.choice([0, 0, 5, 200])
                if ln:
                    await e.mem_write(base + (1 << 15) + 256 * (i % 100), bytes(ln))
                await e.mem_write(base + 4 * slots[k], struct.pack("<L", seq))
                exp[k] = seq
                st["total"] += 1
                if use == "msi":
                    await e.msi.issue_msi_interrupt(v)
                else:
                    a, dd, c = table(e, v)
                    await e.msix.issue_msix_interrupt(a, dd)
                mon.count("interrupts_" + use)
                if r.random() < 0.2:
                    await Timer(r.randrange(1, 400), "ns")

        ts = [cocotb.start_soon(source(i, rng.getrandbits(48))) for i in state]
        for x in ts:
            await x.join()
        await Timer(100, "us")
        for (i, v), n in exp.items():
            got = rcv.get((i, v, 0), 0)
            mon.check(got == n, "irq-lost", lambda: f"function {i} vector {v} ({eps[i].vmode}): {n} interrupts signalled, {got} handled")
            if (i, v) in sec:
                mon.check(rcv[(i, v, 1)] == n - sec[(i, v)], "irq-lost", lambda: f"function {i} vector {v}: {n - sec[(i, v)]} signalled, second handler ran {rcv[(i, v, 1)]} times")
        for k, o in base_vec.items():
            n = exp.get(k, 0) - bound[k]
            mon.check(o.event.is_set() == (n > 0), "irq-event", lambda: f"function {k[0]} vector {k[1]}: signalled {n} times, event {'set' if o.event.is_set() else 'not set'}")
        mon.count("vectors_signalled", len(exp))
    mon.maxi("functions_with_vectors", len(state))
    mon.sample(dict(topology=topo, functions=[(e.vmode, str(e.pcie_id)) for e in eps][:8], vectors=len(base_vec), interrupts=st["total"]))
