"""cocotb module: runs one scenario inside the simulator."""
import asyncio
import json
import os
import random
import signal

import cocotb
from cocotb.result import SimTimeoutError
from cocotb.triggers import with_timeout
from cocotb.utils import get_sim_time

from vlib.mon import Abort, Mon, load_scen

MON = Mon()


def _install_guard():
    """Background tasks of the code under test: record why one died before the
    simulator tears the test down."""
    orig = cocotb.start_soon

    def start_soon(coro):
        if hasattr(coro, "__await__") and hasattr(coro, "cr_frame"):
            return orig(guard(coro))
        return orig(coro)

    async def guard(coro):
        try:
            return await coro
        except (GeneratorExit, asyncio.CancelledError):
            raise
        except Exception as e:
            MON.exception(e, "background task")
            MON.write()
            raise

    cocotb.start_soon = start_soon


def _install_watchdog(step=15, count=6):
    """A loop which never lets simulated time advance is a violation too; it is
    measured in processor time of this process, so a busy machine cannot cause
    it."""
    last = [None, 0]

    def tick(sig, frame):
        now = get_sim_time()
        last[1] = last[1] + 1 if now == last[0] else 0
        last[0] = now
        if last[1] >= count:
            import traceback
            where = "".join(traceback.format_stack(frame, 12))
            MON.violate("no-progress", f"simulated time stood at {get_sim_time('ns')} ns for {step * count} s of processor time:\n{where[-1500:]}")
            MON.write()
            os._exit(1)

    signal.signal(signal.SIGPROF, tick)
    signal.setitimer(signal.ITIMER_PROF, step, step)


@cocotb.test()
async def verif_job(dut):
    spec = json.load(open(os.environ["VERIF_JOBFILE"]))
    _install_guard()
    _install_watchdog()
    params = {k: v for k, v in spec["params"].items() if not k.startswith("_")}
    limit_us = spec["params"].get("_limit_us", 50000)
    try:
        await with_timeout(load_scen(spec)(dut, MON, random.Random(spec["seed"]), **params), limit_us, "us")
    except SimTimeoutError:
        # decided in simulated time: the workload is finite and far shorter
        MON.violate("no-progress", f"workload did not finish within {limit_us} us of simulated time (stats {MON.stats})")
    except Abort:
        pass
    except Exception as e:
        MON.exception(e, "scenario")
    signal.setitimer(signal.ITIMER_PROF, 0)
    MON.maxi("simulated_us", int(get_sim_time("us")))
    MON.write()
