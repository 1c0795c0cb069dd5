"""Check driver: expands a property into jobs, runs them in subprocesses,
merges what the monitors recorded into a verdict and an evidence file."""
import argparse
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
VENV_BIN = "/opt/venv/bin"
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")

WORKERS = int(os.environ.get("VERIF_JOBS", "8"))


class Job:
    """One execution of a scenario: module:function under scen/, run either in
    a plain interpreter (kind 'py') or inside a simulation of top `top`."""

    def __init__(self, scen, seed, kind="sim", top="top_empty", timeout=300, hdl_params=None, **params):
        self.scen = scen
        self.seed = seed
        self.kind = kind
        self.top = top
        self.timeout = timeout
        self.hdl_params = hdl_params or {}
        self.params = params

    def spec(self):
        return dict(scen=self.scen, seed=self.seed, kind=self.kind, top=self.top,
                    timeout=self.timeout, hdl_params=self.hdl_params, params=self.params)

    @classmethod
    def from_spec(cls, d):
        return cls(d["scen"], d["seed"], d["kind"], d["top"], d["timeout"], d["hdl_params"], **d["params"])


def base_env():
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(("COCOTB_", "PYTEST", "VERIF_")) and k not in ("PYTHONHOME", "MODULE", "TESTCASE", "TOPLEVEL")}
    env["PATH"] = VENV_BIN + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    env["PYTHONPATH"] = REPO + ":" + VERIF
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = "0"
    env["VIRTUAL_ENV"] = "/opt/venv"
    return env


def compile_top(top, hdl_params):
    src = os.path.join(VERIF, "hdl", top + ".v")
    h = hashlib.sha1()
    h.update(open(src, "rb").read())
    h.update(json.dumps(hdl_params, sort_keys=True).encode())
    out = os.path.join(BUILD, f"{top}-{h.hexdigest()[:12]}.vvp")
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = f"{out}.{os.getpid()}.{time.monotonic_ns()}"
        cmd = ["iverilog", "-g2012", "-s", top, "-o", tmp]
        for k, v in hdl_params.items():
            cmd.append(f"-P{top}.{k}={v}")
        cmd.append(src)
        p = subprocess.run(cmd, env=base_env(), capture_output=True, text=True)
        if p.returncode:
            raise RuntimeError(f"iverilog failed for {top} {hdl_params}: {p.stdout}{p.stderr}")
        os.replace(tmp, out)
    return out


_libs = None


def cocotb_libs():
    global _libs
    if _libs is None:
        p = subprocess.run([PY, "-c", "import cocotb, os, sysconfig; print(os.path.join(os.path.dirname(cocotb.__file__), 'libs'));"
                            "import find_libpython; print(find_libpython.find_libpython())"],
                           capture_output=True, text=True, env=base_env())
        if p.returncode:
            raise RuntimeError(p.stderr)
        _libs = p.stdout.split()
    return _libs


def run_job(job, workdir, n):
    """Run one job; returns the result dict."""
    t0 = time.monotonic()
    jobfile = os.path.join(workdir, f"job{n}.json")
    resfile = os.path.join(workdir, f"job{n}.res.json")
    logfile = os.path.join(workdir, f"job{n}.log")
    with open(jobfile, "w") as f:
        json.dump(job.spec(), f)
    env = base_env()
    env["VERIF_JOBFILE"] = jobfile
    env["VERIF_RESFILE"] = resfile
    if job.kind == "py":
        cmd = [PY, "-m", "vlib.pyjob"]
    else:
        vvp = compile_top(job.top, job.hdl_params)
        libdir, libpython = cocotb_libs()
        env["MODULE"] = "vlib.simjob"
        env["TOPLEVEL"] = job.top
        env["TOPLEVEL_LANG"] = "verilog"
        env["COCOTB_RESULTS_FILE"] = os.path.join(workdir, f"job{n}.xml")
        env["RANDOM_SEED"] = str(job.seed & 0x7fffffff)
        env["LIBPYTHON_LOC"] = libpython
        env["COCOTB_LOG_LEVEL"] = os.environ.get("VLOG", "CRITICAL")
        env["COCOTB_ANSI_OUTPUT"] = "0"
        env["PYGPI_PYTHON_BIN"] = PY
        cmd = ["vvp", "-n", "-M", libdir, "-m", "libcocotbvpi_icarus", vvp]
    with open(logfile, "w") as log:
        p = subprocess.Popen(cmd, cwd=workdir, env=env, stdout=log, stderr=subprocess.STDOUT,
                             stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            p.wait(job.timeout)
            to = False
        except subprocess.TimeoutExpired:
            to = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
    res = None
    try:
        with open(resfile) as f:
            res = json.load(f)
    except Exception:
        pass
    tail = ""
    if res is None:
        try:
            with open(logfile, errors="replace") as f:
                tail = f.read()[-3000:]
        except OSError:
            pass
        res = dict(status="inconclusive", violations=[], errors=[("wall-clock timeout" if to else f"no result, rc={p.returncode}") + "\n" + tail],
                   stats={}, evals=0, sigs=[], samples=[])
    elif to and not res["violations"]:
        res["status"] = "inconclusive"
        res["errors"] = res.get("errors", []) + ["wall-clock timeout"]
    res["wall"] = time.monotonic() - t0
    return res


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--only", help="substring of the scenario name to run")
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args(argv)
    t0 = time.monotonic()

    from vlib import props
    prop = props.get(args.id)

    if args.replay:
        jobs = [Job.from_spec(json.load(open(args.replay))["job"])]
    else:
        jobs = prop.jobs(args.tier, args.seed)
    if args.only:
        jobs = [j for j in jobs if args.only in j.scen or args.only in json.dumps(j.params)]

    workdir = os.path.join(OUT, f"run-{args.id}-{os.getpid()}")
    shutil.rmtree(workdir, ignore_errors=True)
    os.makedirs(workdir)
    if not os.path.isdir(os.path.join(REPO, "cocotbext", "pcie")):
        print(f"ERROR: no tree under test at {REPO}")
        return 3
    for top, hp in {(j.top, json.dumps(j.hdl_params)) for j in jobs if j.kind == "sim"}:
        compile_top(top, json.loads(hp))
    results = []
    budget = props.BUDGET[args.tier if args.tier in props.BUDGET else "quick"]
    skipped = 0
    order = sorted(range(len(jobs)), key=lambda k: -jobs[k].params.get("_w", 1))

    def work(n):
        if time.monotonic() - t0 > budget:
            return None
        return run_job(jobs[n], workdir, n)

    with ThreadPoolExecutor(WORKERS) as ex:
        futs = {ex.submit(work, n): n for n in order}
        for f in as_completed(futs):
            r = f.result()
            if r is None:
                skipped += 1
                continue
            results.append((futs[f], r))
            if args.v:
                print(f"[{futs[f]:3d}] {jobs[futs[f]].scen} {jobs[futs[f]].params} {r['status']} {r['wall']:.1f}s "
                      f"evals={r['evals']} viol={len(r['violations'])} {json.dumps(r['stats'])[:int(os.environ.get('VSTAT', '200'))]}", flush=True)
    results.sort(key=lambda x: x[0])

    stats = {}
    sigs = set()
    samples = []
    evals = 0
    viol = []
    errors = []
    per = {}
    for n, r in results:
        evals += r["evals"]
        sigs.update(r["sigs"])
        for k, v in r["stats"].items():
            if k.startswith("max_"):
                stats[k] = max(stats.get(k, v), v)
            elif k.startswith("min_"):
                stats[k] = min(stats.get(k, v), v)
            else:
                stats[k] = stats.get(k, 0) + v
        per[jobs[n].scen] = per.get(jobs[n].scen, 0) + 1
        if len([s for s in samples if s.get("scenario") == jobs[n].scen]) < 2:
            for s in r["samples"][:2]:
                samples.append({"scenario": jobs[n].scen, "case": s})
        for v in r["violations"]:
            viol.append((n, v))
        for e in r.get("errors", []):
            errors.append((n, e))
        if r["status"] == "inconclusive" and not r.get("errors"):
            errors.append((n, "inconclusive without reason"))

    known = load_known(args.id)
    new = []
    seen_known = set()
    for n, v in viol:
        k = next((k for k in known if k in v["kind"]), None)
        if k is not None:
            seen_known.add(k)
        else:
            new.append((n, v))
    for k in sorted(known):
        print(f"KNOWN-FINDING: property={args.id} {known[k]}" + ("" if k in seen_known else " (not observed in this run)"))

    rc = 0
    if new:
        rc = 1
        rdir = os.path.join(OUT, "replays")
        os.makedirs(rdir, exist_ok=True)
        shown = set()
        for n, v in new:
            if v["kind"] in shown:
                continue
            shown.add(v["kind"])
            if len(shown) > 8:
                break
            rp = os.path.join(rdir, f"{args.id}-{len(shown)}.json")
            with open(rp, "w") as f:
                json.dump(dict(property=args.id, job=jobs[n].spec(), violation=v), f, indent=1)
            print(f"  {v['kind']}: {v['msg'][:1500]}")
            print(f"VIOLATION property={args.id} replay={rp}")
    elif errors:
        rc = 2
    elif not args.replay and not args.only:
        # Three-valued verdict: monitors that were never reached decide nothing
        for k, lo in prop.require(args.tier).items():
            if stats.get(k, 0) < lo:
                errors.append((-1, f"monitor counter {k}={stats.get(k, 0)} below {lo}"))
        if evals == 0 or not sigs:
            errors.append((-1, "no events observed"))
        if errors:
            rc = 2
    for n, e in errors[:8]:
        where = f"{jobs[n].scen} {jobs[n].params} seed={jobs[n].seed}" if n >= 0 else "merge"
        print(f"INCONCLUSIVE [{where}]: {e[-2500:]}")

    wall = time.monotonic() - t0
    ev = dict(property=args.id, tier=args.tier if args.tier in ("quick", "thorough") else "quick", seed=args.seed, level=prop.level,
              coverage=dict(evaluations=evals, distinct_nontrivial=len(sigs), rule=prop.rule,
                            samples=samples[:12] or ["none"], executions=len(results), jobs_skipped_for_time=skipped,
                            executions_per_scenario=per, observed=dict(sorted(stats.items()))),
              assumptions=prop.assumptions, wall_s=round(wall, 2), violations=len(new))
    if not args.replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{args.id}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{args.id} tier={args.tier} seed={args.seed}: {len(results)} executions, {evals} evaluations, "
          f"{len(sigs)} distinct, {len(new)} violations, {len(errors)} undecided, {skipped} skipped, {wall:.1f}s")
    if not os.environ.get("VKEEP"):
        shutil.rmtree(workdir, ignore_errors=True)
    return rc


def load_known(pid):
    """known_findings.txt: lines 'known: property=<id> key=<violation kind> <text>'
    and 'fixed: property=<id> <commit> <text>'; fixed lines suppress nothing."""
    res = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: "):
                parts = line.split(None, 3)
                if parts[1] == f"property={pid}":
                    res[parts[2].removeprefix("key=")] = parts[3]
    return res
