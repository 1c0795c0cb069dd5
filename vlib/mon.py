"""Recorder shared by all scenarios: events, verdicts, coverage signatures."""
import hashlib
import json
import os
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")


class Abort(Exception):
    """Raised by a scenario to stop after a violation made going on pointless"""


class Mon:
    MAXV = 12

    def __init__(self):
        self.violations = []
        self.errors = []
        self.stats = {}
        self.evals = 0
        self.sigs = set()
        self.samples = []
        self._sampled = {}

    def ev(self, n=1):
        self.evals += n

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def maxi(self, key, v):
        key = "max_" + key
        self.stats[key] = max(self.stats.get(key, v), v)

    def sig(self, *parts):
        """Note a distinct non-trivial case"""
        if len(self.sigs) < 200000:
            self.sigs.add(hashlib.blake2b(repr(parts).encode(), digest_size=6).hexdigest())

    def sample(self, s, key="x", n=2):
        c = self._sampled.get(key, 0)
        if c < n and len(self.samples) < 8:
            self._sampled[key] = c + 1
            self.samples.append(s if isinstance(s, (str, dict, list)) else repr(s)[:400])

    def violate(self, kind, msg):
        if len(self.violations) < self.MAXV and sum(v["kind"] == kind for v in self.violations) < 3:
            self.violations.append(dict(kind=kind, msg=str(msg)))
            if "VERIF_RESFILE" in os.environ:
                # kept even if the run does not come to its end
                self.write()

    def check(self, cond, kind, msg):
        self.evals += 1
        if not cond:
            self.violate(kind, msg() if callable(msg) else msg)
        return cond

    def error(self, msg):
        if len(self.errors) < 6:
            self.errors.append(str(msg))

    def exception(self, e, where):
        """Classify an exception: raised while code under test was executing a
        legal operation (a violation), or in the harness itself (undecided)."""
        if isinstance(e, Abort):
            return
        tb = traceback.extract_tb(e.__traceback__)
        txt = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3500:]
        # innermost frame that belongs to either side decides
        for fr in reversed(tb):
            fn = os.path.realpath(fr.filename)
            if fn.startswith(REPO + "/cocotbext/"):
                self.violate(f"exception-{type(e).__name__}", f"{where}: {txt}")
                return
            if "/verif/" in fn or fn.startswith(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))):
                break
        self.error(f"{where}: {txt}")

    def result(self):
        st = "violation" if self.violations else "inconclusive" if self.errors else "ok"
        return dict(status=st, violations=self.violations, errors=self.errors, stats=self.stats,
                    evals=self.evals, sigs=sorted(self.sigs), samples=self.samples)

    def write(self):
        path = os.environ["VERIF_RESFILE"]
        with open(path + ".tmp", "w") as f:
            json.dump(self.result(), f, default=repr)
        os.replace(path + ".tmp", path)


def load_scen(spec):
    import importlib
    mod, func = spec["scen"].split(":")
    return getattr(importlib.import_module("scen." + mod), func)
