"""Registry: property id -> workload plan and evidence text."""
import importlib

BUDGET = {"quick": 600, "thorough": 3000}

IDS = {}


class Prop:
    level = "exploration"
    rule = ""
    assumptions = []

    def __init__(self, pid, plan, rule, assumptions=(), require=None, level="exploration"):
        self.pid = pid
        self.plan = plan
        self.rule = rule
        self.assumptions = list(assumptions)
        self._require = require or {}
        self.level = level
        IDS[pid] = self

    def jobs(self, tier, seed):
        return self.plan(tier, seed)

    def require(self, tier):
        return self._require


def get(pid):
    importlib.import_module("vlib.plans")
    return IDS[pid]
