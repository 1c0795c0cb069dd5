"""Entry point of a job that needs no simulator."""
import json
import os
import random

from vlib.mon import Mon, load_scen


def main():
    spec = json.load(open(os.environ["VERIF_JOBFILE"]))
    mon = Mon()
    try:
        load_scen(spec)(mon, random.Random(spec["seed"]), **{k: v for k, v in spec["params"].items() if not k.startswith("_")})
    except Exception as e:
        mon.exception(e, "scenario")
    mon.write()


if __name__ == "__main__":
    main()
