"""Runs one property over generated cases (one of several processes).

usage: python -m dwv.worker PROP run  OUT.json IDX N TIER SEED
       python -m dwv.worker PROP case OUT.json CASE.json
"""

import importlib
import json
import os
import sys
import time
import traceback
import warnings


def load(prop):
    for name in sorted(os.listdir(os.path.join(os.path.dirname(__file__), "props"))):
        if name.startswith(prop + "_") and name.endswith(".py"):
            return importlib.import_module(f"dwv.props.{name[:-3]}")
    raise SystemExit(f"no property {prop}")


def check_origin():
    """The code under test must be the scratch build, never an installed one."""
    import deepwave

    want = os.environ["DWV_BUILD"]
    if not os.path.realpath(deepwave.__file__).startswith(os.path.realpath(want)):
        raise SystemExit(f"deepwave imported from {deepwave.__file__}, not {want}")


class Recorder:
    def __init__(self, mod, out, tier):
        self.mod, self.out, self.tier = mod, out, tier
        self.cur = out + ".cur"
        self.evals = self.skips = 0
        self.seen, self.labels, self.samples = set(), {}, []
        self.failure = None
        self.first_failure = None
        self.error = None
        self.fail_until = None
        self.t0 = time.time()
        self.cap = float(os.environ.get("DWV_CAP", "600"))
        self.capped = 0

    def run(self, case):
        from .core import Skip, Violation, digest

        now = time.time()
        if now - self.t0 > self.cap:
            self.capped += 1
            return
        if self.fail_until and now > self.fail_until:
            return
        text = json.dumps(case)
        with open(self.cur, "w") as f:
            f.write(text)
        try:
            r = self.mod.check(case)
        except Skip:
            self.skips += 1
            return
        except Violation as e:
            self.evals += 1
            size = len(text)
            if self.failure is None or size < self.failure["size"]:
                self.failure = {"case": case, "message": str(e), "size": size}
            if self.first_failure is None:
                self.first_failure = {"case": case, "message": str(e)}
                self.fail_until = time.time() + getattr(self.mod, "SHRINK_S", 40)
            raise
        except Exception:
            self.error = {"case": case, "traceback": traceback.format_exc()[-4000:]}
            raise
        self.evals += 1
        r = r or {}
        for lab in r.get("labels", ()):
            self.labels[lab] = self.labels.get(lab, 0) + 1
        if r.get("nontrivial"):
            h = digest(r.get("sig", case))
            if h not in self.seen:
                self.seen.add(h)
                if len(self.samples) < 2:
                    self.samples.append(case)

    def dump(self, done):
        d = {
            "evals": self.evals,
            "skips": self.skips,
            "capped": self.capped,
            "seen": sorted(self.seen),
            "labels": self.labels,
            "samples": self.samples,
            "failure": self.failure,
            "first_failure": self.first_failure,
            "error": self.error,
            "done": done,
            "extra": getattr(self.mod, "EXTRA", None),
        }
        with open(self.out + ".tmp", "w") as f:
            json.dump(d, f)
        os.replace(self.out + ".tmp", self.out)


def main():
    prop, mode, out = sys.argv[1:4]
    warnings.simplefilter("ignore")
    import torch

    torch.set_num_threads(int(os.environ.get("OMP_NUM_THREADS", "1")))
    check_origin()
    mod = load(prop)
    if mode == "case":
        from .core import Violation

        with open(sys.argv[4]) as f:
            case = json.load(f)
        res = {"violation": None, "error": None}
        try:
            mod.check(case)
        except Violation as e:
            res["violation"] = str(e)
        except Exception:
            res["error"] = traceback.format_exc()[-4000:]
        with open(out, "w") as f:
            json.dump(res, f)
        return
    idx, n, tier, seed = int(sys.argv[4]), int(sys.argv[5]), sys.argv[6], int(sys.argv[7])
    rec = Recorder(mod, out, tier)
    try:
        for k, case in enumerate(getattr(mod, "fixed", lambda tier: [])(tier)):
            if k % n == idx:
                rec.run(case)
        total = mod.EXAMPLES[tier]
        mine = total // n + (1 if idx < total % n else 0)
        if mine > 0:
            import hypothesis
            from hypothesis import HealthCheck, Phase, given, settings

            @hypothesis.seed(seed * 1000003 + idx)
            @settings(
                max_examples=mine,
                database=None,
                deadline=None,
                derandomize=False,
                print_blob=False,
                report_multiple_bugs=False,
                suppress_health_check=list(HealthCheck),
                phases=(Phase.generate, Phase.shrink),
            )
            @given(mod.strategy(tier))
            def test(case):
                rec.run(case)

            test()
    except BaseException:
        if rec.failure is None and rec.error is None:
            rec.error = {"case": None, "traceback": traceback.format_exc()[-4000:]}
    if rec.failure is not None:
        rec.error = None
    rec.dump(True)


if __name__ == "__main__":
    main()
