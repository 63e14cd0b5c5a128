#!/usr/bin/env python3
"""Decides one property:  run.py PROP [--tier quick|thorough] [--replay FILE]

exit 0: held on everything explored; exit 1 and a VIOLATION line: broken;
exit 2: the check itself failed."""

import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.dont_write_bytecode = True
sys.path.insert(0, str(HERE))

from dwv import build as B  # noqa: E402
from dwv.meta import META  # noqa: E402

PY = "/opt/venv/bin/python"


def env_for(scratch, flavour, threads, extra=None):
    e = dict(os.environ)
    hyp = B.hypothesis_path(scratch)
    bd = scratch / f"build_{flavour}"
    e.update(
        PYTHONPATH=f"{bd}:{HERE}:{hyp}",
        DWV_BUILD=str(bd),
        DWV_SCRATCH=str(scratch / "work"),
        OMP_NUM_THREADS=str(threads),
        MKL_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        OMP_WAIT_POLICY="passive",
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        CUDA_VISIBLE_DEVICES="",
        TMPDIR=str(scratch / "tmp"),
        HOME=str(scratch / "home"),
        TORCHINDUCTOR_CACHE_DIR=str(scratch / "tmp" / "inductor"),
    )
    if flavour.endswith("asan"):
        lib = subprocess.run(
            ["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True
        ).stdout.strip()
        ub = subprocess.run(
            ["gcc", "-print-file-name=libubsan.so"], capture_output=True, text=True
        ).stdout.strip()
        e["LD_PRELOAD"] = f"{lib}:{ub}"
        e["ASAN_OPTIONS"] = (
            "detect_leaks=0:abort_on_error=1:handle_segv=1:allocator_may_return_null=1:"
            "detect_odr_violation=0:"
            # so that using uninitialised memory gives NaN
            "malloc_fill_byte=255:max_malloc_fill_size=1073741824"
        )
        e["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:print_stacktrace=1"
    e.update(extra or {})
    return e


class Job:
    def __init__(self, prop, scratch, env, args, tag):
        self.out = scratch / f"{tag}.json"
        self.log = scratch / f"{tag}.log"
        cwd = scratch / "work" / tag
        cwd.mkdir(parents=True, exist_ok=True)
        self.p = subprocess.Popen(
            [PY, "-m", "dwv.worker", prop, args[0], str(self.out), *args[1:]],
            cwd=cwd,
            env={**env, "DWV_WORK": str(cwd)},
            stdin=subprocess.DEVNULL,
            stdout=open(self.log, "w"),
            stderr=subprocess.STDOUT,
            start_new_session=True,
        )
        self.start = time.time()
        self.hung = False

    def current(self):
        try:
            return json.loads((Path(str(self.out) + ".cur")).read_text())
        except (OSError, ValueError):
            return None

    def last_activity(self):
        try:
            return os.stat(str(self.out) + ".cur").st_mtime
        except OSError:
            return self.start

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def result(self):
        try:
            return json.loads(self.out.read_text())
        except (OSError, ValueError):
            return None

    def tail(self):
        try:
            return self.log.read_text()[-6000:]
        except OSError:
            return ""


def wait_all(jobs, case_timeout, start_timeout=300):
    while True:
        alive = [j for j in jobs if j.p.poll() is None]
        if not alive:
            return
        for j in alive:
            cur = Path(str(j.out) + ".cur").exists()
            limit = case_timeout if cur else start_timeout
            if time.time() - max(j.last_activity(), j.start) > limit:
                j.hung = True
                j.kill()
        time.sleep(0.05)


def known_findings():
    f = HERE / "known_findings.json"
    return json.loads(f.read_text())["findings"] if f.exists() else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        sys.exit(selftest())
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    meta = META[a.prop]
    t0 = time.time()
    scratch = Path(tempfile.mkdtemp(prefix=f"dwv_{a.prop}_"))
    code = 2
    try:
        for s in ("tmp", "home", "work"):
            (scratch / s).mkdir()
        code = decide(a, tier, meta, scratch, t0)
    except B.BuildError as e:
        print(f"BUILD-ERROR {e}", file=sys.stderr)
        code = 2
    finally:
        if not a.keep:
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            print("kept", scratch)
    sys.exit(code)


def selftest():
    """That the tools the checks need are there (the setup command)."""
    scratch = Path(tempfile.mkdtemp(prefix="dwv_setup_"))
    try:
        B.build(scratch / "build_O0", "O0", None)
        env = env_for(scratch, "O0", 1)
        r = subprocess.run(
            [PY, "-c", "import hypothesis, deepwave, dwv.worker; "
             "dwv.worker.check_origin(); print('ok')"],
            env=env, cwd=scratch, capture_output=True, text=True,
        )
        print(r.stdout.strip(), r.stderr.strip()[-2000:])
        return r.returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(a, tier, meta, scratch, t0):
    prop = a.prop
    flavour = meta.get("flavour", {}).get(tier, "O0")
    if flavour.startswith("cuda"):
        B.build_cuda(scratch / f"build_{flavour}", flavour)
    else:
        B.build(scratch / f"build_{flavour}", flavour)
    for f in meta.get("also", []):
        B.build(scratch / f"build_{f}", f)
    t_build = time.time() - t0
    threads = meta.get("threads", 1)
    env = env_for(scratch, flavour, threads)
    case_timeout = meta.get("case_timeout", 150)
    env["DWV_CAP"] = str(meta.get("cap", {}).get(tier, 420 if tier == "quick" else 3000))

    def replay(case, tag, timeout=None):
        """(violated, message)"""
        cf = scratch / f"{tag}.case.json"
        cf.write_text(json.dumps(case))
        j = Job(prop, scratch, env, ["case", str(cf)], tag)
        try:
            j.p.wait(timeout or case_timeout + 120)
        except subprocess.TimeoutExpired:
            j.kill()
            return True, "no answer (hang)"
        r = j.result()
        if r is None:
            if j.p.returncode < 0 and -j.p.returncode != signal.SIGKILL:
                sig = signal.Signals(-j.p.returncode).name
                return True, f"process died with {sig}\n{j.tail()[-3000:]}"
            raise RuntimeError(f"replay failed: {j.p.returncode}\n{j.tail()}")
        if r["error"]:
            raise RuntimeError(r["error"])
        return r["violation"] is not None, r["violation"]

    if a.replay:
        doc = json.loads(Path(a.replay).read_text())
        bad, msg = replay(doc.get("case", doc), "replay")
        if bad:
            print(msg)
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        print("holds on this case")
        return 0

    n = a.workers or meta.get("workers", min(8, os.cpu_count() or 4))
    jobs = [
        Job(prop, scratch, env, ["run", str(i), str(n), tier, str(a.seed)], f"w{i}")
        for i in range(n)
    ]
    wait_all(jobs, case_timeout)

    failures, errors = [], []
    total = {"evals": 0, "skips": 0, "capped": 0}
    seen, labels, samples, extra = set(), {}, [], []
    for i, j in enumerate(jobs):
        r = j.result()
        if r is None:
            rc = j.p.returncode
            case = j.current()
            if case is not None and (
                j.hung or (rc < 0 and -rc != signal.SIGKILL)
            ):
                why = "hang" if j.hung else signal.Signals(-rc).name
                failures.append(
                    {"case": case, "message": f"worker: {why}\n{j.tail()[-2500:]}", "w": i}
                )
            else:
                errors.append(f"worker {i} ended with {rc}\n{j.tail()}")
            continue
        for k in total:
            total[k] += r[k]
        seen.update(r["seen"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        samples += r["samples"]
        if r.get("extra"):
            extra.append(r["extra"])
        if r["failure"]:
            failures.append({**r["failure"], "w": i, "first": r["first_failure"]})
        elif r["error"]:
            errors.append(json.dumps(r["error"])[:6000].replace("\\n", "\n"))

    confirmed = []
    failures.sort(key=lambda f: len(json.dumps(f["case"])))
    for k, f in enumerate(failures[:4]):
        try:
            for cand in [f] + ([f["first"]] if f.get("first") else []):
                bad, msg = replay(cand["case"], f"confirm{k}")
                if bad:
                    confirmed.append({"case": cand["case"], "message": msg})
                    break
            else:
                # depends on what ran before: run that worker again
                i = f["w"]
                j = Job(
                    prop,
                    scratch,
                    env,
                    ["run", str(i), str(n), tier, str(a.seed)],
                    f"again{k}",
                )
                wait_all([j], case_timeout)
                r = j.result()
                if r is None or r["failure"]:
                    confirmed.append(
                        {
                            "case": f["case"],
                            "message": f["message"]
                            + f"\n(reproduces with the cases before it: worker {i} "
                            f"of {n}, seed {a.seed})",
                        }
                    )
                else:
                    errors.append("not reproducible: " + json.dumps(f)[:3000])
        except RuntimeError as e:
            errors.append(str(e))
        if confirmed:
            break

    known = [x for x in known_findings() if x["property"] == prop and not x.get("fixed")]
    for x in known:
        bad, _ = replay(x["case"], f"known_{x['id']}")
        if bad:
            print(f"KNOWN-FINDING: property={prop} {x['what']}")

    wall = time.time() - t0
    ev = {
        "property": prop,
        "tier": tier,
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total["evals"],
            "distinct_nontrivial": len(seen),
            "rule": meta["rule"],
            "samples": samples[:6],
            "labels": dict(sorted(labels.items())),
            "skipped_outside_domain": total["skips"],
            "not_run_for_time": total["capped"],
            "workers": n,
            "sources_digest": B.sources_digest(),
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(confirmed),
    }
    if extra:
        ev["coverage"]["extra"] = extra[:8]
    (HERE / "evidence").mkdir(exist_ok=True)
    (HERE / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1) + "\n")
    print(
        f"{prop} {tier} seed={a.seed}: {total['evals']} cases, {len(seen)} distinct "
        f"non-trivial, {total['skips']} skipped, {total['capped']} not run; "
        f"build {t_build:.1f}s, total {wall:.1f}s"
    )
    if confirmed:
        rd = HERE / "evidence" / "replays"
        rd.mkdir(exist_ok=True)
        path = rd / f"{prop}.json"
        path.write_text(json.dumps(confirmed[0], indent=1) + "\n")
        print(confirmed[0]["message"])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print("CHECK-ERROR\n" + "\n".join(errors[:3]), file=sys.stderr)
        return 2
    if total["evals"] == 0 or not seen:
        print("CHECK-ERROR: nothing was evaluated", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    main()
