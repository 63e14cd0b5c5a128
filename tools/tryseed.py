#!/usr/bin/env python3
"""Tries a planted bug of /verif/seeded in a scratch copy of /repo.

usage: tryseed.py ID [--no-tests] [--checks P05,P10] [--seeds 1,2]

Applies seeded/ID/patch.diff to a copy of /repo's tracked files, builds it,
runs the demonstration on both trees, the stable tests on the changed one,
and the checks named (default: the bug's property) against the changed one.
Not part of any check.
"""
import argparse, json, os, shutil, subprocess, sys, time
from pathlib import Path
import xml.etree.ElementTree as ET

V = Path(__file__).resolve().parent.parent
ap = argparse.ArgumentParser()
ap.add_argument("id")
ap.add_argument("--no-tests", action="store_true")
ap.add_argument("--checks")
ap.add_argument("--seeds", default="1")
ap.add_argument("--keep", action="store_true")
a = ap.parse_args()
d = V / "seeded" / a.id
m = Path("/tmp/bt/m") / a.id
shutil.rmtree(m, ignore_errors=True)
m.mkdir(parents=True)
subprocess.run(f"git -C /repo archive HEAD | tar x -C {m}", shell=True, check=True)


def build():
    env = {**os.environ, "DWV_REPO": str(m)}
    code = (
        f"import sys; sys.path.insert(0,'{V}')\nfrom pathlib import Path\n"
        f"from dwv import build as B\nB.build(Path('{m}/bt'),'O0')\n"
    )
    subprocess.run([sys.executable, "-c", code], env=env, check=True)
    shutil.copy(m / "bt/deepwave/libdeepwave_C.so", m / "src/deepwave/")
    shutil.rmtree(m / "bt")


def demo(cwd):
    dd = Path("/tmp/bt/m/demo_" + a.id)
    shutil.rmtree(dd, ignore_errors=True)
    shutil.copytree(d, dd, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    env = {k: v for k, v in os.environ.items() if not k.startswith("DWV")}
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    t = time.time()
    r = subprocess.run(["bash", str(dd / "demo.sh")], cwd=cwd, env=env, capture_output=True, text=True, timeout=300)
    shutil.rmtree(dd)
    return r.returncode, round(time.time() - t, 1), (r.stdout + r.stderr)[-300:]


shutil.copy("/repo/src/deepwave/libdeepwave_C.so", m / "src/deepwave/")
print("demo unchanged:", demo(m))
subprocess.run(["git", "apply", "--whitespace=nowarn", str(d / "patch.diff")], cwd=m, check=True,
               env={**os.environ, "GIT_CEILING_DIRECTORIES": "/tmp/bt"})
if any(l.startswith("+++ ") and l.strip().endswith((".c", ".h")) for l in open(d / "patch.diff")):
    build()
print("demo patched:", demo(m))
if not a.no_tests:
    env = {**os.environ, "PYTHONPATH": str(m / "src"), "OMP_NUM_THREADS": "1", "PYTHONHASHSEED": "0",
           "PYTHONDONTWRITEBYTECODE": "1", "TORCHINDUCTOR_CACHE_DIR": str(m / "ind")}
    ign = []
    for t in ("test_scalar", "test_scalar_born", "test_acoustic", "test_elastic"):
        ign.append(f"--ignore=tests/{t}.py")
    subprocess.run(["timeout", "780", "/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8",
                    "--timeout=300", "-o", "junit_family=xunit2", f"--junitxml={m}/report.xml", "tests", *ign],
                   cwd=m, env=env, capture_output=True)
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base['stable']
    ok = set()
    for tc in ET.parse(m / "report.xml").getroot().iter("testcase"):
        if not any(c.tag in ("failure", "error", "skipped") for c in tc):
            ok.add((tc.get("classname"), tc.get("name")))
    names = {f'{c}::{n}' for c, n in ok}
    missing = [s for s in stable if (s if isinstance(s, str) else s.get("id")) not in names]
    print(f"tests: {len(ok)} passed, stable missing: {len(missing)}", missing[:3])
prop = json.load(open(d / "meta.json"))["property"]
env = {**os.environ, "DWV_REPO": str(m)}
for c in (a.checks or prop).split(","):
    for s in a.seeds.split(","):
        t = time.time()
        r = subprocess.run([sys.executable, "run.py", c, "--seed", s], cwd=V, env=env, capture_output=True, text=True)
        lines = [l for l in r.stdout.splitlines() if "VIOLATION" in l or c in l]
        print(f"check {c} seed {s}: exit {r.returncode} in {time.time() - t:.0f} s;", " | ".join(lines)[-400:])
if not a.keep:
    shutil.rmtree(m)
