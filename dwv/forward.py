"""Forward propagation against the reference (P01 to P04)."""

import torch
from hypothesis import strategies as st

from . import gen, sim
from .core import Violation

TOL = {"double": 2e-9, "float": 3e-3}


def strategy(kind):
    @st.composite
    def s(draw, tier):
        c = draw(gen.wave(kind, max_nt=9 if tier == "quick" else 16,
                          big=tier != "quick"))
        c["dtype"] = draw(st.sampled_from(["double"] * 4 + ["float"]))
        c["backend"] = draw(st.sampled_from(["c"] * 7 + ["eager"]))
        c["threads"] = draw(st.sampled_from([1, 1, 1, 2, 3]))
        return c

    return s


def tol(case):
    t = TOL[case["dtype"]]
    if case.get("time_taper") or case.get("freq_taper_frac"):
        t = max(t, 3e-6)  # deepwave computes its tapers in single precision
    return t


def check(case):
    d = sim.data(case)
    dt = torch.float64 if case["dtype"] == "double" else torch.float32
    leaves = sim.cast(d["leaves"], dt)
    torch.set_num_threads(case["threads"])
    try:
        kw = {"python_backend": "eager"} if case["backend"] == "eager" else {}
        before = {k: v.clone() for k, v in leaves.items()}
        got = sim.run_dw(case, d, leaves, **kw)
    finally:
        torch.set_num_threads(1)
    for k, v in leaves.items():
        if not torch.equal(v, before[k]):
            raise Violation(f"input {k} was modified")
    for k, v in got.items():
        if v.numel() and v.dtype != dt:
            raise Violation(f"output {k} has dtype {v.dtype}")
    want = sim.run_ref(case, d)
    msg = sim.compare(case, got, want, tol(case))
    if msg:
        raise Violation(msg)
    nd = len(case["shape"])
    labels = [
        f"{nd}D",
        f"acc{case['acc']}",
        case["dtype"],
        case["backend"],
        f"ratio{int(case['dtf']) + 1}",
        f"threads{case['threads']}",
    ]
    if "region" in case:
        labels.append("part of the model")
    if case["w0"]:
        labels.append("initial wavefields")
    if any(case["pml"]):
        labels.append("pml")
    if case["S"] > 1:
        labels.append("shots>1")
    if any(n > 1 for n in case["mbatch"].values()):
        labels.append("batched model")
    if case.get("zone"):
        labels.append(case["zone"])
    return {"nontrivial": gen.nontrivial(case, want), "labels": labels}
