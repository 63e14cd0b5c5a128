"""Where intermediate data is kept, how the propagation is divided and how
often it is backpropagated do not change any result."""

import torch
from hypothesis import strategies as st

from .. import gen, gradient as G, sim
from ..core import Violation

EXAMPLES = {"quick": 3500, "thorough": 20000}


@st.composite
def strategy(draw, tier):
    kind = draw(st.sampled_from(["scalar", "acoustic", "elastic", "born"]))
    c = draw(gen.wave(kind, max_nt=12, big=True, max_shots=4))
    names = G.leaf_names(c)
    mask = draw(st.integers(1, 2 ** len(names) - 1))
    c["grad"] = [i for i in range(len(names)) if mask >> i & 1]
    if draw(st.booleans()):
        c["grad"] = list(range(len(names)))
    c["loss"] = draw(st.sampled_from(["rec", "all", "wave", "mix"]))
    c["gseed"] = draw(st.integers(0, 2**31 - 1))
    c["dtype"] = draw(st.sampled_from(["double", "float"]))
    c["threads"] = draw(st.sampled_from([1, 2, 4]))
    c["compress"] = draw(st.booleans())
    var = []
    for _ in range(draw(st.integers(1, 4))):
        v = {"storage": draw(st.sampled_from(["device", "cpu", "disk", "disk", "none"]))}
        if draw(st.integers(0, 1)):
            v["cf"] = draw(st.integers(1, c["nt"] + 1))
            v["cb"] = draw(st.sampled_from(["f", "b", "fb"]))
        if draw(st.integers(0, 2)) == 0:
            v["repeat"] = 2
        var.append(v)
    c["variants"] = var
    return c


def run(case, d, w, dtype, v):
    c = {**case, "storage": v["storage"], "backend": "c"}
    c.pop("cf", None)
    if v.get("cf"):
        c["cf"], c["cb"] = v["cf"], v["cb"]
    names = [G.leaf_names(case)[i] for i in case["grad"]]
    leaves = {
        k: x.to(dtype).clone().requires_grad_(k in names)
        for k, x in d["leaves"].items()
    }
    torch.set_num_threads(case["threads"])
    kw = G.extra_kw(c)
    if case["compress"]:
        kw["storage_compression"] = True
    n = v.get("repeat", 1)
    all_grads = []
    try:
        got = sim.run_dw(c, d, leaves, **kw)
        if w is None:
            w = G.weights(case, {k: x.detach().double() for k, x in got.items()})
        outs = [k for k in w if got[k].requires_grad]
        for k in range(n):
            if not outs:
                all_grads.append({m: None for m in names})
                continue
            g = sim.guard(
                f"backward number {k + 1}",
                torch.autograd.grad,
                [got[o] for o in outs],
                [leaves[m] for m in names],
                grad_outputs=[w[o].to(dtype) for o in outs],
                allow_unused=True,
                retain_graph=k + 1 < n,
            )
            all_grads.append(dict(zip(names, g)))
    finally:
        torch.set_num_threads(1)
    return {k: x.detach() for k, x in got.items()}, all_grads, w


def same(a, b, tol):
    if a is None or b is None:
        x = b if a is None else a
        return x is None or not bool((x != 0).any())
    if a.shape != b.shape:
        return False
    if tol == 0:
        return bool(((a == b) | (a.isnan() & b.isnan())).all())
    s = max(float(a.abs().max()), float(b.abs().max())) if a.numel() else 0
    return a.numel() == 0 or float((a - b).abs().max()) <= tol * s


def check(case):
    d = sim.data(case)
    dtype = torch.float64 if case["dtype"] == "double" else torch.float32
    base, g0, w = run(case, d, None, dtype, {"storage": "device"})
    g0 = g0[0]
    # sums over threads are formed per chunk, so chunks may round differently
    eps = 1e-9 if case["dtype"] == "double" else 3e-3
    for v in case["variants"]:
        got, grads, _ = run(case, d, w, dtype, v)
        for k in base:
            if not same(base[k], got[k], 0):
                raise Violation(f"{v}: output {k} is different")
        for i, g in enumerate(grads):
            for n in g0:
                if v["storage"] == "none" and any(
                    leaf == "model" for leaf, _ in g
                ):
                    # documented not to accumulate model gradients
                    if n[0] == "model":
                        continue
                tol = eps if v.get("cf") and n[0] == "model" else 0
                if not same(g0[n], g[n], tol):
                    raise Violation(
                        f"{v}: gradient of {n} is different"
                        + (f" in backward number {i + 1}" if i else "")
                    )
    nontrivial = any(g is not None and bool((g != 0).any()) for g in g0.values())
    labels = [case["kind"], f"{len(case['shape'])}D", case["dtype"]] + [
        "variant " + v["storage"] + (" compressed" if case["compress"] else "")
        for v in case["variants"]
    ]
    if any(v.get("cf") for v in case["variants"]):
        labels.append("divided by callbacks")
    if any(v.get("repeat") for v in case["variants"]):
        labels.append("backpropagated twice")
    return {"nontrivial": nontrivial, "labels": sorted(set(labels))}
