"""Compressed storage: only model gradients change, by at most the error of
storing each 8-bit sample of a block."""

import torch
from hypothesis import strategies as st

from .. import gen, gradient as G, sim
from ..core import Violation

EXAMPLES = {"quick": 1600, "thorough": 20000}
SLACK = 2.0


@st.composite
def strategy(draw, tier):
    kind = draw(st.sampled_from(["scalar", "acoustic", "elastic", "born"]))
    c = draw(gen.wave(kind, max_nt=8 if tier == "quick" else 12, big=True))
    names = G.leaf_names(c)
    c["grad"] = list(range(len(names)))
    if draw(st.booleans()):
        nm = len(sim.models_of(kind))
        keep = draw(st.integers(1, 2**nm - 1))
        c["grad"] = [i for i in range(len(names)) if i >= nm or keep >> i & 1]
    c["loss"] = draw(st.sampled_from(["rec", "all", "wave", "mix"]))
    c["gseed"] = draw(st.integers(0, 2**31 - 1))
    c["dtype"] = draw(st.sampled_from(["double", "float"]))
    c["threads"] = draw(st.sampled_from([1, 1, 3]))
    c["storage"] = draw(st.sampled_from(["device", "cpu", "disk"]))
    if draw(st.integers(0, 2)) == 0:
        c["cf"] = draw(st.integers(1, c["nt"] + 1))
        c["cb"] = draw(st.sampled_from(["f", "b", "fb"]))
    return c


def bounds(case, d, w):
    """Bound of the error of each model's gradient, from the reference."""
    models = [n for n in G.leaf_names(case) if n[0] == "model"]
    # the shots have models of their own here: the errors of different shots may
    # have opposite effects
    nd, S = len(case["shape"]), case["S"]
    leaves = {
        k: x.expand(S, *x.shape[-nd:]).clone().requires_grad_()
        if k[0] == "model"
        else x.clone().requires_grad_()
        for k, x in d["leaves"].items()
    }
    case = {**case, "mbatch": {n: S for n in case["mbatch"]}}
    box = {"E": {}, "M": {}}
    out = sim.run_ref(case, d, leaves, box)
    loss = sum((out[k] * g).sum() for k, g in w.items())
    res = {n: torch.zeros_like(d["leaves"][n]) for n in models}
    if not isinstance(loss, torch.Tensor) or not loss.requires_grad:
        return res
    torch.autograd.backward(loss, retain_graph=True)
    for key, e in box["E"].items():
        M = box["M"][key]
        if not M.requires_grad:
            continue
        g = torch.autograd.grad(
            M,
            [leaves[n] for n in models],
            grad_outputs=e,
            allow_unused=True,
            retain_graph=True,
        )
        for n, x in zip(models, g):
            if x is not None:
                e = x.abs() / 254
                if res[n].ndim == nd:
                    e = e.sum(0)
                elif len(res[n]) == 1:
                    e = e.sum(0, keepdim=True)
                res[n] = res[n] + e
    return res


def check(case):
    d = sim.data(case)
    dtype = torch.float64 if case["dtype"] == "double" else torch.float32
    with torch.no_grad():
        want = sim.run_ref(case, d)
    w = G.weights(case, want)
    plain = {**case, "storage": "device"}
    plain.pop("cf", None)
    got0, g0, _ = G.dw_gradients(plain, d, w, dtype)
    got1, g1, _ = G.dw_gradients(case, d, w, dtype, storage_compression=True)
    for k in got0:
        if not torch.equal(got0[k].detach(), got1[k].detach()):
            raise Violation(f"compression changed output {k}")
    lossy = False
    E = bounds(case, d, w)
    for n in g0:
        a, b = g0[n], g1[n]
        if a is None and b is None:
            continue
        if a is None or b is None:
            raise Violation(f"gradient of {n}: only None with or without compression")
        if n[0] != "model":
            if not torch.equal(a, b):
                raise Violation(f"compression changed the gradient of {n}")
            continue
        if not torch.isfinite(b).all():
            raise Violation(f"gradient of {n} is not finite")
        s = float(a.abs().max()) if a.numel() else 0.0
        eps = 1e-9 if case["dtype"] == "double" else 1e-3
        lim = SLACK * E[n] + eps * (s + float(E[n].max()))
        err = (a - b).abs().double()
        lossy |= bool((err > 1e-7 * s).any())
        if bool((err > lim).any()):
            k = int((err - lim).argmax())
            raise Violation(
                f"compressed gradient of {n} differs by {float(err.flatten()[k]):.3e} "
                f"(largest gradient {s:.3e}), 8-bit storage explains at most "
                f"{float(lim.flatten()[k]):.3e}"
            )
    labels = [
        case["kind"],
        f"{len(case['shape'])}D",
        case["dtype"],
        "storage " + case["storage"],
    ]
    if case.get("cf"):
        labels.append("divided by callbacks")
    if lossy:
        labels.append("lossy")
    return {"nontrivial": lossy, "labels": labels}
