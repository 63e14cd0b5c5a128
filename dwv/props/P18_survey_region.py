"""Propagating in part of the model is propagating in a model of that part."""

import torch
from hypothesis import strategies as st

from .. import gen, gradient as G, sim
from ..core import Violation

EXAMPLES = {"quick": 5000, "thorough": 30000}


def extents(case, sp):
    """Documented: the sources and receivers of all shots plus the padding,
    None continuing to the edge."""
    nd = len(case["shape"])
    pts = [
        p
        for g in (case["src"], case["rec"])
        for shots in g.values()
        if shots
        for shot in shots
        for p in shot
        if p[0] != sim.IGNORE
    ]
    if not pts:
        return None
    side = [sp] * (2 * nd) if not isinstance(sp, list) else sp
    out = []
    for d in range(nd):
        a, b = side[2 * d], side[2 * d + 1]
        lo = 0 if a is None else max(0, min(p[d] for p in pts) - a)
        n = case["shape"][d]
        hi = n if b is None else min(n, max(p[d] for p in pts) + 1 + b)
        out.append([lo, hi])
    return out


@st.composite
def strategy(draw, tier):
    kind = draw(st.sampled_from(["scalar", "acoustic", "elastic", "born"]))
    how = draw(st.sampled_from(["pad", "pad", "origin"]))
    if how == "origin":
        c = draw(gen.wave(kind, big=True, part=2))
        # the model of the region alone has no half-cell after its last one
        # in which staggered sources and receivers could be
        for g in (c["src"], c["rec"]):
            for ty, shots in g.items():
                if ty in ("bg", "sc"):
                    continue
                for d in sim.halves(kind, len(c["shape"]), ty):
                    for shot in shots:
                        for p in shot:
                            if p[0] != sim.IGNORE and p[d] == sim.region(c)[d][1] - 1:
                                p[:] = [sim.IGNORE] * len(p)
    else:
        c = draw(gen.wave(kind, survey=False, w0=False, need_src=True, big=True))
        lo = 0 if kind in ("scalar", "born") else 1
        nd = len(c["shape"])
        if draw(st.booleans()):
            sp = draw(st.sampled_from([lo, lo, 1, 1, 2, 3, 5]))
        else:
            sp = [
                draw(st.sampled_from([None, lo if s else 0, 1, 1, 2, 4]))
                for _ in range(nd)
                for s in (0, 1)
            ]
        ext = extents(c, sp)
        if ext is None:
            # nothing to place the region around
            c["survey_pad"] = [None] * (2 * nd)
            ext = [[0, n] for n in c["shape"]]
        else:
            c["survey_pad"] = sp
        c["region"] = ext
        fields = sim.fields_of(kind, nd)
        if draw(st.integers(0, 2)) == 0:
            mask = draw(st.integers(1, 2 ** len(fields) - 1))
            c["w0"] = [f for i, f in enumerate(fields) if mask >> i & 1]
    c["max_vel"] = c.get("max_vel", 1.0)
    names = G.leaf_names(c)
    mask = draw(st.integers(1, 2 ** len(names) - 1))
    c["grad"] = [i for i in range(len(names)) if mask >> i & 1]
    c["loss"] = draw(st.sampled_from(["rec", "all"]))
    c["gseed"] = draw(st.integers(0, 10**6))
    c["backend"] = draw(st.sampled_from(["c"] * 7 + ["eager"]))
    return c


def crop(case, leaves):
    reg = sim.region(case)
    nd = len(reg)
    c = dict(case)
    c["shape"] = [b - a for a, b in reg]
    c.pop("region", None)
    c.pop("survey_pad", None)

    def locs(groups):
        return {
            ty: shots
            and [
                [
                    p if p[0] == sim.IGNORE else [x - a for x, (a, _) in zip(p, reg)]
                    for p in shot
                ]
                for shot in shots
            ]
            for ty, shots in groups.items()
        }

    c["src"], c["rec"] = locs(case["src"]), locs(case["rec"])
    L = {}
    for k, x in leaves.items():
        if k[0] == "model":
            x = x[(..., *(slice(a, b) for a, b in reg))]
        L[k] = x
    return c, L


def check(case):
    d = sim.data(case)
    names = [G.leaf_names(case)[i] for i in case["grad"]]
    kw = {"python_backend": "eager"} if case["backend"] == "eager" else {}
    res = []
    w = None
    for cropped in (True, False):
        L = {k: x.clone().requires_grad_(k in names) for k, x in d["leaves"].items()}
        c, part = crop(case, L) if cropped else (case, L)
        got = sim.run_dw(c, d, part, **kw)
        if w is None:
            w = G.weights(case, {k: x.detach() for k, x in got.items()})
        ks = [k for k in w if got[k].requires_grad]
        g = [None] * len(names)
        if ks:
            g = sim.guard(
                "backward",
                torch.autograd.grad,
                [got[k] for k in ks],
                [L[n] for n in names],
                grad_outputs=[w[k] for k in ks],
                allow_unused=True,
            )
        g = {n: torch.zeros_like(L[n]) if x is None else x for n, x in zip(names, g)}
        res.append(({k: x.detach() for k, x in got.items()}, g))
    (want, gw), (got, gg) = res
    what = f"region {sim.region(case)} of {case['shape']}: "
    msg = sim.compare(case, got, want, 1e-12, what)
    if msg:
        raise Violation(msg)
    msg = G.compare_grads(case, d, gg, gw, 1e-10, 1e-14)
    if msg:
        raise Violation(what + msg)
    part = [b - a for a, b in sim.region(case)] != list(case["shape"])
    return {
        "nontrivial": part and gen.nontrivial(case, want),
        "labels": [
            case["kind"],
            f"{len(case['shape'])}D",
            "survey_pad" if case.get("survey_pad") is not None else "origin",
            case["backend"],
            "part of the model" if part else "all of the model",
        ],
    }
