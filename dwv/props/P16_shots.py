"""Shots do not influence each other."""

import torch
from hypothesis import strategies as st

from .. import gen, gradient as G, sim
from ..core import Violation

EXAMPLES = {"quick": 4000, "thorough": 25000}


@st.composite
def race(draw):
    """More shots on larger models, so that threads really run at the same time."""
    kind = draw(st.sampled_from(["scalar", "acoustic", "elastic", "born", "born"]))
    nd = draw(st.sampled_from([1, 2, 2, 2, 3]))
    shape = [{1: 700, 2: 26, 3: 10}[nd] + draw(st.integers(0, 8)) for _ in range(nd)]
    S = draw(st.integers(6, 12))
    c = {"kind": kind, "shape": shape, "S": S, "dx": [5.0] * nd, "max_vel": 1.0}
    c["acc"] = draw(st.sampled_from([2, 4]))
    c["pml"] = [draw(st.integers(0, 3)) for _ in range(2 * nd)]
    c["freq"], c["nt"], c["dtf"] = 25, draw(st.integers(4, 12)), 0.9
    c["seed"] = draw(st.integers(0, 2**31 - 1))
    c["style"], c["amp_style"] = "random", "noise"
    c["mbatch"] = {n: draw(st.sampled_from([0, 1, S])) for n in sim.models_of(kind)}
    r = sim.rng(c["seed"], 3)
    place = lambda: [[[int(r.integers(0, n - 1)) for n in shape]] for _ in range(S)]
    types = sim.src_types(kind, nd)
    c["src"] = {types[draw(st.integers(0, len(types) - 1))]: place()}
    c["rec"] = {t: place() for t in sim.rec_types(kind, nd)}
    c["w0"] = []
    names = G.leaf_names(c)
    models = [i for i, n in enumerate(names) if n[0] == "model"]
    mask = draw(st.integers(1, 2 ** len(models) - 1))
    c["grad"] = [i for k, i in enumerate(models) if mask >> k & 1]
    c["loss"] = draw(st.sampled_from(["rec", "all"]))
    c["gseed"] = draw(st.integers(0, 10**6))
    c["threads"] = draw(st.sampled_from([8, 8, 5]))
    c["storage"] = draw(st.sampled_from(["device", "disk", "disk"]))
    c["compression"] = draw(st.sampled_from([False, True, True]))
    if draw(st.integers(0, 3)) == 0:
        c["every"] = 2
    c["race"] = True
    return c


@st.composite
def strategy(draw, tier):
    if draw(st.integers(0, 19)) == 0:
        return draw(race())
    kind = draw(st.sampled_from(["scalar", "acoustic", "elastic", "born"]))
    c = draw(gen.wave(kind, max_shots=5, max_nt=7))
    # the region and internal time step must not depend on the selection
    c["max_vel"] = c.get("max_vel", 1.0)
    S = c["S"]
    order = draw(st.permutations(list(range(S))))
    k = draw(st.integers(1, S))
    cuts = sorted(draw(st.lists(st.integers(1, S - 1), max_size=k - 1, unique=True))) if S > 1 else []
    groups = []
    for a, b in zip([0, *cuts], [*cuts, S]):
        groups.append(list(order[a:b]))
    c["groups"] = groups
    c["dup"] = draw(st.lists(st.integers(0, S - 1), min_size=1, max_size=5))
    names = G.leaf_names(c)
    mask = draw(st.integers(1, 2 ** len(names) - 1))
    c["grad"] = [i for i in range(len(names)) if mask >> i & 1]
    c["loss"] = draw(st.sampled_from(["rec", "all"]))
    c["gseed"] = draw(st.integers(0, 10**6))
    c["threads"] = draw(st.sampled_from([1, 2, 4]))
    c["threads2"] = draw(st.sampled_from([1, 3]))
    c["expand"] = draw(st.booleans())
    c["storage"] = draw(st.sampled_from(["device", "device", "cpu", "disk"]))
    c["compression"] = draw(st.sampled_from([False, False, True]))
    return c


def select(case, leaves, shots, expand):
    """The case and inputs of only some of the shots."""
    c = {**case, "S": len(shots)}
    c["src"] = {k: None if v is None else [v[s] for s in shots] for k, v in case["src"].items()}
    c["rec"] = {k: None if v is None else [v[s] for s in shots] for k, v in case["rec"].items()}
    out = {}
    for k, x in leaves.items():
        if k[0] == "model":
            nb = case["mbatch"][k[1]]
            if nb > 1:
                x = x[shots]
            elif expand:
                x = (x if nb == 1 else x[None]).expand(len(shots), *x.shape[-len(case["shape"]):])
        else:
            x = x[shots]
        out[k] = x
    return c, out


def run(case, d, shots, w, names, threads, expand):
    L = {k: x.clone().requires_grad_(k in names) for k, x in d["leaves"].items()}
    c, part = select(case, L, shots, expand)
    torch.set_num_threads(threads)
    try:
        got = sim.run_dw(c, d, part, **G.extra_kw(c))
        ks = [k for k in w if got[k].requires_grad] if w else []
        g = [None] * len(names)
        if ks:
            g = sim.guard(
                "backward",
                torch.autograd.grad,
                [got[k] for k in ks],
                [L[n] for n in names],
                grad_outputs=[w[k][shots] for k in ks],
                allow_unused=True,
            )
    finally:
        torch.set_num_threads(1)
    return (
        {k: x.detach() for k, x in got.items()},
        {n: torch.zeros_like(L[n]) if x is None else x for n, x in zip(names, g)},
    )


def check(case):
    d = sim.data(case)
    S = case["S"]
    if case.get("race"):
        return check_race(case, d)
    names = [G.leaf_names(case)[i] for i in case["grad"]]
    everyone = list(range(S))
    whole, _ = run(case, d, everyone, None, names, 1, False)
    w = G.weights(case, whole)
    whole, g0 = run(case, d, everyone, w, names, case["threads"], False)

    def same(got, shots, what):
        for k, x in whole.items():
            if x.numel() == 0:
                continue
            if not torch.equal(got[k], x[shots]):
                e = float((got[k] - x[shots]).abs().max())
                raise Violation(f"{what}: {k} differs by {e}")

    total = {n: 0 for n in names}
    for shots in case["groups"]:
        got, g = run(case, d, shots, w, names, case["threads2"], case["expand"])
        same(got, shots, f"shots {shots}")
        for n in names:
            total[n] = total[n] + g[n]
    msg = G.compare_grads(case, d, total, g0, 1e-10, 1e-14)
    if msg:
        raise Violation(f"sum over groups {case['groups']}: {msg}")
    got, _ = run(case, d, case["dup"], None, names, case["threads"], False)
    same(got, case["dup"], f"repeated shots {case['dup']}")
    return {
        "nontrivial": S > 1 and gen.nontrivial(case, whole),
        "labels": [case["kind"], f"{len(case['shape'])}D", f"{S} shots",
                   f"threads {case['threads']}"]
        + (["expanded models"] if case["expand"] else []),
    }


def check_race(case, d):
    names = [G.leaf_names(case)[i] for i in case["grad"]]
    everyone = list(range(case["S"]))
    alone, _ = run(case, d, everyone, None, names, 1, False)
    w = G.weights(case, alone)
    alone, g0 = run(case, d, everyone, w, names, 1, False)
    what = f"{case['threads']} threads"
    for _ in range(3):
        got, g = run(case, d, everyone, w, names, case["threads"], False)
        for k, x in alone.items():
            if not torch.equal(got[k], x):
                raise Violation(f"{what}: {k} differs by {float((got[k] - x).abs().max())}")
        msg = G.compare_grads(case, d, g, g0, 1e-10, 1e-14)
        if msg:
            raise Violation(f"{what}: {msg}")
    return {
        "nontrivial": gen.nontrivial(case, alone),
        "labels": [case["kind"], f"{len(case['shape'])}D", f"threads {case['threads']}",
                   "concurrent", "storage " + case["storage"]],
    }
