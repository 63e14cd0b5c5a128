"""Sources and receivers are independent points: ignored ones have no effect
and their order does not matter."""

import torch
from hypothesis import strategies as st

from .. import gen, gradient as G, sim
from ..core import Violation

EXAMPLES = {"quick": 5000, "thorough": 30000}


@st.composite
def strategy(draw, tier):
    kind = draw(st.sampled_from(["scalar", "acoustic", "elastic", "born"]))
    c = draw(gen.wave(kind, need_src=True, n_max=4))
    c["law"] = draw(st.sampled_from(["ignored", "order", "split", "dtype"]))
    plan = {}
    for what in ("src", "rec"):
        for ty, shots in c[what].items():
            n = len(shots[0])
            if c["law"] == "ignored":
                # where each shot gets additional ignored points
                k = draw(st.integers(0, 2))
                plan[f"{what}_{ty}"] = [
                    draw(st.lists(st.integers(0, n), min_size=k, max_size=k))
                    for _ in shots
                ]
            else:
                plan[f"{what}_{ty}"] = [
                    list(draw(st.permutations(list(range(n))))) for _ in shots
                ]
    c["plan"] = plan
    c["loc_dtype"] = draw(st.sampled_from(["int32", "int64", "float32", "float64"]))
    c["gseed"] = draw(st.integers(0, 10**6))
    c["loss"] = "all"
    c["backend"] = draw(st.sampled_from(["c"] * 7 + ["eager"]))
    return c


def arrange(case, leaves):
    """Case with other lists of points, and for each list and shot the new
    position of each of the old points."""
    c = {**case, "src": dict(case["src"]), "rec": dict(case["rec"])}
    L = dict(leaves)
    pos = {}
    nd = len(case["shape"])
    g = torch.Generator().manual_seed(case["gseed"])
    for what in ("src", "rec"):
        for ty, shots in case[what].items():
            new, where = [], []
            amps = []
            n = len(shots[0])
            for s, shot in enumerate(shots):
                plan = case["plan"][f"{what}_{ty}"][s]
                if case["law"] == "ignored":
                    items = list(range(n))
                    for k in sorted(plan, reverse=True):
                        items.insert(k, -1)
                elif case["law"] == "order":
                    items = plan
                else:
                    items = list(range(n))
                new.append([[sim.IGNORE] * nd if i < 0 else shot[i] for i in items])
                where.append([items.index(i) for i in range(n)])
                if what == "src":
                    a = leaves["amp", ty][s]
                    junk = torch.randn(a.shape[-1], generator=g, dtype=torch.float64)
                    rows = [junk * 1e3 if i < 0 else a[i] for i in items]
                    amps.append(torch.stack(rows) if rows else a)
            c[what][ty] = new
            pos[what, ty] = where
            if what == "src":
                L["amp", ty] = torch.stack(amps)
    return c, L, pos


def grads(case, d, L, names, w, kw, posr=None):
    L = {k: x.detach().clone().requires_grad_(k in names) for k, x in L.items()}
    got = sim.run_dw(case, d, L, **kw)
    out = {k: x.detach() for k, x in got.items()}
    if w is None:
        w = G.weights(case, out)
    ww = {}
    for k, x in w.items():
        if posr is not None and k.startswith("rec_") and k[4:] in posr:
            g = torch.zeros_like(out[k])
            # ignored receivers are constants
            g += 7.0 / max(1e-300, sim.scale_of(case, out, k))
            for s, where in enumerate(posr[k[4:]]):
                for i, j in enumerate(where):
                    g[s, j] = x[s, i]
            x = g
        ww[k] = x
    ks = [k for k in ww if got[k].requires_grad]
    g = [None] * len(names)
    if ks:
        g = sim.guard(
            "backward",
            torch.autograd.grad,
            [got[k] for k in ks],
            [L[n] for n in names],
            grad_outputs=[ww[k] for k in ks],
            allow_unused=True,
        )
    return out, {
        n: torch.zeros_like(L[n]) if x is None else x for n, x in zip(names, g)
    }, w


def check(case):
    d = sim.data(case)
    kind, law = case["kind"], case["law"]
    kw = {"python_backend": "eager"} if case["backend"] == "eager" else {}
    names = G.leaf_names(case)
    base, g0, w = grads(case, d, d["leaves"], names, None, kw)
    labels = [kind, f"{len(case['shape'])}D", law, case["backend"]]
    for k, x in base.items():
        if k.startswith("rec_") and x.numel():
            for s, shot in enumerate(case["rec"][k[4:]]):
                for i, p in enumerate(shot):
                    if p[0] == sim.IGNORE and bool((x[s, i] != 0).any()):
                        raise Violation(f"ignored receiver {i} of {k} is not zero")
    if law in ("ignored", "order"):
        c, L, pos = arrange(case, d["leaves"])
        posr = {k[1]: v for k, v in pos.items() if k[0] == "rec"}
        got, g1, _ = grads(c, d, L, names, w, kw, posr)
        back = {}
        for k, x in got.items():
            if k.startswith("rec_") and k[4:] in posr:
                y = torch.zeros_like(base[k])
                if y.numel():
                    for s, where in enumerate(posr[k[4:]]):
                        for i, j in enumerate(where):
                            y[s, i] = x[s, j]
                    for s, shot in enumerate(c["rec"][k[4:]]):
                        for j, p in enumerate(shot):
                            if p[0] == sim.IGNORE and bool((x[s, j] != 0).any()):
                                raise Violation(f"ignored receiver {j} of {k} is not zero")
                x = y
            back[k] = x
        gb = {}
        for n, x in g1.items():
            if n[0] == "amp":
                y = torch.zeros_like(g0[n])
                for s, where in enumerate(pos["src", n[1]]):
                    used = set(where)
                    for i, j in enumerate(where):
                        y[s, i] = x[s, j]
                    for j in range(x.shape[1]):
                        if j not in used and bool((x[s, j] != 0).any()):
                            raise Violation(f"gradient of ignored source {j}: {x[s, j]}")
                x = y
            gb[n] = x
        msg = sim.compare(case, back, base, 1e-12, law + ": ")
        msg = msg or G.compare_grads(case, d, gb, g0, 1e-10, 1e-14)
        if msg:
            raise Violation(f"{law} {case['plan']}: {msg}")
    elif law == "split":
        # sources one at a time add up
        nt0 = {k: 0 for k in base}
        total = dict(nt0)
        for ty, shots in case["src"].items():
            for i in range(len(shots[0])):
                c = {**case, "src": {ty: [[shot[i]] for shot in shots]}}
                c["w0"] = []
                c["region"] = case.get("region")
                L = {k: x for k, x in d["leaves"].items() if k[0] == "model"}
                L["amp", ty] = d["leaves"]["amp", ty][:, i : i + 1]
                extra = dict(kw)
                if case.get("region"):
                    f = sim.fields_of(kind, len(case["shape"]))[0]
                    c["w0"] = [f]
                    z = torch.zeros(case["S"], *sim.comp_shape(case), dtype=torch.float64)
                    L["w0", f] = z
                out = sim.run_dw(c, d, L, **extra)
                for k in total:
                    total[k] = total[k] + out[k].detach()
        # initial wavefields alone
        c = {**case, "src": {}, "region": case.get("region")}
        L = {k: x for k, x in d["leaves"].items() if k[0] != "amp"}
        if not case["w0"]:
            f = sim.fields_of(kind, len(case["shape"]))[0]
            c["w0"] = [f]
            L["w0", f] = torch.zeros(case["S"], *sim.comp_shape(case), dtype=torch.float64)
        out = sim.run_dw(c, d, L, **kw)
        for k in total:
            total[k] = total[k] + out[k].detach()
        msg = sim.compare(case, total, base, 1e-9, "sum over sources: ")
        if msg:
            raise Violation(msg)
    else:
        dt = getattr(torch, case["loc_dtype"])
        old = sim.loc_tensor
        extra = {}
        nd = len(case["shape"])
        _, k0 = sim.dw_kwargs(case, d)
        for k, x in k0.items():
            if "locations" in k:
                extra[k] = x.to(dt)
        del old
        got = sim.run_dw(case, d, None, **{**kw, **extra})
        for k, x in got.items():
            if not torch.equal(x, base[k]):
                raise Violation(f"locations of type {dt}: {k} is different")
        labels.append(case["loc_dtype"])
    return {"nontrivial": gen.nontrivial(case, base), "labels": labels}
