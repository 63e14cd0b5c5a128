"""Function transforms (torch.func) of the propagators: forward-mode
derivatives, vectorisation over models, and their compositions."""

import warnings

import torch
from hypothesis import strategies as st

from .. import gen, gradient as G, sim
from ..core import Violation

EXAMPLES = {"quick": 3000, "thorough": 40000}
TOL = {"double": 1e-7, "float": 3e-2}

MODES = ["jvp", "jvp", "dual", "vmap", "vmap", "vmap jvp", "grad", "vmap grad", "hvp", "reject"]


@st.composite
def strategy(draw, tier):
    kind = draw(st.sampled_from(["scalar", "born", "acoustic", "elastic"]))
    mode = draw(st.sampled_from(MODES))
    c = draw(
        gen.wave(
            kind,
            nds=(1, 1, 2, 2, 3) if mode in ("jvp", "vmap") else (1, 1, 2),
            max_nt=6 if tier == "quick" else 10,
            max_pml=3,
            max_shots=2,
            acc=(2, 4) if draw(st.booleans()) else (2, 4, 6, 8),
            # a velocity of zero is not differentiable
            zones=mode in ("jvp", "vmap"),
            w0=draw(st.booleans()),
        )
    )
    c["mode"] = mode
    c["backend"] = "eager"
    c.setdefault("max_vel", 1.0)  # required
    n = len(sim.models_of(kind))
    c["which"] = draw(st.integers(1, 2**n - 1))  # models transformed
    # source amplitudes and initial wavefields transformed
    c["others"] = draw(st.integers(0, 2**20 - 1)) if mode == "dual" and draw(st.booleans()) else 0
    c["inner"] = draw(st.integers(1, 2**n - 1))  # models differentiated by grad
    c["n"] = draw(st.integers(1, 3))  # size of the vectorised dimension
    c["in_dim"] = draw(st.sampled_from([0, 0, -1]))
    c["loss"] = draw(st.sampled_from(["rec", "all", "wave"]))
    c["gseed"] = draw(st.integers(0, 2**31 - 1))
    c["dtype"] = draw(st.sampled_from(["double"] * 9 + ["float"]))
    c["what"] = draw(st.sampled_from(["max_vel", "amp"]))
    return c


def transformed(case, f, P, T, W, keys, vary):
    """The transform of f at P. The same for deepwave and the reference, but
    for vectorisation, that the reference does with a loop."""
    nm = len(sim.models_of(case["kind"]))
    sel = [i for i in range(nm) if case["which"] >> i & 1]
    if case["mode"] == "dual":  # torch.func supports models only
        sel += [i for i in range(nm, len(P)) if case["others"] >> (i - nm) & 1]
    args = [P[i] for i in sel]
    tang = [T[i] for i in sel]

    def part(*m):
        full = list(P)
        for i, x in zip(sel, m):
            full[i] = x
        return f(*full)

    inner = [k for k in range(len(sel)) if case["inner"] >> k & 1 or sel[k] >= nm] or [0]

    def loss(*m):
        out = part(*m)
        return sum(
            (W[k] * o).sum() + 0.5 * (W[k] * o).square().sum()
            for k, o in zip(keys, out)
            if k in W
        )

    grad = torch.func.grad(loss, argnums=tuple(inner))
    mode = case["mode"]
    if mode in ("jvp", "dual"):
        if mode == "dual" and vary:
            with torch.autograd.forward_ad.dual_level():
                out = part(
                    *[
                        torch.autograd.forward_ad.make_dual(p, t)
                        for p, t in zip(args, tang)
                    ]
                )
                ts = [torch.autograd.forward_ad.unpack_dual(o) for o in out]
            return [o.primal for o in ts] + [
                torch.zeros_like(o.primal) if o.tangent is None else o.tangent
                for o in ts
            ]
        out, t = torch.func.jvp(part, tuple(args), tuple(tang))
        return [*out, *t]
    if mode == "grad":
        return list(grad(*args))
    if mode == "hvp":
        return list(torch.func.jvp(grad, tuple(args), tuple(tang))[1])
    fac = [1.0, 0.9, 0.95][: case["n"]]
    if mode == "vmap jvp":
        g = lambda *t: torch.func.jvp(part, tuple(args), t)[1]
        xs = [[t * f for f in fac] for t in tang]
    else:
        g = part if mode == "vmap" else grad
        xs = [[p * f for f in fac] for p in args]
    if vary:
        d = case["in_dim"]
        return list(
            torch.func.vmap(g, in_dims=d)(*[torch.stack(x, d) for x in xs])
        )
    outs = [g(*[x[k] for x in xs]) for k in range(case["n"])]
    return [torch.stack(o) for o in zip(*outs)]


def check(case):
    mode, kind = case["mode"], case["kind"]
    d = sim.data(case)
    dt = torch.float64 if case["dtype"] == "double" else torch.float32
    L = d["leaves"]
    ms = [("model", n) for n in sim.models_of(kind)]
    ms += [k for k in L if k[0] != "model"]
    P = [L[n] for n in ms]
    T = []
    for n, p in zip(ms, P):
        r = sim.rng(case["gseed"], 5, sim._key(n[0] + n[1]))
        T.append(torch.from_numpy(r.standard_normal(tuple(p.shape))) * float(p.abs().max() if p.numel() else 0))

    def run_ref(*m):
        out = sim.run_ref(case, d, dict(zip(ms, m)))
        return tuple(out[k] for k in keys)

    with torch.no_grad():
        want0 = sim.run_ref(case, d)
    keys = list(want0)
    W = G.weights(case, want0)
    for k in W:
        if not k.startswith("rec_"):
            W[k] = W[k] * G.exists_mask(case, k)
    LD = sim.cast(L, dt)
    # the keywords that are transformed are found by the identity of tensors
    _, kw = sim.dw_kwargs(case, d, LD)
    place = {n: [k for k, v in kw.items() if v is LD[n]] for n in ms}
    gs, step = kw.pop("grid_spacing"), kw.pop("dt")
    kw["python_backend"] = "eager"
    func = sim.dw_func(kind)
    nm = len(sim.models_of(kind))

    def run_dw(*m):
        full = dict(kw)
        for n, x in zip(ms[nm:], m[nm:]):
            for k in place[n]:
                full[k] = x
        out = func(*m[:nm], gs, step, **full)
        return tuple(sim.name_outputs(case, out)[k] for k in keys)

    PD, TD = [LD[n] for n in ms], [t.to(dt) for t in T]
    WD = {k: v.to(dt) for k, v in W.items()}
    labels = [kind, mode, f"{len(case['shape'])}D", case["dtype"]]
    if mode == "reject":
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return {"nontrivial": True, "labels": labels + rejected(case, kw, run_dw, PD, ms, place)}
    if mode in ("grad", "vmap grad", "hvp") and not W:
        return {"nontrivial": False, "labels": ["no loss"]}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = sim.guard(
            f"{mode} of {kind}", transformed, case, run_dw, PD, TD, WD, keys, True
        )
    want = transformed(case, run_ref, P, T, W, keys, False)
    names = ([keys] if mode.startswith("vmap") else [keys, ["derivative of " + k for k in keys]])
    names = [k for x in names for k in x]
    if "grad" in mode or mode == "hvp":
        names = [f"argument {i}" for i in range(len(want))]
    tol = TOL[case["dtype"]]
    if case.get("time_taper") or case.get("freq_taper_frac"):
        tol = max(tol, 1e-5)
    nontrivial = False
    top = max([float(w.abs().max()) for w in want if w.numel()] + [0.0])
    for i, (g, w) in enumerate(zip(got, want)):
        if w.numel() == 0 and g.numel() == 0:
            continue
        if g.shape != w.shape:
            raise Violation(f"{mode}: {names[i]} has shape {tuple(g.shape)}, not {tuple(w.shape)}")
        if g.dtype != dt:
            raise Violation(f"{mode}: {names[i]} has dtype {g.dtype}")
        g = g.double()
        k = names[i].removeprefix("derivative of ")
        if k in keys and not k.startswith("rec_"):
            g, w = g * G.exists_mask(case, k), w * G.exists_mask(case, k)
        s = float(w.abs().max())
        if k.startswith("rec_"):
            # compared with the wavefield recorded
            j = keys.index(sim.main_field(kind, len(case["shape"]), k[4:]))
            s = max(s, float(want[i - keys.index(k) + j].abs().max()))
        elif k not in keys:
            s = max(s, 1e-3 * top)
        else:
            # as large as the output itself, which rounding is relative to
            s = max(s, float(want0[k].abs().max()))
        if s and (k not in keys or names[i] != k or mode.startswith("vmap")):
            nontrivial = True
        if not torch.isfinite(w).all():
            raise AssertionError("reference is not finite")
        e = float((g - w).abs().max())
        if not e <= tol * s + 1e-280:
            raise Violation(f"{mode}: {names[i]} differs by {e:.3e} of {s:.3e}")
    return {
        "nontrivial": nontrivial,
        "labels": labels
        + (["initial wavefields"] if case["w0"] else [])
        + ([case["zone"]] if case.get("zone") else []),
    }


def rejected(case, kw, run_dw, P, ms, place):
    """What is documented not to be supported is refused."""
    nm = len([n for n in ms if n[0] == "model"])
    if case["what"] == "max_vel":
        kw.pop("max_vel")
        f, args, exc = run_dw, [torch.stack([p, p]) for p in P[:nm]], RuntimeError
    else:
        ks = [k for k in kw if k.startswith("source_amplitudes")]
        if not ks:
            return ["no sources"]
        i = next(i for i, n in enumerate(ms) if ks[0] in place[n])
        a = P[i]

        def f(x):
            return run_dw(*P[:i], x, *P[i + 1 :])

        args, exc = [torch.stack([a, 2 * a])], NotImplementedError
    try:
        torch.func.vmap(f)(*args)
    except exc:
        return [case["what"]]
    raise Violation(f"vectorised without complaint: {case['what']}")
