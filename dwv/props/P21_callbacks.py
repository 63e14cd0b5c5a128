"""Callbacks see the true state of the propagation."""

import torch
from hypothesis import strategies as st

from .. import gen, gradient as G, ref, sim
from ..core import Violation

EXAMPLES = {"quick": 3500, "thorough": 20000}


@st.composite
def strategy(draw, tier):
    kind = draw(st.sampled_from(["scalar", "acoustic", "elastic", "elastic", "born"]))
    c = draw(gen.wave(kind, max_nt=9, every=False, min_nt=1))
    c["max_vel"] = c.get("max_vel", 1.0)
    names = G.leaf_names(c)
    mask = draw(st.integers(1, 2 ** len(names) - 1))
    c["grad"] = [i for i in range(len(names)) if mask >> i & 1]
    if draw(st.booleans()) and 0 not in c["grad"]:
        c["grad"].insert(0, 0)
    c["loss"] = draw(st.sampled_from(["rec", "all"]))
    c["gseed"] = draw(st.integers(0, 10**6))
    c["backend"] = draw(st.sampled_from(["c"] * 5 + ["eager"]))
    c["cf"] = draw(st.integers(1, c["nt"] + 1))
    c["pick"] = draw(st.integers(0, 8))
    c["storage"] = draw(st.sampled_from(["device"] * 3 + ["cpu", "disk"]))
    c["scale"] = draw(st.booleans())
    if c["backend"] == "eager":
        c["storage"] = "device"
    return c


def padded_models(case, leaves):
    """The models the time steps use, by the name deepwave gives them, on the
    region and its PML."""
    kind, nd = case["kind"], len(case["shape"])
    ax = sim.axes(nd)
    reg = sim.region(case)

    def cut(n, mode="replicate"):
        x = leaves["model", n]
        if x.ndim == nd:
            x = x[None]
        x = x[(slice(None), *(slice(a, b) for a, b in reg))]
        return ref.pad_model(x, case["pml"], mode)

    if kind == "scalar":
        return {"v": cut("v")}
    if kind == "born":
        return {"v": cut("v"), "scatter": cut("scatter", "constant")}
    if kind == "acoustic":
        v, rho = cut("v"), cut("rho")
        out = {"K": rho * v**2}
        for i in range(nd):
            out[f"B{ax[i]}"] = ref._safe_inv((rho + ref._shift(rho, i)) / 2)
        return out
    lam, mu = cut("lamb"), cut("mu")
    rho = ref._safe_inv(cut("buoyancy"))
    out = {"lamb": lam, "mu": mu}
    for i in range(nd):
        out[f"buoyancy_{ax[i]}"] = ref._safe_inv((rho + ref._shift(rho, i)) / 2)
        for j in range(i + 1, nd):
            four = [mu, ref._shift(mu, i), ref._shift(mu, j), ref._shift(ref._shift(mu, i), j)]
            ok = torch.stack([x.abs() > 0 for x in four]).all(0)
            hm = 4 / sum(1 / torch.where(ok, x, torch.ones_like(x)) for x in four)
            out[f"mu_{ax[i]}{ax[j]}"] = torch.where(ok, hm, torch.zeros_like(hm))
    return out


def model_mask(case, name):
    """Where values of a (staggered) model are used."""
    nd = len(case["shape"])
    ax = sim.axes(nd)
    m = torch.ones(sim.comp_shape(case), dtype=torch.float64)
    tail = name.split("_")[1] if "_" in name else name[1:] if name[0] == "B" else ""
    for a in tail:
        sl = [slice(None)] * nd
        sl[ax.index(a)] = slice(-1, None)
        m[tuple(sl)] = 0
    return m


class Spy:
    def __init__(self, case, what, scale=None):
        self.case, self.what, self.scale = case, what, scale
        self.steps, self.dts, self.snaps = [], [], []

    def __call__(self, state):
        try:
            self.look(state)
        except Violation as e:
            self.bad = e
            raise

    def look(self, state):
        case = self.case
        nd = len(case["shape"])
        self.steps.append(state.step)
        self.dts.append(state.dt)
        snap = {"w": {}, "m": {}, "g": {}}
        kind = case["kind"]
        for f in sim.fields_of(kind, nd):
            try:
                views = [state.get_wavefield(f, v) for v in ("inner", "pml", "full")]
            except KeyError:
                if self.what == "backward" and kind == "born" and "_sc" not in f:
                    continue  # not propagated when nothing needs it
                raise Violation(f"{self.what} callback: no wavefield {f}") from None
            snap["w"][f] = self.views(f, *views)
        models = {"scalar": ["v"], "born": ["v", "scatter"], "acoustic": ["K"],
                  "elastic": ["lamb", "mu"]}[kind]
        for n in list(padded_models(case, self.leaves)):
            for key, get in (("m", state.get_model), ("g", state.get_gradient)):
                if key == "g" and self.what == "forward":
                    continue
                try:
                    views = [get(n, v) for v in ("inner", "pml", "full")]
                except (KeyError, IndexError):
                    # (there is no gradient of what does not need one)
                    if n in models and key == "m":
                        raise Violation(f"{self.what} callback: no model {n}") from None
                    continue
                if views[0].numel() == 0 and views[2].numel() == 0:
                    continue  # no gradient is calculated for it
                snap[key][n] = self.views(n, *views)
                if key == "g" and self.scale and state.step == 0:
                    views[2].mul_(self.scale)
        self.snaps.append(snap)

    def views(self, name, inner, pml, full):
        case = self.case
        what = f"{self.what} callback: {name}: "
        if full.ndim != len(case["shape"]) + 1:
            # (a gradient that is not calculated)
            raise Violation(f"{what}{full.ndim} dimensions")
        cs, reg = sim.comp_shape(case), sim.region(case)
        p = case["pml"]
        k = case["acc"] // 2
        want = tuple(cs)
        if tuple(pml.shape[1:]) != want:
            raise Violation(f"{what}view 'pml' is {tuple(pml.shape)}, expected {want}")
        want = tuple(b - a for a, b in reg)
        if tuple(inner.shape[1:]) != want:
            raise Violation(f"{what}view 'inner' is {tuple(inner.shape)}, expected {want}")
        a = tuple(slice(k, k + n) for n in cs)
        if not torch.equal(full[(slice(None), *a)], pml):
            raise Violation(f"{what}view 'pml' is not the middle of 'full'")
        a = tuple(
            slice(p[2 * d], cs[d] - p[2 * d + 1]) for d in range(len(cs))
        )
        if not torch.equal(pml[(slice(None), *a)], inner):
            raise Violation(f"{what}view 'inner' is not the middle of 'pml'")
        return pml.detach().clone()


def run(case, d, leaves, w, names, **kw):
    got = sim.run_dw(case, d, leaves, **kw)
    ks = [k for k in w if got[k].requires_grad]
    g = [None] * len(names)
    if ks and names:
        g = sim.guard(
            "backward",
            torch.autograd.grad,
            [got[k] for k in ks],
            [leaves[n] for n in names],
            grad_outputs=[w[k] for k in ks],
            allow_unused=True,
        )
    return {k: x.detach() for k, x in got.items()}, dict(zip(names, g))


def flat(case, leaves, ratio, a, b, w0):
    """Internal steps [a, b) as a propagation with one step per sample."""
    c = {**case, "nt": b - a}
    for k in ("freq_taper_frac", "time_pad_frac", "time_taper"):
        c.pop(k, None)
    c["every"] = ratio
    tk = {
        "freq_taper": case.get("freq_taper_frac", 0.0),
        "pad": case.get("time_pad_frac", 0.0),
        "time_taper": case.get("time_taper", False),
    }
    L = {}
    for k, x in leaves.items():
        if k[0] == "amp":
            x = x.detach()
            if x.numel():
                x = ref.upsample(x, ratio, **tk)[..., a:b]
            else:
                x = x.new_zeros(*x.shape[:-1], b - a)
        if k[0] != "w0":
            L[k] = x
    c["w0"] = list(w0)
    for f, x in w0.items():
        L["w0", f] = x
    return c, L


def check(case):
    kind, nd, S = case["kind"], len(case["shape"]), case["S"]
    d = sim.data(case)
    names = [G.leaf_names(case)[i] for i in case["grad"]]
    _, ratio = ref.cfl(case["dx"], d["dt"], d["vmax"])
    kw = G.extra_kw({**case, "cf": None})
    cf, nt = case["cf"], case["nt"]
    tol = 3e-6 if case.get("time_taper") or case.get("freq_taper_frac") else 1e-9
    eager = case["backend"] == "eager"

    def fresh():
        return {k: x.clone().requires_grad_(k in names) for k, x in d["leaves"].items()}

    base = sim.run_dw(case, d, {k: x for k, x in d["leaves"].items()})
    w = G.weights(case, {k: x.detach() for k, x in base.items()})
    base, g0 = run(case, d, fresh(), w, names, **kw)
    fw, bw = Spy(case, "forward"), Spy(case, "backward")
    fw.leaves = bw.leaves = d["leaves"]
    cb = {"forward_callback": fw, "callback_frequency": cf}
    if not eager:
        cb["backward_callback"] = bw
    out, g1 = run(case, d, fresh(), w, names, **kw, **cb)
    msg = sim.compare(case, out, base, 1e-12, "with callbacks: ")
    if msg:
        raise Violation(msg)
    want = {n: torch.zeros_like(d["leaves"][n]) if x is None else x for n, x in g0.items()}
    msg = G.compare_grads(case, d, g1, want, 1e-9, 1e-14)
    if msg:
        raise Violation("with callbacks: " + msg)
    steps = list(range(0, nt, cf))
    if fw.steps != steps:
        raise Violation(f"forward callback at steps {fw.steps}, expected {steps}")
    for spy in (fw, bw):
        for dt in spy.dts:
            if abs(dt - d["dt"] / ratio) > 1e-12 * abs(dt):
                raise Violation(f"dt {dt} in callback, expected {d['dt'] / ratio}")
    back = [max(0, s - cf) for s in range(nt, 0, -cf)]
    propagated = any(x is not None for x in g0.values())
    if bw.steps and bw.steps != back:
        raise Violation(f"backward callback at steps {bw.steps}, expected {back}")
    if propagated and not eager and not bw.steps:
        raise Violation("the backward callback was not called")
    # models
    pm = padded_models(case, d["leaves"])
    for spy in (fw, bw):
        for snap in spy.snaps:
            for n, x in snap["m"].items():
                m = model_mask(case, n)
                y = pm[n]
                if x.shape[1:] != y.shape[1:] or x.shape[0] not in (1, S):
                    raise Violation(f"{spy.what} callback: model {n}: {tuple(x.shape)}")
                err = float(((x - y) * m).abs().max())
                if err > 1e-10 * float(y.abs().max()):
                    raise Violation(f"{spy.what} callback: model {n} differs by {err}")
    d2 = {**d, "dt": d["dt"] / ratio}
    state = {}

    def state_at(k):
        """Wavefields before step k."""
        if k not in state:
            if k == 0:
                z = torch.zeros(S, *sim.comp_shape(case), dtype=torch.float64)
                state[k] = {
                    f: d["leaves"].get(("w0", f), z) for f in sim.fields_of(kind, nd)
                }
            else:
                w0 = {f: d["leaves"]["w0", f] for f in case["w0"]}
                c, L = flat(case, d["leaves"], ratio, 0, k * ratio, w0)
                o = sim.run_dw(c, d2, L)
                state[k] = {f: o[f].detach() for f in sim.fields_of(kind, nd)}
        return state[k]

    k = steps[case["pick"] % len(steps)]
    got = fw.snaps[steps.index(k)]["w"]
    true = state_at(k)
    for f, x in got.items():
        m = G.exists_mask(case, f)
        s = max(float(true[f].abs().max()), float(base[f].abs().max()))
        if x.shape != true[f].shape:
            raise Violation(f"forward callback: {f}: {tuple(x.shape)}")
        err = float(((x - true[f]) * m).abs().max())
        if err > tol * s:
            raise Violation(
                f"forward callback at step {k}: {f} differs by {err:.3e} from the "
                f"wavefield at that time (largest {s:.3e})"
            )
    labels = [kind, f"{nd}D", case["backend"], f"ratio{ratio}", "forward"]
    if bw.steps:
        labels.append("backward")
        backward(case, d, d2, w, names, bw, state_at, ratio, base, tol, pm)
        # (what is not scaled by the model outside of the time steps)
        if case["scale"] and not any(x[0] for x in case["src"].values()):
            labels.append("gradient changed")
            sc = Spy(case, "backward", scale=2.0)
            sc.leaves = d["leaves"]
            _, g2 = run(
                case, d, fresh(), w, names, **kw, callback_frequency=cf, backward_callback=sc
            )
            want = {
                n: x * (2 if n[0] == "model" else 1)
                for n, x in g1.items()
                if x is not None
            }
            msg = G.compare_grads(case, d, g2, want, 1e-9, 1e-14)
            known = set(padded_models(case, d["leaves"]))
            if msg and sc.snaps and known <= set(sc.snaps[-1]["m"]):
                raise Violation("gradient doubled by the callback in step 0: " + msg)
    return {"nontrivial": gen.nontrivial(case, base), "labels": labels}


def unit(f):
    """Fields whose gradients are of a similar magnitude."""
    f = f.removeprefix("m_")
    return f[:2] if f.startswith("ps") else f[0]


def backward(case, d, d2, w, names, bw, state_at, ratio, base, tol, pm):
    """The adjoint wavefields and the gradient so far are those of the rest
    of the propagation."""
    kind, nd, S, nt = case["kind"], len(case["shape"]), case["S"], case["nt"]
    i = case["pick"] % len(bw.steps)
    k = bw.steps[i]
    snap = bw.snaps[i]
    w0 = {f: x.clone().requires_grad_() for f, x in state_at(k).items()}
    mod = {n: x.clone().requires_grad_() for n, x in d["leaves"].items() if n[0] == "model"}
    c, L = flat(case, {**d["leaves"], **mod}, ratio, k * ratio, nt * ratio, w0)
    # weights of the internal samples
    tk = {
        "freq_taper": case.get("freq_taper_frac", 0.0),
        "pad": case.get("time_pad_frac", 0.0),
        "time_taper": case.get("time_taper", False),
    }
    ww = {}
    for n, x in w.items():
        if n.startswith("rec_"):
            r = torch.zeros(*x.shape[:-1], nt * ratio, dtype=x.dtype, requires_grad=True)
            (x,) = torch.autograd.grad((ref.downsample(r, ratio, **tk) * x).sum(), r)
            x = x[..., k * ratio :]
        ww[n] = x
    for n in L:
        if n[0] == "amp":
            L[n] = L[n].clone().requires_grad_()
    keys = [("w0", f) for f in w0] + list(mod) + [n for n in L if n[0] == "amp"]
    got = sim.run_dw(c, d2, L)
    # only what the original run needed is propagated back
    ks = [n for n in ww if got[n].requires_grad]
    if not ks:
        return
    g = torch.autograd.grad(
        [got[n] for n in ks], [L[n] for n in keys], [ww[n] for n in ks], allow_unused=True
    )
    g = {
        n: torch.zeros_like(L[n]) if x is None else x for n, x in zip(keys, g)
    }
    for f, x in snap["w"].items():
        y = g["w0", f]
        m = G.exists_mask(case, f)
        x, y = x * m, y * m
        s = float(y.abs().max())
        s = max(s, 1e-2 * max(float(g["w0", q].abs().max()) for q in w0 if unit(q) == unit(f)))
        errs = [float((x - y).abs().max())]
        if f.endswith("_m1") and f.startswith("wavefield"):
            # the sign in which this one is stored is not specified
            errs.append(float((x + y).abs().max()))
        if min(errs) > max(tol, 1e-8) * s + 1e-300:
            raise Violation(
                f"backward callback at step {k}: {f} differs by {min(errs):.3e} from the "
                f"gradient of the rest of the propagation (largest {s:.3e})"
            )
    # gradients so far
    need = {n[1] for n in names if n[0] == "model"}
    if not snap["g"] or case["storage"] == "none":
        return
    mods = {n: x.clone().requires_grad_() for n, x in d["leaves"].items() if n[0] == "model"}
    internal = padded_models(case, mods)
    if kind == "scalar" or kind == "born":
        have = [n for n in need if n in snap["g"]]
        if set(have) != need:
            raise Violation(f"backward callback: gradients {sorted(snap['g'])}")
    elif not set(internal) <= set(snap["g"]):
        return
    tot = 0
    for n, x in snap["g"].items():
        y = internal[n]
        tot = tot + (y * x * model_mask(case, n)).sum()
    # sources are scaled by the model before the time steps, which the gradient
    # of the whole includes
    for n, x in g.items():
        if n[0] != "amp" or not x.numel():
            continue
        if kind == "born":
            return
        if kind == "scalar":
            b = internal["v"] ** 2
        elif n[1] == "p":
            if kind == "elastic":
                continue
            b = internal["K"]
        else:
            b = internal[("B" if kind == "acoustic" else "buoyancy_") + n[1]]
        loc = sim.loc_tensor(case["src"][n[1]], nd).clone()
        for q, (start, _) in enumerate(sim.region(case)):
            loc[..., q] = torch.where(loc[..., q] == sim.IGNORE, sim.IGNORE, loc[..., q] - start)
        idx, ok = ref.flat_index(loc, case["pml"], sim.comp_shape(case))
        b = ref.at(b, idx)
        use = (b.detach() > 0) & ok
        lb = torch.where(use, torch.where(use, b, torch.ones_like(b)).log(), torch.zeros_like(b))
        tot = tot + ((x * L[n].detach()).sum(-1) * lb).sum()
    order = list(mods)
    vj = torch.autograd.grad(tot, [mods[n] for n in order], allow_unused=True)
    for n, x in zip(order, vj):
        if n[1] not in need:
            continue
        y = g[n]
        x = torch.zeros_like(y) if x is None else x
        s = float(y.abs().max())
        err = float((x - y).abs().max())
        full = abs(float(base[next(iter(base))].abs().max()))
        if err > max(tol, 1e-8) * s + 1e-14 * full / G.in_scale(case, d, n):
            raise Violation(
                f"backward callback at step {k}: gradient of {n[1]} so far differs by "
                f"{err:.3e} from that of the rest of the propagation (largest {s:.3e})"
            )
