"""Propagators give the same where their equations coincide: a fluid is elastic
without shear strength, Born is the linearisation of scalar, a medium that is
uniform along one axis has one dimension less."""

import copy

import torch
from hypothesis import strategies as st

from .. import gen, gradient as G, sim
from ..core import Skip, Violation

EXAMPLES = {"quick": 9000, "thorough": 30000}


@st.composite
def strategy(draw, tier):
    rel = draw(st.sampled_from(["fluid", "fluid", "rod", "born", "born", "line", "line"]))
    if rel == "fluid":
        c = draw(gen.wave("acoustic", w0=True, max_nt=9))
    elif rel == "rod":
        c = draw(gen.wave("elastic", nds=(1,), max_nt=9, zones=False))
    elif rel == "born":
        c = draw(gen.wave("born", ratio=False, every=False, max_nt=9))
        c["max_vel"] = c.get("max_vel", 1.0)
    else:
        kind = draw(st.sampled_from(["scalar", "acoustic", "elastic", "born"]))
        c = draw(
            gen.wave(kind, nds=(1, 1, 2), survey=False, ratio=False, every=False, max_nt=4,
                     acc=(2, 4), max_shots=2, max_pml=3)
        )
        if len(c["shape"]) == 2:
            c["nt"] = min(c["nt"], 3)
            c["acc"] = 2
        c["dtf"] = min(c["dtf"], 0.5)
        c["max_vel"] = c.get("max_vel", 1.0)
        c["axis"] = draw(st.integers(0, len(c["shape"])))
        c["dx2"] = draw(st.sampled_from([7.5, 10.0, 12.5]))
        c["mode"] = draw(st.sampled_from(["all", "each"]))
    c["rel"] = rel
    names = G.leaf_names(c)
    mask = draw(st.integers(0, 2 ** len(names) - 1))
    c["grad"] = [i for i in range(len(names)) if mask >> i & 1]
    c["loss"] = draw(st.sampled_from(["rec", "all", "wave", "mix"]))
    c["gseed"] = draw(st.integers(0, 2**31 - 1))
    c["backend"] = draw(st.sampled_from(["c"] * 5 + ["eager"]))
    c["threads"] = draw(st.sampled_from([1, 1, 2]))
    return c


def kw0(case):
    return {"python_backend": "eager"} if case["backend"] == "eager" else {}


def grads(case, out, w, leaves, names, what):
    outs = [k for k in w if k in out and out[k].requires_grad]
    if not outs or not names:
        return {n: None for n in names}
    g = sim.guard(
        what,
        torch.autograd.grad,
        [out[k] for k in outs],
        [leaves[n] for n in names],
        grad_outputs=[w[k] for k in outs],
        allow_unused=True,
    )
    return dict(zip(names, g))


def same(case, d, got, want, gg, gw, what, tol=1e-9, gtol=1e-8):
    msg = sim.compare(case, got, {k: v.detach() for k, v in want.items()}, tol, what + ": ")
    if msg:
        raise Violation(msg)
    w2 = {n: torch.zeros_like(d["leaves"][n]) if x is None else x for n, x in gw.items()}
    msg = G.compare_grads(case, d, gg, w2, gtol, 1e-12)
    if msg:
        raise Violation(f"{what}: {msg}")


def finish(case, want, extra=()):
    return {
        "nontrivial": gen.nontrivial(case, want),
        "labels": [case["rel"], case["kind"], f"{len(case['shape'])}D", case["backend"],
                   f"acc{case['acc']}", *extra] + (["gradients"] if case["grad"] else []),
    }


# ------------------------------------------------------------------ fluid
def fluid(case):
    nd = len(case["shape"])
    ax = sim.axes(nd)
    d = sim.data(case)
    names = [G.leaf_names(case)[i] for i in case["grad"]]
    la = {k: v.clone().requires_grad_(k in names) for k, v in d["leaves"].items()}
    want = sim.run_dw(case, d, la, **kw0(case))
    w = G.weights(case, {k: v.detach() for k, v in want.items()})
    gw = grads(case, want, w, la, names, "acoustic backward")

    lb = {k: v.clone().requires_grad_(k in names) for k, v in d["leaves"].items()}
    e = copy.deepcopy(case)
    e["kind"] = "elastic"
    v, rho = lb["model", "v"], lb["model", "rho"]
    K = rho * v**2
    el = {("model", "lamb"): K, ("model", "mu"): torch.zeros_like(K), ("model", "buoyancy"): 1 / rho}
    for ty in case["src"]:
        a = lb["amp", ty]
        if ty == "p":
            loc = sim.loc_tensor(case["src"][ty], nd)
            Kb = K if K.ndim == nd + 1 else K[None]
            Kb = Kb.expand(case["S"], *case["shape"])
            idx = loc.clamp(min=0)
            sh = torch.arange(case["S"])[:, None].expand(idx.shape[:2])
            kk = Kb[(sh, *(idx[..., i] for i in range(nd)))]
            a = a * kk[..., None]
        el["amp", ty] = a
    w0 = []
    for f in case["w0"]:
        x = lb["w0", f]
        if f == "pressure_0":
            for a in ax:
                n = f"sigma{a}{a}_0"
                el["w0", n] = -x
                w0.append(n)
        elif f.startswith("v"):
            el["w0", f] = x
            w0.append(f)
        else:
            a = f[4]
            n = f"m_v{a}{a}_0" if f.startswith("phi") else f"m_sigma{a}{a}{a}_0"
            el["w0", n] = x if f.startswith("phi") else -x
            w0.append(n)
    e["w0"] = w0
    e["mbatch"] = {}
    out = sim.run_dw(e, d, el, **kw0(case))
    got = {k: out[k] for k in want if k.startswith("rec_")}
    got["pressure_0"] = -out[f"sigma{ax[0]}{ax[0]}_0"]
    for a in ax:
        if not torch.allclose(out[f"sigma{a}{a}_0"], -got["pressure_0"], rtol=1e-9, atol=float(got["pressure_0"].detach().abs().max()) * 1e-9 + 1e-300):
            raise Violation("fluid: stresses of an elastic medium without shear strength differ")
        got[f"v{a}_0"] = out[f"v{a}_0"]
        got[f"phi_{a}_0"] = out[f"m_v{a}{a}_0"]
        got[f"psi_{a}_0"] = -out[f"m_sigma{a}{a}{a}_0"]
    for k in out:
        if k.startswith("sigma") and k[5] != k[6] and bool((out[k] != 0).any()):
            raise Violation(f"fluid: {k} is not zero without shear strength")
    gg = grads(case, got, w, lb, names, "elastic backward")
    same(case, d, got, want, gg, gw, "acoustic and elastic")
    return finish(case, want)


# ------------------------------------------------------------------ rod
def rod(case):
    d = sim.data(case)
    names = [G.leaf_names(case)[i] for i in case["grad"]]
    la = {k: v.clone().requires_grad_(k in names) for k, v in d["leaves"].items()}
    want = sim.run_dw(case, d, la, **kw0(case))
    w = G.weights(case, {k: v.detach() for k, v in want.items()})
    gw = grads(case, want, w, la, names, "backward")
    lb = {k: v.clone().requires_grad_(k in names) for k, v in d["leaves"].items()}
    el = dict(lb)
    lam = lb["model", "lamb"] + 2 * lb["model", "mu"]
    # vs is smaller than vp, so the largest speed remains that of P waves
    f = (case["gseed"] % 5) / 10  # part of it as mu
    el["model", "lamb"], el["model", "mu"] = lam * (1 - 2 * f), lam * f
    e = copy.deepcopy(case)
    e["mbatch"] = {}
    d2 = dict(d)
    got = sim.run_dw(e, d2, el, **kw0(case))
    gg = grads(case, got, w, lb, names, "backward")
    same(case, d, got, want, gg, gw, "rod")
    return finish(case, want)


# ------------------------------------------------------------------ born
def born(case):
    nd = len(case["shape"])
    d = sim.data(case)
    # no scattering at the edges (extended into the PML differently)
    sc = d["leaves"]["model", "scatter"].clone()
    for i, (s, e) in enumerate(sim.region(case)):
        x = torch.arange(case["shape"][i])
        m = ((x > s) & (x < e - 1)).to(sc.dtype)
        sc = sc * m.reshape([-1] + [1] * (nd - i - 1))
    case["w0"] = [f for f in case["w0"] if "_sc" not in f]
    if ("region" in case or not case["src"]) and not case["w0"]:
        case["w0"] = ["wavefield_0"]
        d["leaves"]["w0", "wavefield_0"] = torch.randn(
            case["S"], *sim.comp_shape(case), dtype=torch.float64,
            generator=torch.Generator().manual_seed(case["seed"]),
        )
    d["leaves"]["model", "scatter"] = sc
    lb = {k: v.clone() for k, v in d["leaves"].items()}
    out = sim.run_dw(case, d, lb, **kw0(case))
    s = copy.deepcopy(case)
    s["kind"] = "scalar"
    s["rec"] = {}
    both = {}
    for b, key in (("rec_bg", "bg"), ("rec_sc", "sc")):
        s["rec"] = {"": case["rec"][key]} if case["rec"].get(key) is not None else {}
        # one batch of v for the tangent: as large as either
        v = lb["model", "v"]
        n = max(v.shape[0] if v.ndim > nd else 0, sc.shape[0] if sc.ndim > nd else 0)
        if n:
            v = (v if v.ndim > nd else v[None]).expand(n, *case["shape"])
        v = v.clone().requires_grad_()
        ls = {k: x for k, x in lb.items() if k[1] != "scatter"}
        ls["model", "v"] = v
        both[b] = (sim.run_dw(s, d, ls, **kw0(case)), v)
    sca, v = both["rec_bg"]
    for k, x in sca.items():
        name = "rec_bg" if k == "rec_" else k
        y = out[name].detach()
        if not torch.allclose(y, x.detach(), rtol=1e-10, atol=float(x.detach().abs().max()) * 1e-10 if x.numel() else 0):
            raise Violation(f"born: background {name} differs from scalar propagation")
    sca, v = both["rec_sc"]
    # <w, J scatter> = <J' w, scatter>, for the whole and each output
    r = sim.rng(case["gseed"])
    tot = 0
    for k, x in sca.items():
        name = "rec_sc" if k == "rec_" else (k.replace("wavefield", "wavefield_sc") if k.startswith("wave") else k.replace("_m1", "_sc_m1"))
        y = out[name].detach()
        if y.numel() == 0:
            continue
        if y.shape != x.shape:
            raise Violation(f"born: {name} has shape {tuple(y.shape)}")
        w = torch.from_numpy(r.standard_normal(tuple(y.shape)))
        left = float((w * y).sum())
        g = torch.zeros_like(v)
        if x.requires_grad:
            g = sim.guard("scalar backward", torch.autograd.grad, x, v, w, retain_graph=True)[0]
        p = g * sc
        right = float(p.sum())
        scale = float(p.abs().sum()) + float((w * y).abs().sum())
        if not abs(left - right) <= 1e-9 * scale + 1e-300:
            raise Violation(
                f"born: {name} is not the derivative of scalar propagation in the "
                f"direction of scatter ({left:.12e} and {right:.12e})"
            )
        tot += abs(left)
    return {
        "nontrivial": tot > 0,
        "labels": ["born", f"{nd}D", case["backend"], f"acc{case['acc']}"]
        + (["batched model"] if any(n > 1 for n in case["mbatch"].values()) else []),
    }


# ------------------------------------------------------------------ line
def line(case):
    """Extends everything uniformly along a new axis, so far that its ends are
    not felt in the middle."""
    nd = len(case["shape"])
    kind, axis = case["kind"], case["axis"]
    d = sim.data(case)
    reach = case["nt"] * case["acc"] + 2
    n = 2 * reach + 1
    mid = reach
    e = copy.deepcopy(case)
    e["shape"].insert(axis, n)
    e["dx"].insert(axis, case["dx2"])
    e["pml"][2 * axis : 2 * axis] = [0, 0]
    e["mbatch"] = {}
    # names of axes: the new one is inserted
    old, new = sim.axes(nd), sim.axes(nd + 1)
    left = [a for i, a in enumerate(new) if i != axis]
    tr = dict(zip(old, left))

    def rename(f):
        if kind in ("scalar", "born"):
            for p in ("psi", "zeta"):
                if f.startswith(p):
                    return p + tr[f[len(p)]] + f[len(p) + 1 :]
            return f
        if kind == "acoustic":
            if f.startswith("v"):
                return "v" + tr[f[1]] + "_0"
            if f.startswith(("phi", "psi")):
                return f[:4] + tr[f[4]] + "_0"
            return f
        s, t = f[:-2], f[-2:]
        if s.startswith("m_v"):
            return "m_v" + tr[s[3]] + tr[s[4]] + t
        pre = ""
        if s.startswith("m_sigma"):
            pre, s, last = "m_", s[2:7 + 2], tr[s[9]]
        else:
            last = ""
        if s.startswith("sigma"):
            i, j = sorted((tr[s[5]], tr[s[6]]))
            return f"{pre}sigma{i}{j}{last}{t}"
        return "v" + tr[s[1]] + t

    leaves = {}
    for k, x in d["leaves"].items():
        if k[0] == "model":
            i = axis + (x.ndim - nd)
            leaves[k] = x.unsqueeze(i).expand(*x.shape[:i], n, *x.shape[i:]).contiguous()
        elif k[0] == "w0":
            i = axis + 1
            leaves["w0", rename(k[1])] = (
                x.unsqueeze(i).expand(*x.shape[:i], n, *x.shape[i:]).contiguous()
            )
    e["w0"] = [rename(f) for f in case["w0"]]
    e["src"], e["rec"] = {}, {}
    for ty, locs in case["src"].items():
        t2 = tr.get(ty, ty)
        e["src"][t2] = [
            [p[:axis] + [i] + p[axis:] if p[0] != sim.IGNORE else [sim.IGNORE] * (nd + 1)
             for i in range(n) for p in shot]
            for shot in locs
        ]
        leaves["amp", t2] = d["leaves"]["amp", ty].repeat(1, n, 1)
    for ty, locs in case["rec"].items():
        t2 = tr.get(ty, ty)
        if kind == "elastic" and ty == "p":
            continue  # the mean of more stresses
        e["rec"][t2] = [
            [p[:axis] + [mid] + p[axis:] if p[0] != sim.IGNORE else [sim.IGNORE] * (nd + 1)
             for p in shot]
            for shot in locs
        ]
    want = sim.run_dw(case, d, **kw0(case))
    d2 = {"leaves": leaves, "dt": d["dt"], "vmax": d["vmax"]}
    got = sim.run_dw(e, d2, leaves, **kw0(case))
    back = {}
    for f in sim.fields_of(kind, nd):
        back[f] = got[rename(f)].select(axis + 1, mid)
    for ty in sim.rec_types(kind, nd):
        t2 = tr.get(ty, ty)
        if t2 in e["rec"]:
            back[f"rec_{ty}"] = got[f"rec_{t2}"]
    ref = {k: want[k] for k in back}
    msg = sim.compare(case, back, ref, 1e-9, f"uniform along {new[axis]}: ")
    if msg:
        raise Violation(msg)
    return finish(case, want, [f"axis {axis}"])


def check(case):
    case = copy.deepcopy(case)
    torch.set_num_threads(case["threads"])
    try:
        return {"fluid": fluid, "rod": rod, "born": born, "line": line}[case["rel"]](case)
    finally:
        torch.set_num_threads(1)
