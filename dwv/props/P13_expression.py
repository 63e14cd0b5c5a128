"""How a propagation is expressed (module or function, layout in memory, types
and shapes of equivalent arguments, explicit defaults, gradient mode, default
dtype, scripting) changes neither its results nor its gradients."""

import copy
import io

import numpy as np
import torch
from hypothesis import strategies as st

from .. import gen, gradient as G, sim
from ..core import Skip, Violation

EXAMPLES = {"quick": 6000, "thorough": 34000}

HOW = [
    "module",
    "module copy",
    "layout",
    "layout",
    "types",
    "batch",
    "zeros",
    "defaults",
    "mode",
    "default dtype",
    "repeat",
    "threads",
    "cotangents",
    "cotangents",
    "script",
]


@st.composite
def strategy(draw, tier):
    kind = draw(st.sampled_from(["scalar", "acoustic", "elastic", "born"]))
    c = draw(gen.wave(kind, max_nt=7 if tier == "quick" else 12, max_pml=4))
    c["how"] = draw(st.sampled_from(HOW))
    if c["how"] == "defaults":
        c.update(acc=4, freq=25, w0=[], every=1)
        c.pop("max_vel", None)
        c.pop("region", None)
        nd = len(c["shape"])
        if nd == 3:
            c["shape"] = [min(n, 3) for n in c["shape"]]
            fold(c)
        c["pml"] = [20] * (2 * nd)
        for k in ("freq_taper_frac", "time_pad_frac", "time_taper"):
            c.pop(k, None)
        if not c["src"]:
            c["src"][sim.src_types(kind, nd)[0]] = [[[0] * nd] for _ in range(c["S"])]
    names = G.leaf_names(c)
    mask = draw(st.integers(0, 2 ** len(names) - 1))
    c["grad"] = [i for i in range(len(names)) if mask >> i & 1]
    c["loss"] = draw(st.sampled_from(["rec", "all", "mix"]))
    c["gseed"] = draw(st.integers(0, 2**31 - 1))
    c["dtype"] = draw(st.sampled_from(["double"] * 4 + ["float"]))
    c["backend"] = draw(st.sampled_from(["c"] * 5 + ["eager"]))
    c["threads"] = draw(st.sampled_from([1, 1, 2, 3]))
    c["storage"] = "device"
    c["pick"] = draw(st.integers(0, 2**31 - 1))
    return c


def fold(c):
    """Moves points into a reduced model, dropping lists that then repeat."""
    nd = len(c["shape"])
    for group in ("src", "rec"):
        for ty in list(c[group]):
            hv = sim.halves(c["kind"], nd, ty) if ty not in ("bg", "sc", "") else []
            new = []
            ok = True
            for locs in c[group][ty]:
                out = []
                for p in locs:
                    if p[0] != sim.IGNORE:
                        p = [
                            min(x, n - (2 if i in hv else 1))
                            for i, (x, n) in enumerate(zip(p, c["shape"]))
                        ]
                    out.append(p)
                real = [tuple(p) for p in out if p[0] != sim.IGNORE]
                ok = ok and len(real) == len(set(real))
                new.append(out)
            if ok:
                c[group][ty] = new
            else:
                del c[group][ty]


def modules():
    import deepwave

    return {
        "scalar": deepwave.Scalar,
        "born": deepwave.ScalarBorn,
        "acoustic": deepwave.Acoustic,
        "elastic": deepwave.Elastic,
    }


def relayout(x, r, dup):
    """The same values, not contiguous."""
    how = int(r.integers(0, 4))
    if x.numel() == 0 or x.ndim == 0:
        return x
    if how == 0:  # transposed storage
        p = list(r.permutation(x.ndim))
        inv = list(np.argsort(p))
        return x.permute(*[int(i) for i in p]).contiguous().permute(*[int(i) for i in inv])
    if how == 1:  # every second element of a larger one
        big = torch.full([2 * n + 1 for n in x.shape], 77, dtype=x.dtype)
        v = big[tuple(slice(1, 2 * n + 1, 2) for n in x.shape)]
        v.copy_(x)
        return v
    if how == 2:  # offset in a larger one
        big = torch.full([n + 3 for n in x.shape], 77, dtype=x.dtype)
        v = big[tuple(slice(2, n + 2) for n in x.shape)]
        v.copy_(x)
        return v
    if dup:  # the same shot for all
        return x[:1].expand(*x.shape)
    return x.flip(0).contiguous().flip(0)


def base_kw(case):
    return {"python_backend": "eager"} if case["backend"] == "eager" else {}


def finish(case, out, w, leaves, names, what):
    outs = [k for k in w if out[k].requires_grad]
    g = dict.fromkeys(names)
    if outs and names:
        gs = sim.guard(
            what + " backward",
            torch.autograd.grad,
            [out[k] for k in outs],
            [leaves[n] for n in names],
            grad_outputs=[w[k].to(out[k].dtype) for k in outs],
            allow_unused=True,
        )
        g = dict(zip(names, gs))
    return out, g


def fresh(case, d, names, dt):
    return {
        k: v.to(dt).clone().requires_grad_(k in names) for k, v in d["leaves"].items()
    }


def check(case):
    kind, nd = case["kind"], len(case["shape"])
    how = case["how"]
    r = sim.rng(case["pick"])
    dt = torch.float64 if case["dtype"] == "double" else torch.float32
    names = [G.leaf_names(case)[i] for i in case["grad"]]
    d = sim.data(case)
    dup = how == "layout" and r.random() < 0.3
    if dup:  # all shots the same (so that inputs can be expanded)
        for k, v in d["leaves"].items():
            if k[0] != "model" or (v.ndim == nd + 1):
                d["leaves"][k] = v[:1].expand(*v.shape).clone()
    kw0 = base_kw(case)
    torch.set_num_threads(case["threads"])
    old = torch.get_default_dtype()
    try:
        la = fresh(case, d, names, dt)
        ref = sim.run_dw(case, d, la, **kw0)
        det = {k: v.detach().clone() for k, v in ref.items()}
        for k, v in det.items():
            if not torch.isfinite(v).all():
                raise Skip("unstable")
        w = G.weights(
            {**case, "glay": "expanded"} if how == "cotangents" else case,
            {k: v.double() for k, v in det.items()},
        )
        # backwards only later, so that other calls come in between
        lb = fresh(case, d, names, dt)
        exact = False
        tol = 1e-11 if case["dtype"] == "double" else 1e-4
        if how in ("module", "module copy"):
            out, g = via_module(case, d, lb, names, w, kw0, how, r)
        elif how == "layout":
            lc = {
                k: relayout(v.detach(), r, dup and (k[0] != "model" or v.ndim == nd + 1))
                for k, v in lb.items()
            }
            for k, v in lc.items():
                if not torch.equal(v, lb[k].detach()):
                    raise AssertionError("relayout")
                v.requires_grad_(k in names)
            out, g = finish(case, with_locs(case, d, lc, kw0, r), w, lc, names, how)
        elif how == "types":
            out, g = finish(case, types(case, d, lb, kw0, r), w, lb, names, how)
        elif how == "batch":
            lc = {}
            for k, v in lb.items():
                if k[0] == "model":
                    x = v if v.ndim == nd else v[0] if v.shape[0] == 1 else v
                    if x.ndim == nd:
                        i = int(r.integers(0, 3))
                        x = x if i == 0 else x[None]
                        if i == 2:
                            x = x.expand(case["S"], *x.shape[1:])
                    v = x
                lc[k] = v
            out, g = finish(case, sim.run_dw(case, d, lc, **kw0), w, lb, names, how)
        elif how == "zeros":
            ex = dict(kw0)
            cs = sim.comp_shape(case)
            for f in sim.fields_of(kind, nd):
                if f not in case["w0"] and r.random() < 0.5:
                    ex[f] = torch.zeros(case["S"], *cs, dtype=dt)
            out, g = finish(case, sim.run_dw(case, d, lb, **ex), w, lb, names, how)
        elif how == "defaults":
            out, g = finish(case, defaults(case, d, lb, kw0, r), w, lb, names, how)
        elif how == "mode":
            out = mode(case, d, lb, kw0, r)
            g = None
        elif how == "default dtype":
            torch.set_default_dtype(torch.float64)
            out, g = finish(case, sim.run_dw(case, d, lb, **kw0), w, lb, names, how)
            torch.set_default_dtype(old)
            if case.get("freq_taper_frac") or case.get("time_taper"):
                tol = max(tol, 3e-6)
        elif how == "cotangents":
            # the gradients with respect to the outputs, laid out in any way
            # here, contiguous for the reference
            out, g = finish(case, sim.run_dw(case, d, lb, **kw0), w, lb, names, how)
            w = {k: v.clone(memory_format=torch.contiguous_format) for k, v in w.items()}
        elif how == "repeat":
            exact = True
            out, g = finish(case, sim.run_dw(case, d, lb, **kw0), w, lb, names, how)
        elif how == "threads":
            torch.set_num_threads(int(r.integers(1, 9)))
            out, g = finish(case, sim.run_dw(case, d, lb, **kw0), w, lb, names, how)
            torch.set_num_threads(case["threads"])
        else:
            kw0 = {"python_backend": "eager"}
            la = fresh(case, d, names, dt)
            ref = sim.run_dw(case, d, la, **kw0)
            ex = {"python_backend": "jit"}
            out, g = finish(case, sim.run_dw(case, d, lb, **ex), w, lb, names, how)
        _, gref = finish(case, ref, w, la, names, "reference")
        for k, v in la.items():
            if not torch.equal(v.detach(), d["leaves"][k].to(dt)):
                raise Violation(f"{how}: input {k} was modified")
        for k, v in lb.items():
            if not torch.equal(v.detach(), d["leaves"][k].to(dt)):
                raise Violation(f"{how}: input {k} was modified")
    finally:
        torch.set_num_threads(1)
        torch.set_default_dtype(old)
    for k, v in out.items():
        if v.numel() and v.dtype != dt:
            raise Violation(f"{how}: {k} has dtype {v.dtype}")
    if exact:
        for k, v in out.items():
            if not torch.equal(v, ref[k]):
                raise Violation(f"{how}: {k} is not the same in a repetition")
    msg = sim.compare(case, out, {k: v.detach() for k, v in ref.items()}, tol, how + ": ")
    if msg:
        raise Violation(msg)
    if g is not None:
        gtol, floor = (1e-9, 1e-13) if case["dtype"] == "double" else (3e-3, 1e-5)
        if case.get("freq_taper_frac") or case.get("time_taper"):
            gtol = max(gtol, 3e-6)
        want = {
            n: torch.zeros_like(d["leaves"][n]) if x is None else x.double()
            for n, x in gref.items()
        }
        msg = G.compare_grads(case, d, g, want, gtol, floor)
        if msg:
            raise Violation(f"{how}: {msg}")
    return {
        "nontrivial": gen.nontrivial(case, det),
        "labels": [how, kind, f"{nd}D", case["backend"], case["dtype"]]
        + (["gradients"] if names else []),
    }


def via_module(case, d, lb, names, w, kw0, how, r):
    kind = case["kind"]
    ms = sim.models_of(kind)
    models, kw = sim.dw_kwargs(case, d, lb)
    gs, dt = kw.pop("grid_spacing"), kw.pop("dt")
    flags = {f"{n}_requires_grad": ("model", n) in names for n in ms}
    given = [m.detach().clone() for m in models]
    mod = sim.guard("constructor", modules()[kind], *given, gs, **flags)
    if how == "module copy":
        i = int(r.integers(0, 3))
        if i == 0:
            mod = copy.deepcopy(mod)
        elif i == 1:
            other = modules()[kind](*[torch.zeros_like(m) for m in given], gs, **flags)
            other.load_state_dict(mod.state_dict())
            mod = other
        else:
            f = io.BytesIO()
            torch.save(mod, f)
            f.seek(0)
            mod = torch.load(f, weights_only=False)
    params = dict(mod.named_parameters())
    if set(params) != set(ms):
        raise Violation(f"{how}: parameters {sorted(params)}")
    for n in ms:
        if params[n].requires_grad != (("model", n) in names):
            raise Violation(f"{how}: {n} requires_grad {params[n].requires_grad}")
    out = sim.guard("module", mod, dt, **{**kw, **kw0})
    out = sim.name_outputs(case, out)
    leaves = {k: (params[k[1]] if k[0] == "model" else v) for k, v in lb.items()}
    return finish(case, out, w, leaves, names, how)


def with_locs(case, d, lc, kw0, r):
    """Also the locations, not contiguous."""
    ex = dict(kw0)
    _, kw = sim.dw_kwargs(case, d, lc)
    for k, v in kw.items():
        if "locations" in k:
            ex[k] = relayout(v, r, False)
    return sim.run_dw(case, d, lc, **ex)


def types(case, d, lb, kw0, r):
    ex = dict(kw0)
    nd = len(case["shape"])
    dx = case["dx"]
    one = len(set(dx)) == 1
    i = int(r.integers(0, 4))
    conv = [list, tuple, lambda x: [float(v) for v in x]]
    gs = dx[0] if one and i == 0 else conv[i % 3](
        [int(x) if x == int(x) and i == 3 else x for x in dx]
    )
    pml = case["pml"]
    i = int(r.integers(0, 3))
    ex["pml_width"] = pml[0] if len(set(pml)) == 1 and i == 0 else (list, tuple)[i % 2](pml)
    if r.random() < 0.5:
        ex["pml_freq"] = int(case["freq"])
    if "region" in case or r.random() < 0.3:
        if case["w0"]:
            ex["origin"] = tuple(s for s, _ in sim.region(case))
    models, kw = sim.dw_kwargs(case, d, lb)
    kw.update(ex)
    kw.pop("grid_spacing")
    dt = kw.pop("dt")
    before = {k: copy.deepcopy(v) for k, v in kw.items() if isinstance(v, (list, tuple))}
    gs0 = copy.deepcopy(gs)
    out = sim.guard(case["kind"], sim.dw_func(case["kind"]), *models, gs, dt, **kw)
    for k, v in before.items():
        if kw[k] != v:
            raise Violation(f"types: argument {k} was modified")
    if gs != gs0:
        raise Violation("types: grid_spacing was modified")
    return sim.name_outputs(case, out)


def defaults(case, d, lb, kw0, r):
    """The documented defaults, left out or given explicitly."""
    models, kw = sim.dw_kwargs(case, d, lb)
    gs, dt = kw.pop("grid_spacing"), kw.pop("dt")
    nd = len(case["shape"])
    dflt = {
        "accuracy": 4,
        "pml_width": 20,
        "pml_freq": None,
        "max_vel": None,
        "survey_pad": None,
        "origin": None,
        "model_gradient_sampling_interval": 1,
        "freq_taper_frac": 0.0,
        "time_pad_frac": 0.0,
        "time_taper": False,
        "forward_callback": None,
        "backward_callback": None,
        "callback_frequency": 1,
        "python_backend": False,
        "storage_mode": "device",
        "storage_path": ".",
        "storage_compression": False,
        "nt": None,
    }
    for f in sim.fields_of(case["kind"], nd):
        dflt[f] = None
    for k, v in dflt.items():
        kw.pop(k, None)
        if r.random() < 0.5:
            kw[k] = v
    kw.update(kw0)
    out = sim.guard(case["kind"], sim.dw_func(case["kind"]), *models, gs, dt, **kw)
    return sim.name_outputs(case, out)


def mode(case, d, lb, kw0, r):
    i = int(r.integers(0, 4))
    if i == 0:
        with torch.no_grad():
            return sim.run_dw(case, d, lb, **kw0)
    if i == 1:
        with torch.inference_mode():
            out = sim.run_dw(case, d, {k: v.detach().clone() for k, v in lb.items()}, **kw0)
            return {k: v.clone() for k, v in out.items()}
    if i == 2:
        return sim.run_dw(case, d, {k: v.detach() for k, v in lb.items()}, **kw0)
    flip = {k: v.detach().clone().requires_grad_(not v.requires_grad) for k, v in lb.items()}
    return sim.run_dw(case, d, flip, **kw0)
