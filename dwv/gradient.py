"""Gradients against autograd of the reference (P05 to P08)."""

import os
import tempfile

import torch
from hypothesis import strategies as st

from . import gen, sim
from .core import Violation

TOL = {"double": 1e-7, "float": 3e-2}
FLOOR = {"double": 1e-12, "float": 1e-4}


def leaf_names(case):
    kind, nd = case["kind"], len(case["shape"])
    out = [("model", n) for n in sim.models_of(kind)]
    out += [
        ("amp", t)
        for t in sim.src_types(kind, nd)
        if case["src"].get(t) is not None
    ]
    out += [("w0", f) for f in case.get("w0", [])]
    return out


def strategy(kind):
    @st.composite
    def s(draw, tier):
        c = draw(
            gen.wave(kind, max_nt=8 if tier == "quick" else 14, big=tier != "quick")
        )
        names = leaf_names(c)
        how = draw(st.integers(0, 2))
        if how == 0:
            c["grad"] = list(range(len(names)))
        else:
            mask = draw(st.integers(1, 2 ** len(names) - 1))
            c["grad"] = [i for i in range(len(names)) if mask >> i & 1]
        # which outputs the loss depends on
        c["loss"] = draw(st.sampled_from(["rec", "all", "wave", "mix"]))
        c["gseed"] = draw(st.integers(0, 2**31 - 1))
        c["dtype"] = draw(st.sampled_from(["double"] * 9 + ["float"]))
        c["backend"] = draw(st.sampled_from(["c"] * 9 + ["eager"]))
        c["threads"] = draw(st.sampled_from([1, 1, 1, 2, 3]))
        c["storage"] = draw(st.sampled_from(["device"] * 4 + ["cpu", "disk"]))
        if c["backend"] == "eager":
            c["storage"] = "device"
        # layout in memory of the gradients with respect to the outputs
        c["glay"] = draw(st.sampled_from(["", "", "permuted", "sliced", "expanded"]))
        if draw(st.integers(0, 2)) == 0:
            # documented: no backward callbacks in the Python backend
            c["cf"] = draw(st.integers(1, c["nt"] + 1))
            c["cb"] = draw(
                st.sampled_from(["f", "b", "fb"] if c["backend"] == "c" else ["f"])
            )
        return c

    return s


def extra_kw(case, scratch=None):
    kw = {}
    if case.get("backend") == "eager":
        kw["python_backend"] = "eager"
    if case.get("storage", "device") != "device":
        kw["storage_mode"] = case["storage"]
        if case["storage"] == "disk":
            kw["storage_path"] = scratch or os.environ.get("DWV_WORK", ".")
    if case.get("compression"):
        kw["storage_compression"] = True
    if case.get("cf"):
        kw["callback_frequency"] = case["cf"]
        if "f" in case["cb"]:
            kw["forward_callback"] = lambda s: None
        if "b" in case["cb"]:
            kw["backward_callback"] = lambda s: None
    return kw


def exists_mask(case, f):
    """1 where a wavefield has cells (PML variables: in the PML of their
    dimension)."""
    kind, nd = case["kind"], len(case["shape"])
    cs = sim.comp_shape(case)
    m = torch.ones(cs, dtype=torch.float64)
    if f.startswith(("psi", "zeta", "phi", "m_")):
        m = m * torch.from_numpy(sim.pml_mask(case, f))
    for d in sim.halves(kind, nd, f):
        sl = [slice(None)] * nd
        sl[d] = slice(-1, None)
        m[tuple(sl)] = 0
    return m


def weights(case, want):
    """Weights of the outputs in the loss, of the order of 1 / scale."""
    out = {}
    for name, w in want.items():
        is_rec = name.startswith("rec_")
        if case["loss"] == "rec" and not is_rec:
            continue
        if case["loss"] == "wave" and is_rec:
            continue
        r = sim.rng(case["gseed"], sim._key(name))
        if case["loss"] == "mix" and r.random() < 0.5:
            continue
        if w.numel() == 0:
            continue
        s = sim.scale_of(case, want, name)
        g = torch.from_numpy(r.standard_normal(tuple(w.shape)))
        if s > 0:
            g = g / s
        out[name] = layout(g, case.get("glay", ""), r)
    return out


def layout(g, how, r):
    """g in another layout; "expanded" repeats values along some dimensions."""
    p = [int(i) for i in r.permutation(g.ndim)]
    inv = [p.index(i) for i in range(g.ndim)]
    if how == "sliced":
        big = torch.full([2 * n + 1 for n in g.shape], 77, dtype=g.dtype)
        v = big[tuple(slice(1, 2 * n + 1, 2) for n in g.shape)]
        v.copy_(g)
        return v
    shape = g.shape
    if how == "expanded":
        mask = int(r.integers(1, 2**g.ndim))
        for i in range(g.ndim):
            if mask >> i & 1:
                g = g.narrow(i, 0, 1)
    if how:
        return g.permute(*p).contiguous().permute(*inv).expand(*shape)
    return g


def ref_gradients(case, d):
    names = [leaf_names(case)[i] for i in case["grad"]]
    leaves = {
        k: v.clone().requires_grad_(k in names) for k, v in d["leaves"].items()
    }
    want = sim.run_ref(case, d, leaves)
    w = weights(case, {k: v.detach() for k, v in want.items()})
    loss = sum((want[k] * g).sum() for k, g in w.items())
    if not isinstance(loss, torch.Tensor) or not loss.requires_grad:
        grads = [torch.zeros_like(leaves[n]) for n in names]
    else:
        grads = torch.autograd.grad(
            loss, [leaves[n] for n in names], allow_unused=True
        )
        grads = [
            torch.zeros_like(leaves[n]) if g is None else g
            for n, g in zip(names, grads)
        ]
    return want, w, dict(zip(names, grads))


def dw_gradients(case, d, w, dtype=torch.float64, keep=False, **extra):
    names = [leaf_names(case)[i] for i in case["grad"]]
    leaves = {
        k: v.to(dtype).clone().requires_grad_(k in names)
        for k, v in d["leaves"].items()
    }
    before = {k: v.detach().clone() for k, v in leaves.items()}
    torch.set_num_threads(case.get("threads", 1))
    try:
        got = sim.run_dw(case, d, leaves, **{**extra_kw(case), **extra})
        outs = [k for k in w if got[k].requires_grad]
        grads = {n: None for n in names}
        if outs:
            g = sim.guard(
                "backward",
                torch.autograd.grad,
                [got[k] for k in outs],
                [leaves[n] for n in names],
                grad_outputs=[w[k].to(dtype) for k in outs],
                allow_unused=True,
                retain_graph=keep,
            )
            grads = dict(zip(names, g))
    finally:
        torch.set_num_threads(1)
    for k, v in leaves.items():
        if not torch.equal(v.detach(), before[k]):
            raise Violation(f"input {k} was modified")
    return got, grads, leaves


def in_scale(case, d, key):
    x = d["leaves"][key]
    return float(x.abs().max()) if x.numel() else 1.0


def compare_grads(case, d, grads, want, tol, floor):
    for n, w in want.items():
        g = grads[n]
        if g is None:
            g = torch.zeros_like(w)
        g = g.double()
        if g.shape != w.shape:
            return f"gradient of {n}: shape {tuple(g.shape)}"
        if g.numel() == 0:
            continue
        if n[0] == "w0":
            m = exists_mask(case, n[1])
            g, w = g * m, w * m
        if not torch.isfinite(w).all():
            raise AssertionError("reference gradient is not finite")
        if not torch.isfinite(g).all():
            return f"gradient of {n}: not finite"
        s = float(w.abs().max())
        lim = tol * s + floor / max(in_scale(case, d, n), 1e-30)
        err = float((g - w).abs().max())
        if err > lim:
            k = int((g - w).abs().argmax())
            return (
                f"gradient of {n[0]} {n[1]}: differs by {err:.3e} at flat index {k} "
                f"of shape {tuple(g.shape)} (got {float(g.flatten()[k]):.12e}, "
                f"expected {float(w.flatten()[k]):.12e}, largest {s:.3e})"
            )
    return None


def labels_of(case):
    nd = len(case["shape"])
    names = leaf_names(case)
    out = [
        f"{nd}D",
        f"acc{case['acc']}",
        case["dtype"],
        case["backend"],
        f"storage {case['storage']}",
        f"ratio{int(case['dtf']) + 1}",
        f"loss {case['loss']}",
        f"threads{case['threads']}",
    ]
    for i in case["grad"]:
        n = names[i]
        out.append("gradient of " + (n[1] if n[0] == "model" else n[0]))
    if case.get("glay"):
        out.append("output gradients " + case["glay"])
    if case.get("cf"):
        out.append("callbacks " + case["cb"])
    if case.get("every", 1) > 1:
        out.append("sampling interval")
    if any(n > 1 for n in case["mbatch"].values()):
        out.append("batched model")
    if case.get("zone"):
        out.append(case["zone"])
    return sorted(set(out))


def check(case):
    d = sim.data(case)
    want, w, gref = ref_gradients(case, d)
    dt = torch.float64 if case["dtype"] == "double" else torch.float32
    got, grads, _ = dw_gradients(case, d, w, dt)
    tol = TOL[case["dtype"]]
    if case.get("time_taper") or case.get("freq_taper_frac"):
        tol = max(tol, 3e-6)
    ftol = {"double": 3e-6, "float": 3e-3}[case["dtype"]]
    msg = sim.compare(case, got, {k: v.detach() for k, v in want.items()}, ftol)
    if msg:
        raise Violation(msg)
    msg = compare_grads(case, d, grads, gref, tol, FLOOR[case["dtype"]])
    if msg:
        raise Violation(msg)
    return {
        "nontrivial": any(bool((g != 0).any()) for g in gref.values()),
        "labels": labels_of(case),
    }
