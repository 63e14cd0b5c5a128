"""Second-order gradients: exact where they are supported, refused elsewhere."""

import torch
from hypothesis import strategies as st

from .. import gen, gradient as G, sim
from ..core import Violation

EXAMPLES = {"quick": 5000, "thorough": 40000}


@st.composite
def strategy(draw, tier):
    kind = draw(st.sampled_from(["scalar"] * 7 + ["acoustic", "elastic", "born"]))
    backend = draw(st.sampled_from(["c"] * 6 + ["eager"]))
    c = draw(
        gen.wave(
            kind,
            max_nt=7 if tier == "quick" else 11,
            # a subdivided time step samples the model gradient, and so the
            # second-order gradients are approximations: only the Python
            # backend is exact then
            ratio=backend == "eager",
            every=False,
            big=tier != "quick",
            max_shots=2 if kind == "scalar" else 1,
            zones=False,
        )
    )
    names = G.leaf_names(c)
    mask = draw(st.integers(1, 2 ** len(names) - 1))
    if draw(st.booleans()):
        mask = 2 ** len(names) - 1
    c["grad"] = [i for i in range(len(names)) if mask >> i & 1]
    c["loss"] = draw(st.sampled_from(["rec", "all", "wave"]))
    c["gseed"] = draw(st.integers(0, 2**31 - 1))
    c["backend"] = backend
    c["threads"] = draw(st.sampled_from([1, 1, 2]))
    c["storage"] = draw(st.sampled_from(["device"] * 3 + ["cpu", "disk"]))
    if backend == "eager":
        c["storage"] = "device"
    # which first-order gradients the second-order loss depends on
    c["inner"] = draw(st.integers(1, 2 ** len(c["grad"]) - 1))
    return c


def second(case, d, run, want_w, u, names, create=True):
    """(first-order gradients, second-order gradients by leaf and weight)"""
    leaves = {
        k: v.clone().requires_grad_(k in names) for k, v in d["leaves"].items()
    }
    w = {k: g.clone().requires_grad_() for k, g in want_w.items()}
    out = run(leaves)
    outs = [k for k in w if out[k].requires_grad]
    if not outs:
        return None, None
    first = torch.autograd.grad(
        [out[k] for k in outs],
        [leaves[n] for n in names],
        grad_outputs=[w[k] for k in outs],
        create_graph=True,
        allow_unused=True,
    )
    first = dict(zip(names, first))
    loss = sum((first[n] * u[n]).sum() for n in u if first[n] is not None)
    res = {}
    keys = [("leaf", n) for n in names] + [("weight", k) for k in outs]
    if isinstance(loss, torch.Tensor) and loss.requires_grad:
        # backward(), not grad(): the latter would not visit the nodes that
        # refuse to be differentiated
        (loss).backward()
        xs = [leaves[n] for n in names] + [w[k] for k in outs]
        res = dict(zip(keys, [x.grad for x in xs]))
    return first, {k: res.get(k) for k in keys}


def check(case):
    d = sim.data(case)
    names = [G.leaf_names(case)[i] for i in case["grad"]]
    with torch.no_grad():
        want0 = sim.run_ref(case, d)
    w = G.weights(case, want0)
    if not w:
        return {"nontrivial": False, "labels": ["no loss"]}
    u = {}
    for i, n in enumerate(names):
        if case["inner"] >> i & 1:
            r = sim.rng(case["gseed"], 99, sim._key(n[1]))
            s = G.in_scale(case, d, n)
            x = torch.from_numpy(r.standard_normal(tuple(d["leaves"][n].shape))) * s
            if n[0] == "w0":
                x = x * G.exists_mask(case, n[1])
            u[n] = x
    first_r, sec_r = second(case, d, lambda lv: sim.run_ref(case, d, lv), w, u, names)
    torch.set_num_threads(case["threads"])
    supported = case["kind"] == "scalar" or case["backend"] == "eager"

    def run():
        return second(
            case,
            d,
            lambda lv: sim.run_dw(case, d, lv, **G.extra_kw(case)),
            w,
            u,
            names,
        )

    labels = [
        case["kind"],
        case["backend"],
        f"{len(case['shape'])}D",
        "storage " + case["storage"],
    ]
    try:
        if supported:
            first, sec = sim.guard("second-order gradient", run)
        else:
            # may be refused; may not be wrong
            try:
                first, sec = run()
            except Violation:
                raise
            except RuntimeError as e:
                return {"nontrivial": "once_differentiable" in str(e), "labels": labels + ["refused"]}
    finally:
        torch.set_num_threads(1)
    if first is None:
        return {"nontrivial": False, "labels": labels}
    zero = {n: torch.zeros_like(d["leaves"][n]) for n in names}
    msg = G.compare_grads(
        case,
        d,
        first,
        {n: (first_r[n] if first_r and first_r[n] is not None else zero[n]).detach() for n in names},
        1e-7 if not (case.get("time_taper") or case.get("freq_taper_frac")) else 3e-6,
        1e-12,
    )
    if msg:
        raise Violation("first-order: " + msg)
    nontrivial = False
    tol = 1e-6 if not (case.get("time_taper") or case.get("freq_taper_frac")) else 1e-5
    total = 1e-9 * max(
        [
            float(((sec_r or {}).get(("leaf", n)) * d["leaves"][n]).abs().max())
            for n in names
            if (sec_r or {}).get(("leaf", n)) is not None and d["leaves"][n].numel()
        ]
        + [0.0]
    )
    for key, g in sec.items():
        r = (sec_r or {}).get(key)
        like = d["leaves"][key[1]] if key[0] == "leaf" else want0[key[1]]
        r = torch.zeros_like(like) if r is None else r.detach()
        g = torch.zeros_like(like) if g is None else g.detach()
        if r.numel() == 0:
            continue
        if key[0] == "leaf" and key[1][0] == "w0":
            m = G.exists_mask(case, key[1][1])
            r, g = r * m, g * m
        elif key[0] == "weight" and not key[1].startswith("rec_"):
            m = G.exists_mask(case, key[1])
            r, g = r * m, g * m
        s = float(r.abs().max())
        nontrivial |= s > 0
        xs = G.in_scale(case, d, key[1]) if key[0] == "leaf" else 0.0
        if key[0] == "leaf":
            fl = (1e-12 + total) / max(xs, 1e-30)
        else:
            fl = 1e-11 * max(1e-30, sim.scale_of(case, want0, key[1]))
        err = float((r - g).abs().max())
        if not err <= tol * s + fl:
            raise Violation(
                f"second-order gradient with respect to {key}: differs by {err:.3e} "
                f"(largest {s:.3e})"
            )
    return {"nontrivial": nontrivial, "labels": labels}
