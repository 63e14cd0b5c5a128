"""A propagation continued from its final wavefields is the whole one."""

import torch
from hypothesis import strategies as st

from .. import gen, gradient as G, sim
from ..core import Violation

EXAMPLES = {"quick": 4000, "thorough": 25000}


@st.composite
def strategy(draw, tier):
    kind = draw(st.sampled_from(["scalar", "acoustic", "elastic", "born"]))
    ratio = draw(st.integers(0, 3)) == 0
    c = draw(
        gen.wave(
            kind, min_nt=2, max_nt=12, ratio=ratio, resample_opts=False, every=False
        )
    )
    c.pop("every", None)
    cuts = draw(
        st.lists(st.integers(1, c["nt"] - 1), min_size=1, max_size=3, unique=True)
    )
    c["cuts"] = sorted(cuts)
    names = G.leaf_names(c)
    if int(c["dtf"]) > 0:
        # signals are resampled as a whole: only without sources and receivers
        # are the parts the same as the whole
        c["src"], c["rec"] = {}, {}
        if not c["w0"]:
            c["w0"] = [sim.fields_of(kind, len(c["shape"]))[0]]
        names = G.leaf_names(c)
    mask = draw(st.integers(1, 2 ** len(names) - 1))
    c["grad"] = [i for i in range(len(names)) if mask >> i & 1]
    c["loss"] = draw(st.sampled_from(["rec", "all", "wave"]))
    c["gseed"] = draw(st.integers(0, 10**6))
    c["backend"] = draw(st.sampled_from(["c"] * 7 + ["eager"]))
    c["checkpoint"] = draw(st.booleans())
    c["threads"] = 1
    return c


def chain(case, d, leaves, kw):
    """Outputs of the segments, concatenated."""
    kind, nd = case["kind"], len(case["shape"])
    fields = sim.fields_of(kind, nd)
    edges = [0, *case["cuts"], case["nt"]]
    state = {k[1]: x for k, x in leaves.items() if k[0] == "w0"}
    recs = {}
    for a, b in zip(edges[:-1], edges[1:]):
        c = {**case, "nt": b - a, "w0": [f for f in fields if f in state]}
        part = {k: x for k, x in leaves.items() if k[0] == "model"}
        for k, x in leaves.items():
            if k[0] == "amp":
                part[k] = x[..., a:b]
        for f, x in state.items():
            part["w0", f] = x
        if case["checkpoint"]:
            keys = list(part)

            def f(*xs, c=c, keys=keys):
                return tuple(sim.run_dw(c, d, dict(zip(keys, xs)), **kw).values())

            vals = sim.guard(
                "checkpoint",
                torch.utils.checkpoint.checkpoint,
                f,
                *[part[k] for k in keys],
                use_reentrant=False,
            )
            names = fields + [f"rec_{t}" for t in sim.rec_types(kind, nd)]
            out = dict(zip(names, vals))
        else:
            out = sim.run_dw(c, d, part, **kw)
        for n, x in out.items():
            if n.startswith("rec_"):
                recs.setdefault(n, []).append(x)
        state = {f: out[f] for f in fields}
    out = dict(state)
    for n, x in recs.items():
        out[n] = torch.cat(x, -1) if x[0].numel() else x[0]
    return out


def check(case):
    import torch.utils.checkpoint  # noqa: F401

    d = sim.data(case)
    names = [G.leaf_names(case)[i] for i in case["grad"]]
    kw = {"python_backend": "eager"} if case["backend"] == "eager" else {}

    def leaves():
        return {
            k: x.clone().requires_grad_(k in names) for k, x in d["leaves"].items()
        }

    L1, L2 = leaves(), leaves()
    whole = sim.run_dw(case, d, L1, **kw)
    parts = chain(case, d, L2, kw)
    det = {k: x.detach() for k, x in whole.items()}
    msg = sim.compare(case, parts, det, 1e-12, "continued: ")
    if msg:
        raise Violation(msg)
    w = G.weights(case, det)

    def grads(out, L):
        ks = [k for k in w if out[k].requires_grad]
        if not ks:
            return {n: torch.zeros_like(L[n]) for n in names}
        g = sim.guard(
            "backward",
            torch.autograd.grad,
            [out[k] for k in ks],
            [L[n] for n in names],
            grad_outputs=[w[k] for k in ks],
            allow_unused=True,
        )
        return {
            n: torch.zeros_like(L[n]) if x is None else x for n, x in zip(names, g)
        }

    g1, g2 = grads(whole, L1), grads(parts, L2)
    msg = G.compare_grads(case, d, g2, g1, 1e-9, 1e-13)
    if msg:
        raise Violation("continued: " + msg)
    return {
        "nontrivial": gen.nontrivial(case, det),
        "labels": [
            case["kind"],
            f"{len(case['shape'])}D",
            case["backend"],
            f"{len(case['cuts']) + 1} segments",
        ]
        + (["checkpointed"] if case["checkpoint"] else []),
    }
