"""Long-run behaviour: propagation at the internal time step is stable, PMLs
absorb as if the model went on, and nothing travels faster than the stencil."""

import copy

import numpy as np
import torch
from hypothesis import strategies as st

from .. import gen, sim
from ..core import Violation

EXAMPLES = {"quick": 2000, "thorough": 9000}


@st.composite
def strategy(draw, tier):
    what = draw(st.sampled_from(["stable", "stable", "absorb", "absorb", "causal"]))
    kind = draw(st.sampled_from(["scalar", "acoustic", "elastic", "born"]))
    if what == "stable":
        c = draw(gen.wave(kind, nds=(1, 2, 2, 2, 3), survey=False, every=False, min_nt=3,
                          resample_opts=False, max_pml=20 if kind != "elastic" else 12))
        nd = len(c["shape"])
        if nd == 3:
            c["pml"] = [min(w, 4) for w in c["pml"]]
        c.pop("max_vel", None)
        c["dtf"] = draw(st.sampled_from([0.5, 0.9, 0.99, 1.0, 1.01, 1.99, 2.0, 2.5, 3.0]))
        c["steps"] = draw(st.integers(200, 1500)) if nd < 3 else draw(st.integers(100, 400))
        c["dtype"] = draw(st.sampled_from(["double", "float"]))
    elif what == "absorb":
        if kind == "born":
            kind = "scalar"
        nd = draw(st.sampled_from([1, 2, 2]))
        c = {"kind": kind, "S": 1}
        c["shape"] = [draw(st.integers(14, 26)) for _ in range(nd)]
        c["dx"] = [draw(st.sampled_from([4.0, 5.0, 6.0]))] * nd
        if draw(st.booleans()):
            c["dx"] = [draw(st.sampled_from([4.0, 5.0, 6.0])) for _ in range(nd)]
        c["acc"] = draw(st.sampled_from([2, 4, 6, 8]))
        c["pml"] = [draw(st.sampled_from([0, 10, 12, 16, 20, 20])) for _ in range(2 * nd)]
        if not any(c["pml"]):
            c["pml"] = [20] * (2 * nd)
        # wavelengths of 8 to 16 cells of the slowest wave
        c["ppw"] = draw(st.integers(8, 16))
        c["vel"] = draw(st.sampled_from([1500.0, 2000.0, 3000.0]))
        c["ratio"] = draw(st.sampled_from([0.5, 0.6]))  # vs / vp
        c["dtf"] = draw(st.sampled_from([0.7, 0.95, 1.0]))
        types = sim.src_types(kind, nd)
        c["ty"] = draw(st.sampled_from(types))
        c["loc"] = [draw(st.integers(4, n - 5)) for n in c["shape"]]
        c["maxv"] = draw(st.sampled_from([None, 1.0, 1.2]))
        c["layers"] = draw(st.booleans())
    else:
        c = draw(gen.wave(kind, survey=False, ratio=False, every=False, max_nt=4, acc=(2, 2, 4),
                          nds=(1, 1, 2), big=True, zones=False))
        c["max_vel"] = 2.0
        c["cell"] = [draw(st.integers(0, n - 1)) for n in c["shape"]]
        c["pick"] = draw(st.integers(0, 2**31 - 1))
    c["what"] = what
    return c


Z = 2e6  # impedance, to compare stresses with velocities


def peak(case, out):
    m = 0.0
    for f in sim.fields_of(case["kind"], len(case["shape"])):
        if f.startswith(("wave", "pre", "v", "sig")):
            x = float(out[f].detach().double().abs().max())
            if not np.isfinite(x):
                return float("inf")
            m = max(m, x * (Z if f.startswith("v") else 1))
    return m


def c_stable(case):
    """Without sources, no more than the linear drift of static modes."""
    nd = len(case["shape"])
    d = sim.data(case)
    dt = torch.float64 if case["dtype"] == "double" else torch.float32
    leaves = sim.cast(d["leaves"], dt)
    first = sim.run_dw(case, d, leaves)
    fields = sim.fields_of(case["kind"], nd)
    more = dict(case, src={}, rec={}, w0=fields, nt=case["steps"])
    le = {k: v for k, v in leaves.items() if k[0] == "model"}
    for f in fields:
        le["w0", f] = first[f].detach()
    last = sim.run_dw(more, d, le)
    a, b = peak(case, first), peak(case, last)
    if not b <= LIMIT * a:
        raise Violation(
            f"unstable: the largest value grows from {a:.3e} to {b:.3e} in "
            f"{case['steps']} steps without sources"
        )
    return {
        "nontrivial": a > 0,
        "labels": ["stable", case["kind"], f"{nd}D", case["dtype"], f"acc{case['acc']}"],
    }


LIMIT = 1e6


def check(case):
    case = copy.deepcopy(case)
    return {"stable": c_stable, "absorb": c_absorb, "causal": c_causal}[case["what"]](case)


def ricker(freq, n, dt, peak):
    t = np.arange(n) * dt - peak
    x = (np.pi * freq * t) ** 2
    return (1 - 2 * x) * np.exp(-x)


def absorb(case):
    import deepwave

    kind, nd = case["kind"], len(case["shape"])
    sh, dx, acc = case["shape"], case["dx"], case["acc"]
    vp = case["vel"]
    vmin = vp * case["ratio"] if kind == "elastic" else vp
    freq = vmin / (case["ppw"] * max(dx)) / 2  # highest about 2.5 times
    from .. import ref

    dt = case["dtf"] * ref.max_dt(dx, vp * (case["maxv"] or 1.0))
    # time for waves to cross the model about twice
    T = 1.5 / freq + 2.2 * sum((n * h) for n, h in zip(sh, dx)) / vmin / nd
    nt = int(T / dt)
    amp = torch.from_numpy(ricker(freq, nt, dt, 1.2 / freq)).reshape(1, 1, -1)
    ext = [int(vp * T / h / 2) + 8 for h in dx]

    def run(big):
        pad = []
        for i in range(nd):
            for s in range(2):
                w = case["pml"][2 * i + s]
                pad.append(ext[i] if (big and w) else 0)
        shape = [n + pad[2 * i] + pad[2 * i + 1] for i, n in enumerate(sh)]
        pml = [w if not big else (w and 20) for w in case["pml"]]
        v = torch.full(shape, vp, dtype=torch.float64)
        if case["layers"]:
            # layers along the first dimension, that go on beyond the model
            i = torch.arange(shape[0]) - pad[0]
            f = torch.where(i > sh[0] // 2, 1.0, 0.85).double()
            v = v * f.reshape([-1] + [1] * (nd - 1))
        kw = dict(accuracy=acc, pml_width=pml, pml_freq=float(freq))
        if case["maxv"]:
            kw["max_vel"] = vp * case["maxv"]
        off = torch.tensor([pad[2 * i] for i in range(nd)])
        loc = (torch.tensor([[case["loc"]]]) + off).long()
        g = torch.meshgrid(*[torch.arange(1, n - 2, 3) for n in sh], indexing="ij")
        rec = (torch.stack([x.flatten() for x in g], -1)[None] + off).long()
        sfx = "" if kind == "scalar" else "_" + case["ty"]
        kw["source_amplitudes" + sfx] = amp
        kw["source_locations" + sfx] = loc
        rts = sim.rec_types(kind, nd)
        for t in rts:
            kw["receiver_locations" + ("_" + t if t else "")] = rec
        if kind == "scalar":
            models = [v]
        elif kind == "acoustic":
            models = [v, torch.full(shape, 1200.0, dtype=torch.float64)]
        else:
            rho = 1200.0
            vs = v * case["ratio"]
            models = [rho * (v**2 - 2 * vs**2), rho * vs**2, torch.full(shape, 1 / rho, dtype=torch.float64)]
        out = sim.guard(kind, sim.dw_func(kind), *models, dx, dt, **kw)
        out = sim.name_outputs({"kind": kind, "shape": sh}, out)
        return {t: out[f"rec_{t}"] for t in rts}

    a, b = run(False), run(True)
    res = {}
    vmaxs = {"p": [], "v": []}
    for t in a:
        vmaxs["p" if t in ("p", "") else "v"].append(float(b[t].norm()))
    for t in a:
        s = max(vmaxs["p" if t in ("p", "") else "v"])
        res[t] = float((a[t] - b[t]).norm()) / s if s else 0.0
    return res


def c_absorb(case):
    res = absorb(case)
    ws = case["pml"]
    lim = 0.06 if min(ws) >= 16 else 0.25
    for t, e in res.items():
        if not e <= lim:
            raise Violation(
                f"absorb: recordings of type {t!r} differ by {e:.3f} (relative norm) from "
                f"those in a model that goes on beyond the PML"
            )
    nd = len(case["shape"])
    return {
        "nontrivial": True,
        "labels": ["absorb", case["kind"], f"{nd}D", f"acc{case['acc']}"],
        "res": res,
    }


def c_causal(case):
    """A change of everything at one cell is not felt outside of its reach."""
    kind, nd = case["kind"], len(case["shape"])
    d = sim.data(case)
    r = sim.rng(case["pick"])
    reach = case["nt"] * case["acc"] + 2
    pml, cell = case["pml"], case["cell"]
    one = sim.run_dw(case, d)
    leaves = {k: v.clone() for k, v in d["leaves"].items()}
    sl = (Ellipsis, *cell)
    for k, v in leaves.items():
        if k[0] == "model":
            v[sl] = v[sl] * 1.2
        elif k[0] == "w0":
            at = (Ellipsis, *(c + pml[2 * i] for i, c in enumerate(cell)))
            v[at] = v[at] * 3
        else:
            for s, shot in enumerate(case["src"][k[1]]):
                for i, p in enumerate(shot):
                    if p == cell:
                        v[s, i] = v[s, i] * 3
    two = sim.run_dw(case, d, leaves)
    # the cells that take the value of this one, and those within reach
    near = torch.ones(sim.comp_shape(case), dtype=torch.bool)
    dist = []
    for i, (c, n) in enumerate(zip(cell, case["shape"])):
        x = torch.arange(-pml[2 * i], n + pml[2 * i + 1])
        lo = -pml[2 * i] if c == 0 else c
        hi = n - 1 + pml[2 * i + 1] if c == n - 1 else c
        far = torch.maximum(lo - x, x - hi).clamp(min=0)
        dist.append((x, far))
        near &= (far <= reach).reshape([-1] + [1] * (nd - i - 1))
    changed = False
    for f in sim.fields_of(kind, nd):
        diff = one[f] != two[f]
        changed |= bool(diff.any())
        bad = diff & ~near
        if bad.any():
            k = [int(x) for x in bad.nonzero()[0]]
            raise Violation(
                f"causal: changes at cell {cell} affect {f} at {k} (padded) in "
                f"{case['nt']} steps of order {case['acc']}"
            )
    for ty in sim.rec_types(kind, nd):
        locs = case["rec"].get(ty)
        if locs is None:
            continue
        diff = (one[f"rec_{ty}"] != two[f"rec_{ty}"]).any(-1)
        for s, shot in enumerate(locs):
            for i, p in enumerate(shot):
                if p[0] == sim.IGNORE:
                    continue
                if diff[s, i] and any(
                    int(far[q + pml[2 * a]]) > reach for a, ((x, far), q) in enumerate(zip(dist, p))
                ):
                    raise Violation(f"causal: changes at cell {cell} affect the receiver at {p}")
    return {
        "nontrivial": changed and not bool(near.all()),
        "labels": ["causal", kind, f"{nd}D", f"acc{case['acc']}"],
    }
