"""Conversions between parameterisations of the elastic model, and the choice
of the internal time step."""

import math
import warnings

import torch
from hypothesis import strategies as st

from .. import sim
from ..core import Violation

EXAMPLES = {"quick": 8000, "thorough": 60000}


@st.composite
def strategy(draw, tier):
    what = draw(st.sampled_from(["to", "from", "round", "cfl", "cfl", "used"]))
    c = {"what": what}
    if what == "used":
        c["kind"] = draw(st.sampled_from(["scalar", "born", "acoustic", "elastic", "elastic"]))
        nd = draw(st.integers(1, 3))
        c["dx"] = [draw(st.sampled_from([0.5, 1.0, 5.0, 25.0])) for _ in range(nd)]
        c["shape"] = [draw(st.integers(3, 5)) for _ in range(nd)]
        c["S"] = draw(st.integers(1, 2))
        nb = math.prod(c["shape"]) * c["S"]
        speed = st.sampled_from([-3000.0, -1500.0, 0.0, 10.0, 1500.0, 1800.0, 3000.0])
        for k, n in (("p", "vp"), ("s", "vs")):
            c[k] = [draw(speed) for _ in range(min(nb, 12))]
        c["p"][draw(st.integers(0, len(c["p"]) - 1))] = 2000.0
        c["batched"] = draw(st.sampled_from([[], ["p"], ["s"], ["p", "s", "r"]]))
        c["m"] = draw(st.integers(0, 4)) + draw(st.integers(1, 99)) / 100
        c["sign"] = draw(st.sampled_from([1, 1, -1]))
        c["max_vel"] = draw(st.sampled_from([None, None, 1.5]))
        c["dtype"] = draw(st.sampled_from(["float", "double"]))
        c["backend"] = draw(st.sampled_from(["c", "c", "c", "eager"]))
        c["survey"] = draw(st.booleans())
        return c
    if what == "cfl":
        nd = draw(st.integers(1, 3))
        c["dx"] = [draw(st.sampled_from([0.001, 0.5, 1.0, 3.7, 5.0, 25.0, 1000.0])) for _ in range(nd)]
        c["vel"] = draw(
            st.sampled_from([1e-3, 0.5, 1.0, 340.0, 1500.0, 2500.0, 6123.4, 1e5])
        ) * draw(st.integers(50, 150)) / 100
        # dt as a multiple of the largest stable one
        k = draw(st.integers(0, 25))
        c["n"] = k
        c["m"] = draw(st.sampled_from([0.01, 0.3, 0.5, 0.9, 0.99999, 0.9999999, 1.0]))
        c["sign"] = draw(st.sampled_from([1, 1, 1, -1]))
        c["two"] = nd == 2 and draw(st.booleans())
        return c
    shape = draw(st.lists(st.integers(0, 4), min_size=0, max_size=3))
    c["shape"] = shape
    n = math.prod(shape)
    val = st.one_of(
        st.just(0.0),
        st.floats(0.125, 1e4, width=32),
    )
    c["vp"] = [draw(st.floats(0.5, 1e4, width=32)) for _ in range(n)]
    c["r"] = [draw(st.sampled_from([0.0, 0.1, 0.3, 0.5, 0.7])) for _ in range(n)]
    c["rho"] = [draw(val) for _ in range(n)]
    c["dtype"] = draw(st.sampled_from(["float", "double"]))
    return c


EPS = 2e-18  # documented eps of the reciprocal, relative to 1e3 * tolerance


def close(a, b, tol, scale=None):
    s = b.abs() if scale is None else scale
    return bool(((a - b).abs() <= tol * s).all())


def used(case):
    """The time step that a propagator really uses."""
    import deepwave

    dtype = torch.float64 if case["dtype"] == "double" else torch.float32
    shape, S = case["shape"], case["S"]

    def mk(k):
        sh = ([S] if k in case["batched"] else []) + shape
        n = math.prod(sh)
        x = (case[k] * n)[:n]
        return torch.tensor(x, dtype=dtype).reshape(sh)

    kind, nd = case["kind"], len(shape)
    vp = mk("p")
    top = float(vp.abs().max())
    if kind == "elastic":
        vs = mk("s").abs()
        vp = vp.abs().clamp(min=10)  # no shear waves without compression
        lamb = 2000 * (vp**2 - 2 * vs**2) if vp.shape == vs.shape else 2000 * vp**2
        mu = (2000 * vs**2).expand(lamb.shape if "s" in case["batched"] and vs.shape == lamb.shape else vs.shape)
        b = torch.full(([S] if "r" in case["batched"] else []) + shape, 1 / 2000, dtype=dtype)
        models = [lamb, mu, b]
        L, M, B = (m.double() for m in models)
        top = math.sqrt(max(float(((L + 2 * M) * B).max()), float((M * B).max())))
        if float((L + 2 * M).min()) < 0:
            return {"nontrivial": False, "labels": []}
    elif kind == "acoustic":
        models = [vp, torch.full(shape, 1000.0, dtype=dtype)]
    elif kind == "born":
        models = [vp, torch.zeros(shape, dtype=dtype)]
    else:
        models = [vp]
    lim = 0.6 / math.sqrt(sum(1 / h**2 for h in case["dx"]))
    vmax = top * (case["max_vel"] or 1)
    dt = case["sign"] * case["m"] * lim / vmax
    kw = {"pml_width": 2, "pml_freq": 10.0, "time_pad_frac": 0.0}
    if case["max_vel"]:
        kw["max_vel"] = vmax
    ax = f"_{'zyx'[-nd]}" if kind == "elastic" else "_p" if kind == "acoustic" else ""
    kw["source_locations" + ax] = torch.ones(S, 1, nd, dtype=torch.long)
    kw["source_amplitudes" + ax] = torch.zeros(S, 1, 2, dtype=dtype)
    if case["survey"]:
        kw["survey_pad"] = 0  # the speed of the whole model still counts
    seen = []
    kw["forward_callback"] = lambda state: seen.append(state.dt)
    if case["backend"] == "eager":
        kw["python_backend"] = "eager"
    f = {"born": deepwave.scalar_born}.get(kind) or getattr(deepwave, kind)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sim.guard(kind, f, *models, case["dx"], dt, **kw)
    tol = 1e-9 if dtype == torch.float64 else 1e-5
    for idt in seen:
        k = dt / idt
        if abs(k - round(k)) > tol * k or round(k) < 1:
            raise Violation(f"steps of {idt} do not divide {dt}")
        if abs(idt) * vmax > lim * (1 + tol):
            raise Violation(
                f"{kind} with speeds up to {top} uses steps of {idt}, stable are {lim / vmax}"
            )
        if k > 1.5 and abs(dt) / (round(k) - 1) * vmax < lim * (1 - tol):
            raise Violation(f"{kind} uses {k} steps, fewer would be stable")
    if not seen:
        raise Violation("no step was taken")
    return {"nontrivial": True, "labels": [kind, f"{nd}D", "used"]}


def check(case):
    from deepwave import common

    if case["what"] == "used":
        return used(case)

    if case["what"] == "cfl":
        dx, vel = case["dx"], case["vel"]
        lim = 0.6 / math.sqrt(sum(1 / h**2 for h in dx)) / vel
        dt = case["sign"] * lim * (case["n"] + case["m"])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if case["two"]:
                idt, ratio = sim.guard("cfl_condition", common.cfl_condition, *dx, dt, vel)
            else:
                idt, ratio = sim.guard("cfl_condition_n", common.cfl_condition_n, dx, dt, vel)
        if not isinstance(ratio, int) or ratio < 1:
            raise Violation(f"step ratio {ratio!r}")
        if abs(idt * ratio - dt) > 1e-12 * abs(dt):
            raise Violation(f"{ratio} steps of {idt} are not {dt}")
        slow = vel < 1e-2  # the documented eps matters for tiny velocities
        tol = 1e-6 if slow else 1e-9
        if abs(idt) > lim * (1 + tol):
            raise Violation(f"internal time step {idt} exceeds the stable {lim}")
        if ratio > 1 and abs(dt) / (ratio - 1) < lim * (1 - tol):
            raise Violation(f"{ratio} steps of {idt}, but {ratio - 1} would be stable")
        return {"nontrivial": ratio > 1, "labels": [f"{len(dx)}D", f"ratio {min(ratio, 5)}"]}

    dtype = torch.float64 if case["dtype"] == "double" else torch.float32
    tol = 1e-12 if case["dtype"] == "double" else 3e-6
    mk = lambda x: torch.tensor(x, dtype=dtype).reshape(case["shape"])
    vp, vs, rho = mk(case["vp"]), mk(case["r"]) * mk(case["vp"]), mk(case["rho"])
    P, Q, R = vp.double(), vs.double(), rho.double()
    lamb, mu = R * (P * P - 2 * Q * Q), R * Q * Q
    buoy = torch.where(R > 0, 1 / torch.where(R > 0, R, 1), 0)
    if case["what"] in ("to", "round"):
        out = sim.guard(
            "vpvsrho_to_lambmubuoyancy", common.vpvsrho_to_lambmubuoyancy, vp, vs, rho
        )
        for g, w, n, s in (
            (out[0], lamb, "lambda", R * P * P),
            (out[1], mu, "mu", None),
            (out[2], buoy, "buoyancy", None),
        ):
            if g.shape != vp.shape or g.dtype != dtype:
                raise Violation(f"{n}: shape {tuple(g.shape)}, {g.dtype}")
            if not close(g.double(), w, tol, s):
                raise Violation(f"{n}: {g.tolist()} instead of {w.tolist()}")
        if case["what"] == "round":
            back = sim.guard(
                "lambmubuoyancy_to_vpvsrho", common.lambmubuoyancy_to_vpvsrho, *out
            )
            ok = R > 0
            for g, w, n in zip(back, (P, Q, R), ("vp", "vs", "rho")):
                w = torch.where(ok, w, 0)
                if not close(g.double(), w, 1e3 * tol, torch.where(ok, P + R + EPS * R**3 / tol, 1)):
                    raise Violation(f"{n}: {g.tolist()} instead of {w.tolist()}")
    else:
        l32, m32, b32 = lamb.to(dtype), mu.to(dtype), buoy.to(dtype)
        out = sim.guard(
            "lambmubuoyancy_to_vpvsrho", common.lambmubuoyancy_to_vpvsrho, l32, m32, b32
        )
        ok = R > 0
        for g, w, n in zip(out, (P, Q, R), ("vp", "vs", "rho")):
            w = torch.where(ok, w, 0)
            if g.shape != vp.shape or g.dtype != dtype:
                raise Violation(f"{n}: shape {tuple(g.shape)}, {g.dtype}")
            if not close(g.double(), w, 1e3 * tol, torch.where(ok, P + R + EPS * R**3 / tol, 1)):
                raise Violation(f"{n}: {g.tolist()} instead of {w.tolist()}")
    # derivatives, also where there is vacuum or fluid
    a = [x.clone().requires_grad_() for x in (vp, vs, rho)]
    out = common.vpvsrho_to_lambmubuoyancy(*a)
    g = torch.autograd.grad([x.sum() for x in out], a)
    gl = [2 * P * R, -4 * Q * R + 2 * Q * R, P * P - 2 * Q * Q + Q * Q - buoy**2]
    for k, (x, w) in enumerate(zip(g, gl)):
        ok = R > 0 if k == 2 else R >= 0
        s = torch.stack([y.abs() for y in gl]).sum(0) + P * P + buoy**2
        if not bool((((x.double() - w).abs() <= 10 * tol * s) | ~ok).all()):
            raise Violation(f"gradient {k}: {x.tolist()} instead of {w.tolist()}")
    return {
        "nontrivial": vp.numel() > 0,
        "labels": [case["what"], case["dtype"]]
        + (["vacuum"] if bool((R == 0).any()) else [])
        + (["fluid"] if bool((Q == 0).any()) else []),
    }
