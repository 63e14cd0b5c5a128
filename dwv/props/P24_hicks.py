"""Interpolation of sources and receivers that are not on grid points."""

import math

import numpy as np
import torch
from hypothesis import strategies as st

from .. import sim
from ..core import Violation

EXAMPLES = {"quick": 5000, "thorough": 40000}
BETA = [0.0, 1.84, 3.04, 4.14, 5.26, 6.40, 7.51, 8.56, 9.56, 10.64]
FRACS = [0.0, 0.0, 0.0625, 0.1, 0.25, 0.3, 0.5, 0.5, 0.7, 0.9375]


@st.composite
def strategy(draw, tier):
    hw = draw(st.integers(1, 10))
    shape = [draw(st.integers(2 * hw + 3, 2 * hw + 30)) for _ in range(2)]
    fs = [draw(st.booleans()) for _ in range(4)]
    c = {"hw": hw, "shape": shape, "fs": fs}
    locs = [-0.5, shape[0] - 0.5, -0.5, shape[1] - 0.5]
    if draw(st.booleans()):
        # staggered grids and surfaces within the model
        for i in range(4):
            if draw(st.booleans()):
                k = draw(st.integers(0, 4)) / 2
                locs[i] = locs[i] + k if i % 2 == 0 else locs[i] - k
        c["fs_locs"] = locs
    S, n = draw(st.integers(1, 3)), draw(st.integers(0, 4))
    points = []
    for _ in range(S):
        shot = []
        for _ in range(n):
            p = []
            for d in range(2):
                # within the surfaces, or with the window inside the grid
                lo = locs[2 * d] if fs[2 * d] else hw
                hi = locs[2 * d + 1] if fs[2 * d + 1] else shape[d] - 1 - hw
                k = draw(st.integers(math.floor(lo), math.ceil(hi)))
                if draw(st.integers(0, 2)) == 0:
                    k = math.floor(lo) if fs[2 * d] else math.floor(hi)
                x = k + draw(st.sampled_from(FRACS))
                p.append(min(max(x, lo), hi))
            shot.append(p)
        points.append(shot)
    c["points"] = points
    how = draw(st.integers(0, 3))
    if how == 0:
        c["mono"] = True
    elif how == 1:
        c["mono"], c["dim"] = False, draw(st.integers(0, 1))
    else:
        c["mono"] = [[draw(st.booleans()) for _ in range(n)] for _ in range(S)]
        c["dim"] = [[draw(st.integers(0, 1)) for _ in range(n)] for _ in range(S)]
        if how == 3:
            c["dim"] = draw(st.integers(0, 1))
    c["shots"] = draw(
        st.none()
        | st.lists(st.integers(0, S - 1), min_size=1, max_size=4)
    )
    c["nt"] = draw(st.integers(1, 4))
    c["seed"] = draw(st.integers(0, 10**6))
    c["dtype"] = draw(st.sampled_from(["float", "double"]))
    return c


def kaiser(x, hw):
    b = BETA[hw - 1]
    r = 1 - (x / hw) ** 2
    return 0.0 if r < 0 else float(np.i0(b * math.sqrt(r)) / np.i0(b))


def weights_1d(x, hw, mono, fs, fs_loc):
    """Weight of each grid index: the windowed sinc (or its derivative) at x
    minus its mirror image in each free surface."""
    if mono and abs(x - round(x)) < 1e-6:
        return {round(x): 1.0}
    out = {}
    f = math.floor(x)
    for k in range(f - hw + 1, f + hw + 1):
        z = k - x
        s = 1.0 if z == 0 else math.sin(math.pi * z) / (math.pi * z)
        if mono:
            w = s * kaiser(z, hw)
        else:
            w = 0.0 if z == 0 else (math.cos(math.pi * z) - s) / z * kaiser(z, hw)
        where, sign = k, 1.0
        for side in (0, 1):
            beyond = (
                k < fs_loc[side] if side == 0 else k > fs_loc[side]
            )
            if fs[side] and beyond:
                where, sign = round(2 * fs_loc[side] - k), -1.0
            elif fs[side] and k == fs_loc[side]:
                sign = 0.0
        out[where] = out.get(where, 0.0) + sign * w
    return out


def check(case):
    from deepwave.location_interpolation import Hicks

    dtype = torch.float64 if case["dtype"] == "double" else torch.float32
    S = len(case["points"])
    n = len(case["points"][0])
    pts = torch.tensor(case["points"], dtype=dtype).reshape(S, n, 2)
    kw = {}
    mono, dim = case["mono"], case.get("dim", 0)
    kw["monopole"] = (
        torch.tensor(mono).reshape(S, n).bool() if isinstance(mono, list) else mono
    )
    kw["dipole_dim"] = (
        torch.tensor(dim).reshape(S, n).int() if isinstance(dim, list) else dim
    )
    if any(case["fs"]):
        kw["free_surfaces"] = list(case["fs"])
        kw["model_shape"] = list(case["shape"])
    if "fs_locs" in case:
        kw["free_surface_locs"] = list(case["fs_locs"])
    h = sim.guard("Hicks", Hicks, pts, case["hw"], dtype=dtype, **kw)
    fl = case.get(
        "fs_locs",
        [-0.5, case["shape"][0] - 0.5, -0.5, case["shape"][1] - 0.5],
    )
    shots = case["shots"]
    idx = None if shots is None else torch.tensor(shots)
    order = list(range(S)) if shots is None else shots
    locs = sim.guard("get_locations", h.get_locations, idx)
    nt = case["nt"]
    g = torch.Generator().manual_seed(case["seed"])
    amp = torch.randn(len(order), n, nt, generator=g, dtype=torch.float64)
    got = sim.guard("source", h.source, amp.to(dtype), idx).double()
    m = locs.shape[1]
    if locs.shape != (len(order), m, 2) or got.shape != (len(order), m, nt):
        raise Violation(f"shapes {tuple(locs.shape)}, {tuple(got.shape)}")
    rec_in = torch.randn(len(order), m, nt, generator=g, dtype=torch.float64)
    rec = sim.guard("receiver", h.receiver, rec_in.to(dtype), idx).double()
    if rec.shape != (len(order), n, nt):
        raise Violation(f"receiver shape {tuple(rec.shape)}")
    tol = 3e-5 if case["dtype"] == "float" else 1e-6
    reflected = False
    for row, s in enumerate(order):
        cells = [tuple(x) for x in locs[row].tolist()]
        active = [x for x in cells if x[0] != sim.IGNORE]
        if any((a == sim.IGNORE) != (b == sim.IGNORE) for a, b in cells):
            raise Violation("a location is ignored in one dimension only")
        if len(set(active)) != len(active):
            raise Violation("repeated locations")
        for a in active:
            for d in range(2):
                if not 0 <= a[d] < case["shape"][d]:
                    raise Violation(f"location {a} outside the grid")
        want = {}
        for i in range(n):
            mo = mono[s][i] if isinstance(mono, list) else mono
            di = dim[s][i] if isinstance(dim, list) else dim
            ws = [
                weights_1d(
                    float(pts[s, i, d]),
                    case["hw"],
                    mo or di != d,
                    case["fs"][2 * d : 2 * d + 2],
                    fl[2 * d : 2 * d + 2],
                )
                for d in range(2)
            ]
            # the amplitude recorded by the point
            exp = torch.zeros(nt, dtype=torch.float64)
            big = 1e-12
            for a, wa in ws[0].items():
                for b, wb in ws[1].items():
                    w = wa * wb
                    want[a, b] = want.get((a, b), 0) + w * amp[row, i]
                    if (a, b) in active:
                        exp += w * rec_in[row, cells.index((a, b))]
                    elif abs(w) > 1e-3:
                        raise Violation(
                            f"cell {(a, b)} is missing: weight {w} of point {i}"
                        )
            # the documented eps makes dipole weights slightly different
            lim = (tol if mo else 4e-3) * max(1.0, float(rec_in[row].abs().max()))
            lim *= max(big, sum(abs(x) for x in ws[0].values())) * max(
                big, sum(abs(x) for x in ws[1].values())
            )
            if not (rec[row, i] - exp).abs().max() <= lim:
                raise Violation(
                    f"receiver {i} of shot {s}: {rec[row, i].tolist()} instead of "
                    f"{exp.tolist()}"
                )
        for k, c in enumerate(cells):
            exp = want.pop(c, torch.zeros(nt, dtype=torch.float64))
            if c[0] == sim.IGNORE:
                exp = torch.zeros(nt, dtype=torch.float64)
            lim = 4e-3 if mono is not True else tol
            lim *= 3 * max(1.0, float(amp[row].abs().sum(0).max()))
            if not (got[row, k] - exp).abs().max() <= lim:
                raise Violation(
                    f"source amplitude at {c} of shot {s}: {got[row, k].tolist()} "
                    f"instead of {exp.tolist()}"
                )
        for i in range(n):
            for d in range(2):
                x = case["points"][s][i][d]
                for q in (0, 1):
                    if case["fs"][2 * d + q] and abs(x - fl[2 * d + q]) < case["hw"]:
                        reflected = True
    # receiver is the transpose of source
    lhs = float((got * rec_in).sum())
    rhs = float((rec * amp).sum())
    scale = float(
        (got.abs() * rec_in.abs()).sum() + (rec.abs() * amp.abs()).sum()
    )
    if abs(lhs - rhs) > (1e-4 if case["dtype"] == "float" else 1e-10) * scale + 1e-300:
        raise Violation(f"receiver is not the transpose of source: {lhs}, {rhs}")
    off = any(abs(x - round(x)) > 1e-6 for s in case["points"] for p in s for x in p)
    labels = [f"halfwidth {case['hw']}", case["dtype"]]
    if reflected:
        labels.append("reflected in a free surface")
    if mono is not True:
        labels.append("dipole")
    if shots is not None:
        labels.append("subset of shots")
    return {"nontrivial": n > 0 and (off or mono is not True), "labels": labels}
