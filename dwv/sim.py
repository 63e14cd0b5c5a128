"""Cases, and running them on deepwave or on the reference.

A case is a JSON-able dict: shapes, spacings, PML widths, explicit source and
receiver locations and so on; bulk numbers (model values, amplitudes, initial
wavefields) come from numpy generators seeded by integers in the case.
"""

import math
import traceback
import warnings

import numpy as np
import torch

from . import ref
from .core import Violation

IGNORE = ref.IGNORE
AX = "zyx"


def axes(nd):
    return AX[3 - nd :]


# ------------------------------------------------------------------ names
def models_of(kind):
    return {
        "scalar": ["v"],
        "born": ["v", "scatter"],
        "acoustic": ["v", "rho"],
        "elastic": ["lamb", "mu", "buoyancy"],
    }[kind]


def src_types(kind, nd):
    """Types of source and receiver, as used in argument suffixes."""
    if kind in ("scalar", "born"):
        return [""]
    if kind == "acoustic":
        return ["p", *axes(nd)]
    return [*axes(nd), "p"]


def rec_types(kind, nd):
    if kind == "born":
        return ["bg", "sc"]
    if kind == "elastic":
        return ["p", *axes(nd)]
    return src_types(kind, nd)


ELASTIC_ORDER = (
    "vz vy vx sigmazz sigmayz sigmaxz sigmayy sigmaxy sigmaxx "
    "m_vzz m_vzy m_vzx m_vyz m_vxz m_vyy m_vyx m_vxy m_vxx "
    "m_sigmazzz m_sigmayzy m_sigmaxzx m_sigmayzz m_sigmaxzz m_sigmayyy "
    "m_sigmaxyy m_sigmaxyx m_sigmaxxx"
).split()


def fields_of(kind, nd):
    """Names of the wavefields in the order deepwave returns them."""
    ax = axes(nd)
    if kind == "scalar":
        return (
            ["wavefield_0", "wavefield_m1"]
            + [f"psi{a}_m1" for a in ax]
            + [f"zeta{a}_m1" for a in ax]
        )
    if kind == "born":
        return (
            fields_of("scalar", nd)
            + ["wavefield_sc_0", "wavefield_sc_m1"]
            + [f"psi{a}_sc_m1" for a in ax]
            + [f"zeta{a}_sc_m1" for a in ax]
        )
    if kind == "acoustic":
        return (
            ["pressure_0"]
            + [f"v{a}_0" for a in ax]
            + [f"phi_{a}_0" for a in ax]
            + [f"psi_{a}_0" for a in ax]
        )
    gone = set("zyx") - set(ax)
    return [
        n + "_0" for n in ELASTIC_ORDER if not gone & set(n.replace("sigma", ""))
    ]


def main_field(kind, nd, rtype):
    """The wavefield a receiver type samples (for scales)."""
    if kind == "scalar":
        return "wavefield_0"
    if kind == "born":
        return "wavefield_0" if rtype == "bg" else "wavefield_sc_0"
    if kind == "acoustic":
        return "pressure_0" if rtype == "p" else f"v{rtype}_0"
    return "sigmaxx_0" if rtype == "p" else f"v{rtype}_0"


def halves(kind, nd, name):
    """Spatial dimensions in which a wavefield (or source/receiver type)
    is half a cell towards the right: its last cell there does not exist."""
    ax = axes(nd)
    if kind in ("scalar", "born"):
        return []
    if kind == "acoustic":
        if name in ax and len(name) == 1:
            return [ax.index(name)]
        if name.startswith(("v", "psi_")):
            return [ax.index(name.replace("psi_", "").replace("v", "")[0])]
        return []
    if name in ax and len(name) == 1:
        return [ax.index(name)]
    if name == "p":
        return []
    s = name[:-2]
    if s.startswith("m_sigma"):
        # derivative of sigma_ij along j contributes to v_i
        a, b, d = s[7], s[8], s[9]
        i = b if a == d else a
        return [ax.index(i)]
    if s.startswith("m_v"):
        i, j = s[3], s[4]
        return [] if i == j else sorted((ax.index(i), ax.index(j)))
    if s.startswith("sigma"):
        a, b = s[5], s[6]
        return [] if a == b else sorted((ax.index(a), ax.index(b)))
    return [ax.index(s[1])]


# ------------------------------------------------------------------ numbers
def rng(*seed):
    return np.random.default_rng([int(x) & 0xFFFFFFFF for x in seed])


def _key(s):
    k = 0
    for ch in s:
        k = (k * 131 + ord(ch)) & 0xFFFFFFFF
    return k


def _field(r, shape, style):
    """Values in [0, 1]."""
    if style == "const":
        return np.full(shape, r.random())
    if style == "layers":
        x = r.random(shape[-1])
        return np.broadcast_to(x, shape).copy()
    if style == "linear":
        g = np.zeros(shape)
        for d, n in enumerate(shape):
            x = np.linspace(0, 1, n) * r.random()
            g = g + x.reshape([-1] + [1] * (len(shape) - d - 1))
        return g / len(shape)
    return r.random(shape)


def model_arrays(case):
    """Full models (the whole model the user passes), float64 numpy."""
    kind, shape = case["kind"], tuple(case["shape"])
    style = case.get("style", "random")
    out = {}
    for name in models_of(kind):
        nb = case["mbatch"].get(name, 0)
        sh = shape if nb == 0 else (nb, *shape)
        r = rng(case["seed"], _key(name))
        x = _field(r, sh, style)
        if name == "v":
            val = 1500 + 700 * x
            # the sign of the speed does not matter; nothing passes zeros
            how = case.get("vsign")
            if how == "minus":
                val = -val
            elif how == "mixed":
                val = np.where(r.random(sh) < 0.5, -val, val)
            elif how == "zeros":
                val = np.where(r.random(sh) < 0.2, 0.0, val)
                val.flat[-1] = 1700.0
        elif name == "rho":
            val = 1000 + 600 * x
        elif name == "scatter":
            val = 100 * (2 * r.random(sh) - 1)
        else:
            val = x
        out[name] = val
    if kind == "elastic":
        # vp in [1500, 2200], vs in [400, 1000], rho in [1000, 1600]; the
        # three models may be batched differently, so the formulas use
        # separate values for each.
        vp = 1500 + 700 * out["lamb"]
        vs = 400 + 600 * out["mu"]
        rho = 1000 + 600 * out["buoyancy"]
        r0 = 1300.0
        mu = r0 * vs**2
        lamb = r0 * (vp**2 - 2 * 1000.0**2 * 0.5)
        b = 1 / rho
        # zero-buoyancy/shear rows: free surface or fluid
        zone = case.get("zone")
        if zone == "shear":  # faster in shear than in compression
            mu = r0 * (1200 + 1000 * out["mu"]) ** 2
            lamb = r0 * ((800 + 1000 * out["lamb"]) ** 2 - 2 * 1200.0**2)
        if zone == "fluid":
            sl = [slice(None)] * (mu.ndim - len(shape)) + [
                slice(0, max(1, shape[0] // 3))
            ]
            mu[tuple(sl)] = 0
        elif zone == "vacuum":
            for a in (mu, lamb, b):
                sl = [slice(None)] * (a.ndim - len(shape)) + [
                    slice(0, max(1, shape[0] // 3))
                ]
                a[tuple(sl)] = 0
        out = {"lamb": lamb, "mu": mu, "buoyancy": b}
    return out


def region(case):
    """Extents [start, end) of the survey region in the model."""
    return case.get("region") or [[0, n] for n in case["shape"]]


def comp_shape(case):
    return [
        e - s + case["pml"][2 * d] + case["pml"][2 * d + 1]
        for d, (s, e) in enumerate(region(case))
    ]


def vmax_of(case, m):
    """Largest wave speed anywhere in the full model."""
    if case["kind"] in ("scalar", "born", "acoustic"):
        return float(np.abs(m["v"]).max())
    b = m["buoyancy"]
    with np.errstate(all="ignore"):
        vp2 = (m["lamb"] + 2 * m["mu"]) * b
        vs2 = m["mu"] * b
    return float(math.sqrt(max(vp2.max(), vs2.max())))


FIELD_SCALE = {"pressure": 1e3, "sigma": 1e3, "v": 1e-3}


def data(case):
    """All float64 leaf tensors of a case, keyed by
    ('model', n), ('amp', type), ('w0', field); plus dt and such."""
    kind, nd = case["kind"], len(case["shape"])
    m = model_arrays(case)
    vmax = vmax_of(case, m)
    if case.get("max_vel"):
        vmax_used = vmax * case["max_vel"]
    else:
        vmax_used = vmax
    dt = case.get("dt_abs") or case["dtf"] * ref.max_dt(case["dx"], vmax_used)
    if case.get("backwards"):
        dt = -dt
    S = case["S"]
    leaves = {}
    for n, x in m.items():
        leaves["model", n] = torch.from_numpy(x)
    for ty, locs in case["src"].items():
        if locs is None:
            continue
        r = rng(case["seed"], 7, _key(ty))
        a = r.standard_normal((S, len(locs[0]), case["nt"]))
        if case.get("amp_style") == "impulse":
            a[..., 1:] = 0
        elif case.get("amp_style") == "smooth":
            t = np.arange(case["nt"])
            a = a[..., :1] * np.sin(2 * np.pi * 0.15 * t + r.random())
        leaves["amp", ty] = torch.from_numpy(a)
    cs = comp_shape(case)
    for f in case.get("w0", []):
        r = rng(case["seed"], 11, _key(f))
        sc = 1.0
        if kind == "acoustic":
            sc = 1e-3 if f.startswith("v") else 1e3 if f.startswith("pr") else 1.0
        elif kind == "elastic":
            sc = 1e-3 if f.startswith("v") else 1e3 if f.startswith("si") else 1.0
        if f.startswith(("psi", "phi", "m_")):
            sc = sc * 1e-2 / min(case["dx"])
            if f.startswith(("m_s", "psi_")):
                sc *= 1e3
            elif f.startswith(("m_v", "phi")):
                sc *= 1e-3
        if f.startswith("zeta"):
            sc = sc * 1e-2 / min(case["dx"]) ** 2
        w = r.standard_normal((S, *cs)) * sc
        if f.startswith(("psi", "zeta", "phi", "m_")):
            w = w * pml_mask(case, f)
        leaves["w0", f] = torch.from_numpy(w)
    return {"leaves": leaves, "dt": dt, "vmax": vmax_used, "true_vmax": vmax}


def pml_axis(kind, nd, f):
    """Spatial dimension of the PML an auxiliary field belongs to."""
    s = f.replace("_sc", "").rsplit("_", 1)[0]
    return axes(nd).index(s[-1])


def pml_mask(case, f):
    """Auxiliary variables live in the PML cells of their dimension (their
    values elsewhere are documented to be ignored: set to zero)."""
    nd = len(case["shape"])
    cs = comp_shape(case)
    d = pml_axis(case["kind"], nd, f)
    x = np.zeros(cs[d])
    if case["pml"][2 * d]:
        x[: case["pml"][2 * d]] = 1
    if case["pml"][2 * d + 1]:
        x[cs[d] - case["pml"][2 * d + 1] :] = 1
    return x.reshape([-1] + [1] * (nd - d - 1))


# ------------------------------------------------------------------ deepwave
def _loc(locs):
    return torch.tensor(locs, dtype=torch.long).reshape(
        len(locs), len(locs[0]), -1 if len(locs[0]) else 1
    )


def loc_tensor(locs, nd):
    n = len(locs[0])
    if n == 0:
        return torch.zeros(len(locs), 0, nd, dtype=torch.long)
    out = torch.tensor(locs, dtype=torch.long)
    return out


def dw_kwargs(case, d, leaves=None):
    """(positional models, kwargs) for the deepwave function."""
    kind, nd = case["kind"], len(case["shape"])
    leaves = d["leaves"] if leaves is None else leaves
    models = [leaves["model", n] for n in models_of(kind)]
    kw = {"grid_spacing": list(case["dx"]), "dt": d["dt"]}
    kw["accuracy"] = case["acc"]
    kw["pml_width"] = list(case["pml"])
    kw["pml_freq"] = float(case["freq"])
    if case.get("max_vel"):
        kw["max_vel"] = d["vmax"]
    for ty in src_types(kind, nd):
        sfx = f"_{ty}" if ty else ""
        locs = case["src"].get(ty)
        if locs is not None:
            kw[f"source_locations{sfx}"] = loc_tensor(locs, nd)
            kw[f"source_amplitudes{sfx}"] = leaves["amp", ty]
    for ty in rec_types(kind, nd):
        locs = case["rec"].get(ty)
        if locs is None:
            continue
        name = {
            "bg": "bg_receiver_locations",
            "sc": "receiver_locations",
            "": "receiver_locations",
        }.get(ty, f"receiver_locations_{ty}")
        kw[name] = loc_tensor(locs, nd)
    for f in case.get("w0", []):
        kw[f] = leaves["w0", f]
    if case.get("w0") and case.get("survey_pad") is None:
        kw["origin"] = [s for s, _ in region(case)]
    if case.get("survey_pad") is not None:
        kw["survey_pad"] = case["survey_pad"]
    if not any(v is not None for v in case["src"].values()):
        kw["nt"] = case["nt"]
    if case.get("every", 1) != 1:
        kw["model_gradient_sampling_interval"] = case["every"]
    for k in ("freq_taper_frac", "time_pad_frac", "time_taper"):
        if case.get(k):
            kw[k] = case[k]
    return models, kw


def guard(what, f, *args, **kw):
    """Calls the code under test on valid input: any exception is a violation."""
    try:
        return f(*args, **kw)
    except Violation:
        raise
    except Exception as e:
        if type(e).__name__ == "_StopRecomputationError":  # torch's checkpoint
            raise
        tb = traceback.format_exc().strip().splitlines()
        raise Violation(
            f"{what} raised {type(e).__name__}: {e}\n" + "\n".join(tb[-9:])
        ) from e


def dw_func(kind):
    import deepwave

    return {
        "scalar": deepwave.scalar,
        "born": deepwave.scalar_born,
        "acoustic": deepwave.acoustic,
        "elastic": deepwave.elastic,
    }[kind]


def name_outputs(case, out):
    """deepwave's output tuple -> dict of named tensors."""
    kind, nd = case["kind"], len(case["shape"])
    names = fields_of(kind, nd) + [f"rec_{t}" for t in rec_types(kind, nd)]
    if len(out) != len(names):
        raise Violation(f"{len(out)} outputs, expected {len(names)}")
    return dict(zip(names, out))


def run_dw(case, d, leaves=None, **extra):
    models, kw = dw_kwargs(case, d, leaves)
    kw.update(extra)
    gs, dt = kw.pop("grid_spacing"), kw.pop("dt")
    f = dw_func(case["kind"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = guard(case["kind"], f, *models, gs, dt, **kw)
    return name_outputs(case, out)


def cast(leaves, dtype):
    return {k: v.to(dtype) for k, v in leaves.items()}


# ------------------------------------------------------------------ reference
def run_ref(case, d, leaves=None, box=None):
    """The reference's outputs, named as deepwave's."""
    kind, nd = case["kind"], len(case["shape"])
    leaves = d["leaves"] if leaves is None else leaves
    reg = region(case)
    dt, ratio = ref.cfl(case["dx"], d["dt"], d["vmax"])

    def cut(n):
        x = leaves["model", n]
        if x.ndim == nd:
            x = x[None]
        return x[(slice(None), *(slice(s, e) for s, e in reg))]

    def loc(locs):
        if locs is None:
            return torch.zeros(case["S"], 0, nd, dtype=torch.long)
        t = loc_tensor(locs, nd).clone()
        for i, (s, _) in enumerate(reg):
            t[..., i] = torch.where(t[..., i] == IGNORE, IGNORE, t[..., i] - s)
        return t

    tk = {
        "freq_taper": case.get("freq_taper_frac", 0.0),
        "pad": case.get("time_pad_frac", 0.0),
        "time_taper": case.get("time_taper", False),
    }

    def amp(ty):
        if case["src"].get(ty) is None:
            return None
        return ref.upsample(leaves["amp", ty], ratio, **tk)

    c = {
        "dx": case["dx"],
        "dt": dt,
        "acc": case["acc"],
        "pml": case["pml"],
        "freq": float(case["freq"]),
        "vmax": d["vmax"],
        "nt": case["nt"] * ratio,
        # the Python backend differentiates every internal step
        "every": 1
        if case.get("backend") == "eager"
        else case.get("every", 1) * ratio,
        "n_shots": case["S"],
        "box": box,
    }
    w0 = [leaves["w0", f] if f in case.get("w0", []) else None for f in fields_of(kind, nd)]
    st, rt = src_types(kind, nd), rec_types(kind, nd)
    for n in models_of(kind):
        c[{"buoyancy": "b"}.get(n, n)] = cut(n)
    if kind in ("scalar", "born"):
        c["f"], c["src"] = amp(""), loc(case["src"].get(""))
        c["w0"] = w0
        if kind == "scalar":
            c["rec"] = loc(case["rec"].get(""))
            wf, recs = ref.scalar(c)
        else:
            c["rec"] = loc(case["rec"].get("sc"))
            c["bgrec"] = loc(case["rec"].get("bg"))
            wf, recs = ref.scalar_born(c)
    else:
        c["f"] = [amp(t) for t in st]
        c["src"] = [loc(case["src"].get(t)) for t in st]
        c["rec"] = [loc(case["rec"].get(t)) for t in st]
        if kind == "acoustic":
            c["w0"] = w0
            wf, recs = ref.acoustic(c)
        else:
            c["w0"] = {
                f[:-2]: leaves["w0", f] for f in case.get("w0", [])
            }
            wfd, recs = ref.elastic(c)
            wf = [wfd[f[:-2]] for f in fields_of(kind, nd)]
            recs = [recs[-1], *recs[:-1]]
    out = dict(zip(fields_of(kind, nd), wf))
    for t, r in zip(rt, recs):
        if r is None:
            n = 0 if case["rec"].get(t) is None else len(case["rec"][t][0])
            r = torch.zeros(case["S"], n, case["nt"], dtype=torch.float64)
        elif case["nt"] > 0:
            r = ref.downsample(r, ratio, **tk)
        out[f"rec_{t}"] = r
    return out


# ------------------------------------------------------------------ compare
def scale_of(case, want, name):
    kind, nd = case["kind"], len(case["shape"])
    s = float(want[name].abs().max()) if want[name].numel() else 0.0
    if name.startswith("rec_"):
        f = want[main_field(kind, nd, name[4:])]
        if f.numel():
            s = max(s, float(f.abs().max()))
    return s


def compare(case, got, want, tol, what="", keys=None):
    """None, or a description of the largest disagreement."""
    for name in keys or want:
        g, w = got[name].detach().double(), want[name].detach().double()
        if w.numel() == 0 and g.numel() == 0:
            continue
        if g.shape != w.shape:
            return f"{what}{name}: shape {tuple(g.shape)}, expected {tuple(w.shape)}"
        if not torch.isfinite(w).all():
            raise AssertionError("reference is not finite")
        if not torch.isfinite(g).all():
            return f"{what}{name}: not finite"
        s = scale_of(case, want, name)
        err = float((g - w).abs().max())
        if err > tol * s + 1e-280:
            k = int((g - w).abs().argmax())
            i = np.unravel_index(k, tuple(g.shape))
            return (
                f"{what}{name}: differs by {err:.3e} at "
                f"{tuple(int(x) for x in i)} (got {float(g.flatten()[k]):.12e}, "
                f"expected {float(w.flatten()[k]):.12e}, scale {s:.3e})"
            )
    return None
