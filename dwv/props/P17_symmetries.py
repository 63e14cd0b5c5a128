"""Laws of physics that the discrete propagations obey exactly: mirror images,
exchange of axes, superposition, delay, change of units, reversal of time and
reciprocity."""

import re

import torch
from hypothesis import strategies as st

from .. import gen, sim
from ..core import Violation

EXAMPLES = {"quick": 8000, "thorough": 50000}
LAWS = ["flip", "permute", "linear", "delay", "units", "reverse", "reciprocity"]


@st.composite
def strategy(draw, tier):
    law = draw(st.sampled_from(LAWS))
    kinds = ["scalar", "acoustic", "elastic", "born"]
    if law == "reverse":
        kinds = ["scalar", "born"]
    if law == "reciprocity":
        kinds = ["scalar", "acoustic", "elastic"]
    kind = draw(st.sampled_from(kinds))
    opts = {}
    if law == "permute":
        opts["nds"] = (2, 2, 3)
    if law == "delay":
        opts.update(w0=False, need_src=True, ratio=False)
    if law == "reverse":
        opts.update(ratio=True)
    if law == "reciprocity":
        opts.update(ratio=False, w0=False, max_nt=14)
    c = draw(gen.wave(kind, survey=False, every=False, **opts))
    c["law"] = law
    nd = len(c["shape"])
    if law == "flip":
        m = draw(st.integers(1, 2**nd - 1))
        c["dims"] = [d for d in range(nd) if m >> d & 1]
    if law == "permute":
        c["perm"] = draw(st.permutations(list(range(nd))))
    if law == "linear":
        c["coef"] = [draw(st.sampled_from([-3.0, -1.0, 0.5, 2.0, 1e3])) for _ in range(2)]
        c["seed2"] = draw(st.integers(0, 10**6))
    if law == "delay":
        c["delay"] = draw(st.integers(1, c["nt"]))
    if law == "units":
        c["unit"] = draw(st.sampled_from([0.125, 0.5, 2.0, 4.0]))
    if law == "reverse":
        c["pml"] = [0] * (2 * nd)
        c["src"], c["rec"] = {}, {}
        w = ["wavefield_0", "wavefield_m1"]
        if kind == "born":
            w += ["wavefield_sc_0", "wavefield_sc_m1"]
        c["w0"] = w
    if law == "reciprocity":
        c["pml"] = [0] * (2 * nd)
        c["w0"] = []
        types = sim.src_types(kind, nd)
        c["types"] = [draw(st.sampled_from(types)) for _ in range(2)]
        if kind == "elastic" and sorted(x == "p" for x in c["types"]) == [False, True]:
            c["types"][0] = c["types"][1]
        if kind == "elastic" and c["types"][0] == "p":
            c["zone"] = None
        pts = []
        for ty in c["types"]:
            hi = [n - 1 for n in c["shape"]]
            for h in sim.halves(kind, nd, ty):
                hi[h] -= 1
            pts.append([draw(st.integers(0, h)) for h in hi])
        c["points"] = pts
        c["S"] = 1
        c["mbatch"] = {k: min(v, 1) for k, v in c["mbatch"].items()}
    return c


# ------------------------------------------------------------ names
NAME = re.compile(r"^(m_sigma|m_v|sigma|v|phi_|psi_|psi|zeta)([xyz]+)(_.*)$")


def parity(kind, name, ax, dims):
    """-1 if the field changes sign when these dimensions are mirrored."""
    m = NAME.match(name)
    if not m:
        return 1
    letters = m.group(2)
    if m.group(1) == "zeta" or (kind == "acoustic" and m.group(1) == "phi_"):
        return 1
    n = sum(letters.count(ax[d]) for d in dims)
    return -1 if n % 2 else 1


def type_parity(kind, ty, ax, dims):
    if kind in ("scalar", "born") or ty == "p":
        return 1
    return -1 if ax.index(ty) in dims else 1


def rename(name, sub):
    m = NAME.match(name)
    if not m:
        return name
    s = "".join(sub[x] for x in m.group(2))
    if "sigma" in m.group(1):
        # xy, xz, yz: as deepwave writes them
        s = "".join(sorted(s[:2])) + s[2:]
    return m.group(1) + s + m.group(3)


# ------------------------------------------------------------ transforms
def flip(case, leaves):
    kind, nd = case["kind"], len(case["shape"])
    ax, dims = sim.axes(nd), case["dims"]
    c = dict(case)
    pml = list(case["pml"])
    for d in dims:
        pml[2 * d], pml[2 * d + 1] = pml[2 * d + 1], pml[2 * d]
    c["pml"] = pml

    def locs(groups, rec):
        out = {}
        for ty, shots in groups.items():
            h = sim.halves(kind, nd, ty) if ty not in ("bg", "sc") else []
            out[ty] = shots and [
                [
                    p
                    if p[0] == sim.IGNORE
                    else [
                        case["shape"][d] - 1 - (d in h) - x if d in dims else x
                        for d, x in enumerate(p)
                    ]
                    for p in shot
                ]
                for shot in shots
            ]
        return out

    c["src"], c["rec"] = locs(case["src"], False), locs(case["rec"], True)

    def field(f, x):
        h = sim.halves(kind, nd, f)
        for d in dims:
            k = x.ndim - nd + d
            x = x.flip(k)
            if d in h:
                x = x.roll(-1, k)
        return x * parity(kind, f, ax, dims)

    L = {}
    for k, x in leaves.items():
        if k[0] == "model":
            L[k] = x.flip([x.ndim - nd + d for d in dims])
        elif k[0] == "amp":
            L[k] = x * type_parity(kind, k[1], ax, dims)
        else:
            L[k] = field(k[1], x)

    def outputs(got):
        out = {}
        for n, x in got.items():
            if n.startswith("rec_"):
                out[n] = x * type_parity(kind, n[4:], ax, dims) if n[4:] in ax else x
            else:
                out[n] = field(n, x)
        return out

    return c, L, outputs


def permute(case, leaves):
    kind, nd = case["kind"], len(case["shape"])
    ax, perm = sim.axes(nd), case["perm"]
    to = {ax[perm[j]]: ax[j] for j in range(nd)}  # old letter -> new letter
    c = dict(case)
    for k in ("shape", "dx"):
        c[k] = [case[k][p] for p in perm]
    c["pml"] = [case["pml"][2 * p + s] for p in perm for s in (0, 1)]

    def locs(groups):
        return {
            to.get(ty, ty): shots
            and [[[p[i] for i in perm] for p in shot] for shot in shots]
            for ty, shots in groups.items()
        }

    c["src"], c["rec"] = locs(case["src"]), locs(case["rec"])
    c["w0"] = [rename(f, to) for f in case["w0"]]

    def space(x):
        b = x.ndim - nd
        return x.permute(*range(b), *[b + p for p in perm]).contiguous()

    L = {}
    for k, x in leaves.items():
        if k[0] == "model":
            L[k] = space(x)
        elif k[0] == "amp":
            L["amp", to.get(k[1], k[1])] = x
        else:
            L["w0", rename(k[1], to)] = space(x)
    inv = [perm.index(j) for j in range(nd)]
    back = {v: k for k, v in to.items()}

    def outputs(got):
        out = {}
        for n, x in got.items():
            if n.startswith("rec_"):
                out["rec_" + back.get(n[4:], n[4:])] = x
            else:
                b = x.ndim - nd
                out[rename(n, back)] = x.permute(*range(b), *[b + p for p in inv])
        return out

    return c, L, outputs


def run(case, d, leaves=None, **kw):
    return {
        k: x.detach() for k, x in sim.run_dw(case, d, leaves, **kw).items()
    }


def exists(case, out):
    """Only cells that exist: half cells beyond the last are unspecified."""
    kind, nd = case["kind"], len(case["shape"])
    res = {}
    for n, x in out.items():
        if not n.startswith("rec_"):
            for h in sim.halves(kind, nd, n):
                x = x.clone().movedim(x.ndim - nd + h, -1)
                x[..., -1] = 0
                x = x.movedim(-1, x.ndim - nd + h)
        res[n] = x
    return res


def expect(case, got, want, tol, what):
    msg = sim.compare(case, exists(case, got), exists(case, want), tol, what + ": ")
    if msg:
        raise Violation(msg)


def check(case):
    d = sim.data(case)
    kind, nd, law = case["kind"], len(case["shape"]), case["law"]
    L = d["leaves"]
    labels = [law, kind, f"{nd}D"]
    if law == "reciprocity":
        return reciprocity(case, d, labels)
    base = run(case, d)
    nontrivial = gen.nontrivial(case, base)
    if law in ("flip", "permute"):
        c, L2, back = (flip if law == "flip" else permute)(case, L)
        got = back(run(c, d, L2))
        what = f"mirrored in {case['dims']}" if law == "flip" else f"axes {case['perm']}"
        expect(case, got, base, 1e-10, what)
    elif law == "linear":
        d2 = sim.data({**case, "seed": case["seed2"]})
        a, b = case["coef"]
        L2 = {k: x if k[0] == "model" else d2["leaves"][k] for k, x in L.items()}
        other = run(case, d, L2)
        L3 = {k: x if k[0] == "model" else a * x + b * L2[k] for k, x in L.items()}
        got = run(case, d, L3)
        want = {k: a * base[k] + b * other[k] for k in base}
        # relative to the sizes of the terms
        for k in base:
            if base[k].numel() == 0:
                continue
            s = abs(a) * sim.scale_of(case, base, k) + abs(b) * sim.scale_of(case, other, k)
            if base[k].numel() and float((got[k] - want[k]).abs().max()) > 1e-10 * s:
                raise Violation(f"{k} is not linear in sources and initial wavefields")
    elif law == "delay":
        k = case["delay"]
        c = {**case, "nt": case["nt"] + k}
        L2 = {
            n: torch.nn.functional.pad(x, (k, 0)) if n[0] == "amp" else x
            for n, x in L.items()
        }
        got = run(c, d, L2)
        for n in got:
            if n.startswith("rec_") and got[n].numel():
                if bool((got[n][..., :k] != 0).any()):
                    raise Violation(f"{n} is not zero before the source starts")
                got[n] = got[n][..., k:]
        expect(case, got, base, 1e-12, f"delayed by {k}")
    elif law == "units":
        s = case["unit"]
        L2 = {}
        d2 = dict(d)
        kw = {}
        if kind in ("scalar", "born"):
            # unit of time
            for n, x in L.items():
                L2[n] = x * s if n[0] == "model" else x
            d2["dt"] = d["dt"] / s
            d2["vmax"] = d["vmax"] * s
            c = {**case, "freq": case["freq"] * s}
            scale = {}
        else:
            # unit of mass
            c = case
            up = {"rho", "lamb", "mu"}
            for n, x in L.items():
                if n[0] == "model":
                    L2[n] = x * s if n[1] in up else x / s if n[1] == "buoyancy" else x
                elif n[0] == "amp":
                    L2[n] = x if kind == "acoustic" and n[1] == "p" else x * s
                else:
                    L2[n] = x * s if mass(kind, n[1]) else x
            scale = {
                n: s
                for n in base
                if (n == "rec_p" or (not n.startswith("rec_") and mass(kind, n)))
            }
        got = run(c, d2, L2, **kw)
        got = {n: x / scale.get(n, 1.0) for n, x in got.items()}
        expect(case, got, base, 1e-9, f"unit {s}")
    else:
        # the equation is symmetric in time: exchange the last two wavefields
        fields = case["w0"]
        L2 = {k: x for k, x in L.items() if k[0] == "model"}
        for a, b in zip(fields[::2], fields[1::2]):
            L2["w0", a], L2["w0", b] = base[b], base[a]
        got = run(case, d, L2)
        back = {}
        for a, b in zip(fields[::2], fields[1::2]):
            back[a], back[b] = got[b], got[a]
        want = {f: L["w0", f] for f in fields}
        big = max(float(x.abs().max()) for n, x in base.items() if x.numel())
        for f in fields:
            s = max(big, float(want[f].abs().max()))
            e = float((back[f] - want[f]).abs().max())
            if not e <= 1e-9 * s:
                raise Violation(f"{f} is not recovered when time is reversed: {e} of {s}")
    return {"nontrivial": nontrivial, "labels": labels}


def mass(kind, n):
    if kind == "acoustic":
        return n.startswith(("pressure", "psi"))
    return n.startswith(("sigma", "m_sigma"))


def reciprocity(case, d, labels):
    kind, nd = case["kind"], len(case["shape"])
    (A, B), (ta, tb) = case["points"], case["types"]
    nt = case["nt"] + 1
    r = sim.rng(case["seed"], 5)
    f = torch.from_numpy(r.standard_normal((1, 1, nt)))

    def one(src, ts, rec, tr):
        c = {**case, "nt": nt, "src": {ts: [[src]]}, "rec": {tr: [[rec]]}}
        L = {k: x for k, x in d["leaves"].items() if k[0] == "model"}
        L["amp", ts] = f
        out = run(c, d, L)
        return out[f"rec_{tr}"][0, 0], out

    x, out1 = one(A, ta, B, tb)
    y, out2 = one(B, tb, A, ta)
    if kind == "elastic" and ta == "p":
        # sources of pressure are not scaled by the bulk modulus
        def kappa(p):
            lam, mu = (
                d["leaves"]["model", n].reshape(*case["shape"])[tuple(p)]
                for n in ("lamb", "mu")
            )
            return nd * lam + 2 * mu

        x, y = x * kappa(A), y * kappa(B)
    elif kind == "acoustic" and (ta == "p") != (tb == "p"):
        # pressure and velocity are staggered in time and of opposite sign
        if ta == "p":
            x, y = x[1:], -y[:-1]
        else:
            x, y = x[:-1], -y[1:]
    s = max(float(x.abs().max()), float(y.abs().max())) if x.numel() else 0
    e = float((x - y).abs().max()) if x.numel() else 0
    if not e <= 1e-9 * s + 1e-280:
        raise Violation(
            f"from {ta} at {A} to {tb} at {B}: {x.tolist()}, the other way: {y.tolist()}"
        )
    return {"nontrivial": s > 0, "labels": [*labels, f"{kind} {ta}-{tb}"]}
