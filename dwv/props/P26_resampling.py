"""Wavelets, tapers and resampling in time."""

import math

import torch
from hypothesis import strategies as st

from .. import ref, sim
from ..core import Violation

EXAMPLES = {"quick": 8000, "thorough": 60000}


@st.composite
def strategy(draw, tier):
    c = {
        "what": draw(st.sampled_from(["up", "down", "round", "shift", "taper", "ricker", "tones"])),
        "nt": draw(st.integers(1, 40)),
        "lead": draw(st.lists(st.integers(0, 3), min_size=0, max_size=2)),
        "r": draw(st.integers(1, 5)),
        "seed": draw(st.integers(0, 10**6)),
        "dtype": draw(st.sampled_from(["float", "double"])),
        "pad": draw(st.sampled_from([0.0, 0.0, 0.01, 0.1, 0.5, 1.0])),
        "ft": draw(st.sampled_from([0.0, 0.0, 0.01, 0.1, 0.37, 1.0])),
        "tt": draw(st.sampled_from([False, False, True])),
    }
    if c["what"] == "ricker":
        c["freq"] = draw(st.floats(0.5, 100))
        c["dt"] = draw(st.sampled_from([1e-4, 0.001, 0.004, 0.5, -0.002]))
        c["peak"] = draw(st.floats(-1, 2))
    if c["what"] == "shift":
        c["shift"] = draw(st.floats(-3, 3))
    if c["what"] == "down" and draw(st.booleans()):
        c["shift"] = draw(st.one_of(st.floats(-3, 3), st.sampled_from([0.5, -1.0, 2.0])))
    if c["what"] == "taper":
        c["n"] = draw(st.integers(0, 45))
    return c


def check(case):
    from deepwave import common, wavelets

    dtype = torch.float64 if case["dtype"] == "double" else torch.float32
    tol = 1e-9 if case["dtype"] == "double" else 1e-4
    if case["tt"] or case["ft"] or case.get("shift"):
        tol = max(tol, 3e-6)
    g = torch.Generator().manual_seed(case["seed"])
    nt, r = case["nt"], case["r"]
    x = torch.randn(*case["lead"], nt, generator=g, dtype=torch.float64)
    kw = {"freq_taper_frac": case["ft"], "time_pad_frac": case["pad"], "time_taper": case["tt"]}
    rk = {"freq_taper": case["ft"], "pad": case["pad"], "time_taper": case["tt"]}
    what = case["what"]

    def same(got, want, name, lim=tol):
        if got.shape != want.shape or got.dtype != dtype:
            raise Violation(
                f"{name}: {tuple(got.shape)} {got.dtype}, expected {tuple(want.shape)}"
            )
        if want.numel():
            s = max(1e-3, float(want.abs().max()), float(x.abs().max()) if x.numel() else 0)
            e = float((got.detach().double() - want).abs().max())
            if not e <= lim * s:
                raise Violation(f"{name}: differs by {e} of {s}")

    if what == "ricker":
        w = sim.guard(
            "ricker", wavelets.ricker, case["freq"], nt, case["dt"], case["peak"], dtype
        )
        t = torch.arange(nt, dtype=torch.float64) * case["dt"] - case["peak"]
        a = (math.pi * case["freq"] * t) ** 2
        # rounding of time in single precision
        terr = 2e-7 * (abs(case["peak"]) + nt * abs(case["dt"])) * case["freq"] * 12
        x = torch.ones(1)
        same(w, (1 - 2 * a) * torch.exp(-a), "ricker", max(tol, terr) if dtype == torch.float32 else 1e-9)
        return {"nontrivial": True, "labels": ["ricker"]}
    xin = x.to(dtype)
    keep = xin.clone()
    if what == "taper":
        n = case["n"]
        got = sim.guard("cosine_taper_end", common.cosine_taper_end, xin.clone(), n)
        m = min(n, nt)
        w = torch.ones(nt, dtype=torch.float64)
        if m:
            w[nt - m :] = (torch.cos(torch.arange(1, m + 1).double() / m * math.pi) + 1) / 2
        same(got, x * w, "cosine_taper_end", max(tol, 1e-6))
        return {"nontrivial": n > 0 and x.numel() > 0, "labels": ["taper"]}
    if what == "up":
        got = sim.guard("upsample", common.upsample, xin, r, **kw)
        want = ref.upsample(x, r, **rk) if x.numel() else x.new_zeros(*case["lead"], nt * r)
        same(got, want, "upsample")
    elif what == "down":
        y = torch.randn(*case["lead"], nt * r, generator=g, dtype=torch.float64)
        if case.get("shift"):
            kw["shift"] = rk["shift"] = case["shift"]
        got = sim.guard("downsample", common.downsample, y.to(dtype), r, **kw)
        if y.numel():
            same(got, ref.downsample(y, r, **rk), "downsample")
    elif what == "round" and x.numel():
        # anything below the highest frequency survives a round trip
        y = sim.guard("upsample", common.upsample, xin, r)
        if y.shape[-1] != nt * r:
            raise Violation(f"upsample: length {y.shape[-1]}")
        z = sim.guard("downsample", common.downsample, y, r)
        y2 = sim.guard("upsample", common.upsample, z, r)
        same(y2, y.double(), "upsample(downsample(upsample(x)))")
        # the samples of a signal without its highest frequency are kept
        same(y[..., ::r].contiguous(), z.double(), "samples at the original times")
        # energy is not added
        if y.numel() and float((y.double() ** 2).sum()) > r * float((x**2).sum()) * (1 + 100 * tol):
            raise Violation("upsample increased the energy")
    elif what == "tones":
        # sinusoids with a whole number of periods
        n = max(nt, 5)
        k = case["seed"] % max(1, (n // 2))
        t = torch.arange(n, dtype=torch.float64)
        x = torch.cos(2 * math.pi * k * t / n + 0.3)
        T = torch.arange(n * r, dtype=torch.float64) / r
        want = torch.cos(2 * math.pi * k * T / n + 0.3)
        if k < n // 2 and not (r > 1 and k == 0 and n // 2 == 0):
            got = sim.guard("upsample", common.upsample, x.to(dtype), r)
            same(got, want, "upsampled sinusoid")
            got = sim.guard("downsample", common.downsample, want.to(dtype), r)
            same(got, x, "downsampled sinusoid")
        return {"nontrivial": r > 1, "labels": ["sinusoids"]}
    elif what == "shift":
        n = max(nt, 5)
        k = case["seed"] % max(1, (n // 2))
        T = torch.arange(n * r, dtype=torch.float64)
        s = case["shift"]
        t = torch.arange(n, dtype=torch.float64) * r
        got = sim.guard(
            "downsample",
            common.downsample,
            torch.cos(2 * math.pi * k * T / (n * r) + 0.3).to(dtype),
            r,
            shift=s,
        )
        want = torch.cos(2 * math.pi * k * (t - s) / (n * r) + 0.3)
        x = want
        same(got, want, f"sinusoid shifted by {s}")
        return {"nontrivial": True, "labels": ["shift"]}
    if not torch.equal(xin, keep):
        raise Violation(f"{what} modified its input")
    # transposes: <up(x), y> against the gradient
    if x.numel() and what in ("up", "down"):
        f = common.upsample if what == "up" else common.downsample
        a = (x if what == "up" else y).to(dtype).requires_grad_()
        out = f(a, r, **kw)
        wgt = torch.randn(out.shape, generator=g, dtype=torch.float64).to(dtype)
        if out.requires_grad:
            (ga,) = torch.autograd.grad(out, a, wgt)
            lhs = float((out.detach().double() * wgt.double()).sum())
            rhs = float((ga.double() * a.detach().double()).sum())
            s = float((out.detach().double() * wgt.double()).abs().sum()) + float(
                (ga.double() * a.detach().double()).abs().sum()
            )
            if abs(lhs - rhs) > 10 * tol * s:
                raise Violation(f"{what}: gradient is not the transpose: {lhs} {rhs}")
    return {
        "nontrivial": x.numel() > 0 and r > 1,
        "labels": [what, f"ratio {r}", case["dtype"]]
        + (["taper"] if case["ft"] or case["tt"] else [])
        + (["padding"] if case["pad"] else [])
        + (["shift"] if case.get("shift") else []),
    }
