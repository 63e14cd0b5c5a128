"""Invalid input is refused with an exception and leaves nothing behind."""

import copy
import os
import warnings

import torch
from hypothesis import strategies as st

from .. import gen, sim
from ..core import Skip, Violation

EXAMPLES = {"quick": 4000, "thorough": 60000}


def _locs(kw):
    return [k for k in kw if "locations" in k and kw[k].numel()]


def _srcs(kw):
    return [k for k in kw if k.startswith("source_locations") and kw[k].numel()]


def _active(x):
    return (x != sim.IGNORE).all(-1).nonzero().tolist()


def loc_outside(c, m, kw, r):
    k = r(_locs(kw))
    x = kw[k].clone()
    s, i = r(_active(x))
    d = r(range(x.shape[-1]))
    n = c["shape"][d]
    x[s, i, d] = r([-1, -2, n, n + 1, n + 1000, -(2**31) + 1, 2**31, 2**40, -(2**62)])
    kw[k] = x


def loc_outside_region(c, m, kw, r):
    reg = sim.region(c)
    ds = [d for d, (a, b) in enumerate(reg) if "origin" in kw and [a, b] != [0, c["shape"][d]]]
    d = r(ds)
    k = r(_locs(kw))
    x = kw[k].clone()
    s, i = r(_active(x))
    a, b = reg[d]
    out = ([a - 1] if a > 0 else []) + ([b] if b < c["shape"][d] else [])
    x[s, i, d] = r(out)
    kw[k] = x


def loc_partly_ignored(c, m, kw, r):
    if len(c["shape"]) < 2:
        raise Skip
    k = r(_locs(kw))
    x = kw[k].clone()
    s, i = r(_active(x))
    x[s, i, r(range(x.shape[-1]))] = sim.IGNORE
    kw[k] = x


def loc_not_finite(c, m, kw, r):
    k = r(_locs(kw))
    x = kw[k].to(r([torch.float32, torch.float64]))
    s, i = r(_active(kw[k]))
    x[s, i, r(range(x.shape[-1]))] = r([float("nan"), float("inf"), -float("inf")])
    kw[k] = x


def loc_fraction(c, m, kw, r):
    k = r(_locs(kw))
    x = kw[k].to(torch.float64)
    s, i = r(_active(kw[k]))
    x[s, i, r(range(x.shape[-1]))] += r([0.5, 0.25, 0.75])
    kw[k] = x


def loc_repeated(c, m, kw, r):
    k = r([k for k in _locs(kw) if kw[k].shape[1] > 1])
    x = kw[k].clone()
    ok = [s for s in range(x.shape[0]) if len([a for a in _active(x) if a[0] == s]) > 0]
    s = r(ok)
    i = r([a[1] for a in _active(x) if a[0] == s])
    j = r([j for j in range(x.shape[1]) if j != i])
    x[s, j] = x[s, i]
    kw[k] = x


def loc_half(c, m, kw, r):
    """The last half-cell does not exist."""
    ch = []
    for k in _locs(kw):
        ty = k.rsplit("_", 1)[1]
        if ty in ("z", "y", "x"):
            ch += [(k, d) for d in sim.halves(c["kind"], len(c["shape"]), ty)]
    k, d = r(ch)
    x = kw[k].clone()
    s, i = r(_active(x))
    x[s, i, d] = c["shape"][d] - 1
    kw[k] = x


def loc_dims(c, m, kw, r):
    k = r([k for k in kw if "locations" in k])
    x = kw[k]
    kw[k] = r([x[0], x[..., :-1], torch.cat([x, x[..., :1]], -1), x[None]])


def loc_batch(c, m, kw, r):
    k = r([k for k in kw if "locations" in k])
    x = kw[k]
    others = [
        q for q in kw
        if q != k and isinstance(kw[q], torch.Tensor)
        and (not k.startswith("source") or q != k.replace("locations", "amplitudes"))
    ]
    if not others and not k.startswith("source"):
        raise Skip
    kw[k] = torch.cat([x, x[:1]])


def loc_type(c, m, kw, r):
    k = r([k for k in kw if "locations" in k])
    kw[k] = r([kw[k].tolist(), kw[k].numpy(), 3, "abc"])


def amp_count(c, m, kw, r):
    k = r([k for k in kw if "amplitudes" in k])
    x = kw[k]
    kw[k] = torch.cat([x, torch.ones_like(x[:, :1]) if x.shape[1] else x.new_zeros(x.shape[0], 1, x.shape[2])], 1)


def amp_batch(c, m, kw, r):
    k = r([k for k in kw if "amplitudes" in k])
    kw[k] = torch.cat([kw[k], kw[k][:1]], 0)


def amp_dims(c, m, kw, r):
    k = r([k for k in kw if "amplitudes" in k])
    kw[k] = r([kw[k][0], kw[k][None], kw[k].flatten()])


def amp_length(c, m, kw, r):
    ks = [k for k in kw if "amplitudes" in k]
    if len(ks) < 2:
        raise Skip
    k = r(ks)
    kw[k] = torch.cat([kw[k], kw[k][..., :1]], -1)


def amp_missing(c, m, kw, r):
    k = r([k for k in kw if k.startswith("source_")])
    del kw[k]
    if not any(k.startswith("source_locations") for k in kw):
        if c["w0"]:
            kw["nt"] = c["nt"]


def amp_dtype(c, m, kw, r):
    k = r([k for k in kw if "amplitudes" in k])
    kw[k] = kw[k].to(r([torch.float32, torch.int64]))


def nt_both(c, m, kw, r):
    r([k for k in kw if "amplitudes" in k])
    kw["nt"] = c["nt"] + r([1, 5, -1])


def nt_bad(c, m, kw, r):
    if any("amplitudes" in k for k in kw):
        raise Skip
    kw["nt"] = r([-1, -5, 2.5, "3", None])


def w0_shape(c, m, kw, r):
    k = r(c["w0"])
    x = kw[k]
    d = r(range(1, x.ndim))
    if len(c["w0"]) == 1 and (c.get("region") or any(p for p in c["pml"])) and False:
        raise Skip
    big = torch.cat([x] + [x] * (1 + c["shape"][d - 1] // max(1, x.shape[d])), d)
    kw[k] = r([big, x[0], x[None]])


def w0_shape2(c, m, kw, r):
    if len(c["w0"]) < 2:
        raise Skip
    k = r(c["w0"])
    x = kw[k]
    d = r(range(1, x.ndim))
    kw[k] = x.narrow(d, 0, x.shape[d] - 1)


def w0_batch(c, m, kw, r):
    k = r(c["w0"])
    if len(c["w0"]) == 1 and not _any_batch(c, m, kw, k):
        raise Skip
    kw[k] = torch.cat([kw[k], kw[k][:1]], 0)


def _any_batch(c, m, kw, but):
    return any(
        k != but and isinstance(x, torch.Tensor) for k, x in kw.items()
    ) or any(x.ndim > len(c["shape"]) and x.shape[0] > 1 for x in m)


def w0_dtype(c, m, kw, r):
    k = r(c["w0"])
    kw[k] = kw[k].to(r([torch.float32, torch.int64]))


def w0_type(c, m, kw, r):
    k = r(c["w0"])
    kw[k] = r([kw[k].tolist(), 1.5])


def model_shape(c, m, kw, r):
    if len(m) < 2:
        raise Skip
    i = r(range(len(m)))
    nd = len(c["shape"])
    d = r(range(nd)) - nd
    m[i] = r([torch.cat([m[i], m[i]], d), m[i].narrow(d, 0, m[i].shape[d] - 1)])


def model_batch(c, m, kw, r):
    i = r(range(len(m)))
    x = m[i]
    if x.ndim == len(c["shape"]):
        x = x[None]
    n = r([k for k in (2, 3, 4, 5) if k != c["S"]])
    m[i] = x[:1].expand(n, *x.shape[1:]).clone()


def model_dims(c, m, kw, r):
    i = r(range(len(m)))
    x = m[i]
    m[i] = r([x[None, None], x.flatten()[0], x.flatten()[None, None, None, None]])


def model_dtype(c, m, kw, r):
    if len(m) < 2:
        raise Skip
    i = r(range(len(m)))
    m[i] = m[i].to(torch.float32)


def model_type(c, m, kw, r):
    i = r(range(len(m)))
    m[i] = r([m[i].tolist(), None, 1500.0])


def model_value(c, m, kw, r):
    if kw.get("max_vel") or c["kind"] == "elastic":
        raise Skip
    m[0] = m[0].clone()
    m[0].view(-1)[r(range(m[0].numel()))] = r([float("nan"), float("inf")])


def option(name, values):
    def f(c, m, kw, r):
        kw[name] = r(values)

    f.__name__ = name
    return f


def pml_length(c, m, kw, r):
    kw["pml_width"] = r([kw["pml_width"] + [1], kw["pml_width"][:-1], []])


def spacing_length(c, m, kw, r):
    kw["grid_spacing"] = r([kw["grid_spacing"] + [5.0] * 2, []])
    if len(kw["grid_spacing"]) == len(c["shape"]):
        raise Skip


def spacing_value(c, m, kw, r):
    x = list(kw["grid_spacing"])
    x[r(range(len(x)))] = r([0.0, -5.0, float("nan"), "a", None])
    kw["grid_spacing"] = x


def pml_value(c, m, kw, r):
    x = list(kw["pml_width"])
    x[r(range(len(x)))] = r([-1, -20, 2.5, float("nan"), "a", None])
    kw["pml_width"] = x


def origin_bad(c, m, kw, r):
    if "origin" not in kw:
        raise Skip
    x = list(kw["origin"])
    d = r(range(len(x)))
    a, b = sim.region(c)[d]
    how = r(["neg", "big", "len", "type"])
    if how == "neg":
        x[d] = -1
    elif how == "big":
        x[d] = c["shape"][d] - (b - a) + 1
    elif how == "len":
        x = r([x + [0], x[:-1]])
    else:
        x[d] = r([0.5, "a", None])
    kw["origin"] = x


def origin_and_pad(c, m, kw, r):
    kw["origin"] = [0] * len(c["shape"])
    kw["survey_pad"] = 1


def survey_pad_bad(c, m, kw, r):
    kw.pop("origin", None)
    n = 2 * len(c["shape"])
    kw["survey_pad"] = r([-1, [1] * (n + 1), [1] * (n - 1), [-1] * n, [0.5] * n, "a", 1.5])


def nothing(c, m, kw, r):
    for k in list(kw):
        if isinstance(kw[k], torch.Tensor):
            del kw[k]
    kw.pop("origin", None)


def python_storage(c, m, kw, r):
    kw["python_backend"] = "eager"
    kw["storage_mode"] = r(["cpu", "disk", "none"])


def python_callback(c, m, kw, r):
    kw["python_backend"] = "eager"
    kw["backward_callback"] = lambda s: None


NAN = float("nan")
MUTATIONS = {
    f.__name__: f
    for f in [
        loc_outside, loc_outside, loc_outside_region, loc_partly_ignored, loc_not_finite,
        loc_fraction, loc_repeated, loc_half, loc_dims, loc_batch, loc_type, amp_count,
        amp_batch, amp_dims, amp_length, amp_missing, amp_dtype, nt_both, nt_bad, w0_shape,
        w0_shape2, w0_batch, w0_dtype, w0_type, model_shape, model_batch, model_dims,
        model_dtype, model_type, model_value, pml_length, pml_value, spacing_length,
        spacing_value, origin_bad, origin_and_pad, survey_pad_bad, nothing,
        python_storage, python_callback,
        option("accuracy", [0, 1, 3, 5, 7, 9, 10, -2, 2.5, 4.0, "4", None]),
        option("grid_spacing", [0, -1.0, "a", None]),
        option("pml_width", [-1, 1.5, "a", None]),
        option("pml_freq", [-1.0, -0.5, "a"]),
        option("dt", [0.0, NAN, "a", None, float("inf")]),
        option("max_vel", [0.0, NAN, "a"]),
        option("model_gradient_sampling_interval", [-1, -7, 1.5, "a", None]),
        option("freq_taper_frac", [-0.1, 1.1, NAN, "a", None]),
        option("time_pad_frac", [-0.1, 1.1, NAN, "a", None]),
        option("callback_frequency", [0, -1, 1.5, "a", None]),
        option("storage_mode", ["gpu", "", "Disks", 3, None]),
        option("python_backend", ["unknown", 3.5]),
    ]
}


@st.composite
def strategy(draw, tier):
    kind = draw(st.sampled_from(["scalar", "acoustic", "elastic", "born"]))
    c = draw(gen.wave(kind, max_nt=4, need_src=draw(st.booleans())))
    c["mutation"] = draw(st.sampled_from(sorted(MUTATIONS)))
    c["picks"] = draw(st.lists(st.integers(0, 10**6), min_size=6, max_size=6))
    c["grad"] = draw(st.booleans())
    c["storage"] = draw(st.sampled_from(["device", "device", "disk"]))
    return c


def check(case):
    d = sim.data(case)
    leaves = {k: x.clone().requires_grad_(case["grad"]) for k, x in d["leaves"].items()}
    before = {k: x.detach().clone() for k, x in leaves.items()}
    work = os.environ.get("DWV_WORK", ".")
    picks = iter(case["picks"])

    def r(options):
        options = list(options)
        if not options:
            raise Skip
        return options[next(picks) % len(options)]

    models, kw = sim.dw_kwargs(case, d, leaves)
    if case["storage"] == "disk":
        kw.update(storage_mode="disk", storage_path=work)
    f = sim.dw_func(case["kind"])

    def call(models, kw):
        kw = dict(kw)
        gs, dt = kw.pop("grid_spacing"), kw.pop("dt")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return f(*models, gs, dt, **kw)

    good = [x.detach().clone() for x in sim.guard("valid input", call, models, kw)]
    files = sorted(os.listdir(work))
    m2, kw2 = list(models), copy.copy(kw)
    with torch.no_grad():
        MUTATIONS[case["mutation"]](case, m2, kw2, r)
    what = {
        k: (tuple(x.shape), str(x.dtype)) if isinstance(x, torch.Tensor) and x.numel() > 12
        else x
        for k, x in kw2.items()
        if not (k in kw and kw[k] is x)
    }
    try:
        out = call(m2, kw2)
    except Exception as e:
        if isinstance(e, (MemoryError, NotImplementedError)):
            raise Violation(f"{case['mutation']} {what}: {type(e).__name__}: {e}") from e
        kind = type(e).__name__
        # (the traceback keeps the failed call's objects alive)
        del e
    else:
        raise Violation(
            f"invalid input is accepted: {case['mutation']}: {what}, models "
            f"{[tuple(x.shape) if isinstance(x, torch.Tensor) else x for x in m2]}: "
            f"outputs {[tuple(x.shape) for x in out]}"
        )
    left = sorted(set(os.listdir(work)) - set(files))
    if left:
        raise Violation(f"{case['mutation']} {what}: left files {left}")
    for k, x in leaves.items():
        if not torch.equal(x.detach(), before[k]):
            raise Violation(f"{case['mutation']}: input {k} was modified")
    again = sim.guard("valid input afterwards", call, models, kw)
    for a, b in zip(good, again):
        if not torch.equal(a, b.detach()):
            raise Violation(f"different result after the refused {case['mutation']} {what}")
    return {
        "nontrivial": True,
        "labels": [case["mutation"], case["kind"], "raised " + kind],
    }
