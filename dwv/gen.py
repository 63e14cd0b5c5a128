"""Hypothesis strategies for cases (see sim.py for what a case is)."""

from hypothesis import strategies as st

from . import sim

IGNORE = sim.IGNORE


def _cells(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def _unflat(k, shape):
    out = []
    for s in reversed(shape):
        out.append(k % s)
        k //= s
    return out[::-1]


@st.composite
def locations(draw, S, reg, minus=(), n_max=3, ignore=True, model=None, pml=None):
    """One list of locations per shot, all of the same length, unique within a
    shot; the last cell of the model is left out in dimensions `minus` (deepwave
    rejects it there), and so is that of the region when no PML follows it (the
    half-cell does not exist)."""
    lo = [a for a, _ in reg]
    hi = [b for _, b in reg]
    for d in minus:
        hi[d] = min(hi[d], (model[d] if model else hi[d]) - 1)
        if pml and pml[2 * d + 1] == 0:
            hi[d] = min(hi[d], reg[d][1] - 1)
    shape = [h - l for l, h in zip(lo, hi)]
    total = _cells(shape)
    if any(s <= 0 for s in shape):
        total = 0
    n = draw(st.integers(0, min(n_max, total)))
    out = []
    for _ in range(S):
        ks = draw(
            st.lists(st.integers(0, total - 1), min_size=n, max_size=n, unique=True)
            if n
            else st.just([])
        )
        locs = [[x + l for x, l in zip(_unflat(k, shape), lo)] for k in ks]
        if ignore and n and draw(st.integers(0, 4)) == 0:
            locs[draw(st.integers(0, n - 1))] = [IGNORE] * len(shape)
        out.append(locs)
    return out


def _shape(nd, big):
    hi = {1: 24, 2: 10, 3: 6}[nd] + (4 if big else 0)
    return st.lists(st.integers(2, hi), min_size=nd, max_size=nd)


DX = [3.0, 4.0, 5.0, 6.25, 7.5]


@st.composite
def wave(
    draw,
    kind,
    nds=(1, 2, 2, 3),
    max_nt=9,
    survey=True,
    w0=True,
    ratio=True,
    max_shots=3,
    n_max=3,
    max_pml=5,
    zones=True,
    need_src=False,
    need_rec=False,
    resample_opts=True,
    part=1,
    acc=(2, 4, 6, 8),
    min_nt=1,
    ignore=True,
    big=False,
    every=True,
    signs=True,
):
    """A propagation, on a survey region that may be part of the model (that is
    never all of it by default with part=2)."""
    nd = draw(st.sampled_from(list(nds)))
    shape = draw(_shape(nd, big))
    S = draw(st.integers(1, max_shots))
    c = {"kind": kind, "shape": shape, "S": S}
    same = draw(st.booleans())
    dx0 = draw(st.sampled_from(DX))
    c["dx"] = [dx0 if same else draw(st.sampled_from(DX)) for _ in range(nd)]
    c["acc"] = draw(st.sampled_from(list(acc)))
    style = draw(st.integers(0, 3))
    if style == 0:
        c["pml"] = [0] * (2 * nd)
    elif style == 1:
        c["pml"] = [draw(st.integers(1, max_pml))] * (2 * nd)
    else:
        c["pml"] = [draw(st.integers(0, max_pml)) for _ in range(2 * nd)]
    c["freq"] = draw(st.sampled_from([0, 1, 5, 15, 25, 40]))
    c["nt"] = draw(st.integers(min_nt, max_nt))
    whole = draw(st.integers(0, 2)) if ratio else 0
    c["dtf"] = round(whole + draw(st.integers(30, 97)) / 100, 2)
    if draw(st.integers(0, 3)) == 0:
        c["max_vel"] = draw(st.sampled_from([1.0, 1.1, 1.5, 2.0]))
    c["seed"] = draw(st.integers(0, 2**31 - 1))
    c["style"] = draw(st.sampled_from(["random", "random", "linear", "const"]))
    c["mbatch"] = {
        n: draw(st.sampled_from(sorted({0, 1, S}))) for n in sim.models_of(kind)
    }
    if kind == "elastic" and zones:
        c["zone"] = draw(st.sampled_from([None, None, None, "fluid", "vacuum", "shear"]))
    if kind != "elastic" and zones and draw(st.integers(0, 5)) == 0:
        c["vsign"] = draw(st.sampled_from(["minus", "mixed", "zeros"]))
    if signs and draw(st.integers(0, 9)) == 0:
        c["backwards"] = True
    # the survey region
    reg = [[0, n] for n in shape]
    how = draw(st.sampled_from(["full", "full"] * (part < 2) + ["origin"])) if survey and w0 else "full"
    if how == "origin":
        reg = []
        for n in shape:
            a = draw(st.integers(0, n - 2))
            b = draw(st.integers(a + 2, n))
            reg.append([a, b])
        c["region"] = reg
    amp_style = draw(st.sampled_from(["noise", "noise", "impulse", "smooth"]))
    c["amp_style"] = amp_style
    c["src"], c["rec"] = {}, {}
    types = sim.src_types(kind, nd)
    present = draw(
        st.lists(st.booleans(), min_size=len(types), max_size=len(types))
    )
    if need_src and not any(present):
        present[0] = True
    for ty, on in zip(types, present):
        if on:
            c["src"][ty] = draw(
                locations(
                    S, reg, sim.halves(kind, nd, ty), n_max, ignore, model=shape, pml=c["pml"]
                )
            )
    rts = sim.rec_types(kind, nd)
    present = draw(st.lists(st.booleans(), min_size=len(rts), max_size=len(rts)))
    if need_rec and not any(present):
        present[-1] = True
    for ty, on in zip(rts, present):
        if on:
            c["rec"][ty] = draw(
                locations(
                    S,
                    reg,
                    sim.halves(kind, nd, ty) if ty not in ("bg", "sc") else (),
                    n_max + 1,
                    ignore,
                    model=shape, pml=c["pml"],
                )
            )
    fields = sim.fields_of(kind, nd)
    c["w0"] = []
    if w0:
        mode = draw(st.integers(0, 3))
        if how == "origin" and mode == 0:
            mode = 1
        if mode == 1:
            c["w0"] = [fields[draw(st.integers(0, len(fields) - 1))]]
        elif mode == 2:
            mask = draw(st.integers(0, 2 ** len(fields) - 1))
            c["w0"] = [f for i, f in enumerate(fields) if mask >> i & 1]
        elif mode == 3:
            c["w0"] = list(fields)
        if how == "origin" and not c["w0"]:
            c["w0"] = [fields[0]]
    if not c["src"] and not c["w0"]:
        if w0:
            c["w0"] = [fields[0]]
        else:
            c["src"][types[0]] = draw(
                locations(
                    S, reg, sim.halves(kind, nd, types[0]), n_max, ignore, model=shape, pml=c["pml"]
                )
            )
    if every and draw(st.integers(0, 3)) == 0:
        c["every"] = draw(st.integers(2, 5))
    if whole and resample_opts:
        if draw(st.integers(0, 2)) == 0:
            c["freq_taper_frac"] = draw(st.sampled_from([0.05, 0.1, 0.3, 0.6, 1.0]))
        if draw(st.integers(0, 2)) == 0:
            c["time_pad_frac"] = draw(st.sampled_from([0.1, 0.25, 0.5, 1.0]))
        if draw(st.integers(0, 3)) == 0:
            c["time_taper"] = True
    return c


def nontrivial(case, want):
    """Something actually propagated: an output is non-zero."""
    return any(bool((x != 0).any()) for x in want.values() if x.numel())
