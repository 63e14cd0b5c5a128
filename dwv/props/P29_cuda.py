"""The CUDA sources compute what the CPU ones do: their kernels and host code,
compiled for the CPU with an emulated CUDA runtime (see DESIGN.md), against the
oracles of the other checks."""

from hypothesis import strategies as st

from .. import emu
from .. import forward as F
from .. import gradient as G
from . import P09_second_order as P09
from . import P10_storage_modes as P10
from . import P11_compression as P11
from . import P12_disk_histories as P12

EXAMPLES = {"quick": 3000, "thorough": 20000}

KINDS = ("scalar", "born", "acoustic", "elastic")
PARTS = {
    **{f"forward {k}": (F.strategy(k), F.check) for k in KINDS},
    **{f"gradient {k}": (G.strategy(k), G.check) for k in KINDS},
    "second order": (P09.strategy, P09.check),
    "storage": (P10.strategy, P10.check),
    "compressed": (P11.strategy, P11.check),
    "disk": (P12.strategy, P12.check),
}


@st.composite
def strategy(draw, tier):
    part = draw(
        st.sampled_from(
            [f"forward {k}" for k in KINDS]
            + [f"gradient {k}" for k in KINDS] * 2
            + ["second order", "storage", "storage", "compressed", "compressed", "disk", "disk"]
        )
    )
    case = draw(PARTS[part][0](tier))
    if "backend" in case and part != "second order":
        case["backend"] = "c"
    if part.startswith("gradient"):
        case["storage"] = draw(st.sampled_from(["device", "cpu", "disk"]))
    if part == "disk":
        # the emulated runtime is for one thread
        case["ops"] = [o for o in case["ops"] if o[0] not in ("par", "threads")]
    else:
        case["threads"] = 1
    return {"part": part, "case": case, "order": draw(st.integers(0, 2**32 - 1))}


def check(case):
    faults = case["part"] == "disk"
    with emu.Emulation(case["order"], faults) as e:
        try:
            r = PARTS[case["part"]][1](case["case"])
        except Exception:
            e.require()
            raise
        e.require()
        choices = e.choices()
    r["nontrivial"] = bool(r["nontrivial"] and e.calls)
    r["labels"] = [case["part"]] + [
        x
        for x in r["labels"]
        if faults or x.startswith(("st", "acc", "1D", "2D", "3D"))
    ]
    if e.calls:
        r["labels"].append("calls of CUDA code")
    if choices:
        r["labels"].append("several legal orders of streams")
    return r
