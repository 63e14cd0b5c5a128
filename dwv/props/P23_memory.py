"""The compiled code stays within its memory, also for extreme sizes, and uses
no uninitialised memory (build with AddressSanitizer and checks of undefined
behaviour; new memory is filled with NaN)."""

from hypothesis import strategies as st

from .. import gradient as G
from . import P09_second_order as P09
from . import P11_compression as P11
from . import P22_validation as P22

EXAMPLES = {"quick": 2500, "thorough": 12000}

PARTS = {
    **{f"gradient {k}": (G.strategy(k), G.check) for k in ("scalar", "born", "acoustic", "elastic")},
    "second order": (P09.strategy, P09.check),
    "compressed": (P11.strategy, P11.check),
    "invalid": (P22.strategy, P22.check),
}


@st.composite
def strategy(draw, tier):
    part = draw(
        st.sampled_from(
            ["gradient scalar", "gradient born", "gradient acoustic", "gradient elastic"] * 2
            + ["second order", "compressed", "invalid"]
        )
    )
    case = draw(PARTS[part][0](tier))
    # more of what is stored and run in parallel
    if part.startswith("gradient") and case["backend"] == "c":
        case["threads"] = draw(st.sampled_from([1, 2, 3, 8]))
        case["storage"] = draw(st.sampled_from(["device", "cpu", "disk"]))
    return {"part": part, "case": case}


def check(case):
    r = PARTS[case["part"]][1](case["case"])
    r["labels"] = [case["part"]] + [x for x in r["labels"] if x.startswith(("th", "st", "acc"))]
    return r
