from ..gradient import check, strategy as _s  # noqa: F401

KIND = "elastic"
EXAMPLES = {"quick": 7000, "thorough": 40000}


def strategy(tier):
    return _s(KIND)(tier)
