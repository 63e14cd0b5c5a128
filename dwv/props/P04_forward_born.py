from ..forward import check, strategy as _s  # noqa: F401

KIND = "born"
EXAMPLES = {"quick": 10000, "thorough": 60000}


def strategy(tier):
    return _s(KIND)(tier)
