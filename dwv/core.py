"""Shared by runner, worker and properties."""

import hashlib
import json


class Violation(Exception):
    """The property does not hold on the case."""


class Skip(Exception):
    """The case is outside the property's domain (counted, not evaluated)."""


def digest(case):
    return hashlib.sha1(
        json.dumps(case, sort_keys=True, default=str).encode()
    ).hexdigest()[:16]


def require(cond, msg):
    if not cond:
        raise Violation(msg)
