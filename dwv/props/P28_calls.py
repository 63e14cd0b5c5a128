"""Calls do not affect one another: histories of propagations of different
kinds, backpropagations in any order and repeatedly, failures, propagations
within the callbacks of others, and simultaneous ones."""

import copy
import threading
import warnings

import torch
from hypothesis import strategies as st

from .. import gradient as G, sim
from ..core import Violation

EXAMPLES = {"quick": 2500, "thorough": 20000}
FTOL = {"double": 3e-6, "float": 3e-3}
DTYPE = {"double": torch.float64, "float": torch.float32}


@st.composite
def variation(draw, base):
    """The same as another case in all but a few respects (nothing kept from one
    may be used for the other)."""
    c = copy.deepcopy(base)
    c["dt_abs"] = abs(sim.data(base)["dt"])
    ways = ["seed", "max_vel", "freq", "dt", "dx", "acc", "backwards", "every", "style", "float", "eager"]
    if c["kind"] in ("scalar", "born") and not c.get("region"):
        ways.append("pml")
    c["varied"] = draw(st.lists(st.sampled_from(ways), min_size=1, max_size=2, unique=True))
    for how in c["varied"]:
        if how == "seed":
            c["seed"] += 1
        elif how == "max_vel":
            c["max_vel"] = draw(st.sampled_from([x for x in (1.0, 1.1, 1.5, 2.0) if x != c.get("max_vel")]))
        elif how == "freq":
            c["freq"] = draw(st.sampled_from([x for x in (0, 1, 5, 15, 25, 40) if x != c["freq"]]))
        elif how == "dt":
            c["dt_abs"] *= draw(st.sampled_from([0.5, 0.9]))
        elif how == "dx":
            c["dx"][draw(st.integers(0, len(c["dx"]) - 1))] *= 1.25
        elif how == "acc":
            c["acc"] = draw(st.sampled_from([x for x in (2, 4, 6, 8) if x != c["acc"]]))
        elif how == "backwards":
            c["backwards"] = not c.get("backwards")
        elif how == "every":
            c["every"] = c.get("every", 1) % 3 + 1
        elif how == "style":
            c["style"] = "random" if c["style"] != "random" else "linear"
        elif how == "float":
            c["dtype"] = "float"
        elif how == "eager":
            c["backend"] = "eager" if c["backend"] == "c" else "c"
            c["storage"] = "device"
        else:
            w = c["pml"]
            c["pml"] = [w[i ^ 1] for i in range(len(w))]
    return c


@st.composite
def strategy(draw, tier):
    n = draw(st.integers(1, 3))
    cases = []
    for k in range(n):
        if k and draw(st.booleans()):
            cases.append(draw(variation(cases[draw(st.integers(0, k - 1))])))
            continue
        kind = draw(st.sampled_from(["scalar", "born", "acoustic", "elastic"]))
        c = draw(G.strategy(kind)(tier))
        c["dtype"] = "double"
        c["nt"] = min(c["nt"], 5)
        for k in ("cf", "cb"):
            c.pop(k, None)
        cases.append(c)
    one = st.integers(0, n - 1)
    op = st.one_of(
        st.tuples(st.just("fwd"), one),
        st.tuples(st.just("bwd"), st.integers(0, 5), st.booleans(), st.booleans()),
        st.tuples(st.just("drop"), st.integers(0, 5)),
        st.tuples(st.just("fail"), one, st.sampled_from(["where", "model", "forward", "backward"])),
        st.tuples(st.just("inside"), one, one, st.sampled_from(["forward", "backward"]), st.integers(0, 2)),
        st.tuples(st.just("together"), st.lists(one, min_size=2, max_size=4)),
        st.tuples(st.just("plain"), one),
    )
    ops = [list(o) for o in draw(st.lists(op, min_size=3, max_size=8))]
    return {"cases": cases, "ops": ops, "threads": draw(st.sampled_from([1, 1, 2]))}


class Boom(Exception):
    pass


class Machine:
    def __init__(self, cases):
        self.cases = cases
        self.d = [sim.data(c) for c in cases]
        self.ref = [None] * len(cases)
        self.slots = []
        self.grads = 0

    def want(self, i):
        if self.ref[i] is None:
            with torch.enable_grad():
                want, w, g = G.ref_gradients(self.cases[i], self.d[i])
            self.ref[i] = ({k: v.detach() for k, v in want.items()}, w, g)
        return self.ref[i]

    def call(self, i, what, **extra):
        """Propagates case i, and checks the results."""
        c, d = self.cases[i], self.d[i]
        want, _, _ = self.want(i)
        names = [G.leaf_names(c)[k] for k in c["grad"]]
        leaves = {
            k: v.to(DTYPE[c["dtype"]]).clone().requires_grad_(k in names)
            for k, v in d["leaves"].items()
        }
        models, kw = sim.dw_kwargs(c, d, leaves)
        kw.update(G.extra_kw(c))
        kw.update(extra)
        gs, dt = kw.pop("grid_spacing"), kw.pop("dt")
        got = sim.name_outputs(c, sim.guard(what, sim.dw_func(c["kind"]), *models, gs, dt, **kw))
        msg = sim.compare(c, got, want, FTOL[c["dtype"]], f"{what}: ")
        if msg:
            raise Violation(msg)
        return got, leaves, names

    def back(self, i, got, leaves, names, what, keep=False, accumulate=False):
        c, d = self.cases[i], self.d[i]
        _, w, want = self.want(i)
        w = {k: x.to(DTYPE[c["dtype"]]) for k, x in w.items()}
        outs = [k for k in w if got[k].requires_grad]
        if not outs:
            return
        if accumulate:
            before = {n: None if leaves[n].grad is None else leaves[n].grad.clone() for n in names}
            sim.guard(
                what, torch.autograd.backward,
                [got[k] for k in outs], [w[k] for k in outs],
                retain_graph=keep, inputs=[leaves[n] for n in names],
            )
            g = {}
            for n in names:
                x = leaves[n].grad
                g[n] = x if x is None or before[n] is None else x - before[n]
        else:
            g = sim.guard(
                what, torch.autograd.grad,
                [got[k] for k in outs], [leaves[n] for n in names],
                grad_outputs=[w[k] for k in outs], allow_unused=True, retain_graph=keep,
            )
            g = dict(zip(names, g))
        msg = G.compare_grads(c, d, g, want, self.tol(c), G.FLOOR[c["dtype"]])
        if msg:
            raise Violation(f"{what}: {msg}")
        self.grads += any(bool((x != 0).any()) for x in want.values())

    @staticmethod
    def tol(c):
        tol = G.TOL[c["dtype"]]
        return max(tol, 3e-6) if c.get("time_taper") or c.get("freq_taper_frac") else tol

    def both(self, i, what, **extra):
        got, leaves, names = self.call(i, what, **extra)
        self.back(i, got, leaves, names, what)

    def run(self, op):
        what = " ".join(map(str, op))
        if op[0] == "fwd":
            self.slots.append((op[1], *self.call(op[1], what)))
        elif op[0] == "plain":
            with torch.no_grad():
                self.call(op[1], what)
        elif op[0] in ("bwd", "drop"):
            if not self.slots:
                return
            k = op[1] % len(self.slots)
            if op[0] == "drop":
                del self.slots[k]
                return
            self.back(*self.slots[k], what, keep=op[2], accumulate=op[3])
            if not op[2]:
                del self.slots[k]
        elif op[0] == "fail":
            self.fail(op[1], op[2], what)
        elif op[0] == "inside":
            self.inside(*op[1:], what)
        else:
            errors = []

            def one(i):
                try:
                    self.both(i, what)
                except BaseException as e:
                    errors.append(e)

            for i in op[1]:
                self.want(i)
            ts = [threading.Thread(target=one, args=(i,)) for i in op[1]]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            for e in errors:
                raise e

    def fail(self, i, how, what):
        c = self.cases[i]
        extra = {"callback_frequency": 1}
        if how == "where":
            ndim = len(c["shape"])
            t = sim.rec_types(c["kind"], ndim)[-1]
            name = {"": "receiver_locations", "sc": "receiver_locations"}.get(t, f"receiver_locations_{t}")
            extra[name] = torch.full((c["S"], 1, ndim), 1000)
        elif how == "model":
            extra["accuracy"] = 5
        else:

            def boom(state):
                raise Boom

            extra[f"{how}_callback"] = boom
        try:
            got, leaves, names = self.call(i, what, **extra)
            self.back(i, got, leaves, names, what)
        except (Boom, RuntimeError, ValueError):
            pass
        except Violation as e:
            # an exception raised by the call is one when it was provoked
            if not isinstance(e.__cause__, (Boom, RuntimeError, ValueError)):
                raise
        else:
            if how in ("where", "model"):
                raise Violation(f"{what}: accepted")

    def inside(self, i, j, when, at, what):
        count = [0]
        errors = []
        self.want(i), self.want(j)
        if when == "backward" and self.cases[i].get("backend") == "eager":
            when = "forward"

        def callback(state):
            if count[0] == at:
                try:
                    with torch.enable_grad():
                        self.both(j, what + " (inner)")
                except Violation as e:
                    errors.append(e)
            count[0] += 1

        try:
            self.both(i, what, **{f"{when}_callback": callback, "callback_frequency": 1})
        finally:
            for e in errors:
                raise e


def check(case):
    m = Machine(case["cases"])
    torch.set_num_threads(case["threads"])
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for op in case["ops"]:
                m.run(op)
            while m.slots:
                m.back(*m.slots.pop(), "last backward")
    finally:
        torch.set_num_threads(1)
    return {
        "nontrivial": m.grads > 1 and len(case["ops"]) > 1,
        "labels": sorted({"varied " + k for c in case["cases"] for k in c.get("varied", [])})
        + sorted({o[0] + (" " + str(o[2]) if o[0] == "fail" else "") for o in case["ops"]})
        + sorted({c["kind"] for c in case["cases"]}),
    }
