"""Histories of propagations that keep intermediate data on disk in the same
directory: interleaved, repeated, abandoned, concurrent, and with faults."""

import contextlib
import gc
import os
import resource
import shutil
import tempfile
import threading

import torch
from hypothesis import strategies as st

from .. import gen, gradient as G, sim
from ..core import Violation

EXAMPLES = {"quick": 1000, "thorough": 12000}


@st.composite
def small(draw):
    kind = draw(st.sampled_from(["scalar", "acoustic", "elastic", "born"]))
    c = draw(
        gen.wave(kind, nds=(1, 1, 2, 3), max_nt=5, max_shots=3, max_pml=2, min_nt=1)
    )
    names = G.leaf_names(c)
    c["grad"] = list(range(len(names)))
    c["loss"] = "all"
    c["gseed"] = draw(st.integers(0, 10**6))
    c["compress"] = draw(st.booleans())
    return c


@st.composite
def strategy(draw, tier):
    pool = draw(st.lists(small(), min_size=1, max_size=3))
    n = len(pool)
    ops = []
    live = 0
    for _ in range(draw(st.integers(2, 9 if tier == "quick" else 16))):
        op = draw(
            st.sampled_from(
                ["new", "new", "back", "back", "back", "drop", "par", "boom",
                 "bboom", "full", "lose", "truncate", "threads"]
            )
        )
        if op in ("back", "drop", "bboom", "lose", "truncate") and live == 0:
            op = "new"
        k = draw(st.integers(0, n - 1))
        if op == "new":
            live += 1
            ops.append(["new", k])
        elif op == "back":
            ops.append(["back", draw(st.integers(0, live - 1)), draw(st.booleans())])
        elif op in ("drop", "bboom", "lose"):
            ops.append([op, draw(st.integers(0, live - 1))])
        elif op == "truncate":
            ops.append([op, draw(st.integers(0, live - 1)), draw(st.integers(0, 7))])
        elif op == "par":
            ops.append(
                ["par", draw(st.lists(st.integers(0, n - 1), min_size=2, max_size=4))]
            )
        elif op == "boom":
            ops.append(["boom", k, draw(st.integers(0, 4))])
        elif op == "full":
            ops.append(["full", k, draw(st.sampled_from([0, 8, 64, 300, 1000]))])
        else:
            ops.append(["threads", draw(st.sampled_from([1, 2, 3]))])
    return {"pool": pool, "ops": ops}


class Boom(Exception):
    pass


def n_fds():
    return len(os.listdir("/proc/self/fd"))


@contextlib.contextmanager
def file_limit(n):
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, old[1]))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)


def tree(path):
    out = {}
    for d, _, fs in os.walk(path):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, path)] = h.read()
    return out


class World:
    def __init__(self, case):
        self.case = case
        self.path = tempfile.mkdtemp(prefix="disk_", dir=os.environ.get("DWV_WORK"))
        # what somebody else keeps there
        other = os.path.join(self.path, "deepwave_tmp_1_other")
        os.mkdir(other)
        for f in (os.path.join(other, "shot_0.bin"), os.path.join(self.path, "shot_0.bin")):
            with open(f, "wb") as h:
                h.write(b"precious" * 20)
        self.foreign = tree(self.path)
        self.base = set(os.listdir(self.path))
        self.data = [sim.data(c) for c in case["pool"]]
        self.expect = [None] * len(self.data)
        self.handles = []
        self.graphs = 0
        self.faults = 0

    def expected(self, k):
        """Outputs and gradients with storage on the device."""
        if self.expect[k] is None:
            c, d = self.case["pool"][k], self.data[k]
            c = {**c, "storage": "device", "backend": "c"}
            with torch.no_grad():
                want = sim.run_ref(c, d)
            w = G.weights(c, want)
            got, grads, _ = G.dw_gradients(
                c, d, w, storage_compression=c["compress"]
            )
            self.expect[k] = ({n: x.detach() for n, x in got.items()}, grads, w)
        return self.expect[k]

    def new_dirs(self):
        return [x for x in os.listdir(self.path) if x not in self.base]

    def forward(self, k, guarded=True, **extra):
        c, d = self.case["pool"][k], self.data[k]
        leaves = {n: x.clone().requires_grad_() for n, x in d["leaves"].items()}
        names = G.leaf_names(c)
        kw = {
            "storage_mode": "disk",
            "storage_path": self.path,
            "storage_compression": c["compress"],
            **extra,
        }
        before = set(self.new_dirs())
        if guarded:
            got = sim.run_dw(c, d, leaves, **kw)
        else:
            models, k2 = sim.dw_kwargs(c, d, leaves)
            k2.update(kw)
            gs, dt = k2.pop("grid_spacing"), k2.pop("dt")
            got = sim.name_outputs(c, sim.dw_func(c["kind"])(*models, gs, dt, **k2))
        return {
            "k": k,
            "got": got,
            "leaves": [leaves[n] for n in names],
            "names": names,
            "freed": False,
            "damaged": False,
            "dirs": set(self.new_dirs()) - before,
            "extra": extra,
        }

    def same(self, k, got, grads, what):
        out, gexp, _ = self.expected(k)
        for n in out:
            if not torch.equal(out[n], got[n].detach()):
                raise Violation(f"{what}: output {n} differs from that without disk")
        if grads is None:
            return
        for n, g in zip(G.leaf_names(self.case["pool"][k]), grads):
            a = gexp[n]
            if (a is None) != (g is None) or (a is not None and not torch.equal(a, g)):
                raise Violation(f"{what}: gradient of {n} differs from that without disk")

    def backward(self, h, retain, guarded=True):
        _, _, w = self.expected(h["k"])
        outs = [n for n in w if h["got"][n].requires_grad]
        if not outs:
            return None
        args = ([h["got"][n] for n in outs], h["leaves"])
        kw = {
            "grad_outputs": [w[n] for n in outs],
            "allow_unused": True,
            "retain_graph": retain,
        }
        if guarded:
            return sim.guard("backward", torch.autograd.grad, *args, **kw)
        return torch.autograd.grad(*args, **kw)

    def close(self):
        torch.set_num_threads(1)
        self.handles.clear()
        gc.collect()
        shutil.rmtree(self.path, ignore_errors=True)


def check(case):
    w = World(case)
    try:
        return run(case, w)
    finally:
        w.close()


def step(case, w, op, what, labels):
    """Performs one operation; returns the number of successful backwards."""
    nback = 0
    if op[0] == "threads":
        # the order of summation over threads is part of the result
        torch.set_num_threads(op[1])
        w.expect = [None] * len(w.expect)
        for h in w.handles:
            if h:
                h["stale"] = True
    elif op[0] == "new":
        h = w.forward(op[1])
        w.same(op[1], h["got"], None, what)
        w.handles.append(h)
    elif op[0] in ("back", "bboom", "lose", "truncate", "drop"):
        h = w.handles[op[1]]
        if h is None or h["freed"]:
            return 0
        if op[0] == "drop":
            w.handles[op[1]] = None
        elif op[0] == "back":
            if h["damaged"]:
                try:
                    g = w.backward(h, op[2], guarded=False)
                except (RuntimeError, OSError):
                    labels.add("lost data reported")
                    w.faults += 1
                    return 0
                # permitted only if nothing that was lost was needed
                if not h.get("stale"):
                    w.same(h["k"], h["got"], g, what + " after losing its files")
                return 0
            g = w.backward(h, op[2])
            if not h.get("stale"):
                w.same(h["k"], h["got"], g, what)
            if not op[2]:
                w.handles[op[1]] = None
            nback = 1
            labels.add("backward")
        elif op[0] == "lose":
            for x in h["dirs"]:
                shutil.rmtree(os.path.join(w.path, x), ignore_errors=True)
            h["damaged"] = bool(h["dirs"])
        elif op[0] == "truncate":
            fs = sorted(
                os.path.join(w.path, x, f)
                for x in h["dirs"]
                if os.path.isdir(os.path.join(w.path, x))
                for f in os.listdir(os.path.join(w.path, x))
            )
            if fs:
                f = fs[op[2] % len(fs)]
                if os.path.getsize(f):
                    os.truncate(f, os.path.getsize(f) // 2)
                    h["damaged"] = True
        else:
            # an exception in the middle of backpropagation
            k = h["k"]

            def cb(state):
                raise Boom

            h2 = w.forward(k, backward_callback=cb, callback_frequency=1)
            try:
                w.backward(h2, True, guarded=False)
            except Boom:
                labels.add("exception in backward callback")
            del h2
    elif op[0] == "par":
        res = {}

        def one(j, k):
            try:
                h = w.forward(k)
                res[j] = (k, h["got"], w.backward(h, False))
            except BaseException as e:
                res[j] = e

        for k in op[1]:
            w.expected(k)
        ts = [threading.Thread(target=one, args=(j, k)) for j, k in enumerate(op[1])]
        nt = torch.get_num_threads()
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        torch.set_num_threads(nt)
        for j in sorted(res):
            if isinstance(res[j], Violation):
                raise res[j]
            if isinstance(res[j], BaseException):
                raise Violation(f"{what}: {type(res[j]).__name__}: {res[j]}")
            w.same(*res[j], what)
        res.clear()
        ts = t = None
        labels.add("concurrent")
    elif op[0] == "boom":
        seen = [0]

        def cb(state):
            seen[0] += 1
            if seen[0] > op[2]:
                raise Boom

        try:
            h = w.forward(op[1], guarded=False, forward_callback=cb, callback_frequency=1)
            w.same(op[1], h["got"], None, what)
            del h
        except Boom:
            labels.add("exception in forward callback")
    elif op[0] == "full":
        # writing fails beyond a file size
        w.expected(op[1])
        try:
            with file_limit(op[2]):
                h = w.forward(op[1], guarded=False)
        except (RuntimeError, OSError):
            labels.add("full disk reported")
            w.faults += 1
        else:
            g = w.backward(h, False)
            w.same(op[1], h["got"], g, what + " (writing failed without an error)")
            del h, g
    return nback


def settle():
    """PyTorch keeps the nodes of a failed backpropagation that were still to be
    visited until the next one in the same thread."""
    x = torch.ones((), requires_grad=True)
    with torch.enable_grad():
        (x * 2).backward()
    del x
    gc.collect()


def run(case, w):
    settle()
    fds0 = n_fds()
    labels = set()
    nback = 0
    for i, op in enumerate(case["ops"]):
        what = f"operation {i} {op}"
        nback += step(case, w, op, what, labels)
        if tree_changed(w):
            raise Violation(f"{what}: files of others in the storage path changed")
        if not any(x is not None and not x["freed"] for x in w.handles):
            settle()
            if w.new_dirs():
                raise Violation(f"{what}: {w.new_dirs()} left behind with nothing in use")
    nlive = sum(x is not None for x in w.handles)
    w.handles.clear()
    settle()
    if w.new_dirs():
        raise Violation(f"{w.new_dirs()} left behind")
    if n_fds() > fds0:
        raise Violation(f"{n_fds() - fds0} files left open")
    return {
        "nontrivial": nback > 0 or bool(labels),
        "labels": sorted(labels)
        + (["live graphs >1"] if nlive > 1 else []),
    }


def tree_changed(w):
    now = {}
    for n in w.foreign:
        try:
            with open(os.path.join(w.path, n), "rb") as f:
                now[n] = f.read()
        except OSError:
            return True
    return now != w.foreign
