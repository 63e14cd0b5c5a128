"""Builds the code under test from /repo's current working tree into a scratch
directory: the Python files of src/deepwave are copied and the C sources are
compiled (every NDIM x ACCURACY x DTYPE variant, as CMakeLists.txt does).

Nothing is written in /repo or /opt/vp.  The default flags are -O0, which
compiles in a few seconds; the thorough tier also uses -O2 (see DESIGN.md).
"""

import concurrent.futures
import hashlib
import os
import re
import shutil
import subprocess
import sys
from pathlib import Path

REPO = Path(os.environ.get("DWV_REPO", "/repo"))

PROPS = ("scalar", "scalar_born", "acoustic", "elastic")
NDIMS = (1, 2, 3)
ACCURACIES = (2, 4, 6, 8)
DTYPES = ("float", "double")


class BuildError(Exception):
    pass


def _variants(src: Path):
    """The compile jobs: (source, object name, definitions)."""
    jobs = []
    for c in sorted(src.glob("*.c")):
        if c.stem in PROPS:
            for n in NDIMS:
                for a in ACCURACIES:
                    for d in DTYPES:
                        jobs.append(
                            (
                                c,
                                f"{c.stem}_{n}_{a}_{d}.o",
                                [
                                    f"-DDW_NDIM={n}",
                                    f"-DDW_ACCURACY={a}",
                                    f"-DDW_DTYPE={d}",
                                    "-DDW_DEVICE=cpu",
                                ],
                            )
                        )
        else:
            # simple_compress and storage_utils depend on NDIM and DTYPE only
            for n in NDIMS:
                for d in DTYPES:
                    jobs.append(
                        (
                            c,
                            f"{c.stem}_{n}_{d}.o",
                            [
                                f"-DDW_NDIM={n}",
                                "-DDW_ACCURACY=2",
                                f"-DDW_DTYPE={d}",
                                "-DDW_DEVICE=cpu",
                            ],
                        )
                    )
    return jobs


def build(dest: Path, flavour: str = "O0", variants=None) -> Path:
    """Builds into dest/deepwave and returns dest (to be put on sys.path)."""
    src = REPO / "src" / "deepwave"
    if not src.is_dir():
        raise BuildError(f"{src} not found")
    pkg = dest / "deepwave"
    if pkg.exists():
        shutil.rmtree(pkg)
    pkg.mkdir(parents=True)
    for p in src.iterdir():
        if p.suffix in (".py", ".c", ".h"):
            shutil.copy(p, pkg / p.name)
    obj = dest / "obj"
    obj.mkdir(exist_ok=True)
    cflags = {
        "O0": ["-O0"],
        "O1": ["-O1"],
        "O2": ["-O2"],
        "fast": ["-Ofast"],
        "asan": [
            "-O0",
            "-g",
            "-fno-omit-frame-pointer",
            "-fsanitize=address",
            "-fsanitize=bounds,shift,signed-integer-overflow,integer-divide-by-zero,"
            "vla-bound,float-cast-overflow,unreachable,return",
            "-fno-sanitize-recover=all",
        ],
    }[flavour]
    common = ["gcc", "-fPIC", "-fopenmp", "-mavx2", "-w", *cflags]
    jobs = _variants(pkg)
    if variants is not None:
        jobs = [j for j in jobs if variants(j[1])]

    def compile_one(job):
        c, o, defs = job
        cmd = [*common, *defs, "-c", str(c), "-o", str(obj / o)]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError(f"{' '.join(cmd)}\n{r.stderr[-3000:]}")
        return str(obj / o)

    # biggest first
    jobs.sort(key=lambda j: ("_3_" not in j[1], "elastic" not in j[1]))
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        objs = list(ex.map(compile_one, jobs))
    link = [
        "gcc",
        "-shared",
        "-fPIC",
        "-fopenmp",
        *(f for f in cflags if f.startswith("-fsan") or f.startswith("-O")),
        "-o",
        str(pkg / "libdeepwave_C.so"),
        *sorted(objs),
        "-lm",
    ]
    if flavour != "asan":
        link.append("-Wl,--no-undefined")
    r = subprocess.run(link, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError(r.stderr[-3000:])
    shutil.rmtree(obj)
    return dest


EMU_OPT = "-O0"
EMU = Path(__file__).resolve().parent / "cudaemu"


def cuda_to_cpp(text: str) -> str:
    """The CUDA source as C++ for the emulated runtime of cudaemu/."""
    out = []
    text = re.sub(
        r"extern\s+__shared__\s+([\w ]+?)\s*(\w+)\s*\[\s*\]\s*;",
        r"\1 *const \2 = (\1 *)dw_emu::shared();",
        text,
    )
    # kernel<<<configuration>>>(arguments)
    pos = 0
    for m in re.finditer(
        r"(\w+(?:::\w+)*(?:<[^<>;{}]*>)?)\s*<<<(.*?)>>>\s*\(", text, re.S
    ):
        out.append(text[pos : m.start()])
        depth, end = 1, m.end()
        while depth:
            depth += {"(": 1, ")": -1}.get(text[end], 0)
            end += 1
        out.append(
            f"dw_emu::Config({m[2]}).run([=]() {{ {m[1]}({text[m.end() : end]}; }})"
        )
        pos = end
    text = "".join(out) + text[pos:]
    out = ['#include "cuda_runtime.h"\n']
    if "__syncthreads" in text:
        out.insert(0, "#define DW_EMU_FIBERS\n")
    return "".join(out) + "#line 1\n" + text


def build_cuda(dest: Path, flavour: str = "cuda") -> Path:
    """As build, but the library holds the propagators of the CUDA sources,
    compiled for the CPU, under the names of the CPU ones."""
    src = REPO / "src" / "deepwave"
    pkg = dest / "deepwave"
    if pkg.exists():
        shutil.rmtree(pkg)
    pkg.mkdir(parents=True)
    for p in src.iterdir():
        if p.suffix in (".py", ".h"):
            shutil.copy(p, pkg / p.name)
    obj = dest / "obj"
    obj.mkdir(exist_ok=True)
    for p in sorted(src.glob("*.cu")) + sorted(src.glob("*.cuh")):
        q = obj / (p.stem + ".cpp" if p.suffix == ".cu" else p.name)
        q.write_text(cuda_to_cpp(p.read_text()))
    san = []
    if flavour == "cuda_asan":
        san = [
            "-g1",
            "-fno-omit-frame-pointer",
            "-fsanitize=address",
            "-fsanitize=bounds,shift,signed-integer-overflow,integer-divide-by-zero,"
            "float-cast-overflow,unreachable,return",
            "-fno-sanitize-recover=all",
        ]
    common = [
        "g++", "-std=c++17", "-fPIC", "-w", EMU_OPT, "-ffp-contract=off",
        f"-I{EMU}", f"-I{src}", *san,
    ]
    jobs = [([str(EMU / "emu.cpp")], obj / "emu.o")]
    for c in sorted(obj.glob("*.cpp")):
        accs = ACCURACIES if c.stem in PROPS else (2,)
        for n in NDIMS:
            for a in accs:
                for d in DTYPES:
                    jobs.append(
                        (
                            [f"-DDW_NDIM={n}", f"-DDW_ACCURACY={a}", f"-DDW_DTYPE={d}",
                             "-DDW_DEVICE=cpu", str(c)],
                            obj / f"{c.stem}_{n}_{a}_{d}.o",
                        )
                    )
    jobs.sort(key=lambda j: ("_3_" not in j[1].name, "elastic" not in j[1].name))

    def compile_one(job):
        cmd = [*common, *job[0][:-1], "-c", job[0][-1], "-o", str(job[1])]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError(f"{' '.join(cmd)}\n{r.stderr[:3000]}")
        return str(job[1])

    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        objs = list(ex.map(compile_one, jobs))
    r = subprocess.run(
        ["g++", "-shared", "-fPIC", *[f for f in san if "-fsan" in f], "-o",
         str(pkg / "libdeepwave_C.so"), *sorted(objs), "-lm"],
        capture_output=True, text=True,
    )
    if r.returncode != 0:
        raise BuildError(r.stderr[-3000:])
    shutil.rmtree(obj)
    return dest


def hypothesis_path(dest: Path) -> Path:
    """A directory holding only hypothesis and what it needs, for sys.path."""
    d = dest / "hyp"
    d.mkdir(parents=True, exist_ok=True)
    site = None
    for cand in sorted(Path("/opt/veriftools/pyvenv/lib").glob("python3.*/site-packages")):
        if (cand / "hypothesis").is_dir():
            site = cand
    if site is None:
        raise BuildError("hypothesis not found in /opt/veriftools/pyvenv")
    for name in site.iterdir():
        if re.match(
            r"(hypothesis|_hypothesis|attr|attrs|sortedcontainers)", name.name
        ) and not (d / name.name).exists():
            (d / name.name).symlink_to(name)
    return d


def sources_digest() -> str:
    h = hashlib.sha256()
    for p in sorted((REPO / "src" / "deepwave").iterdir()):
        if p.suffix in (".py", ".c", ".h", ".cu", ".cuh"):
            h.update(p.name.encode())
            h.update(p.read_bytes())
    return h.hexdigest()[:16]


if __name__ == "__main__":
    build(Path(sys.argv[1]), *(sys.argv[2:3]))
