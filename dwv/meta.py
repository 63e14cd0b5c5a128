"""Everything about each property that is not code: its statement, and what
the runner and the manifest need (see gen_meta.py)."""

FWD = (
    "Hypothesis generates whole propagations (1-3 dimensions, accuracy 2-8, spacings, "
    "asymmetric PML widths, 1-3 internal steps per step, batched or shared models, "
    "1-3 shots, sources, receivers and ignored locations of every type, any subset of "
    "initial wavefields, part or all of the model, float/double, C or eager backend, "
    "1-3 threads); non-trivial: distinct and some output of the reference is non-zero"
)
GRAD = (
    "as the forward check, plus a random subset of models, source amplitudes and initial "
    "wavefields requiring gradients, a loss with random weights on receivers and/or final "
    "wavefields, storage on device, cpu or disk, no-op forward and backward callbacks that "
    "divide the propagation; non-trivial: distinct and some gradient of the reference is "
    "non-zero"
)
REF_TRUST = [
    "the reference model (dwv/ref.py), written from the documentation, states the "
    "intended equations, staggering, PML and source/receiver conventions",
    "CPU only: the sandbox has no GPU, so the CUDA kernels are not executed",
]
WHY_FWD = (
    "All inputs: the existing tests compare a few fixed homogeneous or random models with "
    "analytical solutions at loose tolerances in default configurations (and are too slow "
    "to be in the stable set); combinations of dimension, accuracy, PML widths, batching, "
    "sub-stepping, half-cell edges, source/receiver types and initial wavefields are "
    "unbounded."
)
WHY_GRAD = (
    "All inputs and configurations: gradcheck is run on a handful of fixed shapes; a wrong "
    "adjoint term in one PML corner, batching mode, thread count, storage mode or callback "
    "chunking only shows for particular combinations."
)


def _fwd(name, extra, files, title):
    return {
        "title": title,
        "statement": (
            f"For every accepted configuration, the receiver data and final wavefields "
            f"returned by {name} equal those of the documented discrete equations{extra}, "
            f"to rounding, whatever the dimension, accuracy, PML widths, batching, "
            f"sub-stepping, data type, backend or number of threads."
        ),
        "over": ["inputs", "configurations"],
        "quant": "every model, spacing, time step, accuracy, PML, source, receiver and "
        "initial wavefield accepted by the interface",
        "why": WHY_FWD,
        "files": files,
        "mechanism": "time-stepping kernels, PML profiles, padding and indexing of models "
        "and locations, resampling in time",
        "technique": "property-based testing: differential against an independent "
        "reference propagator over generated configurations",
        "note": "Random search with shrinking over small grids (up to about 24 cells per "
        "dimension plus PML, up to 16 samples); double precision agreement to 2e-9 of the "
        "largest value. Trusts the reference model; CPU only.",
        "rule": FWD,
        "assumptions": REF_TRUST,
    }


def _grad(name, files, title):
    return {
        "title": title,
        "statement": (
            f"For every differentiable combination of inputs, backpropagating any "
            f"combination of weights on the outputs of {name} gives the exact gradient of "
            f"the discrete forward operation, to rounding. This holds whatever the storage "
            f"mode, number of threads, batching of models, sub-stepping or division of "
            f"the propagation by callbacks."
        ),
        "over": ["inputs", "configurations"],
        "quant": "every subset of inputs requiring gradients, every output weighting and "
        "every configuration",
        "why": WHY_GRAD,
        "files": files,
        "mechanism": "hand-written adjoint kernels, stored forward snapshots, per-thread "
        "gradient buffers, custom autograd functions",
        "technique": "property-based testing: differential of gradients against automatic "
        "differentiation of an independent reference propagator",
        "note": "Random search with shrinking; double precision agreement to 1e-7 of the "
        "largest gradient entry. Trusts the reference model; CPU only.",
        "rule": GRAD,
        "assumptions": REF_TRUST,
    }


S = "src/deepwave/"
COMMON = [S + "common.py", S + "backend_utils.py"]
META = {
    "P01": _fwd(
        "scalar propagation", "", [S + "scalar.py", S + "scalar.c", S + "regular_grid.h",
        S + "regular_grid.py", *COMMON],
        "Scalar propagation solves its documented discrete equations",
    ),
    "P02": _fwd(
        "variable density acoustic propagation", "", [S + "acoustic.py", S + "acoustic.c",
        S + "staggered_grid.h", S + "staggered_grid.py", *COMMON],
        "Acoustic propagation solves its documented discrete equations",
    ),
    "P03": _fwd(
        "elastic propagation", " including fluid and vacuum zones",
        [S + "elastic.py", S + "elastic.c", S + "staggered_grid.h",
         S + "staggered_grid.py", *COMMON],
        "Elastic propagation solves its documented discrete equations",
    ),
    "P04": _fwd(
        "scalar Born propagation", " of the background and scattered wavefields",
        [S + "scalar_born.py", S + "scalar_born.c", S + "regular_grid.h", *COMMON],
        "Born propagation solves its documented discrete equations",
    ),
    "P05": _grad("scalar propagation", [S + "scalar.py", S + "scalar.c", *COMMON],
                 "Gradients of scalar propagation are exact"),
    "P06": _grad("acoustic propagation", [S + "acoustic.py", S + "acoustic.c", *COMMON],
                 "Gradients of acoustic propagation are exact"),
    "P07": _grad("elastic propagation", [S + "elastic.py", S + "elastic.c", *COMMON],
                 "Gradients of elastic propagation are exact"),
    "P08": _grad("Born propagation", [S + "scalar_born.py", S + "scalar_born.c", *COMMON],
                 "Gradients of Born propagation are exact"),
    "P09": {
        "title": "Second-order gradients are exact where supported, else refused",
        "statement": "Backpropagating twice through scalar propagation gives the exact "
        "second-order gradients with respect to every input and to the weights of the "
        "outputs. Where double backpropagation is not supported it raises an error; it "
        "never returns a wrong value.",
        "over": ["inputs", "configurations"],
        "quant": "every subset of inputs requiring gradients, every combination of outputs "
        "and of first-order gradients, every configuration without subdivided time steps",
        "why": "All inputs: the existing tests do gradgradcheck on fixed small cases that "
        "are too slow for the stable set; mixed second derivatives of PML fields, batching "
        "and 1D/3D combine freely, and nothing tests that unsupported cases are refused.",
        "files": [S + "scalar.py", S + "scalar_born.c", S + "acoustic.py",
                  S + "elastic.py", S + "scalar_born.py"],
        "mechanism": "double backward built on the Born kernels; once-differentiable marks",
        "technique": "property-based testing: differential against double automatic "
        "differentiation of an independent reference propagator",
        "note": "Random search with shrinking; agreement to 1e-6. The compiled backend is "
        "checked without subdivided time steps (there the model gradient is a sampled "
        "integral, whose derivative is not specified).",
        "rule": "scalar (and sometimes the other) propagations with random subsets of "
        "inputs requiring gradients, random output weights and random inner directions; "
        "non-trivial: distinct and a second-order gradient of the reference is non-zero, "
        "or the call was refused as not twice differentiable",
        "assumptions": REF_TRUST,
    },
}

META["P10"] = {
    "title": "Storage mode, division and repetition do not change results",
    "statement": "Receiver data, final wavefields and gradients are the same whether "
    "intermediate data is kept on the device, in CPU memory or on disk, whether or not "
    "callbacks divide the propagation, and in each repeated backpropagation of a retained "
    "graph. Without storage, everything but the model gradients is still the same.",
    "over": ["inputs", "configurations", "histories"],
    "quant": "every propagator, configuration, storage mode (compressed or not), division "
    "by callbacks and number of backpropagations",
    "why": "All configurations: the existing tests compare storage modes on one fixed case "
    "per propagator without batching, sub-stepping, several threads or repeated backward.",
    "files": [S + "common.py", S + "storage_utils.c", S + "scalar.c", S + "acoustic.c",
              S + "elastic.c", S + "scalar_born.c"],
    "mechanism": "allocation, offsets and file handling of stored snapshots; chunk loops",
    "technique": "property-based testing: metamorphic comparison of the same generated "
    "propagation under different storage modes and divisions",
    "note": "Random search with shrinking; bitwise equality, except for model gradients "
    "of divided propagations (rounding).",
    "rule": "propagations of all kinds (as in P01-P08) each run in 2-5 variants of storage "
    "mode, callbacks and repetition; non-trivial: distinct and some gradient is non-zero",
}
META["P11"] = {
    "title": "Compressed storage changes only model gradients, within 8-bit error",
    "statement": "Storing intermediate data compressed changes neither receiver data, "
    "final wavefields, nor gradients of sources and initial wavefields. Model gradients "
    "change by no more than what rounding each stored snapshot to one of 254 levels of its "
    "largest value can cause.",
    "over": ["inputs", "configurations"],
    "quant": "every propagator, configuration and storage mode that stores data",
    "why": "All inputs: the existing tests compare compressed and exact gradients of one "
    "fixed case each, with loose tolerances; block edges, sizes that are not multiples of "
    "the block, batching and offsets of compressed snapshots vary with the input.",
    "files": [S + "simple_compress.c", S + "storage_utils.c", S + "common.py"],
    "mechanism": "block quantisation, sizes and offsets of compressed snapshots",
    "technique": "property-based testing: differential against exact storage with an error "
    "bound propagated through an independent reference",
    "note": "Random search with shrinking. The bound uses the largest value of the whole "
    "snapshot and a factor of two of slack, so loss of accuracy within it is not seen.",
    "rule": "propagations of all kinds (as P05-P08) with all or some models requiring "
    "gradients; non-trivial: distinct and compression changed a model gradient",
    "assumptions": REF_TRUST,
}
META["P12"] = {
    "title": "Disk storage is isolated, cleaned up, and its failures are reported",
    "statement": "Whatever the history of propagations keeping intermediate data in one "
    "directory - interleaved, repeated, abandoned, concurrent or interrupted by exceptions - "
    "each gets the gradients it would get alone, other files are untouched, and no file or "
    "open descriptor is left once nothing is in use. If data cannot be written or read "
    "back, an error is raised rather than a wrong gradient returned.",
    "over": ["histories", "fault_sequences", "schedules"],
    "quant": "every sequence of propagations, backpropagations, releases, exceptions in "
    "callbacks, write failures and losses of files",
    "why": "All histories and faults: the existing tests run one propagation at a time and "
    "never make a write or read fail.",
    "files": [S + "common.py", S + "storage_utils.c", S + "scalar.c", S + "scalar_born.c",
              S + "acoustic.c", S + "elastic.c"],
    "mechanism": "unique temporary directories, their removal, file handles of snapshots",
    "technique": "stateful property-based testing with fault injection (file size limits, "
    "removed and truncated files, exceptions in callbacks, concurrent threads)",
    "note": "Random histories with shrinking, compared bitwise with device storage. Thread "
    "schedules of the concurrent operations are those the system happens to produce.",
    "rule": "histories of 2-9 operations over 1-3 propagations; non-trivial: distinct and "
    "some backpropagation was compared or a fault or exception took effect",
}
META["P24"] = {
    "title": "Hicks interpolation of off-grid points, dipoles and free surfaces",
    "statement": "For every set of points, the locations are unique grid cells (or ignored) "
    "and a source's amplitude is spread over them with the Kaiser-windowed sinc (for a "
    "dipole, its derivative), minus the mirror image in each free surface; receivers are "
    "recovered with exactly the transposed weights. This holds for any mixture of "
    "monopoles and dipoles and any selection and order of shots, whatever other points are "
    "interpolated with it.",
    "over": ["inputs", "configurations"],
    "quant": "every point, halfwidth, free surface, monopole/dipole mixture and shot "
    "selection",
    "why": "All inputs: the existing tests use one or two fixed points at a time, so "
    "interactions of points (a shared cache of weights, shared cells), points next to a "
    "surface and subsets of shots are not covered.",
    "files": [S + "location_interpolation.py"],
    "mechanism": "window weights and their cache, reflection in free surfaces, merging of "
    "cells shared by points",
    "technique": "property-based testing: reference weights and transpose (dot product) "
    "relation on generated points",
    "note": "Random search with shrinking; agreement to rounding for monopoles and 0.4% "
    "for dipoles (the code's documented eps).",
    "rule": "1-3 shots of 0-4 points, halfwidth 1-10, any free surfaces (on or half way "
    "between grid points), mixed monopoles and dipoles, subsets of shots; non-trivial: "
    "distinct and some point is off the grid or a dipole",
    "assumptions": [],
}
META["P25"] = {
    "title": "Elastic parameter conversions and the internal time step",
    "statement": "vp, vs, rho and lambda, mu, buoyancy are converted into each other exactly "
    "(to rounding), including zero density, shear speed and vacuum, and round trips return "
    "the original. The internal time step divides the given one into the smallest whole "
    "number of parts that obeys the documented CFL limit, for either sign of time step.",
    "over": ["inputs"],
    "quant": "every model, grid spacing, velocity and time step",
    "why": "All inputs: the existing tests convert a few values and check a few time steps "
    "away from the boundaries.",
    "files": [S + "common.py"],
    "mechanism": "vpvsrho_to_lambmubuoyancy, lambmubuoyancy_to_vpvsrho, cfl_condition_n",
    "technique": "property-based testing: closed-form reference, round trip and minimality",
    "note": "Random search with shrinking over values, shapes, dtypes and time steps close "
    "to multiples of the limit.",
    "rule": "either a model of 0-64 values converted (with zeros) or a CFL query; "
    "non-trivial: distinct and the model is not empty or more than one step is needed",
    "assumptions": [],
}
META["P26"] = {
    "title": "Wavelets, tapers and resampling in time",
    "statement": "Upsampling and downsampling by any whole ratio are the documented low-pass "
    "trigonometric interpolation, with the requested frequency taper, padding, time taper "
    "and shift: frequencies below the highest are kept exactly, higher ones removed, inputs "
    "unchanged, and gradients are the transposes. Tapers and the Ricker wavelet follow "
    "their formulas.",
    "over": ["inputs", "configurations"],
    "quant": "every signal, length (odd, even, very short), batch shape, ratio and option",
    "why": "All inputs: the existing tests resample a few smooth signals with loose "
    "tolerances; taper fractions that round to zero samples, one-sample signals and empty "
    "batches are not among them.",
    "files": [S + "common.py", S + "wavelets.py"],
    "mechanism": "upsample, downsample, cosine_taper_end, ricker",
    "technique": "property-based testing: differential against explicit trigonometric sums, "
    "round trip and transpose relations",
    "note": "Random search with shrinking, lengths up to 40 and ratios up to 5.",
    "rule": "signals of 1-40 samples with 0-2 batch dimensions, ratio 1-5, all options; "
    "non-trivial: distinct and something was resampled, tapered or generated",
    "assumptions": [],
}
META["P15"] = {
    "title": "Continuing from final wavefields equals one propagation",
    "statement": "Splitting a propagation at any times into parts, each started from the "
    "wavefields returned by the one before it and the matching section of the source "
    "amplitudes, gives the receiver data and final wavefields of the undivided propagation. "
    "The gradients that flow back through the parts, also when each is recomputed by "
    "checkpointing, are those of the undivided propagation.",
    "over": ["inputs", "configurations", "histories"],
    "quant": "every propagation, every set of split times, every subset of inputs with gradients",
    "why": "All histories: the documentation tells users to save memory with checkpointing "
    "and to continue propagations, but no test compares several parts for arbitrary split "
    "times, propagators, PML widths and gradients.",
    "files": [S + f for f in ("scalar.py", "acoustic.py", "elastic.py", "scalar_born.py", "common.py")],
    "mechanism": "completeness of the returned state, swapping of wavefield pointers for odd "
    "and even numbers of steps, padding and cropping of initial wavefields, wavefield gradients",
    "technique": "property-based testing: metamorphic relation between a propagation and the "
    "composition of its parts, over generated split times",
    "note": "Random search with shrinking; up to 12 samples and three splits; agreement to "
    "rounding. CPU only.",
    "rule": "generated propagations as in the forward checks, 1-3 split times, gradient "
    "subsets, with or without checkpointing; non-trivial: distinct and an output is non-zero",
    "assumptions": [],
}
META["P16"] = {
    "title": "Shots are independent of each other",
    "statement": "A batch of shots gives, for each shot, what propagating it alone gives, for "
    "any order, grouping or repetition of the shots and any number of threads. Gradients of "
    "shared models are the sums over shots and those of models per shot are the separate "
    "ones, also for models that are expanded views.",
    "over": ["inputs", "configurations", "schedules"],
    "quant": "every batch, order, grouping and number of threads",
    "why": "All inputs and schedules: a shot index used with the wrong stride or accumulated "
    "in another thread's buffer shows only for particular mixtures of batched and shared "
    "models, shots per thread and storage.",
    "files": [S + f for f in ("scalar.py", "acoustic.py", "elastic.py", "scalar_born.py", "common.py", "scalar.c", "acoustic.c", "elastic.c", "scalar_born.c")],
    "mechanism": "batch strides, per-thread gradient buffers and their sum, storage offsets "
    "per shot",
    "technique": "property-based testing: metamorphic relation between batches and their "
    "rearrangements",
    "note": "Random search with shrinking; up to five shots and four threads. The operating "
    "system's thread schedules are sampled, not enumerated. CPU only.",
    "rule": "generated propagations with 1-5 shots, a random grouping and a random repetition "
    "of shots, 1-4 threads, three storage modes; non-trivial: distinct, more than one shot "
    "and an output is non-zero",
    "assumptions": [],
}
META["P17"] = {
    "title": "Symmetries of the wave equations hold exactly",
    "statement": "Mirrored or axis-exchanged set-ups give the mirrored or exchanged results, "
    "results are linear in sources and initial wavefields, delayed sources give delayed data "
    "and a consistent change of the units of length and time changes nothing else. Without "
    "PML the scalar and Born propagators are reversible, and exchanging source and receiver "
    "of the same type gives the same data (reciprocity).",
    "over": ["inputs", "configurations"],
    "quant": "every propagation to which the symmetry applies",
    "why": "All inputs: these are the physical guarantees users reason with; the tests check "
    "none of them, and a wrong sign or index in one dimension, side or accuracy breaks one.",
    "files": [S + f for f in ("scalar.py", "acoustic.py", "elastic.py", "scalar_born.py", "common.py", "staggered_grid.py", "regular_grid.py", "scalar.c", "acoustic.c", "elastic.c", "scalar_born.c")],
    "mechanism": "finite difference stencils, staggering, PML profiles, source scaling and "
    "receiver sampling",
    "technique": "property-based testing: metamorphic relations (mirror, permutation, "
    "superposition, delay, rescaling, time reversal, reciprocity) that need no reference model",
    "note": "Random search with shrinking; agreement to rounding. CPU only.",
    "rule": "generated propagations with one of seven laws; non-trivial: distinct and an "
    "output is non-zero",
    "assumptions": [],
}
META["P18"] = {
    "title": "Using part of a model equals using a model of that part",
    "statement": "With survey_pad, or with origin and initial wavefields, outputs are those of "
    "a propagation in the documented part of the model given as a model by itself, with "
    "locations relative to it. The gradients of that part are the same, and those of the rest "
    "of the model are zero.",
    "over": ["inputs", "configurations"],
    "quant": "every model, survey, padding on each side (a number or None) and origin",
    "why": "All inputs: tests compare one region of one model; regions touching an edge, "
    "different padding per side, ignored locations and gradients are not sampled.",
    "files": [S + "common.py"],
    "mechanism": "extract_survey, extents from locations or wavefields, clamping at the edges "
    "of the model, padding of the extracted models",
    "technique": "property-based testing: metamorphic relation to an explicitly cropped model",
    "note": "Random search with shrinking. Regions with no location at all and half-cells on "
    "the last cell of a region without PML are unspecified and not generated.",
    "rule": "generated propagations with a random survey_pad or origin and region; "
    "non-trivial: distinct, the region is part of the model and an output is non-zero",
    "assumptions": [],
}
META["P19"] = {
    "title": "Sources and receivers are independent points",
    "statement": "Locations set to IGNORE_LOCATION have no effect and record zeros, reordering "
    "sources or receivers reorders the results, an amplitude may be divided between "
    "propagations and the data summed, and the integer type of the locations does not matter. "
    "Gradients of the amplitudes follow their source.",
    "over": ["inputs", "configurations"],
    "quant": "every list of sources and receivers, in any order, with any points ignored",
    "why": "All inputs: tests place few points in one order; lists of different types and "
    "orders per shot with ignored points are unbounded.",
    "files": [S + f for f in ("common.py", "scalar.py", "acoustic.py", "elastic.py", "scalar_born.py", "common_cpu.h")],
    "mechanism": "conversion of locations to indices, ignored points, source injection and "
    "receiver recording loops",
    "technique": "property-based testing: metamorphic relations on the lists of points",
    "note": "Random search with shrinking; agreement to rounding.",
    "rule": "generated propagations with one of four rearrangements of the points; "
    "non-trivial: distinct and an output is non-zero",
    "assumptions": [],
}
META["P21"] = {
    "title": "Callbacks see the true state of the propagation",
    "statement": "Forward callbacks are called before every callback_frequency-th step and see, "
    "under the documented names and in each view, the models and the wavefields of that time. "
    "Backward callbacks see the adjoint wavefields and the gradient accumulated so far, which "
    "they may change in place at step 0. Passing callbacks changes no result.",
    "over": ["inputs", "configurations", "histories"],
    "quant": "every propagation, callback frequency, view, wavefield and backend",
    "why": "All histories: the tests count calls and look at one or two wavefields of one "
    "configuration; names, views and states for all wavefields, odd and even numbers of "
    "steps between calls, dimensions and sub-stepping are not compared with anything.",
    "files": [S + f for f in ("common.py", "scalar.py", "acoustic.py", "elastic.py", "scalar_born.py")],
    "mechanism": "CallbackState views, division of the time loops, swapping of wavefields, "
    "names given to wavefields, models and gradients",
    "technique": "property-based testing: the state in each callback against a propagation "
    "that ends, or whose gradient starts, at that step",
    "note": "Random search with shrinking; agreement to 1e-9. The sign in which the previous "
    "scalar adjoint wavefield is stored is not specified.",
    "rule": "generated propagations as in the gradient checks, any callback frequency; one "
    "forward and one backward callback of each is compared; non-trivial: distinct and an "
    "output is non-zero",
    "assumptions": [],
}
META["P22"] = {
    "title": "Invalid input is refused and leaves nothing behind",
    "statement": "Input that contradicts the documentation (wrong types, shapes, batch sizes, "
    "data types, lengths, values out of range, locations outside the model, repeated, partly "
    "ignored, fractional or not finite) raises an exception: it is never accepted silently and "
    "never crashes. A refused call modifies no input, leaves no files and does not affect "
    "later calls.",
    "over": ["inputs", "histories"],
    "quant": "every valid call changed in one invalid way",
    "why": "All inputs: the tests try each message once with scalar inputs; whether every "
    "source and receiver type, wavefield and model of every propagator is validated cannot "
    "be sampled by hand.",
    "files": [S + f for f in ("common.py", "scalar.py", "acoustic.py", "elastic.py", "scalar_born.py")],
    "mechanism": "setup_propagator and the validation functions, checks of the last half-cell",
    "technique": "property-based testing: mutation of generated valid calls by one of about "
    "50 invalidating changes",
    "note": "Random search with shrinking. max_vel is documented as an absolute value, so "
    "negative ones are valid.",
    "rule": "a generated valid call and an invalidating change to a random argument and "
    "element; non-trivial: distinct (the change applied)",
    "assumptions": [],
}
META["P23"] = {
    "title": "The compiled code uses only its own initialised memory",
    "statement": "Whatever sizes, paddings, orders, threads, storage modes and locations a valid "
    "call has, the compiled propagators, their gradients and the compression read and write "
    "only within their arrays, do not overflow integers or misconvert numbers, and use no "
    "memory that was not initialised. Invalid calls are refused before reaching it.",
    "over": ["inputs", "configurations"],
    "quant": "every call of every compiled propagator on the CPU",
    "why": "All inputs: an access one element outside an array gives the right answer most of "
    "the time, so tests that compare results do not see it, least so in corner cases of size, "
    "order, padding and division into threads.",
    "files": [
        S + f
        for f in ("scalar.c", "scalar_born.c", "acoustic.c", "elastic.c", "simple_compress.c",
                  "storage_utils.c", "common_cpu.h", "common.py")
    ],
    "mechanism": "loop bounds, index arithmetic, sizes of the storage, compression blocks",
    "technique": "property-based testing: generated calls of a build with AddressSanitizer and "
    "UndefinedBehaviorSanitizer, new memory filled with NaN",
    "note": "Random search with shrinking, complete for nothing. Memory torch allocates is "
    "watched because its allocator is that of the sanitizer; CUDA code is not executed.",
    "rule": "generated forward, backward, second-order, compressed and invalid calls, also "
    "compared with the oracles of their own checks; non-trivial: as those checks count",
    "assumptions": [],
    "flavour": {"quick": "asan", "thorough": "asan"},
}
META["P13"] = {
    "title": "How a propagation is expressed does not change it",
    "statement": "The module and the function, any memory layout of the inputs, equivalent types "
    "and shapes of arguments, explicit defaults, zero initial wavefields, gradient modes, the "
    "default data type, the number of threads and scripting give the same outputs and "
    "gradients, in the data type of the models. Repeating a call gives the same bits. No input "
    "is modified.",
    "over": ["inputs", "configurations", "histories"],
    "quant": "every propagation and every equivalent way of asking for it",
    "why": "All inputs: the tests use contiguous inputs, one type of each argument and mostly "
    "one of function and module; forwarding of each of some 40 arguments and the many ways "
    "tensors can be laid out in memory are not covered.",
    "files": [S + f for f in ("scalar.py", "acoustic.py", "elastic.py", "scalar_born.py", "common.py")],
    "mechanism": "module classes, setup_propagator, conversions to contiguous tensors, creation "
    "of tensors without explicit data type, choice of the Python backend",
    "technique": "property-based testing: metamorphic relation between equivalent calls",
    "note": "Random search with shrinking; agreement to 1e-11 (gradients 1e-9) in double "
    "precision. torch.compile is not exercised (compiling takes minutes).",
    "rule": "a generated propagation and one of 12 equivalent forms; non-trivial: distinct and "
    "an output is non-zero",
    "assumptions": [],
}
META["P20"] = {
    "title": "Propagators agree where their equations coincide",
    "statement": "Elastic propagation without shear strength equals acoustic propagation, with "
    "its gradients; in one dimension only lamb + 2 mu matters; the background of Born "
    "propagation equals scalar propagation and its scattered field is the derivative of scalar "
    "propagation in the direction of the scattering potential. A propagation that is uniform "
    "along an axis equals that with one dimension less.",
    "over": ["inputs", "configurations"],
    "quant": "every medium, source, initial state and configuration in which the equations are "
    "the same",
    "why": "All inputs: the tests compare each propagator with itself or with analytic "
    "solutions of homogeneous media at a few percent.",
    "files": [S + f for f in ("scalar.c", "scalar_born.c", "acoustic.c", "elastic.c", "scalar.py",
                              "scalar_born.py", "acoustic.py", "elastic.py", "staggered_grid.h",
                              "regular_grid.h", "staggered_grid.py", "regular_grid.py")],
    "mechanism": "separate implementations of the same stencils, PML, interpolation of models "
    "to half-cells, injection and adjoints",
    "technique": "property-based testing: differential between propagators of the code itself",
    "note": "Random search with shrinking; agreement to 1e-9 (gradients 1e-8). Independent of "
    "the reference used in other checks. Scattering is zero at the edges of the model.",
    "rule": "generated propagations with one of the relations; non-trivial: distinct and an "
    "output is non-zero",
    "assumptions": [],
}
META["P14"] = {
    "title": "Propagation is stable, absorbed by PMLs, and local",
    "statement": "Without sources, wavefields do not grow however long a propagation is, at any "
    "time step, accuracy, PML and free surface. With PMLs of the recommended widths and "
    "frequency, recordings are those of a model that goes on beyond its edges, but for a few "
    "percent. In each step nothing travels further than the stencil reaches.",
    "over": ["inputs", "configurations"],
    "quant": "every medium of moderate contrasts, time step, accuracy, PML and source",
    "why": "All inputs and long histories: instabilities and reflections appear after many "
    "steps and in combinations of widths, orders and media that short tests do not run.",
    "files": [S + f for f in ("common.py", "scalar.c", "acoustic.c", "elastic.c", "regular_grid.py",
                              "staggered_grid.py", "scalar_born.c")],
    "mechanism": "internal time step from the CFL condition, PML profiles and memory variables, "
    "free surface conditions, stencils",
    "technique": "property-based testing: invariants of long propagations, and a metamorphic "
    "relation to a larger model",
    "note": "Random search with shrinking. Growth is reported from 1e6 (static modes in fluids "
    "drift linearly); reflections from 6% of the recordings, 25% with PMLs of 10 or with "
    "reflecting sides (at most 3% and 9% were seen). Density contrasts are up to 1.6.",
    "rule": "generated propagations continued for up to 1500 steps, homogeneous or layered "
    "models compared with larger ones, or changes of one cell; non-trivial: distinct and "
    "something propagates",
    "assumptions": ["density contrasts between neighbouring cells are moderate (the averaging "
                    "of buoyancy can otherwise exceed the speed the time step is based on)"],
    "flavour": {"quick": "O0", "thorough": "O2"},
}
META["P27"] = {
    "title": "Function transforms of propagators are exact",
    "statement": "With the Python backend, forward-mode derivatives of all outputs, "
    "vectorisation over models, gradients within function transforms, and compositions of "
    "these (per-sample gradients, vectorised tangents, Hessian-vector products) are those of "
    "the discretised wave equation, for all subsets of models, with and without initial "
    "wavefields. What is not supported (vectorised source amplitudes, vectorised models "
    "without max_vel) is refused.",
    "over": ["inputs", "configurations"],
    "quant": "every model, source, initial state, configuration, tangent and transform",
    "why": "All inputs: tests run a few fixed small cases of each propagator.",
    "files": [S + f for f in ("scalar.py", "scalar_born.py", "acoustic.py", "elastic.py",
                              "common.py", "regular_grid.py", "staggered_grid.py")],
    "mechanism": "Python backend free of in-place operations and of operations that "
    "transforms do not support; checks of values skipped inside transforms",
    "technique": "property-based testing: differential against transforms of the reference",
    "note": "Random search with shrinking; agreement to 1e-7 in double precision.",
    "rule": "generated propagations with a transform; non-trivial: distinct and a derivative "
    "or vectorised output is non-zero",
    "assumptions": ["models without zero velocities for derivatives of second order"],
}
META["P28"] = {
    "title": "Calls do not affect one another",
    "statement": "Whatever else was called before, failed, is pending, or runs at the same time "
    "in other threads or within callbacks, a propagation and its backpropagation give the "
    "outputs and gradients of that propagation alone. Backpropagations may run in any order, "
    "repeatedly while the graph is retained, and accumulate as PyTorch's do.",
    "over": ["inputs", "histories", "schedules"],
    "quant": "every history of calls of any propagators with any configuration",
    "why": "All histories: every test makes one call, or a fixed pair, in one thread.",
    "files": [S + f for f in ("scalar.py", "scalar_born.py", "acoustic.py", "elastic.py",
                              "common.py", "backend_utils.py", "storage_utils.c")],
    "mechanism": "no state shared between calls: data stored for backpropagation, temporary "
    "buffers and files, saved tensors, callbacks",
    "technique": "property-based testing: random histories against the reference model",
    "note": "Random histories with shrinking: up to 8 operations on up to 3 propagations. "
    "Thread interleavings are those that happen.",
    "rule": "a generated history; non-trivial: distinct and at least two backpropagations gave "
    "a gradient that is not zero",
    "assumptions": REF_TRUST,
}

META["P29"] = {
    "title": "The CUDA code computes what the CPU code does",
    "statement": "The kernels and host code of the CUDA sources solve the same discrete "
    "equations, with the same exact gradients, as those for the CPU: receiver data, final "
    "wavefields, first- and second-order gradients are those of the reference model to rounding, "
    "whatever the storage mode, compression and division by callbacks. This holds for every order "
    "in which threads, blocks and streams may legally run; work on other streams is waited for.",
    "over": ["inputs", "configurations", "schedules"],
    "quant": "every accepted propagation and every legal order of threads, blocks and streams",
    "why": "All inputs: the tests of the repository only run the CUDA code on machines with a "
    "GPU, where the order of streams is what the hardware happens to choose.",
    "files": [S + f for f in ("scalar.cu", "scalar_born.cu", "acoustic.cu", "elastic.cu",
                              "simple_compress.cu", "storage_utils.cu", "common_gpu.h",
                              "common.py")],
    "mechanism": "CUDA kernels, constant memory, double buffering of stored data with a second "
    "stream and events, compression, transfers and files",
    "technique": "property-based testing: differential against the reference model, executing "
    "the CUDA sources on the CPU with an emulated runtime and random legal schedules",
    "note": "Random search with shrinking. The emulated runtime runs the threads of a block one "
    "after another (forwards or backwards), and queued work of streams in random legal orders. "
    "Properties of GPUs (rounding of fast arithmetic, memory limits, races within a warp that "
    "do not depend on the order of threads) are not covered.",
    "rule": "a generated propagation, gradient, second-order gradient, or comparison of storage "
    "modes or compression; non-trivial: distinct, non-trivial in the check it is drawn from, and "
    "the CUDA code was called",
    "assumptions": [
        REF_TRUST[0],
        "the emulated CUDA runtime (dwv/cudaemu) states what CUDA guarantees about streams, "
        "events, constant memory and kernel launches",
    ],
    "flavour": {"quick": "cuda_asan", "thorough": "cuda_asan"},
}
