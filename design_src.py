"""writes DESIGN.md from the text below, meta_src.py, props/*.py, known_findings.txt and dev/seeds_src.py"""
import ast, json, os, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__))

HEAD = """# Design

TenniS is an inference engine: it reads a module (a graph of operators with constant tensors), compiles it to a program for a device, and runs it on a
workbench, behind a C API (`include/api`). What a user relies on is that the answer is the one the graph defines, for every graph, input, option, thread
number and history of calls; that damaged files and misuse give errors and not crashes; and that separate workbenches do not influence each other. The
properties in `properties.jsonl` cover: files (P01-P03, P25), graph semantics and compilation (P04, P05, P27), run time state and concurrency (P06, P07, P26),
every CPU operator by family (P09-P21), element types and tensor handles (P22, P23), error behaviour (P28){extra}.

`meta_src.py` is the source of `properties.jsonl`, `meta/` and `MANIFEST.json`; `design_src.py` writes this file. Nothing is under "not_applicable": every
listed property is decided by generated-input search. Parts of the repository that no property covers are listed at the end.

## Machinery (`tv/`)

* **Build** (`tv/build.py`): compiles /repo's current tree with content-hashed object files under /verif/build (ignored by git), in variants `rel` (as
  build.sh: -O3, AVX/FMA, OpenMP), `asan` (AddressSanitizer + UBSan checks), `tsan`, and the scalar one. It takes all sources in the tree, so added files and
  moved functions need no change here. Shims (`shim/*.cpp`) export C++-only parts (saving modules, compile options, custom operators, streams) as C functions.
* **Generators** (`tv/gen.py`): a case is a pure function of a list of small integers (the choices). Random generation records them; the replay file stores
  them; shrinking edits the list (delete ranges, lower values) and re-runs, so every failure shrinks, whatever the generator. A violation is reported only if it
  fails again in three fresh processes; if it depends on earlier cases in the process, the list of those is shrunk instead and replayed.
* **Driving**: worker processes (one per core) load the library through ctypes and run cases; a crash, sanitizer report, escaping exception or timeout of a
  worker is a violation of the case it ran (the choices are logged as they are drawn). Memory is limited per worker.
* **Oracles**: `tv/ops.py` runs one operator as a module of its own and compares with numpy written from the documentation (doc/zh_CN/operator.md and
  tf_operator.md), in float64, with tolerances scaled to the sums involved; `tv/graphgen.py` generates graphs together with a numpy evaluation; `tv/fmt.py` is
  an independent encoder / decoder of the file format. Every session also checks that input tensors are not modified, and the sessions run several times
  with other shapes, thread numbers and failing inputs in between, because much of the code caches between runs.
* **Evidence**: `evidence/<id>.json` has cases generated, distinct non-trivial ones (rule per property below), discards by reason, label counts and samples.
* `python3 check.py <id> --tier quick|thorough`; `VERIF_SEED` gives other cases; `python3 check.py --replay FILE` repeats a failure.

Why this reaches what the repository's 28 tests cannot: the tests print results or check a handful of fixed inputs. The properties quantify over inputs,
graphs, options and histories; each quick check generates thousands to a hundred thousand of them with an explicit oracle, and 100+ defects of the original
tree were found this way (below).

What the results mean: the level claimed everywhere is "tested": the property held on everything explored. Schedules (P07) are those the OS produced, plus
happens-before analysis by ThreadSanitizer over them.

"""

TXT = {
"P01": ("Round trip and byte-level differential: the bytes written must equal those of `tv/fmt.py`; loading must give them back, consume exactly them and replace old contents.",
        "Views (slices, ranges, fields, reshapes, clones) and several tensors per stream are what tests leave out."),
"P02": ("Model: the graph that the independent decoder reads, compared up to node numbering (`tv/shim.py canon`), plus execution before and after. Also C++ node copies and moves (shim).",
        "Sharing, repeated outputs, unknown parameters and node orders multiply; the tests save one graph."),
"P03": ("Structured fuzzing under AddressSanitizer with an independent decoder as oracle: valid bytes must load as what they say, invalid ones must fail; every strict prefix fails. Memory per worker is limited, so that counts are not trusted.",
        "A damaged file is one of 2^n; tests have none."),
"P04": ("Differential against the numpy evaluation of generated graphs (sharing, packs, fields, constants, in-place-able chains).", "Wrong memory reuse or folding shows only for particular graph shapes."),
"P05": ("Metamorphic: the same module under different options and routes gives the same results, and its saved form does not change.", "Tests compile a module once with default options."),
"P06": ("Stateful model-based: every API call updates a Python model of workbenches, programs, parameters, filters and outputs; every visible value is compared.", "Only long histories mix clones, failing runs, hooks and freeing."),
"P07": ("Generated scripts on 2-6 threads with the sequential results as oracle, in the release and ThreadSanitizer builds (data races are violations).", "Tests use one schedule."),
"P09": ("Reference numpy for broadcasting, type promotion and wrap-around; incompatible shapes must be refused.", "Shape classes choose different kernels (scalar, channel, general)."),
"P10": ("Reference float64 formulas; lengths straddle the vector width.", "SIMD tails and special values."),
"P11": ("Direct numpy convolution, several runs per workbench (caches of packed and transformed kernels, kernels changing between runs or transformed ahead), options, threads; ASan.", "im2col, 1x1, 3x3 and winograd paths are chosen by shape and option."),
"P12": ("Direct numpy evaluation (exact int64 for the quantized operators); ASan.", "No test for deformable or quantized convolution."),
"P13": ("Direct computation of windows for every padding rule; ASan.", "Borders, ceil mode and fast 2x2/3x3 paths."),
"P14": ("float64 matrix products, all flags, packed constants or not, threads.", "Blocking tails in the GEMM kernels."),
"P15": ("float64 reductions and normalisations over every axis; integer ones exact.", "Axis, keep-dims and rank combinations."),
"P16": ("Bit-exact numpy, 25 data-movement operators, parameters as inputs and constants.", "Permutations and ranks choose fast paths."),
"P17": ("Bit-exact numpy (own reference of TensorFlow/ONNX slicing), masks, negative strides.", "Mask and range combinations."),
"P18": ("Direct float64 interpolation (linear, cubic, nearest, hard), positions that hinge on rounding are discarded; ASan.", "Ratios, tiny images, border rules."),
"P19": ("Each step of an ImageFilter is checked against the direct computation on what the steps before gave (so that rounding does not accumulate), as a filter, as exported module and bound to an input; ASan.", "Step combinations, extending a filter after use."),
"P20": ("float64 references of decoding, greedy suppression and level assignment; near ties are discarded; ASan.", "No test runs these operators."),
"P21": ("float64 recurrence; ASan.", "No test of LSTM."),
"P22": ("numpy exact conversion (half: correctly rounded to nearest even by numpy), every pair of types, extremes.", "Tests convert a few values between a few types."),
"P23": ("Stateful model of handles, values and shared storage; after every call all live handles are compared; ASan.", "Aliasing shows only in histories."),
"P25": ("Byte-string models, an independent AES-256 in numpy (checked against openssl), faults: cut and damaged files, wrong keys, /dev/full, missing directories; ASan. Scratch files live in a temporary folder.", "Block boundaries against chunk sizes."),
"P26": ("Reference life cycle of custom operator objects (new, init, run, free counted and ordered), with injected failures at any callback.", "One test registers one operator."),
"P27": ("The fused module must compute the composition of the parts evaluated in numpy.", "No test fuses modules."),
"P28": ("Histories over all exported functions with NULL and out-of-range arguments: failure value and message, nothing changed; good calls leave no message; ASan.", "Tests only make good calls."),
"P24": ("An allocator under the library that records every block, counted operator new/delete (preloaded), a model of live blocks, JSON summary; consuming threads under ThreadSanitizer. A history is repeated, and growth has to appear at every repetition to count.", "Nothing in the tests counts memory or frees across threads."),
"P30": ("Outcome classes (result as specified, or failure with a message), the references of the operators' checks for the next run, recorded live blocks, ASan. The refused request takes the real allocator's own failure path.", "Faults at every allocation."),
"P29": ("The models of P06, P19, P23 and P27 driven through a shim that exposes every overload of the C++ classes, plus value builders/readers, an operator class and 3x3 matrices in numpy.", "Each overload is its own code; no test checks it."),
"P08": ("Execution itself (and, through the families' own sessions, the references of P09-P22): what `offline_infer`, `offline_run` and `ts::infer` say is compared with what a program gives, with inputs as parameters or constants and sizes given or open; random graphs compare every node.", "Inference is never called by the tests."),
"P31": ("The references of P10, P14-P18 and P22 called through both intime interfaces, results kept over later calls and the end of the workbench.", "Lifetimes and argument order."),
"P32": ("numpy: single nodes against the references of P10, P14-P18 and P22, random graphs against the generator's evaluation; names and order of inputs and outputs against the graph.", "The frontend is only linked, never run, by the tests."),
"P33": ("Every start, end and return is stamped by one global counter, and the stamps of each program are checked: once each, order, numbers, overlap, joins after ends, busy while held at a gate. Loops must cover their ranges; also under ThreadSanitizer.", "Interleavings; no test uses a pool."),
"P34": ("A model in Python: tensors are lists of fields that point into shared byte buffers with owners; after every call every live tensor, stack entry and bubble is compared with it. ASan watches lifetimes.", "Histories of aliasing, ownership and frames."),
"P35": ("The answer of the same workbench to valid inputs before and after; the process must end no case by a signal, an exit, a report of ASan or a timeout.", "One missing check in one of a hundred operators shows for one kind of wrong input only."),
}

TAIL = """
## Seeded bugs

`dev/seeds_src.py` writes `seeded/<id>/` (patch, demo, meta). Each was written from the property's text and the code, passes the existing tests, needs something
specific, and its demo fails only with it. `dev/seed.sh ID` validates one in a scratch copy. All of them are caught by the quick check of their property; what was missed
first and made us strengthen a check is noted.

%s
Missed first: S21 (P28 only used workbenches that had served one program; now they may have served one with more inputs before).

## Defects found and repaired

%s "fix:" commits in /repo, each recorded in `known_findings.txt` with the property whose check found it (or the reading for its reference). No finding is left suppressed.
They include: memory reused while still needed, constants modified by compile options, kernels reading or writing out of bounds (GEMM tails, linear and cubic sampling, one-row
images, pooling corners, missing anchors), wrong results (broadcasts of both sides, negative axes, strided slices, proposal of several images, reverse LSTM, cubic overshoot),
state leaking between runs and threads (cached prewhiten parameters, error messages), crashes on damaged files, and C API calls that failed silently or ended the process.

## False alarms corrected

Where a check was stronger than what the code promises, the property was narrowed and not the code: division of integers by zero (documented saturation), SAME padding with a
negative total (only the sum is specified), float16 infinities (saturated on purpose), `pad` that crops a dimension away (clamped to 1 on purpose), upcast table entries,
near ties in suppression, casts of packed tensors, `int()` truncation in shape_index_patch, custom operators' stale messages, one workbench used from two threads.

## Not covered

* GPU, ARM (NEON, winograd zip) and Windows code: not compiled here.
* `ts::infer` of one module for several sets of sizes in turn (values of the first remain on its nodes) and of graphs that do not run, `Workbench::launch_online` device mismatch, multi-route C++ `Module::Fusion` orders, the `FileStream` (read/write) class, which can not
  be opened, `src/kernels/cpu/pad.cpp` (unregistered), unknown resize methods and unknown option strings, dragon padding operators (undocumented).
"""


def main():
    sys.path.insert(0, H)
    import meta_src
    ids = sorted(meta_src.OUT, key=lambda s: int(s[1:]))
    extra = ", static shapes (P08)" if "P08" in ids else ""
    md = HEAD.replace("{extra}", extra)
    md += "## Properties\n\nCases are per build variant. Costs are wall-clock on 8 cores including no rebuild.\n"
    for i in ids:
        d = meta_src.OUT[i]
        v = {}
        for n in ast.parse(open(f"{H}/props/{i}.py").read()).body:
            if isinstance(n, ast.Assign):
                try:
                    v[n.targets[0].id] = ast.literal_eval(n.value)
                except Exception:
                    pass
        ev = {}
        try:
            ev = json.load(open(f"{H}/dev/cost.json")).get(i, {})
        except OSError:
            pass
        o, why = TXT[i]
        md += f"\n### {i} {d['title']}\n\n"
        md += f"* Oracle: {o}\n* Generated: {v['RULE']}.\n* Bounds: {' '.join(d['quantifier']['text'].split())}. Builds: {', '.join(v.get('VARIANTS', ('rel',)))}.\n"
        md += f"* Cost: quick {v['CASES']['quick']} cases" + (f" ({ev['s']:.0f} s)" if ev else "") + f", thorough {v['CASES']['thorough']} cases or 660 s per build.\n"
        md += f"* Beyond the tests: {why}\n"
    sys.path.insert(0, H + "/dev")
    import seeds_src
    tab = "| Seed | Property | Needs | Caught by |\n|---|---|---|---|\n"
    for s in seeds_src.SEEDS:
        tab += f"| {s['id']} | {s['prop']} | {s['needs']} | {s.get('caught', s['prop'] + ' quick')} |\n"
    n = sum(l.startswith("fixed:") for l in open(f"{H}/known_findings.txt"))
    md += TAIL % (tab, n)
    open(f"{H}/DESIGN.md", "w").write(md)


main()
