#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from the constants of the checks, properties.jsonl, known_findings.json and the text below."""
import ast, json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def constants(mod):
    tree = ast.parse(open(f"{ROOT}/mc/{mod}.py").read())
    out = {"doc": ast.get_docstring(tree)}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in (
                "LEVEL", "TECHNIQUE", "NOTE", "RULE", "BOUNDS", "ASSUMPTIONS"):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


INTRO = """# Model checking philtorch

This file is written by `tools/gen_design.py` from the checks' own constants, the properties and the findings file, so that it
cannot drift from what the checks do.

## 1. Approach

philtorch is a library of pure functions; its "executions" are runs of a filter over a signal. Every filter is a state machine
(a delay line or a state vector), one sample is one transition, and a trace of the machine is one input history. The family of
techniques (exhaustive exploration of a bounded space of behaviours) is applied to it in four ways:

* **explicit-state machine + replay of every trace** (C01-C05, C08-C11, C21, C24). `mc/ref.py` executes the named structure one
  sample at a time over all values of small alphabets. The state space and its transitions are counted while it is explored.
  Every maximal trace becomes one batch row of a call of the real function, so that the model is bound to the code by replaying
  *all* of its traces, not a selection, and the comparison is `==`: the data are small (Gaussian) integers, for which every
  floating point operation of the code is exact, whatever its order. A tolerance appears only where the code itself solves,
  diagonalises or uses an irrational constant.
* **stateless exploration of the real code** under a controlled environment: all thread schedules of the compiled kernels up to a
  preemption bound (C13), all tile sizes and orders of the Helion kernels (C21), all scan trees of the CUDA formulation (C22), all
  histories of calls from a pristine process (C15), all schedules of two Python threads with one switch at any line (C25), all ways in which the extension file can fail to load (C18).
* **exhaustive enumeration of configurations on the real code against an independent oracle**, for properties that quantify over
  shapes, layouts, subsets or directions rather than over time: derivatives (C06, C07: all subsets of operands x all basis
  vectors), compiled-graph metadata (C14), row selections and memory layouts (C16), shapes (C19), dtypes (C20), algebra (C12, C17,
  C23). They are registered as `exploration` rather than `model_checking`, because there is no transition system behind them.
* Linearity is used to make enumeration complete where it applies: a map that is linear in its input is decided by its basis
  signals; the checks enumerate them all and check linearity itself with dense signals.

Two assumptions carry over all of it. (1) Uniformity: the code does not branch on the values of tensors (true of everything but
`prototype`, whose value-dependent branches are enumerated explicitly), so that alphabets of integers stand for all values;
floating point rounding is outside of the model. (2) Small scope: shapes beyond the bounds behave like those inside. The bounds
are chosen so that every branch of the code that depends on sizes (block remainder and nesting, order 0/1/2/more, coincidences of
batch size, length and order, empty tails, thread team sizes) has both sides inside them.

## 2. Machinery

* `mc/run.py CXX` runs one check: it builds the native extension from /repo's current sources if they differ from what is built
  (`mc/build.py`, into a cache outside the tracked files), imports the package from /repo, and executes the tasks of `plan(tier)`
  in forked children on 8 cores, so that a crash of the code under test is an observation and not the end of the check. It
  collects counters, prints `VIOLATION` lines with replay files (`/verif/replay/<id>-n.json`, operands included), prints
  `KNOWN-FINDING` lines, and writes `/verif/evidence/<id>.json`.
* `mc/ref.py` (state machines in numpy), `mc/tref.py` (the same in differentiable torch operations, for C06, C07, C21), `mc/api.py`
  (the catalogue of about 700 calls: every public function, operand layout and option, with sizes as parameters; used by C14, C15,
  C16, C18, C20), `mc/dcases.py` (instances with an exact derivative).
* Environment: `PHILMC_ONLY=<substring>` selects tasks, `PHILMC_JOBS`, `PHILMC_VERBOSE=1`, `PHILMC_SHOW=n`, `PHILMC_REPO` (another
  tree, for experiments only). No hooks were needed in /repo: the instrumented builds of C13 and C22 rewrite the sources on the fly
  into a build directory.
* Tasks that crash, hang or run out of time are failures, never a pass. With the first violation that is not a listed finding no further task
  is started (`PHILMC_ALL=1` runs them all).
"""

LIMITS = {
    "C01": "Mixed dtypes of operands, signals without samples and filters of total order 0 are not claimed.",
    "C02": "The torchlpc backend repeats a single signal for a batch of coefficients; this extension of the documented shapes is neither required nor excluded. tdf2 is "
           "documented as not implemented there.",
    "C03": "Shapes of C and D that admit several readings of the same kind are accepted in either reading.",
    "C04": "Matrix orbits are bounded, so long signals stay exact; lengths beyond 128 (1024 thorough) are not run.",
    "C05": "Chunkings are decided edge by edge: 2^(N-1) cuttings follow from N(N+1)/2 edges, because every edge into a position must reach one state.",
    "C06": "find_eigenvectors and roots are differentiated only on their domain (a matrix with its own eigenvalues); anomaly mode is out.",
    "C07": "Second derivatives of functions with data-dependent iteration (newton_solve) are not claimed.",
    "C08": "Defective (repeated) poles are outside of the statement. Two open findings, see section 4.",
    "C09": "lfilter_zi(transpose=False) looks at b's length only.",
    "C10": "Gustafsson's method is documented as not implemented.",
    "C11": "delay 0 is not claimed.",
    "C12": "L = 1 is not claimed; the truncation of the boundary sums is allowed for.",
    "C13": "Sequential consistency: the monitors find conflicting unsynchronised accesses in any explored schedule, and an access pattern that does not depend on the "
           "schedule (checked) makes that complete for the loop; weak-memory effects need a race to exist first. Team sizes up to 4 (8 for one group).",
    "C14": "storage_offset is not compared (torch's own kernels differ in it); torchlpc ships no fake kernels, so the functions that call it are captured with real tensors only; "
           "prototypes whose control flow depends on values cannot be captured; symbolic (dynamic) shapes are checked for the operators only.",
    "C15": "newton_solve under anomaly mode is out.",
    "C16": "Sizes are chosen so that a selection of rows never creates another reading of a shape.",
    "C17": "find_eigenvectors: distinct eigenvalues.",
    "C18": "An extension file that is truncated so that loading it crashes the dynamic linker (SIGBUS) is out of reach of Python code.",
    "C19": "Tuples that only broadcasting of a size-1 axis explains may do either; so may ambiguous shapes of C and D.",
    "C20": "half and bfloat16 through torchlpc, and int64 through scalar recurrences, are not implemented by their backends.",
    "C21": "Only what Helion's interpreter executes; generated Triton code is out (no GPU).",
    "C22": "No GPU and no nvcc: the .cu files are compiled by g++ with stand-ins for thrust and the launch syntax; sizes above 2^31 elements are out.",
    "C23": "sos2pfe is not claimed (it is unfinished: complex pairs are dropped by position).",
    "C25": "Two threads; a preemption inside PyTorch or inside the compiled kernels is not explored (C13 explores the kernels' own threads).",
    "C24": "return_intermediate is not claimed.",
}

CATCH = {}

FALSE_ALARMS = """
Alarms on the unchanged tree that turned out to be the check's fault, and what was done:

* C01 required integer filters; the operators for filters do not take int64 (only the matrix recursions do). Statement corrected.
* C03 required a 0-d D to be accepted with vector outputs, and one particular reading of shapes such as (1,) or (F,) for D where
  several are documented. The oracle now accepts any documented reading of the same kind.
* C06/C07: the harness compared outputs that do not require gradients, and `zeros_like` of expanded outputs; harness corrected.
  The differences part leaves out eigenvectors off the eigenvalue manifold, where no derivative is defined.
* C08 fed mixed dtypes and a (1, F) D whose reading is ambiguous; both removed. A supposed finding ("complex system given by
  eigenvalues") was a harness error in the conjugation of the eigenvectors and was dropped.
* C14 compared storage offsets (not promised by any PyTorch operator), asked for fake kernels of torchlpc (third party), and
  captured prototypes with value-dependent control flow; all three removed, with the reason in section 3.
* C15 ran newton_solve in anomaly mode, which torch.func itself does not support; removed.
* C18: the editable installation's finder resolved the other tree (harness), an empty gradient was distinguished from None, and
  bfloat16 rounding was compared exactly where the two builds round at different points; harness corrected to use data without
  rounding.
* C19 required lti.lfiltic / lfilter_zi to reject leading axes that broadcast, C and D readings as in C03, comb_filter with delay 1
  to reject a zi of shape (B,), the torchlpc backend to reject a single signal with a batch of filters, and inputs x for a
  numerator without delays (they are not looked at); all of these are now "either".
* C20 compared the sign of eigenvectors between dtypes (not determined) and half precision through torchlpc (not implemented).
* C21 passed a four-dimensional A to the time-invariant operator; harness corrected (and the operator's missing validation, which
  this uncovered, repaired).
* C24 used a Jacobian in float32 for a double recursion (harness).
"""

NOT_CLAIMED = """
Left out on purpose, beyond the limits listed per property: operands of mixed dtypes; complex states for real inputs of the
diagonal tdf2 form as a dtype question (values are checked); x of one dimension with batched coefficients; a of shape (1, N) with
a batch of signals; signals without samples; real GPUs (C21 and C22 decide the kernels' logic on the host).
"""


def main():
    props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
    man = json.load(open(f"{ROOT}/MANIFEST.json"))
    o = [INTRO, "## 3. Properties\n"]
    for p in props:
        i = p["id"]
        c = constants(i.lower())
        o.append(f"### {i} {p['title']}\n")
        o.append(f"*Specified*: {p['statement']}\n")
        o.append(f"*How it is decided* ({c.get('LEVEL')}): {c.get('TECHNIQUE')}. {c.get('NOTE')}\n")
        o.append(f"*What is enumerated*: {c.get('RULE')}.\n")
        b = c.get("BOUNDS", {})
        o.append(f"*Bounds (quick)*: {b.get('quick')}.\n\n*Bounds (thorough)*: in addition {b.get('thorough')}.\n")
        if c.get("ASSUMPTIONS"):
            o.append("*Assumptions*: " + "; ".join(c["ASSUMPTIONS"]) + ".\n")
        o.append(f"*Beyond the tests*: {p['why_tests_cant']}\n")
        if LIMITS.get(i):
            o.append(f"*Limits*: {LIMITS[i]}\n")
        if COST.get(i):
            o.append(f"*Cost*: {COST[i]}\n")
    o.append("## 4. Findings\n\nGenuine defects found on the original tree. Repaired ones have a `fix:` commit in /repo and an entry in `known_findings.json`;\n"
             "the check that found each of them passes now without a KNOWN-FINDING line and reports it if it returns.\n")
    f = json.load(open(f"{ROOT}/known_findings.json"))["findings"]
    o.append("Open (reported as KNOWN-FINDING on every run):\n")
    for e in f:
        if e["status"] == "open":
            o.append(f"* {e['property']} `{e['key']}`: {e['what']}. Example: `{e['call']}`. Not repaired: {e['why_not_repaired']}.")
    o.append("\nRepaired:\n")
    for e in f:
        if e["status"] != "open":
            o.append(f"* {e['what'].replace('fixed: property=', '')}")
    o.append("\n## 5. False alarms\n" + FALSE_ALARMS)
    o.append("## 6. Not claimed\n" + NOT_CLAIMED)
    o.append("## 7. Planted bugs\n\nEach is in `seeded/<id>` with a demonstration; written from the text of a property and the code. \"Caught\" means that the property's own check "
             "exits 1.\n")
    o.append("| id | property | needs | caught |\n|---|---|---|---|")
    for d in sorted(os.listdir(f"{ROOT}/seeded")) if os.path.isdir(f"{ROOT}/seeded") else []:
        m = json.load(open(f"{ROOT}/seeded/{d}/meta.json"))
        o.append(f"| {d} | {m['property']} | {m['needs']} | {CAUGHT.get(d, 'not yet run')} |")
    o.append("\n" + SEED_NOTES)
    open(f"{ROOT}/DESIGN.md", "w").write("\n".join(o) + "\n")


COST = json.load(open(f"{ROOT}/tools/cost.json")) if os.path.exists(f"{ROOT}/tools/cost.json") else {}
CAUGHT = json.load(open(f"{ROOT}/tools/caught.json")) if os.path.exists(f"{ROOT}/tools/caught.json") else {}
SEED_NOTES = """What the planted bugs taught: c13-team-size was missed at first (the scheduler only ran teams of two and four threads, the bug needed a
team size that does not divide the batch); C13 now enumerates all team sizes up to the bound and one more than the batch.
c05-lpv-fir-short-chunk needed chunks shorter than the filter together with a time-varying numerator, which was inside the bounds
from the start.
c15-kernel-cache (a module-level cache of the spline kernel keyed without the dtype) made C15's histories vary the dtype of a
call. c19-fir-zi-length showed that leaving size-1 axes out of C19 hid silent broadcasting; the \"ones\" tasks were added and found
two genuine defects (diag_state_space and comb_filter accepted a zi of the wrong length). c24-input-offset was missed: no function of C24 had a Jacobian that depends on the input; two were added. c25-pad-buffer was missed: the
buffer is used only under no_grad and only by the direct form, which C25 ran with gradients enabled and without a partner that has
other data; now every call runs under no_grad against the same call with other data. c22-scan-op changes a `.cuh` file, which
the final check does not count as source code; C22 catches it.
"""

if __name__ == "__main__":
    main()
