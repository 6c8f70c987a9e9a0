#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the long strings stay readable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=hook)))


LTI_F, LTI_S, LTI_R = "philtorch/lti/filtering.py", "philtorch/lti/ssm.py", "philtorch/lti/recur.py"
LPV_F, LPV_S, LPV_R, LPV_U = ("philtorch/lpv/filtering.py", "philtorch/lpv/ssm.py", "philtorch/lpv/recur.py",
                              "philtorch/lpv/utils.py")
INIT = "philtorch/__init__.py"
CPP = ["philtorch/csrc/host_lti_recur.cpp", "philtorch/csrc/host_lti_recurN.cpp", "philtorch/csrc/host_recurN.cpp",
       "philtorch/csrc/host_recur2.cpp"]

prop("C01", "LTI lfilter and fir compute the filter's difference equation",
     """For all coefficients b, a, signals x and initial states zi, lti.lfilter returns y[n] = sum_k b[k] x[n-k] -
     sum_k a[k] y[n-k] in every form (df1, df2, tdf1, tdf2), for real and complex data, any pair of filter orders (not both
     zero), any signal length from one sample on, and coefficients that are shared by or private to the batch rows; lti.fir does
     the same without feedback, in its direct and transposed implementation. Where a zi is used (df2, tdf2, fir) the
     filter starts from exactly that delay-line content, and the returned zf is the delay-line content after the last
     sample.""",
     ["inputs", "configurations"],
     """every coefficient vector, input sequence and initial state, every form, order pair, length, batching of the
     coefficients and dtype class""",
     """The tests compare random filters of a few orders (mostly order >= 2, one length, real data) with SciPy within a
     tolerance; orders 0, numerators longer or shorter than the denominator in every form, signals shorter than the
     filter, complex coefficients and final states of short signals are not reached.""",
     [LTI_F, LTI_S, "philtorch/mat.py"],
     [("form -> state-space matrices", f"{LTI_F}:_ssm_lfilter"), ("companion matrix", "philtorch/mat.py:companion"),
      ("grouped (transposed) convolution", f"{LTI_F}:fir"), ("output equation", f"{LTI_S}:_ssm_C_D")],
     [("delay line", "zi / zf of the chosen form", f"{LTI_F}:lfilter")],
     ["lti.lfilter", "lti.fir"])

prop("C02", "LPV lfilter, fir and allpole run the named time-varying structure",
     """With coefficients that change at every sample, lpv.lfilter, lpv.fir and lpv.allpole return exactly what a
     sample-by-sample execution of the named structure (df1, df2, tdf1, tdf2; direct or transposed fir and allpole)
     produces when the coefficients of sample n are used at sample n, for coefficients with or without a batch
     dimension (also when batch size, length and order coincide). The backends agree with each other, a given zi is the
     delay-line content at the start, and the returned zf (df2, tdf2, fir, allpole) is the delay-line content at the
     end.""",
     ["inputs", "configurations"],
     """every sequence of coefficient vectors, every input and initial state, every form, backend, order pair, length
     and batching""",
     """For the time-varying forms the tests check constant coefficients against SciPy, or one form against another with
     random data of one size; structures differ only when coefficients change in time, and coincidences of batch size,
     length and order select other branches.""",
     [LPV_F, LPV_S, LPV_U],
     [("diagonal re-indexing of coefficients", f"{LPV_U}:diag_shift"), ("form -> matrices", f"{LPV_F}:_ssm_lfilter"),
      ("composition of allpole and fir", f"{LPV_F}:_torchlpc_lfilter")],
     [("delay line", "state of the executed structure", f"{LPV_F}")],
     ["lpv.lfilter", "lpv.fir", "lpv.allpole"])

prop("C03", "State-space outputs follow the state equations for every operand shape",
     """lti.state_space and lpv.state_space return y[n] = C[n] h[n] + D[n] x[n] with h[n+1] = A[n] h[n] + B[n] x[n] and
     h[0] = zi (zero if absent), and with zi also the state after the last sample; state_space_recursion returns
     h[1..N]. This holds for every accepted combination of operand shapes (matrices shared, per batch row, per time
     step or both; scalar or vector input and output; B, C or D absent; one selected state by out_idx), for state
     dimension 1, 2 and larger, and for floating point, complex and (matrix recursions) integer data.""",
     ["inputs", "configurations"],
     """every combination of operand layouts, dimension, batch size and length, every small integer matrix and input""",
     """There are some 9 x 9 x 14 layout combinations per function, selected by structural pattern matching whose cases
     overlap when dimensions coincide; the tests use a handful with dimensions chosen apart, and random data within a
     tolerance.""",
     [LTI_S, LPV_S, *CPP],
     [("layout dispatch of B, C, D", f"{LTI_S}:state_space,_ssm_C_D; {LPV_S}:state_space"),
      ("backend choice", f"{LTI_S}:extension_backend_indicator")],
     [("h", "state vector", f"{LTI_S}, {LPV_S}")],
     ["lti.state_space", "lti.state_space_recursion", "lpv.state_space", "lpv.state_space_recursion"])

prop("C04", "The block unroll factor never changes the result of a recurrence",
     """linear_recurrence, state_space_recursion, state_space and lfilter (lti and lpv) return the same values, final
     states and shapes for every unroll_factor >= 1 and for the default, whatever the length of the signal, its
     remainder modulo the block size, the nesting depth of the blocked recursion that results, the layout of A and x
     and the selected out_idx; an unroll_factor below 1 is rejected.""",
     ["inputs", "configurations"],
     """every pair (length, unroll factor) including factors larger than the length and factors that nest several
     levels deep, every layout of A and x, every out_idx""",
     """The blocked evaluation pads, re-indexes, factorises and recurses depending on (length, factor); the tests try a
     few factors at one or two lengths within a float tolerance.""",
     [LTI_S, LPV_S, LTI_R, LPV_R, "philtorch/mat.py"],
     [("blocked recursion", f"{LTI_S}:state_space_recursion, {LPV_S}:state_space_recursion, {LTI_R}, {LPV_R}"),
      ("matrix powers by factorisation", "philtorch/mat.py:matrix_power_accumulate, matrices_cumdot")],
     [("initials", "state at block boundaries", f"{LTI_S}:state_space_recursion")],
     ["unroll_factor"])

prop("C05", "Filtering in chunks equals filtering at once",
     """Cutting a signal into consecutive chunks of any sizes (down to one sample, shorter than the filter) and passing
     the final state returned for each chunk as the initial state of the next one gives the same concatenated output
     and the same last final state as one call on the whole signal. This holds for every function that takes zi and
     returns zf: lti.lfilter, lpv.lfilter, lti.fir, lpv.fir, lpv.allpole, lti/lpv.state_space and comb_filter.""",
     ["histories", "inputs"],
     """every way of cutting a signal into chunks (all compositions of the length), every function, form and backend""",
     """Tests call a function once or cut a signal once into halves; the chunk size relative to the order decides which
     parts of the old state survive in the new one.""",
     [LTI_F, LPV_F, LTI_S, LPV_S],
     [("zi -> zf", f"{LTI_F}:fir,lfilter,comb_filter; {LPV_F}:fir,allpole,lfilter; {LTI_S}:state_space")],
     [("(position, zf)", "all that a stream carries from call to call", "returned zf")],
     ["zf"])

prop("C06", "Reverse-mode gradients are the exact derivatives",
     """Backpropagating any output gradient through a recurrence, state-space model or filter (native operators and
     their autograd functions as well as lfilter, fir, allpole, state_space and comb_filter, and the further
     differentiable functions of the package) yields, for every subset
     of inputs that require gradients, exactly the derivative of the function that the forward pass computes with
     respect to coefficients or matrices, initial state and input (conjugated for complex data, as PyTorch defines it),
     with the shape of that input, for every state dimension, length from one sample on, and shared or batched
     coefficients.""",
     ["inputs", "configurations"],
     """every mask of inputs requiring grad, every small integer instance, output gradient basis vector, layout,
     dimension and length""",
     """gradcheck samples one random instance per configuration with finite differences; hand-written backward passes
     index shifted and flipped sequences whose boundaries (first or last sample, one sample, M = 1, shared matrices)
     are special.""",
     [LTI_S, LTI_R, LPV_S, INIT],
     [("hand-written backward", f"{LTI_S}:LTIMatrixRecurrence, {LTI_R}:LTIRecurrence, {LPV_S}:MatrixRecurrence, {INIT}")],
     [], [".grad", "torch.autograd.grad"])

prop("C07", "Forward-mode and second-order derivatives are exact",
     """Jacobian-vector products of the recurrences and filters (forward-mode autodiff) equal the directional
     derivative of the forward function for every subset of inputs that carry a tangent, and differentiating a gradient
     a second time (double backward) gives the exact second derivative, for shared and batched, time-invariant and
     time-varying coefficients.""",
     ["inputs", "configurations"],
     """every subset of inputs with tangents, tangent basis vectors, layouts, dimensions and lengths; every pair of
     input coordinates for second derivatives""",
     """The forward-mode formulas are separate hand-written code; gradcheck exercises them on one random instance per
     configuration within finite-difference tolerances, and always with all tangents of one kind.""",
     [LTI_S, LTI_R, LPV_S],
     [("jvp", f"{LTI_S}:LTIMatrixRecurrence.jvp, {LTI_R}:LTIRecurrence.jvp, {LPV_S}:MatrixRecurrence.jvp")],
     [], ["torch.autograd.forward_ad", "torch.autograd.grad(create_graph=True)"])

prop("C08", "The diagonalised state-space path equals the direct one",
     """For every filter or system whose poles are distinct, lti.diag_state_space and lfilter(backend="diag_ssm") give
     the output (and, where a zi is given, the final state) of lti.state_space and lfilter(backend="ssm") up to
     rounding: for real and complex systems and signals, for every accepted way of giving the decomposition
     (eigenvalues, eigenvectors and their inverse, or the matrix) and layout of B, C and D, and for numerators of any
     length including delayed_form.""",
     ["inputs", "configurations"],
     """every choice of distinct poles from a grid of well separated ones, every numerator length, layout, form and way
     of passing the decomposition""",
     """The tests run random systems of one size through one or two of the ways of giving the decomposition; complex
     signals, long numerators and the remaining layouts are not reached.""",
     [LTI_S, LTI_F, "philtorch/mat.py", "philtorch/poly.py"],
     [("change of basis", f"{LTI_S}:diag_state_space"), ("eigenvectors", "philtorch/mat.py:find_eigenvectors"),
      ("numerator split", "philtorch/poly.py:polydiv")], [], ["lti.diag_state_space", "lti.lfilter(backend='diag_ssm')"])

prop("C09", "lfilter_zi and lfiltic give states that continue a signal",
     """Started from lfilter_zi(a, b) scaled by a constant c, filtering the constant c gives from the first sample on
     the constant steady-state output and leaves the state as it was, in the form (tdf2 or df2) that was asked for.
     Started from lfiltic(b, a, y, x), tdf2 filtering continues exactly the output of a filter whose latest outputs and
     inputs were y and x, for any pair of filter orders and batched coefficients.""",
     ["inputs", "histories"],
     """every stable filter with small rational coefficients and every pair of orders for lfilter_zi; every past of
     small integer inputs and outputs for lfiltic""",
     """Tests compare with SciPy on random real filters of a few orders; the meaning of the state (does it continue the
     signal) is not tested, nor are order 0, complex or df2 cases.""",
     [LTI_F], [("steady state", f"{LTI_F}:lfilter_zi"), ("Hankel products", f"{LTI_F}:lfiltic")],
     [], ["lti.lfilter_zi", "lti.lfiltic"])

prop("C10", "filtfilt is forward-backward filtering with steady-state start",
     """lti.filtfilt equals: extend the signal at both ends by the pad length in the pad mode, filter it forward from the
     steady state scaled by the first sample, filter the reversed result again from the steady state scaled by its
     first sample, reverse, and cut off the extension; the forms df1 and tdf1, which take no state, start at rest. The
     output has the shape of the input for one signal or a batch, for shared or batched coefficients, every padlen
     below the length, every padmode and padmode None.""",
     ["inputs", "configurations"],
     """every form, filter of the alphabet, length, pad length, pad mode and batching""",
     """The tests compare the default form and pad length with SciPy on random filters.""",
     [LTI_F], [("padding and two passes", f"{LTI_F}:filtfilt")], [], ["lti.filtfilt"])

prop("C11", "comb_filter is the all-pole filter with one tap at the delay",
     """lti.comb_filter(a, d, x) returns y[n] = x[n] - a y[n-d] for every delay d >= 1, length (also shorter than the
     delay, and any remainder modulo it), scalar, shared or per-row coefficient and unroll factor. With zi, which lists
     the d latest outputs with the most recent first, it continues from them, and returns the d latest outputs in the
     same order as zf.""",
     ["inputs", "configurations"],
     """every delay, length, coefficient and zi layout, unroll factor, input sequence over a small alphabet""",
     """Tests use three delays, all shorter than the signal, one length and no zi for delay 1.""",
     [LTI_F, LTI_R], [("fold into delay many recurrences", f"{LTI_F}:comb_filter")],
     [("delay line", "the d latest outputs", f"{LTI_F}:comb_filter")], ["lti.comb_filter"])

prop("C12", "Cubic spline upsampling interpolates and is translation consistent",
     """For signals of L >= 2 samples, lti.cubic_spline(x, m) returns (L-1) m + 1 samples of the cubic B-spline expansion of the coefficients that
     cspline computes: every m-th sample equals the corresponding input sample, and refining by m contains refining by
     every divisor of m. The coefficients satisfy (c[n-1] + 4 c[n] + c[n+1]) / 6 = x[n] under the chosen mirror
     boundary, in the parallel as well as the cascaded form, and they depend linearly on x and row by row, up to the
     documented truncation of order |sqrt(3) - 2|^L.""",
     ["inputs", "configurations"],
     """every factor m up to a bound, every length, both boundary conventions and both filter structures, the basis of
     all inputs""",
     """Tests use two or three lengths and factors with random data.""",
     ["philtorch/lti/interp.py"], [("inverse filter and kernel", "philtorch/lti/interp.py")], [],
     ["lti.cubic_spline", "lti.interp.cspline"])

prop("C13", "Native kernels are race free under every thread schedule and team size",
     """Whatever the number of threads, the distribution of the loop over them and their interleaving, the compiled
     recurrence operators compute the same values: no two threads access the same memory location with one of them
     writing. Every access stays inside the tensors of the call, and the inputs are never written.""",
     ["schedules", "configurations", "inputs"],
     """every assignment of loop chunks to threads for teams of up to 4 threads and every order of the chunks, for every
     operator, layout, dimension and small batch size and length""",
     """The tests run one schedule that the machine happens to choose, mostly with batches that fit one thread; a race
     shows, if at all, as a rare wrong number.""",
     CPP, [("parallel loop over batch rows", "philtorch/csrc/host_*.cpp: omp parallel for"),
           ("row pointers", "philtorch/csrc/host_*.cpp")],
     [("H_out", "shared output buffer", "philtorch/csrc/host_*.cpp")],
     ["torch.ops.philtorch.*"])

prop("C14", "Compiled-graph metadata and results agree with eager execution",
     """For every native operator, the shape, dtype, strides and device that are predicted for a graph (fake tensors) are
     those of the real result for all input layouts, input shapes that execution rejects are also rejected at tracing
     time, and a traced function returns the same outputs and gradients as eager execution.""",
     ["inputs", "configurations"],
     """every operator, every tuple of small shapes (compatible or not), every memory layout of the operands, every
     dtype; every mask of inputs requiring grad for traced graphs""",
     """The tests trace one contiguous instance per operator.""",
     [INIT, *CPP], [("fake kernels and registered autograd", INIT)], [],
     ["FakeTensorMode", "torch.compile(backend='aot_eager')"])

prop("C15", "All functions are pure: no hidden state, inputs are left alone",
     """No call modifies any tensor that is passed to it or keeps a reference through which later modification of a
     result or input changes another result, and the result of a call depends on its arguments alone: not on which
     calls were made before with which shapes, dtypes or devices, on the autograd mode, or on the number of threads.
    (Where the result is the operand itself, as for an interpolation factor, power or number of operands of one, it may
    be handed back as it is.)""",
     ["histories", "configurations"],
     """all sequences of up to three calls over the public functions, with arguments left unmodified or overwritten
     between calls""",
     """Each test makes one kind of call in a fixed order; caches and in-place updates of views only show in particular
     sequences.""",
     [LTI_F, LTI_S, LPV_F, LPV_S, "philtorch/mat.py", "philtorch/poly.py", INIT],
     [("pure functional implementation", "README.md, all modules")], [], ["all public functions"])

prop("C16", "Batch rows are independent and memory layout does not matter",
     """Every batched function computes each batch row as if it had been called on that row alone: results do not depend
     on the other rows, on the batch size or on the order of rows, and shared coefficients mean the same as repeated
     ones. Results do not depend on how operands are laid out in memory: transposed, strided, expanded, sliced, lazily
     conjugated or negated views give what their contiguous copies give.""",
     ["inputs", "configurations"],
     """every function, batch size, row permutation and memory layout of every operand""",
     """Tests pass contiguous tensors with one batch size; layouts whose sizes coincide (batch = length = order) select
     other branches.""",
     [LTI_F, LTI_S, LTI_R, LPV_F, LPV_S, LPV_R, *CPP],
     [("contiguous() before raw pointers", "philtorch/csrc/*.cpp"), ("layout dispatch", f"{LTI_S}, {LPV_S}")],
     [], ["all batched functions"])

prop("C17", "Matrix and polynomial helpers satisfy their algebraic definitions",
     """matrix_power_accumulate(A, n) is [A, ..., A^n] (identity for 0, powers of the inverse for negative n),
     matrices_cumdot is the list of prefix products in order, companion and vandermonde have the stated polynomial
     meaning, find_eigenvectors returns unit eigenvectors, polydiv returns u = q v + r with deg r < deg v, diag_shift
     moves coefficient k of time n to time n + k, and chain_functions composes left to right; all of them for every
     size, batch shape and exponent.""",
     ["inputs", "configurations"],
     """every exponent or number of matrices up to a bound (all factorisation patterns), every small integer matrix,
     pair of polynomial degrees and batch shape""",
     """Only reached through the filters with a few sizes; the recursion of the accumulators follows the prime
     factorisation of the size, so that each size runs different code paths.""",
     ["philtorch/mat.py", "philtorch/poly.py", LPV_U, "philtorch/utils.py"],
     [("factorised accumulation", "philtorch/mat.py:_mat_pwr_accum_runner,_mat_cumdot_runner")], [],
     ["mat.*", "poly.polydiv", "lpv.utils.diag_shift", "utils.chain_functions"])

prop("C18", "Without the compiled extension every function gives the same result",
     """When the compiled extension cannot be loaded, the package still imports (with a warning), and every public
     function gives the same values, final states, shapes, dtypes and derivatives as with the
    extension.""",
     ["configurations", "inputs"],
     """both configurations, every public function, form, backend, layout and unroll factor of the alphabet""",
     """The tests run with the extension loaded only.""",
     [INIT, LTI_F, LTI_S, LTI_R, "philtorch/lti/interp.py", LPV_S],
     [("backend choice", f"{INIT}:EXTENSION_LOADED")], [], ["EXTENSION_LOADED = False"])

prop("C19", "Operands of incompatible sizes are rejected, never read out of bounds",
     """A call whose operands have incompatible numbers of dimensions or sizes raises an error, before anything is read
     or written outside the operands and without a result being returned; a call with compatible sizes is accepted.
     This holds for the native operators and for the public recurrence, state-space and filter functions alike, and the
     process never crashes.""",
     ["inputs"],
     """every tuple of operand shapes with sizes from a small set, compatible or not""",
     """No test passes incompatible operands to the native operators, which compute with raw pointers.""",
     [*CPP, LTI_S, LPV_S, LTI_R, LPV_R, LTI_F, LPV_F],
     [("TORCH_CHECK", "philtorch/csrc/*.cpp"), ("assertions", f"{LTI_S}, {LPV_S}, {LTI_F}, {LPV_F}")], [],
     ["exceptions"])

prop("C20", "Every supported dtype is preserved and computed exactly",
     """Recurrences, state-space models and filters return the dtype of their operands (half, bfloat16, float, double,
     complex float, complex double, and 64-bit integer for matrix recursions), and small integers, which all of these
     represent exactly, give the same numbers in each of them.""",
     ["inputs", "configurations"],
     """every dtype, function, form, layout, dimension and unroll factor of the alphabet""",
     """The tests use double, and complex double for gradients.""",
     [*CPP, LTI_F, LTI_S, LPV_F, LPV_S], [("dtype dispatch", "philtorch/csrc/*.cpp: AT_DISPATCH"),
                                        ("new_zeros / eye dtypes", f"{LTI_S}, {LPV_S}")], [],
     ["dtype and values of results"])

prop("C21", "The Helion kernels compute the same recurrences and gradients",
     """The Helion operators for time-invariant and time-varying matrix recurrences, with a shared or a batched matrix,
     return the states of h[n] = A[n] h[n-1] + x[n] from h[-1] = zi, leave their inputs alone, and backpropagate the
     exact gradients for every subset of inputs requiring them.""",
     ["inputs", "configurations"],
     """every small integer instance, batch size, dimension, length, layout and mask of inputs requiring grad""",
     """The tests of these operators are skipped without a GPU.""",
     ["philtorch/_helion.py", INIT], [("tiled loops", "philtorch/_helion.py"), ("registered autograd", INIT)], [],
     ["philtorch.hl_lti_recurN", "philtorch.hl_recurN"])

prop("C22", "The CUDA scan formulation computes the recurrence for every scan tree",
     """The combining operators, input transforms and keys that the CUDA operators hand to a parallel scan by key give
     the recurrence of each batch row from its initial state in whatever way a parallel scan brackets the combination
     and wherever it cuts the sequence into segments: the operator is associative, rows never leak into each other, and
     the first element of a row injects its initial state.""",
     ["schedules", "inputs"],
     """every bracketing (scan tree) of up to 6 elements, every batch size and length up to a bound, shared and batched
     coefficients, every small integer instance""",
     """There is no GPU where the tests run: all tests of these kernels are skipped, and a sequential run would see one
     bracketing only.""",
     ["philtorch/csrc/lti_recur.cu", "philtorch/csrc/lti_recur2.cu", "philtorch/csrc/recur2.cu",
      "philtorch/csrc/recur2.cuh"],
     [("scan functors", "philtorch/csrc/*.cu, recur2.cuh")], [], ["functors compiled for the host"])

prop("C23", "Prototype polynomial and partial-fraction helpers satisfy their algebra",
     """In philtorch.prototype.poly, evaluation is a ring homomorphism: polyval of polyadd, polysub, polymul and polysmul
     (of any number of polynomials) is the sum, difference and product of the values, with the shape of the points also for
     constants; polyder is the derivative of any order, polydiv satisfies u = q v + r with deg r < deg v, leading zeros of the
     operands change nothing, and roots returns every root with its multiplicity. In prototype.signal, the terms that
     residue and residuez return add up to the quotient of the polynomials, for distinct and for repeated poles and any degree of the
     numerator.""",
     ["inputs"],
     """every pair of small integer polynomials up to a degree bound, every set of up to 4 poles of a grid with multiplicities up to 3""",
     """No test imports these helpers.""",
     ["philtorch/prototype/poly.py", "philtorch/prototype/signal.py"],
     [("polynomial arithmetic", "philtorch/prototype/poly.py"), ("partial fractions", "philtorch/prototype/signal.py:residue,residuez")], [],
     ["prototype.poly.*", "prototype.signal.residue", "prototype.signal.residuez"])

prop("C24", "newton_solve computes the recursion it parallelises",
     """prototype.nl.newton_solve(f, x, y0, init) solves y[n] = f(y[n-1], x[n]) from y[-1] = init: after k iterations the first k
     samples are those of the sequential recursion, whatever the start y0, and all of them are when f is affine in y or y0 is the
     solution; it stops early only when the recursion holds up to the tolerances, and returns the number of iterations it did.
     This holds with the given Jacobian as well as with the one from automatic differentiation, for every batch size, state
     dimension and unroll factor.""",
     ["inputs", "configurations"],
     """every input sequence and initial state over a small alphabet, affine, piecewise affine, quadratic and coupled f, starts, iteration
     counts, Jacobian sources, unroll factors and batch sizes""",
     """The one test compares one random piecewise affine recursion, and does not pass with the installed torch.""",
     ["philtorch/prototype/nl.py", LPV_S], [("Newton iteration over the whole sequence", "philtorch/prototype/nl.py:newton_solve")],
     [("estimate", "initial state, settled prefix and guess of the rest", "philtorch/prototype/nl.py:newton_solve")],
     ["prototype.nl.newton_solve"])

prop("C25", "Calls from several Python threads do not disturb each other",
     """When several Python threads call the filters, recursions, interpolators, pole finders and gradient routines at the same
     time, on objects of their own or on tensors and filter objects they share (as inputs that none of them changes), each call
     returns what it returns when it runs alone, and its inputs and torch's process-wide settings are as they were at every moment
     another thread may look at them, wherever the interpreter switches from one thread to another.""",
     ["schedules", "inputs", "configurations"],
     """every pair of public calls on own and on shared objects, and every switch between the two threads at a line of philtorch's
     Python code, up to the bound on the number of switches""",
     """The tests call everything from one thread. A buffer kept in a module, a cache whose key misses something, or an operand
     that is changed in place and restored gives right results there, and wrong ones only for one schedule of two threads.""",
     [INIT, LTI_F, LTI_S, LPV_F, LPV_S, "philtorch/poly.py", "philtorch/mat.py"],
     [("helpers shared by all calls", "philtorch/mat.py:companion"), ("operator registration and dispatch", INIT)],
     [("module state", "whatever the modules keep between calls", INIT)],
     ["every public function"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
