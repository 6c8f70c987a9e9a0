#!/usr/bin/env python3
"""Writes known_findings.json: the open finding(s) and the record of repaired defects."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "5158150..HEAD"], capture_output=True, text=True).stdout
PROPS = {  # subject -> (properties, what failed)
    "reject A whose time": ("C19", "recurN, recur2, lti_recurN and lti_recur2 on the CPU read outside of A (N = 1 row of A for N = 3 samples, or fewer batch rows than x) instead of rejecting it"),
    "comb_filter without": ("C18", "comb_filter never used the extension's fallback correctly: the test of EXTENSION_LOADED was inverted"),
    "comb_filter returns": ("C11", "comb_filter(a, 1, x, zi) returned y only, without zf"),
    "comb_filter final": ("C11", "comb_filter with zi and fewer samples than the delay returned a wrong zf, e.g. delay 3, one sample"),
    "comb_filter accepts": ("C11", "comb_filter with a of shape (1,) and a batch of 2 raised"),
    "lti.fir with": ("C01", "lti.fir with order 0, or fewer samples than the order, and zi raised or returned a wrong zf"),
    "lfiltic for": ("C09", "lfiltic with len(b) = 1 or len(a) = 0 raised"),
    "lfilter_zi(transpose=False)": ("C09", "lfilter_zi(a, b, transpose=False) with len(b) > len(a) + 1 returned a state of the wrong length"),
    "filtfilt with": ("C10", "filtfilt(form='df1') and (form='tdf1') raised"),
    "lfilter(backend=": ("C08", "lfilter(backend='diag_ssm') with a numerator longer than len(a) + 1 that is shared by a batch of 2 raised"),
    "delayed_form": ("C08", "lfilter(backend='diag_ssm', delayed_form=True) returned more samples than the input had, if that was shorter than the delay"),
    "diag_state_space": ("C08", "diag_state_space with complex x, zi, A or B and a real C returned the real part only"),
    "matrices_cumdot": ("C17", "matrices_cumdot of 4, 6, 8, ... matrices multiplied in the wrong order (seen as wrong lpv results with unroll_factor=5, C02 and C04)"),
    "state_space and diag_state_space with B": ("C03", "lti.state_space and diag_state_space rejected B (M, F) with a 3D input if batch size, M and F are equal"),
    "state_space with D": ("C03", "lti/lpv.state_space rejected D of shape (1,) with a 3D input if the batch size (or, lpv, the length) is 1"),
    "lpv.state_space with B": ("C03", "lpv.state_space rejected B (B, M, F) with a 3D input if length, M and F are equal"),
    "polydiv": ("C17", "polydiv(u, v) with deg u < deg v raised instead of returning an empty quotient and u"),
    "cubic_spline for": ("C12", "cubic_spline(x, m) for m = 49 and others, where 1 / m is rounded down, raised or returned shifted samples"),
    "lpv.state_space takes": ("C03", "lpv.state_space took C (B, N, M) for (N, P, M) if B == N; the same for D (B, N)"),
    "lpv.fir(": ("C02", "lpv.fir(transpose=True) with zi and fewer samples than the order raised"),
    "lpv.allpole": ("C02", "lpv.allpole with fewer samples than the order: transpose=True raised, the direct form returned a short zf"),
    "diag_shift": ("C17", "diag_shift(discard_end=True) with one column returned an empty tensor"),
    "fake kernels": ("C14", "the fake kernels predicted the strides of a non-contiguous x, where the kernels return contiguous results"),
    "complex coefficients": ("C01", "the transposed forms conjugated complex coefficients (also in lpv, C02, and lfilter_zi, C09)"),
    "lpv.lfilter(form=": ("C02", "lpv.lfilter(form='tdf1', backend='ssm') applied the feedback coefficients of time n + 1 to y[n]"),
    "find_eigenvectors for": ("C08", "lfilter(backend='diag_ssm', form='df2') for a filter with a pole at zero, diag_state_space with a diagonal or lower triangular A: the solver reported a singular matrix (or NaN); the same in find_eigenvectors (C17)"),
    "cubic_spline of two": ("C12", "cubic_spline of two samples with scipy_padding=False raised (reflect padding by more than the length)"),
    "vandermonde for": ("C17", "vandermonde of poles with batch dimensions raised"),
    "prototype polyval": ("C23", "prototype polyval of a constant polynomial ignored the shape of the points; residue and residuez with a constant numerator returned (n, 1) residues"),
    "CPU recurrence kernels on tensors": ("C13", "the CPU recurrence operators crashed on tensors of more than 2^31 elements (32-bit offsets), e.g. lti_recur on half (3, 2^30)"),
    "comb_filter with delay 1": ("C15", "comb_filter(a, 1, x, zi) returned a zf that is a view of y: overwriting y changed the state for the next chunk"),
    "newton_solve differentiates": ("C15", "newton_solve without fprime used a zero Jacobian under torch.inference_mode, and returned a less converged result without a warning"),
    "prototype roots": ("C23", "prototype roots of a polynomial with a single non-zero coefficient raised IndexError"),
    "the CPU recurrence operators reject": ("C19", "recur2, recurN, lti_recur2 and lti_recurN on the CPU accepted x of four or more dimensions, e.g. A (1,1,1), zi (1,1,1), x (1,1,1,1)"),
    "the fake kernels reject": ("C14", "the fake kernels predicted a result for x or zi of the wrong rank, e.g. lti_recur with x (3,) or (2, 3, 4), where execution raises"),
    "the Helion operators": ("C19", "hl_lti_recurN and hl_recurN accepted operands of incompatible shapes, e.g. A (2, 3) or A with fewer time steps than x, and returned garbage"),
    "lpv.linear_recurrence rejects": ("C19", "lpv.linear_recurrence with a (B, N') and x (B, N), N' != N, returned min(N, N') samples"),
    "lfilter rejects": ("C19", "lti/lpv.lfilter(form='df2') with b (B', K) and x (B, N), B' != B, returned (B, N, B') as if b had B' outputs"),
    "state spaces reject": ("C19", "state_space and diag_state_space with a scalar feedthrough and a vector output added them by broadcasting if batch size, length and number of outputs were equal, e.g. A (2, 2), x (2, 2), D ()"),
    "filtfilt rejects": ("C19", "filtfilt of x (2, 3, 9) returned the shape (6, 9)"),
    "lfilter_zi with more": ("C09", "lfilter_zi with b (2, 2, 3) and a (2, 2) solved for a matrix instead of a batch of vectors; other sizes raised"),
    "polydiv can be": ("C06", "the gradient of polydiv(u, v), and so of lfilter(backend='diag_ssm') with len(b) > len(a) + 1, raised if both polynomials require it"),
    "prototype polydiv can": ("C06", "the gradient of prototype polydiv(u, v) raised if both polynomials require it"),
    "diag_state_space rejects an initial": ("C19", "diag_state_space accepted a zi of length 1 for any number of states, and a zi of any length for one state, e.g. lfilter(b (1,), a (1, 1), x (1, 1), zi (2,), form='tdf2', backend='diag_ssm')"),
    "comb_filter rejects initial": ("C19", "comb_filter(a, 2, x (1, N), zi (1,)) used the single value for both positions of the delay line"),
    "double backward": ("C07", "differentiating the gradient of lti_recur / LTIRecurrence for a signal of one sample again raised IndexError"),
}
out = [dict(property="C08", key="diag_ssm-long-numerator-drops-zi", status="open",
            what="lti.lfilter(backend='diag_ssm') with len(b) > len(a) + 1 ignores zi: it starts at rest and returns y without zf",
            call="lfilter(b=[1,2,3,1], a=[0.5], x, zi=[1.], backend='diag_ssm')",
            why_not_repaired="the state of the split-off FIR part has no place in the zi of length len(a) that the docstring of "
                             "lfilter defines for this backend; a repair would have to redefine zi"),
       dict(property="C08", key="diag_ssm-long-numerator-pole-at-zero", status="open",
            what="lti.lfilter(backend='diag_ssm') with len(b) > len(a) + 1 and a[-1] == 0 returns NaN unless delayed_form=True",
            call="lfilter(b=[-1,3,-1], a=[0.], x, backend='diag_ssm')",
            why_not_repaired="the split of the numerator divides by a[-1]; a filter of lower order than len(a) has no such split, and "
                             "falling back to the delayed form would make the program depend on values (no graph capture, no batch)")]
for l in log.splitlines():
    h, s = l.split(" ", 1)
    for k, (p, what) in sorted(PROPS.items(), key=lambda z: -len(z[0])):
        if s.startswith("fix: " + k) :
            out.append(dict(property=p, key=f"fixed-{h}", status="fixed", commit=h, what=f"fixed: property={p} {h} {what}"))
            break
    else:
        raise SystemExit("no entry for " + l)
json.dump(dict(findings=out), open(f"{V}/known_findings.json", "w"), indent=1)
print(len(out))
