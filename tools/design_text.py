HEAD = """
# Verification of mssm by property-based testing

mssm estimates additive mixed models (GAMM), multi-parameter models (GAMMLSS), general smooth models (GSMM) and hidden
(semi-)Markov models. Its guarantees are numerical identities: the matrix that is built is the one the formula means, the
coefficients maximise the penalised likelihood, the degrees of freedom are the trace they are said to be, the decoded path is
the most probable one. All of them are quantified over data sets, formulas, options and histories, and all of them have an
independent, slow, dense or exhaustive definition. That makes generated-input search against an explicit oracle the natural
deciding step for every property; none is listed as not applicable.

## How a check works

`python3 vp/run.py Cxx quick|thorough` is the only entry point.

1. **Build.** The C++ extensions are compiled from /repo's working tree into a scratch directory (ccache when available; the
   build is skipped only when `VERIF_PREBUILT` points to a directory built by hand, which no registered command does). The Python
   sources are imported from /repo/src, so a change of either language is seen.
2. **Generate.** Each property module (`vp/props/Cxx.py`) lists sub-checks `Sub(name, strategy, check, quick, thorough)`. A
   strategy is a Hypothesis strategy for a JSON-serialisable *case* (formula description, sizes, options, seed of the data).
   Shards run in parallel worker processes with seeds derived from `VERIF_SEED`; cases are de-duplicated by their JSON.
3. **Decide.** The check builds data and model from the case, runs the code under test and compares it with the oracle. It
   returns tags and whether the case was non-trivial by the module's stated rule, raises `Skip` when the case is outside the
   stated bounds, and `Violation` otherwise. An exception of the code under test on a valid input, and a case that does
   not finish within 240 s, are violations.
4. **Shrink and replay.** Hypothesis shrinks a failing case; the smallest one is written to `evidence/replay/` and named in the
   `VIOLATION property=... replay=...` line. `run.py Cxx --replay FILE` runs that case again.
5. **Evidence.** `evidence/Cxx.json` holds the number of generated, evaluated, skipped (with reasons) and distinct non-trivial
   cases, tag counts and samples, per sub-check.

Shared machinery: `vp/fgen.py` (formulas: every term type, by-factors, tensor terms, factor smooths, random terms, impulse
responses, missing values, codebooks, odd indices), `vp/mfit.py` (GAMM cases and a dense reference of every fitted quantity),
`vp/mls.py` (GAMMLSS/GSMM cases with independent likelihood, gradient and Hessian), `vp/hgen.py` (HSMM cases with enumeration of
all segmentations and an independent dynamic programme), `vp/util.py` (comparisons, Richardson finite differences).

**Soundness.** Oracles are written from the definitions and never call the function they judge. Tolerances follow from conditioning (cases with
a condition number at which the comparison says nothing are skipped and counted), from Richardson error estimates, or, for
random draws, from bounds with false-alarm probability below 1e-9 per test with a fixed seed, so that a run is reproducible.
Checks judge returned values and fitted state, never source text, private helpers' call order or intermediate storage formats
beyond what the docstrings promise. Helper functions are called directly only where they are documented API of a module.

**Known findings** are functions that replay one recorded input; the generators stay away from that input class, so other
violations of the same property are still reported. A known finding that no longer fails is simply not printed.

**Levels.** All checks are explorations (randomised search); the enumeration oracles of C16/C17 are exhaustive per case.
"""

WHY = {}
NOTES = {
 "C03": "GAUMLSS and GAMMALS document expected second derivatives; these are compared with numerical expectations.",
 "C06": "Nested-term detection is judged through the column space that remains: exactly where the rank is numerically clear, and by bounds (no more columns than the spaces of the terms span, no fewer than the directions well above the code's tolerance) where a tensor basis itself is ill-conditioned.",
 "C07": "f with m=1 and a null-space penalty has an all-zero second penalty; this is accepted.",
 "C09": "Both sides of every solver (Python wrapper and C++ extension) are exercised through the wrapper.",
 "C10": "For non-Gaussian families the iteration may stop before the generalised least squares solution; the comparison is made only when the Newton step that remains is small.",
 "C11": "Fits that ran into the iteration limit are excluded; scaled-t fits are limited to 40 iterations.",
 "C12": "Re-parameterised factor smooths with penalties of order two or more (and re-parameterised smooths with null-space penalties) have one penalty per null-space direction, chosen by an eigen-decomposition that depends on the order of rows; the row-order route is not judged for them.",
 "C13": "Wrapped exponential families use a numerical Hessian: at most 14 columns and 30 iterations. The criterion for smoothing parameters is judged only if the Hessian was not perturbed and nothing was dropped.",
 "C16": "Durations are 1..D-1 samples and their probabilities are normalised over that range (the code's convention). HMP models with shared formulas are generated with identical signals (known finding). Models in which an emission or duration density falls below the smallest double are skipped: the recursions work on the probability scale.",
 "C17": "Gaussian durations of 50 and more samples underflow in the linear-scale sampler; gamma durations are generated there. Long series (up to 120 samples, 25 durations) are decided by an independent segment-wise recursion: maximum for Viterbi, exact marginals of state and (last state, excess) for the posterior draws.",
 "C18": "Forward residuals are compared where no prefix mass is lost (ends_with_last=False and not at the last sample of ends_in_last series); exponential HMP residuals and AR simulation are not compared.",
 "C19": "Identically zero variables are excluded.",
 "C20": "Structured storage with zero memory is not judged.",
 "C21": "REML is skipped when smoothing parameters of one term differ by more than 1e6, the rank of a penalty is unclear, or the penalised Hessian is numerically singular. The Hessian of a GAMMLSS is that of the iterate before the last step: tolerance 1e-4.",
 "C23": "Residual degrees of freedom are truncated to integers in the mixture of the F-type test (accepted); tied eigenvalues are skipped because the choice of the fractional direction is then arbitrary.",
 "C24": "Distributional claims are tested with long chains of small models and bounds far outside Monte Carlo error; unpenalised smooths get no vague prior by design and are not generated with make_proper; M_adapt=0 is not generated.",
 "C25": "Every evaluation of the predictor starts processes, so models with estimated smoothing parameters use at most two files and one core.",
 "C26": "Fits are limited to 8 outer iterations: the comparison is between identical computations, so convergence is not needed.",
}
TAIL = """
## Limits

- The deciding step is search: absence of a violation is evidence over the generated cases, not proof.
- Timing, memory use and the progress output are not judged.
- The plotting functions live outside the package and are not covered.
- Warnings are not judged except where a warning replaced an exception.
- Parallel options (`n_cores`, file processes) are compared for equality of results; races inside BLAS are out of scope.
"""
CAUGHT = {}
