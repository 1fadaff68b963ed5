D = {
'C01': "Specified on `BasePulse.get_pulse`, `set_base_pulse` and the limiting steps, through the real constructors of the bases: whatever the update (an arbitrary array returned by an arbitrary basis), guess, scaling function and base pulse, each delivered sample lies in [min(l,u), max(l,u)]. The shrinking mode is proved on the limiting function for every input pulse (existence of extremes as lemmas) and composed by contract. Earlier evaluations and accepted updates come first (arbitrary prior state of the object).",
'C02': "Specified on `_limit_pulse`, `_shrink_pulse_2`: pointwise nearest-limit in clipping mode; in shrinking mode existence of one affine map with slope in [0,1] and the stated behaviour at the extremes, for every pulse length.",
'C03': "The delivered array is compared, sample by sample, with the documented composition evaluated on the delivered time grid; guess and scaling are opaque callables of one or two arguments, or arrays. Every configured chain up to three steps, with repeated and unknown names, is enumerated; the values are symbolic.",
'C04': "Each basis' `_get_shaped_pulse` on a symbolic number of bins, frequencies and super-parameters against the closed formula written down independently from the documentation (sums as `Sum` functionals). The counts of parameters, scales and offsets and the zero-update law are separate contracts.",
'C05': "`TimesParameter`-style clipping on `Parameter` and through `Controls`: delivered and remembered value = clamp of the proposal, after any earlier proposal.",
'C06': "Partition law over the real `Controls` with arbitrary sizes: blocks are contiguous, disjoint, cover the vector, in configuration order; assembled spreads and start values carry each control's own block; also after redraws that change sizes.",
'C07': "`Controls.get_controls_lists` and friends: pulse k depends only on the entries of its block (two-run argument with changed foreign entries is not needed: the value is *equal to* the control's own function of its own slice) and uses its own time.",
'C08': "Composition of the contracts of C01/C03 with the real update path `dCRABAlgorithm` → `Controls` → `BasePulse`: evaluate, update with the best vector, evaluate the start values: same controls.",
'C09': "`Uniform.get_random_numbers` for any k and range: draw j = lower + width·(j + u_j)/k with u_j the j-th fresh number of the configured generator; ascending and inside.",
'C10': "Two runs of the real construction with the same seed where the global generators are opaque, different streams: every number drawn must be a function of the seeded stream (opaque RNG streams identified by seed and position).",
'C11': "`gram_schmidt` by loop invariants over symbolic dimension (orthonormality of the finished columns; columns independent as precondition), and the simplex assembly against `x0 + diag(scale)·Q`.",
'C12': "`best_of_all_evaluations` runs an arbitrary number of evaluations (arbitrary counters, arbitrary record before), then a generic one, for every algorithm and whatever array object the search hands in (also one overwritten in place): record, flags, final report and returned controls belong to the running minimum with ties to the earlier.",
'C13': "A relational contract: two instances of the same algorithm, (f, max, goal g) and (−f, min, goal −g), driven by the same arbitrary search: identical values to the search, identical requests, negated reports. The user's dictionary is not modified.",
'C14': "Evaluation requests at an arbitrary point of the run under arbitrary clock, budget, goal, stop flags; obligations: no evaluation is made past a limit, the last permitted one is made, the search is told to end, and the reason names the limit.",
'C15': "A failing (status ≠ 0, value arbitrary or None) or suppressed evaluation at any point, including each position of re-evaluation and drift sequences.",
'C16': "Arbitrary thresholds, values and deviations: mean handed to the search, repetition rule, record rule; `_probabnormx1betterx2` equals the normal probability (normcdf opaque, with its symmetry lemma).",
'C17': "dCRAB's drift compensation between super-iterations and inside the search (Nelder–Mead and CMA-ES), with an arbitrary objective: number of measurements, mean adopted, vector unchanged.",
'C18': "Loop invariant of `NelderMead.run_dsm`: from an arbitrary simplex with arbitrary paired values one iteration evaluates exactly the documented points and re-establishes pairing and order; plus complete short runs, stop at any evaluation, default simplex.",
'C19': "`NelderMeadStoppingCriteria`, `CMAESStoppingCriteria`, `StoppingCriteria` with arbitrary settings, simplex, values and clock: fires iff; latched; reason belongs to a criterion that holds; the trend criterion against the least-squares slope.",
'C20': "Loop invariant of `CMAES.run_dsm` for one generation from an arbitrary mean, step size, covariance paths: first candidate, sampling, ranking permutation, weights, recombination, report. The eigen-decomposition-dependent part of the update (paths, covariance, step size) is compared with the published equations by sampled complete runs (bounded).",
'C21': "Propagators over an uninterpreted matrix ring: slice k = expm(−i·dt·(H0 + Σ a_jk H_j)); the product by stated invariant, for every number of slices; AD variants against the same specification.",
'C22': "Forward and backward propagation by loop invariants in the matrix ring for any number of slices, and the complete gradient for up to three slices, against the adjoint expression; the cost uses the same controls.",
'C23': "`BestDump` and the interface's `update_controls`, on an alphabet of colliding names; the dump is captured at the file layer (both formats); every value under its own key, nothing else overwritten, file belongs to the latest record.",
'C24': "`FilesUpdateFoM` against an arbitrary partner acting at arbitrary times (files appear, stay, contain anything); order of removal/publication/reading, status otherwise, waiting for any time limit by loop invariant.",
'C25': "The noise process: number of samples, recursion with one fresh increment per step, for any length and (any number of traces) ensembles.",
'C26': "`_get_wrapper` at an arbitrary call, independence of two wrappers, and both searches end to end.",
'C28': "`ADAlgorithm.run` around an arbitrary minimizer and a stand-in for `jax.grad` that records which function is differentiated where: function and cost agree for every vector, controls compared sample by sample.",
'C27': "`dynamic_import` over every registered name × kind, attribute and module/class forms, unusual requests, and every place of use.",
}
