CX = 'value-flow normal form of the native sources (clang typed syntax tree), memory as a log of stores, compared with a reference definition'
TECH.update({
 'C01': 'guard analysis of the exported native functions (clang typed syntax tree): path conditions under which an array is read',
 'C02': 'bounds analysis: every access of the native sources (clang typed syntax tree) as an inequality between polynomials over loop indices, floors, minima and sums, proved by goal-directed elimination (no solver)',
 'C03': 'relational comparison of two summarised loop nests (sizing and filling) in the native sources',
 'C04': 'path-condition analysis: refusal condition of every entry point compared with the documented domain',
 'C05': 'interprocedural effect and alias analysis', 'C06': 'element type inference and abstract state after each operation (typestate)',
 'C07': 'relational comparison of value-flow normal forms', 'C14': 'stage-call sequence with guards (typestate) and refusal conditions',
 'C15': 'inductive invariant of the summarised selection loop', 'C16': 'effect analysis over the call graph of the worker; normal form of the pool use',
 'C17': 'static evaluation of the validation schema into a table, compared with its consumers', 'C18': 'parameter influence analysis and option tables',
 'C19': 'guarded effect summaries and exception-flow analysis', 'C20': 'composition of encoder and decoder normal forms (writer/reader agreement)',
 'C23': 'static evaluation of the metadata schema into a table', 'C24': 'rounding-effect analysis on the typed native sources and element type inference in Python',
 'C25': CX, 'C27': 'definite-assignment analysis over a run', 'C28': 'exception-flow census over the call graph',
 'C31': CX, 'C33': CX, 'C34': CX,
})
NOTES = {
 'C02': 'Real arithmetic is exact in the model: an index computed through floating point (transform, downsample, ceilshift) is bounded as if it were not rounded. size_t does not wrap around (a negative unsigned difference shows as a negative length or index, not as a huge one). Views of a class of std::vector are its elements. An inequality that is neither proved nor refuted by a small counterexample is undecided. Contracts of recursive functions (transform, nth_element) are what callers are held to.',
 'C01': 'Assumes numpy sets the flags word of an array as documented. A guard that looks at strides instead of flags is undecided.',
 'C03': 'The number of trials is compared symbolically in real arithmetic, and once more with double rounding kept; casts of huge values are not considered.',
 'C20': 'Decides that every field is written and read back through inverse operations; equality of the values themselves is C82, not claimed.',
 'C24': 'Decides where single precision enters, not how large the resulting error is.',
 'C28': 'Exceptions raised by the interpreter itself at arbitrary points (KeyboardInterrupt, MemoryError) are not followed.',
 'C31': 'The selection of rank h in a copy of the ring is taken as given (C80).',
}
NA = {
 'C80': 'the exactness of quickselect over a ring buffer with overwritten pivots is a functional correctness property of an imperative in-place algorithm (sortedness/permutation invariants over array contents); no dataflow, typestate or normal-form argument in reach decides it, and a solver or a runtime test is a different family',
 'C81': 'a detection guarantee over noise realisations: statistical, not decidable from the source',
 'C82': 'equality of values after a decimal (JSON/CSV) round trip depends on run-time values (NaN, infinities, mixed columns) and on the encoders of json, pandas and astropy, which are outside the analysed sources; the field-level agreement is claimed separately as C20',
 'C83': 'minimality and coverage of the greedy DM selection is an optimisation argument over arbitrary sequences of run-time values; the part decidable from source (distinct trials in range, each handed out once) is claimed as C15',
 'C84': 'the property does not hold by design (files are written in place) and its negation is not a defect the project promises against; crash points are not observable in the source beyond "no rename is used"',
 'C85': 'a statement about the probability distribution of outputs; only the formula of the noise level can be read from the source, which is claimed as C25',
}
