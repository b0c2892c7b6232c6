"""texts for MANIFEST.json"""
TECH = {'*': 'value-graph dataflow summaries of each function compared with reference definitions by global value numbering and random interpretation; no code is executed'}
NOTE = {'*': 'Every observable (return value, caller-visible state, effect sequence, loop equations) with equal value numbers is equal for all inputs; one that only agrees under '
             'random interpretation is equal up to the probability of a collision. Observables that the analysis cannot relate are listed as not decided in the evidence and are not covered. '
             'Trusted: clang 18, the exporter, the models of the standard library, Eigen and Boost in sa/stdlib.py, and the reference definitions.'}
NA = {
 'P40': 'The set of matches is a quantity of the run: it quantifies over the words and their zones, and no invariant of the matching loop that a static analysis here could check implies completeness. The step-wise obligations are P01 to P09.',
 'P41': 'Language equality of an expression and the automaton built from it is a statement about infinite sets of timed words; only the per-operator constructions (P13, P14) are decidable from the source.',
 'P43': 'The number of buffered events and configurations depends on the event density of the input; no static bound exists in the code.',
 'P44': 'Rounding depends on the run-time values of the timestamps; a static error analysis gives no useful bound for unbounded inputs.',
}
