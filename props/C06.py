{
"id": "C06",
"title": "Every validation flag accepts a collection exactly if its predicate holds",
"statement": "check_tsc (and the single check functions) accept a time series collection exactly if every requested predicate holds - all values finite, minimum samples/features, equal lengths, constant or required sampling step, identical or normalised time values, number of series, exact/minimum number of time steps, no degenerate series, dtype of the time values, required IDs (as set or in order), non-overlapping series, equal sampling of two collections - and raise TSCException otherwise, for any IDs, lengths and numeric or datetime time axes and any combination of flags. Accepted collections are returned unchanged.",
"quant": "all collections of the catalogue (1-2, thorough 3 series of length up to 3), each flag with every argument in range, pairs (thorough triples) of flags; all ID subsets and permutations; all pairs of collections for the equality of sampling steps",
"why_tests_cant": "These predicates guard every model; a flag that passes for one unusual combination (datetime, ragged, unsorted IDs) lets invalid data into a fit, and tests check one accepting and one rejecting example per flag.",
"files": ["datafold/pcfold/timeseries/accessor.py"],
"mech": [("check_tsc and check_* functions", "accessor.py TSCAccessor"), ("check_equal_delta_time", "accessor.py TSCAccessor.check_equal_delta_time")],
"observe": ["TSCAccessor.check_tsc and check_* functions"],
"technique": "bounded exhaustive enumeration of collections and flag combinations on the real code against independent predicates",
"level_note": "Bounded catalogue of collections; predicates are recomputed from the plain list of series.",
}