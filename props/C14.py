{
"id": "C14",
"title": "Initial conditions are exactly the requested samples, validated and grouped",
"statement": "InitialCondition.from_array labels each row with the given (or consecutive) ID, the given time value and the feature names; from_array_control gives row k the time k*dt (or the k-th given time value) for every length and sampling rate; from_tsc returns the first n_samples_ic samples of every series, and rejects collections whose series are shorter, start at different times or are irregularly sampled there. iter_reconstruct_ic partitions the collection into groups with identical time values: every series occurs in exactly one group, with its own first samples and the time values from the last of these samples on. validate / validate_control accept exactly the collections satisfying the stated predicates (finite, same times, same length, n_samples_ic, dt; same IDs in the same order, control starting at the last state). Nothing modifies its arguments.",
"quant": "all collections of up to 3 series x length <= 3 (4) x ID order x axis x irregularity x n_samples_ic; 15 sampling rates x every length up to 40 (200); all pairs of (state, control) ID orders, end and start times",
"why_tests_cant": "Tests build one or two initial conditions on integer time; floating point sampling rates, unsorted IDs and shifted or irregular series need the product space.",
"files": ["datafold/pcfold/timeseries/collection.py", "datafold/pcfold/timeseries/accessor.py"],
"mech": [("InitialCondition.from_array/from_array_control/from_tsc/iter_reconstruct_ic/validate/validate_control", "collection.py"), ("TSCAccessor.check_tsc/time_values_overview", "accessor.py")],
"observe": ["returned collections (rows, labels, values), group iterator and raised exceptions"],
"technique": "bounded exhaustive enumeration of collections and requests on the real code against list-of-rows models",
"level_note": "Complete over the stated alphabet. Collections whose later samples are irregular may be accepted or rejected by from_tsc, but never answered with other samples.",
}
