{
"id": "C07",
"title": "Cross-validation splits are disjoint, complete and free of leakage",
"statement": "For every collection and every split parameter: TSCKfoldSeries puts whole series and TSCKFoldTime whole blocks of time steps into either training or test, the folds are balanced, every sample is tested exactly once, training and test indices are disjoint, sorted and cover all samples. TSCWindowFoldTime places windows of exactly the given length from the end of each series backwards (last series first, offset between windows) entirely inside one series; training is everything else except runs shorter than the minimum length; windows without training data are skipped; get_n_splits equals the number of yielded splits. Applying a split gives training and test series that never span a removed window and never share an ID. Impossible requests (more folds than units, ragged data, overlapping series, windows longer than every series) are rejected.",
"quant": "all (n series 1-5, length 1-5(6), n_splits 2-6, shuffle seeds) and all length vectors of 1-3 series x window length 1-4(5) x offset 0-2(3) x minimum length",
"why_tests_cant": "Off-by-one errors and leakage appear for particular remainders of length by window, offsets and series lengths; tests have a few hand-made configurations.",
"files": ["datafold/pcfold/timeseries/metric.py", "datafold/pcfold/timeseries/accessor.py"],
"mech": [("TSCKfoldSeries.split, TSCKFoldTime.split", "metric.py"), ("TSCWindowFoldTime.split on reversed indices", "metric.py"), ("assign_ids_train_test", "accessor.py")],
"observe": ["split / get_n_splits of the three splitters", "TSCAccessor.assign_ids_train_test"],
"technique": "bounded exhaustive enumeration of lengths and split parameters on the real code against an explicit window/fold construction",
"level_note": "Complete for the stated lengths and parameters. For TSCWindowFoldTime the IDs are in temporal order, as its documentation requires.",
}