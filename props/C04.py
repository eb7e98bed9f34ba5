{
"id": "C04",
"title": "Snapshot pairs are the consecutive samples of each series and nothing else",
"statement": "For every collection, the shift matrices consist of exactly the pairs (sample k, sample k+1) of every series, in row order, never pairing samples of different series and never losing a pair - for equal and ragged lengths, IDs in any order, one or several series, both orientations, with and without validation. They are copies (changing them does not change the collection), collections with a single-sample series or without a common constant step are rejected when validation is on, and building a collection from shift matrices gives one two-sample series per pair whose shift matrices are the same again.",
"quant": "all collections with 1-4 series and all length vectors in 1..4 (thorough 1..5), all ID orders and time axes in the catalogue, both orientations",
"why_tests_cant": "Every DMD/EDMD model is trained on these pairs; three code paths (one series, equal length, ragged) must agree for every length vector and ID order, tests sample four.",
"files": ["datafold/pcfold/timeseries/accessor.py", "datafold/pcfold/timeseries/collection.py"],
"mech": [("shift_matrices fast and slow paths", "accessor.py TSCAccessor.shift_matrices"), ("from_shift_matrices", "collection.py TSCDataFrame.from_shift_matrices")],
"observe": ["TSCAccessor.shift_matrices", "TSCDataFrame.from_shift_matrices"],
"technique": "bounded exhaustive enumeration of collection shapes on the real code against a double loop over series and rows",
"level_note": "Bounded number and length of series; every shape in the bound is executed.",
}