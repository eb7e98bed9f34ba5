{
"id": "C02",
"title": "Building a collection and taking it apart loses and mixes up nothing",
"statement": "Creating a collection from a tensor, a list of frames, a single frame/Series/array, a shift matrix or a CSV file, and inserting series into it one by one, gives every sample its own ID, time value and feature: for any IDs (default, permuted, with holes), any order of the given time values, any feature names and any time dtype, the resulting rows are exactly the given (ID, time, values) triples. Taking the collection apart again (per-series iteration, tensor-shaped values, CSV, to_numpy) returns what was put in, the inputs are not modified, and contradictory inputs (duplicate IDs, mismatching names or lengths, existing ID on insertion) are rejected without changing the collection.",
"over": ["inputs", "histories"],
"quant": "all tensors up to 3x3x2 (3x4x3) with every permutation of time values, all frame lists up to 3 elements over 4 element kinds, all CSV round trips of small collections, all insertion histories up to length 3 (4)",
"why_tests_cant": "Mix-ups appear only for permuted times, unsorted IDs, repeated objects in a list or particular insertion orders; tests check one instance of each builder.",
"files": ["datafold/pcfold/timeseries/collection.py"],
"mech": [("from_tensor / from_frame_list / from_single_timeseries / from_array / from_csv", "collection.py TSCDataFrame"), ("insert_ts", "collection.py TSCDataFrame.insert_ts")],
"observe": ["TSCDataFrame class methods, insert_ts, itertimeseries, to_csv"],
"technique": "bounded exhaustive enumeration of builder inputs and insertion histories on the real code against a list-of-triples model",
"level_note": "Bounded shapes; file round trips use a scratch directory.",
}