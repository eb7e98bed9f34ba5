{
"id": "C05",
"title": "Operations on the time axis and IDs change exactly what they promise",
"statement": "For every collection (IDs in any order, ragged or equal lengths, any time axis): shifting, normalising, dropping last samples, expanding or filling the time values, renumbering IDs, splitting into train/test/dropped samples, splitting irregular series at sampling changes, iterating over time windows, finite-difference time derivatives and augmenting with control input relabel or select exactly the rows their definition names, keep each value with its own series and time, never create a series that spans a gap or mixes two original series, are exact for polynomials (derivatives), attach control u_k to the following sample of the same series, reject illegal requests (negative times, missing shifts, too few samples, windows of non-positive size, overlapping splits), and leave their operands unchanged unless documented as in place.",
"over": ["inputs", "histories"],
"quant": "all collections of the catalogue up to 3 series of length 3 (4); all train/test/dropped labellings of up to 6 (8) samples; all gap words over {1,2,5} up to 5 (6) steps; all window sizes 1-4 x offsets 1-3; all finite difference scheme/order/accuracy/shift combinations",
"why_tests_cant": "The operations index by position, by ID and by time in different places; mistakes appear only for particular ID orders, ragged lengths, gap patterns or float noise in the time values.",
"files": ["datafold/pcfold/timeseries/accessor.py"],
"mech": [("shift_time_by_delta / shift_time_per_time_series / normalize_time", "accessor.py TSCAccessor"), ("assign_ids_train_test / assign_ids_const_delta / assign_ids_sequential", "accessor.py TSCAccessor"), ("iter_timevalue_window, time_derivative, augment_control_input, expand_time_values, fill_timeseries_with_last_state", "accessor.py TSCAccessor")],
"observe": ["TSCAccessor methods"],
"technique": "bounded exhaustive enumeration of collections, labellings and gap words on the real code against a list-of-series model",
"level_note": "Bounded catalogue; derivatives are checked for exactness on polynomials of the maximal degree.",
}