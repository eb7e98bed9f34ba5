{
"id": "C01",
"title": "A TSCDataFrame is always a valid collection with the values pandas would hold",
"statement": "A TSCDataFrame exists only in valid states: a two-level (ID, time) row index with unique, contiguous, non-negative integer IDs, finite non-negative (or datetime) time values strictly increasing within each series, unique single-type column labels and numeric data. Construction and assignment (of rows, columns, index, data) accept a value exactly if it leads to such a state and otherwise raise and leave the object unchanged. After every sequence of pandas operations (selection, slicing, arithmetic, reindexing, concat, drop, insert, set_index, copy, pickle, ...) the result holds exactly the values, labels and row order that the same operation has on a plain DataFrame; it is a TSCDataFrame if that is legal and degrades to a plain frame (or is rejected) otherwise, and basic queries (ids, number of series, lengths, time values) on it describe the rows actually held, not rows of an earlier state.",
"over": ["inputs", "histories"],
"quant": "all index words up to length 4 (5) over a small alphabet of IDs and times in every dtype, special values in every position, all column label pairs, and all histories of up to 2 (3) of ~45 pandas operations from the initial collections",
"why_tests_cant": "The class overrides pandas' constructors and attribute setting, so validity must survive any composition of pandas operations; tests try a few single operations. Stale index levels only show after particular sequences.",
"files": ["datafold/pcfold/timeseries/collection.py"],
"state": [("row index and its levels", "the IDs and time values, including unused levels left by selections", "TSCDataFrame.index")],
"mech": [("_validate_index / _validate_columns / _validate_data", "collection.py TSCDataFrame._validate"), ("constructor and setattr hooks", "collection.py TSCDataFrame.__init__, __setattr__, _constructor"), ("loc/iloc indexers", "collection.py _LocTSCIndexer, _iLocTSCIndexer")],
"observe": ["TSCDataFrame constructor, attribute assignment, pandas methods"],
"technique": "exhaustive enumeration of index words and breadth-first search over operation histories on the real class, compared with plain pandas and an independent validity predicate",
"level_note": "Bounded: index words up to length 4/5, histories up to depth 2/3. Plain pandas is the trusted oracle for values.",
}