{
"id": "C03",
"title": "Queries on a time series collection equal their definition per series",
"statement": "For every valid time series collection (any number of series, lengths, IDs in any order, integer, float or datetime time values, regular or irregular sampling), every query - number and lengths of series, sampling step per series or common, equality/normalisation/constancy of time values, time interval, grid of constantly sampled times, degenerate or non-finite data, first/last states, iteration, selection by time value, feature matrix, overview table - returns exactly what its definition gives on the plain list of series, attributed to the right series ID. Queries whose precondition fails (e.g. a constant sampling grid without a constant step, n initial states of a shorter series) are rejected, and no query changes the collection.",
"quantifier": {"over": ["inputs"], "text": "all collections up to 3 (thorough 4) series of length up to 3 (thorough 4), all ID orders in the catalogue, all time-axis kinds, all query arguments in range"},
"why_tests_cant": "Tests sample a few hand-made collections, almost all with sorted consecutive IDs and equal lengths; the fast paths (equal length) and slow paths (ragged) and the ID order are a product space no test enumerates.",
"anchors": {"files": ["datafold/pcfold/timeseries/collection.py", "datafold/pcfold/timeseries/accessor.py"],
  "state": [{"name": "row index", "meaning": "(ID, time) of every sample; IDs need not be sorted", "where": "TSCDataFrame.index"}],
  "mechanism": [{"name": "delta_time fast/slow path", "where": "collection.py TSCDataFrame.delta_time"}, {"name": "n_timesteps", "where": "collection.py TSCDataFrame.n_timesteps"}, {"name": "is_same_time_values by index levels", "where": "collection.py"}, {"name": "initial_states/final_states groupby head/tail", "where": "collection.py"}, {"name": "time_values_overview", "where": "accessor.py"}],
  "observe_at": ["TSCDataFrame properties and methods", "TSCAccessor.time_values_overview"], "hook_needed": None},
"technique": "bounded exhaustive enumeration of collection shapes on the real code against a list-of-series reference model",
"level_note": "Every collection in the stated finite catalogue is built and every query compared with the model; nothing is said about longer series or other dtypes.",
}
