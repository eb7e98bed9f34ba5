{
"id": "C08",
"title": "Metrics and scores equal their definition for every mode, scaling and weighting",
"statement": "For every pair of collections with identical index and columns, TSCMetric returns per time series, per time step or per feature exactly the defined error (mse, rmse, rrmse, mae, mape, medae, max, l2, linf), computed on exactly the samples of that series/time step/feature after scaling both collections with factors of the true data only (none, min-max, standard, division of each feature by its norm), with uniform, raw or user-weighted averaging over features and with sample weights, labelled with the right series ID/time value/feature. TSCScoring is the (weighted) mean with the sign such that larger is better. Data with differing index or columns, non-finite values or wrong weights are rejected; operands are not modified.",
"quant": "collections with 1-3 series of length 1-3, 1-2(3) features, IDs in any order, equal or different time values; 9 metrics x 3 modes x 4 scalings x averaging x weights x error patterns",
"why_tests_cant": "The product of metric, mode, scaling, averaging and weighting with the shape of the collection is large; tests compare only mse in a few settings.",
"files": ["datafold/pcfold/timeseries/metric.py"],
"mech": [("_metric_per_timeseries / _metric_per_timestep / _metric_per_feature", "metric.py TSCMetric"), ("_scaling", "metric.py TSCMetric._scaling"), ("TSCScoring.__call__", "metric.py TSCScoring")],
"observe": ["TSCMetric.__call__", "TSCScoring.__call__"],
"technique": "bounded exhaustive enumeration of metric configurations and collections on the real code against plain numpy definitions",
"level_note": "Bounded collections; max is only defined for a single feature (documented).",
}