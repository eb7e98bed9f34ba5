{
"id": "C09",
"title": "Transformers: right values, labels, series isolation, inverse and purity",
"statement": "For every collection, transform yields exactly the defined feature values (scaling, selection, identity/constant, principal components, radial basis coefficients, polynomials, functions, random Fourier features, Takens delays with lag/frequency/exponential weight, moving average, finite differences, column transformers, pipelines), computed from the statistics of the fit data only and from each series alone (a series transformed alone gives the same rows as inside a collection, no sample mixes two series). Rows keep their ID, time and order; exactly the samples without full history are dropped; columns equal get_feature_names_out, n_features_out_ the width. fit_transform equals fit followed by transform; inverse_transform undoes invertible transforms, with the original feature names. Plain arrays and DataFrames are returned in their own type. The input is never modified; other features, non-finite values, too short series or other sampling times are rejected.",
"over": ["inputs", "histories"],
"quant": "all collections of 1-3 series of length 1-3 (1-2 series up to 6 for delays) with consecutive/unsorted/holed IDs and different time axes and feature name orders x all listed transformer configurations x training data, single series and other data",
"why_tests_cant": "Leakage between series, wrong delay order or label/value mismatch depend on series lengths, ID order and parameter combination; tests use one or two collections per transformer.",
"files": ["datafold/dynfold/transform.py", "datafold/dynfold/compose.py", "datafold/dynfold/base.py"],
"mech": [("transform/fit_transform/inverse_transform of each TSC transformer", "transform.py"), ("_setup_feature_attrs_fit, _validate_feature_input, _same_type_X", "base.py TSCTransformerMixin"), ("TSCColumnTransformer._hstack", "compose.py")],
"observe": ["fit, transform, fit_transform, partial_fit, inverse_transform, get_feature_names_out of the transformers"],
"technique": "bounded exhaustive enumeration of collections and configurations on the real code against formulas on a list-of-series model",
"level_note": "Bounded collections. Principal components are compared up to one sign per component and only when the singular values are separated. Finite differences may sort the series by ID.",
}
