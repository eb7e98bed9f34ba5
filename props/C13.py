{
"id": "C13",
"title": "Predictions carry the requested times and IDs; what does not fit is rejected",
"statement": "A fitted DMD or EDMD model predicts, for every initial condition and every admissible list of time values, exactly one sample per requested time value (plus the initial one), labelled with the ID of its initial condition and the user's time values (no drift or extra/missing time by floating point noise), and every value equals the evolution from the initial condition's own time. Control input is paired with the initial condition of the same ID and the time step it belongs to; the number of predicted states follows from it. Reconstruction returns the samples of the given collection in its order. The inputs are never modified. Everything that does not fit the model - past, unsorted, duplicated, non-finite time values, other feature names or order, wrong number of samples, control input missing, superfluous, for other IDs, other times, another sampling rate or another length - raises an error instead of a wrong prediction. The attributes describing the data (features, control features, sampling rate) are those of the last fit.",
"quant": "all words of requested time steps up to length 3 (4) x 5 time axes x 9 model forms; all (control IDs, start, length, spacing, time values) combinations; 9 float step sizes x 14 starts x horizons 1-7; catalogues of inadmissible fits and predictions",
"why_tests_cant": "Tests predict from time zero with regular, well-formed requests on integer axes; floating point grids, late starts, permuted control series and inconsistent requests form a product space a few samples cannot cover.",
"files": ["datafold/dynfold/base.py", "datafold/dynfold/dmd.py", "datafold/appfold/edmd.py"],
"mech": [("TSCPredictMixin._validate_and_set_time_values_predict/_validate_time_values_format/_validate_feature_names/_validate_and_setup_fit_attrs", "base.py"), ("DMDBase.predict/reconstruct", "dmd.py"), ("EDMD.predict/_reconstruct", "edmd.py")],
"observe": ["predict / reconstruct / fit_predict / score results and raised exceptions", "dt_, n_features_in_, feature_names_in_, n_control_in_, control_names_in_"],
"technique": "bounded exhaustive enumeration of time value words, control layouts and float grids on the real code against a hand-labelled recursion",
"level_note": "Complete over the stated alphabet. Control input whose IDs are merely permuted may be rejected or answered correctly. Float grids are compared up to 1e-12.",
}
