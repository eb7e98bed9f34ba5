{
"id": "C15",
"title": "EDMD = lift, least squares advance, map back - in every configuration",
"statement": "For every dictionary, EDMD.transform is the composition of the fitted steps (plus the original states exactly if they are not preserved); predict lifts each initial condition, advances it with the least squares matrix of the lifted snapshot pairs (plus control) and maps back - by projection on the original features, by the least squares map, by the pipeline's inverse, stepwise or through (sorted) Koopman triplets - with equal results whatever internal mode (matrix, spectral) is used. Quantities of interest select and order the output columns without changing values. reconstruct predicts every series of a collection from its own first n_samples_ic samples, labelled as in the collection and in its order; score is the metric between the two. Windowed models reconstruct every window of the given size and offset of every series. Koopman modes, eigenvalues and eigenfunctions reproduce the lifted prediction. EDMDCV reports, for every candidate and split, the scores of a model fitted on the training part alone, and refits the best candidate. No input is modified.",
"quant": "226 configurations (dictionary x include_id_state x dict_preserves_id_state x mode x inverse x stepwise/sorted) x training layouts x time axes x initial condition sets x all ordered qois; all window sizes/offsets; controlled and stepwise; EDMDCV folds x grids",
"why_tests_cant": "Tests fix one configuration each; defects sit in the combination of inverse map, qois order, unsorted or shifted series, control and stepwise prediction.",
"files": ["datafold/appfold/edmd.py", "datafold/utils/general.py", "datafold/dynfold/dynsystem.py", "datafold/dynfold/dmd.py", "datafold/pcfold/timeseries/collection.py"],
"mech": [("EDMD.fit/predict/reconstruct/transform/inverse_transform/score, _predict_dict_ic, _predict_stepwise_transform, _reconstruct, _compute_inverse_map, _compute_koopman_modes, _sort_koopman_triplets", "edmd.py"), ("EDMDWindowPrediction, EDMDCV, _fit_and_score_edmd", "edmd.py"), ("projection_matrix_from_feature_names", "general.py")],
"observe": ["transform/predict/reconstruct/score/koopman_* results, cv_results_ and best_* attributes"],
"technique": "bounded exhaustive enumeration of configurations, layouts and requests on the real code against a reference EDMD built from independent steps and hand-listed snapshot pairs",
"level_note": "quick visits every configuration with a rotating (layout, axis); thorough takes the full product. Dictionary steps are those checked in C09. State transition maps (y) are not covered.",
}
