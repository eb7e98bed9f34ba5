{
"id": "C24",
"title": "Incremental EDMD: partial_fit, slices of the pipeline, fit_predict",
"statement": "For every way to cut a stream into batches, EDMD.partial_fit equals lifting every batch with the dictionary (original states attached or preserved exactly as fit does) and updating the DMD model with the lifted batches: after every call the feature names, eigenvalues, Koopman modes, forecasts (linear map, pipeline inverse, stepwise, sorted triplets) belong to the current model; before the DMD model is ready a prediction is refused. A model is used either with fit or with partial_fit; data with other features, order or sampling rate, control input and y are refused and a refused call changes nothing. partial_fit of a transformer is its fit on the first batch (IncrementalPCA: statistics of all batches). Slices of the EDMD pipeline are the fitted transformers and never contain the DMD model; fit_predict is fit followed by reconstruct.",
"over": ["inputs", "histories"],
"quant": "all compositions of a four-series stream and cuts inside a series x dictionaries x DMD models x settings; all call histories up to depth 3; all slices",
"why_tests_cant": "Two tests call partial_fit on one dictionary that keeps the original states; other dictionaries, warm-up, misuse and histories are never run.",
"files": ["datafold/appfold/edmd.py", "datafold/dynfold/transform.py", "datafold/dynfold/base.py", "datafold/dynfold/compose.py", "datafold/dynfold/dmd.py"],
"state": [("is_partial_fit_, dict_preserves_id_state_, n_samples_ic_, dt_", "set by the first batch", "EDMD.partial_fit"), ("_inverse_map, _koopman_modes", "recomputed per batch", "EDMD.partial_fit")],
"mech": [("EDMD.partial_fit/_partial_fit/_attach_id_state", "appfold/edmd.py"), ("EDMD.__getitem__, fit_predict", "appfold/edmd.py"), ("partial_fit of the transformers", "dynfold/transform.py"), ("TSCTransformerMixin.partial_fit_transform, TSCPredictMixin.fit_predict", "dynfold/base.py")],
"observe": ["transform, koopman_eigenvalues, koopman_modes, predict, reconstruct after every call", "raised exceptions"],
"technique": "exhaustive enumeration of partial_fit histories and misuse sequences on the real code, monitored after every call against a hand-lifted reference with a separate DMD model",
"level_note": "The recursion of the DMD models themselves is judged by C12; defective or strongly unstable intermediate operators are compared by eigenvalues and modes only. The first chunk of StreamingDMD has two or more than three samples, as documented.",
}
