{
"id": "C21",
"title": "A fitted model depends only on its parameters and its last fit",
"statement": "For every estimator: fitting again is the same as fitting a new object with the same parameters, whatever was fitted, transformed, predicted or copied before; using a model does not change it; fit does not change constructor parameters or the data of the caller; a deepcopy, pickle or sklearn clone has the same parameters, and (copies of fitted models) the same results, and the copy and the original do not influence each other; models that were given the same parameter objects (kernels, data splits, transformers) do not influence each other; a clone and a new object cannot be used before fit. Kernels and TSCDataFrame survive copying, cloning and pickling with all their behaviour (also validation).",
"quant": "all estimators x all histories of up to 3 (4) fits, uses, copies, clones and parameter changes; all kernels x evaluation histories; all small collections",
"why_tests_cant": "The tests fit each object once and use it. History dependence (stale attributes, aliasing, mutated parameters) only shows after particular sequences of calls.",
"files": ["datafold/dynfold/transform.py", "datafold/dynfold/base.py", "datafold/dynfold/dmd.py", "datafold/dynfold/dmap.py", "datafold/appfold/edmd.py", "datafold/pcfold/kernels.py", "datafold/pcfold/timeseries/collection.py"],
"mech": [("TSCBase._setup_feature_attrs_fit", "dynfold/base.py"), ("fit of every estimator", "dynfold, appfold"), ("BaseManifoldKernel", "pcfold/kernels.py"), ("TSCDataFrame.__getstate__", "pcfold/timeseries/collection.py")],
"observe": ["transform, inverse_transform, predict, reconstruct, score, feature names, get_params after each history"],
"technique": "explicit-state exploration of all operation sequences up to a depth on the real objects; the model state is (parameters, last fitted data) and the oracle a freshly built object",
"level_note": "A pipeline (EDMD) fits the given step objects, as in scikit-learn: no independence is claimed for EDMD models sharing step objects. Kernels that store pairwise data reject a second pairwise evaluation by contract. OnlineDMD/StreamingDMD are restarted with fit.",
}
