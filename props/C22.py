{
"id": "C22",
"title": "Jointly smooth functions and parsimonious selection meet their definitions",
"statement": "JointlySmoothFunctions: the computed functions are orthonormal and maximise the sum of the squared projections on the leading kernel eigenspaces of all data splits, in descending order, with one eigenvalue and one name per function (also when fewer functions exist than requested); transform is the averaged Nystroem extension for every sample independently; container types, index and columns are kept; the score and the threshold follow their formulas. LocalRegressionSelection: the residuals are those of the documented weighted local linear regressions, the selected eigenvectors are the ones with the largest residuals (or above the threshold), never the constant one, and transform returns exactly these columns, for every container type and with subsampling.",
"quant": "all sample subsets and orders of a small data set x split layouts x numbers of eigenvectors and functions x containers x kernels; all short sequences of eigenvector columns x selection settings",
"why_tests_cant": "The tests check eigenvalues of one random data set with more eigenvectors than functions, and the selection on one swiss roll; boundaries (as many functions as eigenvectors, DataFrame input, three splits) are not sampled. The tests of the selection are not part of the runnable baseline.",
"files": ["datafold/dynfold/jsf.py", "datafold/dynfold/dmap.py", "datafold/pcfold/eigsolver.py"],
"mech": [("JointlySmoothFunctions._compute_jointly_smooth_vectors", "dynfold/jsf.py"), ("JointlySmoothFunctions._nystrom", "dynfold/jsf.py"), ("LocalRegressionSelection", "dynfold/dmap.py"), ("compute_kernel_svd", "pcfold/eigsolver.py")],
"observe": ["fit_transform, transform, eigenvalues_, score_, compute_E0, get_feature_names_out", "residuals_, evec_indices_, transform"],
"technique": "exhaustive enumeration of all small inputs and settings executed on the real code against a first-principles oracle",
"level_note": "Inputs for which the result is not numerically determined (no spectral gap at the truncation, kernel eigenvalues below 1e-4) are skipped, decided from the oracle spectrum. compute_E0 needs at least three singular values.",
}
