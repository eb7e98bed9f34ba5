{
"id": "C19",
"title": "Harmonics and Laplacian pyramids interpolate by their documented recursion",
"statement": "GeometricHarmonicsInterpolator expands the targets in the leading eigenvectors of the diffusion kernel and evaluates them with the Nystroem extension: on the training points a symmetric kernel gives the orthogonal projection of the targets; predictions have shape (n, targets) or (n,), also for one sample; score is the negative root mean squared error with the given weights and aggregation. LaplacianPyramidsInterpolator adds kernel smoothings of the residual with scale divided by mu per level until, for each target on its own, the residual is below the tolerance or the leave-one-out residual stops decreasing; fitting several targets together equals fitting each alone; the fit terminates for every point set. Models sharing a kernel object do not influence each other; a refit equals a fresh fit; data of the caller are not modified.",
"quant": "all small clouds x kernels x numbers of eigenpairs x targets; pyramids over stopping rules x scales x all pairs of targets; orders of fit/predict on two models",
"why_tests_cant": "The reliable tests do not run these models; the others check accuracy on two smooth functions. Stopping rules per target, duplicates, single samples and shared kernels are not sampled.",
"files": ["datafold/dynfold/outofsample.py"],
"mech": [("GeometricHarmonicsInterpolator.fit/predict/score", "dynfold/outofsample.py"), ("LaplacianPyramidsInterpolator._laplacian_pyramid/_termination_rules_single/predict", "dynfold/outofsample.py")],
"observe": ["predict, score", "eigenvalues_, eigenvectors_, kernel_matrix_, level bookkeeping"],
"technique": "bounded exhaustive enumeration of point sets, stopping rules and call orders on the real code against a loop-written recursion and dense linear algebra",
"level_note": "The gradient of the harmonics is documented as buggy upstream and not covered. Stopping decisions that are ties up to 1e-7 are skipped. With alpha > 0 queries whose kernel weights underflow are rejected by datafold and skipped.",
}
