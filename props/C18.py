{
"id": "C18",
"title": "Diffusion coordinates are the spectrum of the kernel, extended to new points",
"statement": "DiffusionMaps.fit returns the leading n_eigenpairs of the row-normalized diffusion matrix of the data (for every alpha, stochastic or not, symmetrized or not, dense or sparse kernel, symmetric or k-nearest-neighbour distance): real, in decreasing order, vectors of norm one, residual of the eigen equation zero; the symmetrized and the plain route and the stored kernel matrix describe the same operator. transform is the Nystroem extension K(Y,X) Psi / lambda times lambda^t, equals fit_transform on the training data, honours target coordinates and a diffusion time changed after the fit, keeps type, index and columns; inverse_transform is the least squares pre-image of the current embedding. Roseland returns the singular triplets of the normalized landmark matrix with the same extension rules. Whatever the history of fits, target coordinates and diffusion times, the model answers like a fresh one in the current state. Kernel and landmark parameters of the user are not modified.",
"quant": "all small clouds x kernel settings x numbers of eigenpairs x target coordinate sets x diffusion times; all histories of up to 4 operations",
"why_tests_cant": "The reliable tests do not run diffusion maps at all; the other ones compare with one legacy implementation on two data sets and never vary target coordinates with diffusion time, sparse full spectra or refits.",
"files": ["datafold/dynfold/dmap.py", "datafold/pcfold/eigsolver.py"],
"mech": [("DiffusionMaps.fit/transform/fit_transform/inverse_transform/set_target_coords", "dynfold/dmap.py"), ("Roseland.fit/transform/fit_transform", "dynfold/dmap.py"), ("scipy_eigsolver, compute_kernel_eigenpairs, compute_kernel_svd, sort_eigenpairs", "pcfold/eigsolver.py")],
"observe": ["eigenvalues_, eigenvectors_, kernel_matrix_, svdvalues_ ...", "transform, inverse_transform, get_feature_names_out"],
"technique": "bounded exhaustive enumeration of point clouds, settings and operation histories on the real code against loop-written kernel matrices and residual checks",
"level_note": "Eigenvalues below 1e-6 are excluded from the out-of-sample comparison (division by them). For non-symmetric matrices n_eigenpairs = n-1 (limit of the Arnoldi solver) and repeated eigenvalues are excluded. Leading is accepted by value or by magnitude. DiffusionMapsVariable is marked experimental and not covered.",
}
