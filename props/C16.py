{
"id": "C16",
"title": "Kernels are their formulas: dense = sparse, pairwise = component-wise",
"statement": "Every kernel evaluates its documented formula entry by entry: radial basis kernels as functions of the distance; the continuous nearest neighbour graph connects x and y iff d(x,y) < delta sqrt(d_k(x) d_k(y)); the diffusion map kernel divides by the alpha-th power of the densities, then by the row sums (or conjugates symmetrically, with the change of basis provided); the landmark kernel normalizes with landmark densities and D^-1/2; the cone kernel weights displacements by their angle to the dynamics. Sparse matrices hold exactly the entries within the cut-off with the values of the dense formula. Component-wise evaluation uses the densities/bandwidths of the reference evaluation, gives the same result however often and in whatever order it is repeated, and agrees with the pairwise evaluation on the reference samples. kernel(X, Y) equals evaluate(distance). Points, distance matrices, collections and option dictionaries of the caller are not modified.",
"quant": "all small grid clouds x query sets x kernels x parameters x dense/sparse backends x evaluation orders (~750k checked entries/evaluations)",
"why_tests_cant": "Tests compare kernels among each other on random data; combinations of sparse storage, component-wise reuse, alpha, coincident points and shared options are not sampled.",
"files": ["datafold/pcfold/kernels.py"],
"mech": [("GaussianKernel, MultiquadricKernel, InverseMultiquadricKernel, InverseQuadraticKernel, ThinplateKernel, CubicKernel, QuinticKernel", "kernels.py"), ("ContinuousNNKernel, DmapKernelFixed, RoselandKernel, ConeKernel", "kernels.py"), ("_symmetric_matrix_division, _stochastic_kernel_matrix, _conjugate_stochastic_kernel_matrix, _kth_nearest_neighbor_dist", "kernels.py")],
"observe": ["stored entries of kernel(X), kernel(X, Y), evaluate(D); basis_change_matrix_, row_sums_alpha_"],
"technique": "bounded exhaustive enumeration of point clouds, parameters, storage and evaluation orders on the real code against loop-written formulas",
"level_note": "MahalanobisKernel and DmapKernelVariable are marked experimental/undocumented in datafold and not covered. Pairs exactly on the threshold delta are skipped. A k-th neighbour distance of zero raises ZeroDivisionError (accepted).",
}
