{
"id": "C23",
"title": "Point cloud container, parameter estimation and matrix helpers",
"statement": "PCManifold: the distance matrix uses exactly the distance settings given by the user, the kernel matrix is the kernel on the points; slices, copies, pickles and views keep points, kernel and settings, and changing the settings of one object changes no other object. pcm_subsample returns distinct valid samples that represent every sample within the distance when the whole point cloud is processed and adds no sample that is already represented; pcm_remove_outlier removes exactly the points with too few points in range. estimate_cutoff is the largest k-th nearest neighbour distance (of the subsample to the whole point cloud), estimate_scale and optimize_parameters meet the tolerance at the cut-off. Matrix helpers (diagonal products, symmetry, stochasticity, projection, sorting, subsampling) are the same for dense and sparse matrices and equal their definition.",
"quant": "all operation sequences up to 3 on point clouds; all small 1D point clouds x settings; all spacing patterns of 10 points; all 2x2 and 2x3 matrices over {0,1,2}",
"why_tests_cant": "The tests optimise parameters of a few random point clouds; the settings, slices, subsampling and outlier removal are not tested at all, boundary distances and duplicates need enumeration.",
"files": ["datafold/pcfold/pointcloud.py", "datafold/pcfold/estimators.py", "datafold/utils/general.py"],
"mech": [("PCManifold.__new__, __array_finalize__, __reduce__", "pcfold/pointcloud.py"), ("pcm_subsample, pcm_remove_outlier", "pcfold/pointcloud.py"), ("estimate_cutoff, estimate_scale", "pcfold/estimators.py"), ("mat_dot_diagmat, sort_eigenpairs, random_subsample", "utils/general.py")],
"observe": ["compute_distance_matrix, compute_kernel_matrix, cut_off, pickle", "return values of the functions"],
"technique": "exhaustive enumeration of operation histories (PCManifold) and of all small inputs executed on the real code against a loop oracle",
"level_note": "A point counts itself as a point in range in pcm_remove_outlier (as in the distance algorithms). pcm_subsample needs at least two samples in the first block, estimate_cutoff at least two samples in the subsample.",
}
