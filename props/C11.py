{
"id": "C11",
"title": "DMD variants fit the least-squares operator of the snapshot pairs",
"statement": "For every time series collection (any number, order and IDs of series, ragged lengths, different starts, integer/float/datetime axes) a fitted DMD model represents exactly the (minimum-norm, optionally weighted) least squares solution over the consecutive snapshot pairs inside the series: DMDStandard in matrix, spectral, diagonalized, generator and reduced rank form, DMDControl for [A B], gDMDFull and gDMDAffine for the finite difference derivatives, PyDMDWrapper for single series, PretrainedDMD evolves the given matrix. If the data come from a linear system with full rank snapshots the system is recovered, predictions are its powers, and reconstruct reproduces the data with identical labels; sample order, IDs and series layout do not influence the operator. The residual filter, the pseudospectrum and the spectral measure are those of the operator: the filter keeps exactly the components selected by its criterion; data and parameters are not modified; unsuitable data, names, ranks and misaligned control inputs are rejected, never silently mixed up.",
"over": ["inputs"],
"quant": "all 256 2x2 system matrices over {-1,0,1/2,2} and 8 special ones x 5 collection layouts x 4 time axes x model variants; every threshold between consecutive residuals",
"why_tests_cant": "Tests fit two or three well-behaved systems on sorted IDs with equal lengths; singular, defective and rank deficient operators, unsorted IDs and ragged collections only show up over the whole input family.",
"files": ["datafold/dynfold/dmd.py", "datafold/dynfold/base.py"],
"mech": [("DMDStandard._compute_full_system_matrix/_compute_reduced_system_matrix/_remove_spectral_pollution", "dmd.py"), ("gDMDFull, DMDControl, gDMDAffine fit", "dmd.py"), ("DMDBase.predict/reconstruct/_evolve_dmd_system", "dmd.py")],
"observe": ["sys_matrix_, control_matrix_, eigenvalues_, eigenvectors_*_, residuals_", "predict / reconstruct / score"],
"technique": "bounded exhaustive enumeration of systems, layouts and model variants on the real code against a hand-listed snapshot pair least squares oracle",
"level_note": "Complete over the stated alphabet. Numerically ambiguous cases (relative singular value below 1e-3, eigenvector condition above 1e5) are skipped. The residual formula of the filter uses right eigenvectors; that it is not the Koopman eigenfunction residual is a recorded known finding.",
}
