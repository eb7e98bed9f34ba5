{
"id": "C17",
"title": "Distance backends agree: exact values at exactly the pairs in the cut-off",
"statement": "Every distance backend (brute force, kd-tree, ball tree, guessed) returns, for the pairwise and the component-wise case, the distances of the metric at exactly the pairs whose distance does not exceed the cut-off (Euclidean also under sqeuclidean); coincident points and the diagonal are stored as explicit zeros; pairwise matrices are symmetric; without (or with infinite) cut-off the matrix is dense. With kmin every row stores at least its kmin nearest samples and only rows that fell short gain entries. k-nearest-neighbour matrices store for every row the k nearest samples. The result depends on the arguments only, not on what the same object or class evaluated before, and no input is modified.",
"quant": "all clouds of 2-4 samples on {0,1,2} and 2-3 on {0,1}x{0,1,3} x query sets x 5 backends x 2 metrics x 7 cut-offs x 4 kmin (~2.6M checked entries); all histories of 3 evaluations of one object",
"why_tests_cant": "Tests use random clouds, where coincident points and pairs exactly at the cut-off never occur, and fresh objects for every evaluation.",
"files": ["datafold/pcfold/distance.py"],
"mech": [("DistanceAlgorithm._dense2csr_matrix/_ensure_kmin_nearest_neighbor/_set_zeros_diagonal_sparse", "distance.py"), ("BruteForceDist, ScipyKdTreeDist, SklearnBalltreeDist, SklearnKNN, GuessOptimalDist", "distance.py"), ("init_distance_algorithm, compute_distance_matrix", "distance.py")],
"observe": ["stored entries (row, column, value) and storage format of the returned matrix"],
"technique": "bounded exhaustive enumeration of point clouds, queries and options and of all evaluation histories of one object on the real code against hand-listed pairs",
"level_note": "rdist is not installed and not covered; the inexact brute force variant is compared with 1e-6 and not at the cut-off itself; kmin is ignored by brute force (it has no such parameter).",
}
