{
"id": "C12",
"title": "Online and streaming DMD equal the batch solution however the data is cut",
"statement": "For every stream and every way to cut it into consecutive partial_fit calls (and several series per call), OnlineDMD holds after each call the exponentially weighted least squares operator of all snapshot pairs seen so far, timestep_ counts these pairs and ready_ becomes true after twice the number of features; StreamingDMD holds the least squares operator projected on the span of the snapshots, limited to max_rank directions of which the ones with largest energy are kept. Eigenpairs, left eigenvectors and predictions belong to the current operator, the data is not modified, chunks with other features, other sampling rate or single samples are rejected and a rejected chunk leaves the model usable.",
"over": ["inputs", "histories"],
"quant": "every partition of streams of 6-8 samples (1-3 features, linear and non-linear sources) into partial_fit calls x weights x start mode x ranks; every order of up to three series",
"why_tests_cant": "Tests feed one fixed chunking of one system and compare loosely; the statement is about all histories of partial_fit calls.",
"files": ["datafold/dynfold/dmd.py"],
"state": [("A, _P, timestep_", "recursive least squares state", "OnlineDMD"), ("_Qx, _Qy, _Gx, _Gy, A", "projected least squares state", "StreamingDMD")],
"mech": [("OnlineDMD.partial_fit/fit", "dmd.py"), ("StreamingDMD.partial_fit/_update/_pod_compression", "dmd.py")],
"observe": ["A, eigenvalues_, eigenvectors_*_, timestep_, ready_ after every call", "predict"],
"technique": "exhaustive enumeration of all partial_fit histories of bounded streams on the real code, monitored after every call against the batch weighted least squares solution",
"level_note": "Complete over the stated alphabet. The cold start of OnlineDMD (1e-15 ghost samples) is compared with a loose tolerance (0.15) and only for weighting >= 0.9, because it is numerically inexact by construction; weighting of several series inside one chunk is not specified. Numerically rank deficient prefixes are skipped.",
}
