{
"id": "C10",
"title": "Linear systems evolve exactly as matrix powers, exponentials and recursions",
"statement": "For every system matrix, initial condition set and set of evaluation times a LinearDynamicalSystem returns A^(t/dt) x0 (flowmap) or exp(A t) x0 (differential), identically in matrix mode, in spectral mode with left and right eigenvectors and with right eigenvectors only, independent of which other times are requested (semigroup property), of the time unit, of the number of initial conditions and of their IDs; fractional steps compose. Controlled systems follow x' = A x + B u per step (flowmap; zero-order hold for differential systems; the ODE x' = (A + sum u_k B_k) x for control affine systems), with the k-th input applied to the k-th initial condition. The result is labelled with the requested IDs, times and feature names; projections replace the output map only. Illegal systems, shapes, time steps or control inputs are rejected and the arguments are not modified.",
"over": ["inputs", "histories"],
"quant": "all 256 2x2 matrices over {-1,0,1/2,2} and 9 special 1x1/3x3 matrices x type x mode x time step x sets of evaluation times x 1-3 initial conditions; all control words over {-1,0,2} up to length 3 with 1-2 inputs",
"why_tests_cant": "Each solver strategy is exercised by tests with one or two matrices and one initial condition; strategies that are never selected, mixed up axes for several initial conditions and singular or defective matrices stay unseen.",
"files": ["datafold/dynfold/dynsystem.py"],
"mech": [("SystemSolveStrategy.* and select_strategy", "dynsystem.py"), ("evolve_system, compute_spectral_system_states", "dynsystem.py LinearDynamicalSystem")],
"observe": ["LinearDynamicalSystem.evolve_system / compute_spectral_system_states / setup_*"],
"technique": "bounded exhaustive enumeration of systems and control words on the real code against step-by-step recursion and a Taylor series exponential",
"level_note": "Complete over the stated matrix alphabet and words. The control affine system is integrated by an ODE solver with default tolerances, compared to 2e-2.",
}
