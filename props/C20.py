{
"id": "C20",
"title": "MPC and LQR return the optimal admissible input of the stated problem",
"statement": "KMPC.control_sequence_horizon minimises the stated cost (running, terminal and input weights on the selected quantities of interest) over the Koopman model's prediction z' = A z + B u started in the dictionary state of the initial condition, subject to the state and input bounds at every step of the horizon; infeasible bounds, references with wrong times, length or columns and invalid costs are rejected. The result carries the control names and the times of the horizon. The closed loop applies at each step the first input of the optimal sequence for the state the plant is in, and hands the plant exactly that state, input and interval. LQR returns -F (z - z_target) with the gain of the Riccati equation. AffineKgMPC: cost and Jacobian are those of the control affine model z' = A z + sum_i u_i B_i z from the lifted state with the states taken by name, the sequence stays within the bounds and depends only on the values given to the call. Arguments are not modified.",
"quant": "all models x horizons x ordered quantities of interest x costs x bounds (both orders of a bound) x references x initial states; closed loops up to 5 steps",
"why_tests_cant": "The tests drive two toy systems with one configuration and look at tracking errors; a wrong weight, a shifted horizon or an ignored bound still tracks.",
"files": ["datafold/appfold/mpc.py"],
"mech": [("KMPC._setup_qp / control_sequence_horizon / control_system_reference", "appfold/mpc.py"), ("LQR.control_sequence", "appfold/mpc.py"), ("AffineKgMPC.cost, jacobian, generate_control_signal", "appfold/mpc.py")],
"observe": ["control sequence, time values, states handed to the plant"],
"technique": "bounded exhaustive enumeration of control problems on the real code; oracle: KKT conditions of the loop-written cost, linear program for feasibility, value iteration",
"level_note": "AffineKgMPC is experimental upstream (its tests are skipped): cost and Jacobian are compared within the tolerance of its integrator, optimality of its local minimiser is not claimed. A terminal cost of None or 0 means the running cost.",
}
