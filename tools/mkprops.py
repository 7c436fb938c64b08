#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source for the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": qtext},
                  why_tests_cant=why, anchors=a))


prop("C01", "Time integration equals the backward/forward Euler recurrence",
     "Integrating an ODE returns, for every requested time and every batch member, exactly the value of the one-step backward-Euler (or forward-Euler) recurrence started from the initial condition, whichever of the two entry points is used. The first output is the initial condition, and every later time point is produced exactly once from its predecessor. This holds for any number of time points (including one), any step sizes including zero-length steps, any per-batch time grids, and block sizes that do not divide the number of steps or exceed it.",
     ["inputs", "configurations"],
     "every polynomial ODE system, initial condition, time grid per batch member, number of steps, block size, scheme and entry point",
     "Tests integrate a few smooth problems with one grid and compare loosely with an analytic solution; a step dropped, repeated or evaluated at the wrong time in some partial block or for some batch member stays below their tolerance or is never run.",
     ["pyoptmat/ode.py", "pyoptmat/chunktime.py"],
     [("block loop over time", "FixedGridBlockSolver.integrate"), ("block residual/Jacobian", "form_operators of both schemes"), ("block Newton solve", "block_update, newton_raphson_chunk")],
     [("result", "trajectory so far, filled block by block", "FixedGridBlockSolver.integrate")],
     ["return value of odeint / odeint_adjoint"])

prop("C02", "Solver options never change the answer",
     "The block size, the linear solve method, the direct solver variant and its minimum size, and the initial-guess strategy are performance options: for the same problem every combination returns the same trajectory and the same gradients. An unknown option value is rejected with an exception rather than silently replaced.",
     ["configurations", "inputs"],
     "every combination of block size, linear solve method, direct solve method, direct minimum size, guess type, entry point and number of time points",
     "Tests compare a handful of option values on one problem; the options interact with the number of steps left in the last block, with powers of two and with each other.",
     ["pyoptmat/ode.py", "pyoptmat/chunktime.py"],
     [("option dispatch", "FixedGridBlockSolver.__init__"), ("initial guess", "FixedGridBlockSolver._initial_guess"), ("linear solves", "ChunkTimeOperatorSolverContext, Bidiagonal*Factorization")],
     None, ["return values and gradients of odeint / odeint_adjoint"])

prop("C03", "Blocked bidiagonal solves are exact for every size",
     "Solving with any of the sequential, cyclic-reduction or hybrid factorizations of a block lower-bidiagonal matrix returns the solution of that linear system, for every number of blocks, block size, batch size and switch-over size. A factorization can be applied any number of times, to one or several right-hand sides in sequence, always with the answer for that right-hand side. Neither the blocks it was built from nor the right-hand side handed to the operator are altered.",
     ["inputs", "configurations", "histories"],
     "every number of blocks, block size, batch size, switch-over size, matrix, and sequence of right-hand sides applied to one factorization",
     "Tests solve one system per method at a few sizes and apply each factorization once; the reduction schedule differs for every number of blocks and switch-over size.",
     ["pyoptmat/chunktime.py"],
     [("sequential solve", "thomas_solve"), ("cyclic reduction", "BidiagonalPCRFactorization._solve_block, _pow2, _cyclic_shift"), ("hybrid switch", "BidiagonalHybridFactorization._pcr_blocks")],
     [("factorization", "LU of the diagonal blocks and off-diagonal blocks", "LUFactorization")],
     ["return value of the factorization operators; contents of the inputs afterwards"])

prop("C04", "All representations of a blocked matrix are one operator",
     "Every form of a batched blocked matrix (operator-vector product, block-diagonal container, dense, batched COO, list of CSR) represents the same matrix for every batch member, with the same logical shape, and the reported number of non-zeros is the number of stored entries. Diagonals may be given in any order and any subset of diagonals may be present.",
     ["inputs", "configurations"],
     "every set and order of diagonals, number of blocks, block size and batch size",
     "Tests convert a matrix with a random set of diagonals once per type; which diagonals are present, their order and missing corner blocks are the quantified part.",
     ["pyoptmat/chunktime.py"],
     [("conversions", "SquareBatchedBlockDiagonalMatrix.to_dense/to_batched_coo/to_unrolled_csr"), ("product", "BidiagonalForwardOperator.forward, to_diag")],
     None, ["returned tensors"])

prop("C05", "Gradients are the exact derivative of the computed trajectory",
     "Back-propagating any function of a computed trajectory gives the exact derivative of the discrete solution with respect to the ODE's parameters, to extra parameters and to the initial condition, with the adjoint entry point and with plain AD, for both integration schemes and any blocking. Parameters that are frozen or that do not influence the result get no or zero gradient, and never an error.",
     ["inputs", "configurations"],
     "every polynomial ODE system with scalar or batched parameters, weights on the outputs at any subset of time points, time grid, block size, scheme and entry point",
     "Tests compare adjoint, AD and finite differences for a few smooth problems, one output functional (a norm), and loose tolerances; a lost term at a block boundary, at the first/last time, or for particular output weights is not seen.",
     ["pyoptmat/ode.py"],
     [("adjoint rewind", "FixedGridBlockSolver.rewind, update_adjoint, accumulate of both schemes"), ("autograd binding", "IntegrateWithAdjoint, odeint_adjoint"), ("Newton solve differentiated through", "newton_raphson_chunk")],
     [("prev_adjoint", "adjoint carried between blocks", "FixedGridBlockSolver.rewind")],
     [".grad of parameters, extra parameters and initial conditions"])

prop("C06", "Nonlinear solvers never silently return a non-solution",
     "Each Newton solver either returns a point satisfying the requested tolerance for every batch member (all residual norms within the absolute tolerance, or all within the relative tolerance), or it warns, or raises when asked to throw on failure. A residual that is not finite is a failure. A solve that did reach the tolerance within the allowed number of iterations does not warn or raise, and no solver uses more iterations than allowed.",
     ["inputs", "histories", "configurations"],
     "every sequence of residuals per batch member, tolerances, iteration limit, linear solver, and solver entry point, including divergence, stagnation, overflow to non-finite values and exhaustion of the iteration limit",
     "Tests run the solvers on well-behaved quadratics that converge; the non-converging histories, mixed batches and the exact iteration limit are never run.",
     ["pyoptmat/solvers.py", "pyoptmat/chunktime.py", "pyoptmat/ode.py"],
     [("Newton loop and exit test", "newton_raphson, newton_raphson_bt, newton_raphson_chunk, PreconditionerReuseNonlinearSolver.solve")],
     [("x, R, nR, i", "iterate, residual, norms, iteration count", "the Newton loops")],
     ["return value, warnings, exceptions, number of function evaluations"])

prop("C07", "Linear solvers solve each batch member's own system",
     "The direct and the Krylov linear solvers (GMRES with any preconditioner, or none, from any starting point) return the solution of A x = b to their tolerance for each batch member, independent of the other members of the batch, including members whose right-hand side is zero or whose preconditioner is already exact. Point Jacobi divides by the diagonal of A, and the direct preconditioner applies the inverse of A.",
     ["inputs", "configurations"],
     "every batch of well-conditioned matrices and right-hand sides, batch size, system size, and solver/preconditioner choice",
     "Tests solve random diagonally dominant systems where all batch members converge at the same speed; zero right-hand sides, early break-down of one member and mixed batches are not sampled.",
     ["pyoptmat/solvers.py"],
     [("solvers", "lu_linear_solve, jacobi_iteration_linear_solve, gmres, gmres_operators"), ("preconditioners", "lu_preconditioner, jacobi_preconditioner")],
     None, ["returned solutions"])

prop("C08", "Interpolators reproduce the piecewise-linear function everywhere",
     "Each time-series interpolator returns, for every batch member and every query time within the tabulated range, the value of the straight line through the two neighbouring points, including at the tabulated points, at the first and last times, and with different grids and query times per batch member; batch members never see each other's data. Repeated grid times are tolerated: on either side of the repeated time the correct line is used and no undefined value is produced at any in-range time.",
     ["inputs", "configurations"],
     "every increasing (or non-decreasing) table, per-batch grids, query shape and query times in range",
     "Tests query a few random interior points on random tables; end points, coincident points and batch-dependent grids are the boundary cases.",
     ["pyoptmat/utility.py"],
     [("interpolators", "ArbitraryBatchTimeSeriesInterpolator, BatchTimeSeriesInterpolator, CheaterBatchTimeSeriesInterpolator")],
     None, ["return value of forward"])

prop("C09", "Mixed-control batches equal separately run experiments",
     "Running a batch of experiments, in any order and with any mixture of strain-controlled and stress-controlled members, gives each experiment the same strain and stress history it has when run alone or through the dedicated strain- or stress-controlled entry point. The result does not depend on which other experiments share the batch, in what order, or on per-experiment grids.",
     ["inputs", "histories", "configurations"],
     "every batch of experiments, every assignment of control modes, every permutation and every sub-batch",
     "Tests compare one mixed batch with one fixed model and tolerance; cross-talk between columns depends on the mixture, the order and the shared Newton solve.",
     ["pyoptmat/models.py", "pyoptmat/ode.py", "pyoptmat/utility.py"],
     [("mixed control form", "BothBasedModel, StressBasedModel, InelasticModel/DamagedInelasticModel"), ("batch runners", "ModelIntegrator.solve_both, solve_strain, solve_stress")],
     None, ["results of solve_both / solve_strain / solve_stress"])

prop("C10", "Stress control is the inverse of strain control",
     "Feeding the stress history produced by a strain-controlled simulation back as a stress-controlled simulation of the same model on the same time grid reproduces the strain history and all internal state, and vice versa. This holds for every model, internal variable set, temperature history and time grid, under backward Euler.",
     ["inputs", "histories"],
     "every model composition, loading history (loading, unloading, hold, repeated times), temperature history and batch",
     "Tests check one model and monotonic loading with loose tolerance.",
     ["pyoptmat/models.py"],
     [("stress-controlled form", "StressBasedModel.forward"), ("rates and extraction", "ModelIntegrator.solve_stress, solve_strain")],
     None, ["histories returned by solve_strain and solve_stress"])

prop("C11", "Every analytic derivative is the derivative of its rate",
     "Wherever a model object returns a rate together with a derivative (with respect to stress, hardening variables, damage, strain rate or the full state), that derivative equals the true derivative of the returned rate at the same point, for every parameter value, state, batch shape and composition of submodels. It holds on both sides of every threshold (yield, switching, heaviside) and with zero increments.",
     ["inputs", "configurations"],
     "every flow rule, hardening model, damage model and material model, their compositions, parameter values and states away from kinks",
     "Tests use one random state and finite differences with loose tolerance for a fixed list of models with generic exponents; special exponents, sub-yield states, damage offsets, and rate-dependent sub-histories are not sampled.",
     ["pyoptmat/flowrules.py", "pyoptmat/hardening.py", "pyoptmat/damage.py", "pyoptmat/models.py"],
     [("flow rule derivatives", "flow_rate, dflow_diso, dflow_dkin, dflow_dhist, dflow_derate, dhist_*"), ("hardening derivatives", "dvalue, dhistory_rate_d*"), ("damage derivatives", "damage_rate, d_damage_rate_d_s, d_damage_rate_d_e"), ("model Jacobians", "InelasticModel, DamagedInelasticModel, StressBasedModel, BothBasedModel")],
     None, ["returned derivative tensors"])

prop("C12", "Flow rules and their compositions compute the documented rates",
     "Each flow rule returns the documented inelastic strain rate and internal-variable rates: zero flow below yield, direction of the effective stress, and the stated power-law or rate-independent magnitude. Compositions (superposition, soft and hard regime switching, the rate-independent wrapper) combine their members' rates and internal variables exactly as documented, with each member receiving its own slice of the internal variables.",
     ["inputs", "configurations"],
     "every flow rule, composition, number of internal variables per member, parameter values, states, strain rates and temperatures",
     "Tests check derivatives, not values, for most rules; the values are only exercised in end-to-end examples.",
     ["pyoptmat/flowrules.py"],
     [("flow rules", "PerfectViscoplasticity, IsoKinViscoplasticity"), ("compositions", "SuperimposedFlowRate, KocksMeckingRegimeFlowRule, SoftKocksMeckingRegimeFlowRule, RateIndependentFlowRuleWrapper")],
     None, ["flow_rate, history_rate return values"])

prop("C13", "Hardening models follow their evolution laws",
     "Each isotropic and kinematic hardening model maps its internal variables to the documented hardening value and evolves them by the documented law, including static recovery, temperature-dependent parameters and any number of superimposed components (for which values add and internal variables concatenate).",
     ["inputs", "configurations"],
     "every hardening model, number of components, parameter values (scalar or batched), states and batch shapes",
     "Tests check the value of a few models at one state each and derivatives otherwise.",
     ["pyoptmat/hardening.py"],
     [("isotropic models", "Theta0VoceIsotropicHardeningModel and the other Isotropic models"), ("kinematic models", "FAKinematicHardeningModel, ChabocheHardeningModel, ChabocheHardeningModelRecovery, SuperimposedKinematicHardening")],
     None, ["value, history_rate return values"])

prop("C14", "Damage laws and the damage-coupled response are as documented",
     "Each damage law returns the documented damage rate, and a material model with damage responds as the undamaged model evaluated at the effective stress with the load-carrying area reduced by damage. With no damage the damaged model reduces exactly to the undamaged one, and the damage rate returned is not negative for admissible states.",
     ["inputs", "configurations"],
     "every damage law, material model composition, parameter values, damage level below one, states and batch shapes",
     "Tests compare the derivative at one state with loose tolerance; values and the reduction to the undamaged model are not compared across compositions.",
     ["pyoptmat/damage.py", "pyoptmat/models.py"],
     [("damage laws", "NoDamage, HayhurstLeckie, ConstantDamage, LarsonMillerDamage"), ("coupling", "DamagedInelasticModel.forward")],
     None, ["damage_rate and forward return values"])

prop("C15", "Temperature-dependent parameters evaluate their stated formula",
     "Each temperature-dependent parameter evaluates its stated function of temperature for every batch shape of the temperature and of the coefficients, with the result broadcast per batch member, applying its scaling function to the coefficients exactly once, and respecting its limits (clipping, cut-off, table ends). Its shape attribute is the shape of the coefficients.",
     ["inputs", "configurations"],
     "every parameter type, coefficient values and shapes, control temperatures, temperatures in and at the ends of the range, and batch shapes",
     "Tests check a scalar formula on one temperature vector per class; limits, table end points and coefficient/batch shape combinations are not covered.",
     ["pyoptmat/temperature.py"],
     [("parameter classes", "ConstantParameter, PolynomialScaling, PiecewiseScaling, KMRateSensitivityScaling, KMViscosityScaling, ShearModulusScaling, MTSScaling, MTSShearModulusScaling, ArrheniusScaling, InverseArrheniusScaling")],
     None, ["value(T)"])

prop("C16", "Parameter scaling maps stay in bounds and invert",
     "Each parameter scaling is a monotone map onto its stated physical range that never returns a value outside its bounds (up to rounding), and its inverse undoes it for every value within bounds, elementwise and for scalars or arrays of bounds of any shape. The bounding helpers used for optimisation map onto the stated interval (linear, logarithmic, or a fraction around a reference value, never below a given minimum), and clamp exactly at the limits. The statistics a scaling reports for normally distributed raw values are those of the resulting physical values.",
     ["inputs"],
     "every scaling type, bounds (scalar or array), and values inside, at and far outside the natural range",
     "Tests map random interior values for one set of bounds.",
     ["pyoptmat/scaling.py", "pyoptmat/optimize.py"],
     [("scaling objects", "SimpleScalingFunction, BoundedScalingFunction, LogBoundedScalingFunction"), ("bound helpers", "bound_factor, bounded_scale_function, clamp_scale_function, bound_and_scale, log_bound_and_scale")],
     None, ["scale / unscale return values, bound tuples"])

prop("C17", "Experiment data is reduced as its type defines, from its own data only",
     "For every mixture and order of experiment types, the reduction of simulated or measured histories returns for each experiment the result its type defines: the whole history (tensile and direct data); zero while loading and then the change since the start of the hold (relaxation, creep); the largest value of each cycle at every point of that cycle (strain and stress cyclic); zero, then the value at the first yield-labelled point, then the largest value of the history (abstract tensile). The result uses only that experiment's own history and its own cycle labels, does not depend on which other experiments share the batch, and is differentiable in the history.",
     ["inputs", "configurations"],
     "every sequence of experiment types, cycle labels per experiment, number of time points and experiments, and data values (also negative, constant or repeated)",
     "Tests never call the reduction; examples use one type with one cycle structure for all experiments.",
     ["pyoptmat/experiments.py"],
     [("reduction", "convert_results, format_*"), ("type tables", "exp_map, exp_fns, exp_fns_num")],
     None, ["return values of convert_results and the format functions"])

prop("C18", "Loaded data sets and generated histories are complete and faithful",
     "Loading a data set returns every experiment exactly once and in order, with its own times, temperatures, driving history (strain or stress, by its control), result history (the other one), type code, cycle labels and control flag, whether histories are stored as integers or floating-point numbers. The history generators produce histories that start at zero, have non-decreasing times and cycle labels, and follow the requested rate, holds, extremes and number of steps for each experiment; creep tests end at the given time. Randomly generated tests stay within the requested ranges.",
     ["inputs", "configurations"],
     "every data set content, mixture of types and controls, number of experiments, and generator parameters including equal or zero extremes and holds",
     "Tests never load a data set and generate one or two histories as input for other tests.",
     ["pyoptmat/experiments.py"],
     [("loader", "load_results"), ("generators", "make_tension_tests, make_creep_tests, generate_random_tension, generate_random_cycle, sample_tension, sample_cycle_normalized_times")],
     None, ["returned tensors"])

prop("C19", "Statistical models sample and score the stated model",
     "The deterministic, single-level and hierarchical models hand every parameter under its own name to the model maker, draw it from its stated prior (population and, for the hierarchical model, per-experiment values), and observe each experiment's reduced result with the noise of its own type. In the hierarchical model the weight of an experiment's type applies to everything that belongs to the experiment (its own parameters and its results). The model and its guide have the same latent sites with matching shapes, and the log-density of a trace is the sum of exactly those terms. During inference the parameters of the guide (or of the deterministic model) move by the exact gradient of the objective, through the integration of the material model, while the priors stay as given.",
     ["inputs", "configurations", "histories"],
     "every history of optimisation steps over data sets of different types, and every set of parameter names, prior values and shapes, mixture of experiment types, noise per type or shared, weights, with and without inferred noise, and number of experiments",
     "Tests build one model and check that it runs and the shapes of sites; routing, noise per type, weighting and the log-density are not compared with an independent statement.",
     ["pyoptmat/optimize.py"],
     [("models", "DeterministicModel, StatisticalModel, HierarchicalStatisticalModel.forward, make_guide")],
     [("pyro param store", "variational parameters", "HierarchicalStatisticalModel.make_guide")],
     ["pyro traces, log-densities, arguments passed to the maker"])

prop("C20", "Calls leave their inputs alone and do not interfere",
     "No library call modifies the tensors or containers the caller hands in, and repeating a call with the same arguments gives the same result. Any interleaving of forward and backward passes of several independent integrations (also sharing one model object) gives each the result and the gradients it has on its own.",
     ["histories", "schedules", "inputs"],
     "every sequence of calls on shared inputs and objects, and every interleaving of the forward and backward passes of several integrations",
     "Tests make each call once on fresh inputs; reuse and interleaving are never exercised.",
     ["pyoptmat/ode.py", "pyoptmat/chunktime.py", "pyoptmat/solvers.py", "pyoptmat/models.py", "pyoptmat/flowrules.py", "pyoptmat/optimize.py"],
     [("per-call solver object holding the cached trajectory", "odeint_adjoint, IntegrateWithAdjoint"), ("out-of-place updates", "solvers.py, chunktime.py"), ("pyro parameter store", "HierarchicalStatisticalModel")],
     [("solver.t, solver.result", "trajectory cached for the backward pass", "FixedGridBlockSolver")],
     ["inputs before/after, repeated results, gradients"])

prop("C21", "Jacobian and tensor helpers are exact for any batch shape",
     "The automatic Jacobian wrapper returns the wrapped function's values unchanged and its exact Jacobians with respect to the selected arguments (all, one, or several in any order, chosen when wrapping or when calling), and the neural ODE wrapper returns the rate of its model at (y, f(t)) and the Jacobian with respect to y alone, for every number and size of batch dimensions. Numerical differentiation agrees with these to its truncation error, for values and arguments of any shape in batch_differentiate. Batched products, Heaviside (one half at zero), Macaulay brackets and the added identity are elementwise exact. Batch members do not contribute to each other's derivatives.",
     ["inputs", "configurations"],
     "every smooth function of one or several vector arguments, wrapped argument selection and order, and batch shape",
     "Tests cover one batch shape per helper.",
     ["pyoptmat/utility.py", "pyoptmat/neuralode.py"],
     [("helpers", "jacobianize, batch_differentiate, new_differentiate, differentiate, mbmm, heaviside, macaulay, add_id, NeuralODE")],
     None, ["return values"])

prop("C22", "Material responses have exact gradients in every coefficient",
     "Every material coefficient the user supplies (of temperature dependences, hardening, flow and damage laws, elasticity, regime switches) is differentiable: the derivative of each rate, and of every entry of a simulated strain- or stress-controlled test with respect to it, is the exact derivative of the computed values, with the adjoint and with plain AD, whether the coefficient is a module parameter or an extra parameter, for every composition of laws, batch shape, blocking and temperature history. The derivatives are finite everywhere, also below yield, at rest, at zero stress and where an internal variable sits at the target of its recovery.",
     ["inputs", "configurations"],
     "every composition of material laws and temperature dependences, coefficients, states and load histories, including states exactly at the zeros of the power laws",
     "Tests compare the gradients of a few constant-coefficient models with finite differences at a per cent; most laws and all temperature dependences are never differentiated, a detached or doubly scaled coefficient leaves every simulation unchanged, and NaN only appears at special states and exponents.",
     ["pyoptmat/temperature.py", "pyoptmat/hardening.py", "pyoptmat/flowrules.py", "pyoptmat/damage.py", "pyoptmat/models.py", "pyoptmat/ode.py", "pyoptmat/solvers.py", "pyoptmat/utility.py"],
     [("coefficients", "TemperatureParameter.value and subclasses"), ("rates", "history_rate, flow_rate, damage_rate, forward of the models"), ("power laws at zero", "utility.power"), ("strain rate of stress-controlled models", "StressBasedModel.forward, solvers.newton_raphson"), ("adjoint", "IntegrateWithAdjoint.backward")],
     None, ["gradients of the rates and of ModelIntegrator.solve_strain / solve_stress / solve_both"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
