# Units (a contract harness + the real sources it is compiled with) and properties.
S = 'solver/src/solver/'
L = 'solver_lqr/src/solver_lqr/'
M = 'momentumopt/src/momentumopt/'
IFACE = [S + 'interface/' + f for f in ('Exprs.cpp', 'Var.cpp')]
TRUSTED = [
 'IEEE double arithmetic is treated as exact real arithmetic (rounding, overflow and NaN propagation are not modelled; counterexamples are replayed on doubles)',
 'Eigen, the C++ standard library and the compiler are executed, not verified: the obligations are about the code as instantiated with the symbolic scalar',
 'the VC generator /verif/kv (term normal form, path exploration) and the back ends z3 5.3.2 / 4.8.12 and cvc5 1.1.2 are trusted',
 'floating literals are wrapped mechanically as kv::Real(literal) on every run (kv/mirror.py); nothing else of the source text changes',
]
UNITS = {
 'cone': dict(harness='cone.cpp',  srcs=[S + 'interface/Cone.cpp', S + 'interface/SolverSetting.cpp', S + 'interface/OptVar.cpp']),
 'conic': dict(harness='conic.cpp', srcs=IFACE + [S + 'interface/' + f for f in ('ConicProblem.cpp', 'Model.cpp', 'Cone.cpp', 'SolverSetting.cpp', 'OptVar.cpp')] + [S + 'optimizer/CvxInfoPrinter.cpp']),
 'chol': dict(harness='chol.cpp', srcs=[S + 'optimizer/SparseCholesky.cpp', S + 'interface/SolverSetting.cpp']),
 'kkt': dict(harness='kkt.cpp', srcs=[S + f for f in ('optimizer/LinSolver.cpp', 'interface/Cone.cpp', 'interface/SolverSetting.cpp')]),
 'equil': dict(harness='equil.cpp', srcs=[S + f for f in ('optimizer/EqRoutine.cpp', 'interface/Cone.cpp', 'interface/SolverSetting.cpp')]),
 'ip': dict(harness='ip.cpp', srcs=[S + f for f in ('optimizer/IPSolver.cpp', 'optimizer/EqRoutine.cpp', 'optimizer/CvxInfoPrinter.cpp', 'interface/Cone.cpp', 'interface/SolverSetting.cpp')]),
 'ipm': dict(harness='ipm.cpp', weak=True, srcs=[S + f for f in ('optimizer/IPSolver.cpp', 'optimizer/EqRoutine.cpp', 'optimizer/CvxInfoPrinter.cpp', 'interface/Cone.cpp', 'interface/SolverSetting.cpp')]),
 'ipi': dict(harness='ipi.cpp', weak=True, srcs=[S + f for f in ('optimizer/IPSolver.cpp', 'optimizer/EqRoutine.cpp', 'optimizer/CvxInfoPrinter.cpp', 'interface/Cone.cpp', 'interface/SolverSetting.cpp')]),
 'bnb': dict(harness='bnb.cpp', weak=True, srcs=IFACE + [S + 'interface/' + f for f in ('ConicProblem.cpp', 'Model.cpp', 'Cone.cpp', 'SolverSetting.cpp', 'OptVar.cpp')] + [S + 'optimizer/' + f for f in ('CvxInfoPrinter.cpp', 'EqRoutine.cpp', 'IPSolver.cpp', 'BnBSolver.cpp', 'NcvxBnBSolver.cpp', 'LinSolver.cpp', 'SparseCholesky.cpp')]),
 'rtm': dict(harness='rtm.cpp', srcs=[]),
 'rtqp': dict(harness='rtqp.cpp', srcs=[]),
 'rthqp': dict(harness='rthqp.cpp', srcs=IFACE + [S + 'interface/SolverSetting.cpp']),
 'lbfgs': dict(harness='lbfgs.cpp', srcs=[S + 'optimizer/LbfgsSolver.cpp']),
 'lbfgsc': dict(harness='lbfgsc.cpp', weak=True, srcs=[S + 'optimizer/LbfgsSolver.cpp']),
 'settings': dict(harness='settings.cpp', defs=['CFG_SRC_PATH="cfg/"', 'CFG_PATH="cfg/"'], srcs=[S + 'interface/SolverSetting.cpp', S + 'interface/Var.cpp', S + 'optimizer/CvxInfoPrinter.cpp', L + 'SolverLqrSetting.cpp', L + 'LqrInfoPrinter.cpp', M + 'setting/PlannerSetting.cpp']),
 'ocp': dict(harness='ocp.cpp', srcs=[L + f for f in ('OcpDescription.cpp', 'SolverLqrSetting.cpp')]),
 'fd': dict(harness='fd.cpp', srcs=[L + f for f in ('OcpDescription.cpp', 'FiniteDifferences.cpp', 'SolverLqrSetting.cpp')]),
 'fpass': dict(harness='fpass.cpp', srcs=[L + f for f in ('OcpDescription.cpp', 'ForwardPass.cpp', 'SolverLqrSetting.cpp')]),
 'bpass': dict(harness='bpass.cpp', weak=True, defs=['CFG_PATH="cfg/"'], srcs=IFACE + [S + 'interface/' + f for f in ('ConicProblem.cpp', 'Model.cpp', 'Cone.cpp', 'SolverSetting.cpp', 'OptVar.cpp')] + [S + 'optimizer/' + f for f in ('CvxInfoPrinter.cpp', 'EqRoutine.cpp', 'IPSolver.cpp', 'BnBSolver.cpp', 'NcvxBnBSolver.cpp', 'LinSolver.cpp', 'SparseCholesky.cpp')] + [L + f for f in ('OcpDescription.cpp', 'ForwardPass.cpp', 'BackwardPass.cpp', 'FiniteDifferences.cpp', 'SolverLqrSetting.cpp')]),
 'lqr': dict(harness='lqr.cpp', weak=True, defs=['CFG_PATH="cfg/"'], srcs=IFACE + [S + 'interface/' + f for f in ('ConicProblem.cpp', 'Model.cpp', 'Cone.cpp', 'SolverSetting.cpp', 'OptVar.cpp')] + [S + 'optimizer/' + f for f in ('CvxInfoPrinter.cpp', 'EqRoutine.cpp', 'IPSolver.cpp', 'BnBSolver.cpp', 'NcvxBnBSolver.cpp', 'LinSolver.cpp', 'SparseCholesky.cpp')] + [L + f for f in ('OcpDescription.cpp', 'ForwardPass.cpp', 'BackwardPass.cpp', 'FiniteDifferences.cpp', 'SolverLqrSetting.cpp', 'LqrInfoPrinter.cpp', 'SolverLqr.cpp')]),
 'orient': dict(harness='orient.cpp', srcs=[M + 'utilities/OrientationUtils.cpp']),
 'traj': dict(harness='traj.cpp', include=['lsolve.hpp'], srcs=[M + 'utilities/TrajectoryGenerator.cpp']),
 'terrain': dict(harness='terrain.cpp', srcs=[M + 'cntopt/TerrainDescription.cpp']),
 'contact': dict(harness='contact.cpp', include=['lsolve.hpp'], defs=['CFG_SRC_PATH="cfg/"', 'CFG_PATH="cfg/"'], srcs=[M + f for f in ('cntopt/ContactState.cpp', 'cntopt/ContactPlanInterface.cpp', 'cntopt/ContactPlanFromFile.cpp', 'cntopt/TerrainDescription.cpp', 'dynopt/DynamicsState.cpp', 'setting/PlannerSetting.cpp', 'utilities/TrajectoryGenerator.cpp')]),
 'fback': dict(harness='fback.cpp', weak=True, include=['lsolve.hpp'], defs=['CFG_SRC_PATH="cfg/"', 'CFG_PATH="cfg/"'], srcs=IFACE + [S + 'interface/' + f for f in ('ConicProblem.cpp', 'Model.cpp', 'Cone.cpp', 'SolverSetting.cpp', 'OptVar.cpp')] + [S + 'optimizer/' + f for f in ('CvxInfoPrinter.cpp', 'EqRoutine.cpp', 'IPSolver.cpp', 'BnBSolver.cpp', 'NcvxBnBSolver.cpp', 'LinSolver.cpp', 'SparseCholesky.cpp')] + [L + f for f in ('OcpDescription.cpp', 'ForwardPass.cpp', 'BackwardPass.cpp', 'FiniteDifferences.cpp', 'SolverLqrSetting.cpp', 'LqrInfoPrinter.cpp', 'SolverLqr.cpp')] + [M + f for f in ('dynopt/DynamicsState.cpp', 'dynopt/DynamicsFeedback.cpp', 'setting/PlannerSetting.cpp')]),
 'kinopt': dict(harness='kinopt.cpp', weak=True, include=['lsolve.hpp'], defs=['CFG_SRC_PATH="cfg/"', 'CFG_PATH="cfg/"'], srcs=IFACE + [S + 'interface/' + f for f in ('ConicProblem.cpp', 'Model.cpp', 'Cone.cpp', 'SolverSetting.cpp', 'OptVar.cpp')] + [S + 'optimizer/' + f for f in ('CvxInfoPrinter.cpp', 'EqRoutine.cpp', 'IPSolver.cpp', 'BnBSolver.cpp', 'NcvxBnBSolver.cpp', 'LinSolver.cpp', 'SparseCholesky.cpp')] + [M + f for f in ('cntopt/ContactState.cpp', 'cntopt/ContactPlanInterface.cpp', 'cntopt/TerrainDescription.cpp', 'dynopt/DynamicsState.cpp', 'kinopt/KinematicsOptimizer.cpp', 'kinopt/KinematicsInterface.cpp', 'kinopt/KinematicsState.cpp', 'setting/PlannerSetting.cpp', 'utilities/TrajectoryGenerator.cpp')]),
 'dynopt': dict(harness='dynopt.cpp', weak=True, include=['lsolve.hpp'], defs=['CFG_SRC_PATH="cfg/"', 'CFG_PATH="cfg/"'], srcs=IFACE + [S + 'interface/' + f for f in ('ConicProblem.cpp', 'Model.cpp', 'Cone.cpp', 'SolverSetting.cpp', 'OptVar.cpp')] + [S + 'optimizer/' + f for f in ('CvxInfoPrinter.cpp', 'EqRoutine.cpp', 'IPSolver.cpp', 'BnBSolver.cpp', 'NcvxBnBSolver.cpp', 'LinSolver.cpp', 'SparseCholesky.cpp')] + [M + f for f in ('cntopt/ContactState.cpp', 'cntopt/ContactPlanInterface.cpp', 'cntopt/TerrainDescription.cpp', 'dynopt/DynamicsState.cpp', 'dynopt/DynamicsOptimizer.cpp', 'kinopt/KinematicsState.cpp', 'setting/PlannerSetting.cpp', 'utilities/TrajectoryGenerator.cpp')]),
 'lqrm': dict(kind='py', harness='lqrm.py'),
 'trajm': dict(kind='py', harness='trajm.py'),
 'ikm': dict(kind='py', harness='ikm.py'),
 'mkom': dict(kind='py', harness='mkom.py'),
 'exportm': dict(kind='py', harness='exportm.py'),
 'plan': dict(kind='py', harness='plan.py'),
 'exprs': dict(harness='exprs.cpp', srcs=IFACE),
}
TECHNIQUE = 'contract-based deductive verification: per-function contracts on the real source, VCs by symbolic execution over exact reals, discharged by normal form / z3 / cvc5'
PYT = 'contract-based deductive verification: per-function contracts on the real Python source (loaded on every run, float literals and divisions wrapped mechanically), VCs by symbolic execution over exact reals, discharged by normal form and z3'
NOTES = 'KNOWN_FINDINGS lists repaired (fixed:) and unrepaired (known:) genuine defects. Python units run the real modules under the same contract engine.'
NA = {}
PROPS = {
 'C20': dict(level='proof', cases=[('dynopt', 'dyn_.*')], note='Every number of the plan, settings and solution (exact reals) on 1 to 3 steps and five contact patterns, all three heuristics; contact orientations are fixed rational rotations. The conic model is replaced by its contract (C01, C02, C06). The linearised second solve is proved for two numeric first solutions and contact positions in the quick tier and for every number in the thorough tier. saveToFile not covered.'),
 'C21': dict(level='proof', cases=[('dynopt', 'frc_.*')], note='The pyramid for every friction coefficient and force; the recorded limits and stored values for every number on 1 to 3 steps, five contact patterns with flat, free and full contacts, all three heuristics, linear and second-order form; contact orientations are fixed rational rotations. The conic model is replaced by its contract (C01, C02, C06).'),
 'C24': dict(level='proof', cases=[('kinopt', '.*')], note='Every reference, joint limit, posture and solution (exact reals) on 1 to 3 steps with 1, 2 or 4 end effectors and one or two iterations; weights and the Jacobians the robot supplies are fixed tables of numbers; three joints of which the first two are active. The conic model (C01, C02, C06) and the robot are replaced by their contracts. displayMotion and storeSolution not covered.'),
 'C22': dict(level='proof', cases=[('fback', '.*')], note='Every state, force, position, mass, weight and gain (exact reals) on plans of 1 to 3 steps, every contact pattern of the end effectors; trigonometric and control-limited machinery of the LQR solver is C13 to C15. External forces, centre of pressure offsets and torques are not part of the model.'),
 'C01': dict(level='proof', cases=[('exprs', '.*')], note='All coefficients, constants and values (exact reals), expression sizes bounded as listed in the evidence; every path explored. Trusts the VC generator and SMT back ends; machine arithmetic treated as real arithmetic.'),
 'C02': dict(level='proof', cases=[('conic', '.*')], note='All coefficients, constants, bounds and points (exact reals); model shapes bounded as listed (up to 2 constraints of each kind, every sense, several orders). The interior-point and branch-and-bound solvers are replaced by their contracts (arbitrary answer). Continuous-variable bounds are not constraints of the model by design (addVar documents them as guess limits).'),
 'C04': dict(level='proof', cases=[('equil', '.*'), ('kkt', '.*')], note='All data, permutation-ordered right-hand sides and scalings (exact reals) on the layouts listed; equilibration for 1 and several passes; sparse factorisation replaced by its contract (M x = b, property C05). Machine arithmetic treated as real arithmetic.'),
 'C06': dict(level='proof', cases=[('ip', '.*'), ('ipm', '.*'), ('ipi', '.*')], note='Residuals, statistics and verdict for every point, data and tolerance on small layouts; the iteration protocol for up to 2 iterations against the callee contracts (ghost record of the judged point); step lengths and updates for small cones. LinSolver replaced by its contracts (C04, C05). Machine arithmetic treated as real arithmetic.'),
 'C07': dict(level='proof', cases=[('bnb', '.*')], note='All costs, relaxation answers, feasibility patterns and gap tolerances for 1 and 2 binaries (case listed), the convex and the non-convex search, with and without node limit, solved twice; the interior-point solver is replaced by its contract (C06). Larger numbers of binaries are not covered. Machine arithmetic treated as real arithmetic.'),
 'C05': dict(level='proof', cases=[('chol', '.*'), ('kkt', '.*')], note='Every sparsity pattern up to n=4 and selected ones at n=5, all values with non-degenerate pivots (exact reals), refactorisation, re-analysis and pivot replacement; LinSolver around it on the listed layouts. Machine arithmetic treated as real arithmetic.'),
 'C03': dict(level='proof', cases=[('cone', '.*')], note='All real vectors; cone layouts up to the bounds listed in the evidence (Nesterov-Todd scaling: every interior pair for cone sizes 2..3, expansion 2..4). Machine arithmetic treated as real arithmetic; guards below 1e-13 excluded by the stated preconditions.'),
 'C08': dict(level='proof', cases=[('rtm', '.*')], note='All values (exact reals) on the shapes listed in the evidence. Machine arithmetic treated as real arithmetic.'),
 'C10': dict(level='proof', cases=[('lbfgs', '.*'), ('lbfgsc', '.*')], note='All objective and gradient values returned by the callback (exact reals) on the shapes listed in the evidence. Machine arithmetic treated as real arithmetic.'),
 'C11': dict(level='proof', cases=[('settings', '.*')], note='Every parameter of every settings class (SolverSetting, Var, OptimizationInfo, SolverLqrSetting, LqrOptimizationInfo, PlannerSetting), all real values; YAML parsing is the real yaml-cpp, the external yaml_utils package is replaced by its contract (shim).'),
 'C09': dict(level='proof', cases=[('rtqp', '.*'), ('rthqp', '.*')], note='All values (exact reals) on the shapes listed in the evidence. Machine arithmetic treated as real arithmetic.'),
 'C16': dict(level='proof', cases=[('ocp', '.*')], note='All values (exact reals); dimensions and lengths bounded as listed. Random initialisation (setRandom) is not covered. Machine arithmetic treated as real arithmetic.'),
 'C15': dict(level='proof', cases=[('fd', '.*')], note='Every quadratic cost and dynamics, point and step size (exact reals: no truncation or rounding error is modelled) on the dimensions listed; integrators for arbitrary (uninterpreted) dynamics. Machine arithmetic treated as real arithmetic.'),
 'C13': dict(level='proof', cases=[('fpass', '.*')], note='Arbitrary (uninterpreted) dynamics and objective, all gains, nominal trajectories, limits and step lengths; horizons and dimensions bounded as listed. Not-a-number states are outside exact real arithmetic.'),
 'C12': dict(level='proof', cases=[('bpass', '.*')], note='All data of the quadratic model (exact reals) with the positive definite control Hessians parametrised by their Cholesky factor; horizons and dimensions bounded as listed. The conic model for control limits is replaced by its contract (C01, C02, C06). Machine arithmetic treated as real arithmetic.'),
 'C14': dict(level='proof', cases=[('lqr', '.*')], note='Every outcome sequence of backward passes and rollouts (costs, divergence, failures: exact reals) for the iteration counts and line-search sizes listed; the callees are replaced by their contracts (C12, C13, C15). Not-a-number costs and storing the solution to a file are not covered.'),
 'C17': dict(level='proof', cases=[('orient', '.*')], note='Angles 0.01..pi (small angles with an error bound), axes and orientations as listed in the evidence (every axis by stereographic coordinates where stated). Trigonometric functions are uninterpreted up to the stated facts. Machine arithmetic treated as real arithmetic.'),
 'C18': dict(level='proof', cases=[('traj', '.*')], note='Every condition value (exact reals); every interval for the 7-condition layout the generator uses, rational times for seven other layouts. The QR decomposition is replaced by its contract (A x = b; exact elimination on rational times, where nonsingularity is proved). Machine arithmetic treated as real arithmetic.'),
 'C19': dict(level='proof', cases=[('contact', '.*')], note='Every number of the plan and every contact time (exact reals) for up to 2 contacts and 3 steps; fixed contact timings with every position for longer plans; all activation patterns up to 6 steps. Flight phases of a single step, and phases without viapoint, are not covered. YAML parsing is the real yaml-cpp; the external yaml_utils package and the QR decomposition are replaced by their contracts. Machine arithmetic treated as real arithmetic.'),
 'C23': dict(level='proof', cases=[('terrain', '.*')], note='Every plane and every strictly convex polygon (exact reals) of the number of sides listed; that a convex polygon is the intersection of its side half-planes is the (standard) definition used. Machine arithmetic treated as real arithmetic.'),
 'C25': dict(level='proof', technique=PYT, cases=[('lqrm', 'quat_.*|increment_.*|difference_.*')], note='Every state, unit quaternion and tangent vector (exact reals). The Taylor branches of exponential and logarithm are approximations by design: there the statement is proved up to the tolerance named in the obligation. The increment and difference are proved against the contract of exponential and logarithm, which is proved by the quat_ cases.'),
 'C26': dict(level='proof', technique=PYT, cases=[('lqrm', '(?!quat_|increment_|difference_).*')], note='Every state, control, weight and value (exact reals). Dynamics: the 13-state model itself. Derivatives and recursion: generic in the state space, on three states and two controls. scipy cho_factor and cho_solve, numpy eigh: by contract. The gains file is recorded, not written.'),
 'C27': dict(level='proof', technique=PYT, cases=[('trajm', '.*')], note='Every boundary value, window and query time (exact reals); lists up to four pieces, up to three contacts or via points. numpy.linalg.solve by contract; that the minimum-jerk system is regular is proved. Contacts still active at the last step are not recorded by the plan (by design of the configuration files, whose contacts end with the horizon).'),
 'C28': dict(level='proof', technique=PYT, cases=[('ikm', '.*')], note='Every matrix, reference, gain and weight (exact reals) for two joints and one, two or four end effectors, two calls in a row; the robot model (pinocchio), quadprog, pinv and the spline are replaced by contracts. cvxopt_solve_qp is not covered (its imports are commented out).'),
 'C29': dict(level='proof', technique=PYT, cases=[('mkom', '.*')], note='Every reference, gain, weight and plan (exact reals) for a robot with two joints and four end effectors, plans of up to three steps, and up to two passes over each step or two calls in a row (bounded in the number of steps and inverse-kinematics iterations); the robot model (pinocchio) and the inverse kinematics of a step (C28) are replaced by contracts. A plan whose very first step is a flight phase is outside the contract: there is no stance momentum to keep.'),
 'C30': dict(level='proof', technique=PYT, cases=[('exportm', '.*')], note='Every value and time (exact reals) for motions of one to three steps; the exported tables are checked at three points (create_file) or with a sampling frequency of two (the module constant is set by the harness). Quaternions are interpolated component by component as the code documents, not normalised. Plotting and the execution on a simulator are not covered.'),
 'C31': dict(level='proof', technique=PYT, cases=[('plan', '.*')], note='The optimisers, settings and file writers the planner connects are replaced by recording contracts; the names of the settings come from the binding source (PyParams.cpp), not from a compiled module. Up to three kinematics-dynamics iterations. Plotting, display and interactive parts are not covered.'),
}
