#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one source of truth for titles, statements and anchors).
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=False)))
S='solver/src/solver/'; SI='solver/include/solver/'; L='solver_lqr/src/solver_lqr/'; M='momentumopt/src/momentumopt/'; MI='momentumopt/include/momentumopt/'; PY='momentumopt/python/momentumopt/kinoptpy/'

p('C01','Linear and quadratic expressions denote exactly the functions written',
 'Building an expression with any of the overloaded operators on variables, constants and expressions (including an operand used twice or combined with itself) yields an object whose value at every assignment equals the ordinary arithmetic value of what was written. Cleaning or compacting an expression merges repeated variables without changing its value. Reading a variable or expression value returns the current solution value, and operands that are not assigned to are left unchanged.',
 ['inputs','programs'],'every coefficient, constant, variable value and every composition of the operators',
 'Only whole problems with fixed numbers are solved; merging of repeated variables, cancellation, zero factors and self-assignment are not sampled.',
 [S+'interface/Exprs.cpp',SI+'interface/Exprs.hpp',S+'interface/Var.cpp'],
 [('operator overloads, clean, getValue',SI+'interface/Exprs.hpp'),('LinExpr::clean',S+'interface/Exprs.cpp')])
p('C02','The conic program built from a model is equivalent to the model',
 'For every model, the standard-form program handed to the solver has, for each point of the decision variables, a completion by auxiliary variables that is feasible exactly when the point satisfies every linear, binary-bound, convex quadratic and second-order-cone constraint the user added with its sense, and the least linear cost over those completions equals the user objective up to its constant. Constraints without variables, constants on either side, repeated variables and every mix and order of constraint kinds are honoured, and rebuilding the same model gives the same program. Trust-region and soft-constraint approximations of a non-convex quadratic constraint are its linearisation at the current solution.',
 ['inputs','programs'],'every coefficient and every model shape (mix, number and order of variables, constraints and objective terms)',
 'The tests solve no conic model at all in this build; each row/offset combination depends on counts that a few fixed problems cannot cover.',
 [S+'interface/ConicProblem.cpp',SI+'interface/ConicProblem.hpp',S+'interface/Cone.cpp',SI+'interface/Model.hpp'],
 [('buildProblem row layout',S+'interface/ConicProblem.cpp'),('SolverStorage::initialize/addCoeff/initializeMatrices',S+'interface/Cone.cpp')],
 [('A,b,G,h,c','standard form data: Ax=b, Gx+s=h, s in K','SolverStorage')])
p('C03','Cone arithmetic and Nesterov-Todd scaling satisfy the cone identities',
 'For all vectors of a product of non-negative orthants and second-order cones: the cone product is the Jordan product, cone division inverts it on the interior, the projection step moves any vector strictly inside the cone without touching what is already inside, and norms, inner products and margins are those of the product cone. For every strictly interior pair (s,z) the scaling W satisfies W z = W^-1 s = lambda, W and W^-1 are mutually inverse, and the expanded sparse scaling blocks written into the KKT matrix represent -W^2. Scaling is refused (an error is reported) when s or z is not strictly interior. The named parts of the solver vectors partition them, and reading a part gives what was written to it.',
 ['inputs'],'all vectors and all cone layouts',
 'Tests never call the cone; identities must hold for all reals, including near boundary and mixed LP/SOC layouts.',
 [S+'interface/Cone.cpp',SI+'interface/Cone.hpp'],
 [('conicProduct/conicDivision/conicProjection/ntScalings/updateScalings',S+'interface/Cone.cpp')])
p('C04','Equilibration, permutation and homogeneous scaling are exactly undone',
 'Equilibrating the problem data and then undoing it restores the data, and a solution of the equilibrated problem, once unscaled, solves the original one: the primal, dual and slack vectors returned by the solver satisfy the original equations whenever the internal ones satisfy the scaled equations. Converting vectors to and from the permuted, expanded KKT ordering loses and mixes nothing. Equilibration factors are positive and equal across each second-order cone so that membership in the cone is preserved.',
 ['inputs'],'every problem data and vector, every cone layout and permutation',
 'No test exercises equilibration; errors only scale results for badly scaled data.',
 [S+'optimizer/EqRoutine.cpp',S+'optimizer/LinSolver.cpp',S+'optimizer/IPSolver.cpp',S+'interface/OptVar.cpp',SI+'interface/Cone.hpp'],
 [('setEquilibration/unsetEquilibration/scaleVariables',S+'optimizer/EqRoutine.cpp'),('permuteSolution/unpermuteSolution',S+'optimizer/LinSolver.cpp')])
p('C05','The sparse LDL factorisation solves the linear system it was given',
 'For every sparse symmetric quasi-definite matrix whose pivots need no regularisation, factorising and solving returns the exact solution of the system for every right-hand side, whatever the sparsity pattern, and refactorising after the values change uses the new values. A pivot with the wrong sign or too small a magnitude is replaced by one of the required sign, never silently accepted.',
 ['inputs','histories'],'every matrix value, right-hand side, sparsity pattern and refactorisation history',
 'Tests only reach the factorisation with none or a few fixed matrices.',
 [S+'optimizer/SparseCholesky.cpp',SI+'optimizer/SparseCholesky.hpp',S+'optimizer/LinSolver.cpp'],
 [('symbolic/numeric factorisation and triangular solves',S+'optimizer/SparseCholesky.cpp'),('KKT assembly, solve with refinement',S+'optimizer/LinSolver.cpp')])
p('C06','The interior-point solver reports success only for points that meet the tolerances',
 'An exit code of Optimal is returned only if the primal and dual residuals and the (absolute or relative) duality gap of the point that is handed back meet the configured tolerances, and infeasibility codes only if the corresponding certificate residual does. The residuals, cost and gap it judges are those of the problem being solved at that very point. The iterates keep slacks and multipliers strictly inside the cone and step lengths never leave it.',
 ['inputs','histories'],'every problem, every iteration history and every tolerance setting',
 'The tests contain no interior-point problem in this build, and an early stop with a wrong code looks like success.',
 [S+'optimizer/IPSolver.cpp',SI+'optimizer/IPSolver.hpp'],
 [('convergenceCheck, computeResiduals, updateStatistics, lineSearch',S+'optimizer/IPSolver.cpp')])
p('C07','Branch and bound partitions the binaries and returns the best leaf',
 'Branching on a node yields two children that agree with the parent on every binary except one free one, which is fixed to zero in one child and to one in the other, so no assignment is lost or repeated. With a correct relaxation solver the search returns a feasible binary assignment of least cost among all assignments, and reports failure only if none is feasible. The lower bound never exceeds the cost of any undiscarded assignment and the incumbent is a point that was really evaluated.',
 ['inputs','programs','histories'],'every number of binaries, every relaxation outcome per node and every cost',
 'No test solves a mixed-integer problem in this build.',
 [S+'optimizer/BnBSolver.cpp',SI+'optimizer/BnBSolver.hpp',S+'optimizer/NcvxBnBSolver.cpp'],
 [('createBranches/selectNode/updateNodeBounds/optimize',S+'optimizer/BnBSolver.cpp')])
p('C08','Real-time affine and quadratic builders preserve the function they represent',
 'Appending, removing zero rows from, substituting x = S y + s into, or summing affine maps and quadratic functions yields data that evaluates, for every argument, to the corresponding composition of the originals. Building a quadratic from a (weighted) norm of an affine map gives exactly half its squared (weighted) norm up to a constant, with a symmetric matrix. Zero-row removal drops only rows that are zero and keeps the order of the others.',
 ['inputs'],'every matrix and vector, every size and placement',
 'Tests use these helpers only inside three fixed hierarchical problems.',
 [SI+'rt_optimizer/RtMatrix.hpp'],[('RtMatrixUtils / RtVectorUtils / RtAffineUtils / RtQuadraticUtils',SI+'rt_optimizer/RtMatrix.hpp')])
p('C09','The hierarchical QP solver returns KKT points and respects priorities',
 'For a strictly convex problem the real-time QP solver returns the point that satisfies all equality and inequality constraints and the first-order optimality conditions with non-negative multipliers, and says so only then. A lower-priority task never changes the value of the higher-priority objectives and constraints already attained. Constraints added with a given sense are enforced with that sense.',
 ['inputs','programs'],'every convex QP (sizes stated per check) and every hierarchy',
 'Three fixed hierarchical problems are sampled.',
 [SI+'rt_optimizer/RtQPSolver.hpp',SI+'rt_optimizer/RtQPSolverInterface.hpp',SI+'rt_optimizer/RtHQPSolver.h',SI+'rt_optimizer/RtModel.h'],
 [('RtQPSolver::optimize, add_constraint, delete_constraint',SI+'rt_optimizer/RtQPSolver.hpp'),('RtHQPSolver',SI+'rt_optimizer/RtHQPSolver.h')])
p('C10','L-BFGS returns points it evaluated, with sufficient decrease, along descent steps',
 'Whatever the objective function returns, an accepted line-search step satisfies the configured sufficient-decrease (and, if selected, curvature) condition and lies within the step bounds, the reported cost and gradient are those of the reported point, and the cost never increases over accepted iterations. The search direction is the limited-memory BFGS direction of the stored pairs (the negative gradient at the first iteration). Invalid parameters are rejected with the documented code and numerical gradients are central differences at the requested point, leaving it unchanged.',
 ['inputs','programs','histories'],'every objective (arbitrary values and gradients per evaluation), parameter set and history',
 'The tests minimise three smooth functions and only look at the end point.',
 [S+'optimizer/LbfgsSolver.cpp',SI+'optimizer/LbfgsSolver.hpp'],
 [('lbfgs, line_search_backtracking/more-thuente, two-loop recursion',S+'optimizer/LbfgsSolver.cpp'),('update_trial_interval, check_param',SI+'optimizer/LbfgsSolver.hpp')])
p('C11','Settings objects store each parameter separately and reject foreign ones',
 'In every settings object of the package, writing a parameter makes exactly that parameter read back the written value and leaves every other parameter unchanged. Reading or writing a parameter an object does not own raises an error instead of returning something. Loading a configuration file stores each named value in the parameter of that name.',
 ['configurations','inputs'],'every parameter key, every value, every order of writes',
 'Tests set a couple of parameters.',
 [S+'interface/SolverSetting.cpp',L+'SolverLqrSetting.cpp',M+'setting/PlannerSetting.cpp',S+'interface/Var.cpp'],
 [('get/set switches, initialize',S+'interface/SolverSetting.cpp'),('get/set switches',L+'SolverLqrSetting.cpp'),('get/set switches',M+'setting/PlannerSetting.cpp')])
p('C12','The LQR backward pass computes the regularised Riccati recursion',
 'For every time step, given the cost expansion, the dynamics expansion and the next value function, the feedforward and feedback terms minimise the (regularised) quadratic model of cost-to-go and the stored value function is the value of that policy. The quadratic value matrix stays symmetric, the recursion runs from the horizon back to the first step using each step data once, and it is reported as failed exactly when a control Hessian is not positive definite. With control limits the feedforward step solves the box-constrained problem and saturated controls get no feedback.',
 ['inputs','histories'],'all matrices of the quadratic model and every horizon',
 'The LQR package is not even built by the test run; its own tests sample two problems.',
 [L+'BackwardPass.cpp','solver_lqr/include/solver_lqr/BackwardPass.hpp'],[('BackwardPass::optimize',L+'BackwardPass.cpp')])
p('C13','The forward pass rolls out the control law it was given',
 'The rollout applies, at every step, the nominal control plus the scaled feedforward plus the feedback on the deviation from the nominal state, propagates the model dynamics from the true initial state, and sums the running and final costs of what it visited. With control limits active every applied control lies within them, and limits never change a control that is already inside. Every state and control of the returned trajectory comes from that rollout.',
 ['inputs','histories'],'all gains, states, step lengths, limits and horizons',
 'Not built or sampled by the test run.',
 [L+'ForwardPass.cpp','solver_lqr/include/solver_lqr/ForwardPass.hpp',L+'OcpDescription.cpp'],[('ForwardPass::rollout',L+'ForwardPass.cpp')])
p('C14','The iterative LQR solver never accepts a worse trajectory',
 'Whatever the dynamics and cost, the cost of the accepted trajectory never increases over iterations, a rollout that diverged is never accepted, and the returned state and control sequences and cost belong to the same accepted rollout. The regularisation stays within its configured range, grows after failed steps and shrinks after successful ones, and the solver stops within the configured number of iterations.',
 ['inputs','histories','programs'],'every problem and every sequence of backward/forward pass outcomes',
 'Not built by the test run; its tests sample two problems.',
 [L+'SolverLqr.cpp','solver_lqr/include/solver_lqr/SolverLqr.hpp'],[('SolverLqr::optimize, backwardPass/forwardPass loop, increase/decreaseLambda',L+'SolverLqr.cpp')])
p('C15','Finite differences and integrators are exact where they must be',
 'The numerical derivatives of cost and dynamics equal the analytical ones for every quadratic cost and every linear (and, for central differences, quadratic) dynamics, each derivative block lands in its place, and the point at which they are taken is restored. Every integration scheme reproduces its defining formula (forward Euler, fourth-order Runge-Kutta) for arbitrary dynamics.',
 ['inputs','programs'],'every quadratic cost / dynamics, point, step size and dimension',
 'Not built or sampled by the test run.',
 [L+'FiniteDifferences.cpp',L+'OcpDescription.cpp'],[('FiniteDifferences::computeDynamicsDerivatives/...',L+'FiniteDifferences.cpp'),('OcpDescription::dynamics integration',L+'OcpDescription.cpp')])
p('C16','State and control sequences behave like the vectors they contain',
 'Arithmetic on states, controls and their sequences acts element by element on the feedforward and feedback parts as documented, never mixes time steps and leaves operands unchanged. Resizing a sequence, any number of times, gives exactly the requested number of entries of the requested dimensions, zero initialised.',
 ['inputs','histories'],'all values, lengths, dimensions and histories of resizes',
 'Not built by the test run.',
 ['solver_lqr/include/solver_lqr/OcpDescription.hpp',L+'OcpDescription.cpp'],[('StateBase/ControlBase/StateSequence/ControlSequence','solver_lqr/include/solver_lqr/OcpDescription.hpp')])
p('C17','Rotation utilities are consistent with the rotation group',
 'Logarithm and exponential maps are inverse to each other, a unit quaternion and its negative denote the same rotation, products follow the Hamilton convention, and integrating an angular velocity required between two orientations reproduces the second one. Rates, Jacobians and conversion matrices are the true derivatives of these maps. Every rotation returned for unit input has unit norm.',
 ['inputs'],'every unit quaternion, rotation vector, angular velocity and time step',
 'The C++ utilities have no test; sign and frame errors vanish at the identity.',
 [M+'utilities/OrientationUtils.cpp',MI+'utilities/OrientationUtils.hpp'],[('log/exp, toAngularVelocity, integrateAngularVelocity, Jacobians',M+'utilities/OrientationUtils.cpp')])
p('C18','Generated trajectories meet every boundary condition',
 'A polynomial interpolator built from position, velocity and acceleration conditions at given times reproduces each of these conditions, and its velocity and acceleration are the time derivatives of its position at every time in the interval, including time zero. Interpolating between equal rest states stays there.',
 ['inputs'],'all boundary values, all intervals and all query times',
 'No test for the C++ interpolators.',
 [M+'utilities/TrajectoryGenerator.cpp',MI+'utilities/TrajectoryGenerator.hpp'],[('Interpolator::initialize/interpolate',M+'utilities/TrajectoryGenerator.cpp')])
p('C19','Contact plans are interpreted consistently',
 'Each contact of a plan keeps the start and end times, position, orientation, type and terrain it was specified with, and an end effector is active at a time step exactly when that time lies inside one of its contacts, with the matching contact as its reference. Planning again with a new contact plan leaves nothing of the previous plan. Contact-transition queries return the contact before and after the queried time.',
 ['inputs','histories'],'every plan (number, order and timing of contacts per end effector) and every sequence of plans',
 'The contact plan code is not built by the test run.',
 [M+'cntopt/ContactPlanInterface.cpp',M+'cntopt/ContactState.cpp',MI+'cntopt/ContactState.hpp'],[('fillDynamicsSequence, findMake/BreakContactId',M+'cntopt/ContactPlanInterface.cpp'),('ContactState constructor',M+'cntopt/ContactState.cpp')])
p('C20','The momentum optimisation problem encodes centroidal dynamics',
 'Any solution of the optimisation problem built by the momentum planner satisfies the discretised centroidal dynamics: the centre of mass integrates the linear momentum, the linear momentum integrates gravity and the contact forces, and the angular momentum integrates the moments of the contact forces and torques about the centre of mass (up to the documented convex bounds on that product). The solution is written back so that each time step of the returned sequence carries the values of that step, and nothing is written outside the sequence. The final state and every kinematic limit that the settings request is imposed.',
 ['inputs','programs','configurations'],'every trajectory length, contact activation pattern, robot mass and weight',
 'The dynamics optimiser is not built by the test run and needs whole plans.',
 [M+'dynopt/DynamicsOptimizer.cpp',MI+'dynopt/DynamicsOptimizer.hpp'],[('internalOptimize constraints, storeSolution',M+'dynopt/DynamicsOptimizer.cpp')])
p('C21','Planned contact forces are physically admissible',
 'In the frame of the contact orientation the contact force is limited by the friction cone of the configured coefficient itself (second-order form) or by the four-sided pyramid around it whose facets touch the cone (linear form): every force of the cone is allowed, forces only push, and no allowed force exceeds the friction limit by more than the factor square root of two. Centres of pressure stay inside the configured support region and torque limits are respected. End effectors that are not in contact carry no force.',
 ['inputs','configurations'],'every friction coefficient, contact orientation and force',
 'Not built by the test run.',
 [M+'dynopt/DynamicsOptimizer.cpp',MI+'dynopt/DynamicsOptimizer.hpp'],[('FrictionCone::getCone and friction/CoP constraints',MI+'dynopt/DynamicsOptimizer.hpp')])
p('C22','The dynamics feedback model is the centroidal dynamics it tracks',
 'The model handed to the feedback design propagates centre of mass, linear and angular momentum exactly by the discretised centroidal dynamics with the contact forces as controls, for every contact configuration, and its cost is zero exactly on the planned motion and positive otherwise. Gains are stored for the time step and end effector they were computed for.',
 ['inputs','programs'],'every state, force, contact pattern and weight',
 'Not built by the test run.',
 [M+'dynopt/DynamicsFeedback.cpp',MI+'dynopt/DynamicsFeedback.hpp'],[('DynamicsFeedback::dynamics/objective/initialize',M+'dynopt/DynamicsFeedback.cpp')])
p('C23','Terrain regions contain exactly their polygon',
 'For every convex planar region given by its vertices, the half-space description holds for exactly the points of the polygon, every vertex lies on its boundary, and the region normal and rotation are orthonormal and aligned with the surface. Loading a terrain keeps every region and its order.',
 ['inputs'],'every convex planar polygon in space',
 'Not built by the test run.',
 [M+'cntopt/TerrainDescription.cpp',MI+'cntopt/TerrainDescription.hpp'],[('TerrainRegion::initialize',M+'cntopt/TerrainDescription.cpp')])
p('C24','The kinematics optimiser tracks the dynamics plan consistently',
 'The cost minimised by the kinematics optimiser is the weighted tracking error of centre of mass, momentum and end-effector motion, its gradient is the derivative of that cost, and joint limits are respected. Integrating a velocity step and differencing the postures returns the same step.',
 ['inputs','configurations'],'every posture, weight and reference',
 'Not built by the test run.',
 [M+'kinopt/KinematicsOptimizer.cpp',M+'kinopt/KinematicsState.cpp'],[('KinematicsOptimizer cost assembly',M+'kinopt/KinematicsOptimizer.cpp')])
p('C25','Manifold increments and differences of the whole-body state are inverse',
 'Incrementing a state by a tangent vector and differencing against the original returns that tangent vector (within the injectivity radius), and differencing two states then incrementing the first returns the second, with a unit quaternion again. Quaternion products, exponentials, logarithms and rotation matrices agree with each other for all unit quaternions.',
 ['inputs'],'every state, every tangent vector and quaternion sign',
 'Tests check single fixed states.',
 [PY+'lqr_gain_manifold.py'],[('increment_x, diff_x, quaternion helpers',PY+'lqr_gain_manifold.py')])
p('C26','Centroidal LQR gains come from the true linearisation and Riccati recursion',
 'The gain design linearises the centroidal dynamics it simulates (state and control Jacobians have the right sign, scale and place), its cost derivatives are those of the cost it evaluates, and the backward recursion returns the minimiser of the quadratic model and its value at every step. The simulated dynamics conserve momentum up to gravity and the applied wrench.',
 ['inputs','histories'],'every state, control, weight matrix and horizon',
 'Tests look at a handful of shapes and values at one operating point.',
 [PY+'lqr_gain_manifold.py'],[('integrate_step, dynamics_derivatives, cost_derivatives, compute_value_function',PY+'lqr_gain_manifold.py')])
p('C27','Minimum-jerk polynomials and polynomial lists satisfy their definition',
 'The generated polynomial passes through the given initial, via and final values with the requested zero velocities and accelerations for every time window, derivatives of polynomials are their derivatives, and a list of polynomials evaluates at each time the piece whose window contains that time. Constant and linear pieces return their values at the window ends.',
 ['inputs','histories'],'all boundary values, time windows and query times',
 'No test touches these helpers.',
 [PY+'min_jerk_traj.py'],[('Polynomial, PolynomialList, generate_eff_traj, constant_poly',PY+'min_jerk_traj.py')])
p('C28','The Python QP wrapper and inverse kinematics solve the problem they state',
 'The QP wrapper passes to the backend a problem whose solution set is that of: minimise one half x\'Px + q\'x subject to the given inequality and equality constraints, for every combination of present and absent constraints. The inverse-kinematics steps assemble the task Jacobians, errors and weights of the tasks that are active, each in its own rows, and nothing of inactive ones.',
 ['inputs','configurations'],'every matrix and every combination of constraints and active tasks',
 'No test touches them.',
 [PY+'qp.py',PY+'second_order_ik.py',PY+'inverse_kinematics.py'],[('quadprog_solve_qp',PY+'qp.py'),('SecondOrderInverseKinematics',PY+'second_order_ik.py'),('PointContactInverseKinematics',PY+'inverse_kinematics.py')])
MP='momentumopt/python/momentumopt/'
p('C29','The kinematics optimiser turns the dynamic plan into one consistent motion',
 'The whole-body motion starts in the initial posture (found once and kept), each step integrates the velocity of the inverse kinematics of that step over the time step, and the inverse kinematics is asked to follow the dynamic plan of the same step: its centre of mass, its momentum (during flight the momentum of the last stance kept, with gravity acting), its contacts and the end-effector trajectories. What is recorded for a step - posture, velocities, centre of mass, momenta, end-effector positions and velocities - belongs to the posture and velocity of that very step, and the dynamic plan that was passed in is left as it was, so that a second pass sees the same input.',
 ['inputs','histories'],'every dynamic plan, contact schedule, gain and weight, first and second order formulation, repeated calls',
 'No test runs the Python kinematics optimiser.',
 [PY+'momentum_kinematics_optimizer.py'],[('MomentumKinematicsOptimizer',PY+'momentum_kinematics_optimizer.py')])
p('C30','Resampled and exported motions are the motion that was planned',
 'Evaluating the planned motion at any time gives the linear interpolation between the two steps around that time and the first or last step outside the plan; each quantity comes from its own part of the plan and centroidal forces and moments are the sums over the end effectors in physical units. The time vector adds up the time step of each step. The exported files contain for every sample its number and the values at that time, limbs in the documented order, and a limb is marked in contact exactly when it carries a force.',
 ['inputs'],'every plan, quantity, query time and time discretisation',
 'No test exports or resamples a motion.',
 [MP+'motion_execution.py',PY+'create_data_file.py',MP+'motion_planner.py'],[('desired_state, interpolate',MP+'motion_execution.py'),('create_file, create_qp_files, create_lqr_files',PY+'create_data_file.py'),('create_time_vector',MP+'motion_planner.py')])
p('C31','The planner connects its parts as configured and alternates dynamics and kinematics',
 'The planner loads settings, initial state, terrain and contact plan from the one configuration it is given, puts every configured weight, gain and via point of the chosen formulation into the place it is meant for, optimises dynamics first without kinematic references and then alternates kinematics and dynamics the configured number of times, each following the latest result of the other, computes feedback gains for the final plan only if asked, and returns and saves the final motion with its own times.',
 ['configurations','histories'],'every configuration, number of iterations and formulation',
 'No test builds a planner.',
 [MP+'motion_planner.py',MP+'kino_dyn_planner.py'],[('MotionPlanner',MP+'motion_planner.py'),('parse_arguments, build_optimization, optimize_motion',MP+'kino_dyn_planner.py')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
