"""C29: contracts of the kinematic optimisation of a motion (momentum_kinematics_optimizer.MomentumKinematicsOptimizer)."""
from kvpy import *
import kvpy, numpy as _np
D = 'momentumopt/python/momentumopt/kinoptpy/'; P = 'momentumopt.kinoptpy.momentum_kinematics_optimizer.MomentumKinematicsOptimizer.'
NJ = 2; NV = 6 + NJ; OBJ = object if SYM else float
M = load(D + 'min_jerk_traj.py')
class NS:
    def __init__(self, **k): self.__dict__.update(k)
names = ['PlannerVectorParam_KinematicDefaultJointPositions', 'PlannerIntParam_NumTimesteps', 'PlannerDoubleParam_TimeStep', 'PlannerIntParam_NumDofs', 'PlannerDoubleParam_RobotWeight']
TAGS = []
def val(v): return _np.asarray(v, dtype=OBJ).reshape(-1)
def tag(q):
    q = val(q)
    for i, p in enumerate(TAGS):
        if len(p) == len(q) and bool(valid(same(p, q))): return str(i)
    TAGS.append(q.copy()); return str(len(TAGS) - 1)
# ------------------------------------------------------------------ contracts of pinocchio
def qmul(a, b): # x y z w
    return arr([a[3] * b[0] + b[3] * a[0] + a[1] * b[2] - a[2] * b[1], a[3] * b[1] + b[3] * a[1] + a[2] * b[0] - a[0] * b[2], a[3] * b[2] + b[3] * a[2] + a[0] * b[1] - a[1] * b[0], a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2]])
def conj(a): return arr([-a[0], -a[1], -a[2], a[3]])
class Rot:
    def __init__(self, c): self.c = c
    @property
    def T(self): return Rot(conj(self.c))
    def dot(self, o): return Rot(qmul(self.c, o.c))
    __matmul__ = dot
class Quat:
    def __init__(self, *a):
        if len(a) == 1: self.c = arr(a[0].c) if isinstance(a[0], (Rot, Quat)) else arr(val(a[0]))
        else: self.c = arr([a[1], a[2], a[3], a[0]])
    def coeffs(self): return self.c.copy()
    def inverse(self): return Quat(Rot(conj(self.c)))
    conjugate = inverse
    def __mul__(self, o): return Quat(Rot(qmul(self.c, o.c)))
    def matrix(self): return Rot(self.c)
    toRotationMatrix = matrix
def rpy_quat(v): v = val(v); return arr([0, 0, 0, 1]) if bool(valid(same(v, arr([0, 0, 0])))) else vec('rpy%s_' % tag(v), 4)
def log3(R): return vec('log%s_' % tag(R.c), 3)
def neutral(m): return arr([0] * 6 + [1] + [0] * NJ)
def integ(m, q, v): return vec('int%s_%s_' % (tag(q), tag(v)), NV + 1)
class Robot:
    """contract of the robot: quantities are functions of the configuration and velocity they are asked for; frame positions those of the last update"""
    def __init__(self): self.data = NS(oMf=Frames(self)); self.at = None
    def com(self, q): return vec('com%s_' % tag(q), 3)
    def centroidalMomentum(self, q, dq): h = Ag(q).dot(val(dq)); return NS(linear=h[:3], angular=h[3:], vector=h)
def Ag(q): return mat('Ag%s_' % tag(q), 6, NV, -1, 1)
def pos(i, q): return vec('pos%d_%s_' % (i, tag(q)), 3)
def jac(i, q): return mat('jac%d_%s_' % (i, tag(q)), 6, NV, -1, 1)
class Frames:
    def __init__(self, r): self.r = r
    def __getitem__(self, i): prove('frame positions are used after an update of the configuration', truth(self.r.at is not None)); return NS(translation=pos(i, self.r.at))
CALLS, SOLVES, RUNS = [], [], []
class InvKin:
    """contract of PointContactInverseKinematics (C28)"""
    def __init__(self, model, effs): self.robot = Robot(); self.model = model; self.endeff_ids = [model.getFrameId(e) for e in effs]; self.ne = len(effs); self.nv = NV; self.is_init_time = 1; self.J = mat('never', (self.ne + 2) * 3 + NJ, NV, -1, 1)
    def forward_robot(self, q, dq): self.robot.at = val(q).copy()
    def fill_jacobians(self, q):
        q = self.robot.at; self.J[:6] = Ag(q)
        for i, f in enumerate(self.endeff_ids): self.J[6 + 3 * i:9 + 3 * i] = jac(f, q)[:3]
    def get_world_oriented_frame_jacobian(self, q, f): return jac(f, self.robot.at)
    def compute(self, q, dq, com, lm, am, ep, ev, con, jr, fl=False):
        k = len(CALLS); CALLS.append(dict(q=val(q).copy(), dq=val(dq).copy(), com=val(com).copy(), lm=val(lm).copy(), am=val(am).copy(), ep=_np.asarray(ep, dtype=OBJ).copy(), ev=_np.asarray(ev, dtype=OBJ).copy(), con=val(con).copy(), jr=None if jr is None else val(jr).copy(), fl=bool(fl), init=self.is_init_time)); self.forward_robot(q, dq); self.fill_jacobians(q); r = vec('step%d_' % k, NV); CALLS[-1]['r'] = r.copy(); return r
class SecondOrder:
    def __init__(self, model, effs): pass
    def solve(self, *a):
        SOLVES.append([_np.array(x) if isinstance(x, _np.ndarray) else x for x in a]); N = len(a[3]); n = N
        return mat('sq', N, NV + 1), mat('sdq', N, NV), mat('sc', N, 3), mat('sl', N, 3), mat('sa', N, 3), mat('sp', N, 3), mat('sv', N, 3)
class Sequence:
    def __init__(self): self.kinematics_states = []
    def resize(self, n, d): self.kinematics_states = [NS(robot_posture=NS(), robot_velocity=NS()) for _ in range(int(n))]; self.dofs = d
class Model:
    def __init__(self): self.names = ['base', 'FL_HFE', 'FL_FOOT', 'FR_HFE', 'FR_FOOT']; self.nq, self.nv = NV + 1, NV; self.frames = self.names
    def getFrameId(self, n): return self.names.index(n)
class Wrapper:
    def __init__(self): self.model = Model(); self.effs = ['FR', 'FL']; self.joints_list = ['HFE', 'KFE', 'FOOT']; self.num_ctrl_joints = NJ; self.robot = NS(nv=NV, nq=NV + 1)
class Interp:
    """contract of TrajectoryInterpolator (C27)"""
    def __init__(self): RUNS.append(self); self.key = len(RUNS); self.ready = None
    def generate_trajectory(self, n, via, dt): self.ready = (n, via, dt, val(self.init).copy(), val(self.end).copy(), self.num_time_steps)
    def evaluate_trajecory(self, t): prove('trajectories are generated before use', truth(self.ready is not None)); return vec('traj%d_%d_' % (self.key, t), len(self.init)).reshape(1, -1)
pin = module('pinocchio', RobotWrapper=Wrapper, neutral=neutral, Quaternion=Quat, rpy=module('pinocchio.rpy', rpyToMatrix=lambda *a: Rot(rpy_quat(a[0] if len(a) == 1 else a))), log=log3, log3=log3, integrate=integ); pu = module('pinocchio.utils', zero=lambda n: arr([0] * n)); pin.utils = pu
pym = module('pymomentum', KinematicsSequence=Sequence, **{n: n for n in names}); pym.__all__ = names + ['KinematicsSequence']
K = load(D + 'momentum_kinematics_optimizer.py', {'pinocchio': pin, 'pinocchio.utils': pu, 'pymomentum': pym, 'momentumopt': module('momentumopt'), 'momentumopt.kinoptpy': module('momentumopt.kinoptpy'), 'momentumopt.robots': module('momentumopt.robots'), 'momentumopt.robots.blmc_robot_wrapper': module('b', QuadrupedWrapper=Wrapper), 'momentumopt.kinoptpy.qp': module('qp', QpSolver=object), 'momentumopt.kinoptpy.inverse_kinematics': module('i', PointContactInverseKinematics=InvKin), 'momentumopt.kinoptpy.second_order_ik': module('s', SecondOrderInverseKinematics=SecondOrder), 'momentumopt.kinoptpy.min_jerk_traj': M})
K.TrajectoryInterpolator = Interp
class Setting:
    def __init__(self, N, joints): self.v = dict(zip(names, [joints, N, input('dt', .01, .1), NJ, input('weight', 5, 30)]))
    def get(self, n): return self.v[n]
class State:
    def __init__(self, s, act): self.com, self.lmom, self.amom = vec('dyn_com' + s, 3), vec('dyn_lmom' + s, 3), vec('dyn_amom' + s, 3); self.act = act; self.keep = _np.hstack([self.com, self.lmom, self.amom])
    def effActivation(self, i): return bool(self.act[i])
def plan(N, acts, s=''): return NS(dynamics_states=[State('%s%d_' % (s, t), acts[t]) for t in range(N)])
def gen(s=''):
    def g(o): N = o.num_time_steps; return mat('ref%spos' % s, N, 6).reshape(N, 2, 3), mat('ref%svel' % s, N, 6).reshape(N, 2, 3), mat('ref%scon' % s, N, 2)
    return g
def make(N, joints=None, its=2): TAGS.clear(); del CALLS[:], SOLVES[:], RUNS[:]; kvpy.set_tol(1e-5); s = Setting(N, vec('rest', NJ) if joints is None else joints); o = K.MomentumKinematicsOptimizer(); o.initialize(s, max_iterations=its, endeff_traj_generator=gen(), RobotWrapper=Wrapper); return o, s
def heads(fs, b=None): under_contract(*[P + f for f in fs]); bounded(b) if b else None; assumption('the inverse kinematics (C28), trajectory interpolator (C27) and the robot model satisfy their contracts')
FEET, HIPS = [4, 2], [3, 1]
def recorded(o, it, q, dq, what=''):
    """what is stored for a step is what the robot does in the posture and with the velocity of that step"""
    dq = val(dq); h = Ag(q).dot(dq); s = o.kinematics_sequence.kinematics_states[it]
    prove_eq('each step stores its posture' + what, _np.hstack([val(o.q_kin[it]), val(s.robot_posture.base_position), val(s.robot_posture.base_orientation), val(s.robot_posture.joint_positions)]), _np.hstack([q, q])); prove_eq('each step stores its velocity' + what, _np.hstack([val(o.dq_kin[it]), val(s.robot_velocity.base_linear_velocity), val(s.robot_velocity.base_angular_velocity), val(s.robot_velocity.joint_velocities)]), _np.hstack([dq, dq]))
    prove_eq('each step stores its centre of mass' + what, _np.hstack([val(o.com_kin[it]), val(s.com)]), _np.hstack([vec('com%s_' % tag(q), 3)] * 2)); prove_eq('each step stores its momentum' + what, _np.hstack([val(o.lmom_kin[it]), val(o.amom_kin[it]), val(s.lmom), val(s.amom)]), _np.hstack([h, h]))
    p, v = [_np.hstack([pos(i, q) for i in F]) for F in (FEET, HIPS)], [_np.hstack([jac(i, q)[:3].dot(dq) for i in F]) for F in (FEET, HIPS)]
    prove_eq('each step stores its end-effector positions' + what, o.motion_eff['trajectory'][it], p[0]); prove_eq('each step stores its end-effector velocities' + what, o.motion_eff['velocity'][it], v[0]); prove_eq('positions relative to the hips' + what, o.motion_eff['trajectory_wrt_base'][it], p[0] - p[1]); prove_eq('velocities relative to the hips' + what, o.motion_eff['velocity_wrt_base'][it], v[0] - v[1])
@case('setup')
def _():
    heads(['__init__', 'initialize', 'reset']); N = 1 + choice('steps', 3); o, s = make(N); prove('every step has its own space', truth(all(len(x) == N for x in (o.com_dyn, o.lmom_dyn, o.amom_dyn, o.com_kin, o.lmom_kin, o.amom_kin, o.q_kin, o.dq_kin, o.kinematics_sequence.kinematics_states)))); prove('end effectors and hips are those of the robot', truth(list(o.inv_kin.endeff_ids) == FEET and list(o.hip_ids) == HIPS and list(o.eff_names) == ['FR_FOOT', 'FL_FOOT'])); prove('no posture yet', truth(o.q_init is None))
    a = o.kinematics_sequence; o.reset(); prove('resetting starts a new plan', truth(o.kinematics_sequence is not a and len(o.kinematics_sequence.kinematics_states) == N)); g = K.MomentumKinematicsOptimizer(); g.initialize(s, RobotWrapper=Wrapper); prove('end-effector references are generated by default', truth(isinstance(g.endeff_traj_generator, K.EndeffectorTrajectoryGenerator)))
@case('initial_posture')
def _():
    its = 1 + choice('iterations', 3); heads(['optimize_initial_position'], 'up to three iterations'); o, s = make(2, its=its); c = vec('ini_com', 3); ep = mat('ini_pos', 2, 3); init = NS(com=c.copy(), effPosition=lambda i: ep[i].copy()); o.optimize_initial_position(init); n = len(CALLS); rest = s.v[names[0]]; q = arr([0, 0, c[2], 0, 0, 0, 1] + list(rest)); prove('at least one step, at most as many as allowed', truth(1 <= n <= its))
    for k in range(n):
        x = CALLS[k]; L = log3(Rot(conj(q[3:7]))); prove_eq('each step starts where the last one ended', x['q'], q); prove_eq('the robot is at rest', _np.hstack([x['dq'], x['lm'], x['ev'].reshape(-1)]), arr([0] * (NV + 3 + 6))); prove_eq('the base is turned upright', x['am'], num(1, 10) * L); prove_eq('references are those of the initial state', _np.hstack([x['com'], x['ep'].reshape(-1)]), _np.hstack([c, ep.reshape(-1)])); prove_eq('all end effectors are in contact', x['con'], arr([1, 1])); prove('no posture reference, no flight', truth(x['jr'] is None and not x['fl'])); r = vec('step%d_' % k, NV); q = integ(None, q, r); small = lt(kvpy.sqrt(sum([a * a for a in r], num(0))), num(1, 1000))
        if k < n - 1: prove('iterations go on until the step is small', pnot(small))
        elif n < its: prove('iterations end early only when the step is small', small)
    prove_eq('the initial posture is the last one', o.q_init, q); prove_eq('it is at rest', o.dq_init, arr([0] * NV)); prove_eq('the initial state is left alone', init.com, c); prove_eq('default joint positions are left alone', s.v[names[0]], vec('rest', NJ))
    b, _s = make(2, joints=vec('rest', NJ + 1))
    try: b.optimize_initial_position(init); bad = False
    except ValueError: bad = True
    prove('a wrong number of joints is refused', truth(bad))
ACTS = [(1, 1), (0, 1), (1, 0), (0, 0)]
def first(N, acts, joint, base, reuse, s=''):
    o, st = make(N); dt, W = st.v[names[2]], st.v[names[4]]; o.reg_orientation, o.reg_joint_position = input('reg_ori', .01, 1), input('reg_joint', .1, 2); ini = NS(com=vec('ini_com', 3), effPosition=lambda i: mat('ini_pos', 2, 3)[i]); o.q_init, o.dq_init = vec('q0_', NV + 1), vec('dq0_', NV)
    if joint: o.n_via_joint, o.via_joint = 1, 'joint vias'
    if base: o.n_via_base, o.via_base = 2, 'base vias'
    if reuse: o.optimize(ini, None, plan(N, [(1, 1)] * N, 'x')); del CALLS[:], RUNS[:]; o.endeff_traj_generator = gen('y')
    d = plan(N, acts); o.optimize(ini, None, d); q, dq = vec('q0_', NV + 1), vec('dq0_', NV); prove_eq('the initial posture is kept', _np.hstack([o.q_init, o.dq_init]), _np.hstack([q, dq])); prove('one step of inverse kinematics for each step of the plan', truth(len(CALLS) == N)); rp, rv, rc = gen('y' if reuse else '')(o); ji = [r for r in RUNS if r.ready and r.ready[1] == 'joint vias']; bi = [r for r in RUNS if r.ready and r.ready[1] == 'base vias']; what = ' (again)' if reuse else ''; prove('trajectories for the given via points', truth(len(ji) == joint and len(bi) == base))
    for r, n in [(r, 1) for r in ji] + [(r, 2) for r in bi]: z = q[7:] if n == 1 else arr([0] * 3); prove('via points are those of the settings', truth(r.ready[0] == n and r.ready[5] == N)); prove_eq('trajectories start and end at rest', _np.hstack([r.ready[3], r.ready[4]]), _np.hstack([z, z])); prove('the time step is that of the plan', eq(r.ready[2], dt))
    for t in range(N):
        x = CALLS[t]; S = d.dynamics_states[t]; fl = not any(acts[t]); jd = vec('traj%d_%d_' % (ji[0].key, t), NJ) if joint else q if False else vec('q0_', NV + 1)[7:]; bd = vec('traj%d_%d_' % (bi[0].key, t), 3) if base else arr([0] * 3)
        prove_eq('the posture is integrated with the velocity of the last step' + what, _np.hstack([x['q'], x['dq']]), _np.hstack([q, dq])); prove_eq('centre of mass and end effectors follow their references' + what, _np.hstack([x['com'], x['ep'].reshape(-1), x['ev'].reshape(-1), x['con']]), _np.hstack([vec('dyn_com%d_' % t, 3), rp[t].reshape(-1), rv[t].reshape(-1), rc[t]])); prove('feedback on end effectors is that of a motion', truth(x['init'] == 0)); prove('flight is when no end effector is in contact', truth(x['fl'] == fl)); prove_eq('joints are drawn to their trajectory' + what, x['jr'], o.reg_joint_position * (jd - q[7:]))
        if fl: h = Ag(take[0]).dot(take[1]); n = t - take[2]; prove_eq('horizontal momentum is kept in flight', x['lm'][:2], h[:2]); prove_eq('angular momentum is kept in flight', x['am'], h[3:]); prove('vertical momentum falls with the weight in flight', eq(x['lm'][2], vec('dyn_lmom%d_' % take[2], 3)[2] - num(n) * W * dt))
        else: take = (q, dq, t); g = rpy_quat(bd); L = log3(Rot(qmul(g, conj(q[3:7])))); prove_eq('linear momentum follows the plan' + what, x['lm'], vec('dyn_lmom%d_' % t, 3)); prove_eq('angular momentum follows the plan and rights the base' + what, x['am'], vec('dyn_amom%d_' % t, 3) + o.reg_orientation * L)
        recorded(o, t, q, dq, what); dq = vec('step%d_' % t, NV); q = integ(None, q, x['r'] * dt) if True else q
    for t, S in enumerate(d.dynamics_states): k = _np.hstack([vec('dyn_com%d_' % t, 3), vec('dyn_lmom%d_' % t, 3), vec('dyn_amom%d_' % t, 3)]); prove_eq('the plan is taken over', _np.hstack([o.com_dyn[t], o.lmom_dyn[t], o.amom_dyn[t]]), k); prove_eq('the plan is left alone', _np.hstack([S.com, S.lmom, S.amom]), k)
FS = ['optimize', 'fill_data_from_dynamics', 'fill_endeffector_trajectory', 'fill_kinematic_result']
@case('first_order')
def _(): heads(FS, 'up to three time steps, two end effectors, two joints'); N = 1 + choice('steps', 3); first(N, [ACTS[choice('contacts%d' % t, 4 if t else 3)] for t in range(N)], 0, 0, 0)
@case('first_order_vias')
def _(): heads(FS, 'two time steps'); first(2, [(1, 1), (0, 1)], choice('joint', 2), choice('base', 2), 0)
@case('first_order_again')
def _(): heads(FS, 'two or three time steps'); N = 2 + choice('steps', 2); first(N, [(1, 0)] + [ACTS[choice('contacts%d' % t, 4)] for t in range(1, N)], 0, 0, 1)
@case('posture_once')
def _():
    heads(FS); o, st = make(2, its=1); ini = NS(com=vec('ini_com', 3), effPosition=lambda i: mat('ini_pos', 2, 3)[i]); o.optimize(ini, None, plan(2, [(1, 1)] * 2)); q = o.q_init.copy(); n = len(CALLS); prove('the initial posture is optimised first', truth(n == 3 and CALLS[0]['init'] == 1)); prove_eq('the motion starts in the initial posture', _np.hstack([CALLS[1]['q'], CALLS[1]['dq']]), _np.hstack([q, arr([0] * NV)])); recorded(o, 0, q, arr([0] * NV)); o.optimize(ini, None, plan(2, [(1, 1)] * 2, 'x')); prove('and only once', truth(len(CALLS) == n + 2)); prove_eq('every optimisation starts in it', _np.hstack([CALLS[3]['q'], CALLS[3]['dq']]), _np.hstack([q, arr([0] * NV)]))
@case('second_order')
def _():
    heads(FS, 'two or three time steps'); N = 2 + choice('steps', 2); o, st = make(N); o.use_second_order_inv_kin = True; o.q_init, o.dq_init = vec('q0_', NV + 1), vec('dq0_', NV); ini = NS(com=vec('ini_com', 3), effPosition=lambda i: mat('ini_pos', 2, 3)[i]); d = plan(N, [ACTS[choice('contacts%d' % t, 2)] for t in range(N)]); o.optimize(ini, None, d); prove('one solve', truth(len(SOLVES) == 1 and not CALLS)); dt, q, dq, c, l, a, ep, ev, con, jd, bd = SOLVES[0]; rp, rv, rc = gen()(o); f = lambda k: _np.array([vec('dyn_%s%d_' % (k, t), 3) for t in range(N)], dtype=OBJ)
    prove_eq('the solve starts in the initial posture', _np.hstack([q, dq, val([dt])]), _np.hstack([vec('q0_', NV + 1), vec('dq0_', NV), val([st.v[names[2]]])])); prove_eq('the solve follows the plan', _np.hstack([c, l, a]), _np.hstack([f('com'), f('lmom'), f('amom')])); prove_eq('the solve follows the end-effector references', _np.hstack([val(ep), val(ev), val(con)]), _np.hstack([val(rp), val(rv), val(rc)])); prove_eq('joints are drawn to the initial posture, the base to the upright', _np.hstack([jd, bd]), _np.array([list(vec('q0_', NV + 1)[7:]) + [num(0)] * 3] * N, dtype=OBJ))
    for t in range(N): recorded(o, t, mat('sq', N, NV + 1)[t], mat('sdq', N, NV)[t])
if __name__ == '__main__': kvpy.main()
