"""C31: contracts of the Python planner (MotionPlanner: construction, settings, alternation of dynamics and kinematics, saving; kino_dyn_planner)."""
from kvpy import *
import kvpy, re, types, contextlib, io
D = 'momentumopt/python/momentumopt/'; LOG = []
class NS:
    def __init__(self, **k): self.__dict__.update(k)
class Tok:
    """a value nobody computes with"""
    def __init__(self, n): self.n = n
    def __repr__(self): return '<%s>' % self.n
def names():
    """the names Python is given for the settings, each with the setting it stands for (taken from the bindings)"""
    src = open(kvpy.os.path.join(kvpy.REPO, 'momentumopt/srcpy/momentumopt/setting/PyParams.cpp')).read(); return dict(re.findall(r'\.value\(\s*"(\w+)"\s*,\s*(\w+)\s*\)', re.sub(r'/\*.*?\*/|//[^\n]*', '', src, flags=re.S)))
VALUES = {}
class Setting:
    def __init__(s): s.file = None
    def initialize(s, f, *a): s.file = (f,) + a; LOG.append(('settings', s, f) + a)
    def get(s, k): prove('settings are read after they are loaded', truth(s.file is not None)); return VALUES.setdefault(k, Tok(k))
class Rec:
    """an object that records what is called on it"""
    def __init__(s, *a, **k): s.args = (a, k); LOG.append((type(s).__name__, s) + a)
    def __getattr__(s, f):
        if f.startswith('__'): raise AttributeError(f)
        def call(*a, **k): LOG.append((f, s) + a + tuple(sorted(k.items())))
        return call
class State(Rec): pass
class Terrain(Rec): pass
class Lqr(Setting): pass
class ContactPlan(Rec):
    def contactSequence(s): return ('contacts of', s)
class Feedback(Rec): pass
class Wrapper: pass
class Other: pass
class Seq:
    def __init__(s, **k): s.__dict__.update(k)
class Dyn(Rec):
    def __init__(s): s.n = 0; s.seq = None; Rec.__init__(s)
    def initialize(s, st): LOG.append(('initialize', s, st))
    def optimize(s, ini, cp, kin, upd=False): s.n += 1; s.seq = Seq(number=s.n, dynamics_states=[NS(dt=vec('d%d_' % s.n, 3, .01, .2)[i]) for i in range(3)]); LOG.append(('dynamics', s, ini, cp, kin, bool(upd)))
    def dynamicsSequence(s): return s.seq
class Kin(Rec):
    def __init__(s): s.n = 0; s.kinematics_sequence = Seq(kinematics_states=[]); s.motion_eff = Tok('no motion'); s.inv_kin = NS(); s.snd_order_inv_kin = NS(); s.endeff_traj_generator = NS(); Rec.__init__(s)
    def initialize(s, st, *a, **k): LOG.append(('initialize', s, st, a, k))
    def optimize(s, ini, cs, ds, plotting=False): s.n += 1; LOG.append(('kinematics', s, ini, cs, ds)); s.kinematics_sequence = Seq(kinematics_states=[s.n]); s.motion_eff = Tok('motion %d' % s.n)
PM = module('pymomentum', PlannerSetting=Setting, DynamicsState=State, TerrainDescription=Terrain, ContactPlanFromFile=ContactPlan, DynamicsOptimizer=Dyn, DynamicsFeedback=Feedback, KinematicsSequence=Seq); NAMES = names(); PM.__dict__.update(NAMES); PM.__all__ = [n for n in PM.__dict__ if not n.startswith('_')]
def saver(n): return lambda *a: LOG.append((n,) + a)
class Plt(types.ModuleType):
    def __getattr__(s, n):
        if n.startswith('__'): raise AttributeError(n)
        return lambda *a, **k: (Rec(), [Rec()] * 9)
plt = Plt('matplotlib.pyplot'); pinm = module('pinocchio'); pu = module('pinocchio.utils'); pu.__all__ = []; pinm.utils = pu
SOLVER = module('pysolver'); SOLVER.__all__ = []; LQRM = module('pysolverlqr', SolverLqrSetting=Lqr); LQRM.__all__ = ['SolverLqrSetting']
mods = {'matplotlib': module('matplotlib', pyplot=plt), 'matplotlib.pyplot': plt, 'pinocchio': pinm, 'pinocchio.utils': pu, 'pymomentum': PM, 'pysolver': SOLVER, 'pysolverlqr': LQRM, 'momentumopt': module('momentumopt'), 'momentumopt.robots': module('momentumopt.robots'), 'momentumopt.robots.blmc_robot_wrapper': module('b', QuadrupedWrapper=Wrapper, Quadruped12Wrapper=Other, BipedWrapper=Other), 'momentumopt.kinoptpy': module('momentumopt.kinoptpy'), 'momentumopt.kinoptpy.momentum_kinematics_optimizer': module('k', MomentumKinematicsOptimizer=Kin, EndeffectorTrajectoryGenerator=NS), 'momentumopt.kinoptpy.create_data_file': module('c', create_file=saver('create_file'), create_qp_files=saver('create_qp_files'), create_lqr_files=saver('create_lqr_files'))}
T = load(D + 'motion_planner.py', mods, 'momentumopt')
K = load(D + 'kino_dyn_planner.py', dict(mods, **{'momentumopt.motion_planner': module('p', MotionPlanner=T.MotionPlanner), 'momentumopt.motion_execution': module('e', MotionExecutor=Rec)}), 'momentumopt')
def heads(fs, b=None): under_contract(*['momentumopt.' + f for f in fs]); bounded(b) if b else None; kvpy.set_tol(1e-6)
def quiet(f, *a, **k):
    if SYM: return f(*a, **k)
    with contextlib.redirect_stdout(io.StringIO()): return f(*a, **k)
def P(n): return VALUES.setdefault('Planner' + n, Tok('Planner' + n))
def build(**k): LOG.clear(); VALUES.clear(); return quiet(T.MotionPlanner, 'file.yaml', **k)
def event(*a): return [e for e in LOG if len(e) >= len(a) and all(x is y or (isinstance(x, (str, bool, tuple)) and x == y) for x, y in zip(e, a))]
def once(label, *a): prove(label, truth(len(event(*a)) == 1)); return LOG.index(event(*a)[0])
@case('construction')
def _():
    heads(['motion_planner.MotionPlanner.__init__']); lqr = bool(choice('lqr', 2)); P('StringParam_ConfigFile'); p = build(KinOpt=Kin, RobotWrapper=Other, with_lqr=lqr); cfg = P('StringParam_ConfigFile')
    once('the settings are those of the file', 'settings', p.planner_setting, 'file.yaml'); once('the feedback settings are those of the file', 'settings', p.dynlqr_setting, 'file.yaml', 'solverlqr_dynamics')
    a = once('the initial state is that of the file', 'fillInitialRobotState', p.ini_state, 'file.yaml'); b = once('the terrain is that of the configuration', 'loadFromFile', p.terrain_description, p.planner_setting.get(NAMES['PlannerStringParam_ConfigFile'])); c = once('the contact plan uses the settings', 'initialize', p.contact_plan, p.planner_setting); d = once('the contact plan is made from the initial state and the terrain', 'optimize', p.contact_plan, p.ini_state, p.terrain_description); prove('in an order that makes sense', truth(a < d and b < d and c < d)); once('the dynamics optimiser uses the settings', 'initialize', p.dyn_optimizer, p.planner_setting)
    e = event('initialize', p.kin_optimizer, p.planner_setting); prove('the kinematics optimiser uses the settings and the robot', truth(len(e) == 1 and (Other in e[0][3] or e[0][4].get('RobotWrapper') is Other))); prove('feedback gains are made when they are asked for', truth(bool(p.with_lqr) == lqr and p.dynamics_feedback is None))
FIRST = {'etg.z_offset': 'DoubleParam_SwingTrajViaZ', 'inv_kin.w_lin_mom_tracking': 'DoubleParam_WeightLinMomentumTracking', 'inv_kin.w_ang_mom_tracking': 'DoubleParam_WeightAngMomentumTracking', 'inv_kin.w_endeff_contact': 'DoubleParam_WeightEndEffContact', 'inv_kin.w_endeff_tracking': 'DoubleParam_WeightEndEffTracking', 'inv_kin.w_joint_regularization': 'DoubleParam_WeightJointReg', 'inv_kin.p_endeff_tracking': 'DoubleParam_PGainEndEffTracking', 'inv_kin.p_com_tracking': 'DoubleParam_PGainComTracking', 'opt.n_via_joint': 'IntParam_NumJointViapoints', 'opt.via_joint': 'CVectorParam_JointViapoints', 'opt.n_via_base': 'IntParam_NumBaseViapoints', 'opt.via_base': 'CVectorParam_BaseViapoints'}
SECOND = {k.replace('inv_kin', 'snd'): v + '_Second' for k, v in FIRST.items()}
FIRST.update({'opt.reg_orientation': 'DoubleParam_PGainOrientationTracking', 'opt.reg_joint_position': 'DoubleParam_PGainPositionTracking'})
SECOND.update({'snd.d_endeff_tracking': 'DoubleParam_DGainEndEffTracking_Second', 'snd.p_orient_tracking': 'DoubleParam_PGainBaseOrientationTracking_Second', 'snd.d_orient_tracking': 'DoubleParam_DGainBaseOrientationTracking_Second', 'snd.p_joint_regularization': 'DoubleParam_PGainJointRegularization_Second', 'snd.d_joint_regularization': 'DoubleParam_DGainJointRegularization_Second', 'snd.p_mom_tracking': 'VectorParam_PGainMomentumTracking_Second'})
@case('settings')
def _():
    heads(['motion_planner.MotionPlanner.init_from_settings', 'kino_dyn_planner.build_optimization']); second = bool(choice('second order', 2)); LOG.clear(); VALUES.clear(); VALUES['PlannerBoolParam_UseSecondOrderInverseKinematics'] = second
    if choice('through', 2):
        p = quiet(K.build_optimization, 'file.yaml', Other, True); e = event('initialize', p.kin_optimizer, p.planner_setting); prove('the planner is built as asked', truth(p.with_lqr is True and len(e) == 1 and (Other in e[0][3] or e[0][4].get('RobotWrapper') is Other))); once('the settings are those of the file', 'settings', p.planner_setting, 'file.yaml')
    else: p = quiet(T.MotionPlanner, 'file.yaml'); quiet(p.init_from_settings)
    k = p.kin_optimizer; where = {'etg': k.endeff_traj_generator, 'inv_kin': k.inv_kin, 'snd': k.snd_order_inv_kin, 'opt': k}; prove('the formulation is the one asked for', truth(k.use_second_order_inv_kin == second))
    for a, n in (SECOND if second else FIRST).items(): o, f = a.split('.'); prove('each setting reaches its place: ' + a, truth(o != '' and f in where[o].__dict__ and where[o].__dict__[f] is P(n)))
def trace(p): return [e for e in LOG if e[0] in ('dynamics', 'kinematics')]
def times(p, t): ds = p.dyn_optimizer.seq.dynamics_states; prove('one time for each step', truth(len(t) == len(ds))); prove('the motion starts at zero', eq(t[0], 0)); [prove('times are those of the final plan', eq(t[i] - t[i - 1], ds[i].dt)) for i in range(1, len(ds))]
@case('alternation')
def _():
    heads(['motion_planner.MotionPlanner.' + f for f in ('optimize_motion', 'optimize_dynamics', 'optimize_kinematics', 'optimize_dynamics_feedback', 'time_vector')] + ['kino_dyn_planner.optimize_motion', 'kino_dyn_planner.build_and_optimize_motion'], 'up to three iterations'); n = choice('iterations', 4); lqr = bool(choice('lqr', 2)); LOG.clear(); VALUES.clear(); VALUES.update({'PlannerIntParam_KinDynIterations': n, 'PlannerBoolParam_UseSecondOrderInverseKinematics': False}); way = choice('through', 3)
    if way == 2: p, *r = quiet(K.build_and_optimize_motion, 'file.yaml', Other, lqr)
    else:
        p = quiet(T.MotionPlanner, 'file.yaml', with_lqr=lqr); first = p.kin_optimizer.kinematics_sequence
        r = quiet(p.optimize_motion, False) if way else quiet(K.optimize_motion, p, False)
    kin, eff, dyn, fb, st, t = r; tr = trace(p); prove('dynamics first, then kinematics and dynamics in turn', truth([e[0] for e in tr] == ['dynamics'] + ['kinematics', 'dynamics'] * n)); d = [e for e in tr if e[0] == 'dynamics']; k = [e for e in tr if e[0] == 'kinematics']
    prove('every optimisation starts from the initial state', truth(all(e[2] is p.ini_state for e in tr))); prove('dynamics follow the contact plan', truth(all(e[3] is p.contact_plan for e in d))); prove('kinematics follow the contact sequence', truth(all(e[3] == ('contacts of', p.contact_plan) for e in k))); prove('kinematics are used once they are there', truth([e[5] for e in d] == [False] + [True] * n))
    prove('each dynamics step follows the kinematics before it', truth([e[4].kinematics_states for e in d] == [[]] + [[i + 1] for i in range(n)])); dy = [e[4] for e in k]; prove('each kinematics step follows the dynamics before it', truth([x.number for x in dy] == list(range(1, n + 1))))
    prove('the motion returned is the last one', truth(kin is p.kin_optimizer.kinematics_sequence and eff is p.kin_optimizer.motion_eff and dyn is p.dyn_optimizer.seq and st is p.planner_setting)); times(p, t); times(p, p.time_vector()); f = [e for e in LOG if e[0] in ('Feedback', 'initialize', 'optimize') and isinstance(e[1], Feedback)]
    if lqr: prove('feedback gains are those of the final plan', truth([e[0] for e in f] == ['Feedback', 'initialize', 'optimize'] and fb is f[0][1] is p.dynamics_feedback and f[1][1] is fb and f[2][1] is fb and f[1][2] is p.dynlqr_setting and f[1][3] is p.planner_setting and f[2][2] is p.ini_state and f[2][3] is p.dyn_optimizer.seq and LOG.index(f[2]) > LOG.index(tr[-1])))
    else: prove('no feedback gains when none are asked for', truth(not f and fb is None))
@case('saving')
def _():
    heads(['motion_planner.MotionPlanner.save_files', 'motion_planner.MotionPlanner.save_qp_files']); lqr = bool(choice('lqr', 2)); LOG.clear(); VALUES.clear(); VALUES['PlannerIntParam_KinDynIterations'] = 1; p = quiet(T.MotionPlanner, 'file.yaml', with_lqr=lqr); quiet(p.optimize_motion, False); LOG.clear(); w = P('DoubleParam_RobotWeight')
    quiet(p.save_files); e = {x[0]: x for x in LOG if x[0].startswith('create')}; prove('the files asked for are written', truth(sorted(e) == (['create_file', 'create_lqr_files'] if lqr else ['create_file']))); x = e['create_file']; times(p, x[1]); prove('the motion saved is the one optimised', truth(x[2] is p.kin_optimizer.kinematics_sequence and x[3] is p.dyn_optimizer.seq and x[4] is p.dynamics_feedback and x[5] is w))
    LOG.clear(); quiet(p.save_qp_files); e['create_qp_files'] = [x for x in LOG if x[0] == 'create_qp_files'][0]
    for n in ('create_qp_files',) + (('create_lqr_files',) if lqr else ()): x = e[n]; times(p, x[1]); prove('the motion saved is the one optimised', truth(x[2] is p.kin_optimizer.motion_eff and x[3] is p.kin_optimizer.kinematics_sequence and x[4] is p.dyn_optimizer.seq and x[5] is p.dynamics_feedback and x[6] is w))
@case('arguments')
def _():
    heads(['kino_dyn_planner.parse_arguments']); f = '/proc/self/status'; wr = choice('robot', 3); args = [['-i', f], ['--ifile', f], ['--ifile=' + f]][choice('how', 3)] + [[], ['--solo12'], ['--bolt']][wr] + [[], ['--disable_lqr']][choice('no lqr', 2)]; K.Quadruped12Wrapper = Rec; c, w, l = quiet(K.parse_arguments, args); prove('the file is the one given', truth(c == f)); prove('the robot is the one asked for', truth(w is (Wrapper, Rec, Other)[wr])); prove('feedback gains are off', truth(not l))
    try: quiet(K.parse_arguments, ['-i', '/nonexistent/file.yaml']); bad = False
    except RuntimeError: bad = True
    prove('a missing file is refused', truth(bad))
if __name__ == '__main__': kvpy.main()
