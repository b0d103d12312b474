"""C30: contracts of the resampling and the export of a motion (motion_execution.desired_state / interpolate, create_data_file, create_time_vector)."""
from kvpy import *
import kvpy, numpy as _np, types
D = 'momentumopt/python/momentumopt/'; OBJ = object if SYM else float
class NS:
    def __init__(self, **k): self.__dict__.update(k)
class Any:
    def __init__(self, *a, **k): pass
def isf(v): return True
pinm = module('pinocchio'); pu = module('pinocchio.utils', zero=lambda n: arr([0] * n)); pinm.utils = pu; pym = module('pymomentum'); pym.__all__ = []
base = {'pinocchio': pinm, 'pinocchio.utils': pu, 'pymomentum': pym, 'pybullet': module('pybullet'), 'momentumopt': module('momentumopt'), 'momentumopt.robots': module('momentumopt.robots'), 'momentumopt.robots.blmc_robot_wrapper': module('b', QuadrupedWrapper=Any), 'momentumopt.robots.simulator': module('s', Simulator=Any), 'momentumopt.kinoptpy': module('momentumopt.kinoptpy'), 'momentumopt.kinoptpy.utils': module('u', isfloat=isf)}
E = load(D + 'motion_execution.py', base, 'momentumopt')
SRC = {}
def source(kind):
    def f(spec, tv, **kw): return lambda t: SRC[kind](spec, tv, t, kw)
    return f
X = load(D + 'kinoptpy/create_data_file.py', dict(base, **{'momentumopt.motion_execution': module('e', desired_state=source('desired_state'), interpolate=source('interpolate'))}), 'momentumopt.kinoptpy')
FILES = {}
class Np(types.ModuleType):
    def __getattr__(self, n): return getattr(kvpy.NP, n)
    def savetxt(self, f, a, *k, **w): prove('each file is written once', truth(f not in FILES)); FILES[f] = _np.array(a)
X.np = Np('numpy')
def silent(f, *a):
    if SYM: return f(*a)
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()): return f(*a)
plt = module('matplotlib.pyplot'); mods = dict(base, **{'matplotlib': module('matplotlib', pyplot=plt), 'matplotlib.pyplot': plt, 'pysolver': module('pysolver'), 'pysolverlqr': module('pysolverlqr'), 'momentumopt.kinoptpy.momentum_kinematics_optimizer': module('k', MomentumKinematicsOptimizer=Any, EndeffectorTrajectoryGenerator=Any), 'momentumopt.kinoptpy.create_data_file': module('c', create_file=None, create_qp_files=None, create_lqr_files=None)})
T = load(D + 'motion_planner.py', mods, 'momentumopt')
def heads(fs, b=None): under_contract(*['momentumopt.' + f for f in fs]); bounded(b) if b else None; kvpy.set_tol(1e-6)
NE = 2
class Kin:
    def __init__(s, t): s.robot_posture = NS(joint_positions=vec('jp%d_' % t, 2), generalized_joint_positions=vec('gp%d_' % t, 9)); s.robot_velocity = NS(joint_velocities=vec('jv%d_' % t, 2), generalized_joint_velocities=vec('gv%d_' % t, 8)); s.robot_acceleration = NS(generalized_joint_accelerations=vec('ga%d_' % t, 8)); s.com, s.lmom, s.amom = vec('c%d_' % t, 3), vec('l%d_' % t, 3), vec('a%d_' % t, 3)
class Dyn:
    def __init__(s, t): s.t = t; s.com = vec('dc%d_' % t, 3)
    def effNum(s): return NE
    def effForce(s, i): return vec('f%d_%d_' % (i, s.t), 3)
    def effPosition(s, i): return vec('p%d_%d_' % (i, s.t), 3)
class Feed:
    def forceGain(s, t): return mat('K%d_' % t, 6, 9)
def cross(a, b): return arr([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
def W(): w = input('weight', 5, 30); assume(lt(0, w)); return w
KIN = {'POSITION': lambda t: vec('jp%d_' % t, 2), 'VELOCITY': lambda t: vec('jv%d_' % t, 2), 'GENERALIZED_POSITION': lambda t: vec('gp%d_' % t, 9), 'GENERALIZED_VELOCITY': lambda t: vec('gv%d_' % t, 8), 'GENERALIZED_ACCELERATION': lambda t: vec('ga%d_' % t, 8), 'FORCES': lambda t: _np.hstack([vec('f%d_%d_' % (i, t), 3) for i in range(NE)]), 'COM': lambda t: vec('c%d_' % t, 3), 'LMOM': lambda t: vec('l%d_' % t, 3), 'AMOM': lambda t: vec('a%d_' % t, 3), 'DYN_FEEDBACK': lambda t: mat('K%d_' % t, 6, 9)}
EFF = {'POSITION': lambda t: vec('mp%d_' % t, 6), 'VELOCITY': lambda t: vec('mv%d_' % t, 6), 'POSITION_ABSOLUTE': lambda t: vec('ap%d_' % t, 6), 'VELOCITY_ABSOLUTE': lambda t: vec('av%d_' % t, 6), 'QUATERNION': lambda t: vec('gp%d_' % t, 9)[3:7], 'BASE_ANGULAR_VELOCITY': lambda t: vec('gv%d_' % t, 8)[3:6], 'CENTROIDAL_FORCES': lambda t: sum([W() * vec('f%d_%d_' % (i, t), 3) for i in range(NE)], arr([0] * 3)), 'CENTROIDAL_MOMENTS': lambda t: sum([cross(vec('p%d_%d_' % (i, t), 3) - vec('dc%d_' % t, 3), W() * vec('f%d_%d_' % (i, t), 3)) for i in range(NE)], arr([0] * 3))}
EFF.update({k: KIN[k] for k in ('FORCES', 'COM', 'LMOM', 'AMOM', 'DYN_FEEDBACK')})
def between(f, table, kw, N):
    names = sorted(table); s = names[choice('quantity', len(names))]; dts = [input('h%d' % i, .1, 1) for i in range(N - 1)]; tv = [input('t0', -1, 1)]
    for h in dts: assume(lt(0, h)); tv.append(tv[-1] + h)
    t = input('t', -1.5, 3); keep = arr(list(tv)); tv = arr(tv); g = f(s, tv, **kw); v = g(t); z = (0,) * _np.ndim(v); at = table[s]; prove('a value is of the size of the quantity', truth(_np.shape(v) == _np.shape(at(0)))); v = _np.asarray(v, dtype=OBJ).reshape(-1); st = [_np.asarray(at(i), dtype=OBJ).reshape(-1) for i in range(N)]
    for i in range(N - 1):
        inside = pand(le(tv[i], t), le(t, tv[i + 1])); d = tv[i + 1] - tv[i]
        if not valid(pnot(inside)): prove('between two steps the motion is interpolated linearly', implies(inside, same(v * d, st[i] * (tv[i + 1] - t) + st[i + 1] * (t - tv[i]))))
    [prove('%s the motion is at its %s' % (n, e), implies(c, same(v, st[k]))) for n, e, c, k in (('before the first step', 'start', le(t, tv[0]), 0), ('after the last step', 'end', le(tv[N - 1], t), N - 1)) if not valid(pnot(c))]; prove_eq('times are left alone', tv, keep)
    if N == 2 and s == 'COM': u = input('u', -1.5, 3); w = _np.asarray(g(u), dtype=OBJ).reshape(-1); prove('a later time does not depend on the times asked before', implies(eq(u, t), same(v, w)))
def feet(N, k, n): m = _np.empty((N, n), dtype=OBJ); m[:] = [vec('%s%d_' % (k, t), n) for t in range(N)]; return m
@case('desired_state')
def _():
    heads(['motion_execution.desired_state'], 'one to three time steps'); N = 1 + choice('steps', 3); between(E.desired_state, KIN, dict(optimized_sequence=NS(kinematics_states=[Kin(t) for t in range(N)]), dynamics_feedback=Feed(), optimized_dyn_plan=NS(dynamics_states=[Dyn(t) for t in range(N)])), N)
@case('interpolate')
def _():
    heads(['motion_execution.interpolate'], 'one to three time steps, two end effectors'); N = 1 + choice('steps', 3); between(E.interpolate, EFF, dict(optimized_motion_eff={'trajectory_wrt_base': feet(N, 'mp', 6), 'velocity_wrt_base': feet(N, 'mv', 6), 'trajectory': feet(N, 'ap', 6), 'velocity': feet(N, 'av', 6)}, optimized_sequence=NS(kinematics_states=[Kin(t) for t in range(N)]), dynamics_feedback=Feed(), optimized_dyn_plan=NS(dynamics_states=[Dyn(t) for t in range(N)]), robot_weight=W()), N)
@case('nothing_to_interpolate')
def _():
    heads(['motion_execution.desired_state', 'motion_execution.interpolate']); bad = 0
    for f in (E.desired_state, E.interpolate):
        try: f('COM', arr([0, 1]))
        except ValueError: bad += 1
    prove('a motion without data is refused', truth(bad == 2))
@case('time_vector')
def _():
    heads(['motion_planner.create_time_vector'], 'up to four time steps'); N = 1 + choice('steps', 4); dt = vec('dt', N, .01, .2); t = T.create_time_vector(NS(dynamics_states=[NS(dt=dt[i]) for i in range(N)])); prove('one time for each step', truth(len(t) == N)); prove('the motion starts at zero', eq(t[0], 0))
    for i in range(1, N): prove('each step ends its own time step after the one before', eq(t[i] - t[i - 1], dt[i]))
# ------------------------------------------------------------------ files
NQ = 2
SIZE = {'desired_state': {'POSITION': NQ, 'VELOCITY': NQ, 'GENERALIZED_POSITION': NQ + 7, 'GENERALIZED_VELOCITY': NQ + 6, 'GENERALIZED_ACCELERATION': NQ + 6, 'COM': 3, 'LMOM': 3, 'AMOM': 3, 'FORCES': 12}, 'interpolate': {'POSITION': 12, 'VELOCITY': 12, 'POSITION_ABSOLUTE': 12, 'VELOCITY_ABSOLUTE': 12, 'FORCES': 12, 'COM': 3, 'LMOM': 3, 'AMOM': 3, 'QUATERNION': 4, 'CENTROIDAL_FORCES': 3, 'CENTROIDAL_MOMENTS': 3, 'BASE_ANGULAR_VELOCITY': 3, 'DYN_FEEDBACK': 108}}
def at(kind, spec, i): return vec('%s_%s_%d_' % (kind[0], spec, i), SIZE[kind][spec])
PLAN = dict(optimized_sequence=NS(kinematics_states=[NS(robot_posture=NS(generalized_joint_positions=arr([0] * (NQ + 7))))]), optimized_dyn_plan=NS(name='dyn'), dynamics_feedback=NS(name='fb'), optimized_motion_eff=NS(name='eff'))
NEED = {'FORCES': 'optimized_dyn_plan', 'CENTROIDAL_FORCES': 'optimized_dyn_plan', 'CENTROIDAL_MOMENTS': 'optimized_dyn_plan', 'DYN_FEEDBACK': 'dynamics_feedback'}
EFFS = ('POSITION', 'VELOCITY', 'POSITION_ABSOLUTE', 'VELOCITY_ABSOLUTE')
def sources(tv):
    def get(kind):
        def f(spec, tvec, t, kw):
            need = 'optimized_motion_eff' if kind == 'interpolate' and spec in EFFS else NEED.get(spec, 'optimized_sequence'); prove('each quantity comes from its part of the plan', truth(kw.get(need) is PLAN[need])); prove('quantities are taken at the times of the plan', truth(tvec is tv)); prove('centroidal forces and moments are scaled with the weight', eq(kw['robot_weight'], W())) if spec.startswith('CENTROIDAL') else None
            i = t * 1000; i = int(i.const()) if SYM else int(round(i)); prove('points are one millisecond apart', truth(0 <= i < 5000)); return at(kind, spec, i)
        return f
    FILES.clear(); SRC.update({k: get(k) for k in SIZE})
def limbs(v, order): return _np.hstack([v[3 * k:3 * k + 3] for k in order])
PAIRS, REV = [1, 0, 3, 2], [3, 2, 1, 0]
def table(name, n, row): prove('the file is written: ' + name, truth(name in FILES)); a = FILES[name]; prove('one row for each point', truth(len(a) == n)); [prove_eq(name, val(a[i]), _np.hstack([arr([i]), row(i)])) for i in range(n)]
def val(a): return _np.asarray(a, dtype=OBJ).reshape(-1)
@case('create_file')
def _():
    heads(['kinoptpy.create_data_file.create_file'], 'three points'); tv = [0., .001, .003]; sources(tv); w = W(); silent(X.create_file, tv, PLAN['optimized_sequence'], PLAN['optimized_dyn_plan'], PLAN['dynamics_feedback'], w)
    for f, s in (('positions', 'POSITION'), ('velocities', 'VELOCITY'), ('generalized_positions', 'GENERALIZED_POSITION'), ('generalized_velocities', 'GENERALIZED_VELOCITY'), ('generalized_acceleration', 'GENERALIZED_ACCELERATION'), ('com_old', 'COM'), ('lmom_old', 'LMOM'), ('amom_old', 'AMOM')): table('quadruped_%s.dat' % f, 3, lambda i: at('desired_state', s, i))
    table('quadruped_forces.dat', 3, lambda i: w * at('desired_state', 'FORCES', i))
def small(f, tv, w):
    """the same files with two points each second instead of a thousand (the sampling frequency is a constant of the module)"""
    X.sample_frequency = 2; sources(tv); return silent(f, tv, PLAN['optimized_motion_eff'], PLAN['optimized_sequence'], PLAN['optimized_dyn_plan'], PLAN['dynamics_feedback'], w)
@case('create_qp_files')
def _():
    heads(['kinoptpy.create_data_file.create_qp_files'], 'sampling frequency of two points each second, two points'); w = W(); tv = [[0., .4], [0., .4, 1.]][choice('end', 2)]; n = 2; small(X.create_qp_files, tv, w); g = lambda s: lambda i: at('interpolate', s, i); six = lambda s: lambda i: _np.hstack([_np.hstack([limbs(at('interpolate', s, i), [k]), arr([0, 0, 0])]) for k in PAIRS])
    for f, s in (('com', 'COM'), ('centroidal_forces', 'CENTROIDAL_FORCES'), ('centroidal_moments', 'CENTROIDAL_MOMENTS'), ('quaternion', 'QUATERNION'), ('base_ang_velocities', 'BASE_ANGULAR_VELOCITY')): table('quadruped_%s.dat' % f, n, g(s))
    table('quadruped_com_vel.dat', n, lambda i: at('interpolate', 'LMOM', i) * num(981, 100) / w); table('quadruped_positions.dat', n, lambda i: at('desired_state', 'POSITION', i))
    for f, s in (('positions_abs', 'POSITION_ABSOLUTE'), ('velocities_abs', 'VELOCITY_ABSOLUTE')): table('quadruped_%s.dat' % f, n, lambda i: limbs(at('interpolate', s, i), PAIRS))
    for f, s in (('velocities', 'VELOCITY'), ('positions_eff', 'POSITION'), ('velocities_eff', 'VELOCITY')): a = FILES['quadruped_%s.dat' % f]; prove('one row for each point', truth(a.shape == (n, 24))); [prove_eq('each limb has its positions and velocities, without rotation', val(a[i]), six(s)(i)) for i in range(n)]
    a = FILES['quadruped_contact_activation.dat']; prove('one row for each point', truth(a.shape == (n, 5)))
    for i in range(n): prove('rows are numbered', eq(a[i, 0], i)); [prove('a limb is in contact exactly when it pushes', pand(implies(lt(0, at('interpolate', 'FORCES', i)[3 * k + 2]), eq(a[i, j + 1], 1)), implies(le(at('interpolate', 'FORCES', i)[3 * k + 2], 0), eq(a[i, j + 1], 0)))) for j, k in enumerate(PAIRS)]
@case('create_lqr_files')
def _():
    heads(['kinoptpy.create_data_file.create_lqr_files'], 'sampling frequency of two points each second, two points'); small(X.create_lqr_files, [0., .4], W()); table('quadruped_positions_abs_with_horizon_part.dat', 2, lambda i: limbs(at('interpolate', 'POSITION_ABSOLUTE', i), REV))
if __name__ == '__main__': kvpy.main()
