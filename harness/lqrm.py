"""C25, C26: contracts of the manifold LQR design (lqr_gain_manifold.py)."""
import sys, types
from kvpy import *
import kvpy, numpy as _np
FILE = 'momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py'
class SE3Quaternion:
    def __init__(self, w, x, y, z): self.c = [w, x, y, z]
    def norm(self): return sqrt(sum([Real.of(a) * a for a in self.c], Real.of(0)) if SYM else sum(a * a for a in self.c))
class LinAlgError(Exception): pass
class Chol:
    """contract of scipy.linalg.cho_factor, cho_solve: for a symmetric positive definite matrix the solution of the linear system,
    otherwise an exception"""
    known = []; pd = staticmethod(lambda A: True)
    @classmethod
    def factor(k, A, lower=False, overwrite_a=False, check_finite=True):
        A = _np.asarray(A, dtype=object if SYM else float); prove('only symmetric matrices are factorised', same(A, A.T))
        if not k.pd(A): raise LinAlgError('not positive definite')
        return (A, lower)
    @classmethod
    def solve(k, f, b, overwrite_b=False, check_finite=True):
        A = f[0]; b = _np.asarray(b, dtype=object if SYM else float)
        for x in k.known:
            if x.shape == b.shape and valid(same(A.dot(x), b)): return x.copy()
        return kvpy.solve(A, b, 'chol')
lin = module('scipy.linalg', cho_factor=Chol.factor, cho_solve=Chol.solve)
plt = module('matplotlib.pyplot')
M = load(FILE, {'scipy': module('scipy', linalg=lin), 'scipy.linalg': lin, 'matplotlib': module('matplotlib', pyplot=plt), 'matplotlib.pyplot': plt, 'pinocchio': module('pinocchio', Quaternion=SE3Quaternion)})
def lqr(**kw):
    Chol.known = []; Chol.pd = staticmethod(lambda A: True)
    o = object.__new__(M.CentroidalLqr); o.eps = num(1, 10 ** 6); o.dt = num(1, 1000); o.n, o.m, o.nx = 13, 6, 12; o.dir = 'd'; o.__dict__.update(kw); return o
def heads(fs, b=None):
    under_contract(*['momentumopt.kinoptpy.lqr_gain_manifold.CentroidalLqr.' + f for f in fs]); assumption('sine, cosine, arc tangent and square root are the real functions: sin^2 + cos^2 = 1, sign of the sine on (-pi, pi), atan2 is the polar angle')
    if b: bounded(b)
def unit(name):
    """any unit quaternion"""
    if SYM:
        q = vec(name, 4); assume(eq(q.dot(q), 1)); w = max(q[3].n, key=key)[0][0]; kvpy.RULE[w] = (1 - q[0] * q[0] - q[1] * q[1] - q[2] * q[2]).n; return q
    q = vec(name, 4); assume(gt(q.dot(q), 1e-6)); return q / sqrt(float(q.dot(q)))
def outer(a, b): return _np.outer(a, b)
def ident(n): return arr(_np.identity(n))
def skewm(v): return arr([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])
def hamilton(p, q): return arr([p[3] * q[0] + p[0] * q[3] + p[1] * q[2] - p[2] * q[1], p[3] * q[1] - p[0] * q[2] + p[1] * q[3] + p[2] * q[0], p[3] * q[2] + p[0] * q[1] - p[1] * q[0] + p[2] * q[3], p[3] * q[3] - p[0] * q[0] - p[1] * q[1] - p[2] * q[2]])
def rot(q): x, y, z, w = q; return arr([[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)], [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)], [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]])
# ------------------------------------------------------------------ C25
@case('quat_algebra')
def _():
    heads(['skew', 'quaternion_product', 'quaternion_to_rotation']); o = lqr(); p, q = unit('p'), unit('q'); a, b = vec('a', 3), vec('b', 3)
    prove_eq('the skew matrix is the cross product', o.skew(a).dot(b), _np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]))
    r = o.quaternion_product(p, q); prove_eq('the product is the quaternion product', r, hamilton(p, q)); prove('products of unit quaternions are unit quaternions', eq(r.dot(r), 1))
    R, S = o.quaternion_to_rotation(p), o.quaternion_to_rotation(q); prove_eq('a unit quaternion gives a rotation', R.dot(R.T), ident(3)); d = R[0, 0] * (R[1, 1] * R[2, 2] - R[1, 2] * R[2, 1]) - R[0, 1] * (R[1, 0] * R[2, 2] - R[1, 2] * R[2, 0]) + R[0, 2] * (R[1, 0] * R[2, 1] - R[1, 1] * R[2, 0]); prove('a rotation preserves orientation', eq(d, 1))
    prove_eq('the rotation is that of the quaternion', R, rot(p)); prove_eq('opposite quaternions are the same rotation', o.quaternion_to_rotation(-p), R); prove_eq('the rotation of a product is the product of the rotations', o.quaternion_to_rotation(r), R.dot(S))
@case('quat_exp')
def _():
    heads(['exp_quaternion', 'quaternion_to_rotation']); o = lqr(); w = vec('w', 3, -4, 4); e = o.exp_quaternion(num(1, 2) * w); t2 = w.dot(w) / 4; n2 = e.dot(e)
    if bool(gt(t2, num(1, 10 ** 6))):
        t = sqrt(t2); s, c = sin(t), cos(t); prove('the exponential is a unit quaternion', eq(n2, 1)); prove('the exponential turns by the length of the vector', pand(eq(e[3], c), *[eq(e[i] * 2 * t, s * w[i]) for i in range(3)]))
        K = skewm(w); prove_eq('the rotation of the exponential turns about the vector by its length', o.quaternion_to_rotation(e), ident(3) + K * (s * c / t) + K.dot(K) * (s * s / (2 * t2)))
    else:
        d = n2 - 1; prove('the exponential of a small vector is a unit quaternion up to 1e-12', pand(le(d, num(1, 10 ** 12)), le(-num(1, 10 ** 12), d)))
        prove('the exponential of a small vector turns by its length up to 1e-6 of it', pand(*[pand(le(e[i] - w[i] / 2, (num(1, 10 ** 6) + 0) * abs(w[i])), le(w[i] / 2 - e[i], num(1, 10 ** 6) * abs(w[i]))) for i in range(3)], le(e[3], 1), le(1 - t2 / 2 - num(1, 10 ** 12), e[3])))
@case('quat_explog')
def _():
    heads(['exp_quaternion', 'log_quaternion']); o = lqr(); kvpy.atan_bounds[0] = True; w = vec('w', 3, -3, 3); h = num(1, 2) * w; t2 = h.dot(h); e = None
    if bool(gt(t2, num(1, 10 ** 6))):
        t = sqrt(t2); assume(lt(t, kvpy.pi())); s = sin(t); e = o.exp_quaternion(h); lemma_sqrt('the vector part of the exponential has the length of the sine', e[0] * e[0] + e[1] * e[1] + e[2] * e[2], s)
        l = o.log_quaternion(e)
        if bool(gt(s, num(1, 10 ** 6))): prove_eq('the logarithm inverts the exponential', l, w)
        else:
            b = num(5, 10 ** 6); prove('the logarithm of nearly a full turn is nearly nothing', pand(*[pand(le(l[i] * t, b * abs(h[i])), le(-b * abs(h[i]), l[i] * t)) for i in range(3)]))
    else:
        e = o.exp_quaternion(h); k = 1 - t2 / 6; t = sqrt(t2); lemma_sqrt('the vector part of the exponential of a small vector', e[0] * e[0] + e[1] * e[1] + e[2] * e[2], k * t); l = o.log_quaternion(e)
        if bool(le(k * t, num(1, 10 ** 6))): f = k / (1 - t2 / 2) * (1 - k * k * t2 / (3 * (1 - t2 / 2) ** 2)); [prove('the logarithm of a small rotation inverts the exponential up to 1e-9', pand(eq(l[i], f * w[i]), le(f, 1 + num(1, 10 ** 9)), le(1 - num(1, 10 ** 9), f))) for i in range(3)]
        else:
            g = l[0] / w[0] if not SYM else None
            if SYM:
                a = arctan2(k * t, 1 - t2 / 2); prove_eq('the logarithm has the direction of the vector', l * (k * t), _np.array([2 * a * k * x for x in h])); e6 = num(1, 10 ** 6); lemma_for_all('the logarithm of a small rotation has its angle up to 1e-6', [t, k * t / (1 - t2 / 2), a], lambda T, Z, A: [lt(0, T), le(T, num(1, 1000)), eq(Z * (1 - T * T / 2), (1 - T * T / 6) * T), le(Z - Z ** 3 / 3, A), le(A, Z)], lambda T, Z, A: pand(le(A, T * (1 + e6)), le(T * (1 - e6), A)))
            else: prove('the logarithm of a small rotation has its angle up to 1e-6', pand(*[eq(l[i], w[i]) for i in range(3)]))
@case('quat_logexp')
def _():
    heads(['exp_quaternion', 'log_quaternion']); o = lqr(); q = unit('q'); v2 = q[0] * q[0] + q[1] * q[1] + q[2] * q[2]; v = sqrt(v2)
    if bool(gt(v, num(1, 10 ** 6))):
        a = arctan2(v, q[3]); 
        if SYM: lemma('the angle of a unit quaternion is not negative', pand(le(0, a), eq(sin(a), v), eq(cos(a), q[3])))
        l = o.log_quaternion(q); prove_eq('the logarithm has the angle and axis of the quaternion', l * v, _np.array([2 * a * q[i] for i in range(3)])); h = num(1, 2) * l; lemma_sqrt('the length of the logarithm is its angle', h.dot(h), a)
        if bool(gt(a * a, num(1, 10 ** 6))): prove_eq('the exponential inverts the logarithm', o.exp_quaternion(h), q)
    else:
        l = o.log_quaternion(q); assume(pnot(eq(q[3], 0))); b = num(1, 10 ** 6)
        for i in range(3): z = 2 * q[i] / q[3]; d = l[i] - z; prove('the logarithm of a small rotation is twice its vector part, up to 1e-6 of it', pand(le(d, b * abs(z)), le(-b * abs(z), d)))
class Mani:
    """contracts of exponential and logarithm: any maps with log(exp(w/2)) = w and exp(log(q)/2) = q"""
    def __init__(self, o, real): self.e = []; self.l = []; self.real = real; self.o = o; (o.__dict__.update(exp_quaternion=self.exp, log_quaternion=self.log) if SYM else None)
    def exp(self, w):
        for a, q in self.e:
            if valid(same(a, w)): return q.copy()
        q = unit('exp%d_' % len(self.e)); C.inputs = [i for i in C.inputs if not i.startswith('exp')]; self.e.append((_np.array(w), q)); return q.copy()
    def log(self, q):
        for a, p in self.e:
            if valid(same(p, q)): return 2 * a
        for p, l in self.l:
            if valid(same(p, q)): return l.copy()
        l = vec('log%d_' % len(self.l), 3); C.inputs = [i for i in C.inputs if not i.startswith('log')]; self.l.append((_np.array(q), l)); self.e.append((num(1, 2) * l, _np.array(q))); return l.copy()
def state(n): return _np.hstack([vec(n + 'c', 3), vec(n + 'v', 3), unit(n + 'q'), vec(n + 'w', 3)])
@case('increment_difference')
def _():
    heads(['increment_x', 'diff_x', 'integrate_quaternion', 'quaternion_difference', 'quaternion_product']); assumption('exponential and logarithm are inverse (cases quat_explog, quat_logexp)'); o = lqr(); Mani(o, False); x = state('x'); dx = vec('dx', 12, -2, 2)
    y = o.increment_x(x, dx); prove('an incremented state has a unit quaternion', eq(y[6:10].dot(y[6:10]), 1)); prove('an incremented state is a state', y.shape == (13,)); prove_eq('differencing an incremented state returns the increment', o.diff_x(x, y), dx)
@case('difference_increment')
def _():
    heads(['increment_x', 'diff_x', 'integrate_quaternion', 'quaternion_difference', 'quaternion_product']); o = lqr(); Mani(o, False); x, y = state('x'), state('y'); d = o.diff_x(x, y); prove('a difference is a tangent vector', d.shape == (12,)); z = o.increment_x(x, d)
    prove_eq('incrementing by the difference returns the state', z, y)
@case('difference_zero')
def _():
    heads(['diff_x', 'increment_x']); o = lqr(); x = state('x'); prove_eq('a state differs from itself by nothing', o.diff_x(x, x), arr([0] * 12)); prove_eq('incrementing by nothing returns the state', o.increment_x(x, arr([0] * 12)), x)
# ------------------------------------------------------------------ C26
def inertia(): # any symmetric positive definite matrix
    a = vec('inertia', 3, .5, 2); b = vec('inertia_off', 3, -.2, .2); a = list(a) + list(b); I = arr([[a[0], a[3], a[4]], [a[3], a[1], a[5]], [a[4], a[5], a[2]]]); return I
def model(o): o.mass = input('mass', .5, 5); assume(gt(o.mass, 0)); o.dt = input('dt', .01, 1); o.weight = vec('weight', 3); o.inertia_com_frame = inertia()
@case('dynamics_step')
def _():
    heads(['integrate_step', 'integrate_quaternion', 'integrate_veocity', 'integrate_angular_velocity'], 'one step, contact active or not; every state, control, mass, inertia and step length'); o = lqr(); model(o); m = Mani(o, False); a = choice('contact', 2); o.active_contacts = [num(a)]; x = state('x'); u = vec('u', 6); n = len(kvpy.SOLVED)
    f = o.integrate_step(0, x, u); prove('a step returns a state', f.shape == (13,)); prove('a step keeps the quaternion a unit quaternion', eq(f[6:10].dot(f[6:10]), 1)); dt = o.dt
    prove_eq('the centre of mass moves with its velocity', f[:3], x[:3] + dt * x[3:6]); prove_eq('linear momentum changes by gravity and the active force', o.mass * (f[3:6] - x[3:6]), dt * (num(a) * u[:3] - o.weight))
    prove_eq('the base turns by its angular velocity, in the world', f[6:10], hamilton(o.exp_quaternion(num(1, 2) * (dt * x[10:13])), x[6:10]))
    R = rot(x[6:10]); I = R.dot(o.inertia_com_frame).dot(R.T); prove_eq('angular momentum changes by the active moment and the gyroscopic moment', I.dot(f[10:13] - x[10:13]), dt * (num(a) * u[3:] - _np.cross(x[10:13], I.dot(x[10:13]))))
    prove_eq('the velocity update alone is the same', o.integrate_veocity(x[3:6], u[:3]), x[3:6] + (dt / o.mass) * (u[:3] - o.weight)); w = o.integrate_angular_velocity(x[10:13], x[6:10], u[3:]); prove_eq('the angular velocity update alone is the same', I.dot(w - x[10:13]), dt * (u[3:] - _np.cross(x[10:13], I.dot(x[10:13]))))
class Memo:
    """a callee replaced by its contract: some value for each argument"""
    def __init__(self, name, shape): self.name, self.shape, self.calls = name, shape, []
    def __call__(self, *a):
        a = [_np.array(x, dtype=object) if isinstance(x, _np.ndarray) else x for x in a]
        for b, v in self.calls:
            if all(bool(valid(same(p, q))) if isinstance(p, _np.ndarray) else (p is q or p == q) for p, q in zip(a, b)): return v.copy() if hasattr(v, 'copy') else v
        n = '%s%d_' % (self.name, len(self.calls)); v = vec(n, self.shape) if isinstance(self.shape, int) else input(n) if self.shape is None else mat(n, *self.shape); self.calls.append((a, v)); return v.copy() if hasattr(v, 'copy') else v
@case('rollout')
def _():
    heads(['compute_trajectory_from_controls'], '1 to 3 steps'); o = lqr(); o.N = 1 + choice('steps', 3); f = o.integrate_step = Memo('f', 13); x = _np.array([vec('x%d_' % t, 13) for t in range(o.N + 1)]); u = _np.array([vec('u%d_' % t, 6) for t in range(o.N)]); x0 = x[0].copy(); r = o.compute_trajectory_from_controls(x, u); prove('a trajectory has every state', r.shape == (o.N + 1, 13)); prove_eq('a trajectory starts at its first state', r[0], x0)
    for t in range(o.N): prove_eq('each state follows from the one before and its control', r[t + 1], f(t, r[t], u[t]))
FILES = {}
@case('construction')
def _():
    heads(['__init__', 'switching_dynamics'], '1 or 2 steps, every pattern of two contacts'); N = 1 + choice('steps', 2); T = N + 1; cols = dict(com=3, com_vel=3, quaternion=4, base_ang_velocities=3, centroidal_forces=3, centroidal_moments=3); D = {}
    for k, c in cols.items(): D[k] = _np.array([[num(t)] + list(unit('%s%d_' % (k, t)) if k == 'quaternion' else vec('%s%d_' % (k, t), c)) for t in range(T)])
    con = [[choice('contact%d_%d' % (t, e), 2) for e in range(2)] for t in range(T)]; D['contact_activation'] = arr([[t] + con[t] for t in range(T)])
    def load_(f, *a, **k):
        n = str(f).rsplit('/', 1)[-1]; prove('the plan is read from its folder', n.startswith('quadruped_') and n.endswith('.dat') and str(f).startswith('somewhere')); return D[n[10:-4]].copy()
    f = Memo('f', 13); real = M.CentroidalLqr.integrate_step; old = M.np.loadtxt; M.CentroidalLqr.integrate_step = lambda s, t, x, u: f(t, x, u)
    try: setattr(M.np, 'loadtxt', load_); o = M.CentroidalLqr('somewhere')
    finally: M.CentroidalLqr.integrate_step = real; setattr(M.np, 'loadtxt', old)
    prove('the horizon is that of the plan', o.N == N and (o.n, o.m, o.nx) == (13, 6, 12)); prove('contacts are active when any end effector is', pand(*[eq(o.active_contacts[t], num(1 if any(con[t]) else 0)) for t in range(T)]))
    for t in range(T): prove_eq('the planned states are those of the plan', o.xp[t], _np.hstack([D[k][t, 1:] for k in ('com', 'com_vel', 'quaternion', 'base_ang_velocities')]))
    for t in range(N): prove_eq('the planned controls are those of the plan', o.u0[t], _np.hstack([D['centroidal_forces'][t, 1:], D['centroidal_moments'][t, 1:]])); prove_eq('the reference follows the dynamics', o.x0[t + 1], f(t, o.x0[t], o.u0[t]))
    prove_eq('the reference starts at the plan', o.x0[0], o.xp[0]); prove('every step has its own space', o.value.shape == (N + 1,) and o.value_dx.shape == (N + 1, 12) and o.value_dxdx.shape == (N + 1, 12, 12) and o.kfb.shape == (N, 6, 12) and o.kff.shape == (N, 6) and len(o.Q) >= N + 1 and len(o.R) >= N)
    I = _np.array(o.inertia_com_frame); prove('weight is that of the mass', pand(eq(o.weight[0], 0), eq(o.weight[1], 0), eq(o.weight[2], o.mass * num(981, 100)), gt(o.mass, 0), gt(o.dt, 0), gt(o.eps, 0), same(I, I.T)))
def flat_space(o, nx, m): # a flat state space (increments and differences that are inverse, with a factor)
    o.nx, o.m, o.n = nx, m, nx; o.increment_x = lambda x, d: x + 2 * d; o.diff_x = lambda a, b: num(1, 2) * (b - a)
@case('dynamics_derivatives')
def _():
    heads(['dynamics_derivatives'], 'three states, two controls'); assumption('the derivative is taken in the tangent space; the state space of this case is flat and the dynamics affine, so that the finite differences are exact'); o = lqr(); flat_space(o, 3, 2); A, B = mat('A', 3, 3), mat('B', 3, 2); c = vec('c', 3)
    o.integrate_step = lambda t, x, u: A.dot(x) + 2 * B.dot(u) + c; x, u = vec('x', 3), vec('u', 2); x1, u1 = x.copy(), u.copy(); fx, fu = o.dynamics_derivatives(0, x, u); kvpy.set_tol(1e-4)
    prove_eq('the state Jacobian is the derivative of the dynamics', fx, A); prove_eq('the control Jacobian is the derivative of the dynamics', fu, B); prove_eq('the operating point is left alone', _np.hstack([x, u]), _np.hstack([x1, u1]))
class Inv: # cho_solve as the product with the inverse: one matrix for each factorised matrix
    of = []
    @classmethod
    def solve(k, f, b, **kw):
        for A, V in k.of:
            if A is f[0] or valid(same(A, f[0])): return V.dot(b)
        V = vec('inverse', 9).reshape(3, 3); C.inputs = [i for i in C.inputs if not i.startswith('inverse')]; k.of.append((f[0], V)); return V.dot(b)
@case('dynamics_derivatives_blocks')
def _():
    heads(['dynamics_derivatives', 'integrate_step', 'increment_x', 'diff_x'], 'contact active or not'); o = lqr(); a = choice('contact', 2); o.active_contacts = [num(a)]; o.mass = input('mass', .5, 5); assume(gt(o.mass, 0)); o.dt = input('dt', .01, 1); o.weight = vec('weight', 3); o.inertia_com_frame = inertia(); x = state('x'); u = vec('u', 6); z = arr(_np.zeros((3, 3)))
    o.integrate_quaternion = lambda q, w: q; o.quaternion_difference = lambda p, q: arr([0, 0, 0]); Inv.of = []; assumption('cho_solve multiplies by the inverse of the factorised matrix'); lin.cho_solve = Inv.solve if SYM else Chol.solve
    try: fx, fu = o.dynamics_derivatives(0, x, u); kvpy.set_tol(1e-3)
    finally: lin.cho_solve = Chol.solve
    prove_eq('centre of mass with respect to centre of mass', fx[:3, :3], ident(3)); prove_eq('centre of mass with respect to velocity', fx[:3, 3:6], o.dt * ident(3)); prove_eq('velocity with respect to centre of mass', fx[3:6, :3], z); prove_eq('velocity with respect to velocity', fx[3:6, 3:6], ident(3)); prove_eq('velocity with respect to force', fu[3:6, :3], (num(a) * o.dt / o.mass) * ident(3)); prove_eq('velocity with respect to moment', fu[3:6, 3:], z); prove_eq('centre of mass with respect to controls', fu[:3], arr(_np.zeros((3, 6))))
    prove_eq('angular velocity with respect to linear state', fx[9:, :6], arr(_np.zeros((3, 6)))); prove_eq('angular velocity with respect to force', fu[9:, :3], z); R = rot(x[6:10]); I = R.dot(o.inertia_com_frame).dot(R.T)
    V = Inv.of[0][1] if SYM else _np.linalg.inv(I); prove('the inertia is that of the orientation', same(Inv.of[0][0], I) if SYM else truth(True)); prove_eq('angular velocity with respect to moment', fu[9:, 3:], num(a) * o.dt * V); w = x[10:]
    for i in range(3): e = ident(3)[i]; prove_eq('angular velocity with respect to itself', fx[9:, 9 + i], e - o.dt * V.dot(_np.cross(e, I.dot(w)) + _np.cross(w, I.dot(e)) + o.eps * _np.cross(e, I.dot(e))))
def sym_mat(n, k, lo=.5, hi=2): a = mat(n, k, k, lo, hi); return arr([[a[min(i, j), max(i, j)] for j in range(k)] for i in range(k)])
def costs(o, N=2): flat_space(o, 3, 2); o.N = N; o.Q = [sym_mat('Q%d' % t, 3) for t in range(N + 1)]; o.R = [sym_mat('R%d' % t, 2) for t in range(N)]; o.x0 = _np.array([vec('ref%d_' % t, 3) for t in range(N + 1)])
@case('cost_value')
def _():
    heads(['cost'], 'three states, two controls, each step of two'); o = lqr(); costs(o); t = choice('step', 3); x, u = vec('x', 3), vec('u', 2); d = num(1, 2) * (x - o.x0[t]); c = o.cost(t, x, u); q = d.dot(o.Q[t]).dot(d)
    if t < 2: prove('the cost is the weighted deviation from the reference and the weighted control', eq(2 * c, q + u.dot(o.R[t]).dot(u)))
    else: prove('the final cost is the weighted deviation from the reference', eq(c, q))
@case('cost_derivatives')
def _():
    heads(['cost_derivatives', 'cost_dxdx', 'cost_dudu', 'cost_dxdu'], 'three states, two controls, each step of two'); o = lqr(); o.eps = input('eps', .01, .1); assume(gt(o.eps, 0)); costs(o); t = choice('step', 3); x, u = vec('x', 3), vec('u', 2); x1, u1 = x.copy(), u.copy(); k = 2 if t == 2 else 1; d = num(1, 2) * (x - o.x0[t]); cx, cu, cxx, cuu, cxu = o.cost_derivatives(t, x, u); Q = k * o.Q[t]; R = o.R[t] if t < 2 else arr(_np.zeros((2, 2))); e = o.eps; kvpy.set_tol(1e-5)
    for i in range(3): g = cx[i] - Q[i].dot(d); prove('the gradient is that of the cost, up to the step of the differences', pand(le(g, e * abs(Q[i, i])), le(-e * abs(Q[i, i]), g)))
    for i in range(2): g = cu[i] - R[i].dot(u); prove('the control gradient is that of the cost, up to the step of the differences', pand(le(g, e * abs(R[i, i])), le(-e * abs(R[i, i]), g)))
    prove_eq('the Hessian is that of the cost', cxx, Q); prove_eq('the control Hessian is that of the cost', cuu, R); prove_eq('the mixed derivatives are those of the cost', cxu, arr(_np.zeros((3, 2)))); prove_eq('the operating point is left alone', _np.hstack([x, u]), _np.hstack([x1, u1]))
def alloc(o, N): o.N = N; z = lambda *s: arr(_np.zeros(s)); o.value, o.value_dx, o.value_dxdx, o.Q0, o.Qdx, o.Qdu, o.Qdxdx, o.Qdudu, o.Qdxdu, o.kfb, o.kff = z(N + 1), z(N + 1, o.nx), z(N + 1, o.nx, o.nx), z(N + 1), z(N + 1, o.nx), z(N + 1, o.m), z(N + 1, o.nx, o.nx), z(N + 1, o.m, o.m), z(N + 1, o.nx, o.m), z(N, o.m, o.nx), z(N, o.m)
@case('quadratic_model')
def _():
    heads(['compute_Q'], 'three states, two controls, each step of two'); o = lqr(); o.nx, o.m = 3, 2; alloc(o, 2); t = choice('step', 2); x, u = vec('x', 3), vec('u', 2); fx, fu, cx, cu, cxx, cuu, cxu = mat('fx', 3, 3), mat('fu', 3, 2), vec('cx', 3), vec('cu', 2), sym_mat('cxx', 3), sym_mat('cuu', 2), mat('cxu', 3, 2); c, V, Vx, Vxx = input('c'), input('V'), vec('Vx', 3), sym_mat('Vxx', 3)
    def at(s, y, v): prove('the model is taken at the operating point of its step', pand(truth(s == t), same(y, x), same(v, u)))
    o.cost = lambda s, y, v: (at(s, y, v), c)[1]; o.dynamics_derivatives = lambda s, y, v: (at(s, y, v), (fx.copy(), fu.copy()))[1]; o.cost_derivatives = lambda s, y, v: (at(s, y, v), (cx.copy(), cu.copy(), cxx.copy(), cuu.copy(), cxu.copy()))[1]; o.compute_Q(V, Vx, Vxx, t, x, u)
    dx, du = vec('dx', 3), vec('du', 2); h = num(1, 2); n = fx.dot(dx) + fu.dot(du); want = c + cx.dot(dx) + cu.dot(du) + h * dx.dot(cxx).dot(dx) + h * du.dot(cuu).dot(du) + dx.dot(cxu).dot(du) + V + Vx.dot(n) + h * n.dot(Vxx).dot(n); got = o.Q0[t] + o.Qdx[t].dot(dx) + o.Qdu[t].dot(du) + h * dx.dot(o.Qdxdx[t]).dot(dx) + h * du.dot(o.Qdudu[t]).dot(du) + dx.dot(o.Qdxdu[t]).dot(du)
    prove_eq('the quadratic model is the cost plus the value of the next state', got, want); prove_eq('other steps keep their model', o.Q0[1 - t], num(0)); prove_eq('the control Hessian is symmetric', o.Qdudu[t], o.Qdudu[t].T)
@case('backward_step')
def _():
    heads(['compute_value_function'], 'three states, two controls, each step of two'); o = lqr(); o.nx, o.m = 3, 2; alloc(o, 2); t = choice('step', 2); k, K, Quu = vec('k', 2), mat('K', 2, 3), sym_mat('Quu', 2); assume(pand(gt(Quu[0, 0], 0), gt(Quu[0, 0] * Quu[1, 1] - Quu[0, 1] * Quu[0, 1], 0))); q0, qx, qxx = input('q0'), vec('qx', 3), sym_mat('qxx', 3)
    qu, qxu = Quu.dot(k), K.T.dot(Quu); o.Q0[t], o.Qdx[t], o.Qdu[t], o.Qdxdx[t], o.Qdudu[t], o.Qdxdu[t] = q0, qx, qu, qxx, Quu, qxu; o._smooth_inv = lambda m: (prove('a regular problem is solved exactly', False), m)[1]; Chol.known = [k, K]; o.compute_value_function(t)
    assumption('every gradient and mixed Hessian is Quu k, K^T Quu for some k, K, because Quu is regular'); prove_eq('the feedforward minimises the quadratic model', o.kff[t], k); prove_eq('the feedback minimises the quadratic model', o.kfb[t], K); dx, du = vec('dx', 3), vec('du', 2); h = num(1, 2); got = o.value[t] + o.value_dx[t].dot(dx) + h * dx.dot(o.value_dxdx[t]).dot(dx); e = du + k + K.dot(dx)
    mod = q0 + qx.dot(dx) + qu.dot(du) + h * dx.dot(qxx).dot(dx) + h * du.dot(Quu).dot(du) + dx.dot(qxu).dot(du); prove_eq('the value is the minimum of the quadratic model for every deviation', mod - h * e.dot(Quu).dot(e), got); prove('gains and values of other steps are kept', pand(same(o.kff[1 - t], arr([0, 0])), same(o.kfb[1 - t], arr(_np.zeros((2, 3)))), eq(o.value[1 - t], 0)))
@case('backward_step_indefinite')
def _():
    heads(['compute_value_function'], 'three states, two controls'); assumption('the regularised inverse is some matrix'); o = lqr(); o.nx, o.m = 3, 2; alloc(o, 1); S = sym_mat('S', 2); o.Q0[0], o.Qdx[0], o.Qdu[0], o.Qdxdx[0], o.Qdudu[0], o.Qdxdu[0] = input('q0'), vec('qx', 3), vec('qu', 2), sym_mat('qxx', 3), sym_mat('Quu', 2), mat('qxu', 3, 2); Chol.pd = staticmethod(lambda A: False); o._smooth_inv = lambda m: (prove('the control Hessian is regularised', same(m, o.Qdudu[0])), S)[1]; o.compute_value_function(0)
    prove_eq('the feedforward uses the regularised inverse', o.kff[0], S.dot(o.Qdu[0])); prove_eq('the feedback uses the regularised inverse', o.kfb[0], S.dot(o.Qdxdu[0].T)); k = o.kff[0]; prove_eq('the value is that of the feedforward', o.value[0], o.Q0[0] - k.dot(o.Qdu[0]) + num(1, 2) * k.dot(o.Qdudu[0]).dot(k))
@case('backward_pass')
def _():
    heads(['compute_gains'], '1 to 3 steps, two contacts'); o = lqr(); N = 1 + choice('steps', 3); alloc(o, N); o.x0 = _np.array([vec('x%d_' % t, 2) for t in range(N + 1)]); o.u0 = _np.array([vec('u%d_' % t, 6) for t in range(N)]); order = []; cN, cx, cxx = input('cN'), vec('cx', 12), sym_mat('cxx', 12); kvpy.SAVED.clear()
    def end(t, x, u): prove('the final value is the cost of the final reference', pand(truth(t == N), same(x, o.x0[N])))
    o.cost = lambda t, x, u: (end(t, x, u), cN)[1]; o.cost_derivatives = lambda t, x, u: (end(t, x, u), (cx.copy(), None, cxx.copy(), None, None))[1]
    def Q(V, Vx, Vxx, t, x, u): order.append(('Q', t)); prove('each step uses the value of the next step', pand(eq(V, o.value[t + 1]), same(Vx, o.value_dx[t + 1]), same(Vxx, o.value_dxdx[t + 1]))); prove('each step is linearised about its reference', pand(same(x, o.x0[t]), same(u, o.u0[t])))
    def W(t): order.append(('V', t)); o.value[t] = input('V%d' % t); o.value_dx[t] = vec('Vx%d_' % t, 12); o.value_dxdx[t, 0, 0] = input('Vxx%d' % t); o.kfb[t, 1, 2] = input('K%d' % t)
    o.compute_Q, o.compute_value_function = Q, W; old = M.np.savetxt; M.np.savetxt = lambda f, a, *k, **w: kvpy.SAVED.append((f, a))
    try: o.compute_gains()
    finally: M.np.savetxt = old
    prove('the backward pass visits every step once, last to first', order == [(a, t) for t in range(N - 1, -1, -1) for a in 'QV']); prove('the value at the end is the final cost', pand(eq(o.value[N], cN), same(o.value_dx[N], cx), same(o.value_dxdx[N], cxx))); prove('the gains of every step are stored once', len(kvpy.SAVED) == 1); prove_eq('the gains are stored row by row', _np.asarray(kvpy.SAVED[0][1]).reshape(N, 72), _np.array([[o.kfb[t, i, j] for i in range(6) for j in range(12)] for t in range(N)]))
@case('regularised_inverse')
def _():
    heads(['_smooth_inv'], '2 x 2, eigenvectors a rotation'); c, s = input('c', -1, 1), input('s', -1, 1)
    if SYM: assume(eq(c * c + s * s, 1)); kvpy.RULE[kvpy.vid('s')] = (1 - c * c).n
    else:
        r = (c * c + s * s) ** .5; assume(gt(r, 1e-3)); c, s = c / r, s / r
    l = vec('l', 2); v = arr([[c, -s], [s, c]]); m = v.dot(arr(_np.diag(l)) if not SYM else _np.array([[l[0], num(0)], [num(0), l[1]]])).dot(v.T); old = M.np.linalg.eigh; M.np.linalg.eigh = lambda a: (l.copy(), v.copy())
    try: r = M.CentroidalLqr._smooth_inv(m)
    finally: M.np.linalg.eigh = old
    z = m.dot(m) + num(1, 100) * ident(2); prove_eq('the regularised inverse is (m^2 + 0.01)^-1 m', z.dot(r), m)
if __name__ == '__main__': kvpy.main()
