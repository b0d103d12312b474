"""C28: contracts of the QP wrapper (qp.py) and of the inverse-kinematics steps (inverse_kinematics.py, second_order_ik.py)."""
from kvpy import *
import kvpy, numpy as _np
D = 'momentumopt/python/momentumopt/kinoptpy/'
OBJ = object if SYM else float
QP = []
def solve_qp(G, a, C_=None, b=None, meq=0, factorized=False):
    """contract of quadprog: minimise 1/2 x'Gx - a'x subject to C'x >= b, the first meq of them equalities"""
    G, a = _np.asarray(G, dtype=OBJ), _np.asarray(a, dtype=OBJ); n = len(a); prove('the backend gets a cost of the size of its variables', truth(G.shape == (n, n) and a.shape == (n,)))
    if C_ is not None: C_ = _np.asarray(C_, dtype=OBJ); b = _np.asarray(b, dtype=OBJ); prove('the backend gets as many constraints as bounds', truth(C_.shape[0] == n and b.shape == (C_.shape[1],) and 0 <= int(meq) <= len(b)))
    QP.append((G.copy(), a.copy(), C_, b, int(meq))); x = vec('solution', n); return (x, num(0), x, _np.array([1, 0]), None, None)
quad = module('quadprog', solve_qp=solve_qp)
Q = load(D + 'qp.py', {'quadprog': quad})
def heads(fs, b=None, f='inverse_kinematics'): under_contract(*['momentumopt.kinoptpy.%s.%s' % (f, x) for x in fs]); bounded(b) if b else None; QP.clear(); STUB.clear(); kvpy.set_tol(1e-5)
def sym_mat(n, k): a = mat(n, k, k); return arr([[a[min(i, j), max(i, j)] for j in range(k)] for i in range(k)])
STUB = []
@case('qp')
def _():
    heads(['QpSolver.quadprog_solve_qp'], 'three variables, up to two constraints of each kind', 'qp'); assumption('quadprog.solve_qp solves the problem it documents'); n = 3; P, q = sym_mat('P', n), vec('q', n); g, a = choice('inequalities', 3), choice('equalities', 3); kw = {}
    if g: kw.update(G=mat('G', g, n), h=vec('h', g))
    if a: kw.update(A=mat('A', a, n), b=vec('b', a))
    if choice('start', 2): kw['initvals'] = vec('guess', n)
    keep = {k: _np.array(v) for k, v in kw.items()}; P0, q0 = P.copy(), q.copy(); r = Q.QpSolver().quadprog_solve_qp(P, q, **kw); prove('the problem is solved once', truth(len(QP) == 1)); G_, a_, C_, b_, meq = QP[0]; prove_eq('the solution is that of the backend', r, vec('solution', n)); x = vec('x', n); h = num(1, 2)
    prove('the cost is the stated cost', eq(h * x.dot(G_).dot(x) - a_.dot(x), h * x.dot(P).dot(x) + q.dot(x))); prove_eq('the quadratic part is symmetric', G_, G_.T)
    want = pand(*([eq(kw['A'].dot(x)[i], kw['b'][i]) for i in range(a)] + [le(kw['G'].dot(x)[i], kw['h'][i]) for i in range(g)])); m = 0 if b_ is None else len(b_); s = [] if not m else C_.T.dot(x) - b_; got = pand(*[eq(s[i], 0) if i < meq else le(0, s[i]) for i in range(m)]); prove('as many rows as constraints', truth(m == g + a and meq == a))
    if not SYM and m:   # replay of a refuted obligation: at x, the slacks given to the backend are those stated (equalities first, up to sign and order)
        near = lambda u, v: len(u) == len(v) and all(abs(i - j) <= 1e-6 * (1 + abs(i)) for i, j in zip(sorted(u), sorted(v)))
        prove('every feasible point satisfies the stated constraints', truth(near([abs(float(s[i])) for i in range(meq)], [abs(float(kw['A'].dot(x)[i] - kw['b'][i])) for i in range(a)]) and near([float(s[i]) for i in range(meq, m)], [float(kw['h'][i] - kw['G'].dot(x)[i]) for i in range(g)])))
    prove('every point that satisfies the stated constraints is feasible', implies(want, got)); prove('every feasible point satisfies the stated constraints', implies(got, want)); prove_eq('the cost is left alone', P, P0); prove_eq('the linear cost is left alone', q, q0)
    for k in keep: prove_eq('the constraints are left alone', kw[k], keep[k])
# ------------------------------------------------------------------ robot
NJ = 2; NV = 6 + NJ
class Frame:
    def __init__(self, i, tag): self.translation = vec('pos%d_%s' % (i, tag), 3); self.rotation = mat('rot%d_%s' % (i, tag), 3, 3, -1, 1)
class Momentum:
    def __init__(self, v): self.v = v; self.linear, self.angular = v[:3], v[3:]
class Data:
    """the quantities of the robot at the configuration it was last updated with"""
    def __init__(self): self.tag = None
class Robot:
    """contract of the robot model: the data are functions of the configuration of the last update"""
    def __init__(self, model): self.model = model; self.data = Data(); self.done = []; STUB.append(self)
    def forwardKinematics(self, q, v=None, a=None): self.done.append(('fk', q, v))
    def computeJointJacobians(self, q): self.done.append(('jac', q, None))
    def framesForwardKinematics(self, q): self.done.append(('frames', q, None)); self.update(q)
    def update(self, q): t = tag(q); self.data.oMf = [Frame(i, t) for i in range(len(self.model.frames))]
    def com(self, q, *a): return vec('com_%s' % tag(q), 3)
    def getFrameJacobian(self, i, ref): prove('Jacobians are those of the world directions', truth(ref == 'LWA')); return mat('jw%d_%s' % (i, self.tag()), 6, NV, -1, 1)
    def tag(self): u = [x for x in self.done if x[0] == 'jac']; prove('Jacobians are taken after an update', truth(bool(u))); return tag(u[-1][1])
    def centroidalMomentum(self, q, v): return Momentum(vec('hg_%s' % tag(q), 6))
TAGS = []
def tag(q):
    for i, p in enumerate(TAGS):
        if p is q or bool(valid(same(p, q))): return str(i)
    TAGS.append(_np.array(q)); return str(len(TAGS) - 1)
class Inertia:
    def __init__(self, m): self.mass = m
class Model:
    def __init__(self, ne): self.names = ['base_link', 'hip', 'foot_a', 'knee', 'foot_b', 'foot_c', 'foot_d']; self.frames = self.names; self.nv = NV; self.nq = NV + 1; self.inertias = [Inertia(input('m%d' % i, .1, 1)) for i in range(3)]
    def getFrameId(self, n): return self.names.index(n) if n in self.names else len(self.names)
class SE3:
    def __init__(self, R, t):
        prove('only directions are turned', same(t, arr([0, 0, 0]))); z = arr(_np.zeros((3, 3))); self.action = _np.vstack([_np.hstack([R, z]), _np.hstack([z, R])])
def rob(data): return [r for r in STUB if isinstance(r, Robot) and r.data is data][-1]
def jac_local(model, data, i, ref): prove('local Jacobians are turned into world directions', truth(ref == 'L')); return mat('jl%d_%s' % (i, rob(data).tag()), 6, NV, -1, 1)
def ccrba(model, data, q, v): data.Ag = mat('Ag_%s' % tag(q), 6, NV, -1, 1); data.hg = Vec(vec('hg_%s' % tag(q), 6)); return data.Ag
def centroidal(model, data, q, v): ccrba(model, data, q, v); data.dAg = mat('dAg_%s' % tag(q), 6, NV, -1, 1); return data.dAg
def jtv(model, data, q, v): rob(data).done.append(('jtv', q, v))
def frame_jtv(model, data, i, ref): u = [x for x in rob(data).done if x[0] == 'jtv']; prove('Jacobian rates are those of the world directions, after an update', truth(bool(u) and ref == 'LWA')); return mat('dj%d_%s' % (i, tag(u[-1][1])), 6, NV, -1, 1)
def Vec(v): return v
zero = lambda n: arr([0] * n if not isinstance(n, tuple) else _np.zeros(n))
def log3(R): STUB.append(('log3', R)); return vec('log3', 3)
class Ref: LOCAL = 'L'; LOCAL_WORLD_ALIGNED = 'LWA'; WORLD = 'W'
class RotQ:
    def __init__(self, R): self.R = R
    def matrix(self): return self.R
pin = module('pinocchio', RobotWrapper=Robot, SE3=SE3, getFrameJacobian=jac_local, ReferenceFrame=Ref, ccrba=ccrba, computeJointJacobiansTimeVariation=jtv, computeCentroidalMapTimeVariation=centroidal, getFrameJacobianTimeVariation=frame_jtv, log3=log3, Quaternion=RotQ, rpy=module('rpy', rpyToMatrix=lambda r: ('rpy', r)), integrate=None)
pu = module('pinocchio.utils', zero=zero); pin.utils = pu
def pinv(A, **k): STUB.append(('pinv', _np.array(A), k)); n = len([s for s in STUB if isinstance(s, tuple) and s[0] == 'pinv']); m = mat('pinv%d_' % n, _np.shape(A)[1], _np.shape(A)[0], -1, 1); return m
lin = module('scipy.linalg', pinv=pinv); SPL = []
class Spline:
    def __init__(self, t, v): self.t, self.v = _np.array(t), v; self.n = len(SPL); SPL.append(self)
    def __call__(self, t, nu=0): self.asked = t; shape = _np.shape(self.v)[1:]; k = 's%d_%d_%s' % (self.n, nu, tag(_np.array([t]))); return vec(k, int(_np.prod(shape))).reshape(shape)
class QpStub:
    def quadprog_solve_qp(self, P, q, G=None, h=None, A=None, b=None, initvals=None): QP.append((_np.array(P), _np.array(q), G, h, None if A is None else _np.array(A), None if b is None else _np.array(b))); return vec('res%d_' % len(QP), NV)
ST = {'pinocchio': pin, 'pinocchio.utils': pu, 'momentumopt': module('momentumopt'), 'momentumopt.kinoptpy': module('k'), 'momentumopt.kinoptpy.qp': module('qp', QpSolver=QpStub), 'scipy': module('scipy', linalg=lin), 'scipy.linalg': lin, 'scipy.interpolate': module('i', CubicSpline=Spline), 'matplotlib': module('m', pyplot=None), 'matplotlib.pyplot': module('p')}
I1 = load(D + 'inverse_kinematics.py', ST); I2 = load(D + 'second_order_ik.py', ST)
def cost(rows, d, w, v): return sum([w[i] * (rows[i].dot(v) - d[i]) ** 2 for i in range(len(w))], num(0))
def weights(o): o.w_endeff_tracking, o.w_endeff_contact, o.w_lin_mom_tracking, o.w_ang_mom_tracking, o.w_joint_regularization = [input('w_' + n, .1, 3) for n in ('track', 'contact', 'lin', 'ang', 'joint')]
def wrow(o, con): return [o.w_lin_mom_tracking] * 3 + [o.w_ang_mom_tracking] * 3 + [o.w_endeff_contact if c else o.w_endeff_tracking for c in con for _ in range(3)] + [o.w_joint_regularization] * NJ
def problem(P, q, rows, d, w, what):
    """the quadratic problem is the weighted least squares of the tasks plus a small regularisation"""
    v = vec('any', NV); e = num(1, 10 ** 6); z = arr([0] * NV); prove('the problem is the weighted sum of the tasks' + what, eq(v.dot(P).dot(v) + 2 * q.dot(v), cost(rows, d, w, v) - cost(rows, d, w, z) + e * v.dot(v))); prove_eq('the Hessian is symmetric' + what, P, P.T)
def reg_rows(): return [arr([0] * 6 + [1 if i == j else 0 for j in range(NJ)]) for i in range(NJ)]
@case('first_order')
def _():
    ne = 1 + choice('end_effectors', 2); heads(['PointContactInverseKinematics.' + f for f in ('__init__', 'rotate_J', 'get_world_oriented_frame_jacobian', 'fill_jacobians', 'fill_vel_des', 'fill_weights', 'forward_robot', 'compute')], 'two joints, one or two end effectors, two calls in a row'); assumption('the robot model returns its quantities as functions of the configuration it was updated with'); TAGS.clear(); feet = ['foot_b', 'foot_a'][:ne]; o = I1.PointContactInverseKinematics(Model(ne), feet); ids = [o.model.getFrameId(f) for f in feet]; weights(o); o.p_com_tracking, o.p_endeff_tracking = input('p_com', .1, 2), input('p_eff', .1, 2); o.is_init_time = choice('init', 2)
    for k in range(2):
        s = '%d_' % k; q, dq = vec('q' + s, NV + 1), vec('dq' + s, NV)
        if k: # every component changes, one component changes, nothing changes
            c = choice('change', 4); q = (q, arr([q[i] if i == 0 else last[0][i] for i in range(NV + 1)]), arr([q[i] if i == NV else last[0][i] for i in range(NV + 1)]), last[0].copy())[c]; assume(pand(*[pnot(eq(a, b)) for a, b in zip(dq, last[1])]))
            if c < 3: assume(pand(*[pnot(eq(a, b)) for a, b in zip(q, last[0]) if not (SYM and a is b) and not (not SYM and a == b)]))
        last = (q.copy(), dq.copy()); com, lm, am = vec('com_ref' + s, 3), vec('lmom' + s, 3), vec('amom' + s, 3); pr, vr = mat('pos_ref' + s, ne, 3), mat('vel_ref' + s, ne, 3); con = [choice('contact%d_%d' % (k, i), 2) for i in range(ne)] if k else [1, 0][:ne]; fl = choice('flight' + s, 2) if k else 1; jr = vec('joint_ref' + s, NJ) if not k or choice('posture' + s, 2) else None
        r = o.compute(q, dq, com, lm, am, pr, vr, [num(c) for c in con], jr, bool(fl)); t = tag(q); what = '' if not k else ', whatever came before'; prove('one problem for each step', truth(len(QP) == k + 1)); P, g, G, h, A, b = QP[k]; prove_eq('the step is the solution of the problem', r, vec('res%d_' % (k + 1), NV)); rows = list(mat('Ag_' + t, 6, NV, -1, 1)); d = list(lm + o.p_com_tracking * (com - vec('com_' + t, 3))) + list(am)
        for i, f in enumerate(ids): fr = Frame(f, t); rows += list(fr.rotation.dot(mat('jl%d_%s' % (f, t), 6, NV, -1, 1)[:3])); d += list(vr[i] + (num(1) if o.is_init_time else o.p_endeff_tracking) * (pr[i] - fr.translation))
        rows += reg_rows(); d += [num(0)] * NJ if jr is None else list(jr); problem(P, g, rows, d, wrow(o, con), what); prove('no inequality constraints', truth(G is None and h is None))
        if fl: prove('momentum is constrained in flight' + what, truth(A is not None and b is not None and A.shape == (6, NV) and b.shape == (6,))); prove_eq('the flight constraint is on momentum' + what, A, mat('Ag_' + t, 6, NV, -1, 1)); prove_eq('momentum in flight is its reference' + what, b, _np.hstack([lm, am]))
        else: prove('no constraints in contact' + what, truth(A is None and b is None))
        dn = {x[0] for x in STUB[0].done if tag(x[1]) == t}; prove('the robot is updated before use', truth({'fk', 'jac', 'frames'} <= dn))
@case('first_order_setup')
def _():
    heads(['PointContactInverseKinematics.__init__']); m = Model(2); o = I1.PointContactInverseKinematics(m, ['foot_a', 'foot_b']); prove('end effectors are the named frames', truth(list(o.endeff_ids) == [2, 4] and o.ne == 2 and o.nv == NV and o.base_id == 0)); prove('mass is that of all bodies but the universe', eq(o.mass, m.inertias[1].mass + m.inertias[2].mass))
    try: I1.PointContactInverseKinematics(m, ['foot_a', 'nothing']); bad = False
    except Exception: bad = True
    prove('unknown frames are refused', truth(bad)); prove('rows for every task', truth(o.J.shape == (12 + NJ, NV) and o.vel_des.shape[0] == 12 + NJ))
def second(ne): o = I2.SecondOrderInverseKinematics(Model(ne), ['foot_b', 'foot_a', 'foot_c', 'foot_d'][:ne]); weights(o); o.p_endeff_tracking, o.d_endeff_tracking, o.p_com_tracking, o.p_orient_tracking, o.d_orient_tracking, o.p_joint_regularization, o.d_joint_regularization = [input('g%d' % i, .1, 2) for i in range(7)]; o.p_mom_tracking = vec('p_mom', 6, .1, 2); return o
def accel(o, t, q, dq, com, mom, dmom, pr, vr, ar, jr, L):
    ids = o.endeff_ids; rows = list(mat('Ag_' + t, 6, NV, -1, 1)); d = [dmom[i] + o.p_mom_tracking[i] * (mom[i] - vec('hg_' + t, 6)[i]) for i in range(6)]; c = vec('com_' + t, 3); drift = list(mat('dAg_' + t, 6, NV, -1, 1).dot(dq))
    for i in range(3): d[i] = d[i] + o.p_com_tracking * (com[i] - c[i]); d[3 + i] = d[3 + i] + o.p_orient_tracking * L[i] - o.d_orient_tracking * dq[3 + i]
    for i, f in enumerate(ids): J = mat('jw%d_%s' % (f, t), 6, NV, -1, 1)[:3]; rows += list(J); d += list(o.p_endeff_tracking * (pr[i] - Frame(f, t).translation) + o.d_endeff_tracking * (vr[i] - J.dot(dq)) + ar[i]); drift += list(mat('dj%d_%s' % (f, t), 6, NV, -1, 1)[:3].dot(dq))
    rows += reg_rows(); d += [num(0)] * NJ if jr is None else list(o.p_joint_regularization * (jr - q[7:]) - o.d_joint_regularization * dq[6:]); return rows, d, drift + [num(0)] * NJ
def refs(s, ne): return vec('com_ref' + s, 3), mat('ori_ref' + s, 3, 3), vec('mom' + s, 6), vec('dmom' + s, 6), mat('pos_ref' + s, ne, 3), mat('vel_ref' + s, ne, 3), mat('acc_ref' + s, ne, 3)
S2 = ['SecondOrderInverseKinematics.' + f for f in ('__init__', 'update_kinematics', 'update_des_acc', 'fill_weights', 'step')]
@case('second_order')
def _():
    ne = 1 + choice('end_effectors', 2); heads(S2, 'two joints, one or two end effectors, two calls in a row', 'second_order_ik'); assumption('the robot model returns its quantities as functions of the configuration it was updated with'); assumption('log3 and the frame in which it is expressed are those of the code'); TAGS.clear(); o = second(ne)
    for k in range(2):
        s = '%d_' % k; q, dq = vec('q' + s, NV + 1), vec('dq' + s, NV); com, R, mom, dmom, pr, vr, ar = refs(s, ne); con = [choice('contact%d_%d' % (k, i), 2) for i in range(ne)] if k else [1, 0][:ne]; jr = vec('joint_ref' + s, NJ) if not k or choice('posture' + s, 2) else None; what = '' if not k else ', whatever came before'
        r = o.step(q, dq, com, RotQ(R), mom, dmom, pr, vr, ar, [num(c) for c in con], jr); t = tag(q); prove('one problem for each step', truth(len(QP) == k + 1)); P, g, G, h, A, b = QP[k]; prove_eq('the acceleration is the solution of the problem', r, vec('res%d_' % (k + 1), NV)); prove('no constraints', truth(A is None and G is None)); lg = [x[1] for x in STUB if isinstance(x, tuple) and x[0] == 'log3'][-1]; prove_eq('the orientation error is between the base and its reference', lg, Frame(0, t).rotation.T.dot(R))
        rows, d, drift = accel(o, t, q, dq, com, mom, dmom, pr, vr, ar, jr, vec('log3', 3)); problem(P, g, rows, [x - y for x, y in zip(d, drift)], wrow(o, con), what)
@case('second_order_hierarchy')
def _():
    heads(S2, 'two joints, four end effectors', 'second_order_ik'); assumption('scipy.linalg.pinv returns the pseudo-inverse'); TAGS.clear(); o = second(4); o.use_hierarchy = True; q, dq = vec('q', NV + 1), vec('dq', NV); com, R, mom, dmom, pr, vr, ar = refs('', 4); r = o.step(q, dq, com, RotQ(R), mom, dmom, pr, vr, ar, [num(1)] * 4, vec('joint_ref', NJ)); t = tag(q); rows, d, drift = accel(o, t, q, dq, com, mom, dmom, pr, vr, ar, vec('joint_ref', NJ), vec('log3', 3)); pv = [x for x in STUB if isinstance(x, tuple) and x[0] == 'pinv']; prove('both levels are solved', truth(len(pv) == 2)); F, M_ = _np.array(rows[6:18]), _np.array(rows[:6]); a = _np.array([x - y for x, y in zip(d, drift)]); p1, p2 = mat('pinv1_', NV, 12, -1, 1), mat('pinv2_', NV, 6, -1, 1); N = arr(_np.identity(NV)) - p1.dot(F)
    prove_eq('feet come first', pv[0][1], F); prove_eq('momentum is solved in what the feet leave free', pv[1][1], M_.dot(N)); f = p1.dot(a[6:18]); prove_eq('the acceleration is that of the hierarchy', r, f + p2.dot(a[:6] - M_.dot(f)))
@case('second_order_solve')
def _():
    heads(['SecondOrderInverseKinematics.solve', 'SecondOrderInverseKinematics.framesPos'], 'two or three time steps of one or two inner steps', 'second_order_ik'); assumption('CubicSpline interpolates its data'); TAGS.clear(); SPL.clear(); N, n = 2 + choice('steps', 2), 1 + choice('inner', 2); ne = 2; o = second(ne); dt = num(n, 1000) if SYM else n * .001; st = {}; asked = []; c = lambda k, *s: mat('%s' % k, N, s[0]) if len(s) == 1 else _np.array([mat('%s%d_' % (k, t), *s) for t in range(N)])
    com, lm, am, pr, vr, jr, br = c('c', 3), c('l', 3), c('a', 3), c('p', ne, 3), c('v', ne, 3), c('j', NJ), c('b', 3); con = [[num(1)] * ne for t in range(N)]; q0, d0 = vec('q0_', NV + 1), vec('dq0_', NV); qs, ds = [q0.copy()], [d0.copy()]; up = []; h = num(1, 1000)
    def step(q, dq, *a): k = len(asked); asked.append((q.copy(), dq.copy(), a)); return vec('acc%d_' % k, NV)
    def integrate(m, q, v): k = len(st); st[k] = (q.copy(), v.copy()); return vec('int%d_' % k, NV + 1)
    upd = o.update_kinematics; o.step = step; pin.integrate = integrate; o.update_kinematics = lambda q, dq: (up.append((q.copy(), dq.copy())), upd(q, dq))[1]; out = o.solve(dt, q0, d0, com, lm, am, pr, vr, con, jr, br); prove('all results are returned', truth(len(out) == 7)); Q_, V_, C_, L_, A_, P_, E_ = out; prove('every inner step is taken', truth(len(asked) == (N - 1) * n)); prove_eq('the given state is left alone', _np.hstack([q0, d0]), _np.hstack([qs[0], ds[0]])); q, dq = q0, d0; hist = [(q, dq)]
    sp = {k: [s for s in SPL if s.v is v] for k, v in dict(com=com, l=lm, a=am, p=pr, v=vr, j=jr, b=br).items()}; prove('every reference is interpolated', truth(all(len(x) == 1 for x in sp.values()))); prove_eq('references are interpolated over the time of the plan', sp['com'][0].t, arr([dt * t for t in range(N)])); at = lambda k, t, nu=0: sp[k][0](t, nu)
    for k, (a, b, args) in enumerate(asked):
        t = h * k; it = 1 + k // n; prove_eq('each step starts where the last one ended', _np.hstack([a, b]), _np.hstack([q, dq])); cr, orr, mr, dm, p_, v_, a_, cc, jj = args; prove_eq('references are those of the time of the step', _np.hstack([cr, mr, p_.reshape(-1), v_.reshape(-1), jj]), _np.hstack([at('com', t), at('l', t), at('a', t), at('p', t).reshape(-1), at('v', t).reshape(-1), at('j', t)])); prove_eq('momentum rates are the derivative of momentum', dm, _np.hstack([at('l', t, 1), at('a', t, 1)])); prove_eq('end-effector accelerations are the derivative of velocity', a_, at('v', t, 1)); prove('contacts are those of the step', truth(cc is con[it])); prove_eq('the base reference is that of the time of the step', orr.R[1], at('b', t))
        dq = dq + h * vec('acc%d_' % k, NV); prove_eq('positions are integrated with the new velocity', _np.hstack([st[k][0], st[k][1]]), _np.hstack([q, h * dq])); q = vec('int%d_' % k, NV + 1)
        if k % n == n - 1: hist.append((q, dq))
    for t, (q, dq) in enumerate(hist):
        g = tag(q); prove_eq('each step returns its posture', Q_[t], q); prove_eq('each step returns its velocity', V_[t], dq); prove_eq('each step returns its centre of mass', C_[t], vec('com_' + g, 3)); prove_eq('each step returns its momentum', _np.hstack([L_[t], A_[t]]), vec('hg_' + g, 6))
        for i, f in enumerate(o.endeff_ids): prove_eq('each step returns its end-effector positions', P_[t][i], Frame(f, g).translation); prove_eq('each step returns its end-effector velocities', E_[t][i], mat('jw%d_%s' % (f, g), 6, NV, -1, 1)[:3].dot(dq))
if __name__ == '__main__': kvpy.main()
