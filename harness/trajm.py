"""C27: contracts of the polynomial helpers (min_jerk_traj.py) and of the trajectory generators built on them (momentum_kinematics_optimizer.py)."""
from kvpy import *
import kvpy, numpy as _np, itertools
D = 'momentumopt/python/momentumopt/kinoptpy/'
M = load(D + 'min_jerk_traj.py')
names = ['PlannerVectorParam_KinematicDefaultJointPositions', 'PlannerIntParam_NumTimesteps', 'PlannerDoubleParam_TimeStep', 'PlannerIntParam_NumDofs', 'PlannerDoubleParam_RobotWeight', 'KinematicsSequence']
class Any:
    def __init__(self, *a, **k): pass
pin = module('pinocchio', RobotWrapper=Any); pu = module('pinocchio.utils', zero=lambda n: arr([0] * n)); pin.utils = pu; pym = module('pymomentum', **{n: n for n in names}); pym.__all__ = names
def mko():
    return load(D + 'momentum_kinematics_optimizer.py', {'pinocchio': pin, 'pinocchio.utils': pu, 'pymomentum': pym, 'momentumopt': module('momentumopt'), 'momentumopt.kinoptpy': module('momentumopt.kinoptpy'), 'momentumopt.robots': module('momentumopt.robots'), 'momentumopt.robots.blmc_robot_wrapper': module('b', QuadrupedWrapper=Any), 'momentumopt.kinoptpy.qp': module('qp', QpSolver=Any), 'momentumopt.kinoptpy.inverse_kinematics': module('i', PointContactInverseKinematics=Any), 'momentumopt.kinoptpy.second_order_ik': module('s', SecondOrderInverseKinematics=Any), 'momentumopt.kinoptpy.min_jerk_traj': M})
K = mko()
def heads(fs, b=None, where='min_jerk_traj'): under_contract(*['momentumopt.kinoptpy.%s.%s' % (where, f) for f in fs]); bounded(b) if b else None; assumption('numpy.linalg.solve returns a solution of the regular system it is given (regularity is proved for the minimum-jerk system)'); kvpy.SOLVED.clear(); kvpy.set_tol(1e-5)
def coeffs(c, e): return _np.array([[c[i], num(e[i])] for i in range(len(e))], dtype=object if SYM else float)
def value(c, e, x): return sum([c[i] * x ** e[i] for i in range(len(e))], num(0))
def slope(c, e, x, k=1):
    e = list(e); c = list(c)
    for _ in range(k): c = [a * n for a, n in zip(c, e) if n]; e = [n - 1 for n in e if n]
    return value(c, e, x)
def raises(f, *a):
    try: f(*a); return False
    except ValueError: return True
SHAPES = [[0], [0, 1], [0, 1, 2], [1, 0], [3, 0, 1], [0, 1, 2, 3, 4, 5, 6], [2, 5], [1, 1, 4]]
@case('polynomial')
def _():
    heads(['Polynomial.__init__', 'Polynomial.eval', 'Polynomial.deval', 'Polynomial.differentiate', 'Polynomial.set_coeffs', 'Polynomial.get_coeffs'], 'eight lists of exponents, up to seven coefficients'); e = SHAPES[choice('shape', len(SHAPES))]; c = vec('c', len(e), -2, 2); x = input('x', -1.5, 1.5); A = coeffs(c, e); B = A.copy()
    if choice('set', 2): p = M.Polynomial(); p.set_coeffs(A)
    else: p = M.Polynomial(A)
    prove('a polynomial has the value of its terms', eq(p.eval(x), value(c, e, x))); prove('the derivative of a polynomial is its derivative', eq(p.deval(x), slope(c, e, x)))
    if len(e) > 1: d = M.Polynomial(p.differentiate()); prove('the differentiated polynomial is the derivative', eq(d.eval(x), slope(c, e, x))); prove('the second derivative is the derivative of the derivative', eq(d.deval(x), slope(c, e, x, 2)))
    prove_eq('evaluating leaves the coefficients alone', p.get_coeffs(), B)
@case('not_fitted')
def _():
    heads(['Polynomial.eval', 'Polynomial.deval', 'Polynomial.fit', 'Polynomial.set_initial_coeffs']); p = M.Polynomial(); x = input('x'); prove('an unfitted polynomial has no value', truth(raises(p.eval, x) and raises(p.deval, x))); prove('a polynomial without constraints is not fitted', truth(raises(p.fit))); prove('a polynomial without order has no coefficients', truth(raises(p.set_initial_coeffs)))
    p.set_constraints([num(0), num(1)], [x, x], [0, 3]); prove('only values and the first two derivatives can be constrained', truth(raises(p.fit)))
def det(A):
    n = len(A); memo = {(): num(1)}
    def minor(cols):
        if cols not in memo:
            i = n - len(cols); s = num(0)
            for k, c in enumerate(cols):
                if not (isinstance(A[i, c], kvpy.Real) and not A[i, c].n): s = s + (-1) ** k * A[i, c] * minor(cols[:k] + cols[k + 1:])
            memo[cols] = s
        return memo[cols]
    return minor(tuple(range(n)))
def degree(p, k, x): # k-th derivative of a fitted polynomial through its own interface
    for _ in range(k): p = M.Polynomial(p.differentiate())
    return p.eval(x)
KINDS = [[(0, 0)], [(0, 0), (1, 0)], [(0, 0), (0, 1)], [(0, 1), (1, 0)], [(0, 0), (0, 1), (0, 2)], [(0, 0), (0, 1), (1, 0), (1, 1)], [(1, 2), (0, 0), (1, 1)], [(0, 0), (2, 0), (1, 0)], [(0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (1, 2)]]
@case('fit')
def _():
    heads(['Polynomial.set_constraints', 'Polynomial.set_constraint', 'Polynomial.set_initial_coeffs', 'Polynomial.fit'], 'nine sets of up to six constraints at up to three times'); ks = KINDS[choice('set', len(KINDS))]; n = len(ks); y = vec('y', n); t = [input('t0', -1, 0)]; t += [t[0] + input('h1', .5, 1)]; t += [t[1] + input('h2', .5, 1)]; assume(pand(lt(t[0], t[1]), lt(t[1], t[2])))
    p = M.Polynomial(); p.set_constraints([t[k] for k, _ in ks], list(y), [d for _, d in ks]); prove('as many coefficients as constraints', truth(p.get_coeffs().shape == (n, 2))); p.fit()
    for i, (k, d) in enumerate(ks): prove('a fitted polynomial meets its constraints', eq(degree(p, d, t[k]), y[i]))
    x = input('x', -1, 1); c = p.get_coeffs(); prove('a fitted polynomial has the powers up to its order', eq(p.eval(x), sum([c[i, 0] * x ** i for i in range(n)], num(0))))
def window(a='t0', h='h'):
    t0 = input(a, -1, 1); t1 = t0 + input(h, .6, 1.4)
    if SYM: assume(pnot(eq(t0, t1)))
    return t0, t1
@case('min_jerk')
def _():
    heads(['poly_points', 'create_constraints', 'Polynomial.set_constraints', 'Polynomial.set_constraint', 'Polynomial.set_initial_coeffs', 'Polynomial.fit', 'Polynomial.eval', 'Polynomial.deval', 'Polynomial.differentiate']); t0, t1 = window(); y0, y1 = input('y0'), input('y1'); v = input('via') if choice('via', 2) else None
    p = M.poly_points([t0, t1], y0, y1) if v is None else M.poly_points([t0, t1], y0, y1, v) if choice('how', 2) else M.poly_points([t0, t1], y0, y1, via=v); tc = (t0 + t1) / 2
    for w, t, y in (('starts', t0, y0), ('ends', t1, y1)): prove('it %s at the given value' % w, eq(p.eval(t), y)); prove('it %s at rest' % w, eq(p.deval(t), 0)); prove('it %s without acceleration' % w, eq(degree(p, 2, t), 0))
    prove('it passes the middle at the via value, or half way', eq(p.eval(tc), (y0 + y1) / 2 if v is None else v))
    if SYM and len(kvpy.SOLVED) == 1 and len(kvpy.SOLVED[0][0]) == 7:
        d = det(kvpy.SOLVED[0][0]); c = d.n and d.n[max(d.n, key=lambda m: dict(m).get(kvpy.vid('h'), 0))]; h = t1 - t0; prove('the fitted system is regular for every window', pand(truth(bool(c)), eq(d, Real.of(c) * h ** 15)))
@case('constraints')
def _():
    heads(['create_constraints']); t0, t1 = input('t0'), input('t1'); y0, y1 = input('y0'), input('y1'); v = input('via') if choice('via', 2) else None; c = M.create_constraints([t0, t1], [y0, y1], v); z = num(0); prove('seven constraints', truth(c.shape == (7, 3))); mid = (t0 + t1) / 2; vv = (y0 + y1) / 2 if v is None else v
    want = [(t0, y0, 0), (t0, z, 1), (t0, z, 2), (mid, vv, 0), (t1, y1, 0), (t1, z, 1), (t1, z, 2)]
    for w in want: prove('each boundary condition is among the constraints', por(*[pand(eq(c[i, 0], w[0]), eq(c[i, 1], w[1]), eq(c[i, 2], w[2])) for i in range(7)]))
@case('constant')
def _():
    heads(['constant_poly', 'Polynomial.eval', 'Polynomial.deval']); y, x = input('y'), input('x'); p = M.constant_poly(y); prove('a constant has its value', eq(p.eval(x), y)); prove('a constant has no slope', eq(p.deval(x), 0))
class Piece:
    def __init__(self, i): self.i = i; self.asked = []
    def eval(self, t): self.asked.append(('v', t)); return input('v%d' % self.i)
    def deval(self, t): self.asked.append(('d', t)); return input('d%d' % self.i)
@case('list')
def _():
    heads(['PolynominalList.__init__', 'PolynominalList.append', 'PolynominalList.get_poly', 'PolynominalList.eval', 'PolynominalList.deval'], 'one to four pieces'); n = 1 + choice('pieces', 4); L = M.PolynominalList(); other = M.PolynominalList(); ps = [Piece(i) for i in range(n)]; a = []; t = input('start', -3, 0)
    for i in range(n):
        h, g = input('len%d' % i, .1, 2), input('gap%d' % i, 0, 1); assume(pand(lt(0, h), le(0, g))); b = [t, t + h]; t = b[1] + g; a.append(b); L.append([b[0], b[1]], ps[i])
    x = input('x', -4, 9); got = L.get_poly(x); k = [i for i in range(n) if got is ps[i]]; prove('the piece is one of the list', truth(len(k) == 1)); k = k[0]
    for i in range(n): prove('a time inside a window is evaluated by its piece', implies(pand(lt(a[i][0], x), lt(x, a[i][1])), truth(i == k)))
    prove('times before the first window belong to the first piece', implies(lt(x, a[0][0]), truth(k == 0))); prove('times after the last window belong to the last piece', implies(lt(a[-1][1], x), truth(k == n - 1)))
    for i in range(n): prove('an end of a window belongs to a piece that ends or starts there', implies(por(eq(x, a[i][0]), eq(x, a[i][1])), por(eq(a[k][0], x), eq(a[k][1], x), truth(False) if 0 < i < n else truth(False), pand(le(a[k][0], x), le(x, a[k][1])))))
    prove('the value is that of the piece at that time', pand(eq(L.eval(x), input('v%d' % k)), truth(len(ps[k].asked) == 1 and ps[k].asked[-1][0] == 'v'), eq(ps[k].asked[-1][1], x))); prove('the derivative is that of the piece at that time', pand(eq(L.deval(x), input('d%d' % k)), truth(ps[k].asked[-1][0] == 'd'), eq(ps[k].asked[-1][1], x))); prove('lists do not share their pieces', truth(other.polynominals == [] and other.times == [] and len(L.times) == n))
# ------------------------------------------------------------------ the generators that use them
@case('eff_traj')
def _():
    heads(['EndeffectorTrajectoryGenerator.generate_eff_traj'], 'two end effectors with one to three contacts', 'momentum_kinematics_optimizer'); g = K.EndeffectorTrajectoryGenerator(); g.z_offset = input('z_offset'); plan = {}; names = ['a', 'b']; e = choice('eff', 2); m = 1 + choice('contacts', 3 - e); n = [m, 2] if e == 0 else [1, m]
    for e in range(2):
        t = input('start%d' % e, 0, 1); plan[names[e]] = []
        for i in range(n[e]):
            h, f = input('stance%d_%d' % (e, i), .3, 1), input('flight%d_%d' % (e, i), .3, 1); assume(pand(lt(0, h), lt(0, f))); plan[names[e]].append([t, t + h, vec('p%d_%d_' % (e, i), 3)]); t = t + h + f
    before = {k: [list(x) for x in v] for k, v in plan.items()}; o = module('o', eff_names=names); T = g.generate_eff_traj(o, plan); P = before[names[e]]; tr = T[names[e]]; prove('every end effector has a trajectory for each coordinate', truth(sorted(T) == names and len(tr) == 3)); i = choice('piece', 2 * n[e] - 1); kvpy.set_tol(1e-4)
    if i % 2 == 0:
        a, b, p = P[i // 2]; x = input('x', 0, 6); assume(pand(lt(a, x), lt(x, b)))
        for j in range(3): prove('an end effector in contact stays at its contact', pand(eq(tr[j].eval(x), p[j]), eq(tr[j].deval(x), 0)))
    else:
        a, b, p, q = P[i // 2][1], P[i // 2 + 1][0], P[i // 2][2], P[i // 2 + 1][2]; m = (a + b) / 2
        for j in range(3):
            w = tr[j].get_poly(m); prove('a swing starts at rest at the contact it leaves', pand(eq(w.eval(a), p[j]), eq(w.deval(a), 0))); prove('a swing ends at rest at the contact it reaches', pand(eq(w.eval(b), q[j]), eq(w.deval(b), 0)))
            prove('a swing passes half way, raised by the clearance', eq(tr[j].eval(m), (p[j] + q[j]) / 2 if j < 2 else p[2] + g.z_offset)); prove('the trajectory is at the contact when it is left and reached', pand(eq(tr[j].eval(a), p[j]), eq(tr[j].eval(b), q[j])))
class Dyn:
    def __init__(self, act, pos): self.act, self.pos = act, pos
    def effActivation(self, i): return self.act[i]
    def eff(self, i): return self.pos[i]
@case('contact_plan')
def _():
    heads(['EndeffectorTrajectoryGenerator.get_contact_plan_from_dyn_optimizer', 'EndeffectorTrajectoryGenerator.is_end_eff_in_contact'], 'two end effectors, five steps, every activation history that starts in contact', 'momentum_kinematics_optimizer'); N = 5; act = [[bool(t == 0 or choice('a%d' % t, 2)) for t in range(N)], [True, True, False, True, False]]; pos = [[vec('p%d_%d_' % (t, i), 3) for i in range(2)] for t in range(N)]
    o = module('o', eff_names=['a', 'b'], num_time_steps=N, dynamic_sequence=module('d', dynamics_states=[Dyn([act[0][t], act[1][t]], pos[t]) for t in range(N)])); g = K.EndeffectorTrajectoryGenerator(); plan = g.get_contact_plan_from_dyn_optimizer(o); prove('every end effector has a plan', truth(sorted(plan) == ['a', 'b']))
    for i, nm in enumerate('ab'):
        want = []; s = 0
        for t in range(N - 1):
            if act[i][t] and not act[i][t + 1]: want.append((s, t))
            if act[i][t + 1] and not act[i][t]: s = t + 1
        got = plan[nm]; prove('the plan has each contact that ends within the horizon', truth(len(got) == len(want)))
        for (a, b), q in zip(want, got): prove('a contact lasts from its first to its last active step', pand(eq(q[0], a), eq(q[1], b))); prove_eq('a contact is where the end effector was', q[2], pos[b][i])
        for t in range(N): prove('contact flags are those of the plan', eq(g.is_end_eff_in_contact(t, i, o), 1 if act[i][t] else 0))
@case('eff_refs')
def _():
    heads(['EndeffectorTrajectoryGenerator.__call__'], 'two end effectors, three steps', 'momentum_kinematics_optimizer'); N = 3; act = [[True, bool(choice('a', 2)), False], [False, True, True]]; dt = input('dt', .01, 1); assume(lt(0, dt)); names = ['a', 'b']; o = module('o', eff_names=names, dt=dt, num_time_steps=N, dynamic_sequence=module('d', dynamics_states=[Dyn([act[0][t], act[1][t]], None) for t in range(N)])); g = K.EndeffectorTrajectoryGenerator(); plan = object()
    g.get_contact_plan_from_dyn_optimizer = lambda m: (prove('the plan is that of the optimiser', truth(m is o)), plan)[1]
    class T:
        def __init__(self, e, j): self.k = '%s%d' % (e, j)
        def eval(self, t): return input('v_%s_%d' % (self.k, int(t)))
        def deval(self, t): return input('d_%s_%d' % (self.k, int(t)))
    tr = {e: [T(e, j) for j in range(3)] for e in names}; g.generate_eff_traj = lambda m, c: (prove('trajectories follow the plan', truth(m is o and c is plan)), tr)[1]; p, v, c = g(o); prove('references for every step and end effector', truth(_np.shape(p) == (N, 2, 3) and _np.shape(v) == (N, 2, 3) and _np.shape(c) == (N, 2)))
    for t in range(N):
        for i, e in enumerate(names):
            for j in range(3): prove('the position reference is the trajectory at that step', eq(p[t][i][j], input('v_%s%d_%d' % (e, j, t)))); prove('the velocity reference is its derivative in time', eq(v[t][i][j] * dt, input('d_%s%d_%d' % (e, j, t))))
            prove('the contact reference is the activation', eq(c[t][i], 1 if act[i][t] else 0))
@case('via_traj')
def _():
    heads(['TrajectoryInterpolator.generate_trajectory', 'TrajectoryInterpolator.evaluate_trajecory'], 'two coordinates, one to three via points', 'momentum_kinematics_optimizer'); I = K.TrajectoryInterpolator(); n = 1 + choice('vias', 3); dt = input('dt', .05, .2); assume(lt(0, dt)); dt = dt if SYM else max(1, round(dt * 64)) / 64; I.num_time_steps = 12; I.init, I.end = vec('init', 2), vec('end', 2); via = []; t = num(0); full = choice('last_at_end', 2) if n == 1 else 0
    for i in range(n): h = input('h%d' % i, 1, 3); assume(lt(0, h)); t = num(12) if full else t + h; via.append([t * dt] + list(vec('via%d_' % i, 2)))
    if not full: assume(lt(t, 12))
    I.generate_trajectory(n, via, dt); r = lambda x: I.evaluate_trajecory(x).reshape(-1); kvpy.set_tol(1e-4); k = choice('at', n + 2)
    if k == 0: prove_eq('it starts at the initial value', r(num(0)), I.init); [prove('it starts at rest', eq(p.deval(num(0)), 0)) for p in I.poly_traj]
    elif k <= n: x = via[k - 1][0] / dt; prove_eq('it passes each via value at its time', r(x), arr(via[k - 1][1:])); [prove('it rests at each via value', eq(p.deval(x), 0)) for p in I.poly_traj]
    elif not full: prove_eq('it ends at the final value', r(num(12)), I.end)
if __name__ == '__main__': kvpy.main()
