"""Verification-condition generator for the Python modules: the real source is loaded on every run (float literals and divisions are
wrapped, nothing else is changed), executed on exact symbolic reals with numpy object arrays; every feasible path is explored, every
obligation is discharged by an exact rational-function normal form or by z3.  The same harness runs on plain floats for replays."""
import sys, os, ast, json, time, types, random, argparse, importlib
from fractions import Fraction as F
import numpy as _np
REPO = os.environ.get('KV_REPO', '/repo')
ap = argparse.ArgumentParser(); ap.add_argument('--mode', default='sym'); ap.add_argument('--list', action='store_true'); ap.add_argument('--case'); ap.add_argument('--out'); ap.add_argument('--budget', type=float, default=0)
ap.add_argument('--thorough', action='store_true'); ap.add_argument('--replay'); ap.add_argument('--jitter', action='store_true'); ap.add_argument('--random', type=int, default=0); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--seconds', type=float, default=20); ap.add_argument('--save'); ap.add_argument('--trace', action='store_true')
ARGS, _ = ap.parse_known_args(); SYM = ARGS.mode == 'sym'
CASES = {}
def case(name):
    def d(f): CASES[name] = f; return f
    return d
class Infeasible(BaseException):
    def __init__(self): C.pending = True
class Budget(BaseException): pass
class Fail(BaseException):
    def __init__(self, label): self.label = label
# ------------------------------------------------------------------ polynomials over the rationals, modulo v^2 = rule(v)
NAMES = []; IDS = {}; RULE = {}
def vid(name):
    if name not in IDS: IDS[name] = len(NAMES); NAMES.append(name)
    return IDS[name]
def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + s * c
        if n: r[m] = n
        else: r.pop(m, None)
    return r
def mmul(a, b):
    if not a: return b
    if not b: return a
    r = []; i = j = 0
    while i < len(a) and j < len(b):
        if a[i][0] == b[j][0]: r.append((a[i][0], a[i][1] + b[j][1])); i += 1; j += 1
        elif a[i][0] < b[j][0]: r.append(a[i]); i += 1
        else: r.append(b[j]); j += 1
    return tuple(r) + a[i:] + b[j:]
def pmul_raw(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n); v = r.get(k, 0) + c * d
            if v: r[k] = v
            else: r.pop(k, None)
    return r
def reduce_(p):
    if not RULE: return p
    while True:
        hit = None
        for m in p:
            for v, e in m:
                if e >= 2 and v in RULE: hit = (m, v, e); break
            if hit: break
        if not hit: return p
        m, v, e = hit; p = dict(p); c = p.pop(m); rest = tuple((w, f) for w, f in m if w != v)
        t = {mmul(rest, ((v, 1),)) if e % 2 else rest: c}
        for _ in range(e // 2): t = pmul_raw(t, RULE[v])
        p = padd(p, t)
def pmul(a, b): return reduce_(pmul_raw(a, b))
ONE = {(): F(1)}
def isc(p): return not p or (len(p) == 1 and () in p)
def key(m): return tuple((-v, e) for v, e in m)
def pdiv(a, b):
    """exact quotient or None"""
    if not a: return {}
    lb = max(b, key=key); cb = b[lb]; q = {}; r = dict(a); n = 0; db = dict(lb)
    while r:
        n += 1
        if n > 400: return None
        lr = max(r, key=key); dr = dict(lr)
        for v, e in db.items():
            if dr.get(v, 0) < e: return None
        m = tuple(sorted((v, e - db.get(v, 0)) for v, e in dr.items() if e != db.get(v, 0))); c = r[lr] / cb
        q[m] = c; r = padd(r, pmul_raw({m: c}, b), -1)
    return q
def freeze(p): return tuple(sorted(p.items()))
class Real:
    __slots__ = ('n', 'd')
    def __init__(self, n, d=ONE): self.n = n; self.d = d
    @staticmethod
    def of(x):
        if isinstance(x, Real): return x
        if isinstance(x, (bool, _np.bool_)): return Real({(): F(1)} if x else {})
        if isinstance(x, (int, _np.integer)): return Real({(): F(int(x))} if x else {})
        if isinstance(x, F): return Real({(): x} if x else {})
        if isinstance(x, (float, _np.floating)):
            if x != x or x in (float('inf'), float('-inf')): raise ArithmeticError('inf/nan enters arithmetic')
            return Real({(): F(repr(float(x)))} if x else {})
        return None
    def const(self):
        if isc(self.n) and isc(self.d): return self.n.get((), F(0)) / self.d[()]
        return None
    @staticmethod
    def make(n, d):
        if not n: return Real({})
        if isc(d):
            c = d[()]; return Real(n if c == 1 else {m: x / c for m, x in n.items()})
        q = pdiv(n, d)
        if q is not None: return Real(q)
        c = d[max(d, key=key)]
        if c != 1: n = {m: x / c for m, x in n.items()}; d = {m: x / c for m, x in d.items()}
        return Real(n, d)
    def _bin(self, o, f):
        if isinstance(o, _np.ndarray): return NotImplemented
        o = Real.of(o)
        return NotImplemented if o is None else f(self, o)
    def __add__(s, o): return s._bin(o, addr)
    def __radd__(s, o): return s._bin(o, lambda a, b: addr(b, a))
    def __sub__(s, o): return s._bin(o, lambda a, b: addr(a, -b))
    def __rsub__(s, o): return s._bin(o, lambda a, b: addr(b, -a))
    def __mul__(s, o): return s._bin(o, mulr)
    def __rmul__(s, o): return s._bin(o, mulr)
    def __truediv__(s, o): return s._bin(o, divr)
    def __rtruediv__(s, o): return s._bin(o, lambda a, b: divr(b, a))
    def __neg__(s): return Real({m: -c for m, c in s.n.items()}, s.d)
    def __pos__(s): return s
    def __pow__(s, k):
        k = Real.of(k).const()
        if k is None or k.denominator != 1: raise TypeError('symbolic exponent')
        k = int(k)
        if k < 0: return Real.of(1) / s ** -k
        r = Real.of(1)
        for _ in range(k): r = r * s
        return r
    def __lt__(s, o): return lt(s, o)
    def __le__(s, o): return le(s, o)
    def __gt__(s, o): return lt(o, s)
    def __ge__(s, o): return le(o, s)
    def __eq__(s, o): return False if Real.of(o) is None else eq(s, o)
    def __ne__(s, o): return True if Real.of(o) is None else pnot(eq(s, o))
    __hash__ = object.__hash__
    def __bool__(s): return bool(pnot(eq(s, 0)))
    def __float__(s):
        c = s.const()
        if c is None: raise TypeError('a symbolic real is used as a machine number')
        return float(c)
    def __int__(s):
        c = s.const()
        if c is None: raise TypeError('a symbolic real is used as an integer')
        return int(c)
    def __index__(s):
        c = s.const()
        if c is None or c.denominator != 1: raise TypeError('a real is used as an index')
        return int(c)
    def __int__(s): return int(s._whole())
    def __round__(s, n=None): return round(s._whole()) if n is None else Real.of(round(s._whole(), n))
    def _whole(s):
        c = s.const()
        if c is None: raise ArithmeticError('rounding of a symbolic real')
        return c
    def __abs__(s): return s if bool(le(0, s)) else -s
    def sqrt(s): return sqrt(s)
    def sin(s): return sin(s)
    def cos(s): return cos(s)
    def conjugate(s): return s
    def copy(s): return s
    def __repr__(s): return '(%s)/(%s)' % (pstr(s.n), pstr(s.d)) if not isc(s.d) else pstr(s.n)
def pstr(p): return ' + '.join(str(c) + ''.join('*%s%s' % (NAMES[v], '^%d' % e if e > 1 else '') for v, e in m) for m, c in list(p.items())[:40]) or '0'
def addr(a, b):
    if a.d == b.d: return Real.make(padd(a.n, b.n), a.d)
    q = pdiv(a.d, b.d) if not isc(a.d) else None
    if q is not None: return Real.make(padd(a.n, pmul(b.n, q)), a.d)
    q = pdiv(b.d, a.d) if not isc(b.d) else None
    if q is not None: return Real.make(padd(pmul(a.n, q), b.n), b.d)
    return Real.make(padd(pmul(a.n, b.d), pmul(b.n, a.d)), pmul(a.d, b.d))
def mulr(a, b):
    if not a.n or not b.n: return Real({})
    if isc(a.d) and isc(b.d): return Real(pmul(a.n, b.n))
    x, y = Real.make(a.n, b.d), Real.make(b.n, a.d)
    return Real.make(pmul(x.n, y.n), pmul(x.d, y.d))
def divr(a, b):
    if not b.n: raise ZeroDivisionError('division by zero')
    if not isc(b.n): C.defined(Prop('!=', b.n))
    return mulr(a, Real(b.d, b.n) if not isc(b.n) else Real.make(b.d, b.n))
# ------------------------------------------------------------------ propositions
class Prop:
    __slots__ = ('op', 'a')
    def __init__(self, op, *a): self.op = op; self.a = a
    def __bool__(self): return C.branch(self) if SYM else self.a[2]
    def __invert__(self): return pnot(self)
    def __and__(self, o): return pand(self, o)
def toP(b): return b if isinstance(b, Prop) else truth(bool(b))
def truth(b): return Prop('t', bool(b)) if SYM else Prop('c', bool(b), bool(b), bool(b))
TOL = [1e-6]
def _sc(a, b): return 1 + (abs(a) if abs(a) < 1e300 else 0) + (abs(b) if abs(b) < 1e300 else 0)
def _rel(op, a, b):
    if not SYM:
        a = float(a); b = float(b); s = _sc(a, b); t = TOL[0]
        if op == '=': return Prop('c', a == b or abs(a - b) <= t * s, False, a == b or abs(a - b) <= 1e-9 * s)
        if op == '<=': return Prop('c', a <= b + t * s, a <= b - t * s, a <= b)
        return Prop('c', a < b + t * s, a < b - t * s, a < b)
    x = addr(Real.of(a), -Real.of(b))
    if isc(x.d): p = x.n
    elif op == '=': p = x.n
    else: p = pmul(x.n, x.d)
    if isc(p):
        c = p.get((), F(0)); return Prop('t', c == 0 if op == '=' else c <= 0 if op == '<=' else c < 0)
    return Prop(op, p)
def eq(a, b): return _rel('=', a, b)
def le(a, b): return _rel('<=', a, b)
def lt(a, b): return _rel('<', a, b)
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)
def pnot(p):
    p = toP(p)
    if not SYM: return Prop('c', not p.a[1], not p.a[0], not p.a[2])
    return Prop('t', not p.a[0]) if p.op == 't' else Prop('not', p)
def pand(*ps):
    ps = [toP(p) for p in ps]
    if not SYM: return Prop('c', all(p.a[0] for p in ps), all(p.a[1] for p in ps), all(p.a[2] for p in ps))
    ps = [p for p in ps if not (p.op == 't' and p.a[0])]
    if any(p.op == 't' for p in ps): return Prop('t', False)
    return Prop('t', True) if not ps else ps[0] if len(ps) == 1 else Prop('and', *ps)
def por(*ps): return pnot(pand(*[pnot(p) for p in ps]))
def implies(a, b): return por(pnot(a), b)
def flat(a): return list(_np.asarray(a, dtype=object).reshape(-1))
def same(a, b):
    a, b = _np.asarray(a, dtype=object), _np.asarray(b, dtype=object)
    if a.shape != b.shape: return truth(False)
    return pand(*[eq(x, y) for x, y in zip(a.reshape(-1), b.reshape(-1))])
# ------------------------------------------------------------------ solver and path context
if SYM:
    import z3
    _zv = {}
    def zvar(v):
        if v not in _zv: _zv[v] = z3.Real(NAMES[v])
        return _zv[v]
    def zpoly(p):
        ts = []
        for m, c in p.items():
            t = z3.RealVal(str(c)) if (c != 1 or not m) else None
            for v, e in m:
                for _ in range(e): t = zvar(v) if t is None else t * zvar(v)
            ts.append(t)
        return z3.Sum(ts) if len(ts) > 1 else ts[0] if ts else z3.RealVal(0)
    def zprop(p):
        if p.op == 't': return z3.BoolVal(p.a[0])
        if p.op == 'not': return z3.Not(zprop(p.a[0]))
        if p.op == 'and': return z3.And(*[zprop(x) for x in p.a])
        q = zpoly(p.a[0])
        return q == 0 if p.op == '=' else q != 0 if p.op == '!=' else q <= 0 if p.op == '<=' else q < 0
class Ctx:
    def __init__(self):
        self.dec = []; self.obs = {}; self.viol = []; self.assumptions = []; self.contracts = []; self.bounded = []; self.covers = []; self.paths = self.infeasible = self.unknown = self.ndef = self.queries = 0; self.secs = 0.; self.complete = True; self.bt, self.pt = 2000, 20000; self.maxp = 5000; self.deadline = 0
    def begin(self):
        self.pending = False; self.need = SYM; self.i = 0; self.pc = []; self.inputs = []; self.eqs = {}; self.sqrts = {}; self.trig = {}; self.at2 = {}; self.extra = {}; RULE.clear(); self.fresh = 0
        if SYM: self.s = z3.SolverFor('QF_NRA'); self.known = set()
    def assert_(self, p):
        if p.op == 't':
            if not p.a[0]: raise Infeasible()
            return
        z = zprop(p)
        if z.get_id() in self.known: return
        self.known.add(z.get_id()); self.pc.append(z); self.s.add(z)
    def defined(self, p):
        if self.need:
            self.need = False; prove('defined: no division by zero, no root of a negative number', p); self.need = True
        else: self.ndef += 1
        self.assert_(p)
    def check(self, z, ms):
        t = time.time(); self.queries += 1; s = z3.Solver(); s.set('timeout', ms); s.add(*self.pc); s.add(z); r = s.check(); self.secs += time.time() - t
        if ARGS.trace: print('query', self.queries, r, round(time.time() - t, 2), flush=True)
        return str(r), s
    def branch(self, p):
        if self.pending: raise Infeasible()
        if p.op == 't': return p.a[0]
        if self.deadline and time.time() > self.deadline: self.complete = False; self.pending = True; raise Budget()
        z = zprop(p)
        if self.i < len(self.dec): v = self.dec[self.i][0]
        else:
            a, _ = self.check(z, self.bt); b, _ = self.check(z3.Not(z), self.bt)
            if a == 'unknown' or b == 'unknown': pass
            if a == 'unsat' and b == 'unsat': raise Infeasible()
            opts = [o for o, r in ((True, a), (False, b)) if r != 'unsat']; v = opts[0]; self.dec.append([v, opts[1:]])
        self.i += 1; self.assert_(p if v else pnot(p)); return v
    def choose(self, n):
        if self.pending: raise Infeasible()
        if self.i < len(self.dec): v = self.dec[self.i][0]
        else: v = 0; self.dec.append([0, list(range(1, n))])
        self.i += 1; return v
    def ob(self, label): return self.obs.setdefault(label, dict(label=label, paths=0, by_nf=0, by_smt=0, failed=0, unknown=0, secs=0., backends=[]))
    def model(self, s):
        m = s.model(); r = {}
        for n in self.inputs:
            if n.startswith('choice:'): r[n] = str(self.extra[n]); continue
            v = m.eval(zvar(vid(n)), model_completion=True)
            r[n] = v.as_decimal(18).rstrip('?') if z3.is_algebraic_value(v) else str(v.as_fraction()) if z3.is_rational_value(v) else '0'
        return r
    def fail(self, label, status, s, sat=False):
        if len([v for v in self.viol if v['label'] == label]) < 2: self.viol.append(dict(label=label, status=status, inputs=self.model(s) if status == 'refuted' or sat else {}, smt=s.to_smt2()[:20000]))
    def path_failure(self, label):
        o = self.ob(label); o['paths'] += 1; r, s = self.check(z3.BoolVal(True), 5000)
        if r == 'unsat': o['paths'] -= 1; return
        o['unknown'] += 1; self.fail(label, 'unknown', s, r == 'sat') # an exception may come from the engine: the replay on floats decides
C = Ctx()
def input(name, lo=-10., hi=10.):
    if SYM:
        if name not in C.inputs: C.inputs.append(name)
        return Real({((vid(name), 1),): F(1)})
    return conc_input(name, lo, hi)
def fresh(name): C.fresh += 1; return input('%s!%d' % (name, C.fresh))
def choice(name, n):
    if not SYM: return conc_choice(name, n)
    v = C.choose(n); k = 'choice:' + name; C.inputs.append(k); C.extra[k] = v; return v
class Reject(BaseException): pass
def assume(p):
    p = toP(p)
    if not SYM:
        if not p.a[2]: raise Reject()
        return
    C.assert_(p); note_eq(p)
def note_eq(p):
    if p.op == '=': C.eqs[freeze(norm1(p.a[0]))] = True
    if p.op == 'and':
        for q in p.a: note_eq(q)
def norm1(p): c = p[max(p, key=key)]; return {m: x / c for m, x in p.items()}
def require_defined(on=True):
    """divisors and radicands of the code below become obligations"""
    C.need = on and SYM
def feasible():
    """prune the current path when the assumptions contradict each other"""
    if SYM and C.check(z3.BoolVal(True), C.bt)[0] == 'unsat': raise Infeasible()
def valid(p):
    p = toP(p)
    if not SYM: return p.a[2]
    if p.op == 't': return p.a[0]
    return C.check(z3.Not(zprop(p)), C.bt)[0] == 'unsat'
def prove(label, p):
    p = toP(p)
    if SYM and C.pending: raise Infeasible()
    if not SYM:
        if not p.a[0]: raise Fail(label)
        return
    if p.op == 'and':
        for q in p.a: prove(label, q)
        return
    o = C.ob(label); o['paths'] += 1; t = time.time()
    if p.op == 't' and p.a[0] or p.op == '=' and freeze(norm1(p.a[0])) in C.eqs: o['by_nf'] += 1; return
    r, s = C.check(z3.Not(zprop(p)), C.pt); o['secs'] += time.time() - t
    if r == 'unsat':
        o['by_smt'] += 1
        if 'z3' not in o['backends']: o['backends'].append('z3')
    elif r == 'sat': o['failed'] += 1; C.fail(label, 'refuted', s)
    else: o['unknown'] += 1; C.fail(label, 'unknown', s)
def prove_eq(label, a, b):
    a, b = _np.asarray(a, dtype=object), _np.asarray(b, dtype=object)
    if a.shape != b.shape: prove(label, truth(False)); return
    for x, y in zip(a.reshape(-1), b.reshape(-1)): prove(label, eq(x, y))
def lemma(label, p): prove(label, p); (assume(p) if SYM else None)
def lemma_for_all(label, args, hyps, goal):
    """a lemma over fresh variables (nothing else is assumed in its proof), instantiated with args: its hypotheses are proved, its conclusion assumed"""
    if not SYM: prove(label, goal(*args)); return
    v = [fresh('lemma') for _ in args]; [C.inputs.pop() for _ in args]; o = C.ob(label); o['paths'] += 1; t = time.time(); C.queries += 1
    s = z3.Solver(); s.set('timeout', C.pt); s.add(*[zprop(toP(h)) for h in hyps(*v)]); s.add(z3.Not(zprop(toP(goal(*v))))); r = str(s.check()); o['secs'] += time.time() - t; C.secs += time.time() - t
    if r == 'unsat': o['by_smt'] += 1; o['backends'] = ['z3']
    else: o['unknown'] += 1; C.fail(label, 'unknown', s)
    for h in hyps(*args): prove(label + ' (hypothesis)', h)
    assume(goal(*args))
def lemma_sqrt(label, x, r):
    prove(label + ' (root is non-negative)', le(0, r)); prove(label + ' (square of the root)', eq(r * r, x))
    if SYM: C.sqrts[freeze(Real.of(x).n), freeze(Real.of(x).d)] = r
def under_contract(*a): C.contracts += [x for x in a if x not in C.contracts]
def bounded(a): C.bounded += [a] if a not in C.bounded else []
def assumption(a): C.assumptions += [a] if a not in C.assumptions else []
def cover(a): C.covers += [a] if a not in C.covers else []
def set_max_paths(n): C.maxp = n
def set_timeouts(b, p): C.bt, C.pt = b, p
def set_tol(t): TOL[0] = t
# ------------------------------------------------------------------ functions of reals
import math
def isq(n): r = math.isqrt(n); return r if r * r == n else None
def sqrt(x):
    if not SYM: return math.sqrt(x)
    x = Real.of(x); k = (freeze(x.n), freeze(x.d))
    if k in C.sqrts: return C.sqrts[k]
    c = x.const()
    if c is not None and c >= 0:
        a, b = isq(c.numerator), isq(c.denominator)
        if a is not None and b is not None: return Real.of(F(a, b))
    if c is not None and c < 0: raise ArithmeticError('square root of a negative number')
    r = fresh('sqrt'); C.inputs.pop()
    C.defined(le(0, x)); C.assert_(le(0, r))
    if isc(x.d): C.assert_(eq(r * r, x)); RULE[max(r.n, key=key)[0][0]] = x.n
    else: C.assert_(eq(r * r * Real(x.d), Real(x.n)))
    C.sqrts[k] = r; return r
PI = None
def pi():
    if not SYM: return math.pi
    p = input('pi'); C.inputs.pop() if C.inputs[-1] == 'pi' else None
    C.assert_(lt(F(314159265, 10**8), p)); C.assert_(lt(p, F(314159266, 10**8))); return p
def trig(x):
    x = Real.of(x); c = x.const()
    if c == 0: return Real.of(0), Real.of(1)
    lead = x.n[max(x.n, key=key)]; sg = 1
    if lead < 0: x = -x; sg = -1
    k = (freeze(x.n), freeze(x.d))
    if k not in C.trig:
        i = len(C.trig); s = input('sin!%d' % i); c = input('cos!%d' % i); C.inputs = C.inputs[:-2]
        C.assert_(eq(s * s + c * c, 1)); RULE[max(s.n, key=key)[0][0]] = addr(Real.of(1), -(c * c)).n
        P = pi(); C.assert_(implies(pand(lt(0, x), lt(x, P)), lt(0, s))); C.assert_(implies(pand(lt(-P, x), lt(x, 0)), lt(s, 0))); C.assert_(implies(eq(x, 0), pand(eq(s, 0), eq(c, 1))))
        C.trig[k] = (s, c, x)
    s, c, _ = C.trig[k]; return (s if sg > 0 else -s), c
def sin(x): return trig(x)[0] if SYM else math.sin(x)
def cos(x): return trig(x)[1] if SYM else math.cos(x)
atan_bounds = [False]
def arctan2(y, x):
    """the angle a in (-pi, pi] with r sin a = y, r cos a = x for some r > 0 (contract: unique)"""
    if not SYM: return math.atan2(y, x)
    y, x = Real.of(y), Real.of(x); k = (freeze(y.n), freeze(y.d), freeze(x.n), freeze(x.d))
    if k in C.at2: return C.at2[k]
    P = pi()
    for s, c, a in C.trig.values():
        for sg in (1, -1):
            if valid(pand(eq(y, sg * s), eq(x, c), lt(-P, sg * a), le(sg * a, P))): C.at2[k] = sg * a; return sg * a
    a = fresh('atan2'); C.inputs.pop()
    if atan_bounds[0]: z = y / x; C.assert_(implies(pand(le(0, y), lt(0, x)), pand(le(z - z ** 3 / 3, a), le(a, z))))
    r = sqrt(y * y + x * x); C.assert_(pand(lt(-P, a), le(a, P))); s, c = trig(a); C.assert_(eq(r * s, y)); C.assert_(eq(r * c, x)); C.at2[k] = a; return a
# ------------------------------------------------------------------ numpy on symbolic reals
def wrap(a):
    a = _np.asarray(a)
    if a.dtype == object or a.dtype.kind in 'US': return a
    r = _np.empty(a.shape, dtype=object)
    for i in _np.ndindex(a.shape): r[i] = Real.of(a[i])
    return r
def each(f): return lambda a, *k, **w: f(a) if not isinstance(a, (_np.ndarray, list, tuple)) else _map(f, a)
def _map(f, a):
    a = _np.asarray(a, dtype=object); r = _np.empty(a.shape, dtype=object)
    for i in _np.ndindex(a.shape): r[i] = f(a[i])
    return r
class Linalg(types.ModuleType):
    def __getattr__(self, n): return getattr(_np.linalg, n)
    def norm(self, a, *k, **w):
        assert not k and not w
        t = Real.of(0)
        for x in flat(a): t = t + Real.of(x) * Real.of(x)
        return sqrt(t)
    def solve(self, A, b): return solve(A, b)
    def inv(self, A): return solve(A, _np.identity(len(A)))
def solve(A, b, what='solve'):
    """contract of a dense linear solver: for a square matrix it returns some x with A x = b (regular matrices only)"""
    if not SYM: return _np.linalg.solve(_np.array(A, dtype=float), _np.array(b, dtype=float))
    A, b = _np.asarray(A, dtype=object), _np.asarray(b, dtype=object); n = A.shape[0]
    if A.shape != (n, n) or b.shape[0] != n: raise ValueError('shapes of a linear system do not match')
    x = _np.empty(b.shape, dtype=object)
    for i in _np.ndindex(b.shape): x[i] = fresh(what); C.inputs.pop()
    y = A.dot(x)
    for i in _np.ndindex(b.shape): assume(eq(y[i], b[i]))
    SOLVED.append((A, b, x)); return x
SOLVED = []
class Numpy(types.ModuleType):
    def __init__(self): super().__init__('numpy'); self.linalg = Linalg('numpy.linalg'); self.__all__ = [n for n in _np.__all__ if not n.startswith('_') and n in vars(_np) and n != 'pi']; self.__path__ = []
    def __getattr__(self, n):
        if n == 'pi': return pi()
        return getattr(_np, n)
    def _new(self, v, shape): r = _np.empty(shape, dtype=object); r[...] = v; return r
    def zeros(self, shape, *a, **k): return self._new(Real.of(0), shape)
    def ones(self, shape, *a, **k): return self._new(Real.of(1), shape)
    def empty(self, shape, *a, **k): return _map(lambda _: fresh('uninitialised'), _np.empty(shape, dtype=object))
    def zeros_like(self, a, *k, **w): return self._new(Real.of(0), _np.shape(a))
    def ones_like(self, a, *k, **w): return self._new(Real.of(1), _np.shape(a))
    def full(self, shape, v, *a, **k): return self._new(Real.of(v), shape)
    def eye(self, *a, **k): return wrap(_np.eye(*a, **k))
    def identity(self, n, *a, **k): return wrap(_np.identity(n))
    def array(self, a, *k, **w): return wrap(_np.array(a)).copy()
    def asarray(self, a, *k, **w): return wrap(a)
    def arange(self, *a, **k): return wrap(_np.arange(*[float(x) if isinstance(x, Real) else x for x in a]))
    def linspace(self, a, b, n): return wrap([a + (b - a) * F(i, n - 1) if n > 1 else a for i in range(n)])
    def power(self, x, e):
        if isinstance(x, _np.ndarray) or isinstance(e, _np.ndarray):
            x, e = _np.broadcast_arrays(_np.asarray(x, dtype=object), _np.asarray(e, dtype=object)); r = _np.empty(x.shape, dtype=object)
            for i in _np.ndindex(x.shape): r[i] = Real.of(x[i]) ** e[i]
            return r
        return Real.of(x) ** e
    def square(self, x): return x * x
    def sqrt(self, x): return each(sqrt)(x)
    def sin(self, x): return each(sin)(x)
    def cos(self, x): return each(cos)(x)
    def abs(self, x): return each(abs)(x)
    def arctan2(self, y, x): return arctan2(y, x)
    def cross(self, a, b): a, b = _np.asarray(a, dtype=object), _np.asarray(b, dtype=object); return wrap([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
    def isclose(self, a, b, rtol=1e-05, atol=1e-08, **k):
        a, b = _np.broadcast_arrays(_np.asarray(a, dtype=object), _np.asarray(b, dtype=object)); r = _np.empty(a.shape, dtype=object)
        for i in _np.ndindex(a.shape): r[i] = bool(le(abs(Real.of(a[i]) - b[i]), Real.of(atol) + Real.of(rtol) * abs(Real.of(b[i]))))
        return r if r.shape else r[()]
    def allclose(self, a, b, *k, **w):
        a, b = _np.broadcast_arrays(_np.asarray(a, dtype=object), _np.asarray(b, dtype=object)); rt, at = (list(k) + [w.get('rtol', F(1, 10 ** 5)), w.get('atol', F(1, 10 ** 8))][len(k):])[:2]
        return bool(pand(*[le(abs(Real.of(x) - y), Real.of(at) + Real.of(rt) * abs(Real.of(y))) for x, y in zip(a.reshape(-1), b.reshape(-1))]))
    def array_equal(self, a, b, *k): return _np.shape(a) == _np.shape(b) and bool(same(a, b))
    def set_printoptions(self, *a, **k): pass
    def savetxt(self, f, a, *k, **w): SAVED.append((f, a))
    def loadtxt(self, f, *a, **k): return LOAD(f)
SAVED = []
def LOAD(f): raise IOError(f)
NP = Numpy() if SYM else _np
class Wrap(ast.NodeTransformer):
    def visit_Constant(self, n): return ast.copy_location(ast.Call(ast.Name('__kv_real__', ast.Load()), [ast.Constant(repr(n.value))], []), n) if isinstance(n.value, float) else n
    def visit_BinOp(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name('__kv_div__', ast.Load()), [n.left, n.right], []), n) if isinstance(n.op, ast.Div) else n
    def visit_JoinedStr(self, n): return n
class _FloatType(type):
    def __call__(cls, x=0.0): return x if isinstance(x, Real) else Real.of(x[()]) if isinstance(x, _np.ndarray) and x.shape == () and isinstance(x[()], Real) else x.item() if isinstance(x, _np.ndarray) and x.size == 1 and isinstance(x.item(), Real) else __builtins_float__(x)
    def __instancecheck__(cls, x): return isinstance(x, (__builtins_float__, Real))
__builtins_float__ = float
class _Float(metaclass=_FloatType): pass
def _div(a, b): return Real.of(a) / b if isinstance(a, (int, float)) and isinstance(b, (int, float)) else a / b
def load(path, stubs={}, package=None):
    """the module at path (below /repo), executed from its current source"""
    src = open(os.path.join(REPO, path)).read(); tree = ast.parse(src); m = types.ModuleType(os.path.basename(path)[:-3]); m.__package__ = package
    if SYM: tree = ast.fix_missing_locations(Wrap().visit(tree)); m.__dict__.update(__kv_real__=lambda s: Real.of(F(s)), __kv_div__=_div); m.__dict__['print'] = lambda *a, **k: None; m.__dict__['float'] = _Float
    st = dict(stubs); saved = {}
    if SYM: st.update({'numpy': NP, 'numpy.linalg': NP.linalg})
    for k, v in st.items(): saved[k] = sys.modules.get(k); sys.modules[k] = v
    try: exec(compile(tree, path, 'exec'), m.__dict__)
    finally:
        for k, v in saved.items():
            if v is None: sys.modules.pop(k, None)
            else: sys.modules[k] = v
    return m
def module(name, **kw):
    m = types.ModuleType(name); m.__dict__.update(kw); m.__path__ = []; return m
def vec(name, n, lo=-10., hi=10.): return arr([input('%s%d' % (name, i), lo, hi) for i in range(n)])
def mat(name, r, c, lo=-10., hi=10.): return arr([[input('%s%d_%d' % (name, i, j), lo, hi) for j in range(c)] for i in range(r)])
def arr(a): return wrap(a) if SYM else _np.array(a, dtype=float)
def num(a, b=1): return Real.of(F(a, b)) if SYM else a / b
# ------------------------------------------------------------------ drivers
def run_sym(name):
    f = CASES[name]; t0 = time.time(); C.deadline = t0 + ARGS.budget if ARGS.budget else 0
    while True:
        C.begin()
        try:
            f()
            if C.pending: raise Infeasible()
            C.paths += 1
        except Infeasible: C.infeasible += 1
        except Budget: pass
        except Exception as e:
            import traceback
            tb = [x for x in traceback.extract_tb(e.__traceback__) if 'kvpy' not in x.filename]
            if ARGS.trace: traceback.print_exc()
            if not C.pending: C.path_failure('no exception: %s: %s' % (type(e).__name__, str(e)[:200])); C.paths += 1
        while C.dec and not C.dec[-1][1]: C.dec.pop()
        if not C.dec: break
        d = C.dec[-1]; d[0] = d[1].pop(0)
        if C.paths >= C.maxp or (C.deadline and time.time() > C.deadline): C.complete = False; break
    r = dict(case=name, paths=C.paths, infeasible=C.infeasible, complete=C.complete, branch_unknown=C.unknown, assumed_definedness=C.ndef, wall_s=time.time() - t0, nf_s=0, solver_s=C.secs, queries=C.queries, crash=[], covers=C.covers, assumptions=C.assumptions, contracts=C.contracts, bounded=C.bounded, obligations=list(C.obs.values()), violations=C.viol)
    json.dump(r, open(ARGS.out, 'w')) if ARGS.out else print(json.dumps(dict(r, violations=[dict(v, smt='') for v in C.viol]), indent=1))
GIVEN = {}; USED = []; RNG = random.Random()
def val(s):
    s = s.strip()
    try: return float(F(s))
    except Exception: return float(s)
def conc_input(name, lo, hi):
    for n, v in USED:
        if n == name: return v
    if name in GIVEN: v = val(GIVEN[name]) + (1e-3 * (hi - lo) * RNG.uniform(-1, 1) if ARGS.jitter else 0)
    elif not ARGS.random: v = .5 * (lo + hi)
    else:
        k = RNG.randrange(12); v = RNG.choice([0., 1., -1., .5, 2.]) if k == 0 else RNG.choice([lo, hi]) if k == 1 else RNG.uniform(lo, hi); v = min(max(v, lo), hi)
    USED.append((name, v)); return v
def conc_choice(name, n):
    k = 'choice:' + name; v = int(GIVEN[k]) if k in GIVEN else RNG.randrange(n) if ARGS.random else 0; USED.append((k, v)); return v
def run_conc(name):
    if ARGS.replay:
        for l in open(ARGS.replay):
            if l.startswith('case ') and not name: name = l[5:].strip()
            if l.startswith('input ') and '\t' in l: a, b = l[6:].rstrip('\n').split('\t', 1); GIVEN[a] = b
    RNG.seed(ARGS.seed); _np.random.seed(ARGS.seed); t0 = time.time(); ok = rej = 0; f = CASES[name]
    for i in range(max(1, ARGS.random)):
        USED.clear(); TOL[0] = 1e-6; bad = None; C.begin()
        try:
            with _np.errstate(all='ignore'): f()
            ok += 1
        except Reject: rej += 1
        except Fail as e: bad = e.label
        except Exception as e: bad = 'no exception: %s: %s' % (type(e).__name__, str(e)[:200])
        if bad:
            if ARGS.save:
                with open(ARGS.save, 'w') as g: g.write('case %s\nlabel %s\n' % (name, bad) + ''.join('input %s\t%s\n' % (k, repr(v)) for k, v in USED))
            print('FAILED', bad); sys.exit(1)
        if time.time() - t0 > ARGS.seconds: break
    print('ok', ok, 'rejected', rej); sys.exit(0)
def main():
    if ARGS.list: print('\n'.join(CASES)); return
    if SYM: run_sym(ARGS.case)
    else: run_conc(ARGS.case)
