"""Lowering of terms to SMT (z3 in process, cvc5 as a second opinion) and query bookkeeping."""
import signal
import sys, time, math, subprocess, os, tempfile
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
from fractions import Fraction
from . import terms as T
from . import nf
from .terms import S, B

STATS = {'queries': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'time': 0.0, 'cvc5': 0, 'normalised_to_constant': 0}

def q(x):
    x = Fraction(x)
    return z3.RealVal(str(x.numerator) + '/' + str(x.denominator)) if x.denominator != 1 else z3.RealVal(str(x.numerator))

def _lcm(a, b): return a * b // math.gcd(a, b)

class Low(object):
    """one lowering context (one query): atoms -> z3 variables, plus side axioms"""
    def __init__(self):
        self.vars = {}       # key -> z3 var
        self.ax = []
        self.used = {}       # atom id -> set of exponents denominators
        self.done = set()
        self.direct = {}
        self.kinds = {}      # kind -> list of (z3 arg, z3 val, arg rf)
        self.inputs = set()
    # --- variables
    def v(self, key, name):
        x = self.vars.get(key)
        if x is None:
            x = z3.Real(name); self.vars[key] = x
        return x
    def atom(self, aid):
        at = nf._atoms[aid]
        key = ('a', aid)
        if key in self.vars: return self.vars[key]
        if at.kind == 'var':
            self.inputs.add(at.name)
            return self.v(key, at.name)
        x = self.v(key, '%s!%d' % (at.kind, aid))
        k = at.kind
        if k in ('sin', 'cos'):
            self.ax += [x <= 1, x >= -1]
            for other in ('sin', 'cos'):
                if other != k:
                    o = nf._akey.get((other, nf.rkey(at.arg)))
                    if o is not None and ('a', o.id) in self.vars:
                        self.ax.append(x * x + self.vars[('a', o.id)] * self.vars[('a', o.id)] == 1)
            a = self.rf(at.arg)
            if k == 'sin':
                self.ax += [z3.Implies(z3.And(a > 0, a < q('3.14159')), x > 0), z3.Implies(z3.And(a < 0, a > q('-3.14159')), x < 0),
                            z3.Implies(a >= 0, x <= a), z3.Implies(a <= 0, x >= a), z3.Implies(a == 0, x == 0)]
            else:
                self.ax += [z3.Implies(z3.And(a > q('-1.570796'), a < q('1.570796')), x > 0), z3.Implies(a == 0, x == 1), x >= 1 - a * a / 2]
        elif k == 'exp':
            a = self.rf(at.arg)
            self.ax += [x > 0, x >= 1 + a, z3.Implies(a > 0, x > 1), z3.Implies(a < 0, x < 1), z3.Implies(a == 0, x == 1),
                        z3.Implies(a < 1, x * (1 - a) <= 1)]
            self._mono('exp', a, x)
        elif k in ('log', 'logq'):
            a = self.poly(at.arg) if k == 'log' else self.rf(at.arg)
            self.ax += [z3.Implies(a > 0, z3.And(x <= a - 1, x * a >= a - 1)), z3.Implies(a > 1, x > 0), z3.Implies(z3.And(a > 0, a < 1), x < 0), z3.Implies(a == 1, x == 0)]
            self._mono('log', a, x)
        elif k == 'atan':
            a = self.rf(at.arg)
            self.ax += [x < q('1.57079632679490'), x > q('-1.57079632679490'), z3.Implies(a > 0, x > 0), z3.Implies(a < 0, x < 0), z3.Implies(a == 0, x == 0),
                        z3.Implies(a >= 0, x <= a), z3.Implies(a <= 0, x >= a)]
            self._mono('atan', a, x)
        elif k in ('asin', 'acos'):
            a = self.rf(at.arg)
            if k == 'asin':
                self.ax += [x <= q('1.57079632679490'), x >= q('-1.57079632679490'), z3.Implies(a > 0, x > 0), z3.Implies(a < 0, x < 0), z3.Implies(a == 0, x == 0)]
                self._mono('asin', a, x)
            else:
                self.ax += [x <= q('3.14159265358980'), x >= 0]
        elif k == 'atan2':
            y, xx = self.rf(at.arg[0]), self.rf(at.arg[1])
            self.ax += [x <= q('3.14159265358980'), x >= q('-3.14159265358980'), z3.Implies(y > 0, x > 0), z3.Implies(y < 0, x < 0)]
        elif k == 'ufn':
            if at.name == 'floor':
                a = self.rf(at.arg[0])
                n = z3.Int('floor!%d' % aid)
                self.ax += [x == z3.ToReal(n), x <= a, a < x + 1]
        return x
    def _mono(self, kind, a, x):
        L = self.kinds.setdefault(kind, [])
        for (b, y) in L[-8:]:
            self.ax += [z3.Implies(a < b, x < y), z3.Implies(a > b, x > y), z3.Implies(a == b, x == y)]
        L.append((a, x))
    def fpow(self, aid, f):
        """z3 expr for atom^f with fractional f (0<f); positive base"""
        at = nf._atoms[aid]
        f = Fraction(f)
        key = ('p', aid, f)
        if key in self.vars: return self.vars[key]
        base = self.poly(at.arg) if at.kind == 'pow' else self.atom(aid)
        qd = f.denominator
        if qd <= 8:
            rk = ('r', aid, qd)
            r = self.vars.get(rk)
            if r is None:
                r = self.v(rk, 'root%d!%d' % (qd, aid))
                self.ax += [r >= 0, r ** qd == base if qd > 2 else r * r == base]
            e = r
            for _ in range(abs(f.numerator) - 1): e = e * r
            self.vars[key] = e
            return e
        x = self.v(key, 'pow!%d!%s' % (aid, str(f).replace('/', 'over')))
        fq = q(f)
        self.ax += [z3.Implies(base > 0, x > 0), x >= 0, z3.Implies(base > 1, x > 1), z3.Implies(base < 1, x < 1), z3.Implies(base == 1, x == 1)]
        if 0 < f < 1:
            self.ax += [x <= 1 + fq * (base - 1), z3.Implies(base > 1, x < base), z3.Implies(z3.And(base < 1, base > 0), x > base)]
        elif f > 1:
            self.ax += [x >= 1 + fq * (base - 1), z3.Implies(base > 1, x > base), z3.Implies(z3.And(base < 1, base > 0), x < base)]
        L = self.kinds.setdefault(('pow', f), [])
        for (b, y) in L[-8:]:
            self.ax += [z3.Implies(base < b, x < y), z3.Implies(base > b, x > y), z3.Implies(base == b, x == y)]
        L.append((base, x))
        return x
    def mono(self, m):
        """(numerator list, denominator list)"""
        num, den = [], []
        for aid, e in m:
            e = Fraction(e)
            tgt = num if e > 0 else den
            e = abs(e)
            if nf._atoms[aid].kind == 'pow':
                tgt.append(self.fpow(aid, e)); continue
            k = math.floor(e); f = e - k
            if f and not (k and f.denominator > 8):
                tgt.append(self.fpow(aid, e) if f.denominator <= 8 else self.fpow(aid, f))
                if f.denominator > 8: k = k
                else: k = 0
            elif f:
                tgt.append(self.fpow(aid, f))
            a = self.atom(aid) if k else None
            for _ in range(k): tgt.append(a)
        return num, den
    def poly2(self, p):
        """(num, den) z3 exprs, den a product of atoms (or None)"""
        mins = {}
        for m in p:
            for a, e in m:
                if e < 0: mins[a] = min(mins.get(a, 0), e)
        dens = None
        if mins:
            mm = tuple(sorted((a, -math.floor(e) if Fraction(e).denominator == 1 else -e) for a, e in mins.items()))
            d, _ = self.mono(mm)
            dens = d
            pp = {}
            shift = dict(mm)
            for m, c in p.items():
                dd = dict(m)
                for a, e in shift.items():
                    n = dd.get(a, 0) + e
                    if n == 0: dd.pop(a, None)
                    else: dd[a] = n
                pp[tuple(sorted(dd.items()))] = c
            p = pp
        terms_ = []
        for m, c in p.items():
            n, d = self.mono(m)
            assert not d
            t = None
            for x in n: t = x if t is None else t * x
            terms_.append(q(c) if t is None else (t if c == 1 else q(c) * t))
        if not terms_: e = q(0)
        elif len(terms_) == 1: e = terms_[0]
        else: e = z3.Sum(terms_)
        if dens is None: return e, None
        t = None
        for x in dens: t = x if t is None else t * x
        return e, t
    def poly(self, p):
        n, d = self.poly2(p)
        return n if d is None else n / d
    def rf2(self, r):
        n, d = self.poly2(r[0])
        for k, (p, e) in r[1].items():
            x = self.poly(p)
            for _ in range(e): d = x if d is None else d * x
        return n, d
    def rf(self, r):
        n, d = self.rf2(r)
        return n if d is None else n / d
    # --- terms
    def term(self, t):
        if t.id in self.direct: return self.direct[t.id]
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in self.direct: stack.pop(); continue
            if x.op == 'c': self.direct[x.id] = q(x.args[0]); stack.pop(); continue
            if x.op in ('v', 'f', '^') or True:
                try:
                    if x.op in ('v', 'f') or (x.op == '^' and x.args[1].op == 'c' and x.args[1].args[0].denominator != 1) or (x.op == '^' and x.args[1].op != 'c'):
                        self.direct[x.id] = self.rf(nf.nf(x)); stack.pop(); continue
                except nf.TooBig:
                    self.direct[x.id] = self.opaque(x); stack.pop(); continue
            kids = [a for a in x.args if isinstance(a, S)]
            todo = [k for k in kids if k.id not in self.direct]
            if todo: stack.extend(todo); continue
            v = [self.direct[k.id] for k in kids]
            if x.op == '+': r = v[0] + v[1]
            elif x.op == '-': r = v[0] - v[1]
            elif x.op == '*': r = v[0] * v[1]
            elif x.op == '/': r = v[0] / v[1]
            else:
                n = int(x.args[1].args[0]); r = v[0]
                for _ in range(n - 1): r = r * v[0]
            self.direct[x.id] = r
            stack.pop()
        return self.direct[t.id]
    def opaque(self, x):
        key = ('o', x.id)
        v = self.v(key, 'opaque!%d' % x.id)
        if x.op == '^' and x.args[1].op == 'c':
            e = x.args[1].args[0]
            if e.denominator <= 8 and e.numerator == 1:
                b = self.term(x.args[0])
                p = v
                for _ in range(e.denominator - 1): p = p * v
                self.ax += [v >= 0, p == b]
            else:
                b = self.term(x.args[0])
                self.ax += [v >= 0, z3.Implies(b > 1, v > 1) if e > 0 else z3.Implies(b > 1, v < 1),
                            z3.Implies(z3.And(b > 0, b < 1), v < 1) if e > 0 else z3.Implies(z3.And(b > 0, b < 1), v > 1)]
        elif x.op == 'f':
            n = x.args[0]
            a = self.term(x.args[1])
            if n == 'exp': self.ax += [v > 0, v >= 1 + a, z3.Implies(a < 0, v < 1)]; self._mono('exp', a, v)
            elif n == 'log': self.ax += [v <= a - 1]; self._mono('log', a, v)
            elif n in ('sin', 'cos'): self.ax += [v <= 1, v >= -1]
            elif n == 'floor':
                k = z3.Int('floor_o!%d' % x.id)
                self.ax += [v == z3.ToReal(k), v <= a, a < v + 1]
        return v
    def b(self, c, normal=True):
        if c.op == 'k': return z3.BoolVal(c.args[0])
        if c.op in ('lt', 'le', 'eq'):
            x, y = c.args
            if normal:
                try:
                    r = nf.radd(nf.nf(x), nf.nf(y), -1)
                    k = nf.risconst(r)
                    if k is not None:
                        STATS['normalised_to_constant'] += 1
                        return z3.BoolVal({'lt': k < 0, 'le': k <= 0, 'eq': k == 0}[c.op])
                    n, d = self.rf2(r)
                    if c.op == 'eq': return n == 0
                    if d is None: return n < 0 if c.op == 'lt' else n <= 0
                    if self.rfpos(r): return n < 0 if c.op == 'lt' else n <= 0
                    return n * d < 0 if c.op == 'lt' else n * d <= 0
                except nf.TooBig:
                    pass
            X, Y = self.term(x), self.term(y)
            return {'lt': X < Y, 'le': X <= Y, 'eq': X == Y}[c.op]
        if c.op == 'not': return z3.Not(self.b(c.args[0], normal))
        if c.op == 'and': return z3.And(self.b(c.args[0], normal), self.b(c.args[1], normal))
        return z3.Or(self.b(c.args[0], normal), self.b(c.args[1], normal))
    def rfpos(self, r):
        if not all(nf.poly_pos(p) for p, e in r[1].values()): return False
        for m in r[0]:
            for a, e in m:
                if e < 0 and not nf.is_pos_atom(a) and not (Fraction(e).denominator == 1 and e % 2 == 0): return False
        return True

class Result(object):
    def __init__(self, status, env=None, why=''):
        self.status, self.env, self.why = status, env, why

def _env(model, low, names):
    env = {}
    for n in names:
        v = model.eval(z3.Real(n), model_completion=True)
        try:
            if z3.is_algebraic_value(v): v = v.approx(20)
            env[n] = float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        except Exception:
            return None
    return env

class Alarm(Exception): pass
FIRED = [False]
def _alarm(*a):
    FIRED[0] = True
    raise Alarm()
def check(conds, names=(), timeout=5.0, cvc5=False, normal=True, seed=1):
    """satisfiability of a conjunction of B terms"""
    t0 = time.time()
    STATS['queries'] += 1
    low = Low()
    FIRED[0] = False
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, max(8.0, 2 * timeout))
    try:
        return _check(conds, names, timeout, cvc5, normal, seed, t0, low)
    except Exception:
        if not FIRED[0]: raise
        STATS['unknown'] += 1; STATS['time'] += time.time() - t0
        return Result('unknown', why='lowering timeout')
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)

def _check(conds, names, timeout, cvc5, normal, seed, t0, low):
    try:
        cs = []
        for c in conds:
            e = low.b(c, normal)
            if z3.is_false(e):
                STATS['unsat'] += 1
                STATS['time'] += time.time() - t0
                return Result('unsat')
            cs.append(e)
    except (RecursionError, AssertionError) as e:
        STATS['unknown'] += 1
        return Result('unknown', why='lowering: %r' % e)
    fs = cs + low.ax
    signal.setitimer(signal.ITIMER_REAL, 0)
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000 * (0.4 if cvc5 else 1)))
    s.set('random_seed', seed)
    s.add(*fs)
    r = s.check()
    if r == z3.unknown:
        try:
            s2 = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'qfnra-nlsat').solver()
            s2.set('timeout', int(timeout * 1000 * (0.6 if cvc5 else 1)))
            s2.add(*fs)
            r2 = s2.check()
            if r2 != z3.unknown: r, s = r2, s2
        except z3.Z3Exception:
            pass
    if r == z3.unknown and cvc5:
        STATS['cvc5'] += 1
        rr = run_cvc5(fs, timeout)
        if rr == 'unsat':
            r = z3.unsat
    STATS['time'] += time.time() - t0
    if r == z3.unsat:
        STATS['unsat'] += 1
        return Result('unsat')
    if r == z3.sat:
        STATS['sat'] += 1
        try:
            env = _env(s.model(), low, names)
        except z3.Z3Exception:
            env = None
        return Result('sat', env)
    STATS['unknown'] += 1
    return Result('unknown')

def run_cvc5(fs, timeout):
    s = z3.Solver(); s.add(*fs)
    txt = '(set-logic QF_NIRA)\n' + s.to_smt2()
    fd, p = tempfile.mkstemp(suffix='.smt2')
    os.write(fd, txt.encode()); os.close(fd)
    try:
        out = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), p], capture_output=True, text=True, timeout=timeout + 5)
        first = out.stdout.strip().split('\n')[0] if out.stdout else ''
        if '(error' in out.stdout or '(error' in out.stderr: return 'unknown'
        return first
    except Exception:
        return 'unknown'
    finally:
        os.unlink(p)
