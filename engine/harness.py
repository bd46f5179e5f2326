"""Harness API.  One harness function runs in two modes:
  sym  - inputs are symbolic terms; claims become solver queries
  conc - inputs are floats (a model from the solver, or a witness); claims are
         evaluated on the real, unmodified code."""
import math
import numpy as RN
from . import terms as T
from .terms import S, B, B_of

HARNESSES = {}

def harness(prop, tier='quick', div='assume', bounds='', funcs=(), max_paths=600, timeout=None, q=8.0, expect_exc=(), weight=1):
    """register a harness.  funcs: dotted names of the repository functions executed."""
    def deco(f):
        HARNESSES.setdefault(prop, []).append(dict(fn=f, name=f.__name__, tier=tier, div=div, bounds=bounds or (f.__doc__ or '').strip(),
              funcs=list(funcs), max_paths=max_paths, timeout=timeout, q=q, expect_exc=expect_exc, weight=weight))
        return f
    return deco

class AssumeFail(Exception): pass
class ClaimFail(Exception): pass

def flat(x):
    if isinstance(x, RN.ndarray):
        if x.dtype != object: return list(x.flat)
        x = list(x.flat)
    if isinstance(x, (list, tuple)):
        out = []
        for e in x: out += flat(e)
        return out
    return [x]

class Sym(object):
    sym = True
    def __init__(self, ex, tier):
        self.ex, self.tier = ex, tier
        self.claims, self.obs = [], []
        self.thorough = tier == 'thorough'
    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        return self.ex.newvar(name, lo, hi, lo_open, hi_open)
    def choice(self, name, opts):
        i = self.ex.choose(len(opts))
        self.choices[name] = i
        return opts[i]
    def assume(self, c): 
        c = _tob(c)
        if isinstance(c, bool):
            if not c: raise T.Infeasible()
            return
        self.ex.assume(c)
    def array(self, x):
        from . import shim
        return shim.array(x)
    def decide(self, c): return bool(c)
    def eq(self, name, a, b, rtol=1e-6, atol=1e-9):
        fa, fb = flat(a), flat(b)
        if len(fa) != len(fb):
            if len(fb) == 1: fb = fb * len(fa)
            elif len(fa) == 1: fa = fa * len(fb)
            else:
                self.claims.append((name + '.size', 'true', False, None, 0, 0)); return
        for i, (x, y) in enumerate(zip(fa, fb)):
            self.claims.append(('%s[%d]' % (name, i) if len(fa) > 1 else name, 'eq', x, y, rtol, atol))
    def _rel(self, name, op, a, b, rtol, atol):
        fa, fb = flat(a), flat(b)
        if len(fb) == 1: fb = fb * len(fa)
        if len(fa) == 1: fa = fa * len(fb)
        for i, (x, y) in enumerate(zip(fa, fb)):
            self.claims.append(('%s[%d]' % (name, i) if len(fa) > 1 else name, op, x, y, rtol, atol))
    def le(self, name, a, b, rtol=1e-6, atol=1e-9): self._rel(name, 'le', a, b, rtol, atol)
    def lt(self, name, a, b, rtol=0, atol=0): self._rel(name, 'lt', a, b, rtol, atol)
    def ge(self, name, a, b, rtol=1e-6, atol=1e-9): self._rel(name, 'le', b, a, rtol, atol)
    def true(self, name, c):
        self.claims.append((name, 'true', c, None, 0, 0))
    def observe(self, name, v):
        for i, x in enumerate(flat(v)): self.obs.append(('%s[%d]' % (name, i), x))
    sqrt = staticmethod(lambda x: T.const(x).sqrt())
    exp = staticmethod(lambda x: T.const(x).exp())
    log = staticmethod(lambda x: T.const(x).log())
    sin = staticmethod(lambda x: T.const(x).sin())
    cos = staticmethod(lambda x: T.const(x).cos())
    tan = staticmethod(lambda x: T.const(x).tan())
    atan = staticmethod(lambda x: T.const(x).arctan())
    log10 = staticmethod(lambda x: T.const(x).log10())
    pow = staticmethod(lambda a, b: T.const(a) ** b)

def _tob(c):
    if isinstance(c, RN.ndarray):
        r = True
        for e in c.flat: r = _and(r, e)
        return r
    if isinstance(c, (bool, RN.bool_)): return bool(c)
    return B_of(c)
def _and(a, b):
    b = _tob(b)
    if a is True: return b
    if b is True: return a
    return B_of(a) & B_of(b)

class Conc(object):
    sym = False
    def __init__(self, env, choices, tier):
        self.env, self.choices, self.tier = env, choices, tier
        self.fails, self.nclaims, self.obs = [], 0, []
        self.thorough = tier == 'thorough'
    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        v = self.env.get(name)
        if v is None: raise AssumeFail('missing input ' + name)
        v = RN.float64(v)
        if lo is not None and v < lo and v > lo - 1e-12 * max(1, abs(lo)): v = RN.float64(lo)
        if hi is not None and v > hi and v < hi + 1e-12 * max(1, abs(hi)): v = RN.float64(hi)
        if (lo is not None and v < lo) or (hi is not None and v > hi): raise AssumeFail('range of ' + name)
        return v
    def choice(self, name, opts): return opts[self.choices[name]]
    def assume(self, c):
        if not RN.all(c): raise AssumeFail('assume')
    def array(self, x): return RN.array(x, dtype=float)
    def decide(self, c): return bool(c)
    def _fail(self, name, msg): self.fails.append('%s: %s' % (name, msg))
    def eq(self, name, a, b, rtol=1e-6, atol=1e-9):
        fa, fb = flat(a), flat(b)
        if len(fa) != len(fb):
            if len(fb) == 1: fb = fb * len(fa)
            elif len(fa) == 1: fa = fa * len(fb)
            else: self._fail(name, 'sizes %d, %d' % (len(fa), len(fb))); return
        for i, (x, y) in enumerate(zip(fa, fb)):
            self.nclaims += 1
            try: x, y = float(x), float(y)
            except (TypeError, ValueError):
                if isinstance(x, complex) or RN.iscomplexobj(x): x = complex(x); y = complex(y)
                else: self._fail(name, '%r vs %r' % (x, y)); continue
            if not (abs(x - y) <= atol + rtol * max(abs(x), abs(y))):
                self._fail('%s[%d]' % (name, i) if len(fa) > 1 else name, '%.12g should equal %.12g' % (x, y) if not isinstance(x, complex) else '%r should equal %r' % (x, y))
    def le(self, name, a, b, rtol=1e-6, atol=1e-9):
        fa, fb = flat(a), flat(b)
        if len(fb) == 1: fb = fb * len(fa)
        if len(fa) == 1: fa = fa * len(fb)
        for x, y in zip(fa, fb):
            self.nclaims += 1
            x, y = float(x), float(y)
            if not (x <= y + atol + rtol * max(abs(x), abs(y))): self._fail(name, '%.12g should be <= %.12g' % (x, y))
    def lt(self, name, a, b, rtol=0, atol=0):
        for x, y in zip(flat(a), flat(b) * (len(flat(a)) if len(flat(b)) == 1 else 1)):
            self.nclaims += 1
            if not (float(x) < float(y) + atol + rtol * max(abs(float(x)), abs(float(y)))): self._fail(name, '%.12g should be < %.12g' % (float(x), float(y)))
    def ge(self, name, a, b, rtol=1e-6, atol=1e-9): self.le(name, b, a, rtol, atol)
    def true(self, name, c):
        self.nclaims += 1
        if not RN.all(c): self._fail(name, 'is false')
    def observe(self, name, v):
        for i, x in enumerate(flat(v)): self.obs.append(('%s[%d]' % (name, i), float(x)))
    sqrt, exp, log, sin, cos, tan, atan, log10 = (staticmethod(f) for f in (RN.sqrt, RN.exp, RN.log, RN.sin, RN.cos, RN.tan, RN.arctan, RN.log10))
    pow = staticmethod(lambda a, b: RN.float64(a) ** b)
