"""Symbolic scalars: a hash-consed term DAG with Python operator overloading.

S is a real-valued term, B a boolean term.  bool(B) asks the active Explorer
for a decision, which is how ordinary Python control flow forks.
"""
from fractions import Fraction
import math

class Unsupported(BaseException):
    """The engine cannot represent an operation (an inconclusive check)."""

class Infeasible(BaseException):
    """The current path's assumptions are contradictory."""

CTX = None      # the active explorer (set by explore.py)

def set_ctx(c):
    global CTX
    CTX = c

# ---------------------------------------------------------------- constants
_snap_cache = {}
def snap(x):
    """float -> the rational it most plausibly denotes.

    A float literal stands for the decimal the programmer wrote; a float that
    was computed from constants stands for the nearby short rational or its
    15-digit decimal.  Rounding error is outside the claim (see DESIGN.md)."""
    if isinstance(x, int):
        return Fraction(x)
    x = float(x)
    r = _snap_cache.get(x)
    if r is not None:
        return r
    if x == int(x) and abs(x) < 1e18:
        r = Fraction(int(x))
    else:
        f = Fraction(x)
        r = None
        s = repr(x)
        digs = len(s.split('e')[0].replace('-', '').replace('.', '').lstrip('0'))
        if digs <= 15:
            r = Fraction(s)
        else:
            c = f.limit_denominator(2000)
            if c != 0 and abs(c - f) <= abs(f) * Fraction(6, 10**16):
                r = c
            else:
                r = Fraction('%.14e' % x)
    _snap_cache[x] = r
    return r

def is_num(x):
    if isinstance(x, bool):
        return True
    if isinstance(x, (int, float, Fraction)):
        return True
    t = type(x).__module__
    return t == 'numpy' and hasattr(x, 'dtype') and getattr(x, 'ndim', 1) == 0 and x.dtype.kind in 'fiub'

_table = {}
_next = [0]
def _mk(op, args, val=None):
    key = (op,) + tuple(a.id if isinstance(a, S) else ('k', a) for a in args)
    t = _table.get(key)
    if t is None:
        t = S.__new__(S)
        t.op, t.args, t.id = op, args, _next[0]
        t.nf = None
        _next[0] += 1
        _table[key] = t
    return t

def reset():
    _table.clear()

def const(x):
    if isinstance(x, S):
        return x
    if isinstance(x, Fraction):
        return _mk('c', (x,))
    if is_num(x):
        if isinstance(x, (int,)):
            return _mk('c', (Fraction(int(x)),))
        fx = float(x)
        if fx != fx or fx in (math.inf, -math.inf):
            raise Unsupported('non-finite constant in term')
        return _mk('c', (snap(fx),))
    raise Unsupported('cannot lift %r' % (type(x),))

def var(name):
    return _mk('v', (name,))

def _nonfinite(x):
    return is_num(x) and not isinstance(x, (int, Fraction)) and not math.isfinite(float(x))

def _liftable(x):
    return isinstance(x, S) or is_num(x)

def _isc(t):
    return t.op == 'c'

class S(object):
    __slots__ = ('op', 'args', 'id', 'nf')
    __array_priority__ = 1000
    # ---- arithmetic
    def __add__(a, b):
        if not _liftable(b): return _defer(a, b, '+')
        if _nonfinite(b): return b
        b = const(b)
        if _isc(a) and _isc(b): return const(a.args[0] + b.args[0])
        if _isc(a) and a.args[0] == 0: return b
        if _isc(b) and b.args[0] == 0: return a
        return _mk('+', (a, b))
    def __radd__(a, b): return _rarr(a, b, '+') if _isarr(b) else a.__add__(b)
    def __neg__(a):
        return a.__mul__(-1)
    def __pos__(a):
        return a
    def __sub__(a, b):
        if not _liftable(b): return _defer(a, b, '-')
        if _nonfinite(b): return -b
        b = const(b)
        if _isc(a) and _isc(b): return const(a.args[0] - b.args[0])
        if _isc(b) and b.args[0] == 0: return a
        if a is b: return const(0)
        return _mk('-', (a, b))
    def __rsub__(a, b):
        if _isarr(b): return _rarr(a, b, '-')
        if not _liftable(b): return NotImplemented
        if _nonfinite(b): return b
        return const(b).__sub__(a)
    def __mul__(a, b):
        if not _liftable(b): return _defer(a, b, '*')
        if _nonfinite(b):
            if b != b: return b
            if bool(a == 0): return float('nan')
            return b if bool(a > 0) else -b
        b = const(b)
        if _isc(a) and _isc(b): return const(a.args[0] * b.args[0])
        if _isc(a):
            if a.args[0] == 0: return a
            if a.args[0] == 1: return b
        if _isc(b):
            if b.args[0] == 0: return b
            if b.args[0] == 1: return a
        return _mk('*', (a, b))
    def __rmul__(a, b): return _rarr(a, b, '*') if _isarr(b) else a.__mul__(b)
    def __truediv__(a, b):
        if not _liftable(b): return _defer(a, b, '/')
        if _nonfinite(b):
            return b if b != b else const(0)
        b = const(b)
        return _div(a, b)
    def __rtruediv__(a, b):
        if _isarr(b): return _rarr(a, b, '/')
        if not _liftable(b): return NotImplemented
        if _nonfinite(b):
            if b != b: return b
            return b if bool(a > 0) else -b
        return _div(const(b), a)
    def __pow__(a, b):
        if not _liftable(b): return _defer(a, b, '**')
        return power(a, b)
    def __rpow__(a, b):
        if _isarr(b): return _rarr(a, b, '**')
        if not _liftable(b): return NotImplemented
        return power(const(b), a)
    def __abs__(a):
        if _isc(a): return const(abs(a.args[0]))
        return a if bool(a >= 0) else -a
    fabs = __abs__
    def __floordiv__(a, b):
        return (a / b).floor()
    def __rfloordiv__(a, b):
        return (const(b) / a).floor()
    def __mod__(a, b):
        return a - b * (a / b).floor()
    def __rmod__(a, b):
        return const(b) - a * (const(b) / a).floor()
    # ---- comparisons
    def __lt__(a, b): return _cmp('lt', a, b)
    def __le__(a, b): return _cmp('le', a, b)
    def __gt__(a, b): return _cmp('lt', b, a, swap=True)
    def __ge__(a, b): return _cmp('le', b, a, swap=True)
    def __eq__(a, b):
        if not _liftable(b): return _eqdefer(a, b)
        return _cmp('eq', a, b)
    def __ne__(a, b):
        if not _liftable(b):
            r = _eqdefer(a, b)
            return r if r is NotImplemented else (not r)
        return ~B_of(_cmp('eq', a, b))
    def __hash__(a): return a.id
    def __bool__(a):
        return bool(a != 0)
    def __float__(a):
        if _isc(a): return float(a.args[0])
        raise Unsupported('float() of a symbolic value')
    def __int__(a):
        if _isc(a): return int(a.args[0])
        return to_int(a)
    __index__ = None
    def __trunc__(a): return int(a)
    def __round__(a, n=None):
        if n is None or n == 0: return rint(a)
        return rint(a * 10**n) / 10**n
    def __copy__(a): return a
    def __deepcopy__(a, memo): return a
    def __reduce__(a): raise Unsupported('pickling a symbolic value')
    def __repr__(a):
        return 'S#%d<%s>' % (a.id, show(a))
    def __format__(a, spec): return show(a)
    # ---- methods numpy's object ufuncs call
    def sqrt(a): return power(a, Fraction(1, 2))
    def cbrt(a): return power(a, Fraction(1, 3))
    def square(a): return a * a
    def exp(a): return fn('exp', a)
    def log(a): return fn('log', a)
    def log10(a): return fn('log', a) / const(snap(math.log(10)))
    def log2(a): return fn('log', a) / const(snap(math.log(2)))
    def sin(a): return fn('sin', a)
    def cos(a): return fn('cos', a)
    def tan(a):
        if a.op == 'f' and a.args[0] == 'atan': return a.args[1]
        return fn('tan', a)
    def arcsin(a): return fn('asin', a)
    def arccos(a): return fn('acos', a)
    def arctan(a): return fn('atan', a)
    def arctan2(a, b): return atan2(a, b)
    def sinh(a): return (fn('exp', a) - fn('exp', -a)) / 2
    def cosh(a): return (fn('exp', a) + fn('exp', -a)) / 2
    def tanh(a): e = fn('exp', 2 * a); return (e - 1) / (e + 1)
    def deg2rad(a): return a * snap(math.pi) / 180
    radians = deg2rad
    def rad2deg(a): return a * 180 / snap(math.pi)
    degrees = rad2deg
    def floor(a): return floor_(a)
    def ceil(a): return -floor_(-a)
    def rint(a): return rint(a)
    def conjugate(a): return a
    def copy(a): return a
    def item(a): return a
    def tolist(a): return a
    @property
    def real(a): return a
    @property
    def imag(a): return 0.0
    @property
    def ndim(a): return 0
    @property
    def shape(a): return ()
    @property
    def size(a): return 1
    @property
    def T(a): return a
    def max(a, *k, **kw): return a
    min = sum = mean = max
    def astype(a, *k, **kw): return a
    def __getitem__(a, i):
        if i is Ellipsis or i == ():
            return a
        import numpy
        return numpy.array(a, dtype=object)[i]
    def flatten(a):
        import numpy
        return numpy.array([a], dtype=object)

def _isarr(b): return type(b).__name__ == 'ndarray'
def _rarr(a, b, op):
    # array <op> symbolic scalar
    import operator
    f = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '**': operator.pow}[op]
    out = b.astype(object) if b.dtype != object else b.copy()
    if out.ndim == 0: return f(out[()], a)
    flat = out.ravel()
    for i in range(flat.size): flat[i] = f(flat[i], a)
    return flat.reshape(out.shape)

def _defer(a, b, op):
    # array on the right: let numpy broadcast
    return NotImplemented

def _eqdefer(a, b):
    if b is None or isinstance(b, (str, bytes, dict, tuple, type)):
        return False
    return NotImplemented

def _cmp(op, a, b, swap=False):
    if _isarr(a) or _isarr(b):
        # elementwise, decided as numpy does for object arrays
        import numpy
        arr = a if _isarr(a) else b
        out = numpy.empty(arr.shape, dtype=bool)
        for i in numpy.ndindex(*arr.shape):
            r = _cmp(op, a[i] if _isarr(a) else a, b[i] if _isarr(b) else b)
            if r is NotImplemented: return r
            out[i] = bool(r)
        return out
    if not (_liftable(a) and _liftable(b)):
        return NotImplemented
    for x in (a, b):
        if _nonfinite(x):
            if x != x: return False
            fa = float(a) if _nonfinite(a) else 0.0
            fb = float(b) if _nonfinite(b) else 0.0
            return {'lt': fa < fb, 'le': fa <= fb, 'eq': fa == fb}[op]
    a, b = const(a), const(b)
    if _isc(a) and _isc(b):
        x, y = a.args[0], b.args[0]
        return {'lt': x < y, 'le': x <= y, 'eq': x == y}[op]
    if a is b:
        return op != 'lt'
    return B(op, (a, b))

def _div(a, b):
    if _isc(b):
        if b.args[0] == 0:
            # as numpy does: the same points are replayed on the real code
            if bool(a == 0): return float('nan')
            return float('inf') if bool(a > 0) else float('-inf')
        if _isc(a): return const(a.args[0] / b.args[0])
        return a.__mul__(const(1 / b.args[0]))
    if CTX is not None and getattr(CTX, 'div_fork', False):
        if bool(b == 0):
            if bool(a == 0): return float('nan')
            return float('inf') if bool(a > 0) else float('-inf')
    elif CTX is not None:
        CTX.domain(b != 0, 'division by zero')
    if _isc(a) and a.args[0] == 0: return a
    if a is b: return const(1)
    return _mk('/', (a, b))

def power(a, b):
    if _nonfinite(b) or _nonfinite(a):
        raise Unsupported('non-finite power')
    a = const(a)
    b = const(b)
    if _isc(b):
        e = b.args[0]
        if e == 0: return const(1)
        if e == 1: return a
        if _isc(a):
            if e.denominator == 1 and abs(e) < 400:
                if a.args[0] == 0 and e < 0: raise Unsupported('0**negative')
                return const(a.args[0] ** int(e))
            f = float(a.args[0])
            if f < 0: raise Unsupported('fractional power of a negative constant')
            if f == 0: return const(0)
            return const(snap(f ** float(e)))
        if e.denominator == 1:
            if e < 0:
                return _div(const(1), power(a, const(-e)))
            return _mk('^', (a, const(e)))
        if CTX is not None:
            CTX.domain((a >= 0) if e > 0 else (a > 0), 'fractional power of a negative number')
        return _mk('^', (a, const(e)))
    if _isc(a):
        if a.args[0] == 1: return a
        if a.args[0] <= 0: raise Unsupported('nonpositive constant to a symbolic power')
    elif CTX is not None:
        CTX.domain(a > 0, 'symbolic power of a nonpositive number')
    return _mk('^', (a, b))

_pyfn = {'exp': math.exp, 'log': math.log, 'sin': math.sin, 'cos': math.cos,
         'tan': math.tan, 'asin': math.asin, 'acos': math.acos, 'atan': math.atan}

def fn(name, a):
    if _isc(a):
        try:
            v = _pyfn[name](float(a.args[0]))
        except ValueError:
            raise Unsupported('%s of %s' % (name, a.args[0]))
        if abs(v) < 1e-15: v = 0.0
        return const(snap(v))
    if CTX is not None:
        if name == 'log':
            CTX.domain(a > 0, 'log of a nonpositive number')
        elif name in ('asin', 'acos'):
            CTX.domain(a <= 1, name + ' domain')
            CTX.domain(a >= -1, name + ' domain')
    return _mk('f', (name, a))

def atan2(y, x):
    y, x = const(y), const(x)
    if _isc(y) and _isc(x):
        return const(snap(math.atan2(float(y.args[0]), float(x.args[0]))))
    return _mk('f', ('atan2', y, x))

def floor_(a):
    a = const(a)
    if _isc(a): return const(math.floor(a.args[0]))
    return _mk('f', ('floor', a))

def rint(a):
    a = const(a)
    if _isc(a): return const(round(a.args[0]))
    return floor_(a + Fraction(1, 2))

def to_int(a):
    """int() of a symbolic value: fork over the integers it can take."""
    if CTX is None: raise Unsupported('int() of symbolic')
    return CTX.enumerate_int(a)

class B(object):
    """boolean term: ('lt'|'le'|'eq',(S,S)) | ('not',(B,)) | ('and'|'or',(B,B)) | ('k',(bool,))"""
    __slots__ = ('op', 'args')
    __array_priority__ = 1000
    def __init__(self, op, args):
        self.op, self.args = op, args
    def __bool__(self):
        if self.op == 'k': return self.args[0]
        if CTX is None: raise Unsupported('branch outside an exploration')
        return CTX.decide(self)
    def __invert__(self):
        if self.op == 'k': return B('k', (not self.args[0],))
        if self.op == 'not': return self.args[0]
        if self.op == 'lt': return B('le', (self.args[1], self.args[0]))
        if self.op == 'le': return B('lt', (self.args[1], self.args[0]))
        if self.op == 'and': return B('or', (~self.args[0], ~self.args[1]))
        if self.op == 'or': return B('and', (~self.args[0], ~self.args[1]))
        return B('not', (self,))
    def __and__(self, o):
        o = B_of(o)
        if o is NotImplemented: return o
        if o.op == 'k': return self if o.args[0] else o
        if self.op == 'k': return o if self.args[0] else self
        return B('and', (self, o))
    __rand__ = __and__
    def __or__(self, o):
        o = B_of(o)
        if o is NotImplemented: return o
        if o.op == 'k': return o if o.args[0] else self
        if self.op == 'k': return self if self.args[0] else o
        return B('or', (self, o))
    __ror__ = __or__
    def __xor__(self, o):
        o = B_of(o)
        return (self & ~o) | (~self & o)
    logical_not = __invert__
    def __repr__(self):
        return 'B(%s)' % showb(self)
    # used as a number (sum of masks, mask*x): decide
    def __int__(self): return int(bool(self))
    def __float__(self): return float(bool(self))
    def __index__(self): return int(bool(self))
    def __mul__(self, o): return int(bool(self)) * o
    __rmul__ = __mul__
    def __add__(self, o): return int(bool(self)) + o
    __radd__ = __add__
    def __rsub__(self, o): return o - int(bool(self))
    def __sub__(self, o): return int(bool(self)) - o
    def __eq__(self, o):
        return bool(self) == (bool(o))
    def __ne__(self, o):
        return bool(self) != (bool(o))
    def __hash__(self): return id(self)
    def any(self, *a, **k): return self
    all = any
    @property
    def ndim(self): return 0
    @property
    def shape(self): return ()

def B_of(x):
    if isinstance(x, B): return x
    if isinstance(x, S): return x != 0
    if isinstance(x, (bool, int)) or type(x).__name__ in ('bool_', 'bool'):
        return B('k', (bool(x),))
    return NotImplemented

def show(t, d=6):
    if d == 0: return '..'
    if t.op == 'c':
        q = t.args[0]
        return str(q) if len(str(q)) < 12 else '%.8g' % float(q)
    if t.op == 'v': return t.args[0]
    if t.op == 'f': return '%s(%s)' % (t.args[0], ','.join(show(a, d - 1) for a in t.args[1:]))
    return '(%s%s%s)' % (show(t.args[0], d - 1), t.op, show(t.args[1], d - 1))

def showb(b):
    if b.op == 'k': return str(b.args[0])
    if b.op in ('lt', 'le', 'eq'):
        return '%s %s %s' % (show(b.args[0]), {'lt': '<', 'le': '<=', 'eq': '=='}[b.op], show(b.args[1]))
    if b.op == 'not': return 'not(%s)' % showb(b.args[0])
    return '(%s %s %s)' % (showb(b.args[0]), b.op, showb(b.args[1]))

# ------------------------------------------------- float evaluation of terms
class EvalError(Exception): pass

def feval(t, env, memo=None):
    """value of a term in floating point at an input assignment"""
    if memo is None: memo = {}
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop(); continue
        if x.op == 'c':
            memo[x.id] = float(x.args[0]); stack.pop(); continue
        if x.op == 'v':
            memo[x.id] = float(env[x.args[0]]); stack.pop(); continue
        kids = [a for a in x.args if isinstance(a, S)]
        todo = [k for k in kids if k.id not in memo]
        if todo:
            stack.extend(todo); continue
        v = [memo[k.id] for k in kids]
        try:
            if x.op == '+': r = v[0] + v[1]
            elif x.op == '-': r = v[0] - v[1]
            elif x.op == '*': r = v[0] * v[1]
            elif x.op == '/': r = v[0] / v[1]
            elif x.op == '^':
                r = v[0] ** v[1]
                if isinstance(r, complex): raise EvalError('complex power')
            elif x.op == 'f':
                n = x.args[0]
                if n == 'atan2': r = math.atan2(*v)
                elif n == 'floor': r = float(math.floor(v[0]))
                else: r = _pyfn[n](v[0])
            else: raise EvalError(x.op)
        except (ZeroDivisionError, OverflowError, ValueError) as e:
            raise EvalError(str(e))
        memo[x.id] = r
        stack.pop()
    return memo[t.id]

def beval(b, env, memo=None):
    if memo is None: memo = {}
    if b.op == 'k': return b.args[0]
    if b.op in ('lt', 'le', 'eq'):
        x, y = feval(b.args[0], env, memo), feval(b.args[1], env, memo)
        return {'lt': x < y, 'le': x <= y, 'eq': abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y))}[b.op]
    if b.op == 'not': return not beval(b.args[0], env, memo)
    if b.op == 'and': return beval(b.args[0], env, memo) and beval(b.args[1], env, memo)
    if b.op == 'or': return beval(b.args[0], env, memo) or beval(b.args[1], env, memo)
    raise EvalError(b.op)

def free_vars(ts):
    out, seen, st = set(), set(), list(ts)
    while st:
        x = st.pop()
        if isinstance(x, B):
            st.extend(a for a in x.args if isinstance(a, (S, B))); continue
        if x.id in seen: continue
        seen.add(x.id)
        if x.op == 'v': out.add(x.args[0])
        else: st.extend(a for a in x.args if isinstance(a, S))
    return out
