"""Stand-ins for numpy / math that carry symbolic scalars in object arrays.

install() rebinds, in every loaded SUAVE module, names bound to numpy, math or
their functions; the SUAVE code itself is not changed.  uninstall() restores."""
import sys, types, math, builtins
import numpy as RN
import copy as _copy
from . import terms as T
from .terms import S, B, B_of

def isobj(a):
    return isinstance(a, RN.ndarray) and a.dtype == object

def has_sym(x):
    if isinstance(x, (S, B)): return True
    if isinstance(x, RN.ndarray):
        return x.dtype == object and builtins.any(isinstance(e, (S, B)) for e in x.flat)
    if isinstance(x, (list, tuple)):
        return builtins.any(has_sym(e) for e in x)
    return False

_f64 = RN.float64
def lift(a):
    """float ndarray -> object ndarray of numpy floats; others unchanged"""
    if isinstance(a, RN.ndarray) and a.dtype.kind == 'f':
        o = RN.empty(a.shape, dtype=object)
        if a.ndim == 0:
            o[()] = _f64(a); return o
        flat = o.reshape(-1) if o.flags.c_contiguous else o.ravel()
        src = a.reshape(-1)
        for i in range(src.size): flat[i] = src[i]
        return flat.reshape(a.shape)
    return a

def unlift(a):
    """object array of concrete numbers -> float array"""
    a = RN.asarray(a)
    if a.dtype == object:
        return RN.array([float(e) for e in a.flat], dtype=float).reshape(a.shape)
    return a

def concrete(x):
    return not has_sym(x)

def A(x):
    if isinstance(x, RN.ndarray): return x
    return lift(RN.array(x)) if not has_sym(x) else RN.array(x, dtype=object)

def scal(r):
    """0-d object result -> scalar"""
    if isinstance(r, RN.ndarray) and r.ndim == 0 and r.dtype == object: return r[()]
    return r

# elementwise unary ---------------------------------------------------------
def _un(name, real):
    def g(e):
        if isinstance(e, S): return getattr(e, name)()
        if isinstance(e, B): return getattr(T.const(int(bool(e))), name)()
        if isinstance(e, complex): return real(e)
        return real(_f64(e)) if not isinstance(e, (int,)) or isinstance(e, bool) else real(e)
    v = RN.frompyfunc(g, 1, 1)
    def f(x, *a, **k):
        if isinstance(x, (S, B)): return g(x)
        if isinstance(x, RN.ndarray):
            if x.dtype != object:
                return lift(real(x, **{kk: vv for kk, vv in k.items() if kk != 'out'}))
            r = v(x)
        elif isinstance(x, (list, tuple)):
            r = v(A(x))
        else:
            return real(x)
        out = k.get('out')
        w = k.get('where', True)
        if out is not None:
            if w is True: out[...] = r
            else: out[RN.asarray(w, dtype=bool)] = r[RN.asarray(w, dtype=bool)]
            return out
        return r
    f.__name__ = name
    return f

UN = {}
for nm, mt in [('sqrt', 'sqrt'), ('cbrt', 'cbrt'), ('exp', 'exp'), ('log', 'log'), ('log10', 'log10'), ('log2', 'log2'), ('sin', 'sin'), ('cos', 'cos'),
           ('tan', 'tan'), ('arcsin', 'arcsin'), ('arccos', 'arccos'), ('arctan', 'arctan'), ('sinh', 'sinh'), ('cosh', 'cosh'),
           ('tanh', 'tanh'), ('deg2rad', 'deg2rad'), ('rad2deg', 'rad2deg'), ('radians', 'radians'), ('degrees', 'degrees'),
           ('floor', 'floor'), ('ceil', 'ceil'), ('rint', 'rint'), ('square', 'square'), ('absolute', '__abs__'), ('fabs', '__abs__'),
           ('exp2', None), ('log1p', None), ('expm1', None), ('trunc', '__trunc__')]:
    if mt: UN[nm] = _un(mt, getattr(RN, nm))
UN['abs'] = UN['absolute']
UN['log1p'] = lambda x: UN['log'](1 + x)
UN['expm1'] = lambda x: UN['exp'](x) - 1
UN['exp2'] = lambda x: 2.0 ** x
def _arctanh(x):
    l = UN['log']
    return 0.5 * (l(1.0 + x) - l(1.0 - x))
UN['arctanh'] = _arctanh

def _isx(real):
    def g(e):
        if isinstance(e, (S, B)): return real is RN.isfinite
        if isinstance(e, complex): return bool(real(e))
        return bool(real(float(e)))
    v = RN.frompyfunc(g, 1, 1)
    def f(x, *a, **k):
        if isinstance(x, RN.ndarray) and x.dtype == object: return v(x).astype(bool) if x.ndim else bool(v(x))
        if isinstance(x, (S, B)): return real is RN.isfinite
        if isinstance(x, (list, tuple)): return f(A(x))
        return real(x)
    return f

def _bool1(m):
    if isinstance(m, RN.ndarray):
        if m.dtype == object:
            return RN.array([bool(e) for e in m.flat], dtype=bool).reshape(m.shape)
        return m.astype(bool)
    if isinstance(m, (list, tuple)):
        return _bool1(RN.array(m, dtype=object))
    return bool(m)

def where(c, *ab):
    c = _bool1(c)
    if not ab: return RN.where(c)
    a, b = ab
    a = RN.asarray(a, dtype=object) if has_sym(a) or isobj(a) else RN.asarray(a)
    b = RN.asarray(b, dtype=object) if has_sym(b) or isobj(b) else RN.asarray(b)
    r = RN.where(c, a, b)
    return lift(r)

def _pick(better):
    def g(x, y):
        if isinstance(x, float) and x != x: return x
        if isinstance(y, float) and y != y: return y
        return x if bool(better(x, y)) else y
    return g
_max2 = RN.frompyfunc(_pick(lambda x, y: x >= y), 2, 1)
_min2 = RN.frompyfunc(_pick(lambda x, y: x <= y), 2, 1)

def _bin(f2, real):
    def f(a, b, *r, **k):
        if not (has_sym(a) or has_sym(b)) and not (isobj(a) or isobj(b)):
            return lift(real(a, b))
        res = f2(A(a) if isinstance(a, (list, tuple)) else a, A(b) if isinstance(b, (list, tuple)) else b)
        out = k.get('out')
        if out is not None:
            out[...] = res
            return out
        return res
    return f

def _objred(x, axis, f2, real, kw):
    if isinstance(x, (S, B)): return x
    x = A(x) if not isinstance(x, RN.ndarray) else x
    if x.dtype != object: return lift(RN.asarray(real(x, axis=axis, **kw))) if axis is not None or kw.get('keepdims') else real(x)
    keep = kw.get('keepdims', False)
    if axis is None:
        it = list(x.flat)
        if not it: raise ValueError('zero-size array to reduction operation')
        r = it[0]
        for e in it[1:]: r = f2(r, e)
        if keep: return RN.array(r, dtype=object).reshape((1,) * x.ndim)
        return r
    mv = RN.moveaxis(x, axis, 0)
    r = mv[0]
    for i in range(1, mv.shape[0]): r = f2(r, mv[i])
    if keep: r = RN.expand_dims(RN.asarray(r, dtype=object), axis)
    return r

def amax(x, axis=None, **kw): return _objred(x, axis, _max2, RN.max, kw)
def amin(x, axis=None, **kw): return _objred(x, axis, _min2, RN.min, kw)

def clip(x, lo, hi, **k):
    r = x
    if lo is not None: r = NP.maximum(r, lo)
    if hi is not None: r = NP.minimum(r, hi)
    if k.get('out') is not None:
        k['out'][...] = r
    return r

def sign(x):
    def g(e):
        if isinstance(e, S):
            if bool(e > 0): return _f64(1.0)
            return _f64(-1.0) if bool(e < 0) else _f64(0.0)
        return RN.sign(e)
    if isinstance(x, RN.ndarray) and x.dtype == object: return RN.frompyfunc(g, 1, 1)(x)
    return g(x)

def heaviside(x, h):
    def g(e):
        if bool(e > 0): return _f64(1.0)
        return _f64(0.0) if bool(e < 0) else h
    if isinstance(x, RN.ndarray): return RN.frompyfunc(g, 1, 1)(x)
    return g(x)

# creation -------------------------------------------------------------------
def _isfloatdt(dt):
    if dt is None: return True
    try: return RN.dtype(dt).kind == 'f'
    except TypeError: return False

def _creat(real, hasfill=False):
    def f(shape, *a, **k):
        k.pop('order', None) if k.get('order') in ('C', None) else None
        dt = k.get('dtype', None)
        if not hasfill and a:
            dt = a[0]
        if hasfill:
            fill = a[0] if a else k.pop('fill_value')
            if isinstance(fill, (S, B)):
                r = RN.empty(shape, dtype=object); r.fill(fill); return r
            return lift(real(shape, fill, *a[1:], **k))
        if dt is not None and not _isfloatdt(dt): return real(shape, *a, **k)
        return lift(real(shape))
    return f

def zeros_like(x, dtype=None, **k):
    x = x if isinstance(x, RN.ndarray) else A(x)
    if dtype is not None and not _isfloatdt(dtype): return RN.zeros_like(x, dtype=dtype)
    if x.dtype.kind in 'iub' and dtype is None: return RN.zeros_like(x)
    return lift(RN.zeros(x.shape))
def ones_like(x, dtype=None, **k):
    x = x if isinstance(x, RN.ndarray) else A(x)
    if dtype is not None and not _isfloatdt(dtype): return RN.ones_like(x, dtype=dtype)
    if x.dtype.kind in 'iub' and dtype is None: return RN.ones_like(x)
    return lift(RN.ones(x.shape))
def empty_like(x, dtype=None, **k): return zeros_like(x, dtype)
def full_like(x, fill, **k):
    x = x if isinstance(x, RN.ndarray) else A(x)
    r = RN.empty(x.shape, dtype=object); r.fill(fill); return r

def array(x, dtype=None, copy=True, **k):
    if isinstance(x, RN.ndarray):
        if dtype is not None and not _isfloatdt(dtype) and not has_sym(x):
            return RN.array(unlift(x) if isobj(x) else x, dtype=dtype, copy=copy, **k)
        return lift(RN.array(x, copy=copy, **k))
    if has_sym(x):
        r = RN.array(x, dtype=object, **k)
        return r
    if dtype is not None and _isfloatdt(dtype):
        return lift(unlift(RN.array(x, dtype=object, **k))) if _has_objarr(x) else lift(RN.array(x, dtype=float, **k))
    if dtype is not None and RN.dtype(dtype).kind in 'iu' and has_sym(x):
        return RN.array([int(e) for e in RN.array(x, dtype=object).flat]).reshape(RN.shape(x))
    return lift(RN.array(x, dtype=dtype, **k))

def _has_objarr(x):
    if isobj(x): return True
    if isinstance(x, (list, tuple)): return builtins.any(_has_objarr(e) for e in x)
    return False

def asarray(x, dtype=None, **k):
    if isinstance(x, RN.ndarray) and (dtype is None or isobj(x)): return lift(x)
    return array(x, dtype=dtype)

def linspace(a, b, num=50, endpoint=True, **k):
    if concrete(a) and concrete(b):
        return lift(RN.linspace(unl(a), unl(b), int(num), endpoint=endpoint, **{kk: v for kk, v in k.items() if kk != 'dtype'}))
    num = int(num)
    d = num - 1 if endpoint else num
    out = [a if i == 0 else (b if (endpoint and i == num - 1) else a + (b - a) * i / d) for i in range(num)]
    if RN.ndim(a) or RN.ndim(b):
        return RN.array([RN.asarray(o, dtype=object) + 0 * RN.asarray(a, dtype=object) + 0 * RN.asarray(b, dtype=object) for o in out], dtype=object)
    return RN.array(out, dtype=object)

def unl(x):
    if isobj(x): return unlift(x)
    return x

def arange(*a, **k):
    if has_sym(a): raise T.Unsupported('arange with symbolic bounds')
    a = [unl(x) for x in a]
    r = RN.arange(*a, **k)
    return lift(r)

# linear algebra --------------------------------------------------------------
def _einsum(spec, *ops):
    if concrete(list(ops)):
        return lift(RN.einsum(spec, *[unl(o) for o in ops]))
    ins, out = spec.replace(' ', '').split('->') if '->' in spec else (spec.replace(' ', ''), None)
    ins = ins.split(',')
    ops = [RN.asarray(o, dtype=object) for o in ops]
    if out is None:
        al = ''.join(ins)
        out = ''.join(sorted(c for c in set(al) if al.count(c) == 1))
    dims = {}
    for s, o in zip(ins, ops):
        assert len(s) == o.ndim, 'einsum rank'
        for c, n in zip(s, o.shape):
            if c in dims and dims[c] != n:
                if dims[c] == 1: dims[c] = n
                elif n != 1: raise ValueError('einsum dimension mismatch')
            dims.setdefault(c, n)
    summed = [c for c in dims if c not in out]
    res = RN.empty([dims[c] for c in out], dtype=object)
    import itertools
    for idx in itertools.product(*[range(dims[c]) for c in out]):
        env = dict(zip(out, idx)); tot = 0
        for sidx in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, sidx)); p = 1
            for s, o in zip(ins, ops):
                p = p * o[tuple(env[c] if n != 1 else 0 for c, n in zip(s, o.shape))]
            tot = tot + p
        res[idx] = tot
    return res if res.ndim else res[()]

def _norm(x, ord=None, axis=None, keepdims=False):
    x = A(x)
    if concrete(x) and not isobj(x): return lift(RN.asarray(RN.linalg.norm(x, ord, axis, keepdims))) if axis is not None else RN.linalg.norm(x, ord, axis, keepdims)
    if concrete(x): return _norm(unlift(x), ord, axis, keepdims)
    if ord not in (None, 2, 'fro'):
        if ord == 1: return RN.sum(UN['abs'](x), axis=axis, keepdims=keepdims)
        if ord in (RN.inf,): return amax(UN['abs'](x), axis=axis, keepdims=keepdims)
        raise T.Unsupported('norm ord')
    s = RN.sum(x * x, axis=axis, keepdims=keepdims)
    return UN['sqrt'](s)

def _solve_sym(M, Bv):
    """Gauss elimination with symbolic entries (forks on pivots being zero)"""
    M = RN.array(M, dtype=object); Bv = RN.array(Bv, dtype=object)
    n = M.shape[0]
    vec = Bv.ndim == 1
    if vec: Bv = Bv.reshape(n, 1)
    M, Bv = M.copy(), Bv.copy()
    for c in range(n):
        p = None
        for r in range(c, n):
            e = M[r, c]
            if not isinstance(e, S) and e != 0: p = r; break
        if p is None:
            for r in range(c, n):
                if isinstance(M[r, c], S) and bool(M[r, c] != 0): p = r; break
        if p is None: raise RN.linalg.LinAlgError('Singular matrix')
        if p != c:
            M[[c, p]] = M[[p, c]]; Bv[[c, p]] = Bv[[p, c]]
        for r in range(n):
            if r == c: continue
            f = M[r, c]
            if not isinstance(f, S) and f == 0: continue
            f = f / M[c, c]
            M[r] = M[r] - f * M[c]; Bv[r] = Bv[r] - f * Bv[c]
    for r in range(n): Bv[r] = Bv[r] / M[r, r]
    return Bv[:, 0] if vec else Bv

def _lsolve(M, b):
    if concrete(M) and concrete(b): return lift(RN.linalg.solve(unl(A(M)), unl(A(b))))
    M = A(M)
    if M.ndim == 3:
        b = A(b)
        return RN.array([_solve_sym(M[i], b[i]) for i in range(M.shape[0])], dtype=object)
    if concrete(M):
        inv = RN.linalg.inv(unl(M)); return RN.dot(lift(inv), A(b))
    return _solve_sym(M, b)

def _inv(M):
    M = A(M)
    if concrete(M): return lift(RN.linalg.inv(unl(M)))
    if M.ndim == 3: return RN.array([_inv(m) for m in M], dtype=object)
    return _solve_sym(M, RN.eye(M.shape[0]).astype(object))

def _det(M):
    M = A(M)
    if concrete(M): return RN.linalg.det(unl(M))
    if M.ndim > 2: return RN.array([_det(m) for m in M], dtype=object)
    n = M.shape[0]
    if n == 1: return M[0, 0]
    tot = 0
    for j in range(n):
        minor = RN.delete(RN.delete(M, 0, 0), j, 1)
        tot = tot + (-1) ** j * M[0, j] * _det(minor)
    return tot

def interp(x, xp, fp, left=None, right=None, period=None):
    if concrete(x) and concrete(xp) and concrete(fp):
        return lift(RN.interp(unl(x), unl(A(xp)), unl(A(fp)), left, right))
    xp, fp = A(xp), A(fp)
    n = len(xp)
    def g(v):
        if bool(v <= xp[0]): 
            return fp[0] if left is None or bool(v == xp[0]) else left
        if bool(v >= xp[n - 1]):
            return fp[n - 1] if right is None or bool(v == xp[n - 1]) else right
        lo, hi = 0, n - 1
        while hi - lo > 1:
            m = (lo + hi) // 2
            if bool(v < xp[m]): hi = m
            else: lo = m
        return fp[lo] + (v - xp[lo]) * (fp[hi] - fp[lo]) / (xp[hi] - xp[lo])
    if isinstance(x, (S, B)) or RN.ndim(x) == 0: return g(scal(x))
    x = A(x)
    r = RN.empty(x.shape, dtype=object)
    for i in RN.ndindex(*x.shape): r[i] = g(x[i])
    return r

def digitize(x, bins, right=False):
    if concrete(x): return RN.digitize(unl(A(x)), unl(A(bins)), right)
    bins = list(A(bins).flat)
    def g(v):
        k = 0
        for b in bins:
            if bool((v > b) if right else (v >= b)): k += 1
        return k
    if isinstance(x, S): return g(x)
    return RN.array([g(v) for v in A(x).flat]).reshape(A(x).shape)

def searchsorted(a, v, side='left', sorter=None):
    if concrete(a) and concrete(v): return RN.searchsorted(unl(A(a)), unl(v), side)
    arr = list(A(a).flat)
    def g(x):
        k = 0
        for e in arr:
            if bool((e < x) if side == 'left' else (e <= x)): k += 1
            else: break
        return k
    if isinstance(v, S) or RN.ndim(v) == 0: return g(scal(v))
    return RN.array([g(x) for x in A(v).flat]).reshape(A(v).shape)

def around(x, decimals=0, **k):
    def g(e):
        return e.__round__(decimals) if isinstance(e, S) else RN.around(e, decimals)
    if isinstance(x, RN.ndarray) and x.dtype == object: return RN.frompyfunc(g, 1, 1)(x)
    return g(x)

def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if concrete(a) and concrete(b): return RN.isclose(unl(A(a)), unl(A(b)), rtol, atol, **k)
    a, b = A(a), A(b)
    return _bool1(UN['abs'](a - b) <= atol + rtol * UN['abs'](b))

def allclose(a, b, *r, **k): return bool(RN.all(isclose(a, b, *r, **k)))
def array_equal(a, b):
    if concrete(a) and concrete(b): return RN.array_equal(unl(A(a)), unl(A(b)))
    a, b = A(a), A(b)
    return a.shape == b.shape and bool(RN.all(a == b))

def nan_to_num(x, *a, **k):
    def g(e):
        return e if isinstance(e, (S, B)) else RN.nan_to_num(float(e))
    x = A(x)
    return RN.frompyfunc(g, 1, 1)(x)

def _anyall(real):
    def f(x, axis=None, **k):
        return real(_bool1(x) if (isobj(x) or isinstance(x, (list, tuple, S, B))) else x, axis=axis, **k)
    return f

def arctan2(y, x):
    def g(a, b):
        return T.atan2(a, b) if isinstance(a, S) or isinstance(b, S) else RN.arctan2(float(a), float(b))
    if RN.ndim(y) == 0 and RN.ndim(x) == 0: return g(scal(y), scal(x))
    return RN.frompyfunc(g, 2, 1)(A(y), A(x))

def hypot(a, b): return UN['sqrt'](a * a + b * b)
def power(a, b, **k):
    if isinstance(a, (list, tuple)): a = A(a)
    return a ** b
def divide(a, b, out=None, where=True, **k):
    if has_sym(a) or has_sym(b) or isobj(a) or isobj(b):
        if where is True:
            r = A(a) / A(b)
            r = scal(RN.asarray(r, dtype=object))
            if out is not None: out[...] = r; return out
            return r
        a, b = RN.broadcast_arrays(A(a), A(b)); w = RN.broadcast_to(_bool1(where), a.shape)
        o = out if out is not None else lift(RN.zeros(a.shape))
        for i in RN.ndindex(*a.shape):
            if w[i]: o[i] = a[i] / b[i]
        return o
    return lift(RN.divide(a, b, out=out, where=where, **k))

def cumprod(x, axis=None, **k): return RN.multiply.accumulate(A(x), axis=0 if axis is None else axis)
def _std(x, axis=None, **k):
    x = A(x); m = RN.mean(x, axis=axis, keepdims=True)
    return UN['sqrt'](RN.mean((x - m) * (x - m), axis=axis))
def _mean(x, axis=None, **k):
    x = A(x)
    if concrete(x): return lift(RN.asarray(RN.mean(unl(x), axis=axis, **k))) if axis is not None else RN.mean(unl(x), axis=axis, **k)
    n = x.size if axis is None else x.shape[axis]
    return RN.sum(x, axis=axis, **k) / n

def _median(x, **k): raise T.Unsupported('median')

def argsort(x, axis=-1, **k):
    x = A(x)
    if concrete(x): return RN.argsort(unl(x), axis=axis, **k)
    if x.ndim != 1: raise T.Unsupported('argsort nd symbolic')
    import functools
    return RN.array(sorted(range(len(x)), key=functools.cmp_to_key(lambda i, j: -1 if bool(x[i] < x[j]) else (1 if bool(x[j] < x[i]) else 0))), dtype=int)

def sort(x, axis=-1, **k):
    x = A(x)
    if concrete(x): return lift(RN.sort(unl(x), axis=axis))
    if x.ndim == 1: return x[argsort(x)]
    return RN.sort(x, axis=axis)

def _argm(better):
    def f(x, axis=None):
        x = A(x)
        def g(v):
            b = 0
            for i in range(1, len(v)):
                if bool(better(v[i], v[b])): b = i
            return b
        if axis is None: return g(list(x.flat))
        mv = RN.moveaxis(x, axis, -1)
        if mv.ndim == 1: return g(mv)
        out = RN.empty(mv.shape[:-1], dtype=int)
        for i in RN.ndindex(*out.shape): out[i] = g(mv[i])
        return out
    return f

class _FloatMeta(type):
    def __instancecheck__(c, x): return isinstance(x, RN.float64)
def _np_float64(x=0.0):
    if isinstance(x, (S, B)): return x
    if isobj(x): return x if has_sym(x) else unlift(x)
    return RN.float64(x)

def roots(p):
    p = list(A(p).flat)
    if not has_sym(p): return lift(RN.roots([float(x) for x in p]))
    if len(p) == 3:
        a, b, c = p
        d = UN['sqrt'](b * b - 4 * a * c)
        return RN.array([(-b + d) / (2 * a), (-b - d) / (2 * a)], dtype=object)
    raise T.Unsupported('roots of symbolic polynomial')

def nansum(x, axis=None): return RN.sum(nan_to_num(x), axis=axis)

def cross(a, b, axis=-1, **k):
    return RN.cross(RN.asarray(A(a), dtype=object), RN.asarray(A(b), dtype=object), axis=axis, **k)

def dot(a, b, **k):
    if isobj(a) or isobj(b) or has_sym(a) or has_sym(b):
        return RN.dot(RN.asarray(a, dtype=object), RN.asarray(b, dtype=object))
    return lift(RN.asarray(RN.dot(a, b))) if RN.ndim(a) + RN.ndim(b) > 2 else RN.dot(a, b)
def matmul(a, b, **k):
    if isobj(a) or isobj(b) or has_sym(a) or has_sym(b):
        return RN.matmul(RN.asarray(a, dtype=object), RN.asarray(b, dtype=object))
    return lift(RN.matmul(a, b))

class Mod(object):
    """a module stand-in: overrides, then the real module"""
    def __init__(self, real, over):
        object.__setattr__(self, '_real', real)
        object.__setattr__(self, '_over', over)
        object.__setattr__(self, '__name__', real.__name__)
    def __getattr__(self, n):
        o = object.__getattribute__(self, '_over')
        if n in o: return o[n]
        return _wrap(n, getattr(object.__getattribute__(self, '_real'), n))

_PASS = set('concatenate stack hstack vstack column_stack tile repeat reshape ravel transpose swapaxes moveaxis rollaxis squeeze expand_dims atleast_1d atleast_2d atleast_3d broadcast_to broadcast_arrays append insert delete flip fliplr flipud roll rot90 shape ndim size split array_split hsplit vsplit resize ndindex ndenumerate ix_ meshgrid diag triu tril take result_type can_cast errstate seterr'.split())

def _wrap(n, f):
    if n in _PASS and callable(f):
        def g(*a, **k):
            r = f(*[A(x) if isinstance(x, (S, B)) else x for x in a], **k)
            return [lift(x) if isinstance(x, RN.ndarray) else x for x in r] if isinstance(r, list) else lift(r)
        return g if n not in ('errstate', 'seterr', 'ndindex', 'ndenumerate', 'result_type', 'can_cast', 'shape', 'ndim', 'size') else f
    return f

_over = dict(UN)
_over.update(isnan=_isx(RN.isnan), isfinite=_isx(RN.isfinite), isinf=_isx(RN.isinf), where=where,
    maximum=_bin(_max2, RN.maximum), minimum=_bin(_min2, RN.minimum), fmax=_bin(_max2, RN.fmax), fmin=_bin(_min2, RN.fmin),
    amax=amax, amin=amin, max=amax, min=amin, nanmax=amax, nanmin=amin, clip=clip, sign=sign, heaviside=heaviside,
    zeros=_creat(RN.zeros), ones=_creat(RN.ones), empty=_creat(RN.zeros), full=_creat(RN.full, True),
    eye=lambda *a, **k: lift(RN.eye(*a, **k)), identity=lambda *a, **k: lift(RN.identity(*a, **k)),
    zeros_like=zeros_like, ones_like=ones_like, empty_like=empty_like, full_like=full_like, array=array, asarray=asarray, asanyarray=asarray,
    linspace=linspace, arange=arange, einsum=_einsum, interp=interp, digitize=digitize, searchsorted=searchsorted, around=around, round=around, round_=around,
    isclose=isclose, allclose=allclose, array_equal=array_equal, nan_to_num=nan_to_num, any=_anyall(RN.any), all=_anyall(RN.all),
    arctan2=arctan2, hypot=hypot, power=power, float_power=power, divide=divide, true_divide=divide, cumprod=cumprod, std=_std, mean=_mean, average=_mean,
    argsort=argsort, sort=sort, argmax=_argm(lambda x, y: x > y), argmin=_argm(lambda x, y: x < y), float64=_np_float64, float=_np_float64, float_=_np_float64,
    roots=roots, nansum=nansum, cross=cross, dot=dot, matmul=matmul, logical_and=lambda a, b, **k: RN.logical_and(_bool1(a), _bool1(b)),
    logical_or=lambda a, b, **k: RN.logical_or(_bool1(a), _bool1(b)), logical_not=lambda a, **k: RN.logical_not(_bool1(a)),
    int=lambda x=0: int(x), copy=lambda x, **k: lift(RN.array(x)) if isinstance(x, RN.ndarray) else A(x), nonzero=lambda x: RN.nonzero(_bool1(x)), argwhere=lambda x: RN.argwhere(_bool1(x)),
    count_nonzero=lambda x, **k: RN.count_nonzero(_bool1(x), **k), real=lambda x: x if has_sym(x) or isobj(x) else RN.real(x),
    real_if_close=lambda x, *a, **k: x, isscalar=lambda x: True if isinstance(x, S) else RN.isscalar(x),
    cumsum=lambda x, axis=None, **k: RN.cumsum(A(x), axis=axis), sum=lambda x, axis=None, **k: RN.sum(A(x), axis=axis, **{a: b for a, b in k.items() if a in ('keepdims',)}),
    prod=lambda x, axis=None, **k: RN.prod(A(x), axis=axis), isreal=lambda x: RN.ones(RN.shape(x), dtype=bool) if RN.ndim(x) else True)

_lin = dict(norm=_norm, solve=_lsolve, inv=_inv, det=_det)
LINALG = Mod(RN.linalg, _lin)
_over['linalg'] = LINALG
NP = Mod(RN, _over)

# math ------------------------------------------------------------------------
_mover = {}
for nm in ('sqrt', 'exp', 'log10', 'log2', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'floor', 'ceil', 'fabs', 'radians', 'degrees'):
    def _mk(nm):
        real = getattr(math, nm)
        m = {'fabs': '__abs__'}.get(nm, nm)
        def f(x):
            x = _one(x)
            return getattr(x, m)() if isinstance(x, S) else real(x)
        return f
    _mover[nm] = _mk(nm)
def _one(x):
    if isinstance(x, RN.ndarray) and x.size == 1: return x.flat[0]
    return x
for nm, m in (('asin', 'arcsin'), ('acos', 'arccos'), ('atan', 'arctan')):
    def _mk2(nm, m):
        real = getattr(math, nm)
        def f(x):
            x = _one(x)
            return getattr(x, m)() if isinstance(x, S) else real(x)
        return f
    _mover[nm] = _mk2(nm, m)
def _mlog(x, base=None):
    x = _one(x)
    if isinstance(x, S) or isinstance(base, S):
        r = T.const(x).log()
        return r if base is None else r / T.const(base).log()
    return math.log(x) if base is None else math.log(x, base)
_mover['log'] = _mlog
_mover['pow'] = lambda a, b: a ** b
_mover['atan2'] = lambda a, b: arctan2(a, b)
_mover['isnan'] = lambda x: False if isinstance(x, S) else math.isnan(x)
_mover['isinf'] = lambda x: False if isinstance(x, S) else math.isinf(x)
_mover['isfinite'] = lambda x: True if isinstance(x, S) else math.isfinite(x)
_mover['hypot'] = lambda *a: T.power(sum(x * x for x in a), T.Fraction(1, 2)) if has_sym(a) else math.hypot(*a)
_mover['copysign'] = lambda a, b: (abs(a) if bool(b >= 0) else -abs(a))
MATH = Mod(math, _mover)

class _float(float):
    pass
class FloatShim(type):
    def __instancecheck__(c, x): return isinstance(x, builtins.float) or isinstance(x, S)
    def __subclasscheck__(c, x): return issubclass(x, builtins.float)
    def __call__(c, x=0.0):
        if isinstance(x, (S,)): return x
        if isinstance(x, RN.ndarray) and x.size == 1 and isinstance(x.flat[0], S): return x.flat[0]
        return builtins.float(x)
    def __eq__(c, o): return o is c or o is builtins.float
    def __hash__(c): return hash(builtins.float)
class float_(metaclass=FloatShim): pass
float_.__name__ = 'float'

_saved = []
_np_funcs = None

def modules(prefix):
    for n, m in list(sys.modules.items()):
        if m is None or not isinstance(m, types.ModuleType): continue
        if n == prefix or n.startswith(prefix + '.'): yield n, m

def install(prefixes=('SUAVE',)):
    rev = {}
    for n in _over:
        r = getattr(RN, n, None)
        if r is not None and callable(r) and not isinstance(r, type): rev[id(r)] = n
    mrev = {id(getattr(math, n)): n for n in _mover if hasattr(math, n)}
    lrev = {id(getattr(RN.linalg, n)): n for n in _lin}
    for pre in prefixes:
        for n, m in modules(pre):
            if '.Plugins' in n and 'pint' in n: continue
            d = m.__dict__
            for k, v in list(d.items()):
                new = None
                if v is RN: new = NP
                elif v is math: new = MATH
                elif v is RN.linalg: new = LINALG
                elif isinstance(v, (types.FunctionType, types.BuiltinFunctionType, RN.ufunc)):
                    if id(v) in rev: new = _over[rev[id(v)]]
                    elif id(v) in mrev: new = _mover[mrev[id(v)]]
                    elif id(v) in lrev: new = _lin[lrev[id(v)]]
                    elif isinstance(v, types.FunctionType) and getattr(v, '__module__', '').startswith('numpy') and v.__name__ in _PASS: new = _wrap(v.__name__, v)
                if new is not None:
                    _saved.append((d, k, v, True)); d[k] = new
            if 'float' not in d:
                _saved.append((d, 'float', None, False)); d['float'] = float_
    _saved.append((sys.modules, 'numpy', RN, True)); sys.modules['numpy'] = NP
    _saved.append((sys.modules, 'math', math, True)); sys.modules['math'] = MATH

def uninstall():
    while _saved:
        d, k, v, had = _saved.pop()
        if had: d[k] = v
        else: d.pop(k, None)
