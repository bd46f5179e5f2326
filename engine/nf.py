"""Canonical rational-function normal form of terms over atoms.

poly : dict {mono: Fraction};  mono: tuple of (atom_id, exponent) sorted, exponent int or Fraction
       (negative exponents allowed: Laurent monomials)
rf   : (num poly, den) with den a dict {polykey: (poly, k)} of non-monomial factors

Rewrites used (all valid where the recorded domain assumptions hold):
  fractional powers      b^(p/q) with b > 0, integer parts expanded
  symbolic powers        b^e = exp(e*log b)
  exp(u)exp(v)=exp(u+v), exp(c*log b)=b^c, log of products of positive factors
  sin^2 = 1 - cos^2, angle addition, sin/cos of arctan/arcsin/arccos/atan2
Coefficients that cancel to a relative 1e-11 are dropped (rounding noise of the
decimal literals; stated as outside the claim).
"""
from fractions import Fraction
import math
from . import terms as T
from .terms import S

F0, F1 = Fraction(0), Fraction(1)
NOISE = Fraction(1, 10**11)
MAXTERMS = 30000

class TooBig(Exception): pass

class Atom(object):
    __slots__ = ('id', 'kind', 'arg', 'pos', 'name')

_atoms = []
_akey = {}
POSVARS = set()      # names of variables known positive (declared lower bound >= 0)

def reset():
    _atoms.clear(); _akey.clear(); POSVARS.clear(); _nfmemo.clear()

def atom(kind, key, arg=None, pos=False, name=None):
    k = (kind, key)
    a = _akey.get(k)
    if a is None:
        a = Atom(); a.id = len(_atoms); a.kind = kind; a.arg = arg; a.pos = pos; a.name = name
        _atoms.append(a); _akey[k] = a
    return a

def rnd(c):
    if c.denominator.bit_length() > 220 or c.numerator.bit_length() > 260:
        if c == 0: return c
        e = c.numerator.bit_length() - c.denominator.bit_length()
        sh = 140 - e
        if sh >= 0: n = (c.numerator << sh) // c.denominator
        else: n = c.numerator // (c.denominator << -sh)
        return Fraction(n, 1 << sh) if sh >= 0 else Fraction(n << -sh)
    return c

# ------------------------------------------------------------------- polys
def pconst(c): return {(): Fraction(c)} if c else {}
def patom(a, e=1): return {((a.id, e),): F1}

def padd(p, q, s=1):
    if len(p) + len(q) > MAXTERMS: raise TooBig()
    r = dict(p)
    for m, c in q.items():
        o = r.get(m)
        if o is None:
            r[m] = c * s
        else:
            n = o + c * s
            if n == 0 or abs(n) <= NOISE * max(abs(o), abs(c)):
                del r[m]
            else:
                r[m] = rnd(n)
    return r

def pscale(p, c):
    return {m: rnd(v * c) for m, v in p.items()} if c else {}

def mono_mul(m1, m2):
    """returns list of (mono, coef) or a poly (when reductions expand)"""
    if not m1: return m2, None
    if not m2: return m1, None
    d = dict(m1)
    special = False
    for a, e in m2:
        n = d.get(a, 0) + e
        if n == 0: d.pop(a, None)
        else: d[a] = n
    exps = [a for a in d if _atoms[a].kind == 'exp']
    if len(exps) > 1 or (exps and d[exps[0]] != 1):
        special = True
    else:
        for a, e in d.items():
            k = _atoms[a].kind
            if (k == 'sin' and e >= 2) or (k == 'pow' and (e >= 1 or e < 0)):
                special = True; break
    if not special:
        return tuple(sorted(d.items())), None
    return None, d

def _reduce(d, coef):
    """reduce special monomial dict to an rf"""
    plain, res = {}, None
    mult = []
    earg = None
    for a, e in d.items():
        at = _atoms[a]
        if at.kind == 'exp':
            t = rscale(at.arg, Fraction(e))
            earg = t if earg is None else radd(earg, t)
        elif at.kind == 'sin' and e >= 2:
            k, r = divmod(int(e), 2)
            cosat = trig_atom('cos', at.arg)
            one_minus = padd(pconst(1), patom(cosat, 2), -1)
            for _ in range(k): mult.append(rpoly(one_minus))
            if r: plain[a] = 1
        elif at.kind == 'pow' and (e >= 1 or e < 0):
            k = math.floor(e); f = e - k
            mult.append(rpowi(rpoly(at.arg), int(k)))
            if f: plain[a] = f
        else:
            plain[a] = e
    r = rpoly({tuple(sorted(plain.items())): coef})
    for x in mult: r = rmul(r, x)
    if earg is not None:
        r = rmul(r, rexp(earg))
    return r

def pmul_rf(p, q):
    """product of polys as an rf (may create denominators through reductions)"""
    if len(p) * len(q) > 4 * MAXTERMS: raise TooBig()
    out, extra = {}, None
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m, d = mono_mul(m1, m2)
            c = c1 * c2
            if d is None:
                o = out.get(m)
                if o is None: out[m] = rnd(c)
                else:
                    n = o + c
                    if n == 0 or abs(n) <= NOISE * max(abs(o), abs(c)): del out[m]
                    else: out[m] = rnd(n)
            else:
                t = _reduce(d, c)
                extra = t if extra is None else radd(extra, t)
    if len(out) > MAXTERMS: raise TooBig()
    r = (out, {})
    return r if extra is None else radd(r, extra)

# ---------------------------------------------------------------------- rf
def rconst(c): return (pconst(c), {})
def rpoly(p): return (p, {})
def rzero(r): return not r[0]
def risconst(r):
    if r[1]: return None
    if not r[0]: return F0
    if len(r[0]) == 1 and () in r[0]: return r[0][()]
    return None

def pkey(p): return tuple(sorted(p.items()))

def rnorm(num, den):
    if not num: return ({}, {})
    return (num, den)

def rscale(r, c): return (pscale(r[0], c), r[1]) if c else ({}, {})

def den_poly(den):
    r = rconst(1)
    for k, (p, e) in den.items():
        for _ in range(e): r = rmul(r, rpoly(p))
    return r

def radd(a, b, s=1):
    if not a[0]: return rscale(b, Fraction(s))
    if not b[0]: return a
    if a[1] == b[1] or (a[1].keys() == b[1].keys() and all(a[1][k][1] == b[1][k][1] for k in a[1])):
        n = padd(a[0], b[0], s)
        return cancel(n, a[1])
    den = dict(a[1])
    for k, (p, e) in b[1].items():
        if k not in den or den[k][1] < e: den[k] = (p, e)
    def lift(x):
        r = rpoly(x[0])
        for k, (p, e) in den.items():
            h = x[1][k][1] if k in x[1] else 0
            for _ in range(e - h): r = rmul(r, rpoly(p), nocancel=True)
        return r
    la, lb = lift(a), lift(b)
    if la[1] or lb[1]:      # reductions created further denominators
        s_ = radd(la, lb, s)
        return rmul(s_, ({(): F1}, den), nocancel=True) if s_[0] else ({}, {})
    n = padd(la[0], lb[0], s)
    return cancel(n, den)

def cancel(num, den):
    if not num: return ({}, {})
    if not den: return (num, den)
    den = dict(den)
    for k in list(den):
        p, e = den[k]
        while e > 0:
            q = pdivexact(num, p)
            if q is None: break
            num, e = q, e - 1
        if e == 0: del den[k]
        else: den[k] = (p, e)
    return (num, den)

def _degkey(m, order):
    d = dict(m)
    return tuple(d.get(a, 0) for a in order)

def pdivexact(n, p):
    """exact polynomial division, or None.  Only attempted when cheap."""
    if len(n) < len(p): 
        return None
    if len(p) == 1 or len(n) > 400 or len(p) > 60: return None
    atoms_p = set(a for m in p for a, e in m)
    for a in atoms_p:
        if _atoms[a].kind in ('sin', 'exp'): return None
    atoms_n = set(a for m in n for a, e in m)
    if not atoms_p <= atoms_n: return None
    order = sorted(atoms_n)
    lp = max(p, key=lambda m: _degkey(m, order))
    dlp = dict(lp)
    rem, quo = dict(n), {}
    steps = 0
    minn = {a: min([dict(m).get(a, 0) for m in n]) for a in order}
    minp = {a: min([dict(m).get(a, 0) for m in p]) for a in order}
    while rem:
        steps += 1
        if steps > 300: return None
        lm = max(rem, key=lambda m: _degkey(m, order))
        d = dict(lm)
        c = rem[lm] / p[lp]
        qd = {}
        for a in set(d) | set(dlp):
            e = d.get(a, 0) - dlp.get(a, 0)
            if e < minn.get(a, 0) - minp.get(a, 0): return None
            if e: qd[a] = e
            if _atoms[a].kind == 'pow' and e != 0 and (e < 0 or e >= 1): return None
        qm = tuple(sorted(qd.items()))
        quo[qm] = quo.get(qm, F0) + c
        for m, pc in p.items():
            mm, dd = mono_mul(qm, m)
            if dd is not None: return None
            o = rem.get(mm, F0)
            nn = o - c * pc
            if nn == 0 or (o and abs(nn) <= NOISE * max(abs(o), abs(c * pc))): rem.pop(mm, None)
            else: rem[mm] = nn
    return quo

def rmul(a, b, nocancel=False):
    if not a[0] or not b[0]: return ({}, {})
    if len(a[0]) == 1 and () in a[0] and not a[1]: return rscale(b, a[0][()])
    if len(b[0]) == 1 and () in b[0] and not b[1]: return rscale(a, b[0][()])
    an, ad, bn, bd = a[0], a[1], b[0], b[1]
    if not nocancel:
        if bd: an, bd = cancel(an, bd)
        if ad: bn, ad = cancel(bn, ad)
    n = pmul_rf(an, bn)
    den = dict(ad)
    for k, (p, e) in bd.items():
        den[k] = (p, den[k][1] + e) if k in den else (p, e)
    if n[1]:
        for k, (p, e) in n[1].items():
            den[k] = (p, den[k][1] + e) if k in den else (p, e)
    return rnorm(n[0], den)

def content(p):
    """p = c * mono * p'  with p' having zero minimum exponents and leading coef 1"""
    it = iter(p)
    m0 = next(it)
    mins = dict(m0)
    for m in it:
        d = dict(m)
        for a in list(mins):
            e = d.get(a, 0)
            if e < mins[a]: mins[a] = e
        for a, e in d.items():
            if a not in mins and e < 0: mins[a] = e
            elif a not in mins: pass
    # atoms absent from m0 but negative elsewhere handled; absent => min(0,..)
    for m in p:
        d = dict(m)
        for a in list(mins):
            e = d.get(a, 0)
            if e < mins[a]: mins[a] = e
    mins = {a: e for a, e in mins.items() if e != 0 and _atoms[a].kind not in ('exp',) }
    # keep pow/sin atoms safe: only extract vars, plain atoms and whole powers
    mins = {a: e for a, e in mins.items() if _atoms[a].kind in ('var', 'log', 'cos', 'ufn', 'pow', 'sin', 'atan')}
    if mins:
        q = {}
        for m, c in p.items():
            d = dict(m)
            for a, e in mins.items():
                n = d.get(a, 0) - e
                if n == 0: d.pop(a, None)
                else: d[a] = n
            q[tuple(sorted(d.items()))] = c
        p = q
    lead = min(p, key=lambda m: (len(m), m))   # deterministic
    lead = max(p)
    c = p[lead]
    return c, tuple(sorted(mins.items())), {m: v / c for m, v in p.items()}

def rinv(r):
    num, den = r
    if not num: raise ZeroDivisionError()
    top = den_poly(den) if den else rconst(1)
    c, mono, p = content(num)
    invm = {}
    powfix = []
    for a, e in mono:
        if _atoms[a].kind == 'pow' or (_atoms[a].kind == 'sin'):
            powfix.append((a, -e))
        else:
            invm[a] = -e
    res = rmul(rpoly({tuple(sorted(invm.items())): 1 / c}), top)
    for a, e in powfix:
        if _atoms[a].kind == 'pow':
            res = rmul(res, _reduce({a: e}, F1))
        else:
            q = patom(_atoms[a], 1)
            res = rmul(res, ({(): F1}, {pkey(q): (q, int(-e))}), nocancel=True)
    if len(p) == 1 and () in p:
        return res
    if len(p) == 1:
        (m, cc), = p.items()
        # single monomial left (exp atoms)
        d = {a: -e for a, e in m}
        return rmul(res, _reduce(d, 1 / cc))
    k = pkey(p)
    return rmul(res, ({(): F1}, {k: (p, 1)}))

def rdiv(a, b): return rmul(a, rinv(b))

def rpowi(r, k):
    if k < 0: return rinv(rpowi(r, -k))
    out, base = rconst(1), r
    if k > 64: raise TooBig()
    while k:
        if k & 1: out = rmul(out, base)
        k >>= 1
        if k: base = rmul(base, base)
    return out

def is_pos_atom(a):
    at = _atoms[a]
    return at.pos or at.kind in ('exp', 'pow')

def poly_to_key(p): return pkey(p)

def pow_poly(p, e):
    """p^e for a poly assumed positive, e a non-integer Fraction"""
    c, mono, q = content(p)
    neg = False
    posm = [(a, x) for a, x in mono if is_pos_atom(a)]
    other = [(a, x) for a, x in mono if not is_pos_atom(a)]
    sgn = 1
    if len(q) == 1 and () in q and not other:
        if c <= 0: raise TooBig()
        out = rconst(cpow(c, e))
    else:
        # rebuild compound with sign
        if other:
            qq = pmul_rf(q, {tuple(other): F1})
            if qq[1]: raise TooBig()
            q = qq[0]
        if c < 0: q, c = pscale(q, Fraction(-1)), -c
        # normalise even positive coefficient scaling
        k = math.floor(e); f = e - k
        at = atom('pow', pkey(q), arg=q, pos=True)
        out = rpoly({((at.id, f),): cpow(c, e)}) if f else rconst(cpow(c, e))
        if k: out = rmul(out, rpowi(rpoly(q), int(k)))
    for a, x in posm:
        out = rmul(out, pow_atom(a, Fraction(x) * e))
    return out

def pow_atom(a, e):
    at = _atoms[a]
    if at.kind == 'exp':
        return rexp(rscale(at.arg, e))
    if at.kind == 'pow':
        return _reduce({a: e}, F1) if (e >= 1 or e < 0) else rpoly({((a, e),): F1})
    return rpoly({((a, e if e.denominator != 1 else int(e)),): F1}) if e else rconst(1)

def cpow(c, e):
    v = iroot_exact(c, e)
    if v is not None: return v
    return T.snap(float(c) ** float(e))

def iroot_exact(c, e):
    q = e.denominator
    def root(n):
        if n > 10**30: return None
        r = round(n ** (1.0 / q))
        for x in (r - 1, r, r + 1):
            if x >= 0 and x ** q == n: return x
        return None
    a, b = root(c.numerator), root(c.denominator)
    if a is None or b is None or a == 0: return None
    if abs(e.numerator) > 60: return None
    return Fraction(a, b) ** e.numerator

def rpow_frac(r, e):
    num, den = r
    if not num: return ({}, {})
    out = pow_poly(num, e)
    for k, (p, x) in den.items():
        out = rmul(out, pow_poly_signed(p, -e * x))
    return out

def pow_poly_signed(p, e):
    # factors of a positive quotient need not be positive themselves
    if e.denominator == 1: return rpowi(rpoly(p), int(e))
    return pow_poly(p, e)

def sign_ok(r):
    """is every denominator factor syntactically positive (so splitting a
    fractional power over num/den is valid)?"""
    return all(poly_pos(p) for p, e in r[1].values())

def poly_pos(p):
    return all(c > 0 and all(is_pos_atom(a) or (isinstance(e, int) and e % 2 == 0) for a, e in m) for m, c in p.items())

def combine(r):
    """r as a single poly over atoms, folding denominators into an atom product (for safety)"""
    return r

def rlog(r):
    c = risconst(r)
    if c is not None:
        if c <= 0: raise TooBig()
        return rconst(T.snap(math.log(c)) if c != 1 else 0)
    num, den = r
    if den and not (sign_ok(r)):
        # log of a quotient with sign-indefinite factors: opaque atom
        at = atom('logq', rkey(r), arg=r)
        return rpoly(patom(at))
    out = log_poly(num)
    for k, (p, e) in den.items():
        out = radd(out, rscale(log_poly(p), Fraction(-e)))
    return out

def log_poly(p):
    c, mono, q = content(p)
    posm = [(a, x) for a, x in mono if is_pos_atom(a)]
    other = [(a, x) for a, x in mono if not is_pos_atom(a)]
    if len(q) == 1 and not other:
        (m, cc), = q.items()
        posm = posm + [(a, x) for a, x in m]
        if any(not is_pos_atom(a) for a, x in posm): 
            at = atom('log', pkey(p), arg=p)
            return rpoly(patom(at))
        if c <= 0: raise TooBig()
        out = rconst(T.snap(math.log(c)) if c != 1 else 0)
    else:
        if other:
            qq = pmul_rf(q, {tuple(other): F1})
            if qq[1]: raise TooBig()
            q = qq[0]
        if c < 0: q, c = pscale(q, Fraction(-1)), -c
        at = atom('log', pkey(q), arg=q)
        out = radd(rpoly(patom(at)), rconst(T.snap(math.log(c)) if c != 1 else 0))
    for a, x in posm:
        at = _atoms[a]
        if at.kind == 'exp': t = at.arg
        elif at.kind == 'pow': t = log_poly(at.arg)
        else: t = rpoly(patom(atom('log', pkey(patom(at)), arg=patom(at))))
        out = radd(out, rscale(t, Fraction(x)))
    return out

def rkey(r):
    return (pkey(r[0]), tuple(sorted((k, e) for k, (p, e) in r[1].items())))

def rexp(r):
    """exp of an rf"""
    if not r[0]: return rconst(1)
    c = risconst(r)
    if c is not None:
        return rconst(T.snap(math.exp(c)))
    if r[1]:
        at = atom('exp', rkey(r), arg=r, pos=True)
        return rpoly(patom(at))
    rest, out = {}, rconst(1)
    for m, cc in r[0].items():
        if len(m) == 1 and m[0][1] == 1 and _atoms[m[0][0]].kind == 'log':
            p = _atoms[m[0][0]].arg
            ce = near_rational(cc)
            if ce.denominator == 1: out = rmul(out, rpowi(rpoly(p), int(ce)))
            elif len(p) == 1:
                out = rmul(out, pow_poly(p, ce))
            else: out = rmul(out, pow_poly(p, ce))
        elif m == ():
            out = rscale(out, T.snap(math.exp(cc)))
        else:
            rest[m] = cc
    if rest:
        rr = rpoly(rest)
        at = atom('exp', rkey(rr), arg=rr, pos=True)
        out = rmul(out, rpoly(patom(at)))
    return out

def near_rational(c):
    f = c.limit_denominator(1000)
    return f if abs(f - c) <= NOISE * abs(c) else c

def trig_atom(kind, arg):
    return atom(kind, rkey(arg), arg=arg)

def rtrig(kind, arg):
    """sin/cos of an rf"""
    c = risconst(arg)
    if c is not None:
        v = math.sin(c) if kind == 'sin' else math.cos(c)
        if abs(v) < 1e-13: v = 0.0
        return rconst(T.snap(v))
    if arg[1]:
        return _trig1(kind, arg)
    items = sorted(arg[0].items())
    if len(items) == 1:
        return _trig1(kind, arg)
    if len(items) > 4: return _trig1(kind, arg)
    first, rest = rpoly(dict([items[0]])), rpoly(dict(items[1:]))
    s1, c1 = rtrig('sin', first), rtrig('cos', first)
    s2, c2 = rtrig('sin', rest), rtrig('cos', rest)
    if kind == 'sin': return radd(rmul(s1, c2), rmul(c1, s2))
    return radd(rmul(c1, c2), rmul(s1, s2), -1)

def _trig1(kind, arg):
    # sign normalisation, inverse functions, small integer multiples
    items = list(arg[0].items())
    if len(items) == 1:
        m, c = items[0]
        if len(m) == 1 and m[0][1] == 1 and _atoms[m[0][0]].kind in ('atan', 'asin', 'acos', 'atan2') and not arg[1]:
            at = _atoms[m[0][0]]
            cc = near_rational(c)
            if cc.denominator == 1 and abs(cc) <= 3:
                return _multi(kind, int(cc), *_inv_sc(at))
        if c == 0: return rconst(0 if kind == 'sin' else 1)
        if c < 0:
            r = _trig1(kind, rscale(arg, Fraction(-1)))
            return rscale(r, Fraction(-1)) if kind == 'sin' else r
        if c.denominator == 1 and 2 <= c <= 4 and m != ():
            base = (({m: F1}), arg[1])
            return _multi(kind, int(c), _trig1('sin', base), _trig1('cos', base))
    at = trig_atom(kind, arg)
    return rpoly(patom(at))

def rtan(arg):
    c = risconst(arg)
    if c is not None:
        v = math.tan(c)
        return rconst(T.snap(0.0 if abs(v) < 1e-13 else v))
    if not arg[1]:
        items = sorted(arg[0].items())
        ks = [(len(m) == 1 and m[0][1] == 1 and _atoms[m[0][0]].kind in ('atan', 'atan2') and abs(cc) == 1) for m, cc in items]
        if any(ks):
            (m, cc), = [it for it, k in zip(items, ks) if k][:1]
            at = _atoms[m[0][0]]
            t = at.arg if at.kind == 'atan' else rdiv(at.arg[0], at.arg[1])
            t = rscale(t, cc)
            if len(items) == 1: return t
            t2 = rtan(rpoly(dict(it for it in items if it[0] != m)))
            return rdiv(radd(t, t2), radd(rconst(1), rmul(t, t2), -1))
    return rdiv(rtrig('sin', arg), rtrig('cos', arg))

def _multi(kind, n, s, c):
    if n < 0:
        r = _multi(kind, -n, s, c)
        return rscale(r, Fraction(-1)) if kind == 'sin' else r
    if n == 0: return rconst(0 if kind == 'sin' else 1)
    S_, C_ = s, c
    for _ in range(n - 1):
        S_, C_ = radd(rmul(S_, c), rmul(C_, s)), radd(rmul(C_, c), rmul(S_, s), -1)
    return S_ if kind == 'sin' else C_

def _inv_sc(at):
    x = at.arg
    one = rconst(1)
    if at.kind == 'asin':
        return x, rsqrt(radd(one, rmul(x, x), -1))
    if at.kind == 'acos':
        return rsqrt(radd(one, rmul(x, x), -1)), x
    if at.kind == 'atan':
        h = rinv(rsqrt(radd(one, rmul(x, x))))
        return rmul(x, h), h
    y, x = x
    h = rinv(rsqrt(radd(rmul(y, y), rmul(x, x))))
    return rmul(y, h), rmul(x, h)

def rsqrt(r): return rpow_frac_safe(r, Fraction(1, 2))

def rpow_frac_safe(r, e):
    c = risconst(r)
    if c is not None:
        if c == 0: return rconst(0)
        if c < 0: raise TooBig()
        return rconst(cpow(c, e))
    if r[1] and not sign_ok(r):
        # (n/d)^e = (n*d)^e / (d^2)^e ; d^2 > 0, and (d^2)^e = |d|^(2e): keep it as (d^2)^e
        d = den_poly(r[1])
        nd = rmul(rpoly(r[0]), d)
        dd = rmul(d, d)
        if nd[1] or dd[1]: raise TooBig()
        return rmul(pow_poly(nd[0], e), pow_poly(dd[0], -e))
    return rpow_frac(r, e)

# ------------------------------------------------------------- terms -> rf
_nfmemo = {}

def nf(t):
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in _nfmemo:
            stack.pop(); continue
        kids = [a for a in x.args if isinstance(a, S)]
        todo = [k for k in kids if k.id not in _nfmemo]
        if todo:
            stack.extend(todo); continue
        v = []
        for k in kids:
            r = _nfmemo[k.id]
            if isinstance(r, Exception): _nfmemo[x.id] = r; break
            v.append(r)
        if x.id in _nfmemo:
            stack.pop(); continue
        try:
            r = _nf1(x, v)
        except (TooBig, ZeroDivisionError, OverflowError) as e:
            r = TooBig(str(e))
        _nfmemo[x.id] = r
        stack.pop()
    r = _nfmemo[t.id]
    if isinstance(r, Exception): raise TooBig()
    return r

def _nf1(x, v):
    op = x.op
    if op == 'c': return rconst(x.args[0])
    if op == 'v':
        n = x.args[0]
        return rpoly(patom(atom('var', n, pos=(n in POSVARS), name=n)))
    if op == '+': return radd(v[0], v[1])
    if op == '-': return radd(v[0], v[1], -1)
    if op == '*': return rmul(v[0], v[1])
    if op == '/': return rdiv(v[0], v[1])
    if op == '^':
        e = risconst(v[1])
        if e is not None:
            e = near_rational(e)
            if e.denominator == 1: return rpowi(v[0], int(e))
            return rpow_frac_safe(v[0], e)
        return rexp(rmul(v[1], rlog(v[0])))
    if op == 'f':
        n = x.args[0]
        if n == 'exp': return rexp(v[0])
        if n == 'log': return rlog(v[0])
        if n in ('sin', 'cos'): return rtrig(n, v[0])
        if n == 'tan': return rtan(v[0])
        if n in ('atan', 'asin', 'acos'):
            c = risconst(v[0])
            if c is not None: return rconst(T.snap(T._pyfn[n](float(c))))
            a = v[0]
            if n in ('atan', 'asin') and a[0] and a[0][max(a[0])] < 0:
                return rscale(rpoly(patom(atom(n, rkey(rscale(a, Fraction(-1))), arg=rscale(a, Fraction(-1))))), Fraction(-1))
            if n == 'atan' and len(a[0]) and not a[1]:
                pass
            return rpoly(patom(atom(n, rkey(a), arg=a)))
        if n == 'atan2':
            return rpoly(patom(atom('atan2', (rkey(v[0]), rkey(v[1])), arg=(v[0], v[1]))))
        return rpoly(patom(atom('ufn', (n,) + tuple(rkey(a) for a in v), arg=v, name=n)))
    raise TooBig(op)
