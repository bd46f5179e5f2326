"""C02: interpolation, blending, smooth maximum and sampling helpers."""
from engine.harness import harness
import SUAVE, numpy as np, importlib
LHM = importlib.import_module('SUAVE.Methods.Utilities.latin_hypercube_sampling')
from SUAVE.Core.Utilities import interp2d
from SUAVE.Methods.Utilities.soft_max import soft_max
import SUAVE.Methods.Utilities.Cubic_Spline_Blender as B1
import SUAVE.Methods.Aerodynamics.Supersonic_Zero.Drag.Cubic_Spline_Blender as B2
B1 = importlib.import_module('SUAVE.Methods.Utilities.Cubic_Spline_Blender'); B2 = importlib.import_module('SUAVE.Methods.Aerodynamics.Supersonic_Zero.Drag.Cubic_Spline_Blender')

@harness('C02', bounds='both spline blenders: any interval up to 100 wide, any two points at once', q=15)
def blender(h):
    C = h.choice('copy', [B1, B2]).Cubic_Spline_Blender
    a, w = h.real('a', -100, 100), h.real('w', .001, 100)
    x, y = h.real('x', -300, 300), h.real('y', -300, 300)
    b = C(a, a + w)
    r = b.compute(h.array([x, y]))
    e = (x - a) / w
    h.eq('transform', b.eta_transform(x), e)
    if h.decide(x <= a): h.eq('before', r[0], 1)
    elif h.decide(x >= a + w): h.eq('after', r[0], 0)
    else: h.eq('cubic', r[0], (1 - e) * (1 - e) * (1 + 2 * e), rtol=1e-5, atol=1e-7)
    h.le('at most one', r[0], 1); h.ge('at least zero', r[0], 0)
    h.assume(x < y)
    h.le('decreasing', r[1], r[0])
@harness('C02', bounds='both spline blenders: complementary, half way in the middle, smooth at the ends')
def blender_shape(h):
    C = h.choice('copy', [B1, B2]).Cubic_Spline_Blender
    a, w = h.real('a', -100, 100), h.real('w', .001, 100); e = h.real('e', 0, 1)
    b = C(a, a + w)
    f = lambda s: b.compute(h.array([a + w * s]))[0]
    h.eq('complement', f(e) + f(1 - e), 1); h.eq('middle', f(.5), .5)
    h.le('flat start', 1 - f(e), 3 * e * e); h.le('flat end', f(1 - e), 3 * e * e)
@harness('C02', bounds='any two numbers within 500 of each other', q=15)
def softmax(h):
    a, b, k = h.real('a', -200, 200), h.real('b', -200, 200), h.real('k', -100, 100)
    f = soft_max(a, b)
    m = a if h.decide(a >= b) else b
    h.ge('not below', f, m); h.le('close', h.exp(f - m), 2); h.eq('symmetric', soft_max(b, a), f)
    h.eq('shift', soft_max(a + k, b + k), f + k)
    d = (a - b) if h.decide(a >= b) else (b - a)
    h.eq('value', h.exp(f - m), 1 + h.exp(-d))

class Rand(object):
    def __init__(self, h): self.h, self.k = h, 0
    def rand(self, *s):
        self.k += 1
        return self.h.array([self.h.real('rand%d_%d' % (self.k, i), 0, 1, hi_open=True) for i in range(int(np.prod(s)))]).reshape(s)
    def shuffle(self, v):
        import itertools
        P = list(itertools.permutations(range(len(v)))); self.k += 1
        p = self.h.choice('perm%d' % self.k, P)
        v[:] = np.array([v[i] for i in p], dtype=v.dtype)
class NPx(object):
    def __init__(self, np_, r): self.__dict__.update(_n=np_, random=r)
    def __getattr__(self, k): return getattr(self._n, k)

@harness('C02', bounds='Latin hypercube: 1 or 2 dimensions, 1 to 3 samples, any random draws and shuffles, centred or random, any bounds')
def latin(h):
    dim, n = h.choice('size', [(1, 3), (2, 2), (1, 1), (2, 3)] if not h.thorough else [(1, 3), (2, 2), (1, 4), (2, 3)]); crit = h.choice('criterion', ['random', 'center']); bd = h.choice('bounds', [False, True])
    real = LHM.np; LHM.np = NPx(real, Rand(h))
    lo = h.array([h.real('lo%d' % j, -50, 50) for j in range(dim)]); wd = h.array([h.real('w%d' % j, .01, 50) for j in range(dim)])
    try: X = LHM.latin_hypercube_sampling(dim, n, bounds=(lo, lo + wd) if bd else None, criterion=crit)
    finally: LHM.np = real
    h.true('shape', X.shape == (n, dim))
    for j in range(dim):
        u = [(X[i, j] - lo[j]) / wd[j] if bd else X[i, j] for i in range(n)]
        order = []
        for i in range(n):
            h.ge('inside', u[i], 0); h.le('inside', u[i], 1)
            k = 0
            while k < len(order) and h.decide(u[order[k]] <= u[i]): k += 1
            order.insert(k, i)
        for k, i in enumerate(order):     # sorted, the k-th sample lies in the k-th cell
            h.ge('cell', u[i], k / n, atol=1e-7); h.le('cell', u[i], (k + 1) / n, atol=1e-7)
            if crit == 'center': h.eq('centre', u[i], (k + .5) / n)

@harness('C02', bounds='bilinear table: 3 x 3 grid of any spacing and values, any point in one dimension pair inside, on or outside the table', q=15, max_paths=900)
def bilinear(h):
    nx, ny = 3, 3
    x0, y0 = h.real('x0', -5, 5), h.real('y0', -5, 5)
    xs = [x0]; ys = [y0]
    for i in range(nx - 1): xs.append(xs[-1] + h.real('dx%d' % i, .1, 5))
    for i in range(ny - 1): ys.append(ys[-1] + h.real('dy%d' % i, .1, 5))
    Z = [[h.real('z%d%d' % (i, j), -10, 10) for j in range(ny)] for i in range(nx)]
    i, j = h.choice('cell x', [0, 1]), h.choice('cell y', [0, 1]); k = h.choice('at', ['inside', 'outside', 'outside fill'])
    s, t = h.real('s', 0, 1), h.real('t', 0, 1)
    X, Y, ZZ = h.array(xs), h.array(ys), h.array(Z)
    if k == 'inside':
        r = interp2d(xs[i] + s * (xs[i + 1] - xs[i]), ys[j] + t * (ys[j + 1] - ys[j]), X, Y, ZZ, fill_value=h.choice('fill', [None, -999.]))
        h.eq('bilinear', r, (1 - s) * (1 - t) * Z[i][j] + s * (1 - t) * Z[i + 1][j] + (1 - s) * t * Z[i][j + 1] + s * t * Z[i + 1][j + 1])
    else:
        d = h.real('d', .01, 10); side = h.choice('side', ['left', 'right', 'below', 'above'])
        px = xs[0] - d if side == 'left' else xs[-1] + d if side == 'right' else xs[i] + s * (xs[i + 1] - xs[i])
        py = ys[0] - d if side == 'below' else ys[-1] + d if side == 'above' else ys[j] + t * (ys[j + 1] - ys[j])
        if k == 'outside fill': h.eq('fill', interp2d(px, py, X, Y, ZZ, fill_value=-999.), -999.)
        elif side == 'left' : h.eq('extrapolated', interp2d(px, py, X, Y, ZZ), (1 - t) * (Z[0][j] - d * (Z[1][j] - Z[0][j]) / (xs[1] - xs[0])) + t * (Z[0][j + 1] - d * (Z[1][j + 1] - Z[0][j + 1]) / (xs[1] - xs[0])))
