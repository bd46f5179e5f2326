"""C01: the data containers every model is stored in keep, copy and pack values faithfully."""
from engine.harness import harness
import SUAVE, numpy as np, copy, importlib
from SUAVE.Core import Data, DataOrdered, Container, ContainerOrdered, Diffed_Data
CM = importlib.import_module('SUAVE.Core.Container')

def structure(h, which, tag=''):
    """nested data with scalars, rows, columns, matrices, strings, None and rank-3 arrays; returns it and its numeric leaves (path, kind, shape)"""
    r = lambda k: h.real(tag + k, -100, 100)
    A = lambda k, *s: h.array([r('%s%d' % (k, i)) for i in range(int(np.prod(s)))]).reshape(s)
    d = Data()
    if which == 'scalars': d.a = r('a'); d.name = 'text'; d.b = r('b'); d.none = None
    elif which == 'columns': d.p = A('p', 3, 1); d.q = A('q', 3, 2); d.tag = 't'
    elif which == 'mixed':
        d.s = r('s'); d.v = A('v', 3); d.M = A('M', 2, 3); d.T = A('T', 1, 2, 2); d.flag = 'x'
    elif which == 'nested':
        d.in_ = Data(); d.in_.x = A('x', 2, 1); d.in_.deep = Data(); d.in_.deep.y = A('y', 2, 2); d.in_.deep.label = 'q'; d.in_.deep.z = r('z'); d.w = A('w', 2, 3)
    elif which == 'empty': d.sub = Data(); d.name = 'n'
    elif which == 'rows': d.v = A('v', 2); d.sub = Data(); d.sub.v = A('sv', 3); d.M = A('M', 1, 4)
    return d

def leaves(d, pre=()):
    out = []
    for k, v in d.items():
        if isinstance(v, dict): out += leaves(v, pre + (k,))
        elif isinstance(v, np.ndarray) and v.ndim <= 2: out.append((pre + (k,), v))
        elif v is None or isinstance(v, (str, np.ndarray)): pass
        else: out.append((pre + (k,), v))
    return out

def order(v):
    if not isinstance(v, np.ndarray): return [v]
    if v.ndim == 1: return list(v)
    return [v[i, j] for j in range(v.shape[1]) for i in range(v.shape[0])]

KINDS = ['scalars', 'columns', 'mixed', 'nested', 'empty', 'rows']
@harness('C01', bounds='six nested structures with scalars, vectors, matrices, rank-3 arrays, text and empty branches; any values: packing to and from a vector')
def pack_vector(h):
    w = h.choice('structure', KINDS)
    d = structure(h, w)
    want = [x for _, v in leaves(d) for x in order(v)]
    V = d.pack_array('vector')
    h.true('length', len(V) == len(want)); h.eq('order', V, want)
    x = [h.real('new%d' % i, -100, 100) for i in range(len(want))]
    keep = d.T.copy() if w == 'mixed' else None
    shapes = [(p, np.shape(v)) for p, v in leaves(d)]
    r = d.unpack_array(h.array(x))
    h.true('returns itself', r is d); h.true('shapes', [(p, np.shape(v)) for p, v in leaves(d)] == shapes)
    h.eq('unpacked', [y for _, v in leaves(d) for y in order(v)], x); h.eq('round trip', d.pack_array('vector'), x)
    if keep is not None: h.eq('higher rank untouched', d.T, keep); h.true('text untouched', d.flag == 'x')

@harness('C01', bounds='columns, nested columns: packing to and from a two-dimensional array, 2 or 3 rows')
def pack_columns(h):
    w = h.choice('structure', ['columns', 'nested2'])
    A = lambda k, *s: h.array([h.real('%s%d' % (k, i), -100, 100) for i in range(int(np.prod(s)))]).reshape(s)
    if w == 'columns': d = structure(h, 'columns'); n = 3
    else:
        d = Data(); d.v = A('v', 2); d.in_ = Data(); d.in_.M = A('M', 2, 2); d.in_.text = 'q'; d.c = A('c', 2, 1); n = 2
    cols = []
    for _, v in leaves(d): cols += [list(v)] if v.ndim == 1 else [list(v[:, j]) for j in range(v.shape[1])]
    M = d.pack_array('array')
    h.true('shape', M.shape == (n, len(cols)))
    for j, c in enumerate(cols): h.eq('column', M[:, j], c)
    N = h.array([[h.real('n%d_%d' % (i, j), -100, 100) for j in range(len(cols))] for i in range(n)])
    d.unpack_array(N); h.eq('round trip', d.pack_array('array'), N)

@harness('C01', bounds='nested data updated from another: overlapping, new, nested and hidden keys; any values')
def update(h):
    cls = h.choice('container', [Data, DataOrdered])
    r = lambda k: h.real(k, -9, 9)
    a, b = cls(), cls()
    a.x, a.y = r('ax'), r('ay'); a.sub = cls(); a.sub.p, a.sub.q = r('ap'), r('aq')
    b.y, b.z = r('by'), r('bz'); b.sub = cls(); b.sub.q, b.sub.s = r('bq'), r('bs'); b['_hidden'] = r('bh')
    p, s = a.sub.p, a.sub
    a.update(b)
    h.eq('kept', [a.x, a.sub.p], [a.x, p]); h.eq('replaced', [a.y, a.sub.q], [b.y, b.sub.q]); h.eq('added', [a.z, a.sub.s], [b.z, b.sub.s])
    h.true('hidden keys stay out', '_hidden' not in a.keys()); h.true('branch kept in place', a.sub is s)
    h.true('keys', list(a.keys()) == ['x', 'y', 'sub', 'z'] and list(a.sub.keys()) == ['p', 'q', 's'])

@harness('C01', bounds='append_or_update and do_recursive on nested histories with 1..3 rows, any values')
def histories(h):
    na, nb = h.choice('rows a', [1, 3]), h.choice('rows b', [1, 2])
    A = lambda k, *s: h.array([h.real('%s%d' % (k, i), -100, 100) for i in range(int(np.prod(s)))]).reshape(s)
    def mk(t, n):
        d = Data(); d.t = A(t + 't', n, 1); d.f = Data(); d.f.v = A(t + 'v', n, 3); d.f.k = h.real(t + 'k', -9, 9); return d
    a, b = mk('a', na), mk('b', nb); b.f.only = A('bo', nb, 1)
    at, av, bt, bv = a.t.copy(), a.f.v.copy(), b.t.copy(), b.f.v.copy()
    c = a.do_recursive(lambda x, y=None: x * 2 if y is None else x + 1)
    h.eq('applied', c.t, at * 2); h.eq('applied deep', c.f.v, av * 2); h.eq('source kept', a.t, at)
    a.append_or_update(b)
    h.eq('first', a.t[:na], at); h.eq('then', a.t[na:], bt); h.eq('deep first', a.f.v[:na], av); h.eq('deep then', a.f.v[na:], bv); h.true('rows', a.t.shape == (na + nb, 1) and a.f.v.shape == (na + nb, 3))
    h.eq('scalar', a.f.k, b.f.k); h.eq('new', a.f.only, b.f.only)
    h.eq('second kept', b.t, bt); h.eq('second kept deep', b.f.v, bv)

@harness('C01', bounds='reading and writing by dotted path, list of keys and bracketed index; 1..4 levels')
def paths(h):
    cls = h.choice('container', [Data, DataOrdered])
    d = cls(); d.a = cls(); d.a.b = cls(); d.a.b.c = h.real('c', -9, 9); d.x = h.real('x', -9, 9); d.a.y = h.real('y', -9, 9)
    v = h.real('v', -9, 9)
    p = h.choice('path', ['x', 'a.y', 'a.b.c', 'a.b.new', 'fresh'])
    old = {'x': d.x, 'a.y': d.a.y, 'a.b.c': d.a.b.c}
    if p in old: h.eq('read', d.deep_get(p), old[p]); h.eq('read list', d.deep_get(p.split('.')), old[p])
    d.deep_set(p, v)
    h.eq('written', d.deep_get(p), v)
    for k in old:
        if k != p: h.eq('others kept', d.deep_get(k), old[k])
    if cls is Data:
        d.m = Data(); d.m.v = h.array([h.real('m%d' % i, -9, 9) for i in range(3)]); keep = list(d.m.v)
        i = h.choice('index', [0, 1, 2]); w = h.real('w', -9, 9)
        d.deep_set('m.v[%d]' % i, w)
        h.eq('indexed', d.m.v, [w if k == i else keep[k] for k in range(3)])
        d.m.M = h.array([[h.real('M%d%d' % (k, j), -9, 9) for j in range(2)] for k in range(2)]); K = d.m.M.copy(); j = h.choice('column', [0, 1])
        d.deep_set('m.M[%d][%d]' % (1, j), w)
        K[1, j] = w; h.eq('indexed twice', d.m.M, K)

@harness('C01', bounds='configurations derived from a base: any base values, any changed subset, base changed afterwards, up to two rounds, nested configurations')
def configurations(h):
    r = lambda k: h.real(k, -9, 9)
    base = Data(); base.tag = 'base'; base.x, base.y = r('x'), r('y'); base.wing = Data(); base.wing.area, base.wing.flap = r('area'), r('flap'); base.v = h.array([r('v0'), r('v1')])
    b = Diffed_Data(base); b.tag = 'base'
    c = Diffed_Data(b); c.tag = 'takeoff'
    what = h.choice('changed', ['flap', 'x', 'vector', 'new', 'nothing'])
    n = r('n')
    if what == 'flap': h.assume(n != base.wing.flap); c.wing.flap = n
    elif what == 'x': h.assume(n != base.x); c.x = n
    elif what == 'vector': h.assume(n != base.v[0]); c.v = h.array([n, base.v[1]])
    elif what == 'new': c.wing.extra = n
    con = Diffed_Data.Container(); con.append(b); con.append(c)
    h.eq('base untouched', [base.x, base.wing.flap, base.wing.area], [b.x, b.wing.flap, b.wing.area])
    for k in range(2):
        X, Y, Ar, F, V = r('X%d' % k), r('Y%d' % k), r('A%d' % k), r('F%d' % k), h.array([r('V%d' % k), r('W%d' % k)])
        base.x, base.y, base.wing.area, base.wing.flap, base.v = X, Y, Ar, F, V
        con.pull_base()
        h.eq('base configuration', [b.x, b.y, b.wing.area, b.wing.flap] + list(b.v), [X, Y, Ar, F] + list(V))
        h.eq('follows base', [c.y, c.wing.area], [Y, Ar])
        h.eq('x', c.x, n if what == 'x' else X); h.eq('flap', c.wing.flap, n if what == 'flap' else F)
        if what == 'vector': h.eq('vector', c.v[0], n)
        else: h.eq('vector', c.v, V)
        if what == 'new': h.eq('new', c.wing.extra, n)
        h.true('tags', c.tag == 'takeoff' and b.tag == 'base')
    h.true('container', list(con.keys()) == ['base', 'takeoff'])

@harness('C01', bounds='up to 6 components appended with equal, similar or differently written tags, any random draw: none lost, tags unique')
def append(h):
    names = h.choice('tags', [['wing'] * 4, ['wing', 'Wing', 'WING'], ['wing', 'main wing', 'wing', 'wing'], ['wing', 'wing3', 'wing'], ['wing', 'wing2', 'wing', 'wing'], ['a', 'a', 'a2', 'a', 'a3', 'a'], ['fuel tank', 'fuel_tank', 'Fuel-Tank']])
    draw = h.choice('draw', [0, 1, 2, 3])
    c = Container(); items = []
    keep = getattr(CM, 'random', None)
    class R(object):
        @staticmethod
        def randint(a, b): return a + draw
    CM.random = R
    try:
        for i, t in enumerate(names):
            d = Data(); d.tag = t; d.value = h.real('v%d' % i, -9, 9); items.append((d, d.value)); c.append(d)
    finally:
        if keep is None: del CM.random
        else: CM.random = keep
    h.true('none lost', len(c) == len(names)); vals = list(c.values())
    for (d, v), e in zip(items, vals): h.true('same object', d is e); h.eq('value', e.value, v)
    h.true('found by tag', all(c[d.tag.lower().replace(' ', '_').replace('-', '_')] is d for d, _ in items))

@harness('C01', bounds='extending a container by a list, tuple or container of up to 3 components')
def extend(h):
    cls = h.choice('container', [Container, ContainerOrdered]); kind = h.choice('by', ['list', 'tuple', 'container'])
    items = []
    for i in range(3):
        d = Data(); d.tag = 'c%d' % i; d.value = h.real('v%d' % i, -9, 9); items.append(d)
    c = cls(); first = Data(); first.tag = 'first'; first.value = h.real('f', -9, 9); c.append(first)
    if kind == 'list': c.extend(list(items))
    elif kind == 'tuple': c.extend(tuple(items))
    else:
        o = cls()
        for d in items: o.append(d)
        c.extend(o)
    h.true('keys', list(c.keys()) == ['first', 'c0', 'c1', 'c2']); h.eq('values', [x.value for x in c.values()], [first.value] + [d.value for d in items])

@harness('C01', bounds='ordered data: order of appending kept through replacing, deleting and re-adding; access by index')
def ordered(h):
    d = DataOrdered(); v = [h.real('v%d' % i, -9, 9) for i in range(4)]
    for i in range(4): d['k%d' % i] = v[i]
    i = h.choice('changed', [0, 1, 3]); w = h.real('w', -9, 9)
    d['k%d' % i] = w
    now = [w if k == i else v[k] for k in range(4)]
    h.eq('replaced', d.values(), now); h.true('order', d.keys() == ['k0', 'k1', 'k2', 'k3'])
    h.eq('by index', [d[k] for k in range(4)], now)
    j = h.choice('deleted', [0, 2, 3])
    d.__delattr__('k%d' % j)
    rest = [k for k in range(4) if k != j]
    h.true('deleted', d.keys() == ['k%d' % k for k in rest] and len(d.values()) == 3); h.eq('rest', d.values(), [now[k] for k in rest])
    d['k%d' % j] = w
    h.true('at the end', d.keys() == ['k%d' % k for k in rest + [j]]); h.eq('all', d.values(), [now[k] for k in rest] + [w])
    e = copy.deepcopy(d)
    h.true('copied', e.keys() == d.keys()); h.eq('copied values', e.values(), d.values())
    e['k1'] = h.real('z', -9, 9); h.eq('independent', d['k1'], w if j == 1 or i == 1 else v[1])
