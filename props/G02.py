"""G02: multi-segment wing planforms: integrals over the segments, and agreement with the trapezoid."""
from engine.harness import harness
import SUAVE

def _seg(h, i, p, c, last=False):
    s = SUAVE.Components.Wings.Segment(); s.tag = 'section_%d' % i
    s.percent_span_location, s.root_chord_percent = p, c
    s.sweeps.quarter_chord = 0. if last else h.real('sw%d' % i, -1.1, 1.1)
    s.dihedral_outboard = 0. if last else h.real('dih%d' % i, -.9, .9)
    s.thickness_to_chord = h.real('tc%d' % i, .02, .25)
    return s

def _wing(h, n, sym, chords=None, tip=1, root=1.):
    w = SUAVE.Components.Wings.Main_Wing(); w.symmetric = sym
    w.spans.projected = h.real('b', 1, 90); w.chords.root = h.real('cr', .1, 20)
    w.thickness_to_chord = .1
    ps = [0.]
    for i in range(1, n - 1): ps.append(h.real('p%d' % i, .02, .98))
    ps.append(1.)
    for a, b in zip(ps, ps[1:]):
        if not (isinstance(a, float) and isinstance(b, float)): h.assume(b > a + .01)
    cs = []
    for i in range(n):
        k = (chords or {}).get(i)
        cs.append(cs[k] if k is not None else (root if i == 0 else h.real('c%d' % i, .05, 2.0)))
    for i in range(n): w.append_segment(_seg(h, i, ps[i], cs[i], i == n - 1))
    return w, ps, cs

def _expect(h, w, ps, cs):
    """strip integrals of the piecewise linear wing, one side then totals"""
    n2 = 2 if w.symmetric else 1
    L = w.spans.projected / n2; cr = w.chords.root
    segs = [w.Segments[k] for k in w.Segments.keys()]
    e = dict(A=0, I2=0, wet=0, tcA=0, len=0, off=0, offle=0, mx=0, my=0, mz=0)
    x0 = z0 = y0 = 0
    e['As'] = []
    for i in range(len(segs) - 1):
        l = (ps[i + 1] - ps[i]) * L
        a, b = cs[i] * cr, cs[i + 1] * cr
        A = l * (a + b) / 2
        e['As'].append(A)
        tq, td, tc = h.tan(segs[i].sweeps.quarter_chord), h.tan(segs[i].dihedral_outboard), segs[i].thickness_to_chord
        tle = tq + (a - b) / 4 / l
        e['A'] = e['A'] + A
        e['I2'] = e['I2'] + l * (a * a + a * b + b * b) / 3
        e['wet'] = e['wet'] + 2 * (1 + .2 * tc) * A
        e['tcA'] = e['tcA'] + tc * A
        e['len'] = e['len'] + l / h.cos(segs[i].dihedral_outboard)
        e['off'] = e['off'] + l * tq; e['offle'] = e['offle'] + l * tle
        # first moments of the segment: int c y, int c (xle + c/2), int c z   (y from segment start)
        my = l * l * (a + 2 * b) / 6
        e['my'] = e['my'] + my + y0 * A
        e['mz'] = e['mz'] + my * td + z0 * A
        e['mx'] = e['mx'] + my * tle + l * (a * a + a * b + b * b) / 6 + x0 * A
        y0 = y0 + l; x0 = x0 + l * tle; z0 = z0 + l * td
    return e, n2, L

def _claims(h, w, ps, cs, over, S0, centroid=True):
    e, n2, L = _expect(h, w, ps, cs)
    b = w.spans.projected
    S = n2 * e['A']
    if over:
        h.eq('reference area', w.areas.reference, S)
        h.eq('aspect ratio', w.aspect_ratio * S, b * b)
        h.eq('wetted', w.areas.wetted, n2 * e['wet'])
    else:
        h.eq('reference kept', w.areas.reference, S0)
    h.eq('mgc', w.chords.mean_geometric * b, S)
    mac = w.chords.mean_aerodynamic
    h.eq('mac', mac * e['A'], e['I2'])
    h.eq('total span', w.spans.total, n2 * e['len'])
    h.eq('tip', w.chords.tip, cs[-1] * w.chords.root); h.eq('taper', w.taper * cs[0], cs[-1])
    h.eq('t/c', w.thickness_to_chord * e['A'], e['tcA'])
    if n2 == 1: h.eq('as found: single wing averaged over half its area', w.thickness_to_chord * e['A'], 2 * e['tcA'])
    h.eq('sweep', h.tan(w.sweeps.quarter_chord) * L, e['off'])
    h.eq('le sweep', h.tan(w.sweeps.leading_edge) * L, e['offle'])
    h.eq('length', w.total_length, e['offle'] + cs[-1] * w.chords.root)
    if centroid:
        ss = w.single_side_aerodynamic_center; ac = w.aerodynamic_center
        h.eq('side y', ss[1] * e['A'], e['my']); h.eq('side z', ss[2] * e['A'], e['mz'])
        h.eq('side x', ss[0] * e['A'], e['mx'] - e['I2'] / 4)
        h.eq('ac x', ac[0], ss[0]); h.eq('ac z', ac[2], ss[2]); h.eq('ac y', ac[1], 0 if w.symmetric else ss[1])
    return e, n2, L

def _run(h, n, chords=None, offset=False):
    from SUAVE.Methods.Geometry.Two_Dimensional.Planform import wing_segmented_planform
    sym = h.choice('sym', [True, False]); over = h.choice('overwrite', [True, False])
    w, ps, cs = _wing(h, n, sym, chords)
    S0 = 12.5
    w.areas.reference = S0
    wing_segmented_planform(w, overwrite_reference=over)
    _claims(h, w, ps, cs, over, S0)
    h.observe('mac', w.chords.mean_aerodynamic)

@harness('G02', bounds='2 stations (one segment), any span, chords, sweep, dihedral, t/c; symmetric or single; reference overwritten or kept')
def segments1(h): _run(h, 2)
@harness('G02', bounds='3 stations')
def segments2(h): _run(h, 3)
@harness('G02', bounds='3 stations, constant chord inboard segment')
def segments2_constant(h): _run(h, 3, {1: 0})
@harness('G02', bounds='4 stations, constant chord middle segment', weight=2)
def segments3_constant(h): _run(h, 4, {2: 1})
@harness('G02', tier='thorough', bounds='4 stations, all chords free', weight=3)
def segments3(h): _run(h, 4)

@harness('G02', bounds='3 stations with an exposed-root offset; per-segment areas; both branches of the wetted-area rule; areas supplied, zero or updated')
def segment_areas(h):
    from SUAVE.Methods.Geometry.Two_Dimensional.Planform import segment_properties
    sym = h.choice('sym', [True, False]); given = h.choice('given', ['zero', 'set', 'update'])
    w, ps, cs = _wing(h, 3, sym, root=h.real('c0', .3, 1.5))
    n2 = 2 if sym else 1
    L = w.spans.projected / n2; cr = w.chords.root
    w.thickness_to_chord = t = h.real('t', .01, .3)
    d = w.exposed_root_chord_offset = h.real('d', 0, 2)
    h.assume(d < ps[1] * L * .9)
    w.areas.reference, w.areas.wetted = (0., 0.) if given == 'zero' else (7., 9.)
    segment_properties(w, update_wet_areas=(given == 'update'), update_ref_areas=(given == 'update'))
    k = 2.003 if h.decide(t < 0.05) else 1.977 + .52 * t
    totS = totW = 0
    for i in range(2):
        s = w.Segments[i]
        l = (ps[i + 1] - ps[i]) * L; a, b = cs[i] * cr, cs[i + 1] * cr
        h.eq('ref%d' % i, s.areas.reference, n2 * l * (a + b) / 2)
        if i == 0: a = a + (b - a) * d / l; l = l - d
        h.eq('taper%d' % i, s.taper * a, b)
        h.eq('exposed%d' % i, s.areas.exposed, n2 * l * (a + b) / 2)
        h.eq('wet%d' % i, s.areas.wetted, k * n2 * l * (a + b) / 2)
        h.eq('mac%d' % i, s.chords.mean_aerodynamic * (a + b), (a * a + a * b + b * b) * 2 / 3)
        totS = totS + s.areas.reference; totW = totW + s.areas.wetted
    if given == 'set': h.eq('kept', [w.areas.reference, w.areas.wetted], [7., 9.])
    else: h.eq('totals', [w.areas.reference, w.areas.wetted], [totS, totW])

@harness('G02', bounds='any trapezoid: the segmented result for two stations equals the trapezoid formulas')
def agrees_with_trapezoid(h):
    from SUAVE.Methods.Geometry.Two_Dimensional.Planform import wing_segmented_planform, wing_planform
    sym = h.choice('sym', [True, False])
    w, ps, cs = _wing(h, 2, sym)
    wing_segmented_planform(w, overwrite_reference=True)
    v = SUAVE.Components.Wings.Main_Wing(); v.symmetric = sym
    s = w.Segments[0]
    v.areas.reference, v.aspect_ratio, v.taper = w.areas.reference, w.aspect_ratio, w.taper
    v.dihedral, v.thickness_to_chord, v.sweeps.quarter_chord = s.dihedral_outboard, s.thickness_to_chord, s.sweeps.quarter_chord
    if not sym: return  # the trapezoid routine treats its span as two semispans
    wing_planform(v)
    for nm in ('root', 'tip', 'mean_aerodynamic', 'mean_geometric'): h.eq(nm, w.chords[nm], v.chords[nm])
    h.eq('span', w.spans.projected, v.spans.projected); h.eq('total', w.spans.total, v.spans.total)
    h.eq('le', h.tan(w.sweeps.leading_edge), h.tan(v.sweeps.leading_edge)); h.eq('sweep', h.tan(w.sweeps.quarter_chord), h.tan(v.sweeps.quarter_chord))
    h.eq('ac', w.aerodynamic_center, v.aerodynamic_center); h.eq('length', w.total_length, v.total_length)
    h.eq('wetted', w.areas.wetted, v.areas.wetted)
