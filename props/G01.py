"""G01: trapezoidal planforms (wings and tails) are self-consistent."""
from engine.harness import harness
import SUAVE

def _wing(h, cls, sym, vert, sref=None):
    w = cls()
    w.symmetric, w.vertical = sym, vert
    w.areas.reference = h.real('sref', 0.5, 900) if sref is None else sref
    w.aspect_ratio = h.real('ar', 0.5, 30)
    w.taper = h.real('taper', 0.0, 1.5)
    w.sweeps.quarter_chord = h.real('sweep', -1.2, 1.2)
    w.thickness_to_chord = h.real('tc', 0.01, 0.3)
    w.dihedral = h.real('dihedral', -1.2, 1.2)
    return w

def _claims(h, w, S, AR, lam, sw, tc, dih, sym, vert):
    b, cr, ct, mac = w.spans.projected, w.chords.root, w.chords.tip, w.chords.mean_aerodynamic
    h.ge('span.positive', b, 0)
    h.eq('span^2', b * b, AR * S)
    h.eq('area', b * (cr + ct) / 2, S)
    h.eq('tip', ct, lam * cr)
    # MAC = (2/S) int_0^{b/2} c(y)^2 dy for a linear chord
    h.eq('mac', mac * S, b * (cr * cr + cr * ct + ct * ct) / 3)
    h.eq('mgc', w.chords.mean_geometric * b, S)
    h.eq('total span', w.spans.total * h.cos(dih), b)
    tle = h.tan(sw) + (cr - ct) / 4 / (b / 2)
    h.eq('le sweep', h.tan(w.sweeps.leading_edge), tle)
    h.eq('wetted', w.areas.wetted, 2 * S * (1 + 0.2 * tc))
    ybar = (b / 2) * (cr + 2 * ct) / (cr + ct) / 3
    h.eq('ac x', w.aerodynamic_center[0], mac / 4 + ybar * tle)
    y, z = ybar, ybar * h.tan(dih)
    if vert: y, z = z, y
    h.eq('ac y', w.aerodynamic_center[1], 0 if sym else y)
    h.eq('ac z', w.aerodynamic_center[2], z)
    h.eq('length', w.total_length, tle * b / 2 + ct)
    h.observe('b', b); h.observe('xac', w.aerodynamic_center[0])

def _mk(cls, sym, vert):
    return lambda h: _wing(h, cls, sym, vert)

@harness('G01', bounds='any reference area 0.5..900 m2, aspect ratio 0.5..30, taper 0..1.5, sweep and dihedral +-1.2 rad, t/c 0.01..0.3; symmetric/single and horizontal/vertical')
def planform(h):
    from SUAVE.Methods.Geometry.Two_Dimensional.Planform import wing_planform
    sym = h.choice('sym', [True, False]); vert = h.choice('vert', [False, True])
    w = _wing(h, SUAVE.Components.Wings.Main_Wing, sym, vert)
    S, AR, lam, sw, tc, dih = w.areas.reference, w.aspect_ratio, w.taper, w.sweeps.quarter_chord, w.thickness_to_chord, w.dihedral
    wing_planform(w)
    h.eq('inputs kept', [w.areas.reference, w.aspect_ratio, w.taper, w.sweeps.quarter_chord, w.thickness_to_chord, w.dihedral], [S, AR, lam, sw, tc, dih])
    h.eq('affected area without flaps', w.areas.affected, 0)
    _claims(h, w, S, AR, lam, sw, tc, dih, sym, vert)

@harness('G01', bounds='as planform, plus flap span fractions 0..1 (start<end) and chord fraction 0.05..0.6')
def planform_flap(h):
    from SUAVE.Methods.Geometry.Two_Dimensional.Planform import wing_planform
    w = _wing(h, SUAVE.Components.Wings.Main_Wing, True, False)
    S, AR, lam, sw, tc, dih = w.areas.reference, w.aspect_ratio, w.taper, w.sweeps.quarter_chord, w.thickness_to_chord, w.dihedral
    f = SUAVE.Components.Wings.Control_Surfaces.Flap(); f.tag = 'flap'
    e0 = h.real('e0', 0, 1); e1 = h.real('e1', 0, 1); h.assume(e0 < e1)
    cf = h.real('cf', .05, .6)
    f.span_fraction_start, f.span_fraction_end, f.chord_fraction = e0, e1, cf
    w.high_lift = True
    w.append_control_surface(f)
    wing_planform(w)
    _claims(h, w, S, AR, lam, sw, tc, dih, True, False)
    b, cr, ct = w.spans.projected, w.chords.root, w.chords.tip
    c0, c1 = cr + (ct - cr) * e0, cr + (ct - cr) * e1
    # area of the wing strip over the flapped part of both semispans
    strip = (c0 + c1) * (e1 - e0) * b / 2
    h.eq('affected', w.areas.affected, strip)
    h.eq('flap area', f.area, cf * strip)
    h.eq('flap chord', f.chord_dimensional * (c0 + c1), cf * (c0 * c0 + c0 * c1 + c1 * c1) * 2 / 3)
    h.le('affected <= reference', w.areas.affected, S)

@harness('G01', bounds='tail volume coefficients 0.05..2, arms 1..60 m, any main wing span/MAC/area in range')
def tail_volume(h):
    P = __import__('SUAVE.Methods.Geometry.Two_Dimensional.Planform', fromlist=['x'])
    kind = h.choice('kind', ['h', 'v', 'plain'])
    main = SUAVE.Components.Wings.Main_Wing()
    main.spans.projected = h.real('b', 3, 80); main.chords.mean_aerodynamic = h.real('mac', .3, 12); main.areas.reference = h.real('S', 2, 900)
    V = h.real('V', .05, 2); l = h.real('l', 1, 60)
    if kind == 'plain':
        t = _wing(h, SUAVE.Components.Wings.Vertical_Tail, False, True)
        P.vertical_tail_planform(t)
        S = t.areas.reference
    else:
        t = _wing(h, SUAVE.Components.Wings.Horizontal_Tail if kind == 'h' else SUAVE.Components.Wings.Vertical_Tail, kind == 'h', kind == 'v', sref=0.0)
        if kind == 'h':
            P.horizontal_tail_planform_raymer(t, main, l, V)
            h.eq('volume', t.areas.reference * l, V * main.chords.mean_aerodynamic * main.areas.reference)
        else:
            P.vertical_tail_planform_raymer(t, main, l, V)
            h.eq('volume', t.areas.reference * l, V * main.spans.projected * main.areas.reference)
    _claims(h, t, t.areas.reference, t.aspect_ratio, t.taper, t.sweeps.quarter_chord, t.thickness_to_chord, t.dihedral, kind == 'h', kind != 'h')

@harness('G01', bounds='any linear-chord wing; span station within the semispan')
def chord_span_inverse(h):
    from SUAVE.Methods.Geometry.Three_Dimensional import compute_chord_length_from_span_location as c_of_y, compute_span_location_from_chord_length as y_of_c
    w = SUAVE.Components.Wings.Main_Wing()
    w.spans.projected = b = h.real('b', .5, 90); w.chords.root = cr = h.real('cr', .1, 20); w.chords.tip = ct = h.real('ct', .02, 20)
    e = h.real('eta', 0, 1); y = e * b / 2
    c = c_of_y(w, y)
    h.eq('linear', c, cr + (ct - cr) * e)
    h.assume(h.sqrt((cr - ct) * (cr - ct)) > 0.01)
    h.eq('inverse', y_of_c(w, c), y)
    c2 = h.real('c2', .02, 20)
    h.eq('inverse2', c_of_y(w, y_of_c(w, c2)), c2, rtol=1e-5)

@harness('G01', bounds='any span, constant chord (the degenerate inverse)')
def chord_span_constant(h):
    from SUAVE.Methods.Geometry.Three_Dimensional import compute_chord_length_from_span_location as c_of_y, compute_span_location_from_chord_length as y_of_c
    w = SUAVE.Components.Wings.Main_Wing()
    w.spans.projected = b = h.real('b', .5, 90); w.chords.root = w.chords.tip = h.real('cr', .1, 20)
    e = h.real('eta', 0, 1)
    h.eq('constant', c_of_y(w, e * b / 2), w.chords.root)
    y = y_of_c(w, w.chords.root)
    h.ge('on wing', y, 0); h.le('on wing', y, b / 2)

def _le_from(h, sw, frac, lam, ar): return h.tan(sw) + 4 * frac * (1 - lam) / (ar * (1 + lam))

@harness('G01', bounds='any trapezoid; chord fractions 0..1; whole-wing and per-segment conversion, symmetric or single')
def sweep_conversion(h):
    from SUAVE.Methods.Flight_Dynamics.Static_Stability.Approximations.Supporting_Functions.convert_sweep import convert_sweep, convert_sweep_segments
    kind = h.choice('kind', ['wing', 'wing_le', 'eff', 'ext', 'seg', 'segv'])
    f0 = h.real('f0', 0.01, 1); f1 = h.real('f1', 0, 1)
    sw = h.real('sw', -1.2, 1.2)
    w = SUAVE.Components.Wings.Main_Wing()
    if kind.startswith('seg'):
        w.symmetric = kind == 'seg'
        w.chords.root = cr = h.real('cr', .3, 15); w.spans.projected = b = h.real('b', 1, 80)
        a, c = SUAVE.Components.Wings.Segment(), SUAVE.Components.Wings.Segment()
        a.percent_span_location = p0 = h.real('p0', 0, .9); c.percent_span_location = p1 = h.real('p1', .05, 1)
        h.assume(p1 > p0 + .02)
        a.root_chord_percent = r0 = h.real('r0', .1, 1.2); c.root_chord_percent = r1 = h.real('r1', .02, 1.2)
        n = convert_sweep_segments(sw, a, c, w, f0, f1)
        L = (b / 2 if w.symmetric else b) * (p1 - p0)
        # offset of the f-chord point = LE offset + f (c_tip - c_root)
        h.eq('segment', h.tan(n) * L, h.tan(sw) * L + (f0 - f1) * (r0 - r1) * cr)
        h.eq('segment same fraction', convert_sweep_segments(sw, a, c, w, 0.25, 0.25), sw)
        le = convert_sweep_segments(sw, a, c, w, 0.25, 0.0)
        h.eq('segment back', h.tan(convert_sweep_segments(le, a, c, w)), h.tan(sw))
        return
    lam = w.taper = h.real('taper', 0, 1.5); ar = h.real('ar', .5, 30)
    w.aspect_ratio = ar
    if kind == 'eff': w.effective_aspect_ratio = ar; w.aspect_ratio = 1.7
    if kind == 'ext':
        w.extended = SUAVE.Core.Data(); w.extended.aspect_ratio = ar; w.aspect_ratio = 1.7
    w.sweeps.quarter_chord = sw
    if kind == 'wing_le':
        w.sweeps.leading_edge = sw; w.sweeps.quarter_chord = h.real('swq', -1, 1)
        n = convert_sweep(w, 0.0, f1); f = 0
    else:
        n = convert_sweep(w, f0, f1); f = f0
    # semispan b/2 and chords from AR and taper with unit root: b = AR (1+lam)/2
    bs = ar * (1 + lam) / 4
    h.eq('offset', h.tan(n) * bs, h.tan(sw) * bs + (f - f1) * (1 - lam))

@harness('G01', bounds='any trapezoid with an exposed-root offset 0..3 m')
def extend_root(h):
    from SUAVE.Methods.Flight_Dynamics.Static_Stability.Approximations.Supporting_Functions.extend_to_ref_area import extend_to_ref_area
    sym = h.choice('sym', [True, False]); exp = h.choice('exposed', [True, False])
    w = SUAVE.Components.Wings.Main_Wing(); w.symmetric = sym
    b = h.real('b', 2, 80); cr = h.real('cr', .5, 15); ct = h.real('ct', .1, 15); d = h.real('d', 0, 3); sw = h.real('sw', -1, 1)
    if exp: w.spans.exposed = b; w.spans.projected = 3.21
    else: w.spans.projected = b
    w.chords.root, w.chords.tip, w.exposed_root_chord_offset, w.sweeps.quarter_chord = cr, ct, d, sw
    w.origin = [h.real('x0', -5, 40), 0., 0.]
    x0 = w.origin[0]
    r = extend_to_ref_area(w).extended
    s = b / 2 if sym else b
    h.eq('semispan', r.spans.projected / (2 if sym else 1), s + d)
    c = cr + (cr - ct) / s * d      # straight extension of the edges inboard
    h.eq('root', r.chords.root, c)
    n = 2 if sym else 1
    h.eq('area', r.areas.reference, n * (s + d) * (c + ct) / 2)
    h.eq('ar', r.aspect_ratio * r.areas.reference, r.spans.projected * r.spans.projected)
    h.eq('dx', r.root_LE_change, -d * h.tan(sw)); h.eq('origin', r.origin[0], x0 - d * h.tan(sw))
    h.eq('original kept', [w.origin[0], w.chords.root], [x0, cr])

@harness('G01', bounds='given and missing mean/root/tip chords; any taper, symmetric wing')
def trapezoid_ac(h):
    from SUAVE.Methods.Flight_Dynamics.Static_Stability.Approximations.Supporting_Functions import trapezoid_ac_x, trapezoid_mac
    w = SUAVE.Components.Wings.Main_Wing()
    kind = h.choice('given', ['none', 'root', 'both', 'mac'])
    S = w.areas.reference = h.real('S', 1, 900); b = w.spans.projected = h.real('b', 1, 80); lam = w.taper = h.real('taper', 0.02, .98)
    sw = w.sweeps.quarter_chord = h.real('sw', -1, 1)
    cr = 2 * S / b / (1 + lam)
    if kind in ('root', 'both', 'mac'): w.chords.root = cr
    if kind in ('both', 'mac'): w.chords.tip = cr * lam
    if kind == 'mac': w.chords.mean_aerodynamic = cr * (1 + lam + lam * lam) / (1 + lam) * 2 / 3
    mac = trapezoid_mac(w)
    h.eq('mac', mac * S, b * cr * cr * (1 + lam + lam * lam) / 3)
    ybar = b / 6 * (1 + 2 * lam) / (1 + lam)
    h.eq('x', trapezoid_ac_x(w), ybar * h.tan(sw) + mac / 4)
