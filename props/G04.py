"""G04: bodies, origins and internal volumes."""
from engine.harness import harness
import SUAVE
from math import pi

def _fus(h):
    f = SUAVE.Components.Fuselages.Fuselage()
    f.number_coach_seats = h.real('seats', 1, 900); f.seat_pitch = h.real('pitch', .5, 2); f.seats_abreast = h.choice('abreast', [1, 6])
    f.fineness.nose = h.real('fn', .3, 4); f.fineness.tail = h.real('ft', .3, 5)
    f.lengths.fore_space = h.real('fore', 0, 10); f.lengths.aft_space = h.real('aft', 0, 10)
    f.width = h.real('w', .3, 12); f.heights.maximum = h.real('hh', .3, 12)
    return f

def _areas(h, f):
    a, b = f.width / 2, f.heights.maximum / 2
    h.eq('front area', f.areas.front_projected, pi * a * b)
    # wetted area: a cylinder over the cabin plus three quarters of the enclosing cylinder over nose and tail
    R = (a - b) / (a + b)
    C = pi * (a + b) * (1 + 3 * R * R / (10 + h.sqrt(4 - 3 * R * R)))      # Ramanujan's ellipse perimeter
    h.eq('wetted', f.areas.wetted, C * f.lengths.cabin + .75 * pi * f.effective_diameter * (f.lengths.nose + f.lengths.tail))

@harness('G04', bounds='any elliptical section 0.3..12 m: perimeter and effective diameter lie between the exact bounds', q=15)
def fuselage_perimeter(h):
    from SUAVE.Methods.Geometry.Two_Dimensional.Planform import fuselage_planform
    f = _fus(h); f.fineness.nose = f.fineness.tail = 0.; f.lengths.total = 0.
    f.lengths.fore_space = 1.; f.lengths.aft_space = 0.; f.number_coach_seats = 0.
    fuselage_planform(f)
    a, b = f.width / 2, f.heights.maximum / 2
    C, D = f.areas.wetted / f.lengths.cabin, f.effective_diameter
    h.eq('front area', f.areas.front_projected, pi * a * b)
    h.ge('diameter low', D, a + b); h.le('diameter high', D * D, 2 * (a * a + b * b), rtol=1e-4)
    h.ge('perimeter low', C, pi * (a + b)); h.le('perimeter high', C * C, pi * pi * 2 * (a * a + b * b), rtol=1e-4)

@harness('G04', bounds='any seat count/pitch/fineness/extra lengths, elliptical section 0.3..12 m; total length not given', q=12)
def fuselage_from_seats(h):
    from SUAVE.Methods.Geometry.Two_Dimensional.Planform import fuselage_planform
    f = _fus(h); s, p, ab, fo, af = f.number_coach_seats, f.seat_pitch, f.seats_abreast, f.lengths.fore_space, f.lengths.aft_space
    f.lengths.total = 0.
    fuselage_planform(f)
    h.eq('nose', f.lengths.nose, f.fineness.nose * f.width); h.eq('tail', f.lengths.tail, f.fineness.tail * f.width)
    h.eq('cabin', f.lengths.cabin, s * p / ab + fo + af)
    h.eq('sum', f.lengths.total, f.lengths.nose + f.lengths.tail + f.lengths.cabin)
    h.eq('seats', f.number_coach_seats, s)
    _areas(h, f)

@harness('G04', bounds='total length given, cabin between 1.01 m and 80 m', q=12)
def fuselage_from_length(h):
    from SUAVE.Methods.Geometry.Two_Dimensional.Planform import fuselage_planform
    f = _fus(h)
    cab = h.real('cab', 1.01, 30)
    L = f.fineness.nose * f.width + f.fineness.tail * f.width + cab
    f.lengths.total = L
    fuselage_planform(f)
    h.eq('nose', f.lengths.nose, f.fineness.nose * f.width); h.eq('tail', f.lengths.tail, f.fineness.tail * f.width)
    h.eq('cabin', f.lengths.cabin, cab); h.eq('total', f.lengths.total, L)
    # seats: the nearest whole number that fits the cabin
    x = cab * f.seats_abreast / f.seat_pitch
    h.le('seats near', f.number_coach_seats, x + .5); h.ge('seats near2', f.number_coach_seats, x - .5)
    _areas(h, f)

@harness('G04', bounds='circular sections: exact areas')
def fuselage_circular(h):
    from SUAVE.Methods.Geometry.Two_Dimensional.Planform import fuselage_planform
    f = _fus(h); f.heights.maximum = f.width; f.lengths.total = 0.
    fuselage_planform(f)
    d = f.width
    h.eq('diameter', f.effective_diameter, d); h.eq('front', f.areas.front_projected, pi * d * d / 4)
    h.eq('wetted', f.areas.wetted, pi * d * (f.lengths.cabin + .75 * (f.lengths.nose + f.lengths.tail)))

def _veh(h, fus):
    v = SUAVE.Vehicle()
    w = SUAVE.Components.Wings.Main_Wing(); w.tag = 'main_wing'; w.origin = [[h.real('wx', -5, 50), h.real('wy', -5, 5), h.real('wz', -5, 5)]]
    v.append_component(w)
    t = SUAVE.Components.Wings.Vertical_Tail(); t.origin = [[h.real('tx', -5, 50), 0., h.real('tz', -5, 5)]]
    v.append_component(t)
    if fus:
        f = SUAVE.Components.Fuselages.Fuselage(); f.tag = 'fuselage'; f.lengths.total = h.real('L', .5, 90); f.origin = [[h.real('fx', -5, 5), 0., h.real('fz', -2, 2)]]
        v.append_component(f)
        b = SUAVE.Components.Fuselages.Fuselage(); b.tag = 'boom'; b.lengths.total = h.real('Lb', .5, 90); b.origin = [[h.real('bx', -5, 5), h.real('by', -9, 9), 0.]]
        v.append_component(b)
    return v

@harness('G04', bounds='wings, fuselage and a network with 1..4 engines at any position; length scale 0.5..90 m or absent')
def origins_round_trip(h):
    from SUAVE.Methods.Geometry.Two_Dimensional.Planform.rescale_non_dimensional import set_origin_non_dimensional, set_origin_dimensional
    fus = h.choice('fuselage', [True, False])
    n = h.choice('engines', [0, 1, 2, 3, 4])
    v = _veh(h, fus)
    ex, ey, ez = h.real('ex', 0, 40), h.real('ey', .1, 20), h.real('ez', -5, 5)
    if n:
        net = SUAVE.Components.Energy.Networks.Turbofan(); net.tag = 'net'; net.number_of_engines = n
        net.origin = [[ex, (-ey if i % 2 else (0. if i == n - 1 else ey)), ez] for i in range(n)] if n != 1 else [[ex, 0., ez]]
        net.non_dimensional_origin = []
        v.networks.append(net)
        o_n = [list(o) for o in net.origin]
    ow = [list(w.origin[0]) for w in v.wings]; of = [list(f.origin[0]) for f in v.fuselages]
    set_origin_non_dimensional(v)
    sc = v.fuselages.fuselage.lengths.total if fus else 1.
    for w, o in zip(v.wings, ow): h.eq('scaled', [x * sc for x in w.non_dimensional_origin[0]], o)
    for f, o in zip(v.fuselages, of): h.eq('scaled f', [x * sc for x in f.non_dimensional_origin[0]], o)
    if n:
        h.true('count', len(v.networks.net.non_dimensional_origin) == n)
        for a, o in zip(v.networks.net.non_dimensional_origin, o_n): h.eq('scaled n', [x * sc for x in a], o)
    for w in v.wings: w.origin = [[0., 0., 0.]]
    for f in v.fuselages: f.origin = [[0., 0., 0.]]
    set_origin_dimensional(v)
    for w, o in zip(v.wings, ow): h.eq('wing', w.origin[0], o)
    for f, o in zip(v.fuselages, of): h.eq('fuselage', f.origin[0], o)
    if n:
        for a, o in zip(v.networks.net.origin, o_n): h.eq('engine', a, o)

@harness('G04', bounds='fuselage of length L1 rescaled to L2: every origin scales')
def origins_rescale(h):
    from SUAVE.Methods.Geometry.Two_Dimensional.Planform.rescale_non_dimensional import set_origin_non_dimensional, set_origin_dimensional
    v = _veh(h, True); L1 = v.fuselages.fuselage.lengths.total
    ow = [list(w.origin[0]) for w in v.wings]
    set_origin_non_dimensional(v)
    L2 = h.real('L2', .5, 90); v.fuselages.fuselage.lengths.total = L2
    set_origin_dimensional(v)
    for w, o in zip(v.wings, ow): h.eq('wing', [x * L1 for x in w.origin[0]], [x * L2 for x in o])

@harness('G04', bounds='any tapered wing with NACA 4-series section, camber 0..0.09, camber position 0.2..0.55 (linear taper: box volume is the exact frustum)')
def naca_volume(h):
    from SUAVE.Methods.Geometry.Three_Dimensional import estimate_naca_4_series_internal_volume as vol
    m = h.real('m', 0, .09); p = h.real('p', .2, .55)
    t = h.real('t', .03, .25); cr = h.real('cr', .3, 12); ct = h.real('ct', .1, 12); b = h.real('b', 1, 70)
    def V(r, k):
        w = SUAVE.Components.Wings.Main_Wing()
        w.thickness_to_chord, w.chords.root, w.chords.tip, w.spans.projected, w.taper = t, r, k, b, k / r
        return vol(w, m, p)
    v = V(cr, ct)
    h.eq('frustum', v * 3 * cr * cr, V(cr, cr) * (cr * cr + cr * ct + ct * ct))
    h.ge('positive', V(cr, cr), 0)
    # as found: the lower front spar at mid span is drawn with the slope of the upper surface
    a = h.cos(h.atan(2 * m / (p * p) * (p - .1))) * 5 * t * (.2969 * .1 ** .5 - .0126 - .003516 + .0002843 - .00001015)
    h.eq('as found: mid-span lower spar', (v - b / 3 * (cr - ct) * (-a) * (cr + ct) / 2 * .5) * 3 * cr * cr, V(cr, cr) * (cr * cr + cr * ct + ct * ct))
    # the box is smaller than its bounding slab: thickest point t*c, half the chord
    h.le('bounded', V(cr, cr), b * t * cr * cr / 2 * 1.001)

@harness('G04', bounds='any wing: fuel volume scales with area^1.5, is linear in t/c and never exceeds the geometric volume t/c*S*mean chord')
def fuel_volume(h):
    from SUAVE.Methods.Geometry.Two_Dimensional.Planform.wing_fuel_volume import wing_fuel_volume
    w = SUAVE.Components.Wings.Main_Wing()
    S = w.areas.reference = h.real('S', 1, 900); A = w.aspect_ratio = h.real('A', 1, 30); t = w.thickness_to_chord = h.real('t', .02, .25)
    wing_fuel_volume(w); v = w.fuel_volume
    h.ge('positive', v, 0); h.le('bounded', v * v * A, (t * S) * (t * S) * S)
    k = h.real('k', .1, 10); w.areas.reference = S * k * k; wing_fuel_volume(w)
    h.eq('similar', w.fuel_volume, v * k * k * k)
    w.areas.reference = S; w.thickness_to_chord = t * k; wing_fuel_volume(w); h.eq('linear', w.fuel_volume, v * k)
    w.thickness_to_chord = t; w.aspect_ratio = A * k * k; wing_fuel_volume(w); h.eq('slender', w.fuel_volume * k, v)
