"""A01: the drag coefficient is the sum of every component's contribution, each in its own way correct."""
from engine.harness import harness
from engine.swap import swapped
import SUAVE, numpy as np, importlib
from SUAVE.Core import Data
from props.E01 import col
D_ = 'SUAVE.Methods.Aerodynamics.Common.Fidelity_Zero.Drag.'
H_ = 'SUAVE.Methods.Aerodynamics.Common.Fidelity_Zero.Helper_Functions.'
def mod(n): return importlib.import_module(n)
PW, PF, PN, PP, PT = [mod(D_ + x) for x in ('parasite_drag_wing', 'parasite_drag_fuselage', 'parasite_drag_nacelle', 'parasite_drag_pylon', 'parasite_total')]
ID, CW, CT, MI, TR, SP, UT, TA = [mod(D_ + x) for x in ('induced_drag_aircraft', 'compressibility_drag_wing', 'compressibility_drag_wing_total', 'miscellaneous_drag_aircraft_ESDU', 'trim', 'spoiler_drag', 'untrimmed', 'total_aircraft')]
MX, TB = mod(H_ + 'compressible_mixed_flat_plate'), mod(H_ + 'compressible_turbulent_flat_plate')

def wing(h, tag='main_wing', cls=None, sweep=None, seg=0):
    w = (cls or SUAVE.Components.Wings.Main_Wing)(); w.tag = tag
    w.areas.reference = h.real('S_' + tag, 1, 500); w.aspect_ratio = h.real('AR_' + tag, 1, 20); w.thickness_to_chord = h.real('tc_' + tag, .02, .2)
    w.sweeps.quarter_chord = sweep if sweep is not None else h.real('sw_' + tag, -.3, 1.); w.areas.wetted = h.real('Sw_' + tag, 1, 1000)
    return w
def fuse(h, tag='fuselage'):
    f = SUAVE.Components.Fuselages.Fuselage(); f.tag = tag; f.areas.front_projected = h.real('Sf_' + tag, .1, 60); f.areas.wetted = h.real('Swf_' + tag, 1, 2000); f.lengths.total = h.real('l_' + tag, 5, 90); f.effective_diameter = h.real('d_' + tag, .5, 4.5)
    return f
def nac(h, tag='nacelle', n=1):
    a = SUAVE.Components.Nacelles.Nacelle(); a.tag = tag; a.diameter = h.real('dn_' + tag, .2, 4); a.length = h.real('ln_' + tag, .5, 6); a.areas.wetted = h.real('Swn_' + tag, .5, 60); a.origin = [[0., 0., 0.]] * n
    return a
def state(h, M, extra=None):
    n = len(M); c = Data(); f = c.freestream = Data(); f.mach_number = col(h, M); f.temperature = col(h, [h.real('Tinf%d' % i, 200, 320) for i in range(n)]); f.reynolds_number = col(h, [h.real('Re%d' % i, 1e5, 2e7) for i in range(n)])
    a = c.aerodynamics = Data(lift_breakdown=Data(), drag_breakdown=Data()); b = a.drag_breakdown; b.parasite = Data(); b.compressible = Data(); b.induced = Data()
    return Data(conditions=c)

class Friction(object):
    """any skin friction, compressibility and Reynolds factors; remembers what it was asked"""
    def __init__(self, h, n, tag=''): self.h, self.n, self.calls, self.tag = h, n, [], tag
    def __call__(self, Re, M, T, xt=None):
        k = len(self.calls); g = lambda s, a, b: col(self.h, [self.h.real('%s%s%d_%d' % (s, self.tag, k, i), a, b) for i in range(self.n)])
        r = g('cf', .0005, .02), g('kc', .3, 1), g('kr', .3, 1)
        self.calls.append((Re, M, T, xt, r)); return r

def turb(h, re): return .455 / h.pow(h.log10(re), 2.58)

@harness('A01', bounds='skin friction: any Reynolds number 1e5..1e9, Mach 0..5, temperature; transition at any station', q=20)
def friction(h):
    n = 2; re = [h.real('re%d' % i, 1e5, 1e9) for i in range(n)]; M = [h.real('M%d' % i, 0, 5) for i in range(n)]; Tc = [h.real('T%d' % i, 180, 330) for i in range(n)]
    xt = h.choice('xt', ['turbulent', 0., 'free', 1.])
    x = h.real('x', .05, .95) if xt == 'free' else xt
    if xt == 'turbulent': cf, kc, kr = TB.compressible_turbulent_flat_plate(col(h, re), col(h, M), col(h, Tc))
    else: cf, kc, kr = MX.compressible_mixed_flat_plate(col(h, re), col(h, M), col(h, Tc), x)
    for i in range(n):
        if xt in ('turbulent', 0.): inc = turb(h, re[i])
        else:
            # momentum thickness of the laminar run, and the turbulent run with the same
            th = .671 * x / h.pow(re[i] * x, .5); xe = h.pow(27.78 * th * h.pow(re[i], .2), 1.25)
            inc = 1.328 / h.pow(re[i] * x, .5) * x + turb(h, re[i] * (1 - x + xe)) * (1 - x + xe) - turb(h, re[i] * xe) * xe
        Tw = 1 + .178 * M[i] ** 2; Td = 1 + .035 * M[i] ** 2 + .45 * (Tw - 1)
        h.eq('reference temperature', kc[i, 0] * Td, 1.); h.eq('friction', cf[i, 0], inc * kc[i, 0] * kr[i, 0], rtol=1e-5)
        h.le('hot wall', kc[i, 0], 1.); h.eq('reynolds factor', h.pow(kr[i, 0], 5.) * h.pow(Td, 1.5) * (Td * Tc[i] + 216), Tc[i] + 216, rtol=1e-5)

def blend(h, M, a, b):
    e = (M - a) / (b - a)
    return 1. if h.decide(e < 0) else (0. if h.decide(e > 1) else 2 * e ** 3 - 3 * e * e + 1)

@harness('A01', bounds='unsegmented wing: any planform, thickness, sweep, exposed root offset, transition on either side; Mach 0..2.5 over two points', q=20, weight=2)
def wing_parasite(h):
    lo = h.choice('Mach', ['subsonic', 'blend']); M = [h.real('M0', 0, .95), h.real('M1', 1.01, 2.5)] if lo == 'subsonic' else [h.real('M0', .951, .999), h.choice('M1', [.97, 1.])]
    w = wing(h, cls=h.choice('wing', [SUAVE.Components.Wings.Main_Wing, SUAVE.Components.Wings.Vertical_Tail])); st = state(h, M); rec = h.choice('recalculate', [False, True]); C = h.real('C', .8, 1.3)
    cr, ct, b, off = w.chords.root, w.chords.tip, w.spans.projected, w.exposed_root_chord_offset = h.real('cr', 1, 12), h.real('ct', .1, 8), h.real('b', 3, 70), h.real('off', 0, 1)
    w.chords.mean_aerodynamic = mac = h.real('mac', .5, 10); w.transition_x_upper, w.transition_x_lower = .3, .1
    h.assume(off * 6 <= b); h.assume(2 * off * cr < .9 * w.areas.reference); h.assume(ct <= cr); sym = w.symmetric; sw0 = w.areas.wetted; tc, S, th = w.thickness_to_chord, w.areas.reference, w.sweeps.quarter_chord
    with swapped(MX.compressible_mixed_flat_plate, Friction(h, 2)) as F: cd = PW.parasite_drag_wing(st, Data(wing_parasite_drag_form_factor=C, recalculate_total_wetted_area=rec), w)
    r = st.conditions.aerodynamics.drag_breakdown.parasite[w.tag]
    h.true('both sides', sorted([c[3] for c in F.calls]) == [.1, .3])
    # exposed area: the reference area less the covered trapezoids
    if rec:
        c1 = cr + off * (ct - cr) / b
        se = S - (1. if sym else .5) * (cr + c1) * off; h.eq('wetted', w.areas.wetted, 2.003 * se if h.decide(tc < .05) else (1.977 + .52 * tc) * se)
    else: h.eq('wetted kept', w.areas.wetted, sw0)
    cs = h.cos(th)
    for i in range(2):
        up, dn = [c for c in F.calls if c[3] == .3][0], [c for c in F.calls if c[3] == .1][0]
        for c in (up, dn): h.eq('chord Reynolds number', c[0][i, 0], st.conditions.freestream.reynolds_number[i, 0] * mac); h.eq('asked', [c[1][i, 0], c[2][i, 0]], [M[i], st.conditions.freestream.temperature[i, 0]])
        cf = (up[4][0][i, 0] + dn[4][0][i, 0]) / 2
        k = 1.
        if i == 0 or lo == 'blend':
            if h.decide(M[i] <= 1):
                q = 1 - M[i] * M[i] * cs * cs; k = 1 + 2 * C * tc * cs * cs / h.sqrt(q) + C * C * cs * cs * tc * tc * (1 + 5 * cs * cs) / (2 * q)
                s = blend(h, M[i], .95, 1.); k = k * s + 1 - s
        h.eq('form factor', r.form_factor[i, 0], k); h.eq('drag', cd[i, 0] * S, k * cf * w.areas.wetted); h.eq('friction', r.skin_friction_coefficient[i, 0], cf)
        h.eq('recorded', r.parasite_drag_coefficient[i, 0], cd[i, 0]); h.eq('factors', [r.compressibility_factor[i, 0], r.reynolds_factor[i, 0]], [(up[4][1][i, 0] + dn[4][1][i, 0]) / 2, (up[4][2][i, 0] + dn[4][2][i, 0]) / 2])

@harness('A01', bounds='segmented wing: three sections with any areas, chords, sample sweeps; any wing thickness; Mach 0.3, 0.82', q=20)
def segmented_parasite(h):
    w = wing(h); M = [h.choice('M0', [.3, .82])]; st = state(h, M); C = h.real('C', .8, 1.3)
    w.transition_x_upper, w.transition_x_lower = .3, .1; g = []
    for i in range(3):
        s = SUAVE.Components.Wings.Segment(); s.tag = 's%d' % i; s.thickness_to_chord = h.real('tcs%d' % i, .02, .2); s.chords.mean_aerodynamic = h.real('macs%d' % i, .3, 9); s.areas.reference = h.real('Ss%d' % i, .5, 100); s.areas.wetted = h.real('Sws%d' % i, 1, 220); s.sweeps.quarter_chord = h.choice('sw', [.3, -.2]) if i == 0 else .5
        w.append_segment(s); g.append(s)
    S = w.areas.reference
    with swapped(MX.compressible_mixed_flat_plate, Friction(h, 1)) as F: cd = PW.parasite_drag_wing(st, Data(wing_parasite_drag_form_factor=C, recalculate_total_wetted_area=False), w)
    h.eq('calls', len(F.calls), 4); tot = 0; fr = 0; kk = 0
    for j in range(2):
        s = g[j]; cs = h.cos(s.sweeps.quarter_chord); q = 1 - M[0] ** 2 * cs * cs; tc = w.thickness_to_chord
        k = 1 + 2 * C * tc * cs * cs / h.sqrt(q) + C * C * cs * cs * tc * tc * (1 + 5 * cs * cs) / (2 * q); c = F.calls[2 * j:2 * j + 2]
        for x in c: h.eq('Reynolds', x[0][0, 0], st.conditions.freestream.reynolds_number[0, 0] * s.chords.mean_aerodynamic)
        cf = (c[0][4][0][0, 0] + c[1][4][0][0, 0]) / 2; tot += k * cf * s.areas.wetted; kk += k * s.areas.reference; fr += cf * s.areas.reference
    r = st.conditions.aerodynamics.drag_breakdown.parasite[w.tag]
    h.eq('drag', cd[0, 0] * S, tot); h.eq('form', r.form_factor[0, 0] * S, kk); h.eq('friction', r.skin_friction_coefficient[0, 0] * S, fr)

@harness('A01', bounds='fuselage: any length, diameter (slender), Mach 0..2 over two points', q=20)
def fuselage_parasite(h):
    M = [h.real('M0', 0, .94), h.real('M1', .951, 2)]; st = state(h, M); f = fuse(h); C = h.real('C', 1, 3)
    h.assume(f.effective_diameter * 3 <= f.lengths.total)
    with swapped(TB.compressible_turbulent_flat_plate, Friction(h, 2)) as F: cd = PF.parasite_drag_fuselage(st, Data(fuselage_parasite_drag_form_factor=C), f)
    r = st.conditions.aerodynamics.drag_breakdown.parasite[f.tag]; d = f.effective_diameter / f.lengths.total
    for i in range(2):
        b2 = 1 - M[i] ** 2 if i == 0 else 1.; D = h.sqrt(1 - b2 * d * d); a = 2 * b2 * d * d * (.5 * (h.log(1 + D) - h.log(1 - D)) - D) / D ** 3; u = a / ((2 - a) * h.sqrt(b2)) if i == 0 else a / (2 - a)
        k = (1 + C * u) ** 2
        h.eq('form factor', r.form_factor[i, 0], k, rtol=1e-5); h.eq('drag', cd[i, 0] * f.areas.front_projected, r.form_factor[i, 0] * F.calls[0][4][0][i, 0] * f.areas.wetted); h.eq('recorded', r.parasite_drag_coefficient[i, 0], cd[i, 0])
        h.eq('length Reynolds number', F.calls[0][0][i, 0], st.conditions.freestream.reynolds_number[i, 0] * f.lengths.total); h.eq('asked', [F.calls[0][1][i, 0], F.calls[0][2][i, 0]], [M[i], st.conditions.freestream.temperature[i, 0]])

@harness('A01', bounds='one or two nacelle types and their pylons: any sizes', q=15)
def nacelle_parasite(h):
    M = [h.real('M0', 0, .94)]; st = state(h, M); n = h.choice('count', [1, 2]); ns = [nac(h, 'n%d' % i) for i in range(n)]; v = SUAVE.Vehicle(); v.reference_area = S = h.real('Sref', 10, 500)
    for a in ns: v.append_component(a)
    v.append_component(SUAVE.Components.Energy.Networks.Turbofan())
    b = st.conditions.aerodynamics.drag_breakdown.parasite; py = 0
    for a in ns:
        with swapped(TB.compressible_turbulent_flat_plate, Friction(h, 1, a.tag)) as F: cd = PN.parasite_drag_nacelle(st, Data(), a)
        k = 1 + .35 * a.diameter / a.length; A = np.pi * a.diameter ** 2 / 4
        h.eq('drag', cd[0, 0] * A, k * F.calls[0][4][0][0, 0] * a.areas.wetted); h.eq('Reynolds', F.calls[0][0][0, 0], st.conditions.freestream.reynolds_number[0, 0] * a.length); h.eq('form', b[a.tag].form_factor, k); h.eq('recorded', b[a.tag].parasite_drag_coefficient[0, 0], cd[0, 0])
        py += .2 * cd[0, 0] * A
    cp = PP.parasite_drag_pylon(st, Data(), v)
    h.eq('pylon', cp[0, 0] * S, py); h.eq('pylon recorded', b.pylon.parasite_drag_coefficient[0, 0] * S, py); h.eq('pylon wetted', b.pylon.wetted_area, sum([.2 * a.areas.wetted for a in ns]))

@harness('A01', bounds='aircraft of two wings, two fuselages, two nacelles with any component coefficients; any trim factor, spoiler, increments; evaluated twice', q=15, weight=2)
def totals(h):
    v = SUAVE.Vehicle(); v.reference_area = S = h.real('Sref', 10, 500); n = 2
    ws = [wing(h, 'main_wing', sweep=.3), wing(h, 'tail', SUAVE.Components.Wings.Horizontal_Tail, .4)]; fs = [fuse(h), fuse(h, 'boom')]; ns = [nac(h, 'n0'), nac(h, 'n1', 2)]; bwb = h.choice('bwb', [False, True])
    if bwb: fs.append(fuse(h, 'fuselage_bwb'))
    for x in ws + fs + ns: v.append_component(x)
    r = lambda s, k: col(h, [h.real('%s_%d_%d' % (s, k, i), 0, .05) for i in range(n)])
    se = Data(); se.drag_coefficient_increment, se.trim_drag_correction_factor, se.spoiler_drag_increment, se.lift_to_drag_adjustment = h.real('inc', 0, .01), h.real('trim', 1, 1.2), h.real('spoil', 0, .1), h.real('ld', -.3, .5)
    st = state(h, [.3] * n); a = st.conditions.aerodynamics; b = a.drag_breakdown
    for k in range(2):
        tot = [0] * n; comp = [0] * n
        for x, A in [(w, w.areas.reference) for w in ws] + [(f, f.areas.front_projected) for f in fs] + [(q, np.pi * q.diameter ** 2 / 4) for q in ns]:
            c = r('cdp' + x.tag, k); b.parasite[x.tag] = Data(parasite_drag_coefficient=c); e = [c[i, 0] * A for i in range(n)]
            if x.tag != 'fuselage_bwb': tot = [p + q for p, q in zip(tot, e)]
            x._e = e
        pyl = r('pylon', k); b.parasite.pylon = Data(parasite_drag_coefficient=pyl)
        PT.parasite_total(st, se, v)
        for i in range(n):
            h.eq('parasite total', b.parasite.total[i, 0] * S, tot[i] + pyl[i, 0] * S)
            for x in ws + fs[:2] + ns: h.eq('referred to the aircraft', b.parasite[x.tag].parasite_drag_coefficient[i, 0] * S, x._e[i])
        for w in ws:
            c = r('cdc' + w.tag, k); b.compressible[w.tag] = Data(compressibility_drag=c)
            comp = [comp[i] + c[i, 0] * w.areas.reference for i in range(n)]
        CT.compressibility_drag_wing_total(st, se, v)
        ind = b.induced.total = r('cdi', k); MI.miscellaneous_drag_aircraft_ESDU(st, se, v)
        sw = 1.1 * (sum([w.areas.wetted for w in ws]) + sum([f.areas.wetted for f in fs]) + ns[0].areas.wetted + 2 * ns[1].areas.wetted)
        UT.untrimmed(st, se, v); TR.trim(st, se, v); SP.spoiler_drag(st, se, v); cd = TA.total_aircraft(st, se, v)
        for i in range(n):
            h.eq('compressibility', b.compressible.total[i, 0] * S, comp[i]); h.eq('excrescence', b.miscellaneous.total[i, 0] * S, .4 * (.0184 + .000469 * sw - 1.13e-7 * sw * sw))
            u = tot[i] / S + pyl[i, 0] + comp[i] / S + ind[i, 0] + b.miscellaneous.total[i, 0]
            h.eq('untrimmed', b.untrimmed[i, 0], u); h.eq('trim', b.trim_corrected_drag[i, 0], u * se.trim_drag_correction_factor)
            h.eq('total', cd[i, 0] * (1 + se.lift_to_drag_adjustment), u * se.trim_drag_correction_factor + se.spoiler_drag_increment + se.drag_coefficient_increment); h.eq('stored', [b.total[i, 0], a.drag_coefficient[i, 0]], [cd[i, 0]] * 2)

@harness('A01', bounds='induced drag of two wings: any lift and inviscid drag, with and without given Oswald or span efficiency', q=20)
def induced(h):
    v = SUAVE.Vehicle(); v.reference_area = S = h.real('Sref', 10, 500); n = 2; ws = [wing(h, 'main_wing', sweep=.3), wing(h, 'tail', SUAVE.Components.Wings.Horizontal_Tail, .4)]
    for w in ws: v.append_component(w)
    mode = h.choice('given', ['nothing', 'span', 'oswald']); st = state(h, [.3] * n); a = st.conditions.aerodynamics; b = a.drag_breakdown
    r = lambda s, lo, hi: col(h, [h.real('%s_%d' % (s, i), lo, hi) for i in range(n)])
    CL = a.lift_coefficient = r('CL', .05, 2); a.lift_breakdown.inviscid_wings = Data(); b.induced.inviscid_wings = Data(); ci = b.induced.inviscid = r('cdi', 0, .1); cl, cdi, cdp = {}, {}, {}
    for w in ws:
        cl[w.tag] = a.lift_breakdown.inviscid_wings[w.tag] = r('cl' + w.tag, -1, 2); cdi[w.tag] = b.induced.inviscid_wings[w.tag] = r('cdi' + w.tag, .001, .1); cdp[w.tag] = r('cdp' + w.tag, .001, .05); b.parasite[w.tag] = Data(parasite_drag_coefficient=cdp[w.tag], reference_area=w.areas.reference)
    K = h.real('K', .2, .6); es = h.real('es', .6, 1); e = h.real('e', .6, 1)
    t = ID.induced_drag_aircraft(st, Data(viscous_lift_dependent_drag_factor=K, oswald_efficiency_factor=e if mode == 'oswald' else None, span_efficiency=es if mode == 'span' else None), v)
    big = ws[0] if h.decide(ws[0].areas.reference >= ws[1].areas.reference) else ws[1]
    for i in range(n):
        if mode == 'oswald': h.eq('total', t[i, 0] * np.pi * big.aspect_ratio * e, CL[i, 0] ** 2); h.eq('viscous', b.induced.viscous[i, 0], t[i, 0] - ci[i, 0]); h.eq('factor', b.induced.oswald_efficiency_factor, e)
        else:
            vis = sum([K * cdp[w.tag][i, 0] * cl[w.tag][i, 0] ** 2 * w.areas.reference for w in ws])
            inv = sum([(cdi[w.tag][i, 0] if mode == 'nothing' else cl[w.tag][i, 0] ** 2 / (np.pi * w.aspect_ratio * es)) * w.areas.reference for w in ws])
            h.eq('total', t[i, 0] * S, vis + inv); h.eq('viscous', b.induced.viscous[i, 0] * S, vis)
            for w in ws: h.eq('wing viscous', b.induced.viscous_wings_drag[w.tag][i, 0], K * cdp[w.tag][i, 0] * cl[w.tag][i, 0] ** 2)
            h.eq('oswald', b.induced.oswald_efficiency_factor[i, 0] * np.pi * big.aspect_ratio * t[i, 0], CL[i, 0] ** 2)
        h.eq('recorded', b.induced.total[i, 0], t[i, 0])

@harness('A01', bounds='wing compressibility drag: any thickness, lift, sweep; Mach 0.05..1.2', q=20)
def compressibility(h):
    M = [h.real('M0', .05, 1.2), h.real('M1', .05, 1.2)]; st = state(h, M); w = wing(h); a = st.conditions.aerodynamics
    cl = [h.real('cl', -.5, 1.2)] * 2; a.lift_breakdown.compressible_wings = Data(); a.lift_breakdown.compressible_wings[w.tag] = col(h, cl)
    h.assume(w.thickness_to_chord <= .16); h.assume(w.sweeps.quarter_chord >= -.1); h.assume(w.sweeps.quarter_chord <= .7)
    CW.compressibility_drag_wing(st, Data(), w); r = a.drag_breakdown.compressible[w.tag]; cs = h.cos(w.sweeps.quarter_chord)
    for i in range(2):
        t, c = w.thickness_to_chord / cs, cl[i] / cs ** 2
        mcc = (.922321524499352 - 1.153885166170620 * t - .304541067183461 * c + .332881324404729 * t * t + .467317361111105 * t * c + .087490431201549 * c * c) / cs
        h.eq('crest critical', r.crest_critical[i, 0], mcc, rtol=1e-5); h.eq('divergence', r.divergence_mach[i, 0], r.crest_critical[i, 0] * (1.02 + .08 * (1 - cs)))
        h.eq('drag', r.compressibility_drag[i, 0], .0019 * h.pow(M[i] / r.crest_critical[i, 0], 14.641) * cs ** 3)
