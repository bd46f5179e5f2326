"""G03: control surfaces are distributed over wing segments without loss or duplication."""
from engine.harness import harness
import SUAVE

def _mx(h, a, b): return a if h.decide(a >= b) else b
def _mn(h, a, b): return a if h.decide(a <= b) else b

def _case(h, n, cls, fixed=None):
    from SUAVE.Methods.Geometry.Two_Dimensional.Planform import populate_control_sections
    w = SUAVE.Components.Wings.Main_Wing()
    ps = [0.] + [h.real('p%d' % i, 0, 1, lo_open=True, hi_open=True) for i in range(1, n - 1)] + [1.]
    for a, b in zip(ps[1:-1], ps[2:-1]): h.assume(a < b)
    for i, p in enumerate(ps):
        s = SUAVE.Components.Wings.Segment(); s.tag = 'section_%d' % i; s.percent_span_location = p
        w.append_segment(s)
    C = SUAVE.Components.Wings.Control_Surfaces
    cs = getattr(C, cls)()
    cs.tag = 'surface'
    x0 = h.real('x0', 0, 1) if fixed is None else fixed[0](ps); x1 = h.real('x1', 0, 1) if fixed is None else fixed[1](ps)
    h.assume(x0 < x1)
    cs.span_fraction_start, cs.span_fraction_end = x0, x1
    cs.span = h.real('span', .1, 40); cs.chord_fraction = h.real('cf', .05, .6); cs.hinge_fraction = h.real('hf', 0, 1)
    cs.deflection = h.real('defl', -1, 1); cs.sign_duplicate = -1.; cs.gain = h.real('gain', .1, 3)
    cs.configuration_type = 'double_slotted'
    w.append_control_surface(cs)
    populate_control_sections(w)
    tot = 0; totspan = 0
    for i in range(n):
        got = list(w.Segments[i].control_surfaces.values())
        if i == 0:
            h.true('root carries none', len(got) == 0); continue
        a, b = _mx(h, x0, ps[i - 1]), _mn(h, x1, ps[i])
        if h.decide(a < b):
            h.true('segment %d has its part' % i, len(got) == 1)
            for g in got[:1]:
                h.eq('start%d' % i, g.span_fraction_start, a); h.eq('end%d' % i, g.span_fraction_end, b)
                h.eq('span%d' % i, g.span * (x1 - x0), cs.span * (b - a))
                h.eq('attributes%d' % i, [g.chord_fraction, g.hinge_fraction, g.deflection, g.sign_duplicate, g.gain], [cs.chord_fraction, cs.hinge_fraction, cs.deflection, -1., cs.gain])
                h.true('kind%d' % i, type(g) is type(cs) and g.tag == 'surface' and g.configuration_type == 'double_slotted')
        else:
            h.true('segment %d has nothing' % i, len(got) == 0)
        for g in got: tot = tot + g.span_fraction_end - g.span_fraction_start; totspan = totspan + g.span
    h.eq('covered fraction', tot, x1 - x0)
    h.eq('covered span', totspan, cs.span)

@harness('G03', bounds='one control surface with any start < end in [0,1] over 3 stations at any positions')
def partition3(h): _case(h, 3, h.choice('cls', ['Flap', 'Aileron', 'Elevator', 'Rudder', 'Slat']))
@harness('G03', bounds='one control surface, 4 stations at any positions', weight=2)
def partition4(h): _case(h, 4, 'Flap')
@harness('G03', tier='thorough', bounds='one control surface, 5 stations', weight=3)
def partition5(h): _case(h, 5, 'Aileron')

@harness('G03', bounds='two control surfaces; repeated application; 3 stations')
def two_surfaces(h):
    from SUAVE.Methods.Geometry.Two_Dimensional.Planform import populate_control_sections
    w = SUAVE.Components.Wings.Main_Wing()
    p = h.real('p', .1, .9)
    for i, q in enumerate([0., p, 1.]):
        s = SUAVE.Components.Wings.Segment(); s.tag = 's%d' % i; s.percent_span_location = q
        w.append_segment(s)
    xs = [h.real('x%d' % i, 0.02, 1) for i in range(4)]
    h.assume(xs[0] < xs[1]); h.assume(xs[1] < xs[2]); h.assume(xs[2] < xs[3])
    C = SUAVE.Components.Wings.Control_Surfaces
    for k, cls in ((0, C.Flap), (2, C.Aileron)):
        c = cls(); c.tag = 'c%d' % k; c.span = 1. + k; c.span_fraction_start, c.span_fraction_end = xs[k], xs[k + 1]
        w.append_control_surface(c)
    for rep in range(2):
        populate_control_sections(w)
        for k in (0, 2):
            tot = 0
            for s in w.Segments:
                for g in s.control_surfaces.values():
                    if g.tag == 'c%d' % k: tot = tot + g.span
            h.eq('span %d.%d' % (rep, k), tot, 1. + k)
