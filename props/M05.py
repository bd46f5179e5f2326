"""M05: what the nonlinear solver is given is exactly the segment's unknowns and residuals, and its verdict is reported."""
from engine.harness import harness
import SUAVE, numpy as np, copy
from SUAVE.Core import Data
from props._mission import *
from props.M03 import Aero, Net
from props.M04 import ALT1, ALT2, Finder, snapshot, seg_for
Seg = SUAVE.Analyses.Mission.Segments
from SUAVE.Methods.Missions.Segments import converge_root as CR
import importlib
CRM = importlib.import_module('SUAVE.Methods.Missions.Segments.converge_root')
OPT = importlib.import_module('SUAVE.Methods.Missions.Segments.optimize')
Var = SUAVE.Methods.Missions.Segments.Cruise.Variable_Cruise_Distance

def flatten(D):
    """independent statement of the vector order: declaration order, column by column"""
    out = []
    for k, v in D.items():
        if isinstance(v, str): continue
        if isinstance(v, dict): out += flatten(v)
        elif isinstance(v, np.ndarray):
            if v.ndim == 1: out += list(v)
            else: out += [v[i, j] for j in range(v.shape[1]) for i in range(v.shape[0])]
        else: out.append(v)
    return out

class Rec(object):
    """records calls in place of the segment's own iterate process and leaves arbitrary residuals"""
    def __init__(self, f): self.f, self.calls = f, 0
    def __call__(self, seg): self.calls += 1; self.f(seg)

@harness('M05', bounds='every segment type, 3 control points: any unknown vector, any residuals; square system')
def interface(h):
    cls = h.choice('class', [c for c in ALT1 + ALT2 if c is not Seg.Climb.Optimized])
    n = 3
    s = segment(h, cls, n=n, altitude_start=1000.) if cls in ALT2 else segment(h, cls, n=n, altitude=1000.)
    if cls is Seg.Ground.Takeoff or cls is Seg.Ground.Landing: s.process.initialize.expand_state(s)
    else: s.process.initialize.expand_state(s)
    u, r = s.state.unknowns, s.state.residuals
    nu, nr = len(flatten(u)), len(flatten(r))
    if cls in (Seg.Transition.Constant_Acceleration_Constant_Pitchrate_Constant_Altitude, Seg.Transition.Constant_Acceleration_Constant_Angle_Linear_Climb): u.throttle = h.array(np.ones((n, 2))); nu = 2 * n   # the network supplies the unknowns
    h.true('as many equations as unknowns', nu == nr)
    x = [h.real('x%d' % i, -10, 10) for i in range(nu)]
    res = {k: [[h.real('r_%s_%d_%d' % (k, i, j), -10, 10) for j in range(v.shape[1])] for i in range(v.shape[0])] for k, v in r.items() if isinstance(v, np.ndarray)}
    sc = {k: h.real('r_' + k, -10, 10) for k, v in r.items() if isinstance(v, float)}
    def f(seg):
        h.eq('unknowns', flatten(seg.state.unknowns), x)
        for k in res: seg.state.residuals[k][:, :] = h.array(res[k])
        for k in sc: seg.state.residuals[k] = sc[k]
    s.process.iterate = Rec(f)
    keys, shapes = list(u.keys()), [np.shape(v) for v in u.values()]
    out = CRM.iterate(h.array(x), s)
    h.true('evaluated once', s.process.iterate.calls == 1); h.eq('residuals', out, flatten(r)); h.eq('packed', u.pack_array(), x)
    want = []
    for k in r.keys():
        if k in sc: want.append(sc[k])
        v = res.get(k)
        for j in range(len(v[0]) if v else 0): want += [row[j] for row in v]
    h.eq('residual values', out, want)
    h.true('structure', list(u.keys()) == keys and [np.shape(v) for v in u.values()] == shapes)
    again = CRM.iterate(h.array(x), s)
    h.eq('repeatable', again, out)

@harness('M05', bounds='any solver verdict (1..5), tolerance, evaluation limit and step; given or default root finder')
def verdict(h):
    ier = h.choice('verdict', [1, 2, 3, 4, 5]); n = 2
    s = segment(h, Seg.Cruise.Constant_Speed_Constant_Altitude, n=n)
    s.tag = 'cruise'; s.process.initialize.expand_state(s)
    nm = s.state.numerics
    nm.tolerance_solution, nm.max_evaluations, nm.step_size = h.real('tol', 1e-12, 1e-2), h.real('nfev', 0, 1e4), h.real('step', 1e-12, 1e-2)
    x0 = [h.real('x%d' % i, -1, 1) for i in range(2 * n)]; xs = [h.real('s%d' % i, -1, 1) for i in range(2 * n)]
    s.state.unknowns.throttle, s.state.unknowns.body_angle = col(h, x0[:n]), col(h, x0[n:])
    s.process.iterate = Rec(lambda seg: None)
    seen = {}
    def finder(f, x, args=(), xtol=None, maxfev=None, epsfcn=None, full_output=0):
        seen.update(x=x, seg=args, xtol=xtol, maxfev=maxfev, eps=epsfcn, full=full_output, f=f)
        f(h.array(xs), args)
        return h.array(xs), {}, ier, 'msg'
    if h.choice('finder', ['given', 'default']) == 'given':
        s.settings.root_finder = finder; CR(s)
    else:
        keep = CRM.scipy.optimize.fsolve
        CRM.scipy.optimize.fsolve = finder
        try: CR(s)
        finally: CRM.scipy.optimize.fsolve = keep
    h.eq('guess', seen['x'], x0); h.eq('xtol', seen['xtol'], nm.tolerance_solution); h.eq('maxfev', seen['maxfev'], nm.max_evaluations); h.eq('epsfcn', seen['eps'], nm.step_size)
    h.true('segment', seen['seg'] is s and seen['f'] is CRM.iterate and bool(seen['full']))
    h.true('converged flag', s.converged is (ier == 1) and nm.converged is (ier == 1))
    h.eq('solution', flatten(s.state.unknowns), xs)

def all_at_once(h, kinds, cls=None, given=None):
    n = h.choice('points', [2, 3])
    atm, pl = Atmosphere(h), Planet(h); m0 = h.real('m0', 1e4, 4e5)
    mission = (cls or SUAVE.Analyses.Mission.All_At_Once)()
    net, aero = Net(h, n), Aero(h, n)
    for k, kind in enumerate(kinds):
        s = seg_for(h, kind, 's%d' % k, True if given is None else given[k], n, atm, pl, m0)
        s.analyses.aerodynamics, s.analyses.energy = aero, net
        mission.append_segment(s)
    return mission, n, net, aero

@harness('M05', bounds='missions of 2 or 3 segments solved at once, 2 or 3 points each: merge and unpack of unknowns, conditions and residuals')
def merge(h):
    kinds = h.choice('segments', [('cruise', 'descent'), ('climb', 'cruise', 'descent')])
    mission, n, net, aero = all_at_once(h, kinds)
    SUAVE.Methods.Missions.Segments.Common.Sub_Segments.expand_sub_segments(mission)
    segs = list(mission.segments)
    for k, s in enumerate(segs):
        for w in ('throttle', 'body_angle'): s.state.unknowns[w] = col(h, [h.real('%s_%d_%d' % (w, k, i), -1, 1) for i in range(n)])
        s.state.residuals.forces = h.array([[h.real('f%d_%d_%d' % (k, i, j), -9, 9) for j in range(2)] for i in range(n)])
        s.state.conditions.weights.total_mass = col(h, [h.real('m_%d_%d' % (k, i), 1, 9) for i in range(n)])
        h.true('linked', (s.state.initials is segs[k - 1].state) if k else not s.state.initials)
    snaps = [(snapshot(s.state.unknowns), snapshot(s.state.conditions), snapshot(s.state.residuals)) for s in segs]
    Sub = SUAVE.Methods.Missions.Segments.Common.Sub_Segments
    Sub.merge_sub_segment_states(mission)
    st = mission.state
    for w in ('throttle', 'body_angle'): h.eq('unknown ' + w, st.unknowns[w][:, 0], [x for s in segs for x in s.state.unknowns[w][:, 0]])
    h.eq('residuals', st.residuals.forces, [x for s in segs for x in s.state.residuals.forces.flat])
    h.eq('mass', st.conditions.weights.total_mass[:, 0], [x for s in segs for x in s.state.conditions.weights.total_mass[:, 0]])
    for s, sn in zip(segs, snaps):
        for d, k in zip((s.state.unknowns, s.state.conditions, s.state.residuals), sn):
            now = snapshot(d)
            h.true('segments untouched', list(now) == list(k) and all(now[q].shape == k[q].shape for q in k))
            for q in k:
                if k[q].size and k[q].dtype == object: h.eq('kept ' + q, now[q], k[q], rtol=0, atol=0)
    N = len(segs) * n
    y = {w: [h.real('y_%s%d' % (w, i), -1, 1) for i in range(N)] for w in ('throttle', 'body_angle')}
    for w in y: st.unknowns[w] = col(h, y[w])
    Sub.unpack_subsegments(mission)
    for w in y:
        for k, s in enumerate(segs): h.eq('unpacked ' + w, s.state.unknowns[w][:, 0], y[w][k * n:(k + 1) * n])
    Sub.merge_sub_segment_states(mission)
    for w in y: h.eq('round trip ' + w, st.unknowns[w][:, 0], y[w])

@harness('M05', bounds='variable-range missions: any target weight or charge, any final weight or charge; residual is the relative miss of the final point of the last segment')
def range_residual(h):
    n = 2; k = h.choice('target', ['weight', 'charge'])
    cls = SUAVE.Analyses.Mission.Variable_Range_Cruise.Given_Weight if k == 'weight' else SUAVE.Analyses.Mission.Variable_Range_Cruise.Given_State_of_Charge
    mission, n, net, aero = all_at_once(h, ('climb', 'cruise', 'descent'), cls)
    mission.cruise_tag = 's1'
    SUAVE.Methods.Missions.Segments.Common.Sub_Segments.expand_sub_segments(mission)
    segs = list(mission.segments)
    d0 = segs[1].distance
    Var.initialize_cruise_distance(mission); h.eq('initial distance', mission.state.unknowns.cruise_distance, d0)
    d = h.real('d', 1e3, 1e7); mission.state.unknowns.cruise_distance = d
    Var.unknown_cruise_distance(mission); h.eq('distance', segs[1].distance, d)
    vals = [[h.real('v%d_%d' % (i, j), .01, 1) for j in range(n)] for i in range(3)]; tgt = h.real('target', .01, 1)
    for s, v in zip(segs, vals):
        if k == 'weight': s.state.conditions.weights.total_mass = col(h, v)
        else: s.state.conditions.propulsion.battery_state_of_charge = col(h, v)
    if k == 'weight': mission.target_landing_weight = tgt; Var.residual_landing_weight(mission); r = mission.state.residuals.landing_weight
    else: mission.target_state_of_charge = tgt; Var.residual_state_of_charge(mission); r = mission.state.residuals.battery_state_of_charge
    r = r if not isinstance(r, np.ndarray) else r.reshape(-1)[0]
    h.eq('relative miss', r * tgt, vals[2][-1] - tgt)

def forces_of(segs): return [x for s in segs for x in s.state.residuals.forces.flat]

@harness('M05', bounds='whole variable-range missions (climb-cruise, cruise-cruise) with arbitrary aerodynamics and propulsion, 2 or 3 points: the vector handed to the solver', weight=4, timeout=500, q=15)
def variable_range(h):
    kinds = h.choice('segments', [('cruise', 'loiter'), ('climb', 'cruise')])
    mission, n, net, aero = all_at_once(h, kinds, SUAVE.Analyses.Mission.Variable_Range_Cruise.Given_Weight)
    kc = kinds.index('cruise'); mission.cruise_tag = 's%d' % kc
    mission.target_landing_weight = h.real('target', 1e3, 4e5)
    segs = list(mission.segments)
    seen = []
    def finder(f, x0, args=(), xtol=None, maxfev=None, epsfcn=None, full_output=0):
        h.true('size', len(x0) == 1 + 2 * n * len(segs))
        x = h.array([h.real('x%d' % i, 2e4 if i == 0 else 0, 5e6 if i == 0 else .5) for i in range(len(x0))])
        r = f(x, args); seen.append((x, r))
        return x, {}, 1, ''
    mission.settings.root_finder = finder
    mission.process.initialize(mission); mission.process.converge(mission)
    x, r = seen[0]
    h.eq('distance', segs[kc].distance, x[0])
    N = n * len(segs)
    for k, s in enumerate(segs):
        h.eq('throttle', s.state.conditions.propulsion.throttle[:, 0], x[1 + k * n:1 + (k + 1) * n])
        th = s.state.conditions.frames.body.inertial_rotations[:, 1]
        h.eq('pitch', th, x[1 + N + k * n:1 + N + (k + 1) * n])
    p, q = segs[0].state.conditions, segs[1].state.conditions
    h.eq('mass continues', q.weights.total_mass[0, 0], p.weights.total_mass[-1, 0]); h.eq('time continues', q.frames.inertial.time[0, 0], p.frames.inertial.time[-1, 0])
    m = q.weights.total_mass[-1, 0]
    want = [(m - mission.target_landing_weight) / mission.target_landing_weight]
    for j in range(2): want += [s.state.residuals.forces[i, j] for s in segs for i in range(n)]
    h.eq('residual vector', r, want)
    c = segs[kc].state.conditions.frames.inertial
    h.eq('cruise length', (c.time[-1, 0] - c.time[0, 0]) * segs[kc].air_speed, x[0])

@harness('M05', bounds='optimised climb: any unknowns, histories, objective; 3 control points; final speed given or free')
def optimised(h):
    n = 3; end = h.choice('end speed', [None, 200.])
    s = segment(h, Seg.Climb.Optimized, n=n, altitude_start=0., altitude_end=h.real('alt1', 100, 1e4), air_speed_start=100., air_speed_end=end, lift_coefficient_limit=h.real('CLmax', .5, 3))
    s.process.initialize.expand_state(s)
    nv = n - 1 if end is None else n - 2
    s.state.unknowns.velocity = h.array(np.ones((nv, 1)))
    nu = 3 * n + nv
    h.true('unknowns', len(s.state.unknowns.pack_array()) == nu)
    x = [h.real('x%d' % i, -9, 9) for i in range(nu)]
    F = [[h.real('f%d%d' % (i, j), -9, 9) for j in range(2)] for i in range(n)]
    t, CL, z, ax = [[h.real('%s%d' % (k, i), lo, hi) for i in range(n)] for k, lo, hi in (('t', 0, 1e4), ('CL', -1, 4), ('z', -100, 1.2e4), ('ax', -9, 9))]
    for i in range(n - 1): pass
    h.assume(t[-1] >= 1)
    obj = h.real('obj', -1e3, 1e3)
    def f(seg):
        c = seg.state.conditions
        h.eq('unknowns', flatten(seg.state.unknowns), x)
        c.frames.inertial.time, c.aerodynamics.lift_coefficient, c.freestream.altitude = col(h, t), col(h, CL), col(h, z)
        c.frames.inertial.acceleration_vector = h.array([[a, 0., 0.] for a in ax]); seg.state.residuals.forces = h.array(F); c.extra = obj
        O = SUAVE.Methods.Missions.Segments.Climb.Optimized
        O.objective(seg); O.constraints(seg); O.cache_inputs(seg)
    s.process.iterate = Rec(f)
    sg = h.choice('objective', ['minimise', 'maximise', None])
    s.objective = None if sg is None else 'conditions.extra'; s.minimize = sg == 'minimise'
    h.eq('objective', OPT.get_objective(h.array(x), s), 0. if sg is None else (obj if sg == 'minimise' else -obj))
    h.eq('equalities', OPT.get_econstraints(h.array(x), s), [F[i][j] for j in range(2) for i in range(n)])
    g = list(OPT.get_ieconstraints(h.array(x), s))
    h.true('count', len(g) == 5 * n - 1)
    # the point is feasible exactly when time increases, lift is between zero and the limit, altitude and acceleration are not negative
    want = [t[i + 1] - t[i] for i in range(n - 1)] + [s.lift_coefficient_limit - c for c in CL] + CL + z + ax
    for a, b in zip(g, want):
        h.true('feasible side', _iff(h, a, b))
def _iff(h, a, b):
    """a >= 0 exactly when b >= 0"""
    pa, pb = a >= 0, b >= 0
    if not h.sym: return bool(pa) == bool(pb)
    from engine.terms import B_of
    pa, pb = B_of(pa), B_of(pb)
    return (pa & pb) | (~pa & ~pb)
