"""M04: consecutive segments join: each starts exactly where the previous one ended."""
from engine.harness import harness
import SUAVE, numpy as np, copy
from SUAVE.Core import Data
from props._mission import *
from props.M03 import Aero, Net
Seg = SUAVE.Analyses.Mission.Segments
from SUAVE.Methods.Missions.Segments.Common import Energy, Sub_Segments

ALT1 = [Seg.Cruise.Constant_Speed_Constant_Altitude, Seg.Cruise.Constant_Mach_Constant_Altitude, Seg.Cruise.Constant_Acceleration_Constant_Altitude, Seg.Cruise.Constant_Dynamic_Pressure_Constant_Altitude,
        Seg.Cruise.Constant_Pitch_Rate_Constant_Altitude, Seg.Cruise.Constant_Speed_Constant_Altitude_Loiter, Seg.Cruise.Constant_Throttle_Constant_Altitude, Seg.Hover.Hover, Seg.Single_Point.Set_Speed_Set_Altitude,
        Seg.Single_Point.Set_Speed_Set_Throttle, Seg.Transition.Constant_Acceleration_Constant_Pitchrate_Constant_Altitude, Seg.Ground.Takeoff, Seg.Ground.Landing, Seg.Ground.Battery_Charge_Discharge]
ALT2 = [Seg.Climb.Constant_Speed_Constant_Rate, Seg.Climb.Constant_Speed_Constant_Angle, Seg.Climb.Constant_Mach_Constant_Rate, Seg.Climb.Constant_Mach_Constant_Angle, Seg.Climb.Constant_Dynamic_Pressure_Constant_Angle,
        Seg.Climb.Constant_EAS_Constant_Rate, Seg.Climb.Constant_CAS_Constant_Rate, Seg.Climb.Constant_Throttle_Constant_Speed, Seg.Climb.Linear_Mach_Constant_Rate, Seg.Climb.Linear_Speed_Constant_Rate,
        Seg.Climb.Constant_Speed_Linear_Altitude, Seg.Climb.Optimized, Seg.Descent.Constant_Speed_Constant_Rate, Seg.Descent.Constant_Speed_Constant_Angle, Seg.Descent.Constant_CAS_Constant_Rate,
        Seg.Descent.Linear_Mach_Constant_Rate, Seg.Transition.Constant_Acceleration_Constant_Angle_Linear_Climb]

def snapshot(d):
    out = {}
    def rec(p, d):
        for k, v in d.items():
            if isinstance(v, dict): rec(p + k + '.', v)
            elif isinstance(v, np.ndarray): out[p + k] = v.copy()
    rec('', d); return out

def unchanged(h, name, st, snap, **tol):
    tol = tol or dict(rtol=0, atol=0)
    now = snapshot(st.conditions)
    h.true(name + '.keys', sorted(now) == sorted(snap))
    for k in snap:
        if now[k].size: h.eq(name + '.' + k, now[k], snap[k], **tol)

def fill(h, s, n):
    """arbitrary values left in the segment by its own initial conditions or by an earlier evaluation"""
    c = s.state.conditions; f = c.frames
    v = dict(t=[h.real('t%d' % i, 0, 1e4) for i in range(n)], P=[[h.real('%s%d' % (a, i), -1e5, 1e5) for a in 'xyz'] for i in range(n)],
        R=[h.real('R%d' % i, 0, 1e6) for i in range(n)], m=[h.real('m%d' % i, 10, 4e5) for i in range(n)], la=[h.real('la%d' % i, -80, 80) for i in range(n)], lo=[h.real('lo%d' % i, -180, 180) for i in range(n)])
    f.inertial.time = col(h, v['t']); f.inertial.position_vector = h.array(v['P']); f.inertial.aircraft_range = col(h, v['R'])
    c.weights.total_mass = col(h, v['m']); f.planet.latitude, f.planet.longitude = col(h, v['la']), col(h, v['lo'])
    return v

def join_body(h, classes, altkey):
    cls = h.choice('class', classes); given = h.choice('altitude given', [True, False])
    n = 3
    prev = previous(h, 2)
    pc = prev.conditions; pc.frames.planet.start_time = h.real('pstart', 0, 1e6)
    s = segment(h, cls, n=n, previous=prev, mass=h.real('m_to', 1e2, 4e5))
    s.state.conditions.frames.planet.start_time = None
    s[altkey] = h.real('alt', 0, 1.2e4) if given else None
    s.start_time = h.real('own_start', 0, 1e6); s.latitude = h.real('own_lat', -60, 60); s.longitude = h.real('own_lon', -60, 60)
    s.process.initialize.expand_state(s)
    v = fill(h, s, n)
    before = snapshot(pc)
    s.process.iterate.initials(s)
    c = s.state.conditions; f = c.frames; p = pc.frames
    T, P, R, m = f.inertial.time[:, 0], f.inertial.position_vector, f.inertial.aircraft_range[:, 0], c.weights.total_mass[:, 0]
    h.eq('time', T[0], p.inertial.time[-1, 0]); h.eq('range', R[0], p.inertial.aircraft_range[-1, 0]); h.eq('mass', m[0], pc.weights.total_mass[-1, 0])
    h.eq('x', P[0, 0], p.inertial.position_vector[-1, 0]); h.eq('y', P[0, 1], p.inertial.position_vector[-1, 1])
    h.eq('altitude', -P[0, 2], s[altkey] if given else -p.inertial.position_vector[-1, 2])
    for i in range(n):
        h.eq('latitude', f.planet.latitude[i, 0], p.planet.latitude[-1, 0]); h.eq('longitude', f.planet.longitude[i, 0], p.planet.longitude[-1, 0])
        h.eq('elapsed', T[i] - T[0], v['t'][i] - v['t'][0]); h.eq('flown', R[i] - R[0], v['R'][i] - v['R'][0]); h.eq('burned', m[i] - m[0], v['m'][i] - v['m'][0])
        for k in range(3): h.eq('shape', P[i, k] - P[0, k], v['P'][i][k] - v['P'][0][k])
    h.eq('start time', f.planet.start_time, pc.frames.planet.start_time)
    unchanged(h, 'previous segment', prev, before)
    again = snapshot(c)
    s.process.iterate.initials(s)
    unchanged(h, 'repeated', s.state, again, rtol=1e-9, atol=1e-6)

@harness('M04', bounds='14 constant-altitude, hover, ground and single-point segment types after an arbitrary previous segment; altitude given or inherited; any values left in the segment')
def join_level(h): join_body(h, ALT1, 'altitude')
@harness('M04', bounds='17 climb, descent and transition segment types after an arbitrary previous segment; start altitude given or inherited')
def join_climb(h): join_body(h, ALT2, 'altitude_start')

@harness('M04', bounds='first segment of a mission, all segment types: takeoff mass, start time, latitude and longitude given or not')
def first_segment(h):
    cls = h.choice('class', ALT1 + ALT2); given = h.choice('position given', [True, False])
    n = 3; m0 = h.real('m_to', 1e2, 4e5)
    s = segment(h, cls, n=n, mass=m0)
    if given: s.start_time = h.real('own_start', 0, 1e6); s.latitude = h.real('own_lat', -60, 60); s.longitude = h.real('own_lon', -60, 60)
    s.process.initialize.expand_state(s)
    v = fill(h, s, n)
    s.process.iterate.initials(s)
    c = s.state.conditions; f = c.frames
    for i in range(n):
        h.eq('mass', c.weights.total_mass[i, 0], m0 + v['m'][i] - v['m'][0]); h.eq('time', f.inertial.time[i, 0], v['t'][i])
        h.eq('latitude', f.planet.latitude[i, 0], s.latitude if given else 0.); h.eq('longitude', f.planet.longitude[i, 0], s.longitude if given else 0.)
        h.eq('position', f.inertial.position_vector[i], v['P'][i])
    if given: h.eq('start time', f.planet.start_time, s.start_time)

@harness('M04', bounds='battery after any previous segment: energy, temperatures, throughput, cycle day, growth and fade factors; charging or discharging; pack temperature given or not')
def battery(h):
    n = 3; dis = h.choice('discharge', [True, False]); temp = h.choice('temperature given', [False, True])
    prev = previous(h, 2); pp = prev.conditions.propulsion
    two = lambda nm, lo, hi: col(h, [h.real('%s%d' % (nm, i), lo, hi) for i in range(2)])
    pp.battery_energy, pp.battery_pack_temperature, pp.battery_cell_temperature, pp.battery_cell_charge_throughput = two('E', 0, 1e9), two('Tp', 250, 350), two('Tc', 250, 350), two('Q', 0, 1e3)
    pp.battery_max_initial_energy, pp.battery_max_aged_energy = h.real('Emax', 1e3, 1e9), h.real('Eaged', 1e3, 1e9)
    pp.battery_cycle_day, pp.battery_resistance_growth_factor, pp.battery_capacity_fade_factor = h.real('day', 0, 100), h.real('grow', 1, 2), h.real('fade', .5, 1)
    s = segment(h, Seg.Cruise.Constant_Speed_Constant_Altitude, n=n, previous=prev, battery_discharge=dis)
    if temp: s.battery_pack_temperature = h.real('Tgiven', 250, 350)
    s.process.initialize.expand_state(s)
    before = snapshot(prev.conditions)
    Energy.initialize_battery(s)
    c = s.state.conditions.propulsion
    for i in range(n):
        h.eq('energy', c.battery_energy[i, 0], pp.battery_energy[1, 0]); h.eq('throughput', c.battery_cell_charge_throughput[i, 0], pp.battery_cell_charge_throughput[1, 0])
        h.eq('pack temperature', c.battery_pack_temperature[i, 0], s.battery_pack_temperature if temp else pp.battery_pack_temperature[1, 0])
        h.eq('cell temperature', c.battery_cell_temperature[i, 0], s.battery_pack_temperature if temp else pp.battery_cell_temperature[1, 0])
    h.eq('day', c.battery_cycle_day, pp.battery_cycle_day); h.eq('growth', c.battery_resistance_growth_factor, pp.battery_resistance_growth_factor); h.eq('fade', c.battery_capacity_fade_factor, pp.battery_capacity_fade_factor)
    h.eq('max energy', c.battery_max_initial_energy, pp.battery_max_initial_energy)
    h.eq('aged energy', c.battery_max_aged_energy, pp.battery_max_aged_energy if dis else pp.battery_max_initial_energy * pp.battery_capacity_fade_factor)
    h.true('flag', c.battery_discharge_flag == dis)
    unchanged(h, 'previous segment', prev, before)

# whole missions ------------------------------------------------------------
class Finder(object):
    """stands in for the nonlinear solver: visits one arbitrary and then one final arbitrary point"""
    def __init__(self, h, tag, n, visits=2): self.h, self.tag, self.n, self.visits = h, tag, n, visits
    def __call__(self, f, x0, args=(), xtol=None, maxfev=None, epsfcn=None, full_output=0):
        for v in range(self.visits):
            x = self.h.array([self.h.real('%s_u%d_%d' % (self.tag, v, i), 0, .5) for i in range(len(x0))])
            f(x, args)
        return x, {}, 1, ''

def seg_for(h, kind, tag, given, n, atm, pl, m0):
    mk = lambda cls, **kw: segment(h, cls, n=n, atm=atm, planet=pl, mass=m0, **kw)
    r = lambda nm, lo, hi: h.real('%s_%s' % (tag, nm), lo, hi)
    if kind == 'climb': s = mk(Seg.Climb.Constant_Speed_Constant_Rate, altitude_start=r('a0', 0, 5000) if given else None, altitude_end=r('a1', 6000, 12000), climb_rate=r('rate', 1, 15), air_speed=r('V', 60, 250))
    elif kind == 'descent': s = mk(Seg.Descent.Constant_Speed_Constant_Rate, altitude_start=r('a0', 6000, 12000) if given else None, altitude_end=r('a1', 0, 3000), descent_rate=r('rate', 1, 15), air_speed=r('V', 60, 250))
    elif kind == 'cruise': s = mk(Seg.Cruise.Constant_Speed_Constant_Altitude, altitude=r('a', 3500, 5900) if given else None, distance=r('d', 1e4, 5e6), air_speed=r('V', 60, 250))
    elif kind == 'accel': s = mk(Seg.Cruise.Constant_Acceleration_Constant_Altitude, altitude=r('a', 3500, 5900) if given else None, acceleration=r('acc', .1, 2), air_speed_start=r('V', 60, 100), air_speed_end=r('V1', 120, 250))
    elif kind == 'loiter': s = mk(Seg.Cruise.Constant_Speed_Constant_Altitude_Loiter, altitude=r('a', 3500, 5900) if given else None, time=r('T', 60, 3600), air_speed=r('V', 60, 250))
    elif kind == 'hover': s = mk(Seg.Hover.Hover, altitude=r('a', 3500, 5900) if given else None, time=r('T', 10, 3600))
    s.tag = tag; s.true_course = 0.
    return s

def mission_body(h, kinds, given):
    n = 2
    atm, pl = Atmosphere(h), Planet(h)
    m0 = h.real('m0', 1e4, 4e5)
    mission = SUAVE.Analyses.Mission.Sequential_Segments()
    net, aero = Net(h, n), Aero(h, n)
    for k, (kind, g) in enumerate(zip(kinds, given)):
        s = seg_for(h, kind, 's%d' % k, g, n, atm, pl, m0)
        s.analyses.aerodynamics, s.analyses.energy = aero, net
        s.settings.root_finder = Finder(h, s.tag, n)
        mission.append_segment(s)
    h.mission = None
    res = mission.evaluate()
    segs = list(res.segments)
    h.true('order', [s.tag for s in segs] == ['s%d' % k for k in range(len(kinds))])
    h.eq('takeoff mass', segs[0].state.conditions.weights.total_mass[0, 0], m0); h.eq('start', segs[0].state.conditions.frames.inertial.time[0, 0], 0)
    for a, b in zip(segs, segs[1:]):
        p, q = a.state.conditions, b.state.conditions
        f, g = p.frames, q.frames
        h.eq('time', g.inertial.time[0, 0], f.inertial.time[-1, 0]); h.eq('mass', q.weights.total_mass[0, 0], p.weights.total_mass[-1, 0]); h.eq('range', g.inertial.aircraft_range[0, 0], f.inertial.aircraft_range[-1, 0], atol=1e-3)
        for k in range(2): h.eq('position', g.inertial.position_vector[0, k], f.inertial.position_vector[-1, k], atol=1e-3)
        h.eq('latitude', g.planet.latitude[0, 0], f.planet.latitude[-1, 0]); h.eq('longitude', g.planet.longitude[0, 0], f.planet.longitude[-1, 0])
        alt = b.altitude_start if 'altitude_start' in b else b.altitude
        h.eq('altitude', -g.inertial.position_vector[0, 2], -f.inertial.position_vector[-1, 2] if alt is None else alt)
    for s in segs:
        t = s.state.conditions.frames.inertial.time[:, 0]
        h.lt('time runs forward', t[0], t[-1])
        I = s.state.numerics.time.integrate; m = s.state.conditions.weights.total_mass[:, 0]
        h.eq('fuel burned', m[0] - m[1], sum(I[1, j] * net.mdot[j] for j in range(n)))
        alts = -s.state.conditions.frames.inertial.position_vector[:, 2]
        if 'altitude_end' in s: h.eq('reaches', alts[-1], s.altitude_end)
        else: h.eq('level', alts[-1], alts[0])
        h.true('converged', s.converged is True)

@harness('M04', bounds='whole missions of two segments: climb, cruise, acceleration, loiter, hover or descent, second altitude given or inherited; two arbitrary solver iterations each, 2 control points', weight=4, timeout=500, q=15)
def mission_two(h):
    kinds = h.choice('segments', [('climb', 'cruise'), ('cruise', 'descent'), ('accel', 'loiter'), ('hover', 'climb'), ('loiter', 'accel')])
    g = h.choice('second altitude', [True, False])
    mission_body(h, kinds, (True, g))
@harness('M04', bounds='whole missions of three segments with inherited altitudes', weight=5, timeout=500, q=15)
def mission_three(h):
    kinds = h.choice('segments', [('climb', 'cruise', 'descent'), ('cruise', 'loiter', 'climb')])
    mission_body(h, kinds, (True, False, False))
