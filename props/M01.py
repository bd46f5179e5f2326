"""M01: every mission segment flies the profile that was asked for."""
from engine.harness import harness
import SUAVE, numpy as np
from SUAVE.Core import Data
from props._mission import *
Seg = SUAVE.Analyses.Mission.Segments

def setup(h, cls, n=3, alt_name='altitude_start', dev=False, single=False, **kw):
    atm = Atmosphere(h, dev)
    inherit = h.choice('altitude', ['given', 'inherited'])
    a0 = h.real('alt0', 100, 10000)
    prev = previous(h, alt=a0) if inherit == 'inherited' else False
    s = segment(h, cls, n=n, previous=prev, atm=atm, **kw)
    s[alt_name] = None if prev else a0
    if dev: s.temperature_deviation = h.real('dT', -30, 30)
    s._again = h.choice('evaluation', [0, 1])
    return s, atm, a0, prev

def start(s):
    """initialise; then the part of the iteration that fixes time and position"""
    s.process.initialize(s)
    it = s.process.iterate
    it.initials.time(s); it.initials.inertial_position(s)
    if s._again:
        # the same segment evaluated again, as an optimiser does, gives the same flight
        s.process.initialize(s)
        it.initials.time(s); it.initials.inertial_position(s)

def speeds(s):
    v = s.state.conditions.frames.inertial.velocity_vector
    return v, [v[i, 0] * v[i, 0] + v[i, 1] * v[i, 1] + v[i, 2] * v[i, 2] for i in range(len(v))]

def profile(h, s, a0, a1):
    """altitude runs linearly from a0 to a1, in every place it is stored"""
    c = s.state.conditions
    x = s.state.numerics.dimensionless.control_points[:, 0]
    alt = [a0 + (a1 - a0) * t for t in x]
    h.eq('altitude', c.freestream.altitude[:, 0], alt)
    h.eq('position', -c.frames.inertial.position_vector[:, 2], alt)
    h.eq('first', c.freestream.altitude[0, 0], a0); h.eq('last', c.freestream.altitude[-1, 0], a1)
    return alt

def duration(h, s, prev, T):
    t = s.state.conditions.frames.inertial.time[:, 0]
    x = s.state.numerics.dimensionless.control_points[:, 0]
    t0 = prev.conditions.frames.inertial.time[-1, 0] if prev else 0.
    h.eq('time', t, [t0 + T * z for z in x])

CLIMB_RATE = [('speed', Seg.Climb.Constant_Speed_Constant_Rate, 1), ('speed_d', Seg.Descent.Constant_Speed_Constant_Rate, -1),
    ('mach', Seg.Climb.Constant_Mach_Constant_Rate, 1), ('linmach', Seg.Climb.Linear_Mach_Constant_Rate, 1), ('linmach_d', Seg.Descent.Linear_Mach_Constant_Rate, -1),
    ('linspeed', Seg.Climb.Linear_Speed_Constant_Rate, 1), ('eas', Seg.Climb.Constant_EAS_Constant_Rate, 1), ('eas_d', Seg.Descent.Constant_EAS_Constant_Rate, -1),
    ('q', Seg.Climb.Constant_Dynamic_Pressure_Constant_Rate, 1)]

def rate_body(h, kind, cls, sgn, n=3):
    s, atm, a0, prev = setup(h, cls, n=n, dev=kind.split('_')[0] not in ('speed', 'linspeed'))
    r = h.real('rate', .5, 15)
    da = h.real('da', 50, 4000); a1 = s.altitude_end = a0 + sgn * da
    if sgn < 0: h.assume(a1 >= 0)
    s['climb_rate' if sgn > 0 else 'descent_rate'] = r
    k = kind.split('_')[0]
    if k == 'speed': s.air_speed = h.real('V', 30, 300)
    if k in ('linspeed', 'linmach'):
        if k == 'linspeed': v0 = s.air_speed_start = h.real('V0', 30, 300); v1 = s.air_speed_end = h.real('V1', 30, 300)
        else: v0 = s.mach_start = h.real('M0', .15, .9); v1 = s.mach_end = h.real('M1', .15, .9)
    if k == 'mach': s.mach_number = h.real('M', .15, .9)
    if k == 'eas': s.equivalent_air_speed = h.real('E', 30, 200)
    if k == 'q': s.dynamic_pressure = h.real('q', 1000, 20000)
    dT = getattr(s, 'temperature_deviation', 0.)
    start(s)
    alt = profile(h, s, a0, a1)
    v, V2 = speeds(s)
    x = s.state.numerics.dimensionless.control_points[:, 0]
    h.eq('vertical speed', v[:, 2], [-sgn * r] * n)
    h.eq('lateral', v[:, 1], [0.] * n)
    for i in range(n):
        if k == 'speed': w = s.air_speed
        if k == 'linspeed': w = v0 + (v1 - v0) * x[i]
        if k == 'mach': w = s.mach_number * atm.at('a', alt[i], dT)
        if k == 'linmach': w = (v0 + (v1 - v0) * x[i]) * atm.at('a', alt[i], dT)
        if k == 'eas':
            h.eq('equivalent speed', V2[i] * atm.at('rho', alt[i], dT), s.equivalent_air_speed * s.equivalent_air_speed * atm.at('rho', 0.))
        elif k == 'q':
            h.eq('dynamic pressure', V2[i] * atm.at('rho', alt[i], dT), 2 * s.dynamic_pressure)
            if not s._again: h.eq('as found: sea-level density', V2[i] * atm.at('rho', 0., dT), 2 * s.dynamic_pressure)
        else:
            h.eq('speed', V2[i], w * w); h.ge('forward', v[i, 0], 0.)
    duration(h, s, prev, da / r)

for kind, cls, sgn in CLIMB_RATE:
    def f(h, kind=kind, cls=cls, sgn=sgn): rate_body(h, kind, cls, sgn)
    f.__name__ = 'rate_' + kind
    harness('M01', bounds='3 control points; any altitudes, rate and speed schedule; altitude given or inherited; any linear atmosphere and temperature offset', q=20)(f)

ANGLE = [('angle', Seg.Climb.Constant_Speed_Constant_Angle, 1), ('angle_d', Seg.Descent.Constant_Speed_Constant_Angle, -1)]
def angle_body(h, cls, sgn, n=3):
    s, atm, a0, prev = setup(h, cls, n=n)
    th = h.real('angle', .01, .5); V = s.air_speed = h.real('V', 30, 300)
    da = h.real('da', 50, 4000); a1 = s.altitude_end = a0 + sgn * da
    if sgn < 0: h.assume(a1 >= 0)
    s['climb_angle' if sgn > 0 else 'descent_angle'] = th
    start(s)
    profile(h, s, a0, a1)
    v, V2 = speeds(s)
    for i in range(n):
        h.eq('speed', V2[i], V * V); h.eq('forward', v[i, 0], V * h.cos(th)); h.eq('down', v[i, 2], -sgn * V * h.sin(th))
    duration(h, s, prev, da / (V * h.sin(th)))
for kind, cls, sgn in ANGLE:
    def f(h, cls=cls, sgn=sgn): angle_body(h, cls, sgn)
    f.__name__ = kind
    harness('M01', bounds='3 control points; any angle 0.01..0.5 rad, speed and altitudes', q=20)(f)

def linear_body(h, kind, n=3):
    s, atm, a0, prev = setup(h, Seg.Climb.Constant_Speed_Linear_Altitude if kind == 'V' else Seg.Climb.Constant_Mach_Linear_Altitude, n=n, dev=kind != 'V')
    up = h.choice('direction', [1, -1])
    a1 = s.altitude_end = a0 + up * h.real('da', 50, 4000); h.assume(a1 >= 0)
    d = s.distance = h.real('distance', 500, 500000)
    if kind == 'V': V = s.air_speed = h.real('V', 30, 300)
    else: M = s.mach = h.real('M', .15, .9)
    dT = getattr(s, 'temperature_deviation', 0.)
    start(s)
    alt = profile(h, s, a0, a1)
    v, V2 = speeds(s)
    for i in range(n):
        w = V if kind == 'V' else M * atm.at('a', alt[i], dT)
        h.eq('speed', V2[i], w * w)
        h.eq('slope', v[i, 2] * d, -v[i, 0] * (a1 - a0)); h.ge('forward', v[i, 0], 0)
    if kind == 'V':
        # straight line: the distance asked for is covered when the end altitude is reached
        t = s.state.conditions.frames.inertial.time[:, 0]
        h.eq('distance', v[0, 0] * (t[-1] - t[0]), d)
@harness('M01', bounds='3 control points; straight-line profile up or down over any distance at constant speed', q=20)
def linear_speed(h): linear_body(h, 'V')
@harness('M01', bounds='3 control points; straight-line profile up or down over any distance at constant Mach', q=20)
def linear_mach(h): linear_body(h, 'M')

def angle_unknown_body(h, kind, n=3):
    s, atm, a0, prev = setup(h, Seg.Climb.Constant_Dynamic_Pressure_Constant_Angle if kind == 'q' else Seg.Climb.Constant_Mach_Constant_Angle, n=n, dev=True)
    th = s.climb_angle = h.real('angle', .01, .5); a1 = s.altitude_end = a0 + h.real('da', 50, 4000)
    if kind == 'q': q = s.dynamic_pressure = h.real('q', 1000, 20000)
    else: M = s.mach = h.real('M', .15, .9)
    dT = s.temperature_deviation
    s.process.initialize.expand_state(s); s.process.initialize.differentials(s)
    alts = [h.real('alt_%d' % i, 0, 14000) for i in range(n)]
    s.state.unknowns.altitudes = col(h, alts)
    s.state.unknowns.body_angle = col(h, [h.real('th%d' % i, -.3, .3) for i in range(n)]); s.state.unknowns.throttle = col(h, [h.real('thr%d' % i, 0, 1) for i in range(n)])
    it = s.process.iterate
    it.initials.time(s); it.unknowns.mission(s); it.conditions.differentials(s)
    c = s.state.conditions
    v, V2 = speeds(s)
    for i in range(n):
        if kind == 'q': h.eq('dynamic pressure', V2[i] * atm.at('rho', alts[i], dT), 2 * q)
        else: w = M * atm.at('a', alts[i], dT); h.eq('speed', V2[i], w * w)
        h.eq('angle', -v[i, 2] * h.cos(th), v[i, 0] * h.sin(th)); h.ge('forward', v[i, 0], 0)
    h.eq('first', c.freestream.altitude[0, 0], a0); h.eq('last', c.freestream.altitude[-1, 0], a1)
    h.eq('position', -c.frames.inertial.position_vector[:, 2], c.freestream.altitude[:, 0])
    t = c.frames.inertial.time[:, 0]
    D = s.state.numerics.time.differentiate
    if prev: h.eq('start time', t[0], prev.conditions.frames.inertial.time[-1, 0])
    # the altitude history is the integral of the vertical speed
    I = s.state.numerics.time.integrate
    for i in range(n): h.eq('climb', c.freestream.altitude[i, 0] - a0, -sum(I[i, j] * v[j, 2] for j in range(n)), rtol=1e-5)
    h.eq('time', t - t[0], [z * (t[-1] - t[0]) for z in s.state.numerics.dimensionless.control_points[:, 0]])
    h.eq('body angle', c.frames.body.inertial_rotations[:, 1], s.state.unknowns.body_angle[:, 0]); h.eq('throttle', c.propulsion.throttle[:, 0], s.state.unknowns.throttle[:, 0])
@harness('M01', bounds='3 control points; any altitude unknowns, climb angle and dynamic pressure', q=20)
def angle_q(h): angle_unknown_body(h, 'q')
@harness('M01', bounds='3 control points; any altitude unknowns, climb angle and Mach', q=20)
def angle_mach(h): angle_unknown_body(h, 'M')

CRUISE = [('speed', Seg.Cruise.Constant_Speed_Constant_Altitude), ('speed_loiter', Seg.Cruise.Constant_Speed_Constant_Altitude_Loiter),
    ('mach', Seg.Cruise.Constant_Mach_Constant_Altitude), ('mach_loiter', Seg.Cruise.Constant_Mach_Constant_Altitude_Loiter),
    ('q', Seg.Cruise.Constant_Dynamic_Pressure_Constant_Altitude), ('q_loiter', Seg.Cruise.Constant_Dynamic_Pressure_Constant_Altitude_Loiter)]
def level(h, s, a0):
    c = s.state.conditions
    n = len(c.freestream.altitude)
    h.eq('altitude', c.freestream.altitude[:, 0], [a0] * n); h.eq('position', c.frames.inertial.position_vector[:, 2], [-a0] * n)
def cruise_body(h, kind, cls, n=3):
    s, atm, a0, prev = setup(h, cls, n=n, alt_name='altitude', dev=kind[0] in 'mq')
    k = kind.split('_')[0]; loiter = kind.endswith('loiter')
    if loiter: T = s.time = h.real('T', 10, 20000)
    else: d = s.distance = h.real('distance', 500, 1e7)
    dT = getattr(s, 'temperature_deviation', 0.)
    if k == 'speed': V = s.air_speed = h.real('V', 30, 300); W2 = V * V
    if k == 'mach': M = s.mach = h.real('M', .15, .9); W2 = (M * atm.at('a', a0, dT)) * (M * atm.at('a', a0, dT))
    if k == 'q': q = s.dynamic_pressure = h.real('q', 1000, 20000); W2 = 2 * q / atm.at('rho', a0, dT)
    start(s)
    level(h, s, a0)
    v, V2 = speeds(s)
    for i in range(n):
        h.eq('speed', V2[i], W2); h.ge('forward', v[i, 0], 0); h.eq('level', v[i, 2], 0.)
        if k == 'q' and not s._again: h.eq('as found: sea-level density', V2[i] * atm.at('rho', 0., dT), 2 * q)
    t = s.state.conditions.frames.inertial.time[:, 0]
    if loiter: duration(h, s, prev, T)
    else:
        h.eq('distance', v[0, 0] * (t[-1] - t[0]), d)
        duration(h, s, prev, d / v[0, 0])
for kind, cls in CRUISE:
    def f(h, kind=kind, cls=cls): cruise_body(h, kind, cls)
    f.__name__ = 'cruise_' + kind
    harness('M01', bounds='3 control points; any altitude (given/inherited), speed schedule, distance or duration, atmosphere', q=20)(f)

@harness('M01', bounds='3 control points; any start/end speed and acceleration of the same sign', q=20)
def cruise_accelerate(h, n=3):
    s, atm, a0, prev = setup(h, Seg.Cruise.Constant_Acceleration_Constant_Altitude, n=n, alt_name='altitude')
    v0 = s.air_speed_start = h.real('V0', 1, 300); v1 = s.air_speed_end = h.real('V1', 1, 300); a = s.acceleration = h.real('acc', -5, 5)
    h.assume((v1 - v0) * a > 1)
    start(s); level(h, s, a0)
    v, V2 = speeds(s); t = s.state.conditions.frames.inertial.time[:, 0]
    h.eq('first', v[0, 0], v0); h.eq('last', v[-1, 0], v1)
    for i in range(n): h.eq('uniform', v[i, 0] - v0, a * (t[i] - t[0])); h.eq('level', v[i, 2], 0.)
    duration(h, s, prev, (v1 - v0) / a)

@harness('M01', bounds='3 control points; vertical climb, descent and hover at any rate/duration', q=20)
def hover(h, n=3):
    kind = h.choice('kind', ['climb', 'descent', 'hover'])
    H = Seg.Hover
    s, atm, a0, prev = setup(h, dict(climb=H.Climb, descent=H.Descent, hover=H.Hover)[kind], n=n, alt_name='altitude' if kind == 'hover' else 'altitude_start')
    if kind == 'hover':
        T = s.time = h.real('T', 1, 3000); start(s); level(h, s, a0); vz = 0.
    else:
        sg = 1 if kind == 'climb' else -1
        r = h.real('rate', .2, 15); s['climb_rate' if sg > 0 else 'descent_rate'] = r
        da = h.real('da', 10, 3000); a1 = s.altitude_end = a0 + sg * da; T = da / r; vz = -sg * r
        start(s); profile(h, s, a0, a1)
    v, V2 = speeds(s)
    for i in range(n): h.eq('vertical', v[i, 2], vz); h.eq('no ground speed', v[i, 0], 0.)
    duration(h, s, prev, T)

@harness('M01', bounds='3 control points; level transition: any speeds, pitch range, acceleration; pitch given or inherited', q=20)
def transition_level(h, n=3):
    s, atm, a0, prev = setup(h, Seg.Transition.Constant_Acceleration_Constant_Pitchrate_Constant_Altitude, n=n, alt_name='altitude')
    v0 = s.air_speed_start = h.real('V0', .5, 100); v1 = s.air_speed_end = h.real('V1', .5, 100); a = s.acceleration = h.real('acc', -5, 5)
    h.assume((v1 - v0) * a > 1)
    p0, p1 = h.real('pit0', -.5, 1.5), h.real('pit1', -.5, 1.5); s.pitch_final = p1
    if prev and h.choice('pitch', ['given', 'inherited']) == 'inherited':
        s.pitch_initial = None; p0 = prev.conditions.frames.body.inertial_rotations[-1, 1]
    else: s.pitch_initial = p0
    start(s); level(h, s, a0)
    v, V2 = speeds(s); t = s.state.conditions.frames.inertial.time[:, 0]
    h.eq('first', v[0, 0], v0); h.eq('last', v[-1, 0], v1)
    for i in range(n): h.eq('uniform', v[i, 0] - v0, a * (t[i] - t[0]))
    th = s.state.conditions.frames.body.inertial_rotations[:, 1]
    x = s.state.numerics.dimensionless.control_points[:, 0]
    h.eq('pitch', th, [p0 + (p1 - p0) * z for z in x])
    duration(h, s, prev, (v1 - v0) / a)

@harness('M01', bounds='3 control points; accelerating climb along a line: any initial speed, acceleration, angle, pitch range', q=20)
def transition_climb(h, n=3):
    s, atm, a0, prev = setup(h, Seg.Transition.Constant_Acceleration_Constant_Angle_Linear_Climb, n=n)
    da = h.real('da', 10, 2000); a1 = s.altitude_end = a0 + da; th = s.climb_angle = h.real('angle', .02, 1.2); a = s.acceleration = h.real('acc', .05, 5)
    v0 = s.air_speed = h.real('V0', .5, 100); s.pitch_initial = p0 = h.real('pit0', -.5, 1.5); s.pitch_final = p1 = h.real('pit1', -.5, 1.5)
    start(s); profile(h, s, a0, a1)
    v, V2 = speeds(s); t = s.state.conditions.frames.inertial.time[:, 0]; T = t[-1] - t[0]
    for i in range(n):
        w = v0 + a * (t[i] - t[0])
        h.eq('speed', V2[i], w * w); h.eq('angle', -v[i, 2] * h.cos(th), v[i, 0] * h.sin(th)); h.ge('forward', v[i, 0], 0)
        h.eq('as found: vertical speed starts at zero', [v[i, 0], v[i, 2]], [w * h.cos(th), -(w - v0) * h.sin(th)])
    # the end altitude is reached: distance along the line under uniform acceleration
    h.eq('distance', (v0 * T + .5 * a * T * T) * h.sin(th), da)
    x = s.state.numerics.dimensionless.control_points[:, 0]
    h.eq('pitch', s.state.conditions.frames.body.inertial_rotations[:, 1], [p0 + (p1 - p0) * z for z in x])
    duration(h, s, prev, T)

@harness('M01', bounds='3 control points; constant pitch rate at constant altitude', q=20)
def pitch_rate(h, n=3):
    s, atm, a0, prev = setup(h, Seg.Cruise.Constant_Pitch_Rate_Constant_Altitude, n=n, alt_name='altitude')
    r = s.pitch_rate = h.real('rate', .001, .3); p0, p1 = h.real('pit0', -.5, 1.5), h.real('pit1', -.5, 1.5); s.pitch_final = p1
    h.assume(p1 > p0)
    if prev and h.choice('pitch', ['given', 'inherited']) == 'inherited':
        s.pitch_initial = None; p0 = prev.conditions.frames.body.inertial_rotations[-1, 1]; h.assume(p1 > p0)
    else: s.pitch_initial = p0
    start(s); level(h, s, a0)
    x = s.state.numerics.dimensionless.control_points[:, 0]
    h.eq('pitch', s.state.conditions.frames.body.inertial_rotations[:, 1], [p0 + (p1 - p0) * z for z in x])
    duration(h, s, prev, (p1 - p0) / r)

@harness('M01', bounds='1 control point; trim points at any altitude (given/inherited), speed, accelerations', q=20)
def single_point(h):
    P = Seg.Single_Point
    kind = h.choice('kind', [P.Set_Speed_Set_Altitude, P.Set_Speed_Set_Throttle, P.Set_Speed_Set_Altitude_No_Propulsion])
    s, atm, a0, prev = setup(h, kind, n=1, alt_name='altitude')
    V = s.air_speed = h.real('V', 10, 300); az = s.z_accel = h.real('az', -20, 20); ax = h.real('ax', -20, 20)
    if kind is P.Set_Speed_Set_Altitude: s.x_accel = ax
    if kind is P.Set_Speed_Set_Altitude_No_Propulsion: ax = 0.
    if kind is P.Set_Speed_Set_Throttle: s.state.unknowns.x_accel = h.array([[ax]]); s.throttle = h.real('thr', 0, 1); s.state.unknowns.body_angle = h.array([[h.real('th', -.3, .3)]])
    start(s); level(h, s, a0)
    c = s.state.conditions
    if kind is P.Set_Speed_Set_Throttle:
        s.process.iterate.unknowns.mission(s); h.eq('throttle', c.propulsion.throttle[0, 0], s.throttle)
    h.eq('velocity', c.frames.inertial.velocity_vector, [V, 0., 0.]); h.eq('acceleration', c.frames.inertial.acceleration_vector, [ax, 0., az])
