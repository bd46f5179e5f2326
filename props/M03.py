"""M03: forces, frames and the equations of motion solved at every control point."""
from engine.harness import harness
import SUAVE, numpy as np
from SUAVE.Core import Data
from props._mission import *
Seg = SUAVE.Analyses.Mission.Segments
from SUAVE.Methods.Missions.Segments.Common import Frames, Aerodynamics, Energy, Weights
from SUAVE.Methods.Geometry.Three_Dimensional import angles_to_dcms, orientation_product, orientation_transpose

class Aero(object):
    """arbitrary aerodynamic answers"""
    def __init__(self, h, n, clmax=5.):
        self.h, self.geometry, self.settings = h, Data(), Data()
        self.S = self.geometry.reference_area = h.real('Sref', 1, 500)
        self.clmax = self.settings.maximum_lift_coefficient = clmax
        self.CL = [h.real('CL%d' % i, -3, 3) for i in range(n)]; self.CD = [h.real('CD%d' % i, 0, 2) for i in range(n)]
    def __call__(self, state):
        d = Data(); d.lift = Data(); d.drag = Data()
        d.lift.total, d.drag.total = col(self.h, self.CL), col(self.h, self.CD)
        return d

class Net(object):
    """arbitrary propulsion answers"""
    def __init__(self, h, n):
        self.h = h
        self.F = [[h.real('T%s%d' % (a, i), -2e5, 2e5) for a in 'xyz'] for i in range(n)]
        self.mdot = [h.real('md%d' % i, 0, 5) for i in range(n)]
    def evaluate_thrust(self, state):
        d = Data(); d.thrust_force_vector = self.h.array(self.F); d.vehicle_mass_rate = col(self.h, self.mdot); d.network_y_axis_rotation = 0.
        self.throttle = state.conditions.propulsion.throttle
        return d

def make(h, cls, n=2, **kw):
    atm, pl = Atmosphere(h), Planet(h)
    m0 = h.real('m0', 500, 4e5)
    s = segment(h, cls, n=n, atm=atm, planet=pl, mass=m0, **kw)
    a, e = Aero(h, n), Net(h, n)
    s.analyses.aerodynamics, s.analyses.energy = a, e
    return s, atm, pl, a, e, m0

def run(s):
    s.process.initialize(s); s.process.iterate(s)

def newton(h, s, atm, pl, aero, net, m0, pitch, n, mass=None, wings=True):
    """oracle: the net force on the vehicle from its velocity, attitude, coefficients, thrust and weight"""
    c = s.state.conditions
    v = c.frames.inertial.velocity_vector
    alt = c.freestream.altitude[:, 0]
    if mass is None:
        I = s.state.numerics.time.integrate
        mass = [m0 - sum(I[i, j] * net.mdot[j] for j in range(n)) for i in range(n)]
    F = []
    for i in range(n):
        vx, vz = v[i, 0], v[i, 2]
        V = h.sqrt(vx * vx + vz * vz)
        k = .5 * atm.at('rho', alt[i]) * V * aero.S if wings else 0.
        T = net.F[i]; ct, st = h.cos(pitch[i]), h.sin(pitch[i])
        L, D = (aero.CL[i], aero.CD[i])
        fx = T[0] * ct + T[2] * st + k * (L * vz - D * vx)
        fz = -T[0] * st + T[2] * ct + k * (-L * vx - D * vz) + mass[i] * pl.g0 * (1 - pl.kg * alt[i])
        F.append((fx, T[1], fz))
        h.eq('dynamic pressure', c.freestream.dynamic_pressure[i, 0], .5 * atm.at('rho', alt[i]) * (vx * vx + vz * vz)); h.eq('mach', c.freestream.mach_number[i, 0] * atm.at('a', alt[i]), V)
        h.eq('gravity', c.freestream.gravity[i, 0], pl.g0 * (1 - pl.kg * alt[i]))
    h.eq('mass', c.weights.total_mass[:, 0], mass)
    return F, mass

def unknowns(h, s, n, what=('throttle', 'body_angle')):
    u = s.state.unknowns
    out = []
    for w in what:
        lo, hi = dict(throttle=(0, 1.2), body_angle=(-.4, .6))[w]
        vals = [h.real('%s%d' % (w, i), lo, hi) for i in range(n)]
        u[w] = col(h, vals); out.append(vals)
    return out

def acc(s, n, k):
    D = s.state.numerics.time.differentiate; v = s.state.conditions.frames.inertial.velocity_vector
    return [sum(D[i, j] * v[j, k] for j in range(n)) for i in range(n)]

def climb_body(h, cls, n, **kw):
    n = 3 if h.thorough else n
    s, atm, pl, a, e, m0 = make(h, cls, n, **kw)
    s.process.initialize(s)
    thr, th = unknowns(h, s, n)
    s.process.iterate(s)
    F, m = newton(h, s, atm, pl, a, e, m0, th, n)
    ax, az = acc(s, n, 0), acc(s, n, 2)
    r = s.state.residuals.forces
    for i in range(n):
        h.eq('along', r[i, 0] * m[i], F[i][0] - m[i] * ax[i], rtol=1e-5, atol=1e-3); h.eq('normal', r[i, 1] * m[i], F[i][2] - m[i] * az[i], rtol=1e-5, atol=1e-3)
    h.eq('throttle', e.throttle[:, 0], thr)

def alts(h, up=True):
    a0 = h.real('alt0', 100, 10000); da = h.real('da', 100, 3000)
    if not up: h.assume(a0 >= da)
    return dict(altitude_start=a0, altitude_end=a0 + da if up else a0 - da)
@harness('M03', bounds='2 control points: constant speed, constant rate climb; any aerodynamic coefficients, thrust vector, mass flow, pitch, atmosphere, gravity', q=20)
def climb_speed_rate(h):
    climb_body(h, Seg.Climb.Constant_Speed_Constant_Rate, 2, climb_rate=h.real('rate', .5, 15), air_speed=h.real('V', 30, 300), **alts(h))
@harness('M03', bounds='2 control points: linear speed, constant rate climb', q=20)
def climb_linear_speed(h):
    climb_body(h, Seg.Climb.Linear_Speed_Constant_Rate, 2, climb_rate=h.real('rate', .5, 15), air_speed_start=h.real('V0', 30, 300), air_speed_end=h.real('V1', 30, 300), **alts(h))
@harness('M03', bounds='2 control points: constant speed, constant angle climb', q=20)
def climb_speed_angle(h):
    climb_body(h, Seg.Climb.Constant_Speed_Constant_Angle, 2, climb_angle=h.real('angle', .01, .4), air_speed=h.real('V', 30, 300), **alts(h))
@harness('M03', bounds='2 control points: constant Mach, constant rate climb', q=20)
def climb_mach_rate(h):
    climb_body(h, Seg.Climb.Constant_Mach_Constant_Rate, 2, climb_rate=h.real('rate', .5, 15), mach_number=h.real('M', .15, .9), **alts(h))
@harness('M03', bounds='2 control points: constant speed descents at constant rate and constant angle', q=20)
def descents(h):
    k = h.choice('kind', ['rate', 'angle'])
    if k == 'rate': climb_body(h, Seg.Descent.Constant_Speed_Constant_Rate, 2, descent_rate=h.real('rate', .5, 15), air_speed=h.real('V', 30, 300), **alts(h, False))
    else: climb_body(h, Seg.Descent.Constant_Speed_Constant_Angle, 2, descent_angle=h.real('angle', .01, .4), air_speed=h.real('V', 30, 300), **alts(h, False))
@harness('M03', bounds='2 control points: straight line climb over a distance at constant speed or Mach', q=20)
def climb_linear_altitude(h):
    k = h.choice('kind', ['speed', 'mach'])
    kw = dict(air_speed=h.real('V', 30, 300)) if k == 'speed' else dict(mach=h.real('M', .15, .9))
    climb_body(h, Seg.Climb.Constant_Speed_Linear_Altitude if k == 'speed' else Seg.Climb.Constant_Mach_Linear_Altitude, 2, distance=h.real('distance', 1e3, 5e5), **kw, **alts(h))

def level_body(h, cls, n, ax, **kw):
    n = 3 if h.thorough else n
    s, atm, pl, a, e, m0 = make(h, cls, n, altitude=h.real('alt0', 100, 11000), **kw)
    s.process.initialize(s)
    thr, th = unknowns(h, s, n)
    s.process.iterate(s)
    F, m = newton(h, s, atm, pl, a, e, m0, th, n)
    r = s.state.residuals.forces
    for i in range(n):
        if ax is None: h.eq('horizontal', r[i, 0] * r[i, 0] * m[i] * m[i], F[i][0] * F[i][0] + F[i][1] * F[i][1], rtol=1e-5, atol=1e-2)
        else: h.eq('along', r[i, 0] * m[i], F[i][0] - m[i] * ax, rtol=1e-5, atol=1e-3)
        h.eq('vertical', r[i, 1] * m[i], F[i][2], rtol=1e-5, atol=1e-3)
    h.eq('throttle', e.throttle[:, 0], thr)
@harness('M03', bounds='2 control points: constant speed cruise and loiter', q=20)
def cruise_speed(h):
    if h.choice('kind', ['cruise', 'loiter']) == 'cruise': level_body(h, Seg.Cruise.Constant_Speed_Constant_Altitude, 2, None, air_speed=h.real('V', 30, 300), distance=h.real('distance', 1e3, 1e7))
    else: level_body(h, Seg.Cruise.Constant_Speed_Constant_Altitude_Loiter, 2, None, air_speed=h.real('V', 30, 300), time=h.real('time', 10, 1e4))
@harness('M03', bounds='2 control points: constant Mach cruise and loiter', q=20)
def cruise_mach(h):
    if h.choice('kind', ['cruise', 'loiter']) == 'cruise': level_body(h, Seg.Cruise.Constant_Mach_Constant_Altitude, 2, None, mach=h.real('M', .15, .9), distance=h.real('distance', 1e3, 1e7))
    else: level_body(h, Seg.Cruise.Constant_Mach_Constant_Altitude_Loiter, 2, None, mach=h.real('M', .15, .9), time=h.real('time', 10, 1e4))
@harness('M03', bounds='2 control points: level acceleration', q=20)
def cruise_acceleration(h):
    v0, v1, a = h.real('V0', 20, 300), h.real('V1', 20, 300), h.real('acc', -5, 5); h.assume((v1 - v0) * a > 1)
    level_body(h, Seg.Cruise.Constant_Acceleration_Constant_Altitude, 2, a, air_speed_start=v0, air_speed_end=v1, acceleration=a)

@harness('M03', bounds='2 control points: hover, vertical climb and descent (no wing forces)', q=20)
def hover(h):
    n = 2; k = h.choice('kind', ['hover', 'climb', 'descent'])
    a0 = h.real('alt0', 100, 9000); r = h.real('rate', .3, 15); da = h.real('da', 10, 90)
    H = Seg.Hover
    kw = dict(altitude=a0, time=h.real('time', 1, 1000)) if k == 'hover' else (dict(altitude_start=a0, altitude_end=a0 + da, climb_rate=r) if k == 'climb' else dict(altitude_start=a0, altitude_end=a0 - da, descent_rate=r))
    s, atm, pl, a, e, m0 = make(h, dict(hover=H.Hover, climb=H.Climb, descent=H.Descent)[k], n, **kw)
    s.process.initialize(s)
    thr, = unknowns(h, s, n, ['throttle'])
    s.process.iterate(s)
    F, m = newton(h, s, atm, pl, a, e, m0, [0.] * n, n, wings=False)
    for i in range(n): h.eq('vertical', s.state.residuals.force[i, 0], F[i][2], rtol=1e-5, atol=1e-3)
    h.eq('throttle', e.throttle[:, 0], thr)

@harness('M03', bounds='2 control points: level transition with scheduled pitch', q=20)
def transition_level(h):
    n = 2
    v0, v1, a = h.real('V0', 1, 100), h.real('V1', 1, 100), h.real('acc', -5, 5); h.assume((v1 - v0) * a > 1)
    p0, p1 = h.real('pit0', -.2, 1.5), h.real('pit1', -.2, 1.5)
    s, atm, pl, ae, e, m0 = make(h, Seg.Transition.Constant_Acceleration_Constant_Pitchrate_Constant_Altitude, n, altitude=h.real('alt0', 10, 5000), air_speed_start=v0, air_speed_end=v1, acceleration=a, pitch_initial=p0, pitch_final=p1)
    # the attitude is prescribed: the networks of this segment provide the unknowns
    s.process.iterate.unknowns.mission = lambda s: None
    run(s)
    F, m = newton(h, s, atm, pl, ae, e, m0, [p0, p1], n)
    r = s.state.residuals.forces
    for i in range(n): h.eq('along', r[i, 0] * m[i], F[i][0] - m[i] * a, rtol=1e-5, atol=1e-3); h.eq('vertical', r[i, 1] * m[i], F[i][2], rtol=1e-5, atol=1e-3)

@harness('M03', bounds='2 control points: accelerating climb with scheduled pitch', q=20)
def transition_climb(h):
    n = 2
    p0, p1 = h.real('pit0', -.2, 1.5), h.real('pit1', -.2, 1.5)
    s, atm, pl, ae, e, m0 = make(h, Seg.Transition.Constant_Acceleration_Constant_Angle_Linear_Climb, n, air_speed=h.real('V0', 1, 100), climb_angle=h.real('angle', .05, 1.), acceleration=h.real('acc', .1, 5), pitch_initial=p0, pitch_final=p1, **alts(h))
    s.process.iterate.unknowns.mission = lambda s: None
    s.process.initialize(s)
    # the profile itself is M01's subject: any speeds and duration
    f = s.state.conditions.frames.inertial
    f.velocity_vector = h.array([[h.real('wx%d' % i, 1, 200), 0., h.real('wz%d' % i, -50, 20)] for i in range(n)]); f.time = col(h, [0., h.real('T', 1, 1000)])
    s.process.iterate(s)
    F, m = newton(h, s, atm, pl, ae, e, m0, [p0, p1], n)
    r = s.state.residuals.forces; ax, az = acc(s, n, 0), acc(s, n, 2)
    for i in range(n): h.eq('along', r[i, 0] * m[i], F[i][0] - m[i] * ax[i], rtol=1e-5, atol=1e-3); h.eq('normal', r[i, 1] * m[i], F[i][2] - m[i] * az[i], rtol=1e-5, atol=1e-3)

@harness('M03', bounds='2 control points: constant pitch rate at constant altitude, any airspeed unknowns', q=20)
def pitch_rate(h):
    n = 2
    p0, dp = h.real('pit0', -.2, 1.), h.real('dpit', .01, .5)
    s, atm, pl, a, e, m0 = make(h, Seg.Cruise.Constant_Pitch_Rate_Constant_Altitude, n, altitude=h.real('alt0', 10, 9000), pitch_initial=p0, pitch_final=p0 + dp, pitch_rate=h.real('prate', .005, .2))
    s.process.initialize(s)
    thr, = unknowns(h, s, n, ['throttle'])
    v = [h.real('vel%d' % i, 20, 300) for i in range(n)]; s.state.unknowns.velocity = col(h, v)
    s.process.iterate(s)
    h.eq('speed', s.state.conditions.frames.inertial.velocity_vector[:, 0], v)
    F, m = newton(h, s, atm, pl, a, e, m0, [p0, p0 + dp], n)
    r = s.state.residuals.forces; ax = acc(s, n, 0)
    for i in range(n):
        h.eq('along', r[i, 0] * m[i], F[i][0] - m[i] * ax[i], rtol=1e-5, atol=1e-3)
        # the vertical balance is solved as a force, level flight has no vertical acceleration
        h.eq('vertical', r[i, 1], F[i][2], rtol=1e-5, atol=1e-3)

@harness('M03', bounds='2 control points: level acceleration at constant throttle, any pitch, acceleration and duration unknowns', q=20)
def throttle_cruise(h):
    n = 2
    v0, v1 = h.real('V0', 20, 300), h.real('V1', 20, 300); h.assume(v0 != v1)
    tset = h.real('thr', 0, 1)
    s, atm, pl, a, e, m0 = make(h, Seg.Cruise.Constant_Throttle_Constant_Altitude, n, altitude=h.real('alt0', 10, 9000), air_speed_start=v0, air_speed_end=v1, throttle=tset)
    s.process.initialize(s)
    th, = unknowns(h, s, n, ['body_angle'])
    A = [h.real('accx%d' % i, -3, 3) for i in range(n)]; s.state.unknowns.accel_x = col(h, A); T = s.state.unknowns.time = h.real('T', 1, 1000)
    I = s.state.numerics.dimensionless.integrate
    vv = [v0 + T * sum(I[i, j] * A[j] for j in range(n)) for i in range(n)]
    for x in vv: h.assume(x > 5)
    s.process.iterate(s)
    c = s.state.conditions
    h.eq('speed', c.frames.inertial.velocity_vector[:, 0], vv)
    h.eq('time', c.frames.inertial.time[-1, 0] - c.frames.inertial.time[0, 0], T)
    F, m = newton(h, s, atm, pl, a, e, m0, th, n)
    r = s.state.residuals.forces
    for i in range(n): h.eq('along', r[i, 0] * m[i], F[i][0] - m[i] * A[i], rtol=1e-5, atol=1e-3); h.eq('vertical', r[i, 1] * m[i], F[i][2], rtol=1e-5, atol=1e-3)
    h.eq('final speed', s.state.residuals.final_velocity_error, vv[-1] - v1)
    h.eq('throttle', e.throttle[:, 0], [tset] * n)

@harness('M03', bounds='2 control points: climb at constant throttle and speed, any pitch and angle-of-attack unknowns', q=20)
def throttle_climb(h):
    n = 2; V = h.real('V', 30, 300); tset = h.real('thr', 0, 1)
    s, atm, pl, a, e, m0 = make(h, Seg.Climb.Constant_Throttle_Constant_Speed, n, air_speed=V, throttle=tset, **alts(h))
    th = [h.real('th%d' % i, .1, .5) for i in range(n)]; al = [h.real('al%d' % i, -.05, .05) for i in range(n)]
    s.process.initialize(s)
    s.state.unknowns.body_angle, s.state.unknowns.wind_angle = col(h, th), col(h, al)
    s.process.iterate(s)
    c = s.state.conditions; v = c.frames.inertial.velocity_vector
    for i in range(n):
        h.eq('speed', v[i, 0] * v[i, 0] + v[i, 2] * v[i, 2], V * V); h.eq('flight path', -v[i, 2] * h.cos(th[i] - al[i]), v[i, 0] * h.sin(th[i] - al[i]))
    h.eq('ends', [c.freestream.altitude[0, 0], c.freestream.altitude[-1, 0]], [s.altitude_start, s.altitude_end])
    F, m = newton(h, s, atm, pl, a, e, m0, th, n)
    r = s.state.residuals.forces; ax, az = acc(s, n, 0), acc(s, n, 2)
    for i in range(n): h.eq('along', r[i, 0] * m[i], F[i][0] - m[i] * ax[i], rtol=1e-5, atol=1e-3); h.eq('normal', r[i, 1] * m[i], F[i][2] - m[i] * az[i], rtol=1e-5, atol=1e-3)
    h.eq('throttle', e.throttle[:, 0], [tset] * n)

@harness('M03', bounds='trim points: any speed, accelerations, attitude; no mass change', q=20)
def single_point(h):
    P = Seg.Single_Point; n = 1
    k = h.choice('kind', ['altitude', 'throttle', 'unpowered'])
    cls = dict(altitude=P.Set_Speed_Set_Altitude, throttle=P.Set_Speed_Set_Throttle, unpowered=P.Set_Speed_Set_Altitude_No_Propulsion)[k]
    V, az, ax = h.real('V', 20, 300), h.real('az', -20, 20), h.real('ax', -20, 20)
    kw = dict(altitude=h.real('alt0', 10, 9000), air_speed=V, z_accel=az)
    if k == 'altitude': kw['x_accel'] = ax
    if k == 'throttle': kw['throttle'] = h.real('thr', 0, 1)
    s, atm, pl, a, e, m0 = make(h, cls, n, **kw)
    if k == 'throttle': s.state.unknowns.x_accel = h.array([[ax]])
    s.process.initialize(s)
    th = [h.real('th', -.4, .5)]; s.state.unknowns.body_angle = col(h, th)
    if k == 'altitude': s.state.unknowns.throttle = col(h, [h.real('thr', 0, 1)])
    if k == 'unpowered': e.F = [[0., 0., 0.]]
    s.process.iterate(s)
    F, m = newton(h, s, atm, pl, a, e, m0, th, n, mass=[m0])
    if k == 'unpowered': h.eq('normal', s.state.residuals.force[0] * m0, F[0][2] - m0 * az, rtol=1e-5, atol=1e-3)
    else:
        r = s.state.residuals.forces
        h.eq('along', r[0, 0] * m0, F[0][0] - m0 * ax, rtol=1e-5, atol=1e-3); h.eq('normal', r[0, 1] * m0, F[0][2] - m0 * az, rtol=1e-5, atol=1e-3)

@harness('M03', bounds='2 control points: takeoff and landing roll, any speeds, friction, duration; weight on wheels', q=20)
def ground(h):
    n = 2
    k = h.choice('kind', [Seg.Ground.Takeoff, Seg.Ground.Landing])
    v0, v1, mu, tset = h.real('V0', 1, 100), h.real('V1', 1, 100), h.real('mu', 0, 1), h.real('thr', 0, 1); h.assume(v0 != v1)
    s, atm, pl, a, e, m0 = make(h, k, n, altitude=h.real('alt0', 0, 3000), velocity_start=v0, velocity_end=v1, friction_coefficient=mu, throttle=tset)
    for cl in a.CL: h.assume(cl >= 0)
    s.process.initialize(s)
    T = s.state.unknowns.time = h.real('T', 1, 300)
    ve = h.real('ve', 1, 100); s.state.unknowns.velocity_x = h.array([ve])
    s.process.iterate(s)
    c = s.state.conditions
    h.eq('speeds', c.frames.inertial.velocity_vector[:, 0], [v0, ve]); h.eq('duration', c.frames.inertial.time[1, 0] - c.frames.inertial.time[0, 0], T)
    for x in c.weights.total_mass[:, 0]: h.assume(x >= 100)
    F, m = newton(h, s, atm, pl, a, e, m0, [0., 0.], n)
    r = s.state.residuals.forces; ax = acc(s, n, 0)
    for i in range(1, n):
        v = c.frames.inertial.velocity_vector[i, 0]
        lift = .5 * atm.at('rho', s.altitude) * v * v * a.S * a.CL[i]; W = m[i] * pl.g0 * (1 - pl.kg * s.altitude)
        load = (W - lift) if h.decide(W >= lift) else 0.
        h.eq('rolling', r[i - 1, 0] * m[i], F[i][0] - mu * load - m[i] * ax[i], rtol=1e-5, atol=1e-3)
    h.eq('final speed', s.state.residuals.final_velocity_error, ve - v1)
    h.eq('throttle', e.throttle[:, 0], [tset] * n)

# ---- frames and forces alone, in three dimensions
@harness('M03', bounds='any three rotation angles within +-3 rad: rotation matrices are orthogonal, right handed and equal the standard yaw-pitch-roll product', q=20)
def rotations(h):
    a = [h.real(n, -3, 3) for n in ('phi', 'theta', 'psi')]
    T = angles_to_dcms(h.array([a]), (2, 1, 0))[0]
    for i in range(3):
        for j in range(3): h.eq('orthogonal', sum(T[i, k] * T[j, k] for k in range(3)), 1. if i == j else 0.)
    cf, sf, ct, st, cp, sp = h.cos(a[0]), h.sin(a[0]), h.cos(a[1]), h.sin(a[1]), h.cos(a[2]), h.sin(a[2])
    h.eq('body x', T[0], [ct * cp, ct * sp, -st])
    h.eq('body y', T[1], [sf * st * cp - cf * sp, sf * st * sp + cf * cp, sf * ct])
    h.eq('body z', T[2], [cf * st * cp + sf * sp, cf * st * sp - sf * cp, cf * ct])
    x = h.array([[h.real('x%d' % i, -1, 1) for i in range(3)]])
    TT = h.array([[[T[i, j] for j in range(3)] for i in range(3)]])
    y = orientation_product(orientation_transpose(TT), orientation_product(TT, x))
    h.eq('inverse', y, x)

class _S(object): pass
def state(h, n=1):
    s = segment(h, Seg.Cruise.Constant_Speed_Constant_Altitude, n=n)
    s.process.initialize.expand_state(s)
    return s

@harness('M03', bounds='any velocity with forward component in body axes, any pitch/roll/yaw: the wind axes follow the velocity, angles measure it', q=25, timeout=300)
def wind_axes(h):
    s = state(h); c = s.state.conditions
    phi, th, psi = h.real('phi', -1, 1), h.real('theta', -1, 1), h.real('psi', -3, 3)
    # velocity given by its body components so that incidence and side-slip are arbitrary
    u, v, w = h.real('u', 5, 300), h.real('v', -100, 100), h.real('w', -100, 100)
    mode = h.choice('mode', ['pitch only', 'roll', 'yaw', 'all'])
    if mode == 'pitch only': phi = psi = 0. ; v = 0.
    if mode == 'roll': psi = 0.
    if mode == 'yaw': phi = 0.
    T = angles_to_dcms(h.array([[phi, th, psi]]), (2, 1, 0))[0]
    V = [sum(T[k, i] * (u, v, w)[k] for k in range(3)) for i in range(3)]
    c.frames.inertial.velocity_vector = h.array([V]); c.frames.body.inertial_rotations = h.array([[phi, th, psi]])
    Frames.update_orientations(s)
    A = c.aerodynamics
    al, be = A.angle_of_attack[0, 0], A.side_slip_angle[0, 0]
    h.eq('incidence', h.tan(al) * u, w)
    h.eq('side-slip', h.sin(be) * h.sqrt(u * u + v * v + w * w), -v)
    h.eq('roll', A.roll_angle[0, 0], phi)
    B = c.frames.body.transform_to_inertial[0]; W = c.frames.wind.transform_to_inertial[0]
    h.eq('body axes', B, [[T[j, i] for j in range(3)] for i in range(3)])
    n = h.sqrt(u * u + v * v + w * w)
    h.eq('velocity along wind x', [W[i, 0] * n for i in range(3)], V, atol=1e-6)
    # lift is normal to the velocity and lies in the plane of symmetry: no side component
    yb = [T[1, i] for i in range(3)]; zw = [W[i, 2] for i in range(3)]
    h.eq('lift normal', sum(zw[i] * V[i] for i in range(3)), 0., atol=1e-6)
    h.eq('lift in the plane of symmetry', sum(zw[i] * yb[i] for i in range(3)), 0.)

@harness('M03', bounds='any body, wind and gravity forces and any two transformation matrices: the total is their sum in inertial axes', q=20)
def force_sum(h):
    s = state(h); c = s.state.conditions
    B = [[h.real('b%d%d' % (i, j), -1, 1) for j in range(3)] for i in range(3)]; W = [[h.real('w%d%d' % (i, j), -1, 1) for j in range(3)] for i in range(3)]
    c.frames.body.transform_to_inertial, c.frames.wind.transform_to_inertial = h.array([B]), h.array([W])
    L, D, T, G = [[h.real('%s%d' % (k, i), -1e5, 1e5) for i in range(3)] for k in 'LDTG']
    c.frames.wind.lift_force_vector, c.frames.wind.drag_force_vector = h.array([L]), h.array([D])
    c.frames.body.thrust_force_vector, c.frames.inertial.gravity_force_vector = h.array([T]), h.array([G])
    Frames.update_forces(s)
    for i in range(3):
        h.eq('total', c.frames.inertial.total_force_vector[0, i], sum(W[i][j] * (L[j] + D[j]) + B[i][j] * T[j] for j in range(3)) + G[i], atol=1e-4)

@harness('M03', bounds='3 points, any lift and drag coefficients, limit 0.5..4, dynamic pressure possibly zero: lift coefficient limited on both sides, no forces without dynamic pressure', q=20)
def coefficient_limits(h):
    n = 3; s = state(h, n); c = s.state.conditions
    lim = h.real('lim', .5, 4)
    a = Aero(h, n, lim); s.analyses.aerodynamics = a
    q = [h.real('q%d' % i, 0, 2e4) for i in range(n)]; c.freestream.dynamic_pressure = col(h, q)
    CL, CD = list(a.CL), list(a.CD)
    Aerodynamics.update_aerodynamics(s)
    for i in range(n):
        cl = lim if h.decide(CL[i] > lim) else (-lim if h.decide(CL[i] < -lim) else CL[i])
        cd = CD[i]
        if not h.decide(q[i] > 0): cl = cd = 0.
        h.eq('CL', c.aerodynamics.lift_coefficient[i, 0], cl); h.eq('CD', c.aerodynamics.drag_coefficient[i, 0], cd)
        h.eq('lift', c.frames.wind.lift_force_vector[i], [0., 0., -cl * q[i] * a.S]); h.eq('drag', c.frames.wind.drag_force_vector[i], [-cd * q[i] * a.S, 0., 0.])

@harness('M03', bounds='any velocity vector and air: speed, dynamic pressure, Mach, Reynolds number; altitude from position', q=20)
def freestream(h):
    s = state(h, 2); c = s.state.conditions
    V = [[h.real('v%d%d' % (i, j), -300, 300) for j in range(3)] for i in range(2)]
    for x in V: h.assume(x[0] * x[0] + x[1] * x[1] + x[2] * x[2] >= 1)
    c.frames.inertial.velocity_vector = h.array(V)
    rho, a, mu, z = [[h.real('%s%d' % (k, i), lo, hi) for i in range(2)] for k, lo, hi in (('rho', .01, 2), ('a', 200, 400), ('mu', 1e-5, 3e-5), ('z', 0, 2e4))]
    c.freestream.density, c.freestream.speed_of_sound, c.freestream.dynamic_viscosity = col(h, rho), col(h, a), col(h, mu)
    c.frames.inertial.position_vector = h.array([[1., 2., -z[0]], [3., 4., -z[1]]])
    Aerodynamics.update_altitude(s); Aerodynamics.update_freestream(s)
    f = c.freestream
    for i in range(2):
        V2 = sum(x * x for x in V[i]); v = f.velocity[i, 0]
        h.eq('speed', v * v, V2); h.ge('positive', v, 0); h.eq('altitude', f.altitude[i, 0], z[i])
        h.eq('q', f.dynamic_pressure[i, 0], .5 * rho[i] * V2); h.eq('mach', f.mach_number[i, 0] * a[i], v); h.eq('reynolds', f.reynolds_number[i, 0] * mu[i], rho[i] * v)
