"""M02: the discrete calculus of a segment (derivatives, integrals, time scaling) is exact."""
from engine.harness import harness
import SUAVE, numpy as np
from SUAVE.Core import Data
from props._mission import *
from SUAVE.Methods.Utilities.Chebyshev import chebyshev_data, linear_data
from SUAVE.Methods.Missions.Segments.Common import Numerics, Frames, Weights

def poly(h, deg, x, d=0):
    """value of sum c_k x^k (d=0), its derivative (d=1), or its integral from 0 (d=-1)"""
    c = [h.C[k] for k in range(deg + 1)]
    if d == 0: return sum(c[k] * float(x) ** k for k in range(deg + 1))
    if d == 1: return sum((c[k] * (k * float(x) ** (k - 1)) for k in range(1, deg + 1)), 0. * c[0])
    return sum(c[k] * (float(x) ** (k + 1) / (k + 1)) for k in range(deg + 1))

def operators(h, f, N, tol):
    x, D, I = f(N)
    h.C = [h.real('c%d' % k, -1, 1) for k in range(N)]
    h.eq('ends', [x[0], x[-1]], [0., 1.]); h.true('ordered', all(x[i] < x[i + 1] for i in range(N - 1))); h.true('shape', D.shape == (N, N) and I.shape == (N, N))
    y = [poly(h, N - 1, t) for t in x]
    for i in range(N): h.eq('derivative', sum(D[i, j] * y[j] for j in range(N)), poly(h, N - 1, x[i], 1), atol=tol)
    z = [poly(h, N - 2, t) for t in x]
    for i in range(N): h.eq('integral', sum(I[i, j] * z[j] for j in range(N)), poly(h, N - 2, x[i], -1), atol=tol)
    # integrating the derivative returns the change of any sampled function
    g = [h.real('g%d' % k, -1, 1) for k in range(N)]
    dg = [sum(D[i, j] * g[j] for j in range(N)) for i in range(N)]
    for i in range(N): h.eq('fundamental theorem', sum(I[i, j] * dg[j] for j in range(N)), g[i] - g[0], atol=tol)

@harness('M02', bounds='2..10, 16 Chebyshev points; every polynomial up to the exact degree with coefficients in [-1,1]', q=20, timeout=400, weight=3)
def chebyshev(h): operators(h, chebyshev_data, h.choice('N', [2, 3, 4, 5, 6, 7, 8, 9, 10, 16]), 1e-7)
@harness('M02', tier='thorough', bounds='11..20, 24, 32 Chebyshev points', q=30)
def chebyshev_large(h): operators(h, chebyshev_data, h.choice('N', [11, 12, 13, 14, 15, 17, 18, 19, 20, 24, 32]), 1e-6)
@harness('M02', bounds='2 and 3 equally spaced points (the operators are exact on equal spacing only there)', q=20)
def linear(h): operators(h, linear_data, h.choice('N', [2]), 1e-8)

def seg(h, n, method=None):
    s = segment(h, SUAVE.Analyses.Mission.Segments.Cruise.Constant_Speed_Constant_Altitude, n=n)
    if method: s.state.numerics.discretization_method = method
    s.process.initialize.expand_state(s)
    Numerics.initialize_differentials_dimensionless(s)
    return s

@harness('M02', bounds='2..6 control points, any start time and duration: operators and control points scale with the duration', q=15)
def time_scaling(h):
    n = h.choice('n', [2, 3, 4, 6]); s = seg(h, n)
    d = s.state.numerics.dimensionless
    t0, T = h.real('t0', 0, 1e5), h.real('T', .1, 5e4)
    t = s.state.conditions.frames.inertial.time = col(h, [t0 + T * x for x in d.control_points[:, 0]])
    Numerics.update_differentials_time(s)
    m = s.state.numerics.time
    h.eq('points', m.control_points[:, 0], [T * x for x in d.control_points[:, 0]])
    # a quadratic motion is differentiated and integrated exactly in seconds
    a, b, c = h.real('a', -5, 5), h.real('b', -50, 50), h.real('c', -1, 1)
    deg = min(n - 1, 2)
    f = [a + b * (x * T) + (c * (x * T) * (x * T) if deg == 2 else 0.) for x in d.control_points[:, 0]]
    for i, x in enumerate(d.control_points[:, 0]):
        h.eq('rate', sum(m.differentiate[i, j] * f[j] for j in range(n)), b + (2 * c * x * T if deg == 2 else 0.), atol=1e-6)
    g = [a + (b * (x * T) if n > 2 else 0.) for x in d.control_points[:, 0]]
    for i, x in enumerate(d.control_points[:, 0]):
        h.eq('integral', sum(m.integrate[i, j] * g[j] for j in range(n)), a * x * T + (b * x * T * x * T / 2 if n > 2 else 0.), atol=1e-5)

def timed(h, n):
    s = seg(h, n); d = s.state.numerics.dimensionless
    T = h.real('T', 10, 5e4); t0 = h.real('t0', 0, 1e5)
    s.state.conditions.frames.inertial.time = col(h, [t0 + T * x for x in d.control_points[:, 0]])
    Numerics.update_differentials_time(s)
    return s, T, [float(x) for x in d.control_points[:, 0]]

@harness('M02', bounds='3..4 control points; velocity any quadratic in time in all three axes', q=15)
def acceleration(h):
    n = h.choice('n', [3, 4]); s, T, x = timed(h, n)
    k = [[h.real('v%d%d' % (i, j), -100, 100) for j in range(3)] for i in range(3)]
    s.state.conditions.frames.inertial.velocity_vector = h.array([[k[0][j] + k[1][j] * z + k[2][j] * z * z for j in range(3)] for z in x])
    Frames.update_acceleration(s)
    for i, z in enumerate(x): h.eq('acceleration', [T * a for a in s.state.conditions.frames.inertial.acceleration_vector[i]], [k[1][j] + 2 * k[2][j] * z for j in range(3)], atol=1e-5)

@harness('M02', bounds='3..4 control points; velocity linear in time, any course and starting point', q=15)
def horizontal_position(h):
    n = h.choice('n', [3, 4]); s, T, x = timed(h, n)
    u, w = h.real('u', 0, 300), h.real('w', -100, 100)
    c = s.state.conditions
    c.frames.inertial.velocity_vector = h.array([[u + w * z, 0., h.real('vz%d' % i, -20, 20)] for i, z in enumerate(x)])
    X, Y, R = h.real('X', -1e6, 1e6), h.real('Y', -1e6, 1e6), h.real('R', 0, 1e7)
    zs = [h.real('z%d' % i, -12000, 0) for i in range(n)]
    c.frames.inertial.position_vector = h.array([[X, Y, zs[i]] for i in range(n)])
    c.frames.inertial.aircraft_range = col(h, [R] * n)
    b = s.true_course = h.real('course', -3.1, 3.1)
    Frames.integrate_inertial_horizontal_position(s)
    for i, z in enumerate(x):
        d = T * (u * z + w * z * z / 2)
        h.eq('x', c.frames.inertial.position_vector[i, 0], X + d * h.cos(b), atol=1e-4); h.eq('y', c.frames.inertial.position_vector[i, 1], Y + d * h.sin(b), atol=1e-4)
        h.eq('z', c.frames.inertial.position_vector[i, 2], zs[i]); h.eq('range', c.frames.inertial.aircraft_range[i, 0], R + d, atol=1e-4)

@harness('M02', bounds='3..4 control points; any speed, climb angle, course, altitude, start latitude/longitude: rates of latitude and longitude follow the sphere', q=20)
def planet_position(h):
    n = h.choice('n', [3, 4]); s, T, x = timed(h, n)
    pl = s.analyses.planet = Planet(h); Re = pl.features.mean_radius
    c = s.state.conditions
    V = [h.real('V%d' % i, 10, 300) for i in range(n)]; A = [h.real('A%d' % i, 0, 12000) for i in range(n)]
    th = [h.real('th%d' % i, -.3, .3) for i in range(n)]; al = [h.real('al%d' % i, -.2, .2) for i in range(n)]
    c.freestream.velocity = col(h, V); c.freestream.altitude = col(h, A)
    c.frames.body.inertial_rotations = h.array([[0., t, 0.] for t in th]); c.aerodynamics.angle_of_attack = col(h, al)
    la, lo = h.real('lat', -60, 60), h.real('lon', -170, 170)
    c.frames.planet.latitude = col(h, [la] * n); c.frames.planet.longitude = col(h, [lo] * n)
    psi = s.true_course = h.real('course', -3.1, 3.1)
    Frames.update_planet_position(s)
    I = s.state.numerics.time.integrate
    deg = np.pi / 180.
    g = [V[j] / (A[j] + Re) * h.cos(th[j] - al[j]) for j in range(n)]
    LA = c.frames.planet.latitude[:, 0]
    for i in range(n):
        h.eq('latitude', LA[i], la + sum(I[i, j] * g[j] for j in range(n)) * h.cos(psi) / deg, atol=1e-7)
        h.eq('longitude', c.frames.planet.longitude[i, 0], lo + sum(I[i, j] * g[j] * h.sin(psi) / h.cos(LA[j] * deg) for j in range(n)) / deg, atol=1e-7)

@harness('M02', bounds='3..4 control points; fuel flow linear in time, one or two consumables, any gravity', q=15)
def mass_history(h):
    n = h.choice('n', [3, 4]); s, T, x = timed(h, n)
    two = h.choice('second consumable', [False, True])
    w = s.state.conditions.weights
    m0 = h.real('m0', 1e3, 4e5)
    w.total_mass = col(h, [m0] * n)
    lin = lambda nm: (h.real(nm + '0', 0, 5), h.real(nm + '1', -2, 5))
    p, q = lin('f'), lin('a')
    g = [h.real('g%d' % i, 9, 10.5) for i in range(n)]
    s.state.conditions.freestream.gravity = col(h, g)
    ev = lambda k, z: k[0] + k[1] * z
    iv = lambda k, z: T * (k[0] * z + k[1] * z * z / 2)
    w.vehicle_mass_rate = col(h, [ev(p, z) + (ev(q, z) if two else 0.) for z in x])
    if two:
        w.has_additional_fuel = True; w.vehicle_fuel_rate = col(h, [ev(p, z) for z in x]); w.vehicle_additional_fuel_rate = col(h, [ev(q, z) for z in x])
        f0, a0 = h.real('mf', 0, 1e5), h.real('ma', 0, 1e5)
        w.fuel_mass = col(h, [f0] * n); w.additional_fuel_mass = col(h, [a0] * n)
    Weights.update_weights(s)
    for i, z in enumerate(x):
        used = iv(p, z) + (iv(q, z) if two else 0.)
        h.eq('mass', w.total_mass[i, 0], m0 - used, atol=1e-4)
        h.eq('weight', s.state.conditions.frames.inertial.gravity_force_vector[i], [0., 0., w.total_mass[i, 0] * g[i]], atol=1e-3)
        if two:
            h.eq('fuel', w.fuel_mass[i, 0], f0 - iv(p, z), atol=1e-4); h.eq('additional', w.additional_fuel_mass[i, 0], a0 - iv(q, z), atol=1e-4)

@harness('M02', bounds='3 control points; altitude change and any (one-signed) vertical speeds: the segment lasts exactly as long as the climb', q=15)
def climb_time(h):
    from SUAVE.Methods.Missions.Segments.Climb.Common import update_differentials_altitude
    n = 3; s = seg(h, n); c = s.state.conditions
    up = h.choice('direction', [1., -1.])
    v = h.real('v', .5, 50); a0, da = h.real('a0', 0, 1e4), h.real('da', 10, 5e3); t0 = h.real('t0', 0, 1e5)
    x = s.state.numerics.dimensionless.control_points[:, 0]
    c.frames.inertial.position_vector = h.array([[0., 0., -(a0 + up * da * z)] for z in x])
    c.frames.inertial.velocity_vector = h.array([[h.real('u%d' % i, 1, 300), 0., -up * v] for i in range(n)])
    c.frames.inertial.time = col(h, [t0] * n)
    update_differentials_altitude(s)
    h.eq('time', c.frames.inertial.time[:, 0], [t0 + da / v * z for z in x], atol=1e-6)
