"""shared set-up for mission segment harnesses: real segment objects, an arbitrary linear
atmosphere / gravity, and arbitrary aerodynamic and propulsive answers."""
import SUAVE
from SUAVE.Core import Data
import numpy as np

def col(h, xs): return h.array([[x] for x in xs])

class Atmosphere(object):
    """arbitrary smooth atmosphere: every quantity is an unknown linear function of altitude (and of the temperature offset)"""
    def __init__(self, h, deviation=False):
        self.h = h
        self.rho = (h.real('rho0', .5, 2), h.real('krho', 0, 5e-5))
        self.a = (h.real('a0', 250, 400), h.real('ka', 0, 1e-5))
        self.p = (h.real('p0', 5e4, 1.5e5), h.real('kp', 0, 5e-5))
        self.kd = h.real('kd', 0, 3e-3) if deviation else 0.
    def at(self, which, alt, dT=0.):
        c = getattr(self, which)
        s = {'rho': -1., 'a': 1., 'p': 0.}[which]
        return c[0] * (1 - c[1] * alt) * (1 + s * self.kd * dT)
    def compute_values(self, altitude, temperature_deviation=0.):
        z = np.atleast_2d(altitude)
        if z.shape[0] == 1: z = z.T
        z = z.reshape(-1)
        d = Data()
        mk = lambda f: col(self.h, [f(x) for x in z])
        d.density = mk(lambda x: self.at('rho', x, temperature_deviation))
        d.speed_of_sound = mk(lambda x: self.at('a', x, temperature_deviation))
        d.pressure = mk(lambda x: self.at('p', x, temperature_deviation))
        d.temperature = mk(lambda x: 288. - .004 * x)
        for k in ('thermal_conductivity', 'prandtl_number'): d[k] = mk(lambda x: 1.)
        d.dynamic_viscosity = mk(lambda x: 1.7e-5 + 1e-11 * x)
        d.kinematic_viscosity = d.dynamic_viscosity / d.density
        return d

class Planet(object):
    def __init__(self, h, g0=None):
        self.features = Data()
        self.h = h
        self.features.mean_radius = 6.371e6
        self.g0, self.kg = (g0 or h.real('g0', 9, 10.5)), h.real('kg', 0, 5e-7)
        self.features.compute_gravity = lambda H: col(h, [self.g0 * (1 - self.kg * x) for x in np.asarray(H).reshape(-1)])

def segment(h, cls, n=3, previous=False, atm=None, planet=None, mass=None, **kw):
    """an initialised-but-not-evaluated real segment with n control points"""
    s = cls()
    s.state.numerics.number_control_points = n
    s.analyses = Data()
    s.analyses.atmosphere = atm
    s.analyses.planet = planet
    s.analyses.weights = Data(); s.analyses.weights.vehicle = Data(); s.analyses.weights.vehicle.mass_properties = Data()
    s.analyses.weights.vehicle.mass_properties.takeoff = mass if mass is not None else 1e4
    s.analyses.weights.vehicle.mass_properties.landing = mass if mass is not None else 1e4
    s.analyses.stability = None; s.analyses.noise = None
    s.conditions = s.state.conditions
    for k, v in kw.items(): s[k] = v
    if previous: s.state.initials = previous
    return s

def previous(h, n=2, alt=None):
    """final state of an arbitrary previous segment (n rows, all unknown)"""
    st = SUAVE.Analyses.Mission.Segments.Conditions.State()
    c = st.conditions
    c.update(SUAVE.Analyses.Mission.Segments.Conditions.Aerodynamics())
    f = c.frames
    P = [[h.real('px%d' % i, 0, 5e6), h.real('py%d' % i, -1e5, 1e5), -(alt if (alt is not None and i == n - 1) else h.real('palt%d' % i, 0, 11000))] for i in range(n)]
    f.inertial.position_vector = h.array(P)
    f.inertial.time = col(h, [h.real('pt%d' % i, 0, 5e4) for i in range(n)])
    f.inertial.aircraft_range = col(h, [h.real('pR%d' % i, 0, 5e6) for i in range(n)])
    f.inertial.velocity_vector = h.array([[h.real('pv%d' % i, 10, 300), 0., 0.] for i in range(n)])
    f.body.inertial_rotations = h.array([[0., h.real('pth%d' % i, -.3, .3), 0.] for i in range(n)])
    f.planet.latitude = col(h, [h.real('plat%d' % i, -60, 60) for i in range(n)])
    f.planet.longitude = col(h, [h.real('plon%d' % i, -170, 170) for i in range(n)])
    f.planet.start_time = 0.
    c.weights.total_mass = col(h, [h.real('pm%d' % i, 5e2, 4e5) for i in range(n)])
    return st
