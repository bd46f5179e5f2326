"""E02: one-dimensional gas dynamics, thrust, and engine sizing."""
from engine.harness import harness
import SUAVE, numpy as np, importlib
from SUAVE.Core import Data
from SUAVE.Components.Energy import Converters as CV
from SUAVE.Components.Energy.Processes.Thrust import Thrust
from SUAVE.Methods.Propulsion.fm_id import fm_id
NC = importlib.import_module('SUAVE.Methods.Propulsion.nozzle_calculations')
RA = importlib.import_module('SUAVE.Methods.Propulsion.rayleigh')
FS = importlib.import_module('SUAVE.Methods.Propulsion.fm_solver')
OS = importlib.import_module('SUAVE.Methods.Aerodynamics.Common.Gas_Dynamics.Oblique_Shock')
ST = importlib.import_module('SUAVE.Methods.Propulsion.shock_train')
TF = importlib.import_module('SUAVE.Methods.Propulsion.turbofan_sizing')
TJ = importlib.import_module('SUAVE.Methods.Propulsion.turbojet_sizing')
DF = importlib.import_module('SUAVE.Methods.Propulsion.ducted_fan_sizing')
from props.E01 import col

class Root(object):
    """fsolve replaced by a recorder: returns the given point and keeps the residual there"""
    def __init__(self, h, x): self.h, self.x = h, x
    def __call__(self, f, x0, **k):
        self.x0 = np.ravel(x0)[0]; v = self.h.array([self.x]); self.r = np.ravel(f(v if np.ndim(x0) == 1 else v.reshape((1, 1))))[0]
        return v
@harness('E02', bounds='mass-flow function, isentropic pressure ratio, normal shock: any Mach .05..6, gamma 1.1..1.67', q=20)
def relations(h):
    m, g = h.real('m', .05, 6), h.real('g', 1.1, 1.67)
    h.eq('flow function', h.log(fm_id(m, g)), h.log(m) + (g + 1) / (2 * (g - 1)) * (h.log((g + 1) / 2) - h.log(1 + (g - 1) / 2 * m * m)), atol=1e-9)
    h.eq('sonic', fm_id(1. + 0 * m, g), 1)
    s = h.real('s', 1.001, 6); m2 = NC.normal_shock(s, g)
    S, T = s * s, m2 * m2
    pr = (1 + g * S) / (1 + g * T); tr = (1 + (g - 1) / 2 * S) / (1 + (g - 1) / 2 * T)
    h.eq('shock: mass', pr * pr * T, tr * S); h.lt('shock: subsonic', m2, 1); h.ge('shock: positive', m2, 0)
    h.ge('shock: compresses', pr, 1)
@harness('E02', bounds='oblique shock of any angle .05..1.5 and deflection below it, Mach number 1.05..8', q=20)
def oblique(h):
    M, g, b, th = h.real('m', 1.05, 8), h.real('g', 1.1, 1.67), h.real('beta', .05, 1.5), h.real('theta', 0, 1.4)
    h.assume(th <= b - .02); n0 = M * h.sin(b); h.assume(n0 >= 1.001)
    M1, Pr, Tr, Ptr = OS.oblique_shock_relations(M, g, th, b)
    n1 = M1 * h.sin(b - th); A, B = n0 * n0, n1 * n1
    h.eq('momentum', Pr * (1 + g * B), 1 + g * A); h.eq('energy', Tr * (1 + (g - 1) / 2 * B), 1 + (g - 1) / 2 * A); h.eq('mass', Pr * Pr * B, Tr * A)
    h.ge('compresses', Pr, 1); h.ge('heats', Tr, 1)
    h.eq('stagnation pressure', Ptr, h.pow((g + 1) * A / ((g - 1) * A + 2), g / (g - 1)) * h.pow((g + 1) / (2 * g * A - (g - 1)), 1 / (g - 1)))
class Shocks(object):
    def __init__(self, h): self.h, self.calls = h, []
    def angle(self, M, g, th): self.calls.append(['angle', M, g, th]); self.b = self.h.real('beta%d' % len(self.calls), .1, 1.4); return self.b
    def jump(self, M, g, th, b): k = len(self.calls); r = tuple(self.h.real('%s%d' % (x, k), .1, 5) for x in ('m', 'p', 't', 'pt')); self.calls.append(['jump', M, g, th, b, self.b, r]); return r
@harness('E02', bounds='shock train: 0..3 ramps of any angles; the jump of each shock is unknown')
def train(h):
    n = h.choice('shocks', [0, 1, 2, 3]); s = Shocks(h); a, b = ST.theta_beta_mach, ST.oblique_shock_relations
    ST.theta_beta_mach, ST.oblique_shock_relations = s.angle, s.jump
    M, g, th = h.real('M', 1.5, 8), h.real('g', 1.2, 1.5), [h.real('th%d' % i, .01, .5) for i in range(n)]
    try: T, P = ST.shock_train(M, g, n, th)
    finally: ST.theta_beta_mach, ST.oblique_shock_relations = a, b
    h.true('calls', [c[0] for c in s.calls] == ['angle', 'jump'] * n)
    m, t, p = M, 1., 1.
    for i in range(n):
        A, J = s.calls[2 * i], s.calls[2 * i + 1]
        h.eq('mach passed on', [A[1], J[1]], [m, m], rtol=0); h.eq('gas', [A[2], J[2]], [g, g], rtol=0); h.eq('ramp', [A[3], J[3]], [th[i], th[i]], rtol=0)
        h.eq('angle', J[4], J[5], rtol=0)
        m, t, p = J[6][0], t * J[6][2], p * J[6][3]
    h.eq('temperature', T, t); h.eq('stagnation pressure', P, p)

@harness('E02', bounds='Rayleigh heat addition and area change: the equation handed to the root finder is satisfied exactly by the conservation laws', q=20)
def roots(h):
    k = h.choice('which', ['rayleigh', 'area', 'area-mach sub', 'area-mach sup', 'nozzle shock']); g = h.real('g', 1.2, 1.5)
    M0, M1, d = h.real('M0', .1, 3), h.real('M1', .1, 3), h.choice('off', [0., .2]); R = Root(h, M1); mod = dict(r=RA, a=FS, n=NC)[k[0] if k[:2] != 'ar' else 'n' if '-' in k else 'a']
    st = lambda M: 1 + (g - 1) / 2 * M * M
    o = mod.fsolve; mod.fsolve = R
    try:
        if k == 'rayleigh':
            p = (1 + g * M0 * M0) / (1 + g * M1 * M1)            # momentum; then mass gives the static, and energy the stagnation temperature
            T = p * p * M1 * M1 / (M0 * M0)
            X, P = RA.rayleigh(h.array([g]), h.array([M0]), h.array([T * st(M1) / st(M0) + d]))
            h.eq('exit', X[0], M1); h.eq('stagnation pressure', P[0], p * h.pow(st(M1) / st(M0), g / (g - 1))); sub = M0 <= 1
        elif k == 'area':
            X = FS.fm_solver(M0 / M1 * h.pow(st(M1) / st(M0), (g + 1) / (2 * (g - 1))) + d, h.array([M0]), h.array([g])); h.eq('exit', X[0], M1); sub = M0 < 1
        elif k == 'nozzle shock':
            ar = h.real('ar', 1, 10)      # exit flow of unit stagnation temperature through the throat area, expanded to p0
            pr = ar * h.pow((g + 1) / 2, (g + 1) / (2 * (g - 1))) * M1 * h.sqrt(st(M1)) + d
            NC.exit_Mach_shock(ar, g, h.array([pr]), 1.); sub = True
        else:
            S = 'sub' in k; A = h.sqrt(h.pow(2 / (g + 1) * st(M1), (g + 1) / (g - 1))) / M1
            P = NC.pressure_ratio_isentropic(A + d, h.array([[g]]), S)[0, 0]; h.eq('isentropic', P, h.pow(st(M1), -g / (g - 1))); sub = S
    finally: mod.fsolve = o
    if d == 0.: h.eq('conserves', R.r, 0., atol=1e-6)
    else: h.true('only when conserved', not h.decide(R.r == 0))
    if sub if isinstance(sub, bool) else h.decide(sub): h.lt('subsonic branch', R.x0, 1)
    else: h.ge('supersonic branch', R.x0, 1)

def conditions(h, n=1, tag=''):
    c = Data(); f = c.freestream = Data(); q = lambda k, a, b: col(h, [h.real('%s%s%d' % (k, tag, i), a, b) for i in range(n)])
    f.isentropic_expansion_factor = q('gamma', 1.3, 1.41); f.specific_heat_at_constant_pressure = q('cp', 900, 1200); f.gas_specific_constant = h.real('R' + tag, 250, 320)
    f.speed_of_sound = q('a', 290, 345); f.mach_number = q('m', .1, 2.5); f.velocity = f.speed_of_sound * f.mach_number
    f.pressure = q('p', 1e4, 1.05e5); f.temperature = q('t', 200, 310); f.gravity = q('grav', 9.7, 9.9)
    c.propulsion = Data(throttle=q('thr', 0, 1.2)); c.n = n
    c.ones_row = lambda k: h.array([[1.] * k for _ in range(n)])
    return c
def nozzle(h, n, tag):
    q = lambda k, a, b: col(h, [h.real('%s%s%d' % (tag, k, i), a, b) for i in range(n)])
    return Data(velocity=q('u', 300, 1200), static_pressure=q('p', 1e4, 3e5), area_ratio=q('A', .1, 3), temperature=q('T', 300, 1500))
def thruster(h, n=1):
    t = Thrust(); t.inputs.core_nozzle, t.inputs.fan_nozzle = nozzle(h, n, 'core_'), nozzle(h, n, 'fan_')
    q = lambda k, a, b: col(h, [h.real('%s%d' % (k, i), a, b) for i in range(n)])
    t.inputs.fuel_to_air_ratio = q('ftoa', .005, .05); t.inputs.total_temperature_reference = q('tt', 200, 800); t.inputs.total_pressure_reference = q('pt', 1e4, 1e6)
    t.inputs.number_of_engines = h.choice('engines', [1., 2., 4.]); b = h.choice('bypass', [0., 'any'])
    if b == 'any': b = h.real('bpr', .1, 12)
    t.inputs.bypass_ratio = b; t.inputs.flow_through_core = 1. / (1. + b); t.inputs.flow_through_fan = b / (1. + b)
    t.SFC_adjustment = h.real('sfc', 0, .3)
    return t
@harness('E02', bounds='thrust equation, two points, any nozzle states, bypass ratio, throttle, engines', q=20, timeout=200)
def thrust(h):
    n = 2; c = conditions(h, n); t = thruster(h, n); md = t.compressor_nondimensional_massflow = h.real('mdhc', .1, 500)
    t(c); o = t.outputs; f = c.freestream; e = t.inputs; b = e.bypass_ratio
    for i in range(n):
        mc = md * h.sqrt(t.reference_temperature / e.total_temperature_reference[i, 0]) * e.total_pressure_reference[i, 0] / t.reference_pressure
        h.eq('core flow', o.core_mass_flow_rate[i, 0], mc)
        u, M, g, p, a = f.velocity[i, 0], f.mach_number[i, 0], f.isentropic_expansion_factor[i, 0], f.pressure[i, 0], f.speed_of_sound[i, 0]
        # momentum and pressure thrust per unit total mass flow; gamma*M*p/a is the mass flux of the stream
        per = lambda z: (z.velocity[i, 0] - u) + z.area_ratio[i, 0] * (z.static_pressure[i, 0] - p) * a / (g * M * p)
        F = mc * (per(e.core_nozzle) + b * per(e.fan_nozzle)) * e.number_of_engines * c.propulsion.throttle[i, 0]
        h.eq('thrust', o.thrust[i, 0], F, atol=1e-4)
        h.eq('power', o.power[i, 0], F * u, atol=1e-2)
        # fuel burnt is the fuel-air ratio times the core flow, per engine and throttle
        w = e.fuel_to_air_ratio[i, 0] * mc * e.number_of_engines * c.propulsion.throttle[i, 0] * (1 - t.SFC_adjustment)
        if h.decide(o.non_dimensional_thrust[i, 0] != 0): h.eq('fuel', o.fuel_flow_rate[i, 0], w, atol=1e-6)
        h.ge('fuel sign', o.fuel_flow_rate[i, 0], 0)
        if h.decide(o.non_dimensional_thrust[i, 0] > 0):
            h.eq('specific fuel consumption', o.thrust_specific_fuel_consumption[i, 0] * o.thrust[i, 0], w * f.gravity[i, 0] * 3600, atol=1e-3)
            h.eq('specific impulse', o.specific_impulse[i, 0] * w * f.gravity[i, 0], F * (1 - t.SFC_adjustment), atol=1e-3)
@harness('E02', bounds='stream-thrust form, two points', q=20, timeout=200)
def stream_thrust(h):
    n = 2; c = conditions(h, n); t = thruster(h, n); md = t.compressor_nondimensional_massflow = h.real('mdhc', .1, 500)
    t.compute_stream_thrust(c); o = t.outputs; f = c.freestream; e = t.inputs; R = f.gas_specific_constant
    for i in range(n):
        mc = md * h.sqrt(t.reference_temperature / e.total_temperature_reference[i, 0]) * e.total_pressure_reference[i, 0] / t.reference_pressure
        u, T, a, far, x = f.velocity[i, 0], f.temperature[i, 0], f.speed_of_sound[i, 0], e.fuel_to_air_ratio[i, 0], e.core_nozzle
        # stream thrust (velocity + p/(rho u)) out minus in, minus ambient pressure over the area change
        F = (1 + far) * (x.velocity[i, 0] + R * x.temperature[i, 0] / x.velocity[i, 0]) - (u + R * T / u) - R * T / u * (x.area_ratio[i, 0] - 1)
        F = F * mc * e.number_of_engines * c.propulsion.throttle[i, 0]
        h.eq('thrust', o.thrust[i, 0], F, atol=1e-4); h.eq('core flow', o.core_mass_flow_rate[i, 0], mc); h.eq('power', o.power[i, 0], F * u, atol=1e-2)
        if h.decide(o.non_dimensional_thrust[i, 0] != 0): h.eq('fuel', o.fuel_flow_rate[i, 0], far * mc * e.number_of_engines * c.propulsion.throttle[i, 0], atol=1e-6)
@harness('E02', bounds='sizing: any design thrust and nozzle states with positive specific thrust; both thrust forms', q=20)
def sizing(h):
    c = conditions(h); t = thruster(h); s = h.choice('form', ['standard', 'stream']); D = t.total_design = h.real('design', 1e3, 1e6)
    comp, size = (t.compute, t.size) if s == 'standard' else (t.compute_stream_thrust, t.size_stream_thrust)
    comp(c); h.assume(t.outputs.non_dimensional_thrust[0, 0] > .01)
    size(c)
    c.propulsion.throttle = col(h, [1.])
    comp(c)
    h.eq('design thrust', t.outputs.thrust[0, 0], D); h.eq('design flow', t.outputs.core_mass_flow_rate[0, 0], t.mass_flow_rate_design[0, 0])
    if s == 'standard': h.eq('fuel', t.outputs.fuel_flow_rate[0, 0], t.inputs.fuel_to_air_ratio[0, 0] * t.mass_flow_rate_design[0, 0] * t.inputs.number_of_engines * (1 - t.SFC_adjustment))
