"""E06: rocket combustor, nozzle, thrust and network."""
from engine.harness import harness
import SUAVE, numpy as np, importlib
from SUAVE.Core import Data
from SUAVE.Components.Energy import Converters as CV, Processes as PR
from SUAVE.Components.Energy.Networks import Liquid_Rocket
NZ = importlib.import_module('SUAVE.Components.Energy.Converters.de_Laval_Nozzle')
SZ = importlib.import_module('SUAVE.Methods.Propulsion.liquid_rocket_sizing')
from props.E01 import col

def mach(h):
    """the exit Mach number solver answers with any supersonic Mach number"""
    Me = h.real('Me', 1.2, 6); seen = []
    def f(ar, M0, g): seen.append((ar, M0, g)); return Me
    return Me, seen, f

def parts(h, g=None):
    comb = CV.Rocket_Combustor(); pd = comb.propellant_data
    g = pd.isentropic_expansion_factor = g or h.real('gamma', 1.1, 1.6); Tc = pd.combustion_temperature = h.real('Tc', 1500, 4000); R = pd.gas_specific_constant = h.real('R', 200, 900)
    Pc = comb.inputs.combustion_pressure = h.real('Pc', 1e6, 3e7)
    n = CV.de_Laval_Nozzle(); pi = n.pressure_ratio = h.real('pi', .8, 1); e = n.polytropic_efficiency = h.real('eta', .8, 1); n.expansion_ratio = ar = h.real('ar', 2, 100); n.area_throat = At = h.real('At', .001, 2)
    return comb, n, g, Tc, R, Pc, pi, e, ar, At

def conds(h, n):
    p0 = [h.real('p0%d' % i, 0, 1.1e5) for i in range(n)]; g0 = h.real('g0', 9, 10); thr = [h.real('thr%d' % i, -.2, 1.2) for i in range(n)]
    return Data(freestream=Data(pressure=col(h, p0), gravity=g0), propulsion=Data(throttle=col(h, thr)), ones_row=lambda k: h.array([[1.] * k] * n)), p0, g0, thr

@harness('E06', bounds='nozzle: any chamber state, gas, pressure ratio, efficiency, expansion ratio and exit Mach number', q=15)
def nozzle(h):
    comb, n, g, Tc, R, Pc, pi, e, ar, At = parts(h); Me, seen, f = mach(h); old = NZ.fm_solver; NZ.fm_solver = f
    c, *_ = conds(h, 1)
    try: comb.compute(c); n.inputs = comb.outputs; n.compute(c)
    finally: NZ.fm_solver = old
    o = n.outputs; k = 1 + (g - 1) / 2 * Me * Me
    h.eq('area ratio asked', seen[0][0], ar); h.eq('sonic throat', seen[0][1], 1.); h.eq('gas', seen[0][2], g)
    h.eq('losses', o.stagnation_pressure, Pc * pi * pi); h.eq('static temperature', o.static_temperature * k, o.stagnation_temperature)
    h.eq('static pressure', o.static_pressure * h.pow(k, g / (g - 1)), o.stagnation_pressure); h.eq('speed', o.exhaust_velocity ** 2, Me * Me * g * R * o.static_temperature); h.eq('state', o.density * R * o.static_temperature, o.static_pressure)
    h.eq('polytropic', o.stagnation_temperature, Tc * h.pow(pi, (g - 1) / g * e) * h.pow(pi, (g - 1) / g * e)); h.ge('expands', o.exhaust_velocity, 0.)
    h.eq('passed on', [o.mach_number, o.expansion_ratio, o.area_throat, o.isentropic_expansion_factor, o.combustion_pressure], [Me, ar, At, g, Pc])

@harness('E06', bounds='thrust: any exhaust state, 1 to 9 engines, two points, throttle -0.2..1.2, ambient pressure 0 to 1.1e5', q=15)
def rocket_thrust(h):
    t = PR.Rocket_Thrust(); c, p0, g0, thr = conds(h, 2); i = t.inputs
    g, Me, U, pe, ar, At, N = i.isentropic_expansion_factor, i.mach_number, i.exhaust_velocity, i.static_pressure, i.expansion_ratio, i.area_throat, i.number_of_engines = h.real('gamma', 1.1, 1.6), h.real('Me', 1.2, 6), h.real('U', 500, 6000), h.real('pe', 1e3, 3e5), h.real('ar', 2, 100), h.real('At', .001, 2), h.real('N', 1, 9)
    i.combustion_pressure = h.real('Pc', 1e6, 3e7); rho = i.density = g * Me * Me * pe / (U * U)      # the state equation with U = M a
    t.compute(c); o = t.outputs
    for j in range(2):
        Ae = At * ar; m = thr[j] * rho * U * Ae; f = N * (m * U + thr[j] * (pe - p0[j]) * Ae)
        h.eq('thrust', o.thrust[j, 0], f if h.decide(f > 0) else 0., atol=1e-2); mp = m if h.decide(thr[j] > 0) else 0.
        h.eq('propellant flow', o.vehicle_mass_rate[j, 0], N * mp)
        if h.decide(thr[j] > 0) and h.decide(f > 0): h.eq('specific impulse', o.specific_impulse[j, 0] * g0 * o.vehicle_mass_rate[j, 0], o.thrust[j, 0], atol=1e-2)

@harness('E06', bounds='network and sizing: chamber to nozzle to thrust, any chamber state, engines, throttle; one gas', q=15)
def rocket_network(h):
    r = Liquid_Rocket(); comb, n, g, Tc, R, Pc, pi, e, ar, At = parts(h, 1.25); r.combustor, r.core_nozzle = comb, n; t = r.thrust = PR.Rocket_Thrust(); N = r.number_of_engines = h.real('N', 1, 9)
    Me, seen, f = mach(h); old = NZ.fm_solver; NZ.fm_solver = f; c, p0, g0, thr = conds(h, 2); st = Data(conditions=c)
    for x in thr: h.assume(x > .01)
    t.total_design, t.ISP_design = h.real('Fd', 1e3, 1e7), h.real('Isp', 100, 500)
    try:
        if h.choice('sized', [False, True]):
            SZ.liquid_rocket_sizing(r, conditions=Data(freestream=Data(pressure=h.array([h.real('pd', 0, 1e5)]), gravity=h.array([g0])), propulsion=Data(throttle=h.array([1.]))))
            h.eq('design thrust', r.design_thrust, t.total_design)
            o = n.outputs; q = o.density * o.exhaust_velocity ** 2 + o.static_pressure - 101325.; h.eq('sea level thrust', r.sealevel_static_thrust, At * ar * q if h.decide(q > 0) else 0., atol=1e-2)
        v = r.evaluate_thrust(st)
    finally: NZ.fm_solver = old
    o = n.outputs; Ae = At * ar
    for j in range(2):
        fj = N * thr[j] * Ae * (o.density * o.exhaust_velocity ** 2 + o.static_pressure - p0[j])
        h.eq('thrust', v.thrust_force_vector[j, 0], fj if h.decide(fj > 0) else 0., atol=1e-2); h.eq('axial', [v.thrust_force_vector[j, 1], v.thrust_force_vector[j, 2]], [0., 0.])
        h.eq('flow', v.vehicle_mass_rate[j, 0], N * thr[j] * o.density * o.exhaust_velocity * Ae)
    h.eq('chamber', o.stagnation_pressure, Pc * pi * pi)
