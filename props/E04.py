"""E04: electric drive components, piston engines, and power supplies: what goes in comes out."""
from engine.harness import harness
import SUAVE, numpy as np, importlib
from SUAVE.Core import Data, Units
from SUAVE.Components.Energy import Converters as CV, Distributors as DS, Peripherals as PE
from props.E01 import col
ZT = importlib.import_module('SUAVE.Methods.Power.Turboelectric.Discharge.zero_fidelity')
IT = importlib.import_module('SUAVE.Methods.Power.Turboelectric.Sizing.initialize_from_power')
ZF = importlib.import_module('SUAVE.Methods.Power.Fuel_Cell.Discharge.zero_fidelity')
IF = importlib.import_module('SUAVE.Methods.Power.Fuel_Cell.Sizing.initialize_from_power')
LV = importlib.import_module('SUAVE.Methods.Power.Fuel_Cell.Discharge.find_voltage_larminie')
LP = importlib.import_module('SUAVE.Methods.Power.Fuel_Cell.Discharge.find_power_larminie')
DY = importlib.import_module('SUAVE.Methods.Cryogenics.Dynamo.dynamo_efficiency')
CC = importlib.import_module('SUAVE.Methods.Cryogenics.Cryocooler.cryocooler_model')

def motor(h, cls=CV.Motor):
    m = cls()
    m.resistance = h.real('R', .005, 2); m.no_load_current = h.real('i0', .05, 5); m.speed_constant = h.real('Kv', .5, 200)
    m.gear_ratio = h.real('G', .2, 5); m.gearbox_efficiency = h.real('etaG', .5, 1); m.expected_current = h.real('ix', 0, 100)
    return m
def loss(m): return m.no_load_current + m.expected_current * (1 - m.gearbox_efficiency)
def conds(h, n=2, throttle=None):
    c = Data(freestream=Data(velocity=col(h, [h.real('V%d' % i, 1, 200) for i in range(n)]), density=col(h, [h.real('rho%d' % i, .05, 1.4) for i in range(n)]),
        dynamic_viscosity=col(h, [1.8e-5] * n), speed_of_sound=col(h, [340.] * n), temperature=col(h, [288.] * n)), propulsion=Data())
    if throttle: c.propulsion.throttle = col(h, [h.real('thr%d' % i, *throttle) for i in range(n)])
    return c

@harness('E04', bounds='motor: any winding resistance, no-load current, speed constant, gear ratio, shaft speed and voltage (2 points)', q=15)
def motor_power_balance(h):
    m = motor(h); c = conds(h); n = 2
    m.inputs.omega = w = col(h, [h.real('w%d' % i, 1, 3000) for i in range(n)]); m.inputs.voltage = v = col(h, [h.real('v%d' % i, 1, 900) for i in range(n)])
    k, i0 = m.speed_constant / m.gear_ratio, loss(m)
    for j in range(n): h.assume(v[j, 0] - w[j, 0] / k > m.resistance * (i0 + .05))
    Q = m.torque(c)
    h.eq('outputs', [m.outputs.torque[0, 0], m.outputs.omega[1, 0]], [Q[0, 0], w[1, 0]])
    cur, eta = m.current(c)
    for j in range(n):
        i = m.outputs.current[j, 0]
        h.eq('volts', v[j, 0], i * m.resistance + w[j, 0] / k); h.eq('torque', Q[j, 0] * k, i - i0)
        h.eq('power', v[j, 0] * i, Q[j, 0] * w[j, 0] + i * i * m.resistance + i0 * w[j, 0] / k)
        h.eq('efficiency', c.propulsion.etam[j, 0] * v[j, 0] * i, Q[j, 0] * w[j, 0]); h.eq('returned', [cur[j, 0], eta[j, 0]], [i, c.propulsion.etam[j, 0]])
    # the inverse: this torque and speed need this voltage and current
    g = motor2 = CV.Motor()
    for a in ('resistance', 'no_load_current', 'speed_constant', 'gear_ratio', 'gearbox_efficiency', 'expected_current'): g[a] = m[a]
    g.inputs.torque = Q; g.inputs.omega = w; g.voltage_current(c)
    for j in range(n):
        h.eq('inverse volts', g.outputs.voltage[j, 0], v[j, 0]); h.eq('inverse amps', g.outputs.current[j, 0], m.outputs.current[j, 0])
        h.eq('inverse efficiency', c.propulsion.etam[j, 0] * v[j, 0] * m.outputs.current[j, 0], Q[j, 0] * w[j, 0])

@harness('E04', bounds='motor driven at a voltage below its back-emf: no current flows back')
def motor_no_regeneration(h):
    m = motor(h); c = conds(h, 1)
    m.outputs.omega = w = col(h, [h.real('w', 1, 3000)]); m.inputs.voltage = v = col(h, [h.real('v', .1, 900)])
    d = v[0, 0] - w[0, 0] * m.gear_ratio / m.speed_constant
    h.assume((d > .01 * v[0, 0]) | (d < -.01 * v[0, 0]))
    i, eta = m.current(c)
    h.eq('amps', i[0, 0] * m.resistance, d if h.decide(d > 0) else 0.)

@harness('E04', bounds='motor with a propeller of given power coefficient: torque balance at any voltage, density, radius', q=25)
def motor_propeller_match(h):
    m = motor(h); c = conds(h, 1)
    m.inputs.voltage = v = col(h, [h.real('v', 5, 900)]); m.propeller_radius = R = h.real('rad', .05, 3); m.inputs.propeller_CP = cp = col(h, [h.real('cp', .005, .6)])
    i0, k, rho = loss(m), m.speed_constant / m.gear_ratio, c.freestream.density[0, 0]
    h.assume(v[0, 0] > i0 * m.resistance * 1.05)
    w = m.omega(c)[0, 0]; Q = m.outputs.torque[0, 0]
    h.eq('same', m.outputs.omega[0, 0], w); h.ge('turns', w, 0)
    h.eq('motor torque', Q * k * m.resistance, v[0, 0] - w / k - i0 * m.resistance, rtol=1e-7)
    # propeller: P = Cp rho n^3 D^5
    lhs = 4 * cp[0, 0] * rho * w * w * R ** 5 / np.pi ** 3
    h.eq('torque balance', lhs * k * m.resistance, v[0, 0] - w / k - i0 * m.resistance, rtol=1e-6, atol=1e-6)

@harness('E04', bounds='constant-efficiency motor: speed at any voltage whose efficiency is reachable; power map at any voltage', q=25)
def motor_lo_fid(h):
    m = motor(h, CV.Motor_Lo_Fid); c = conds(h, 1); e = m.motor_efficiency = h.real('eta', .3, .97)
    v = h.real('v', 5, 900); m.inputs.voltage = col(h, [v]); i0, R, k = loss(m), m.resistance, m.speed_constant / m.gear_ratio
    h.assume((R * R * i0 * i0 - 2 * R * e * i0 * v - 2 * R * i0 * v + e * e * v * v - 2 * e * v * v + v * v) > 1e-4 * v * v)
    h.assume(R * i0 < .2 * v)
    w = m.omega(c)[0, 0]; Q = m.outputs.torque[0, 0]
    i = (v - w / k) / R
    h.eq('torque', Q * k * R, v - w / k - i0 * R); h.eq('efficiency', Q * w, e * v * i, rtol=1e-6)
    a = m.current(c)
    m.rated_power, m.rated_voltage = h.real('P', 100, 1e6), h.real('Vr', 10, 1000)
    p, i = m.power_lo(c)
    h.eq('power map', p[0, 0] * m.rated_voltage, m.rated_power * e * v); h.eq('electrical power', i[0, 0] * v * e, p[0, 0])
    h.eq('outputs', [m.outputs.power[0, 0], m.outputs.current[0, 0]], [p[0, 0], i[0, 0]])

@harness('E04', bounds='speed controller: throttle -0.5..1.5, any voltage, current and efficiency: power drawn is power delivered over efficiency')
def speed_controller(h):
    s = DS.Electronic_Speed_Controller(); c = conds(h, 2, (-.5, 1.5)); s.efficiency = e = h.real('eta', .3, 1)
    s.inputs.voltagein = vi = col(h, [h.real('vi%d' % i, 1, 900) for i in range(2)])
    vo = s.voltageout(c); s.inputs.currentout = io = col(h, [h.real('io%d' % i, 0, 500) for i in range(2)])
    ii = s.currentin(c)
    for j in range(2):
        t = c.propulsion.throttle[j, 0]
        f = 0. if h.decide(t <= 0) else (1. if h.decide(t >= 1) else t)
        h.eq('volts', vo[j, 0], f * vi[j, 0]); h.eq('stored', s.outputs.voltageout[j, 0], vo[j, 0])
        # as found: the current uses the throttle without its limits
        if h.decide((t < 0) | (t > 1)): h.eq('power beyond full throttle', ii[j, 0] * vi[j, 0] * e, vo[j, 0] * io[j, 0]); h.eq('as found: current follows the raw throttle', ii[j, 0] * e, t * io[j, 0])
        else: h.eq('power', ii[j, 0] * vi[j, 0] * e, vo[j, 0] * io[j, 0])
        h.eq('power in', s.outputs.power_in[j, 0], ii[j, 0] * vi[j, 0]); h.eq('stored i', s.outputs.currentin[j, 0], ii[j, 0])

@harness('E04', bounds='gearbox: any wheel radii, efficiency, torque and speed')
def gearbox(h):
    g = CV.Gearbox(); g.gearwheel_radius1, g.gearwheel_radius2, g.efficiency = h.real('r1', .01, 2), h.real('r2', .01, 2), h.real('eta', .3, 1)
    T, w = h.real('T', .1, 1e4), h.real('w', 1, 3000); g.inputs.torque, g.inputs.speed, g.inputs.power = T, w, T * w
    g.compute(); o = g.outputs
    h.eq('rim speed', o.speed * g.gearwheel_radius2, w * g.gearwheel_radius1); h.eq('power', o.power, T * w * g.efficiency); h.eq('torque', o.torque * o.speed, o.power)

@harness('E04', bounds='solar panel, solar logic (3 points, any fluxes, draws, integration operator), avionics and payload')
def solar(h):
    p = CV.Solar_Panel(); p.area, p.efficiency = h.real('A', .1, 400), h.real('eta', .05, .5)
    fl = [h.real('flux%d' % i, 0, 1400) for i in range(3)]; p.inputs.flux = col(h, fl); P = p.power()
    L = DS.Solar_Logic(); L.MPPT_efficiency, L.system_voltage = e, V = h.real('mppt', .5, 1), h.real('V', 10, 800)
    av, pl = PE.Avionics(), PE.Payload(); av.power_draw, pl.power_draw = h.real('av', 0, 5e3), h.real('pl', 0, 5e3)
    h.eq('draw', [av.power(), pl.power()], [av.outputs.power, pl.outputs.power]); h.eq('drawn', [av.outputs.power, pl.outputs.power], [av.power_draw, pl.power_draw])
    L.inputs.powerin = P; L.inputs.pavionics, L.inputs.ppayload = av.power(), pl.power(); ie = [h.real('i%d' % i, 0, 200) for i in range(3)]; L.inputs.currentesc = col(h, ie)
    I = [[h.real('I%d%d' % (i, j), -5, 20) for j in range(3)] for i in range(3)]
    L.logic(conds(h, 1), Data(time=Data(integrate=h.array(I))))
    net = [fl[i] * p.area * p.efficiency * e - av.power_draw - pl.power_draw - V * ie[i] for i in range(3)]
    for i in range(3):
        h.eq('panel', P[i, 0], fl[i] * p.area * p.efficiency); h.eq('panel out', p.outputs.power[i, 0], P[i, 0])
        h.eq('balance', L.outputs.power_in[i, 0], net[i]); h.eq('current', L.outputs.current[i, 0] * V, net[i])
        h.eq('energy', L.outputs.energy_transfer[i, 0], sum(I[i][j] * net[j] for j in range(3)), atol=1e-5)
    h.eq('volts', L.outputs.system_voltage, V)

@harness('E04', bounds='generator, turboelectric and fuel-cell supplies: any power, efficiency, specific energy, ambient pressure')
def supplies(h):
    g = CV.Generator_Zero_Fid(); g.sfc, g.max_power = h.real('sfc', 1e-8, 1e-6), h.real('P', 1, 1e7); c = conds(h, 2, (0, 1)); g.calculate_power(c)
    for j in range(2): h.eq('generator', [g.outputs.power_generated[j, 0], g.outputs.vehicle_mass_rate[j, 0]], [g.max_power, g.max_power * g.sfc])
    for nm, mod, cls in (('turboelectric', ZT, CV.Turboelectric), ('fuel cell', ZF, CV.Fuel_Cell)):
        t = cls(); p = h.real('p ' + nm, 1, 1e7); t.inputs.power_in = col(h, [p]); e = t.efficiency = h.real('eta ' + nm, .1, .9); s = h.real('u ' + nm, 1e6, 1.4e8); t.propellant = Data(specific_energy=s)
        h.eq(nm, t.energy_calc(c, None)[0, 0] * s * e, p)
    t = CV.Turboelectric(); t.specific_power = sp = h.real('sp', 100, 2e4); pr = h.real('pamb', 5e3, 1.1e5); P = h.real('Prated', 1e3, 1e7)
    IT.initialize_from_power(t, P, Data(freestream=Data(pressure=pr))); h.eq('derated mass', t.mass_properties.mass * sp * pr, P * 101325); h.eq('rated', t.rated_power, P)
    f = CV.Fuel_Cell(); f.specific_power = sp; IF.initialize_from_power(f, P); h.eq('fuel cell mass', f.mass_properties.mass * sp, P)

@harness('E04', bounds='Larminie cell voltage and power at any current density')
def larminie(h):
    f = Data(r=h.real('r', 1e-5, 1e-3) * Units.kohm * Units.cm ** 2, Eoc=h.real('E', .5, 1.3), A1=h.real('A1', .005, .1), m=h.real('m', 1e-6, 1e-3), n=h.real('n', 1e-3, 1e-2), interface_area=h.real('A', 1e-3, 1))
    i = h.real('i', 1, 1000); j = i * (Units.mA / Units.cm ** 2)
    v = f.Eoc - f.r / (Units.kohm * Units.cm ** 2) * i - f.A1 * h.log(i) - f.m * h.exp(f.n * i)
    h.eq('volts', LV.find_voltage_larminie(f, j), v, rtol=1e-6, atol=1e-6); h.eq('power', LP.find_power_larminie(j, f), v * j * f.interface_area, rtol=1e-6, atol=1e-5)

@harness('E04', bounds='superconducting rotor, dynamo and supplies: any currents, temperatures, efficiencies')
def superconducting(h):
    r = CV.Motor_HTS_Rotor(); r.temperature, r.resistance, r.surface_area, r.R_value = h.real('Tc', 20, 90), h.real('R', 1e-6, 1e-2), h.real('S', .1, 10), h.real('rv', 10, 300)
    r.inputs.hts_current, r.inputs.ambient_temp = h.real('I', 10, 1000), h.real('Ta', 200, 320); p = r.power(None)
    h.eq('coil', p, r.outputs.coil_voltage * r.inputs.hts_current); h.eq('ohm', r.outputs.coil_voltage, r.resistance * r.inputs.hts_current)
    h.eq('cryogenic load', (r.outputs.cryo_load - p) * r.R_value, (r.inputs.ambient_temp - r.temperature) * r.surface_area)
    d = DS.HTS_DC_Dynamo_Basic(); d.efficiency, d.rated_current = h.real('eta', .3, .95), h.real('Ir', 50, 900); x = h.real('x', .25, 1.75)
    d.inputs.hts_current, d.inputs.power_out = x * d.rated_current, h.array([h.real('P', 10, 1e4)])
    P, q = d.shaft_power(None)
    e = d.efficiency * (1 - (x - 1) ** 2)
    h.eq('dynamo', P[0] * e, d.inputs.power_out[0]); h.eq('heat', q[0], P[0] - d.inputs.power_out[0]); h.eq('stored', [d.outputs.power_in[0], d.outputs.cryo_load[0]], [P[0], q[0]])
    h.ge('second law', q[0], 0)
    s = DS.HTS_Dynamo_Supply(); s.inputs.RPM, s.rated_RPM, s.inputs.dynamo, s.inputs.hts_current, s.inputs.power_out = 0., 1000., d, d.inputs.hts_current, P
    h.eq('supply', s.power_in(None)[0] * e, P[0])
    s = DS.HTS_DC_Supply(); s.efficiency = .9; s.inputs.power_out = P; h.eq('dc supply', s.power(None)[0] * .9, P[0])

@harness('E04', bounds='cryocooler of each type: any cooling power, cold and ambient temperature the cooler can reach')
def cryocooler(h):
    k = Data(cooler_type=h.choice('type', ['fps', 'GM', 'sPT', 'dPT']), ambient_temp=h.real('Ta', 210, 320), inputs=Data(cooling_power=h.real('Q', 1, 1e4), cryo_temp=h.real('Tc', 20, 150)))
    m0, e0, a, b = dict(fps=(35., .0014, .0098, 1.0769), GM=(5.4, .0005, .0129, 63.08), sPT=(16., .0002, .0079, 51.124), dPT=(8., .00001, .0111, 73.809))[k.cooler_type]
    d = k.inputs.cryo_temp - (m0 - (292.15 - k.ambient_temp)); h.assume(d > 1)
    P, m = CC.cryocooler_model(k)
    h.eq('input power', P * e0 * d, k.inputs.cooling_power, rtol=1e-7); h.eq('mass', m, a * P + b)

class Air(object):
    """sea level and altitude states of an atmosphere whose densities are free"""
    def __init__(self, h, d0, d): self.h, self.d0, self.d = h, d0, d
    def __call__(self): return self
    def compute_values(self, alt, dT=0.):
        if np.ndim(alt) == 0: v = self.h.array([[self.d0]])
        else: self.alt = alt; v = self.h.array([[x] for x in self.d])
        return Data(pressure=v, temperature=v, density=v, speed_of_sound=v, dynamic_viscosity=v)

@harness('E04', bounds='piston engine: any sea-level power, flat-rating altitude, throttle, speed, altitude and air density (2 points)', expect_exc=())
def piston_engine(h):
    M = importlib.import_module('SUAVE.Components.Energy.Converters.Internal_Combustion_Engine')
    e = CV.Internal_Combustion_Engine(); e.sea_level_power, e.flat_rate_altitude = h.real('P', 1e4, 1e6), h.real('hf', 0, 5000); e.power_specific_fuel_consumption = b = h.real('bsfc', .2, .9)
    n = 2; alt = [h.real('alt%d' % i, 0, 9000) for i in range(n)]; d0 = h.real('dsl', 1.1, 1.3); dens = [h.real('d%d' % i, .3, 1.2) for i in range(n)]
    for i in range(n): h.assume((alt[i] > e.flat_rate_altitude + .1) | (alt[i] < e.flat_rate_altitude - .1))
    thr = [h.real('t%d' % i, .02, 1) for i in range(n)]; w = [h.real('w%d' % i, 50, 400) for i in range(n)]
    air = Air(h, d0, dens); old = SUAVE.Analyses.Atmospheric.US_Standard_1976; SUAVE.Analyses.Atmospheric.US_Standard_1976 = air
    try:
        c = Data(freestream=Data(altitude=col(h, alt), delta_ISA=0.), propulsion=Data(combustion_engine_throttle=col(h, thr))); e.inputs.speed = col(h, w)
        o = e.power(c)
        P, F, Q = [o.power[i, 0] for i in range(n)], [o.fuel_flow_rate[i, 0] for i in range(n)], [o.torque[i, 0] for i in range(n)]
        va = [air.alt[i, 0] for i in range(n)]
        e.inputs.power = h.array([[p] for p in P]); o2 = e.calculate_throttle(c)
        for i in range(n):
            flat = h.decide(alt[i] < e.flat_rate_altitude)
            h.eq('altitude above rating', va[i], 0. if flat else alt[i] - e.flat_rate_altitude)
            av = e.sea_level_power if flat else e.sea_level_power * (dens[i] / d0 - .117) / .883
            h.eq('power', P[i], thr[i] * av)
            h.eq('fuel', F[i], P[i] * b * Units['lb/hp/hr'], rtol=1e-7); h.eq('torque', Q[i] * w[i], P[i])
            h.eq('throttle back', o2.throttle[i, 0], thr[i]); h.eq('fuel back', o2.fuel_flow_rate[i, 0], F[i], rtol=1e-7)
    finally: SUAVE.Analyses.Atmospheric.US_Standard_1976 = old

@harness('E04', bounds='propeller of fixed efficiency: any torque, speed, flight speed')
def propeller_lo_fid(h):
    p = CV.Propeller_Lo_Fid(); c = conds(h, 1); p.tip_radius, p.propulsive_efficiency = h.real('R', .05, 3), h.real('eta', .3, .95); p.inputs.omega, p.inputs.torque = col(h, [h.real('w', 10, 900)]), col(h, [h.real('Q', .1, 1e3)])
    T, Q, P, Cp = p.spin(c); w = p.inputs.omega[0, 0]
    h.eq('power', P[0, 0], w * p.inputs.torque[0, 0]); h.eq('thrust power', T[0, 0] * c.freestream.velocity[0, 0], p.propulsive_efficiency * P[0, 0]); h.eq('torque', Q[0, 0], p.inputs.torque[0, 0])
    h.eq('coefficient', Cp[0, 0] * c.freestream.density[0, 0] * (w / (2 * np.pi)) ** 3 * (2 * p.tip_radius) ** 5, P[0, 0], rtol=1e-7)
