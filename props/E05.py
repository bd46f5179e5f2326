"""E05: battery energy bookkeeping, sizing, aging and heat balance."""
from engine.harness import harness
import SUAVE, numpy as np, importlib
from SUAVE.Core import Data, Units
from SUAVE.Components.Energy.Storages import Batteries as BT
from props.E01 import col
CM = BT.Constant_Mass
NM = importlib.import_module('SUAVE.Components.Energy.Storages.Batteries.Constant_Mass.Lithium_Ion_LiNiMnCoO2_18650')
P_ = 'SUAVE.Methods.Power.Battery.'
HG = importlib.import_module(P_ + 'compute_net_generated_battery_heat')
PK = importlib.import_module(P_ + 'pack_battery_conditions'); AI = importlib.import_module(P_ + 'append_initial_battery_conditions')
CY = importlib.import_module(P_ + 'Cell_Cycle_Models.LiNiMnCoO2_cell_cycle_model')
S1 = importlib.import_module(P_ + 'Sizing.initialize_from_mass'); S2 = importlib.import_module(P_ + 'Sizing.initialize_from_energy_and_power'); S3 = importlib.import_module(P_ + 'Sizing.initialize_from_circuit_configuration')
R1 = importlib.import_module(P_ + 'Ragone.find_specific_power'); R2 = importlib.import_module(P_ + 'Ragone.find_ragone_properties')
V1 = importlib.import_module(P_ + 'Variable_Mass.find_mass_gain_rate'); V2 = importlib.import_module(P_ + 'Variable_Mass.find_total_mass_gain')

def nmc():
    old = NM.load_battery_results, NM.create_discharge_performance_map
    NM.load_battery_results = lambda: None; NM.create_discharge_performance_map = lambda d: None
    try: return CM.Lithium_Ion_LiNiMnCoO2_18650()
    finally: NM.load_battery_results, NM.create_discharge_performance_map = old

def numerics(h, n=2, T=None):
    T = T or h.real('T', 1, 4000)
    I = h.array([[0. * T, 0. * T], [T / 2, T / 2]]); D = h.array([[-1 / T, 1 / T], [-1 / T, 1 / T]])
    return Data(time=Data(integrate=I, differentiate=D, control_points=h.array([[0. * T], [T]]))), T

def clip(h, x):
    if h.decide(x > 1): return 1.
    return 0. if h.decide(x < 0) else x

def cell(h, b, mode, n=2, E=None, s0=None):
    b.max_energy = E = E or h.real('Emax', 1e3, 1e9)
    s0 = s0 if s0 is not None else h.real('soc0', .02, 1) if mode == 'discharge' else h.real('soc0', 0, .98)
    b.current_energy = col(h, [s0 * E] * n)
    b.max_voltage = h.real('Vmax', 3, 900); b.mass_properties.mass = h.real('m', .1, 1e4)
    b.cell_charge_throughput = col(h, [h.real('Q0', 0, 1e3)] * n)
    b.pack_temperature = col(h, [h.real('T0', 275, 320)] * n)
    return E, s0

def fr(s): return -.0169 * s ** 4 + .0418 * s ** 3 - .0273 * s ** 2 + .0069 * s + .0043

def lithium(h, mode):
    b = CM.Lithium_Ion(); num, T = numerics(h, T=600.)
    E, s0 = cell(h, b, mode, E=4e6); g = b.R_growth_factor = h.real('Rg', 1, 2); f = b.E_growth_factor = h.choice('Eg', [1., .75])
    Em = E * f; h.assume(s0 < f * .98)
    sg = -1 if mode == 'discharge' else 1
    so = h.real('so', .01, 1.2) if mode == 'charge' else h.real('so', -.2, .98); P = [sg * h.real('P0', .05, .9) * E / 1000]; P.append((so * f - s0) * E * 2 / T - P[0]); h.assume(sg * P[1] > 10.); i_ = [h.real('i%d' % i, 1, 300) for i in range(2)]
    b.inputs.power_in = col(h, list(P)); b.inputs.current = col(h, [x if mode == 'discharge' else -x for x in i_])
    o = s0 * E + T / 2 * (P[0] + P[1])
    soc = clip(h, o / Em) if True else 0
    R = [fr(s0 / f) * g, fr(soc) * g]
    Q = [i_[k] ** 2 * R[k] for k in range(2)]
    for k in range(2):
        if mode == 'charge': h.assume(P[k] - Q[k] > .01 * P[k])
    b.energy_calc(num, battery_discharge_flag=(mode == 'discharge'))
    h.eq('start', b.current_energy[0, 0], s0 * E)
    raw = s0 * E + T / 2 * (P[0] - Q[0] + P[1] - Q[1])
    e1 = b.current_energy[1, 0]
    if mode == 'discharge' or h.decide(raw <= Em): h.eq('energy', e1, raw, rtol=1e-7); e = raw
    else: h.eq('stops at full', e1, Em, rtol=1e-7); e = Em
    h.le('never overcharged', e1, Em * (1 + 1e-9))
    sn = clip(h, e / Em)
    h.eq('state of charge', b.state_of_charge[1, 0], sn, atol=1e-9); h.eq('state of charge 0', b.state_of_charge[0, 0] * f, s0, atol=1e-9)
    for k in range(2):
        h.eq('depth', b.depth_of_discharge[k, 0] + b.state_of_charge[k, 0], 1.); h.eq('joule', b.resistive_losses[k, 0], Q[k], rtol=1e-7); h.eq('heat', b.heat_energy_generated[k, 0], Q[k], rtol=1e-7)
        h.eq('resistance', b.internal_resistance[k, 0], R[k], rtol=1e-7)
    h.eq('throughput', [b.cell_charge_throughput[0, 0], b.cell_charge_throughput[1, 0]], [h_ for h_ in (b.cell_charge_throughput[0, 0],)] + [b.cell_charge_throughput[0, 0] + T / 2 * (i_[0] + i_[1]) / 3600], rtol=1e-7)
    c = b.mass_properties.mass * b.specific_heat_capacity
    h.eq('temperature', (b.pack_temperature[1, 0] - b.pack_temperature[0, 0]) * c, T / 2 * (Q[0] + Q[1]), rtol=1e-7)

LB = 'lithium ion pack in %s, two points: any power, current, growth factor, pack voltage and mass, capacity factor 1 or .75: energy is the integral of power less losses'
@harness('E05', bounds=LB % 'discharge', q=15, weight=3)
def lithium_ion_discharge(h): lithium(h, 'discharge')
@harness('E05', bounds=LB % 'charge', q=15, weight=3)
def lithium_ion_charge(h): lithium(h, 'charge')

@harness('E05', bounds='lithium ion pack voltage at any state of charge (6% to 94%) or any current and resistance growth', q=15)
def lithium_ion_voltage(h):
    mode = h.choice('mode', ['discharge', 'charge'])
    b = CM.Lithium_Ion(); num, T = numerics(h, T=600.); free = h.choice('free', ['charge', 'current']); sg = -1 if mode == 'discharge' else 1
    E, s0 = cell(h, b, mode, E=4e6, s0=None if free == 'charge' else h.choice('s0', [.15, .6, .9])); b.E_growth_factor = 1.
    if free == 'charge': b.R_growth_factor = 1.5; i_ = [40., 70.]; h.assume(s0 > .06); h.assume(s0 < .94)
    else: b.R_growth_factor = h.real('Rg', 1, 2); i_ = [h.real('i0', .1, 90), 0.]
    p = h.choice('p', [.01, .03])
    b.inputs.power_in = col(h, [sg * p * E / T] * 2); b.inputs.current = col(h, [sg * -x for x in i_])
    b.energy_calc(num, battery_discharge_flag=(mode == 'discharge'))
    for k in range(2):
        s = b.state_of_charge[k, 0]; R = b.internal_resistance[k, 0]; vo, vu = b.voltage_open_circuit[k, 0], b.voltage_under_load[k, 0]
        v = (-1.031 * h.exp(-35. * s) + 3.685 + .2156 * s - .1178 * s * s + .3201 * s ** 3) / 4.1 * b.max_voltage
        cap = h.decide(v > b.max_voltage)
        h.eq('open circuit', vo, b.max_voltage if cap else v, rtol=1e-7)
        h.eq('under load', vu, vo - i_[k] * R if mode == 'discharge' else vo + b.inputs.current[k, 0] * -1 * R, rtol=1e-7)
        h.eq('load power', b.load_power[k, 0], vu * b.current[k, 0], rtol=1e-7)

class Map(object):
    """cell voltage map with free values"""
    def __init__(self, h, n): self.h, self.v, self.pts = h, [h.real('map%d' % i, 2.5, 4.2) for i in range(n)], None
    def __call__(self, pts): self.pts = pts; return self.h.array([[0., x] for x in self.v])

@harness('E05', bounds='NMC pack, two points: any pack layout (series, parallel, module), power and current below full charge; cell map with free values; four start and end charges', q=15, weight=3)
def nmc_energy(h):
    b = nmc(); num, T = numerics(h); n = 2; mode = h.choice('mode', ['discharge', 'charge'])
    s0, o = h.choice('soc', [(.9, .4), (.5, .05)] if mode == 'discharge' else [(.1, .6), (.45, .9)]); E, s0 = cell(h, b, mode, s0=s0); ns, npar = h.real('ns', 1, 300), h.real('np', 1, 300); b.pack_config.series, b.pack_config.parallel, b.pack_config.total = ns, npar, ns * npar
    nn, pp = h.real('nn', 1, 50), h.real('pp', 1, 50); b.module_config.normal_count, b.module_config.parallel_count = nn, pp
    T0 = b.pack_temperature[0, 0]; b.cell_temperature = col(h, [T0] * n)
    m = Map(h, n); b.discharge_performance_map = Data(Voltage=m)
    i_ = [h.real('i%d' % k, .05, 12) for k in range(n)]                # per cell, inside and outside the map
    b.inputs.current = col(h, [x * npar if mode == 'discharge' else -x * npar for x in i_])
    sg = -1 if mode == 'discharge' else 1
    P = [sg * h.real('P0', 1, 1e6)]; P.append((o - s0) * E * 2 / T - P[0]); h.assume(sg * P[1] > 1); b.inputs.power_in = col(h, list(P))
    got = {}
    old = NM.compute_net_generated_battery_heat
    Tn = [h.real('Tn%d' % k, 275, 320) for k in range(n)]
    def heat(nt, bat, Q, numr): got['Q'] = Q; got['n'] = nt; return col(h, Tn)
    NM.compute_net_generated_battery_heat = heat
    try:
        s = [s0, o]
        dS = [-496.66 * x ** 6 + 1729.4 * x ** 5 - 2278 * x ** 4 + 1382.2 * x ** 3 - 380.47 * x ** 2 + 46.508 * x - 10.692 for x in s]
        ci = [x / b.cell.electrode_area for x in i_]
        q = [(ci[k] ** 2 / 139 - T0 * dS[k] * ci[k] / 96485) * b.cell.surface_area for k in range(n)]
        for k in range(n): h.assume((q[k] > 1e-6) | (q[k] < -1e-6))
        A = [(x if h.decide(x > 0) else -x) * ns * npar for x in q]
        net = [P[k] - A[k] for k in range(n)]
        h.assume(T / 2 * (net[0] + net[1]) <= E * (1 - s0) * .999); h.assume(s0 * E + T / 2 * (net[0] + net[1]) >= .001 * E)
        b.energy_calc(num, battery_discharge_flag=(mode == 'discharge'))
    finally: NM.compute_net_generated_battery_heat = old
    e1 = s0 * E + T / 2 * (net[0] + net[1])
    h.eq('start', b.current_energy[0, 0], s0 * E); h.eq('energy', b.current_energy[1, 0], e1, rtol=1e-6, atol=1e-3)
    h.eq('soc', b.state_of_charge[1, 0] * E, e1, rtol=1e-6, atol=1e-3)
    h.eq('cells', got['n'], ns * npar)
    R = [.01483 * x * x - .02518 * x + .1036 for x in s]
    for k in range(n):
        h.eq('cell heat', got['Q'][k, 0], q[k], rtol=1e-6, atol=1e-9); h.eq('pack loss', b.resistive_losses[k, 0], q[k] * ns * npar, rtol=1e-6, atol=1e-6); h.eq('module heat', b.heat_energy_generated[k, 0], q[k] * nn * pp, rtol=1e-6, atol=1e-6)
        h.eq('cell current', b.cell_current[k, 0], i_[k]); h.eq('cell volts', b.cell_voltage_under_load[k, 0], m.v[k]); h.eq('pack volts', b.voltage_under_load[k, 0], m.v[k] * ns)
        h.eq('open circuit', b.cell_voltage_open_circuit[k, 0], m.v[k] + i_[k] * R[k], rtol=1e-7); h.eq('pack open circuit', b.voltage_open_circuit[k, 0], (m.v[k] + i_[k] * R[k]) * ns, rtol=1e-7)
        h.eq('load power', b.load_power[k, 0], m.v[k] * ns * b.inputs.current[k, 0]); h.eq('resistance', b.internal_resistance[k, 0], R[k] * ns, rtol=1e-7)
        h.eq('fractions', b.cell_joule_heat_fraction[k, 0] + b.cell_entropy_heat_fraction[k, 0], 1., rtol=1e-6); h.eq('temperature', b.pack_temperature[k, 0], Tn[k]); h.eq('depth', b.depth_of_discharge[k, 0] + b.state_of_charge[k, 0], 1.)
        h.eq('lookup', [m.pts[k, 0], m.pts[k, 1], m.pts[k, 2]], [8. if h.decide(i_[k] > 8) else i_[k], T0, 1 - s[k]], atol=1e-9)
    h.eq('throughput', b.cell_charge_throughput[1, 0], b.cell_charge_throughput[0, 0] + T / 2 * (i_[0] + i_[1]) / 3600, rtol=1e-7)

@harness('E05', bounds='NMC cell map lookup: any state of charge, temperature, current inside or outside the tested range')
def nmc_lookup(h):
    m = Map(h, 1); s, t, i = h.real('s', -.3, 1.3), h.real('t', 250, 350), h.real('i', -5, 15)
    b = nmc(); b.discharge_performance_map = Data(Voltage=m); ns, npar = b.pack_config.series, b.pack_config.parallel = h.real('ns', 1, 300), h.real('np', 1, 300)
    st = Data(conditions=Data(propulsion=Data(battery_state_of_charge=col(h, [s]), battery_cell_temperature=col(h, [t]), battery_current=col(h, [i * npar]))))
    v = b.compute_voltage(st)
    cl = lambda x, a, c: a if h.decide(x < a) else (c if h.decide(x > c) else x)
    h.eq('volts', v[0, 0], m.v[0] * ns)
    h.eq('lookup', [m.pts[0, 0], m.pts[0, 1], m.pts[0, 2]], [cl(i, 0., 8.), cl(t, 272.65, 322.65), 1 - cl(s, 0., 1.)], atol=1e-9)

@harness('E05', bounds='single cell: any heat input, ambient and cell temperature; never cooled below ambient', q=15)
def heat_single(h):
    b = nmc(); num, T = numerics(h); n = 2; b.pack_config.total = 1; b.module_config.normal_count = b.module_config.parallel_count = 1
    hc = b.convective_heat_transfer_coefficient = h.real('hc', 1, 100); Ta = [h.real('Ta%d' % k, 250, 310) for k in range(n)]; T0 = h.real('T0', 275, 320); Tc = [h.real('Tc%d' % k, 275, 320) for k in range(n)]
    b.ambient_temperature = col(h, Ta); b.pack_temperature = col(h, [T0] * n); b.cell_temperature = col(h, Tc); q = [h.real('q%d' % k, 0, 5) for k in range(n)]
    r = HG.compute_net_generated_battery_heat(1, b, col(h, q), num)
    p = [q[k] - hc * b.cell.surface_area * (Tc[k] - Ta[k]) for k in range(n)]
    t = [T0, T0 + T / 2 * (p[0] + p[1]) / (b.cell.mass * b.cell.specific_heat_capacity)]
    for k in range(n): h.eq('temperature', r[k, 0], Ta[k] if h.decide(t[k] < Ta[k]) else t[k], rtol=1e-7)

class Coolant(object):
    def __init__(self, h):
        self.h = h
        self.thermal_conductivity, self.specific_heat_capacity, self.cooling_flowspeed, self.density, self.kinematic_viscosity, self.prandtl_number = *h.choice('coolant', [(.026, 1005., .3), (.03, 1010., 2.5)]), 1.2, col(h, [1.5e-5] * 2), .7
    def compute_prandtl_number(self, T): return col(self.h, [.7] * len(T))
@harness('E05', bounds='module of cells in cross flow: any counts, spacing, coolant: net heat is generation less log-mean convection', q=15)
def heat_module(h):
    b = nmc(); num, T = numerics(h); n = 2; b.pack_config.total = 100; nn, pp = h.choice('cells', [(10., 14.), (31., 3.)]); b.module_config.normal_count, b.module_config.parallel_count = nn, pp
    c = b.cooling_fluid = Coolant(h); D, H = b.cell.diameter, b.cell.height
    Ta = [h.real('Ta%d' % k, 250, 300) for k in range(n)]; T0 = h.real('T0', 301, 320); b.ambient_temperature = col(h, Ta); b.pack_temperature = col(h, [T0] * n); b.cell_temperature = b.pack_temperature
    st, sl = b.module_config.normal_spacing, b.module_config.parallel_spacing = h.choice('spacing', [(.03, .025), (.021, .036)]); q = [h.real('q%d' % k, 0, 5) for k in range(n)]; b.heat_transfer_efficiency = e = h.real('eta', .3, 1)
    sd = np.sqrt(st * st + sl * sl); assert 2 * (sd - D) > (st - D)
    vm = c.cooling_flowspeed * st / (st - D); re = vm * D / 1.5e-5; turb = re > 1000
    h.assume(Ta[0] < Ta[1])
    r = HG.compute_net_generated_battery_heat(100, b, col(h, q), num)
    nu = (.35 * (st / sl) ** .2 * re ** .6 if turb else .51 * re ** .5) * .7 ** .36; hc = nu * c.thermal_conductivity / D; N = nn * pp
    f = np.pi * D * N * hc / (c.density * c.cooling_flowspeed * nn * st * c.specific_heat_capacity)
    x = [(T0 - t) / 2 for t in Ta]                                     # wall minus inlet
    Q = [e * hc * np.pi * D * H * N * (x[k] - x[k] * h.exp(-f)) / f for k in range(n)]
    t = T0 + T / 2 * sum(q[k] * N - Q[k] for k in range(n)) / (b.cell.mass * N * b.cell.specific_heat_capacity)
    h.assume((t > Ta[1] + .01) | (t < Ta[1] - .01))
    h.eq('start', r[0, 0], T0); h.eq('temperature', r[1, 0], Ta[1] if h.decide(t < Ta[1]) else t, rtol=1e-7)

@harness('E05', bounds='NMC aging after any segment (3 points): capacity never grows, resistance never falls, days counted')
def aging(h):
    b = nmc(); n = 3; ns = b.pack_config.series = h.real('ns', 1, 300); day = h.choice('day', [True, False])
    v = [h.real('v%d' % k, 2.6, 4.2) for k in range(n)]; s = [h.real('s%d' % k, 0, 1) for k in range(n)]; t = h.real('t', 1, 3000); Q = h.real('Q', .1, 3000); Tm = [h.real('T%d' % k, 275, 320) for k in range(n)]; f, r = h.real('f', .5, 1), h.real('r', 1, 3)
    p = Data(battery_state_of_charge=col(h, s), battery_voltage_under_load=h.array([[x * ns] for x in v]), battery_cycle_day=t, battery_cell_charge_throughput=col(h, [0., 0., Q]), battery_cell_temperature=col(h, Tm), battery_capacity_fade_factor=f, battery_resistance_growth_factor=r)
    b.update_battery_state_of_health(Data(conditions=Data(propulsion=p)), increment_battery_cycle_day=day)
    h.le('capacity', p.battery_capacity_fade_factor, f); h.ge('resistance', p.battery_resistance_growth_factor, r); h.eq('days', p.battery_cycle_day, t + (1 if day else 0))
    mean = (v[0] + v[1] + v[2]) / 3; rms = h.sqrt((v[0] ** 2 + v[1] ** 2 + v[2] ** 2) / 3); tm = (Tm[0] + Tm[1] + Tm[2]) / 3
    d = s[0] - s[2]; d = d if h.decide(d > 0) else -d
    E = 1 - (7.542 * mean - 23.75) * 1e6 * h.exp(-6976 / tm) * h.pow(t, .75) - (7.348e-3 * (rms - 3.667) ** 2 + 7.60e-4 + 4.081e-3 * d) * h.sqrt(Q)
    R = 1 + (5.270 * mean - 16.32) * 1e5 * h.exp(-5986 / tm) * h.pow(t, .75) + (2.153e-4 * (rms - 3.725) ** 2 - 1.521e-5 + 2.798e-4 * d) * Q
    h.le('fade law', p.battery_capacity_fade_factor, E + 1e-9); h.ge('growth law', p.battery_resistance_growth_factor, R - 1e-9)
    h.true('one of the two', (p.battery_capacity_fade_factor == f) | (p.battery_capacity_fade_factor >= E - 1e-9)); h.true('one of the two r', (p.battery_resistance_growth_factor == r) | (p.battery_resistance_growth_factor <= R + 1e-9))

@harness('E05', bounds='sizing from mass (up to 40 cells), energy and power (hard and soft), circuit layout, Ragone relation, mass gain')
def sizing(h):
    b = CM.Lithium_Ion_LiFePO4_18650(); b.specific_energy, b.specific_power = se, sp = h.real('se', 1e4, 3e6), h.real('sp', 10, 5e3)
    E, P = h.real('E', 1e3, 1e9), h.real('P', 10, 1e6)
    S2.initialize_from_energy_and_power(b, E, P); m = b.mass_properties.mass
    h.ge('energy', b.max_energy, E * (1 - 1e-9)); h.ge('power', b.max_power, P * (1 - 1e-9)); h.eq('scales', [b.max_energy, b.max_power], [m * se, m * sp]); h.true('no excess', (b.max_energy <= E * (1 + 1e-9)) | (b.max_power <= P * (1 + 1e-9)))
    h.eq('returned', R2.find_ragone_properties(h.real('se2', 2e5, 8e5), b, E, P), b.mass_properties.mass)
    h.eq('Ragone', h.log(b.specific_power), h.log(b.ragone.const_1) + b.ragone.const_2 * b.specific_energy * h.log(10.), atol=1e-7)
    a = BT.Variable_Mass.Lithium_Air(); a.max_energy = E
    h.eq('gain', V1.find_mass_gain_rate(a, -P), P * a.mass_gain_factor, rtol=1e-9); h.eq('total gain', V2.find_total_mass_gain(a), E * a.mass_gain_factor)
    a = BT.Variable_Mass.Aluminum_Air(); h.eq('water', a.find_water_mass(E) * a.aluminum_mass_factor, a.find_aluminum_mass(E) * a.water_mass_gain_factor)
    c = CM.Lithium_Ion_LiFePO4_18650(); c.pack_config.series, c.pack_config.parallel = ns, npar = h.real('ns', 1, 300), h.real('np', 1, 300); c.cell.nominal_capacity = q = h.real('Ah', .5, 6); k = h.real('k', 1, 2)
    S3.initialize_from_circuit_configuration(c, k)
    h.eq('pack mass', c.mass_properties.mass, c.cell.mass * ns * npar * k); h.eq('pack energy', c.max_energy, q * c.cell.nominal_voltage * 3600 * ns * npar); h.eq('initial', c.initial_max_energy, c.max_energy)
    h.eq('pack', [c.max_voltage, c.pack_config.total, c.charging_voltage, c.charging_current], [c.cell.max_voltage * ns, ns * npar, c.cell.charging_voltage * ns, c.cell.charging_current * npar])
    h.eq('specific power', c.max_power * q * k * c.cell.mass, c.specific_energy * c.mass_properties.mass * k * c.cell.mass)

@harness('E05', bounds='sizing from mass: 20 to 23 cells of free mass, pack voltage 1 to 4 cells')
def sizing_from_mass(h):
    b = CM.Lithium_Ion_LiFePO4_18650(); k = h.real('k', 1, 2); x, y = h.real('x', 20, 23, hi_open=True), h.real('y', 1, 4, hi_open=True)
    b.max_voltage = y * b.cell.max_voltage; m = b.mass_properties.mass = x * b.cell.mass * k
    S1.initialize_from_mass(b, k); c = b.pack_config
    h.eq('energy', b.max_energy * k, m * b.specific_energy); h.eq('power', b.max_power * k, m * b.specific_power); h.eq('initial', b.initial_max_energy, b.max_energy)
    h.true('cells', (c.total <= x + 1e-9) & (c.total > x - 1 - 1e-9)); h.true('series', (c.series <= y + 1e-9) & (c.series > y - 1 - 1e-9)); h.true('fits', c.series * c.parallel <= c.total); h.true('no cell row left', c.series * (c.parallel + 1) > c.total)
    h.eq('charging', [b.charging_voltage, b.charging_current], [b.cell.charging_voltage * c.series, b.cell.charging_current * c.parallel])
    g = CM.Lithium_Ion(); g.mass_properties.mass = m; S1.initialize_from_mass(g, k); h.eq('generic', [g.pack_config.series, g.pack_config.parallel, g.pack_config.total], [1, 1, 1])

@harness('E05', bounds='recorded pack and cell conditions for any pack layout')
def recorded(h):
    b = CM.Lithium_Ion(); n = 2; R = lambda nm, a=1., z=900.: col(h, [h.real(nm + '%d' % k, a, z) for k in range(n)])
    b.pack_config.series, b.pack_config.parallel = ns, npar = h.real('ns', 1, 300), h.real('np', 1, 300)
    pw = b.inputs.power_in = R('pw', -1e6, -10.); b.inputs.current = R('cur'); b.current_energy = R('E', 1., 1e9); b.voltage_open_circuit = R('vo'); b.voltage_under_load = R('vu'); b.internal_resistance = R('ri'); b.state_of_charge = R('soc', 0., 1.)
    b.pack_temperature = R('tp'); b.resistive_losses = R('loss'); b.cell_voltage_under_load = R('cvu'); b.cell_voltage_open_circuit = R('cvo'); b.cell_current = R('ci', -50., 50.); b.cell_temperature = R('ct'); b.cell_charge_throughput = R('th'); b.heat_energy_generated = R('he')
    b.cell_joule_heat_fraction = R('jf', 0., 1.); b.cell_entropy_heat_fraction = R('ef', 0., 1.); b.max_energy = h.real('Em', 1, 1e9); m = b.mass_properties.mass = h.real('m', 1, 1e4); av = h.real('av', 0, 1e4); el = h.real('el', 1, 1e6)
    c = Data(propulsion=Data()); PK.pack_battery_conditions(c, b, av, el); p = c.propulsion
    for k in range(n):
        h.eq('cell power', p.battery_cell_power_draw[k, 0] * ns * npar, pw[k, 0]); h.eq('cell energy', p.battery_cell_energy[k, 0] * ns * npar, b.current_energy[k, 0]); h.eq('specific power', p.battery_specfic_power[k, 0] * m, -pw[k, 0])
        h.eq('efficiency', p.battery_efficiency[k, 0] * pw[k, 0], pw[k, 0] + b.resistive_losses[k, 0]); h.eq('electronics', p.electronics_efficiency[k, 0] * pw[k, 0], -el)
        for a, x in (('battery_current', b.inputs.current), ('battery_energy', b.current_energy), ('battery_voltage_open_circuit', b.voltage_open_circuit), ('battery_voltage_under_load', b.voltage_under_load), ('battery_power_draw', pw), ('battery_internal_resistance', b.internal_resistance),
            ('battery_state_of_charge', b.state_of_charge), ('battery_pack_temperature', b.pack_temperature), ('battery_cell_voltage_under_load', b.cell_voltage_under_load), ('battery_cell_voltage_open_circuit', b.cell_voltage_open_circuit), ('battery_cell_temperature', b.cell_temperature),
            ('battery_cell_charge_throughput', b.cell_charge_throughput), ('battery_cell_heat_energy_generated', b.heat_energy_generated), ('battery_cell_joule_heat_fraction', b.cell_joule_heat_fraction), ('battery_cell_entropy_heat_fraction', b.cell_entropy_heat_fraction)):
            h.eq(a, p[a][k, 0], x[k, 0])
        i = b.cell_current[k, 0]; h.eq('cell current', p.battery_cell_current[k, 0], i if h.decide(i >= 0) else -i)
    h.eq('aged', p.battery_max_aged_energy, b.max_energy)
