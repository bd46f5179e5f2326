"""E01: gas-turbine components obey the energy and pressure balances they model."""
from engine.harness import harness
import SUAVE, numpy as np
from SUAVE.Core import Data
from SUAVE.Components.Energy import Converters as CV

def col(h, v): return h.array([[x] for x in v])
def flow(h, n=1, sub=None, stag=False):
    """freestream with n independent points"""
    c = Data(); f = c.freestream = Data()
    g = [h.real('gamma%d' % i, 1.2, 1.5) for i in range(n)]; R = h.real('R', 200, 400)
    f.isentropic_expansion_factor = col(h, g)
    f.specific_heat_at_constant_pressure = col(h, [h.real('cp%d' % i, 800, 1500) for i in range(n)])
    f.gas_specific_constant = R
    f.pressure = col(h, [h.real('po%d' % i, 1e3, 1.2e5) for i in range(n)])
    f.temperature = col(h, [h.real('to%d' % i, 180, 330) for i in range(n)])
    f.mach_number = col(h, [h.real('mo%d' % i, .01, 3) for i in range(n)])
    if stag:
        f.stagnation_pressure = col(h, [h.real('pto%d' % i, 1e3, 1e6) for i in range(n)])
        f.stagnation_temperature = col(h, [h.real('tto%d' % i, 180, 1000) for i in range(n)])
    return c
def inlet(h, c, n=1, tag='', hot=1500):
    c.inputs.stagnation_temperature = col(h, [h.real('tt%s%d' % (tag, i), 200, hot) for i in range(n)])
    c.inputs.stagnation_pressure = col(h, [h.real('pt%s%d' % (tag, i), 1e4, 5e6) for i in range(n)])
def out(c, k): return c.outputs[k][:, 0]
def F(c, k): return c.freestream[k][:, 0]

@harness('E01', bounds='compressor and fan, two flow points, any pressure ratio 1..60, polytropic efficiency .5..1', q=15)
def compression(h):
    K = h.choice('component', [CV.Compressor, CV.Fan]); n = 2
    c = flow(h, n); k = K(); inlet(h, k, n)
    pi, eta = h.real('pi', 1, 60), h.real('eta', .5, 1); k.pressure_ratio, k.polytropic_efficiency = pi, eta
    ti, pin = k.inputs.stagnation_temperature[:, 0], k.inputs.stagnation_pressure[:, 0]
    k(c)
    for i in range(n):
        g, cp, to = F(c, 'isentropic_expansion_factor')[i], F(c, 'specific_heat_at_constant_pressure')[i], out(k, 'stagnation_temperature')[i]
        h.eq('pressure', out(k, 'stagnation_pressure')[i], pi * pin[i])
        h.eq('polytropic', h.log(to / ti[i]) * g * eta, (g - 1) * h.log(pi), atol=1e-9)
        h.eq('enthalpy', out(k, 'stagnation_enthalpy')[i], cp * to)
        h.eq('work', out(k, 'work_done')[i], cp * (to - ti[i]), atol=1e-6)
        h.ge('heats', to, ti[i]); h.ge('absorbs work', out(k, 'work_done')[i], 0, atol=1e-6)
    if K is CV.Compressor:  # two stages in series are one stage with the product of their ratios
        pi2 = h.real('pi2', 1, 10)
        a, b = K(), K(); a.polytropic_efficiency = b.polytropic_efficiency = eta
        a.pressure_ratio, b.pressure_ratio = pi2, pi * pi2
        a.inputs.stagnation_temperature, a.inputs.stagnation_pressure = k.outputs.stagnation_temperature, k.outputs.stagnation_pressure
        b.inputs.stagnation_temperature, b.inputs.stagnation_pressure = k.inputs.stagnation_temperature, k.inputs.stagnation_pressure
        a(c); b(c)
        h.eq('stages: temperature', out(a, 'stagnation_temperature'), out(b, 'stagnation_temperature'))
        h.eq('stages: pressure', out(a, 'stagnation_pressure'), out(b, 'stagnation_pressure'))
        h.eq('stages: work', out(a, 'work_done') + out(k, 'work_done'), out(b, 'work_done'), atol=1e-4)

@harness('E01', bounds='turbine, any inlet state, compressor/fan work, bypass ratio, fuel fraction, with or without shaft offtake', q=15)
def turbine(h):
    c = flow(h, 1); k = CV.Turbine(); inlet(h, k, 1, hot=2000)
    ti, pi = k.inputs.stagnation_temperature[0, 0], k.inputs.stagnation_pressure[0, 0]
    f, a = h.real('f', 0, .1), h.real('alpha', 0, 15); k.inputs.fuel_to_air_ratio, k.inputs.bypass_ratio = col(h, [f]), a
    wc, wf, ws = h.real('wc', 0, 5e5), h.real('wf', 0, 1e5), h.real('ws', 0, 1e5)
    k.inputs.compressor = Data(work_done=col(h, [wc])); k.inputs.fan = Data(work_done=col(h, [wf]))
    off = h.choice('offtake', [True, False])
    if off: k.inputs.shaft_power_off_take = Data(work_done=col(h, [ws]))
    em, ep = h.real('em', .5, 1), h.real('ep', .5, 1); k.mechanical_efficiency, k.polytropic_efficiency = em, ep
    cp, g = F(c, 'specific_heat_at_constant_pressure')[0], F(c, 'isentropic_expansion_factor')[0]
    total = wc + a * wf + (ws if off else 0)
    h.assume(total <= .9 * ti * cp * em)
    k(c); to, po, ho = out(k, 'stagnation_temperature')[0], out(k, 'stagnation_pressure')[0], out(k, 'stagnation_enthalpy')[0]
    h.eq('shaft balance', em * (1 + f) * cp * (ti - to), total, atol=1e-4)
    h.eq('enthalpy', ho, cp * to)
    h.eq('expansion', h.log(po / pi) * (g - 1) * ep, g * h.log(to / ti), atol=1e-9)
    h.le('cools', to, ti)

@harness('E01', bounds='combustor, two points, any inlet, turbine inlet temperature, efficiency, pressure ratio and fuel', q=15)
def combustor(h):
    n = 2; c = flow(h, n, stag=True); k = CV.Combustor(); inlet(h, k, n, hot=1200)
    t4, eta, pib, hf = h.real('tt4', 1200, 2200), h.real('eta', .8, 1), h.real('pib', .8, 1), h.real('hf', 2e7, 1.4e8)
    k.turbine_inlet_temperature, k.efficiency, k.pressure_ratio, k.fuel_data.specific_energy = t4, eta, pib, hf
    r = h.choice('mass ratio', [1., 'any'])
    if r == 'any': r = h.real('r', .5, 2); k.inputs.nondim_mass_ratio = r
    ti, pi = k.inputs.stagnation_temperature[:, 0], k.inputs.stagnation_pressure[:, 0]
    k(c)
    for i in range(n):
        cp, f = F(c, 'specific_heat_at_constant_pressure')[i], out(k, 'fuel_to_air_ratio')[i]
        h.eq('heat released', f * eta * hf, (r * cp * (t4 - ti[i]) + f * cp * t4 * r), atol=1e-3)
        h.eq('pressure', out(k, 'stagnation_pressure')[i], pib * pi[i]); h.eq('enthalpy', out(k, 'stagnation_enthalpy')[i], cp * t4)
        h.ge('burns fuel', f, 0)
    h.eq('temperature', k.outputs.stagnation_temperature, t4)

class Fluid(object):
    """a working fluid whose gamma and cp depend on temperature in an unknown way"""
    def __init__(self, h, n): self.g = col(h, [h.real('gam%d' % i, 1.2, 1.5) for i in range(n)]); self.c = col(h, [h.real('spec%d' % i, 800, 1500) for i in range(n)]); self.gas_specific_constant = h.real('Rgas', 200, 400)
    def compute_gamma(self, T, p): self.at = (T, p); return self.g
    def compute_cp(self, T, p): return self.c
@harness('E01', bounds='intake, two points, any freestream and any gas', q=15)
def ram(h):
    n = 2; c = flow(h, n); k = CV.Ram(); w = k.inputs.working_fluid = Fluid(h, n)
    p, t, m = F(c, 'pressure') * 1, F(c, 'temperature') * 1, F(c, 'mach_number') * 1
    k(c)
    g = w.g[:, 0]
    h.eq('gamma at static state', w.at[0][:, 0], t); h.eq('gamma at static state', w.at[1][:, 0], p)
    for i in range(n):
        tt, pt = out(k, 'stagnation_temperature')[i], out(k, 'stagnation_pressure')[i]
        h.eq('temperature', 2 * (tt / t[i] - 1), (g[i] - 1) * m[i] * m[i], atol=1e-9)
        h.eq('isentropic', (g[i] - 1) * h.log(pt / p[i]), g[i] * h.log(tt / t[i]), atol=1e-9)
    for a in ('stagnation_temperature', 'stagnation_pressure', 'isentropic_expansion_factor', 'specific_heat_at_constant_pressure'):
        h.eq('shared ' + a, c.freestream[a][:, 0], k.outputs[a][:, 0], rtol=0)
    h.eq('gas', c.freestream.gas_specific_constant, w.gas_specific_constant, rtol=0)
    h.eq('gas', c.freestream.specific_heat_at_constant_pressure, w.c, rtol=0); h.eq('gas', c.freestream.isentropic_expansion_factor, w.g, rtol=0)
    h.eq('static state kept', F(c, 'pressure'), p, rtol=0); h.eq('static state kept', F(c, 'temperature'), t, rtol=0); h.eq('static state kept', F(c, 'mach_number'), m, rtol=0)

def isentropic(h, g, tt, pt, t, p, m, name=''):
    h.eq(name + 'mach: temperature', 2 * (tt / t - 1), (g - 1) * m * m, atol=1e-7)
    if p is not None: h.eq(name + 'mach: pressure', (g - 1) * h.log(pt / p), g * h.log(tt / t), atol=1e-8)
@harness('E01', bounds='inlet nozzle without compressibility effects, two points, any freestream, losses and recovery', q=20, timeout=200)
def inlet_nozzle(h):
    n = 2; c = flow(h, n); k = CV.Compression_Nozzle(); inlet(h, k, n, hot=600)
    pid, rec, eta = h.real('pid', .5, 1), h.real('rec', .7, 1), h.real('eta', .5, 1); k.pressure_ratio, k.pressure_recovery, k.polytropic_efficiency = pid, rec, eta
    ti, pi = k.inputs.stagnation_temperature[:, 0] * 1, k.inputs.stagnation_pressure[:, 0] * 1
    po = F(c, 'pressure') * 1
    k(c)
    for i in range(n):
        g, cp = F(c, 'isentropic_expansion_factor')[i], F(c, 'specific_heat_at_constant_pressure')[i]
        tt, pt, m, t, u = [out(k, x)[i] for x in ('stagnation_temperature', 'stagnation_pressure', 'mach_number', 'static_temperature', 'velocity')]
        h.eq('pressure', pt, po[i] if h.decide(pi[i] * pid * rec < po[i]) else pi[i] * pid * rec)
        h.eq('temperature', g * eta * h.log(tt / ti[i]), (g - 1) * h.log(pid * rec), atol=1e-8)
        isentropic(h, g, tt, pt, t, po[i], m)
        h.eq('energy', u * u / 2 + cp * t, cp * tt, atol=1e-4); h.ge('velocity', u, 0)
        h.eq('enthalpy', out(k, 'stagnation_enthalpy')[i], cp * tt); h.eq('enthalpy', out(k, 'static_enthalpy')[i], cp * t)
@harness('E01', bounds='inlet nozzle with compressibility effects, one point below and one above Mach 1', q=20, timeout=200)
def inlet_shock(h):
    n = 2; c = flow(h, n); k = CV.Compression_Nozzle(); inlet(h, k, n, hot=600); k.compressibility_effects = True
    pid, eta = h.real('pid', .5, 1), h.real('eta', .5, 1); k.pressure_ratio, k.polytropic_efficiency = pid, eta
    pi, po, mo, G = k.inputs.stagnation_pressure[:, 0], F(c, 'pressure'), F(c, 'mach_number'), F(c, 'isentropic_expansion_factor')
    for i in range(n): h.assume((mo[i] <= 1) if i == h.choice('subsonic', [0, 1]) else (mo[i] > 1.001))
    for i in range(n): h.assume(pi[i] * pid >= po[i])
    k(c)
    for i in range(n):
        g, cp = G[i], F(c, 'specific_heat_at_constant_pressure')[i]
        tt, pt, m, t, u = [out(k, x)[i] for x in ('stagnation_temperature', 'stagnation_pressure', 'mach_number', 'static_temperature', 'velocity')]
        h.eq('energy', u * u / 2 + cp * t, cp * tt, atol=1e-4)
        if h.decide(mo[i] <= 1):
            h.eq('pressure', pt, pi[i] * pid); isentropic(h, g, tt, pt, t, po[i], m)
        else:
            # normal shock: static state ratios from mass, momentum and energy conservation
            M2 = mo[i] * mo[i]; m2 = m * m
            pr = (1 + g * M2) / (1 + g * m2)                                     # momentum
            tr = (1 + (g - 1) / 2 * M2) / (1 + (g - 1) / 2 * m2)                 # energy
            h.eq('shock: mass', pr * pr * m2, tr * M2)                            # mass
            h.lt('shock: subsonic behind', m, 1)
            h.eq('shock: pressure', pr, (2 * g * M2 - (g - 1)) / (g + 1)); rho = (g + 1) * M2 / ((g - 1) * M2 + 2); h.eq('shock: density', rho * tr, pr)
            h.eq('shock: stagnation pressure', pt / (pid * pi[i]), h.pow(rho, g / (g - 1)) * h.pow((g + 1) / (2 * g * M2 - (g - 1)), 1 / (g - 1)))
            isentropic(h, g, tt, pt, t, None, m)

@harness('E01', bounds='exhaust nozzle, two points, each choked, unchoked or limited by the ambient pressure', q=20, timeout=300, weight=2)
def exhaust_nozzle(h):
    n = h.choice('points', [1, 2]); c = flow(h, n, stag=True); k = CV.Expansion_Nozzle(); inlet(h, k, n, hot=2000)
    pid, eta = h.real('pid', .5, 1), h.real('eta', .5, 1); k.pressure_ratio, k.polytropic_efficiency = pid, eta
    ti, pi, po, mo = k.inputs.stagnation_temperature[:, 0] * 1, k.inputs.stagnation_pressure[:, 0] * 1, F(c, 'pressure'), F(c, 'mach_number')
    for i in range(n): h.assume((pi[i] * pid > 1.0001 * po[i]))
    k(c)
    R = c.freestream.gas_specific_constant
    for i in range(n):
        g, cp = F(c, 'isentropic_expansion_factor')[i], F(c, 'specific_heat_at_constant_pressure')[i]
        tt, pt, m, t, u, p, rho, ar = [out(k, x)[i] for x in ('stagnation_temperature', 'stagnation_pressure', 'mach_number', 'static_temperature', 'velocity', 'static_pressure', 'density', 'area_ratio')]
        h.eq('pressure', pt, pi[i] * pid)
        h.eq('temperature', g * h.log(tt / ti[i]), (g - 1) * eta * h.log(pid), atol=1e-8)
        isentropic(h, g, tt, pt, t, p, m)
        h.eq('energy', u * u / 2 + cp * t, cp * tt, atol=1e-4); h.eq('density', rho * R * t, p); h.ge('velocity', u, 0)
        h.eq('enthalpy', out(k, 'stagnation_enthalpy')[i], cp * tt); h.eq('enthalpy', out(k, 'static_enthalpy')[i], cp * t)
        if h.decide(h.sqrt((h.pow(pt / po[i], (g - 1) / g) - 1) * 2 / (g - 1)) >= 1): h.eq('choked', m, 1); h.eq('choked: pressure', h.log(p), h.log(pt) - g / (g - 1) * h.log((g + 1) / 2), atol=1e-8)
        else: h.eq('expanded to ambient', p, po[i]); h.le('subsonic', m, 1)
        # continuity between freestream capture and exit at equal mass flow
        w = lambda M, P, T: P * P * M * M / T * h.exp(-(g + 1) / (g - 1) * h.log(1 + (g - 1) / 2 * M * M))
        h.eq('area ratio', ar * ar * w(m, pt, tt), w(mo[i], F(c, 'stagnation_pressure')[i], F(c, 'stagnation_temperature')[i]))
@harness('E01', bounds='exhaust and inlet nozzles: a stagnation pressure below ambient is raised to ambient and gives no thrust', q=20)
def blocked_nozzle(h):
    c = flow(h, 1, stag=True); k = CV.Expansion_Nozzle(); inlet(h, k, 1, hot=2000)
    pid, eta = h.real('pid', .5, 1), h.real('eta', .5, 1); k.pressure_ratio, k.polytropic_efficiency = pid, eta
    h.assume(k.inputs.stagnation_pressure[0, 0] * pid < F(c, 'pressure')[0])
    k(c)
    h.eq('pressure', out(k, 'stagnation_pressure')[0], F(c, 'pressure')[0]); h.le('mach', out(k, 'mach_number')[0], .0011); h.ge('mach', out(k, 'mach_number')[0], 0.)
    h.le('velocity', out(k, 'velocity')[0] * out(k, 'velocity')[0], 1e-3 * F(c, 'specific_heat_at_constant_pressure')[0] * out(k, 'stagnation_temperature')[0])

@harness('E01', bounds='converging-diverging nozzle, full expansion, two points', q=20)
def supersonic_nozzle(h):
    n = 2; c = flow(h, n, stag=True); k = CV.Supersonic_Nozzle(); inlet(h, k, n, hot=2000)
    pid, rec, eta = h.real('pid', .5, 1), h.real('rec', .7, 1), h.real('eta', .5, 1); k.pressure_ratio, k.pressure_recovery, k.polytropic_efficiency = pid, rec, eta
    ti, pi, po = k.inputs.stagnation_temperature[:, 0] * 1, k.inputs.stagnation_pressure[:, 0] * 1, F(c, 'pressure')
    for i in range(n): h.assume(pi[i] * pid * rec > 1.0001 * po[i]); h.assume(pi[i] <= 3e4 * po[i])
    k(c); R = c.freestream.gas_specific_constant
    for i in range(n):
        g, cp = F(c, 'isentropic_expansion_factor')[i], F(c, 'specific_heat_at_constant_pressure')[i]
        tt, pt, m, t, u, p, rho = [out(k, x)[i] for x in ('stagnation_temperature', 'stagnation_pressure', 'mach_number', 'static_temperature', 'velocity', 'static_pressure', 'density')]
        h.eq('pressure', pt, pi[i] * pid * rec); h.eq('temperature', g * h.log(tt / ti[i]), (g - 1) * eta * h.log(pid * rec), atol=1e-8)
        h.eq('expanded to ambient', p, po[i]) if h.decide(m < 10) else None
        isentropic(h, g, tt, pt, t, p, m) if h.decide(m < 10) else None
        h.eq('energy', u * u / 2 + cp * t, cp * tt, atol=1e-4); h.eq('density', rho * R * t, p)

@harness('E01', bounds='shaft power offtake: any power, core flow and reference state; zero power draws nothing', q=15)
def offtake(h):
    k = CV.Shaft_Power_Off_Take(); z = h.choice('draw', ['zero', 'some'])
    if z == 'zero': k(None); h.eq('nothing', k.outputs.work_done, 0., rtol=0); return
    P, md, T, p = h.real('P', 1, 1e6), h.real('md', .01, 100), h.real('T', 200, 400), h.real('p', 1e4, 2e5)
    k.power_draw = P; k.inputs.mdhc = col(h, [md, 0. * md]); k.inputs.total_temperature_reference = col(h, [T, T]); k.inputs.total_pressure_reference = col(h, [p, p])
    k(None)
    w = k.outputs.work_done
    core = md * (p / k.reference_pressure); h.eq('power', w[0, 0] * w[0, 0] * core * core * k.reference_temperature / T, P * P, atol=1e-6)
    h.ge('sign', w[0, 0], 0); h.eq('no core flow', w[1, 0], 0.)
