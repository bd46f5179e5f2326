"""E03: gas-turbine networks connect their components correctly and reproduce the design thrust."""
from engine.harness import harness
import SUAVE, numpy as np
from SUAVE.Core import Data
from SUAVE.Components.Energy import Networks as NW
from SUAVE.Components.Energy.Processes.Thrust import Thrust
from props.E01 import col
from props.E02 import conditions, TF, TJ, DF
from SUAVE.Methods.Propulsion.ramjet_sizing import ramjet_sizing as RJ
from SUAVE.Methods.Propulsion.scramjet_sizing import scramjet_sizing as SJ
from SUAVE.Analyses.Mission.Segments.Conditions import Conditions

COMMON = dict(stagnation_temperature=(200, 1800), stagnation_pressure=(1e4, 2e6))
NOZ = dict(COMMON, density=(.1, 2), static_temperature=(180, 1500), static_pressure=(1e4, 3e5), velocity=(400, 1200), area_ratio=(.1, 3), temperature=(300, 1500), pressure=(1e4, 3e5))
KEYS = dict(ram=COMMON, inlet_nozzle=dict(COMMON, mach_number=(.1, 3)), low_pressure_compressor=dict(COMMON, work_done=(1e3, 1e5)), high_pressure_compressor=dict(COMMON, work_done=(1e3, 5e5)), fan=dict(COMMON, work_done=(1e3, 1e5)),
  combustor=dict(COMMON, fuel_to_air_ratio=(.005, .05), static_temperature=(300, 2000), static_pressure=(1e4, 1e6), velocity=(100, 2000)), afterburner=dict(COMMON, fuel_to_air_ratio=(.005, .05)),
  high_pressure_turbine=COMMON, low_pressure_turbine=COMMON, core_nozzle=NOZ, fan_nozzle=NOZ)
class Stage(object):
    """an engine component with unknown behaviour: for each flight condition its outputs are unknown numbers; it records its inputs"""
    def __init__(self, h, name): self.h, self.name, self.inputs, self.outputs, self.log, self.memo = h, name, Data(), Data(), {}, {}
    def run(self, c, how):
        k = getattr(c, 'label', 'sls')
        if k not in self.memo: self.memo[k] = {a: self.h.real('%s_%s_%s' % (self.name, a, k), *r) for a, r in KEYS[self.name].items()}
        self.outputs = Data(); self.outputs.tag_of = (self.name, k)
        for a in self.memo[k]: self.outputs[a] = col(self.h, [self.memo[k][a]])
        if self.name == 'ram':
            fs = c.freestream
            if k == 'sls': fs.specific_heat_at_constant_pressure, fs.gas_specific_constant = fs.Cp, fs.R
            self.outputs.isentropic_expansion_factor, self.outputs.gas_specific_constant = fs.isentropic_expansion_factor, fs.gas_specific_constant
        f = lambda v: v[0, 0] * 1 if np.ndim(v) == 2 else v
        self.log.setdefault(k, []).append((how, {a: (f(v) if not isinstance(v, Data) else getattr(v, 'tag_of', None)) for a, v in self.inputs.items()}))
    def __call__(self, c): self.run(c, 'call')
    def compute_rayleigh(self, c): self.run(c, 'rayleigh')
    def compute_limited_geometry(self, c): self.run(c, 'limited')
    def compute_scramjet(self, c): self.run(c, 'scramjet')
    def compute_supersonic_combustion(self, c): self.run(c, 'supersonic')
class Gas(object):
    gas_specific_constant = 287.
    def compute_gamma(self, T, p): return 1.4 + 0 * T
    def compute_cp(self, T, p): return 1004. + 0 * T
TT, PT = 'stagnation_temperature', 'stagnation_pressure'
flow = lambda a, b: [(b, TT, a, TT), (b, PT, a, PT)]
COLD = flow('ram', 'inlet_nozzle')
GAS = COLD + flow('inlet_nozzle', 'low_pressure_compressor') + flow('low_pressure_compressor', 'high_pressure_compressor') + flow('high_pressure_compressor', 'combustor') + flow('combustor', 'high_pressure_turbine') + \
  flow('high_pressure_turbine', 'low_pressure_turbine') + [(x, 'fuel_to_air_ratio', 'combustor', 'fuel_to_air_ratio') for x in ('high_pressure_turbine', 'low_pressure_turbine')]
LINKS = dict(turbofan=GAS + flow('low_pressure_turbine', 'core_nozzle') + flow('inlet_nozzle', 'fan') + flow('fan', 'fan_nozzle'), turbojet=GAS + flow('low_pressure_turbine', 'core_nozzle'),
  reheat=GAS + flow('low_pressure_turbine', 'afterburner') + flow('afterburner', 'core_nozzle'), ducted_fan=COLD + flow('inlet_nozzle', 'fan') + flow('fan', 'fan_nozzle'),
  ramjet=COLD + flow('inlet_nozzle', 'combustor') + flow('combustor', 'core_nozzle'),
  scramjet=COLD + flow('inlet_nozzle', 'combustor') + flow('combustor', 'core_nozzle') + [('core_nozzle', a, 'combustor', a) for a in ('static_temperature', 'static_pressure', 'velocity', 'fuel_to_air_ratio')])
REF = dict(turbofan='low_pressure_compressor', turbojet='low_pressure_compressor', reheat='low_pressure_compressor', ducted_fan='fan_nozzle', ramjet='core_nozzle', scramjet='core_nozzle')
MAKE = dict(turbofan=(NW.Turbofan, TF.turbofan_sizing), turbojet=(NW.Turbojet_Super, TJ.turbojet_sizing), reheat=(NW.Turbojet_Super, TJ.turbojet_sizing), ducted_fan=(NW.Ducted_Fan, DF.ducted_fan_sizing),
  ramjet=(NW.Ramjet, RJ), scramjet=(NW.Scramjet, SJ))
def engine(h, kind):
    K, size = MAKE[kind]; e = K(); e.working_fluid = Gas(); S = {}
    for n in sorted({x for l in LINKS[kind] for x in (l[0], l[2])}): S[n] = Stage(h, n); dict.__setitem__(e, n, S[n]) if False else setattr(e, n, S[n])
    e.thrust = Thrust(); e.number_of_engines = h.choice('engines', [1., 2., 3.]); e.thrust.total_design = h.real('design', 1e3, 1e6)
    e.bypass_ratio = 0. if kind != 'turbofan' else h.real('bpr', .1, 12)
    if kind.startswith('turbojet') or kind == 'reheat': e.afterburner_active = kind == 'reheat'
    if kind == 'reheat': pass
    return e, S, size
def flight(h, label):
    c = conditions(h, 1, label); c.label = label; c.propulsion.throttle = col(h, [1.]) if label == 'design' else c.propulsion.throttle
    c.noise = Data(sources=Data(turbofan=Data())); c.freestream.density = col(h, [1.]); return c
def wired(h, kind, S, k, who):
    for b, x, a, y in LINKS[kind]:
        how, got = S[b].log[k][-1]
        h.eq(who + ': ' + b + ' ' + x, got[x], S[a].memo[k][y], rtol=0)
    if kind in ('turbofan', 'turbojet', 'reheat'):
        hp, lp = S['high_pressure_turbine'].log[k][-1][1], S['low_pressure_turbine'].log[k][-1][1]
        h.true(who + ': compressor shafts', hp['compressor'] == ('high_pressure_compressor', k) and lp['compressor'] == ('low_pressure_compressor', k))
        if kind == 'turbofan': h.true(who + ': fan shaft', lp['fan'] == ('fan', k)); h.eq(who + ': fan not on the high-pressure shaft', hp['bypass_ratio'], 0.)
        else: h.eq(who + ': no bypass', [hp['bypass_ratio'], lp['bypass_ratio']], [0., 0.])
def run(h, kind):
    e, S, size = engine(h, kind); D = e.thrust.total_design; n = e.number_of_engines
    d, f = flight(h, 'design'), flight(h, 'cruise')
    t = e.thrust
    # keep the specific thrust at the design point positive: the design thrust is reachable
    orig = t.size if kind != 'scramjet' else t.size_stream_thrust
    size(e, conditions=d)
    h.assume(t.mass_flow_rate_design[0, 0] > 0)
    wired(h, kind if kind != 'reheat' else 'turbojet', S, 'design', 'sizing') if kind != 'reheat' else None
    h.eq('design thrust kept', e.design_thrust, D)
    r = e(Data(conditions=d))
    h.eq('design thrust reproduced', r.thrust_force_vector[0, 0], D) if kind != 'reheat' else None
    nd = t.compressor_nondimensional_massflow * 1
    r = e(Data(conditions=f)); wired(h, kind, S, 'cruise', 'flight')
    if kind == 'turbofan': h.eq('bypass on the low-pressure shaft', S['low_pressure_turbine'].log['cruise'][-1][1]['bypass_ratio'], e.bypass_ratio)
    h.eq('engine keeps its size', t.compressor_nondimensional_massflow, nd)
    # the network returns what a thrust component fed with this flow returns
    m = {k: S[k].memo['cruise'] for k in S}; x = Thrust(); q = x.inputs; box = lambda s: Data(**{a: col(h, [v]) for a, v in m[s].items()}) if s in m else Data(velocity=0., area_ratio=0., static_pressure=0.)
    q.core_nozzle, q.fan_nozzle, q.number_of_engines, q.bypass_ratio = box('core_nozzle'), box('fan_nozzle'), n, e.bypass_ratio
    b = e.bypass_ratio; q.flow_through_core, q.flow_through_fan = (0., 1.) if kind == 'ducted_fan' else (1. / (1. + b), b / (1. + b))
    far = 0. if kind == 'ducted_fan' else m['combustor']['fuel_to_air_ratio'] + (m['afterburner']['fuel_to_air_ratio'] if kind == 'reheat' else 0.); q.fuel_to_air_ratio = col(h, [far])
    stale = kind in ('ducted_fan', 'scramjet')
    for at, name in (('cruise', 'reference flow'), ('design', 'as found: reference flow')) if stale else (('cruise', 'reference flow'),):
        h.eq(name, [t.inputs.total_temperature_reference[0, 0], t.inputs.total_pressure_reference[0, 0]], [S[REF[kind]].memo[at][TT], S[REF[kind]].memo[at][PT]], rtol=0)
    q.total_temperature_reference, q.total_pressure_reference = t.inputs.total_temperature_reference, t.inputs.total_pressure_reference
    x.compressor_nondimensional_massflow = nd
    (x.compute_stream_thrust if kind == 'scramjet' else x.compute)(f)
    h.eq('thrust', r.thrust_force_vector[0, 0], x.outputs.thrust[0, 0], atol=1e-6); h.eq('fuel', r.vehicle_mass_rate[0, 0], x.outputs.fuel_flow_rate[0, 0], atol=1e-9)
    h.eq('no side force', r.thrust_force_vector[0, 1:], [0., 0.], atol=0)
    for part in ('core', 'fan') if kind == 'turbofan' else ('fan',) if kind == 'ducted_fan' else ():
        s = f.noise.sources[kind][part]; v = m[part + '_nozzle']
        for a in ('static_temperature', 'static_pressure', TT, PT): h.eq('noise source: %s %s' % (part, a), s['exit_' + a][0, 0], v[a], rtol=0)
        if kind == 'turbofan': h.eq('as found: noise source %s' % part, s['exit_' + PT][0, 0], v['static_pressure'], rtol=0)
        h.eq('noise source: velocity', s.exit_velocity[0, 0], v['velocity'], rtol=0)
    return e, S, f, r, m
@harness('E03', bounds='turbofan: any component outputs at the design point, at sea level and in flight; sized with explicit conditions, then flown', q=20, timeout=200)
def turbofan(h):
    e, S, f, r, m = run(h, 'turbofan')
    th = f.propulsion.throttle * 1; T, w = r.thrust_force_vector[0, 0] * 1, r.vehicle_mass_rate[0, 0] * 1
    h.assume(th[0, 0] > .01)
    o = e.engine_out(Data(conditions=f)); n = e.number_of_engines
    h.eq('engine out: thrust', o.thrust_force_vector[0, 0] * th[0, 0] * n, T * (n - 1), atol=1e-5)
    h.eq('engine out: fuel', o.vehicle_mass_rate[0, 0] * th[0, 0] * n, w * (n - 1), atol=1e-8)
@harness('E03', bounds='turbojet, any component outputs', q=20, timeout=200)
def turbojet(h): run(h, 'turbojet')
@harness('E03', bounds='turbojet with the afterburner lit, any component outputs', q=20, timeout=200)
def reheat(h):
    e, S, f, r, m = run(h, 'reheat'); i = S['afterburner'].log['cruise'][-1][1]
    h.eq('mass of burnt fuel', i['nondim_mass_ratio'], 1 + m['combustor']['fuel_to_air_ratio'])
@harness('E03', bounds='ducted fan, any component outputs', q=20, timeout=200)
def ducted_fan(h): run(h, 'ducted_fan')
@harness('E03', bounds='ramjet, any component outputs', q=20, timeout=200)
def ramjet(h): run(h, 'ramjet')
@harness('E03', bounds='scramjet, any component outputs', q=20, timeout=200)
def scramjet(h): run(h, 'scramjet')
