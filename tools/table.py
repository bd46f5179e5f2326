"""one entry per property: text for properties.jsonl and MANIFEST.json"""
HOOKS = None
NOTE = ('Bounded: inputs range over the intervals and sizes stated per harness in the evidence file; floats are treated as exact reals (1e-6 relative tolerance). '
        'The real functions are executed symbolically, Z3 (cvc5 as second opinion) decides every claim, counterexamples are replayed on the unmodified code. ')
PL = 'Methods/Geometry/Two_Dimensional/Planform/'
SF = 'Methods/Flight_Dynamics/Static_Stability/Approximations/Supporting_Functions/'
MS = 'Methods/Missions/Segments/'
PROPS = [
dict(id='G01', title='Trapezoidal wing geometry is self-consistent',
 statement='''For any trapezoidal wing described by area, aspect ratio, taper, sweep, dihedral and thickness, the computed span, chords, mean chords,
 leading-edge sweep, wetted and flapped areas, spans, length and aerodynamic centre are those of one and the same trapezoid; tails sized from volume coefficients have
 exactly the requested volume. Converting a sweep angle between chord fractions gives the angle of the actual line and is invertible, chord and span station are inverse
 of each other, and the trapezoid obtained by extending an exposed tail into the fuselage is the same tail continued to the centreline.''',
 for_all='all wings with area 0.5..900 m2, aspect ratio 0.5..30, taper 0..1.5, sweep and dihedral within 1.2 rad, symmetric or single, vertical or horizontal, flap span and chord fractions, root offsets up to 3 m',
 why='regression scripts compare two or three aircraft with stored numbers; the relations must hold for every planform an optimiser visits',
 files=[PL + 'wing_planform.py', PL + 'vertical_tail_planform.py', PL + 'horizontal_tail_planform.py', SF + 'convert_sweep.py', SF + 'extend_to_ref_area.py', SF + 'trapezoid_ac_x.py', SF + 'trapezoid_mac.py',
   'Methods/Geometry/Three_Dimensional/compute_chord_length_from_span_location.py', 'Methods/Geometry/Three_Dimensional/compute_span_location_from_chord_length.py'],
 mech=[('trapezoid formulas', PL + 'wing_planform.py'), ('sweep conversion', SF + 'convert_sweep.py')], note=NOTE),
dict(id='G02', title='Multi-segment wing totals are the integrals over the segments',
 statement='''For a wing built from spanwise stations, area, aspect ratio, mean geometric and aerodynamic chord, wetted area, total span, taper, equivalent sweeps, length, average thickness
 and aerodynamic centre are the exact integrals of the piecewise-linear planform, and a wing with a single segment gets the trapezoid values. Supplied areas are kept unless overwriting is requested,
 and the per-segment reference, exposed and wetted areas and chords are those of each segment and add up to the wing totals.''',
 for_all='2 to 4 stations at any positions, any chords, sweeps, dihedrals and thicknesses, symmetric or single wing, reference areas kept or overwritten, root offset inside the first segment',
 why='tests exercise a handful of fixed segmented wings; defects show only for particular combinations of symmetry, constant chord, dihedral and overwrite flags',
 files=[PL + 'wing_segmented_planform.py'], mech=[('strip integrals', PL + 'wing_segmented_planform.py'), ('segment areas', PL + 'wing_segmented_planform.py')],
 note=NOTE + 'Known finding: thickness of a non-symmetric wing.'),
dict(id='G03', title='Control surfaces are partitioned over wing segments without gap or overlap',
 statement='''A control surface given by its span fractions is cut at the wing stations into per-segment pieces that together cover exactly the requested span, do not overlap,
 lie each in its own segment with correct local fractions and span, and keep type, chord fraction and deflection. Repeating the operation does not duplicate pieces.''',
 for_all='3 to 5 stations at any positions, any surface start < end including starts and ends exactly on a station, one or two surfaces, five surface types',
 why='tests place surfaces at fixed interior positions; coincidence with a station and spanning several segments are not sampled',
 files=[PL + 'populate_control_sections.py'], mech=[('partition', PL + 'populate_control_sections.py')], note=NOTE),
dict(id='G04', title='Fuselage, origin, internal-volume and fuel-volume geometry is consistent',
 statement='''Fuselage lengths, fineness ratios, areas and effective diameter computed from seats or from a given length agree with each other and with the elliptical section.
 Making component origins non-dimensional and dimensional again returns every origin, and rescaling the fuselage scales every origin in proportion. The volume of a tapered wing box built from
 similar sections is the frustum of its end sections, and wing fuel volume scales with size, thickness and aspect ratio like a volume.''',
 for_all='any elliptical sections 0.3..12 m, seat layouts, lengths up to 90 m, one to four engines at any positions, wings with camber 0..0.09, thickness 0.02..0.25, any taper',
 why='stored regression numbers for one or two aircraft cannot show scaling or round-trip behaviour',
 files=[PL + 'fuselage_planform.py', PL + 'rescale_non_dimensional.py', PL + 'wing_fuel_volume.py', 'Methods/Geometry/Three_Dimensional/estimate_naca_4_series_internal_volume.py'],
 mech=[('fuselage layout', PL + 'fuselage_planform.py'), ('origins', PL + 'rescale_non_dimensional.py')], note=NOTE + 'Known finding: lower front spar of the NACA wing box.'),
dict(id='M01', title='Every mission segment flies the profile that was asked for',
 statement='''Each climb, descent, cruise, loiter, acceleration, pitch, hover, transition and single-point segment produces the altitude, speed (true, equivalent, Mach or dynamic pressure), climb rate or angle,
 pitch schedule, distance and duration it was given at every control point, in the atmosphere at each point's own altitude and temperature offset. An altitude or pitch that is not given is inherited from the
 end of the previous segment, the segment starts at the previous segment's end time, and evaluating the same segment again gives the same flight.''',
 for_all='all segment types listed; any altitudes to 14 km, speeds, rates, angles, accelerations, durations, any linear atmosphere and temperature offset; altitude given or inherited; first or repeated evaluation; three control points',
 why='each regression mission uses one set of numbers, mostly with given altitudes, and compares stored results', over=['inputs', 'configurations', 'histories'],
 files=[MS + 'Climb/' + f + '.py' for f in ('Constant_Speed_Constant_Rate', 'Constant_Mach_Constant_Rate', 'Constant_EAS_Constant_Rate', 'Constant_Dynamic_Pressure_Constant_Rate', 'Constant_Speed_Linear_Altitude', 'Optimized')] + [MS + 'Cruise/Constant_Pitch_Rate_Constant_Altitude.py', MS + 'Transition/Constant_Acceleration_Constant_Angle_Linear_Climb.py'],
 mech=[('per-segment initial conditions', MS + 'Climb'), ('time from vertical speed', MS + 'Climb/Common.py')], note=NOTE + 'Known findings: dynamic-pressure segments on first evaluation, start of the accelerating climb.'),
dict(id='M02', title='Derivatives, integrals and integrated histories of a segment are exact',
 statement='''The discretisation used by segments differentiates and integrates every polynomial up to its degree exactly over the actual duration, integration inverts differentiation, and linear data does so on its grid.
 Acceleration, horizontal position and range, mass (total, fuel and additional fuel), latitude and longitude of a segment are the integrals and derivatives of the corresponding rates, start at the segment's
 initial values, and climb duration integrates the vertical speed.''',
 for_all='2 to 32 control points; every polynomial with coefficients in [-1,1]; any start time and duration; any velocity, mass-flow, course and position history of 2..4 points',
 why='tests check a few functions at one resolution; an operator can be wrong for other sizes or for shifted times',
 files=['Methods/Utilities/Chebyshev/chebyshev_data.py', 'Methods/Utilities/Chebyshev/linear_data.py', MS + 'Common/Numerics.py', MS + 'Common/Frames.py', MS + 'Common/Weights.py'],
 mech=[('pseudospectral operators', 'Methods/Utilities/Chebyshev/chebyshev_data.py'), ('time scaling', MS + 'Common/Numerics.py')], note=NOTE),
dict(id='M03', title='The residual solved at every point is Newton\'s law in the right frames',
 statement='''At every control point the residual of a climb, descent, cruise, acceleration, loiter, hover, transition, ground or single-point segment is zero exactly when lift, drag, thrust, weight and ground friction,
 each turned from its own axes into the inertial frame, accelerate the actual mass as the flight profile does. Rotations are orthonormal, wind axes follow the velocity, freestream dynamic pressure,
 Mach and Reynolds numbers are those of the local air and velocity, coefficients become forces with the dynamic pressure and reference area, and the lift limit is respected.''',
 for_all='any aerodynamic coefficients, thrust vector, mass flow, pitch, throttle, velocity, linear atmosphere and gravity; 2 control points (3 in the thorough run)',
 why='a converged test mission only shows that some residual vanished, not that the residual is the right equation; terms that are zero or tiny in the sampled flights go unnoticed',
 files=[MS + 'Common/Frames.py', MS + 'Common/Aerodynamics.py', MS + 'Climb/Common.py', MS + 'Cruise/Common.py', MS + 'Ground/Common.py', 'Methods/Geometry/Three_Dimensional/orientation_product.py'],
 mech=[('force residuals', MS + 'Climb/Common.py'), ('frame rotations', MS + 'Common/Frames.py')], note=NOTE),
dict(id='M04', title='Consecutive mission segments join without a gap',
 statement='''Every segment starts exactly where the previous one ended: same time, mass, range, horizontal position, latitude, longitude and mission start time, same battery energy, temperature, throughput and ageing,
 and the previous altitude unless its own is given; elapsed differences inside the segment are kept and the previous segment is not altered. The first segment starts at takeoff mass and at its own start time and place.
 A mission evaluated segment by segment runs in order, forward in time, reaches the requested altitudes, and burns exactly the integrated fuel flow.''',
 for_all='all 31 segment types after any previous final state; whole missions of 2 and 3 segments with arbitrary aerodynamics, propulsion and solver iterates, altitudes given or inherited, repeated evaluation',
 why='regression missions start every segment from given altitudes and compare a few end values; history dependence is not sampled', over=['inputs', 'configurations', 'histories'],
 files=[MS + 'Common/Frames.py', MS + 'Common/Weights.py', MS + 'Common/Energy.py', MS + 'Common/Sub_Segments.py', 'Analyses/Mission/Sequential_Segments.py', 'Analyses/Mission/Segments/Aerodynamic.py'],
 mech=[('initial conditions', MS + 'Common/Frames.py'), ('segment chaining', MS + 'Common/Sub_Segments.py')], note=NOTE),
dict(id='M05', title='The solver sees exactly the unknowns and residuals of the mission',
 statement='''Every segment poses as many equations as unknowns; the vector handed to the root finder is its unknowns in order and what it gets back is its residuals in order, evaluated at that vector, repeatably.
 Convergence is reported exactly when the solver succeeded and the solver\\'s answer is left in the segment. A mission solved at once merges segments in order and unpacks each unknown to its own segment;
 a variable-range mission varies the chosen cruise distance until final weight or charge meets the target relative to the target. An optimised climb minimises the chosen objective under the stated limits.''',
 for_all='all segment types, 2 or 3 control points, any unknown and residual values, any solver verdict and tolerances; missions of 2 or 3 segments',
 why='a test mission converges or not; a permuted, truncated or stale vector shows only for particular unknown sets', over=['inputs', 'configurations', 'histories'],
 files=[MS + 'converge_root.py', MS + 'optimize.py', MS + 'expand_state.py', MS + 'Common/Sub_Segments.py', MS + 'Cruise/Variable_Cruise_Distance.py', 'Analyses/Mission/All_At_Once.py', 'Analyses/Mission/Variable_Range_Cruise/Given_Weight.py', 'Analyses/Mission/Variable_Range_Cruise/Given_State_of_Charge.py', 'Core/Data.py'],
 mech=[('root finding', MS + 'converge_root.py'), ('merge and unpack', MS + 'Common/Sub_Segments.py')], note=NOTE + 'The root finder itself is replaced by one that visits arbitrary points; its convergence is not claimed.'),
dict(id='C01', title='Data containers keep, merge and pack values faithfully',
 statement='''Packing nested data into a vector or array and unpacking it again is the identity in a fixed order, with shapes, text and higher-rank entries untouched. Updating merges branch by branch without losing keys,
 histories append row by row, dotted and indexed paths reach exactly the named entry, ordered data keeps its order. Components appended under equal tags all stay, each under its own tag. A configuration derived from a base
 keeps its own changes and follows every later change of the base in everything else.''',
 for_all='nested structures with scalars, vectors, matrices, rank-3 arrays and text; any values; repeated base changes; tags equal or similar; lists, tuples or containers',
 why='every result travels through these containers, and a permuted or stale entry shows only for particular structures and histories', over=['inputs', 'configurations', 'histories'],
 files=['Core/Data.py', 'Core/DataOrdered.py', 'Core/Container.py', 'Core/ContainerOrdered.py', 'Core/Diffed_Data.py', 'Core/Arrays.py'],
 mech=[('packing', 'Core/Data.py'), ('configuration differences', 'Core/Diffed_Data.py')], note=NOTE),
dict(id='C02', title='Interpolation, blending, smooth-maximum and sampling helpers are exact',
 statement='''The spline blender falls monotonically from one to zero across its interval, is flat at both ends and exactly complementary about the middle. The smooth maximum is symmetric, shifts with its arguments,
 and lies between the maximum and the maximum plus log 2. Latin hypercube samples put exactly one sample in every cell of every dimension inside the bounds. Table lookup is bilinear inside, linear outside, or the fill value.''',
 for_all='any interval and points; any two numbers; 1 or 2 dimensions with up to 3 samples, any random draws and shuffles; any 3 x 3 table',
 why='helpers are exercised through a few analyses at fixed arguments only',
 files=['Methods/Utilities/Cubic_Spline_Blender.py', 'Methods/Aerodynamics/Supersonic_Zero/Drag/Cubic_Spline_Blender.py', 'Methods/Utilities/soft_max.py', 'Methods/Utilities/latin_hypercube_sampling.py', 'Core/Utilities.py'],
 mech=[('sampling', 'Methods/Utilities/latin_hypercube_sampling.py'), ('bilinear lookup', 'Core/Utilities.py')], note=NOTE),
dict(id='E01', title='Gas-turbine components obey their pressure and energy balances',
 statement='''Each gas-turbine component returns a stagnation state consistent with its inputs: compressors and fans follow the polytropic relation and absorb exactly the enthalpy they add, stages in series
 compose, a turbine delivers exactly the work asked by its compressor, fan and offtake and expands accordingly, the combustor burns the fuel that heats the flow to the turbine inlet temperature, the intake
 returns the isentropic stagnation state and publishes the gas properties, and nozzles and inlets conserve energy, relate static to stagnation state by their exit Mach number, choke at Mach one,
 recover the normal-shock loss when supersonic, and never blow below ambient pressure.''',
 for_all='all gas properties (gamma 1.2..1.5), inlet states, pressure ratios, efficiencies, bypass ratios, one to two flow points in different regimes at once',
 why='regressions run a few engines at a few points; the balances must hold at every throttle, altitude and Mach number, and masks that mix flow points are only exercised by mixed regimes',
 files=['Components/Energy/Converters/' + f + '.py' for f in ('Compressor', 'Fan', 'Turbine', 'Combustor', 'Ram', 'Compression_Nozzle', 'Expansion_Nozzle', 'Supersonic_Nozzle', 'Shaft_Power_Off_Take')] + ['Methods/Propulsion/fm_id.py'],
 mech=[('shaft work balance', 'Components/Energy/Converters/Turbine.py'), ('nozzle regimes', 'Components/Energy/Converters/Expansion_Nozzle.py')], note=NOTE),
dict(id='E02', title='Shocks, ducts and thrust satisfy the one-dimensional conservation laws',
 statement='''Normal and oblique shock relations conserve mass, momentum and energy and compress; a shock train multiplies the ratios of its shocks and passes each Mach number on; the equations handed to the root
 finders for heat addition, area change and shocked nozzles are solved exactly by the conservation laws and start on the right branch. Thrust is momentum plus pressure thrust of core and bypass stream times
 mass flow, engines and throttle, fuel flow is the fuel-air ratio times core flow and never negative, specific consumption and impulse agree with them, and an engine sized for a thrust delivers it.''',
 for_all='Mach .05..8, gamma 1.1..1.67, any shock angles, any nozzle states, bypass 0..12, 1, 2 or 4 engines, throttle 0..1.2, two flow points; roots of the implicit equations are taken as given (the SciPy solver is outside)',
 why='stored engine decks cannot show that sizing and evaluation agree for every cycle or that thrust scales with throttle and number of engines',
 files=['Components/Energy/Processes/Thrust.py'] + ['Methods/Propulsion/' + f + '.py' for f in ('fm_id', 'fm_solver', 'rayleigh', 'nozzle_calculations', 'shock_train')] + ['Methods/Aerodynamics/Common/Gas_Dynamics/Oblique_Shock.py'],
 mech=[('thrust', 'Components/Energy/Processes/Thrust.py'), ('shock relations', 'Methods/Aerodynamics/Common/Gas_Dynamics/Oblique_Shock.py')], note=NOTE),
dict(id='E03', title='Gas-turbine networks are wired correctly and deliver the design thrust',
 statement='''In turbofan, turbojet (dry and with afterburner), ducted fan, ramjet and scramjet, every component receives the flow of the component upstream of it, both when sizing and in flight; shafts connect the right
 compressor, fan and turbine; the network returns the thrust and fuel of a thrust component fed with that flow, along the body axis; evaluating at the design point returns the design thrust; sizing, sea-level evaluation and flight do not
 leave state that changes a later evaluation; losing an engine removes one engine's share at full throttle; the noise sources are told the exhaust state.''',
 for_all='components replaced by unknown functions of the flight condition (any outputs), any design thrust, bypass ratio, 1 to 3 engines; histories design -> sea level -> design -> flight -> engine out',
 why='networks are tested by single stored numbers; a link left from an earlier evaluation shows only in particular sequences of conditions',
 files=['Components/Energy/Networks/' + f + '.py' for f in ('Turbofan', 'Turbojet_Super', 'Ducted_Fan', 'Ramjet', 'Scramjet')] + ['Methods/Propulsion/' + f + '_sizing.py' for f in ('turbofan', 'turbojet', 'ducted_fan', 'ramjet', 'scramjet')],
 mech=[('network wiring', 'Components/Energy/Networks/Turbofan.py'), ('sizing', 'Methods/Propulsion/turbofan_sizing.py')], note=NOTE + 'Known findings: turbofan noise source pressure; reference flow of ducted fan and scramjet.'),
dict(id='E04', title='Electric and shaft components conserve power and obey their laws',
 statement='''Motor voltage, speed, torque and current satisfy the equivalent-circuit equations in both directions (forward map and inverse agree; no current flows back below the back-emf; efficiency times electrical power is shaft power);
 a motor matched to a propeller balances torque; the speed controller delivers between 0 and 100% throttle and draws the delivered power over its efficiency; a gearbox keeps rim speed and loses exactly its inefficiency; solar panels, maximum power
 point logic, avionics and payload add up, and surplus is clipped only at a full battery; generators, turboelectric and fuel-cell supplies burn fuel for the power they deliver; superconducting supplies, dynamos and cryocoolers pay their losses and never
 beat Carnot; a piston engine never exceeds its rated power, follows the altitude law above flat rating and burns power times specific consumption; the fixed-efficiency propeller returns thrust times speed as its share of shaft power.''',
 for_all='every component parameter, voltage, current, speed, torque, throttle, temperature and altitude in the stated ranges (1 to 3 points)',
 why='inverse maps, clips and efficiencies interact; regressions follow one trajectory of one vehicle',
 files=['Components/Energy/Converters/' + f + '.py' for f in ('Motor', 'Motor_Lo_Fid', 'Gearbox', 'Solar_Panel', 'Generator_Zero_Fid', 'Motor_HTS_Rotor', 'Turboelectric', 'Internal_Combustion_Engine', 'Propeller_Lo_Fid')] + ['Components/Energy/Distributors/' + f + '.py' for f in ('Electronic_Speed_Controller', 'Solar_Logic')] + ['Components/Energy/Cooling/Cryocooler.py'],
 mech=[('motor equations', 'Components/Energy/Converters/Motor.py'), ('speed controller', 'Components/Energy/Distributors/Electronic_Speed_Controller.py')], note=NOTE + 'Known finding: the speed controller\'s current ignores the throttle limits.'),
dict(id='E05', title='Batteries conserve energy and charge, heat and age consistently, size to need',
 statement='''Over any segment the battery's energy changes by the integral of the power taken or given less resistive losses, never beyond full; state of charge is energy over aged capacity in 0..1 and depth of discharge its complement; throughput integrates the
 current; pack temperature integrates heat over heat capacity less convection and does not cool below ambient; voltages under load are open-circuit less current times resistance; pack and cell quantities differ by the series and parallel counts; cell
 maps are looked up within the tested range; aging never restores capacity or lowers resistance; sizing from mass, energy and power, or circuit layout returns a battery that meets them and no heavier; recorded conditions are the battery's own.''',
 for_all='any power, current, duration, capacity, pack layout, temperature, aging factor in the stated ranges (2 to 3 points); cell maps with free values',
 why='the bookkeeping couples clipping, integration and layout; tests follow a few discharge curves of fixed packs',
 files=['Components/Energy/Storages/Batteries/Constant_Mass/' + f + '.py' for f in ('Lithium_Ion', 'Lithium_Ion_LiNiMnCoO2_18650', 'Lithium_Ion_LiFePO4_18650')] + ['Methods/Power/Battery/' + f + '.py' for f in ('compute_net_generated_battery_heat', 'pack_battery_conditions', 'Cell_Cycle_Models/LiNiMnCoO2_cell_cycle_model', 'Sizing/initialize_from_mass', 'Sizing/initialize_from_energy_and_power', 'Sizing/initialize_from_circuit_configuration', 'Variable_Mass/find_mass_gain_rate')],
 mech=[('energy bookkeeping', 'Components/Energy/Storages/Batteries/Constant_Mass/Lithium_Ion.py'), ('heat balance', 'Methods/Power/Battery/compute_net_generated_battery_heat.py')], note=NOTE),
dict(id='E06', title='Rockets and nozzles follow the nozzle flow relations',
 statement='''A converging nozzle expands to ambient pressure or chokes: exit Mach number, temperature, density, speed and area ratio belong to one isentropic state. A rocket's thrust is momentum flux plus exit overpressure times exit area, specific impulse is
 thrust over propellant weight flow, the sized throat passes the design flow, and a network of several engines delivers and burns their sum in proportion to throttle, along the body axis.''',
 for_all='any stagnation pressure and temperature, ambient pressure, efficiencies, throttle, area ratio, 1 to 4 engines within stated ranges',
 why='one stored rocket with one engine cannot show that flow, thrust and number of engines stay in proportion',
 files=['Components/Energy/Converters/Expansion_Nozzle.py', 'Components/Energy/Converters/de_Laval_Nozzle.py', 'Components/Energy/Processes/Rocket_Thrust.py', 'Components/Energy/Networks/Liquid_Rocket.py'],
 mech=[('nozzle', 'Components/Energy/Converters/de_Laval_Nozzle.py'), ('rocket thrust', 'Components/Energy/Processes/Rocket_Thrust.py')], note=NOTE),
dict(id='A01', title='Subsonic drag is the sum of its correct component contributions',
 statement='''The drag coefficient is the sum, on one reference area, of wing, fuselage, nacelle and pylon parasite drag, induced, compressibility and miscellaneous drag, corrected for trim, spoilers and increments; every contribution scales with its own wetted or reference
 area, uses the Reynolds number of its own length and its own form factor; segmented and simple wings agree on the law; induced drag follows from lift, aspect ratio and efficiency or from the inviscid and viscous parts; the flat-plate friction laws blend
 laminar and turbulent parts; the breakdown records what was summed.''',
 for_all='any areas, lengths, thickness, sweep, lift, efficiencies; Mach number over subsonic, blended and supersonic ranges; 1 to 2 of each component, evaluated repeatedly',
 why='regressions compare one total for a few aircraft: an error in the reference area of one component or in a blend is within their tolerance or outside their sampled state',
 files=['Methods/Aerodynamics/Common/Fidelity_Zero/Drag/' + f + '.py' for f in ('parasite_drag_wing', 'parasite_drag_fuselage', 'parasite_drag_nacelle', 'parasite_total', 'induced_drag_aircraft', 'compressibility_drag_wing', 'total_aircraft')] + ['Methods/Aerodynamics/Common/Fidelity_Zero/Helper_Functions/compressible_mixed_flat_plate.py'],
 mech=[('wing parasite drag', 'Methods/Aerodynamics/Common/Fidelity_Zero/Drag/parasite_drag_wing.py'), ('total', 'Methods/Aerodynamics/Common/Fidelity_Zero/Drag/total_aircraft.py')], note=NOTE),
]
NOT_APPLICABLE = []
