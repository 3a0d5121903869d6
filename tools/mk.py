"""Writes properties.jsonl and MANIFEST.json (kept as code so that both stay in
step).  Usage: python3 tools/mk.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, F, P, C = 'multisim/simenv.py', 'multisim/precomp_funs.py', 'multisim/parts/', 'multisim/controls.py'

props = []


def prop(id, title, statement, over, qtext, why, files, mech, note, tech):
    props.append(dict(
        rec=dict(id=id, title=title, statement=statement,
                 quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])),
        note=note, tech=tech))


TESTS = ('The existing tests run two pipe-plus-pump simulations and check argument storage of '
         'the set-up calls; ')

prop('C01', 'The simulated time axis is complete, ordered and respects the step limits',
     'Every finished run records strictly increasing times starting at zero and ending at or after '
     'the requested time frame but by less than one step past it, with exactly one result row per '
     'recorded time in every part. No step is longer than the configured maximum step size, a step '
     'shorter than the configured minimum only appears where numerical stability demands it, and '
     'two consecutive steps never grow by more than the configured maximum factor. The time index '
     'of the returned data is the configured start date plus the recorded times.',
     ['configurations', 'inputs'],
     'all networks, time frames and step-size settings (tolerances, minimum/maximum step, growth factors)',
     TESTS + 'step-size settings are stored but never exercised in a run.',
     [S], [('adaptive step control', S + ':_heun_adaptive'), ('time bookkeeping', S + ':start_sim'),
           ('settings', S + ':set_timeframe')],
     'Offline monitor over the recorded step history of many randomised networks and settings.',
     'offline trace monitor on the recorded step history')

prop('C02', 'Mass is conserved at every connection, part and step',
     'In every network whose flows are determined by its pumps and valves, at every recorded step the mass flow leaving one part through a connection is the mass flow '
     'entering the connected part, and the signed flows over all ports of a part sum to zero. '
     'Pump parts carry exactly their set flow, and a three-way valve passes the share given by its '
     'opening through port A and the remainder through port B, whatever the flow direction.',
     ['configurations', 'inputs', 'histories'],
     'all connectable networks (chains, branches, storages with extra ports, mixing and splitting '
     'valves, junctions, closed loops, heat exchangers), flow signs and flow histories',
     TESTS + 'the only network tested is one pipe in series with one pump.',
     [S, P + 'pipe.py', P + 'pipe_branched.py', P + 'pipe_with_valve.py', P + 'pipe_with_pump.py',
      P + 'tes.py', P + 'connector_3w.py', F],
     [('flow net construction', S + ':_get_topology,_recursive_topology'),
      ('flow net update', S + ':_update_FlowNet'), ('per-part routines', P + '*:_get_flow_routine'),
      ('flow distribution in parts', F + ':_process_flow_invar,_process_flow_var')],
     'Independent network flow solver (from the connection list only) compared with every recorded flow.',
     'conservation monitor against an independent network flow solution')

prop('C03', 'The heat balance of every finite volume closes in every step',
     'Over every accepted time step the heat stored in each finite volume of a pipe, pump pipe, '
     'valve pipe, branched pipe or storage (fluid plus wall) changes by the heat advected with the '
     'mass flow from the upstream volume or port, the heat conducted to its neighbours, the heat '
     'exchanged with the ambient and nothing else. Heat leaving one part through a port is the heat '
     'entering the connected part.',
     ['configurations', 'inputs', 'histories'],
     'all networks of these parts, geometries, materials, insulation, initial temperature fields, '
     'flow rates and directions',
     TESTS + 'they compare the final temperatures of one pipe for two flow rates.',
     [F, S, P + 'pipe.py', P + 'tes.py', P + 'pipe_with_valve.py', P + 'pipe_branched.py'],
     [('differential of a pipe', F + ':pipe1D_diff,pipe1D_branched_diff'),
      ('differential of a storage', F + ':tes_diff'), ('Heun corrector', F + ':_heun_corrector_adapt'),
      ('port exchange', S + ':_update_ports'), ('geometry', P + 'pipe.py:init_part')],
     'Independent re-implementation of the finite volume balance replays every recorded step (Heun) '
     'and compares each cell.',
     'step-by-step replay of the recorded trace against an independent reference model')

prop('C04', 'No temperature ever leaves the range of what feeds the network',
     'In a network without heat sources every recorded temperature stays between the lowest and the '
     'highest of all initial, boundary and ambient temperatures (to within the requested '
     'error tolerance). If all of these are equal, every recorded temperature stays at that value.',
     ['configurations', 'inputs', 'histories'],
     'all source-free networks, flow histories and step-size settings',
     TESTS + 'no test looks at bounds or equilibria.',
     [F, S], [('upwinding', F + ':pipe1D_diff'), ('stability limit', F + ':_vonNeumann_stability_invar'),
              ('error control', S + ':_heun_adaptive'), ('junction mixing', F + ':solve_connector_3w')],
     'Online/offline envelope monitor on all recorded temperatures; includes all parts and the heat exchangers.',
     'invariant (envelope and equilibrium) monitor on recorded temperatures')

prop('C05', 'Junctions mix and split streams without gaining or losing heat',
     'Where two streams join at a three-way junction the leaving stream carries the sum of the '
     'entering enthalpy flows, and where a stream splits both leaving streams have the temperature '
     'of the entering one, for every assignment of ports and flow directions.',
     ['configurations', 'inputs', 'histories'],
     'all port assignments, flow directions, flow ratios (including zero flow) and temperatures',
     TESTS + 'no junction is ever simulated.',
     [F, P + 'connector_3w.py', P + 'mixingvalve.py'],
     [('junction solver', F + ':solve_connector_3w'), ('flow routine', P + 'connector_3w.py:_get_flow_routine')],
     'Offline monitor: enthalpy balance at each junction from the neighbouring parts’ recorded data.',
     'offline enthalpy-balance monitor on recorded junction traces')

prop('C06', 'Storages stratify: stable layers stay ordered, unstable layers mix',
     'In a thermal energy storage without through-flow, a temperature profile that falls from top to '
     'bottom keeps falling from top to bottom, and a layer that is colder than the layer below it mixes '
     'with it far faster than by conduction while the heat content is unchanged except for losses to '
     'the ambient. Ports added to a storage exchange heat and mass with exactly the layer they were '
     'placed at.',
     ['configurations', 'inputs', 'histories'],
     'all storage sizes, layer counts, initial profiles and port positions',
     TESTS + 'no storage is ever simulated.',
     [F, P + 'tes.py', S], [('buoyancy', F + ':buoyancy_byNusselt'), ('differential', F + ':tes_diff'),
                            ('port placement', P + 'tes.py:__add_ports')],
     'Trace monitors for ordering, inversion decay, heat content and port placement on randomised storages.',
     'trace-property monitors (ordering, decay, conservation) on storage runs')

prop('C07', 'Results converge to the true solution within the requested tolerance',
     'Every accepted step has a local error estimate within the requested relative and absolute '
     'tolerance (unless it is already at the minimum step size), and with tightened tolerances the results approach an '
     'independent high-accuracy solution of the same network with errors that shrink accordingly. '
     'Reading the result at a given time does not depend on the step sizes beyond that error.',
     ['configurations', 'inputs'],
     'all tolerance settings, networks and inputs',
     TESTS + 'one tolerance is used and only compared with stored numbers of the same code.',
     [S, F], [('error estimate', F + ':_heun_corrector_adapt'), ('acceptance', S + ':_heun_adaptive')],
     'Local error recomputed from the trace with the reference model; end results compared with an '
     'independently integrated reference (LSODA/RK45).',
     'differential monitor against an independently integrated reference solution')

prop('C08', 'Time-varying boundary conditions are applied at the right time',
     'A boundary temperature, flow, set point or other input given as a time series takes at every '
     'simulated time the value which the series, interpolated linearly or averaged over the step when the '
     'step is longer than the series spacing, has at that time, starting with its value at the start date. A '
     'constant series is indistinguishable from the same constant.',
     ['inputs', 'configurations', 'schedules'],
     'all series, spacings, start dates, assigned variables and step sizes',
     TESTS + 'no time-varying boundary condition is ever simulated.',
     [S], [('series preparation', S + ':assign_boundary_cond'), ('per-step update', S + ':_update_dyn_BC')],
     'Monitor compares the value observed in every step with an independent evaluation of the series.',
     'online monitor comparing applied boundary values with an independent interpolation')

prop('C09', 'PID controllers follow the PID law in every step',
     'In every step the output of a P, PI, PD or PID controller is the value given by the discrete or '
     'continuous PID equation for the recorded process value, set point, gains (given directly or derived from '
     'Ziegler-Nichols parameters) and past steps, '
     'including integral wind-up limiting, and takes effect in the following step.',
     ['inputs', 'configurations', 'histories'],
     'all gains, terms, tuning rules, set points, process histories and step sizes',
     TESTS + 'controllers are never instantiated.',
     [P + 'controllers.py', C], [('PID algorithm', P + 'controllers.py:run_controller'),
                                 ('gain derivation', P + 'controllers.py:__init__'),
                                 ('sensor access', C)],
     'Online monitor replays the PID law from hooked process values and compares the actuator trace.',
     'online runtime monitor: executable PID specification replayed beside the controller')

prop('C10', 'Two-point controllers switch exactly at their thresholds',
     'A bang-bang controller switches on when the process value falls below the set point minus half '
     'the hysteresis, off when it rises above the set point plus half the hysteresis, and otherwise '
     'keeps its state; a two-sensor controller switches on by its activation sensor and off by its '
     'deactivation sensor. The switched output is the configured on or off value and nothing else.',
     ['inputs', 'configurations', 'histories'],
     'all set points, hysteresis widths (including negative ones), on/off values and process histories',
     TESTS + 'controllers are never instantiated.',
     [P + 'controllers.py', C], [('bang-bang', P + 'controllers.py:run_controller'),
                                 ('two sensors', P + 'controllers.py:run_controller')],
     'Reference automaton run beside the controller on the recorded process value trace.',
     'online runtime monitor: reference automaton over the recorded sensor trace')

prop('C11', 'Actuators never leave their limits and never move faster than allowed',
     'Whatever a controller or a time series asks for, the value applied to a pump, valve or heater '
     'stays within the limits of the actuator and within the saturation of the controller, and with a '
     'slope limit its change per step never exceeds slope times step length. '
     'The mass flow or heat recorded for the actuator is this limited value.',
     ['inputs', 'configurations', 'histories'],
     'all limits, saturations, slopes, gains and process histories',
     TESTS + 'controllers are never instantiated.',
     [C, P + 'pipe_with_pump.py', P + 'pipe_with_valve.py', P + 'heated_pipe.py'],
     [('limiting', C), ('application', P + 'pipe_with_pump.py:_process_cv')],
     'Invariant monitor on hooked controller outputs and recorded actuator values under aggressive gains.',
     'invariant monitor on controller outputs and actuator traces')

prop('C12', 'Dead time and controller hierarchy shape the controller output as configured',
     'With a dead time the controller acts on the process value as it was that long ago, and a controller without '
     'dead time on the current one. A controller subordinated to another one is only active while its '
     'master is, and holds its off value otherwise.',
     ['inputs', 'configurations', 'histories'],
     'all dead times, step-size histories and master/slave controller combinations',
     TESTS + 'controllers are never instantiated.',
     [C, F], [('dead time', F + ':ctrl_deadtime'), ('hierarchy', C)],
     'Monitors: independent delay line over the recorded step history, master/slave implication.',
     'trace monitor: independent delay line and master/slave implication')

prop('C13', 'Heat exchangers transfer heat from hot to cold and lose none',
     'In every heat exchanger (steady-state or numeric, explicitly or implicitly solved, any number of plates, passes and '
     'cells) the heat given off by the hot stream equals the heat taken up by the cold stream plus the change of the heat '
     'stored in fluid and plates, the outlet of either stream of a steady-state exchanger never passes the inlet '
     'temperature of the other one, and with one stream standing still the other passes it unchanged. The outlets of a '
     'steady-state exchanger in counter flow follow the counter-flow effectiveness relation for its plates, geometry and '
     'channel flows; every cell of a numeric exchanger follows from convection, conduction and the exchange with its plates.',
     ['inputs', 'configurations'],
     'all exchanger sizes, inlet temperatures, flow rates and flow directions',
     TESTS + 'no heat exchanger is ever simulated.',
     [F, P + 'heatexchanger.py', P + 'hex_num.py'],
     [('steady-state exchanger', F + ':solve_platehex'), ('numeric exchanger', F + ':hexnum_diff,hexnum_diff_impl'),
      ('geometry', P + 'heatexchanger.py:get_plate_hex_geometry')],
     'Offline monitors on exchanger runs (balance, second law, NTU relation, monotonicity).',
     'conservation and second-law monitors on exchanger traces')

prop('C14', 'Heaters deliver exactly the heat they report',
     'A heated pipe heats its heated cells by exactly the (step mean) heat flow recorded for each step, '
     'that heat flow stays between the limits of the heater, is zero while it is switched off, and is cut '
     'to zero as soon as any of its cells reaches the emergency shut-down temperature.',
     ['inputs', 'configurations', 'histories'],
     'all heater powers, heated ranges, control histories and flows',
     TESTS + 'no heater is ever simulated.',
     [F, P + 'heated_pipe.py'], [('differential', F + ':heatedpipe1D_diff'), ('set-up', P + 'heated_pipe.py')],
     'Step replay with the reference model including the source term; shutdown monitor.',
     'step-by-step replay of heater traces against an independent reference model')

prop('C15', 'A CHP plant converts gas into heat and power as specified',
     'A combined heat and power plant never delivers more heat or power than its ratings, '
     'produces neither while it is switched off apart from its documented start-up and shut-down ramps, '
     'modulates only within its modulation range and recorded heat, power and gas use stay in the specified ratio '
     'in stationary operation. Its heat is what warms the water flowing through it.',
     ['inputs', 'configurations', 'histories'],
     'all plant ratings, modulation signals and on/off histories',
     TESTS + 'no CHP plant is ever simulated.',
     [F, P + 'chp_plant.py'], [('modulation and ramps', F + ':_process_chp_core_modulation'),
                               ('ramp polynomials', F + ':chp_startup_th,chp_shutdown_th')],
     'Trace monitors on recorded heat, power and gas with scripted and controlled on/off histories.',
     'trace monitors on recorded heat/power/gas histories')

prop('C16', 'Meters report what flowed through the metered section',
     'Temperature, mass flow and volume flow meters return the recorded values at their '
     'cell, and a heat meter’s power is mass flow times heat capacity times temperature difference while its '
     'accumulated mass, volume and energy are the time integrals of the recorded flows, each of them valid for the step which ends at its time. '
     'Every meter has one row per recorded time.',
     ['inputs', 'configurations'],
     'all simulations, metered parts, cells and flow directions',
     TESTS + 'meters are never used.',
     ['multisim/_utility/meters.py'], [('meters', 'multisim/_utility/meters.py:Meters')],
     'Independent recomputation from raw results of the same run.',
     'differential monitor: meters recomputed from the raw trace')

prop('C17', 'Saving results to disk does not change them',
     'The results returned after a run with disk saving are the results of the same run kept in '
     'memory: every part, every recorded time and every value, whatever the number of steps between two writes, '
     'the total number of steps and the compression. '
     'Runs longer than the preallocated memory neither lose nor repeat nor corrupt rows.',
     ['configurations', 'histories', 'schedules'],
     'all write intervals (including those hit exactly by the last step), run lengths, compressions and part types',
     TESTS + 'disk settings are stored but nothing is ever written.',
     [S], [('chunk writing', S + ':_free_memory'), ('final write', S + ':_finalize_sim'),
           ('compression', S + ':_compress_store'), ('reading back', S + ':return_stored_data')],
     'Differential runs over write intervals; exactly-once row monitor.',
     'differential and exactly-once monitor over write intervals')

prop('C18', 'Stored selections and resampled data are faithful',
     'If only selected cells or ports of a part are stored, the stored values are those of exactly these '
     'cells, and the remaining results of the run are unchanged. '
     'Resampled results are the means of the recorded data in each interval of the requested regular grid (interpolated where an interval '
     'holds no record), and loading '
     'stored results returns what was stored.',
     ['configurations', 'inputs'],
     'all store selections, resampling frequencies and runs',
     TESTS + 'disk settings are stored but nothing is ever written.',
     [S, 'multisim/utility_functions.py'], [('selection', S + ':add_part'), ('resampling', S + ':_finalize_sim'),
                                            ('loading', 'multisim/utility_functions.py:load_sim_results')],
     'Differential monitor against the full in-memory results.',
     'differential monitor of stored against in-memory results')

prop('C19', 'A simulation depends on its description only',
     'Running the same network twice, in the same or in another process and beside other environments, gives '
     'bit-identical results, and neither the order in which parts, boundaries, connections and '
     'controllers are declared (masters before their sub-controllers) nor their names nor the order of the two ends of a connection '
     'change the results beyond rounding, or beyond the error control of the solver where the step size is adapted. '
     'Turning a pipe round (swapping its ports and its initial profile) mirrors its temperatures, negates its flow and changes nothing else.',
     ['configurations', 'programs', 'histories'],
     'all networks and declaration orders',
     TESTS + 'each network is declared in one order.',
     [S], [('port linking', S + ':_connect_ports,_get_port_connections'), ('topology', S + ':_get_topology'),
           ('shared model state', 'multisim/simenv.py:Models')],
     'Metamorphic monitor over permuted declarations, renamed parts, concurrent environments.',
     'metamorphic monitor over permuted, renamed and repeated declarations')

prop('C20', 'Resetting an environment restores its initial state',
     'After resetting a finished environment to its initial condition a second run gives the same results as '
     'the first one, for every kind of part and controller, however long the first run was.',
     ['histories', 'configurations'],
     'all networks, controllers and lengths of the first run',
     TESTS + 'no environment is ever reset.',
     [S, C, P + 'controllers.py'], [('reset', S + ':_reset_simenv'), ('parts', P + '*:_reset_to_init_cond')],
     'Differential monitor first run vs. rerun.',
     'differential monitor of first run against rerun after reset')

prop('C21', 'Ill-formed descriptions are rejected before the simulation starts',
     'Descriptions with unknown parts or ports, duplicate names, unconnected ports, ports connected twice, '
     'unused open ports, controls with unknown parts or without an actuator, two controls for one actuator, '
     'actuators which require a control but have none, missing required arguments, arguments of a wrong type or geometry, time and solver '
     'settings outside the documented range are rejected with an error before any step is '
     'simulated, and rejecting a description leaves well-formed descriptions accepted.',
     ['programs', 'inputs', 'configurations'],
     'all single mutations of well-formed descriptions',
     TESTS + 'only valid arguments are passed.',
     [S, P + 'pipe.py', C], [('checks', S + ':_check_isadded,_check_isport,_check_unconnected_ports,_print_arg_errs')],
     'Mutation workload: every mutated description must raise; unmutated ones must run.',
     'fault-injection workload with an accept/reject oracle')

prop('C22', 'Fluid properties are physical and continuous over the whole working range',
     'Over the whole liquid range density, heat capacity, conductivity, viscosity, Prandtl number and '
     'expansion coefficient of water, and the properties of air, agree with tabulated reference values, are finite, positive '
     '(where physical) and follow the physical trend with temperature, and scalar, array and in-place variants return the same values without '
     'modifying their input.',
     ['inputs'], 'all temperatures from 0 to 100 °C (water; viscosity up to 96 °C, the range of its fit) and -20 to 100 °C (air), all array shapes',
     TESTS + 'property functions are never called directly.',
     [F, 'multisim/_precompiled/material_properties.py', 'multisim/_precompiled/dimensionless_numbers.py'],
     [('water', F + ':rho_water,cp_water,lambda_water,ny_water'), ('air', F + ':get_ny_dryair')],
     'Dense sweep against independent reference tables (IAPWS/VDI values) and consistency relations.',
     'dense-sweep monitor against independent reference tables')

prop('C23', 'Heat-transfer coefficients combine like thermal resistances',
     'The overall heat-transfer helpers for plates and cylinders equal the reciprocal of the sum of the '
     'individual layer resistances, series and parallel circuits combine resistances and '
     'conductances in any order and number, the mean temperature difference lies between two different end differences of equal sign, '
     'and the surface temperature lies between fluid and ambient; no helper changes its inputs.',
     ['inputs'], 'all positive geometries, conductivities and coefficients',
     TESTS + 'these helpers are never called directly.',
     [F], [('overall coefficients', F + ':UA_fld_wll_ins_amb_cyl ff.'), ('circuits', F + ':series_circuit_UA')],
     'Randomised calls monitored against resistance arithmetic.',
     'randomised call monitor against resistance arithmetic')

prop('C24', 'Convection correlations give physical coefficients in every regime',
     'The inner and outer convection coefficients are positive (natural convection on a horizontal plane may vanish at zero temperature difference) and finite for every flow rate including zero, '
     'both flow directions, temperature, diameter and orientation, independent of the flow sign '
     'apart from the mirrored entrance position, never '
     'below the laminar limit, non-decreasing in flow rate and in temperature difference within a flow regime, and equal to the published correlations.',
     ['inputs'], 'all flow rates, temperatures, geometries and orientations in the documented range',
     TESTS + 'correlations are never called directly.',
     [F], [('inner', F + ':pipe_alpha_i'), ('outer', F + ':cylinder_alpha_inf,plane_alpha_inf'),
           ('plates', F + ':phex_alpha_i_wll_sep')],
     'Randomised calls monitored against an independent implementation of the VDI correlations.',
     'randomised call monitor against independently implemented correlations')

prop('C25', 'Compiled simulations are memory safe and equal to interpreted ones',
     'No simulation ever reads or writes outside its arrays, and the results of the compiled code equal those '
     'of the same simulation with compilation disabled up to rounding, for every part type, solver setting and '
     'run length.',
     ['configurations', 'inputs', 'programs'],
     'all part types, solver settings, networks and run lengths',
     TESTS + 'compiled code is run without bounds checks for one pipe.',
     [F, S], [('compiled kernels', F), ('array sharing', S + ':_create_port_updater,_free_memory')],
     'Bounds-checked (numba boundscheck / interpreter) executions and compiled-vs-interpreted comparison.',
     'bounds-checking sanitizer runs plus compiled-versus-interpreted differential')

prop('C26', 'Statistical error measures follow their definitions',
     'The error measures (mean absolute, mean signed, mean squared, root mean squared, normalised errors and '
     'coefficients of determination) equal their definitions for every input length and '
     'shape, vanish for a perfect prediction, do not depend on the input container type and do not modify their inputs.',
     ['inputs'], 'all series lengths, shapes and containers',
     TESTS + 'error measures are never called.',
     ['multisim/_utility/stat_error_measures.py'], [('measures', 'multisim/_utility/stat_error_measures.py')],
     'Randomised calls monitored against direct formulas.',
     'randomised call monitor against direct formulas')

prop('C27', 'Invalid values stop the run and are never reported as success',
     'A simulation in which any temperature or mass flow becomes invalid (not a number) stops in that step with '
     'an error or with a message and its report names the failure, however long it has run and however its results are saved; a run '
     'without invalid values simulates the whole time frame and reports success.',
     ['inputs', 'histories', 'configurations'], 'all times and causes of invalid values, all saving modes',
     TESTS + 'no run ever reaches an invalid state.',
     [S], [('detection', S + ':start_sim'), ('report', S + ':_write_report,_finalize_sim')],
     'Fault workloads (boundary temperatures outside the fluid range, NaN actuator values and set points) at random times, '
     'monitored against records, console output and report.',
     'fault-injection workload with a stop-and-report monitor')

prop('C28', 'Plants built from the ready-made suppliers and consumers behave as asked for',
     'A plant assembled with the ready-made building blocks (gas boiler, space heating, drinking water station with or without '
     'storage charging, cogeneration plant with and without flue gas heat exchanger) can be built with their documented default arguments on every operating system, carries the '
     'demanded flows and return temperatures, limits every pump, valve and heat source to the powers and flows given in the arguments, '
     'switches and controls them with the given sensors and set points, and obeys the mass and heat balances of its parts in every step. '
     'Pipes which the blocks scale to the power have the wanted inner area and a consistent wall.',
     ['inputs', 'configurations', 'histories'],
     'all arguments of the building blocks, all storages and ports they are connected to, all demand histories',
     TESTS + 'the building blocks are never called.',
     [P + 'part_modules/suppliers.py', P + 'part_modules/consumers.py', 'multisim/utility_functions.py', S],
     [('suppliers', P + 'part_modules/suppliers.py:gasboiler,chp_with_fghex'),
      ('consumers', P + 'part_modules/consumers.py:space_heating,lowex_phwrc,speicherladesys'),
      ('pipe scaling', 'multisim/utility_functions.py:adjust_pipes,interp_pipe_specs')],
     'Call trace of the blocks compared with their arguments; every flow, cell balance and controller output of the running plant replayed.',
     'call-trace conformity and trace replay monitor on assembled plants')

prop('C29', 'Condensing flue gas heat exchangers reproduce their regression model',
     'In every recorded step the outlet temperatures of a condensing flue gas heat exchanger are those which the given regression pipeline '
     'predicts for the inlet temperatures and the flows of that step, scaled with the given maximum flows, for every polynomial the pipeline '
     'can hold. Flows outside the model are treated as documented: without water or gas flow the streams leave as they entered; below ten '
     'percent of the maximum water flow the outlets approach the gas inlet along a parabola which joins the model smoothly; flows below the '
     'lower limits count as the limit or as zero, whichever is closer; water above its range passes by and is mixed in by heat capacity; gas '
     'above its range stops the run. The streams carry the flows and temperatures of their neighbours, and a CHP plant which feeds the '
     'exchanger sends the flue gas of exactly the gas it burns.',
     ['inputs', 'configurations', 'histories'],
     'all regression pipelines of polynomial features, principal components and a linear model, all scalings and flow ranges, all flow and '
     'temperature histories',
     TESTS + 'flue gas heat exchangers are never run.',
     [P + 'hex_condensing_polynome.py', F, P + 'chp_plant.py'],
     [('prediction', F + ':condensing_hex_solve,condensing_hex_quad_poly'),
      ('model extraction', F + ':make_poly_transf_combs_for_nb,extract_pca_results'),
      ('flue gas of a plant', P + 'chp_plant.py:get_diff')],
     'Every recorded outlet compared with scikit-learn itself over random pipelines, scalings, flow histories and plants.',
     'differential trace monitor against the reference implementation')

NA = []
HOOKS = dict(guard='MSV_HOOKS', enable='no hooks are compiled into /repo; monitors attach from /verif',
             source_commits=[])


def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(ROOT, 'msv', 'checks'))
            if f.startswith('c') and f.endswith('.py')}
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in props:
            f.write(json.dumps(p['rec'], ensure_ascii=False) + '\n')
    checks, na = [], list(NA)
    for p in props:
        i = p['rec']['id']
        if i in have:
            checks.append(dict(
                property=i, quick_cmd='./check ' + i, thorough_cmd='./check %s --tier thorough' % i,
                technique='runtime monitoring: ' + p['tech'], level='exploration', level_note=p['note'],
                evidence_file='evidence/%s.json' % i))
        else:
            na.append(dict(property=i, reason='check not built yet'))
    m = dict(version=1, setup_cmd='./setup', hooks=HOOKS, checks=checks, not_applicable=na)
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    for p in props:
        r = p['rec']
        assert len(r['title']) <= 80, (r['id'], len(r['title']))


main()
