"""Writes properties.jsonl and MANIFEST.json (run by hand after editing; the checks never read either)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D, S, R, T, E, V, M, H, ST = ('gerabaldi/models/devices.py', 'gerabaldi/sim.py', 'gerabaldi/models/reports.py', 'gerabaldi/models/test_specs.py',
                              'gerabaldi/models/phys_envs.py', 'gerabaldi/models/random_vars.py', 'gerabaldi/math/minimize.py', 'gerabaldi/helpers.py', 'gerabaldi/models/states.py')
CB = ['gerabaldi/cookbook/test_specs.py', 'gerabaldi/cookbook/mech_mdls.py', 'gerabaldi/cookbook/test_envs.py']

P = []


def prop(id_, title, statement, over, qtext, why, mech, state, observe, technique, note, level='exploration'):
    files = []
    for _, w in mech:
        f = w.split(':')[0]
        if f not in files:
            files.append(f)
    P.append(dict(
        prop={'id': id_, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'state': [{'name': x, 'meaning': 'observed by the monitors', 'where': 'public attribute'} for x in state], 'observe_at': observe, 'hook_needed': None}},
        check={'property': id_, 'quick_cmd': f'VERIF_TIER=quick bash run.sh {id_}', 'thorough_cmd': f'VERIF_TIER=thorough bash run.sh {id_}',
               'technique': 'runtime monitoring: ' + technique, 'level': level, 'level_note': note, 'evidence_file': f'evidence/{id_}.json'}))


prop('C01', 'A simulated test executes and reports one faithful timeline',
     'Simulating a test executes exactly its stress and measurement steps, once each, in order, under the conditions of the step, also when step objects are repeated. '
     'The report has one summary row per step with its name, type, number, conditions, duration, start and end time; the intervals are contiguous, begin at the starting time of the device state, measurements take no time, and every measurement carries the number and instant of its step. '
     'Durations given as a number mean that number of the given unit (days to microseconds, hours by default), down to the microsecond.',
     ['programs', 'inputs'], 'All test specifications: any sequence and repetition of steps, any durations and units, any population and prior elapsed time.',
     'The tests run two or three fixed specifications with whole hours; sequences, repeated step objects, units and prior times are unbounded.',
     [('simulate', f'{S}:simulate'), ('stress step', f'{S}:_sim_stress_step'), ('measurement step', f'{S}:_sim_meas_step'), ('durations', f'{H}:_convert_time'), ('summary rows', f'{R}:add_summary_report')],
     ['state.elapsed', 'report.test_summary', 'report.measurements'], ['returned report', 'arguments the device equations are called with'],
     'trace checker (reference timeline) over report rows and probes in the equations', 'Random specifications under VERIF_SEED; every summary row, measurement instant and executed step compared.')
prop('C02', 'Every requested measurement is reported once under its own device label',
     'A measurement step reports, for each requested parameter and for exactly the requested number of devices on every chip of every lot, one row with lot, chip and device number, and the value in that row is the value of that very device. '
     'Environmental conditions that are measured are reported once per sensor reading; nothing else is reported. '
     'The same device keeps its label over all steps and parameters, whatever subset is measured.',
     ['inputs', 'programs'], 'All populations (lots, chips, devices), all sets and counts of measured parameters in all steps.',
     'The tests use square or single-element populations where swapped axes or shifted labels cannot show.',
     [('row labels', f'{R}:format_measurements'), ('selection of devices', f'{S}:_sim_meas_step'), ('partial counts', f'{D}:DegPrmMdl.calc_cond_shifted_vals'), ('circuits', f'{D}:CircPrmMdl.calc_circ_vals')],
     ['report.measurements'], ['returned report'], 'exactly-once / conservation checker with values that identify their device', 'Values are coded per device so each reported row identifies where its value came from.')
prop('C03', 'Degradation accumulates over changing stress via equivalent stress time',
     'After each stress phase the degradation of every device by every wear-out mechanism is that which the phase\'s conditions cause in the phase\'s duration plus the time they would have needed to cause the degradation present before, within the precision of the equivalent time search. '
     'In particular a phase split into several gives the same degradation, and each device follows its own latent values.',
     ['histories', 'inputs'], 'All mechanisms that are monotone in time, all sequences of stress phases, all latent values and populations.',
     'A handful of fixed sequences cannot cover the numerical search over many orders of magnitude of time, rates and units.',
     [('equivalent time', f'{D}:DegMechMdl.calc_equiv_strs_time'), ('search', f'{M}:minimize'), ('stress step', f'{S}:_sim_stress_step'), ('degradation', f'{D}:DegPrmMdl.calc_deg_vals')],
     ['state.curr_deg_mech_vals', 'state.curr_prm_vals'], ['measurements of the report'], 'online reference model with analytic inverse, interval oracle', 'Seven analytically invertible families of mechanisms, every device of every phase compared with an interval.')
prop('C04', 'Stress never heals, quiet phases preserve, measuring does not perturb',
     'The magnitude of the degradation of a device by a monotone mechanism never shrinks from one stress phase to the next beyond the precision of the equivalent time search, whatever the conditions. '
     'Under conditions where the mechanism does not progress the degradation is preserved and later stress continues from there. '
     'Additional measurements at any point never change what is measured elsewhere in the test.',
     ['histories', 'inputs'], 'All sequences of phases with arbitrary, also alternating and sub-threshold, conditions; all placements of measurement steps.',
     'Healing or loss needs particular orders of strong, weak and inactive stress which no test runs.',
     [('non-degrading conditions', f'{D}:MechMdl.calc_deg_vals'), ('equivalent time', f'{D}:DegMechMdl.calc_equiv_strs_time'), ('measurement step', f'{S}:_sim_meas_step')],
     ['state.curr_deg_mech_vals'], ['measurements of the report'], 'temporal monitor over degradation traces, differential runs with extra measurements', 'Monotonicity, preservation and transparency monitors on random traces.')
prop('C05', 'Hard failures are permanent and memoryless',
     'A device whose failure mechanism triggers in a stress phase takes the failed value of that phase and keeps it through all later phases. '
     'A device that has not failed is unaffected by earlier phases: whether it fails depends on the duration and conditions of the current phase and its own latent values only. '
     'Devices fail independently of each other.',
     ['histories', 'inputs'], 'All sequences of phases and populations with device-specific limits.',
     'The tests exercise one failing step; permanence and absence of memory are statements about histories.',
     [('failure', f'{D}:FailMechMdl.calc_deg_vals'), ('no equivalent time', f'{D}:FailMechMdl.calc_equiv_strs_time')],
     ['state.curr_deg_mech_vals'], ['measurements of the report'], 'per-device state machine compared after every phase', 'An exact automaton per device is run in step with the simulation.')
prop('C06', 'Time units never change the physics and are inherited',
     'A mechanism receives stress times in its own time unit, else in that of its parameter, else in that of the device, else in hours, for every unit from days to microseconds. '
     'Expressing the same mechanism in another unit gives the same degradation after every history.',
     ['configurations', 'histories'], 'All combinations of units on the three levels, all durations and sequences of phases.',
     'The tests use hours and seconds on one level.',
     [('inheritance', f'{D}:DeviceMdl.propagate_time_unit'), ('inheritance', f'{D}:DegPrmMdl.propagate_time_unit'), ('inheritance', f'{D}:MechMdl.set_time_unit'), ('conversion', f'{H}:_convert_time'), ('stress step', f'{S}:_sim_stress_step')],
     ['mechanism time units'], ['time arguments of mechanism equations', 'measurements'], 'probes on equation arguments, metamorphic comparison over units', 'All combinations of units per level plus rescaled devices through the same histories.')
prop('C07', 'Latent variation is hierarchical and stays with its device',
     'Each value of a latent variable combines, by its declared operation, its deterministic base if given with one draw for its device, one draw shared by exactly the devices of its chip, and one draw shared by exactly the devices of its lot; layers left undefined have no effect. '
     'Draws of different devices, chips, lots and variables are separate draws. '
     'A device keeps its latent values throughout a test.',
     ['inputs', 'configurations'], 'All subsets of layers, both operations, any base value, any population, reconfiguration after construction.',
     'Which draw went where cannot be seen from a few ordinary random numbers.',
     [('sampling', f'{D}:LatentVar.gen_latent_vals'), ('layers', f'{D}:LatentVar.__setattr__'), ('models', f'{D}:LatentMdl.gen_latent_vals'), ('parameters', f'{D}:DegPrmMdl.gen_latent_vals')],
     ['state.latent_var_vals'], ['sampled arrays', 'latent arguments of equations'], 'provenance decoding of uniquely coded draws', 'Distributions hand out unique codes, each value is decoded into the draws it is composed of.')
prop('C08', 'Environmental variation is hierarchical and drawn anew each step',
     'In every step the actual value of each condition combines, by its declared operation, the specified value with one draw for the whole test batch, one draw per chip and one draw per device; undefined layers and conditions without variation model are exact. '
     'Each step draws anew; conditions with separate models vary separately, and every parameter is given exactly the conditions it depends on. '
     'Sensor readings of a condition follow the same variation.',
     ['inputs', 'configurations', 'histories'], 'All subsets of layers, operations, sets of conditions, parameters and populations, stress and measurement steps.',
     'The tests check shapes and single values of one environment.',
     [('conditions', f'{E}:PhysTestEnv.gen_env_cond_vals'), ('layers', f'{E}:EnvVrtnMdl.gen_env_vrtns'), ('batch', f'{E}:EnvVrtnMdl.gen_batch_vrtn'), ('chips', f'{E}:EnvVrtnMdl.gen_chp_vrtns'), ('devices', f'{E}:EnvVrtnMdl.gen_dev_vrtns'), ('dependencies', f'{D}:DegPrmMdl.get_dependencies')],
     [], ['condition arguments of equations', 'measured conditions'], 'provenance decoding of uniquely coded draws at equation probes', 'As C07, on the conditions each device equation is called with.')
prop('C09', 'Instruments add error, round to significant figures, then saturate',
     'A reading is the true value plus one error draw of its own, rounded to the instrument\'s number of significant figures if given, then limited to its range if given, in this order. '
     'This holds for every magnitude and sign including zero, infinities and missing values, for single numbers, lists, arrays and tables; the input is not modified. '
     'In a test each parameter is read by its own instrument and parameters without one are read exactly.',
     ['inputs', 'configurations'], 'All numbers, containers, precisions, ranges and error distributions.',
     'A few sample numbers do not meet the ties, powers of ten and non-finite values where rounding goes wrong.',
     [('measure', f'{E}:MeasInstrument.measure'), ('choice of instrument', f'{E}:PhysTestEnv.meas_instm'), ('use', f'{S}:_sim_meas_step')],
     [], ['readings'], 'decimal-arithmetic oracle per reading', 'Exact decimal oracle over hostile values.')
prop('C10', 'Measurement conditions shift a reading for that instant only',
     'A measured parameter is the device\'s true value changed by its conditional shift, evaluated on the actual conditions of that measurement and the device\'s own latent values; at neutral conditions it is the true value. '
     'Measurement conditions have no effect on any other measurement or on the degradation.',
     ['inputs', 'histories'], 'All shift models, neutral values, conditions, environments and sequences of measurements.',
     'The tests measure once under one condition.',
     [('shift', f'{D}:CondShiftMdl.calc_cond_vals'), ('composition', f'{D}:DegPrmMdl.calc_cond_shifted_vals')],
     ['state.curr_prm_vals'], ['measurements of the report'], 'reference evaluation of the shift per reading', 'Each reading recomputed from the device\'s latents and actual conditions.')
prop('C11', 'Circuit parameters follow their own device\'s degraded parameters',
     'A measured circuit parameter of a device is its equation applied to the current degraded values of the same device (same lot, chip and number), its own latent values and the actual conditions. '
     'It is available whether or not the parameters it depends on are measured themselves, in any number and order.',
     ['configurations', 'histories'], 'All dependency structures, measured counts and populations, before and after any stress.',
     'Tests measure one circuit together with its parameter in equal counts.',
     [('circuits', f'{D}:CircPrmMdl.calc_circ_vals'), ('requirements', f'{D}:CircPrmMdl.get_required_prms'), ('counts', f'{S}:gen_init_state')],
     ['state.curr_prm_vals'], ['measurements of the report'], 'per-device re-evaluation of the circuit equation', 'Equation evaluated on the degraded values read back in the same step.')
prop('C12', 'Simulating has no side effects and is repeatable, also after an abort',
     'A simulation changes none of the objects it is given: test, device, environment and device state. '
     'Simulating the same state again, or equally seeded copies of everything, gives the identical report, whatever other simulations ran in between or was done to earlier reports. '
     'If a user-provided equation or distribution raises an exception at any point, it reaches the caller unchanged and all objects remain as usable as before.',
     ['histories', 'fault_sequences', 'crash_points'], 'All configurations; for aborts every single call of a user-provided function during a simulation.',
     'Tests run once and look at the result; no test aborts a simulation.',
     [('state copy', f'{S}:simulate'), ('initial state', f'{S}:gen_init_state'), ('report', f'{R}:SimReport.__init__'), ('state', f'{ST}:SimState.__init__')],
     ['state', 'test', 'device', 'environment'], ['inputs after the simulation', 'reports'], 'fingerprint monitor, replay comparison, exception injected at every callback', 'Every callback invocation of the generated simulations is used as abort point.', 'fault_enumeration')
prop('C13', 'Reports survive export and reload; time conversion keeps instants',
     'A report exported to a file and loaded again has the same name, description, measurements and summary, value by value at full precision, whatever the names, numbers, conditions and time unit of the export. '
     'Converting the times of a report expresses the same instants in the requested unit; conversions can be repeated in any order, and exporting with a unit does not alter the report itself.',
     ['inputs', 'histories'], 'All reports, units, paths and sequences of exports, loads and conversions.',
     'One fixed report is written by the tests; none reads hostile names, non-finite values or repeated conversions.',
     [('export', f'{R}:SimReport.export_to_json'), ('load', f'{R}:SimReport.__init__'), ('conversion', f'{R}:SimReport.convert_report_time'), ('units', f'{R}:SimReport._to_raw_time')],
     ['report.measurements', 'report.test_summary'], ['files', 'loaded reports'], 'round-trip comparison of all tables over histories', 'Random histories of export, load and conversion in a scratch directory.')
prop('C14', 'Test specifications hold exactly the steps composed',
     'A test specification consists of exactly the steps given at construction and appended since, in order, and is not affected by later changes of the lists they came in. '
     'Appending in a loop adds whole repetitions of the block, as few as reach the requested stress time, and warns if and only if they exceed it. '
     'The number of devices a test needs of each parameter is the largest number any of its measurements requests, and iterating a test yields its steps in order every time.',
     ['histories'], 'All histories of construction and appending, all durations and units.',
     'Tests append two blocks with whole multiples.',
     [('append', f'{T}:TestSpec.append_steps'), ('construction', f'{T}:TestSpec.__init__'), ('needs', f'{T}:TestSpec.calc_samples_needed'), ('iteration', f'{T}:TestSpec.__iter__')],
     ['steps'], ['steps', 'iteration', 'summary of executed tests'], 'reference list automaton over histories', 'Random composition histories compared with a list model.')
prop('C15', 'Single-value equations give the same results as array equations',
     'Every model equation may be written for single values or for arrays: results are the same for every device of every population, also for mixtures and partial measurements. '
     'Equations that return a constant apply it to all devices, and parameters declared as not computable on arrays only ever have their equation called with single values.',
     ['programs', 'configurations'], 'All mixtures of single-value and array equations over initial values, mechanisms, failures, shifts, parameters and circuits, and all populations.',
     'The fallback is tested for one model kind and population.',
     [('loop', f'{H}:_loop_compute'), ('indexing', f'{H}:_get_single_index'), ('mechanisms', f'{D}:MechMdl.calc_deg_vals'), ('parameters', f'{D}:DegPrmMdl._compute_prm_vals'), ('initial values', f'{D}:InitValMdl.gen_init_vals'), ('circuits', f'{D}:CircPrmMdl.calc_circ_vals')],
     [], ['measurements of both renditions', 'arguments of equations'], 'differential execution of two renditions, argument monitor', 'Two renditions with equal seeds compared value by value.')
prop('C16', 'The vectorised minimum search finds each element\'s own minimum',
     'For functions that are unimodal in every element the search returns for each element, independently of all others, a point within its bounds that is within the requested precision of the minimum. '
     'The function is only evaluated within the bounds, with the additional arguments given by name, and the returned point is the best one evaluated. '
     'If the iteration limit ends the search early a warning is logged and the best point so far is returned. The search takes about as many evaluations as the method of Brent.',
     ['inputs'], 'All unimodal functions, array shapes, bounds, precisions, linear and logarithmic search, iteration limits.',
     'Two parabolas are tested.',
     [('search', f'{M}:minimize')], [], ['evaluations of the function', 'result'], 'monitor on every evaluation, analytic minimum oracle', 'Every function evaluation recorded and checked.')
prop('C17', 'Exported inference models are the random variables that are simulated',
     'The PyMC or Pyro form of a random variable, latent variable or model has the same distribution as the simulator samples from: one site per defined variation layer, named after the variable, combined by the declared operation, models centred on their equation of the latents and observed conditions, observed values passed on. '
     'Exporting does not change the variable, and what has no equivalent is refused.',
     ['inputs', 'configurations'], 'All distributions, parameters, subsets of layers, operations and deterministic values, both frameworks.',
     'Tests compare types of exported objects.',
     [('latent variables', f'{D}:LatentVar.cbi_export'), ('models', f'{D}:LatentMdl.export_to_cbi'), ('random variables', f'{V}:RandomVar.get_cbi_form')],
     [], ['recorded probabilistic program'], 'log densities of recorded program sites against SciPy', 'Execution traces (Pyro) and model graphs (PyMC) evaluated at test points. One known finding is listed.')
prop('C18', 'Random variables follow their declared distribution',
     'Samples follow the declared distribution with the current parameters (normal by mean and deviation, gamma by shape and rate, uniform by its limits, deterministic exactly), in the number or shape requested, independent within and between variables. '
     'Variables with the same seed, any integer including 0, give the same stream, unaffected by other variables and global generators; without a seed they differ.',
     ['inputs', 'histories'], 'All parameters, sample sizes and interleavings of variables.',
     'Tests compare a few fixed draws.',
     [('sampling', f'{V}:RandomVar.sample'), ('seeding', f'{V}:RandomVar.__init__'), ('parameters', f'{V}:Gamma._params_for_numpy')],
     [], ['samples'], 'statistical monitors (Kolmogorov-Smirnov, correlation) on seeded streams, stream replay', 'Fixed seeds make the statistical verdicts repeatable; thresholds at p = 1e-9.')
prop('C19', 'Log messages reach exactly the configured outputs, once',
     'After any sequence of logger configurations each message at or above the configured level is delivered exactly once to the stream output and, if configured, the file output configured last, and to no output that was replaced. '
     'Simulations log their progress through the same outputs.',
     ['histories'], 'All sequences of configurations and messages.',
     'Tests configure once.',
     [('configuration', f'{H}:configure_logger'), ('progress', f'{S}:simulate')], ['handlers of the logger'], ['recorded messages per output'], 'reference automaton over recorded deliveries', 'Random configuration histories, each handler records what it receives.')
prop('C20', 'Cookbook recipes build what they document',
     'The high temperature operating life recipe yields an initial measurement, then repeated stress at the given temperature and voltage for the given interval, each followed by the same measurement, for the given length in total and the given sample sizes; the NBTI recipe follows its documented equation and latent distributions; the ideal environment is exact; the voltage and temperature environment varies and measures as it documents. '
     'Every call builds new, independent objects. The documented classes and recipes can be imported from their module and from the package, by name or by star import.',
     ['configurations', 'inputs'], 'All options of the recipes.',
     'Tests use the default options.',
     [('HTOL', f'{CB[0]}:htol'), ('NBTI', f'{CB[1]}:jedec_nbti_mdl'), ('ideal', f'{CB[2]}:ideal_env'), ('volt and temp', f'{CB[2]}:volt_and_temp_env')],
     [], ['returned objects', 'simulated results'], 'structural and statistical monitors on returned objects', 'Options are randomised; statistical parts on seeded streams.')
prop('C21', 'Invalid configurations are rejected cleanly',
     'Invalid use for which the library defines an error is always rejected with that error rather than simulated: non-positive durations, unknown units, unnamed mechanisms, undefined measured parameters, unknown variation types, latent variables without value, missing quantities, unsupported distributions and the like. '
     'After a rejected call the objects involved work as if it had not been made.',
     ['inputs', 'histories'], 'All invalid arguments of the listed kinds in any surroundings.',
     'A few rejections are tested, none for its after-effects.',
     [('specifications', f'{T}:StrsSpec.__init__'), ('loops', f'{T}:TestSpec.append_steps'), ('latents', f'{D}:LatentVar.__setattr__'), ('parameters', f'{D}:DegPrmMdl.__init__'), ('environment', f'{E}:EnvVrtnMdl.__setattr__'), ('simulation', f'{S}:_sim_meas_step'), ('units', f'{H}:_convert_time')],
     [], ['raised errors', 'objects afterwards'], 'error monitor with before/after comparison', 'Every rejection provoked repeatedly in random surroundings.')
prop('C22', 'Interleaved simulations on shared objects do not interfere',
     'Simulations that share their test, device, environment and starting state objects, running in several threads or one inside an equation of another, each give the report they would give alone, whatever the interleaving.',
     ['schedules'], 'All interleavings of two or more simulations (that do not draw from the same random generators).',
     'No test runs two simulations at a time.',
     [('simulate', f'{S}:simulate'), ('iteration', f'{T}:TestSpec.__iter__'), ('state copy', f'{S}:simulate'), ('conditions', f'{E}:PhysTestEnv.gen_env_cond_vals')],
     ['test iteration state', 'shared state'], ['reports'], 'seeded cooperative scheduler switching at every line or callback, comparison with sequential runs', 'Controlled interleavings at line and callback granularity, nested runs, free-running threads.')
prop('C23', 'The initial state is a complete, unaged population of its own',
     'The generated state of a device holds for every degrading parameter the requested number of instances per chip and lot, raised where a requested circuit parameter needs more, at the requested elapsed time; parameters not listed have at least as many as a listed circuit parameter needs or, if none needs them, as the largest number requested. '
     'Initial values are the initial value equation of draws made per device, all mechanisms are at their neutral value, and current values equal initial ones. '
     'No two parts of a state, nor two states, share data, and the requested quantities are not changed.',
     ['configurations', 'inputs'], 'All device models and requested quantities, given directly or by a report.',
     'Tests generate states of one small device.',
     [('initial state', f'{S}:gen_init_state'), ('device', f'{D}:DeviceMdl.gen_init_state'), ('state', f'{ST}:SimState.__init__'), ('mechanisms', f'{D}:MechMdl.gen_init_vals'), ('initial values', f'{D}:InitValMdl.gen_init_vals')],
     ['state'], ['all arrays of the state'], 'provenance decoding, shape and aliasing monitors', 'All arrays of each generated state are checked, coded draws identify their device.')

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['prop']['title']) <= 80, p['prop']['title']
        f.write(json.dumps(p['prop']) + '\n')
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [p['check'] for p in P], 'not_applicable': []}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
