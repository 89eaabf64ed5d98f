#!/usr/bin/env python3
"""writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)"""
import json, os
P = []


def p(id, title, st, over, text, why, files, mech, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    P.append({'id': id, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


p('C01', 'Static circuit equations are the exact superposition of the element laws',
  'For every circuit, the static linear system assembled for it has one row per node (Kirchhoff current law) and, after '
  'those, one row and one column per voltage-defined element in netlist order (its branch equation and branch current), '
  'and every entry outside the ground row and column, of the matrix and of the constant vector, is the sum of what each '
  'element contributes by its own law (R, V, I, E, F, G, H, and L as a short at DC). This holds for any number and order '
  'of elements and however their terminals and sensing terminals coincide; dynamic, nonlinear and time-dependent parts '
  'contribute nothing there.',
  ['inputs', 'programs'], 'every circuit: any number, kind, order and connection of elements',
  'the tests solve a few dozen fixed circuits; an entry that is wrong only when terminals coincide, or for one element '
  'order, is never assembled by them',
  ['ahkab/dc_analysis.py', 'ahkab/circuit.py', 'ahkab/components', 'ahkab/utilities.py'],
  [('static matrix assembly', 'ahkab/dc_analysis.py:generate_mna_and_N'),
   ('branch equation lookup', 'ahkab/circuit.py:Circuit.find_vde_index'),
   ('voltage-defined predicate', 'ahkab/circuit.py:is_elem_voltage_defined'),
   ('matrix growth', 'ahkab/utilities.py:expand_matrix')])

p('C02', 'The dynamic matrix holds exactly the capacitive and inductive element laws',
  'For every circuit, the matrix multiplying the time derivative of the unknowns has, outside the ground row and column, exactly the sum of the stamps of its capacitors (between their nodes), its inductors (minus the inductance on the diagonal of their branch row) and its mutual couplings (minus the mutual inductance in both cross positions of the two coupled branch rows), and zero elsewhere, apart from the configured minimum capacitance to ground. It has the same unknown ordering and size as the static system.',
  ['inputs', 'programs'], 'every circuit: any number, kind, order and connection of elements, any couplings',
  'the tests run a handful of transient and AC circuits, none with general coupling and ordering',
  ['ahkab/transient.py', 'ahkab/components/Inductor.py', 'ahkab/components/Capacitor.py', 'ahkab/circuit.py'],
  [('dynamic matrix assembly', 'ahkab/transient.py:generate_D'),
   ('coupled inductors', 'ahkab/components/Inductor.py:InductorCoupling'),
   ('mutual inductance from coefficient', 'ahkab/circuit.py:Circuit.add_inductor_coupling')])

p('C03', 'AC analysis solves the linearised complex system at every requested frequency',
  'For every circuit and frequency sweep, each reported AC result is the solution of the complex linear system formed by the static matrix, the device conductances at the operating point, the configured minimum conductance, j times the angular frequency times the dynamic matrix, and the AC magnitude and phase of the independent sources. The frequencies reported are exactly the requested linear or logarithmic grid, and sources without AC value contribute nothing.',
  ['inputs', 'programs', 'configurations'], 'every circuit, AC source setting and frequency grid',
  'the tests compare a few AC sweeps with stored files to a tolerance',
  ['ahkab/ac.py'],
  [('AC matrix', 'ahkab/ac.py:_generate_AC'), ('AC source vector', 'ahkab/ac.py:_generate_Nac'),
   ('device linearisation', 'ahkab/ac.py:_generate_J'), ('frequency sweep', 'ahkab/ac.py:ac_analysis')])

p('C04', 'Nonlinear devices are stamped consistently into residual and Jacobian',
  'For every set of nonlinear devices and every candidate solution, the nonlinear residual is the sum over devices and '
  'output ports of the device current, entering the positive and leaving the negative terminal, evaluated at the voltages '
  'across that device\'s driving ports; the Jacobian is the sum of the matching port transconductances at the crossing of '
  'output and driving terminals. Grounded terminals contribute no row or column, and each device sees only its own port '
  'voltages; every analysis that linearises devices does it the same way.',
  ['inputs', 'programs'], 'every circuit with nonlinear devices and every vector of unknowns',
  'the tests only see converged solutions of a few circuits; an error in the Jacobian or at coincident or grounded '
  'terminals still converges there',
  ['ahkab/dc_analysis.py', 'ahkab/ac.py', 'ahkab/diode.py', 'ahkab/mosq.py', 'ahkab/ekv.py', 'ahkab/switch.py',
   'ahkab/components/TunnelJunction.py', 'ahkab/shooting.py', 'ahkab/bfpss.py'],
  [('residual and Jacobian accumulation', 'ahkab/dc_analysis.py:_update_J_and_Tx'),
   ('AC Jacobian', 'ahkab/ac.py:_generate_J'), ('device stamps', 'ahkab/diode.py:diode.istamp'),
   ('device stamps (MOS)', 'ahkab/mosq.py:mosq_device.gstamp')])

p('C05', 'Device conductances are the derivatives of the device currents',
  'For every nonlinear device model and every bias, each conductance the device reports with respect to a port voltage equals the partial derivative of the current it reports with respect to that voltage, within rounding, the documented minimum conductances and, for the long-channel EKV model, its documented approximations; junction exponents beyond the clamping limit are excluded. Currents are finite at finite bias, and zero bias gives zero junction or channel current.',
  ['inputs', 'configurations'], 'every device model, parameter set and vector of port voltages',
  'convergence of a few test circuits does not depend on an exact derivative',
  ['ahkab/diode.py', 'ahkab/switch.py', 'ahkab/mosq.py', 'ahkab/ekv.py', 'ahkab/components/TunnelJunction.py'],
  [('junction diode model', 'ahkab/diode.py:diode_model'), ('voltage controlled switch', 'ahkab/switch.py:vswitch_model'),
   ('square law MOS', 'ahkab/mosq.py:mosq_mos_model'), ('EKV MOS', 'ahkab/ekv.py:ekv_mos_model'),
   ('tunnel junction', 'ahkab/components/TunnelJunction.py:TunnelJunctionModel')])

p('C06', 'A solution reported as converged satisfies the circuit equations',
  'For every system, when the iterative equation solver reports convergence the returned vector solves the given linear part plus sources plus device currents to the configured tolerances, the returned error is the residual at the last point where the devices were linearised, and the reported number of iterations is the number of steps taken and never exceeds the limit. When the limit is reached or the system is singular it reports failure and never a solution.',
  ['inputs', 'programs', 'configurations'], 'every circuit, initial guess, damping setting and iteration limit',
  'tests only sample a few systems that converge quickly',
  ['ahkab/dc_analysis.py', 'ahkab/utilities.py'],
  [('damped Newton iteration', 'ahkab/dc_analysis.py:mdn_solver'), ('damping', 'ahkab/dc_analysis.py:get_td'),
   ('stopping test', 'ahkab/utilities.py:convergence_check')])

p('C07', 'The convergence test accepts exactly the vectors within tolerance',
  'For every vector of unknowns, last step and residual, the convergence test succeeds exactly when each node voltage and each branch current passes: the step is below relative tolerance times the magnitude of that unknown plus the absolute tolerance of its kind, and the residual is below the tolerance of the complementary kind. Every unknown is examined with the tolerances of its own kind, nonlinear or not.',
  ['inputs', 'configurations'], 'every vector of voltages and currents, step, residual and tolerance setting',
  'a test that is too lax on one unknown is invisible on circuits that converge cleanly',
  ['ahkab/utilities.py', 'ahkab/options.py'],
  [('split voltages/currents', 'ahkab/utilities.py:convergence_check'),
   ('voltage test', 'ahkab/utilities.py:voltage_convergence_check'),
   ('current test', 'ahkab/utilities.py:current_convergence_check'),
   ('elementwise test', 'ahkab/utilities.py:custom_convergence_check')])

p('C08', 'An operating point is only ever reported for the unmodified circuit',
  'For every circuit, if the operating point search succeeds, the reported solution satisfies the original equations with sources at full value and no artificial conductance beyond the documented minimum conductance, whichever of the standard, conductance-stepping and source-stepping methods led to it. If no enabled method reaches the full problem the search reports failure, and it always terminates.',
  ['programs', 'configurations', 'histories'], 'every circuit, set of enabled methods and sequence of solver successes and failures',
  'the tests never make the first method fail, so the homotopies are never exercised',
  ['ahkab/dc_analysis.py'],
  [('method sequencing', 'ahkab/dc_analysis.py:dc_solve'), ('next method', 'ahkab/dc_analysis.py:set_next_solve_method'),
   ('artificial conductances', 'ahkab/dc_analysis.py:build_gmin_matrix'),
   ('operating point', 'ahkab/dc_analysis.py:op_analysis')])

p('C09', 'A DC sweep reports the operating point at each requested source value',
  'For every DC sweep of an independent source, the reported sweep axis is exactly the requested grid and each reported point '
  'is the operating point of the circuit with that source set to that value. When the sweep ends, in success or failure, the source '
  'has its original value again, so later analyses are unaffected.',
  ['inputs', 'programs', 'histories'], 'every circuit, source, grid and later analysis',
  'the tests sweep once and never reuse the circuit after a failing sweep',
  ['ahkab/dc_analysis.py', 'ahkab/utilities.py', 'ahkab/results.py'],
  [('sweep', 'ahkab/dc_analysis.py:dc_analysis'), ('grid', 'ahkab/utilities.py:lin_axis_iterator'),
   ('results', 'ahkab/results.py:dc_solution.add_op')])

p('C10', 'Sweep grids have exactly the requested points, in order, with exact end points',
  'For every start, stop and number of points, a linear grid has exactly that many equally spaced values and a logarithmic grid exactly that many values in constant ratio, starting at start and ending at stop, the same by iteration and by index. Deriving a step from a number of points and the reverse gives consistent values, and impossible combinations are rejected.',
  ['inputs'], 'every start, stop, number of points and step',
  'tests use a few grids; off-by-one errors appear only for particular counts and ratios',
  ['ahkab/utilities.py'],
  [('logarithmic grid', 'ahkab/utilities.py:log_axis_iterator'), ('linear grid', 'ahkab/utilities.py:lin_axis_iterator'),
   ('step and points', 'ahkab/utilities.py:check_step_and_points')])

p('C11', 'Transient steps advance and every accepted point solves its step',
  'For every transient run that succeeds, the stored initial condition belongs to the requested start, the reported times begin one step after it, strictly increase by steps within the configured limits and cover the interval up to the requested end. Every reported point is the converged solution of the circuit equations with the time derivative replaced by the chosen integration formula over the previously accepted points and sources evaluated at that time. Rejected steps leave no trace in the results or in the history the formula uses.',
  ['inputs', 'programs', 'configurations', 'histories'], 'every circuit, interval, step, method and sequence of accepted and rejected steps',
  'tests compare a few waveforms loosely; step control interleavings are not enumerated',
  ['ahkab/transient.py', 'ahkab/implicit_euler.py', 'ahkab/trap.py'],
  [('time stepping', 'ahkab/transient.py:transient_analysis'), ('step limits', 'ahkab/transient.py:check_step'),
   ('history buffer', 'ahkab/transient.py:dfbuffer')])

p('C12', 'Integration and prediction formulas are exact to their order',
  'For every step history, each integration formula returns coefficients for which the discretised derivative is exact on all '
  'polynomials up to the order of the method, with the documented local error constant, and the companion predictor extrapolates those polynomials exactly. '
  'The formulas use only the number of past points they announce.',
  ['inputs'], 'every step size, past times, values and derivatives',
  'tests integrate a few waveforms with loose tolerance; a wrong coefficient for unequal steps is not seen',
  ['ahkab/implicit_euler.py', 'ahkab/trap.py', 'ahkab/transient.py'],
  [('backward Euler', 'ahkab/implicit_euler.py:get_df'), ('trapezoidal', 'ahkab/trap.py:get_df'),
   ('required history', 'ahkab/trap.py:get_required_values')])

p('C13', 'Time-dependent sources follow their documented waveforms at every time',
  'For every parameter set and every time, pulse, sinusoidal, exponential, piecewise-linear, frequency-modulated and amplitude-modulated '
  'sources return the value of their documented piecewise formula, including before the delay, on the edges and on every '
  'repetition of a periodic waveform. The value depends only on the time asked for and not on previous calls.',
  ['inputs', 'histories'], 'every parameter set, time and sequence of evaluations',
  'the tests sample a few waveforms on a fixed grid',
  ['ahkab/time_functions.py', 'ahkab/components/sources'],
  [('pulse', 'ahkab/time_functions.py:pulse'), ('sin', 'ahkab/time_functions.py:sin'), ('exp', 'ahkab/time_functions.py:exp'),
   ('sffm', 'ahkab/time_functions.py:sffm'), ('am', 'ahkab/time_functions.py:am'), ('pwl', 'ahkab/time_functions.py:pwl')])

p('C14', 'Node names and internal node numbers correspond one to one, with ground at zero',
  'For every sequence of node additions, each distinct external name gets one internal number, numbers are consecutive (unless removals of elements purge nodes), translation in both directions is mutually inverse, and the reference node 0 always has number zero. Adding a known name again changes nothing, creating an existing one is rejected, and unknown names or numbers are reported as errors.',
  ['histories', 'inputs'], 'every sequence of node additions and lookups',
  'the tests build small circuits with a few names',
  ['ahkab/circuit.py'],
  [('add', 'ahkab/circuit.py:Circuit.add_node'), ('create', 'ahkab/circuit.py:Circuit.create_node'),
   ('translate', 'ahkab/circuit.py:Circuit.ext_node_to_int')])

p('C15', 'Results are labelled with the unknowns they belong to',
  'For every circuit, in every analysis result the value under a node voltage name is the solution entry of that node and the value '
  'under a branch current name is the entry of that voltage-defined element, in the order used when the equations were assembled. '
  'Looking up the branch of an element by name gives that same position, whatever the case of the name and the number and order of elements.',
  ['inputs', 'programs'], 'every circuit and element order, every analysis',
  'tests use a few circuits with one or two voltage-defined elements',
  ['ahkab/circuit.py', 'ahkab/results.py'],
  [('branch position', 'ahkab/circuit.py:Circuit.find_vde_index'), ('branch by position', 'ahkab/circuit.py:Circuit.find_vde'),
   ('operating point labels', 'ahkab/results.py:op_solution'), ('sweep labels', 'ahkab/results.py:ac_solution')])

p('C16', 'Numbers with engineering suffixes are read as the value they denote',
  'For every decimal number, in plain or exponent form and with any sign, followed by any supported scale suffix in any case, the parser '
  'returns the number times that scale. Text that is not such a number is rejected with an error and never silently read as another value.',
  ['inputs'], 'every numeric string',
  'tests list a few numbers',
  ['ahkab/netlist_parser.py'],
  [('suffix conversion', 'ahkab/netlist_parser.py:convert_units'), ('boolean conversion', 'ahkab/netlist_parser.py:convert_boolean')])

p('C17', 'Each netlist element line produces exactly the element it describes',
  'For every well-formed element line the parser adds one element of the type named by the first letter, with the given '
  'identifier, connected to the given nodes in the given order, with the given values, initial conditions and control terminals or '
  'controlling source; case, extra blanks and continuation lines do not matter. Malformed lines are rejected with a parse '
  'error and never half-applied or ignored.',
  ['inputs'], 'every element line, in any letter case and spacing',
  'tests parse a few netlists',
  ['ahkab/netlist_parser.py', 'ahkab/circuit.py'],
  [('element lines', 'ahkab/netlist_parser.py:main_netlist_parser'), ('line joining', 'ahkab/netlist_parser.py:join_lines'),
   ('parameters', 'ahkab/netlist_parser.py:parse_param_value_from_string')])

p('C18', 'Subcircuit instances are isolated copies connected only through their ports',
  'For every subcircuit and every set of instances, nodes inside an instance are distinct from all outside nodes and from those of other instances except for ground and the declared ports, each of which is connected to the node given for it by name (node names that spell out an instance prefix themselves are excluded). Element identifiers and references to other elements stay inside the instance, so the flattened circuit is the same as one written by hand.',
  ['programs', 'inputs'], 'every subcircuit body, port list and number of instances',
  'the tests have a single subcircuit example',
  ['ahkab/circuit.py', 'ahkab/netlist_parser.py'],
  [('node translation', 'ahkab/circuit.py:_circuit_wrapper'), ('instantiation', 'ahkab/netlist_parser.py:parse_sub_instance'),
   ('declaration', 'ahkab/netlist_parser.py:parse_sub_declaration')])

p('C19', 'Results return every sample under its name and survive saving and loading',
  'For every analysis, a result object contains each reported variable once, finds it by name in any letter case (names are distinct ignoring case), and returns for it the samples in the order they were produced; its length, keys, values, items, iteration and array form agree with each other. Reading the file the result was saved to returns the same names and the same numbers to the printed precision.',
  ['inputs', 'histories'], 'every set of variables and samples, every access and file',
  'tests use a few variable names and check few access paths',
  ['ahkab/results.py', 'ahkab/csvlib.py'],
  [('lookup', 'ahkab/results.py:solution'), ('case-insensitive dictionary', 'ahkab/results.py:case_insensitive_dict'),
   ('write', 'ahkab/csvlib.py:write_csv'), ('read', 'ahkab/csvlib.py:load_csv')])

p('C20', 'Initial conditions and starting guesses set the unknowns they name',
  'For every circuit, a user supplied set of initial conditions produces a starting vector holding the given values at the named node voltages and branch currents and zero elsewhere; element initial conditions are imposed on the inductor currents, and on the capacitor voltages where the capacitors that declare them form no loop, and leave other values alone. Unknown names are rejected, and a guess derived from the devices satisfies the voltages the devices asked for wherever these are compatible.',
  ['inputs', 'programs'], 'every circuit and set of initial conditions',
  'tests use a couple of initial conditions on simple circuits',
  ['ahkab/dc_analysis.py', 'ahkab/dc_guess.py', 'ahkab/netlist_parser.py', 'ahkab/ahkab.py'],
  [('user vector', 'ahkab/dc_analysis.py:build_x0_from_user_supplied_ic'),
   ('element values', 'ahkab/dc_analysis.py:modify_x0_for_ic'), ('guess', 'ahkab/dc_guess.py:get_dc_guess')])

p('C21', 'Caching never changes a computed value',
  'For every sequence of evaluations, a cached function returns what the function itself returns for the same arguments, also after '
  'the cache has been filled, flushed or disabled, and with the same arguments given to different devices or models. '
  'Changing the temperature or parameters of a device model takes effect on the next evaluation.',
  ['histories', 'inputs'], 'every sequence of calls, arguments, parameter and temperature changes',
  'tests never reach the cache size nor change a model after use',
  ['ahkab/utilities.py', 'ahkab/diode.py', 'ahkab/switch.py', 'ahkab/ekv.py', 'ahkab/mosq.py'],
  [('cache', 'ahkab/utilities.py:memoize'), ('diode temperature', 'ahkab/diode.py:diode_model.set_temperature')])

p('C22', 'Matrix reshaping helpers and block assembly move every entry to its place',
  'For every matrix, removing or adding rows and columns, copying a block into a matrix and assembling the block systems of the periodic '
  'analyses leave each entry exactly at its specified position, zero the new ones and lose nothing. '
  'Inputs are never modified unless that is the documented effect.',
  ['inputs'], 'every matrix shape and content, position and block count',
  'tests use one or two small matrices',
  ['ahkab/utilities.py', 'ahkab/bfpss.py', 'ahkab/shooting.py', 'ahkab/pz.py'],
  [('grow', 'ahkab/utilities.py:expand_matrix'), ('shrink', 'ahkab/utilities.py:remove_row_and_col'),
   ('block copy', 'ahkab/utilities.py:set_submatrix'), ('periodic block matrix', 'ahkab/bfpss.py:_build_CMAT')])

p('C23', 'Symbolic analysis assembles the same equations as numeric analysis',
  'For every circuit of supported elements, with names distinct ignoring case, substituting the element values and s into the symbolic system gives the numeric static system plus s times the dynamic matrix with sources as right-hand side; symbols carry the element names. With the AC flag unset the dynamic part is absent, and linearised devices appear as their small-signal equivalents.',
  ['programs', 'inputs'], 'every circuit of supported elements and every numeric substitution',
  'tests solve a few symbolic circuits',
  ['ahkab/symbolic.py'],
  [('symbolic assembly', 'ahkab/symbolic.py:generate_mna_and_N'), ('symbolic matrix growth', 'ahkab/symbolic.py:_expand_matrix'),
   ('unknown names', 'ahkab/symbolic.py:get_variables')])

p('C24', 'Poles and zeros reported are those of the circuit',
  'For every linear circuit, the reported poles are the complex frequencies at which the circuit equations become singular, and the reported zeros those of the transfer from the chosen source to the chosen output, each in the frequency unit used by the AC analysis; modes that are not driven or not seen may appear as a cancelling pair, and singularities beyond the configured maximum or ill-conditioned multiple ones are excluded. Neither depends on node numbering or element order, and the circuit is unchanged afterwards.',
  ['programs', 'inputs'], 'every linear circuit, input source and output',
  'tests have a few circuits with known singularities',
  ['ahkab/pz.py'],
  [('poles', 'ahkab/pz.py:calculate_poles'), ('zeros', 'ahkab/pz.py:calculate_singularities')])

p('C25', 'A circuit can be edited and looked up consistently',
  'For every sequence of additions and removals, the circuit contains exactly the elements added and not removed, in order, with the types, nodes and values given; finding an element by name returns that element, and duplicate or unknown names are reported. A generated netlist line of a linear element or source that has a netlist form, parsed again, gives an equivalent element to the printed precision.',
  ['histories', 'inputs'], 'every sequence of circuit edits, every element',
  'tests perform a few additions',
  ['ahkab/circuit.py', 'ahkab/components', 'ahkab/time_functions.py'],
  [('construction', 'ahkab/circuit.py:Circuit.add_vsource'), ('removal', 'ahkab/circuit.py:Circuit.remove_elem'),
   ('lookup', 'ahkab/circuit.py:Circuit.get_elem_by_name'),
   ('netlist text', 'ahkab/components/Component.py:Component.get_netlist_elem_line')])

p('C26', 'Periodic steady-state results are periodic solutions of the circuit equations',
  'For every periodically driven damped circuit, a periodic steady state reported by either method spans one period on the requested number of points, its last point leads back to its first one under the same equations, and every point satisfies the discretised circuit equations (with the configured minimum capacitance) to tolerance. Failure to converge is reported as failure.',
  ['programs', 'inputs', 'configurations'], 'every periodically driven circuit, period and number of points',
  'tests run one circuit per method',
  ['ahkab/bfpss.py', 'ahkab/shooting.py', 'ahkab/pss.py'],
  [('brute force', 'ahkab/bfpss.py:bfpss'), ('shooting', 'ahkab/shooting.py:shooting_analysis'),
   ('dispatch', 'ahkab/pss.py:pss_analysis')])

p('C27', 'Fourier analysis returns the harmonics of the simulated waveform',
  'For every waveform on every time grid covering a period, the Fourier analysis returns the mean, amplitudes and phases of the requested '
  'harmonics of the fundamental over the last period, and the total harmonic distortion computed from those.',
  ['inputs'], 'every waveform, time grid and fundamental',
  'tests compare one waveform',
  ['ahkab/fourier.py'], [('harmonics', 'ahkab/fourier.py:fourier')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
