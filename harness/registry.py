QUICK_S = 420
THOROUGH_S = 800
COMMON_ASSUMPTIONS = [
    'double arithmetic is modelled as exact real arithmetic (literals stand for the simplest rational that rounds to them); results are claims up to rounding error',
    'sin, cos, exp, log and roots are modelled by their algebraic identities, derivatives, bounds and congruence',
    'third-party JSON schema validation is outside the encoding',
]
AUX = ['Auxillary/Exception', 'Auxillary/Mathfunctions', 'Auxillary/unit_conversion', 'Auxillary/json_schema', 'Auxillary/Misc', 'Auxillary/Coloroutput', 'Auxillary/aux_json']
PROPS = {
    'C03': dict(harnesses=[
        dict(name='law', src='c03_law.cpp', uses=AUX + ['Model/Balancelaw'], stubs=['stubs/validator.cpp'],
             reach=['flux', 'laminar', 'turbulent', 'transitional', 'source', 'seam laminar', 'seam turbulent', 'opposes', 'pressure', 'bar'])],
        bounds=['density 0.01..300 kg/m^3, flow -2000..2000 m^3/s, diameter 0.05..2 m, roughness 1e-7..1e-3 m, pressure up to 200 bar']),
}
NA = {
    'C27': 'the property is about the convergence of the third-party Ipopt solver (only a binary and headers are here, no source), whose floating-point iteration and linear solvers cannot be encoded as a bounded solver query over the code in /repo; what grazer hands to Ipopt and does with the answer is covered by C13 to C16 and C30',
    'C36': 'the colours are text of rounded integers: every one of the 100 colours of the legend forks into up to 255 paths as soon as the greatest or smallest value is symbolic, so that the exploration does not end within the budget; a check of concrete values would be testing (four defects found on the way are repaired)',
'C28': 'a distribution is not an assertion over symbolic values of one execution; the generator (pcg, std::normal_distribution) is third-party code whose bit mixing a solver cannot relate to a distribution. The use of the drawn values is covered by C22 with arbitrary draws',
}
MODEL = AUX + ['Auxillary/Matrixhandler', 'Auxillary/InterpolatingVector', 'Auxillary/ComponentJsonHelpers', 'Auxillary/Stochastics', 'Auxillary/Timedata',
               'Auxillary/Input_Output', 'Model/Balancelaw', 'Model/Componentfactory', 'Model/Netfactory', 'Model/Network']
STUB = ['stubs/validator.cpp']
PROPS['C01'] = dict(harnesses=[
    dict(name='gasjac', src='c01_gasjac.cpp', uses=MODEL, stubs=STUB, params=dict(edges=3), thorough=dict(edges=4, cells=6), reach=['regimes', 'cells', 'node', 'constraint'])],
    bounds=[])
NOISE = ['stubs/noise.cpp']
WRAPN = ['_ZN3Aux18Normaldistribution10get_sampleEd', '_ZN3Aux18Normaldistribution10get_sampleEdd']
PROPS['C02'] = dict(harnesses=[
    dict(name='powerjac', src='c02_powerjac.cpp', uses=MODEL, stubs=NOISE, wrap=WRAPN, params=dict(lines=2), thorough=dict(lines=4),
         reach=['PQnode', 'PVnode', 'Vphinode', 'StochasticPQnode', 'ExternalPowerplant', 'plant', 'parallel'])], bounds=[])
PROPS['C04'] = dict(harnesses=[
    dict(name='gasnode', src='c04_gasnode.cpp', uses=MODEL, params=dict(kinds=1), thorough=dict(edges=4, kinds=4),
         reach=['Innode', 'Source', 'Sink', 'ConstraintSink', 'Pressureboundarynode', 'connection', 'converse'])], bounds=[])
PROPS['C05'] = dict(harnesses=[
    dict(name='gasedge', src='c05_gasedge.cpp', uses=MODEL, thorough=dict(cells=6, gridcells=20),
         reach=['Shortpipe', 'Compressorstation', 'Controlvalve', 'many cells', 'grid', 'box', 'constraint at pipe', 'constraint at short pipe'])], bounds=[])
PROPS['C06'] = dict(harnesses=[
    dict(name='powerflow', src='c06_powerflow.cpp', uses=MODEL, params=dict(lines=2), thorough=dict(lines=4),
         reach=['PQnode', 'PVnode', 'Vphinode', 'ExternalPowerplant', 'plant', 'parallel'])], bounds=[])
PROPS['C07'] = dict(harnesses=[
    dict(name='connection', src='c07_connection.cpp', uses=MODEL,
         reach=['gas to power', 'power to gas', 'smoothed', 'seam', 'monotone', 'node'])], bounds=[])
IV = AUX + ['Auxillary/InterpolatingVector', 'Auxillary/Timedata']
PROPS['C08'] = dict(harnesses=[
    dict(name='interp', src='c08_interp.cpp', uses=IV, stubs=STUB, params=dict(points=3, ops=2), thorough=dict(points=5, ops=3),
         reach=['outside', 'between', 'rejected', 'accepted', 'equal', 'unequal', 'json', 'regrid', 'reset', 'refused', 'assigned'])], bounds=[])
PROPS['C09'] = dict(harnesses=[
    dict(name='grid', src='c09_grid.cpp', uses=IV + ['Auxillary/Matrixhandler', 'Model/Networkproblem/Componentclasses', 'Grazer/helpers'], stubs=STUB, params=dict(steps=5), thorough=dict(steps=40),
         wrap=['_ZN8aux_json23get_json_from_file_pathERKNSt10filesystem7__cxx114pathE'],
         reach=['rejected', 'delta end', 'number end', 'delta number', 'timedata', 'bad settings', 'controls number', 'controls delta', 'controls default', 'many'])], bounds=[])
PROPS['C10'] = dict(harnesses=[
    dict(name='assembly', src='c10_assembly.cpp', uses=['Auxillary/Exception', 'Auxillary/Matrixhandler'], stubs=[], params=dict(first=3, second=2), thorough=dict(first=4, second=3),
         reach=['pattern kept', 'pattern grows', 'regular', 'transposed'])], bounds=[])
PROPS['C11'] = dict(harnesses=[
    dict(name='newton', src='c11_newton.cpp', uses=IV + ['Auxillary/Matrixhandler', 'Model/Networkproblem/Componentclasses', 'Newtonsolver'], stubs=STUB,
         params=dict(dim=1, iterations=2, evaluations=4), thorough=dict(dim=2, iterations=3, evaluations=6),
         reach=['gave up', 'not finite', 'success', 'already solved', 'failure', 'affine', 'curved'])], bounds=[])
EVOLVE = IV + ['Auxillary/Matrixhandler', 'Model/Networkproblem/Componentclasses', 'Newtonsolver', 'Model/Problemlayer']
PROPS['C12'] = dict(harnesses=[
    dict(name='evolve', src='c12_evolve.cpp', uses=EVOLVE, stubs=STUB, params=dict(steps=2, failsteps=2, retries=1), thorough=dict(steps=4, failsteps=3, retries=2),
         reach=['controlled', 'uncontrolled', 'singular', 'gave up', 'retried', 'solved'])], bounds=[])
OPT = IV + ['Auxillary/Matrixhandler', 'Model/Networkproblem/Componentclasses', 'Optimization_helpers/Optimization_helpers', 'Optimization_helpers/ControlStateCache',
            'IpoptWrapper/ImplicitOptimizer', 'IpoptWrapper/Initialvalues', 'IpoptWrapper/ConstraintJacobian', 'Newtonsolver', 'Model/Problemlayer']
PROPS['C13'] = dict(harnesses=[
    dict(name='gradient', src='c13_gradient.cpp', uses=OPT, stubs=STUB, params=dict(steps=2, controltimes=3, controls=2), thorough=dict(steps=3, controltimes=4, controls=3),
         reach=['scalar', 'vector', 'grids'])], bounds=[])
PROPS['C14'] = dict(harnesses=[
    dict(name='jacobian', src='c14_jacobian.cpp', uses=OPT, stubs=STUB, params=dict(steps=2, controltimes=3, size=2), thorough=dict(steps=3, controltimes=4, size=3),
         reach=['scalar', 'vector', 'grids'])], bounds=[])
PROPS['C15'] = dict(harnesses=[
    dict(name='objective', src='c15_objective.cpp', uses=OPT, stubs=STUB, params=dict(steps=2, controltimes=3, lookup=4), thorough=dict(steps=3, controltimes=4, lookup=8),
         reach=['bounds', 'fixed', 'arbitrary', 'lookup', 'end of the grid', 'accepted', 'rejected'])], bounds=[])
PROPS['C16'] = dict(harnesses=[
    dict(name='history', src='c16_history.cpp', uses=OPT + ['IpoptWrapper/Wrapper'], stubs=STUB, params=dict(length=3, simulated_length=3, lookups=2), thorough=dict(length=4, simulated_length=3, lookups=4),
         reach=['failed', 'answered', 'finished', 'simulated', 'exact', 'lookup'])], bounds=[])
PROPS['C17'] = dict(harnesses=[
    dict(name='indices', src='c17_indices.cpp', uses=MODEL, stubs=[], params=dict(pipes=2, cells=1), thorough=dict(pipes=3, cells=4),
         reach=['offset', 'mixed', 'gas', 'power', 'plant', 'large'])], bounds=[])
PROPS['C18'] = dict(harnesses=[
    dict(name='placement', src='c18_placement.cpp', uses=MODEL, stubs=NOISE, wrap=WRAPN, params=dict(pipes=1, cells=2, compressors=2, valves=1, constraints=2), thorough=dict(pipes=2, cells=3, compressors=2, valves=2, constraints=2),
         reach=['rejected', 'unknown id', 'initial', 'controls', 'bounds', 'constraint bounds', 'saved', 'large'])], bounds=[])
PROPS['C19'] = dict(harnesses=[
    dict(name='results', src='c19_results.cpp', uses=MODEL, stubs=NOISE, wrap=WRAPN, params=dict(times=3, pipes=2, cells=2), thorough=dict(times=5, pipes=3, cells=5),
         reach=['stochastic', 'pipe', 'short', 'connection'])], bounds=[])
PROPS['C20'] = dict(harnesses=[
    dict(name='topology', src='c20_topology.cpp', uses=MODEL, stubs=[], params=dict(nodes=3, edges=2, boundarynodes=2), thorough=dict(nodes=4, edges=3, boundarynodes=3),
         reach=['bad edge', 'attached', 'missing boundary', 'boundary', 'duplicate', 'unknown type', 'malformed', 'files'])], bounds=[])
PROPS['C21'] = dict(harnesses=[
    dict(name='smooth', src='c21_smooth.cpp', uses=['Auxillary/Exception', 'Auxillary/Mathfunctions', 'Auxillary/Stochastics'], stubs=[], reach=['inside', 'outside', 'seam', 'sign', 'undefined', 'circle', 'sgn'])], bounds=[])
PROPS['C22'] = dict(harnesses=[
    dict(name='stochastic', src='c22_stochastic.cpp', uses=MODEL, stubs=NOISE, wrap=WRAPN, params=dict(steps=2, nodesteps=1), thorough=dict(steps=4, nodesteps=2),
         reach=['kept', 'raised', 'cut-off', 'zero demand', 'accepted', 'rejected', 'node']),
    dict(name='seeds', src='c22_seeds.cpp', uses=MODEL, stubs=STUB, params=dict(trials=3), thorough=dict(trials=6),
         reach=['given seed', 'random seed', 'truncated', 'empty', 'normal'])], bounds=[])
PROPS['C23'] = dict(harnesses=[
    dict(name='units', src='c23_units.cpp', uses=AUX, stubs=[], params=dict(forms=3, measures=1, length=3, letters=11), thorough=dict(forms=6, measures=5, length=3, letters=16),
         reach=['converted', 'short unit', 'unknown unit', 'malformed', 'foreign'])], bounds=[])
FSCALLS = ['fopen', 'open', 'close', 'fclose', 'write', 'writev', 'rename', 'remove', 'unlink', 'mkdir', 'truncate', 'sendfile']
PROPS['C24'] = dict(harnesses=[
    dict(name='overwrite', src='c24_overwrite.cpp', uses=AUX, stubs=[], interpose=FSCALLS, params=dict(operations=6, files=3, directory_operations=13), thorough=dict(operations=12, files=5, directory_operations=30),
         reach=['success', 'cannot be written', 'failure reported', 'crash', 'next run', 'directory failure', 'second run', 'unusable'])], bounds=[])
PROPS['C25'] = dict(harnesses=[
    dict(name='output', src='c25_output.cpp', uses=AUX + ['Auxillary/Input_Output'], stubs=[], interpose=FSCALLS, wrap=['_ZNSt6chrono3_V212system_clock3nowEv'], params=dict(kinds=2, components=3), thorough=dict(kinds=4, components=5),
         reach=['rival', 'directory', 'file', 'gave up', 'timestamp', 'epoch', 'output file', 'default name', 'filled', 'clash', 'inside', 'outside'])], bounds=[])
PROPS['C26'] = dict(harnesses=[
    dict(name='json', src='c26_json.cpp', uses=MODEL, stubs=[], params=dict(entries=2), thorough=dict(entries=3),
         reach=['defaults', 'complete', 'incomplete', 'misuse', 'bad ids', 'sorted', 'complete entry', 'supplied', 'bad entry', 'boundary', 'bad boundary', 'initial shape', 'other shape', 'factories', 'inserted', 'generated', 'refused'])], bounds=[])
RUN = MODEL + ['Model', 'Newtonsolver', 'Optimization_helpers/Optimization_helpers', 'Optimization_helpers/ControlStateCache', 'IpoptWrapper', 'IpoptWrapper/Adaptor', 'Grazer/commands', 'Grazer/helpers']
PROPS['C29'] = dict(harnesses=[
    dict(name='run', src='c29_run.cpp', main='Grazer/grazer.cpp', uses=RUN, stubs=[], interpose=FSCALLS, params=dict(steps=4, operations=40), thorough=dict(steps=7, operations=80),
         reach=['controlled', 'uncontrolled', 'unreadable', 'incomplete', 'unsolvable', 'misuse', 'complete', 'reported', 'died'])], bounds=[])
PROPS['C30'] = dict(harnesses=[
    dict(name='optimize', src='c30_optimize.cpp', main='Grazer/grazer.cpp', uses=RUN, stubs=[], params=dict(steps=5), thorough=dict(steps=8),
         reach=['optimized', 'sparse constraints', 'solved', 'free', 'not optimal', 'no solution', 'no simulation', 'nothing to control', 'bad bounds'])], bounds=[])
PROPS['C31'] = dict(harnesses=[
    dict(name='schema', src='c31_schema.cpp', main='Grazer/grazer.cpp', uses=RUN, stubs=[], interpose=FSCALLS, params=dict(operations=20), thorough=dict(operations=40),
         reach=['generated', 'refused', 'inserted', 'new file', 'still runs', 'misuse', 'complete', 'reported', 'died'])], bounds=[])
TOOLWRAP = ['strtod', '_ZNSo9_M_insertIdEERSoT_']
PROPS['C32'] = dict(harnesses=[
    dict(name='restart', src='c32_restart.cpp', uses=MODEL, stubs=NOISE, wrap=WRAPN + TOOLWRAP, tools=['extract_new_initial_condition'], params=dict(times=3, pipes=1, cells=2), thorough=dict(times=4, pipes=2, cells=4),
         reach=['exact', 'between', 'last', 'gas', 'power', 'both', 'misuse'])], bounds=[])
PROPS['C33'] = dict(harnesses=[
    dict(name='ensemble', src='c33_ensemble.cpp', uses=[], stubs=[], wrap=TOOLWRAP, tools=['get_mean_sigma', 'get_quantiles', 'compute_reference_discrepance'], params=dict(runs=3, sorted=3, many=12, compared=3), thorough=dict(runs=5, sorted=5, many=40, compared=4),
         reach=['mean', 'mean of one', 'quantiles', 'many', 'discrepance', 'no reference'])], bounds=[])
PROPS['C34'] = dict(harnesses=[
    dict(name='tables', src='c34_tables.cpp', uses=MODEL, stubs=NOISE, wrap=WRAPN + TOOLWRAP, tools=['generate_printing_csv', 'generate_control_printing_csv'], params=dict(times=3, cells=2), thorough=dict(times=5, cells=4),
         reach=['power', 'gas', 'controls', 'misuse'])], bounds=[])
PROPS['C35'] = dict(harnesses=[
    dict(name='edits', src='c35_edits.cpp', uses=AUX, stubs=STUB, wrap=TOOLWRAP, params=dict(sources=3, nodes=3, components=3), thorough=dict(sources=5, nodes=5, components=5),
         tools=['change_inflow', 'increase_pressure', 'include_seed_in_boundaryvalues', 'remove_seed_from_boundaryvalues', 'move_to_category', 'normalize_jsons', 'insert_positions', 'construct_gaspowerconnection', 'stringify_value_json'],
         reach=['inflow', 'inflow refused', 'no inflow', 'pressure', 'pressure refused', 'seeds', 'seeds refused', 'moved', 'normalized', 'positions', 'positions refused', 'connected', 'connected before', 'strings', 'kept', 'unsuitable'])], bounds=[])
B = {
'C01': ['one pipe of 2..4 cells (thorough 6); one compressor station, control valve or short pipe; every gas node type with up to 3 (4) attached edges in every direction', 'density 10..500, flow, pressure, control, diameter 0.1..1.5 m, length 100..9000 m, roughness 1e-6..1e-4 and time step arbitrary; every friction regime'],
'C02': ['every power node type with up to 2 (4) lines in every direction, parallel lines included; the connection in all three regimes', 'admittances and boundary values in -100..100, coefficients 0.01..50'],
'C04': ['every gas node type with up to 3 (4) attached edges in every direction, of one (several) edge types', 'pressures 1..150 bar, arbitrary flows and prescribed values, times up to a day'],
'C05': ['pipes of up to 4 (6) cells for the scheme and up to 8 (20) cells for the number of cells', 'lengths 10..5000 m, steps 1..5000 m, arbitrary states, controls and times'],
'C06': ['every power node type with up to 2 (4) lines in every direction, parallel lines included', 'admittances in -100..100, arbitrary voltages, phases, times and boundary values'],
'C07': ['one connection between a gas node with another edge and a power plant with a line', 'coefficients 0.01..50, powers covering both regimes and the smoothing interval'],
'C08': ['grids of up to 3 (5) points, rows of 1..2 values, sequences of 2 (3) operations', 'arbitrary points and values in -100..100, arbitrary evaluation points'],
'C09': ['grids of up to 6 (40) steps', 'arbitrary starts, interval lengths and steps (every ratio up to the bound)'],
'C10': ['3 + 2 (4 + 3) contributions at arbitrary positions of a 2x2 or 2x3 matrix, two assemblies', 'arbitrary values in -100..100'],
'C11': ['1 (2) unknowns with residuals that take arbitrary values at each of 4 (6) evaluations (or are not finite), 2 (3) iterations; affine systems of 2 unknowns', 'arbitrary tolerances in 1e-3..1'],
'C12': ['2 (4) time steps, 0..1 (2) retries, every pattern of successful, failed and singular attempts', 'arbitrary states, controls, times, problem coefficients'],
'C13': ['2 (3) simulation steps, 3 (4) control times in every relative position to them, up to 2 (3) controls; one state (two states with constant derivatives)', 'arbitrary derivatives and times'],
'C14': ['2 (3) simulation steps, 3 (4) control times, every subset of constraint times, up to 2 (3) controls and constraints per time', 'arbitrary derivatives and times'],
'C15': ['2 (3) simulation steps, 3 (4) control times, every subset of constraint times, 1..2 controls, 0..2 constraints', 'arbitrary costs, constraints, controls and times'],
'C16': ['sequences of 3 (4) calls of the five callbacks, each with new or old controls and a simulation that succeeds or fails; 3 calls with the real time evolution', 'arbitrary control values'],
'C17': ['networks of all component types, up to 2 (3) pipes of up to 1 (4) cells, one with 4 pipes, compressors and valves and 5 constraint sinks, index offsets, two other declaration orders', 'arbitrary states, controls and previous contents'],
'C18': ['one network of all component types (1 (2) pipes of 2 (3) cells, 2 compressors, 1 (2) valves, 2 constraint sinks; one larger with fixed data points); three orders; one missing, unknown, nameless or wrongly sized entry', 'arbitrary values, three data points with an arbitrary middle one'],
'C19': ['networks of all component types, 3 (5) saved times, up to 2 (3) pipes of up to 2 (5) cells', 'arbitrary states and times'],
'C20': ['up to 3 (4) nodes and 2 (3) edges with every choice of ends, 2 (3) boundary nodes, every single omission, duplication or malformed entry', 'arbitrary boundary values'],
'C21': ['no bound on the structure', 'arguments -1e10..1e10, radius 0..1e4'],
'C22': ['2 (4) sub-steps for the process, 1 (2) for the node; 3 (6) draws for the truncation, four seeds', 'arbitrary draws in -1000..1000, arbitrary parameters'],
'C23': ['every unit with every prefix, in 3 (6) spellings; every string of up to 3 letters out of 11 (16) characters', 'values -1e6..1e6'],
'C24': ['every single failing, short or interrupted operation among the first 7 (13) of one overwrite, 14 (31) of a schema key insertion with 3 (5) files', 'three sizes of the old and new content'],
'C25': ['every pattern of taken names within the attempts, one of 4 kinds of occupant per attempt class, paths of up to 3 (5) components', 'fixed clock readings (six millisecond values)'],
'C26': ['schemas of three levels with every subset of user values and defaults; lists of 2 (3) entries; every component type with one missing, defaulted or wrong key; every set of files of a problem directory', 'arbitrary numbers'],
'C29': ['one network of 3 nodes and 2 connections with a closed-form solution; 1..4 (7) time steps; every one of 5 files missing, empty, cut or malformed; every one of 9 settings missing; every single failing, short or interrupted operation among the first 40 (80) of a run', 'arbitrary start, step, boundary values, controls and initial states'],
'C30': ['one network of 3 nodes and 2 connections with a closed-form solution, 1..2 controls, 1..5 (8) time steps, the three kinds of control grids with 2..3 times, 8 constraint frequencies (absent, 0, negative, not a number, ...)', 'arbitrary start, step, boundary values, bounds, start values, trial and final controls; 7 ways the optimizer ends'],
'C31': ['one network with and without a pipe and a compressor; six states of the schema directory, six of the problem data; each of five schemas or problem files absent; every single failing, short or interrupted operation among the first 20 (40)', 'arbitrary numbers in the problem files'],
'C32': ['networks of all component types with a state, up to 1 (2) pipes of up to 2 (4) cells, up to 3 (4) saved times; six kinds of misuse', 'arbitrary states, times and extraction times'],
'C33': ['1..3 (5) files with arbitrary numbers at one of 8 kinds of places, 4..12 (40) files of which one value is arbitrary', 'values in -100..100'],
'C34': ['networks of all component types, 2 pipes of up to 2 (4) cells, up to 3 (5) saved times, three declaration orders, each component; 1..2 controls; seven kinds of misuse', 'arbitrary states, controls and times'],
'C35': ['up to 3 (5) sources, stochastic nodes or components per list; every subset of four files with the component; five kinds of gas edges', 'arbitrary numbers, factors and differences'],
}
for _k, _v in B.items():
    if _k in PROPS and not PROPS[_k]['bounds']:
        PROPS[_k]['bounds'] = _v
