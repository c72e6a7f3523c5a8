#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the wording has one source).
import json
P=[]
REFINED={
 'C03': 'The isothermal Euler balance law returns flux and source derivatives that are the exact derivatives of its flux and source. Its friction coefficient is 64/Re in the laminar regime, the Swamee-Jain value in the turbulent regime, and a transition between them that is continuous with a continuous derivative at both ends; friction always opposes the flow. Density-to-pressure and pressure-to-density conversions (in bar and Pa) are mutually inverse and strictly increasing, and their derivatives are exact.',
 'C05': 'A short pipe forces equal pressure and equal flow at both ends; a compressor station forces the pressure at the end minus the pressure at the start, and a control valve the pressure at the start minus the pressure at the end, to be exactly its control value, and both conserve the flow; a pipe discretises its length into equal cells no longer than the desired step and every cell satisfies the implicit box scheme for the isothermal Euler equations between last and new state with the actual time step. Pressures handed to nodes are in bar, flows in the volumetric unit of the other components, and the constraint of a constraint sink is the pressure at its node in bar.',
 'C07': 'The gas-power connection ties the gas flow it takes out of (or feeds into) its gas node to the electrical power of its power plant by a conversion curve that is the configured coefficient times power on either side of the smoothing interval, continuous and continuously differentiable everywhere and, for coefficients within a factor of five of each other, monotone, and it leaves the gas pressure free (equal at both its ends). Any other gas edge attached to the same gas node sees that flow in the node balance.',
 'C08': 'Evaluating an interpolating vector at any point within its interpolation points returns the linear interpolation between the two neighbouring stored values (the stored value at a knot), evaluating outside the range (beyond the documented tolerance) throws, and the accessors (value at an index, mutable and whole-vector get and set, mapped views, copies, assignments, equality and JSON import and export) all agree with the same stored values. Unsorted points in JSON and data of the wrong size are rejected.',
 'C09': 'A grid built from start, end and desired step starts at the start, ends at the end, is equidistant, has no step larger than the desired step and no more steps than needed; a grid built from start, end and a number of points has exactly that many points and the same ends, and one built from start, step and a number of points consists of exactly start plus index times step. Empty or reversed intervals, non-positive steps and too few points are rejected. The simulation times and the control times of a run are such grids for the configured settings (control step, number of control points, or the simulation step by default; giving both or neither is rejected).',
 'C10': 'Assembling a matrix through the triplet handler and through the in-place handler, transposed or not, yields the same numerical matrix: added contributions accumulate, and a second assembly with other values, or into an existing pattern, leaves no trace of the first.',
 'C11': 'The Newton solver reports success only if the residual norm at the returned state is at most the requested tolerance, never when the residual is not finite, leaves an already solved state unchanged, never performs more than the allowed number of iterations, and never returns a state with a larger residual than it was given while claiming success. On an affine system with a regular matrix it finds the solution in one full step. A singular Jacobian is reported as failure.',
 'C12': 'A simulation keeps the initial state as first entry, computes each later state as the solution of the problem equations for exactly that step (last state, last time, new time, control interpolated at the new time), and stores it under its time. If no attempt for a step succeeds, within a number of attempts bounded by the configured retries, the simulation fails with an exception instead of storing an unsolved state, and does not go on to later steps.',
 'C15': 'The objective value is the trapezoidal time integral over the simulated trajectory (without the fixed initial point) of the cost plus the penalty for the given control, and the constraint vector contains the constraint functions evaluated on that trajectory at each constraint time, with bounds reported in the same order; interpolation between grids is by convex combination of the neighbouring grid points. Time grids, initial states, controls and bounds that do not fit together are rejected.',
 'C16': 'Whatever the order and subset of evaluation calls (objective, gradient, constraints, Jacobian) and whenever new controls arrive, each answer is the one for the controls most recently supplied; a simulation that fails for some controls is reported as a failed evaluation and never answered with values of an earlier control, and it does not spoil later evaluations. The solution, objective, cost and penalty reported at the end belong to the final controls.',
 'C17': 'In any network, the components get pairwise disjoint, contiguous index ranges that together cover exactly the total number of states, controls and constraints, and evaluating the network writes every residual row exactly by its owner, so that the residual and the Jacobian do not depend on the previous content of the result vector, nor (component by component) on the order in which components are declared.',
 'C18': 'Initial states, controls, and control or constraint bounds given in JSON are placed by id into exactly the slots of the component that carries the id, at every point or time and independent of the order of the entries; writing controls back gives the same values for the same ids. A missing entry, an entry without id, or rows of the wrong length are errors rather than silent defaults; an entry with an unknown id changes nothing.',
 'C19': 'The JSON written after a simulation contains for every component and every saved time exactly the values of the simulated state at that time, converted to the documented units, under the right id and variable, and nothing from another time step or component. Active and reactive power saved for power nodes are the power flow of the saved state, the stochastic node saves its deviations relative to the prescribed values.',
 'C20': 'Building a network from topology and boundary JSON (given inline or as file names) yields one component per entry with its edges attached to the nodes it names in the declared direction and its boundary values attached by id; duplicate ids, unknown component types, missing ids, edges to missing nodes, self-loops, and components whose boundary entry is missing or listed under another type are rejected with an exception, independent of the order of the entries. A boundary entry without a component changes nothing.',
 'C21': 'The smoothed absolute value equals the absolute value outside its smoothing zone (|x| >= 1e-4), is even, lies between zero and the absolute value, is continuously differentiable with a slope bounded by the square root of two and exactly the derivative the helper reports; the derivative of the absolute value is the sign and refused only at zero (|x| < 1e-13); the sign function and the area of a circle are exact.',
 'C22': 'At every step of the stochastic demand, the realised active and reactive power deviates from the prescribed non-zero value by at most the configured cut-off (relative to it), follows the Ornstein-Uhlenbeck update with the configured drift, volatility and number of sub-steps for the drawn noise (whose variance is the sub-step), starting from the powers of the last state, and two evaluations of the same time step use the same realisation; the number of sub-steps is raised to a stable one where the configured number is not stable, and parameters for which there is none (stability outside (0,2), negative drift, negative number of steps) are rejected. The same seed gives the same realisation, and truncated draws are the first draws inside their bounds.',
 'C23': 'A value with a unit is converted to the base unit by exactly the factor of its SI prefix (squared or cubed for squared or cubed units) and unit (and offset for temperatures) for every supported unit and prefix, values convert linearly, also with a leading number in the unit, and an unknown unit, a unit of another kind or a malformed value is rejected.',
 'C24': 'When a JSON file is overwritten (also while schema keys are inserted), then at any crash or single failing, short or interrupted file operation the old content or the complete new content is still present on disk and survives the next run, a failure is reported to the caller with the old or the new content in place, other files are untouched, and after success the file contains exactly the new content and no stray backup.',
 'C25': 'Preparing output creates a new file or directory whose name did not exist before, whatever names already exist or appear in the last moment, and gives up with an exception after the bounded number of attempts (10 for files, 20 for directories) instead of reusing an existing one; names carry the full date and time with three digits of milliseconds; a filled output directory is a copy of the problem plus the requested empty files, and refuses to replace existing ones; the test whether a path stays inside a (normalised) root is exact.',
 'C26': 'Schema key insertion, default supply and sorting by id change only the keys they are meant to change: user-given values are never overwritten by defaults, every required value with a default is supplied and one without is reported, and component lists are ordered by id without losing or duplicating an entry. The schemas generated for the user accept the topology, boundary, initial, control and problem-data documents that the program accepts and reject malformed ones, every component type is known to its factories, and schema files are never written into a directory with other content.',
}
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=REFINED.get(id,statement),
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
G='src/Model/Networkproblem/Gas/'
PW='src/Model/Networkproblem/Power/'
p('C01','Gas Jacobians are the exact derivatives of the gas residuals',
 'For every gas component (pipe with the implicit box scheme, short pipe, compressor station, control valve and every gas node type) the entries that the component writes into the Jacobians with respect to the new state, the last state and the controls are exactly the partial derivatives of the residuals the same component evaluates, and no other entry is written. The same holds for the derivatives of the compressor cost and of the sink constraints.',
 ['inputs','configurations'],'all states, last states, controls, times and component parameters in the modelled ranges; all listed component types',
 'The existing Jacobian tests either compare one hand-written number per component or do not run in this build at all; an analytic derivative that is wrong only in one friction regime, one sign of the flow or one orientation passes every sample that misses it.',
 [G+'Pipe.cpp',G+'Compressorstation.cpp',G+'Controlvalve.cpp',G+'Gasnode.cpp',G+'Gasedge.cpp',G+'Shortcomponent.cpp',G+'ConstraintSink.cpp','src/Model/Scheme/include/Implicitboxscheme.hpp','src/Model/Balancelaw/Isothermaleulerequation.cpp'],
 [('analytic derivative code of each component','d_evalutate_d_new_state / d_last_state / d_control')],
 ['Jacobian matrices handed to the Newton solver and to the adjoint computation'])
p('C02','Power and gas-power Jacobians are the exact derivatives of the residuals',
 'For every power node type (PQ, PV, V-phi, external power plant, stochastic PQ), for any number of attached transmission lines and either line orientation, and for the gas-power connection, the Jacobian entries written with respect to the new state are exactly the partial derivatives of the evaluated residuals, and entries with respect to the last state and the controls are those of the residual as well (zero where it does not depend on them).',
 ['inputs','configurations'],'all voltages, phases, admittances, power values, gas pressures and flows; node degree up to the bound; both regimes (gas to power, power to gas, and the smoothed part between) of the connection',
 'Tests of the power components do not run in this build and otherwise check fixed numbers on one small net.',
 [PW+'Powernode.cpp',PW+'PQnode.cpp',PW+'PVnode.cpp',PW+'Vphinode.cpp',PW+'StochasticPQnode.cpp','src/Model/Networkproblem/Gaspowerconnection/Gaspowerconnection.cpp','src/Model/Networkproblem/Gaspowerconnection/ExternalPowerplant.cpp'],
 [('evaluate_P_derivative / evaluate_Q_derivative','Powernode.cpp'),('dsmoothing of the conversion curve','Gaspowerconnection.cpp')],
 ['Jacobian matrices'])
p('C03','The gas balance law is internally consistent and smooth',
 'The isothermal Euler balance law returns flux and source derivatives that are the exact derivatives of its flux and source, its friction coefficient is continuous with a continuous derivative across the laminar, transitional and turbulent regimes, and friction always opposes the flow. Density-to-pressure and pressure-to-density conversions (in bar and Pa) are mutually inverse and strictly increasing, and their derivatives are exact.',
 ['inputs'],'all densities in the physical range, all flows, diameters and roughnesses in the modelled ranges',
 'Tests evaluate the law at a few states; a jump at a regime boundary or an asymmetric friction sign is invisible there.',
 ['src/Model/Balancelaw/Isothermaleulerequation.cpp'],
 [('flux, dflux_dstate, source, dsource_dstate, lambda','Isothermaleulerequation.cpp'),('cubic transition polynomial','Isothermaleulerequation.cpp')],
 ['return values of the balance law'])
p('C04','Gas nodes couple all attached edges: one pressure, conserved flow',
 'At every gas node, whatever the number of attached edges and whichever end of each edge is attached, a state satisfies the node equations exactly if all edge-end pressures at the node agree and the signed sum of edge flows equals the flow the node prescribes (inner nodes: zero; sources feed in what is specified; sinks take out what is specified), or, at a pressure node, the pressure equals the prescribed pressure. The number of node equations equals the number of attached edge ends, so that the system stays square.',
 ['inputs','configurations'],'all pressures and flows, all prescribed values, all node degrees up to the bound, all combinations of incoming and outgoing edges and edge types',
 'Tests use one or two fixed configurations per node type (and do not run in this build); an orientation or degree specific error passes.',
 [G+'Gasnode.cpp',G+'Innode.cpp',G+'Flowboundarynode.cpp',G+'Pressureboundarynode.cpp',G+'Source.cpp',G+'Sink.cpp',G+'ConstraintSink.cpp',G+'Gasedge.cpp'],
 [('evaluate_flow_node_balance / evaluate_pressure_node_balance','Gasnode.cpp'),('boundary equation indices of the edges','Gasedge.cpp')],
 ['residual rows owned by the node'])
p('C05','Gas edges realise their physical model',
 'A short pipe forces equal pressure and equal flow at both ends; a compressor station and a control valve force the pressure at the end (respectively the start, with the sign documented by the component) to differ by exactly the control value at the evaluated time and the flow to be conserved; a pipe discretises its length into equal cells no longer than the desired step and every cell satisfies the implicit box scheme for the isothermal Euler equations between last and new state with the actual time step. Pressures handed to nodes are in bar and flows in the configured unit.',
 ['inputs','configurations'],'all states, controls, times, pipe lengths, diameters, roughnesses and desired step lengths in the modelled ranges; number of cells up to the bound',
 'The component tests that exist compare single evaluations and are not run in this build.',
 [G+'Pipe.cpp',G+'Shortcomponent.cpp',G+'Shortpipe.cpp',G+'Compressorstation.cpp',G+'Controlvalve.cpp','src/Model/Scheme/include/Implicitboxscheme.hpp'],
 [('evaluate_point of the scheme','Implicitboxscheme.hpp'),('evaluate','Pipe.cpp, Compressorstation.cpp, Controlvalve.cpp, Shortpipe.cpp')],
 ['residual rows owned by the edge'])
p('C06','Power node residuals are the AC power-flow equations',
 'For every power node the active and reactive power used in its equations equal the AC power flow sums over the node itself and all its neighbours with the given conductances and susceptances, independent of the orientation in which each line was declared. Each node type fixes exactly the two quantities it documents to the boundary values interpolated at the new time.',
 ['inputs','configurations'],'all voltages, phases, admittances, boundary values and times; degree up to the bound; both line orientations',
 'A wrong sign or a dropped line for one orientation only shows on networks that the fixed samples do not contain.',
 [PW+'Powernode.cpp',PW+'PQnode.cpp',PW+'PVnode.cpp',PW+'Vphinode.cpp',PW+'Transmissionline.cpp','src/Model/Networkproblem/Gaspowerconnection/ExternalPowerplant.cpp'],
 [('Powernode::P / Q, setup of attached lines','Powernode.cpp'),('evaluate of the node types','PQnode.cpp, PVnode.cpp, Vphinode.cpp')],
 ['residual rows owned by the node'])
p('C07','The gas-power connection converts power and gas consistently',
 'The gas-power connection ties the gas flow it takes out of (or feeds into) its gas node to the electrical power of its power plant by a conversion curve that is the configured efficiency times power on either side of the smoothing interval, continuous and continuously differentiable everywhere and monotone, and it leaves gas pressure free. Any other gas edge attached to the same gas node sees that flow in the node balance.',
 ['inputs','configurations'],'all powers, flows, pressures and efficiency coefficients in the modelled ranges',
 'Continuity and monotonicity are statements about all powers; a test samples a few.',
 ['src/Model/Networkproblem/Gaspowerconnection/Gaspowerconnection.cpp','src/Auxillary/Mathfunctions/Mathfunctions.cpp'],
 [('generated_power / smoothing polynomial','Gaspowerconnection.cpp')],
 ['residual row of the connection'])
p('C08','Interpolated values are the piecewise linear interpolant',
 'Evaluating an interpolating vector at any point within its interpolation points returns the linear interpolation between the two neighbouring stored values (the stored value at a knot), evaluating outside the range (beyond the documented tolerance) throws, and the derivative-free accessors (timestep, mutable timestep, whole-vector get/set, mapped views, copies, assignments, equality and JSON import and export) all agree with the same stored values. Construction from points that are not strictly increasing, or from data of the wrong size, is rejected.',
 ['inputs','histories'],'all strictly ordered grids up to the bound, all values, all evaluation points, sequences of set/copy/assign operations up to the bound',
 'Tests use three or four fixed grids; interval search errors at knots, at the ends or for non-uniform grids are properties of all points.',
 ['src/Auxillary/InterpolatingVector/InterpolatingVector.cpp','src/Auxillary/InterpolatingVector/include/InterpolatingVector.hpp'],
 [('operator()(double)','InterpolatingVector.cpp'),('set_values_in_bulk, mut_timestep, assignments','InterpolatingVector.cpp')],
 ['returned vectors and thrown exceptions'])
p('C09','Time and space grids are equidistant and hit both end points',
 'A grid built from start, end and desired step starts at the start, ends at the end, is equidistant, has no step larger than the desired step and no more steps than needed; a grid built from a number of entries has exactly that many. Equidistant interpolation points are start plus index times step.',
 ['inputs'],'all starts, ends, and steps within the bound on the number of points',
 'Rounding of the number of steps and the last point depends on the ratio of length and step, which tests sample once.',
 ['src/Auxillary/InterpolatingVector/InterpolatingVector.cpp','src/Auxillary/InterpolatingVector/include/InterpolatingVector.hpp','src/Model/Problemlayer/include/Timeevolver.hpp','src/Auxillary/Timedata/Timedata.cpp'],
 [('make_from_start_delta_end / make_from_start_delta_number / make_from_start_number_end','InterpolatingVector.hpp'),('Timedata','Timedata.cpp'),('set_equidistant_interpolation_points','InterpolatingVector.cpp')],
 ['grid vectors'])
p('C10','Sparse Jacobian assembly is independent of how it is stored',
 'Assembling a matrix through the triplet handler and through the in-place handler, transposed or not, yields the same numerical matrix: set overwrites, add accumulates, set_to_zero clears exactly the requested matrix, and a second assembly with other values into an existing pattern leaves no trace of the first.',
 ['inputs','histories'],'all sequences of set and add operations up to the bound with arbitrary values and positions, repeated assemblies',
 'A test performs one fixed sequence.',
 ['src/Auxillary/Matrixhandler/Matrixhandler.cpp','src/Auxillary/Matrixhandler/include/Matrixhandler.hpp','src/Auxillary/Matrixhandler/Costgradienthandler.cpp'],
 [('Triplethandler, Coeffrefhandler','Matrixhandler.hpp')],['assembled sparse matrix'])
p('C11','Newton reports success only for a solved system',
 'The Newton solver reports success only if the residual norm at the returned state is at most the requested tolerance, never when the residual is not finite, leaves an already solved state unchanged, never performs more than the allowed number of iterations, and never returns a state with a larger residual than it was given while claiming success. On an affine system with a regular matrix it finds the solution in one full step.',
 ['inputs','fault_sequences'],'all residual functions up to the bound (arbitrary values per evaluation, including not-a-number), tolerances and iteration limits',
 'Convergence flags for failing, stagnating or non-finite evaluations are histories of evaluations that the tests of two smooth functions do not contain.',
 ['src/Newtonsolver/Newtonsolver.cpp','src/Newtonsolver/include/Newtonsolver.hpp'],
 [('solve','Newtonsolver.cpp')],['returned solution struct and state'])
p('C12','Time evolution solves every step and keeps the history',
 'A simulation keeps the initial state as first entry, computes each later state as the solution of the problem equations for exactly that step (last state, last time, new time, control of that time), and stores it under its time. If no attempt for a step succeeds, within the configured number of retries, the simulation fails with an exception instead of storing an unsolved state.',
 ['inputs','fault_sequences','histories'],'all state, control and time values; every pattern of step success and failure up to the bound of steps and retries',
 'Failure at a particular step and attempt is a schedule; no runnable test has any failing step.',
 ['src/Model/Problemlayer/Timeevolver.cpp','src/Model/Problemlayer/include/Timeevolver.hpp'],
 [('simulate, make_one_step','Timeevolver.cpp')],['stored states'])
p('C13','The adjoint objective gradient is the exact derivative',
 'For any control, the gradient of the objective which is handed to the optimizer equals the derivative of the objective (cost plus weighted penalty along the simulated trajectory, which itself depends on the control) with respect to every control entry at every control time, also when state, control and constraint time grids differ.',
 ['inputs','configurations'],'all problem functions whose derivatives take arbitrary values at each time, all control values, all time grids up to the bound',
 'Existing tests check one grid with hand-picked linear problems; an index or weight error for non-aligned grids needs another one.',
 ['src/IpoptWrapper/ImplicitOptimizer.cpp','src/Optimization_helpers/Optimization_helpers.cpp'],
 [('adjoint sweep in compute_derivatives','ImplicitOptimizer.cpp')],['objective gradient'])
p('C14','The constraint Jacobian is exact and its structure complete',
 'The constraint Jacobian handed to the optimizer equals, entry for entry, the derivative of the constraints along the simulated trajectory with respect to every control; row/column indices supplied for it are exactly its stored entries in the same order as the values; and every derivative that is not structurally zero has an entry.',
 ['inputs','configurations'],'all problem functions, control values and time grids up to the bound; numbers of controls and constraints per step up to the bound',
 'Tests check the container for one or two shapes; completeness is a statement about all relative positions of the grids.',
 ['src/IpoptWrapper/ImplicitOptimizer.cpp','src/IpoptWrapper/ConstraintJacobian.cpp','src/IpoptWrapper/include/ConstraintJacobian.hpp'],
 [('make_data, supply_indices, get_column_block','ConstraintJacobian.cpp'),('compute_derivatives','ImplicitOptimizer.cpp')],['values and indices given to the optimizer'])
p('C15','Objective and constraints are what the trajectory says',
 'The objective value is the trapezoidal time integral of the cost plus the weighted penalty over the simulated trajectory for the given control, and the constraint vector contains the constraint functions evaluated on that trajectory at each constraint time, with bounds reported in the same order; interpolation between grids is by convex combination of the neighbouring grid points.',
 ['inputs','configurations'],'all costs, states, controls, grids up to the bound',
 'Fixed grids in the tests; the weights at the ends and the lookup between grids are properties of all grids.',
 ['src/IpoptWrapper/ImplicitOptimizer.cpp','src/Optimization_helpers/Optimization_helpers.cpp'],
 [('integral_weights, evaluate_cost, evaluate_penalty, evaluate_constraints','ImplicitOptimizer.cpp'),('compute_index_lambda_pair','Optimization_helpers.cpp')],['objective, constraints'])
p('C16','Optimizer answers always belong to the controls just supplied',
 'Whatever the order and subset of evaluation calls (objective, gradient, constraints, Jacobian) and whenever new controls arrive, each answer is the one for the controls most recently supplied; a simulation that fails for some controls is reported as a failed evaluation and never answered with values of an earlier control, and it does not spoil later evaluations.',
 ['histories','fault_sequences'],'all call sequences up to the bound with arbitrary control values and arbitrary success or failure of the simulation',
 'Stale caches show only for particular call orders with particular failures.',
 ['src/IpoptWrapper/ImplicitOptimizer.cpp','src/Optimization_helpers/ControlStateCache.cpp','src/Optimization_helpers/include/Cacheentry.hpp','src/IpoptWrapper/Wrapper.cpp'],
 [('new_x, caches','ImplicitOptimizer.cpp'),('refresh_cache','ControlStateCache.cpp')],['return values of the evaluation callbacks'])
p('C17','Unknowns, controls and constraints get disjoint complete index ranges',
 'In any network, the components get pairwise disjoint, contiguous index ranges that together cover exactly the total number of states, controls, constraints and cost terms, and evaluating the network writes every residual row exactly by its owner so that the residual and the Jacobian do not depend on the previous content of the result vector or on the order in which components are declared.',
 ['inputs','configurations'],'all mixes of component types and sizes up to the bound, arbitrary previous contents',
 'Needs arbitrary networks; tests use one.',
 ['src/Model/Networkproblem/Networkproblem.cpp',G+'Pipe.cpp',G+'Gasedge.cpp','src/Model/Networkproblem/Componentclasses/SimpleStatecomponent.cpp','src/Model/Networkproblem/Componentclasses/Statecomponent.cpp'],
 [('set_state_indices, set_control_indices, set_constraint_indices','Networkproblem.cpp')],['index ranges, residual'])
p('C18','Initial values, controls and bounds reach exactly their component',
 'Initial states, controls, and control or constraint bounds given in JSON are placed by id into exactly the slots of the component that carries the id, at every point or time and independent of the order of the entries; writing controls or states back gives the same values for the same ids. A missing, duplicated or unknown id, or data of the wrong size, is an error rather than a silent default.',
 ['inputs','configurations'],'all values, all orders and subsets of entries up to the bound',
 'Order dependence and missing entries are combinatorial.',
 ['src/Model/Networkproblem/Networkproblem.cpp','src/Model/Networkproblem/Componentclasses/SimpleControlcomponent.cpp','src/Auxillary/ComponentJsonHelpers/ComponentJsonHelpers.cpp',G+'Pipe.cpp'],
 [('set_initial_values, set_initial_controls, set_lower_bounds, save_controls_to_json','Networkproblem.cpp')],['state and control vectors'])
p('C19','Saved results are the simulated states',
 'The JSON written after a simulation contains for every component and every saved time exactly the values of the simulated state at that time, converted to the documented units, under the right id and variable, and nothing from another time step or component.',
 ['inputs','histories'],'all states at all saved times; all component types',
 'No runnable test inspects saved output of more than one time.',
 ['src/Auxillary/ComponentJsonHelpers/ComponentJsonHelpers.cpp','src/Model/Networkproblem/Networkproblem.cpp',G+'Pipe.cpp',G+'Shortcomponent.cpp',PW+'Powernode.cpp',PW+'StochasticPQnode.cpp','src/Model/Networkproblem/Gaspowerconnection/Gaspowerconnection.cpp'],
 [('json_save','component classes')],['output json'])
p('C20','A topology becomes exactly the described network, or is rejected',
 'Building a network from topology and boundary JSON yields one component per entry with its edges attached to the nodes it names in the declared direction and its boundary values attached by id; duplicate ids, edges to missing nodes, self-loops and boundary conditions that are missing or have no component are rejected with an exception, independent of the order of the entries.',
 ['inputs','configurations'],'all small topologies up to the bound of nodes and edges, all orders, all single omissions and duplications',
 'Tests contain a handful of hand-written nets; the combinations are exponential.',
 ['src/Model/Network/Net.cpp','src/Model/Network/Node.cpp','src/Model/Network/Edge.cpp','src/Model/Netfactory/Netfactory.cpp','src/Auxillary/aux_json/Aux_json.cpp'],
 [('Net constructor','Net.cpp'),('build_net, insert_second_json_in_topology_json','Netfactory.cpp')],['constructed Net'])
p('C21','Smoothing helper functions are smooth, exact outside, and bounded',
 'The smoothed absolute value equals the absolute value outside its smoothing zone, is even, nonnegative and continuously differentiable with the derivative the helper reports; the cubic smoothing polynomial matches value and derivative at both ends; Mathfunctions derivatives are exact and the circle/periodic helpers are consistent.',
 ['inputs'],'all real arguments and smoothing widths in the modelled ranges',
 'A continuity property is about all arguments near the seam.',
 ['src/Auxillary/Mathfunctions/Mathfunctions.cpp','src/Auxillary/Mathfunctions/include/Mathfunctions.hpp'],
 [('smooth_abs, Dsmooth_abs, Smoothing_Polynomial','Mathfunctions.cpp')],['return values'])
p('C22','Stochastic demand stays within its cut-off and depends only on its seed and parameters',
 'At every step of the stochastic demand, the realised active and reactive power deviates from the prescribed value by at most the configured cut-off (relative to it), follows the Ornstein-Uhlenbeck update with the configured drift, volatility and number of sub-steps for the drawn noise, and two evaluations of the same time step use the same realisation; unstable parameter combinations are rejected.',
 ['inputs','histories'],'all noise draws, prescribed powers and parameters, sub-steps up to the bound',
 'Noise draws are an adversarial input: tests see the few draws of one seed.',
 ['src/Auxillary/Stochastics/Stochastic.cpp','src/Auxillary/Stochastics/Normaldistribution.cpp',PW+'StochasticPQnode.cpp'],
 [('euler_maruyama, cut-off','Stochastic.cpp'),('TruncatedNormaldistribution','Normaldistribution.cpp'),('prepare_timestep','StochasticPQnode.cpp')],['power values used in the equations'])
p('C23','Units are converted exactly',
 'A value with a unit is converted to the base unit by exactly the factor of its SI prefix and unit (and offset for temperatures) for every supported unit and prefix, values convert linearly, and an unknown unit or a malformed value is rejected.',
 ['inputs'],'all values, all unit and prefix strings of the tables and every other short string',
 'There are hundreds of unit strings and the tests of the conversion do not run here.',
 ['src/Auxillary/unit_conversion/unit_conversion.cpp','src/Auxillary/unit_conversion/include/unit_conversion.hpp'],
 [('parse_to_si, prefix handling','unit_conversion.cpp')],['converted value'])
p('C24','Overwriting a JSON file never loses the data',
 'When an existing JSON file is overwritten, then at any crash or failing file operation the old content or the complete new content is still present on disk, a failure is reported to the caller, and after success the file contains exactly the new content and no stray backup.',
 ['crash_points','fault_sequences'],'every single failing or interrupted file operation of the routine, up to the bound',
 'Tests never make a file operation fail.',
 ['src/Auxillary/aux_json/Aux_json.cpp'],
 [('overwrite_json','Aux_json.cpp')],['directory contents'])
p('C25','Output never overwrites earlier output',
 'Preparing output creates a new file or directory whose name did not exist before, whatever names already exist, stays below the requested root, and gives up with an exception after the bounded number of attempts instead of reusing an existing one.',
 ['fault_sequences','configurations'],'every pattern of already existing names within the number of attempts',
 'Tests have one collision pattern.',
 ['src/Auxillary/Input_Output/Input_output.cpp'],
 [('unique_output_directory, create_new_output_file, prepare_output_file','Input_output.cpp')],['created paths, exceptions'])
p('C26','JSON preprocessing touches exactly what it should',
 'Schema key insertion, default supply and sorting by id change only the keys they are meant to change: user-given values are never overwritten by defaults, every required default is supplied, and component lists are ordered by id without losing or duplicating an entry.',
 ['inputs','configurations'],'all small documents up to the bound with every subset of keys present',
 'Presence patterns of keys are combinatorial.',
 ['src/Auxillary/json_schema/schema_key_insertion.cpp','src/Auxillary/json_schema/make_schema.cpp','src/Auxillary/json_schema/schema_generation.cpp','src/Auxillary/ComponentJsonHelpers/ComponentJsonHelpers.cpp'],
 [('insert_schema_key_into_data_json','schema_key_insertion.cpp'),('add_defaults_to_schema, add_required','make_schema.cpp')],['resulting JSON'])
p('C27','The optimizer converges to a KKT point',
 'If the optimization reports success, the returned controls satisfy the bounds and constraints and are a first-order optimal point.',
 ['inputs','configurations'],'all problems',
 'Convergence is a property of the algorithm.',
 ['src/IpoptWrapper/Adaptor.cpp','src/IpoptWrapper/Wrapper.cpp','src/Grazer/commands.cpp'],
 [('Ipopt call','Adaptor.cpp')],['returned controls'])
p('C28','Random noise has the configured distribution',
 'The generated noise is normally distributed with the configured mean and deviation, truncated to the configured interval, and different seeds give independent streams.',
 ['inputs'],'all seeds',
 'A distribution is not a property of a finite number of draws.',
 ['src/Auxillary/Stochastics/Normaldistribution.cpp'],
 [('Normaldistribution','Normaldistribution.cpp')],['noise values'])
p('C29','A simulation run writes exactly what it computed, or fails and leaves everything else alone',
 'Running grazer on a problem directory either succeeds, and then one new output directory holds an unchanged copy of the problem and the states of every time step of the configured problem (start time, step, boundary values, controls, initial state as given), or it ends with a failure exit code and no complete-looking results; the problem directory and all earlier output are never changed, whatever is missing, malformed or unsolvable, and whichever file operation fails or interrupts the program.',
 ['inputs','fault_sequences','crash_points'],'all numbers of the problem files of a small network, every single missing or malformed file and setting, every single failing or interrupted file operation',
 'No test runs the program as a whole; faults and missing settings are combinatorial.',
 ['src/Grazer/grazer.cpp','src/Grazer/commands.cpp','src/Grazer/helpers.cpp','src/Model/Problemlayer/Timeevolver.cpp','src/Auxillary/Input_Output/Input_output.cpp','src/Auxillary/aux_json/Aux_json.cpp'],
 [('grazer::run','commands.cpp'),('main','grazer.cpp'),('create_initial_controllers and the other helpers','helpers.cpp')],['exit code','files in the problem and output directory'])
p('C30','An optimization run poses the configured problem to the optimizer and saves its answer',
 'When the problem asks for optimization, the optimizer is offered one unknown per control and control time with exactly the configured bounds and start values, constraints at exactly the configured times with exactly the configured bounds, and at any controls the objective, its gradient, the constraint values and their sparse Jacobian of the simulated network; the controls the optimizer returns and the states that belong to them are what is saved, and a run for which there is no solution, no control or no usable bounds fails without results.',
 ['inputs','configurations','histories'],'all numbers of a small network, all small numbers of steps and control times, all settings of constraint frequency and control grid, all kinds of endings of the optimizer',
 'No test runs an optimization as a whole: Ipopt and its adaptor are not part of the built tests.',
 ['src/IpoptWrapper/Adaptor.cpp','src/IpoptWrapper/Wrapper.cpp','src/IpoptWrapper/ImplicitOptimizer.cpp','src/IpoptWrapper/ConstraintJacobian.cpp','src/IpoptWrapper/Initialvalues.cpp','src/Grazer/commands.cpp','src/Grazer/helpers.cpp','src/Model/Networkproblem/Networkproblem.cpp'],
 [('optimize, Adaptor, IpoptWrapper','Adaptor.cpp, Wrapper.cpp'),('ImplicitOptimizer','ImplicitOptimizer.cpp'),('grazer::run','commands.cpp')],['what the optimizer is told','saved controls and states','exit code'])
p('C31','The schema commands of the program write complete, usable schemas and keys, or fail without damage',
 'Generating the schemas for a problem directory writes five complete schemas that accept every problem the program runs (written with its sections) and reject components without id, ends, data, values of the right number and kind or parameters without default; it refuses a schema directory holding anything else without changing it, ends with a failure exit code if a file cannot be written completely, and generating again changes nothing. Inserting the schema keys adds a key leading to the schema to each problem file with a schema, changes nothing else, is idempotent, and the problem still gives the same results.',
 ['inputs','configurations','fault_sequences','crash_points'],'all numbers of a small network, every state of the schema and problem directory out of a list, every single failing or interrupted file operation',
 'The tests check single helper functions; the commands on a directory and faults are not covered.',
 ['src/Grazer/grazer.cpp','src/Auxillary/json_schema/schema_generation.cpp','src/Auxillary/json_schema/schema_key_insertion.cpp','src/Auxillary/json_schema/make_schema.cpp','src/Model/Componentfactory/Componentfactory.cpp','src/Model/Componentfactory/Full_factory.cpp','src/Auxillary/aux_json/Aux_json.cpp'],
 [('make_full_factory_schemas, make_schemas','schema_generation.cpp'),('insert_schema_key_into_data_jsons','schema_key_insertion.cpp'),('get_*_schema','Componentfactory.cpp')],['exit code','files in the schema and problem directory'])
H='helper_functions/'
p('C32','An extracted state restarts the simulation where it was',
 'extract_new_initial_condition turns the results of a run and a time into initial values that, when loaded, give for every component exactly the simulated state at that time, or at the first saved time after it, or at the last saved time if it is later than all of them; misuse, unreadable results and unknown component types are a failure that writes nothing.',
 ['inputs','histories'],'all states and saved times, all extraction times (saved ones included), all component types with a state',
 'The program has no tests; which step is taken depends on the position of the time relative to all saved ones.',
 [H+'extract_new_initial_condition.cpp',G+'Pipe.cpp',PW+'Powernode.cpp','src/Model/Networkproblem/Networkproblem.cpp'],
 [('main, gasinitial, powerinitial','extract_new_initial_condition.cpp'),('json_save, set_initial_values','component classes')],['initial value file','state vector after loading it'])
p('C33','Statistics over several runs are those of the values in the result files',
 'For a directory of result files of the same network, get_mean_sigma writes for every saved number the mean and the sample standard deviation over the files, get_quantiles a median and nested intervals of saved values that hold at least half, three quarters and nine tenths of the values (and not much more), and compute_reference_discrepance the largest deviation from the reference; whatever the number and order of the files, for every component, time and point, and components without a reference are refused.',
 ['inputs'],'all values of up to the bound many files, each listed kind of component',
 'The programs have no tests; numbers of files and orders of values are combinatorial.',
 [H+'get_mean_sigma.cpp',H+'get_quantiles.cpp',H+'compute_reference_discrepance.cpp'],
 [('new_mean, new_sigma','get_mean_sigma.cpp'),('make_quantiles','get_quantiles.cpp'),('add_gas_json_data, add_power_json_data','compute_reference_discrepance.cpp')],['written statistics','exit code'])
p('C34','Tables for plots hold exactly the saved numbers',
 'generate_printing_csv writes for any component of a results file the table (power node) or the two tables (gas edge) with one row per saved time and one column per quantity or point whose cells are exactly the saved numbers, and generate_control_printing_csv does so for saved controls; unknown ids, unknown types, ids that lead out of the directory and values that are not numbers are refused and leave no table.',
 ['inputs','configurations'],'all saved numbers of networks of all component types in three declaration orders, each component',
 'The programs have no tests.',
 [H+'generate_printing_csv.cpp',H+'generate_control_printing_csv.cpp','src/Auxillary/Input_Output/Input_output.cpp'],
 [('write_gas_csv, write_power_csv','generate_printing_csv.cpp'),('main','generate_control_printing_csv.cpp')],['csv files','exit code'])
p('C35','Editing programs change exactly what they are for, or fail and change nothing',
 'change_inflow scales constant inflows in proportion to the given sum, increase_pressure adds to every initial pressure, include_seed_in_boundaryvalues takes over the seeds of a results file and remove_seed_from_boundaryvalues undoes that, move_to_category moves one component in every file that has it, normalize_jsons only changes the layout, insert_positions copies positions by id, construct_gaspowerconnection adds one connection, stringify_values turns values to strings of nine decimals; everything else in the files is kept, and where the edit is impossible (wrong arguments, missing or malformed files, inflow that is not constant or zero, values that are not numbers, missing seeds, ids or positions) they fail and leave every file as it was.',
 ['inputs','configurations'],'all numbers in small files, every presence pattern of components in the files, every listed misuse',
 'The programs have no tests and overwrite the problem files in place.',
 [H+x+'.cpp' for x in ('change_inflow','increase_pressure','include_seed_in_boundaryvalues','remove_seed_from_boundaryvalues','move_to_category','normalize_jsons','insert_positions','construct_gaspowerconnection','stringify_value_json')],
 [('main','each program')],['files of the problem','exit code'])
p('C36','Drawings show every component at its place and in the colour of its value',
 'draw_gaslib_graph and draw_power_graph draw every node once with its label and the colour of its type at its scaled place and every connection once; draw_heatmap_gaslib and draw_heatmap_power also colour each component by its greatest saved value between the smallest and the greatest one, with a legend; wrong arguments, unreadable or incomplete files, missing results and an output that cannot be written are a failure.',
 ['inputs','configurations'],'all places, all values, all listed misuses',
 'The programs have no tests.',
 [H+x+'.cpp' for x in ('draw_gaslib_graph','draw_power_graph','draw_heatmap_gaslib','draw_heatmap_power')],
 [('rgb_color, extract_min_max_values, main','draw_heatmap_gaslib.cpp and draw_heatmap_power.cpp'),('main','draw_gaslib_graph.cpp and draw_power_graph.cpp')],['the drawing','exit code'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
