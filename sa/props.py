"""The properties: text (properties.jsonl is generated from it), the code each one depends on, and its rules.

select: prefixes of qualified names ("-" excludes); every function, class declaration and module level below them is an
obligation of the property.  rules: names of rules in sa/rules.py that apply to the same selection.
"""

G = "spins.goos."
S = "spins.goos_sim.maxwell."
F = "spins.fdfd_tools."
V = "spins.fdfd_solvers."
L = "spins.gridlock."
I = "spins.invdes."
P = "spins.invdes.problem."
W = "spins.invdes.problem_graph."

PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, select, rules=(), state=(), observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, select=list(select), rules=list(rules), state=list(state), observe=list(observe)))


prop("C01", "Goos math, array and cast nodes return exact values and exact gradients",
     "For every goos arithmetic, reduction, slicing, indexing and cast node, the value returned is the documented function of "
     "its inputs, and the gradient returned for each input is the incoming gradient multiplied by the exact derivative of that "
     "value with respect to that input, in the order of the inputs. This holds for real and complex data, scalars and arrays, "
     "and any number of inputs; inputs that do not influence the value receive a zero gradient.",
     ["inputs", "programs"], "all node types, all input arrays (real/complex, scalar/array), all numbers of operands",
     "Unit tests differentiate a few small arrays per node; sign, factor, index, branch and dtype errors for other shapes, operand "
     "counts, exponents or complex values are not reached.",
     ["spins/goos/math.py", "spins/goos/array.py", "spins/goos/generic.py", "spins/goos/flows.py"],
     [("eval/grad pair of each node class", "spins/goos/math.py Sum, Product, Power, AbsoluteValue, DotProduct, Norm, Max, Sigmoid, Slice, Conjugate"),
      ("operator overloads building nodes", "spins/goos/math.py Function.__add__ .. __pow__"),
      ("array flow indexing", "spins/goos/array.py IndexOp, ArrayFlow")],
     [G + "math", G + "array", G + "generic", G + "flows", G + "util.make_slice"])

prop("C02", "Evaluating goos nodes gives each node's value for any graph and schedule",
     "Evaluating any set of nodes of any directed acyclic problem graph returns, in the order asked for, the value of each "
     "node's function applied to the values of its inputs in input order, with override values taking precedence. The "
     "outcome is the same whatever subset is requested together, whichever nodes are marked for parallel execution and "
     "however their threads are scheduled.",
     ["inputs", "schedules", "programs"], "all DAGs, all sets of requested nodes, all assignments of the parallel mark, all thread schedules",
     "Tests evaluate a few fixed small graphs; ordering, sharing and parallel-block errors need particular topologies.",
     ["spins/goos/graph_executor.py", "spins/goos/optplan/optplan.py"],
     [("topological order with affinity", "spins/goos/graph_executor.py _create_computational_graph, _top_sort_affinity"),
      ("block evaluation, thread pool for heavy nodes", "spins/goos/graph_executor.py _eval_fun_vals"),
      ("plan level evaluation", "spins/goos/optplan/optplan.py eval_nodes, eval_node, ProblemGraphNode.get")],
     [G + "graph_executor", G + "optplan.optplan.OptimizationPlan.eval_node", G + "optplan.optplan.OptimizationPlan.eval_nodes",
      G + "optplan.optplan.ProblemGraphNode", G + "optplan.optplan.OptimizationPlan.add_node"])

prop("C03", "Goos graph gradients sum every path from the target exactly once",
     "The gradient of a scalar target with respect to each requested node equals the sum, over all paths of the graph, of the "
     "products of local derivatives; a node that does not influence the target gets a zero gradient of the right kind. "
     "Combining contributions adds them field by field and never alters a contribution that another node still uses.",
     ["inputs", "programs", "schedules"], "all DAGs including shared sub-expressions and repeated inputs, all targets and requested nodes",
     "Tests use graphs with one or two sharing patterns; dropped, doubled or aliased contributions appear only for particular "
     "fan-out, flow types or constant inputs.",
     ["spins/goos/graph_executor.py", "spins/goos/flows.py", "spins/goos/array.py", "spins/goos/optplan/optplan.py"],
     [("reverse accumulation", "spins/goos/graph_executor.py eval_grad"),
      ("addition of flow gradients", "spins/goos/flows.py Flow.Grad.__iadd__, spins/goos/array.py ArrayFlow.Grad.__iadd__"),
      ("plan level gradient", "spins/goos/optplan/optplan.py eval_grad, ProblemGraphNode.get_grad")],
     [G + "graph_executor", G + "flows", G + "array", G + "optplan.optplan.OptimizationPlan.eval_grad",
      G + "optplan.optplan.ProblemGraphNode"])

prop("C04", "Constant and frozen marks never hide a dependence",
     "A node's output is treated as constant only if nothing it is computed from can change, and treated as frozen only while "
     "the variables behind it are frozen; thawing or changing a variable makes every dependent node react again. Marking, "
     "freezing and thawing change which nodes are re-evaluated and differentiated, never the values obtained.",
     ["inputs", "histories", "programs"], "all graphs, all sequences of freeze/thaw/set operations",
     "Tests check the flags of single nodes; combinations of node type, mixed constant inputs and freeze history are not enumerated.",
     ["spins/goos/flows.py", "spins/goos/array.py", "spins/goos/math.py", "spins/goos/shapes.py", "spins/goos/graph_executor.py"],
     [("flag containers", "spins/goos/flows.py FlowMeta, ConstFlags; spins/goos/array.py ArrayFlow.ConstFlags"),
      ("propagation per node", "eval_const_flags of every node class"),
      ("variable state", "spins/goos/optplan/optplan.py freeze_var, thaw_var, get_thawed_vars")],
     [G + "flows", G + "array.ArrayFlow", G + "math.Constant", G + "math.Variable", G + "math.FreezeVariable", G + "math.ThawVariable",
      G + "shapes", G + "compat.OldStyleParametrization", G + "graph_executor._eval_fun_vals", G + "graph_executor.eval_fun",
      G + "graph_executor.eval_grad",
      G + "optplan.optplan.OptimizationPlan.freeze_var", G + "optplan.optplan.OptimizationPlan.thaw_var",
      G + "optplan.optplan.OptimizationPlan.get_thawed_vars", G + "optplan.optplan.OptimizationPlan.eval_nodes",
      G + "optplan.optplan.OptimizationPlan.eval_grad", G + "optplan.optplan.ProblemGraphNode", G + "math.Function"])

prop("C05", "Design variables change only inside actions and only as requested",
     "A plan's variable values, bounds and frozen state, and its event log can be modified only while an "
     "action of that plan is running; any attempt outside is rejected and leaves the plan unchanged. Inside an action exactly "
     "the requested variable changes, with the value, bounds or mark that was given, and variables report what was last set.",
     ["histories", "programs"], "all sequences of plan operations inside and outside of actions",
     "Tests exercise one or two rejected calls; every modifier and every order of operations is not tried.",
     ["spins/goos/optplan/optplan.py", "spins/goos/math.py"],
     [("guard decorator on every modifier", "spins/goos/optplan/optplan.py _requires_action"),
      ("variable tables", "spins/goos/optplan/optplan.py set_var_value, set_var_bounds, freeze_var, thaw_var"),
      ("variable actions", "spins/goos/math.py SetVariable, FreezeVariable, ThawVariable")],
     [G + "optplan.optplan", G + "math.Variable", G + "math.SetVariable", G + "math.FreezeVariable", G + "math.ThawVariable"],
     ["guarded_modifiers"])

prop("C06", "Saving and loading a goos plan reproduces the same problem",
     "Any plan that can be built can be written to a file and read back, and the plan read back has the same nodes with the "
     "same types, names, parameters and connections, in the same action order, so that it evaluates and runs identically. "
     "Malformed input - unknown node types, duplicate names, dangling references, incompatible versions - is rejected.",
     ["programs", "inputs"], "all node graphs and parameter values (numbers, complex, arrays, nested models, optional and list fields)",
     "Tests round-trip a few plans; each field type and nesting has its own conversion branch.",
     ["spins/goos/optplan/optplan.py", "spins/goos/optplan/schema.py", "spins/goos/optplan/schema_optplan.py",
      "spins/goos/optplan/schema_types.py", "spins/goos/optplan/schema_utils.py"],
     [("schema derived from constructor annotations", "spins/goos/optplan/schema.py construct_schema, _convert_type_to_schematics"),
      ("writing: references by name", "spins/goos/optplan/schema.py dumps, _extract_nodes, _replace_ref_nodes_with_names"),
      ("reading: names to nodes", "spins/goos/optplan/schema.py loads; spins/goos/optplan/optplan.py load, _replace_node_with_schema"),
      ("value types", "spins/goos/optplan/schema_types.py")],
     [G + "optplan.schema", G + "optplan.schema_optplan", G + "optplan.schema_types", G + "optplan.schema_utils",
      G + "common_schemas", G + "optplan.optplan._replace_node_with_schema", G + "optplan.optplan.ProblemGraphNodeMeta",
      G + "optplan.optplan.ProblemGraphNode", G + "optplan.optplan.OptimizationPlan.save", G + "optplan.optplan.OptimizationPlan.load",
      G + "optplan.optplan.OptimizationPlan.add_node", G + "optplan.optplan.OptimizationPlan.add_action",
      G + "optplan.optplan.OptimizationPlan.__init__", G + "generic", G + "material",
      "@schema:" + G])

prop("C07", "Goos logs and checkpoints restore the exact state of a run",
     "Whatever point an optimization run is interrupted at, restoring a checkpoint written there gives back the recorded value, "
     "bounds and frozen mark of every variable, the position in the action list and the log counter; resuming then continues "
     "the remaining actions in order. Log entries are numbered consecutively, none is overwritten, and each records the "
     "monitor values and variable values at that moment.",
     ["crash_points", "histories"], "all interruption points, all action lists and variable tables",
     "Tests write and read one checkpoint of a small plan; other interruption points and histories are not visited.",
     ["spins/goos/optplan/optplan.py", "spins/goos/optimize.py", "spins/goos/generic.py"],
     [("state dictionary writer and reader", "spins/goos/optplan/optplan.py get_state_dict, write_checkpoint, read_checkpoint"),
      ("event log", "spins/goos/optplan/optplan.py write_event"),
      ("action loop", "spins/goos/optplan/optplan.py run, resume; spins/goos/optimize.py ScipyOptimizer.resume")],
     [G + "optplan.optplan.OptimizationPlan", G + "optimize.ScipyOptimizer", G + "generic.LogPrint", G + "optplan.optplan._requires_action",
      G + "math.SetVariable"])

prop("C08", "The goos optimizer minimizes the stated objective over the thawed variables",
     "The optimizer presents to the numerical routine exactly the stated objective, each stated constraint with its own value "
     "and derivative, and the bounds of each variable, packed in one vector in a consistent order; after every step and at the "
     "end each variable holds its own part of that vector in its own shape. Maximizing is minimizing the negated objective, "
     "and frozen variables keep their values.",
     ["inputs", "programs", "configurations"], "all objectives, numbers and shapes of variables, numbers of constraints, bounds and options",
     "Tests optimize one or two variables with at most one constraint of a kind.",
     ["spins/goos/optimize.py", "spins/goos/optplan/optplan.py"],
     [("packing and unpacking of variables", "spins/goos/optimize.py ScipyOptimizer.run"),
      ("constraint wrappers", "spins/goos/optimize.py ScipyOptimizer.run"),
      ("entry points", "spins/goos/optimize.py scipy_minimize, scipy_maximize")],
     [G + "optimize", G + "optplan.optplan.OptimizationPlan.set_var_value", G + "optplan.optplan.OptimizationPlan.get_var_value",
      G + "optplan.optplan.OptimizationPlan.get_var_bounds", G + "optplan.optplan.OptimizationPlan.set_var_bounds",
      G + "optplan.optplan.OptimizationPlan.get_thawed_vars", G + "optplan.optplan.OptimizationPlan.eval_grad"], ["late_binding"])

prop("C09", "Goos shapes carry the right geometry and pass gradients to their inputs",
     "Every shape node produces the position, extents, orientation, materials and pixel data given by its inputs and options; "
     "cell and edge coordinates of pixelated shapes are centred, evenly spaced by the pixel size and consistent with the pixel "
     "array; grouping and translating shapes keep all members and move them by exactly the offset. The gradients returned are "
     "the exact derivatives of these outputs with respect to each input.",
     ["inputs", "programs"], "all shapes, positions, extents, pixel sizes, groupings and offsets",
     "Tests build a handful of shapes; mismatched coordinates, order or gradient routing need other sizes and groupings.",
     ["spins/goos/shapes.py", "spins/goos/compat.py", "spins/goos/material.py"],
     [("shape nodes", "spins/goos/shapes.py Cuboid, Cylinder, Sphere, PixelatedContShape, GroupShape, TranslateShape"),
      ("pixel coordinates", "spins/goos/shapes.py PixelatedContShapeFlow"),
      ("parametrized shapes", "spins/goos/shapes.py cubic_param_shape; spins/goos/compat.py")],
     [G + "shapes", G + "compat", G + "array", G + "flows"])

prop("C10", "Grating edges, rasterization and feature limits agree",
     "A grating described by edge positions is rasterized to exactly the area fraction each cell is covered by, its derivative "
     "with respect to each edge is exact, and converting a pixelated grating to edges minimizes the stated misfit among gratings "
     "respecting the minimum feature size. The feature-size constraint value of every pair of neighbouring edges is "
     "non-positive precisely when their distance respects the limit, with the matching derivative.",
     ["inputs"], "all edge vectors, grid spacings, feature limits and etch depths",
     "Tests use a few edges on one grid; boundary alignment, ordering and sign errors need other positions.",
     ["spins/goos/grating.py", "spins/invdes/problem/grating.py", "spins/invdes/problem_graph/grating.py",
      "spins/invdes/parametrization/grating_parametrization.py"],
     [("pixelated grating node", "spins/goos/grating.py PixelatedGrating"),
      ("dynamic programme for edges", "spins/goos/grating.py _get_general_edge_loc_dp; spins/invdes/problem_graph/grating.py _get_edge_loc_dp"),
      ("multi-etch parametrization and constraints", "spins/goos/grating.py MultiEtchEdgeParametrization, EdgeLocConstraint"),
      ("feature constraint", "spins/invdes/problem/grating.py GratingFeatureConstraint")],
     [G + "grating", P + "grating", W + "grating", I + "parametrization.grating_parametrization", L + "float_raster"])

prop("C11", "Rendering turns shapes into permittivity linearly and exactly",
     "Rendering a set of shapes onto a simulation grid assigns each cell and field component the material of the shapes covering "
     "it, weighting partially covered cells by the covered fraction, with later shapes drawn over earlier ones and the background "
     "elsewhere. The gradient passed back to each shape is the exact transpose of that map, for real and complex permittivity "
     "and for every supported shape type.",
     ["inputs", "programs"], "all shape lists, positions, extents and grids",
     "Tests render single shapes on tiny grids; index and weighting errors show up only for other alignments.",
     ["spins/goos_sim/maxwell/render.py", "spins/goos_sim/maxwell/simspace.py", "spins/goos_sim/maxwell/__init__.py"],
     [("rendering node", "spins/goos_sim/maxwell/render.py RenderShape, _create_geometry"),
      ("shape implementations", "spins/goos_sim/maxwell/render.py *FlowImpl"),
      ("interpolation matrices", "spins/goos_sim/maxwell/render.py get_rendering_matrix, get_rendering_matrix_1d"),
      ("grid construction", "spins/goos_sim/maxwell/simspace.py create_edge_coords, create_region_slices")],
     [S + "render", S + "simspace", "spins.goos_sim.maxwell.register", G + "shapes.PixelatedContShapeFlow", L + "float_raster"])

prop("C12", "A goos simulation node solves the stated problem and its exact adjoint",
     "A simulation node computes the fields of the given permittivity, wavelength, sources, boundary layers and Bloch vector "
     "with the chosen solver, and each requested output is evaluated from those fields in the order requested. Its gradient is "
     "the exact adjoint derivative of the outputs with respect to permittivity, obtained from the adjoint of the same system.",
     ["inputs", "configurations", "programs"], "all permittivities, source and output combinations, wavelengths, boundary layers, solvers",
     "Tests run one or two small simulations; other source/output/solver combinations and multi-output gradients are not run.",
     ["spins/goos_sim/maxwell/simulate.py", "spins/goos_sim/maxwell/simspace.py"],
     [("simulation node", "spins/goos_sim/maxwell/simulate.py SimulateNode, SimulateEigNode"),
      ("source and output implementations", "spins/goos_sim/maxwell/simulate.py *Impl"),
      ("dispatch by type", "spins/goos_sim/maxwell/simulate.py _create_solver, _create_outputs, _create_sources")],
     [S + "simulate", S + "simspace", "spins.goos_sim.maxwell.register", "spins.goos_sim.maxwell"])

prop("C13", "FDFD operators discretize Maxwell's equations consistently",
     "The curl, averaging, shift, Poynting and full wave-equation operators implement the documented Yee discretization for any "
     "grid, spacing, material, frequency, Bloch phase and conducting mask: electric-to-magnetic operators use forward "
     "differences and magnetic-to-electric operators backward differences with their own spacings, matrix and functional forms "
     "agree, and the field conversions are consistent with the wave equation.",
     ["inputs", "configurations"], "all grid shapes, spacings, materials, frequencies, Bloch vectors and masks",
     "Tests apply operators to a few random fields on small uniform grids.",
     ["spins/fdfd_tools/operators.py", "spins/fdfd_tools/functional.py"],
     [("difference and shift operators", "spins/fdfd_tools/operators.py deriv_forward, deriv_back, rotation_bloch, shift_with_mirror"),
      ("curl and wave operators", "spins/fdfd_tools/operators.py curl_e, curl_h, e_full, h_full, eh_full"),
      ("functional counterparts", "spins/fdfd_tools/functional.py")],
     [F + "operators", F + "functional", F + "vectorization"])

prop("C14", "Field vectors and grids convert losslessly and absorbers only stretch",
     "Flattening a vector field and unflattening it returns the same field, with components in x, y, z order and the same element "
     "order used by every operator. Grid construction yields the documented spacings and edges, and absorbing layers multiply "
     "the spacings within the stated number of cells at the stated ends by the documented complex stretching and leave all other "
     "spacings and the caller's grid unchanged.",
     ["inputs", "configurations"], "all field shapes, grids, layer thicknesses, frequencies and stretching functions",
     "Tests check a few shapes; order and boundary-index errors show only on non-cubic grids or unusual layers.",
     ["spins/fdfd_tools/vectorization.py", "spins/fdfd_tools/grid.py"],
     [("vec/unvec", "spins/fdfd_tools/vectorization.py"),
      ("stretching", "spins/fdfd_tools/grid.py stretch_with_scpml, apply_scpml, uniform_grid_scpml, prepare_s_function"),
      ("grid generation", "spins/fdfd_tools/grid.py make_nonuniform_grid, generate_periodic_dx")],
     [F + "vectorization", F + "grid", F + "types"])

prop("C15", "Every field solver solves the same system, and its exact adjoint on request",
     "For any materials, sources, spacings, boundaries and Bloch phases, each field solver returns the solution of the same "
     "preconditioned linear system built from exactly those inputs, and in adjoint mode the solution of the conjugate-transposed "
     "system. Running solvers in worker processes or on a remote service changes neither the system nor which request a "
     "result belongs to, and failures are reported instead of being returned as fields.",
     ["inputs", "schedules", "configurations", "fault_sequences"], "all inputs, forward and adjoint, all solver back ends, all request interleavings",
     "Tests solve a few systems with the direct solver; adjoint scaling, remote and worker paths are not run.",
     ["spins/fdfd_solvers/local_matrix_solvers.py", "spins/fdfd_solvers/maxwell.py", "spins/fdfd_tools/solvers.py"],
     [("matrix assembly and adjoint", "spins/fdfd_solvers/local_matrix_solvers.py LocalMatrixSolver.solve; spins/fdfd_tools/solvers.py generic"),
      ("worker processes", "spins/fdfd_solvers/local_matrix_solvers.py MultiprocessingSolver"),
      ("remote solver protocol", "spins/fdfd_solvers/maxwell.py")],
     [V + "local_matrix_solvers", V + "maxwell", F + "solvers", F + "operators.e_full", F + "operators.e_full_preconditioners"])

prop("C16", "Mode, dipole and beam sources and overlaps match the documented fields",
     "Waveguide mode solving, mode sources, overlaps, dipoles, plane waves and Gaussian beams are computed for the requested "
     "axis, polarity, slice, mode number, frequency, polarization and power: modes are normalized to the requested power, sources "
     "radiate in the requested direction only, fields are placed on exactly the requested slices in the right component order, "
     "and overlaps weight the field consistently with the mode.",
     ["inputs", "configurations"], "all axes, polarities, slices, mode numbers, frequencies, angles and powers",
     "Tests cover one waveguide along a few axes and one beam direction.",
     ["spins/fdfd_solvers/waveguide_mode.py", "spins/fdfd_tools/waveguide.py", "spins/fdfd_tools/waveguide_mode.py",
      "spins/fdfd_tools/free_space_sources.py", "spins/fdfd_solvers/dipole.py", "spins/fdfd_solvers/phc_mode_solver.py"],
     [("mode operators", "spins/fdfd_tools/waveguide.py operator, normalized_fields"),
      ("mode solving and placement", "spins/fdfd_solvers/waveguide_mode.py solve_waveguide_mode_2d, solve_waveguide_mode"),
      ("sources and overlaps", "spins/fdfd_solvers/waveguide_mode.py compute_source, compute_overlap_e, build_*"),
      ("free-space sources", "spins/fdfd_tools/free_space_sources.py")],
     [V + "waveguide_mode", V + "dipole", V + "phc_mode_solver", F + "waveguide", F + "waveguide_mode", F + "free_space_sources"])

prop("C17", "Drawing on a grid yields exact area-weighted material and coordinates",
     "Drawing polygons, cuboids, cylinders and slabs and rendering them gives each cell and field component the material average "
     "weighted by the exact covered area and height, with later drawings over earlier ones; areas outside the grid wrap or are "
     "cut as the periodicity of each axis says. Cell sizes, centres, shifted coordinates, index/position conversions and slices "
     "are consistent with the edges of the grid, and invalid requests are rejected.",
     ["inputs", "histories", "configurations"], "all grids, shifts, polygons, drawing orders and slices",
     "Tests draw a few boxes on uniform grids; overlap order, clipping and shifted components are barely varied.",
     ["spins/gridlock/grid.py", "spins/gridlock/float_raster.py", "spins/gridlock/direction.py"],
     [("rasterization", "spins/gridlock/float_raster.py raster_1D, raster_2D"),
      ("drawing and layers", "spins/gridlock/grid.py draw_*, compute_layers, remove_intersection, render_polygon, render"),
      ("coordinates", "spins/gridlock/grid.py shifted_*, ind2pos, pos2ind, get_slice")],
     [L + "grid", L + "float_raster", L + "direction", L + "_helpers", L + "error", L + "grid_type"])

prop("C18", "Selection matrices map design pixels to the right field components",
     "The matrix mapping a design vector to permittivity gives every design cell's value to exactly the Yee components inside that "
     "cell, averaging neighbours where the documented reduction says so, with consistent element order, bounds, symmetry and "
     "periodicity; its transpose collects exactly the same components for gradients.",
     ["inputs", "configurations"], "all grid sizes, design areas, symmetries, periodicities and reduction factors",
     "Tests compare one or two small layouts.",
     ["spins/gridlock/selection_matrix.py", "spins/invdes/problem/selection_matrix.py"],
     [("lattice builders", "spins/gridlock/selection_matrix.py direct_lattice, direct_lattice_to_yee_grid, create_selection_matrix"),
      ("design bounds", "spins/gridlock/selection_matrix.py calculate_design_bounds"),
      ("averaging", "average_2xFarEdge")],
     [L + "selection_matrix", P + "selection_matrix"])

prop("C19", "Objective functions evaluate and differentiate exactly under composition",
     "For every objective expression built with sums, products, powers, absolute values, indicator, comparison and soft-max "
     "functions, constants, parameters and slices, the value is that expression and the gradient is its exact derivative at every "
     "design vector; the operators build precisely the expression written. Constraints are reported in the order given, "
     "equality before inequality, with their own gradients.",
     ["inputs", "programs"], "all expressions, all design vectors, parameter values and numbers of operands",
     "Tests differentiate a few small expressions numerically.",
     ["spins/invdes/problem/objective.py", "spins/invdes/problem_graph/creator_function.py"],
     [("eval/grad of each function", "spins/invdes/problem/objective.py"),
      ("operators", "spins/invdes/problem/objective.py OptimizationFunction.__add__ .. __neg__"),
      ("problem container", "spins/invdes/problem/objective.py OptimizationProblem")],
     [P + "objective", W + "creator_function"])

prop("C20", "The invdes graph executor agrees with direct recursive evaluation",
     "Evaluating or differentiating any graph of optimization functions gives the same numbers as evaluating every function "
     "recursively on its inputs and applying the chain rule over all paths, whichever functions are marked as heavy, however they "
     "are scheduled in parallel, and whether functions use the old or new interface.",
     ["inputs", "programs", "schedules"], "all function graphs, heavy markings and worker schedules",
     "Tests evaluate a few diamond graphs.",
     ["spins/invdes/problem/graph_executor.py", "spins/invdes/problem/objective.py"],
     [("graph construction and ordering", "spins/invdes/problem/graph_executor.py _create_computational_graph, _top_sort_affinity"),
      ("evaluation and reverse accumulation", "spins/invdes/problem/graph_executor.py eval_fun, eval_grad"),
      ("parallel helpers", "spins/invdes/problem/objective.py calculate_objective_parallel, calculate_gradient_parallel")],
     [P + "graph_executor", P + "objective.OptimizationFunction", P + "objective.calculate_objective_parallel",
      P + "objective.calculate_gradient_parallel", P + "objective.OptimizationProblem"])

prop("C21", "Cached simulations and adjoint gradients always match the current design",
     "An electromagnetic objective evaluates the fields of exactly the design it is given: a cached field is used only for the "
     "very same design, also after many different designs, after in-place changes by the caller and under concurrent calls. The "
     "gradient is the adjoint derivative of the objective through the permittivity, including the explicit dependence on the design.",
     ["inputs", "histories", "schedules"], "all sequences of designs, cache sizes, concurrent evaluations and objectives",
     "Tests evaluate one or two designs in sequence; eviction, aliasing and concurrency are not exercised.",
     ["spins/invdes/problem/simulation.py", "spins/invdes/problem/emobjective.py", "spins/invdes/problem_graph/creator_em.py"],
     [("design-keyed cache under a lock", "spins/invdes/problem/simulation.py FdfdSimulation.simulate; creator_em.py FdfdSimulation"),
      ("adjoint gradient", "spins/invdes/problem/emobjective.py EmObjective.calculate_df_dz; creator_em.py FdfdSimulation.grad"),
      ("overlap objectives", "spins/invdes/problem/emobjective.py *Overlap*")],
     [P + "simulation", P + "emobjective", W + "creator_em.FdfdSimulation", W + "creator_em.Epsilon", W + "creator_em.OverlapFunction",
      W + "creator_em.DiffEpsilon"])

prop("C22", "Parametrizations stay in bounds and restore exactly what was saved",
     "For every parametrization, encoding and decoding, flattening to a vector and back, and serializing and deserializing return "
     "the same parameters, in composites in a consistent order; projection and reported bounds agree and keep parameters inside "
     "them. The reported gradient is the exact derivative of the structure with respect to the parameter vector.",
     ["inputs", "histories"], "all parameter vectors, designs, symmetries, composites and sharpening strengths",
     "Tests check one or two vectors per class.",
     ["spins/invdes/parametrization/parametrization.py", "spins/invdes/parametrization/composite_parametrization.py",
      "spins/invdes/parametrization/grating_parametrization.py", "spins/goos/compat.py", "spins/goos/grating.py"],
     [("interface implementations", "spins/invdes/parametrization/parametrization.py DirectParam, CubicParam, HermiteParam"),
      ("composition", "spins/invdes/parametrization/composite_parametrization.py"),
      ("goos adapter", "spins/goos/compat.py OldStyleParametrization")],
     [I + "parametrization.parametrization", I + "parametrization.composite_parametrization", I + "parametrization.grating_parametrization",
      G + "compat.OldStyleParametrization", G + "grating.MultiEtchEdgeParametrization", P + "slack_optimization_problem.SlackParam"],
     [])

prop("C23", "Cubic and level-set interpolation reproduce the documented surfaces",
     "The interpolation matrices for cubic and Hermite level-set designs give, at every fine-grid point, the bicubic surface "
     "through the control values (and slopes), with the requested symmetry, periodicity, fixed borders and derivative order; "
     "each fine point uses the control cell that contains it.",
     ["inputs", "configurations"], "all coarse and fine grids, symmetries and periodicities",
     "Tests compare a few small grids.",
     ["spins/invdes/parametrization/cubic_utils.py", "spins/invdes/parametrization/parametrization.py"],
     [("cell lookup", "spins/invdes/parametrization/cubic_utils.py floor2vector, floor2vector_rem"),
      ("matrices", "spins/invdes/parametrization/cubic_utils.py CubicMatrices, Make*, idxdydxy_matrix"),
      ("symmetry and periodicity", "spins/invdes/parametrization/cubic_utils.py symmetry_matrix*, periodic_matrix*")],
     [I + "parametrization.cubic_utils", I + "parametrization.parametrization.CubicParam", I + "parametrization.parametrization.HermiteParam"])

prop("C24", "Optimizers respect bounds and constraints and solve the stated problem",
     "Every optimizer minimizes the given objective with its own gradient, keeps the parametrization inside its bounds, presents "
     "each equality and inequality constraint with its own value, sign and derivative, and leaves the parametrization at the "
     "reported result; slack reformulations are equivalent to the original constrained problem. Update rules follow their "
     "documented formulas, stop at the iteration limit and notify the callback at each step.",
     ["inputs", "histories", "configurations"], "all objectives, numbers of constraints, bounds, options and iteration counts",
     "Tests minimize a few quadratic problems, mostly with one constraint.",
     ["spins/invdes/optimization/scipy_optimizer.py", "spins/invdes/optimization/constrained_optimizer.py",
      "spins/invdes/optimization/gradient_descent.py", "spins/invdes/problem/slack_optimization_problem.py"],
     [("scipy bridge", "spins/invdes/optimization/scipy_optimizer.py ScipyOptimizer.__call__"),
      ("penalty and augmented Lagrangian", "spins/invdes/optimization/constrained_optimizer.py"),
      ("descent rules", "spins/invdes/optimization/gradient_descent.py"),
      ("slack variables", "spins/invdes/problem/slack_optimization_problem.py")],
     [I + "optimization", P + "slack_optimization_problem", P + "objective.OptimizationProblem"], ["late_binding"])

prop("C25", "A workspace runs every transformation once and can be restored exactly",
     "Running a plan executes its transformations in order, each starting from the parameters its predecessor left, creates each "
     "described object once and shares it wherever it is referenced, and writes consecutively numbered log entries with the "
     "transformation, event, monitor values and serialized parameters. After an interruption, restoring from the log gives back "
     "the latest recorded parameters and continues with the right transformation and log number.",
     ["histories", "crash_points", "programs"], "all plans, interruption points and sharing patterns",
     "Tests run one small plan and do not interrupt it at different points.",
     ["spins/invdes/problem_graph/workspace.py", "spins/invdes/problem_graph/solver.py", "spins/invdes/problem_graph/creator_opt.py",
      "spins/invdes/problem_graph/creator_monitor.py"],
     [("object table and run loop", "spins/invdes/problem_graph/workspace.py Workspace"),
      ("log files", "spins/invdes/problem_graph/workspace.py Logger, get_latest_log_step"),
      ("restore", "spins/invdes/problem_graph/solver.py restore_workspace; workspace.py _set_parameters"),
      ("transformations", "spins/invdes/problem_graph/creator_opt.py")],
     [W + "workspace", W + "solver", W + "creator_opt", W + "creator_monitor"])

prop("C26", "Optimization plan files round-trip and reject malformed plans",
     "Writing an optimization plan and reading it back gives an equal plan: same nodes, types, names, field values and shared "
     "references, with every unnamed node given a unique name that no other node has. Plans with duplicate names, dangling or "
     "wrongly typed references, unknown types or incompatible versions are rejected, and plan descriptions combine with "
     "arithmetic operators into exactly the expression written.",
     ["programs", "inputs"], "all plans, sharing structures, names and field values",
     "Tests round-trip a few plans; each field type and nesting takes its own branch.",
     ["spins/invdes/problem_graph/optplan/io.py", "spins/invdes/problem_graph/optplan/optplan.py",
      "spins/invdes/problem_graph/schema_utils.py", "spins/invdes/problem_graph/optplan/schema_function.py"],
     [("writer and reader", "spins/invdes/problem_graph/optplan/io.py dumps, loads"),
      ("naming", "spins/invdes/problem_graph/optplan/io.py autoname, generate_name"),
      ("validation", "spins/invdes/problem_graph/optplan/io.py validate, validate_references"),
      ("field types", "spins/invdes/problem_graph/optplan/optplan.py"),
      ("expression operators", "spins/invdes/problem_graph/optplan/optplan.py Function")],
     [W + "optplan", W + "schema_utils"])

prop("C27", "Plan descriptions are turned into the objects they describe",
     "Every node of an optimization plan is turned into an object with exactly the described settings: simulation space, grid, "
     "meshes and boundary layers, sources, solvers, simulations, overlaps, monitors, parametrizations, initial values, penalties "
     "and power measurements, in the described units, axes and order. Unsupported settings are rejected, not silently ignored.",
     ["programs", "inputs", "configurations"], "all plan nodes and field values",
     "Tests create a few nodes with typical settings.",
     ["spins/invdes/problem_graph/creator_em.py", "spins/invdes/problem_graph/creator_param.py", "spins/invdes/problem_graph/simspace.py",
      "spins/invdes/problem_graph/creator_monitor.py", "spins/invdes/problem_graph/functions/poynting.py", "spins/invdes/problem_graph/grid_utils.py"],
     [("creators", "spins/invdes/problem_graph/creator_*.py"),
      ("simulation space and drawing", "spins/invdes/problem_graph/simspace.py"),
      ("power measurement", "spins/invdes/problem_graph/functions/poynting.py")],
     [W + "creator_em", W + "creator_param", W + "creator_function", W + "creator_monitor", W + "creator_opt", W + "simspace", W + "grid_utils",
      W + "functions", W + "grating", W + "optplan.schema_em", W + "optplan.schema_param", W + "optplan.schema_opt",
      W + "optplan.schema_monitor", W + "optplan.schema_function"])

prop("C28", "Log analysis reports the recorded data under the right step and name",
     "Reading a run's logs yields every recorded entry exactly once in log order, with each monitor's data joined across "
     "transformations in the order requested, each value attributed to its own transformation, event and iteration; field "
     "post-processing applies the requested component, slice and scalar operation, and monitor descriptions survive being "
     "written to and read from files.",
     ["histories", "inputs"], "all log histories, monitor selections and post-processing options",
     "Tests load one fixed small log directory.",
     ["spins/invdes/problem_graph/log_tools/loader.py", "spins/invdes/problem_graph/log_tools/monitor_spec.py",
      "spins/invdes/problem_graph/log_tools/plotter.py"],
     [("log keys and data frame", "spins/invdes/problem_graph/log_tools/loader.py create_log_data_frame, load_all_logs"),
      ("joining", "spins/invdes/problem_graph/log_tools/loader.py get_monitor_data, get_joined_scalar_monitors"),
      ("descriptions", "spins/invdes/problem_graph/log_tools/monitor_spec.py")],
     [W + "log_tools"])

prop("C29", "GDS geometry is read and written with the right units, layers and cells",
     "Importing a GDS file gives, for every requested layer and cell, all of its polygons and bounding boxes in consistent units, "
     "and generating a GDS file writes every given polygon once on the stated layer with its coordinates preserved.",
     ["inputs"], "all layouts, layers, cells and polygon sets",
     "Tests read one sample file.",
     ["spins/gds/parse_gds.py", "spins/gds/gen_gds.py"],
     [("reader", "spins/gds/parse_gds.py GDSImport"), ("writer", "spins/gds/gen_gds.py gen_gds")],
     ["spins.gds"])

prop("C30", "Materials give the documented permittivity at every wavelength",
     "Each material returns the refractive index interpolated from its own table at the requested wavelength or energy in the "
     "documented units, and the permittivity is the square of the complex index with the library's sign convention for loss; "
     "material descriptions resolve to the material named and reject unknown ones.",
     ["inputs"], "all wavelengths inside the tables, all materials and descriptions",
     "Tests look up a few wavelengths.",
     ["spins/material/material.py", "spins/goos/material.py", "spins/invdes/problem_graph/simspace.py"],
     [("tables and interpolation", "spins/material/material.py"), ("goos materials", "spins/goos/material.py"),
      ("plan materials", "spins/invdes/problem_graph/simspace.py _get_mat_index")],
     ["spins.material", G + "material", W + "simspace._get_mat_index"])

prop("C31", "Far-field transforms and far-field objectives are consistent",
     "The near-to-far-field matrices implement the documented transform for every slice, box and direction set, with consistent "
     "coordinate conversions, cell areas and normals, and far-field objectives evaluate and differentiate exactly the power they "
     "describe.",
     ["inputs", "configurations"], "all fields, surfaces, directions and grids",
     "Tests check single directions on one grid.",
     ["spins/invdes/problem/farfield.py", "spins/invdes/problem/ffobjective.py"],
     [("transform", "spins/invdes/problem/farfield.py make_near2farfield_matrix, make_near2farfield_box_matrix"),
      ("geometry helpers", "spins/invdes/problem/farfield.py make_sphere_point, *_matrix, *_vector"),
      ("objectives", "spins/invdes/problem/ffobjective.py")],
     [P + "farfield", P + "ffobjective"])

prop("C32", "Structure penalties and constraints measure the structure they are given",
     "Penalties on the structure itself (discreteness, fabrication feature size and curvature, fit to a target) evaluate the "
     "documented measure of the current structure, are zero where the documentation says so, and return its exact derivative "
     "with respect to the parameters.",
     ["inputs"], "all structures, parameters, weights and feature limits",
     "Tests check single designs.",
     ["spins/invdes/problem/structure_objectives.py", "spins/invdes/problem_graph/creator_param.py", "spins/invdes/problem/grating.py"],
     [("objectives", "spins/invdes/problem/structure_objectives.py"),
      ("penalty nodes", "spins/invdes/problem_graph/creator_param.py DiscretePenaltyFun, FabricationPenalty")],
     [P + "structure_objectives", W + "creator_param", P + "grating"])

prop("C33", "Node types are registered once and looked up by their own name",
     "A node type can be registered under a given name only once per level; a lookup finds the most recently pushed level that "
     "knows the name, and leaving a level restores exactly what was visible before. Every registered implementation or creator "
     "is the one for its own description type, and looking up an unknown name is an error or an explicit nothing, as documented.",
     ["histories", "programs"], "all sequences of register, push, pop and lookup",
     "Tests register one or two names per registry.",
     ["spins/goos/schema_registry.py", "spins/goos/optplan/context.py", "spins/invdes/problem_graph/optplan/context.py",
      "spins/goos/optplan/optplan.py", "spins/goos_sim/maxwell/__init__.py"],
     [("stacks", "SchemaRegistryStack, ContextStack, OptplanContextStack"),
      ("registration decorators", "spins/invdes/problem_graph/optplan/__init__.py; spins/goos_sim/maxwell/__init__.py register"),
      ("automatic registration", "spins/goos/optplan/optplan.py ProblemGraphNodeMeta")],
     [G + "schema_registry", G + "optplan.context", W + "optplan.context", W + "optplan.register_node", W + "optplan.register_node_type",
      W + "optplan.register_transformation", "=" + W + "optplan", "=" + G + "optplan", "spins.goos_sim.maxwell.register", G + "optplan.optplan.ProblemGraphNodeMeta",
      G + "optplan.optplan.push_plan", G + "optplan.optplan.pop_plan", G + "optplan.optplan.get_default_plan",
      G + "optplan.optplan.OptimizationPlan.__enter__", G + "optplan.optplan.OptimizationPlan.__exit__",
      G + "optplan.schema_utils", W + "schema_utils", "@decl:spins"])

prop("C34", "Library calls never modify the arrays and objects passed to them",
     "Apart from the documented exceptions (operations whose purpose is to update the object they are given), no public function "
     "or method changes the contents of an array, list, dictionary or object passed in by the caller, so that repeating a call "
     "with the same arguments gives the same result.",
     ["inputs", "histories"], "all public functions and methods, all argument values, on every path",
     "Tests look at results, seldom at whether the arguments were left alone, and only on the paths they take.",
     ["spins/fdfd_tools/grid.py", "spins/fdfd_solvers", "spins/goos", "spins/goos_sim", "spins/invdes", "spins/gridlock"],
     [("copies before in-place work", "e.g. spins/fdfd_tools/grid.py apply_scpml; spins/goos/math.py Max.grad"),
      ("documented mutators", "e.g. spins/fdfd_tools/grid.py stretch_with_scpml; spins/invdes/problem_graph/optplan/io.py autoname")],
     ["@effects:spins"], ["argument_purity", "held_argument"])

prop("C35", "Results depend only on arguments and declared state, not on earlier calls",
     "No function keeps hidden state between calls: results do not depend on which calls were made before except through the "
     "object state a class documents; no default argument, module variable, class-level container or memo carries data from one "
     "call or instance into another, and callbacks created in a loop refer to their own iteration.",
     ["histories"], "all call sequences",
     "Tests run functions once or in one order.",
     ["spins"],
     [("no mutated defaults, class containers or module variables except registries", "whole package"),
      ("closures bind per iteration", "spins/goos/optimize.py, spins/invdes/optimization/scipy_optimizer.py")],
     ["@state:spins"], ["hidden_state", "late_binding", "stale_state", "kept_state", "thread_order", "shared_object"])

prop("C36", "Every path either works or reports a proper error",
     "On every path of every function, names refer to something that exists, detected misuse is raised as a real exception and "
     "never built and dropped, unsupported cases raise the documented kind of error, and functions do not report failure by "
     "raising something that is not an exception.",
     ["inputs", "programs"], "all functions, all paths, including error and rarely used branches",
     "Tests do not execute most error branches and rarely used options.",
     ["spins"],
     [("name resolution", "whole package"), ("error construction", "whole package")],
     ["@names:spins"], ["names", "errors", "raising"])

NOT_APPLICABLE = [
    dict(id="N01", title="Iterative solvers converge to the requested tolerance",
         statement="For every well-posed simulation the iterative solvers reach the requested residual tolerance within the iteration limit.",
         over=["inputs"], text="all materials, grids and tolerances", why="Convergence depends on the spectrum of each matrix.",
         files=["spins/fdfd_solvers/local_matrix_solvers.py", "spins/fdfd_tools/solvers.py"],
         mechanism=[("iterative solvers", "QmrSolver, BiCgSolver, _scipy_qmr")],
         reason="Convergence of QMR/BiCG is a property of the numerical spectrum of a runtime matrix; no static argument over the source bounds "
                "it. What is static (which system is handed over, that the residual callback and tolerance are passed on) is decided under C15."),
    dict(id="N02", title="Optimization decreases the objective and reaches a local optimum",
         statement="Every optimizer run ends at a design whose objective is no worse than the start and that is a local optimum up to tolerance.",
         over=["inputs", "histories"], text="all objectives and starting points",
         why="Depends on the numerical landscape of each objective.", files=["spins/goos/optimize.py", "spins/invdes/optimization"],
         mechanism=[("descent steps", "spins/invdes/optimization/gradient_descent.py")],
         reason="Descent and local optimality quantify over runtime objective values and step sizes; the static part (the right objective, "
                "gradient, bounds and update formula are used) is decided under C08 and C24."),
    dict(id="N03", title="Simulated fields converge to the continuum solution with grid refinement",
         statement="As the grid is refined and the absorber thickened, simulated fields and overlaps converge to the solution of Maxwell's equations.",
         over=["inputs", "configurations"], text="all structures and resolutions", why="A limit over runtime grids.",
         files=["spins/fdfd_tools/operators.py", "spins/fdfd_tools/grid.py"], mechanism=[("discretization", "spins/fdfd_tools/operators.py")],
         reason="A convergence-order statement over runtime quantities; static analysis decides the discretization formulas (C13, C14), not their limit."),
    dict(id="N04", title="The remote field service returns the fields of the uploaded problem",
         statement="For every uploaded problem the remote service computes the correct fields and keeps requests apart.",
         over=["fault_sequences"], text="all requests and service failures", why="The service is not part of the repository.",
         files=["spins/fdfd_solvers/maxwell.py"], mechanism=[("client protocol", "spins/fdfd_solvers/maxwell.py MaxwellSolver.solve")],
         reason="The service's code is not in this repository, so there is no source to analyse; the client side is decided under C15."),
]
