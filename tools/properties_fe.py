prop("P13", "The assembled residual is the weak form of the balance equations",
     "For every state, the residual assembled by the solver is the discrete weak form of the macroscopic momentum balance and of the slip pseudo-balances: stress power, body force and boundary traction, vectorial and scalar microstress, resolved stress, and on grain boundaries the degraded cohesive traction, contact traction and microtraction acting on both grains with opposite sign. "
     "Constrained rows carry no residual, and all terms carry their dimensionless numbers.",
     ["inputs", "histories"], "every mesh, grain layout, crystal set, parameter set, state and stored history, 2d and 3d",
     "The tests that assemble print a residual of one state without comparing it; a wrong sign or factor in one term still lets Newton converge, to a wrong balance.",
     [G + "assembly.cc", G + "assembly_data.cc", G + "quadrature_point_history.cc"],
     [("residual assembly", "GradientCrystalPlasticitySolver::assemble_local_residual"),
      ("internal variables", "GradientCrystalPlasticitySolver::reset_and_update_internal_variables")])

prop("P14", "The assembled Jacobian is the derivative of the residual",
     "For every state away from kinks of the laws, the assembled Jacobian applied to any direction is the directional derivative of the assembled residual, in all four displacement and slip blocks and with the couplings across grain boundaries, so that Newton's method converges quadratically.",
     ["inputs", "histories"], "every mesh, grain layout, parameter set, state and direction, 2d and 3d",
     "An inconsistent tangent only costs iterations, which no test counts, and only shows for certain states and parameter combinations.",
     [G + "assembly.cc", S + "constitutive_laws.cc"],
     [("Jacobian assembly", "GradientCrystalPlasticitySolver::assemble_local_jacobian")])

prop("P15", "Accepted load steps satisfy the balance equations, however solved",
     "Whenever solve_nonlinear_system returns, the stored solution satisfies the prescribed constraints and leaves an imbalance below the requested tolerance with respect to the history committed at the end of the previous step; when the limit of iterations is exceeded the caller is told by an exception and the stored solution is unchanged. "
     "Monolithic, bouncing and embracing algorithms give the same solution, and the first two find it for smooth hardening problems under moderate loads.",
     ["inputs", "histories"], "every problem, load history, solution algorithm, extrapolation, line search and reset setting",
     "No stable test runs the solver; state leaking between iterations, line search trials and steps only shows in histories of several steps.",
     [G + "solve.cc", G + "setup.cc", G + "assembly.cc", S + "line_search.cc"],
     [("entry", "GradientCrystalPlasticitySolver::solve_nonlinear_system"),
      ("monolithic", "GradientCrystalPlasticitySolver::monolithic_algorithm"),
      ("bouncing", "GradientCrystalPlasticitySolver::bouncing_algorithm"),
      ("embracing", "GradientCrystalPlasticitySolver::embracing_algorihtm"),
      ("line search", "GradientCrystalPlasticitySolver::line_search_algorithm")])

prop("P11", "The line search backtracks safely and stops with a decrease",
     "For every sequence of trial values, each new relaxation parameter is finite, lies between a tenth and a half of the previous one and minimises the quadratic, later the cubic, interpolant of the known values within these limits. "
     "A trial is accepted exactly if it decreases the objective sufficiently or if the limit of backtrackings is exceeded, so that every search ends; inside the solver, residual norms decrease accordingly from iteration to iteration.",
     ["inputs", "histories"], "every initial value, sequence of trial values, parameter set, and every Newton iteration of the solver",
     "line_search_test runs one scalar example and compares nothing; interpolants without a minimum, extreme values and reuse of an instance do not occur.",
     [S + "line_search.cc", I + "line_search.h", G + "solve.cc"],
     [("interpolation", "LineSearch::get_lambda"),
      ("acceptance", "LineSearch::suficient_descent_condition"),
      ("use", "GradientCrystalPlasticitySolver::line_search_algorithm")])

prop("P16", "Rate-independent steps: only slips above their threshold move",
     "In every accepted step of the rate-independent model, a slip degree of freedom changes only if its trial microstress (evaluated with the slips of the previous step) exceeds its slip resistance; all others keep their previous value. "
     "The balance holds for the momentum, for the moving slips and for every slip whose trial microstress exceeds its resistance, and the search for the active set ends: with a solution or with the iteration limit.",
     ["inputs", "histories"], "every problem, load history and solution algorithm",
     "No stable test runs rate-independent plasticity; wrong active sets show up as plausible but unbalanced or creeping solutions.",
     [G + "active_set.cc", G + "solve.cc", G + "assembly.cc", G + "setup.cc"],
     [("active set", "GradientCrystalPlasticitySolver::determine_active_set"),
      ("trial microstress", "GradientCrystalPlasticitySolver::assemble_trial_microstress_right_hand_side"),
      ("frozen slips", "GradientCrystalPlasticitySolver::reset_inactive_set_values"),
      ("resistances of the degrees of freedom", "GradientCrystalPlasticitySolver::reset_and_update_slip_resistances")])


prop("P12", "The finite element field holds each crystal's fields, and only those",
     "On every mesh with grains, polynomials of the elements' degree written per crystal are read back by the extractors exactly. "
     "The displacement is continuous over the whole body (or, with decohesion, over each crystal only, jumping freely across grain boundaries); each slip is continuous inside its crystal and independent of the neighbouring ones: every nodal value of a body has exactly one degree of freedom. "
     "Counts, blocks, index sets and norms of the displacement and slip parts agree with that. Over any sequence of operations, the solution vectors are those of the last steps, and the constraints are the last ones set, on top of the hanging nodes; a copy is independent.",
     ["inputs", "histories"], "every mesh, assignment of grains, degrees, number of slips, decohesion and block flag, vector and sequence of operations",
     "No stable test builds a field; wrong sharing of degrees of freedom still gives smooth looking results.",
     [S + "fe_field.cc", I + "fe_field.h"],
     [("components", "FEField::setup_extractors / get_global_component"),
      ("degrees of freedom", "FEField::setup_dofs"),
      ("vector history", "FEField::update_solution_vectors"),
      ("constraints", "FEField::set_affine_constraints / set_newton_method_constraints / reset_all_affine_constraints"),
      ("norms", "FEField::get_sub_l2_norms / get_l2_norm")])

prop("P17", "Homogenised quantities are the averages of the fields",
     "For every field, macroscopic strain and time, the homogenised stress and strain (and their fluctuations) are the volume averages over the body of the stress and strain of the model, whatever the grains and cell sizes; the von Mises measures are those of the three-dimensional tensors (with the out-of-plane stress of plane strain in 2d); each evaluation adds one row with its time to the written table. "
     "The reported shear stress is the area average over the chosen boundary.",
     ["inputs", "histories"], "every mesh, grain layout, field, macroscopic strain and sequence of evaluations, 2d and 3d",
     "No test evaluates them; a wrong weight or component gives plausible curves.",
     [S + "postprocessing.cc", I + "postprocessing.h"],
     [("averages", "Homogenization::compute_macroscopic_stress"),
      ("table", "Homogenization::update_table_handler_values"),
      ("boundary", "SimpleShear::compute_stress_12_at_boundary")])

prop("P18", "Pointwise output is what the model says at that point",
     "At every point, the output displacement, slips, plastic strain measures, dislocation densities, stress, strain, elastic and plastic strain (with engineering shears), their fluctuations and von Mises measures are those of the model for the crystal of the cell; each is scaled exactly once with its characteristic quantity (or not at all if dimensionless output is requested), has a unique name, and depends neither on other crystals' components nor on points evaluated before.",
     ["inputs"], "every field, crystal, macroscopic strain, set of characteristic quantities and combination of output flags, 2d and 3d",
     "No test evaluates the output; everything users see comes through it.",
     [S + "postprocessing.cc", I + "postprocessing.h"],
     [("fields", "Postprocessor::evaluate_vector_field"),
      ("slip based", "SlipBasedPostprocessor::evaluate_vector_field"),
      ("names", "Postprocessor::get_names")])


prop("P19", "The loading program visits its turning points and ends on time",
     "For every set of loading parameters, the time loop driven by the program's step sizes takes exactly the number of steps asked for in each phase, ends at the end of the last phase, and has a step boundary at every turning point of the load. "
     "The extrapolation of the start value is skipped exactly at the steps which begin at a turning point: start of the cycles, both extremes of each cycle, start of the unloading; never for monotonic loads.",
     ["inputs", "histories"], "every loading type, duration, number of steps, cycles and start time",
     "No test runs a loading program; step counters, phase limits and rounding interact over whole histories.",
     [S + "run_time_parameters.cc", I + "run_time_parameters.h", A],
     [("parameters", "SimpleLoading::parse_parameters"),
      ("step sizes", "SimpleLoading::get_next_time_step_size"),
      ("turning points", "SimpleLoading::skip_extrapolation"),
      ("time loop", "SimpleShearProblem::run")])

prop("P20", "The prescribed displacement follows the loading program",
     "At every time the displacement prescribed at the boundary is the load of the program times the height of the strip, in units of the characteristic displacement, in the loaded component of every crystal's displacement, and zero elsewhere. "
     "Monotonic loads grow with time; cyclic ones ramp to the mean load, oscillate between minimum and maximum with the given period and return to zero if unloading is asked for, without jumps. The shear reported in the output is the one prescribed.",
     ["inputs"], "every loading program, time, number of crystals, component, height and characteristic displacement, with and without decohesion",
     "No test evaluates the boundary condition; an inconsistency between program, boundary condition and report still gives smooth curves.",
     [S + "boundary_conditions.cc", S + "postprocessing.cc", A],
     [("boundary condition", "BoundaryConditions::DisplacementControl::vector_value"),
      ("report", "Postprocessing::SimpleShear::compute_data")])

prop("P21", "Every parameter of the input file is honoured, and bad files refused",
     "Each entry of a parameter file, in whatever order and layout, reaches the member it stands for and no other; entries left out have their documented default; parameters of algorithms not chosen keep theirs; derived quantities (characteristic quantities, dimensionless numbers, step sizes) follow from the values given. "
     "The copy of the parameters in the output directory reads back to the same parameters. Files with unknown entries, values outside their limits or contradicting each other, and missing files (for which a template with the defaults is left) raise an exception.",
     ["inputs"], "every subset of the entries of both problem types, every admissible value, layout, and single defect",
     "No test reads a parameter file; a swapped or ignored parameter changes results silently.",
     [S + "run_time_parameters.cc", I + "run_time_parameters.h"],
     [("strip problem", "InfiniteStripProblem::parse_parameters"),
      ("semi-coupled problem", "SemicoupledParameters::parse_parameters"),
      ("solver", "SolverParameters::parse_parameters"),
      ("dimensionless form", "DimensionlessForm::init")])

prop("P23", "The application solves the strip described by its input",
     "For every parameter file of the simple shear application, the run ends normally and reports the solution of the sheared infinite strip it describes: per load step the shear stress at the boundary under the prescribed shear, and the homogenised stresses and strains, equal those of an independent solution with layered crystals, vanishing slips at the top and the bottom, the chosen grain boundary condition (microfree, microhard, microtraction, cohesive), history and loading program, whichever solution algorithm, extrapolation, line search and dimensionless form is chosen. "
     "All outputs asked for are written, complete, at the frequencies asked for; the graphics show displacements, slips, stresses, fluctuations and damage of that solution in the units asked for, and only graphics of earlier runs are deleted.",
     ["inputs", "histories"], "every strip, crystal, law parameters, grain boundary condition, algorithm, loading program and output choice, 2d and 3d, both build types",
     "No test runs the application; mesh, constraints, boundary conditions, solver and output have to fit together.",
     [A, S + "solve.cc", S + "assembly.cc", S + "fe_field.cc", S + "postprocessing.cc"],
     [("application", "SimpleShearProblem::run"),
      ("mesh and crystals", "SimpleShearProblem::make_grid"),
      ("constraints", "SimpleShearProblem::setup_constraints"),
      ("output", "SimpleShearProblem::data_output / postprocessing")])

prop("P22", "Solutions do not depend on units or on scaling the problem",
     "The solution of every load step is the same physical one whether the problem is solved in physical or in dimensionless form, whatever the characteristic quantities, with displacements prescribed, body forces, tractions and macroscopic strains; and whether lengths, stresses and times are given in one system of units or another, with grain boundary, cohesive and contact laws as well.",
     ["inputs", "histories"], "every problem, load history, characteristic quantity, factor between units, 2d and 3d, monolithic and staggered",
     "No test solves a problem; a term without its factor shows only when scales differ and that term matters.",
     [S + "assembly.cc", S + "assembly_data.cc", S + "solve.cc", S + "constitutive_laws.cc", S + "run_time_parameters.cc"],
     [("factors of the weak form", "assemble_local_residual / assemble_local_jacobian"),
      ("characteristic quantities", "DimensionlessForm::init")])

prop("P25", "The damage reported for grain boundaries is that of their history",
     "The damage field reported at the degrees of freedom is the projection (lumped mass over the grain boundary faces) of the damage variables of the quadrature points, and the average damage is their mean over the area of the boundaries that can separate; both are zero where there is none, for every history of openings.",
     ["inputs", "histories"], "every mesh, pattern of grains, cohesive and damage law, history of accepted and rejected openings",
     "No test evaluates the damage output; it is wrong only for meshes with several interfaces or none.",
     [S + "assembly.cc", S + "gradient_crystal_plasticity_solver.cc", S + "postprocessing.cc"],
     [("projection", "assemble_projection_matrix / assemble_projection_rhs"),
      ("average", "GradientCrystalPlasticitySolver::get_macroscopic_damage")])

prop("P26", "Solutions depend neither on the frame nor on any numbering",
     "Rotating and shifting mesh, crystal orientations, loads and prescribed displacements rotates the displacements of every load step and leaves the slips as they are; numbering grains or slip systems differently renumbers the slips; reversing a slip direction or a slip plane normal changes the sign of that slip, nothing else.",
     ["inputs", "histories"], "every problem and load history, rotation, shift, permutation and reversal, 2d and 3d, with perfect and with separating grain boundaries",
     "Tests use one orientation; a mixed up index, transposed rotation or a sign is invisible in a single frame.",
     [S + "crystal_data.cc", S + "assembly.cc", S + "constitutive_laws.cc", S + "fe_field.cc"],
     [("rotations", "CrystalsData::compute_rotation_matrices"),
      ("weak form", "assemble_local_residual / assemble_local_jacobian")])

prop("P27", "Results do not depend on the number of processes",
     "Solved by any number of MPI processes, whichever parts of the mesh they own, even none, every load step has the same displacements, slips, reported damage and homogenised quantities as solved by one process, for rate-dependent and rate-independent behaviour, all grain boundary conditions and separating grain boundaries; every process reports the same averages, and no process ends or waits while others go on.",
     ["inputs", "histories", "configurations"], "every problem and load history, number of processes, partition of the mesh including processes without cells, 2d and 3d",
     "Tests run one process; a sum over owned cells only, a missing exchange of ghost values or a decision taken locally shows only with several.",
     [S + "solve.cc", S + "active_set.cc", S + "assembly.cc", S + "setup.cc", S + "postprocessing.cc", S + "fe_field.cc"],
     [("active set", "GradientCrystalPlasticitySolver::determine_active_set"),
      ("sums over processes", "GradientCrystalPlasticitySolver::get_macroscopic_damage / Homogenization"),
      ("owned and relevant degrees of freedom", "FEField::setup_dofs")])

prop("P24", "The solver's log and summary tell what the iterations did",
     "Every load step appears once, with its number, time and step size. Iterations are numbered from zero without gaps and never exceed the limit; the residual norms of the first and last row are those of the balance at the start and at the solution, for displacements, slips and both together; a loop ends with the first residual below its tolerance and not before; the update norms account for the way from the start to the solution, including the relaxation by the line search; the iterations of linear solver and line search stay within their limits, an accepted line search does not raise the residual; the convergence rates are those of the residuals. The summary counts the same iterations, and all its numbers are finite.",
     ["inputs", "histories"], "every problem, algorithm, choice of linear solver and line search, sequence of loads and step sizes",
     "The log is what users judge convergence and tolerances by, and no test reads it; most of its numbers differ from plausible ones only in steps with line search, several loops or unequal step sizes.",
     [S + "solve.cc", "source/utilities.cc", "source/line_search.cc"],
     [("rows", "update_and_output_nonlinear_solver_logger"),
      ("header of a step", "solve_nonlinear_system"),
      ("summary", "output_data_to_file")])

prop("P28", "Results depend neither on the number of threads nor on their schedule",
     "Assembled with any number of threads, in whatever order they take the cells and however they interleave, a state and history give the same residual, Jacobian, trial microstress, slip resistances, interface damage and openings and reported damage as with one thread, and every load step the same solution.",
     ["inputs", "histories", "schedules"], "every problem, state and load history, number of threads and schedule of the workers, 2d and 3d, with perfect and with separating grain boundaries",
     "The application runs with as many threads as there are cores; the tests look at no result that several of them compute, and a scratch shared by two workers or an interface point that both sides update at once only shows under some schedules.",
     [S + "assembly.cc", "include/gCP/assembly_data.h", S + "quadrature_point_history.cc"],
     [("workers", "assemble_local_residual / assemble_local_jacobian / update_local_quadrature_point_history"),
      ("points shared by two cells", "InterfaceQuadraturePointHistory::update_values"),
      ("scratch", "gCP::AssemblyData")])
