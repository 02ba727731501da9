"""Which harness decides which property, with how many cases, and the texts
that go into MANIFEST.json and the evidence files."""

COMMON_ASSUMPTIONS = [
    "the code is built with DEBUG (deal.II and gCP assertions on), gcc, -O1, "
    "against the installed deal.II/Trilinos",
    "random testing: a defect outside the generated input space, or of "
    "measure near zero in it, is not seen",
]

CHECKS = {
    "P01": dict(
        target="h_laws", cases=(150000, 1000000),
        technique="property-based testing: generated crystal files against an "
                  "independent plain-array model, and generated invalid files",
        rule="a case is a set of generated crystal files (Euler angles, slip "
             "systems, spellings, blank trailing text) read on a generated "
             "mesh, in 2d or 3d, or such a set with one generated defect; "
             "non-trivial: at least one slip system and a rotation that is "
             "not a multiple of 90 degrees, or a defect that must be rejected",
        note="compares rotation, slip vectors, Schmid tensors with a "
             "reference to 1e-12; only inputs with exactly orthogonal slip "
             "vectors are generated as valid"),
    "P02": dict(
        target="h_laws", cases=(150000, 1000000),
        technique="property-based testing: differential against plain-array "
                  "continuum mechanics, energy and power identities",
        rule="a case is a random crystal, orientation, strain, slips and "
             "moduli; non-trivial: a rotated crystal with non-zero slip or "
             "strain and an anisotropic stiffness",
        note="rotated cubic elasticity is evaluated in the crystal frame, "
             "without the rotated fourth-order tensor"),
    "P03": dict(
        target="h_laws", cases=(200000, 3000000),
        technique="property-based testing: reference functions, oddness, "
                  "monotonicity, dissipation, finite-difference tangents",
        rule="a case is a regularisation, parameters, old and new slips and "
             "slip resistances; non-trivial: a non-zero slip increment",
        note="all five regularisations and the rate-independent form"),
    "P04": dict(
        target="h_laws", cases=(200000, 3000000),
        technique="property-based testing: reference potential, "
                  "homogeneity, symmetry and finite-difference tangents",
        rule="a case is a crystal, slip system, slip gradient and parameter "
             "set; non-trivial: a gradient with a component in the slip plane",
        note="the defect energy index is generated in [1.25, 6]"),
    "P05": dict(
        target="h_laws", cases=(1500000, 15000000),
        technique="stateful property-based testing against a reference model",
        rule="a case is a sequence of update/store/reset operations on one "
             "quadrature point; non-trivial: at least one update with "
             "non-zero increment and one store or reset",
        note="model: linear hardening from the stored state"),
    "P06": dict(
        target="h_laws", cases=(150000, 2000000),
        technique="property-based testing: reference from the definition of "
                  "the net Burgers density, energy and reciprocity relations",
        rule="a case is two grains, a facet normal, slips on both sides; "
             "non-trivial: both grains slip and their lattices differ",
        note="2d and 3d, with and without dimensionless form"),
    "P07": dict(
        target="h_laws", cases=(2500000, 30000000),
        technique="property-based testing: reference exponential law, secant "
                  "unloading, symmetry of the sides, FD tangents",
        rule="a case is an opening, a normal, a maximum opening and law "
             "parameters; non-trivial: a tensile or sheared opening",
        note="openings between 1e-6 and 1e2 critical openings"),
    "P08": dict(
        target="h_laws", cases=(6000000, 60000000),
        technique="property-based testing: penalty law reference, action and "
                  "reaction, FD tangents",
        rule="a case is an opening, a normal and parameters, or a damage "
             "value; non-trivial: penetration, or damage strictly inside "
             "(0,1)",
        note="contact and degradation functions"),
    "P09": dict(
        target="h_history", cases=(1000000, 10000000),
        technique="stateful property-based testing against a reference "
                  "damage model",
        rule="a case is a history of openings applied to one interface point "
             "by trial updates, resets and accepted steps, with both damage "
             "evolutions; non-trivial: at least one accepted step and an "
             "opening beyond the previous maximum",
        note="includes compression, unloading, rejected trial steps, "
             "endurance limit"),
    "P10": dict(
        target="h_history", cases=(60000, 600000),
        technique="stateful property-based testing of the face storage on "
                  "generated meshes against a map model",
        rule="a case is a generated mesh with generated grains; data is "
             "written from one side and read from the other; non-trivial: at "
             "least one grain boundary face with neighbours in two grains",
        note="2d and 3d, also after a second initialisation"),
    "P13": dict(
        target="h_assembly_rel", thorough_target="h_assembly",
        cases=(20000, 60000),
        technique="property-based testing: the assembled residual against an "
                  "independent weak form written with plain arrays",
        rule="a case is a generated mesh, grains, crystals, parameters, loads "
             "and a random state and history; the vector assembled by the "
             "solver is compared entry by entry; non-trivial: at least one "
             "slip system and non-zero residual",
        note="2d and 3d, with and without decohesion, microtraction, body "
             "forces, tractions, dimensionless form; no hanging nodes"),
    "P14": dict(
        target="h_assembly_rel", thorough_target="h_assembly",
        cases=(16000, 40000),
        technique="property-based testing: assembled tangent against finite "
                  "differences of the assembled residual",
        rule="a case is as for P13, with random directions; non-trivial: at "
             "least one slip system and a direction with a slip component",
        note="tolerance 2e-4 of the row; kinks of the laws are recognised by "
             "one-sided differences; the hardening term is compared in its "
             "documented symmetrised form"),
    "P15": dict(
        target="h_solver_rel", thorough_target="h_solver",
        cases=(400, 5000),
        technique="stateful property-based testing: generated load histories "
                  "through the solver, every accepted step checked against an "
                  "independent weak form, algorithms against each other",
        rule="a case is a generated problem and a history of one to three "
             "load steps; non-trivial: an accepted step with slip systems and "
             "non-zero internal forces",
        note="a step given up by its iteration limit is allowed for random "
             "problems, but not for smooth hardening ones (monolithic and "
             "bouncing); the embracing algorithm is compared when it "
             "converges"),
    "P11": dict(
        target="h_search_rel", thorough_target="h_search",
        cases=(60000, 1000000),
        technique="stateful property-based testing of the line search against "
                  "independently computed models, and of the solver's log",
        rule="a case is a sequence of searches with generated trial values, a "
             "scalar equation solved with the search, or a load history whose "
             "log is checked; non-trivial: at least two backtrackings, or one "
             "inside an iteration",
        note="values over 18 decades; the cubic model is compared by its "
             "values where it is flat"),
    "P16": dict(
        target="h_rate_rel", thorough_target="h_rate",
        cases=(1600, 20000),
        technique="stateful property-based testing: accepted rate-independent "
                  "steps against independently projected trial stresses",
        rule="a case is a generated problem and a history of one to four load "
             "steps; non-trivial: a plastic step after the first",
        note="monolithic, bouncing and embracing; the threshold is compared "
             "with slack 1e-7 (monolithic) or 1e-3 (staggered); steps given "
             "up by the iteration limit or by a singular tangent are allowed"),
    "P12": dict(
        target="h_field_rel", thorough_target="h_field",
        cases=(12000, 120000),
        technique="property-based testing: polynomial round-trip through the "
                  "extractors, nodal identification against distinct points, "
                  "and model-based operation histories",
        rule="a case is a generated mesh with grains, degrees, slips and flags, "
             "and a field, a random vector or an operation history; "
             "non-trivial: several grains with slips",
        note="refinement: hanging nodes only inside a single crystal, global "
             "refinement otherwise; one process"),
    "P17": dict(
        target="h_post_rel", thorough_target="h_post",
        cases=(12000, 120000),
        technique="property-based testing: volume and boundary averages and "
                  "the written tables against independent quadrature",
        rule="a case is a generated problem with one to three random fields, "
             "macroscopic strains and times; non-trivial: several grains with "
             "slips",
        note="the shear stress at a boundary of distorted cells is compared "
             "within two percent (rational integrand)"),
    "P18": dict(
        target="h_post_rel", thorough_target="h_post",
        cases=(16000, 160000),
        technique="property-based testing: pointwise output against an "
                  "independent evaluation of the fields",
        rule="a case is a generated problem with a random field, macroscopic "
             "strain, characteristic quantities and output flags; "
             "non-trivial: several grains with slips",
        note="evaluated through the interface called by DataOut; all "
             "combinations of the three flags"),
    "P19": dict(
        target="h_load_rel", thorough_target="h_load",
        cases=(60000, 600000),
        technique="model-based property-based testing: the time loop of the "
                  "application run with generated loading programs against "
                  "the planned times, steps and turning points",
        rule="a case is a generated loading program (monotonic, cyclic, with "
             "or without unloading) run from start to end; non-trivial: more "
             "than one step, and at least one cycle if cyclic",
        note="programs in which the remainder is less than a tenth of a step "
             "are discarded: DiscreteTime joins it with the step"),
    "P20": dict(
        target="h_load_rel", thorough_target="h_load",
        cases=(60000, 600000),
        technique="property-based testing: prescribed and reported values "
                  "against a reference of the loading program",
        rule="a case is a generated loading program, strip, crystals and "
             "scale, evaluated at step, phase and random times; non-trivial: "
             "as for P19",
        note="LoadControl is a stub without parameters and is not covered"),
    "P21": dict(
        target="h_param_rel", thorough_target="h_param",
        cases=(9000, 90000),
        technique="grammar-based generation of parameter files against a "
                  "table of entries, defaults and limits; round trip",
        rule="a case is a generated parameter file (any subset of entries, "
             "order, spelling, split subsections) or one with a generated "
             "defect; non-trivial: at least five entries given, or a defect",
        note="two problem types; limits that are only checked by assertions "
             "are not required to be refused"),
    "P23": dict(
        target="h_app_rel", thorough_target="h_app_rel",
        extra_targets=["simple_shear", "simple_shear_rel"],
        cases=(400, 8000), max_seconds=(75, 3000),
        technique="end-to-end property-based testing: the application run on "
                  "generated parameter files against an independent "
                  "one-dimensional finite element solution of the strip",
        rule="a case is a generated parameter file with its crystal files, "
             "run as a process; non-trivial: slip systems and more than one "
             "load step",
        note="reference length one, one process; runs in which a staggered "
             "scheme gives up, or the cohesive law softens, are not compared"),
    "P22": dict(
        target="h_sym_rel", thorough_target="h_sym",
        cases=(1500, 20000), max_seconds=(70, 3000),
        technique="metamorphic property-based testing: the same load history "
                  "solved in physical, dimensionless and other units",
        rule="a case is a generated problem with a load history, solved "
             "twice, all nodal values of all steps compared; non-trivial: "
             "with slip systems, both solved",
        note="rate-dependent, smooth hardening problems with one solution; "
             "the dimensionless form without grain boundary laws, which have "
             "none"),
    "P25": dict(
        target="h_assembly_rel", thorough_target="h_assembly",
        cases=(8000, 80000), max_seconds=(60, 1500),
        technique="property-based testing: damage reported after generated "
                  "histories against an independent projection",
        rule="a case is a generated problem with a history of openings, its "
             "damage reported by the solver compared with the reference; "
             "non-trivial: damage between zero and one at some boundary",
        note="the values are those at the end of the last accepted step"),
    "P26": dict(
        target="h_sym_rel", thorough_target="h_sym",
        cases=(1500, 20000), max_seconds=(70, 3000),
        technique="metamorphic property-based testing: the same load history "
                  "solved after rotation, shift, renumbering of grains and "
                  "slip systems, and reversal of slip vectors",
        rule="a case is a generated problem with a load history, solved "
             "twice, all nodal values of all steps compared; non-trivial: "
             "with slip systems, both solved",
        note="softening interfaces, where solutions need not be unique, may "
             "give up after the change"),
    "P27": dict(
        target="h_mpi_rel", thorough_target="h_mpi", workers=4,
        cases=(600, 8000), max_seconds=(80, 3000),
        technique="differential property-based testing: the same load "
                  "history solved by one process and by groups of two, three "
                  "and five under mpirun",
        rule="a case is a generated problem with a load history, solved by "
             "one process and by a group, all nodal values, damage and "
             "averages of all steps compared; non-trivial: more than one "
             "cell and slip systems",
        note="without periodic boundaries, which deal.II cannot constrain "
             "across processes here; rate-independent cases in which the "
             "group finds no solution are not compared"),
    "P28": dict(
        target="h_threads_rel", thorough_target="h_threads", workers=3,
        cases=(700, 8000), max_seconds=(70, 3000),
        technique="differential property-based testing: the same assembly "
                  "and the same load history with one thread and with two to "
                  "seven, under generated schedules",
        rule="a case is a generated problem, state and history, evaluated "
             "with one thread and repeatedly with several, which are delayed "
             "at random or made to meet at the two sides of a face; all "
             "entries compared; non-trivial: more cells than one chunk of "
             "the work stream, so that threads do work side by side",
        note="schedules are sampled, not enumerated: they are steered where "
             "the workers evaluate the geometry of a cell or face"),
    "P24": dict(
        target="h_log_rel", thorough_target="h_log",
        cases=(1600, 25000),
        technique="stateful property-based testing: the log and the summary "
                  "of generated load histories against an independent "
                  "balance and the motion of the solution",
        rule="a case is a generated problem, algorithm, solvers, line search, "
             "step sizes and history; every row of the log is checked; "
             "non-trivial: a step of at least three iterations with slip "
             "systems",
        note="rate-dependent problems; averages of the staggered algorithms "
             "only for being finite"),
}
