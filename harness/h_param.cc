// P21: run-time parameters: every entry of a parameter file reaches its
// member, what is left out has its default, and invalid files are refused.
#include "problem_std.h"

#include <gCP/run_time_parameters.h>

#include <sys/stat.h>
#include <unistd.h>

namespace
{
  namespace RTP = gCP::RunTimeParameters;
  using Path    = std::vector<std::string>;
  using P       = RTP::InfiniteStripProblem;

  template <typename T>
  struct Entry
  {
    Path                                 path;
    std::string                          name, def;
    char                                 kind; // d i b s(elect) f(ile)
    double                               lo, hi;
    bool                                 open; // lo itself is refused
    std::vector<std::string>             options;
    std::function<std::string(const T &)> get;
    std::string                          group; // only read if this is chosen
  };

  std::string number(const double x)
  {
    std::ostringstream o;
    o.precision(17);
    o << x;
    return o.str();
  }
  std::string text(const bool b) { return b ? "true" : "false"; }

  std::string text(const RTP::RegularizationFunction f)
  {
    switch (f)
      {
        case RTP::RegularizationFunction::Atan: return "atan";
        case RTP::RegularizationFunction::Sqrt: return "sqrt";
        case RTP::RegularizationFunction::Gd: return "gd";
        case RTP::RegularizationFunction::Tanh: return "tanh";
        case RTP::RegularizationFunction::Erf: return "erf";
        default: return "?";
      }
  }
  std::string text(const RTP::SolverType f)
  {
    return f == RTP::SolverType::CG ? "cg" : f == RTP::SolverType::GMRES ? "gmres" : f == RTP::SolverType::DirectSolver ? "directsolver" : "?";
  }
  std::string text(const RTP::SolutionAlgorithm f)
  {
    return f == RTP::SolutionAlgorithm::Monolithic ? "monolithic" : f == RTP::SolutionAlgorithm::Bouncing ? "bouncing" : f == RTP::SolutionAlgorithm::Embracing ? "embracing" : "?";
  }
  std::string text(const RTP::BoundaryConditionsAtGrainBoundaries f)
  {
    using B = RTP::BoundaryConditionsAtGrainBoundaries;
    return f == B::Microhard ? "microhard" : f == B::Microfree ? "microfree" : f == B::Microtraction ? "microtraction" : "?";
  }
  std::string text(const RTP::DamageEvolutionModel f)
  {
    return f == RTP::DamageEvolutionModel::OrtizEtAl ? "OrtizEtAl" : f == RTP::DamageEvolutionModel::M1 ? "M1" : "?";
  }
  std::string text(const RTP::CohesiveLawModel f) { return f == RTP::CohesiveLawModel::OrtizEtAl ? "OrtizEtAl" : "?"; }
  std::string text(const RTP::LoadingType f)
  {
    return f == RTP::LoadingType::Monotonic ? "monotonic" : f == RTP::LoadingType::Cyclic ? "cyclic" : "?";
  }
  std::string text(const RTP::ControlType f)
  {
    return f == RTP::ControlType::Load ? "load_control" : f == RTP::ControlType::Displacement ? "displacement_control" : "?";
  }

  const double inf = 1e300;

#define DBL(path, name, def, lo, open, member) \
  e.push_back({path, name, def, 'd', lo, inf, open, {}, [](const T &p) { return number(p.member); }, group})
#define UNIT(path, name, def, member) \
  e.push_back({path, name, def, 'd', 0, 1, true, {}, [](const T &p) { return number(p.member); }, group})
#define INT(path, name, def, lo, member) \
  e.push_back({path, name, def, 'i', lo, inf, false, {}, [](const T &p) { return number(p.member); }, group})
#define BOOL(path, name, def, member) \
  e.push_back({path, name, def, 'b', 0, 0, false, {}, [](const T &p) { return text(p.member); }, group})
#define SEL(path, name, def, member, ...) \
  e.push_back({path, name, def, 's', 0, 0, false, {__VA_ARGS__}, [](const T &p) { return text(p.member); }, group})
#define FIL(path, name, def, member) \
  e.push_back({path, name, def, 'f', 0, 0, false, {}, [](const T &p) { return p.member; }, group})

  template <typename T>
  void common(std::vector<Entry<T>> &e)
  {
    std::string group;
    Path        a{"1. Spatial discretization parameters"};
    INT(a, "Spatial dimension", "2", 2, spatial_discretization.dim);
    INT(a, "Mapping - Polynomial degree", "1", 1, spatial_discretization.mapping_degree);
    BOOL(a, "Mapping - Apply to interior cells", "false", spatial_discretization.flag_apply_mapping_to_interior_cells);
    INT(a, "Number of global refinements", "0", 0, spatial_discretization.n_global_refinements);
    INT(a, "FE's polynomial degree - Displacements", "2", 1, spatial_discretization.fe_degree_displacements);
    INT(a, "FE's polynomial degree - Slips", "1", 1, spatial_discretization.fe_degree_slips);
    Path t{"2. Temporal discretization parameters"};
    DBL(t, "Start time", "0.0", 0, false, temporal_discretization_parameters.start_time);
    DBL(t, "End time", "1.0", 0, false, temporal_discretization_parameters.end_time);
    DBL(t, "Time step size", "1e-1", 0, true, temporal_discretization_parameters.time_step_size);
    Path i{"3. Input parameters"};
    FIL(i, "Slip normals path name", "input/crystal_structure/symmetric_double_slip_system/slip_normals", input.slips_normals_pathname);
    FIL(i, "Slip directions path name", "input/crystal_structure/symmetric_double_slip_system/slip_directions", input.slips_directions_pathname);
    FIL(i, "Euler angles path name", "input/crystal_orientation/euler_angles_0_30", input.euler_angles_pathname);
    Path o{"4. Output parameters"};
    INT(o, "Graphical output frequency", "1", 1, output.graphical_output_frequency);
    INT(o, "Terminal output frequency", "1", 0, output.terminal_output_frequency);
    BOOL(o, "Output damage variable field", "false", output.flag_output_damage_variable);
    BOOL(o, "Output dimensionless quantities", "false", output.flag_output_dimensionless_quantities);
    BOOL(o, "Output fluctuations fields", "false", output.flag_output_fluctuations);
    Path h{"5. Postprocessing parameters", "Homogenization"};
    BOOL(h, "Compute homogenized quantities", "false", homogenization.flag_compute_homogenized_quantities);
    INT(h, "Homogenization frequency", "1", 1, homogenization.homogenization_frequency);
    BOOL(Path{}, "Verbose", "false", verbose);
    // solver
    Path s{"6. Solver parameters"};
    auto sub = [](Path p, const std::string &x) {
      p.push_back(x);
      return p;
    };
#define SP solver_parameters
    SEL(s, "Solution algorithm", "monolithic", SP.solution_algorithm, "monolithic", "bouncing", "embracing");
    BOOL(s, "Allow decohesion at grain boundaries", "false", SP.allow_decohesion);
    SEL(s, "Boundary conditions at grain boundaries", "microfree", SP.boundary_conditions_at_grain_boundaries, "microhard", "microfree", "microtraction");
    BOOL(s, "Skip extrapolation of start value", "false", SP.flag_skip_extrapolation);
    BOOL(s, "Skip extrapolation of start value at extrema", "false", SP.flag_skip_extrapolation_at_extrema);
    DBL(s, "Extrapolation factor", "1.0", 0, false, SP.extrapolation_factor);
    BOOL(s, "Zero damage evolution during un- and loading", "false", SP.flag_zero_damage_during_loading_and_unloading);
    BOOL(s, "Print sparsity pattern", "false", SP.print_sparsity_pattern);
    BOOL(s, "Output debug fields", "false", SP.flag_output_debug_fields);
    BOOL(s, "Verbose", "false", SP.verbose);
    Path l = sub(s, "Constitutive laws' parameters");
#define CL solver_parameters.constitutive_laws_parameters
    Path m = sub(l, "Hooke-Law's parameters");
    DBL(m, "C1111", "134615.0", 0, true, CL.hooke_law_parameters.C1111);
    DBL(m, "C1122", "57692.3", 0, true, CL.hooke_law_parameters.C1122);
    DBL(m, "C1212", "38461.5", 0, true, CL.hooke_law_parameters.C1212);
    m = sub(l, "Scalar microstress law's parameters");
    SEL(m, "Regularization function", "tanh", CL.scalar_microstress_law_parameters.regularization_function, "atan", "sqrt", "gd", "tanh", "erf");
    DBL(m, "Regularization parameter", "3e-4", 0, true, CL.scalar_microstress_law_parameters.regularization_parameter);
    BOOL(m, "Rate-independent behavior", "false", CL.scalar_microstress_law_parameters.flag_rate_independent);
    m = sub(l, "Vectorial microstress law's parameters");
    DBL(m, "Energetic length scale", "0.0", 0, false, CL.vectorial_microstress_law_parameters.energetic_length_scale);
    DBL(m, "Initial slip resistance", "0.0", 0, false, CL.vectorial_microstress_law_parameters.initial_slip_resistance);
    DBL(m, "Defect energy index", "2.0", 1, false, CL.vectorial_microstress_law_parameters.defect_energy_index);
    DBL(m, "Regularization parameter", "1e-6", 0, true, CL.vectorial_microstress_law_parameters.regularization_parameter);
    m = sub(l, "Microtraction law's parameters");
    DBL(m, "Grain boundary modulus", "0.0", 0, false, CL.microtraction_law_parameters.grain_boundary_modulus);
    m = sub(l, "Cohesive law's parameters");
    SEL(m, "Cohesive law model", "OrtizEtAl", CL.cohesive_law_parameters.cohesive_law_model, "OrtizEtAl");
    DBL(m, "Critical cohesive traction", "700.", 0, false, CL.cohesive_law_parameters.critical_cohesive_traction);
    DBL(m, "Critical opening displacement", "2.5e-2", 0, false, CL.cohesive_law_parameters.critical_opening_displacement);
    DBL(m, "Tangential to normal stiffness ratio", "1.0", 0, false, CL.cohesive_law_parameters.tangential_to_normal_stiffness_ratio);
    m = sub(l, "Contact law's parameters");
    DBL(m, "Penalty coefficient", "100.0", 0, false, CL.contact_law_parameters.penalty_coefficient);
    m = sub(l, "Degradation function parameters");
    DBL(m, "Degradation exponent", "1.0", 0, false, CL.degradation_function_parameters.degradation_exponent);
    m = sub(l, "Hardening law's parameters");
    DBL(m, "Initial slip resistance", "0.0", 0, false, CL.hardening_law_parameters.initial_slip_resistance);
    DBL(m, "Linear hardening modulus", "500", 0, false, CL.hardening_law_parameters.linear_hardening_modulus);
    DBL(m, "Hardening parameter", "1.4", 0, false, CL.hardening_law_parameters.hardening_parameter);
    BOOL(m, "Perfect plasticity", "false", CL.hardening_law_parameters.flag_perfect_plasticity);
    m = sub(l, "Damage evolution parameters");
    SEL(m, "Damage evolution model", "M1", CL.damage_evolution_parameters.damage_evolution_model, "OrtizEtAl", "M1");
    DBL(m, "Damage accumulation constant", "1.0", 0, false, CL.damage_evolution_parameters.damage_accumulation_constant);
    DBL(m, "Damage decay constant", "0.0", 0, false, CL.damage_evolution_parameters.damage_decay_constant);
    DBL(m, "Damage decay exponent", "1.0", 0, false, CL.damage_evolution_parameters.damage_decay_exponent);
    DBL(m, "Endurance limit", "0.0", 0, false, CL.damage_evolution_parameters.endurance_limit);
    BOOL(m, "Set damage to zero", "false", CL.damage_evolution_parameters.flag_set_damage_to_zero);
    BOOL(m, "Couple microtraction to damage", "true", CL.damage_evolution_parameters.flag_couple_microtraction_to_damage);
    BOOL(m, "Couple macrotraction to damage", "false", CL.damage_evolution_parameters.flag_couple_macrotraction_to_damage);
#define SOLVER(base, member)                                                                                                      \
  {                                                                                                                               \
    Path k = sub(base, "Krylov parameters");                                                                                      \
    SEL(k, "Solver type", "cg", member.krylov_parameters.solver_type, "directsolver", "cg", "gmres");                             \
    DBL(k, "Relative tolerance", "1e-6", 0, true, member.krylov_parameters.relative_tolerance);                                   \
    DBL(k, "Absolute tolerance", "1e-8", 0, true, member.krylov_parameters.absolute_tolerance);                                   \
    INT(k, "Maximum number of iterations", "1000", 1, member.krylov_parameters.n_max_iterations);                                 \
    k = sub(base, "Newton-Raphson parameters");                                                                                   \
    DBL(k, "Relative tolerance of the residual", "1e-6", 0, true, member.newton_parameters.relative_tolerance);                   \
    DBL(k, "Absolute tolerance of the residual", "1e-8", 0, true, member.newton_parameters.absolute_tolerance);                   \
    DBL(k, "Absolute tolerance of the step", "1e-8", 0, false, member.newton_parameters.step_tolerance);                          \
    INT(k, "Maximum number of iterations", "15", 1, member.newton_parameters.n_max_iterations);                                   \
    BOOL(k, "Line search algorithm", "true", member.newton_parameters.flag_line_search);                                          \
    k = sub(base, "Line search parameters");                                                                                      \
    UNIT(k, "Alpha condition constant", "1e-4", member.line_search_parameters.alpha);                                             \
    UNIT(k, "Beta condition constant", "0.9", member.line_search_parameters.beta);                                                \
    INT(k, "Maximum number of iterations", "15", 0, member.line_search_parameters.n_max_iterations);                              \
  }
    group   = "monolithic";
    Path al = sub(s, "Monolithic algorithm");
    SOLVER(al, SP.monolithic_algorithm_parameters.monolithic_system_solver_parameters)
    group = "staggered";
    al    = sub(s, "Staggered algorithm");
    INT(al, "Maximum number of solution loops", "15", 2, SP.staggered_algorithm_parameters.max_n_solution_loops);
    BOOL(al, "Reset trial solution at each micro loop", "true", SP.staggered_algorithm_parameters.flag_reset_trial_solution_at_micro_loop);
    SOLVER(sub(al, "Linear momentum balance"), SP.staggered_algorithm_parameters.linear_momentum_solver_parameters)
    SOLVER(sub(al, "Pseudo-balance"), SP.staggered_algorithm_parameters.pseudo_balance_solver_parameters)
    group   = "";
    Path di = sub(s, "Dimensionless formulation parameters");
    BOOL(di, "Solve the dimensionless problem", "false", SP.dimensionless_form_parameters.flag_solve_dimensionless_problem);
    group = "dimensionless";
    di    = sub(di, "Reference parameters");
    DBL(di, "Reference length value", "1.0", 0, false, SP.dimensionless_form_parameters.characteristic_quantities.length);
    DBL(di, "Reference time value", "1.0", 0, false, SP.dimensionless_form_parameters.characteristic_quantities.time);
    DBL(di, "Reference displacement value", "1.0", 0, false, SP.dimensionless_form_parameters.characteristic_quantities.displacement);
    DBL(di, "Reference stiffness value", "1.0", 0, false, SP.dimensionless_form_parameters.characteristic_quantities.stiffness);
    DBL(di, "Reference slip resistance value", "1.0", 0, false, SP.dimensionless_form_parameters.characteristic_quantities.slip_resistance);
  }

  template <typename T>
  std::vector<Entry<T>> entries();

  template <>
  std::vector<Entry<P>> entries<P>()
  {
    using T = P;
    std::vector<Entry<P>> e;
    common(e);
    std::string group;
    Path        a{"1. Spatial discretization parameters", "Problem specific parameters"};
    DBL(a, "Height of the strip", "1.0", 0, true, height);
    INT(a, "Number of elements in y-direction", "100", 1, n_elements_in_y_direction);
    INT(a, "Number of equally sized crystals in y-direction", "1", 1, n_equal_sized_crystals);
    Path l{"2. Temporal discretization parameters", "Simple loading"};
    SEL(l, "Loading type", "monotonic", simple_loading.loading_type, "monotonic", "cyclic");
    DBL(l, "Maximum load", "1.0", 0, false, simple_loading.max_load);
    DBL(l, "Minimum load", "0.0", 0, false, simple_loading.min_load);
    Path m = l;
    m.push_back("Monotonic load parameters");
    DBL(m, "Duration of monotonic load", "1.0", 0, false, simple_loading.duration_monotonic_load);
    INT(m, "Number of steps during monotonic load", "20", 1, simple_loading.n_steps_monotonic_load);
    m = l;
    m.push_back("Cyclic load parameters");
    DBL(m, "Duration of un- and loading phase", "1.0", 0, false, simple_loading.duration_loading_and_unloading_phase);
    INT(m, "Number of steps during un- and loading phase", "20", 1, simple_loading.n_steps_loading_and_unloading_phase);
    DBL(m, "Period", "1.0", 0, false, simple_loading.period);
    INT(m, "Number of steps during a quarter cycle", "5", 1, simple_loading.n_steps_quarter_period);
    INT(m, "Number of cycles", "1", 0, simple_loading.n_cycles);
    BOOL(m, "Skip unloading phase", "true", simple_loading.flag_skip_unloading_phase);
    Path c{"0. Infinite strip parameters (Extended in 1. and 2.)", "Loading parameters"};
    SEL(c, "Control type", "displacement_control", control_type, "load_control", "displacement_control");
    return e;
  }

  template <>
  std::vector<Entry<RTP::SemicoupledParameters>> entries<RTP::SemicoupledParameters>()
  {
    using T = RTP::SemicoupledParameters;
    std::vector<Entry<T>> e;
    common(e);
    std::string group;
    Path        a{"Semi-coupled problem"};
    DBL(a, "Max strain component 11", "0.0", -inf, false, strain_component_11);
    DBL(a, "Max strain component 22", "0.0", -inf, false, strain_component_22);
    DBL(a, "Max strain component 33", "0.0", -inf, false, strain_component_33);
    DBL(a, "Max strain component 23", "0.0", -inf, false, strain_component_23);
    DBL(a, "Max strain component 13", "0.0", -inf, false, strain_component_13);
    DBL(a, "Max strain component 12", "0.01", -inf, false, strain_component_12);
    DBL(a, "Minimum to maximum strain load ratio", "0.5", -inf, false, min_to_max_strain_load_ratio);
    FIL(a, "Mesh file (*.msh) path name", "input/mesh/periodic_polycrystal.msh", msh_file_pathname);
    return e;
  }

  template <typename T>
  using Values = std::vector<std::string>; // one per entry, empty: left out

  std::string id(const Path &path, const std::string &name)
  {
    std::string s;
    for (const auto &p : path)
      s += p + "/";
    return s + name;
  }

  template <typename T>
  int find(const std::vector<Entry<T>> &e, const std::string &end)
  {
    int found = -1;
    for (unsigned i = 0; i < e.size(); ++i)
      {
        const std::string n = id(e[i].path, e[i].name);
        if (n.size() >= end.size() && n.compare(n.size() - end.size(), end.size(), end) == 0)
          {
            if (found >= 0)
              pbt::fail("ambiguous entry " + end);
            found = i;
          }
      }
    if (found < 0)
      pbt::fail("no entry " + end);
    return found;
  }

  // the file, with subsections and entries in any order and split up
  struct Node
  {
    std::vector<std::pair<std::string, std::string>> values;
    std::vector<std::pair<std::string, Node>>        children;
  };

  void write(pbt::Case &c, const Node &n, std::ostream &o, const int depth)
  {
    std::vector<int> order;
    for (unsigned i = 0; i < n.values.size() + n.children.size(); ++i)
      order.insert(order.begin() + c.draw(order.size() + 1), i);
    for (const int i : order)
      {
        const std::string indent(c.chance(1, 3) ? c.integer(0, 6) : 2 * depth, ' ');
        if (c.chance(1, 20))
          o << indent << "# set Verbose = nothing of this is read\n";
        if (c.chance(1, 20))
          o << "\n";
        if (i < int(n.values.size()))
          {
            const auto &v = n.values[i];
            o << indent << "set " << (c.chance(1, 4) ? "  " : "") << v.first << (c.chance(1, 4) ? "=" : "   = ") << v.second
              << (c.chance(1, 6) ? "   " : "") << (c.chance(1, 6) ? " # comment" : "") << "\n";
          }
        else
          {
            const auto &s = n.children[i - n.values.size()];
            o << indent << "subsection " << s.first << "\n";
            write(c, s.second, o, depth + 1);
            o << indent << "end\n";
          }
      }
  }

  template <typename T>
  std::string file(pbt::Case &c, const std::vector<Entry<T>> &e, const Values<T> &v, const std::string &directory)
  {
    Node root;
    auto at = [&](const Path &path) {
      Node *n = &root;
      for (const auto &p : path)
        {
          Node *next = nullptr;
          for (auto &ch : n->children)
            if (ch.first == p && !c.chance(1, 30))
              next = &ch.second;
          if (!next)
            {
              n->children.push_back({p, Node()});
              next = &n->children.back().second;
            }
          n = next;
        }
      return n;
    };
    for (unsigned i = 0; i < e.size(); ++i)
      if (!v[i].empty())
        at(e[i].path)->values.push_back({e[i].name, v[i]});
    at({"4. Output parameters"})->values.push_back({"Graphical output directory", directory});
    std::ostringstream o;
    write(c, root, o, 0);
    return o.str();
  }

  template <typename T>
  std::string draw_value(pbt::Case &c, const Entry<T> &e)
  {
    switch (e.kind)
      {
        case 'd':
          if (e.hi == 1)
            return number(c.real(0.01, 0.99));
          if (e.lo < 0)
            return number(c.signed_log(1e-6, 1e6));
          if (e.lo == 1)
            return number(c.real(1, 6));
          if (!e.open && c.chance(1, 10))
            return "0";
          return c.chance(1, 3) ? number(c.integer(1, 1000)) : number(c.logreal(1e-9, 1e9));
        case 'i': return std::to_string(int(e.lo) + (e.name == "Spatial dimension" ? c.integer(0, 1) : c.integer(0, 50)));
        case 'b': return c.boolean() ? "true" : "false";
        case 's': return c.pick(e.options);
        default: return std::string(c.pick<std::string>({"a/b", "file_1", "../x.y", "/tmp/no such place/f"})) + std::to_string(c.integer(0, 99));
      }
  }

  // make two entries satisfy a relation between the values which apply
  template <typename T>
  struct Chosen
  {
    const std::vector<Entry<T>> &e;
    Values<T>                    v;
    double                       num(const int i) const { return std::strtod((v[i].empty() ? e[i].def : v[i]).c_str(), nullptr); }
    std::string                  str(const int i) const { return v[i].empty() ? e[i].def : v[i]; }
  };

  template <typename T>
  Chosen<T> draw_values(pbt::Case &c, const std::vector<Entry<T>> &e)
  {
    Chosen<T>      x{e, Values<T>(e.size())};
    const unsigned per_cent = c.pick<unsigned>({0, 5, 30, 70, 100});
    for (unsigned i = 0; i < e.size(); ++i)
      if (c.chance(per_cent, 100))
        x.v[i] = draw_value(c, e[i]);
    c.note("per_cent", per_cent);
    // relations the program requires
    for (unsigned i = 0; i < e.size(); ++i)
      {
        if (e[i].name == "Relative tolerance" || e[i].name == "Relative tolerance of the residual")
          {
            if (!(x.num(i) > x.num(i + 1)))
              {
                x.v[i]     = number(c.logreal(1e-4, 1));
                x.v[i + 1] = number(c.logreal(1e-16, 1e-5));
              }
          }
        else if (e[i].name == "Alpha condition constant" && !(x.num(i) < x.num(i + 1)))
          {
            x.v[i]     = number(c.real(0.001, 0.4));
            x.v[i + 1] = number(c.real(0.5, 0.99));
          }
      }
    {
      const int a = find(e, "Vectorial microstress law's parameters/Initial slip resistance"), b = find(e, "Hardening law's parameters/Initial slip resistance");
      if (x.num(a) != x.num(b))
        x.v[b] = x.v[a] = x.v[a].empty() ? x.v[b] : x.v[a];
    }
    {
      const int s = find(e, "/Start time"), t = find(e, "/End time"), d = find(e, "/Time step size");
      if (!(x.num(t) > x.num(s) && x.num(d) > 0 && x.num(t) >= x.num(s) + x.num(d)))
        {
          x.v[s] = number(c.real(0, 10));
          x.v[t] = number(x.num(s) + c.real(1, 10));
          x.v[d] = number(c.real(0.01, 0.9));
        }
    }
    return x;
  }

  template <typename T>
  void draw_special(pbt::Case &, Chosen<T> &)
  {}

  template <>
  void draw_special<P>(pbt::Case &c, Chosen<P> &x)
  {
    const int a = find(x.e, "/Maximum load"), b = find(x.e, "/Minimum load");
    if (!(x.num(a) > x.num(b)))
      {
        x.v[b] = number(c.real(0, 5));
        x.v[a] = number(x.num(b) + c.real(0.01, 5));
      }
    for (const char *n : {"/Duration of monotonic load", "/Period"})
      {
        const int i = find(x.e, n);
        if (!(x.num(i) > 0))
          x.v[i] = "0.5";
      }
  }
  template <>
  void draw_special<RTP::SemicoupledParameters>(pbt::Case &c, Chosen<RTP::SemicoupledParameters> &x)
  {
    const int a = find(x.e, "load ratio"), b = find(x.e, "Mesh file (*.msh) path name");
    if (!(x.num(a) >= 0 && x.num(a) < 1))
      x.v[a] = number(c.real(0, 0.99));
    if (!x.v[b].empty())
      x.v[b] += ".msh";
  }

  template <typename T>
  void check_all(const T &p, const Chosen<T> &x, const std::string &what, const std::string &suffix = "")
  {
    const std::string algorithm = x.str(find(x.e, "/Solution algorithm"));
    const bool        scaled    = x.str(find(x.e, "/Solve the dimensionless problem")) == "true";
    for (unsigned i = 0; i < x.e.size(); ++i)
      {
        const auto &e = x.e[i];
        const bool  read = e.group.empty() || (e.group == "monolithic" && algorithm == "monolithic") ||
                          (e.group == "staggered" && algorithm != "monolithic") || (e.group == "dimensionless" && scaled);
        std::string want = read ? x.str(i) : e.def;
        if (e.path.size() && e.path[0] == "3. Input parameters")
          want += suffix;
        const std::string got = e.get(p);
        if (e.kind == 'd' || e.kind == 'i')
          PBT_CHECK(std::strtod(got.c_str(), nullptr) == std::strtod(want.c_str(), nullptr), what << ": " << id(e.path, e.name) << " is " << got << ", not " << want);
        else
          PBT_CHECK(got == want, what << ": " << id(e.path, e.name) << " is '" << got << "', not '" << want << "'");
      }
    // quantities derived from the ones given
    const auto &s = p.solver_parameters;
    const auto &d = s.dimensionless_form_parameters;
    const auto &q = d.characteristic_quantities;
    const auto &l = s.constitutive_laws_parameters;
    const double R0 = l.vectorial_microstress_law_parameters.initial_slip_resistance, ell = l.vectorial_microstress_law_parameters.energetic_length_scale,
                 n = l.vectorial_microstress_law_parameters.defect_energy_index, H = l.hardening_law_parameters.linear_hardening_modulus;
    const double L = q.length, U = q.displacement, C = q.stiffness, R = q.slip_resistance;
    PBT_CHECK(d.dimensionless_numbers.size() == 4, "four dimensionless numbers");
    auto same = [&](const double a, const double b, const char *name) {
      if (std::isfinite(b) && std::isfinite(a))
        pbt::close(a, b, 1e-12, 1e-290, what + ": " + name);
      else
        PBT_CHECK(!std::isfinite(a) && !std::isfinite(b), what << ": " << name << " " << a << ", " << b);
    };
    if (scaled)
      {
        same(q.strain, U / L, "reference strain");
        same(q.stress, C * U / L, "reference stress");
        same(q.resolved_shear_stress, C * U / L, "reference resolved shear stress");
        same(q.macro_traction, C * U / L, "reference traction");
        same(q.body_force, C * U / L / L, "reference body force");
        same(q.dislocation_density, 1 / L, "reference dislocation density");
        same(q.micro_traction, R0 * std::pow(ell, n) / std::pow(L, n - 1), "reference microtraction");
        same(d.dimensionless_numbers[0], L / U, "first dimensionless number");
        same(d.dimensionless_numbers[1], H / R, "second dimensionless number");
        same(d.dimensionless_numbers[2], R0 / R * std::pow(ell / L, n), "third dimensionless number");
        same(d.dimensionless_numbers[3], C * U / L / R, "fourth dimensionless number");
      }
    else
      for (const double y : {q.strain, q.stress, q.resolved_shear_stress, q.macro_traction, q.body_force, q.dislocation_density, q.micro_traction,
                             d.dimensionless_numbers[0], d.dimensionless_numbers[1], d.dimensionless_numbers[2], d.dimensionless_numbers[3]})
        PBT_CHECK(y == 1, what << ": a reference quantity is " << y << " without dimensionless form");
  }

  bool exists(const std::string &f)
  {
    struct stat s;
    return ::stat(f.c_str(), &s) == 0;
  }

  template <typename T>
  struct Named;
  template <>
  struct Named<P>
  {
    static constexpr bool strip = true;
  };
  template <>
  struct Named<RTP::SemicoupledParameters>
  {
    static constexpr bool strip = false;
  };

  void check_loading(const P &p, const Chosen<P> &x)
  {
    const auto &l = p.simple_loading;
    PBT_CHECK(l.start_time == x.num(find(x.e, "/Start time")), "start time of the loading " << l.start_time);
    pbt::close(l.time_step_size_monotonic_load, l.duration_monotonic_load / l.n_steps_monotonic_load, 1e-14, 0, "monotonic step");
    pbt::close(l.time_step_size_loading_and_unloading_phase, l.duration_loading_and_unloading_phase / l.n_steps_loading_and_unloading_phase, 1e-14, 0, "loading step");
    pbt::close(l.time_step_size_cyclic_phase, l.period / (4 * l.n_steps_quarter_period), 1e-14, 0, "cyclic step");
  }

  template <typename T>
  void reading(pbt::Case &c)
  {
    static const std::vector<Entry<T>> e = entries<T>();
    Chosen<T>                          x = draw_values(c, e);
    draw_special(c, x);
    const std::string dir = pbt::scratch() + "/prm", out = dir + "/out";
    ::mkdir(dir.c_str(), 0755);
    if (::chdir(dir.c_str()) != 0)
      pbt::fail("chdir");
    // three-dimensional variants of the input files
    std::string suffix;
    if (c.chance(1, 8))
      {
        const int         n = find(e, "/Slip normals path name"), d = find(e, "/Slip directions path name"), a = find(e, "/Euler angles path name");
        const std::string names[3] = {dir + "/n", dir + "/d", dir + "/a"};
        x.v[n] = names[0], x.v[d] = names[1], x.v[a] = names[2];
        const unsigned mask = c.chance(1, 2) ? 7 : c.draw(8);
        for (int i = 0; i < 3; ++i)
          {
            ::unlink((names[i] + "_3d.txt").c_str());
            if (mask >> i & 1)
              std::ofstream(names[i] + "_3d.txt") << "0\n";
          }
        if (mask == 7 && x.num(find(e, "/Spatial dimension")) == 3)
          suffix = "_3d";
        c.label("variants of the input files");
      }
    const bool        slash = c.boolean();
    const std::string t = file(c, e, x.v, out + (slash ? "/" : ""));
    std::ofstream(dir + "/a.prm") << t;
    ::unlink((out + "/parameter_file.prm").c_str());
    unsigned given = 0;
    for (const auto &v : x.v)
      given += !v.empty();
    c.note("given", given).note("slash", slash);
    c.nontrivial(given >= 5);
    const T p(dir + "/a.prm");
    check_all(p, x, "read", suffix);
    if constexpr (Named<T>::strip)
      check_loading(p, x);
    PBT_CHECK(p.output.output_directory == out + "/", "output directory " << p.output.output_directory);
    PBT_CHECK(p.solver_parameters.logger_output_directory == out + "/", "output directory of the solver " << p.solver_parameters.logger_output_directory);
    PBT_CHECK(exists(out + "/paraview"), "no output directory");
    PBT_CHECK(exists(out + "/parameter_file.prm"), "no copy of the parameters in the output directory");
    // the copy gives the same parameters
    const T q(out + "/parameter_file.prm");
    check_all(q, x, "copy", suffix);
  }

  template <typename T>
  bool refused(const std::string &name, std::string &why)
  {
    try
      {
        T p(name);
      }
    catch (const std::exception &x)
      {
        why = x.what();
        return true;
      }
    return false;
  }

  template <typename T>
  void refusal(pbt::Case &c)
  {
    static const std::vector<Entry<T>> e = entries<T>();
    Chosen<T>                          x = draw_values(c, e);
    draw_special(c, x);
    const std::string dir = pbt::scratch() + "/bad", out = dir + "/out/";
    ::mkdir(dir.c_str(), 0755);
    if (::chdir(dir.c_str()) != 0)
      pbt::fail("chdir");
    std::string why, what;
    const int   kind = c.integer(0, 5);
    if (kind == 5)
      {
        // no such file: a template is left
        const std::string f = dir + "/missing.prm";
        ::unlink(f.c_str());
        PBT_CHECK(refused<T>(f, why), "a missing file is accepted");
        PBT_CHECK(exists(f), "no template for a missing file");
        for (auto &v : x.v)
          v.clear();
        const T p(f);
        check_all(p, x, "template");
        c.label("missing file");
        c.nontrivial();
        return;
      }
    std::string t;
    if (kind <= 2)
      {
        // one value that cannot be
        const int i = c.draw(e.size());
        std::string bad;
        switch (e[i].kind)
          {
            case 'd':
              if (e[i].lo > -1 && c.boolean())
                bad = e[i].open && c.boolean() ? number(e[i].lo) : number(e[i].lo - c.logreal(1e-9, 1e3));
              else
                bad = c.pick<std::string>({"abc", "1,5", "1.0.0", "--1"});
              break;
            case 'i': bad = c.boolean() ? std::to_string(int(e[i].lo) - c.integer(1, 3)) : c.pick<std::string>({"abc", "2.5", "one"}); break;
            case 'b': bad = c.pick<std::string>({"maybe", "1", "TRUE", "on"}); break;
            case 's': bad = e[i].options[0] + "x"; break;
            default: bad = ""; break;
          }
        if (bad.empty())
          c.discard();
        // refused when read
        if (e[i].open && bad == number(e[i].lo))
          {
            if (e[i].group == "monolithic")
              x.v[find(e, "/Solution algorithm")] = "monolithic";
            if (e[i].group == "staggered")
              x.v[find(e, "/Solution algorithm")] = "bouncing";
            if (e[i].name == "Time step size")
              c.discard(); // only with assertions
          }
        x.v[i] = bad;
        what   = id(e[i].path, e[i].name) + " = " + bad;
        t      = file(c, e, x.v, out);
        c.label(std::string("kind ") + e[i].kind);
      }
    else if (kind == 3)
      {
        t    = file(c, e, x.v, out);
        what = c.pick<std::string>({"unknown entry", "unknown subsection", "missing end", "no equals sign"});
        t += what == "unknown entry" ? "set Verbos = true\n" : what == "unknown subsection" ? "subsection 7. More\n set A = 1\nend\n" :
             what == "missing end" ? "subsection 1. Spatial discretization parameters\n" : "subsection 1. Spatial discretization parameters\n set Spatial dimension\nend\n";
        c.label(what);
      }
    else
      {
        // values which are fine by themselves
        switch (c.integer(0, 2))
          {
            case 0:
              {
                std::vector<int> all;
                const bool       mono = x.str(find(e, "/Solution algorithm")) == "monolithic";
                for (unsigned i = 0; i < e.size(); ++i)
                  if (e[i].name.substr(0, 18) == "Relative tolerance" && (e[i].group == "monolithic") == mono)
                    all.push_back(i);
                const int i = c.pick(all);
                x.v[i]      = number(c.logreal(1e-12, 1e-3));
                x.v[i + 1]  = c.boolean() ? x.v[i] : number(x.num(i) * c.logreal(1.001, 1e3));
                what        = "absolute tolerance above the relative one";
                break;
              }
            case 1:
              {
                std::vector<int> all;
                const bool       mono = x.str(find(e, "/Solution algorithm")) == "monolithic";
                for (unsigned i = 0; i < e.size(); ++i)
                  if (e[i].name == "Alpha condition constant" && (e[i].group == "monolithic") == mono)
                    all.push_back(i);
                const int i = c.pick(all);
                x.v[i]      = number(c.real(0.2, 0.9));
                x.v[i + 1]  = c.chance(1, 3) ? std::string("1") : number(x.num(i) * c.real(0.5, 1));
                what        = "alpha, beta";
                break;
              }
            default:
              x.v[find(e, "/Spatial dimension")] = std::to_string(c.integer(4, 9));
              what                               = "dimension";
          }
        t = file(c, e, x.v, out);
        c.label(what);
      }
    c.note("defect", what);
    c.nontrivial();
    std::ofstream(dir + "/b.prm") << t;
    PBT_CHECK(refused<T>(dir + "/b.prm", why), "accepted: " << what);
  }

  PBT_PROPERTY("P21", "strip", 4) { reading<P>(c); }
  PBT_PROPERTY("P21", "semicoupled", 2) { reading<RTP::SemicoupledParameters>(c); }
  PBT_PROPERTY("P21", "refused", 3) { refusal<P>(c); }
  PBT_PROPERTY("P21", "refused-semicoupled", 1) { refusal<RTP::SemicoupledParameters>(c); }
} // namespace
