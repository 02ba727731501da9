// P23: the program as a user runs it: a parameter file in, tables and graphics
// out, against an independent solution of the strip.
#include "problem_std.h"
#include "oracle.h"
#include "program.h"
#include "strip.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

#include <zlib.h>

#include <cstring>
#include <filesystem>

using namespace vf;
namespace fs = std::filesystem;

namespace
{
  const char *name(const RTP::SolutionAlgorithm a)
  {
    return a == RTP::SolutionAlgorithm::Monolithic ? "monolithic" : a == RTP::SolutionAlgorithm::Bouncing ? "bouncing" : "embracing";
  }

  // a graphics file as deal.II writes it: arrays of 32 bit numbers, each
  // compressed in one block
  struct Vtu
  {
    unsigned                                  n_points = 0, n_cells = 0;
    std::vector<double>                       points; // three per point
    std::map<std::string, std::vector<double>> data;

    static std::string base64(const std::string &in)
    {
      std::string out;
      unsigned    bits = 0, n = 0;
      for (const char ch : in)
        {
          const char *a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
          const char *q = std::strchr(a, ch);
          if (ch == 0 || !q)
            continue;
          bits = (bits << 6) | unsigned(q - a);
          n += 6;
          if (n >= 8)
            {
              n -= 8;
              out.push_back(char((bits >> n) & 255));
            }
        }
      return out;
    }
    explicit Vtu(const fs::path &file)
    {
      std::ifstream      f(file);
      std::ostringstream o;
      o << f.rdbuf();
      const std::string t = o.str();
      const std::string where = file.filename().string();
      auto number = [&](const char *key) {
        const auto at = t.find(key);
        PBT_CHECK(at != std::string::npos, where << " has no " << key);
        return unsigned(std::atoi(t.c_str() + at + std::strlen(key)));
      };
      n_points = number("NumberOfPoints=\"");
      n_cells  = number("NumberOfCells=\"");
      for (std::size_t at = t.find("<DataArray "); at != std::string::npos; at = t.find("<DataArray ", at + 1))
        {
          const auto        end  = t.find('>', at);
          const std::string head = t.substr(at, end - at);
          if (head.find("Float32") == std::string::npos)
            continue;
          PBT_CHECK(head.find("format=\"binary\"") != std::string::npos, where << ": " << head);
          std::string name = "points";
          const auto  m    = head.find("Name=\"");
          if (m != std::string::npos)
            name = head.substr(m + 6, head.find('"', m + 6) - m - 6);
          std::string text = t.substr(end + 1, t.find('<', end) - end - 1);
          text.erase(0, text.find_first_not_of(" \n\t"));
          // four numbers: blocks, size of a block, of the last, compressed
          const std::string lengths = base64(text.substr(0, 24));
          PBT_CHECK(lengths.size() >= 16, where << ": header of " << name);
          unsigned l[4];
          std::memcpy(l, lengths.data(), 16);
          PBT_CHECK(l[0] == 1, where << ": " << l[0] << " blocks of " << name);
          const std::string  packed = base64(text.substr(24));
          std::vector<float> v(l[1] / 4);
          uLongf             n = l[1];
          PBT_CHECK(uncompress(reinterpret_cast<Bytef *>(v.data()), &n, reinterpret_cast<const Bytef *>(packed.data()), packed.size()) == Z_OK && n == l[1],
                    where << ": data of " << name);
          std::vector<double> d(v.begin(), v.end());
          if (name == "points")
            points = d;
          else
            data[name] = d;
        }
      PBT_CHECK(points.size() == 3 * n_points, where << ": " << points.size() / 3 << " points");
    }
  };

  struct Outcome
  {
    int         status = -1; // exit status, or minus the signal
    std::string output;
  };

  Outcome execute(const std::vector<std::string> &args, const std::string &dir, const std::string &log, const unsigned limit)
  {
    Outcome     r;
    const pid_t pid = fork();
    if (pid == 0)
      {
        if (chdir(dir.c_str()) != 0)
          _exit(126);
        const int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(fd, 1);
        dup2(fd, 2);
        // the program initialises MPI itself, as a process of its own
        std::vector<std::string> keep;
        for (char **e = environ; *e; ++e)
          {
            const std::string v = *e;
            if (v.rfind("OMPI_", 0) == 0 && v.rfind("OMPI_MCA_btl", 0) != 0 && v.rfind("OMPI_ALLOW", 0) != 0 &&
                v.rfind("OMPI_MCA_rmaps_base_over", 0) != 0 && v.rfind("OMPI_MCA_hwloc_base_b", 0) != 0)
              continue;
            if (v.rfind("PMIX_", 0) == 0 || v.rfind("ORTE_", 0) == 0)
              continue;
            keep.push_back(v);
          }
        if (args.size() < 2 || args[0].find("mpirun") == std::string::npos)
          keep.push_back("OMPI_MCA_ess_singleton_isolated=1");
        keep.push_back("OMPI_MCA_orte_tmpdir_base=" + dir);
        std::vector<char *> env, argv;
        for (auto &v : keep)
          env.push_back(const_cast<char *>(v.c_str()));
        env.push_back(nullptr);
        for (const auto &v : args)
          argv.push_back(const_cast<char *>(v.c_str()));
        argv.push_back(nullptr);
        alarm(limit);
        execve(args[0].c_str(), argv.data(), env.data());
        _exit(127);
      }
    int status = 0;
    waitpid(pid, &status, 0);
    r.status = WIFEXITED(status) ? WEXITSTATUS(status) : -WTERMSIG(status);
    std::ifstream      f(log);
    std::ostringstream o;
    o << f.rdbuf();
    r.output = o.str();
    return r;
  }

  std::string tail(const std::string &s)
  {
    const auto p = s.find("violated condition");
    if (p != std::string::npos)
      return s.substr(p > 300 ? p - 300 : 0, 900);
    return s.size() > 600 ? s.substr(s.size() - 600) : s;
  }

  struct Table
  {
    std::vector<std::string>              names;
    std::vector<std::vector<std::string>> rows;
    explicit Table(const std::string &file)
    {
      std::ifstream in(file);
      PBT_CHECK(bool(in), "there is no " << file);
      std::string l;
      while (std::getline(in, l))
        {
          std::vector<std::string> cells;
          std::stringstream        s(l);
          std::string              cell;
          bool                     first = true;
          while (std::getline(s, cell, '|'))
            {
              if (!first)
                {
                  const auto a = cell.find_first_not_of(" \t"), b = cell.find_last_not_of(" \t");
                  cells.push_back(a == std::string::npos ? "" : cell.substr(a, b - a + 1));
                }
              first = false;
            }
          while (!cells.empty() && cells.back().empty() && cells.size() > (names.empty() ? 0 : names.size()))
            cells.pop_back();
          if (cells.empty())
            continue;
          if (names.empty())
            names = cells;
          else
            rows.push_back(cells);
        }
    }
    double at(const unsigned row, const std::string &column) const
    {
      for (unsigned i = 0; i < names.size(); ++i)
        if (names[i] == column)
          {
            PBT_CHECK(row < rows.size() && i < rows[row].size(), "no row " << row << " in the table, column " << column);
            char        *end = nullptr;
            const double v   = std::strtod(rows[row][i].c_str(), &end);
            PBT_CHECK(end != rows[row][i].c_str() && *end == 0, "column " << column << " has the entry '" << rows[row][i] << "'");
            return v;
          }
      pbt::fail("no column " + column);
      return 0;
    }
  };

  template <int dim>
  struct Run
  {
    Strip<dim>  strip;
    Program     program;
    unsigned    n_y = 1, refinements = 0;
    unsigned    output_frequency = 1, homogenization_frequency = 1;
    bool        homogenize = true, output_damage = false, dimensionless_output = false, fluctuations = false, skip_extrema = false, line_search = true;
    double      extrapolation = 0, tolerance = 1e-10;
    std::string stem, out;

    RTP::SolverParameters &prm() { return strip.prm; }
    // staggered schemes: they stop far from machine precision
    double loose() { return prm().solution_algorithm == RTP::SolutionAlgorithm::Monolithic ? 1 : 100; }

    void draw(pbt::Case &c)
    {
      auto &s = strip;
      auto &l = s.layout;
      l.dim        = dim;
      l.n_crystals = c.pick<unsigned>({1, 2, 2, 3});
      refinements  = c.integer(0, dim == 2 ? 2 : 1);
      n_y          = c.integer(1, dim == 2 ? 4 - refinements : 2);
      while ((n_y << refinements) < l.n_crystals)
        ++n_y;
      s.n_cells = n_y << refinements;
      // no cell is centred on a boundary between layers
      for (unsigned e = 0; e < s.n_cells; ++e)
        if ((2 * e + 1) * l.n_crystals % (2 * s.n_cells) == 0)
          c.discard();
      s.height = c.pick<double>({1.0, 0.5, 2.0, 1.3});
      s.spec   = draw_crystals(c, dim, l.n_crystals, 2, false, c.chance(1, 10));
      l.n_slips = s.spec.n_slips();
      s.pu = c.integer(1, 2);
      s.ps = c.integer(1, 2);
      if (dim == 3 && refinements > 0)
        s.pu = s.ps = 1;
      parameters(c);
      draw_program_small(c);
      output_frequency         = c.integer(1, 4);
      homogenization_frequency = c.integer(1, 3);
      homogenize               = c.chance(4, 5);
      output_damage            = l.decohesion && c.chance(4, 5);
      skip_extrema             = c.boolean();
      dimensionless_output     = c.chance(1, 4);
      fluctuations             = c.chance(1, 4);
      extrapolation            = c.pick<double>({0.0, 1.0, 0.5});
      describe(c, s.spec);
      c.note("layers", l.n_crystals).note("cells", s.n_cells).note("degrees", std::to_string(s.pu) + "/" + std::to_string(s.ps))
        .note("height", s.height).note("algorithm", name(prm().solution_algorithm)).note("gb", int(prm().boundary_conditions_at_grain_boundaries))
        .note("decohesion", l.decohesion).note("dimensionless", prm().dimensionless_form_parameters.flag_solve_dimensionless_problem);
    }

    void parameters(pbt::Case &c)
    {
      auto &p = prm();
      auto &l = p.constitutive_laws_parameters;
      // the input admits no negative moduli
      const double mu = c.logreal(0.5, 5), mup = c.chance(1, 3) ? mu : c.logreal(0.5, 5), bulk = mup * c.logreal(0.7, 5);
      const double unit = c.pick<double>({1.0, 1.0, 100.0});
      l.hooke_law_parameters.C1111 = unit * (bulk + 4.0 / 3 * mup);
      l.hooke_law_parameters.C1122 = unit * (bulk - 2.0 / 3 * mup);
      l.hooke_law_parameters.C1212 = unit * mu;
      l.scalar_microstress_law_parameters.regularization_function =
        c.pick<RTP::RegularizationFunction>({RTP::RegularizationFunction::Tanh, RTP::RegularizationFunction::Atan, RTP::RegularizationFunction::Sqrt, RTP::RegularizationFunction::Gd, RTP::RegularizationFunction::Erf});
      l.scalar_microstress_law_parameters.flag_rate_independent = false;
      auto &h = l.hardening_law_parameters;
      h.initial_slip_resistance  = unit * c.logreal(0.02, 0.5);
      h.linear_hardening_modulus = unit * c.logreal(0.05, 2);
      h.hardening_parameter      = c.pick<double>({1.0, 0.0, 1.4, 0.5});
      h.flag_perfect_plasticity  = false;
      auto &v = l.vectorial_microstress_law_parameters;
      v.energetic_length_scale  = c.chance(1, 5) ? 0.0 : c.logreal(0.05, 1);
      v.initial_slip_resistance = h.initial_slip_resistance;
      v.defect_energy_index     = c.chance(2, 3) ? 2.0 : c.real(2, 3);
      l.microtraction_law_parameters.grain_boundary_modulus = unit * c.logreal(0.01, 2);
      auto &co = l.cohesive_law_parameters;
      co.critical_cohesive_traction           = unit * c.logreal(0.5, 5);
      co.critical_opening_displacement        = c.logreal(0.02, 0.5);
      co.tangential_to_normal_stiffness_ratio = c.pick<double>({1.0, 0.7, 1.5});
      l.contact_law_parameters.penalty_coefficient = unit * c.logreal(1, 100);
      auto &da = l.damage_evolution_parameters;
      da.damage_evolution_model = c.boolean() ? RTP::DamageEvolutionModel::M1 : RTP::DamageEvolutionModel::OrtizEtAl;
      da.damage_accumulation_constant = c.logreal(0.1, 10);
      da.damage_decay_constant        = c.pick<double>({0.0, 0.1});
      da.damage_decay_exponent        = c.pick<double>({1.0, 0.0, 2.0});
      da.endurance_limit              = c.boolean() ? 0.0 : 1e-4 * unit;
      da.degradation_exponent         = c.pick<double>({1.0, 2.0});
      l.degradation_function_parameters.degradation_exponent = da.degradation_exponent;
      da.flag_couple_microtraction_to_damage = c.boolean();
      da.flag_couple_macrotraction_to_damage = false;
      da.flag_set_damage_to_zero             = c.chance(1, 8);
      const bool multi        = strip.layout.n_crystals > 1;
      strip.layout.decohesion = multi && c.chance(1, 3);
      p.allow_decohesion      = strip.layout.decohesion;
      using BC = RTP::BoundaryConditionsAtGrainBoundaries;
      p.boundary_conditions_at_grain_boundaries = multi ? c.pick<BC>({BC::Microfree, BC::Microhard, BC::Microtraction}) : BC::Microfree;
      strip.microhard = p.boundary_conditions_at_grain_boundaries == BC::Microhard;
      p.solution_algorithm = c.pick<RTP::SolutionAlgorithm>({RTP::SolutionAlgorithm::Monolithic, RTP::SolutionAlgorithm::Monolithic, RTP::SolutionAlgorithm::Monolithic, RTP::SolutionAlgorithm::Bouncing, RTP::SolutionAlgorithm::Embracing});
      if (strip.layout.n_slips == 0 || strip.layout.decohesion)
        p.solution_algorithm = RTP::SolutionAlgorithm::Monolithic;
      auto &n = p.dimensionless_form_parameters;
      if (!strip.layout.decohesion && p.boundary_conditions_at_grain_boundaries != BC::Microtraction && c.chance(1, 3))
        {
          n.flag_solve_dimensionless_problem = true;
          auto &q           = n.characteristic_quantities;
          q.length          = 1;
          q.displacement    = c.logreal(0.01, 2);
          q.stiffness       = unit * c.logreal(0.5, 2);
          q.slip_resistance = h.initial_slip_resistance * c.logreal(0.5, 2);
          q.strain          = q.displacement / q.length;
          q.stress          = q.stiffness * q.strain;
          n.dimensionless_numbers[0] = q.length / q.displacement;
          n.dimensionless_numbers[1] = h.linear_hardening_modulus / q.slip_resistance;
          n.dimensionless_numbers[2] = v.initial_slip_resistance / q.slip_resistance * std::pow(v.energetic_length_scale / q.length, v.defect_energy_index);
          n.dimensionless_numbers[3] = q.stress / q.slip_resistance;
        }
      line_search = !c.chance(1, strip.layout.decohesion ? 8 : 3);
    }

    void draw_program_small(pbt::Case &c)
    {
      auto        &p = program;
      const auto  &l = prm().constitutive_laws_parameters;
      const double yield = l.hardening_law_parameters.initial_slip_resistance / l.hooke_law_parameters.C1212;
      p.cyclic  = c.boolean();
      p.max     = 2 * yield * c.pick<double>({1.0, 0.3, 2.0});
      if (strip.layout.decohesion)
        p.max = std::min(p.max, c.pick<double>({0.1, 0.3, 0.5}) * l.cohesive_law_parameters.critical_opening_displacement / strip.height);
      p.min     = c.boolean() ? 0.0 : 0.5 * p.max;
      p.T_mono  = c.pick<double>({1.0, 0.4, 5.0});
      p.n_mono  = c.integer(1, 5);
      if (!p.cyclic)
        {
          p.max /= p.T_mono;
          p.min = 0.3 * p.max * c.integer(0, 1);
        }
      p.T_load    = c.pick<double>({1.0, 0.5});
      p.n_load    = c.integer(1, 2);
      p.period    = c.pick<double>({1.0, 4.0});
      p.n_quarter = c.integer(1, 2);
      p.n_cycles  = 1;
      p.skip_unloading = c.boolean();
      for (unsigned k = 0; k + 1 < p.steps(); ++k)
        if (p.end() - p.time(k + 1) < 0.1 * (p.time(k + 1) - p.time(k)))
          c.discard();
      const double step = p.time(1) - p.time(0);
      // rates of the order of the regularisation
      prm().constitutive_laws_parameters.scalar_microstress_law_parameters.regularization_parameter = c.logreal(0.3, 5) * yield / step;
      c.note("cyclic", p.cyclic).note("max", p.max).note("min", p.min).note("steps", p.steps());
    }

    void write(const std::string &file, pbt::Case &c)
    {
      const auto &p = prm();
      const auto &l = p.constitutive_laws_parameters;
      using F = RTP::RegularizationFunction;
      const auto reg = l.scalar_microstress_law_parameters.regularization_function;
      auto       yes = [](const bool b) { return b ? "true" : "false"; };
      std::ofstream o(file);
      o.precision(17);
      o << "set Verbose = " << yes(c.boolean()) << "\n"
        << "subsection 0. Infinite strip parameters (Extended in 1. and 2.)\n subsection Loading parameters\n  set Control type = displacement_control\n end\nend\n"
        << "subsection 1. Spatial discretization parameters\n"
        << " set FE's polynomial degree - Displacements = " << strip.pu << "\n set FE's polynomial degree - Slips = " << strip.ps << "\n"
        << " set Number of global refinements = " << refinements << "\n set Spatial dimension = " << dim << "\n"
        << " subsection Problem specific parameters\n  set Height of the strip = " << strip.height << "\n"
        << "  set Number of elements in y-direction = " << n_y << "\n"
        << "  set Number of equally sized crystals in y-direction = " << strip.layout.n_crystals << "\n end\nend\n"
        << "subsection 2. Temporal discretization parameters\n"
        << " subsection Simple loading\n  set Loading type = " << (program.cyclic ? "cyclic" : "monotonic") << "\n"
        << "  set Maximum load = " << program.max << "\n  set Minimum load = " << program.min << "\n"
        << "  subsection Monotonic load parameters\n   set Duration of monotonic load = " << program.T_mono << "\n"
        << "   set Number of steps during monotonic load = " << program.n_mono << "\n  end\n"
        << "  subsection Cyclic load parameters\n   set Duration of un- and loading phase = " << program.T_load << "\n"
        << "   set Number of steps during un- and loading phase = " << program.n_load << "\n   set Period = " << program.period << "\n"
        << "   set Number of steps during a quarter cycle = " << program.n_quarter << "\n   set Number of cycles = " << program.n_cycles << "\n"
        << "   set Skip unloading phase = " << yes(program.skip_unloading) << "\n  end\n end\nend\n"
        << "subsection 3. Input parameters\n set Euler angles path name = " << stem << "_angles\n set Slip directions path name = " << stem
        << "_dirs\n set Slip normals path name = " << stem << "_normals\nend\n"
        << "subsection 4. Output parameters\n set Graphical output directory = " << out << "\n set Graphical output frequency = " << output_frequency
        << "\n set Output damage variable field = " << yes(output_damage) << "\n set Output dimensionless quantities = " << yes(dimensionless_output) << "\n set Output fluctuations fields = " << yes(fluctuations) << "\nend\n"
        << "subsection 5. Postprocessing parameters\n subsection Homogenization\n  set Compute homogenized quantities = " << yes(homogenize)
        << "\n  set Homogenization frequency = " << homogenization_frequency << "\n end\nend\n"
        << "subsection 6. Solver parameters\n set Allow decohesion at grain boundaries = " << yes(p.allow_decohesion) << "\n"
        << " set Boundary conditions at grain boundaries = "
        << (p.boundary_conditions_at_grain_boundaries == RTP::BoundaryConditionsAtGrainBoundaries::Microfree ? "microfree" :
            p.boundary_conditions_at_grain_boundaries == RTP::BoundaryConditionsAtGrainBoundaries::Microhard ? "microhard" : "microtraction")
        << "\n set Solution algorithm = " << name(p.solution_algorithm) << "\n set Skip extrapolation of start value at extrema = " << yes(skip_extrema)
        << "\n set Extrapolation factor = " << extrapolation << "\n"
        << " subsection Dimensionless formulation parameters\n  set Solve the dimensionless problem = " << yes(p.dimensionless_form_parameters.flag_solve_dimensionless_problem) << "\n";
      const auto &q = p.dimensionless_form_parameters.characteristic_quantities;
      o << "  subsection Reference parameters\n   set Reference displacement value = " << q.displacement << "\n   set Reference length value = " << q.length
        << "\n   set Reference slip resistance value = " << q.slip_resistance << "\n   set Reference stiffness value = " << q.stiffness << "\n  end\n end\n"
        << " subsection Constitutive laws' parameters\n"
        << "  subsection Cohesive law's parameters\n   set Critical opening displacement = " << l.cohesive_law_parameters.critical_opening_displacement
        << "\n   set Critical cohesive traction = " << l.cohesive_law_parameters.critical_cohesive_traction
        << "\n   set Tangential to normal stiffness ratio = " << l.cohesive_law_parameters.tangential_to_normal_stiffness_ratio << "\n  end\n"
        << "  subsection Contact law's parameters\n   set Penalty coefficient = " << l.contact_law_parameters.penalty_coefficient << "\n  end\n"
        << "  subsection Damage evolution parameters\n   set Couple macrotraction to damage = " << yes(l.damage_evolution_parameters.flag_couple_macrotraction_to_damage)
        << "\n   set Couple microtraction to damage = " << yes(l.damage_evolution_parameters.flag_couple_microtraction_to_damage)
        << "\n   set Damage accumulation constant = " << l.damage_evolution_parameters.damage_accumulation_constant
        << "\n   set Damage decay constant = " << l.damage_evolution_parameters.damage_decay_constant
        << "\n   set Damage decay exponent = " << l.damage_evolution_parameters.damage_decay_exponent
        << "\n   set Damage evolution model = " << (l.damage_evolution_parameters.damage_evolution_model == RTP::DamageEvolutionModel::M1 ? "M1" : "OrtizEtAl")
        << "\n   set Endurance limit = " << l.damage_evolution_parameters.endurance_limit
        << "\n   set Set damage to zero = " << yes(l.damage_evolution_parameters.flag_set_damage_to_zero) << "\n  end\n"
        << "  subsection Degradation function parameters\n   set Degradation exponent = " << l.degradation_function_parameters.degradation_exponent << "\n  end\n"
        << "  subsection Hardening law's parameters\n   set Hardening parameter = " << l.hardening_law_parameters.hardening_parameter
        << "\n   set Initial slip resistance = " << l.hardening_law_parameters.initial_slip_resistance
        << "\n   set Linear hardening modulus = " << l.hardening_law_parameters.linear_hardening_modulus
        << "\n   set Perfect plasticity = " << yes(l.hardening_law_parameters.flag_perfect_plasticity) << "\n  end\n"
        << "  subsection Hooke-Law's parameters\n   set C1111 = " << l.hooke_law_parameters.C1111 << "\n   set C1122 = " << l.hooke_law_parameters.C1122
        << "\n   set C1212 = " << l.hooke_law_parameters.C1212 << "\n  end\n"
        << "  subsection Microtraction law's parameters\n   set Grain boundary modulus = " << l.microtraction_law_parameters.grain_boundary_modulus << "\n  end\n"
        << "  subsection Scalar microstress law's parameters\n   set Rate-independent behavior = false\n   set Regularization function = "
        << (reg == F::Atan ? "atan" : reg == F::Sqrt ? "sqrt" : reg == F::Gd ? "gd" : reg == F::Tanh ? "tanh" : "erf")
        << "\n   set Regularization parameter = " << l.scalar_microstress_law_parameters.regularization_parameter << "\n  end\n"
        << "  subsection Vectorial microstress law's parameters\n   set Defect energy index = " << l.vectorial_microstress_law_parameters.defect_energy_index
        << "\n   set Energetic length scale = " << l.vectorial_microstress_law_parameters.energetic_length_scale
        << "\n   set Initial slip resistance = " << l.vectorial_microstress_law_parameters.initial_slip_resistance << "\n  end\n end\n";
      auto algorithm = [&](const std::string &in, const unsigned iterations) {
        o << in << "subsection Krylov parameters\n" << in << " set Absolute tolerance = 1e-15\n" << in << " set Maximum number of iterations = 20000\n"
          << in << " set Relative tolerance = 1e-10\n" << in << " set Solver type = directsolver\n" << in << "end\n"
          << in << "subsection Newton-Raphson parameters\n" << in << " set Absolute tolerance of the residual = " << tolerance << "\n"
          << in << " set Line search algorithm = " << yes(line_search) << "\n" << in << " set Maximum number of iterations = " << iterations << "\n"
          << in << " set Relative tolerance of the residual = 1e-3\n" << in << "end\n";
      };
      o << " subsection Monolithic algorithm\n";
      algorithm("  ", 60);
      o << " end\n subsection Staggered algorithm\n  set Maximum number of solution loops = 80\n";
      o << "  subsection Linear momentum balance\n";
      algorithm("   ", 60);
      o << "  end\n  subsection Pseudo-balance\n";
      algorithm("   ", 60);
      o << "  end\n end\nend\n";
    }
  };

  template <int dim, class Run>
  void graphics(Run &run, const std::vector<double> &x, const std::vector<double> &damage, const unsigned k, const double largest)
  {
    auto &strip = run.strip;
    char  b[64];
    std::snprintf(b, sizeof b, "/paraview/solution_%05u.0.vtu", k);
    Vtu          v(run.out + b);
    const double loose = 2e-6 * run.loose();
    auto         ch    = run.prm().dimensionless_form_parameters.characteristic_quantities;
    const double U     = run.dimensionless_output ? 1.0 : ch.displacement;
    const double S     = run.dimensionless_output || !run.prm().dimensionless_form_parameters.flag_solve_dimensionless_problem ? 1.0 : ch.stress;
    const auto   now   = strip.x;
    strip.x            = x;
    const unsigned per = 1 << dim;
    PBT_CHECK(v.n_points == per * v.n_cells, b << " has " << v.n_points << " points in " << v.n_cells << " cells");
    auto field = [&](const std::string &name, const unsigned n) -> const std::vector<double> & {
      PBT_CHECK(v.data.count(name) && v.data[name].size() == n * v.n_points, b << " has no complete field " << name);
      return v.data[name];
    };
    const auto &u = field("Displacement", 3);
    PBT_CHECK(v.data.count("StressFluctuations_12") == unsigned(run.fluctuations),
              "output " << k << (run.fluctuations ? " does not show" : " shows") << " the fluctuations");
    double u_size = 0, s_size = 0;
    for (const double q : x)
      u_size = std::max(u_size, std::fabs(q));
    s_size = u_size;
    for (unsigned e = 0; e < v.n_cells; ++e)
      {
        double centre = 0;
        for (unsigned i = 0; i < per; ++i)
          centre += v.points[3 * (per * e + i) + 1] / per;
        const unsigned row = std::min(strip.n_cells - 1, unsigned(centre / strip.h()));
        for (unsigned i = 0; i < per; ++i)
          {
            const unsigned p = per * e + i;
            const double   s = std::round(v.points[3 * p + 1] / strip.h() - row);
            const auto     w = strip.evaluate(row, x, s);
            const std::string at = " at height " + std::to_string(v.points[3 * p + 1]) + " in output " + std::to_string(k);
            for (int d = 0; d < dim; ++d)
              pbt::close(u[3 * p + d] / U, w.u[d], loose, loose * u_size + 1e-12, "displacement" + at);
            for (unsigned a = 0; a < strip.layout.n_slips; ++a)
              {
                std::snprintf(b, sizeof b, "Slip_%02u", a + 1);
                pbt::close(field(b, 1)[p], w.slip[a], loose, 10 * loose * s_size + 1e-12, b + at);
              }
            pbt::close(field("Stress_12", 1)[p] / S, strip.stress(row, s)[0][1], loose, 10 * (loose * largest + 1e-9), "stress 12" + at);
            // there is no macroscopic strain
            if (run.fluctuations)
              pbt::close(field("StressFluctuations_12", 1)[p], field("Stress_12", 1)[p], 1e-6, 1e-12 + 1e-6 * S * largest, "fluctuations of stress 12" + at);
          }
      }
    strip.x = now;
    if (!run.output_damage)
      return;
    std::snprintf(b, sizeof b, "/paraview/damage_%05u.0.vtu", k);
    Vtu         w(run.out + b);
    PBT_CHECK(w.n_cells > 0 && w.data.count("damage") && w.data["damage"].size() == w.n_points, b << " has no damage");
    unsigned shown = 0;
    for (unsigned p = 0; p < w.n_points; ++p)
      {
        const double at   = w.points[3 * p + 1] / strip.h();
        const int    line = int(std::lround(at));
        if (std::fabs(at - line) > 1e-3)
          continue;
        double expected = 0;
        if (line > 0 && line < int(strip.n_cells) && strip.layer[line - 1] != strip.layer[line])
          {
            expected = damage[strip.layer[line - 1]];
            ++shown;
          }
        pbt::close(w.data["damage"][p], expected, 1e-4 * run.loose(), 1e-5 * run.loose(), "damage at height " + std::to_string(w.points[3 * p + 1]) + " in output " + std::to_string(k));
      }
    PBT_CHECK(shown > 0 || strip.layout.n_crystals == 1, "no grain boundary in " << b);
  }

  template <int dim>
  void strip_problem(pbt::Case &c, const bool debug)
  {
    Run<dim> run;
    run.draw(c);
    const std::string dir = pbt::scratch() + "/app/";
    fs::remove_all(dir);
    fs::create_directories(dir);
    run.out  = c.boolean() ? dir + "out/" : dir + "some where/out";
    run.stem = write_crystal_files(run.strip.spec, dir + "crystal");
    // left by an earlier simulation
    const bool stale = c.boolean();
    fs::create_directories(run.out + "/paraview");
    if (stale)
      for (const char *f : {"/paraview/solution_00099.0.vtu", "/paraview/solution_00099.pvtu", "/paraview/notes.txt"})
        std::ofstream(run.out + f) << "old\n";
    const auto  &ch     = run.prm().dimensionless_form_parameters.characteristic_quantities;
    const double stress = run.prm().dimensionless_form_parameters.flag_solve_dimensionless_problem ? ch.stress : 1.0;
    auto &p = run.program;
    // the reference first: cases it cannot solve are not used
    struct State
    {
      double shear, top;
      M3     sigma, strain;
      std::vector<double> x, damage;
    };
    std::vector<State> states;
    run.strip.init();
    double largest = 0;
    for (unsigned k = 0; k < p.steps(); ++k)
      {
        State s;
        s.shear = p.load(p.time(k + 1));
        if (!run.strip.step(V3{{s.shear * run.strip.height / ch.displacement, 0, 0}}, p.time(k + 1) - p.time(k)))
          {
            c.label("no reference");
            c.discard();
          }
        s.top = run.strip.top_stress()[0][1];
        run.strip.averages(s.sigma, s.strain);
        s.x = run.strip.x;
        for (const auto &i : run.strip.interface_)
          s.damage.push_back(i.damage);
        largest = std::max({largest, maxabs(s.sigma), std::fabs(s.top)});
        states.push_back(s);
      }
    // beyond the peak of the cohesive law there can be several solutions
    if (run.strip.largest_opening > 0.9 * run.prm().constitutive_laws_parameters.cohesive_law_parameters.critical_opening_displacement)
      c.discard();
    // residuals scale with the width of the strip and with its units
    run.tolerance = std::min(1e-7, std::max(1e-12, 1e-10 * run.loose() * largest * stress / (run.prm().dimensionless_form_parameters.flag_solve_dimensionless_problem ? ch.slip_resistance : 1.0)));
    run.write(dir + "strip.prm", c);
    const char *build = std::getenv("VERIF_BUILD");
    const std::string exe = std::string(build ? build : "/verif/build") + (debug && run.loose() == 1 ? "/simple_shear" : "/simple_shear_rel");
    const Outcome r = execute({exe, dir + "strip.prm"}, dir, dir + "log", run.prm().solution_algorithm == RTP::SolutionAlgorithm::Monolithic ? 250 : 4);
    if (r.status == 127 || r.status == 126)
      throw std::runtime_error("cannot start " + exe);
    const auto algorithm = run.prm().solution_algorithm;
    // the staggered schemes converge linearly, if at all
    // nor does Newton's method have to without a line search, or where an
    // interface switches between loading and unloading
    const bool may_give_up = algorithm != RTP::SolutionAlgorithm::Monolithic || !run.line_search || run.strip.layout.decohesion;
    if (may_give_up &&
        (r.status == -SIGALRM || r.output.find("Exception in the solve method") != std::string::npos || (r.status == 1 && r.output.find("maximum number of iterations") != std::string::npos)))
      {
        c.label(algorithm != RTP::SolutionAlgorithm::Monolithic ? "staggered scheme gave up" : "no convergence");
        return;
      }
    PBT_CHECK(r.status == 0, "the program ends with " << r.status << ": " << tail(r.output));
    c.label(name(algorithm));
    c.nontrivial(run.strip.layout.n_slips > 0 && p.steps() > 1);

    const double tol = 1e-6 * run.loose() * largest + 1e-9;
    Table t(run.out + "/stress12_vs_shear_strain_at_boundary.txt");
    PBT_CHECK(t.rows.size() == states.size(), t.rows.size() << " rows of stress and shear for " << states.size() << " load steps");
    // known finding: displacements torn at the edges between crystals
    if (dim == 3 && run.strip.layout.n_crystals > 1 && !run.strip.layout.decohesion && run.strip.layout.n_slips > 0 && run.strip.pu > 1 &&
        run.strip.ps > 1 && pbt::is_known_finding("edge-continuity-3d"))
      for (unsigned k = 0; k < states.size(); ++k)
        if (!(std::fabs(t.at(k, "stress_12_at_upper_boundary") - states[k].top) <= 2e-6 * std::fabs(states[k].top) + tol))
          {
            c.known("edge-continuity-3d", "the strip of quadratic elements is too soft: displacements torn at the edges between crystals");
            return;
          }
    // a broken interface, which carries nothing, is a solution as well
    if (run.strip.layout.decohesion)
      for (unsigned k = 0; k < states.size(); ++k)
        if (std::fabs(t.at(k, "stress_12_at_upper_boundary")) < 1e-3 * std::fabs(states[k].top) && std::fabs(states[k].top) > 1e-2 * largest)
          {
            c.label("broken");
            return;
          }
    for (unsigned k = 0; k < states.size(); ++k)
      {
        pbt::close(t.at(k, "shear_at_upper_boundary"), states[k].shear, 2e-6, 1e-12, "shear of step " + std::to_string(k));
        pbt::close(t.at(k, "stress_12_at_upper_boundary"), states[k].top, 2e-6, tol, "shear stress of step " + std::to_string(k));
      }
    Table n(run.out + "/solution_algorithm_statistics.txt");
    PBT_CHECK(n.rows.size() == states.size(), n.rows.size() << " rows of statistics for " << states.size() << " load steps");
    for (unsigned k = 0; k < states.size(); ++k)
      PBT_CHECK(n.at(k, "LoadStep") == k + 1 && n.at(k, "Iterations") >= 0, "statistics of step " << k + 1);
    std::set<std::string> expected, found;
    unsigned              n_out = 0;
    std::vector<unsigned> rows;
    for (unsigned k = 1; k <= states.size(); ++k)
      {
        if (k % run.output_frequency == 0 || k == states.size())
          {
            char b[64];
            for (const char *what : {"solution", "damage"})
              if (run.output_damage || std::string(what) == "solution")
                {
                  std::snprintf(b, sizeof b, "%s_%05u.pvtu", what, n_out);
                  expected.insert(b);
                }
            ++n_out;
          }
        if (run.homogenize && (k % run.homogenization_frequency == 0 || k == states.size()))
          rows.push_back(k - 1);
      }
    for (const auto &e : fs::directory_iterator(run.out + "/paraview"))
      {
        if (e.path().extension() == ".pvtu")
          found.insert(e.path().filename().string());
        PBT_CHECK(e.path().filename() != "solution_00099.0.vtu", "graphics of an earlier simulation are left");
        if (e.path().extension() == ".vtu")
          {
            std::ifstream      f(e.path());
            std::ostringstream o;
            o << f.rdbuf();
            PBT_CHECK(o.str().find("</VTKFile>") != std::string::npos, e.path().filename() << " is incomplete");
            const auto at = o.str().find("NumberOfCells=\"");
            if (e.path().filename().string().rfind("solution", 0) == 0)
              PBT_CHECK(at != std::string::npos && std::atoi(o.str().c_str() + at + 15) == int(run.strip.n_cells * std::pow(1 << run.refinements, dim - 1)),
                        e.path().filename() << " does not show all cells");
          }
      }
    // what the graphics show
    n_out = 0;
    for (unsigned k = 1; k <= states.size(); ++k)
      if (k % run.output_frequency == 0 || k == states.size())
        {
          graphics<dim>(run, states[k - 1].x, states[k - 1].damage, n_out, largest);
          ++n_out;
        }
    if (run.output_damage && run.strip.layout.n_crystals > 1)
      for (const double d : states.back().damage)
        if (d > 1e-3)
          {
            c.label("damage shown");
            break;
          }
    if (run.dimensionless_output && run.prm().dimensionless_form_parameters.flag_solve_dimensionless_problem)
      c.label("dimensionless graphics");
    if (stale)
      PBT_CHECK(fs::exists(run.out + "/paraview/notes.txt"), "a file that is no graphics was deleted");
    std::string lists;
    for (const auto &f : found)
      lists += f + " ";
    PBT_CHECK(found == expected, "graphics written: " << lists << ", expected " << expected.size());
    PBT_CHECK(fs::exists(run.out + "/triangulation.vtu") && fs::exists(run.out + "/parameter_file.prm"), "the mesh or the copy of the parameters is missing");
    Table h(run.out + "/homogenization.txt");
    PBT_CHECK(h.rows.size() == rows.size(), h.rows.size() << " rows of averages instead of " << rows.size());
    static const std::vector<std::pair<std::string, std::pair<int, int>>> voigt = {
      {"11", {0, 0}}, {"22", {1, 1}}, {"33", {2, 2}}, {"23", {1, 2}}, {"13", {0, 2}}, {"12", {0, 1}}};
    for (unsigned k = 0; k < rows.size(); ++k)
      {
        const State &s = states[rows[k]];
        pbt::close(h.at(k, "Time"), p.time(rows[k] + 1), 1e-4, 6e-5, "time of the averages");
        for (const auto &v : voigt)
          {
            const int i = v.second.first, j = v.second.second;
            if (i >= dim || j >= dim)
              continue;
            pbt::close(h.at(k, "Stress_" + v.first), s.sigma[i][j], 0, tol, "average stress " + v.first + " of step " + std::to_string(rows[k]));
            pbt::close(h.at(k, "Strain_" + v.first), s.strain[i][j], 0, 1e-6 * run.loose() * maxabs(s.strain) + 1e-9, "average strain " + v.first + " of step " + std::to_string(rows[k]));
          }
      }
    fs::remove_all(dir);
  }
} // namespace

PBT_PROPERTY("P23", "strip-2d", 2) { strip_problem<2>(c, true); }
PBT_PROPERTY("P23", "strip-2d-release", 5) { strip_problem<2>(c, false); }
PBT_PROPERTY("P23", "strip-3d-release", 2) { strip_problem<3>(c, false); }
