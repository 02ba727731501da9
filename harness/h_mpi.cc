// P27: results do not depend on the number of processes.  The case is solved
// by this process and by a group of processes which draws the same case.
#include "problem_std.h"
#include "variant.h"
#include "mpi_group.h"

#include <gCP/postprocessing.h>
#include <gCP/run_time_parameters.h>

#include <filesystem>

using namespace vf;

namespace
{
  template <int dim>
  struct Shared
  {
    Variant<dim>       v;
    bool               homogenise = false;
    unsigned           face       = 0;
    std::vector<Values>              values;
    std::vector<std::vector<double>> damage; // per step: average
    std::vector<double>              table;

    void draw(pbt::Case &c, const bool rate_independent)
    {
      auto &s = v.s;
      v.rate_independent    = rate_independent;
      const bool decohesion = !rate_independent && c.boolean();
      v.max_cells           = dim == 2 ? 9 : 3;
      v.draw(c, decohesion, c.chance(1, 4));
      v.tolerance(1e-11);
      homogenise = c.boolean();
      face       = c.integer(0, 2 * dim - 1);
      s.p.periodic_x = false;
      if (rate_independent)
        {
          // well beyond the yield surface, not on it
          s.set_algorithm(RTP::SolutionAlgorithm::Monolithic);
          const double first = c.real(1, 8), step = c.real(0.5, 3);
          double       size  = 0;
          for (const double f : s.load)
            size = std::max(size, std::fabs(f));
          if (size == 0)
            size = s.yield_strain() / s.p.prm.dimensionless_form_parameters.characteristic_quantities.displacement;
          for (unsigned i = 0; i < s.load.size(); ++i)
            s.load[i] = size * (first + i * step);
        }
    }

    void read(std::istream &in)
    {
      std::string token;
      while (in >> token)
        {
          char        *end;
          const double x = std::strtod(token.c_str(), &end);
          if (*end == 0 && end != token.c_str())
            table.push_back(x);
        }
    }

    // values of the locally owned cells; false: gave up
    bool run()
    {
      auto &s = v.s;
      s.build();
      gCP::Postprocessing::Homogenization<dim> h(s.p.field, s.p.mapping);
      gCP::Postprocessing::SimpleShear<dim>    shear(s.p.field, s.p.mapping, 1.0, 0.0, 1.0, 1.0, RTP::LoadingType::Monotonic, face, 1.0);
      const std::string file = pbt::scratch() + "/homogenization.txt";
      if (homogenise)
        {
          std::ofstream out(file);
          h.init(s.p.solver->get_elastic_strain_law(), s.p.solver->get_hooke_law(), out);
          shear.init(s.p.solver->get_elastic_strain_law(), s.p.solver->get_hooke_law());
        }
      for (unsigned i = 0; i < s.load.size(); ++i)
        {
          if (!s.solve())
            return false;
          values.push_back(v.values());
          damage.push_back({s.p.solver->get_macroscopic_damage()});
          s.accept();
          if (homogenise)
            {
              h.compute_macroscopic_quantities(s.p.time->get_current_time());
              shear.compute_data(s.p.time->get_current_time());
            }
        }
      if (homogenise)
        {
          h.output_macroscopic_quantities_to_file();
          std::stringstream at_boundary;
          shear.output_data_to_file(at_boundary);
          std::ifstream in(file);
          read(in);
          read(at_boundary);
        }
      return true;
    }

    // numbers to and from the other side
    std::vector<double> pack() const
    {
      std::vector<double> r{double(values.size())};
      for (unsigned i = 0; i < values.size(); ++i)
        {
          r.push_back(damage[i][0]);
          r.push_back(values[i].size());
          for (const auto &x : values[i])
            {
              const auto &p = x.first;
              r.insert(r.end(), {double(std::get<0>(p)), double(std::get<1>(p)), double(std::get<2>(p)), double(std::get<3>(p)),
                                 double(std::get<4>(p)), double(std::get<5>(p)), x.second});
            }
        }
      r.push_back(table.size());
      r.insert(r.end(), table.begin(), table.end());
      return r;
    }
    void unpack(const std::vector<double> &r, unsigned &at)
    {
      const unsigned n = r.at(at++);
      values.resize(std::max<std::size_t>(values.size(), n));
      damage.resize(values.size());
      for (unsigned i = 0; i < n; ++i)
        {
          damage[i].push_back(r.at(at++));
          unsigned m = r.at(at++);
          for (; m; --m, at += 7)
            values[i][Place(r.at(at), r.at(at + 1), r.at(at + 2), r.at(at + 3), r.at(at + 4) != 0, r.at(at + 5))] = r.at(at + 6);
        }
      const unsigned t = r.at(at++);
      table.assign(r.begin() + at, r.begin() + at + t);
      at += t;
    }
  };

  template <int dim>
  void processes(pbt::Case &c, const bool rate_independent)
  {
    const unsigned n = c.pick<unsigned>({2, 3, 5});
    Shared<dim>    a, b;
    a.draw(c, rate_independent);
    if (!a.run())
      c.discard();
    c.note("processes", n);
    c.label(std::to_string(n) + " processes");
    std::vector<double> reply;
    const std::string   trouble = MpiGroup::of(n).ask(rate_independent ? -dim : dim, c.recorded, reply);
    PBT_CHECK(trouble.empty(), trouble << " with " << n << " processes");
    unsigned                         at = 0;
    std::vector<std::vector<double>> tables;
    for (unsigned rank = 0; rank < n; ++rank)
      {
        const bool solved = reply.at(at++) == 1;
        // whether the iterations end may hang on a round-off: the sign of
        // a slip increment that is zero
        if (!solved && rate_independent)
          {
            c.label("no convergence");
            c.discard();
          }
        PBT_CHECK(solved, "process " << rank << " of " << n << " found no solution");
        b.unpack(reply, at);
        tables.push_back(b.table);
      }
    c.nontrivial(a.v.s.p.tria.n_active_cells() > 1 && a.v.s.p.layout.n_slips > 0);
    compare(a.values, b.values, 1e-5, ("with " + std::to_string(n) + " processes").c_str());
    for (unsigned i = 0; i < a.damage.size(); ++i)
      for (const double d : b.damage[i])
        pbt::close(d, a.damage[i][0], 1e-5, 1e-9, "average damage with " + std::to_string(n) + " processes, step " + std::to_string(i));
    double size = 0;
    for (const double x : a.table)
      size = std::max(size, std::fabs(x));
    for (const auto &t : tables)
      {
        PBT_CHECK(t.size() == a.table.size(), "size of the table of averages: " << t.size() << ", expected " << a.table.size());
        for (unsigned i = 0; i < t.size(); ++i)
          pbt::close(t[i], a.table[i], 2e-5, 1e-7 * size, "entry " + std::to_string(i) + " of the table of averages with " + std::to_string(n) + " processes");
      }
  }

  template <int dim>
  std::vector<double> answer(pbt::Case &c, const bool rate_independent)
  {
    (void)c.pick<unsigned>({2, 3, 5});
    Shared<dim> x;
    x.v.s.parallel = true;
    x.draw(c, rate_independent);
    // convergence may take a little longer
    auto &q = x.v.s.p.prm;
    q.monolithic_algorithm_parameters.monolithic_system_solver_parameters.newton_parameters.n_max_iterations *= 2;
    q.staggered_algorithm_parameters.linear_momentum_solver_parameters.newton_parameters.n_max_iterations *= 2;
    q.staggered_algorithm_parameters.pseudo_balance_solver_parameters.newton_parameters.n_max_iterations *= 2;
    q.staggered_algorithm_parameters.max_n_solution_loops *= 2;
    const bool          ok = x.run();
    std::vector<double> r{double(ok)};
    const auto          v = x.pack();
    r.insert(r.end(), v.begin(), v.end());
    return r;
  }

  // every process reads the parameter file, one copy of it is written
  std::vector<double> read_parameters()
  {
    const std::string dir = pbt::scratch() + "/..";
    const RTP::InfiniteStripProblem q(dir + "/case.prm");
    const auto &l = q.spatial_discretization;
    return {q.height, double(l.fe_degree_displacements), double(l.fe_degree_slips)};
  }

  void parameter_files(pbt::Case &c)
  {
    const unsigned    n = c.pick<unsigned>({2, 3, 5});
    const unsigned    p = c.integer(1, 3), r = c.integer(1, 3);
    const double      h = c.integer(1, 1 << 30) * 1e-6;
    const std::string dir = pbt::scratch() + "/group" + std::to_string(n), own = "output" + std::to_string(int(h * 1e6 + 0.5));
    mkdir(dir.c_str(), 0755);
    {
      // as seen by process 0 and all others
      std::ofstream o(dir + "/case.prm");
      o.precision(17);
      o << "subsection 1. Spatial discretization parameters\n set FE's polynomial degree - Displacements = " << p << "\n set FE's polynomial degree - Slips = " << r
        << "\n subsection Problem specific parameters\n  set Height of the strip = " << h << "\n end\nend\n"
        << "subsection 4. Output parameters\n set Graphical output directory = " << dir << "/" << own << "\nend\n";
    }
    c.note("processes", n).note("height", h);
    c.nontrivial();
    std::vector<double> reply;
    const std::string   trouble = MpiGroup::of(n).ask(0, {}, reply);
    PBT_CHECK(trouble.empty(), trouble << " with " << n << " processes reading a parameter file");
    PBT_CHECK(reply.size() == 3 * n, "answers of all processes");
    for (unsigned i = 0; i < reply.size(); i += 3)
      PBT_CHECK(std::fabs(reply[i] - h) < 1e-12 * h && reply[i + 1] == p && reply[i + 2] == r, "process " << i / 3 << " reads other parameters");
    const std::string copy = dir + "/" + own + "/parameter_file.prm";
    {
      std::ifstream in(copy);
      PBT_CHECK(in.good(), "no copy of the parameter file");
    }
    const RTP::InfiniteStripProblem again(copy);
    PBT_CHECK(std::fabs(again.height - h) < 1e-5 * h && again.spatial_discretization.fe_degree_displacements == p && again.spatial_discretization.fe_degree_slips == r,
              "the copy of the parameter file written by " << n << " processes has other parameters");
    std::filesystem::remove_all(dir + "/" + own);
  }

  const bool serving = [] {
    MpiGroup::answer() = [](const int dim, const std::vector<uint64_t> &choices, const unsigned) {
      if (dim == 0)
        return read_parameters();
      pbt::Case c(choices);
      return std::abs(dim) == 2 ? answer<2>(c, dim < 0) : answer<3>(c, dim < 0);
    };
    pbt::serve() = MpiGroup::serve;
    return true;
  }();
} // namespace

PBT_PROPERTY("P27", "processes-2d", 3) { processes<2>(c, false); }
PBT_PROPERTY("P27", "processes-3d", 1) { processes<3>(c, false); }
PBT_PROPERTY("P27", "rate-independent-2d", 2) { processes<2>(c, true); }
PBT_PROPERTY("P27", "rate-independent-3d", 1) { processes<3>(c, true); }
PBT_PROPERTY("P27", "parameter-files", 0.5) { parameter_files(c); }
