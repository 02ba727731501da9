// P15, P16: load steps solved through the public interface.
#include "problem_std.h"
#include "loading.h"

using namespace vf;

namespace
{
  const char *name(const RTP::SolutionAlgorithm a)
  {
    switch (a)
      {
        case RTP::SolutionAlgorithm::Monolithic:
          return "monolithic";
        case RTP::SolutionAlgorithm::Bouncing:
          return "bouncing";
        default:
          return "embracing";
      }
  }

  template <int dim>
  void check_constraints(LoadCase<dim> &s, const dealii::Vector<double> &x)
  {
    for (unsigned i = 0; i < x.size(); ++i)
      if (s.p.affine.is_constrained(i))
        {
          double v = s.p.affine.get_inhomogeneity(i);
          const auto *entries = s.p.affine.get_constraint_entries(i);
          if (entries)
            for (const auto &e : *entries)
              v += e.second * x(e.first);
          pbt::close(x(i), v, 1e-12, 1e-15, "constrained degree of freedom " + std::to_string(i) + " in step " + std::to_string(s.step));
        }
  }

  template <int dim>
  void accepted_steps(pbt::Case &c)
  {
    Draws d;
    d.max_cells              = dim == 2 ? 4 : 2;
    d.max_slips              = dim == 2 ? 3 : 2;
    d.allow_rate_independent = false;
    d.min_slips_zero         = c.chance(1, 12);
    LoadDraws l;
    LoadCase<dim> s;
    double        micro_factor = 1;
    s.draw(c, d, l, [&] {
      // the two balances may have different tolerances
      micro_factor = c.pick<double>({1.0, 1e-2, 1e3, 1e-1, 1e2});
      if (s.tolerance < 5e-9 && micro_factor < 1)
        s.tolerance /= micro_factor;
      s.p.prm.staggered_algorithm_parameters.linear_momentum_solver_parameters.newton_parameters.absolute_tolerance = s.tolerance;
      s.p.prm.staggered_algorithm_parameters.pseudo_balance_solver_parameters.newton_parameters.absolute_tolerance  = s.tolerance * micro_factor;
      s.p.prm.monolithic_algorithm_parameters.monolithic_system_solver_parameters.newton_parameters.absolute_tolerance = s.tolerance;
      // indefinite tangents of softening interfaces are no matter for CG
      if (s.p.layout.decohesion && s.p.prm.solution_algorithm == RTP::SolutionAlgorithm::Embracing)
        s.set_algorithm(RTP::SolutionAlgorithm::Bouncing);
      // the staggered scheme seldom copes with softening interfaces
      if (s.p.layout.decohesion && s.p.prm.solution_algorithm == RTP::SolutionAlgorithm::Bouncing && !c.chance(1, 3))
        s.set_algorithm(RTP::SolutionAlgorithm::Monolithic);
      if (c.chance(1, 4))
        s.krylov(c);
    });
    c.label(name(s.p.prm.solution_algorithm));
    if (s.iterative)
      c.label(std::string("iterative solvers: ") + name(s.p.prm.solution_algorithm));
    c.label(s.p.layout.decohesion ? "decohesion" : "perfect interface");
    c.label("gb" + std::to_string(int(s.p.prm.boundary_conditions_at_grain_boundaries)));
    const bool varying = c.chance(1, 3);
    if (varying)
      c.label("varying step size");
    for (unsigned i = 0; i < s.load.size(); ++i)
      {
        const auto before = s.solution();
        if (varying)
          s.vary(c);
        const bool ok     = s.solve(c.chance(1, 5));
        const auto x = s.solution(), old = s.old_solution();
        if (!ok)
          {
            c.label(std::string(s.iterative ? "gave up (iterative solvers): " : "gave up: ") + name(s.p.prm.solution_algorithm) + (s.p.layout.decohesion ? " decohesion" : ""));
            for (unsigned j = 0; j < x.size(); ++j)
              PBT_CHECK(x(j) == before(j), "a failed step changed the solution, entry " << j);
            return;
          }
        check_constraints(s, x);
        const auto r = imbalance(s, x, old);
        if (s.p.single_block)
          PBT_CHECK(std::hypot(r.macro, r.micro) <= s.tolerance * 1.001 + 1e-12 * std::hypot(r.macro_size, r.micro_size),
                    "imbalance " << r.macro << ", " << r.micro << " of the accepted step " << i << " exceeds the tolerance " << s.tolerance);
        else
          {
            PBT_CHECK(r.macro <= s.tolerance * 1.001 + 1e-12 * r.macro_size,
                      "momentum imbalance " << r.macro << " of the accepted step " << i << " exceeds the tolerance " << s.tolerance);
            PBT_CHECK(r.micro <= s.tolerance * micro_factor * 1.001 + 1e-12 * r.micro_size,
                      "slip imbalance " << r.micro << " of the accepted step " << i << " exceeds the tolerance " << s.tolerance * micro_factor);
          }
        if (s.p.layout.n_slips > 0 && r.micro_size > 0)
          c.nontrivial();
        s.ref->end_step(x);
        s.accept();
      }
  }

  // smooth, hardening problems under moderate loads: every algorithm has to
  // find the balance, and it is the same one
  template <int dim>
  void agreement(pbt::Case &c)
  {
    Draws d;
    d.max_cells              = dim == 2 ? 4 : 2;
    d.max_slips              = 2;
    d.allow_rate_independent = false;
    d.allow_decohesion       = false;
    LoadDraws l;
    l.max_steps  = 3;
    l.max_strain = 0.5;
    l.gentle     = true;
    LoadCase<dim> s;
    double        rp = c.logreal(0.05, 1);
    s.draw(c, d, l, [&] {
      auto &k = s.p.prm.constitutive_laws_parameters;
      k.scalar_microstress_law_parameters.regularization_parameter = rp;
      k.hardening_law_parameters.flag_perfect_plasticity           = false;
      if (k.hardening_law_parameters.linear_hardening_modulus == 0)
        k.hardening_law_parameters.linear_hardening_modulus = 0.1;
      s.tolerance = 1e-10;
      s.max_iterations = 60;
      s.max_loops = 300;
      s.numerics(c);
      // see the finding on edges of grain boundaries
      if (dim == 3 && s.p.layout.n_crystals > 1)
        s.p.degree_s = 1;
    });
    if (s.p.layout.n_slips == 0)
      c.discard();
    std::vector<dealii::Vector<double>> first;
    const auto original = s.p.prm.solution_algorithm;
    std::vector<RTP::SolutionAlgorithm> order{RTP::SolutionAlgorithm::Monolithic, RTP::SolutionAlgorithm::Bouncing, RTP::SolutionAlgorithm::Embracing};
    c.nontrivial();
    bool patient = false;
    for (unsigned k = 0; k < order.size(); ++k)
      {
        s.set_algorithm(order[k]);
        if (order[k] == RTP::SolutionAlgorithm::Embracing)
          s.p.prm.staggered_algorithm_parameters.max_n_solution_loops = 300;
        s.build();
        for (unsigned i = 0; i < s.load.size(); ++i)
          {
            const bool converged = s.solve();
            // the reduced system of the embracing algorithm is solved by
            // nested Krylov iterations, its rate is not guaranteed
            if (!converged && order[k] == RTP::SolutionAlgorithm::Embracing)
              {
                c.label("embracing gave up");
                break;
              }
            // alternating between the balances converges linearly, slowly so
            // where they are strongly coupled
            if (!converged && order[k] == RTP::SolutionAlgorithm::Bouncing && !patient)
              {
                c.label("bouncing slow");
                patient     = true;
                s.max_loops = s.p.prm.staggered_algorithm_parameters.max_n_solution_loops = 10000;
                --k;
                break;
              }
            if (order[k] == RTP::SolutionAlgorithm::Embracing)
              c.label("embracing agrees");
            PBT_CHECK(converged, name(order[k]) << " does not converge in step " << i);
            // by support point and component, the numbering differs
            const auto x = s.solution();
            std::map<std::array<long long, 4>, double> values;
            dealii::Vector<double> sorted(x.size());
            const auto points = s.p.support_points();
            std::vector<unsigned> comp(x.size());
            std::vector<dealii::types::global_dof_index> ids;
            for (const auto &cell : s.p.field->get_dof_handler().active_cell_iterators())
              {
                ids.resize(cell->get_fe().n_dofs_per_cell());
                cell->get_dof_indices(ids);
                for (unsigned j = 0; j < ids.size(); ++j)
                  comp[ids[j]] = cell->get_fe().system_to_component_index(j).first;
              }
            for (unsigned j = 0; j < x.size(); ++j)
              {
                const V3 &q = points.at(j);
                const std::array<long long, 4> key{{std::llround(q[0] * 1e6), std::llround(q[1] * 1e6), std::llround(q[2] * 1e6), comp[j]}};
                if (values.count(key))
                  pbt::close(values[key], x(j), 1e-9, 1e-12, "two values at one point");
                values[key] = x(j);
              }
            unsigned n = 0;
            for (const auto &v : values)
              sorted(n++) = v.second;
            sorted.grow_or_shrink(n);
            if (k == 0)
              first.push_back(sorted);
            else
              {
                const double scale = first[i].linfty_norm();
                for (unsigned j = 0; j < n; ++j)
                  pbt::close(sorted(j), first[i](j), 0, 1e-5 * scale + 1e-7, std::string(name(order[k])) + " against monolithic, step " + std::to_string(i));
              }
            s.accept();
          }
      }
  }
} // namespace

PBT_PROPERTY("P15", "agreement-2d", 2) { agreement<2>(c); }
PBT_PROPERTY("P15", "agreement-3d", 1) { agreement<3>(c); }
PBT_PROPERTY("P15", "accepted-2d", 3) { accepted_steps<2>(c); }
PBT_PROPERTY("P15", "accepted-3d", 1) { accepted_steps<3>(c); }
