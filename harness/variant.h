// A generated problem that is solved as drawn and then in another way which has
// to lead to the same values.
#ifndef VERIF_VARIANT_H
#define VERIF_VARIANT_H

#include "loading.h"

namespace vf
{
  // a place where a value lives, whatever the numbering: cell, support point
  // in the cell, displacement or slip, direction or slip system
  using Place  = std::tuple<unsigned, int, int, int, bool, unsigned>;
  using Values = std::map<Place, double>;

  template <int dim>
  struct Variant
  {
    LoadCase<dim> s;
    unsigned      max_cells        = dim == 2 ? 4 : 2;
    bool          rate_independent = false;
    bool          many_cells       = false;

    Values values() const
    {
      Values     r;
      std::vector<dealii::types::global_dof_index> ids;
      for (const auto &cell : s.p.field->get_dof_handler().active_cell_iterators())
        if (cell->is_locally_owned())
        {
          const auto &fe = cell->get_fe();
          ids.resize(fe.n_dofs_per_cell());
          cell->get_dof_indices(ids);
          for (unsigned i = 0; i < ids.size(); ++i)
            {
              const unsigned c = fe.system_to_component_index(i).first;
              const auto     q = to3<dim>(fe.unit_support_point(i));
              // a displacement of another crystal does not live here
              const auto m = s.p.layout.meaning(c);
              r[Place(cell->active_cell_index(), std::lround(q[0] * 100), std::lround(q[1] * 100), std::lround(q[2] * 100), m.displacement, m.index)] = s.p.field->solution(ids[i]);
            }
        }
      return r;
    }

    void draw(pbt::Case &c, const bool decohesion, const bool dimensionless)
    {
      Draws d;
      d.max_cells              = max_cells;
      d.max_slips              = dim == 2 ? 3 : 2;
      d.allow_rate_independent = false;
      d.force_rate_independent = rate_independent;
      d.many_cells             = many_cells;
      d.allow_dimensionless    = false;
      d.allow_decohesion       = decohesion;
      if (dimensionless || rate_independent)
        d.allow_microtraction = false;
      LoadDraws l;
      l.algorithms = {RTP::SolutionAlgorithm::Monolithic, RTP::SolutionAlgorithm::Monolithic, RTP::SolutionAlgorithm::Bouncing};
      l.gentle     = true;
      s.draw(c, d, l, [&] {
        auto &k = s.p.prm.constitutive_laws_parameters;
        k.scalar_microstress_law_parameters.regularization_parameter = c.logreal(0.05, 1);
        k.hardening_law_parameters.flag_perfect_plasticity           = false;
        if (k.hardening_law_parameters.linear_hardening_modulus == 0)
          k.hardening_law_parameters.linear_hardening_modulus = 0.1;
        // resistances of both laws are one parameter of the model
        k.vectorial_microstress_law_parameters.initial_slip_resistance = k.hardening_law_parameters.initial_slip_resistance;
        if (s.p.layout.decohesion)
          s.set_algorithm(RTP::SolutionAlgorithm::Monolithic);
        s.tolerance      = 1e-10;
        s.max_iterations = 60;
        s.max_loops      = 300;
        s.numerics(c);
        if (dim == 3 && s.p.layout.n_crystals > 1)
          s.p.degree_s = 1;
      });
      s.free_normal = s.side_fixed = false;
      c.label(s.p.layout.decohesion ? "decohesion" : "perfect");
      c.label("gb" + std::to_string(int(s.p.prm.boundary_conditions_at_grain_boundaries)));
      c.label(s.p.prm.solution_algorithm == RTP::SolutionAlgorithm::Monolithic ? "monolithic" : "bouncing");
    }

    // the crystal data for the present specification
    void crystals()
    {
      const std::string stem = write_crystal_files(s.p.spec, pbt::scratch() + "/crystal");
      s.p.crystals           = std::make_shared<gCP::CrystalsData<dim>>();
      s.p.crystals->init(s.p.tria, stem + "_angles", stem + "_dirs", stem + "_normals");
    }

    void tolerance(const double t)
    {
      s.tolerance = t;
      auto &q = s.p.prm;
      q.monolithic_algorithm_parameters.monolithic_system_solver_parameters.newton_parameters.absolute_tolerance = t;
      q.staggered_algorithm_parameters.linear_momentum_solver_parameters.newton_parameters.absolute_tolerance    = t;
      q.staggered_algorithm_parameters.pseudo_balance_solver_parameters.newton_parameters.absolute_tolerance     = t;
    }

    // solutions after every step; false: gave up
    bool run(std::vector<Values> &out)
    {
      out.clear();
      s.build();
      for (unsigned i = 0; i < s.load.size(); ++i)
        {
          if (!s.solve())
            return false;
          out.push_back(values());
          s.accept();
        }
      return true;
    }
  };

  inline void compare(const std::vector<Values> &a, const std::vector<Values> &b, const double rel, const char *what)
  {
    PBT_CHECK(a.size() == b.size(), "number of steps");
    double u = 1e-14, g = 1e-14;
    for (unsigned i = 0; i < a.size(); ++i)
      {
        for (const auto &v : a[i])
          (std::get<4>(v.first) ? u : g) = std::max(std::get<4>(v.first) ? u : g, std::fabs(v.second));
        PBT_CHECK(a[i].size() == b[i].size(), "number of values: " << a[i].size() << " and " << b[i].size());
        for (const auto &v : a[i])
          {
            const auto it = b[i].find(v.first);
            PBT_CHECK(it != b[i].end(), "a value has no counterpart");
            const bool disp = std::get<4>(v.first);
            pbt::close(it->second, v.second, 0, rel * (disp ? u : std::max(g, 1e-6 * u)) + 1e-9 * (disp ? 0.0 : 1.0),
                       std::string(disp ? "displacement " : "slip ") + std::to_string(std::get<5>(v.first)) + " " + what + ", step " + std::to_string(i));
          }
      }
  }
} // namespace vf
#endif
