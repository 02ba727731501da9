// A generated problem whose solver is driven by hand: states, histories,
// assembly. Opens the classes of gCP, so it comes before all other headers.
#ifndef VERIF_ASSEMBLY_SETUP_H
#define VERIF_ASSEMBLY_SETUP_H

#include "problem_std.h"
#define private public
#define protected public
#include "problem.h"
#undef private
#undef protected

namespace vf
{
  inline bool restart_states = false; // at the beginning of a case

  template <int dim>
  dealii::Vector<double> draw_state(pbt::Case &c, Problem<dim> &p, const double slip_size, const double u_size)
  {
    dealii::Vector<double> x(p.field->n_dofs());
    std::vector<bool>      is_u(x.size());
    std::vector<dealii::types::global_dof_index> ids;
    for (const auto &cell : p.field->get_dof_handler().active_cell_iterators())
      {
        ids.resize(cell->get_fe().n_dofs_per_cell());
        cell->get_dof_indices(ids);
        for (unsigned i = 0; i < ids.size(); ++i)
          is_u[ids[i]] = p.layout.meaning(cell->get_fe().system_to_component_index(i).first).displacement;
      }
    // one draw seeds the field: keeps the choice sequence short
    // never twice the same one: rates of exactly zero are kinks
    static uint64_t count = 0;
    if (restart_states)
      count = 0, restart_states = false;
    uint64_t s = c.draw(1 << 20) + (++count << 24);
    auto     r = [&]() {
      s = s * 6364136223846793005ull + 1442695040888963407ull;
      return double(int64_t(s >> 11)) / double(1ull << 52) * 1.0 - 1.0;
    };
    for (unsigned i = 0; i < x.size(); ++i)
      x(i) = r() * (is_u[i] ? u_size : slip_size);
    return x;
  }

  template <int dim>
  struct Setup
  {
    Problem<dim>                    p;
    std::unique_ptr<Reference<dim>> ref;
    std::shared_ptr<AffineVectorFunction<dim>> supply, traction;
    double                          dt, slip_size, u_size;

    void draw(pbt::Case &c, const Draws &d, std::function<void()> adjust = nullptr)
    {
      restart_states = true;
      p.draw(c, d);
      if (adjust)
        adjust();
      p.single_block = c.boolean();
      if (p.layout.n_slips == 0)
        p.single_block = true;
      p.build_field();
      dt = c.pick<double>({0.1, 1.0, 0.02});
      // constraints: some boundaries fixed
      std::vector<typename Problem<dim>::Fixed> fixed;
      for (const unsigned b : p.boundary_ids())
        {
          for (int i = 0; i < dim; ++i)
            if (c.chance(1, 5))
              fixed.push_back({b, i, nullptr});
          if (c.chance(1, 6))
            fixed.push_back({b, -1, nullptr});
        }
      p.constrain(fixed, p.prm.boundary_conditions_at_grain_boundaries ==
                           RTP::BoundaryConditionsAtGrainBoundaries::Microhard);
      p.field->setup_vectors();
      p.build_solver(0.0, 10 * dt, dt);
      ref = std::make_unique<Reference<dim>>(p.spec, p.layout, p.prm, p.field->get_dof_handler());
      auto vec = [&]() { return V3{{c.real(-1, 1), c.real(-1, 1), dim == 3 ? c.real(-1, 1) : 0.0}}; };
      if (c.chance(1, 2))
        {
          M3 B = {{vec(), vec(), dim == 3 ? vec() : zero3()}};
          supply = std::make_shared<AffineVectorFunction<dim>>(vec(), B);
          p.solver->set_supply_term(supply);
          ref->body = [this](const V3 &x) { return supply->at(x, 0.0); };
        }
      if (c.chance(1, 2))
        {
          M3 B = {{vec(), vec(), dim == 3 ? vec() : zero3()}};
          traction = std::make_shared<AffineVectorFunction<dim>>(vec(), B, vec());
          const unsigned b = c.integer(0, 2 * dim - 1);
          p.solver->set_neumann_boundary_condition(b, traction);
          ref->neumann[b] = [this](const V3 &x) { return traction->at(x, p.time->get_next_time()); };
        }
      if (c.chance(1, 3))
        {
          M3 e = zero33();
          for (int i = 0; i < dim; ++i)
            for (int j = i; j < dim; ++j)
              e[i][j] = e[j][i] = c.real(-0.1, 0.1);
          p.solver->set_macroscopic_strain(from33<dim>(e));
          ref->macroscopic_strain = e;
        }
      p.solver->init();
      const double rp = p.prm.constitutive_laws_parameters.scalar_microstress_law_parameters.regularization_parameter;
      slip_size = rp * dt * c.pick<double>({1.0, 0.1, 10.0});
      u_size    = c.pick<double>({0.1, 0.01, 0.5});
      c.note("dt", dt).note("u", u_size).note("slip", slip_size).note("supply", bool(supply)).note("neumann", bool(traction)).note("single_block", p.single_block);
    }

    // the state of the solver and of the reference at an iterate
    void iterate(const dealii::Vector<double> &x, const dealii::Vector<double> &old)
    {
      p.assign(p.solver->trial_solution, x);
      p.solver->reset_and_update_internal_variables();
      ref->update(x, old);
    }
    void begin()
    {
      p.solver->prepare_quadrature_point_history();
      p.solver->store_slip_resistances();
      p.solver->reset_internal_newton_method_constraints();
      ref->begin_step();
    }
    void accept(const dealii::Vector<double> &x)
    {
      p.solver->store_effective_opening_displacement_in_quadrature_history();
      p.field->solution = p.solver->trial_solution;
      p.field->update_solution_vectors();
      p.time->advance_time();
      ref->end_step(x);
    }
  };
} // namespace vf
#endif
