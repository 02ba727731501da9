// P28: results do not depend on the number of threads nor their schedule.
#include "assembly_setup.h"
#include "jitter.h"
#include "variant.h"

#include <thread>

using namespace vf;

namespace
{
  template <int dim>
  struct Snapshot
  {
    std::vector<double> residual, product, trial, points, damage, resistance;
    double              average = 0;
  };

  template <int dim>
  Snapshot<dim> evaluate(Problem<dim> &p, const dealii::LinearAlgebraTrilinos::MPI::BlockVector &direction)
  {
    Snapshot<dim> r;
    auto         &s = *p.solver;
    s.reset_and_update_internal_variables();
    s.assemble_residual();
    s.assemble_jacobian();
    for (unsigned i = 0; i < s.residual.size(); ++i)
      r.residual.push_back(s.residual(i));
    auto product = direction;
    s.jacobian.vmult(product, direction);
    for (unsigned i = 0; i < product.size(); ++i)
      r.product.push_back(product(i));
    if (p.layout.n_slips > 0 && p.prm.constitutive_laws_parameters.scalar_microstress_law_parameters.flag_rate_independent)
      {
        s.assemble_trial_microstress_lumped_matrix();
        s.assemble_trial_microstress_right_hand_side();
        for (unsigned i = 0; i < s.trial_microstress_right_hand_side.size(); ++i)
          r.trial.push_back(s.trial_microstress_right_hand_side(i)), r.trial.push_back(s.trial_microstress_lumped_matrix(i));
      }
    if (p.layout.decohesion)
      {
        for (const auto &x : s.get_damage_at_grain_boundaries())
          r.damage.push_back(x);
        r.average = s.get_macroscopic_damage();
      }
    return r;
  }

  template <int dim>
  void history(Problem<dim> &p, Snapshot<dim> &r)
  {
    auto &s = *p.solver;
    r.points.clear();
    for (const auto &cell : p.field->get_dof_handler().active_cell_iterators())
      {
        for (const auto &q : s.quadrature_point_history.get_data(cell))
          if (!p.prm.constitutive_laws_parameters.hardening_law_parameters.flag_perfect_plasticity)
            for (unsigned i = 0; i < p.layout.n_slips; ++i)
              r.points.push_back(q->get_slip_resistance(i));
        if (p.layout.decohesion)
          for (const unsigned f : cell->face_indices())
            if (!cell->face(f)->at_boundary() && cell->neighbor(f)->material_id() != cell->material_id())
              for (const auto &q : s.interface_quadrature_point_history.get_data(cell->id(), cell->neighbor(f)->id()))
                {
                  r.points.push_back(q->damage_variable);
                  r.points.push_back(q->max_effective_opening_displacement);
                  r.points.push_back(q->old_effective_opening_displacement);
                }
      }
  }

  void same(const std::vector<double> &a, const std::vector<double> &b, const char *what, const unsigned threads)
  {
    PBT_CHECK(a.size() == b.size(), what << ": size");
    double size = 0;
    for (const double x : a)
      size = std::max(size, std::fabs(x));
    for (unsigned i = 0; i < a.size(); ++i)
      pbt::close(b[i], a[i], 1e-9, 1e-11 * size, std::string(what) + ", entry " + std::to_string(i) + " with " + std::to_string(threads) + " threads");
  }

  template <int dim>
  void assembly(pbt::Case &c)
  {
    Draws d;
    d.max_cells  = dim == 2 ? 24 : 8;
    d.many_cells = true;
    d.max_slips  = 2;
    if (c.chance(2, 3))
      {
        d.force_grains     = c.integer(2, 3);
        d.force_decohesion = c.chance(3, 4);
      }
    auto       schedule = std::make_shared<Schedule>();
    schedule->kind      = c.pick<Schedule::Kind>({Schedule::meeting, Schedule::delays, Schedule::free});
    schedule->seed      = c.draw(1 << 20);
    const unsigned threads = c.pick<unsigned>({2, 4, 7});
    Setup<dim>     s;
    auto          &p = s.p;
    p.mapping        = std::make_shared<JitterMapping<dim>>(schedule);
    s.draw(c, d);
    schedule->at = std::vector<std::atomic<int>>(p.tria.n_raw_faces());
    c.note("threads", threads).note("schedule", int(schedule->kind));
    c.label(p.layout.decohesion ? "decohesion" : "perfect");
    c.label(schedule->kind == Schedule::meeting ? "meeting" : schedule->kind == Schedule::delays ? "delays" : "free");
    dealii::Vector<double> old(p.field->n_dofs()), x;
    const double size  = p.layout.decohesion ? p.prm.constitutive_laws_parameters.cohesive_law_parameters.critical_opening_displacement * c.logreal(0.1, 3) : s.u_size;
    const int    steps = c.integer(1, 2);
    auto         direction = p.field->get_distributed_vector_instance(p.field->solution);
    for (unsigned i = 0; i < direction.size(); ++i)
      direction(i) = std::cos(1.0 + i);
    direction.compress(dealii::VectorOperation::insert);
    for (int step = 0; step < steps; ++step)
      {
        s.begin();
        x = draw_state(c, p, s.slip_size, size * (step + 1));
        p.assign(p.solver->trial_solution, x);
        Snapshot<dim> one = evaluate(p, direction), many;
        history(p, one);
        for (int k = 0; k < 3; ++k)
          {
            {
              Threads several(threads);
              schedule->on = true;
              ++schedule->seed;
              many         = evaluate(p, direction);
              schedule->on = false;
            }
            history(p, many);
            same(one.points, many.points, "history", threads);
            same(one.residual, many.residual, "residual", threads);
            same(one.product, many.product, "product with the Jacobian", threads);
            same(one.trial, many.trial, "trial microstress", threads);
            same(one.damage, many.damage, "damage", threads);
            pbt::close(many.average, one.average, 1e-10, 1e-12, "average damage");
          }
        if (p.layout.decohesion)
          for (int k = 0; k < 12; ++k)
            {
              {
                Threads several(threads);
                schedule->on = true;
                ++schedule->seed;
                p.solver->reset_and_update_internal_variables();
                schedule->on = false;
              }
              history(p, many);
              same(one.points, many.points, "history", threads);
            }
        p.solver->store_effective_opening_displacement_in_quadrature_history();
        history(p, one);
        {
          Threads several(threads);
          schedule->on = true;
          p.solver->store_effective_opening_displacement_in_quadrature_history();
          schedule->on = false;
        }
        history(p, many);
        same(one.points, many.points, "history at the end of the step", threads);
        p.field->solution = p.solver->trial_solution;
        p.field->update_solution_vectors();
        p.time->advance_time();
        old = x;
      }
    if (schedule->met > 0)
      c.label("two threads at a face");
    c.nontrivial(p.tria.n_active_cells() > 8);
  }

  template <int dim>
  void solution(pbt::Case &c)
  {
    auto       schedule = std::make_shared<Schedule>();
    schedule->kind      = c.pick<Schedule::Kind>({Schedule::meeting, Schedule::delays, Schedule::free});
    schedule->seed      = c.draw(1 << 20);
    const unsigned threads = c.pick<unsigned>({2, 4, 7});
    Variant<dim>   v;
    v.s.p.mapping = std::make_shared<JitterMapping<dim>>(schedule);
    v.many_cells  = true;
    v.draw(c, c.boolean(), c.chance(1, 4));
    schedule->at = std::vector<std::atomic<int>>(v.s.p.tria.n_raw_faces());
    v.tolerance(1e-11);
    c.note("threads", threads).note("schedule", int(schedule->kind));
    std::vector<Values> one, many;
    if (!v.run(one))
      c.discard();
    bool ok;
    {
      Threads several(threads);
      schedule->on = true;
      ok           = v.run(many);
      schedule->on = false;
    }
    PBT_CHECK(ok, "no solution with " << threads << " threads");
    c.nontrivial(v.s.p.tria.n_active_cells() > 8 && v.s.p.layout.n_slips > 0);
    compare(one, many, 1e-6, "with several threads");
  }

  // one interface point is updated by the cells at both of its sides, at once
  // if two threads have them
  void point(pbt::Case &c)
  {
    using History = gCP::InterfaceQuadraturePointHistory<2>;
    RTP::DamageEvolution       damage;
    RTP::CohesiveLawParameters law;
    const bool m1 = c.chance(2, 3);
    law.critical_cohesive_traction         = c.logreal(0.1, 10);
    law.critical_opening_displacement      = c.logreal(0.01, 10);
    law.tangential_to_normal_stiffness_ratio = c.real(0.5, 2);
    damage.damage_evolution_model       = m1 ? RTP::DamageEvolutionModel::M1 : RTP::DamageEvolutionModel::OrtizEtAl;
    damage.damage_accumulation_constant = c.logreal(0.01, 1);
    damage.damage_decay_constant        = c.pick<double>({0.0, 0.1});
    damage.damage_decay_exponent        = c.pick<double>({1.0, 0.5, 2.0});
    damage.endurance_limit              = c.pick<double>({0.0, 0.01});
    damage.flag_set_damage_to_zero      = false;
    const unsigned n     = 64;
    const int      steps = c.integer(1, 4), rounds = c.pick<int>({20, 4});
    const unsigned seed  = c.draw(1 << 16);
    std::vector<History> one(n), many(n);
    for (unsigned i = 0; i < n; ++i)
      for (auto *h : {&one[i], &many[i]})
        h->init(damage, law), h->store_current_values();
    auto opening = [&](const unsigned i, const int step) {
      return law.critical_opening_displacement * (0.5 + 0.5 * std::sin(1.3 * i + 2.1 * step + seed)) * (step + 1);
    };
    auto update = [&](History &h, const unsigned i, const int step) {
      if (m1)
        h.update_values(opening(i, step), 1.0, 0.3 + 0.2 * std::cos(1.0 * i + step));
      else
        h.update_values(opening(i, step));
    };
    auto same = [&](const unsigned i, const int step) {
      pbt::close(many[i].get_damage_variable(), one[i].get_damage_variable(), 1e-12, 1e-14, "damage of a point updated from both sides at once, step " + std::to_string(step));
      pbt::close(many[i].get_max_effective_opening_displacement(), one[i].get_max_effective_opening_displacement(), 1e-12, 0, "largest opening of a point updated from both sides at once");
    };
    for (int step = 0; step < steps; ++step)
      {
        for (unsigned i = 0; i < n; ++i)
          update(one[i], i, step), update(one[i], i, step);
        for (int round = 0; round < rounds; ++round)
          {
            std::atomic<unsigned> at[2] = {{0}, {0}};
            auto side = [&](const int me) {
              for (unsigned i = 0; i < n; ++i)
                {
                  // both arrive at the point at the same time
                  at[me] = i + 1;
                  for (unsigned k = 0; at[1 - me] < i + 1; ++k)
                    if (k > 10000)
                      std::this_thread::yield();
                  update(many[i], i, step);
                }
            };
            std::thread other(side, 1);
            side(0);
            other.join();
            for (unsigned i = 0; i < n; ++i)
              same(i, step);
          }
        for (unsigned i = 0; i < n; ++i)
          for (auto *h : {&one[i], &many[i]})
            {
              dealii::Tensor<1, 2> zero, normal, u;
              normal[1] = 1;
              u[1]      = opening(i, step);
              h->store_effective_opening_displacement(u, zero, normal);
              h->store_current_values();
            }
      }
    c.label(m1 ? "M1" : "OrtizEtAl");
    c.nontrivial();
  }
} // namespace

PBT_PROPERTY("P28", "point", 6) { point(c); }
PBT_PROPERTY("P28", "assembly-2d", 3) { assembly<2>(c); }
PBT_PROPERTY("P28", "assembly-3d", 1) { assembly<3>(c); }
PBT_PROPERTY("P28", "solution-2d", 1) { solution<2>(c); }
