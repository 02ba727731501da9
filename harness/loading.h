// A generated sequence of load steps driven through the public interface of
// the solver, with the independent weak form following it.
#ifndef VERIF_LOADING_H
#define VERIF_LOADING_H

#include "problem.h"

#include <csetjmp>
#include <csignal>

namespace vf
{
  // The solver ends the program when a direct solve fails, which the search
  // for the balance of a softening interface, where none has to exist, can
  // lead to. Such a step counts as given up.
  struct AbortGuard
  {
    static sigjmp_buf &buffer()
    {
      static sigjmp_buf b;
      return b;
    }
    static void handler(int)
    {
      siglongjmp(buffer(), 1);
    }
    explicit AbortGuard(const bool on)
      : on(on)
    {
      if (on)
        previous = std::signal(SIGABRT, handler);
    }
    ~AbortGuard()
    {
      if (on)
        std::signal(SIGABRT, previous);
    }
    bool on;
    void (*previous)(int) = SIG_DFL;
  };

  struct LoadDraws
  {
    std::vector<RTP::SolutionAlgorithm> algorithms{
      RTP::SolutionAlgorithm::Monolithic,
      RTP::SolutionAlgorithm::Bouncing,
      RTP::SolutionAlgorithm::Embracing};
    int    max_steps  = 3;
    double max_strain = 0.5; // of the yield strain per step, times ten
    bool   body_loads = true;
    bool   gentle     = false; // smooth and well conditioned problems only
  };

  template <int dim>
  struct LoadCase
  {
    Problem<dim>                    p;
    std::unique_ptr<Reference<dim>> ref;
    std::shared_ptr<AffineVectorFunction<dim>> supply, traction;
    unsigned                        traction_boundary = 0;
    double                          dt = 1, tolerance = 1e-9;
    double                          start = 0, longest = 0; // time, first step size
    int                             max_iterations = 20, max_loops = 15;
    bool                            slips_fixed[2] = {false, false};
    bool                            side_fixed     = false;
    bool                            free_normal    = false;
    V3                              top            = zero3(); // displacement of the loaded boundary per unit load
    std::vector<double>             load;          // load factor at the end of each step
    bool                            microhard = false;
    int                             step      = 0;
    bool                            macroscopic = false;
    bool                            iterative   = false; // linear solvers
    bool                            parallel    = false; // one of several processes: no reference
    M3                              macroscopic_strain = zero33();

    double yield_strain() const
    {
      const auto &l = p.prm.constitutive_laws_parameters;
      return l.hardening_law_parameters.initial_slip_resistance /
             (l.hooke_law_parameters.C1212);
    }

    void set_algorithm(const RTP::SolutionAlgorithm a)
    {
      p.prm.solution_algorithm = a;
      p.single_block           = a == RTP::SolutionAlgorithm::Monolithic;
    }

    void numerics(pbt::Case &c)
    {
      auto set = [&](RTP::NonlinearSystemSolverParameters &s, const bool direct) {
        s.newton_parameters.absolute_tolerance = tolerance;
        s.newton_parameters.relative_tolerance = 1e-30;
        s.newton_parameters.n_max_iterations   = max_iterations;
        s.krylov_parameters.solver_type =
          direct ? RTP::SolverType::DirectSolver : RTP::SolverType::CG;
        s.krylov_parameters.relative_tolerance = 1e-10;
        s.krylov_parameters.absolute_tolerance = 1e-15;
        s.krylov_parameters.n_max_iterations   = 20000;
      };
      const bool ls = !c.chance(1, 3);
      auto &m  = p.prm.monolithic_algorithm_parameters.monolithic_system_solver_parameters;
      auto &st = p.prm.staggered_algorithm_parameters;
      set(m, true);
      set(st.linear_momentum_solver_parameters, true);
      set(st.pseudo_balance_solver_parameters, true);
      m.newton_parameters.flag_line_search = ls;
      st.linear_momentum_solver_parameters.newton_parameters.flag_line_search = ls;
      st.pseudo_balance_solver_parameters.newton_parameters.flag_line_search  = ls;
      st.max_n_solution_loops = max_loops;
      st.flag_reset_trial_solution_at_micro_loop = c.boolean();
      p.prm.flag_skip_extrapolation = c.chance(1, 3);
      p.prm.extrapolation_factor    = c.pick<double>({1.0, 0.5, 0.0});
    }

    // linear systems solved by Krylov iterations, which may fail
    void krylov(pbt::Case &c)
    {
      iterative  = true;
      auto  &m   = p.prm.monolithic_algorithm_parameters.monolithic_system_solver_parameters;
      auto  &st  = p.prm.staggered_algorithm_parameters;
      auto   set = [&](RTP::NonlinearSystemSolverParameters &s) {
        s.krylov_parameters.solver_type        = c.pick<RTP::SolverType>({RTP::SolverType::GMRES, RTP::SolverType::CG, RTP::SolverType::DirectSolver});
        s.krylov_parameters.relative_tolerance = c.pick<double>({1e-10, 1e-6, 1e-3});
        s.krylov_parameters.n_max_iterations   = 1000;
      };
      set(m);
      set(st.linear_momentum_solver_parameters);
      set(st.pseudo_balance_solver_parameters);
    }

    void draw(pbt::Case &c, const Draws &dd, const LoadDraws &l, std::function<void()> adjust = nullptr)
    {
      Draws d = dd;
      // either grains without separation, or two grains that are both held
      const int kind      = d.allow_decohesion ? c.integer(0, 2) : 0;
      d.allow_decohesion  = kind > 0;
      if (kind > 0)
        {
          d.force_grains     = 2;
          d.layers           = true;
          d.force_decohesion = true;
        }
      p.draw(c, d);
      set_algorithm(c.pick(l.algorithms));
      if (p.layout.n_slips == 0)
        set_algorithm(RTP::SolutionAlgorithm::Monolithic);
      tolerance = c.pick<double>({1e-9, 1e-8, 1e-7});
      numerics(c);
      if (adjust)
        adjust();
      dt = l.gentle ? 1.0 : c.pick<double>({0.1, 1.0, 0.02});
      const auto  &ch = p.prm.dimensionless_form_parameters.characteristic_quantities;
      const double U  = ch.displacement;
      const double size = l.max_strain * yield_strain() / U *
                          (p.prm.dimensionless_form_parameters.flag_solve_dimensionless_problem ? ch.length : 1.0);
      top = V3{{c.boolean() ? 1.0 : 0.0, c.chance(1, 2) ? c.real(-0.7, 0.7) : 0.0, (dim == 3 && c.chance(1, 3)) ? 0.5 : 0.0}};
      if (norm(top) == 0)
        top[0] = 1;
      const int n = c.integer(1, l.max_steps);
      double    f = 0;
      for (int i = 0; i < n; ++i)
        {
          f += size * c.pick<double>({1.0, 0.3, -1.0, 0.05, 2.0, 0.0});
          load.push_back(f);
        }
      slips_fixed[0] = c.chance(1, 3);
      slips_fixed[1] = c.chance(1, 3);
      side_fixed     = c.chance(1, 4);
      free_normal    = !p.layout.decohesion && c.chance(1, 3);
      p.periodic_x   = c.chance(1, 4);
      if (p.periodic_x)
        {
          side_fixed = false;
          c.label("periodic");
        }
      microhard      = p.prm.boundary_conditions_at_grain_boundaries ==
                  RTP::BoundaryConditionsAtGrainBoundaries::Microhard;
      auto vec = [&]() {
        return size * p.prm.constitutive_laws_parameters.hooke_law_parameters.C1212 / ch.stiffness *
               V3{{c.real(-0.3, 0.3), c.real(-0.3, 0.3), dim == 3 ? c.real(-0.3, 0.3) : 0.0}};
      };
      if (l.body_loads && !p.layout.decohesion && c.chance(1, 4))
        supply = std::make_shared<AffineVectorFunction<dim>>(vec(), zero33());
      if (l.body_loads && !p.layout.decohesion && c.chance(1, 4))
        {
          traction = std::make_shared<AffineVectorFunction<dim>>(vec(), zero33(), (1 / dt) * vec());
          traction_boundary = c.integer(0, 1);
        }
      if (l.body_loads && c.chance(1, 5))
        {
          macroscopic = true;
          for (int i = 0; i < dim; ++i)
            for (int j = i; j < dim; ++j)
              macroscopic_strain[i][j] = macroscopic_strain[j][i] = 0.5 * size * c.real(-1, 1);
        }
      c.note("algorithm", int(p.prm.solution_algorithm)).note("dt", dt).note("tol", tolerance);
      std::ostringstream os;
      for (const double v : load)
        os << v << ",";
      c.note("load", os.str());
      c.note("supply", bool(supply)).note("neumann", bool(traction)).note("macroscopic", macroscopic);
      build();
    }

    // field, constraints, solver and reference for the present description
    void build()
    {
      p.build_field();
      constraints(0);
      p.field->setup_vectors();
      p.build_solver(0.0, (load.size() + 1) * dt, dt);
      if (!parallel)
        ref = std::make_unique<Reference<dim>>(p.spec, p.layout, p.prm, p.field->get_dof_handler());
      if (supply)
        {
          p.solver->set_supply_term(supply);
          if (ref)
            ref->body = [this](const V3 &x) { return supply->at(x, 0.0); };
        }
      if (traction)
        {
          p.solver->set_neumann_boundary_condition(traction_boundary, traction);
          if (ref)
            ref->neumann[traction_boundary] = [this](const V3 &x) {
            return traction->at(x, start + dt);
          };
        }
      if (macroscopic)
        {
          p.solver->set_macroscopic_strain(from33<dim>(macroscopic_strain));
          if (ref)
            ref->macroscopic_strain = macroscopic_strain;
        }
      p.solver->init();
      step  = 0;
      start = 0;
    }

    void constraints(const double factor)
    {
      std::vector<typename Problem<dim>::Fixed> fixed;
      for (int i = 0; i < dim; ++i)
        {
          fixed.push_back({2, i, nullptr});
          if (!(free_normal && i == 1))
            {
              const double v = factor * top[i];
              fixed.push_back({3, i, [v](const V3 &) { return v; }});
            }
        }
      if (side_fixed)
        fixed.push_back({1, 1, nullptr});
      if (slips_fixed[0])
        fixed.push_back({2, -1, nullptr});
      if (slips_fixed[1])
        fixed.push_back({3, -1, nullptr});
      p.constrain(fixed, microhard);
    }

    // a step size of its own for the next step
    void vary(pbt::Case &c)
    {
      if (longest == 0)
        longest = dt;
      dt = longest * c.pick<double>({1.0, 0.5, 0.25, 0.75});
      p.time->set_desired_next_step_size(dt);
    }

    // one step; false: the solver gave up with its iteration limit
    bool solve(const bool skip = false)
    {
      constraints(load[step]);
      if (ref)
        ref->begin_step();
      AbortGuard guard(!parallel && (p.layout.decohesion || iterative ||
                       p.prm.constitutive_laws_parameters.scalar_microstress_law_parameters.flag_rate_independent));
      if (guard.on && sigsetjmp(AbortGuard::buffer(), 1) != 0)
        return false;
      try
        {
          p.solver->solve_nonlinear_system(skip);
        }
      catch (const dealii::ExceptionBase &e)
        {
          // a softening interface can fail altogether, and the iterates of
          // the search for a balance that does not exist grow beyond bounds
          if (std::string(e.what()).find("maximum number of iterations") ==
                std::string::npos &&
              !(p.layout.decohesion &&
                std::string(e.what()).find("finite") != std::string::npos))
            throw;
          return false;
        }
      return true;
    }

    dealii::Vector<double> solution() const
    {
      return Problem<dim>::read(p.field->solution);
    }
    dealii::Vector<double> old_solution() const
    {
      return Problem<dim>::read(p.field->old_solution);
    }
    void accept()
    {
      p.field->update_solution_vectors();
      p.time->advance_time();
      start += dt;
      ++step;
    }
  };

  // norms of the displacement and slip rows of the balance, and what
  // round-off can contribute to them
  template <int dim>
  struct Imbalance
  {
    double macro = 0, micro = 0, macro_size = 0, micro_size = 0;
    double forces = 0; // of all degrees of freedom, constrained ones too
  };
  template <int dim>
  Imbalance<dim> imbalance(LoadCase<dim> &s, const dealii::Vector<double> &x, const dealii::Vector<double> &old)
  {
    dealii::Vector<double> out, size;
    s.ref->update(x, old);
    s.ref->weak_form(x, old, s.dt, out, size);
    Imbalance<dim> r;
    r.forces = size.l2_norm();
    Reference<dim>::condense(s.p.newton, out);
    Reference<dim>::condense(s.p.newton, size, true);
    std::vector<dealii::types::global_dof_index> ids;
    std::vector<char> is_u(x.size());
    for (const auto &cell : s.p.field->get_dof_handler().active_cell_iterators())
      {
        ids.resize(cell->get_fe().n_dofs_per_cell());
        cell->get_dof_indices(ids);
        for (unsigned i = 0; i < ids.size(); ++i)
          is_u[ids[i]] = s.p.layout.meaning(cell->get_fe().system_to_component_index(i).first).displacement;
      }
    for (unsigned i = 0; i < x.size(); ++i)
      {
        (is_u[i] ? r.macro : r.micro) += out(i) * out(i);
        (is_u[i] ? r.macro_size : r.micro_size) += size(i) * size(i);
      }
    r.macro = std::sqrt(r.macro);
    r.micro = std::sqrt(r.micro);
    r.macro_size = std::sqrt(r.macro_size);
    r.micro_size = std::sqrt(r.micro_size);
    return r;
  }
} // namespace vf
#endif
