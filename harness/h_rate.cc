// P16: rate-independent plasticity, the active set of accepted steps.
#include "problem_std.h"
#include "loading.h"

using namespace vf;

namespace
{
  template <int dim>
  struct Dofs
  {
    // per degree of freedom: grain, slip, and those of the other slips there
    std::vector<char>                  slip;
    std::vector<std::vector<unsigned>> partners;
    std::vector<unsigned>              index;
    explicit Dofs(LoadCase<dim> &s)
    {
      const auto    &h = s.p.field->get_dof_handler();
      const unsigned n = h.n_dofs();
      slip.assign(n, 0);
      index.assign(n, 0);
      partners.resize(n);
      std::vector<dealii::types::global_dof_index> ids;
      for (const auto &cell : h.active_cell_iterators())
        {
          const auto &fe = cell->get_fe();
          ids.resize(fe.n_dofs_per_cell());
          cell->get_dof_indices(ids);
          for (unsigned i = 0; i < ids.size(); ++i)
            {
              const auto m = s.p.layout.meaning(fe.system_to_component_index(i).first);
              if (m.displacement)
                continue;
              slip[ids[i]]  = 1;
              index[ids[i]] = m.index;
              auto &q       = partners[ids[i]];
              q.assign(s.p.layout.n_slips, 0);
              for (unsigned j = 0; j < ids.size(); ++j)
                {
                  const auto k = s.p.layout.meaning(fe.system_to_component_index(j).first);
                  if (!k.displacement && fe.unit_support_point(i).distance(fe.unit_support_point(j)) < 1e-10)
                    q[k.index] = ids[j];
                }
            }
        }
    }
  };

  const char *name(const RTP::SolutionAlgorithm a)
  {
    return a == RTP::SolutionAlgorithm::Monolithic ? "monolithic" : a == RTP::SolutionAlgorithm::Bouncing ? "bouncing" : "embracing";
  }

  template <int dim>
  void active_set(pbt::Case &c)
  {
    Draws d;
    d.max_cells           = dim == 2 ? 4 : 2;
    d.max_slips           = 2;
    d.allow_decohesion    = false;
    d.allow_microtraction = false;
    d.force_rate_independent = true;
    LoadDraws l;
    l.max_steps  = 4;
    l.max_strain = c.pick<double>({2, 5, 10});
    LoadCase<dim> s;
    s.draw(c, d, l, [&] {
      s.max_loops      = 40;
      s.max_iterations = 30;
      s.numerics(c);
    });
    if (s.p.layout.n_slips == 0)
      c.discard();
    const Dofs<dim> dofs(s);
    // slips that are tied to each other yield together
    std::vector<unsigned> peer(dofs.slip.size());
    std::iota(peer.begin(), peer.end(), 0u);
    for (unsigned j = 0; j < peer.size(); ++j)
      if (dofs.slip[j] && s.p.affine.is_identity_constrained(j))
        {
          const unsigned m = (*s.p.affine.get_constraint_entries(j))[0].first;
          peer[j] = m, peer[m] = j;
        }
    const auto     &h  = s.p.prm.constitutive_laws_parameters.hardening_law_parameters;
    const double    ch = s.p.prm.dimensionless_form_parameters.characteristic_quantities.slip_resistance;
    std::vector<double> R(dofs.slip.size(), h.initial_slip_resistance / ch);
    const auto algorithm = s.p.prm.solution_algorithm;
    c.label(name(algorithm));
    for (unsigned i = 0; i < s.load.size(); ++i)
      {
        const auto before = s.solution();
        if (!s.solve(c.chance(1, 5)))
          {
            c.label(std::string("gave up: ") + name(algorithm));
            const auto x = s.solution();
            for (unsigned j = 0; j < x.size(); ++j)
              PBT_CHECK(x(j) == before(j), "a failed step changed the solution, entry " << j);
            return;
          }
        c.label(std::string("accepted: ") + name(algorithm));
        const auto x = s.solution(), old = s.old_solution();
        s.ref->update(x, old);
        auto       trial = s.ref->trial_microstress(x, old);
        // in units of the resistance, the greater one of those tied
        for (unsigned j = 0; j < x.size(); ++j)
          if (peer[j] > j)
            {
              const unsigned k = peer[j];
              const double   t = std::max(std::fabs(trial(j)) / R[j], std::fabs(trial(k)) / R[k]);
              if (std::fabs(trial(j)) / R[j] != std::fabs(trial(k)) / R[k] &&
                  (std::fabs(trial(j)) > R[j]) != (std::fabs(trial(k)) > R[k]))
                c.label("one of two");
              trial(j) = t * R[j];
              trial(k) = t * R[k];
            }
        // slips above their resistance and slips that moved are balanced; an
        // active slip may well end up without an increment
        const double slack = algorithm == RTP::SolutionAlgorithm::Monolithic ? 1e-7 : 1e-3;
        std::vector<char> active(x.size(), 0), moved(x.size(), 0);
        bool              any = false, unclear = false;
        for (unsigned j = 0; j < x.size(); ++j)
          if (dofs.slip[j] && (!s.p.affine.is_constrained(j) || peer[j] != j))
            {
              moved[j]  = std::fabs(x(j) - old(j)) > 1e-14 * (std::fabs(x(j)) + std::fabs(old(j)));
              active[j] = moved[j] || std::fabs(trial(j)) > R[j] * (1 + slack);
              any       = any || moved[j];
              unclear   = unclear || (!moved[j] && std::fabs(std::fabs(trial(j)) - R[j]) <= R[j] * slack);
            }
        if (any)
          c.label(std::string("plastic step: ") + name(algorithm));
        if (i > 0 && any)
          c.nontrivial();
        dealii::Vector<double> out, size;
        s.ref->weak_form(x, old, s.dt, out, size);
        double u2 = 0, g2 = 0, su = 0, sg = 0;
        Reference<dim>::condense(s.p.newton, out);
        Reference<dim>::condense(s.p.newton, size, true);
        for (unsigned j = 0; j < x.size(); ++j)
          if (!dofs.slip[j])
            u2 += out(j) * out(j), su += size(j) * size(j);
          else if (active[j])
            g2 += out(j) * out(j), sg += size(j) * size(j);
        PBT_CHECK(std::sqrt(u2) <= s.tolerance * 1.001 + 1e-12 * std::sqrt(su),
                  "momentum imbalance " << std::sqrt(u2) << " of step " << i << ", tolerance " << s.tolerance << ", " << name(algorithm));
        PBT_CHECK(std::sqrt(g2) <= s.tolerance * 1.001 + 1e-12 * std::sqrt(sg),
                  "imbalance " << std::sqrt(g2) << " of the yielding slips in step " << i << ", tolerance " << s.tolerance << ", " << name(algorithm));
        // hardened resistance, of the yielding ones only
        std::vector<double> now = R;
        if (!h.flag_perfect_plasticity)
          for (unsigned j = 0; j < x.size(); ++j)
            if (active[j])
              for (unsigned b = 0; b < s.p.layout.n_slips; ++b)
                now[j] += s.ref->hardening(b == dofs.index[j]) *
                          std::fabs(x(dofs.partners[j][b]) - old(dofs.partners[j][b]));
        for (unsigned j = 0; j < x.size(); ++j)
          if (moved[j])
            PBT_CHECK(std::fabs(trial(j)) > R[j] * (1 - slack),
                      "slip " << j << " moved in step " << i << " by " << x(j) - old(j) << " although its trial stress " << trial(j)
                              << " is below its resistance " << R[j] << ", " << name(algorithm));
        if (unclear)
          {
            c.label("on the yield surface");
            return;
          }
        R = now;
        s.ref->end_step(x);
        s.accept();
      }
  }
} // namespace

PBT_PROPERTY("P16", "active-set-2d", 3) { active_set<2>(c); }
PBT_PROPERTY("P16", "active-set-3d", 1) { active_set<3>(c); }
