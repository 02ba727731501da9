// Reference of the strip: displacements and slips that depend on the height
// only, solved by finite elements on a line.  On a mesh that repeats itself
// along the strip, with periodic sides, it is the discrete solution of the
// strip itself.  Uses the plain formulas of oracle.h, nothing of gCP.
#ifndef VERIF_STRIP_H
#define VERIF_STRIP_H

#include "oracle.h"

#include <deal.II/dofs/dof_handler.h>
#include <deal.II/fe/fe_q.h>
#include <deal.II/lac/full_matrix.h>
#include <deal.II/lac/lapack_full_matrix.h>

namespace vf
{
  template <int dim>
  struct Strip
  {
    CrystalSpec            spec;
    Layout                 layout;
    RTP::SolverParameters  prm;
    double                 height = 1;
    unsigned               n_cells = 1;
    unsigned               pu = 1, ps = 1;
    bool                   microhard = false;

    std::vector<unsigned>                         layer; // of a cell
    std::vector<std::vector<unsigned>>            ids;   // of a cell: u (dim per node), then slips
    std::vector<char>                             fixed;
    std::vector<unsigned>                         top; // displacement dofs of the top
    std::vector<double>                           x, old;
    std::vector<std::vector<std::vector<double>>> R, stored_R; // cell, point, slip
    std::vector<InterfaceState>                   interface_;  // above layer i
    dealii::Triangulation<dim>                    tria;
    std::unique_ptr<dealii::DoFHandler<dim>>      dofs;
    std::unique_ptr<Reference<dim>>               law;
    double                                        largest_opening = 0;

    static const std::array<double, 3> &points()
    {
      static const std::array<double, 3> p{{0.5 - std::sqrt(0.15), 0.5, 0.5 + std::sqrt(0.15)}};
      return p;
    }
    static const std::array<double, 3> &weights()
    {
      static const std::array<double, 3> w{{5.0 / 18, 8.0 / 18, 5.0 / 18}};
      return w;
    }
    static double shape(const unsigned degree, const unsigned i, const double s)
    {
      if (degree == 1)
        return i == 0 ? 1 - s : s;
      return i == 0 ? (1 - s) * (1 - 2 * s) : i == 1 ? 4 * s * (1 - s) : s * (2 * s - 1);
    }
    static double slope(const unsigned degree, const unsigned i, const double s)
    {
      if (degree == 1)
        return i == 0 ? -1 : 1;
      return i == 0 ? 4 * s - 3 : i == 1 ? 4 - 8 * s : 4 * s - 1;
    }
    double h() const { return height / n_cells; }
    unsigned n_u() const { return dim * (pu + 1); }

    void init()
    {
      dealii::GridGenerator::hyper_cube(tria);
      dofs = std::make_unique<dealii::DoFHandler<dim>>(tria);
      dofs->distribute_dofs(dealii::FE_Q<dim>(1));
      law = std::make_unique<Reference<dim>>(spec, layout, prm, *dofs);
      unsigned n = 0;
      std::vector<unsigned> last_u, last_s;
      ids.assign(n_cells, {});
      layer.resize(n_cells);
      auto add = [&](const bool f) {
        fixed.push_back(f);
        return n++;
      };
      for (unsigned e = 0; e < n_cells; ++e)
        {
          layer[e] = unsigned((e + 0.5) / n_cells * layout.n_crystals);
          const bool first = e == 0, last = e + 1 == n_cells;
          const bool new_layer = first || layer[e] != layer[e - 1];
          const bool last_of_layer =
            last || unsigned((e + 1.5) / n_cells * layout.n_crystals) != layer[e];
          for (unsigned i = 0; i <= pu; ++i)
            for (int d = 0; d < dim; ++d)
              {
                if (i == 0 && !first && !(layout.decohesion && new_layer))
                  ids[e].push_back(last_u[d]);
                else
                  ids[e].push_back(add((i == 0 && first) || (i == pu && last)));
                if (i == pu && last)
                  top.push_back(ids[e].back());
              }
          last_u.assign(ids[e].end() - dim, ids[e].end());
          for (unsigned a = 0; a < layout.n_slips; ++a)
            for (unsigned i = 0; i <= ps; ++i)
              if (i == 0 && !new_layer)
                ids[e].push_back(last_s[a]);
              else
                ids[e].push_back(add((i == 0 && (first || microhard)) || (i == ps && (last || (microhard && last_of_layer)))));
          last_s.clear();
          for (unsigned a = 0; a < layout.n_slips; ++a)
            last_s.push_back(ids[e][n_u() + a * (ps + 1) + ps]);
        }
      x.assign(n, 0.0);
      old = x;
      const double R0 = prm.constitutive_laws_parameters.hardening_law_parameters.initial_slip_resistance /
                        prm.dimensionless_form_parameters.characteristic_quantities.slip_resistance;
      R.assign(n_cells, std::vector<std::vector<double>>(3, std::vector<double>(layout.n_slips, R0)));
      stored_R = R;
      interface_.assign(layout.n_crystals, InterfaceState());
    }

    struct Values
    {
      V3                  u = zero3();
      M3                  grad = zero33();
      std::vector<double> slip, slope;
    };
    Values evaluate(const unsigned e, const std::vector<double> &v, const double s) const
    {
      Values r;
      r.slip.assign(layout.n_slips, 0.0);
      r.slope.assign(layout.n_slips, 0.0);
      for (unsigned i = 0; i <= pu; ++i)
        for (int d = 0; d < dim; ++d)
          {
            const double U = v[ids[e][i * dim + d]];
            r.u[d] += shape(pu, i, s) * U;
            r.grad[d][1] += slope(pu, i, s) / h() * U;
          }
      for (unsigned a = 0; a < layout.n_slips; ++a)
        for (unsigned i = 0; i <= ps; ++i)
          {
            const double U = v[ids[e][n_u() + a * (ps + 1) + i]];
            r.slip[a] += shape(ps, i, s) * U;
            r.slope[a] += slope(ps, i, s) / h() * U;
          }
      return r;
    }
    M3 stress(const unsigned e, const double s) const
    {
      const Values v = evaluate(e, x, s);
      return law->stress(layer[e], law->elastic_strain(layer[e], sym(v.grad), v.slip));
    }

    // residual of one cell with its point values of the slip resistance
    void cell_residual(const unsigned e, const std::vector<double> &v, const double dt, std::vector<double> &out, std::vector<double> *size, std::vector<std::vector<double>> &r) const
    {
      out.assign(ids[e].size(), 0.0);
      if (size)
        size->assign(ids[e].size(), 0.0);
      auto put = [&](const unsigned i, const double f) {
        out[i] += f;
        if (size)
          (*size)[i] += std::fabs(f);
      };
      for (unsigned q = 0; q < 3; ++q)
        {
          const double s = points()[q], w = weights()[q] * h();
          const Values now = evaluate(e, v, s), was = evaluate(e, old, s);
          const unsigned cr = layer[e];
          const M3 sigma = law->stress(cr, law->elastic_strain(cr, sym(now.grad), now.slip));
          r[q] = stored_R[e][q];
          for (unsigned a = 0; a < layout.n_slips; ++a)
            for (unsigned b = 0; b < layout.n_slips; ++b)
              r[q][a] += law->hardening(a == b) * std::fabs(now.slip[b] - was.slip[b]);
          for (unsigned i = 0; i <= pu; ++i)
            for (int d = 0; d < dim; ++d)
              put(i * dim + d, law->k(3) / law->k(0) * sigma[d][1] * slope(pu, i, s) / h() * w);
          for (unsigned a = 0; a < layout.n_slips; ++a)
            {
              const V3     xi  = law->vectorial_microstress(cr, a, V3{{0, now.slope[a], 0}});
              const double tau = ddot(sigma, law->P[cr][a]);
              const double pi  = law->scalar_microstress(now.slip[a] - was.slip[a], r[q][a], dt);
              for (unsigned i = 0; i <= ps; ++i)
                {
                  const unsigned j = n_u() + a * (ps + 1) + i;
                  put(j, law->k(2) * xi[1] * slope(ps, i, s) / h() * w);
                  put(j, -law->k(3) * tau * shape(ps, i, s) * w);
                  put(j, pi * shape(ps, i, s) * w);
                }
            }
        }
    }
    // of the interface above cell e; the entries of cell e, then of e+1
    void interface_residual(const unsigned e, const std::vector<double> &v, std::vector<double> &out, std::vector<double> *size, InterfaceState &st) const
    {
      const unsigned n1 = ids[e].size();
      out.assign(n1 + ids[e + 1].size(), 0.0);
      if (size)
        size->assign(out.size(), 0.0);
      auto put = [&](const unsigned i, const double f) {
        out[i] += f;
        if (size)
          (*size)[i] += std::fabs(f);
      };
      const Values here = evaluate(e, v, 1), there = evaluate(e + 1, v, 0);
      const V3     n{{0, 1, 0}};
      const auto  &l = law->laws();
      const auto  &d = l.damage_evolution_parameters;
      const M3     b = law->burgers(layer[e], here.slip, layer[e + 1], there.slip, n);
      if (layout.decohesion)
        {
          const V3     delta = there.u - here.u;
          const double eff   = law->effective_opening(delta, n);
          st.max             = std::max(st.stored_max, eff);
          st.damage          = st.stored_damage;
          if (d.damage_evolution_model == RTP::DamageEvolutionModel::OrtizEtAl)
            {
              const double r = st.max / l.cohesive_law_parameters.critical_opening_displacement;
              st.damage      = 1 - (1 + r) * std::exp(-r);
            }
          else
            {
              const double g = l.microtraction_law_parameters.grain_boundary_modulus;
              const double m = l.degradation_function_parameters.degradation_exponent;
              const double Y = m * std::pow(1 - st.stored_damage, m - 1) * (law->cohesive_energy(eff) + 0.5 * g * ddot(b, b));
              st.damage += d.damage_accumulation_constant * std::max(0.0, eff - st.old_eff) *
                           std::pow(1 - st.stored_damage + d.damage_decay_constant, d.damage_decay_exponent) *
                           std::max(0.0, Y - d.endurance_limit);
              st.damage = std::min(1.0, st.damage);
            }
          if (d.flag_set_damage_to_zero)
            st.damage = 0;
          const V3 t = law->degradation(st.damage, d.flag_couple_macrotraction_to_damage) * law->cohesive_traction(delta, n, st.max) +
                       law->contact_traction(delta, n);
          for (int i = 0; i < dim; ++i)
            {
              put(pu * dim + i, -t[i]);
              put(n1 + i, t[i]);
            }
        }
      if (prm.boundary_conditions_at_grain_boundaries == RTP::BoundaryConditionsAtGrainBoundaries::Microtraction)
        {
          const double g = law->k(2) * law->degradation(st.damage, layout.decohesion && d.flag_couple_microtraction_to_damage) *
                           l.microtraction_law_parameters.grain_boundary_modulus;
          for (unsigned a = 0; a < layout.n_slips; ++a)
            {
              put(n_u() + a * (ps + 1) + ps, -g * ddot(b, law->lattice(layer[e], a, n)));
              put(n1 + n_u() + a * (ps + 1), g * ddot(b, law->lattice(layer[e + 1], a, n)));
            }
        }
    }

    std::vector<unsigned> pair_ids(const unsigned e) const
    {
      std::vector<unsigned> r = ids[e];
      r.insert(r.end(), ids[e + 1].begin(), ids[e + 1].end());
      return r;
    }
    bool at_interface(const unsigned e) const { return e + 1 < n_cells && layer[e] != layer[e + 1]; }

    double residual(const std::vector<double> &v, const double dt, std::vector<double> &out, double &size)
    {
      out.assign(v.size(), 0.0);
      std::vector<double> sizes(v.size(), 0.0), r, s;
      auto put = [&](const std::vector<unsigned> &where) {
        for (unsigned i = 0; i < where.size(); ++i)
          {
            out[where[i]] += r[i];
            sizes[where[i]] += s[i];
          }
      };
      for (unsigned e = 0; e < n_cells; ++e)
        {
          cell_residual(e, v, dt, r, &s, R[e]);
          put(ids[e]);
          if (at_interface(e))
            {
              interface_residual(e, v, r, &s, interface_[layer[e]]);
              put(pair_ids(e));
            }
        }
      double n = 0;
      size     = 0;
      for (unsigned i = 0; i < v.size(); ++i)
        if (!fixed[i])
          {
            n += out[i] * out[i];
            size += sizes[i] * sizes[i];
          }
      size = std::sqrt(size);
      return std::sqrt(n);
    }

    // one load step; false: no solution found
    bool step(const V3 &top_displacement, const double dt)
    {
      stored_R = R;
      for (auto &s : interface_)
        {
          s.stored_damage = s.damage;
          s.stored_max    = s.max;
        }
      old = x;
      std::vector<double> v = x, out, trial, r, rp, rm;
      for (int d = 0; d < dim; ++d)
        v[top[d]] = top_displacement[d];
      double    span = 1e-8, size;
      for (const double a : v)
        span = std::max(span, std::fabs(a));
      std::vector<int> number(v.size(), -1);
      int              n = 0;
      for (unsigned i = 0; i < v.size(); ++i)
        if (!fixed[i])
          number[i] = n++;
      if (n == 0)
        {
          x = v;
          residual(x, dt, out, size);
          finish();
          return true;
        }
      double norm = residual(v, dt, out, size);
      int    stagnation = 0;
      for (unsigned it = 0; it < 80; ++it)
        {
          if (norm <= 1e-13 * size)
            break;
          dealii::LAPACKFullMatrix<double> J(n, n);
          J = 0;
          auto differentiate = [&](const std::vector<unsigned> &where, const std::function<void(const std::vector<double> &, std::vector<double> &)> &f) {
            std::set<unsigned> done;
            for (const unsigned j : where)
              {
                if (number[j] < 0 || !done.insert(j).second)
                  continue;
                const double keep = v[j], step = 1e-6 * span;
                v[j] = keep + step;
                f(v, rp);
                v[j] = keep - step;
                f(v, rm);
                v[j] = keep;
                for (unsigned i = 0; i < where.size(); ++i)
                  if (number[where[i]] >= 0)
                    J(number[where[i]], number[j]) += (rp[i] - rm[i]) / (2 * step);
              }
          };
          for (unsigned e = 0; e < n_cells; ++e)
            {
              auto r_points = R[e];
              differentiate(ids[e], [&](const auto &w, auto &o) { cell_residual(e, w, dt, o, nullptr, r_points); });
              if (at_interface(e))
                {
                  InterfaceState st = interface_[layer[e]];
                  differentiate(pair_ids(e), [&](const auto &w, auto &o) { interface_residual(e, w, o, nullptr, st); });
                }
            }
          dealii::Vector<double> b(n);
          for (unsigned i = 0; i < v.size(); ++i)
            if (number[i] >= 0)
              b(number[i]) = -out[i];
          try
            {
              J.compute_lu_factorization();
              J.solve(b);
            }
          catch (...)
            {
              return false;
            }
          double factor = 1, best = norm;
          bool   better = false;
          for (unsigned k = 0; k < 25; ++k, factor *= 0.5)
            {
              trial = v;
              for (unsigned i = 0; i < v.size(); ++i)
                if (number[i] >= 0)
                  trial[i] += factor * b(number[i]);
              best = residual(trial, dt, out, size);
              if (std::isfinite(best) && best < norm)
                {
                  better = true;
                  break;
                }
            }
          if (!better)
            {
              norm = residual(v, dt, out, size);
              break;
            }
          if (best > 0.5 * norm && best < 1e-10 * size)
            ++stagnation;
          v    = trial;
          norm = best;
          if (stagnation > 2)
            break;
        }
      x = v;
      if (!(norm <= 1e-11 * size))
        return false;
      finish();
      return true;
    }
    void finish()
    {
      for (unsigned e = 0; e < n_cells; ++e)
        if (at_interface(e) && layout.decohesion)
          {
            auto &s   = interface_[layer[e]];
            s.old_eff = law->effective_opening(evaluate(e + 1, x, 0).u - evaluate(e, x, 1).u, V3{{0, 1, 0}});
            largest_opening = std::max(largest_opening, s.old_eff);
          }
    }

    // averages over the strip
    void averages(M3 &sigma, M3 &strain) const
    {
      sigma = strain = zero33();
      for (unsigned e = 0; e < n_cells; ++e)
        for (unsigned q = 0; q < 3; ++q)
          {
            const double w = weights()[q] / n_cells;
            sigma  = add(sigma, stress(e, points()[q]), w);
            strain = add(strain, sym(evaluate(e, x, points()[q]).grad), w);
          }
    }
    M3 top_stress() const { return stress(n_cells - 1, 1); }
  };
} // namespace vf
#endif
