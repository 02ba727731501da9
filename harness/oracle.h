// Independent reference: constitutive relations as plain formulas and the
// weak form of the coupled problem evaluated with them.  Nothing here calls
// a constitutive law, history class or assembly routine of gCP.
#ifndef VERIF_ORACLE_H
#define VERIF_ORACLE_H

#include "common.h"

#include <gCP/run_time_parameters.h>

#include <deal.II/base/quadrature_lib.h>
#include <deal.II/dofs/dof_handler.h>
#include <deal.II/fe/fe_values.h>
#include <deal.II/fe/mapping_q.h>
#include <deal.II/lac/affine_constraints.h>
#include <deal.II/lac/vector.h>

#include <map>
#include <tuple>

namespace vf
{
  namespace RTP = gCP::RunTimeParameters;

  inline double sgn(const double v) { return double((v > 0) - (v < 0)); }

  inline double sigmoid(const RTP::RegularizationFunction kind, const double x)
  {
    const double pi = 3.14159265358979323846;
    using F         = RTP::RegularizationFunction;
    switch (kind)
      {
        case F::Atan:
          return 2 / pi * std::atan(pi / 2 * x);
        case F::Sqrt:
          return x / std::hypot(x, 1.0);
        case F::Gd:
          return 4 / pi * std::atan(std::tanh(pi / 4 * x));
        case F::Tanh:
          return std::tanh(x);
        default:
          return std::erf(std::sqrt(pi) / 2 * x);
      }
  }

  // what a solution vector index means
  struct DofMeaning
  {
    bool     displacement;
    unsigned index; // direction or slip system
  };

  // Layout of the components of the discrete field: displacements first,
  // one copy shared by all crystals or, with decohesion, one per crystal;
  // then the slips of each crystal.
  struct Layout
  {
    unsigned dim, n_crystals, n_slips;
    bool     decohesion;
    unsigned n_displacement() const
    {
      return decohesion ? dim * n_crystals : dim;
    }
    unsigned n_components() const
    {
      return n_displacement() + n_crystals * n_slips;
    }
    unsigned u(const unsigned k, const unsigned i) const
    {
      return (decohesion ? k * dim : 0) + i;
    }
    unsigned slip(const unsigned k, const unsigned a) const
    {
      return n_displacement() + k * n_slips + a;
    }
    DofMeaning meaning(const unsigned component) const
    {
      if (component < n_displacement())
        return {true, component % dim};
      return {false, (component - n_displacement()) % n_slips};
    }
    unsigned crystal_of(const unsigned component) const
    {
      if (component < n_displacement())
        return decohesion ? component / dim : unsigned(-1);
      return (component - n_displacement()) / n_slips;
    }
  };

  struct InterfaceState
  {
    double stored_damage = 0, stored_max = 0; // at the start of the step
    double damage = 0, max = 0;               // of the present iterate
    double old_eff = 0;                       // of the last accepted step
  };

  template <int dim>
  struct Reference
  {
    CrystalSpec                   spec;
    Layout                        layout;
    const RTP::SolverParameters  *prm;
    const dealii::DoFHandler<dim> *dofs;
    dealii::MappingQ<dim>         mapping{1};
    M3                            macroscopic_strain = zero33();
    std::function<V3(const V3 &)> body;                       // may be empty
    std::map<unsigned, std::function<V3(const V3 &)>> neumann; // by boundary id

    using CellKey = std::string;
    std::map<std::pair<CellKey, unsigned>, std::vector<double>> stored_R, R;
    std::map<std::array<long long, 3>, InterfaceState>            interface_;
    std::vector<std::vector<V3>>                                  S, M, T;
    std::vector<std::vector<M3>>                                  P;

    Reference(const CrystalSpec             &spec,
              const Layout                  &layout,
              const RTP::SolverParameters   &prm,
              const dealii::DoFHandler<dim> &dofs)
      : spec(spec)
      , layout(layout)
      , prm(&prm)
      , dofs(&dofs)
    {
      const auto &h = prm.constitutive_laws_parameters.hardening_law_parameters;
      const double R0 =
        h.initial_slip_resistance / prm.dimensionless_form_parameters
                                      .characteristic_quantities.slip_resistance;
      for (const auto &cell : dofs.active_cell_iterators())
        for (unsigned q = 0; q < n_q(); ++q)
          stored_R[{cell->id().to_string(), q}] =
            std::vector<double>(spec.n_slips(), R0);
      R = stored_R;
      for (unsigned k = 0; k < spec.n_crystals(); ++k)
        {
          S.emplace_back();
          M.emplace_back();
          T.emplace_back();
          P.emplace_back();
          for (unsigned a = 0; a < spec.n_slips(); ++a)
            {
              S[k].push_back(spec.s(k, a));
              M[k].push_back(spec.m(k, a));
              T[k].push_back(spec.t(k, a));
              P[k].push_back(spec.P(k, a));
            }
        }
    }

    static unsigned n_q() { return dealii::Utilities::pow(3, dim); }

    double k(const unsigned i) const
    {
      return prm->dimensionless_form_parameters.dimensionless_numbers[i];
    }
    const RTP::ConstitutiveLawsParameters &laws() const
    {
      return prm->constitutive_laws_parameters;
    }

    // ---- relations ------------------------------------------------------
    M3 stress(const unsigned cr, const M3 &elastic_strain) const
    {
      const auto  &h  = laws().hooke_law_parameters;
      const double ch = prm->dimensionless_form_parameters
                          .characteristic_quantities.stiffness;
      return cubic_stress(spec.rotation(cr),
                          elastic_strain,
                          h.C1111 / ch,
                          h.C1122 / ch,
                          h.C1212 / ch);
    }
    M3 elastic_strain(const unsigned             cr,
                      const M3                  &strain,
                      const std::vector<double> &slip) const
    {
      M3 e = add(macroscopic_strain, strain);
      for (unsigned a = 0; a < slip.size(); ++a)
        e = add(e, P[cr][a], -k(0) * slip[a]);
      return e;
    }
    double scalar_microstress(const double dg, const double R, const double dt) const
    {
      const auto &p = laws().scalar_microstress_law_parameters;
      if (p.flag_rate_independent)
        return R * sgn(dg);
      return R * sigmoid(p.regularization_function,
                         dg / dt / p.regularization_parameter);
    }
    V3 vectorial_microstress(const unsigned cr, const unsigned a, const V3 &g) const
    {
      const auto  &v = laws().vectorial_microstress_law_parameters;
      const double p = v.defect_energy_index;
      const double f = (k(3) != 1.0) ? 1.0 :
                                       v.initial_slip_resistance *
                                         std::pow(v.energetic_length_scale, p);
      auto spow = [&](const double y) {
        return y == 0 ? 0.0 : std::copysign(std::pow(std::fabs(y), p - 1), y);
      };
      V3 x = (f * spow(dot(S[cr][a], g))) * S[cr][a];
      if (dim == 3)
        x = x + (f * spow(dot(T[cr][a], g))) * T[cr][a];
      return x;
    }
    double hardening(const bool self) const
    {
      const auto &h = laws().hardening_law_parameters;
      if (h.flag_perfect_plasticity)
        return 0;
      return h.linear_hardening_modulus /
             prm->dimensionless_form_parameters.characteristic_quantities
               .slip_resistance *
             (self ? 1.0 : h.hardening_parameter);
    }
    double degradation(const double d, const bool coupled) const
    {
      return coupled ? std::pow(1 - d,
                                laws().degradation_function_parameters
                                  .degradation_exponent) :
                       1.0;
    }
    double effective_opening(const V3 &delta, const V3 &n) const
    {
      const double dn = dot(delta, n);
      const double b =
        laws().cohesive_law_parameters.tangential_to_normal_stiffness_ratio;
      return std::hypot(std::max(dn, 0.0), b * norm(delta - dn * n));
    }
    V3 cohesive_traction(const V3 &delta, const V3 &n, const double max) const
    {
      const auto  &p   = laws().cohesive_law_parameters;
      const double eff = effective_opening(delta, n);
      const double d   = std::max(eff, max);
      if (d == 0)
        return zero3();
      const double dc = p.critical_opening_displacement;
      const double b  = p.tangential_to_normal_stiffness_ratio;
      const double dn = dot(delta, n);
      // T(d)/d is the secant stiffness
      const double K = p.critical_cohesive_traction / dc * std::exp(1 - d / dc);
      return K * (std::max(dn, 0.0) * n + (b * b) * (delta - dn * n));
    }
    V3 contact_traction(const V3 &delta, const V3 &n) const
    {
      const auto &ch =
        prm->dimensionless_form_parameters.characteristic_quantities;
      const double kp = laws().contact_law_parameters.penalty_coefficient /
                        ch.stress * ch.displacement;
      return (-kp * std::max(0.0, -dot(delta, n))) * n;
    }
    double cohesive_energy(const double d) const
    {
      const auto  &p  = laws().cohesive_law_parameters;
      const double dc = p.critical_opening_displacement;
      return p.critical_cohesive_traction * dc *
             (std::exp(1.0) - std::exp(1 - d / dc) * (1 + d / dc));
    }
    M3 lattice(const unsigned cr, const unsigned a, const V3 &n) const
    {
      return outer(S[cr][a], cross(M[cr][a], n));
    }
    M3 burgers(const unsigned             cr,
               const std::vector<double> &slip,
               const unsigned             ncr,
               const std::vector<double> &nslip,
               const V3                  &n) const
    {
      M3 b = zero33();
      for (unsigned a = 0; a < slip.size(); ++a)
        {
          b = add(b, lattice(ncr, a, n), nslip[a]);
          b = add(b, lattice(cr, a, n), -slip[a]);
        }
      return b;
    }

    // ---- fields -----------------------------------------------------------
    struct PointValues
    {
      V3                  u = zero3();
      M3                  grad_u = zero33();
      std::vector<double> slip;
      std::vector<V3>     grad_slip;
    };
    template <typename FEV>
    PointValues evaluate(const FEV                    &fe,
                         const dealii::Vector<double> &x,
                         const std::vector<dealii::types::global_dof_index> &ids,
                         const unsigned q,
                         const bool     gradients) const
    {
      PointValues v;
      v.slip.assign(spec.n_slips(), 0.0);
      v.grad_slip.assign(spec.n_slips(), zero3());
      for (unsigned i = 0; i < ids.size(); ++i)
        {
          const auto       c = fe.get_fe().system_to_component_index(i).first;
          const DofMeaning m = layout.meaning(c);
          const double     U = x(ids[i]);
          const double     N = fe.shape_value(i, q);
          if (m.displacement)
            v.u[m.index] += U * N;
          else
            v.slip[m.index] += U * N;
          if (gradients)
            {
              const V3 g = to3(fe.shape_grad(i, q));
              for (int d = 0; d < dim; ++d)
                if (m.displacement)
                  v.grad_u[m.index][d] += U * g[d];
                else
                  v.grad_slip[m.index][d] += U * g[d];
            }
        }
      return v;
    }

    static std::array<long long, 3> point_key(const dealii::Point<dim> &p)
    {
      std::array<long long, 3> r{{0, 0, 0}};
      for (int i = 0; i < dim; ++i)
        r[i] = std::llround(p[i] * 1e7);
      return r;
    }

    // visits the faces between two crystals, from both sides
    // f(cell, face, fe_values, neighbour, neighbour_fe_values, q map)
    template <typename F>
    void for_each_interface(F f) const
    {
      const dealii::QGauss<dim - 1> quadrature(3);
      const auto flags = dealii::update_values |
                         dealii::update_quadrature_points |
                         dealii::update_normal_vectors |
                         dealii::update_JxW_values;
      for (const auto &cell : dofs->active_cell_iterators())
        for (const unsigned face : cell->face_indices())
          {
            if (cell->face(face)->at_boundary())
              continue;
            const auto neighbour = cell->neighbor(face);
            if (neighbour->material_id() == cell->material_id())
              continue;
            dealii::FEFaceValues<dim> fe(mapping, cell->get_fe(), quadrature, flags);
            fe.reinit(cell, face);
            typename dealii::DoFHandler<dim>::active_cell_iterator nb(
              &dofs->get_triangulation(),
              neighbour->level(),
              neighbour->index(),
              dofs);
            dealii::FEFaceValues<dim> nfe(mapping, nb->get_fe(), quadrature, flags);
            nfe.reinit(nb, cell->neighbor_of_neighbor(face));
            std::vector<unsigned> match(fe.n_quadrature_points);
            for (unsigned q = 0; q < fe.n_quadrature_points; ++q)
              {
                bool found = false;
                for (unsigned r = 0; r < fe.n_quadrature_points; ++r)
                  if (fe.quadrature_point(q).distance(nfe.quadrature_point(r)) < 1e-8)
                    {
                      match[q] = r;
                      found    = true;
                    }
                if (!found)
                  throw std::runtime_error("reference: faces do not match");
              }
            f(cell, fe, nb, nfe, match);
          }
    }

    // ---- internal variables -------------------------------------------
    void begin_step()
    {
      stored_R = R;
      for (auto &it : interface_)
        {
          it.second.stored_damage = it.second.damage;
          it.second.stored_max    = it.second.max;
        }
    }

    void update(const dealii::Vector<double> &x, const dealii::Vector<double> &old)
    {
      const dealii::QGauss<dim> quadrature(3);
      std::vector<dealii::types::global_dof_index> ids, nids;
      for (const auto &cell : dofs->active_cell_iterators())
        {
          dealii::FEValues<dim> fe(mapping, cell->get_fe(), quadrature, dealii::update_values);
          fe.reinit(cell);
          ids.resize(cell->get_fe().n_dofs_per_cell());
          cell->get_dof_indices(ids);
          for (unsigned q = 0; q < quadrature.size(); ++q)
            {
              const auto now = evaluate(fe, x, ids, q, false);
              const auto was = evaluate(fe, old, ids, q, false);
              auto      &r   = R[{cell->id().to_string(), q}];
              r              = stored_R[{cell->id().to_string(), q}];
              for (unsigned a = 0; a < spec.n_slips(); ++a)
                for (unsigned b = 0; b < spec.n_slips(); ++b)
                  r[a] += hardening(a == b) * std::fabs(now.slip[b] - was.slip[b]);
            }
        }
      if (!layout.decohesion)
        return;
      const auto &d = laws().damage_evolution_parameters;
      const double U =
        prm->dimensionless_form_parameters.characteristic_quantities.displacement;
      for_each_interface([&](const auto &cell, const auto &fe, const auto &nb, const auto &nfe, const std::vector<unsigned> &match) {
        ids.resize(cell->get_fe().n_dofs_per_cell());
        cell->get_dof_indices(ids);
        nids.resize(nb->get_fe().n_dofs_per_cell());
        nb->get_dof_indices(nids);
        for (unsigned q = 0; q < match.size(); ++q)
          {
            const auto here  = evaluate(fe, x, ids, q, false);
            const auto there = evaluate(nfe, x, nids, match[q], false);
            const V3   n     = to3(fe.normal_vector(q));
            const double eff = effective_opening(there.u - here.u, n);
            auto &s  = interface_[point_key(fe.quadrature_point(q))];
            s.max    = std::max(s.stored_max, eff);
            s.damage = s.stored_damage;
            if (d.damage_evolution_model == RTP::DamageEvolutionModel::OrtizEtAl)
              {
                const double r = s.max / laws().cohesive_law_parameters.critical_opening_displacement;
                s.damage       = 1 - (1 + r) * std::exp(-r);
              }
            else
              {
                const double gamma = laws().microtraction_law_parameters.grain_boundary_modulus;
                const M3     b = burgers(cell->material_id(), here.slip, nb->material_id(), there.slip, n);
                const double e = laws().degradation_function_parameters.degradation_exponent;
                const double Y = e * std::pow(1 - s.stored_damage, e - 1) *
                                 (cohesive_energy(U * eff) + 0.5 * gamma * ddot(b, b));
                s.damage += d.damage_accumulation_constant * U *
                            std::max(0.0, eff - s.old_eff) *
                            std::pow(1 - s.stored_damage + d.damage_decay_constant, d.damage_decay_exponent) *
                            std::max(0.0, Y - d.endurance_limit);
                s.damage = std::min(1.0, s.damage);
              }
            if (d.flag_set_damage_to_zero)
              s.damage = 0;
          }
      });
    }

    void end_step(const dealii::Vector<double> &x)
    {
      if (!layout.decohesion)
        return;
      std::vector<dealii::types::global_dof_index> ids, nids;
      for_each_interface([&](const auto &cell, const auto &fe, const auto &nb, const auto &nfe, const std::vector<unsigned> &match) {
        ids.resize(cell->get_fe().n_dofs_per_cell());
        cell->get_dof_indices(ids);
        nids.resize(nb->get_fe().n_dofs_per_cell());
        nb->get_dof_indices(nids);
        for (unsigned q = 0; q < match.size(); ++q)
          interface_[point_key(fe.quadrature_point(q))].old_eff =
            effective_opening(evaluate(nfe, x, nids, match[q], false).u -
                                evaluate(fe, x, ids, q, false).u,
                              to3(fe.normal_vector(q)));
      });
    }

    // ---- weak form -------------------------------------------------------
    // out = -(balance), before constraints; size = sum of absolute terms
    void weak_form(const dealii::Vector<double> &x,
                   const dealii::Vector<double> &old,
                   const double                  dt,
                   dealii::Vector<double>       &out,
                   dealii::Vector<double>       &size)
    {
      out.reinit(dofs->n_dofs());
      size.reinit(dofs->n_dofs());
      auto put = [&](const unsigned i, const double v) {
        out(i) += v;
        size(i) += std::fabs(v);
      };
      std::vector<dealii::types::global_dof_index> ids, nids;
      const dealii::QGauss<dim>     quadrature(3);
      const dealii::QGauss<dim - 1> face_quadrature(3);
      for (const auto &cell : dofs->active_cell_iterators())
        {
          const unsigned cr = cell->material_id();
          dealii::FEValues<dim> fe(mapping, cell->get_fe(), quadrature,
                                   dealii::update_values | dealii::update_gradients |
                                     dealii::update_JxW_values | dealii::update_quadrature_points);
          fe.reinit(cell);
          ids.resize(cell->get_fe().n_dofs_per_cell());
          cell->get_dof_indices(ids);
          for (unsigned q = 0; q < quadrature.size(); ++q)
            {
              const auto now = evaluate(fe, x, ids, q, true);
              const auto was = evaluate(fe, old, ids, q, false);
              const M3   sigma = stress(cr, elastic_strain(cr, sym(now.grad_u), now.slip));
              const auto &r = R[{cell->id().to_string(), q}];
              V3          b = zero3();
              if (body)
                b = body(to3<dim>(fe.quadrature_point(q)));
              const double w = fe.JxW(q);
              for (unsigned i = 0; i < ids.size(); ++i)
                {
                  const auto       c = cell->get_fe().system_to_component_index(i).first;
                  const DofMeaning m = layout.meaning(c);
                  const V3         g = to3(fe.shape_grad(i, q));
                  const double     N = fe.shape_value(i, q);
                  if (m.displacement)
                    {
                      // sigma symmetric: sigma : sym(e_i (x) g) = (sigma g)_i
                      put(ids[i], -k(3) / k(0) * dot(sigma[m.index], g) * w);
                      put(ids[i], k(3) / k(0) * b[m.index] * N * w);
                    }
                  else
                    {
                      const unsigned a = m.index;
                      put(ids[i], -k(2) * dot(vectorial_microstress(cr, a, now.grad_slip[a]), g) * w);
                      put(ids[i], k(3) * ddot(sigma, P[cr][a]) * N * w);
                      put(ids[i], -scalar_microstress(now.slip[a] - was.slip[a], r[a], dt) * N * w);
                    }
                }
            }
          if (!neumann.empty())
            for (const unsigned face : cell->face_indices())
              if (cell->face(face)->at_boundary() &&
                  neumann.count(cell->face(face)->boundary_id()))
                {
                  dealii::FEFaceValues<dim> ff(mapping, cell->get_fe(), face_quadrature,
                                               dealii::update_values | dealii::update_JxW_values | dealii::update_quadrature_points);
                  ff.reinit(cell, face);
                  for (unsigned q = 0; q < face_quadrature.size(); ++q)
                    {
                      const V3 t = neumann[cell->face(face)->boundary_id()](to3<dim>(ff.quadrature_point(q)));
                      for (unsigned i = 0; i < ids.size(); ++i)
                        {
                          const DofMeaning m = layout.meaning(cell->get_fe().system_to_component_index(i).first);
                          if (m.displacement)
                            put(ids[i], k(3) / k(0) * ff.shape_value(i, q) * t[m.index] * ff.JxW(q));
                        }
                    }
                }
        }
      const bool microtraction =
        prm->boundary_conditions_at_grain_boundaries ==
        RTP::BoundaryConditionsAtGrainBoundaries::Microtraction;
      if (!layout.decohesion && !microtraction)
        return;
      const auto  &d     = laws().damage_evolution_parameters;
      const double gamma = laws().microtraction_law_parameters.grain_boundary_modulus;
      for_each_interface([&](const auto &cell, const auto &fe, const auto &nb, const auto &nfe, const std::vector<unsigned> &match) {
        ids.resize(cell->get_fe().n_dofs_per_cell());
        cell->get_dof_indices(ids);
        nids.resize(nb->get_fe().n_dofs_per_cell());
        nb->get_dof_indices(nids);
        const unsigned cr = cell->material_id();
        for (unsigned q = 0; q < match.size(); ++q)
          {
            const auto here  = evaluate(fe, x, ids, q, false);
            const auto there = evaluate(nfe, x, nids, match[q], false);
            const V3   n     = to3(fe.normal_vector(q));
            const auto s     = layout.decohesion ? interface_[point_key(fe.quadrature_point(q))] : InterfaceState();
            V3         t_coh = zero3(), t_con = zero3();
            if (layout.decohesion)
              {
                const V3 delta = there.u - here.u;
                t_coh = degradation(s.damage, d.flag_couple_macrotraction_to_damage) *
                        cohesive_traction(delta, n, s.max);
                t_con = contact_traction(delta, n);
              }
            const M3 b = burgers(cr, here.slip, nb->material_id(), there.slip, n);
            for (unsigned i = 0; i < ids.size(); ++i)
              {
                const DofMeaning m = layout.meaning(cell->get_fe().system_to_component_index(i).first);
                const double     w = fe.shape_value(i, q) * fe.JxW(q);
                if (m.displacement)
                  {
                    put(ids[i], k(3) / k(0) * t_coh[m.index] * w);
                    put(ids[i], k(3) / k(0) * t_con[m.index] * w);
                  }
                else if (microtraction)
                  put(ids[i],
                      k(2) * degradation(s.damage, d.flag_couple_microtraction_to_damage) *
                        gamma * ddot(b, lattice(cr, m.index, n)) * w);
              }
          }
      });
    }

    // trial stress of every slip degree of freedom: the part of the balance
    // that drives slip, with the slips of the previous step, weighted with
    // the lumped mass
    dealii::Vector<double> trial_microstress(const dealii::Vector<double> &x,
                                             const dealii::Vector<double> &old) const
    {
      dealii::Vector<double> rhs(dofs->n_dofs()), mass(dofs->n_dofs());
      std::vector<dealii::types::global_dof_index> ids;
      const dealii::QGauss<dim>     quadrature(3);
      const dealii::QGauss<dim - 1> face_quadrature(3);
      for (const auto &cell : dofs->active_cell_iterators())
        {
          const unsigned cr = cell->material_id();
          dealii::FEValues<dim> fe(mapping, cell->get_fe(), quadrature,
                                   dealii::update_values | dealii::update_gradients | dealii::update_JxW_values);
          fe.reinit(cell);
          ids.resize(cell->get_fe().n_dofs_per_cell());
          cell->get_dof_indices(ids);
          for (unsigned q = 0; q < quadrature.size(); ++q)
            {
              const auto now = evaluate(fe, x, ids, q, true);
              const auto was = evaluate(fe, old, ids, q, true);
              const M3   sigma = stress(cr, elastic_strain(cr, sym(now.grad_u), was.slip));
              for (unsigned i = 0; i < ids.size(); ++i)
                {
                  const DofMeaning m = layout.meaning(cell->get_fe().system_to_component_index(i).first);
                  if (m.displacement)
                    continue;
                  const unsigned a = m.index;
                  const double   N = fe.shape_value(i, q), w = fe.JxW(q);
                  mass(ids[i]) += N * w; // the shape functions sum up to one
                  rhs(ids[i]) += k(3) * ddot(sigma, P[cr][a]) * N * w -
                                 k(2) * dot(vectorial_microstress(cr, a, was.grad_slip[a]), to3(fe.shape_grad(i, q))) * w;
                }
            }
          for (const unsigned face : cell->face_indices())
            if (cell->face(face)->at_boundary())
              {
                dealii::FEFaceValues<dim> ff(mapping, cell->get_fe(), face_quadrature,
                                             dealii::update_values | dealii::update_gradients | dealii::update_JxW_values | dealii::update_normal_vectors);
                ff.reinit(cell, face);
                for (unsigned q = 0; q < face_quadrature.size(); ++q)
                  {
                    const auto was = evaluate(ff, old, ids, q, true);
                    for (unsigned i = 0; i < ids.size(); ++i)
                      {
                        const DofMeaning m = layout.meaning(cell->get_fe().system_to_component_index(i).first);
                        if (!m.displacement)
                          rhs(ids[i]) += k(2) * ff.shape_value(i, q) *
                                         dot(vectorial_microstress(cr, m.index, was.grad_slip[m.index]), to3(ff.normal_vector(q))) * ff.JxW(q);
                      }
                  }
              }
        }
      for (unsigned i = 0; i < rhs.size(); ++i)
        rhs(i) = mass(i) == 0 ? 0.0 : rhs(i) / mass(i);
      return rhs;
    }

    static void condense(const dealii::AffineConstraints<double> &constraints,
                         dealii::Vector<double>                  &v,
                         const bool absolute = false)
    {
      for (unsigned i = 0; i < v.size(); ++i)
        if (constraints.is_constrained(i))
          {
            const auto *entries = constraints.get_constraint_entries(i);
            if (entries)
              for (const auto &e : *entries)
                v(e.first) += (absolute ? std::fabs(e.second) : e.second) * v(i);
            v(i) = 0;
          }
    }
  };
} // namespace vf
#endif
