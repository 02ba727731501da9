// P13 residual, P14 Jacobian: the assembled objects of the solver at
// arbitrary states and histories against an independent weak form.
#include "assembly_setup.h"

using namespace vf;

namespace
{
  template <int dim>
  void residual(pbt::Case &c)
  {
    Draws d;
    d.max_cells = dim == 2 ? 6 : 4;
    d.max_slips = dim == 2 ? 3 : 2;
    d.min_slips_zero = c.chance(1, 12);
    // now and then several rows of cells: distorted, the two sides of a face
    // agree up to round-off only
    d.many_cells = c.chance(1, dim == 2 ? 8 : 12);
    if (d.many_cells)
      d.force_grains = c.integer(2, 3), d.force_decohesion = c.chance(3, 4), d.max_slips = 1;
    Setup<dim> s;
    s.draw(c, d);
    auto &p = s.p;
    dealii::Vector<double> old(p.field->n_dofs()), x, out, size;
    const int steps = c.integer(1, d.many_cells ? 2 : 3);
    c.note("steps", steps);
    if (d.many_cells)
      c.label("many cells");
    for (int step = 0; step < steps; ++step)
      {
        s.begin();
        const int iterates = c.integer(1, 2);
        for (int it = 0; it < iterates; ++it)
          {
            x = draw_state(c, p, s.slip_size * (step + 1), s.u_size);
            s.iterate(x, old);
            const double value = p.solver->assemble_residual();
            s.ref->weak_form(x, old, s.dt, out, size);
            Reference<dim>::condense(p.newton, out);
            Reference<dim>::condense(p.newton, size, true);
            double norm2 = 0;
            for (unsigned i = 0; i < x.size(); ++i)
              {
                const double r = p.solver->residual(i);
                norm2 += r * r;
                pbt::close(r, out(i), 0, 1e-10 * size(i) + 1e-12 * size.linfty_norm(),
                           "residual entry " + std::to_string(i) + " in step " + std::to_string(step) + " iterate " + std::to_string(it));
              }
            pbt::close(value, 0.5 * norm2, 1e-9, 1e-300, "objective");
          }
        s.accept(x);
        old = x;
      }
    c.label(p.layout.decohesion ? "decohesion" : "perfect interface");
    c.label("gb" + std::to_string(int(p.prm.boundary_conditions_at_grain_boundaries)));
    c.nontrivial(p.layout.n_slips > 0 && size.linfty_norm() > 0);
  }

  template <int dim>
  dealii::Vector<double> symmetrisation(Setup<dim> &s, const dealii::Vector<double> &x, const dealii::Vector<double> &old, const dealii::Vector<double> &v)
  {
    dealii::Vector<double> out(x.size());
    const auto &ref = *s.ref;
    const auto &prm = s.p.prm.constitutive_laws_parameters.scalar_microstress_law_parameters;
    if (prm.flag_rate_independent)
      return out;
    const dealii::QGauss<dim> quadrature(3);
    std::vector<dealii::types::global_dof_index> ids;
    for (const auto &cell : s.p.field->get_dof_handler().active_cell_iterators())
      {
        dealii::FEValues<dim> fe(ref.mapping, cell->get_fe(), quadrature, dealii::update_values | dealii::update_JxW_values);
        fe.reinit(cell);
        ids.resize(cell->get_fe().n_dofs_per_cell());
        cell->get_dof_indices(ids);
        for (unsigned q = 0; q < quadrature.size(); ++q)
          {
            const auto now = ref.evaluate(fe, x, ids, q, false), was = ref.evaluate(fe, old, ids, q, false),
                       dir = ref.evaluate(fe, v, ids, q, false);
            std::vector<double> rate(s.p.layout.n_slips);
            for (unsigned a = 0; a < rate.size(); ++a)
              rate[a] = now.slip[a] - was.slip[a];
            auto reg = [&](const double r) { return sigmoid(prm.regularization_function, r / s.dt / prm.regularization_parameter); };
            for (unsigned i = 0; i < ids.size(); ++i)
              {
                const auto m = s.p.layout.meaning(cell->get_fe().system_to_component_index(i).first);
                if (!m.displacement)
                  for (unsigned b = 0; b < rate.size(); ++b)
                    out(ids[i]) += fe.shape_value(i, q) * fe.JxW(q) * ref.hardening(m.index == b) *
                                   reg(rate[m.index]) * (reg(rate[b]) - sgn(rate[b])) * dir.slip[b];
              }
          }
      }
    Reference<dim>::condense(s.p.newton, out);
    return out;
  }

  template <int dim>
  void jacobian(pbt::Case &c)
  {
    Draws d;
    d.max_cells = dim == 2 ? 4 : 2;
    d.max_slips = dim == 2 ? 3 : 2;
    d.min_slips_zero = c.chance(1, 12);
    // more cells, distorted, so that the two sides of a face agree up to
    // round-off only
    const bool more = dim == 2 && c.chance(1, 12);
    if (more)
      {
        d.max_cells = 9, d.max_slips = 1, d.force_grains = c.integer(2, 3), d.force_decohesion = true;
        c.label("more cells");
      }
    Setup<dim> s;
    auto &p  = s.p;
    auto &da = p.prm.constitutive_laws_parameters.damage_evolution_parameters;
    // the tangent is taken at fixed damage: no coupling, or damage that is
    // prescribed and does not grow
    const bool frozen = c.boolean();
    s.draw(c, d, [&] {
      if (frozen)
        {
          da.damage_evolution_model       = RTP::DamageEvolutionModel::M1;
          da.damage_accumulation_constant = 0.0;
        }
      else
        da.flag_couple_macrotraction_to_damage = da.flag_couple_microtraction_to_damage = false;
    });
    dealii::Vector<double> old(p.field->n_dofs()), x;
    if (p.layout.decohesion && frozen && !da.flag_set_damage_to_zero)
      for (const auto &cell : p.tria.active_cell_iterators())
        for (const unsigned f : cell->face_indices())
          if (!cell->face(f)->at_boundary() && cell->neighbor(f)->material_id() != cell->material_id())
            for (auto &h : p.solver->interface_quadrature_point_history.get_data(cell->id(), cell->neighbor(f)->id()))
              h->set(0.37);
    const int steps = c.integer(1, 2);
    c.note("steps", steps).note("frozen", frozen);
    for (int step = 0; step < steps; ++step)
      {
        s.begin();
        // large openings first: the second state unloads in places
        x = draw_state(c, p, s.slip_size, s.u_size * (step == 0 ? 1.0 : 0.6));
        p.newton.distribute(x);
        p.assign(p.solver->trial_solution, x);
        p.solver->reset_and_update_internal_variables();
        if (step + 1 < steps)
          {
            s.accept(x);
            old = x;
          }
      }
    p.solver->assemble_jacobian();
    const unsigned n = x.size();
    auto res = [&](const dealii::Vector<double> &y) {
      p.assign(p.solver->trial_solution, y);
      p.solver->reset_and_update_internal_variables();
      p.solver->assemble_residual();
      dealii::Vector<double> r(n);
      for (unsigned i = 0; i < n; ++i)
        r(i) = p.solver->residual(i);
      return r;
    };
    // dense copy
    dealii::FullMatrix<double> J(n, n);
    for (unsigned i = 0; i < n; ++i)
      for (unsigned j = 0; j < n; ++j)
        J(i, j) = p.solver->jacobian.el(i, j);
    // sums of absolute contributions, which round-off is proportional to
    double roundoff = 0;
    {
      dealii::Vector<double> out, size;
      s.ref->update(x, old);
      s.ref->weak_form(x, old, s.dt, out, size);
      roundoff = 3e-14 * size.linfty_norm();
    }
    c.nontrivial(p.layout.n_slips > 0);
    c.label(p.layout.decohesion ? "decohesion" : "perfect interface");
    const double hu = 1e-6 * s.u_size, hs = 1e-4 * p.prm.constitutive_laws_parameters.scalar_microstress_law_parameters.regularization_parameter * s.dt;
    for (int rep = 0; rep < 3; ++rep)
      {
        // perturb displacements, slips, or both
        dealii::Vector<double> v = draw_state(c, p, rep == 0 ? 0.0 : hs, rep == 1 ? 0.0 : hu);
        p.newton.distribute(v);
        dealii::Vector<double> xp = x, xm = x, jv(n), size(n);
        xp.add(1.0, v);
        xm.add(-1.0, v);
        const auto rp = res(xp), rm = res(xm), r0 = res(x);
        J.vmult(jv, v);
        // the hardening term of the tangent is symmetrised: the sign of the
        // second slip rate is replaced by its regularisation
        jv -= symmetrisation(s, x, old, v);
        double scale = 0;
        for (unsigned i = 0; i < n; ++i)
          {
            for (unsigned j = 0; j < n; ++j)
              size(i) += std::fabs(J(i, j) * v(j));
            scale = std::max(scale, size(i));
          }
        // differences with shorter steps where those of the first one may be
        // affected by kinks, several of which may cancel in the indicator
        std::vector<std::array<dealii::Vector<double>, 2>> shorter;
        const int levels = 3;
        for (unsigned i = 0; i < n; ++i)
          {
            if (p.newton.is_constrained(i))
              continue;
            for (int level = 0; level <= levels; ++level)
              {
                const double factor = std::pow(4.0, level);
                if (level > int(shorter.size()))
                  {
                    dealii::Vector<double> yp = x, ym = x;
                    yp.add(1 / factor, v);
                    ym.add(-1 / factor, v);
                    shorter.push_back({{res(yp), res(ym)}});
                  }
                const double a = level ? shorter[level - 1][0](i) : rp(i), b = level ? shorter[level - 1][1](i) : rm(i);
                const double fd = -(a - b) / 2 * factor;
                // a kink between the two points shows in the second difference
                const double kink = std::fabs(a - 2 * r0(i) + b) * factor;
                const double tol  = 2e-4 * size(i) + 1e-6 * scale + 2 * kink + factor * (roundoff + 3e-14 * r0.linfty_norm());
                if (std::fabs(jv(i) - fd) <= tol)
                  break;
                if (level == levels)
                  pbt::close(jv(i), fd, 0, tol, "Jacobian times direction, row " + std::to_string(i) + ", kind " + std::to_string(rep));
              }
          }
      }
  }

  // P25: the damage of the grain boundaries as it is reported
  template <int dim>
  void reported_damage(pbt::Case &c)
  {
    Draws d;
    d.max_cells = dim == 2 ? 6 : 4;
    d.max_slips = 2;
    if (c.chance(3, 4))
      {
        d.force_grains     = c.integer(2, 3);
        d.force_decohesion = true;
      }
    Setup<dim> s;
    s.draw(c, d);
    auto &p = s.p;
    const bool boundary = p.layout.n_crystals > 1 &&
                          (p.layout.decohesion || p.prm.boundary_conditions_at_grain_boundaries == RTP::BoundaryConditionsAtGrainBoundaries::Microtraction);
    c.label(p.layout.decohesion ? "decohesion" : boundary ? "microtraction" : "no interface");
    dealii::Vector<double> old(p.field->n_dofs()), x;
    const int  steps   = c.integer(1, 3);
    const bool uniform = c.chance(1, 4);
    const auto &l      = p.prm.constitutive_laws_parameters;
    const double size  = l.cohesive_law_parameters.critical_opening_displacement * c.logreal(0.1, 3);
    const auto &h      = p.solver->get_projection_dof_handler();
    const dealii::QGauss<dim - 1> quadrature(3);
    const dealii::MappingQ<dim>   mapping(1);
    dealii::FE_Q<dim>             fe(2);
    dealii::FEFaceValues<dim>     ff(mapping, fe, quadrature, dealii::update_values | dealii::update_JxW_values | dealii::update_quadrature_points);
    std::vector<dealii::types::global_dof_index> ids(fe.n_dofs_per_cell());
    for (int step = 0; step < steps; ++step)
      {
        s.begin();
        x = draw_state(c, p, s.slip_size, size * (step + 1));
        if (uniform && step == 0)
          x = 0;
        s.iterate(x, old);
        const auto &v = p.solver->get_damage_at_grain_boundaries();
        PBT_CHECK(v.size() == h.n_dofs(), "size of the damage field");
        // lumped projection of the damage of the interface points
        std::vector<double> rhs(h.n_dofs(), 0.0), mass(h.n_dofs(), 0.0), sizes(h.n_dofs(), 0.0);
        double integral = 0, area = 0, least = 1e300, most = -1e300;
        if (boundary)
          for (const auto &cell : h.active_cell_iterators())
            for (const unsigned face : cell->face_indices())
              if (!cell->face(face)->at_boundary() && cell->neighbor(face)->material_id() != cell->material_id())
                {
                  ff.reinit(typename dealii::Triangulation<dim>::cell_iterator(cell), face);
                  cell->get_dof_indices(ids);
                  for (unsigned q = 0; q < quadrature.size(); ++q)
                    {
                      const double D = p.layout.decohesion ? s.ref->interface_.at(Reference<dim>::point_key(ff.quadrature_point(q))).damage : 0.0;
                      integral += D * ff.JxW(q);
                      area += ff.JxW(q);
                      least = std::min(least, D);
                      most  = std::max(most, D);
                      for (unsigned i = 0; i < ids.size(); ++i)
                        {
                          rhs[ids[i]] += ff.shape_value(i, q) * D * ff.JxW(q);
                          mass[ids[i]] += ff.shape_value(i, q) * ff.JxW(q);
                          sizes[ids[i]] += std::fabs(ff.shape_value(i, q)) * ff.JxW(q);
                        }
                    }
                }
        for (unsigned j = 0; j < v.size(); ++j)
          {
            // nodes away from the boundaries carry nothing
            const bool   on       = mass[j] > 1e-10 * sizes[j] && sizes[j] > 1e-10 * area;
            const double expected = on ? rhs[j] / mass[j] : 0.0;
            if (on || sizes[j] <= 1e-10 * area)
              pbt::close(v(j), expected, 1e-9, 1e-10, "damage at node " + std::to_string(j) + " in step " + std::to_string(step));
          }
        if (boundary)
          {
            const double total = p.solver->get_macroscopic_damage();
            pbt::close(total, integral / area, 1e-9, 1e-12, "average damage of the grain boundaries in step " + std::to_string(step));
            if (p.layout.decohesion && most > 1e-6 && most - least > 1e-6)
              c.nontrivial();
          }
        else
          {
            const double total = p.solver->get_macroscopic_damage();
            PBT_CHECK(total == 0, "average damage " << total << " without damageable grain boundaries");
          }
        s.accept(x);
        old = x;
      }
  }
} // namespace

PBT_PROPERTY("P13", "residual-2d", 3) { residual<2>(c); }
PBT_PROPERTY("P13", "residual-3d", 1) { residual<3>(c); }
PBT_PROPERTY("P14", "jacobian-2d", 3) { jacobian<2>(c); }
PBT_PROPERTY("P14", "jacobian-3d", 1) { jacobian<3>(c); }
PBT_PROPERTY("P25", "reported-2d", 3) { reported_damage<2>(c); }
PBT_PROPERTY("P25", "reported-3d", 1) { reported_damage<3>(c); }
