// P09 damage history of an interface point, P10 sharing of interface data.
#include "common.h"

#include <gCP/constitutive_laws.h>
#include <gCP/quadrature_point_history.h>

#include <deal.II/fe/fe_q.h>
#include <deal.II/fe/fe_values.h>
#include <deal.II/grid/grid_tools.h>

using namespace vf;
namespace RTP = gCP::RunTimeParameters;

namespace
{
  template <int dim>
  void damage_history(pbt::Case &c)
  {
    const bool m1 = c.boolean();
    RTP::DamageEvolution       prm;
    RTP::CohesiveLawParameters coh;
    prm.damage_evolution_model = m1 ? RTP::DamageEvolutionModel::M1 :
                                      RTP::DamageEvolutionModel::OrtizEtAl;
    coh.critical_cohesive_traction           = c.logreal(1e-2, 1e3);
    coh.critical_opening_displacement        = c.logreal(1e-3, 10);
    coh.tangential_to_normal_stiffness_ratio = c.chance(1, 3) ? 1.0 : c.real(0, 2);
    prm.damage_accumulation_constant = c.logreal(1e-2, 10);
    prm.damage_decay_constant        = c.chance(1, 2) ? 0.0 : c.real(0, 1);
    prm.damage_decay_exponent        = c.chance(1, 2) ? 1.0 : c.real(0.5, 4);
    prm.endurance_limit              = c.chance(1, 2) ? 0.0 : c.logreal(1e-3, 10);
    prm.flag_set_damage_to_zero      = c.chance(1, 12);
    const double dc   = coh.critical_opening_displacement;
    const double beta = coh.tangential_to_normal_stiffness_ratio;
    const double cd   = c.chance(1, 3) ? c.logreal(0.1, 10) : 1.0;

    gCP::InterfaceQuadraturePointHistory<dim> h;
    h.init(prm, coh);
    // a second initialisation is ignored
    if (c.chance(1, 4))
      {
        RTP::CohesiveLawParameters other = coh;
        other.critical_opening_displacement *= 3;
        h.init(prm, other);
      }
    gCP::ConstitutiveLaws::CohesiveLaw<dim> law(coh);

    // reference state
    double damage = 0, maxi = 0, old_eff = 0;
    double stored_damage = 0, stored_max = 0;
    PBT_CHECK(h.get_damage_variable() == 0 &&
                h.get_max_effective_opening_displacement() == 0,
              "a new interface point is damaged");
    c.note("model", m1 ? "M1" : "Ortiz").note("dc", dc).note("beta", beta);
    if (m1)
      c.note("a", prm.damage_accumulation_constant)
        .note("decay", prm.damage_decay_constant)
        .note("m", prm.damage_decay_exponent)
        .note("endurance", prm.endurance_limit);

    // Initial damage of a grain boundary may be prescribed
    if (m1 && c.chance(1, 4))
      {
        damage = c.real(0, 1);
        h.set(damage);
      }
    h.store_current_values();
    stored_damage = damage;

    double accepted_damage = damage, accepted_max = 0;
    int    n_iter = 0, n_steps = 0, n_unload = 0, n_compress = 0, n_reset = 0;
    std::ostringstream ops;
    const int          steps = c.integer(1, 14);
    auto check_state = [&]() {
      pbt::close(h.get_damage_variable(), damage, 1e-9, 1e-13, "damage after" + ops.str());
      pbt::close(h.get_max_effective_opening_displacement(), maxi, 1e-12, 0, "maximum opening after" + ops.str());
      PBT_CHECK(h.get_damage_variable() >= 0 && h.get_damage_variable() <= 1, "damage " << h.get_damage_variable() << " out of [0,1] after" << ops.str());
    };
    for (int s = 0; s < steps; ++s)
      {
        const int iterates = c.integer(1, 4);
        V3        normal   = zero3();
        normal[c.integer(0, dim - 1)] = c.boolean() ? -1 : 1;
        V3 delta = zero3(), base = zero3();
        double eff = 0;
        for (int it = 0; it < iterates; ++it)
          {
            const double open = c.signed_log(1e-3, 4) * dc;
            V3           t    = zero3();
            for (int i = 0; i < dim; ++i)
              if (normal[i] == 0)
                t[i] = c.signed_log(1e-3, 3, 3) * dc;
            delta = open * normal + t;
            eff   = std::hypot(std::max(open, 0.0), beta * norm(t));
            pbt::close(law.get_effective_opening_displacement(from3<dim>(delta), from3<dim>(normal)), eff, 1e-10, 1e-13 * dc, "effective opening");
            const double force = c.signed_log(1e-3, 50, 6);
            const double Y     = std::fabs(force);
            maxi   = std::max(stored_max, eff);
            damage = stored_damage;
            if (m1)
              {
                damage += prm.damage_accumulation_constant * cd *
                          std::max(0.0, eff - old_eff) *
                          std::pow(1 - stored_damage + prm.damage_decay_constant,
                                   prm.damage_decay_exponent) *
                          std::max(0.0, Y - prm.endurance_limit);
                damage = std::min(damage, 1.0);
                h.update_values(eff, cd, Y);
              }
            else
              {
                damage = 1 - (1 + maxi / dc) * std::exp(-maxi / dc);
                h.update_values(eff);
              }
            if (prm.flag_set_damage_to_zero)
              damage = 0;
            ++n_iter;
            if (eff < stored_max)
              ++n_unload;
            if (open < 0)
              ++n_compress;
            ops << " u(" << pbt::format(eff / dc) << (open < 0 ? "c" : "") << ")";
            check_state();
            // Seen from the other side of the boundary: the same update
            if (c.chance(1, 3))
              {
                if (m1)
                  h.update_values(eff, cd, Y);
                else
                  h.update_values(eff);
                check_state();
              }
          }
        if (c.chance(1, 5))
          {
            // the step is repeated: nothing of it may remain
            h.reset_values();
            damage = stored_damage;
            maxi   = stored_max;
            ops << " reset";
            ++n_reset;
            check_state();
            continue;
          }
        // Acceptance of the step, then start of the next one
        for (int i = 0; i < dim; ++i)
          base[i] = c.real(-1, 1) * dc;
        if (c.boolean())
          h.store_effective_opening_displacement(from3<dim>(base + delta),
                                                 from3<dim>(base),
                                                 from3<dim>(normal));
        else
          h.store_effective_opening_displacement(from3<dim>(base + delta),
                                                 from3<dim>(base),
                                                 from3<dim>(normal),
                                                 1.0);
        old_eff = eff;
        pbt::close(h.get_old_effective_opening_displacement(), old_eff, 1e-9, 1e-12 * dc, "accepted effective opening after" + ops.str());
        // the same boundary seen from the other side
        if (c.chance(1, 2))
          {
            h.store_effective_opening_displacement(from3<dim>(base),
                                                   from3<dim>(base + delta),
                                                   from3<dim>(zero3() - normal),
                                                   1.0);
            pbt::close(h.get_old_effective_opening_displacement(), old_eff, 1e-9, 1e-12 * dc, "accepted effective opening from the other side");
          }
        h.store_current_values();
        stored_damage = damage;
        stored_max    = maxi;
        ops << " accept";
        ++n_steps;
        check_state();
        PBT_CHECK(prm.flag_set_damage_to_zero || h.get_damage_variable() >= accepted_damage - 1e-13, "the interface heals after" << ops.str());
        PBT_CHECK(h.get_max_effective_opening_displacement() >= accepted_max, "the maximum opening decreases");
        accepted_damage = h.get_damage_variable();
        accepted_max    = h.get_max_effective_opening_displacement();
        PBT_CHECK(accepted_max >= old_eff * (1 - 1e-9), "maximum below the accepted opening");
      }
    c.note("ops", ops.str());
    c.nontrivial(n_steps >= 2 && n_unload >= 1);
    if (n_compress)
      c.label("compression");
    if (n_reset)
      c.label("repeated step");
    c.label(m1 ? "M1" : "Ortiz");
    if (damage >= 1)
      c.label("fully damaged");
  }

  // ======================================================================
  template <int dim>
  void interface_storage(pbt::Case &c)
  {
    using Tria = dealii::Triangulation<dim>;
    Tria                      tria;
    std::vector<unsigned int> rep(dim);
    dealii::Point<dim>        p, q;
    std::ostringstream        o;
    for (int i = 0; i < dim; ++i)
      {
        rep[i] = c.integer(1, dim == 2 ? 5 : 3);
        q[i]   = c.real(0.5, 2);
        o << (i ? "x" : "") << rep[i];
      }
    dealii::GridGenerator::subdivided_hyper_rectangle(tria, rep, p, q);
    const unsigned n_mat = c.integer(1, 4);
    for (const auto &cell : tria.active_cell_iterators())
      cell->set_material_id(c.integer(0, int(n_mat) - 1));
    if (c.chance(1, 4) && tria.n_active_cells() <= 8)
      {
        tria.refine_global(1);
        for (const auto &cell : tria.active_cell_iterators())
          if (c.chance(1, 3))
            cell->set_material_id(c.integer(0, int(n_mat) - 1));
        o << " refined";
      }
    c.note("mesh", o.str()).note("grains", n_mat);
    using Data  = gCP::InterfaceQuadraturePointHistory<dim>;
    using CellIt = typename Tria::cell_iterator;
    gCP::InterfaceDataStorage<CellIt, Data> storage;
    const unsigned n_q = c.integer(1, 9);
    using ActIt = typename Tria::active_cell_iterator;
    storage.initialize(CellIt(tria.begin_active()), CellIt(tria.end()), n_q);
    // initialising again must not drop what is stored
    const bool again = c.chance(1, 3);

    RTP::DamageEvolution       prm;
    RTP::CohesiveLawParameters coh;
    coh.critical_opening_displacement = 1.0;
    prm.flag_set_damage_to_zero       = false;
    const auto &const_storage = storage;

    std::set<const Data *> all;
    std::map<std::pair<dealii::CellId, dealii::CellId>, double> written;
    unsigned n_faces = 0, n_inner = 0;
    double   tag = 0;
    for (const auto &cell : tria.active_cell_iterators())
      for (const auto f : cell->face_indices())
        {
          if (cell->face(f)->at_boundary())
            continue;
          const auto other = cell->neighbor(f);
          if (other->material_id() == cell->material_id())
            {
              ++n_inner;
              bool threw = false;
              try
                {
                  storage.get_data(cell->id(), other->id());
                }
              catch (const std::exception &)
                {
                  threw = true;
                }
              PBT_CHECK(threw, "interface data inside a grain");
              continue;
            }
          const auto a = storage.get_data(cell->id(), other->id());
          const auto b = storage.get_data(other->id(), cell->id());
          const auto d = const_storage.get_data(cell->id(), other->id());
          const auto e = const_storage.get_data(other->id(), cell->id());
          PBT_CHECK(a.size() == n_q && b.size() == n_q && d.size() == n_q && e.size() == n_q, "number of points per face");
          for (unsigned i = 0; i < n_q; ++i)
            {
              PBT_CHECK(a[i].get() != nullptr, "missing data");
              PBT_CHECK(a[i] == b[i] && a[i] == d[i] && a[i] == e[i], "the two sides of a grain boundary hold different data");
            }
          const auto key = cell->id() < other->id() ? std::make_pair(cell->id(), other->id()) : std::make_pair(other->id(), cell->id());
          if (!written.count(key))
            {
              // written from this side ...
              ++n_faces;
              for (unsigned i = 0; i < n_q; ++i)
                {
                  PBT_CHECK(all.insert(a[i].get()).second, "two interface points share their data");
                  a[i]->init(prm, coh);
                  a[i]->store_current_values();
                  tag += 1;
                  a[i]->update_values(tag);
                }
              written[key] = tag;
            }
          else
            // ... read from the other one
            for (unsigned i = 0; i < n_q; ++i)
              PBT_CHECK(a[i]->get_max_effective_opening_displacement() == written[key] - n_q + 1 + i, "value lost");
        }
    if (again)
      {
        storage.initialize(CellIt(tria.begin_active()), CellIt(tria.end()), n_q);
        for (const auto &w : written)
          {
            const auto a = storage.get_data(w.first.first, w.first.second);
            for (unsigned i = 0; i < n_q; ++i)
              PBT_CHECK(a[i]->get_max_effective_opening_displacement() == w.second - n_q + 1 + i, "value lost on a second initialisation");
          }
      }
    c.nontrivial(n_faces >= 2 && n_q > 1);
    c.note("interface_faces", n_faces).note("n_q", n_q);
  }
} // namespace
PBT_PROPERTY("P09", "damage-history-2d", 1) { damage_history<2>(c); }
PBT_PROPERTY("P09", "damage-history-3d", 1) { damage_history<3>(c); }
PBT_PROPERTY("P10", "interface-storage-2d", 2) { interface_storage<2>(c); }
PBT_PROPERTY("P10", "interface-storage-3d", 1) { interface_storage<3>(c); }
