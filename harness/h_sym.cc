// P22, P26: solutions depend neither on units and scaling, nor on the frame
// and on how grains and slip systems are numbered.
#include "problem_std.h"
#include "variant.h"

#include <deal.II/grid/grid_tools.h>

using namespace vf;

namespace
{
  // ---- P22: the dimensionless problem, and other units ----------------------
  template <int dim>
  void dimensionless(pbt::Case &c)
  {
    Variant<dim> v;
    v.draw(c, false, true);
    auto &s = v.s;
    const double size = s.yield_strain();
    v.tolerance(1e-11);
    std::vector<Values> physical, scaled;
    if (!v.run(physical))
      c.discard();
    auto &n = s.p.prm.dimensionless_form_parameters;
    auto &q = n.characteristic_quantities;
    n.flag_solve_dimensionless_problem = true;
    q.length          = c.logreal(0.1, 10);
    q.displacement    = c.logreal(0.1, 10);
    q.stiffness       = c.logreal(0.1, 10);
    q.slip_resistance = c.logreal(0.1, 10);
    n.init(s.p.prm.constitutive_laws_parameters);
    // scales, independently of what gCP derives from them
    const double L = q.length, U = q.displacement, stress = q.stiffness * U / L;
    c.note("L", L).note("U", U).note("stiffness", q.stiffness).note("resistance", q.slip_resistance);
    dealii::GridTools::scale(1 / L, s.p.tria);
    s.p.unmoved = [L](const V3 &x) { return L * x; };
    s.top = (1 / U) * s.top;
    if (s.supply)
      s.supply->a = (L / stress) * s.supply->a;
    if (s.traction)
      {
        s.traction->a    = (1 / stress) * s.traction->a;
        s.traction->rate = (1 / stress) * s.traction->rate;
      }
    s.macroscopic_strain = vf::scale(L / U, s.macroscopic_strain);
    // rows of displacements are multiplied with U/(L resistance), ...
    const double row = std::pow(L, -dim) / q.slip_resistance;
    v.tolerance(1e-11 * std::max(1e-2, std::min({1.0, row, row * U})));
    if (!v.run(scaled))
      {
        c.label("no convergence");
        c.discard();
      }
    for (auto &m : scaled)
      for (auto &x : m)
        if (std::get<4>(x.first))
          x.second *= U;
    c.nontrivial(s.p.layout.n_slips > 0);
    (void)size;
    compare(physical, scaled, 1e-5, "of the dimensionless problem");
  }

  template <int dim>
  void units(pbt::Case &c)
  {
    Variant<dim> v;
    v.draw(c, c.boolean(), false);
    auto &s = v.s;
    v.tolerance(1e-11);
    std::vector<Values> first, other;
    if (!v.run(first))
      c.discard();
    const double L = c.logreal(1e-2, 1e2), S = c.logreal(1e-3, 1e5), T = c.logreal(1e-3, 1e3);
    c.note("length", L).note("stress", S).note("time", T);
    dealii::GridTools::scale(L, s.p.tria);
    s.p.unmoved = [L](const V3 &x) { return (1 / L) * x; };
    s.top = L * s.top;
    s.dt *= T;
    if (s.supply)
      s.supply->a = (S / L) * s.supply->a;
    if (s.traction)
      {
        s.traction->a    = S * s.traction->a;
        s.traction->rate = (S / T) * s.traction->rate;
      }
    auto &l = s.p.prm.constitutive_laws_parameters;
    l.hooke_law_parameters.C1111 *= S;
    l.hooke_law_parameters.C1122 *= S;
    l.hooke_law_parameters.C1212 *= S;
    l.scalar_microstress_law_parameters.regularization_parameter /= T;
    l.vectorial_microstress_law_parameters.energetic_length_scale *= L;
    l.vectorial_microstress_law_parameters.initial_slip_resistance *= S;
    l.hardening_law_parameters.initial_slip_resistance *= S;
    l.hardening_law_parameters.linear_hardening_modulus *= S;
    l.microtraction_law_parameters.grain_boundary_modulus *= S * L;
    l.cohesive_law_parameters.critical_cohesive_traction *= S;
    l.cohesive_law_parameters.critical_opening_displacement *= L;
    l.contact_law_parameters.penalty_coefficient *= S / L;
    l.damage_evolution_parameters.damage_accumulation_constant /= S * L * L;
    l.damage_evolution_parameters.endurance_limit *= S * L;
    v.tolerance(1e-11 * S * std::min(std::pow(L, dim - 1), std::pow(L, dim)));
    if (!v.run(other))
      {
        c.label("no convergence");
        c.discard();
      }
    for (auto &m : other)
      for (auto &x : m)
        if (std::get<4>(x.first))
          x.second /= L;
    c.nontrivial(s.p.layout.n_slips > 0);
    compare(first, other, 1e-5, "in other units");
  }

  // ---- P26: frame and numbering ---------------------------------------------
  template <int dim>
  void frame(pbt::Case &c)
  {
    Variant<dim> v;
    v.draw(c, c.boolean(), false);
    auto &s = v.s;
    v.tolerance(1e-11);
    std::vector<Values> first, other;
    if (!v.run(first))
      c.discard();
    const double pi = 3.14159265358979323846;
    // rotation and shift of everything
    M3 Q = unit33();
    V3 shift = zero3();
    const bool rotate = c.chance(2, 3);
    if (rotate)
      {
        CrystalSpec r;
        r.dim    = dim;
        r.angles = {V3{{c.pick<double>({90.0, 180.0, 270.0, 45.0, 0.0}), dim == 3 ? c.pick<double>({90.0, 30.0, 0.0, 180.0}) : 0.0, dim == 3 ? c.real(-180, 180) : 0.0}}};
        if (c.boolean())
          r.angles[0][0] = c.real(-180, 180);
        Q = r.rotation(0);
      }
    if (c.chance(1, 3))
      for (int i = 0; i < dim; ++i)
        shift[i] = c.real(-10, 10);
    dealii::GridTools::transform([&](const dealii::Point<dim> &p) {
      return dealii::Point<dim>(from3<dim>(mul(Q, to3<dim>(p)) + shift));
    }, s.p.tria);
    s.p.unmoved = [Q, shift](const V3 &x) { return mul(transpose(Q), x - shift); };
    s.top = mul(Q, s.top);
    if (s.supply)
      s.supply->a = mul(Q, s.supply->a);
    if (s.traction)
      {
        s.traction->a    = mul(Q, s.traction->a);
        s.traction->rate = mul(Q, s.traction->rate);
      }
    s.macroscopic_strain = mul(Q, mul(s.macroscopic_strain, transpose(Q)));
    auto &spec = s.p.spec;
    for (unsigned k = 0; k < spec.n_crystals(); ++k)
      {
        const M3 M = mul(Q, spec.rotation(k));
        V3       a = zero3();
        if (dim == 2)
          a[0] = std::atan2(M[1][0], M[0][0]);
        else
          {
            const double sb = std::hypot(M[0][2], M[1][2]);
            a[1]            = std::atan2(sb, M[2][2]);
            if (sb > 1e-7)
              {
                a[0] = std::atan2(M[0][2], -M[1][2]);
                a[2] = std::atan2(M[2][0], M[2][1]);
              }
            else
              a[0] = M[2][2] > 0 ? std::atan2(M[1][0], M[0][0]) : std::atan2(M[1][0], M[0][0]);
          }
        spec.angles[k] = (180 / pi) * a;
        const M3 again = spec.rotation(k);
        for (int i = 0; i < dim; ++i)
          for (int j = 0; j < dim; ++j)
            if (std::fabs(again[i][j] - M[i][j]) > 1e-9)
              c.discard();
      }
    // order of the grains
    const unsigned nc = spec.n_crystals(), ns = spec.n_slips();
    auto permutation = [&](const unsigned n, const bool on) {
      std::vector<unsigned> p(n);
      std::iota(p.begin(), p.end(), 0u);
      if (on)
        for (unsigned i = 0; i + 1 < n; ++i)
          std::swap(p[i], p[i + c.integer(0, n - 1 - i)]);
      return p;
    };
    const auto grain = permutation(nc, c.chance(2, 3)); // old -> new
    const auto slip  = permutation(ns, c.chance(2, 3));
    CrystalSpec fresh = spec;
    for (unsigned k = 0; k < nc; ++k)
      fresh.angles[grain[k]] = spec.angles[k];
    std::vector<double> sign(ns, 1.0);
    for (unsigned a = 0; a < ns; ++a)
      {
        auto &t = fresh.slips[slip[a]] = spec.slips[a];
        if (c.chance(1, 3))
          {
            sign[a]     = -sign[a];
            t.direction = -1.0 * t.direction;
          }
        if (c.chance(1, 3))
          {
            sign[a]  = -sign[a];
            t.normal = -1.0 * t.normal;
          }
      }
    spec = fresh;
    for (const auto &cell : s.p.tria.active_cell_iterators())
      cell->set_material_id(grain[cell->material_id()]);
    v.crystals();
    s.p.prm.staggered_algorithm_parameters.max_n_solution_loops *= 2;
    if (!v.run(other))
      {
        c.label("no convergence");
        PBT_CHECK(s.p.layout.decohesion, "no convergence after a change of frame or numbering");
        c.discard();
      }
    // back
    std::vector<Values> back;
    for (const auto &m : other)
      {
        Values b;
        for (const auto &x : m)
          {
            Place p = x.first;
            if (std::get<4>(p))
              {
                // component i of Q^T u
                double       w = 0;
                const unsigned i = std::get<5>(p);
                for (int j = 0; j < dim; ++j)
                  {
                    std::get<5>(p) = j;
                    w += Q[j][i] * m.at(p);
                  }
                b[x.first] = w;
              }
            else
              {
                const unsigned a = std::find(slip.begin(), slip.end(), std::get<5>(p)) - slip.begin();
                std::get<5>(p)   = a;
                b[p]             = sign[a] * x.second;
              }
          }
        back.push_back(b);
      }
    c.nontrivial(ns > 0);
    c.label(rotate ? "rotated" : "not rotated");
    compare(first, back, 1e-5, "after a change of frame or numbering");
  }
} // namespace

PBT_PROPERTY("P22", "dimensionless-2d", 3) { dimensionless<2>(c); }
PBT_PROPERTY("P22", "dimensionless-3d", 1) { dimensionless<3>(c); }
PBT_PROPERTY("P22", "units-2d", 3) { units<2>(c); }
PBT_PROPERTY("P22", "units-3d", 1) { units<3>(c); }
PBT_PROPERTY("P26", "frame-2d", 3) { frame<2>(c); }
PBT_PROPERTY("P26", "frame-3d", 1) { frame<3>(c); }
