// P01-P09: crystal data, constitutive laws and the point histories, each
// against an independent reference written with plain arrays.
#include "common.h"

#include <gCP/constitutive_laws.h>
#include <gCP/quadrature_point_history.h>

#include <unistd.h>

using namespace vf;
namespace RTP = gCP::RunTimeParameters;

namespace
{
  // ======================================================================
  // P01 crystal data
  template <int dim>
  void tagged_mesh(pbt::Case                  &c,
                   dealii::Triangulation<dim> &tria,
                   const unsigned              n_crystals)
  {
    // n_crystals grains distributed over more cells, every grain present
    const unsigned n_cells = n_crystals + c.integer(0, 4);
    std::vector<unsigned int> rep(dim, 1);
    rep[0] = n_cells;
    dealii::Point<dim> p, q;
    for (int i = 0; i < dim; ++i)
      q[i] = 1.0;
    dealii::GridGenerator::subdivided_hyper_rectangle(tria, rep, p, q);
    unsigned k = 0;
    for (const auto &cell : tria.active_cell_iterators())
      {
        const unsigned extra = (k >= n_crystals) ?
                                 c.integer(0, static_cast<int>(n_crystals) - 1) :
                                 0;
        cell->set_material_id(k < n_crystals ? n_crystals - 1 - k : extra);
        ++k;
      }
  }

  // a number in one of several spellings
  std::string spell(pbt::Case &c, const double v)
  {
    std::string s = num(v);
    if (v == std::floor(v) && std::fabs(v) < 1e6)
      switch (c.integer(0, 3))
        {
          case 1:
            s = std::to_string(static_cast<int>(v)) + ".0";
            break;
          case 2:
            s = std::to_string(static_cast<int>(v)) + "e0";
            break;
          case 3:
            s = std::to_string(static_cast<int>(v)) + ".";
            break;
          default:
            s = std::to_string(static_cast<int>(v));
        }
    return s;
  }

  void write_rows(pbt::Case             &c,
                  const std::string     &file,
                  const std::vector<V3> &rows,
                  const int              n_components)
  {
    std::ofstream o(file);
    for (size_t r = 0; r < rows.size(); ++r)
      {
        for (int i = 0; i < n_components; ++i)
          {
            if (i)
              o << "," << std::string(c.integer(0, 2), ' ');
            o << spell(c, rows[r][i]);
          }
        if (r + 1 < rows.size() || c.boolean())
          o << "\n";
      }
    if (!rows.empty())
      switch (c.integer(0, 2))
        {
          case 1:
            o << "\n\n";
            break;
          case 2:
            o << "\n   \n";
            break;
          default:
            break;
        }
  }

  template <int dim>
  void crystal_data(pbt::Case &c)
  {
    const unsigned n_crystals = c.integer(1, 5);
    CrystalSpec    spec       = draw_crystals(c, dim, n_crystals, 6, false, true);
    // vectors need not be normalised
    for (auto &s : spec.slips)
      if (c.chance(1, 4))
        {
          const double f = std::pow(2.0, c.integer(-3, 3));
          s.direction    = f * s.direction;
          s.normal       = (1.0 / f) * s.normal;
        }
    describe(c, spec);
    c.nontrivial(n_crystals > 1 && spec.n_slips() > 0);
    if (spec.n_slips() == 0)
      c.label("no slip systems");

    dealii::Triangulation<dim> tria;
    tagged_mesh(c, tria, n_crystals);
    const std::string stem = pbt::scratch() + "/p01";
    std::vector<V3>   d, n;
    for (const auto &s : spec.slips)
      {
        d.push_back(s.direction);
        n.push_back(s.normal);
      }
    write_rows(c, stem + "_a.txt", spec.angles, dim == 2 ? 1 : 3);
    write_rows(c, stem + "_d.txt", d, dim);
    write_rows(c, stem + "_n.txt", n, dim);

    gCP::CrystalsData<dim> data;
    PBT_CHECK(!data.is_initialized(), "a fresh object claims initialisation");
    bool threw = false;
    try
      {
        data.get_n_slips();
      }
    catch (const std::exception &)
      {
        threw = true;
      }
    PBT_CHECK(threw, "use before initialisation is not rejected");
    data.init(tria, stem + "_a", stem + "_d", stem + "_n");
    PBT_CHECK(data.is_initialized(), "not initialised after init");
    PBT_CHECK(data.get_n_crystals() == n_crystals,
              "number of crystals " << data.get_n_crystals() << " instead of "
                                    << n_crystals);
    PBT_CHECK(data.get_n_slips() == spec.n_slips(),
              "number of slip systems " << data.get_n_slips()
                                        << " instead of " << spec.n_slips());
    const double tol = 1e-12;
    for (unsigned k = 0; k < n_crystals; ++k)
      {
        const M3 R = spec.rotation(k);
        M3       R_expected = R;
        if (dim == 2)
          R_expected[2][2] = 0.0;
        const M3 R_got  = to33(data.get_rotation_tensor(k));
        const M3 R_got3 = to33<3>(data.get_3d_rotation_tensor(k));
        close33(R_got, R_expected, tol, "rotation tensor");
        close33(R_got3, R, tol, "3d rotation tensor");
        close33(mul(R_got3, transpose(R_got3)), unit33(), tol, "R R^T");
        PBT_CHECK(data.get_slip_directions(k).size() == spec.n_slips(),
                  "directions size");
        PBT_CHECK(data.get_slip_normals(k).size() == spec.n_slips(),
                  "normals size");
        PBT_CHECK(data.get_symmetrized_schmid_tensors(k).size() ==
                    spec.n_slips(),
                  "schmid size");
        for (unsigned a = 0; a < spec.n_slips(); ++a)
          {
            const V3 s = to3(data.get_slip_direction(k, a));
            const V3 m = to3(data.get_slip_normal(k, a));
            const V3 t = to3(data.get_slip_orthogonal(k, a));
            close3(s, spec.s(k, a), tol, "slip direction");
            close3(m, spec.m(k, a), tol, "slip normal");
            close3(t, spec.t(k, a), tol, "slip orthogonal");
            pbt::close(norm(s), 1, 0, tol, "|s|");
            pbt::close(norm(m), 1, 0, tol, "|m|");
            pbt::close(dot(s, m), 0, 0, tol, "s.m");
            if (dim == 3)
              {
                pbt::close(norm(t), 1, 0, tol, "|t|");
                pbt::close(dot(s, t), 0, 0, tol, "s.t");
                pbt::close(dot(m, t), 0, 0, tol, "m.t");
              }
            close33(to33(data.get_schmid_tensor(k, a)),
                    outer(spec.s(k, a), spec.m(k, a)),
                    tol,
                    "Schmid tensor");
            close33(to33(data.get_symmetrized_schmid_tensor(k, a)),
                    spec.P(k, a),
                    tol,
                    "symmetrized Schmid tensor");
            close3(to3(data.get_slip_directions(k)[a]), s, 0, "directions()");
            close3(to3(data.get_slip_normals(k)[a]), m, 0, "normals()");
            close33(to33(data.get_symmetrized_schmid_tensors(k)[a]),
                    to33(data.get_symmetrized_schmid_tensor(k, a)),
                    0,
                    "symmetrized()");
          }
      }
  }

  template <int dim>
  void crystal_data_rejects(pbt::Case &c)
  {
    const unsigned n_crystals = c.integer(1, 4);
    CrystalSpec    spec       = draw_crystals(c, dim, n_crystals, 4);
    std::vector<V3> angles = spec.angles, d, n;
    for (const auto &s : spec.slips)
      {
        d.push_back(s.direction);
        n.push_back(s.normal);
      }
    int  ca = dim == 2 ? 1 : 3, cd = dim, cn = dim;
    const std::string stem = pbt::scratch() + "/p01r";
    std::string       missing;
    const int         kind = c.integer(0, 7);
    std::string       what;
    switch (kind)
      {
        case 0:
          what = "orientation missing for a crystal";
          if (angles.size() == 1)
            angles.push_back(zero3()), angles.push_back(zero3());
          else
            angles.pop_back();
          break;
        case 1:
          what = "one orientation too many";
          angles.push_back(V3{{15, 30, 45}});
          break;
        case 2:
          what = "one slip direction too many";
          d.push_back(d[0]);
          break;
        case 3:
          what = "one slip normal too many";
          n.push_back(n[0]);
          break;
        case 4:
          {
            what             = "direction not in the slip plane";
            const unsigned i = c.integer(0, static_cast<int>(d.size()) - 1);
            const double   f = c.real(0.01, 1.0) * (c.boolean() ? -1 : 1) / norm(n[i]);
            d[i]             = d[i] + f * n[i];
            break;
          }
        case 5:
          what = "too few components of a direction";
          cd   = dim - 1;
          break;
        case 6:
          what = "wrong number of orientation angles";
          ca   = (dim == 2) ? 2 : 2;
          break;
        case 7:
          what    = "file not found";
          missing = c.pick<std::string>({"_a", "_d", "_n"});
          break;
      }
    c.note("mutation", what);
    describe(c, spec);
    c.label(what);
    c.nontrivial();
    dealii::Triangulation<dim> tria;
    tagged_mesh(c, tria, n_crystals);
    write_rows(c, stem + "_a.txt", angles, ca);
    write_rows(c, stem + "_d.txt", d, cd);
    write_rows(c, stem + "_n.txt", n, cn);
    if (!missing.empty())
      ::unlink((stem + missing + ".txt").c_str());
    gCP::CrystalsData<dim> data;
    bool                   threw = false;
    try
      {
        data.init(tria, stem + "_a", stem + "_d", stem + "_n");
      }
    catch (const std::exception &)
      {
        threw = true;
      }
    PBT_CHECK(threw, "invalid crystal input was accepted: " << what);
    PBT_CHECK(!data.is_initialized(),
              "rejected input leaves an initialised object: " << what);
  }
} // namespace

PBT_PROPERTY("P01", "slip-systems-2d", 3) { crystal_data<2>(c); }
PBT_PROPERTY("P01", "slip-systems-3d", 3) { crystal_data<3>(c); }
PBT_PROPERTY("P01", "rejects-2d", 1) { crystal_data_rejects<2>(c); }
PBT_PROPERTY("P01", "rejects-3d", 1) { crystal_data_rejects<3>(c); }

namespace
{
  // ======================================================================
  // P02 kinematics, Hooke, resolved shear stress
  template <int dim>
  M3 draw_sym(pbt::Case &c, const double lo = 1e-4, const double hi = 1.0)
  {
    M3 e = zero33();
    for (int i = 0; i < dim; ++i)
      for (int j = i; j < dim; ++j)
        e[i][j] = e[j][i] = c.signed_log(lo, hi);
    return e;
  }

  std::vector<std::vector<double>>
  draw_slips(pbt::Case     &c,
             const unsigned n_slips,
             const unsigned n_q,
             const double   lo = 1e-4,
             const double   hi = 1.0)
  {
    std::vector<std::vector<double>> v(n_slips, std::vector<double>(n_q));
    for (auto &a : v)
      for (auto &x : a)
        x = c.signed_log(lo, hi);
    return v;
  }

  template <int dim>
  void kinematics(pbt::Case &c)
  {
    const unsigned    n_crystals = c.integer(1, 3);
    const CrystalSpec spec       = draw_crystals(c, dim, n_crystals, 6);
    auto              data       = make_crystals<dim>(spec);
    const double      k0         = c.chance(1, 2) ? c.logreal(0.01, 100) : 1.0;
    const unsigned    n_q        = c.integer(1, 3);
    const unsigned    q          = c.integer(0, static_cast<int>(n_q) - 1);
    const unsigned    k = c.integer(0, static_cast<int>(n_crystals) - 1);
    const M3          eps   = draw_sym<dim>(c);
    const auto        slips = draw_slips(c, spec.n_slips(), n_q);
    describe(c, spec);
    c.note("k0", k0).note("crystal", k);
    const gCP::Kinematics::ElasticStrain<dim> kin(data, k0);

    M3     plastic = zero33();
    double size    = maxabs(eps);
    for (unsigned a = 0; a < spec.n_slips(); ++a)
      {
        plastic = add(plastic, spec.P(k, a), slips[a][q]);
        size += (1 + k0) * std::fabs(slips[a][q]);
      }
    c.nontrivial(maxabs(plastic) > 0 && maxabs(eps) > 0);
    close33(to33(kin.get_plastic_strain_tensor(k, q, slips)),
            plastic,
            1e-12 * size,
            "plastic strain");
    close33(to33(kin.get_elastic_strain_tensor(k, q, from33<dim>(eps), slips)),
            add(eps, plastic, -k0),
            1e-12 * size,
            "elastic strain");
    // plastic slip is isochoric
    const M3 p = to33(kin.get_plastic_strain_tensor(k, q, slips));
    pbt::close(p[0][0] + p[1][1] + p[2][2], 0, 0, 1e-12 * size, "tr eps_p");
  }

  struct Cubic
  {
    double C11, C12, C44;
  };
  Cubic draw_cubic(pbt::Case &c, RTP::HookeLawParameters &prm)
  {
    Cubic k;
    k.C11     = c.logreal(0.1, 1e6);
    k.C12     = k.C11 * c.real(-0.45, 0.95);
    k.C44     = k.C11 * c.logreal(0.05, 2.0);
    prm.C1111 = k.C11;
    prm.C1122 = k.C12;
    prm.C1212 = k.C44;
    return k;
  }

  template <int dim>
  void hooke(pbt::Case &c)
  {
    const unsigned          n_crystals = c.integer(1, 3);
    const CrystalSpec       spec = draw_crystals(c, dim, n_crystals, 2);
    auto                    data = make_crystals<dim>(spec);
    RTP::HookeLawParameters prm;
    const Cubic             C  = draw_cubic(c, prm);
    const double            ch = c.chance(1, 2) ? c.logreal(0.01, 1e5) : 1.0;
    const bool              mono = c.chance(1, 5);
    const M3                eps  = draw_sym<dim>(c), eta = draw_sym<dim>(c);
    describe(c, spec);
    c.note("C11", C.C11).note("C12", C.C12).note("C44", C.C44).note("char", ch);
    c.note("monocrystalline", mono);
    c.nontrivial(std::fabs(C.C11 - C.C12 - 2 * C.C44) > 1e-3 * C.C11 &&
                 maxabs(eps) > 0);
    using Law = gCP::ConstitutiveLaws::HookeLaw<dim>;
    std::shared_ptr<Law> law = mono ? std::make_shared<Law>(prm, ch) :
                                      std::make_shared<Law>(data, prm, ch);
    bool threw = false;
    try
      {
        if (mono)
          law->get_stress_tensor(from33<dim>(eps));
        else
          law->get_stress_tensor(0, from33<dim>(eps));
      }
    catch (const std::exception &)
      {
        threw = true;
      }
    PBT_CHECK(threw, "use before init() is not rejected");
    law->init();
    threw = false;
    try
      {
        if (mono)
          law->get_stress_tensor(0, from33<dim>(eps));
        else
          law->get_stress_tensor(from33<dim>(eps));
      }
    catch (const std::exception &)
      {
        threw = true;
      }
    PBT_CHECK(threw, "the wrong overload is not rejected");

    for (unsigned k = 0; k < (mono ? 1 : n_crystals); ++k)
      {
        const M3     R     = mono ? unit33() : spec.rotation(k);
        const double scale = (C.C11 + std::fabs(C.C12) + C.C44) / ch;
        const double tol   = 1e-11 * scale;
        auto stress = [&](const M3 &e) {
          return to33(mono ? law->get_stress_tensor(from33<dim>(e)) :
                             law->get_stress_tensor(k, from33<dim>(e)));
        };
        auto in_plane = [](M3 s) {
          if (dim == 2)
            for (int i = 0; i < 3; ++i)
              s[i][2] = s[2][i] = 0.0;
          return s;
        };
        const M3 full = cubic_stress(R, eps, C.C11 / ch, C.C12 / ch, C.C44 / ch);
        const M3 s    = stress(eps);
        close33(s, in_plane(full), tol * maxabs(eps) * 4, "stress");
        // tetrads: full 3d (out-of-plane stress included) and in-plane
        const dealii::SymmetricTensor<4, 3> C3 =
          mono ? law->get_stiffness_tetrad_3d() :
                 law->get_stiffness_tetrad_3d(k);
        const dealii::SymmetricTensor<4, dim> C2 =
          mono ? law->get_stiffness_tetrad() : law->get_stiffness_tetrad(k);
        for (int a = 0; a < 3; ++a)
          for (int b = a; b < 3; ++b)
            {
              M3 unit      = zero33();
              unit[a][b]   = unit[b][a] = (a == b) ? 1.0 : 0.5;
              const M3 ref = cubic_stress(R, unit, C.C11 / ch, C.C12 / ch, C.C44 / ch);
              for (int i = 0; i < 3; ++i)
                for (int j = 0; j < 3; ++j)
                  {
                    pbt::close(C3[i][j][a][b], ref[i][j], 0, tol, "3d stiffness");
                    if (i < dim && j < dim && b < dim)
                      pbt::close(C2[i][j][a][b], ref[i][j], 0, tol, "stiffness");
                  }
            }
        // major symmetry and positivity (the parameters are stable)
        pbt::close(ddot(eta, s),
                   ddot(stress(eta), eps),
                   0,
                   tol * 16 * maxabs(eps) * maxabs(eta),
                   "major symmetry");
        if (maxabs(eps) > 0)
          PBT_CHECK(ddot(eps, s) > 0, "elastic energy is not positive");
      }
  }

  template <int dim>
  void resolved(pbt::Case &c)
  {
    const unsigned    n_crystals = c.integer(1, 3);
    const CrystalSpec spec       = draw_crystals(c, dim, n_crystals, 6);
    auto              data       = make_crystals<dim>(spec);
    const M3          sig        = draw_sym<dim>(c, 1e-2, 1e3);
    const auto        rates      = draw_slips(c, spec.n_slips(), 1);
    describe(c, spec);
    c.nontrivial(maxabs(sig) > 0);
    const gCP::ConstitutiveLaws::ResolvedShearStressLaw<dim> law(data);
    const gCP::Kinematics::ElasticStrain<dim>                kin(data, 1.0);
    for (unsigned k = 0; k < n_crystals; ++k)
      {
        double power = 0, sum = 0;
        for (unsigned a = 0; a < spec.n_slips(); ++a)
          {
            const double tau =
              law.get_resolved_shear_stress(k, a, from33<dim>(sig));
            pbt::close(tau,
                       dot(spec.s(k, a), mul(sig, spec.m(k, a))),
                       0,
                       1e-11 * (1e-3 + maxabs(sig)),
                       "resolved shear stress");
            power += tau * rates[a][0];
            sum += std::fabs(rates[a][0]);
          }
        pbt::close(power,
                   ddot(sig, to33(kin.get_plastic_strain_tensor(k, 0, rates))),
                   0,
                   1e-11 * (1e-3 + maxabs(sig)) * (1 + sum),
                   "plastic power");
      }
  }
} // namespace

PBT_PROPERTY("P02", "kinematics-2d", 1) { kinematics<2>(c); }
PBT_PROPERTY("P02", "kinematics-3d", 1) { kinematics<3>(c); }
PBT_PROPERTY("P02", "hooke-2d", 1) { hooke<2>(c); }
PBT_PROPERTY("P02", "hooke-3d", 1) { hooke<3>(c); }
PBT_PROPERTY("P02", "resolved-2d", 1) { resolved<2>(c); }
PBT_PROPERTY("P02", "resolved-3d", 1) { resolved<3>(c); }

namespace
{
  // ======================================================================
  // P03 scalar microscopic stress
  double sigmoid(const int kind, const double x)
  {
    const double pi = 3.14159265358979323846;
    switch (kind)
      {
        case 0:
          return 2 / pi * std::atan(pi / 2 * x);
        case 1:
          return x / std::hypot(x, 1.0);
        case 2:
          // 2/pi gd(pi x/2), evaluated without overflow
          return 4 / pi * std::atan(std::tanh(pi / 4 * x));
        case 3:
          return std::tanh(x);
        default:
          return std::erf(std::sqrt(pi) / 2 * x);
      }
  }
  double sigmoid_derivative(const int kind, const double x)
  {
    const double pi = 3.14159265358979323846;
    auto sech = [](const double y) {
      const double e = std::exp(-std::fabs(y));
      return 2 * e / (1 + e * e);
    };
    switch (kind)
      {
        case 0:
          return 1 / (1 + pi * pi / 4 * x * x);
        case 1:
          return std::pow(std::hypot(x, 1.0), -3.0);
        case 2:
          return sech(pi / 2 * x);
        case 3:
          return sech(x) * sech(x);
        default:
          return std::exp(-pi / 4 * x * x);
      }
  }
  RTP::RegularizationFunction regularization(const int kind)
  {
    switch (kind)
      {
        case 0:
          return RTP::RegularizationFunction::Atan;
        case 1:
          return RTP::RegularizationFunction::Sqrt;
        case 2:
          return RTP::RegularizationFunction::Gd;
        case 3:
          return RTP::RegularizationFunction::Tanh;
        default:
          return RTP::RegularizationFunction::Erf;
      }
  }

  void scalar_microstress(pbt::Case &c)
  {
    const CrystalSpec spec = draw_crystals(c, 2, 1, 4, true);
    auto              data = make_crystals<2>(spec);
    const unsigned    n    = spec.n_slips();
    const int         kind = c.integer(0, 4);
    RTP::ScalarMicrostressLawParameters prm;
    RTP::HardeningLaw                   hard;
    prm.regularization_function  = regularization(kind);
    prm.regularization_parameter = c.logreal(1e-6, 10.0);
    prm.flag_rate_independent    = c.chance(1, 5);
    hard.linear_hardening_modulus =
      c.chance(1, 4) ? 0.0 : c.logreal(1e-2, 1e4);
    hard.hardening_parameter    = c.real(0, 2);
    hard.flag_perfect_plasticity = c.chance(1, 5);
    hard.initial_slip_resistance = 1.0;
    const double ch = c.chance(1, 2) ? c.logreal(0.01, 100) : 1.0;
    const double dt = c.logreal(1e-4, 10);
    const double p  = prm.regularization_parameter;
    const unsigned n_q = c.integer(1, 3), q = c.integer(0, int(n_q) - 1);
    std::vector<std::vector<double>> slip(n, std::vector<double>(n_q)),
      old(n, std::vector<double>(n_q));
    std::vector<double> R(n), x(n);
    for (unsigned a = 0; a < n; ++a)
      {
        R[a] = c.logreal(1e-2, 1e3);
        for (unsigned i = 0; i < n_q; ++i)
          {
            old[a][i] = c.signed_log(1e-3, 1);
            // rate / regularisation parameter from tiny to saturated
            const double r = c.signed_log(1e-3, c.chance(1, 6) ? 1e5 : 20.0);
            slip[a][i]     = old[a][i] + r * p * dt;
          }
        x[a] = (slip[a][q] - old[a][q]) / dt / p;
      }
    c.note("function", kind)
      .note("p", p)
      .note("dt", dt)
      .note("rate_independent", prm.flag_rate_independent)
      .note("H", hard.linear_hardening_modulus)
      .note("q", hard.hardening_parameter)
      .note("char", ch)
      .note("rate/p", x[0]);
    bool moving = false;
    for (const double y : x)
      moving = moving || (y != 0 && std::fabs(y) < 15);
    c.nontrivial(moving);

    gCP::ConstitutiveLaws::ScalarMicrostressLaw<2> law(data, prm, hard, ch);
    auto sgn = [](const double v) { return double((v > 0) - (v < 0)); };
    auto reg = [&](const double y) {
      return prm.flag_rate_independent ? sgn(y) : sigmoid(kind, y);
    };
    for (unsigned a = 0; a < n; ++a)
      {
        const double v =
          law.get_scalar_microstress(slip[a][q], old[a][q], R[a], dt);
        pbt::close(v, R[a] * reg(x[a]), 1e-9, 1e-13 * R[a], "microstress");
        PBT_CHECK(std::fabs(v) <= R[a] * (1 + 1e-14),
                  "microstress exceeds the slip resistance");
        PBT_CHECK(v * x[a] >= 0, "negative dissipation");
        PBT_CHECK(x[a] == 0 || v != 0, "no microstress at nonzero rate");
        // odd
        const double w =
          law.get_scalar_microstress(old[a][q], slip[a][q], R[a], dt);
        pbt::close(w, -v, 1e-9, 1e-13 * R[a], "odd in the rate");
        // monotone
        const double up = law.get_scalar_microstress(
          slip[a][q] + p * dt * c.logreal(1e-3, 10), old[a][q], R[a], dt);
        PBT_CHECK(up >= v - 1e-13 * R[a], "microstress is not monotone");
        // homogeneous of degree one in the resistance
        pbt::close(law.get_scalar_microstress(
                     slip[a][q], old[a][q], 2 * R[a], dt),
                   2 * v,
                   1e-12,
                   0,
                   "linear in the resistance");
      }
    const auto J = law.get_jacobian(q, slip, old, R, dt);
    PBT_CHECK(J.m() == n && J.n() == n, "size of the tangent");
    for (unsigned a = 0; a < n; ++a)
      for (unsigned b = 0; b < n; ++b)
        {
          double ref = 0;
          if (!hard.flag_perfect_plasticity)
            ref += hard.linear_hardening_modulus / ch *
                   (a == b ? 1.0 : hard.hardening_parameter) * reg(x[a]) *
                   reg(x[b]);
          double size = std::fabs(ref);
          if (a == b && !prm.flag_rate_independent)
            {
              ref += R[a] / dt / p * sigmoid_derivative(kind, x[a]);
              size = ref;
            }
          pbt::close(J[a][b],
                     ref,
                     1e-7,
                     1e-12 * (size + R[a] / dt / p),
                     "tangent");
          pbt::close(J[a][b], J[b][a], 1e-12, 1e-12 * size, "tangent symmetry");
        }
    // the diagonal without hardening is the derivative of the stress
    if (!prm.flag_rate_independent)
      for (unsigned a = 0; a < n; ++a)
        if (std::fabs(x[a]) < 10)
          {
            const double h  = 1e-5 * p * dt;
            auto         f  = [&](const double d) {
              return law.get_scalar_microstress(d + (slip[a][q] - old[a][q]), 0, R[a], dt);
            };
            const double fd = (f(h) - f(-h)) / (2 * h);
            RTP::HardeningLaw none = hard;
            none.flag_perfect_plasticity = true;
            gCP::ConstitutiveLaws::ScalarMicrostressLaw<2> plain(data, prm, none, ch);
            const double Jaa = plain.get_jacobian(q, slip, old, R, dt)[a][a];
            pbt::close(Jaa, fd, 1e-5, 1e-6 * R[a] / dt / p, "diagonal tangent");
          }
  }
} // namespace
PBT_PROPERTY("P03", "scalar-microstress", 1) { scalar_microstress(c); }

namespace
{
  // ======================================================================
  // P04 vectorial microscopic stress
  template <int dim>
  void vectorial(pbt::Case &c)
  {
    const unsigned    n_crystals = c.integer(1, 3);
    const CrystalSpec spec       = draw_crystals(c, dim, n_crystals, 4);
    auto              data       = make_crystals<dim>(spec);
    RTP::VectorialMicrostressLawParameters prm;
    prm.energetic_length_scale  = c.logreal(1e-3, 10);
    prm.initial_slip_resistance = c.logreal(1e-2, 1e3);
    prm.defect_energy_index =
      c.chance(1, 2) ? c.integer(2, 6) :
                       (c.chance(1, 5) ? c.real(1.25, 2.0) : c.real(2.0, 6.0));
    const bool     dimensionless = c.chance(1, 3);
    const unsigned k = c.integer(0, int(n_crystals) - 1);
    const unsigned a = c.integer(0, int(spec.n_slips()) - 1);
    const double   p = prm.defect_energy_index;
    const V3       s = spec.s(k, a), t = spec.t(k, a), m = spec.m(k, a);
    const double   factor =
      dimensionless ?
          1.0 :
          prm.initial_slip_resistance * std::pow(prm.energetic_length_scale, p);
    // gradient from its components in the slip basis
    double gs = c.signed_log(1e-2, 10), gt = c.signed_log(1e-2, 10),
           gm = c.signed_log(1e-2, 10);
    V3 g = gs * s + gm * m;
    if (dim == 3)
      g = g + gt * t;
    else
      gt = 0;
    if (c.chance(1, 20))
      g = zero3();
    describe(c, spec);
    c.note("p", p).note("factor", factor).note("g.s", gs).note("g.t", gt);
    c.note("g.m", gm);
    c.nontrivial(norm(g) > 0);
    gCP::ConstitutiveLaws::VectorialMicrostressLaw<dim> law(data, prm);
    law.init(dimensionless);

    auto energy = [&](const V3 &x) {
      double e = std::pow(std::fabs(dot(s, x)), p);
      if (dim == 3)
        e += std::pow(std::fabs(dot(t, x)), p);
      return factor / p * e;
    };
    auto stress = [&](const V3 &x) {
      return to3(law.get_vectorial_microstress(k, a, from3<dim>(x)));
    };
    const double ds = dot(s, g), dtt = (dim == 3) ? dot(t, g) : 0.0;
    auto         spow = [&](const double y) {
      return (y == 0) ? 0.0 :
                        std::copysign(std::pow(std::fabs(y), p - 1), y);
    };
    const V3     ref = factor * (spow(ds) * s + spow(dtt) * t);
    const double size =
      factor * std::pow(std::max(norm(g), 1e-30), p - 1) + 1e-300;
    const V3 x = stress(g);
    // The code sees projections with rounding noise of relative size 1e-16.
    const double tol = (p < 2) ? 5 * factor * std::pow(1e-14 * (1 + norm(g)), p - 1) + 1e-8 * size
                                 : 1e-9 * size;
    c.note("k",k).note("a",a).note("ds",ds).note("dtt",dtt).note("x1",x[1]).note("x2",x[2]).note("r1",ref[1]).note("r2",ref[2]);
    close3(x, ref, tol, "vectorial microstress");
    pbt::close(dot(x, g), p * energy(g), 1e-8, tol * norm(g), "xi.g = p psi");
    close3(stress(zero3() - g), zero3() - x, tol, "odd");
    pbt::close(dot(x, m), 0, 0, tol, "component along the slip normal");
    const double f2 = c.logreal(0.1, 10);
    close3(stress(f2 * g),
           std::pow(f2, p - 1) * x,
           tol * (1 + std::pow(f2, p - 1)),
           "homogeneity");

    // tangent
    const bool smooth =
      (p >= 2) || (std::fabs(ds) > 1e-3 && (dim == 2 || std::fabs(dtt) > 1e-3));
    if (smooth)
      {
        const M3 J = to33(law.get_jacobian(k, a, from3<dim>(g)));
        auto     pw = [&](const double y) { return (p == 2.0) ? 1.0 : (y == 0 ? 0.0 : std::pow(std::fabs(y), p - 2)); };
        M3       Jr = scale(factor * (p - 1) * pw(ds), outer(s, s));
        Jr          = add(Jr, outer(t, t), factor * (p - 1) * pw(dtt));
        const double sj =
          factor * (p - 1) * (pw(ds) + pw(dtt) + std::pow(1e-12 + norm(g), p - 2));
        close33(J, Jr, 1e-8 * sj + ((p < 3 && p > 2) ? factor * std::pow(1e-13 * (1 + norm(g)), p - 2) * 2 : 0), "tangent");
        for (int i = 0; i < 3; ++i)
          for (int j = 0; j < 3; ++j)
            pbt::close(J[i][j], J[j][i], 0, 1e-12 * sj, "tangent symmetry");
        const V3 v = {{c.real(-1, 1), c.real(-1, 1), dim == 3 ? c.real(-1, 1) : 0}};
        PBT_CHECK(dot(v, mul(J, v)) >= -1e-12 * sj, "tangent not semidefinite");
        // directional derivative, away from the kink scale
        if (std::fabs(ds) > 1e-2 && (dim == 2 || std::fabs(dtt) > 1e-2))
          {
            const double h = 1e-6 * std::min(std::fabs(ds), dim == 3 ? std::fabs(dtt) : 1e300);
            const V3     fd =
              (0.5 / h) * (stress(g + h * v) - stress(g - h * v));
            close3(mul(J, v), fd, 1e-4 * sj, "tangent is the derivative");
            // and the stress is the derivative of the energy
            pbt::close(dot(x, v),
                       (energy(g + h * v) - energy(g - h * v)) / (2 * h),
                       0,
                       1e-4 * size,
                       "stress is the derivative of the defect energy");
          }
      }
  }
} // namespace
PBT_PROPERTY("P04", "vectorial-2d", 1) { vectorial<2>(c); }
PBT_PROPERTY("P04", "vectorial-3d", 1) { vectorial<3>(c); }

namespace
{
  // ======================================================================
  // P05 slip resistance history (model based)
  void slip_resistance(pbt::Case &c)
  {
    const unsigned    n = c.integer(1, 6);
    RTP::HardeningLaw prm;
    prm.initial_slip_resistance  = c.logreal(1e-2, 1e3);
    prm.linear_hardening_modulus = c.chance(1, 6) ? 0.0 : c.logreal(1e-2, 1e4);
    prm.hardening_parameter      = c.real(0, 2);
    prm.flag_perfect_plasticity  = c.chance(1, 6);
    const double ch = c.chance(1, 2) ? c.logreal(0.01, 100) : 1.0;
    c.note("n", n).note("R0", prm.initial_slip_resistance);
    c.note("H", prm.linear_hardening_modulus);
    c.note("q", prm.hardening_parameter).note("char", ch);
    c.note("perfect", prm.flag_perfect_plasticity);
    gCP::QuadraturePointHistory<2> h;
    bool threw = false;
    try
      {
        h.get_slip_resistance(0);
      }
    catch (const std::exception &)
      {
        threw = true;
      }
    PBT_CHECK(threw, "use before init() is not rejected");
    h.init(prm, n, ch);
    std::vector<double> stored(n, prm.initial_slip_resistance / ch),
      current = stored;
    // slip history as the solver keeps it: old slips change only on acceptance
    const unsigned                   n_q = c.integer(1, 3);
    const unsigned                   q   = c.integer(0, int(n_q) - 1);
    std::vector<std::vector<double>> old(n, std::vector<double>(n_q, 0.0)),
      trial = old;
    std::ostringstream ops;
    int                n_update = 0, n_store = 0;
    const int          steps = c.integer(1, 25);
    auto               verify = [&]() {
      double tol = 1e-9 * (stored[0] + current[0]);
      for (const double v : current)
        tol = std::max(tol, 1e-11 * v);
      const auto all = h.get_slip_resistances(), all_old = h.get_old_slip_resistances();
      PBT_CHECK(all.size() == n && all_old.size() == n, "number of resistances");
      for (unsigned a = 0; a < n; ++a)
        {
          pbt::close(h.get_slip_resistance(a), current[a], 1e-10, 0, "slip resistance after" + ops.str());
          pbt::close(h.get_old_slip_resistance(a), stored[a], 1e-10, 0, "old slip resistance after" + ops.str());
          pbt::close(all[a], current[a], 1e-10, 0, "slip resistances");
          pbt::close(all_old[a], stored[a], 1e-10, 0, "old slip resistances");
          PBT_CHECK(all[a] >= all_old[a] * (1 - 1e-14), "slip resistance decreases in a step");
          PBT_CHECK(all[a] >= prm.initial_slip_resistance / ch * (1 - 1e-14), "softer than initially");
        }
    };
    verify();
    for (int i = 0; i < steps; ++i)
      {
        switch (c.integer(0, 4))
          {
            case 0:
            case 1:
            case 2:
              {
                // a Newton iterate: any slips, the stored ones as reference
                for (auto &v : trial)
                  for (auto &x : v)
                    x = c.signed_log(1e-5, 1.0);
                h.update_values(q, trial, old);
                current = stored;
                if (!prm.flag_perfect_plasticity)
                  for (unsigned a = 0; a < n; ++a)
                    for (unsigned b = 0; b < n; ++b)
                      current[a] += prm.linear_hardening_modulus / ch *
                                    (a == b ? 1.0 : prm.hardening_parameter) *
                                    std::fabs(trial[b][q] - old[b][q]);
                ++n_update;
                ops << " update";
                break;
              }
            case 3:
              h.store_current_values();
              stored = current;
              old    = trial;
              ++n_store;
              ops << " store";
              break;
            default:
              h.reset_values();
              current = stored;
              ops << " reset";
          }
        verify();
      }
    c.note("ops", ops.str());
    c.nontrivial(n_update >= 2 && n_store >= 1 && !prm.flag_perfect_plasticity &&
                 prm.linear_hardening_modulus > 0);
  }
} // namespace
PBT_PROPERTY("P05", "slip-resistance-history", 1) { slip_resistance(c); }

namespace
{
  // ======================================================================
  // P06 microtraction
  template <int dim>
  V3 draw_unit(pbt::Case &c)
  {
    V3 v = zero3();
    if (c.chance(1, 2))
      {
        for (int i = 0; i < dim; ++i)
          v[i] = c.integer(0, 4) - 2;
      }
    else
      for (int i = 0; i < dim; ++i)
        v[i] = c.real(-1, 1);
    if (norm(v) < 1e-3)
      v = V3{{1, 0, 0}};
    return (1.0 / norm(v)) * v;
  }

  template <int dim>
  void microtraction(pbt::Case &c)
  {
    const unsigned    n_crystals = c.integer(2, 4);
    const CrystalSpec spec       = draw_crystals(c, dim, n_crystals, 4);
    auto              data       = make_crystals<dim>(spec);
    const unsigned    n          = spec.n_slips();
    RTP::MicrotractionLawParameters prm;
    prm.grain_boundary_modulus = c.chance(1, 10) ? 0.0 : c.logreal(1e-3, 1e4);
    const double   ch = c.chance(1, 2) ? c.logreal(0.01, 100) : 1.0;
    const double   lambda = prm.grain_boundary_modulus;
    const unsigned k  = c.integer(0, int(n_crystals) - 1);
    unsigned       l  = c.integer(0, int(n_crystals) - 2);
    if (l >= k)
      ++l;
    const unsigned                      n_q = c.integer(1, 3);
    std::vector<V3>                     normal(n_q);
    std::vector<dealii::Tensor<1, dim>> normal_d(n_q), minus(n_q);
    for (unsigned q = 0; q < n_q; ++q)
      {
        normal[q] = draw_unit<dim>(c);
        // in practice slip planes may coincide with the boundary
        if (c.chance(1, 6))
          normal[q] = spec.s(k, 0);
        normal_d[q] = from3<dim>(normal[q]);
        minus[q]    = -normal_d[q];
      }
    const auto g = draw_slips(c, n, n_q), g2 = draw_slips(c, n, n_q);
    describe(c, spec);
    c.note("lambda", lambda).note("char", ch).note("k", k).note("l", l);
    c.note("normal",
           num(normal[0][0]) + "," + num(normal[0][1]) + "," +
             num(normal[0][2]));
    gCP::ConstitutiveLaws::MicrotractionLaw<dim> law(data, prm, ch);
    bool threw = false;
    try
      {
        law.get_grain_interaction_moduli(k, k, normal_d);
      }
    catch (const std::exception &)
      {
        threw = true;
      }
    PBT_CHECK(threw, "moduli inside a single grain are not rejected");

    const auto moduli = law.get_grain_interaction_moduli(k, l, normal_d);
    const auto swapped = law.get_grain_interaction_moduli(l, k, minus);
    PBT_CHECK(moduli.first.size() == n_q && moduli.second.size() == n_q,
              "number of moduli");
    auto lattice = [&](const unsigned cr, const unsigned a, const unsigned q) {
      return outer(spec.s(cr, a), cross(spec.m(cr, a), normal[q]));
    };
    bool coupled = false;
    for (unsigned q = 0; q < n_q; ++q)
      {
        M3 burgers = zero33();
        double sum = 0;
        for (unsigned a = 0; a < n; ++a)
          {
            burgers = add(burgers, lattice(l, a, q), g2[a][q]);
            burgers = add(burgers, lattice(k, a, q), -g[a][q]);
            sum += std::fabs(g[a][q]) + std::fabs(g2[a][q]);
          }
        const auto Jin = law.get_intra_gateaux_derivative(q, moduli);
        const auto Jex = law.get_inter_gateaux_derivative(q, moduli);
        for (unsigned a = 0; a < n; ++a)
          {
            for (unsigned b = 0; b < n; ++b)
              {
                const double in = ddot(lattice(k, a, q), lattice(k, b, q));
                const double ex = ddot(lattice(k, a, q), lattice(l, b, q));
                coupled = coupled || std::fabs(ex) > 1e-3;
                pbt::close(moduli.first[q][a][b], in, 0, 1e-12, "intragranular modulus");
                pbt::close(moduli.second[q][a][b], ex, 0, 1e-12, "intergranular modulus");
                pbt::close(swapped.second[q][b][a], moduli.second[q][a][b], 0, 1e-12, "reciprocity");
                pbt::close(Jin[a][b], -lambda / ch * in, 0, 1e-12 * lambda / ch, "derivative to own slips");
                pbt::close(Jex[a][b], lambda / ch * ex, 0, 1e-12 * lambda / ch, "derivative to neighbour slips");
              }
            // microtraction = -d(energy)/d(slip) of the boundary energy
            const double m = law.get_microtraction(q, a, moduli, g, g2);
            pbt::close(m,
                       lambda / ch * ddot(burgers, lattice(k, a, q)),
                       0,
                       1e-11 * lambda / ch * (1e-3 + sum),
                       "microtraction");
            auto gp = g, gm = g;
            const double h = 0.5;
            gp[a][q] += h;
            gm[a][q] -= h;
            const double ep = law.get_free_energy_density(l, k, q, normal_d, g2, gp);
            const double em = law.get_free_energy_density(l, k, q, normal_d, g2, gm);
            pbt::close(m * ch,
                       -(ep - em) / (2 * h),
                       0,
                       1e-10 * lambda * (1 + sum) * (1 + sum),
                       "microtraction against the energy");
          }
        const double e = law.get_free_energy_density(l, k, q, normal_d, g2, g);
        pbt::close(e, 0.5 * lambda * ddot(burgers, burgers), 1e-9, 1e-12 * lambda * sum * sum, "grain boundary energy");
        PBT_CHECK(e >= 0, "negative energy");
        pbt::close(law.get_free_energy_density(k, l, q, minus, g, g2), e, 1e-9, 1e-12 * lambda * sum * sum, "energy seen from the other side");
      }
    c.nontrivial(coupled && lambda > 0);
  }
} // namespace
PBT_PROPERTY("P06", "microtraction-2d", 1) { microtraction<2>(c); }
PBT_PROPERTY("P06", "microtraction-3d", 1) { microtraction<3>(c); }

namespace
{
  // ======================================================================
  // P07 cohesive law, P08 contact and degradation
  struct Opening
  {
    double dn;
    V3     normal, tangential, delta;
    double eff;
  };
  template <int dim>
  Opening draw_opening(pbt::Case &c, const double dc, const double beta)
  {
    Opening o;
    o.normal = draw_unit<dim>(c);
    V3 t     = zero3();
    if (dim == 2)
      t = V3{{-o.normal[1], o.normal[0], 0}};
    else
      {
        t = cross(o.normal, draw_unit<3>(c));
        if (norm(t) < 1e-3)
          t = cross(o.normal, V3{{1, 0, 0}});
        if (norm(t) < 1e-3)
          t = cross(o.normal, V3{{0, 1, 0}});
        t = (1 / norm(t)) * t;
      }
    o.dn         = c.signed_log(1e-3, 5.0, 16) * dc;
    const double dt = c.signed_log(1e-3, 5.0, 8) * dc;
    o.tangential = dt * t;
    o.delta      = o.dn * o.normal + o.tangential;
    o.eff        = std::hypot(std::max(o.dn, 0.0), beta * dt);
    return o;
  }

  template <int dim>
  void cohesive(pbt::Case &c)
  {
    RTP::CohesiveLawParameters prm;
    prm.critical_cohesive_traction    = c.logreal(1e-2, 1e4);
    prm.critical_opening_displacement = c.logreal(1e-4, 10);
    prm.tangential_to_normal_stiffness_ratio =
      c.chance(1, 3) ? 1.0 : c.real(0.0, 2.0);
    const double sc   = prm.critical_cohesive_traction;
    const double beta = prm.tangential_to_normal_stiffness_ratio;
    const double cs   = c.chance(1, 2) ? c.logreal(0.01, 100) : 1.0;
    const double cd   = c.chance(1, 3) ? c.logreal(0.01, 100) : 1.0;
    // the law sees openings divided by the characteristic displacement
    const double dc = prm.critical_opening_displacement / cd;
    const double dt = c.logreal(1e-3, 10);
    const Opening o = draw_opening<dim>(c, dc, beta);
    gCP::ConstitutiveLaws::CohesiveLaw<dim> law(prm, cs, cd);
    const auto   delta = from3<dim>(o.delta);
    const auto   n     = from3<dim>(o.normal);
    const double eff   = law.get_effective_opening_displacement(delta, n);
    c.note("dn", o.dn).note("beta", beta).note("dc", dc).note("eff", o.eff);
    c.note("char_stress", cs).note("char_disp", cd);
    pbt::close(eff, o.eff, 1e-9, 1e-12 * dc, "effective opening");
    // both accessors agree bit for bit (the loading test compares for equality)
    PBT_CHECK(law.get_effective_quantities(delta, n).opening_displacement == eff,
              "the two effective openings differ");
    pbt::close(law.get_effective_opening_displacement(-delta, -n), eff, 0, 0, "effective opening seen from the other side");

    const double tol_n = 1e-9 * o.dn;
    (void)tol_n;
    const V3 dir_eff = std::max(o.dn, 0.0) * o.normal + (beta * beta) * o.tangential;
    auto T = [&](const double d) { return sc * d / dc * std::exp(1 - d / dc); };
    // noise of the normal part relative to the whole opening
    const double e0 = 1e-12 * (std::fabs(o.dn) + norm(o.tangential));

    // loading: the history maximum is the current opening
    {
      const double old = eff * c.real(0, 1);
      const V3     t   = to3(law.get_cohesive_traction(delta, n, eff, old, dt));
      V3           ref = zero3();
      if (o.eff > 0)
        ref = (T(o.eff) / o.eff / cs) * dir_eff;
      const double slope = sc / dc * std::exp(1.0) / cs * (1 + beta * beta);
      close3(t, ref, 1e-9 * norm(ref) + slope * e0 * 10, "traction on loading");
      if (eff > 0)
        pbt::close(dot(t, o.delta) * cs, T(o.eff) * o.eff, 1e-7, slope * cs * e0 * (o.eff + norm(o.delta)) * 100, "power conjugacy");
      PBT_CHECK(norm(t) * cs <= sc * std::max(1.0, beta) * (1 + 1e-9), "traction above the critical one");
      PBT_CHECK(dot(t, o.normal) >= -1e-9 * sc / cs, "cohesive traction pushes");
    }
    // unloading and reloading below the maximum
    const double factor = 1 + c.logreal(1e-3, 4);
    const double maxi   = (eff > 0 ? eff : dc) * factor;
    {
      const double old = maxi * c.real(0, 1);
      const V3     t   = to3(law.get_cohesive_traction(delta, n, maxi, old, dt));
      const V3     ref = (T(maxi) / maxi / cs) * dir_eff;
      const double slope = sc / dc * std::exp(1.0) / cs * (1 + beta * beta);
      close3(t, ref, 1e-9 * norm(ref) + slope * e0 * 10, "traction on unloading");
      // secant through the origin: half the opening, half the traction
      const V3 t2 = to3(law.get_cohesive_traction(0.5 * delta, n, maxi, old, dt));
      close3(t2, 0.5 * t, 1e-9 * norm(ref) + slope * e0 * 10, "secant");
    }
    // start of unloading at the maximum: continuous
    if (eff > 0)
      {
        const V3 a = to3(law.get_cohesive_traction(delta, n, eff, eff, dt));
        const V3 b = to3(law.get_cohesive_traction(delta, n, eff, 2 * eff, dt));
        close3(a, b, 1e-9 * norm(a), "continuity at the maximum");
      }
    // the free energy is the work on monotonic loading (dimensional opening)
    {
      const double d = o.eff * cd, dcd = dc * cd;
      const double e = law.get_free_energy_density(d);
      pbt::close(e, sc * dcd * (std::exp(1.0) - std::exp(1 - d / dcd) * (1 + d / dcd)), 1e-9, 1e-13 * sc * dcd, "free energy");
      PBT_CHECK(e >= -1e-13 * sc * dcd && e <= sc * dcd * std::exp(1.0) * (1 + 1e-12), "free energy out of range");
      if (d > 1e-2 * dcd)
        {
          const double h = 1e-4 * d;
          pbt::close((law.get_free_energy_density(d + h) - law.get_free_energy_density(d - h)) / (2 * h), T(o.eff), 1e-5, 1e-7 * sc, "energy derivative");
        }
    }
    // tangents against differences of the traction
    const bool off_kink = std::fabs(o.dn) > 1e-2 * dc;
    if (off_kink && o.eff > 1e-3 * dc)
      {
        c.nontrivial();
        c.label(o.dn > 0 ? "opening" : "closing");
        const V3     v = draw_unit<dim>(c);
        const double h = 1e-6 * std::min(std::fabs(o.dn), o.eff);
        const auto   vp = from3<dim>(o.delta + h * v), vm = from3<dim>(o.delta - h * v);
        const double scale_j = sc / dc / cs * 3 * (1 + beta * beta);
        {
          auto f = [&](const dealii::Tensor<1, dim> &x) {
            return to3(law.get_cohesive_traction(x, n, law.get_effective_opening_displacement(x, n), 0.0, dt));
          };
          const V3 fd = (0.5 / h) * (f(vp) - f(vm));
          const M3 J  = to33(law.get_jacobian(delta, n, eff, 0.0, dt));
          close3(mul(J, v), fd, 1e-4 * scale_j, "tangent on loading");
        }
        {
          const double old = maxi;
          auto f = [&](const dealii::Tensor<1, dim> &x) {
            return to3(law.get_cohesive_traction(x, n, maxi, old, dt));
          };
          const V3 fd = (0.5 / h) * (f(vp) - f(vm));
          const M3 J  = to33(law.get_jacobian(delta, n, maxi, old, dt));
          close3(mul(J, v), fd, 1e-4 * scale_j, "tangent on unloading");
        }
      }
  }

  template <int dim>
  void contact(pbt::Case &c)
  {
    RTP::ContactLawParameters prm;
    prm.penalty_coefficient = c.logreal(1e-2, 1e8);
    const double  cs = c.chance(1, 2) ? c.logreal(0.01, 100) : 1.0;
    const double  cd = c.chance(1, 3) ? c.logreal(0.01, 100) : 1.0;
    const Opening o  = draw_opening<dim>(c, 1.0, 1.0);
    gCP::ConstitutiveLaws::ContactLaw<dim> law(prm, cs, cd);
    const auto delta = from3<dim>(o.delta);
    const auto n     = from3<dim>(o.normal);
    c.note("penalty", prm.penalty_coefficient).note("dn", o.dn);
    c.note("char_stress", cs).note("char_disp", cd);
    c.nontrivial(o.dn < 0);
    const double k   = prm.penalty_coefficient / cs * cd;
    const double tol = 1e-11 * k * (1 + norm(o.delta));
    const V3     t   = to3(law.get_contact_traction(delta, n));
    close3(t, (-k * std::max(0.0, -o.dn)) * o.normal, tol, "contact traction");
    // seen from the other side the same traction with opposite sign
    close3(to3(law.get_contact_traction(-delta, -n)), zero3() - t, tol, "action and reaction");
    if (std::fabs(o.dn) > 1e-4)
      {
        const M3 J = to33(law.get_jacobian(delta, n));
        close33(J, scale(o.dn < 0 ? k : 0.0, outer(o.normal, o.normal)), 1e-11 * k, "contact tangent");
        const V3     v = draw_unit<dim>(c);
        const double h = 0.25 * std::fabs(o.dn);
        const V3     fd =
          (0.5 / h) *
          (to3(law.get_contact_traction(from3<dim>(o.delta + h * v), n)) -
           to3(law.get_contact_traction(from3<dim>(o.delta - h * v), n)));
        close3(mul(J, v), fd, 1e-8 * k * (1 + norm(o.delta) / h), "contact tangent is the derivative");
      }
  }

  void degradation(pbt::Case &c)
  {
    RTP::DegradationFunction prm;
    prm.degradation_exponent = c.chance(1, 2) ? c.integer(1, 6) : c.real(1.0, 8.0);
    const double d = c.chance(1, 10) ? 1.0 : c.real(0, 1);
    gCP::ConstitutiveLaws::DegradationFunction f(prm);
    c.note("exponent", prm.degradation_exponent).note("damage", d);
    c.nontrivial(d > 0);
    auto v = [&](const double x) { return f.get_degradation_function_value(x, true); };
    pbt::close(v(d), std::pow(1 - d, prm.degradation_exponent), 1e-12, 1e-300, "degradation");
    pbt::close(v(0.0), 1.0, 0, 0, "undamaged");
    pbt::close(v(1.0), 0.0, 0, 0, "fully damaged");
    PBT_CHECK(v(d) >= 0 && v(d) <= 1, "out of [0,1]");
    PBT_CHECK(v(std::min(1.0, d + 0.01)) <= v(d), "not decreasing");
    pbt::close(f.get_degradation_function_value(d, false), 1.0, 0, 0, "uncoupled value");
    auto slope = [&](const double x, const bool b) { return f.get_degradation_function_derivative_value(x, b); };
    PBT_CHECK(slope(d, true) <= 0, "increasing degradation");
    if (d > 1e-3 && d < 1 - 1e-3)
      {
        const double h = 1e-5;
        pbt::close(slope(d, true), (v(d + h) - v(d - h)) / (2 * h), 1e-4, 1e-6, "derivative");
      }
    pbt::close(slope(d, false), 0.0, 0, 0, "derivative of the uncoupled (constant) value");
  }
} // namespace
PBT_PROPERTY("P07", "cohesive-2d", 1) { cohesive<2>(c); }
PBT_PROPERTY("P07", "cohesive-3d", 1) { cohesive<3>(c); }
PBT_PROPERTY("P08", "contact-2d", 1) { contact<2>(c); }
PBT_PROPERTY("P08", "contact-3d", 1) { contact<3>(c); }
PBT_PROPERTY("P08", "degradation", 1) { degradation(c); }
