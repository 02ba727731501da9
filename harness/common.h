// Helpers shared by the harnesses: generated crystals with an independently
// computed reference, small dense tensors, scratch files.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H

#include "pbt.h"

#include <gCP/crystal_data.h>
#include <gCP/run_time_parameters.h>

#include <deal.II/base/symmetric_tensor.h>
#include <deal.II/base/tensor.h>
#include <deal.II/grid/grid_generator.h>
#include <deal.II/grid/tria.h>

#include <array>
#include <fstream>
#include <memory>
#include <string>
#include <vector>

namespace vf
{
  using V3 = std::array<double, 3>;
  using M3 = std::array<V3, 3>;

  inline V3 zero3() { return {{0, 0, 0}}; }
  inline M3 zero33() { return {{zero3(), zero3(), zero3()}}; }
  inline M3 unit33()
  {
    M3 r = zero33();
    for (int i = 0; i < 3; ++i)
      r[i][i] = 1;
    return r;
  }
  inline double dot(const V3 &a, const V3 &b)
  {
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
  }
  inline V3 cross(const V3 &a, const V3 &b)
  {
    return {{a[1] * b[2] - a[2] * b[1],
             a[2] * b[0] - a[0] * b[2],
             a[0] * b[1] - a[1] * b[0]}};
  }
  inline double norm(const V3 &a) { return std::sqrt(dot(a, a)); }
  inline V3     operator*(const double s, const V3 &a)
  {
    return {{s * a[0], s * a[1], s * a[2]}};
  }
  inline V3 operator+(const V3 &a, const V3 &b)
  {
    return {{a[0] + b[0], a[1] + b[1], a[2] + b[2]}};
  }
  inline V3 operator-(const V3 &a, const V3 &b)
  {
    return {{a[0] - b[0], a[1] - b[1], a[2] - b[2]}};
  }
  inline V3 mul(const M3 &m, const V3 &a)
  {
    return {{dot(m[0], a), dot(m[1], a), dot(m[2], a)}};
  }
  inline M3 mul(const M3 &a, const M3 &b)
  {
    M3 r = zero33();
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j)
        for (int k = 0; k < 3; ++k)
          r[i][j] += a[i][k] * b[k][j];
    return r;
  }
  inline M3 transpose(const M3 &a)
  {
    M3 r;
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j)
        r[i][j] = a[j][i];
    return r;
  }
  inline M3 outer(const V3 &a, const V3 &b)
  {
    M3 r;
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j)
        r[i][j] = a[i] * b[j];
    return r;
  }
  inline M3 sym(const M3 &a)
  {
    M3 r;
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j)
        r[i][j] = 0.5 * (a[i][j] + a[j][i]);
    return r;
  }
  inline double ddot(const M3 &a, const M3 &b)
  {
    double s = 0;
    for (int i = 0; i < 3; ++i)
      s += dot(a[i], b[i]);
    return s;
  }
  inline M3 add(const M3 &a, const M3 &b, const double f = 1.0)
  {
    M3 r;
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j)
        r[i][j] = a[i][j] + f * b[i][j];
    return r;
  }
  inline M3 scale(const double f, const M3 &a) { return add(zero33(), a, f); }

  // cubic elasticity in the rotated frame, evaluated without forming the
  // fourth-order tensor: sigma = R (C0 : (R^T eps R)) R^T
  inline M3 cubic_stress(const M3    &R,
                         const M3    &eps,
                         const double C11,
                         const double C12,
                         const double C44)
  {
    const M3 e = mul(transpose(R), mul(eps, R));
    M3       s = zero33();
    const double tr = e[0][0] + e[1][1] + e[2][2];
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j)
        s[i][j] = (i == j) ? C11 * e[i][i] + C12 * (tr - e[i][i]) :
                             2.0 * C44 * e[i][j];
    return mul(R, mul(s, transpose(R)));
  }

  template <int dim>
  V3 to3(const dealii::Tensor<1, dim> &t)
  {
    V3 r = zero3();
    for (int i = 0; i < dim; ++i)
      r[i] = t[i];
    return r;
  }
  template <int dim>
  M3 to33(const dealii::Tensor<2, dim> &t)
  {
    M3 r = zero33();
    for (int i = 0; i < dim; ++i)
      for (int j = 0; j < dim; ++j)
        r[i][j] = t[i][j];
    return r;
  }
  template <int dim>
  M3 to33(const dealii::SymmetricTensor<2, dim> &t)
  {
    M3 r = zero33();
    for (int i = 0; i < dim; ++i)
      for (int j = 0; j < dim; ++j)
        r[i][j] = t[i][j];
    return r;
  }
  template <int dim>
  dealii::Tensor<1, dim> from3(const V3 &a)
  {
    dealii::Tensor<1, dim> r;
    for (int i = 0; i < dim; ++i)
      r[i] = a[i];
    return r;
  }
  template <int dim>
  dealii::SymmetricTensor<2, dim> from33(const M3 &a)
  {
    dealii::SymmetricTensor<2, dim> r;
    for (int i = 0; i < dim; ++i)
      for (int j = i; j < dim; ++j)
        r[i][j] = a[i][j];
    return r;
  }
  inline void close33(const M3          &a,
                      const M3          &b,
                      const double       tol,
                      const std::string &what)
  {
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j)
        pbt::close(a[i][j],
                   b[i][j],
                   0,
                   tol,
                   what + "[" + std::to_string(i) + "][" + std::to_string(j) +
                     "]");
  }
  inline void close3(const V3          &a,
                     const V3          &b,
                     const double       tol,
                     const std::string &what)
  {
    for (int i = 0; i < 3; ++i)
      pbt::close(a[i], b[i], 0, tol, what + "[" + std::to_string(i) + "]");
  }
  inline double maxabs(const M3 &a)
  {
    double m = 0;
    for (const auto &r : a)
      for (const double x : r)
        m = std::max(m, std::fabs(x));
    return m;
  }

  // ------------------------------------------------------------------------
  // Crystals: Euler angles in degrees and reference slip systems
  struct SlipSystem
  {
    V3 direction, normal; // reference, not normalised
  };

  struct CrystalSpec
  {
    int                     dim;
    std::vector<V3>         angles;
    std::vector<SlipSystem> slips;

    unsigned n_crystals() const { return angles.size(); }
    unsigned n_slips() const { return slips.size(); }

    M3 rotation(const unsigned k) const
    {
      const double f = 3.14159265358979323846 / 180.0;
      auto         rz = [](const double a) {
        M3 r = unit33();
        r[0][0] = std::cos(a);
        r[0][1] = -std::sin(a);
        r[1][0] = std::sin(a);
        r[1][1] = std::cos(a);
        return r;
      };
      auto rx = [](const double a) {
        M3 r = unit33();
        r[1][1] = std::cos(a);
        r[1][2] = -std::sin(a);
        r[2][1] = std::sin(a);
        r[2][2] = std::cos(a);
        return r;
      };
      if (dim == 2)
        return rz(angles[k][0] * f);
      return mul(rz(angles[k][0] * f),
                 mul(rx(angles[k][1] * f), rz(angles[k][2] * f)));
    }
    V3 s(const unsigned k, const unsigned a) const
    {
      return mul(rotation(k), (1.0 / norm(slips[a].direction)) *
                                slips[a].direction);
    }
    V3 m(const unsigned k, const unsigned a) const
    {
      return mul(rotation(k),
                 (1.0 / norm(slips[a].normal)) * slips[a].normal);
    }
    // completes the basis; by convention zero in two dimensions
    V3 t(const unsigned k, const unsigned a) const
    {
      if (dim == 2)
        return zero3();
      return cross(m(k, a), s(k, a));
    }
    M3 P(const unsigned k, const unsigned a) const
    {
      return sym(outer(s(k, a), m(k, a)));
    }
  };

  inline std::string num(const double v)
  {
    char b[40];
    std::snprintf(b, sizeof(b), "%.17g", v);
    return b;
  }

  inline CrystalSpec draw_crystals(pbt::Case     &c,
                                   const int      dim,
                                   const unsigned n_crystals,
                                   const unsigned max_slips,
                                   const bool     nice_angles = false,
                                   const bool     min_slips_zero = false)
  {
    CrystalSpec spec;
    spec.dim = dim;
    const unsigned n_slips =
      c.integer(min_slips_zero ? 0 : 1, static_cast<int>(max_slips));
    for (unsigned a = 0; a < n_slips; ++a)
      {
        SlipSystem ss;
        if (dim == 2)
          {
            if (c.chance(1, 3))
              {
                // direction given by an angle, normal rotated by +-90 degrees
                const double phi =
                  c.integer(0, 359) * 3.14159265358979323846 / 180.0;
                ss.direction = {{std::cos(phi), std::sin(phi), 0}};
              }
            else
              {
                ss.direction = {{double(c.integer(0, 6) - 3),
                                 double(c.integer(0, 6) - 3),
                                 0}};
                if (ss.direction[0] == 0 && ss.direction[1] == 0)
                  ss.direction[0] = 1;
              }
            const double sgn = c.boolean() ? -1.0 : 1.0;
            ss.normal = {{-sgn * ss.direction[1], sgn * ss.direction[0], 0}};
          }
        else
          {
            // integer vectors: the scalar product is exactly zero
            V3 a0 = {{double(c.integer(0, 4) - 2),
                      double(c.integer(0, 4) - 2),
                      double(c.integer(0, 4) - 2)}};
            if (dot(a0, a0) == 0)
              a0 = {{1, 0, 0}};
            V3 b0 = {{double(c.integer(0, 4) - 2),
                      double(c.integer(0, 4) - 2),
                      double(c.integer(0, 4) - 2)}};
            V3 n0 = cross(a0, b0);
            if (dot(n0, n0) == 0)
              n0 = cross(a0, V3{{0, 0, 1}});
            if (dot(n0, n0) == 0)
              n0 = cross(a0, V3{{0, 1, 0}});
            ss.direction = a0;
            ss.normal    = n0;
          }
        spec.slips.push_back(ss);
      }
    for (unsigned k = 0; k < n_crystals; ++k)
      {
        V3 a = zero3();
        for (int i = 0; i < (dim == 2 ? 1 : 3); ++i)
          a[i] = nice_angles || c.chance(1, 2) ? c.integer(0, 24) * 15.0 :
                                                 c.real(-360, 360);
        spec.angles.push_back(a);
      }
    return spec;
  }

  inline void describe(pbt::Case &c, const CrystalSpec &s)
  {
    std::ostringstream o;
    o << s.dim << "d angles";
    for (const auto &a : s.angles)
      {
        o << " (" << a[0];
        if (s.dim == 3)
          o << "," << a[1] << "," << a[2];
        o << ")";
      }
    o << " slips";
    for (const auto &ss : s.slips)
      o << " [" << ss.direction[0] << "," << ss.direction[1] << ","
        << ss.direction[2] << "|" << ss.normal[0] << "," << ss.normal[1] << ","
        << ss.normal[2] << "]";
    c.note("crystals", "{" + o.str() + "}");
  }

  // the three input files; returns the common stem
  inline std::string write_crystal_files(const CrystalSpec &s,
                                         const std::string &stem)
  {
    std::ofstream e(stem + "_angles.txt"), d(stem + "_dirs.txt"),
      n(stem + "_normals.txt");
    auto row = [&](std::ofstream &o, const V3 &v, const int nc) {
      for (int i = 0; i < nc; ++i)
        o << (i ? "," : "") << num(v[i]);
      o << "\n";
    };
    for (const auto &a : s.angles)
      row(e, a, s.dim == 2 ? 1 : 3);
    for (const auto &ss : s.slips)
      {
        row(d, ss.direction, s.dim);
        row(n, ss.normal, s.dim);
      }
    return stem;
  }

  // a strip of n cells, one crystal each
  template <int dim>
  void strip_mesh(dealii::Triangulation<dim> &tria, const unsigned n)
  {
    std::vector<unsigned int> rep(dim, 1);
    rep[0] = n;
    dealii::Point<dim> p, q;
    for (int i = 0; i < dim; ++i)
      q[i] = 1.0;
    q[0] = n;
    dealii::GridGenerator::subdivided_hyper_rectangle(tria, rep, p, q);
    unsigned k = 0;
    for (const auto &cell : tria.active_cell_iterators())
      cell->set_material_id(k++);
  }

  template <int dim>
  std::shared_ptr<gCP::CrystalsData<dim>>
  make_crystals(const CrystalSpec &s)
  {
    dealii::Triangulation<dim> tria;
    strip_mesh(tria, s.n_crystals());
    const std::string stem =
      write_crystal_files(s, pbt::scratch() + "/crystal");
    auto d = std::make_shared<gCP::CrystalsData<dim>>();
    d->init(tria, stem + "_angles", stem + "_dirs", stem + "_normals");
    return d;
  }
} // namespace vf
#endif
