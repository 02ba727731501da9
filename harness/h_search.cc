// P11: the line search, by itself and inside the solver.
#include "problem_std.h"
#include "loading.h"

#include <gCP/line_search.h>

#include <fstream>

using namespace vf;

namespace
{
  using gCP::LineSearch;
  typedef long double LD;

  struct Settings
  {
    double   alpha = 1e-4;
    unsigned n_max = 15;
  };

  LineSearch make(pbt::Case &c, Settings &s)
  {
    if (c.chance(1, 6))
      return LineSearch();
    s.alpha = c.pick<double>({1e-4, 1e-3, 0.05, 0.25, 0.4, 0.0});
    s.n_max = c.integer(0, 25);
    RTP::LineSearchParameters p;
    p.alpha            = s.alpha;
    p.beta             = c.real(0.5, 1);
    p.n_max_iterations = s.n_max;
    return LineSearch(p);
  }

  // minimiser of the cubic through value and slope at zero and two values
  struct Cubic
  {
    LD a, b, d, phi0;
    Cubic(const LD phi0, const LD d, const LD l1, const LD p1, const LD l2, const LD p2)
      : d(d)
      , phi0(phi0)
    {
      const LD r1 = (p1 - phi0 - d * l1) / (l1 * l1),
               r2 = (p2 - phi0 - d * l2) / (l2 * l2);
      a = (r1 - r2) / (l1 - l2);
      b = r1 - a * l1;
    }
    LD operator()(const LD l) const
    {
      return phi0 + d * l + b * l * l + a * l * l * l;
    }
    // true if there is a local minimum at positive argument
    bool minimum(LD &l) const
    {
      const LD disc = b * b - 3 * a * d;
      if (disc < 0)
        return false;
      if (b > 0)
        l = -d / (b + std::sqrt(disc));
      else if (a != 0)
        l = (-b + std::sqrt(disc)) / (3 * a);
      else
        return false;
      return l > 0;
    }
  };

  void check_lambda(const unsigned k, const double lambda, const double phi0, const std::vector<std::pair<double, double>> &trials)
  {
    const double last = trials.back().first;
    const double lo = 0.1 * last, hi = 0.5 * last;
    PBT_CHECK(std::isfinite(lambda), "relaxation parameter " << lambda << " of backtracking " << k);
    PBT_CHECK(lambda >= lo * (1 - 1e-14) && lambda <= hi * (1 + 1e-14),
              "relaxation parameter " << lambda << " outside of [" << lo << ", " << hi << "], backtracking " << k);
    const LD d = -2 * LD(phi0);
    if (k == 0)
      {
        const LD m = -d / 2 / (LD(trials[0].second) - phi0 - d);
        double   e = double(m);
        e = !(e > lo) ? lo : e > hi ? hi : e;
        pbt::close(lambda, e, 1e-10, 0, "minimum of the quadratic model");
        return;
      }
    const auto &t1 = trials[k], &t2 = trials[k - 1];
    const Cubic m(phi0, d, t1.first, t1.second, t2.first, t2.second);
    LD          best;
    if (!m.minimum(best))
      return; // no minimum: anything within the limits
    best = best < lo ? LD(lo) : best > hi ? LD(hi) : best;
    // double precision: coefficients are relative to these magnitudes
    const LD size = std::fabs(LD(t1.second)) + std::fabs(LD(phi0)) +
                    (std::fabs(LD(t2.second)) + std::fabs(LD(phi0))) * (t1.first / t2.first) * (t1.first / t2.first);
    const LD excess = m(lambda) - m(best);
    // near the least argument of the cubic the model is flat: compare values
    PBT_CHECK(std::fabs(double(lambda - best)) <= 1e-6 * last || std::fabs(double(excess)) <= 1e-10 * size,
              "backtracking " << k << ": relaxation parameter " << lambda << ", minimum of the cubic model " << double(best)
                              << ", excess " << double(excess) << " of " << double(size));
  }

  // arbitrary values
  void interpolation(pbt::Case &c)
  {
    Settings   s;
    LineSearch l = make(c, s);
    const int  searches = c.integer(1, 3);
    for (int i = 0; i < searches; ++i)
      {
        const double r0 = c.logreal(1e-12, 1e6);
        const double phi0 = LineSearch::get_objective_function_value(r0);
        pbt::close(phi0, 0.5 * r0 * r0, 1e-14, 0, "objective function");
        l.reinit(phi0, i, c.integer(0, 5));
        PBT_CHECK(l.get_n_iterations() == 0, "counter after reinit");
        double lambda = 1;
        std::vector<std::pair<double, double>> trials;
        bool     accepted = false;
        // sometimes the search is abandoned
        const unsigned stop = c.chance(1, 4) ? c.integer(0, 4) : s.n_max + 1;
        for (unsigned k = 0; k <= s.n_max + 1; ++k)
          {
            const double limit = (1 - 2 * s.alpha * lambda);
            double       f;
            switch (c.integer(0, 3))
              {
                case 0:
                  f = c.logreal(1e-3, 1e3);
                  break;
                case 1:
                  f = limit * (1 + c.pick<double>({1e-9, -1e-9, 1e-3, -1e-3}));
                  break;
                case 2:
                  f = 1 + c.logreal(1e-6, 1e6);
                  break;
                default:
                  f = 1 + c.real(-0.1, 2);
              }
            const double phi = f * phi0;
            const bool   ok  = l.suficient_descent_condition(phi, lambda);
            if (k > s.n_max)
              {
                PBT_CHECK(ok, "not accepted after " << k << " backtrackings, the limit is " << s.n_max);
                c.label("limit");
                accepted = true;
                break;
              }
            if (std::fabs(f - limit) > 1e-12)
              PBT_CHECK(ok == (f < limit), "trial value " << phi << " of " << phi0 << " at " << lambda << " with alpha " << s.alpha << (ok ? " accepted" : " rejected"));
            if (ok)
              {
                accepted = true;
                break;
              }
            if (k >= stop)
              break;
            trials.emplace_back(lambda, phi);
            lambda = l.get_lambda(phi, lambda);
            check_lambda(k, lambda, phi0, trials);
            PBT_CHECK(l.get_n_iterations() == k + 1, "counter of backtrackings");
            c.nontrivial(k >= 1);
          }
        (void)accepted;
      }
    c.note("alpha", s.alpha).note("n_max", s.n_max).note("searches", searches);
  }

  // a step to a balanced state from a balanced state is accepted
  void balanced(pbt::Case &c)
  {
    Settings   s;
    LineSearch l = make(c, s);
    l.reinit(0.0);
    PBT_CHECK(l.suficient_descent_condition(0.0, 1.0), "a step that stays at zero residual is rejected");
    l.reinit(1.0);
    PBT_CHECK(l.suficient_descent_condition(0.0, 1.0), "a step to zero residual is rejected");
  }

  // residuals of a scalar equation along its Newton direction: the search
  // ends with a sufficient decrease, and the iteration finds the root
  void newton(pbt::Case &c)
  {
    Settings s;
    s.alpha = c.pick<double>({1e-4, 1e-2, 0.1, 0.3});
    s.n_max = 40;
    RTP::LineSearchParameters p;
    p.alpha            = s.alpha;
    p.beta             = 0.9;
    p.n_max_iterations = s.n_max;
    LineSearch   l(p);
    const int    kind = c.integer(0, 3);
    const double k = c.logreal(0.1, 10), root = c.real(-2, 2), scale = c.logreal(1e-3, 1e3);
    auto g = [&](const double x) {
      const double z = k * (x - root);
      switch (kind)
        {
          case 0:
            return scale * std::atan(z);
          case 1:
            return scale * (z + 0.9 * std::sin(z));
          case 2:
            return scale * (z / std::sqrt(1 + z * z));
          default:
            return scale * (std::tanh(z) + 0.01 * z);
        }
    };
    auto dg = [&](const double x) {
      const double z = k * (x - root);
      switch (kind)
        {
          case 0:
            return scale * k / (1 + z * z);
          case 1:
            return scale * k * (1 + 0.9 * std::cos(z));
          case 2:
            return scale * k / std::pow(1 + z * z, 1.5);
          default:
            return scale * k * (1 / (std::cosh(z) * std::cosh(z)) + 0.01);
        }
    };
    double x = root + c.real(-6, 6) / k;
    c.note("kind", kind).note("k", k).note("start", k * (x - root)).note("alpha", s.alpha);
    unsigned it = 0;
    for (; it < 300; ++it)
      {
        const double r0 = g(x);
        if (std::fabs(r0) < 1e-10 * scale)
          break;
        const double step = -r0 / dg(x);
        const double phi0 = LineSearch::get_objective_function_value(r0);
        l.reinit(phi0, 0, it);
        double lambda = 1, r = g(x + step), phi = LineSearch::get_objective_function_value(r);
        std::vector<std::pair<double, double>> trials;
        while (!l.suficient_descent_condition(phi, lambda))
          {
            PBT_CHECK(trials.size() < s.n_max, "the search does not end");
            trials.emplace_back(lambda, phi);
            lambda = l.get_lambda(phi, lambda);
            check_lambda(trials.size() - 1, lambda, phi0, trials);
            r   = g(x + lambda * step);
            phi = LineSearch::get_objective_function_value(r);
            c.nontrivial();
          }
        PBT_CHECK(r * r <= r0 * r0 * (1 - 2 * s.alpha * lambda) * (1 + 1e-12), "accepted without a sufficient decrease: " << r << " after " << r0 << " with " << lambda);
        x += lambda * step;
      }
    PBT_CHECK(it < 300, "the root is not found, distance " << k * (x - root));
  }

  // the residual norms the solver logs decrease sufficiently
  struct Row
  {
    unsigned loop, n, k, l;
    char     section;
    double   ns, nu, ng, r, ru, rg;
  };
  std::vector<Row> read_log(const std::string &file)
  {
    std::vector<Row> rows;
    std::ifstream    in(file);
    std::string      line;
    unsigned         loop    = 0;
    char             section = 'm';
    while (std::getline(in, line))
      {
        if (line.find("Linear momentum") != std::string::npos)
          section = 'u', ++loop;
        else if (line.find("Pseudo-balance") != std::string::npos)
          section = 'g', ++loop;
        else if (line.find("Step") == 0)
          section = 'm', ++loop;
        std::istringstream is(line);
        Row                r;
        r.loop    = loop;
        r.section = section;
        if (is >> r.n >> r.k >> r.l >> r.ns >> r.nu >> r.ng >> r.r >> r.ru >> r.rg)
          rows.push_back(r);
      }
    return rows;
  }

  template <int dim>
  void solver(pbt::Case &c)
  {
    Draws d;
    d.max_cells              = 4;
    d.max_slips              = 2;
    d.allow_rate_independent = false;
    d.allow_decohesion       = false;
    LoadDraws l;
    l.max_steps  = 2;
    l.max_strain = 5;
    l.algorithms = {RTP::SolutionAlgorithm::Monolithic, RTP::SolutionAlgorithm::Bouncing};
    LoadCase<dim> s;
    Settings      set;
    const std::string dir = pbt::scratch() + "/search/";
    s.draw(c, d, l, [&] {
      // decreases of all the used searches are demanded
      set.alpha = c.pick<double>({0.3, 0.1, 1e-2, 1e-4, 0.45});
      set.n_max = c.integer(2, 12);
      auto put = [&](RTP::NonlinearSystemSolverParameters &q) {
        q.newton_parameters.flag_line_search     = true;
        q.line_search_parameters.alpha            = set.alpha;
        q.line_search_parameters.n_max_iterations = set.n_max;
      };
      put(s.p.prm.monolithic_algorithm_parameters.monolithic_system_solver_parameters);
      put(s.p.prm.staggered_algorithm_parameters.linear_momentum_solver_parameters);
      put(s.p.prm.staggered_algorithm_parameters.pseudo_balance_solver_parameters);
      // loads that let Newton's method overshoot
      s.p.prm.constitutive_laws_parameters.scalar_microstress_law_parameters.regularization_parameter = c.logreal(1e-3, 1);
    });
    const std::string file = s.p.prm.logger_output_directory + "nonlinear_solver_log.txt";
    c.note("alpha", set.alpha).note("n_max", set.n_max);
    for (unsigned i = 0; i < s.load.size(); ++i)
      {
        if (!s.solve())
          break;
        s.accept();
      }
    const auto rows = read_log(file);
    PBT_CHECK(!rows.empty(), "no log of the nonlinear solver in " << file);
    for (unsigned i = 1; i < rows.size(); ++i)
      {
        const Row &a = rows[i - 1], &b = rows[i];
        if (b.n != a.n + 1 || a.loop != b.loop)
          continue;
        // the first residual of a momentum loop precedes the constraints
        if (b.section == 'u' && b.n == 1)
          continue;
        PBT_CHECK(b.l <= set.n_max + 1, b.l << " backtrackings, the limit is " << set.n_max);
        if (b.l > set.n_max)
          continue;
        const double before = b.section == 'm' ? a.r : b.section == 'u' ? a.ru : a.rg,
                     after  = b.section == 'm' ? b.r : b.section == 'u' ? b.ru : b.rg;
        // at least the factor of the smallest possible relaxation, and with
        // the largest one as the norm of the update is not known unrelaxed
        const double least = std::pow(0.1, double(b.l));
        if (before < 1e-12)
          continue;
        PBT_CHECK(after * after <= before * before * (1 - 2 * set.alpha * least) * (1 + 4e-6),
                  "iteration " << b.n << " with " << b.l << " backtrackings was accepted at the residual " << after << " after " << before << ", section " << b.section);
        if (b.l > 0)
          c.nontrivial();
        c.label(std::string("section ") + b.section + (b.l > 0 ? " backtracked" : ""));
      }
  }
} // namespace

PBT_PROPERTY("P11", "interpolation", 150) { interpolation(c); }
PBT_PROPERTY("P11", "balanced", 1) { balanced(c); }
PBT_PROPERTY("P11", "newton", 50) { newton(c); }
PBT_PROPERTY("P11", "solver-2d", 1) { solver<2>(c); }
