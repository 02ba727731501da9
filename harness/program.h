// The loading program of the strip problem, as documented.
#ifndef VERIF_PROGRAM_H
#define VERIF_PROGRAM_H

#include "pbt.h"

#include <cmath>
#include <sstream>
#include <string>

namespace vf
{
  struct Program
  {
    double   start = 0, max = 1, min = 0, T_mono = 1, T_load = 1, period = 1;
    unsigned n_mono = 1, n_load = 1, n_quarter = 1, n_cycles = 0;
    bool     cyclic = false, skip_unloading = true;

    double start_cyclic() const { return start + T_load; }
    double start_unloading() const { return start_cyclic() + n_cycles * period; }
    double end() const { return cyclic ? start_unloading() + (skip_unloading ? 0 : T_load) : start + T_mono; }
    unsigned steps() const { return cyclic ? n_load + 4 * n_quarter * n_cycles + (skip_unloading ? 0 : n_load) : n_mono; }
    double time(const unsigned k) const // after k steps
    {
      if (!cyclic)
        return start + T_mono * k / n_mono;
      if (k <= n_load)
        return start + T_load * k / n_load;
      const unsigned c = k - n_load, n = 4 * n_quarter * n_cycles;
      if (c <= n)
        return start_cyclic() + period * c / (4 * n_quarter);
      return start_unloading() + T_load * (c - n) / n_load;
    }
    // does the direction of the load change at the beginning of step k?
    bool turning(const unsigned k) const
    {
      if (!cyclic || k < n_load)
        return false;
      const unsigned c = k - n_load, n = 4 * n_quarter * n_cycles;
      if (c == 0 || c == n)
        return true;
      return c < n && (c % (4 * n_quarter) == n_quarter || c % (4 * n_quarter) == 3 * n_quarter);
    }
    // shear strain at a time
    double load(const double t) const
    {
      if (!cyclic)
        return t * max;
      const double mean = 0.5 * (max + min), amplitude = 0.5 * (max - min);
      if (t < start_cyclic())
        return mean * (t - start) / T_load;
      if (t < start_unloading())
        return mean + amplitude * std::sin(2 * M_PI * (t - start_cyclic()) / period);
      return mean * (1 - (t - start_unloading()) / T_load);
    }
  };

  inline Program draw_program(pbt::Case &c)
  {
    Program p;
    p.cyclic = c.chance(3, 4);
    if (c.chance(1, 3))
      p.start = c.real(0, 5);
    p.max       = c.chance(1, 4) ? 1.0 : c.logreal(1e-4, 10);
    p.min       = c.boolean() ? 0.0 : p.max * c.real(0, 0.9);
    auto duration = [&]() { return c.chance(1, 3) ? 1.0 : c.logreal(0.01, 20); };
    p.T_mono    = duration();
    p.n_mono    = c.integer(1, 40);
    p.T_load    = duration();
    p.n_load    = c.integer(1, 12);
    p.period    = duration();
    p.n_quarter = c.integer(1, 9);
    p.n_cycles  = c.integer(0, 4);
    p.skip_unloading = c.boolean();
    // what remains of a program is more than a small part of a step:
    // DiscreteTime joins the end with a step that nearly reaches it
    if (p.cyclic)
      for (unsigned k = 0; k + 1 < p.steps(); ++k)
        if (p.end() - p.time(k + 1) < 0.1 * (p.time(k + 1) - p.time(k)))
          c.discard();
    c.note("cyclic", p.cyclic).note("start", p.start).note("max", p.max).note("min", p.min);
    if (p.cyclic)
      c.note("T_load", p.T_load).note("n_load", p.n_load).note("period", p.period).note("n_quarter", p.n_quarter).note("n_cycles", p.n_cycles).note("skip", p.skip_unloading);
    else
      c.note("T", p.T_mono).note("n", p.n_mono);
    c.label(p.cyclic ? (p.skip_unloading ? "cyclic" : "cyclic with unloading") : "monotonic");
    c.nontrivial(p.cyclic ? p.n_cycles > 0 && p.n_load > 1 : p.n_mono > 1);
    return p;
  }

  inline std::string number(const double x)
  {
    std::ostringstream o;
    o.precision(17);
    o << x;
    return o.str();
  }
} // namespace vf
#endif
