// Small property-based testing engine.
//
// A test case is a function of a sequence of 64-bit choices.  Random cases
// draw the choices from a seeded generator; a replay file is the list of
// choices; shrinking deletes, zeroes and lowers choices while the property
// keeps failing.  All randomness of a property goes through Case::draw(), so
// every run is a pure function of (code, seed, case index).
#ifndef VERIF_PBT_H
#define VERIF_PBT_H

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt
{
  struct Discard
  {};

  struct Failure
  {
    std::string message;
  };

  class Case
  {
  public:
    // random case
    explicit Case(const uint64_t seed)
      : state(seed)
      , replaying(false)
    {}

    // replayed case; missing choices read as zero (the simplest choice)
    explicit Case(const std::vector<uint64_t> &choices)
      : given(choices)
      , state(0)
      , replaying(true)
    {}

    // uniform in [0, n)
    uint64_t draw(const uint64_t n);

    // uniform integer in [lo, hi]
    int integer(const int lo, const int hi)
    {
      return lo + static_cast<int>(draw(static_cast<uint64_t>(hi - lo) + 1));
    }

    bool boolean() { return draw(2) == 1; }

    // true with probability num/den; false is the simple value
    bool chance(const unsigned num, const unsigned den)
    {
      return draw(den) >= den - num;
    }

    // uniform on a fine grid in [lo, hi]
    double real(const double lo, const double hi)
    {
      const uint64_t N = uint64_t(1) << 40;
      return lo + (hi - lo) * (static_cast<double>(draw(N + 1)) /
                               static_cast<double>(N));
    }

    // log-uniform in [lo, hi], both positive
    double logreal(const double lo, const double hi)
    {
      return std::exp(real(std::log(lo), std::log(hi)));
    }

    // signed magnitude: zero sometimes, otherwise +/- loguniform
    double signed_log(const double lo,
                      const double hi,
                      const unsigned zero_in = 12)
    {
      if (zero_in && draw(zero_in) == 0)
        return 0.0;
      const double m = logreal(lo, hi);
      return boolean() ? -m : m;
    }

    template <typename T>
    T pick(const std::vector<T> &v)
    {
      return v[draw(v.size())];
    }

    void discard() { throw Discard(); }

    // bookkeeping --------------------------------------------------------
    void nontrivial(const bool b = true) { is_nontrivial = is_nontrivial || b; }
    void label(const std::string &l) { labels.insert(l); }
    template <typename T>
    Case &note(const std::string &name, const T &value)
    {
      if (description.tellp() < 1200)
        description << name << "=" << value << " ";
      return *this;
    }
    void known(const std::string &id, const std::string &what)
    {
      known_hits.emplace(id, what);
    }

    std::vector<uint64_t>           given;
    std::vector<uint64_t>           recorded;
    uint64_t                        state;
    bool                            replaying;
    bool                            is_nontrivial = false;
    std::set<std::string>           labels;
    std::ostringstream              description;
    std::map<std::string, std::string> known_hits;
  };

  using Property = std::function<void(Case &)>;

  struct Registration
  {
    Registration(const std::string &id,
                 const std::string &sub,
                 Property           p,
                 const double       weight);
  };

  // Known finding ids given on the command line.
  bool is_known_finding(const std::string &id);

  // Scratch directory of this process (removed by the driver).
  const std::string &scratch();
  std::string repo();

  // what a group of processes does that was started to answer requests
  using Serve = int (*)(const std::string &scratch);
  Serve &serve();

  // called by main()
  int run(int argc, char **argv);

  std::string format(const double v);

  inline void fail(const std::string &m) { throw Failure{m}; }

  // Fails unless |a-b| <= tol_abs + tol_rel*max(|a|,|b|), NaN never passes.
  void close(const double       a,
             const double       b,
             const double       rel,
             const double       abs,
             const std::string &what);
} // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)

// PBT_PROPERTY("P01", "name", weight) { ... uses Case &c ... }
#define PBT_PROPERTY(ID, SUB, WEIGHT)                                       \
  static void PBT_CAT(pbt_prop_, __LINE__)(pbt::Case & c);                  \
  static pbt::Registration PBT_CAT(pbt_reg_, __LINE__)(                     \
    ID, SUB, PBT_CAT(pbt_prop_, __LINE__), WEIGHT);                         \
  static void PBT_CAT(pbt_prop_, __LINE__)(pbt::Case & c)

#define PBT_CHECK(COND, MSG)                                                \
  do                                                                        \
    {                                                                       \
      if (!(COND))                                                          \
        {                                                                   \
          std::ostringstream pbt_os;                                        \
          pbt_os << MSG << "   [" #COND "]";                                \
          throw pbt::Failure{pbt_os.str()};                                 \
        }                                                                   \
    }                                                                       \
  while (false)

#endif
