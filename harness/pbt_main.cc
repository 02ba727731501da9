#include "pbt.h"

#include <deal.II/base/exceptions.h>
#include <deal.II/base/mpi.h>
#include <deal.II/base/multithread_info.h>
#include <deal.II/base/utilities.h>

#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <iostream>
#include <unordered_set>

namespace pbt
{
  namespace
  {
    struct Sub
    {
      std::string id, name;
      Property    p;
      double      weight;
    };

    std::vector<Sub> &registry()
    {
      static std::vector<Sub> r;
      return r;
    }

    std::set<std::string> known_ids;
    std::string           scratch_dir = "/tmp";
    std::string           repo_dir    = "/repo";

    uint64_t splitmix(uint64_t &x)
    {
      x += 0x9E3779B97F4A7C15ull;
      uint64_t z = x;
      z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
      z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
      return z ^ (z >> 31);
    }

    uint64_t hash_string(const std::string &s)
    {
      uint64_t h = 1469598103934665603ull;
      for (const unsigned char ch : s)
        {
          h ^= ch;
          h *= 1099511628211ull;
        }
      return h;
    }

    std::string json_escape(const std::string &s)
    {
      std::string o;
      for (const char ch : s)
        {
          if (ch == '"' || ch == '\\')
            {
              o += '\\';
              o += ch;
            }
          else if (static_cast<unsigned char>(ch) < 0x20)
            o += ' ';
          else if (static_cast<unsigned char>(ch) > 0x7e)
            o += '?';
          else
            o += ch;
        }
      return o;
    }

    // crash handling: the choices drawn so far are the replay ---------------
    Case       *current      = nullptr;
    const Sub  *current_sub  = nullptr;
    std::string out_prefix;

    void write_replay(const std::string           &path,
                      const Sub                   &sub,
                      const std::vector<uint64_t> &choices,
                      const std::string           &message)
    {
      std::ofstream o(path);
      o << "property " << sub.id << "\n";
      o << "sub " << sub.name << "\n";
      o << "choices " << choices.size() << "\n";
      for (const auto ch : choices)
        o << ch << "\n";
      std::string m = message;
      std::replace(m.begin(), m.end(), '\n', ' ');
      o << "message " << m << "\n";
    }

    void on_signal(int sig)
    {
      signal(sig, SIG_DFL);
      if (current != nullptr && current_sub != nullptr)
        {
          // Not async-signal-safe in general, but the process is lost anyway.
          const char *name = (sig == SIGSEGV) ? "SIGSEGV" :
                             (sig == SIGFPE)  ? "SIGFPE" :
                             (sig == SIGABRT) ? "SIGABRT" :
                             (sig == SIGBUS)  ? "SIGBUS" :
                             (sig == SIGVTALRM) ? "no end (cpu time limit)" :
                                                "signal";
          write_replay(out_prefix + ".replay",
                       *current_sub,
                       current->recorded,
                       std::string("the code under test ended with ") + name +
                         "; case: " + current->description.str());
          _exit(1);
        }
      _exit(4);
    }

    void arm_cpu_limit(const long seconds)
    {
      itimerval t;
      std::memset(&t, 0, sizeof(t));
      t.it_value.tv_sec = seconds;
      setitimer(ITIMER_VIRTUAL, &t, nullptr);
    }

    enum class Outcome
    {
      pass,
      discard,
      fail
    };

    Outcome execute(const Sub &sub, Case &c, std::string &message)
    {
      current     = &c;
      current_sub = &sub;
      arm_cpu_limit(240);
      Outcome o = Outcome::pass;
      try
        {
          sub.p(c);
        }
      catch (const Discard &)
        {
          o = Outcome::discard;
        }
      catch (const Failure &f)
        {
          o       = Outcome::fail;
          message = f.message;
        }
      catch (const std::exception &e)
        {
          o       = Outcome::fail;
          message = std::string("unexpected exception: ") + e.what();
        }
      catch (...)
        {
          o       = Outcome::fail;
          message = "unexpected exception of unknown type";
        }
      arm_cpu_limit(0);
      current     = nullptr;
      current_sub = nullptr;
      return o;
    }

    double now()
    {
      timespec t;
      clock_gettime(CLOCK_MONOTONIC, &t);
      return t.tv_sec + 1e-9 * t.tv_nsec;
    }

    // Shrinks `choices` in place; keeps a failing case.
    void shrink(const Sub             &sub,
                std::vector<uint64_t> &choices,
                std::string           &message,
                const double           seconds)
    {
      const double end = now() + seconds;
      unsigned     executions = 0;

      // Leave a replay file behind in case shrinking runs into a crash.
      auto try_candidate = [&](const std::vector<uint64_t> &cand) -> bool {
        if (now() > end || executions > 4000)
          return false;
        ++executions;
        Case        c(cand);
        std::string m;
        if (execute(sub, c, m) == Outcome::fail)
          {
            // what was really consumed
            if (c.recorded.size() < choices.size() ||
                (c.recorded.size() == choices.size() && c.recorded < choices))
              {
                choices = c.recorded;
                message = m + "; case: " + c.description.str();
                return true;
              }
          }
        return false;
      };

      bool improved = true;
      while (improved && now() < end)
        {
          improved = false;
          // delete blocks
          for (size_t len : {64, 32, 16, 8, 4, 2, 1})
            for (size_t i = 0; i + len <= choices.size();)
              {
                std::vector<uint64_t> cand(choices);
                cand.erase(cand.begin() + i, cand.begin() + i + len);
                if (try_candidate(cand))
                  improved = true;
                else
                  i += std::max<size_t>(1, len / 2);
                if (now() > end)
                  return;
              }
          // zero blocks
          for (size_t len : {32, 8, 2, 1})
            for (size_t i = 0; i < choices.size(); i += len)
              {
                std::vector<uint64_t> cand(choices);
                bool                  change = false;
                for (size_t j = i; j < std::min(i + len, cand.size()); ++j)
                  {
                    change  = change || cand[j] != 0;
                    cand[j] = 0;
                  }
                if (change && try_candidate(cand))
                  improved = true;
                if (now() > end)
                  return;
              }
          // lower single choices
          for (size_t i = 0; i < choices.size(); ++i)
            {
              for (unsigned step = 0; step < 12; ++step)
                {
                  if (i >= choices.size() || choices[i] == 0)
                    break;
                  std::vector<uint64_t> cand(choices);
                  cand[i] = (step == 0) ? choices[i] / 2 : choices[i] - choices[i] / (1 + step) ;
                  if (cand[i] >= choices[i])
                    cand[i] = choices[i] - 1;
                  if (try_candidate(cand))
                    improved = true;
                  else if (step > 2)
                    break;
                }
              if (now() > end)
                return;
            }
        }
    }
  } // namespace

  Registration::Registration(const std::string &id,
                             const std::string &sub,
                             Property           p,
                             const double       weight)
  {
    registry().push_back({id, sub, p, weight});
  }

  uint64_t Case::draw(const uint64_t n)
  {
    uint64_t v = 0;
    if (replaying)
      {
        if (recorded.size() < given.size())
          v = given[recorded.size()];
        if (n != 0)
          v = std::min(v, n - 1);
      }
    else
      {
        v = splitmix(state);
        if (n != 0)
          v %= n;
      }
    recorded.push_back(v);
    if (recorded.size() > 200000)
      throw Discard();
    return v;
  }

  bool is_known_finding(const std::string &id) { return known_ids.count(id); }

  const std::string &scratch() { return scratch_dir; }
  std::string        repo() { return repo_dir; }

  std::string format(const double v)
  {
    char b[64];
    std::snprintf(b, sizeof(b), "%.10g", v);
    return b;
  }

  void close(const double       a,
             const double       b,
             const double       rel,
             const double       abs,
             const std::string &what)
  {
    const double tol = abs + rel * std::max(std::fabs(a), std::fabs(b));
    if (!(std::fabs(a - b) <= tol))
      {
        char buf[256];
        std::snprintf(buf,
                      sizeof(buf),
                      ": got %.17g, expected %.17g (difference %.3g, "
                      "tolerance %.3g)",
                      a,
                      b,
                      a - b,
                      tol);
        throw Failure{what + buf};
      }
  }

  Serve &serve()
  {
    static Serve s = nullptr;
    return s;
  }

  int run(int argc, char **argv)
  {
    bool as_server = false;
    std::string id, replay, only_sub;
    uint64_t    seed = 1, cases = 100, worker = 0, workers = 1;
    double      max_seconds = 1e9, shrink_seconds = 30;
    for (int i = 1; i < argc; ++i)
      {
        const std::string a = argv[i];
        auto              next = [&]() { return std::string(argv[++i]); };
        if (a == "--prop")
          id = next();
        else if (a == "--sub")
          only_sub = next();
        else if (a == "--seed")
          seed = std::stoull(next());
        else if (a == "--cases")
          cases = std::stoull(next());
        else if (a == "--worker")
          worker = std::stoull(next());
        else if (a == "--workers")
          workers = std::stoull(next());
        else if (a == "--max-seconds")
          max_seconds = std::stod(next());
        else if (a == "--shrink-seconds")
          shrink_seconds = std::stod(next());
        else if (a == "--out")
          out_prefix = next();
        else if (a == "--replay")
          replay = next();
        else if (a == "--known")
          known_ids.insert(next());
        else if (a == "--scratch")
          scratch_dir = next();
        else if (a == "--repo")
          repo_dir = next();
        else if (a == "--serve")
          as_server = true;
        else
          {
            std::cerr << "unknown argument " << a << std::endl;
            return 2;
          }
      }

    // The code under test prints; keep it away from our output.
    // never destroyed: static destructors still flush std::cout
    static std::ofstream &null_stream = *new std::ofstream("/dev/null");
    std::cout.rdbuf(null_stream.rdbuf());

    if (as_server)
      {
        scratch_dir += "/rank" + std::to_string(dealii::Utilities::MPI::this_mpi_process(MPI_COMM_WORLD));
        mkdir(scratch_dir.c_str(), 0755);
        return serve() ? serve()(scratch_dir) : 2;
      }

    if (!out_prefix.empty())
      std::ofstream(out_prefix + ".started") << "\n";

    for (const int s : {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL, SIGVTALRM})
      signal(s, on_signal);

    if (!replay.empty())
      {
        std::ifstream in(replay);
        std::string   key, rid, rsub;
        size_t        n = 0;
        in >> key >> rid >> key >> rsub >> key >> n;
        std::vector<uint64_t> choices(n);
        for (auto &ch : choices)
          in >> ch;
        for (const auto &s : registry())
          if (s.id == rid && s.name == rsub)
            {
              Case        c(choices);
              std::string m;
              const auto  o = execute(s, c, m);
              std::cerr << rid << "/" << rsub << ": "
                        << (o == Outcome::fail ? "FAIL " : "pass ") << m
                        << "\n  case: " << c.description.str() << std::endl;
              return o == Outcome::fail ? 1 : 0;
            }
        std::cerr << "no such property in this harness: " << rid << "/" << rsub
                  << std::endl;
        return 2;
      }

    std::vector<const Sub *> subs;
    for (const auto &s : registry())
      if (s.id == id && (only_sub.empty() || s.name == only_sub))
        subs.push_back(&s);
    if (subs.empty())
      {
        std::cerr << "no such property " << id << std::endl;
        return 2;
      }
    double total_weight = 0;
    for (const auto s : subs)
      total_weight += s->weight;

    const double                          start = now();
    uint64_t                              evaluations = 0, discards = 0, nontriv = 0;
    std::unordered_set<uint64_t>          distinct;
    std::map<std::string, uint64_t>       labels;
    std::map<std::string, uint64_t>       known_counts;
    std::map<std::string, std::string>    known_what;
    std::vector<std::string>              samples;
    bool                                  truncated = false;
    std::map<std::string, uint64_t>       sub_counts;

    auto write_stats = [&](const std::string &status) {
      std::ofstream o(out_prefix + ".json");
      o << "{\"status\":\"" << status << "\",\"evaluations\":" << evaluations
        << ",\"discards\":" << discards << ",\"nontrivial\":" << nontriv
        << ",\"distinct\":" << distinct.size()
        << ",\"truncated\":" << (truncated ? "true" : "false")
        << ",\"wall_s\":" << (now() - start) << ",\"labels\":{";
      bool first = true;
      for (const auto &l : labels)
        {
          o << (first ? "" : ",") << "\"" << json_escape(l.first)
            << "\":" << l.second;
          first = false;
        }
      o << "},\"subs\":{";
      first = true;
      for (const auto &l : sub_counts)
        {
          o << (first ? "" : ",") << "\"" << json_escape(l.first)
            << "\":" << l.second;
          first = false;
        }
      o << "},\"known\":{";
      first = true;
      for (const auto &l : known_counts)
        {
          o << (first ? "" : ",") << "\"" << json_escape(l.first)
            << "\":{\"count\":" << l.second << ",\"what\":\""
            << json_escape(known_what[l.first]) << "\"}";
          first = false;
        }
      o << "},\"samples\":[";
      first = true;
      for (const auto &l : samples)
        {
          o << (first ? "" : ",") << "\"" << json_escape(l) << "\"";
          first = false;
        }
      o << "]}\n";
    };

    // Subs take turns so that a time limit never starves one of them.
    struct Job
    {
      double     position;
      const Sub *sub;
      uint64_t   index;
    };
    std::vector<Job> jobs;
    for (const auto s : subs)
      {
        const uint64_t n = std::max<uint64_t>(
          1, static_cast<uint64_t>(std::ceil(cases * s->weight / total_weight)));
        for (uint64_t i = worker; i < n; i += workers)
          jobs.push_back({(i + 0.5) / n, s, i});
      }
    std::stable_sort(jobs.begin(), jobs.end(), [](const Job &a, const Job &b) {
      return a.position < b.position;
    });

    for (const auto &job : jobs)
      {
        if (now() - start > max_seconds)
          {
            truncated = true;
            break;
          }
        uint64_t s = seed * 0x9E3779B97F4A7C15ull ^
                     hash_string(job.sub->id + "/" + job.sub->name);
        s += job.index * 0xD1B54A32D192ED03ull;
        splitmix(s);
        Case        c(s);
        std::string m;
        const auto  o = execute(*job.sub, c, m);
        ++evaluations;
        ++sub_counts[job.sub->name];
        if (o == Outcome::discard)
          {
            ++discards;
            continue;
          }
        for (const auto &l : c.labels)
          ++labels[job.sub->name + ":" + l];
        for (const auto &k : c.known_hits)
          {
            ++known_counts[k.first];
            if (!known_what.count(k.first))
              known_what[k.first] = k.second;
          }
        if (o == Outcome::fail)
          {
            std::vector<uint64_t> choices = c.recorded;
            m += "; case: " + c.description.str();
            // A replay before shrinking, should shrinking itself crash.
            write_replay(out_prefix + ".first", *job.sub, choices, m);
            shrink(*job.sub, choices, m, shrink_seconds);
            write_replay(out_prefix + ".replay", *job.sub, choices, m);
            write_stats("fail");
            return 1;
          }
        if (c.is_nontrivial)
          {
            ++nontriv;
            uint64_t h = hash_string(job.sub->name);
            for (const auto ch : c.recorded)
              {
                h ^= ch + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
              }
            distinct.insert(h);
            if (samples.size() < 4 &&
                (samples.empty() || job.sub->name !=
                                      samples.back().substr(
                                        0, job.sub->name.size())))
              samples.push_back(job.sub->name + ": " +
                                c.description.str());
          }
      }
    write_stats("pass");
    return 0;
  }
} // namespace pbt

int main(int argc, char **argv)
{
  dealii::Utilities::MPI::MPI_InitFinalize mpi(
    argc,
    argv,
    std::getenv("VERIF_THREADS") ? std::atoi(std::getenv("VERIF_THREADS")) : 1);
  dealii::deal_II_exceptions::disable_abort_on_exception();
  const int r = pbt::run(argc, argv);
  return r;
}
