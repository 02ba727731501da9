// A group of processes started with mpirun, which stays alive and answers
// requests: the choices of a case in, numbers of every process out.
#ifndef VERIF_MPI_GROUP_H
#define VERIF_MPI_GROUP_H

#include "pbt.h"

#include <deal.II/base/mpi.h>

#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

extern char **environ;

namespace vf
{
  class MpiGroup
  {
  public:
    using Answer = std::function<std::vector<double>(int, const std::vector<uint64_t> &, unsigned)>;
    static Answer &answer()
    {
      static Answer a;
      return a;
    }

    static MpiGroup &of(const unsigned n)
    {
      static std::map<unsigned, MpiGroup> all;
      auto &g = all[n];
      g.n     = n;
      return g;
    }

    ~MpiGroup() { stop(); }

    // empty, or what went wrong
    std::string ask(const int dim, const std::vector<uint64_t> &choices, std::vector<double> &reply)
    {
      if (pid <= 0)
        start();
      const std::string base = dir + "/request" + std::to_string(++count);
      {
        std::ofstream o(base);
        o << dim << " " << choices.size();
        for (const auto x : choices)
          o << " " << x;
        o << "\n";
      }
      const std::string line = base + "\n";
      if (write(to, line.data(), line.size()) != ssize_t(line.size()))
        return died();
      const double patience = 150;
      const auto   begin    = now();
      while (access((base + ".done").c_str(), F_OK) != 0)
        {
          int s;
          if (waitpid(pid, &s, WNOHANG) == pid)
            {
              pid = -1;
              return died();
            }
          if (now() - begin > patience)
            {
              stop();
              return "no answer within " + std::to_string(int(patience)) + " seconds";
            }
          usleep(2000);
        }
      std::ifstream in(base + ".done", std::ios::binary);
      in.seekg(0, std::ios::end);
      reply.resize(in.tellg() / sizeof(double));
      in.seekg(0);
      in.read(reinterpret_cast<char *>(reply.data()), reply.size() * sizeof(double));
      unlink(base.c_str());
      unlink((base + ".done").c_str());
      return "";
    }

    // the other side: all processes of the group
    static int serve(const std::string &scratch)
    {
      const unsigned rank = dealii::Utilities::MPI::this_mpi_process(MPI_COMM_WORLD),
                     n    = dealii::Utilities::MPI::n_mpi_processes(MPI_COMM_WORLD);
      (void)scratch;
      std::string line;
      while (true)
        {
          // waiting processes sleep
          if (rank == 0 && !std::getline(std::cin, line))
            line = "";
          unsigned    size = line.size();
          MPI_Request r;
          MPI_Ibcast(&size, 1, MPI_UNSIGNED, 0, MPI_COMM_WORLD, &r);
          int done = 0;
          while (MPI_Test(&r, &done, MPI_STATUS_IGNORE), !done)
            usleep(500);
          if (size == 0)
            return 0;
          line.resize(size);
          MPI_Bcast(&line[0], size, MPI_CHAR, 0, MPI_COMM_WORLD);
          std::ifstream         in(line);
          int                   dim;
          std::size_t           m;
          in >> dim >> m;
          std::vector<uint64_t> choices(m);
          for (auto &x : choices)
            in >> x;
          std::vector<double> mine;
          try
            {
              mine = answer()(dim, choices, n);
            }
          catch (const std::exception &e)
            {
              std::cerr << "process " << rank << ": " << e.what() << std::endl;
              MPI_Abort(MPI_COMM_WORLD, 3);
            }
          catch (...)
            {
              std::cerr << "process " << rank << ": failed" << std::endl;
              MPI_Abort(MPI_COMM_WORLD, 4);
            }
          const auto all = dealii::Utilities::MPI::gather(MPI_COMM_WORLD, mine, 0);
          if (rank == 0)
            {
              {
                std::ofstream o(line + ".tmp", std::ios::binary);
                for (const auto &v : all)
                  o.write(reinterpret_cast<const char *>(v.data()), v.size() * sizeof(double));
              }
              rename((line + ".tmp").c_str(), (line + ".done").c_str());
            }
        }
    }

  private:
    static double now()
    {
      timespec t;
      clock_gettime(CLOCK_MONOTONIC, &t);
      return t.tv_sec + 1e-9 * t.tv_nsec;
    }

    void start()
    {
      dir = pbt::scratch() + "/group" + std::to_string(n);
      mkdir(dir.c_str(), 0755);
      int fd[2];
      if (pipe(fd) != 0)
        throw std::runtime_error("pipe");
      fcntl(fd[1], F_SETFD, FD_CLOEXEC);
      signal(SIGPIPE, SIG_IGN);
      // without what the MPI of this process has put there
      std::vector<std::string> keep;
      for (char **e = environ; *e; ++e)
        {
          const std::string s = *e;
          if ((s.compare(0, 5, "OMPI_") != 0 && s.compare(0, 5, "PMIX_") != 0 && s.compare(0, 4, "OPAL") != 0 && s.compare(0, 5, "ORTE_") != 0))
            keep.push_back(s);
        }
      for (const char *s : {"OMPI_ALLOW_RUN_AS_ROOT=1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1", "OMPI_MCA_btl=self,vader,tcp",
                            "OMPI_MCA_rmaps_base_oversubscribe=1", "OMPI_MCA_hwloc_base_binding_policy=none", "OMPI_MCA_mpi_yield_when_idle=1"})
        keep.push_back(s);
      std::vector<char *> env;
      for (auto &s : keep)
        env.push_back(&s[0]);
      env.push_back(nullptr);
      char self[4096] = {0};
      if (readlink("/proc/self/exe", self, sizeof(self) - 1) <= 0)
        throw std::runtime_error("own path");
      const std::string number = std::to_string(n), log = dir + "/log", repository = pbt::repo();
      const char       *args[] = {"mpirun", "-np", number.c_str(), "--oversubscribe", self, "--serve", "--scratch", dir.c_str(), "--repo", repository.c_str(), nullptr};
      pid = fork();
      if (pid == 0)
        {
          prctl(PR_SET_PDEATHSIG, SIGTERM);
          setpgid(0, 0);
          dup2(fd[0], 0);
          const int out = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
          dup2(out, 1);
          dup2(out, 2);
          execve("/usr/bin/mpirun", const_cast<char **>(args), env.data());
          _exit(127);
        }
      close(fd[0]);
      to = fd[1];
    }

    std::string died()
    {
      stop();
      std::ifstream in(dir + "/log");
      std::string   text((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
      std::string   last;
      for (const char *key : {"violated condition was", "process ", "xception", "rror", "ignal"})
        {
          const auto i = text.find(key);
          if (i != std::string::npos)
            {
              last = text.substr(i, 300);
              break;
            }
        }
      for (char &ch : last)
        if (ch == '\n')
          ch = ' ';
      return "the processes ended: " + last;
    }

    void stop()
    {
      if (to >= 0)
        close(to);
      to = -1;
      if (pid > 0)
        {
          int s;
          for (int i = 0; i < 200; ++i)
            {
              if (waitpid(pid, &s, WNOHANG) == pid)
                {
                  pid = -1;
                  return;
                }
              if (i == 100)
                kill(-pid, SIGTERM);
              usleep(10000);
            }
          kill(-pid, SIGKILL);
          waitpid(pid, &s, 0);
          pid = -1;
        }
    }

    unsigned    n = 0, count = 0;
    int         to = -1;
    pid_t       pid = -1;
    std::string dir;
  };
} // namespace vf
#endif
