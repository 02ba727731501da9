// P24: what the solver reports about its iterations.
#include "problem_std.h"
#include "loading.h"

using namespace vf;

namespace
{
  struct Row
  {
    int    n, k, l;
    double ns, ns_u, ns_g, r, r_u, r_g, rate;
  };
  // rows between two messages
  struct Section
  {
    std::string      title;
    std::vector<Row> rows;
  };
  struct StepLog
  {
    std::string          header, columns;
    std::vector<Section> sections;
  };

  std::vector<StepLog> read_log(const std::string &file)
  {
    std::vector<StepLog> steps;
    std::ifstream        in(file);
    std::string          line;
    while (std::getline(in, line))
      {
        std::istringstream       is(line);
        std::vector<std::string> words;
        std::string              w;
        while (is >> w)
          words.push_back(w);
        if (words.empty())
          continue;
        if (words[0] == "Step")
          {
            steps.push_back({line, "", {Section()}});
            continue;
          }
        PBT_CHECK(!steps.empty(), "the log starts with '" << line << "'");
        if (words[0] == "N-Itr")
          {
            for (const auto &s : words)
              steps.back().columns += s + " ";
            continue;
          }
        if (words.size() == 10 && line.find_first_not_of(" 0123456789.eE+-nainf") == std::string::npos)
          {
            Row r;
            r.n = std::stoi(words[0]);
            r.k = std::stoi(words[1]);
            r.l = std::stoi(words[2]);
            double *v[] = {&r.ns, &r.ns_u, &r.ns_g, &r.r, &r.r_u, &r.r_g, &r.rate};
            for (int i = 0; i < 7; ++i)
              *v[i] = std::stod(words[3 + i]);
            steps.back().sections.back().rows.push_back(r);
            continue;
          }
        steps.back().sections.push_back({line, {}});
      }
    return steps;
  }

  // seven digits are printed
  void same(const double shown, const double wanted, const double abs, const std::string &what)
  {
    pbt::close(shown, wanted, 1e-6, abs, what);
  }

  double rate(const double now, const double before)
  {
    return now <= 0 || before <= 0 || before == 1 ? 0.0 : std::log(now) / std::log(before);
  }
  // the logarithms of rounded numbers
  void check_rate(const double shown, const double now, const double before, const std::string &what)
  {
    if (now < 1e-290 || before < 1e-290 || std::abs(std::log(before)) < 1e-3)
      return;
    const double wanted = rate(now, before);
    pbt::close(shown, wanted, 1e-3, 1e-3 + 2e-6 * (1 + std::abs(wanted)) / std::abs(std::log(before)), what);
  }

  template <int dim>
  void log_rows(pbt::Case &c)
  {
    Draws d;
    d.max_cells              = dim == 2 ? 4 : 2;
    d.max_slips              = dim == 2 ? 3 : 2;
    d.allow_rate_independent = false;
    d.allow_decohesion       = c.chance(1, 3);
    d.min_slips_zero         = c.chance(1, 12);
    LoadDraws l;
    LoadCase<dim> s;
    double micro_tolerance = 0;
    s.draw(c, d, l, [&] {
      auto &st = s.p.prm.staggered_algorithm_parameters;
      const double f = c.pick<double>({1.0, 10.0, 100.0});
      micro_tolerance = st.pseudo_balance_solver_parameters.newton_parameters.absolute_tolerance = s.tolerance * f;
      if (s.p.layout.decohesion && s.p.prm.solution_algorithm != RTP::SolutionAlgorithm::Monolithic)
        s.set_algorithm(RTP::SolutionAlgorithm::Monolithic);
      s.max_iterations = c.pick<int>({20, 12, 30});
      auto &m = s.p.prm.monolithic_algorithm_parameters.monolithic_system_solver_parameters;
      m.newton_parameters.n_max_iterations = s.max_iterations;
      st.linear_momentum_solver_parameters.newton_parameters.n_max_iterations = s.max_iterations;
      st.pseudo_balance_solver_parameters.newton_parameters.n_max_iterations  = s.max_iterations;
      if (c.chance(1, 4))
        s.krylov(c);
    });
    const auto algorithm = s.p.prm.solution_algorithm;
    const bool mono = algorithm == RTP::SolutionAlgorithm::Monolithic,
               bouncing = algorithm == RTP::SolutionAlgorithm::Bouncing;
    c.label(mono ? "monolithic" : bouncing ? "bouncing" : "embracing");
    const auto &mp = s.p.prm.monolithic_algorithm_parameters.monolithic_system_solver_parameters;
    const auto &up = s.p.prm.staggered_algorithm_parameters.linear_momentum_solver_parameters;
    const auto &gp = s.p.prm.staggered_algorithm_parameters.pseudo_balance_solver_parameters;

    struct TableRow { double step, iterations, mono; };
    std::vector<TableRow> table;

    const bool            varying = c.chance(1, 3);
    if (varying)
      c.label("varying step size");
    double                largest = 0; // residual of the case
    for (unsigned i = 0; i < s.load.size(); ++i)
      {
        const double previous = s.dt;
        if (varying)
          s.vary(c);
        const bool skip = c.chance(1, 3);
        const auto old = s.old_solution(), oldold = Problem<dim>::read(s.p.field->old_old_solution);
        // the documented start of the step
        dealii::Vector<double> x0 = old;
        if (!(skip || s.p.prm.flag_skip_extrapolation))
          {
            const double q = i == 0 ? 1.0 : s.p.prm.extrapolation_factor * s.dt / previous;
            for (unsigned j = 0; j < x0.size(); ++j)
              x0(j) += q * (old(j) - oldold(j));
          }
        const bool ok = s.solve(skip);
        const auto log = read_log(pbt::scratch() + "/nonlinear_solver_log.txt");
        PBT_CHECK(log.size() == i + 1, log.size() << " steps in the log after step " << i + 1);
        // the header
        int    number = 0;
        double t = 0, dt = 0;
        const StepLog &now = log.back();
        PBT_CHECK(std::sscanf(now.header.c_str(), "Step %d: Solving for t = %lf with dt = %lf", &number, &t, &dt) == 3,
                  "unexpected header '" << now.header << "'");
        PBT_CHECK(number == int(i) + 1, "header of step " << number << " in step " << i + 1);
        pbt::close(t, s.start + s.dt, 1e-6, 1.1e-6, "time in the header");
        pbt::close(dt, s.dt, 1e-6, 1.1e-6, "step size in the header");
        PBT_CHECK(now.columns == "N-Itr K-Itr L-Itr (NS)_L2 (NS_U)_L2 (NS_G)_L2 (R)_L2 (R_U)_L2 (R_G)_L2 C-Rate ",
                  "columns '" << now.columns << "'");
        const auto x = s.solution();

        // the rows by themselves
        for (const auto &sec : now.sections)
          for (const auto &r : sec.rows)
            {
              same(r.r, std::hypot(r.r_u, r.r_g), 1e-300, "(R)_L2 against its parts");
              same(r.ns, std::hypot(r.ns_u, r.ns_g), 1e-300, "(NS)_L2 against its parts");
            }
        // all rows in order, with the balance they belong to: -1 both, 0
        // displacements, 1 slips
        struct Tagged { Row r; int tag; bool start; };
        std::vector<Tagged> rows;
        int micro_loops = 0, macro_rows = 0;
        bool in_micro = false;
        for (const auto &sec : now.sections)
          {
            if (bouncing && sec.title.find("Pseudo-balance") != std::string::npos)
              {
                in_micro = true;
                ++micro_loops;
              }
            if (bouncing && sec.title.find("Linear momentum balance") != std::string::npos)
              in_micro = false;
            if (!mono && !bouncing)
              in_micro = sec.title.find("Microloop") != std::string::npos;
            for (const auto &r : sec.rows)
              {
                rows.push_back({r, mono ? -1 : int(in_micro), r.n == 0});
                if (!in_micro && r.n > 0)
                  ++macro_rows;
              }
          }
        PBT_CHECK(!rows.empty(), "no iteration in the log of step " << i + 1);
        for (const auto &q : rows)
          largest = std::max(largest, q.r.r);
        PBT_CHECK(rows[0].r.n == 0, "the first row is numbered " << rows[0].r.n);
        const bool last_is_summary = ok && !mono && !bouncing;
        double sum[2] = {0, 0};
        double first_ns = -1;
        int    expected_macro = 0, expected = 0;
        const Row *last_macro = nullptr; // embracing
        for (unsigned k = 0; k < rows.size(); ++k)
          {
            const auto       &r   = rows[k].r;
            const std::string at  = ", row " + std::to_string(k) + " of step " + std::to_string(i + 1);
            const int         tag = rows[k].tag;
            const auto       &prm = tag < 0 ? mp : tag == 0 ? up : gp;
            if (last_is_summary && k + 1 == rows.size())
              {
                PBT_CHECK(r.n == 0 && tag == 0, "last row of the embracing algorithm" << at);
                break;
              }
            // numbering
            const bool embracing_macro = !mono && !bouncing && tag == 0;
            int       &e = embracing_macro ? expected_macro : expected;
            if (r.n == 0)
              {
                if (mono || embracing_macro)
                  PBT_CHECK(k == 0, "the iterations start over" << at);
                e = 1;
                PBT_CHECK(r.k == 0 && r.l == 0 && r.ns == 0 && r.rate == 0, "row of the start with iterations" << at);
                if (embracing_macro)
                  last_macro = &rows[k].r;
                // no iteration lies between the last row and this one
                if (k > 0 && rows[k - 1].tag != tag && !(tag == 1 && s.p.prm.staggered_algorithm_parameters.flag_reset_trial_solution_at_micro_loop))
                  {
                    pbt::close(r.r_u, rows[k - 1].r.r_u, 1e-5, 1e-9 * s.tolerance + 1e-12 * (1 + largest), "R_U at the start of the loop" + at);
                    pbt::close(r.r_g, rows[k - 1].r.r_g, 1e-5, 1e-9 * s.tolerance + 1e-12 * (1 + largest), "R_G at the start of the loop" + at);
                  }
                continue;
              }
            PBT_CHECK(r.n == e, "row numbered " << r.n << " instead of " << e << at);
            ++e;
            PBT_CHECK(r.n <= s.max_iterations, "more iterations than allowed" << at);
            // the linear solver
            if (prm.krylov_parameters.solver_type == RTP::SolverType::DirectSolver && !embracing_macro)
              PBT_CHECK(r.k == 0, r.k << " iterations of a direct solver" << at);
            PBT_CHECK(r.k >= 0 && r.k <= int(prm.krylov_parameters.n_max_iterations), r.k << " iterations of the linear solver" << at);
            // the line search
            const int l_max = prm.line_search_parameters.n_max_iterations;
            PBT_CHECK(r.l >= 0 && r.l <= (prm.newton_parameters.flag_line_search ? l_max + 1 : 0), r.l << " line search iterations" << at);
            PBT_CHECK(k > 0, "row without a start");
            const Row    &b      = rows[k - 1].r;
            auto          value  = [&](const Row &q) { return tag < 0 ? q.r : tag == 0 ? q.r_u : q.r_g; };
            // a step accepted by the line search descends
            if (prm.newton_parameters.flag_line_search && r.l <= l_max)
              PBT_CHECK(value(r) <= value(b) * (1 + 1e-5) + 1e-12 * (1 + largest), "residual grows from " << value(b) << " to " << value(r) << " past a line search" << at);
            // the rate
            if (embracing_macro)
              {
                check_rate(r.rate, r.r_u, last_macro->r_u, "C-Rate" + at);
                last_macro = &rows[k].r;
              }
            else
              check_rate(r.rate, value(r), value(b), "C-Rate" + at);
            // convergence ends the loop
            const bool last_of_loop = k + 1 == rows.size() || rows[k + 1].start || rows[k + 1].tag != tag;
            if (!embracing_macro)
              {
                const double tol = tag == 1 ? micro_tolerance : s.tolerance;
                if (ok || k + 1 < rows.size())
                  PBT_CHECK(last_of_loop ? value(r) <= tol * (1 + 1e-5) : value(r) >= tol * (1 - 1e-5),
                            "residual " << value(r) << " with the tolerance " << tol << (last_of_loop ? " at the end of the loop" : " followed by another iteration") << at);
              }
            if (tag != 1)
              sum[0] += r.ns_u;
            if (tag != 0)
              sum[1] += r.ns_g;
            if (first_ns < 0)
              first_ns = tag < 0 ? r.ns : -1;
          }
        if (!ok)
          {
            c.label("gave up");
            return;
          }
        // the first and the last row against the independent balance
        {
          dealii::Vector<double> start = x0;
          if (!bouncing)
            s.p.affine.distribute(start);
          const auto a = imbalance(s, start, old);
          auto round_off = [&](const Imbalance<dim> &q) {
            return 1e-12 * (std::hypot(q.macro_size, q.micro_size) + q.forces) + 1e-13 * largest;
          };
          same(rows.front().r.r_u, a.macro, round_off(a), "R_U at the start of step " + std::to_string(i + 1));
          same(rows.front().r.r_g, a.micro, round_off(a), "R_G at the start of step " + std::to_string(i + 1));
          const auto b = imbalance(s, x, old);
          same(rows.back().r.r_u, b.macro, round_off(b), "R_U at the end of step " + std::to_string(i + 1));
          same(rows.back().r.r_g, b.micro, round_off(b), "R_G at the end of step " + std::to_string(i + 1));
        }
        // a linear problem is solved by the first full step
        if (mono && s.p.layout.n_slips == 0 && !s.p.layout.decohesion && !s.iterative)
          {
            PBT_CHECK(rows.size() == 2, rows.size() - 1 << " iterations of the elastic problem in step " << i + 1);
            c.label("elastic");
          }
        // the way from the start to the solution
        {
          dealii::Vector<double> start = x0;
          s.p.affine.distribute(start);
          std::vector<dealii::types::global_dof_index> ids;
          std::vector<char> is_u(x.size());
          for (const auto &cell : s.p.field->get_dof_handler().active_cell_iterators())
            {
              ids.resize(cell->get_fe().n_dofs_per_cell());
              cell->get_dof_indices(ids);
              for (unsigned j = 0; j < ids.size(); ++j)
                is_u[ids[j]] = s.p.layout.meaning(cell->get_fe().system_to_component_index(j).first).displacement;
            }
          double way[2] = {0, 0}, size = 0, all = 0;
          for (unsigned j = 0; j < x.size(); ++j)
            {
              const double v = (x(j) - start(j)) * (x(j) - start(j));
              all += v;
              size += x(j) * x(j) + start(j) * start(j);
              if (!s.p.affine.is_constrained(j))
                way[is_u[j] ? 0 : 1] += v;
            }
          size = std::sqrt(size);
          for (int k = 0; k < 2; ++k)
            PBT_CHECK(std::sqrt(way[k]) <= sum[k] * (1 + 1e-5) + 1e-12 * size,
                      (k ? "slips" : "displacements") << " moved by " << std::sqrt(way[k]) << " in step " << i + 1 << ", the log accounts for " << sum[k]);
          if (mono)
            {
              double rest = 0;
              for (unsigned k = 2; k < rows.size(); ++k)
                rest += rows[k].r.ns;
              PBT_CHECK(std::sqrt(all) >= first_ns * (1 - 1e-5) - rest * (1 + 1e-5) - 1e-12 * size,
                        "the solution moved by " << std::sqrt(all) << " in step " << i + 1 << ", the log says " << first_ns << " and then at most " << rest);
            }
        }
        // the summary of the step
        {
          double mean = 0;
          int    n    = 0;
          for (const auto &r : rows)
            if (r.tag < 0 && r.r.n > 0)
              {
                mean += r.r.rate;
                ++n;
              }
          table.push_back({double(i + 1), double(mono ? n : bouncing ? micro_loops : macro_rows), n ? mean / n : 0.0});
          std::ostringstream os;
          s.p.solver->output_data_to_file(os);
          std::istringstream       is(os.str());
          std::string              line;
          std::vector<std::vector<std::string>> cells;
          std::vector<std::string> names;
          while (std::getline(is, line))
            {
              for (char &q : line)
                if (q == '|')
                  q = ' ';
              std::istringstream       ls(line);
              std::vector<std::string> words;
              std::string              w;
              while (ls >> w)
                words.push_back(w);
              if (words.empty())
                continue;
              if (names.empty())
                names = words;
              else
                cells.push_back(words);
            }
          PBT_CHECK(names.size() == 6 && names[0] == "LoadStep" && names[1] == "Iterations" && names[2] == "MonoAverageConvergence",
                    "columns of the summary: " << os.str());
          PBT_CHECK(cells.size() == table.size(), "summary of " << cells.size() << " steps after step " << i + 1);
          for (unsigned k = 0; k < cells.size(); ++k)
            {
              PBT_CHECK(cells[k].size() == 6, "row of the summary: " << os.str());
              PBT_CHECK(std::stod(cells[k][0]) == table[k].step, "step " << cells[k][0] << " in row " << k << " of the summary");
              PBT_CHECK(std::stod(cells[k][1]) == table[k].iterations, cells[k][1] << " iterations of step " << k + 1 << " in the summary, the log has " << table[k].iterations);
              pbt::close(std::stod(cells[k][2]), table[k].mono, 1e-2, 6e-3, "average convergence of step " + std::to_string(k + 1));
              for (const auto &w : cells[k])
                PBT_CHECK(std::isfinite(std::stod(w)), "the summary contains '" << w << "'");
            }
        }
        if (rows.size() > 3 && s.p.layout.n_slips > 0)
          c.nontrivial();
        s.ref->end_step(x);
        s.accept();
      }
  }
} // namespace

PBT_PROPERTY("P24", "log-2d", 3) { log_rows<2>(c); }
PBT_PROPERTY("P24", "log-3d", 1) { log_rows<3>(c); }
