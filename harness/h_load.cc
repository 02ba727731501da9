// P19: the loading program of the strip problem: times, steps, turning points.
// P20: the displacement prescribed at the boundary and the shear reported.
#include "problem_std.h"

#include <gCP/boundary_conditions.h>
#include <gCP/crystal_data.h>
#include <gCP/fe_field.h>
#include <gCP/postprocessing.h>
#include <gCP/run_time_parameters.h>
#include "program.h"

namespace
{
  namespace RTP = gCP::RunTimeParameters;
  using vf::Program;
  using vf::draw_program;
  using vf::number;

  // through the parameter file, as the application does, or without the
  // parameters of the other parts
  RTP::SimpleLoading parse(const Program &p, const bool file)
  {
    const std::string name = pbt::scratch() + "/loading.prm", out = pbt::scratch() + "/out/";
    std::ostringstream o;
    {
      o << "subsection 2. Temporal discretization parameters\n"
        << " set Start time = " << number(p.start) << "\n set End time = " << number(p.start + 2) << "\n set Time step size = 1\n"
        << " subsection Simple loading\n"
        << "  set Loading type = " << (p.cyclic ? "cyclic" : "monotonic") << "\n"
        << "  set Maximum load = " << number(p.max) << "\n  set Minimum load = " << number(p.min) << "\n"
        << "  subsection Monotonic load parameters\n"
        << "   set Duration of monotonic load = " << number(p.T_mono) << "\n"
        << "   set Number of steps during monotonic load = " << p.n_mono << "\n  end\n"
        << "  subsection Cyclic load parameters\n"
        << "   set Duration of un- and loading phase = " << number(p.T_load) << "\n"
        << "   set Number of steps during un- and loading phase = " << p.n_load << "\n"
        << "   set Period = " << number(p.period) << "\n"
        << "   set Number of steps during a quarter cycle = " << p.n_quarter << "\n"
        << "   set Number of cycles = " << p.n_cycles << "\n"
        << "   set Skip unloading phase = " << (p.skip_unloading ? "true" : "false") << "\n  end\n end\nend\n"
        ;
    }
    if (file)
      {
        std::ofstream(name) << o.str() << "subsection 4. Output parameters\n set Graphical output directory = " << out << "\nend\n";
        return RTP::InfiniteStripProblem(name).simple_loading;
      }
    dealii::ParameterHandler handler;
    RTP::TemporalDiscretizationParameters::declare_parameters(handler);
    RTP::SimpleLoading::declare_parameters(handler);
    handler.parse_input_from_string(o.str());
    RTP::SimpleLoading l;
    l.TemporalDiscretizationParameters::parse_parameters(handler);
    l.parse_parameters(handler);
    return l;
  }

  void program(pbt::Case &c)
  {
    const Program p = draw_program(c);
    const auto    l = parse(p, c.chance(1, 16));
    const double  size = std::max(p.end(), 1e-300);
    pbt::close(l.start_time, p.start, 1e-15, 0, "start time");
    pbt::close(l.end_time, p.end(), 1e-13, 0, "end time");
    dealii::DiscreteTime time(l.start_time, l.end_time, l.time_step_size);
    unsigned             k = 0;
    while (time.get_current_time() < time.get_end_time())
      {
        PBT_CHECK(k < p.steps() + 2, "the program does not end after " << p.steps() << " steps, time " << time.get_current_time());
        PBT_CHECK(time.get_step_number() == k, "step number");
        const double dt = l.get_next_time_step_size(k);
        PBT_CHECK(dt > 0, "time step size " << dt);
        time.set_desired_next_step_size(dt);
        PBT_CHECK(l.skip_extrapolation(k) == p.turning(k),
                  "step " << k << " (" << time.get_current_time() << "): extrapolation " << (l.skip_extrapolation(k) ? "skipped" : "not skipped"));
        time.advance_time();
        ++k;
        pbt::close(time.get_current_time(), p.time(std::min(k, p.steps())), 0, 1e-10 * size, "time after step " + std::to_string(k));
      }
    PBT_CHECK(k == p.steps(), k << " steps, not " << p.steps());
    PBT_CHECK(time.get_current_time() == time.get_end_time(), "the last step ends at " << time.get_current_time());
  }

  template <int dim>
  void displacement(pbt::Case &c)
  {
    const Program  p   = draw_program(c);
    const auto     l = parse(p, c.chance(1, 16));
    const unsigned n_crystals = c.integer(1, 4), n_slips = c.integer(0, 3);
    const bool     decohesion = c.boolean();
    const unsigned n = dim * (decohesion ? n_crystals : 1) + n_crystals * n_slips;
    const double   height = c.logreal(0.01, 100), characteristic = c.boolean() ? 1.0 : c.logreal(1e-3, 1e3);
    const unsigned component = c.integer(0, dim - 1);
    c.note("height", height).note("characteristic", characteristic).note("component", component).note("crystals", n_crystals).note("decohesion", decohesion);
    gCP::BoundaryConditions::DisplacementControl<dim> control(l, n, n_crystals, height, decohesion, characteristic, component);
    PBT_CHECK(control.n_components == n, "number of components");
    std::vector<double> times;
    for (int i = c.integer(1, 6); i > 0; --i)
      switch (c.integer(0, 3))
        {
          case 0: times.push_back(p.time(c.integer(0, p.steps()))); break;
          case 1: times.push_back(p.cyclic ? p.start_cyclic() * (1 + 1e-12 * c.integer(-2, 2)) : p.end()); break;
          case 2: times.push_back(p.cyclic ? p.start_unloading() * (1 + 1e-12 * c.integer(-2, 2)) : p.end()); break;
          default: times.push_back(c.real(p.start, p.end()));
        }
    times.push_back(p.end());
    const double unit = height / characteristic;
    for (const double t : times)
      {
        // beyond the end there is no load
        if (t > p.end() || t < p.start)
          continue;
        control.set_time(t);
        dealii::Point<dim> x;
        for (int i = 0; i < dim; ++i)
          x[i] = c.real(-2, 2);
        dealii::Vector<double> v(n);
        for (auto &y : v)
          y = 77;
        control.vector_value(x, v);
        const double tolerance = unit * p.max * (1e-11 + 1e-11 * t / std::min(p.T_load, p.period));
        for (unsigned i = 0; i < n; ++i)
          {
            const bool loaded = i % dim == component && i < dim * (decohesion ? n_crystals : 1);
            if (!loaded)
              PBT_CHECK(v[i] == 0, "component " << i << " is " << v[i]);
            else
              pbt::close(v[i], unit * p.load(t), 1e-12, tolerance, "displacement at " + std::to_string(t) + ", component " + std::to_string(i));
          }
        if (p.cyclic && t >= p.start_cyclic() && t < p.start_unloading())
          PBT_CHECK(v[component] <= unit * p.max * (1 + 1e-12) && v[component] >= unit * p.min * (1 - 1e-12) - 1e-14 * unit * p.max,
                    "cyclic load " << v[component] / unit << " outside of " << p.min << ", " << p.max);
      }
    if (p.cyclic && p.n_cycles > 0)
      {
        // the extremes are where the extrapolation is skipped
        for (unsigned k = p.n_load + 1; k < p.n_load + 4 * p.n_quarter * p.n_cycles; ++k)
          if (l.skip_extrapolation(k))
            {
              control.set_time(p.time(k));
              dealii::Vector<double> v(n);
              control.vector_value(dealii::Point<dim>(), v);
              const bool   up     = (k - p.n_load) % (4 * p.n_quarter) == p.n_quarter;
              pbt::close(v[component], unit * (up ? p.max : p.min), 1e-10, 1e-9 * unit * p.max, "load at an extreme");
            }
      }
    if (p.cyclic && !p.skip_unloading)
      {
        control.set_time(p.end());
        dealii::Vector<double> v(n);
        control.vector_value(dealii::Point<dim>(), v);
        pbt::close(v[component], 0, 0, 1e-9 * unit * p.max * (1 + p.end() / p.T_load), "load after unloading");
      }
  }

  // the smallest field the reporter can integrate over
  template <int dim>
  struct Fixture
  {
    dealii::parallel::distributed::Triangulation<dim>        tria{MPI_COMM_WORLD};
    std::shared_ptr<gCP::CrystalsData<dim>>                  crystals = std::make_shared<gCP::CrystalsData<dim>>();
    std::shared_ptr<gCP::FEField<dim>>                       field;
    std::shared_ptr<dealii::Mapping<dim>>                    mapping = std::make_shared<dealii::MappingQ<dim>>(1);
    std::shared_ptr<gCP::Kinematics::ElasticStrain<dim>>     strain;
    std::shared_ptr<gCP::ConstitutiveLaws::HookeLaw<dim>>    hooke;
    Fixture()
    {
      dealii::GridGenerator::hyper_cube(tria, 0, 1, true);
      for (const auto &cell : tria.active_cell_iterators())
        cell->set_material_id(0);
      const std::string d = pbt::scratch() + "/";
      std::ofstream(d + "angles.txt") << (dim == 2 ? "0\n" : "0,0,0\n");
      std::ofstream(d + "directions.txt") << (dim == 2 ? "1,0\n" : "1,0,0\n");
      std::ofstream(d + "normals.txt") << (dim == 2 ? "0,1\n" : "0,1,0\n");
      crystals->init(tria, d + "angles", d + "directions", d + "normals");
      field = std::make_shared<gCP::FEField<dim>>(tria, 1, 1, false, true);
      field->setup_extractors(1, 1);
      field->update_ghost_material_ids();
      field->setup_dofs();
      field->setup_vectors();
      strain = std::make_shared<gCP::Kinematics::ElasticStrain<dim>>(crystals);
      hooke  = std::make_shared<gCP::ConstitutiveLaws::HookeLaw<dim>>(crystals, RTP::HookeLawParameters());
      hooke->init();
    }
  };

  void reported(pbt::Case &c)
  {
    Fixture<2> f;
    const Program  p   = draw_program(c);
    const auto     l = parse(p, c.chance(1, 16));
    gCP::BoundaryConditions::DisplacementControl<2> control(l, 3, 1, 2.0, false, 1.0);
    gCP::Postprocessing::SimpleShear<2> shear(f.field, f.mapping, l.max_load, l.min_load, l.period, l.duration_loading_and_unloading_phase,
                                              l.loading_type, 3, 1.0, l.start_of_unloading_phase, l.start_time);
    shear.init(f.strain, f.hooke);
    std::vector<double> expected;
    for (unsigned k = 1; k <= p.steps(); k += 1 + c.draw(4))
      {
        const double t = p.time(k);
        control.set_time(t);
        dealii::Vector<double> v(3);
        control.vector_value(dealii::Point<2>(), v);
        expected.push_back(v[0] / 2);
        shear.compute_data(t);
      }
    std::ostringstream o;
    shear.output_data_to_file(o);
    std::istringstream in(o.str());
    std::string        line;
    unsigned           row = 0;
    while (std::getline(in, line))
      {
        if (line.find("shear") != std::string::npos || line.find('|') == std::string::npos)
          continue;
        const double v = std::strtod(line.c_str() + line.find('|') + 1, nullptr);
        PBT_CHECK(row < expected.size(), "too many rows");
        pbt::close(v, expected[row], 2e-6, 1e-9 * p.max * (1 + p.end() / std::min(p.T_load, p.period)), "reported shear, row " + std::to_string(row));
        ++row;
      }
    PBT_CHECK(row == expected.size(), row << " rows for " << expected.size() << " evaluations");
  }

  PBT_PROPERTY("P19", "program", 4) { program(c); }
  PBT_PROPERTY("P20", "displacement-2d", 3) { displacement<2>(c); }
  PBT_PROPERTY("P20", "displacement-3d", 2) { displacement<3>(c); }
  PBT_PROPERTY("P20", "reported", 2) { reported(c); }
} // namespace
