// A small fixed problem for the demonstrations: layers of crystals, sheared.
#ifndef MINI_H
#define MINI_H
#include <deal.II/base/conditional_ostream.h>
#include <deal.II/base/discrete_time.h>
#include <deal.II/base/function.h>
#include <deal.II/base/hdf5.h>
#include <deal.II/base/parameter_handler.h>
#include <deal.II/base/quadrature_lib.h>
#include <deal.II/base/quadrature_point_data.h>
#include <deal.II/base/table_handler.h>
#include <deal.II/base/tensor_function.h>
#include <deal.II/base/timer.h>
#include <deal.II/base/utilities.h>
#include <deal.II/base/work_stream.h>
#include <deal.II/distributed/tria.h>
#include <deal.II/dofs/dof_handler.h>
#include <deal.II/dofs/dof_tools.h>
#include <deal.II/fe/fe_values.h>
#include <deal.II/fe/mapping_q.h>
#include <deal.II/grid/grid_generator.h>
#include <deal.II/grid/grid_tools.h>
#include <deal.II/hp/fe_collection.h>
#include <deal.II/hp/fe_values.h>
#include <deal.II/lac/affine_constraints.h>
#include <deal.II/lac/full_matrix.h>
#include <deal.II/lac/generic_linear_algebra.h>
#include <deal.II/lac/vector.h>
#include <deal.II/numerics/data_component_interpretation.h>
#include <deal.II/numerics/data_out.h>
#include <deal.II/numerics/data_postprocessor.h>
#include <sys/stat.h>
#include <unistd.h>
#include <array>
#include <cmath>
#include <cstdio>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>
#ifdef OPEN_ACCESS
#define private public
#define protected public
#endif
#include <gCP/fe_field.h>
#include <gCP/gradient_crystal_plasticity.h>
#include <gCP/postprocessing.h>
#undef private
#undef protected
using namespace dealii;
namespace RTP = gCP::RunTimeParameters;
using BlockVec     = LinearAlgebraTrilinos::MPI::BlockVector;

inline int failures = 0;
inline void expect(const bool ok, const std::string &what)
{
  std::printf("%s: %s\n", ok ? "ok  " : "FAIL", what.c_str());
  failures += !ok;
}
inline void expect_close(const double a, const double b, const double tol, const std::string &what)
{
  char buf[200];
  std::snprintf(buf, sizeof(buf), " (%.12g, expected %.12g)", a, b);
  expect(std::fabs(a - b) <= tol, what + buf);
}
inline void write(const std::string &name, const std::string &text) { std::ofstream(name) << text; }

// each process writes its files elsewhere
inline void own_directory()
{
  if (Utilities::MPI::n_mpi_processes(MPI_COMM_WORLD) == 1)
    return;
  const std::string d = "process" + std::to_string(Utilities::MPI::this_mpi_process(MPI_COMM_WORLD));
  if (mkdir(d.c_str(), 0755) != 0 || chdir(d.c_str()) != 0)
    throw std::runtime_error("directory");
}

template <int dim>
struct Mini
{
  parallel::distributed::Triangulation<dim>                  tria{MPI_COMM_WORLD};
  std::shared_ptr<gCP::CrystalsData<dim>>                    crystals;
  std::shared_ptr<gCP::FEField<dim>>                         field;
  std::shared_ptr<Mapping<dim>>                              mapping = std::make_shared<MappingQ<dim>>(1);
  RTP::SolverParameters                                      prm;
  std::unique_ptr<DiscreteTime>                              time;
  std::ostringstream                                         sink;
  std::shared_ptr<ConditionalOStream>                        pcout;
  std::shared_ptr<TimerOutput>                               timer;
  std::unique_ptr<gCP::GradientCrystalPlasticitySolver<dim>> solver;
  unsigned                                                   n_crystals = 1, n_slips = 0;
  unsigned                                                   degree_u = 1, degree_s = 1;
  bool                                                       single_block = true;

  // layers of crystals along y
  void mesh(const std::vector<unsigned> &cells, const unsigned grains)
  {
    Point<dim> p, q;
    for (int i = 0; i < dim; ++i)
      q[i] = 1;
    GridGenerator::subdivided_hyper_rectangle(tria, cells, p, q, true);
    n_crystals = grains;
    for (const auto &cell : tria.active_cell_iterators())
      if (!cell->is_artificial())
      cell->set_material_id(unsigned(cell->center()[1] * grains));
  }
  // files in the working directory
  void slips(const std::string &angles, const std::string &directions, const std::string &normals, const unsigned n)
  {
    write("angles.txt", angles);
    write("directions.txt", directions);
    write("normals.txt", normals);
    crystals = std::make_shared<gCP::CrystalsData<dim>>();
    crystals->init(tria, "angles", "directions", "normals");
    n_slips = n;
  }
  void material()
  {
    auto &l                                                    = prm.constitutive_laws_parameters;
    l.hooke_law_parameters.C1111                               = 5;
    l.hooke_law_parameters.C1122                               = 2;
    l.hooke_law_parameters.C1212                               = 1;
    l.scalar_microstress_law_parameters.regularization_function = RTP::RegularizationFunction::Tanh;
    l.scalar_microstress_law_parameters.regularization_parameter = 0.1;
    l.scalar_microstress_law_parameters.flag_rate_independent  = false;
    l.vectorial_microstress_law_parameters.energetic_length_scale  = 0.3;
    l.vectorial_microstress_law_parameters.initial_slip_resistance = 0.2;
    l.vectorial_microstress_law_parameters.defect_energy_index     = 2;
    l.hardening_law_parameters.initial_slip_resistance         = 0.2;
    l.hardening_law_parameters.linear_hardening_modulus        = 0.5;
    l.hardening_law_parameters.hardening_parameter             = 1.4;
    l.hardening_law_parameters.flag_perfect_plasticity         = false;
    l.microtraction_law_parameters.grain_boundary_modulus      = 0.7;
    l.cohesive_law_parameters.critical_cohesive_traction       = 1;
    l.cohesive_law_parameters.critical_opening_displacement    = 0.1;
    l.cohesive_law_parameters.tangential_to_normal_stiffness_ratio = 1;
    l.contact_law_parameters.penalty_coefficient               = 20;
    auto &d                                                    = l.damage_evolution_parameters;
    d.damage_evolution_model                                   = RTP::DamageEvolutionModel::OrtizEtAl;
    d.damage_accumulation_constant                             = 1;
    d.damage_decay_constant                                    = 0;
    d.damage_decay_exponent                                    = 1;
    d.endurance_limit                                          = 0;
    d.degradation_exponent                                     = 1;
    d.flag_couple_microtraction_to_damage                      = false;
    d.flag_couple_macrotraction_to_damage                      = true;
    d.flag_set_damage_to_zero                                  = false;
    prm.logger_output_directory                                = "./";
    prm.allow_decohesion                                       = false;
    prm.boundary_conditions_at_grain_boundaries                = RTP::BoundaryConditionsAtGrainBoundaries::Microfree;
  }
  void build_field()
  {
    field = std::make_shared<gCP::FEField<dim>>(tria, degree_u, degree_s, prm.allow_decohesion, single_block);
    field->setup_extractors(n_crystals, n_slips);
    field->update_ghost_material_ids();
    for (const auto &cell : field->get_dof_handler().active_cell_iterators())
      if (cell->is_locally_owned())
        cell->set_active_fe_index(cell->material_id());
    field->setup_dofs();
  }
  unsigned n_u() const { return dim * (prm.allow_decohesion ? n_crystals : 1); }
  // displacements of boundary 2 (y=0) zero, of boundary 3 (y=1) given
  void constrain(const std::vector<double> &top)
  {
    AffineConstraints<double> affine, newton;
    affine.reinit(field->get_locally_relevant_dofs());
    affine.merge(field->get_hanging_node_constraints());
    std::vector<types::global_dof_index> ids;
    for (const auto &cell : field->get_dof_handler().active_cell_iterators())
      for (const unsigned f : cell->face_indices())
        if (!cell->is_artificial() && cell->face(f)->at_boundary() && (cell->face(f)->boundary_id() == 2 || cell->face(f)->boundary_id() == 3))
          {
            ids.resize(cell->get_fe().n_dofs_per_face(f));
            cell->face(f)->get_dof_indices(ids, cell->active_fe_index());
            for (unsigned i = 0; i < ids.size(); ++i)
              {
                const unsigned c = cell->get_fe().face_system_to_component_index(i, f).first;
                if (c < n_u() && !affine.is_constrained(ids[i]))
                  {
                    affine.add_line(ids[i]);
                    if (cell->face(f)->boundary_id() == 3)
                      affine.set_inhomogeneity(ids[i], top[c % dim]);
                  }
              }
          }
    affine.close();
    newton.copy_from(affine);
    for (const auto i : field->get_locally_relevant_dofs())
      if (newton.is_constrained(i) && newton.is_inhomogeneously_constrained(i))
        newton.set_inhomogeneity(i, 0.0);
    newton.close();
    field->set_affine_constraints(affine);
    field->set_newton_method_constraints(newton);
  }
  void build_solver(const double dt = 0.1, const double end = 1)
  {
    time   = std::make_unique<DiscreteTime>(0, end, dt);
    pcout  = std::make_shared<ConditionalOStream>(sink, false);
    timer  = std::make_shared<TimerOutput>(*pcout, TimerOutput::never, TimerOutput::wall_times);
    solver = std::make_unique<gCP::GradientCrystalPlasticitySolver<dim>>(prm, *time, field, crystals, mapping, pcout, timer);
  }
  void setup(const double dt = 0.1, const double end = 1)
  {
    build_field();
    constrain(std::vector<double>(dim, 0.0));
    field->setup_vectors();
    build_solver(dt, end);
    solver->init();
  }
  void step(const std::vector<double> &top)
  {
    constrain(top);
    solver->solve_nonlinear_system(false);
    field->update_solution_vectors();
    time->advance_time();
  }
  // sum over crystals of the integral of |slip| of a system, etc.
  void set(BlockVec &v, const std::function<double(const Point<dim> &, unsigned component)> &f)
  {
    auto                                 w = field->get_distributed_vector_instance(v);
    std::vector<types::global_dof_index> ids;
    for (const auto &cell : field->get_dof_handler().active_cell_iterators())
      if (cell->is_locally_owned())
      {
        ids.resize(cell->get_fe().n_dofs_per_cell());
        cell->get_dof_indices(ids);
        for (unsigned i = 0; i < ids.size(); ++i)
          if (field->get_locally_owned_dofs().is_element(ids[i]))
          w(ids[i]) = f(mapping->transform_unit_to_real_cell(cell, cell->get_fe().unit_support_point(i)),
                        cell->get_fe().system_to_component_index(i).first);
      }
    w.compress(VectorOperation::insert);
    v = w;
  }
  double norm(const BlockVec &v, const bool displacement)
  {
    std::set<unsigned>                   done;
    double                               s = 0;
    std::vector<types::global_dof_index> ids;
    for (const auto &cell : field->get_dof_handler().active_cell_iterators())
      if (cell->is_locally_owned())
      {
        ids.resize(cell->get_fe().n_dofs_per_cell());
        cell->get_dof_indices(ids);
        for (unsigned i = 0; i < ids.size(); ++i)
          if (field->get_locally_owned_dofs().is_element(ids[i]) && (cell->get_fe().system_to_component_index(i).first < n_u()) == displacement && done.insert(ids[i]).second)
            s += v(ids[i]) * v(ids[i]);
      }
    return std::sqrt(Utilities::MPI::sum(s, MPI_COMM_WORLD));
  }
  ~Mini()
  {
    solver.reset();
    timer.reset();
  }
};

#define DEMO                                                  \
  void run();                                                 \
  int  main(int argc, char **argv)                            \
  {                                                           \
    dealii::Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1); \
    deallog.depth_console(0);                                 \
    own_directory();                                          \
    try { run(); }                                            \
    catch (std::exception &e) { std::printf("FAIL: exception %s\n", e.what()); return 1; } \
    return failures ? 1 : 0;                                  \
  }                                                           \
  void run()
#endif
