// Generated boundary value problems: mesh, grains, field, constraints,
// parameters.
#ifndef VERIF_PROBLEM_H
#define VERIF_PROBLEM_H

#include "oracle.h"

#include <gCP/fe_field.h>
#include <gCP/gradient_crystal_plasticity.h>

#include <deal.II/base/discrete_time.h>
#include <deal.II/base/function.h>
#include <deal.II/base/tensor_function.h>
#include <deal.II/distributed/tria.h>
#include <deal.II/grid/grid_tools.h>

namespace vf
{
  struct Draws
  {
    bool allow_decohesion      = true;
    bool allow_microtraction   = true;
    bool allow_rate_independent = true;
    bool force_rate_independent = false;
    bool allow_dimensionless   = true;
    bool allow_distortion      = true;
    int  force_grains          = 0; // 0: drawn
    unsigned max_cells         = 6;
    unsigned max_slips         = 3;
    bool min_slips_zero        = false;
    bool periodic              = false;
    bool m1                    = true;
    bool layers                = false; // grains stacked in y
    bool force_decohesion      = false;
    bool many_cells            = false; // several rows of them
  };

  template <int dim>
  struct AffineVectorFunction : dealii::TensorFunction<1, dim>
  {
    V3 a;
    M3 B;
    V3 rate;
    AffineVectorFunction(const V3 &a, const M3 &B, const V3 &rate = zero3())
      : dealii::TensorFunction<1, dim>()
      , a(a)
      , B(B)
      , rate(rate)
    {}
    V3 at(const V3 &x, const double t) const
    {
      return a + mul(B, x) + t * rate;
    }
    dealii::Tensor<1, dim> value(const dealii::Point<dim> &p) const override
    {
      return from3<dim>(at(to3<dim>(p), this->get_time()));
    }
  };

  template <int dim>
  struct Problem
  {
    CrystalSpec                                        spec;
    Layout                                             layout;
    dealii::parallel::distributed::Triangulation<dim>  tria{MPI_COMM_WORLD};
    std::shared_ptr<gCP::CrystalsData<dim>>            crystals;
    std::shared_ptr<gCP::FEField<dim>>                 field;
    RTP::SolverParameters                              prm;
    dealii::AffineConstraints<double>                  affine, newton;
    std::unique_ptr<dealii::DiscreteTime>              time;
    std::shared_ptr<dealii::ConditionalOStream>        pcout;
    std::shared_ptr<dealii::TimerOutput>               timer;
    std::ostringstream                                 sink;
    std::shared_ptr<dealii::Mapping<dim>>              mapping;
    std::unique_ptr<gCP::GradientCrystalPlasticitySolver<dim>> solver;
    unsigned degree_u = 1, degree_s = 1;
    bool     single_block = true;
    bool     distorted = false;
    std::vector<unsigned> cells_per_side;
    double                size = 1;
    bool                  periodic_x = false; // from the left to the right
    std::function<V3(const V3 &)> unmoved; // where a point was when drawn

    ~Problem()
    {
      solver.reset();
      timer.reset();
    }

    // ---- mesh with grains ---------------------------------------------
    void mesh(pbt::Case &c, const Draws &d)
    {
      cells_per_side.assign(dim, 1);
      for (int i = 0; i < dim; ++i)
        {
          unsigned room = d.max_cells;
          for (int j = 0; j < i; ++j)
            room /= cells_per_side[j];
          cells_per_side[i] = c.integer(1, std::max(1, int(std::min(room, dim == 2 ? 4u : 2u))));
        }
      if (d.many_cells)
        {
          cells_per_side[0] = c.pick<unsigned>({8, 4, dim == 2 ? 16u : 2u});
          cells_per_side[1] = c.integer(2, dim == 2 ? 6 : 3);
        }
      if (d.force_grains > 1 && std::accumulate(cells_per_side.begin(), cells_per_side.end(), 1u, std::multiplies<unsigned>()) == 1)
        cells_per_side[1] = 2;
      if (d.layers && int(cells_per_side[1]) < d.force_grains)
        cells_per_side[1] = d.force_grains;
      dealii::Point<dim> p, q;
      for (int i = 0; i < dim; ++i)
        q[i] = c.pick<double>({1.0, 2.0, 0.5}) * size;
      dealii::GridGenerator::subdivided_hyper_rectangle(tria, cells_per_side, p, q, true);
      const unsigned n = tria.n_active_cells();
      // distortion of the vertices inside and tangentially on nothing else:
      // keeps the box, so that boundary conditions remain simple
      if (d.allow_distortion && c.chance(1, 3))
        {
          std::set<unsigned> done;
          for (const auto &cell : tria.active_cell_iterators())
            for (const unsigned v : cell->vertex_indices())
              if (done.insert(cell->vertex_index(v)).second)
                {
                  auto &x      = cell->vertex(v);
                  bool  inside = true;
                  for (int i = 0; i < dim; ++i)
                    inside = inside && x[i] > 1e-10 && x[i] < q[i] - 1e-10;
                  if (inside)
                    for (int i = 0; i < dim; ++i)
                      {
                        x[i] += c.real(-0.2, 0.2) * q[i] / cells_per_side[i];
                        distorted = true;
                      }
                }
        }
      // grains
      std::vector<int> id(n, 0);
      const int        wanted =
        d.force_grains ? d.force_grains : std::min<int>(n, c.integer(1, 3));
      if (wanted > 1)
        {
          const int pattern = d.layers ? 3 : c.integer(0, 2);
          unsigned  i       = 0;
          for (const auto &cell : tria.active_cell_iterators())
            {
              if (pattern == 0)
                id[i] = int(cell->center()[dim - 1] / q[dim - 1] * wanted);
              else if (pattern == 3)
                id[i] = int(cell->center()[1] / q[1] * wanted);
              else if (pattern == 1)
                id[i] = i % wanted;
              else
                id[i] = c.integer(0, wanted - 1);
              ++i;
            }
          // consecutive numbering
          std::map<int, int> renumber;
          for (int &v : id)
            {
              if (!renumber.count(v))
                {
                  const int k = renumber.size();
                  renumber[v] = k;
                }
              v = renumber[v];
            }
        }
      const unsigned n_crystals = 1 + *std::max_element(id.begin(), id.end());
      unsigned       i          = 0;
      for (const auto &cell : tria.active_cell_iterators())
        cell->set_material_id(id[i++]);
      layout.dim        = dim;
      layout.n_crystals = n_crystals;
    }

    // ---- parameters ------------------------------------------------------
    // moduli of order one to ten, slip resistance of order 0.1
    void parameters(pbt::Case &c, const Draws &d)
    {
      auto &l = prm.constitutive_laws_parameters;
      // cubic, positive definite
      const double bulk = c.logreal(1, 10), mu = c.logreal(0.5, 5),
                   mup = c.chance(1, 3) ? mu : c.logreal(0.5, 5);
      l.hooke_law_parameters.C1111 = bulk + 4.0 / 3 * mup;
      l.hooke_law_parameters.C1122 = bulk - 2.0 / 3 * mup;
      l.hooke_law_parameters.C1212 = mu;
      const std::vector<RTP::RegularizationFunction> reg{
        RTP::RegularizationFunction::Tanh,
        RTP::RegularizationFunction::Atan,
        RTP::RegularizationFunction::Sqrt,
        RTP::RegularizationFunction::Gd,
        RTP::RegularizationFunction::Erf};
      l.scalar_microstress_law_parameters.regularization_function = c.pick(reg);
      l.scalar_microstress_law_parameters.regularization_parameter = c.logreal(1e-3, 1);
      l.scalar_microstress_law_parameters.flag_rate_independent =
        d.force_rate_independent || (d.allow_rate_independent && c.chance(1, 6));
      auto &v                   = l.vectorial_microstress_law_parameters;
      v.energetic_length_scale  = c.chance(1, 5) ? 0.0 : c.logreal(0.05, 1);
      v.initial_slip_resistance = c.logreal(0.05, 1);
      v.defect_energy_index     = c.chance(1, 2) ? 2.0 : c.real(2, 4);
      auto &h                   = l.hardening_law_parameters;
      h.initial_slip_resistance = c.logreal(0.05, 1);
      h.linear_hardening_modulus = c.chance(1, 5) ? 0.0 : c.logreal(0.05, 2);
      h.hardening_parameter      = c.pick<double>({1.0, 0.0, 1.4, 0.5});
      h.flag_perfect_plasticity  = c.chance(1, 6);
      l.microtraction_law_parameters.grain_boundary_modulus = c.logreal(0.01, 5);
      auto &co = l.cohesive_law_parameters;
      co.critical_cohesive_traction           = c.logreal(0.1, 5);
      co.critical_opening_displacement        = c.logreal(0.02, 0.5);
      co.tangential_to_normal_stiffness_ratio = c.pick<double>({1.0, 0.5, 0.0, 1.5});
      l.contact_law_parameters.penalty_coefficient = c.logreal(0.1, 100);
      auto &da = l.damage_evolution_parameters;
      da.damage_evolution_model = (d.m1 && c.boolean()) ? RTP::DamageEvolutionModel::M1 :
                                              RTP::DamageEvolutionModel::OrtizEtAl;
      da.damage_accumulation_constant = c.logreal(0.1, 10);
      da.damage_decay_constant        = c.pick<double>({0.0, 0.1, 1.0});
      da.damage_decay_exponent        = c.pick<double>({1.0, 0.0, 2.0});
      da.endurance_limit              = c.chance(1, 2) ? 0.0 : c.logreal(1e-4, 1e-1);
      da.degradation_exponent         = c.pick<double>({1.0, 2.0, 3.0});
      l.degradation_function_parameters.degradation_exponent = da.degradation_exponent;
      da.flag_couple_microtraction_to_damage = c.boolean();
      da.flag_couple_macrotraction_to_damage = c.boolean();
      da.flag_set_damage_to_zero             = c.chance(1, 10);
      const bool multi = layout.n_crystals > 1;
      layout.decohesion =
        d.allow_decohesion && multi && (d.force_decohesion || c.chance(1, 2));
      prm.allow_decohesion = layout.decohesion;
      using BC = RTP::BoundaryConditionsAtGrainBoundaries;
      prm.boundary_conditions_at_grain_boundaries = BC::Microfree;
      if (multi && !l.scalar_microstress_law_parameters.flag_rate_independent &&
          d.allow_microtraction && c.chance(1, 2))
        prm.boundary_conditions_at_grain_boundaries = BC::Microtraction;
      else if (multi && c.chance(1, 3))
        prm.boundary_conditions_at_grain_boundaries = BC::Microhard;
      if (d.allow_dimensionless && !layout.decohesion &&
          prm.boundary_conditions_at_grain_boundaries != BC::Microtraction &&
          c.chance(1, 4))
        {
          auto &n = prm.dimensionless_form_parameters;
          n.flag_solve_dimensionless_problem = true;
          n.characteristic_quantities.length          = c.logreal(0.1, 10);
          n.characteristic_quantities.displacement    = c.logreal(0.1, 10);
          n.characteristic_quantities.stiffness       = c.logreal(0.1, 10);
          n.characteristic_quantities.slip_resistance = c.logreal(0.1, 10);
          n.init(l);
        }
      prm.logger_output_directory = pbt::scratch() + "/";
    }

    // ---- field and constraints ------------------------------------------
    // fixed displacements on a boundary: list of (direction, value function)
    struct Fixed
    {
      unsigned                            boundary;
      int                                 direction; // -1: slips
      std::function<double(const V3 &)>   value;
    };

    void build_field()
    {
      layout.n_slips = spec.n_slips();
      field          = std::make_shared<gCP::FEField<dim>>(
        tria, degree_u, degree_s, layout.decohesion, single_block);
      field->setup_extractors(layout.n_crystals, layout.n_slips);
      field->update_ghost_material_ids();
      for (const auto &cell : field->get_dof_handler().active_cell_iterators())
        if (cell->is_locally_owned())
          cell->set_active_fe_index(cell->material_id());
      field->setup_dofs();
    }

    // dof index -> support point, for nodal values
    std::map<unsigned, V3> support_points() const
    {
      std::map<unsigned, V3>                       r;
      std::vector<dealii::types::global_dof_index> ids;
      dealii::MappingQ<dim>                        map(1);
      for (const auto &cell : field->get_dof_handler().active_cell_iterators())
        if (!cell->is_artificial())
        {
          ids.resize(cell->get_fe().n_dofs_per_cell());
          cell->get_dof_indices(ids);
          for (unsigned i = 0; i < ids.size(); ++i)
            r[ids[i]] = to3<dim>(map.transform_unit_to_real_cell(
              cell, cell->get_fe().unit_support_point(i)));
        }
      return r;
    }

    // dofs on the faces of a boundary, with their component
    void for_each_boundary_dof(
      const unsigned boundary,
      std::function<void(unsigned dof, unsigned component)> f) const
    {
      std::vector<dealii::types::global_dof_index> ids;
      for (const auto &cell : field->get_dof_handler().active_cell_iterators())
        if (!cell->is_artificial())
        for (const unsigned face : cell->face_indices())
          if (cell->face(face)->at_boundary() &&
              cell->face(face)->boundary_id() == boundary)
            face_dofs(cell, face, f);
    }
    template <typename Cell>
    void face_dofs(const Cell                                     &cell,
                   const unsigned                                  face,
                   const std::function<void(unsigned, unsigned)> &f) const
    {
      const auto &fe = cell->get_fe();
      std::vector<dealii::types::global_dof_index> ids(fe.n_dofs_per_face(face));
      cell->face(face)->get_dof_indices(ids, cell->active_fe_index());
      for (unsigned i = 0; i < ids.size(); ++i)
        f(ids[i], fe.face_system_to_component_index(i, face).first);
    }
    // slip dofs on the faces between two crystals
    void for_each_grain_boundary_slip_dof(std::function<void(unsigned)> f) const
    {
      for (const auto &cell : field->get_dof_handler().active_cell_iterators())
        if (!cell->is_artificial())
        for (const unsigned face : cell->face_indices())
          if (!cell->face(face)->at_boundary() &&
              cell->neighbor(face)->material_id() != cell->material_id())
            face_dofs(cell, face, [&](const unsigned dof, const unsigned comp) {
              if (!layout.meaning(comp).displacement)
                f(dof);
            });
    }

    void constrain(const std::vector<Fixed> &fixed, const bool microhard)
    {
      affine.clear();
      newton.clear();
      affine.reinit(field->get_locally_relevant_dofs());
      affine.merge(field->get_hanging_node_constraints());
      const auto points = support_points();
      for (const auto &f : fixed)
        for_each_boundary_dof(f.boundary, [&](const unsigned dof, const unsigned comp) {
          const DofMeaning m = layout.meaning(comp);
          if ((f.direction < 0 && !m.displacement) ||
              (f.direction >= 0 && m.displacement && int(m.index) == f.direction))
            if (!affine.is_constrained(dof))
              {
                affine.add_line(dof);
                affine.set_inhomogeneity(dof, f.value ? f.value(points.at(dof)) : 0.0);
              }
        });
      if (microhard)
        for_each_grain_boundary_slip_dof([&](const unsigned dof) {
          if (!affine.is_constrained(dof))
            affine.add_line(dof);
        });
      if (periodic_x)
        {
          // right values equal the left ones at the same height
          using Spot = std::tuple<unsigned, long, long>;
          std::map<Spot, unsigned> left;
          auto spot = [&](const unsigned dof, const unsigned comp) {
            const V3 x = unmoved ? unmoved(points.at(dof)) : points.at(dof);
            return Spot(comp, std::lround(x[1] * 1e7), std::lround(x[2] * 1e7));
          };
          for_each_boundary_dof(0, [&](const unsigned dof, const unsigned comp) {
            left[spot(dof, comp)] = dof;
          });
          for_each_boundary_dof(1, [&](const unsigned dof, const unsigned comp) {
            const auto it = left.find(spot(dof, comp));
            if (it != left.end() && it->second != dof && !affine.is_constrained(dof) && !affine.is_constrained(it->second))
              {
                affine.add_line(dof);
                affine.add_entry(dof, it->second, 1.0);
              }
          });
        }
      affine.close();
      newton.copy_from(affine);
      for (const auto i : field->get_locally_relevant_dofs())
        if (newton.is_constrained(i) && newton.is_inhomogeneously_constrained(i))
          newton.set_inhomogeneity(i, 0.0);
      newton.close();
      field->set_affine_constraints(affine);
      field->set_newton_method_constraints(newton);
    }

    void build_solver(const double start, const double end, const double dt)
    {
      time  = std::make_unique<dealii::DiscreteTime>(start, end, dt);
      pcout = std::make_shared<dealii::ConditionalOStream>(sink, false);
      timer = std::make_shared<dealii::TimerOutput>(
        *pcout, dealii::TimerOutput::never, dealii::TimerOutput::wall_times);
      if (!mapping)
        mapping = std::make_shared<dealii::MappingQ<dim>>(1);
      solver  = std::make_unique<gCP::GradientCrystalPlasticitySolver<dim>>(
        prm, *time, field, crystals, mapping, pcout, timer);
    }

    // mesh, crystals, parameters, field
    void draw(pbt::Case &c, const Draws &d)
    {
      mesh(c, d);
      spec = draw_crystals(c, dim, layout.n_crystals, d.max_slips, false, d.min_slips_zero);
      const std::string stem = write_crystal_files(spec, pbt::scratch() + "/crystal");
      crystals = std::make_shared<gCP::CrystalsData<dim>>();
      crystals->init(tria, stem + "_angles", stem + "_dirs", stem + "_normals");
      parameters(c, d);
      degree_u     = c.pick<unsigned>({1, 1, 1, 2});
      degree_s     = c.pick<unsigned>({1, 1, 1, 2});
      if (dim == 3 && tria.n_active_cells() > 4)
        degree_u = degree_s = 1;
      build_field();
      describe(c, spec);
      c.note("cells", tria.n_active_cells())
        .note("grains", layout.n_crystals)
        .note("decohesion", layout.decohesion)
        .note("gb", int(prm.boundary_conditions_at_grain_boundaries))
        .note("degrees", std::to_string(degree_u) + "/" + std::to_string(degree_s))
        .note("distorted", distorted)
        .note("dimensionless", prm.dimensionless_form_parameters.flag_solve_dimensionless_problem)
        .note("rate_independent", prm.constitutive_laws_parameters.scalar_microstress_law_parameters.flag_rate_independent);
    }

    std::set<unsigned> boundary_ids() const
    {
      std::set<unsigned> r;
      for (const auto id : tria.get_boundary_ids())
        r.insert(id);
      return r;
    }

    // write a plain vector into a (ghosted) block vector of the field
    void assign(dealii::LinearAlgebraTrilinos::MPI::BlockVector &target,
                const dealii::Vector<double>                    &x) const
    {
      auto v = field->get_distributed_vector_instance(target);
      for (unsigned i = 0; i < x.size(); ++i)
        v(i) = x(i);
      v.compress(dealii::VectorOperation::insert);
      target = v;
    }
    static dealii::Vector<double>
    read(const dealii::LinearAlgebraTrilinos::MPI::BlockVector &v)
    {
      dealii::Vector<double> r(v.size());
      for (unsigned i = 0; i < r.size(); ++i)
        r(i) = v(i);
      return r;
    }
  };
} // namespace vf
#endif
