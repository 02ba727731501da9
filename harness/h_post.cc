// P17: homogenised quantities and the shear stress at a boundary,
// P18: pointwise output of the fields.
#include "problem_std.h"
#include "problem.h"
#include <gCP/postprocessing.h>

using namespace vf;

namespace
{
  struct Stream
  {
    uint64_t s;
    double   operator()()
    {
      s = s * 6364136223846793005ull + 1442695040888963407ull;
      return double(int64_t(s >> 11)) / double(1ull << 52) - 1.0;
    }
  };

  template <int dim>
  struct World
  {
    Problem<dim>                    p;
    std::unique_ptr<Reference<dim>> ref;
    dealii::Vector<double>          x;
    double                          u_size = 1, slip_size = 1;
    void draw(pbt::Case &c)
    {
      Draws d;
      d.max_cells              = dim == 2 ? 6 : 4;
      d.max_slips              = 3;
      d.min_slips_zero         = c.chance(1, 10);
      d.allow_rate_independent = false;
      p.draw(c, d);
      p.single_block = p.layout.n_slips == 0 || c.boolean();
      p.build_field();
      p.constrain({}, false);
      p.field->setup_vectors();
      p.build_solver(0.0, 1.0, 0.1);
      p.solver->init();
      ref       = std::make_unique<Reference<dim>>(p.spec, p.layout, p.prm, p.field->get_dof_handler());
      u_size    = c.logreal(1e-4, 1);
      slip_size = c.logreal(1e-4, 1);
      c.nontrivial(p.layout.n_crystals > 1 && p.layout.n_slips > 0);
    }
    void state(Stream &r)
    {
      x.reinit(p.field->n_dofs());
      std::vector<dealii::types::global_dof_index> ids;
      for (const auto &cell : p.field->get_dof_handler().active_cell_iterators())
        {
          ids.resize(cell->get_fe().n_dofs_per_cell());
          cell->get_dof_indices(ids);
          for (unsigned i = 0; i < ids.size(); ++i)
            x(ids[i]) =
              r() * (p.layout.meaning(cell->get_fe().system_to_component_index(i).first).displacement ? u_size : slip_size);
        }
      p.assign(p.field->solution, x);
    }
    M3 draw_strain(pbt::Case &c)
    {
      M3 e = zero33();
      if (c.chance(1, 2))
        for (int i = 0; i < dim; ++i)
          for (int j = i; j < dim; ++j)
            e[i][j] = e[j][i] = c.signed_log(1e-4, 1);
      return e;
    }
  };

  double von_mises(const M3 &t, const double factor)
  {
    M3           s  = t;
    const double tr = (t[0][0] + t[1][1] + t[2][2]) / 3;
    for (int i = 0; i < 3; ++i)
      s[i][i] -= tr;
    return std::sqrt(factor * ddot(s, s));
  }

  // an org-mode table: header and rows
  struct Table
  {
    std::vector<std::string>              names;
    std::vector<std::vector<std::string>> rows;
    std::string                           error;
    explicit Table(std::istream &in)
    {
      std::string line;
      while (std::getline(in, line))
        {
          std::vector<std::string> cells;
          std::string              cell;
          std::istringstream       l(line);
          bool                     first = true;
          while (std::getline(l, cell, '|'))
            {
              if (!first)
                {
                  const auto a = cell.find_first_not_of(" \t"), b = cell.find_last_not_of(" \t");
                  cells.push_back(a == std::string::npos ? "" : cell.substr(a, b - a + 1));
                }
              first = false;
            }
          while (!cells.empty() && cells.back().empty() && cells.size() > (names.empty() ? 0 : names.size()))
            cells.pop_back();
          if (cells.empty())
            continue;
          if (names.empty())
            names = cells;
          else
            rows.push_back(cells);
        }
    }
    double at(const unsigned row, const std::string &name) const
    {
      for (unsigned i = 0; i < names.size(); ++i)
        if (names[i] == name)
          {
            PBT_CHECK(row < rows.size() && i < rows[row].size(), "no row " << row << " in the table, column " << name);
            char        *end = nullptr;
            const double v   = std::strtod(rows[row][i].c_str(), &end);
            PBT_CHECK(end != rows[row][i].c_str() && *end == 0, "column " << name << " has the entry '" << rows[row][i] << "'");
            return v;
          }
      pbt::fail("no column " + name);
      return 0;
    }
  };

  template <int dim>
  void homogenisation(pbt::Case &c)
  {
    World<dim> w;
    w.draw(c);
    auto  &p = w.p;
    Stream r{c.draw(1 << 20)};
    // a homogenisation with the drawn number of evaluations
    gCP::Postprocessing::Homogenization<dim> h(p.field, p.mapping);
    const std::string                        file = pbt::scratch() + "/homogenization.txt";
    {
      std::ofstream out(file);
      h.init(p.solver->get_elastic_strain_law(), p.solver->get_hooke_law(), out);
    }
    struct Row
    {
      double time;
      M3     stress, stress_f, strain, strain_f;
      double size, esize;
    };
    std::vector<Row> rows;
    M3               macro = zero33();
    const int        n     = c.integer(1, 3);
    for (int k = 0; k < n; ++k)
      {
        w.state(r);
        if (c.boolean())
          {
            macro = w.draw_strain(c);
            h.set_macroscopic_strain(from33<dim>(macro));
          }
        Row row;
        row.time     = c.signed_log(1e-3, 1e3); // printed with four decimals
        row.stress   = row.stress_f = row.strain = row.strain_f = zero33();
        row.size     = row.esize = 0;
        double volume = 0;
        std::vector<dealii::types::global_dof_index> ids;
        const dealii::QGauss<dim>                    quadrature(4);
        for (const auto &cell : p.field->get_dof_handler().active_cell_iterators())
          {
            dealii::FEValues<dim> fe(w.ref->mapping, cell->get_fe(), quadrature, dealii::update_values | dealii::update_gradients | dealii::update_JxW_values);
            fe.reinit(cell);
            ids.resize(cell->get_fe().n_dofs_per_cell());
            cell->get_dof_indices(ids);
            const unsigned cr = cell->material_id();
            for (unsigned q = 0; q < quadrature.size(); ++q)
              {
                const auto v   = w.ref->evaluate(fe, w.x, ids, q, true);
                const M3   eps = sym(v.grad_u);
                M3         e   = eps;
                for (unsigned a = 0; a < v.slip.size(); ++a)
                  e = add(e, w.ref->P[cr][a], -w.ref->k(0) * v.slip[a]);
                const M3 sf = w.ref->stress(cr, e), s = w.ref->stress(cr, add(e, macro));
                row.stress   = add(row.stress, s, fe.JxW(q));
                row.stress_f = add(row.stress_f, sf, fe.JxW(q));
                row.strain_f = add(row.strain_f, eps, fe.JxW(q));
                volume += fe.JxW(q);
                row.size  = std::max(row.size, maxabs(s) + maxabs(sf));
                row.esize = std::max(row.esize, maxabs(eps) + maxabs(macro));
              }
          }
        row.stress   = scale(1 / volume, row.stress);
        row.stress_f = scale(1 / volume, row.stress_f);
        row.strain_f = scale(1 / volume, row.strain_f);
        row.strain   = add(row.strain_f, macro);
        rows.push_back(row);
        h.compute_macroscopic_quantities(row.time);
        M3 in_plane = row.stress;
        if (dim == 2)
          in_plane[2] = {{0, 0, 0}};
        for (int i = 0; i < dim; ++i)
          for (int j = 0; j < dim; ++j)
            pbt::close(h.get_macroscopic_stress()[i][j], row.stress[i][j], 0, 1e-11 * row.size, "macroscopic stress " + std::to_string(i) + std::to_string(j));
      }
    h.output_macroscopic_quantities_to_file();
    // flush: the object owns the stream
    {
      std::ofstream other;
      h.init(p.solver->get_elastic_strain_law(), p.solver->get_hooke_law(), other);
    }
    std::ifstream in(file);
    Table         t(in);
    PBT_CHECK(t.rows.size() == rows.size(), t.rows.size() << " rows of the table for " << rows.size() << " evaluations");
    static const std::vector<std::pair<std::string, std::pair<int, int>>> voigt = {
      {"11", {0, 0}}, {"22", {1, 1}}, {"33", {2, 2}}, {"23", {1, 2}}, {"13", {0, 2}}, {"12", {0, 1}}};
    for (unsigned k = 0; k < rows.size(); ++k)
      {
        const Row &row = rows[k];
        const auto tol = 1e-11 * row.size, etol = 1e-11 * row.esize;
        pbt::close(t.at(k, "Time"), row.time, 1e-4, 6e-5, "time of a row");
        for (const auto &v : voigt)
          {
            const int i = v.second.first, j = v.second.second;
            if (i >= dim || j >= dim)
              continue;
            pbt::close(t.at(k, "Stress_" + v.first), row.stress[i][j], 0, tol, "column Stress_" + v.first);
            pbt::close(t.at(k, "StressFluctuations_" + v.first), row.stress_f[i][j], 0, tol, "column StressFluctuations_" + v.first);
            pbt::close(t.at(k, "Strain_" + v.first), row.strain[i][j], 0, etol, "column Strain_" + v.first);
            pbt::close(t.at(k, "StrainFluctuations_" + v.first), row.strain_f[i][j], 0, etol, "column StrainFluctuations_" + v.first);
          }
        pbt::close(t.at(k, "VonMisesStress"), von_mises(row.stress, 1.5), 0, 10 * tol, "von Mises stress");
        pbt::close(t.at(k, "VonMisesStressFluctuations"), von_mises(row.stress_f, 1.5), 0, 10 * tol, "von Mises stress of the fluctuations");
        pbt::close(t.at(k, "VonMisesStrain"), von_mises(row.strain, 2.0 / 3), 0, 10 * etol, "von Mises strain");
        pbt::close(t.at(k, "VonMisesStrainFluctuations"), von_mises(row.strain_f, 2.0 / 3), 0, 10 * etol, "von Mises strain of the fluctuations");
      }
  }

  template <int dim>
  void boundary_stress(pbt::Case &c)
  {
    World<dim> w;
    w.draw(c);
    auto          &p = w.p;
    Stream         r{c.draw(1 << 20)};
    const unsigned id = c.integer(0, 2 * dim - 1);
    double         area = 0;
    for (const auto &cell : p.tria.active_cell_iterators())
      for (const auto &face : cell->face_iterators())
        if (face->at_boundary() && face->boundary_id() == id)
          area += face->measure();
    const double max_load = c.logreal(1e-3, 1);
    gCP::Postprocessing::SimpleShear<dim> s(p.field, p.mapping, max_load, 0.0, 1.0, 1.0, RTP::LoadingType::Monotonic, id, area);
    s.init(p.solver->get_elastic_strain_law(), p.solver->get_hooke_law());
    std::vector<std::pair<double, double>> rows;
    double                                 size = 0;
    const int                              n = c.integer(1, 3);
    for (int k = 0; k < n; ++k)
      {
        w.state(r);
        const double                                 time = c.logreal(1e-3, 10);
        double                                       sum = 0;
        std::vector<dealii::types::global_dof_index> ids;
        const dealii::QGauss<dim - 1>                quadrature(4);
        for (const auto &cell : p.field->get_dof_handler().active_cell_iterators())
          for (const unsigned f : cell->face_indices())
            if (cell->face(f)->at_boundary() && cell->face(f)->boundary_id() == id)
              {
                dealii::FEFaceValues<dim> fe(w.ref->mapping, cell->get_fe(), quadrature, dealii::update_values | dealii::update_gradients | dealii::update_JxW_values);
                fe.reinit(cell, f);
                ids.resize(cell->get_fe().n_dofs_per_cell());
                cell->get_dof_indices(ids);
                for (unsigned q = 0; q < quadrature.size(); ++q)
                  {
                    const auto v = w.ref->evaluate(fe, w.x, ids, q, true);
                    const M3   sig = w.ref->stress(cell->material_id(), w.ref->elastic_strain(cell->material_id(), sym(v.grad_u), v.slip));
                    sum += sig[0][1] * fe.JxW(q);
                    size = std::max(size, maxabs(sig));
                  }
              }
        s.compute_data(time);
        rows.push_back({time * max_load, sum / area});
      }
    std::stringstream out;
    s.output_data_to_file(out);
    Table t(out);
    PBT_CHECK(t.rows.size() == rows.size(), t.rows.size() << " rows of the table for " << rows.size() << " evaluations");
    // distorted cells: the integrand is rational, compare where it is not
    const double extra = p.distorted ? 0.02 : 0.0;
    for (unsigned k = 0; k < rows.size(); ++k)
      {
        pbt::close(t.at(k, "shear_at_upper_boundary"), rows[k].first, 2e-6, 0, "shear strain of a row");
        pbt::close(t.at(k, "stress_12_at_upper_boundary"), rows[k].second, 2e-6, (extra + 1e-12) * size, "shear stress of a row");
      }
  }

  template <int dim>
  void pointwise(pbt::Case &c)
  {
    World<dim> w;
    w.draw(c);
    auto      &p = w.p;
    Stream     r{c.draw(1 << 20)};
    const bool light = c.chance(1, 4), dimensionless = c.boolean(), fluctuations = c.boolean();
    // characteristic quantities also without the dimensionless form
    auto form = p.prm.dimensionless_form_parameters;
    auto &ch  = form.characteristic_quantities;
    if (c.boolean())
      {
        ch.displacement        = c.logreal(0.1, 10);
        ch.stress              = c.logreal(0.1, 10);
        ch.strain              = c.logreal(0.1, 10);
        ch.dislocation_density = c.logreal(0.1, 10);
      }
    c.note("light", light).note("output_dimensionless", dimensionless).note("fluctuations", fluctuations);
    gCP::Postprocessing::Postprocessor<dim> post(p.field, p.crystals, form, light, dimensionless, fluctuations);
    if (!light || c.boolean())
      post.init(p.solver->get_hooke_law());
    w.state(r);
    const M3 macro = w.draw_strain(c);
    post.set_macroscopic_strain(from33<dim>(macro));
    const double Lu = dimensionless ? 1 : ch.displacement, Ls = dimensionless ? 1 : ch.stress, Le = dimensionless ? 1 : ch.strain,
                 Ld = dimensionless ? 1 : ch.dislocation_density;
    const auto names = post.get_names();
    const auto kinds = post.get_data_component_interpretation();
    PBT_CHECK(names.size() == kinds.size(), names.size() << " names for " << kinds.size() << " kinds of output");
    std::map<std::string, unsigned> where;
    for (unsigned i = 0; i < names.size(); ++i)
      {
        PBT_CHECK((kinds[i] == dealii::DataComponentInterpretation::component_is_part_of_vector) == (i < unsigned(dim)) &&
                    (names[i] == "Displacement") == (i < unsigned(dim)),
                  "the displacement is the vector made of the first components");
        PBT_CHECK(i < unsigned(dim) || !where.count(names[i]), "two outputs are called " << names[i]);
        where[names[i]] = i;
      }
    PBT_CHECK(post.get_needed_update_flags() & dealii::update_values, "values are not requested");
    PBT_CHECK(light || (post.get_needed_update_flags() & dealii::update_gradients), "gradients are not requested");
    const unsigned ns = p.layout.n_slips, nc = p.layout.n_crystals;
    PBT_CHECK(names.size() == dim + ns + (light ? 0 : 30) + (!light && fluctuations ? 13 : 0), names.size() << " outputs");
    const unsigned components = p.field->get_n_components();
    const dealii::QGauss<dim> quadrature(2);
    std::vector<dealii::types::global_dof_index> ids;
    for (const auto &cell : p.field->get_dof_handler().active_cell_iterators())
      {
        dealii::FEValues<dim> fe(w.ref->mapping, cell->get_fe(), quadrature, dealii::update_values | dealii::update_gradients | dealii::update_quadrature_points);
        fe.reinit(cell);
        ids.resize(cell->get_fe().n_dofs_per_cell());
        cell->get_dof_indices(ids);
        const unsigned cr = cell->material_id();
        dealii::DataPostprocessorInputs::Vector<dim> in;
        in.solution_values.assign(quadrature.size(), dealii::Vector<double>(components));
        in.solution_gradients.assign(quadrature.size(), std::vector<dealii::Tensor<1, dim>>(components));
        fe.get_function_values(w.p.field->solution, in.solution_values);
        fe.get_function_gradients(w.p.field->solution, in.solution_gradients);
        in.evaluation_points = fe.get_quadrature_points();
        in.template set_cell<dim>(cell);
        // left-overs of an earlier cell must not matter
        std::vector<dealii::Vector<double>> out(quadrature.size(), dealii::Vector<double>(names.size()));
        for (auto &o : out)
          for (double &v : o)
            v = r();
        post.evaluate_vector_field(in, out);
        for (unsigned q = 0; q < quadrature.size(); ++q)
          {
            const auto v   = w.ref->evaluate(fe, w.x, ids, q, true);
            auto       get = [&](const std::string &n) {
              PBT_CHECK(where.count(n), "no output is called " << n);
              return out[q](where.at(n));
            };
            auto same = [&](const std::string &n, const double expected, const double size) {
              pbt::close(get(n), expected, 1e-11, 1e-11 * size + 1e-300, "output " + n);
            };
            for (int i = 0; i < dim; ++i)
              pbt::close(out[q](i), Lu * v.u[i], 1e-11, 1e-12 * Lu * w.u_size, "output Displacement");
            double sum = 0, abs = 0, edge = 0, screw = 0;
            M3     plastic = zero33();
            for (unsigned a = 0; a < ns; ++a)
              {
                char n[20];
                std::snprintf(n, sizeof(n), "Slip_%02u", a + 1);
                same(n, v.slip[a], w.slip_size);
                sum += v.slip[a];
                abs += std::fabs(v.slip[a]);
                const double ge = dot(v.grad_slip[a], w.ref->S[cr][a]), gs = dot(v.grad_slip[a], w.ref->T[cr][a]);
                edge += ge * ge;
                screw += gs * gs;
                plastic = add(plastic, w.ref->P[cr][a], v.slip[a]);
              }
            if (light)
              continue;
            const double gsize = w.slip_size * 10;
            same("EquivalentPlasticStrain", sum, gsize);
            same("EquivalentAbsolutePlasticStrain", abs, gsize);
            double g2 = 0;
            for (unsigned a = 0; a < ns; ++a)
              g2 += dot(v.grad_slip[a], v.grad_slip[a]);
            same("EquivalentEdgeDislocationDensity", Ld * std::sqrt(edge), Ld * std::sqrt(g2) * 1e3);
            same("EquivalentScrewDislocationDensity", Ld * std::sqrt(screw), Ld * std::sqrt(g2) * 1e3);
            const M3 fl     = sym(v.grad_u);
            const M3 strain = add(fl, macro);
            const M3 el = add(strain, plastic, -w.ref->k(0)), elf = add(fl, plastic, -w.ref->k(0));
            const M3 stress = w.ref->stress(cr, el), stressf = w.ref->stress(cr, elf);
            const double es = maxabs(fl) + maxabs(macro) + w.ref->k(0) * maxabs(plastic), ss = 30 * (maxabs(stress) + maxabs(stressf)) + es;
            same("VonMisesStress", Ls * von_mises(stress, 1.5), Ls * ss);
            same("VonMisesPlasticStrain", von_mises(plastic, 2.0 / 3), gsize);
            static const std::vector<std::pair<std::string, std::pair<int, int>>> voigt = {
              {"11", {0, 0}}, {"22", {1, 1}}, {"33", {2, 2}}, {"23", {1, 2}}, {"13", {0, 2}}, {"12", {0, 1}}};
            for (unsigned b = 0; b < 6; ++b)
              {
                const int         i = voigt[b].second.first, j = voigt[b].second.second;
                const double      f = b < 3 ? 1 : 2;
                const std::string n = voigt[b].first, m = n + (b < 3 ? "" : "x2");
                same("Stress_" + n, Ls * stress[i][j], Ls * ss);
                same("Strain_" + m, f * Le * strain[i][j], Le * es);
                same("ElasticStrain_" + m, f * Le * el[i][j], Le * es);
                same("PlasticStrain_" + m, f * plastic[i][j], gsize);
                if (fluctuations)
                  {
                    same("StressFluctuations_" + n, Ls * stressf[i][j], Ls * ss);
                    same("StrainFluctuations_" + m, f * Le * fl[i][j], Le * es);
                  }
              }
            if (fluctuations)
              same("VonMisesStressFluctuations", Ls * von_mises(stressf, 1.5), Ls * ss);
          }
      }
    (void)nc;
  }

  template <int dim>
  void slip_based(pbt::Case &c)
  {
    World<dim> w;
    w.draw(c);
    auto  &p = w.p;
    Stream r{c.draw(1 << 20)};
    w.state(r);
    gCP::Postprocessing::SlipBasedPostprocessor<dim> post;
    std::shared_ptr<const gCP::CrystalsData<dim>>    crystals = p.crystals;
    const std::string                                name     = c.pick<std::string>({"Slip_resistance_", "x"});
    post.reinit(crystals, name, p.field->get_n_components(), p.field->is_decohesion_allowed());
    const auto names = post.get_names();
    PBT_CHECK(names.size() == p.layout.n_slips && post.get_data_component_interpretation().size() == names.size(), "one output per slip");
    const dealii::QGauss<dim>                    quadrature(2);
    std::vector<dealii::types::global_dof_index> ids;
    for (const auto &cell : p.field->get_dof_handler().active_cell_iterators())
      {
        dealii::FEValues<dim> fe(w.ref->mapping, cell->get_fe(), quadrature, dealii::update_values);
        fe.reinit(cell);
        ids.resize(cell->get_fe().n_dofs_per_cell());
        cell->get_dof_indices(ids);
        dealii::DataPostprocessorInputs::Vector<dim> in;
        const unsigned                               components = p.field->get_n_components();
        in.solution_values.assign(quadrature.size(), dealii::Vector<double>(components));
        in.solution_gradients.assign(quadrature.size(), std::vector<dealii::Tensor<1, dim>>(components));
        fe.get_function_values(w.p.field->solution, in.solution_values);
        in.template set_cell<dim>(cell);
        std::vector<dealii::Vector<double>> out(quadrature.size(), dealii::Vector<double>(names.size()));
        for (auto &o : out)
          for (double &v : o)
            v = r();
        post.evaluate_vector_field(in, out);
        for (unsigned q = 0; q < quadrature.size(); ++q)
          {
            const auto v = w.ref->evaluate(fe, w.x, ids, q, false);
            for (unsigned a = 0; a < names.size(); ++a)
              {
                PBT_CHECK(names[a] == name + std::to_string(a), "output " << a << " is called " << names[a]);
                pbt::close(out[q](a), std::fabs(v.slip[a]), 1e-11, 1e-12 * w.slip_size, "slip based output");
              }
          }
      }
  }
} // namespace

PBT_PROPERTY("P17", "homogenisation-2d", 2) { homogenisation<2>(c); }
PBT_PROPERTY("P17", "homogenisation-3d", 1) { homogenisation<3>(c); }
PBT_PROPERTY("P17", "boundary-stress-2d", 1) { boundary_stress<2>(c); }
PBT_PROPERTY("P17", "boundary-stress-3d", 1) { boundary_stress<3>(c); }
PBT_PROPERTY("P18", "pointwise-2d", 2) { pointwise<2>(c); }
PBT_PROPERTY("P18", "pointwise-3d", 2) { pointwise<3>(c); }
PBT_PROPERTY("P18", "slip-based-2d", 1) { slip_based<2>(c); }
PBT_PROPERTY("P18", "slip-based-3d", 1) { slip_based<3>(c); }
