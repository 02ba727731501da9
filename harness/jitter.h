// A mapping which delays the threads evaluating it: generated schedules.
#ifndef VERIF_JITTER_H
#define VERIF_JITTER_H

#include <deal.II/base/multithread_info.h>
#include <deal.II/fe/mapping_q.h>

#include <atomic>
#include <chrono>
#include <cstdlib>
#include <memory>
#include <thread>
#include <vector>

namespace vf
{
  struct Schedule
  {
    enum Kind { free, delays, meeting } kind = free;
    std::atomic<uint64_t>                count{0};
    std::atomic<unsigned>                met{0};
    uint64_t                             seed = 0;
    bool                                 on   = false;
    // threads that are at a face
    std::vector<std::atomic<int>>        at;

    static void spin(const double microseconds)
    {
      const auto end = std::chrono::steady_clock::now() + std::chrono::nanoseconds(int64_t(1000 * microseconds));
      while (std::chrono::steady_clock::now() < end)
        ;
    }
    void pass()
    {
      if (!on || kind == free)
        return;
      uint64_t x = seed + 0x9E3779B97F4A7C15ull * ++count;
      x          = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
      x ^= x >> 27;
      if (x % 4 == 0)
        spin((x >> 8) % 40);
      else if (x % 16 == 1)
        std::this_thread::yield();
    }
    // two threads leave a face together, or one after a while
    void meet(const unsigned face)
    {
      if (!on || kind != meeting || face >= at.size())
        return;
      auto &a = at[face];
      if (a.fetch_add(1) % 2 == 1)
        {
          ++met;
          return;
        }
      const int  mine = a.load() | 1;
      const auto end  = std::chrono::steady_clock::now() + std::chrono::microseconds(60);
      while (a.load() < mine + 1 && std::chrono::steady_clock::now() < end)
        ;
    }
  };

  template <int dim>
  class JitterMapping : public dealii::MappingQ<dim>
  {
  public:
    explicit JitterMapping(const std::shared_ptr<Schedule> &s)
      : dealii::MappingQ<dim>(1)
      , schedule(s)
    {}
    std::unique_ptr<dealii::Mapping<dim>> clone() const override { return std::make_unique<JitterMapping<dim>>(schedule); }

  protected:
    using Base = dealii::MappingQ<dim>;
    dealii::CellSimilarity::Similarity fill_fe_values(const typename dealii::Triangulation<dim>::cell_iterator &cell,
                                                      const dealii::CellSimilarity::Similarity                  similarity,
                                                      const dealii::Quadrature<dim>                            &quadrature,
                                                      const typename dealii::Mapping<dim>::InternalDataBase    &data,
                                                      dealii::internal::FEValuesImplementation::MappingRelatedData<dim, dim> &out) const override
    {
      schedule->pass();
      return Base::fill_fe_values(cell, similarity, quadrature, data, out);
    }
    using Base::fill_fe_face_values;
    void fill_fe_face_values(const typename dealii::Triangulation<dim>::cell_iterator &cell,
                             const unsigned                                            face,
                             const dealii::hp::QCollection<dim - 1>                   &quadrature,
                             const typename dealii::Mapping<dim>::InternalDataBase    &data,
                             dealii::internal::FEValuesImplementation::MappingRelatedData<dim, dim> &out) const override
    {
      schedule->pass();
      Base::fill_fe_face_values(cell, face, quadrature, data, out);
      if (!cell->face(face)->at_boundary())
        schedule->meet(cell->face(face)->index());
    }

  private:
    std::shared_ptr<Schedule> schedule;
  };

  // several threads until the end of its life
  struct Threads
  {
    explicit Threads(const unsigned n)
    {
      unsetenv("DEAL_II_NUM_THREADS");
      dealii::MultithreadInfo::set_thread_limit(n);
    }
    ~Threads() { dealii::MultithreadInfo::set_thread_limit(1); }
  };
} // namespace vf
#endif
