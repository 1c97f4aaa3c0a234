// Stand-in for what a Kokkos pair style sees of LAMMPS' KOKKOS package: dual views that
// must be synchronised, Kokkos atoms, maps and neighbour lists, device communication.
#pragma once
#include <memory>
#include <type_traits>
#include "Kokkos_Core.hpp"
#include "lmp_sim.h"
#if KSIM_DEVICE
#define LMP_KOKKOS_GPU
#endif
typedef Kokkos::DefaultExecutionSpace LMPDeviceType;
typedef Kokkos::DefaultHostExecutionSpace LMPHostType;
typedef double KK_FLOAT, KK_ACC_FLOAT;
namespace LAMMPS_NS {
enum : unsigned { EMPTY_MASK = 0, ALL_MASK = 0xffffffffu, X_MASK = 1, V_MASK = 2, F_MASK = 4, TAG_MASK = 8, TYPE_MASK = 16, MASK_MASK = 32, IMAGE_MASK = 64, Q_MASK = 128, RMASS_MASK = 256, ENERGY_MASK = 1u << 16, VIRIAL_MASK = 1u << 17 };
}
template <class Dev> struct ExecutionSpaceFromDevice { static const LAMMPS_NS::ExecutionSpace space = LAMMPS_NS::Device; };
template <> struct ExecutionSpaceFromDevice<LMPHostType> { static const LAMMPS_NS::ExecutionSpace space = LAMMPS_NS::Host; };

// a host and a device copy of one array; one memory in host builds
template <class D, class Layout = Kokkos::LayoutRight> struct KDual {
    using t_dev = Kokkos::View<D, Layout, LMPDeviceType>; using t_host = Kokkos::View<D, Layout, LMPHostType>;
    using t_dev_um = t_dev; using t_host_um = t_host; using value_type = typename t_host::value_type;
    t_dev d_view; t_host h_view; std::shared_ptr<std::array<int, 2>> mod = std::make_shared<std::array<int, 2>>();   // modified on the host, on the device
    KDual() = default;
    template <class... N> explicit KDual(const std::string& l, N... n) : d_view(l, n...) { if constexpr (std::is_same_v<t_dev, t_host>) h_view = d_view; else h_view = t_host(l, n...); }
    template <class Dev> static constexpr bool host() { return std::is_same_v<typename Dev::memory_space, Kokkos::HostSpace>; }
    template <class Dev> auto view() const { if constexpr (host<Dev>()) return h_view; else return d_view; }
    template <class Dev> auto const_view() const { return view<Dev>(); }
    auto view_host() const { return h_view; } auto view_device() const { return d_view; }
    template <class Dev> void modify() { (*mod)[host<Dev>() ? 0 : 1] = 1; }
    void modify_host() { (*mod)[0] = 1; } void modify_device() { (*mod)[1] = 1; }
    void sync_host() { if ((*mod)[1]) { Kokkos::fence(); if constexpr (!std::is_same_v<t_dev, t_host>) Kokkos::deep_copy(h_view, d_view); *mod = {0, 0}; } }
    void sync_device() { if ((*mod)[0]) { Kokkos::fence(); if constexpr (!std::is_same_v<t_dev, t_host>) Kokkos::deep_copy(d_view, h_view); *mod = {0, 0}; } }
    template <class Dev> void sync() { if constexpr (host<Dev>()) sync_host(); else sync_device(); }
    template <class Dev> bool need_sync() const { return (*mod)[host<Dev>() ? 1 : 0]; }
    bool need_sync_host() const { return (*mod)[1]; } bool need_sync_device() const { return (*mod)[0]; }
    void clear_sync_state() { *mod = {0, 0}; }
    template <class I> size_t extent(I i) const { return d_view.extent(i); }
    template <class... N> void realloc(N... n) { *this = KDual(d_view.label(), n...); }
    template <class... N> void resize(N... n) { Kokkos::resize(d_view, n...); if constexpr (std::is_same_v<t_dev, t_host>) h_view = d_view; else Kokkos::resize(h_view, n...); }
};
struct DAT {
    typedef KDual<int*> tdual_int_1d; typedef KDual<int**> tdual_int_2d; typedef KDual<LAMMPS_NS::tagint*> tdual_tagint_1d;
    typedef KDual<double*> tdual_double_1d, tdual_float_1d, tdual_xfloat_1d, tdual_efloat_1d, ttransform_kkacc_1d, ttransform_kkfloat_1d;
    typedef KDual<double**> tdual_double_2d; typedef KDual<double*[3]> ttransform_kkfloat_1d_3_lr, ttransform_kkacc_1d_3, tdual_x_array, tdual_f_array; typedef KDual<double*[6]> ttransform_kkacc_1d_6, tdual_virial_array;
    typedef tdual_int_1d::t_dev t_int_1d; typedef tdual_double_1d::t_dev t_double_1d; typedef tdual_x_array::t_dev t_x_array, t_f_array;
};
template <class Dev> struct ArrayTypes : DAT {};
// tag -> local index
struct KHash {
    KDual<int*> keys, vals; int n = 0;
    template <class Dev> void sync() { keys.template sync<Dev>(); vals.template sync<Dev>(); }
    template <class Dev> void modify() { keys.template modify<Dev>(); vals.template modify<Dev>(); }
    void sync_host() { keys.sync_host(); vals.sync_host(); } void sync_device() { keys.sync_device(); vals.sync_device(); }
    template <class Dev> int find(int t) const { auto k = keys.template view<Dev>(); auto v = vals.template view<Dev>(); for (int i = 0; i < n; ++i) if (k(i) == t) return v(i); return -1; }
};
typedef KHash dual_hash_type;
namespace LAMMPS_NS {
class KokkosLMP { public: int kokkos_exists = 1, neighflag = 0, newtonflag = 1, forward_pair_comm_legacy = 0, reverse_pair_comm_legacy = 0, ngpus = KSIM_DEVICE, gpu_aware_flag = 1; };
class AtomKokkos : public Atom {
 public:
  using Atom::Atom;
  DAT::tdual_x_array k_x; DAT::tdual_f_array k_f; DAT::tdual_tagint_1d k_tag; DAT::tdual_int_1d k_type, k_map_array; dual_hash_type k_map_hash;
  void sync(const ExecutionSpace s, unsigned mask) {
    auto one = [&](unsigned m, auto &k) { if (mask & m) { if (s == Device) k.sync_device(); else k.sync_host(); } };
    one(X_MASK, k_x); one(F_MASK, k_f); one(TAG_MASK, k_tag); one(TYPE_MASK, k_type);
  }
  void modified(const ExecutionSpace s, unsigned mask) {
    auto one = [&](unsigned m, auto &k) { if (mask & m) { if (s == Device) k.modify_device(); else k.modify_host(); } };
    one(X_MASK, k_x); one(F_MASK, k_f); one(TAG_MASK, k_tag); one(TYPE_MASK, k_type);
  }
  void sync_overlapping_device(const ExecutionSpace s, unsigned m) { sync(s, m); }
  template <class Dev> static int map_kokkos(tagint t, int style, const DAT::tdual_int_1d &a, const dual_hash_type &h) {
    if (style == MAP_ARRAY) return a.view<Dev>()(t);
    if (style == MAP_HASH) return h.find<Dev>(t);
    return -1;
  }
};
class MemoryKokkos : public Memory {
 public:
  template <class T> T create_kokkos(T &data, typename T::value_type *&array, int n, const char *name) { data = T(std::string(name), n); array = data.h_view.data(); return data; }
  template <class T> T create_kokkos(T &data, int n, const char *name) { data = T(std::string(name), n); return data; }
  template <class T> void destroy_kokkos(T data, typename T::value_type *&array) { if (array == nullptr) return; data = T(); array = nullptr; }
  template <class T> void destroy_kokkos(T &data) { data = T(); }
};
class KokkosBase {
 public:
  virtual ~KokkosBase() = default;
  virtual int pack_forward_comm_kokkos(int, DAT::tdual_int_1d, DAT::tdual_double_1d &, int, int *) { return 0; }
  virtual void unpack_forward_comm_kokkos(int, int, DAT::tdual_double_1d &) {}
  virtual int pack_reverse_comm_kokkos(int, int, DAT::tdual_double_1d &) { return 0; }
  virtual void unpack_reverse_comm_kokkos(int, DAT::tdual_int_1d, DAT::tdual_double_1d &) {}
};
template <class Dev> class NeighListKokkos : public NeighList {
 public:
  Kokkos::View<int**, typename Dev::array_layout, Dev> d_neighbors; Kokkos::View<int*, Dev> d_numneigh, d_ilist; int maxneighs = 0;
};
}
