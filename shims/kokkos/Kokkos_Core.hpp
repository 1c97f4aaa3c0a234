// Simulated Kokkos.  The interface is Kokkos' own; the execution model is the
// simulator's (ksim.hpp): asynchronous kernels, several workers, several teams of
// several threads, vector lanes, preempted at memory accesses, all decided by the seed.
// Views check every index, and in device builds which side may touch them.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <limits>
#include <memory>
#include <new>
#include <numbers>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include "ksim.hpp"
#ifndef KSIM_DEVICE
#define KSIM_DEVICE 0
#endif
#define KOKKOS_FUNCTION
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FORCEINLINE_FUNCTION inline
#define KOKKOS_DEFAULTED_FUNCTION
#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [=, *this]
#define KOKKOS_RESTRICT __restrict__
#define KOKKOS_IF_ON_HOST(CODE) { if (!ksim::in_kernel()) { KSIM_STRIP CODE } }
#define KOKKOS_IF_ON_DEVICE(CODE) { if (ksim::in_kernel()) { KSIM_STRIP CODE } }
#define KSIM_STRIP(...) __VA_ARGS__
#define KOKKOS_VERSION 40600
#define KOKKOS_ASSERT(x) do { if (!(x)) ksim::error("assertion " #x); } while (0)

namespace Kokkos {
// ------------------------------------------------------------------ spaces
struct LayoutLeft {}; struct LayoutRight {}; struct LayoutStride {};
struct HostSpace;
struct SimSpace;                                    // memory of the simulated device
struct SimSharedSpace;
struct Serial {
    using execution_space = Serial; using memory_space = HostSpace; using array_layout = LayoutRight; using size_type = size_t;
    using device_type = Serial; using scratch_memory_space = struct ScratchSpace;
    static constexpr const char* name() { return "Serial"; }
    void fence(const std::string& = "") const { ksim::fence(); }
    int concurrency() const { return 1; }
};
#if KSIM_DEVICE
struct SimDevice {
    using execution_space = SimDevice; using memory_space = SimSpace; using array_layout = LayoutLeft; using size_type = size_t;
    using device_type = SimDevice; using scratch_memory_space = struct ScratchSpace;
    static constexpr const char* name() { return "SimDevice"; }
    void fence(const std::string& = "") const { ksim::fence(); }
    int concurrency() const { return 64; }
};
using DefaultExecutionSpace = SimDevice;
using SharedSpace = SimSharedSpace;
#else
using DefaultExecutionSpace = Serial;
using SharedSpace = HostSpace;
#endif
using DefaultHostExecutionSpace = Serial;
using SharedHostPinnedSpace = HostSpace;
struct HostSpace { using memory_space = HostSpace; using execution_space = Serial; using device_type = HostSpace; static constexpr int ksim_space = KSIM_DEVICE ? 0 : 2; };
struct SimSpace { using memory_space = SimSpace; using execution_space = DefaultExecutionSpace; using device_type = SimSpace; static constexpr int ksim_space = 1; };
struct SimSharedSpace { using memory_space = SimSharedSpace; using execution_space = DefaultExecutionSpace; using device_type = SimSharedSpace; static constexpr int ksim_space = 2; };
struct ScratchSpace { using memory_space = ScratchSpace; using execution_space = DefaultExecutionSpace; using device_type = ScratchSpace; static constexpr int ksim_space = 1; ksim::Member* m = nullptr; int level = 0; bool team = true; };
template <class E> using ScratchMemorySpace = ScratchSpace;
template <class E, class M> struct Device { using execution_space = E; using memory_space = M; using device_type = Device; };
enum MemoryTraitsFlags { Unmanaged = 1, RandomAccess = 2, Atomic = 4, Restrict = 8, Aligned = 16 };
template <unsigned F = 0> struct MemoryTraits { static constexpr unsigned flags = F; };
using MemoryManaged = MemoryTraits<0>; using MemoryUnmanaged = MemoryTraits<Unmanaged>; using MemoryRandomAccess = MemoryTraits<Unmanaged | RandomAccess>;
struct WithoutInitializing_t {}; struct SequentialHostInit_t {}; struct AllowPadding_t {};
inline constexpr WithoutInitializing_t WithoutInitializing{}; inline constexpr SequentialHostInit_t SequentialHostInit{}; inline constexpr AllowPadding_t AllowPadding{};
struct ALL_t { constexpr ALL_t operator()() const { return {}; } };
inline constexpr ALL_t ALL{};
struct AUTO_t { constexpr AUTO_t operator()() const { return {}; } };
inline constexpr AUTO_t AUTO{};
using std::pair; using std::make_pair;
template <class T, size_t N> using Array = std::array<T, N>;
using std::sqrt; using std::exp; using std::log; using std::pow; using std::abs; using std::fabs; using std::sin; using std::cos; using std::tanh; using std::floor; using std::ceil; using std::fmax; using std::fmin; using std::min; using std::max; using std::round; using std::cbrt; using std::isnan; using std::isfinite; using std::swap;
template <class T> T&& forward_(std::remove_reference_t<T>& t) { return static_cast<T&&>(t); }

struct InitializationSettings {
    InitializationSettings& set_num_threads(int) { return *this; }
    InitializationSettings& set_device_id(int) { return *this; }
    InitializationSettings& set_disable_warnings(bool) { return *this; }
    InitializationSettings& set_print_configuration(bool) { return *this; }
    InitializationSettings& set_map_device_id_by(const std::string&) { return *this; }
};
inline bool is_initialized() { return ksim::initialized; }
inline bool is_finalized() { return !ksim::initialized; }
inline void initialize(const InitializationSettings& = {}) { if (ksim::initialized) ksim::error("initialized twice"); ksim::initialized = true; }
inline void initialize(int&, char**) { initialize(); }
inline void finalize() { ksim::fence(); ksim::initialized = false; }
inline void fence(const std::string& = "") { ksim::fence(); }
[[noreturn]] inline void abort(const char* s) { ksim::error(s); throw 0; }
template <class... A> inline void printf(const char*, A&&...) {}

namespace Impl {
template <class T> struct DT { using value = T; static constexpr int dyn = 0; static constexpr std::array<size_t, 0> fixed{}; };
template <class T> struct DT<T*> { using value = typename DT<T>::value; static constexpr int dyn = DT<T>::dyn + 1; };
template <class T> struct Strip { using type = T; static constexpr int n = 0; static void fill(size_t*) {} };
template <class T, size_t N> struct Strip<T[N]> { using type = typename Strip<T>::type; static constexpr int n = 1 + Strip<T>::n; static void fill(size_t* p) { p[0] = N; Strip<T>::fill(p + 1); } };
template <class V, int R> struct Stars { using type = typename Stars<V, R - 1>::type*; };
template <class V> struct Stars<V, 0> { using type = V; };
template <class T> concept IsLayout = std::is_same_v<T, LayoutLeft> || std::is_same_v<T, LayoutRight> || std::is_same_v<T, LayoutStride>;
template <class T> concept IsTraits = requires { T::flags; };
template <class T> concept IsSpace = !IsLayout<T> && !IsTraits<T> && requires { typename T::memory_space; };
template <class... P> struct PickLayout { using type = void; };
template <class A, class... P> struct PickLayout<A, P...> { using type = std::conditional_t<IsLayout<A>, A, typename PickLayout<P...>::type>; };
template <class A> struct MemOf { using type = void; using exec = void; }; template <IsSpace A> struct MemOf<A> { using type = typename A::memory_space; using exec = typename A::execution_space; };
template <class... P> struct PickSpace { using type = void; using exec = void; };
template <class A, class... P> struct PickSpace<A, P...> { using type = std::conditional_t<IsSpace<A>, typename MemOf<A>::type, typename PickSpace<P...>::type>; using exec = std::conditional_t<IsSpace<A>, typename MemOf<A>::exec, typename PickSpace<P...>::exec>; };
template <class... P> struct PickTraits { using type = MemoryManaged; };
template <class A, class... P> struct PickTraits<A, P...> { using type = std::conditional_t<IsTraits<A>, A, typename PickTraits<P...>::type>; };
template <class T> concept Integer = std::is_integral_v<std::remove_cvref_t<T>> || std::is_enum_v<std::remove_cvref_t<T>>;
struct AllocProps { std::string label; bool init = true; };
inline void add_prop(AllocProps& p, const std::string& s) { p.label = s; }
inline void add_prop(AllocProps& p, const char* s) { p.label = s; }
inline void add_prop(AllocProps& p, WithoutInitializing_t) { p.init = false; }
inline void add_prop(AllocProps&, SequentialHostInit_t) {}
inline void add_prop(AllocProps&, AllowPadding_t) {}
template <class S> requires IsSpace<S> inline void add_prop(AllocProps&, const S&) {}
}
template <class... A> Impl::AllocProps view_alloc(A&&... a) { Impl::AllocProps p; (Impl::add_prop(p, a), ...); return p; }

// ------------------------------------------------------------------ views
template <class D, class... P> struct ViewTraits {
    using stripped = Impl::Strip<D>; using dt = Impl::DT<typename stripped::type>;
    using value_type = typename dt::value;
    static constexpr int rank_dynamic = dt::dyn, rank = dt::dyn + stripped::n;
    using memory_space = std::conditional_t<std::is_void_v<typename Impl::PickSpace<P...>::type>, DefaultExecutionSpace::memory_space, typename Impl::PickSpace<P...>::type>;
    using execution_space = std::conditional_t<std::is_void_v<typename Impl::PickSpace<P...>::exec>, DefaultExecutionSpace, typename Impl::PickSpace<P...>::exec>;
    using array_layout = std::conditional_t<std::is_void_v<typename Impl::PickLayout<P...>::type>, typename execution_space::array_layout, typename Impl::PickLayout<P...>::type>;
    using memory_traits = typename Impl::PickTraits<P...>::type;
    using data_type = D;
    using non_const_value_type = std::remove_const_t<value_type>;
    using const_value_type = const non_const_value_type;
    using non_const_data_type = typename Impl::Stars<non_const_value_type, rank>::type;
    using device_type = Device<execution_space, memory_space>;
    using size_type = size_t;
};
template <class D, class... P> class View : public ViewTraits<D, P...> {
public:
    using traits = ViewTraits<D, P...>;
    using typename traits::value_type; using typename traits::memory_space; using typename traits::execution_space; using typename traits::array_layout; using typename traits::memory_traits; using typename traits::non_const_value_type;
    using reference_type = value_type&; using pointer_type = value_type*;
    static constexpr int R = traits::rank; static constexpr int Rank = R;
    static constexpr std::integral_constant<size_t, (size_t)traits::rank> rank{};
    using HostMirror = std::conditional_t<memory_space::ksim_space != 1, View<typename traits::non_const_data_type, array_layout, memory_space>, View<typename traits::non_const_data_type, array_layout, HostSpace>>;
    using host_mirror_type = HostMirror;
    using const_type = View<typename Impl::Stars<const non_const_value_type, R>::type, array_layout, memory_space, memory_traits>;
    using non_const_type = View<typename traits::non_const_data_type, array_layout, memory_space, memory_traits>;
    template <class D2, class... P2> friend class View;

    View() = default;
    View(const View& o) : p(o.p), ext(o.ext), str(o.str), rec(o.rec) { hold(); }
    View(View&& o) noexcept : p(o.p), ext(o.ext), str(o.str), rec(o.rec) { hold(); }
    template <class D2, class... P2> requires (View<D2, P2...>::R == R && std::is_convertible_v<typename View<D2, P2...>::value_type*, value_type*>)
    View(const View<D2, P2...>& o) : p(o.p), rec(o.rec) { for (int i = 0; i < R; ++i) { ext[i] = o.ext[i]; str[i] = o.str[i]; } hold(); }
    View& operator=(const View& o) { if (this != &o) { const View t(o); swap(t); } return *this; }
    View& operator=(View&& o) { if (this != &o) { const View t(o); swap(t); } return *this; }
    ~View() { drop(); }
    template <Impl::Integer... N> explicit View(const std::string& label, N... n) { alloc(label, true, n...); }
    template <Impl::Integer... N> explicit View(const char* label, N... n) { alloc(label, true, n...); }
    template <Impl::Integer... N> explicit View(const Impl::AllocProps& a, N... n) { alloc(a.label, a.init, n...); }
    template <Impl::Integer... N> explicit View(value_type* q, N... n) : p(q) { extents(n...); }
    template <Impl::Integer... N> explicit View(const ScratchSpace& s, N... n) { extents(n...); p = (value_type*)ksim::scratch(*s.m, s.level, size() * sizeof(value_type), s.team); }
    template <Impl::Integer... N> static size_t shmem_size(N... n) { size_t s = sizeof(value_type); ((s *= (size_t)n), ...); return s + 8; }
    template <Impl::Integer... N> static size_t required_allocation_size(N... n) { size_t s = sizeof(value_type); ((s *= (size_t)n), ...); return s; }

    template <Impl::Integer... I> value_type& operator()(I... i) const {
        static_assert(sizeof...(I) == R, "number of indices");
        const long idx[R ? R : 1] = {(long)i...};
        return p[at(idx)];
    }
    template <Impl::Integer I> value_type& operator[](I i) const requires (R == 1) { const long idx[1] = {(long)i}; return p[at(idx)]; }
    template <Impl::Integer... I> value_type& access(I... i) const { return (*this)(i...); }
    template <Impl::Integer I> constexpr size_t extent(I i) const { return (int)i < R ? ext[(int)i] : 1; }
    template <Impl::Integer I> constexpr int extent_int(I i) const { return (int)extent(i); }
    template <Impl::Integer I> constexpr size_t stride(I i) const { return (int)i < R ? str[(int)i] : 1; }
    size_t stride_0() const { return stride(0); } size_t stride_1() const { return stride(1); } size_t stride_2() const { return stride(2); }
    size_t size() const { size_t n = 1; for (int i = 0; i < R; ++i) n *= ext[i]; return n; }
    size_t span() const { size_t n = size() ? 1 : 0; if (n) for (int i = 0; i < R; ++i) n += (ext[i] - 1) * str[i]; return n; }
    bool span_is_contiguous() const { return span() == size(); }
    value_type* data() const { return p; }
    bool is_allocated() const { return p != nullptr; }
    int use_count() const { return rec ? ksim::use_count(rec) : 0; }
    std::string label() const { return rec ? ksim::label(rec) : ""; }
    template <class D2, class... P2> bool operator==(const View<D2, P2...>& o) const { return (const void*)p == (const void*)o.data() && size() == o.size(); }
    template <class D2, class... P2> bool operator!=(const View<D2, P2...>& o) const { return !(*this == o); }

    // simulator side
    const std::array<size_t, (R ? R : 1)>& ksim_ext() const { return ext; }
    const std::array<size_t, (R ? R : 1)>& ksim_str() const { return str; }
    template <class V2, class... X> void ksim_alias(const V2& o, value_type* q) { p = q; rec = o.ksim_rec(); hold(); }
    ksim::Rec* ksim_rec() const { return rec; }
    std::array<size_t, (R ? R : 1)>& ksim_ext() { return ext; }
    std::array<size_t, (R ? R : 1)>& ksim_str() { return str; }
    void ksim_fill_default() const { each([this](const long* i) { p[raw(i)] = value_type(); }); }
    template <class F> void each(const F& f) const {
        if (size() == 0) return;
        long i[R ? R : 1] = {0};
        while (true) {
            f(i);
            int d = R - 1;
            while (d >= 0 && ++i[d] == (long)ext[d]) i[d--] = 0;
            if (d < 0) return;
        }
    }
    size_t raw(const long* i) const { size_t o = 0; for (int d = 0; d < R; ++d) o += (size_t)i[d] * str[d]; return o; }
private:
    value_type* p = nullptr; std::array<size_t, (R ? R : 1)> ext{}, str{}; ksim::Rec* rec = nullptr; bool own = false;
    void hold() { own = rec && ksim::hold(rec); }
    void drop() { if (own) ksim::drop(rec); own = false; }
    void swap(const View& c) { View& o = const_cast<View&>(c); std::swap(p, o.p); std::swap(ext, o.ext); std::swap(str, o.str); std::swap(rec, o.rec); std::swap(own, o.own); }
    inline size_t at(const long* i) const {
        size_t o = 0;
        for (int d = 0; d < R; ++d) { if ((size_t)i[d] >= ext[d]) ksim::oob(rec, d, i[d], ext[d]); o += (size_t)i[d] * str[d]; }
#if KSIM_DEVICE
        if (rec) { const int s = ksim::space(rec); if (s != 2 && (s == 1) != ksim::in_kernel()) ksim::bad_access(ksim::label(rec), s == 1 ? "device memory accessed by host code" : "host memory accessed by a kernel"); }
#endif
        return o;
    }
    template <class... N> void extents(N... n) {
        constexpr int k = sizeof...(N);
        const size_t given[k + 1] = {(size_t)(long)n..., 0};
        if (k != R && k != traits::rank_dynamic) ksim::error("view of rank " + std::to_string(R) + " constructed with " + std::to_string(k) + " extents");
        for (int i = 0; i < k && i < R; ++i) ext[i] = given[i];
        if (k != R) traits::stripped::fill(ext.data() + traits::rank_dynamic);
        size_t s = 1;
        if constexpr (std::is_same_v<array_layout, LayoutLeft>) for (int i = 0; i < R; ++i) { str[i] = s; s *= ext[i]; }
        else for (int i = R - 1; i >= 0; --i) { str[i] = s; s *= ext[i]; }
        for (int i = 0; i < R; ++i) if ((long)ext[i] < 0 || ext[i] > (1ull << 40)) ksim::error("view of a negative or absurd size");
    }
    template <class... N> void alloc(const std::string& label, bool init, N... n) {
        if (ksim::in_kernel()) ksim::bad_access(label.c_str(), "allocation inside a kernel");
        extents(n...);
        using V = non_const_value_type;
        void (*destroy)(void*, size_t) = nullptr;
        if constexpr (!std::is_trivially_destructible_v<V>) destroy = [](void* q, size_t m) { for (size_t i = 0; i < m; ++i) ((V*)q)[i].~V(); };
        const size_t m = size();
        rec = ksim::make_rec(label.c_str(), m * sizeof(V), m, memory_space::ksim_space, destroy);
        own = true;
        p = (value_type*)ksim::memory(rec);
        if constexpr (!std::is_trivially_default_constructible_v<V>) for (size_t i = 0; i < m; ++i) new ((void*)(p + i)) V();
        else if (init && m) ksim::zero((void*)p, m * sizeof(V));
    }
};
template <class T> struct is_view : std::false_type {};
template <class D, class... P> struct is_view<View<D, P...>> : std::true_type {};
template <class T> inline constexpr bool is_view_v = is_view<T>::value;

template <class D, class... P> constexpr unsigned rank(const View<D, P...>&) { return View<D, P...>::R; }

namespace Impl {
template <class... A> constexpr int kept() { return (0 + ... + (Integer<A> ? 0 : 1)); }
template <class A> void slice(const A& a, size_t n, size_t s, size_t& off, size_t* e, size_t* st, int& k, ksim::Rec* rec, int dim) {
    if constexpr (Integer<A>) { if ((size_t)a >= n) ksim::oob(rec, dim, (long)a, n); off += (size_t)a * s; }
    else if constexpr (std::is_same_v<A, ALL_t>) { e[k] = n; st[k++] = s; }
    else { const long b = (long)a.first, c = (long)a.second; if (b < 0 || c < b || (size_t)c > n) ksim::oob(rec, dim, c, n); off += (size_t)b * s; e[k] = (size_t)(c - b); st[k++] = s; }
}
}
template <class D, class... P, class... A> auto subview(const View<D, P...>& v, A... a) {
    using V = View<D, P...>;
    static_assert(sizeof...(A) == V::R, "arguments of subview");
    constexpr int K = Impl::kept<A...>();
    using S = View<typename Impl::Stars<typename V::value_type, K>::type, typename V::array_layout, typename V::memory_space, typename V::memory_traits>;
    S s; size_t off = 0; int k = 0, d = 0;
    ((Impl::slice(a, v.extent(d), v.stride(d), off, s.ksim_ext().data(), s.ksim_str().data(), k, v.ksim_rec(), d), ++d), ...);
    s.ksim_alias(v, v.data() + off);
    return s;
}
template <class V, class... A> using Subview = decltype(subview(std::declval<V>(), std::declval<A>()...));

// ------------------------------------------------------------------ copies
template <class D, class... P, class D2, class... P2> void deep_copy(const View<D, P...>& dst, const View<D2, P2...>& src) {
    using V = View<D, P...>; using W = View<D2, P2...>;
    static_assert(V::R == W::R, "deep_copy between ranks"); static_assert(!std::is_const_v<typename V::value_type>, "deep_copy into const");
    ksim::fence();
    for (int i = 0; i < V::R; ++i) if (dst.extent(i) != src.extent(i)) ksim::error("deep_copy: extents of views \"" + dst.label() + "\" and \"" + src.label() + "\" do not match");
    if ((const void*)dst.data() == (const void*)src.data() && dst.ksim_str() == src.ksim_str()) return;
    dst.each([&](const long* i) { dst.data()[dst.raw(i)] = src.data()[src.raw(i)]; });
}
template <class D, class... P, class T> requires (!is_view_v<std::remove_cvref_t<T>>) void deep_copy(const View<D, P...>& dst, const T& v) {
    ksim::fence();
    const typename View<D, P...>::non_const_value_type x = v;
    dst.each([&](const long* i) { dst.data()[dst.raw(i)] = x; });
}
template <class T, class D, class... P> requires (!is_view_v<T> && !Impl::IsSpace<T>) void deep_copy(T& dst, const View<D, P...>& src) { static_assert(View<D, P...>::R == 0); ksim::fence(); dst = *src.data(); }
template <class E, class A, class B> requires Impl::IsSpace<E> void deep_copy(const E&, const A& a, const B& b) { deep_copy(a, b); }

template <class V> auto create_mirror(const V& v);
namespace Impl {
template <class To, class V, size_t... I> To alloc_like(const V& v, const AllocProps& a, std::index_sequence<I...>) { return To(a, v.extent(I)...); }
template <class To, class V> To like(const V& v, const AllocProps& a) { return alloc_like<To>(v, a, std::make_index_sequence<V::R>()); }
}
template <class D, class... P> auto create_mirror(const View<D, P...>& v) { using V = View<D, P...>; return Impl::like<typename V::HostMirror>(v, {v.label() + "_mirror", true}); }
template <class D, class... P> auto create_mirror(WithoutInitializing_t, const View<D, P...>& v) { using V = View<D, P...>; return Impl::like<typename V::HostMirror>(v, {v.label() + "_mirror", false}); }
template <class D, class... P> auto create_mirror_view(const View<D, P...>& v) {
    using V = View<D, P...>;
    if constexpr (V::memory_space::ksim_space != 1 && !std::is_const_v<typename V::value_type>) return typename V::HostMirror(v); else return create_mirror(v);
}
template <class D, class... P> auto create_mirror_view(WithoutInitializing_t w, const View<D, P...>& v) {
    using V = View<D, P...>;
    if constexpr (V::memory_space::ksim_space != 1 && !std::is_const_v<typename V::value_type>) return typename V::HostMirror(v); else return create_mirror(w, v);
}
template <class S, class D, class... P> requires Impl::IsSpace<S> auto create_mirror_view(const S&, const View<D, P...>& v) {
    using V = View<D, P...>;
    if constexpr (std::is_same_v<typename S::memory_space, typename V::memory_space>) return v;
    else return Impl::like<View<typename V::non_const_data_type, typename V::array_layout, typename S::memory_space>>(v, {v.label(), true});
}
template <class S, class D, class... P> requires Impl::IsSpace<S> auto create_mirror_view_and_copy(const S&, const View<D, P...>& v, const std::string& name = "") {
    using V = View<D, P...>;
    if constexpr (std::is_same_v<typename S::memory_space, typename V::memory_space>) { ksim::fence(); return v; }
    else { auto m = Impl::like<View<typename V::non_const_data_type, typename V::array_layout, typename S::memory_space>>(v, {name.empty() ? v.label() : name, false}); deep_copy(m, v); return m; }
}
template <class D, class... P, Impl::Integer... N> void realloc_(bool init, View<D, P...>& v, N... n) {
    using V = View<D, P...>;
    if (sizeof...(N) != V::R && sizeof...(N) != V::rank_dynamic) ksim::error("realloc of a view of rank " + std::to_string(V::R) + " with " + std::to_string(sizeof...(N)) + " extents");
    const size_t g[] = {(size_t)n..., 0}; bool same = v.data() != nullptr;
    for (int i = 0; i < (int)sizeof...(N) && i < V::R; ++i) same = same && v.extent(i) == g[i];
    if (same) { if (init) { ksim::fence(); v.ksim_fill_default(); } return; }
    const std::string l = v.label();
    v = V();
    v = V(Impl::AllocProps{l, init}, n...);
}
template <class D, class... P, Impl::Integer... N> void realloc(View<D, P...>& v, N... n) { realloc_(true, v, n...); }
template <class D, class... P, Impl::Integer... N> void realloc(WithoutInitializing_t, View<D, P...>& v, N... n) { realloc_(false, v, n...); }
template <class D, class... P, Impl::Integer... N> void realloc(const Impl::AllocProps& a, View<D, P...>& v, N... n) { realloc_(a.init, v, n...); }
template <class D, class... P, Impl::Integer... N> void resize_(bool init, View<D, P...>& v, N... n) {
    using V = View<D, P...>;
    if (sizeof...(N) != V::R && sizeof...(N) != V::rank_dynamic) ksim::error("resize of a view of rank " + std::to_string(V::R) + " with " + std::to_string(sizeof...(N)) + " extents");
    const size_t g[] = {(size_t)n..., 0}; bool same = v.data() != nullptr;
    for (int i = 0; i < (int)sizeof...(N) && i < V::R; ++i) same = same && v.extent(i) == g[i];
    if (same) return;
    ksim::fence();
    V w(Impl::AllocProps{v.label(), init}, n...);
    v.each([&](const long* i) { for (int d = 0; d < V::R; ++d) if (i[d] >= (long)w.extent(d)) return; w.data()[w.raw(i)] = v.data()[v.raw(i)]; });
    v = w;
}
template <class D, class... P, Impl::Integer... N> void resize(View<D, P...>& v, N... n) { resize_(true, v, n...); }
template <class D, class... P, Impl::Integer... N> void resize(WithoutInitializing_t, View<D, P...>& v, N... n) { resize_(false, v, n...); }
template <class D, class... P, Impl::Integer... N> void resize(const Impl::AllocProps& a, View<D, P...>& v, N... n) { resize_(a.init, v, n...); }

// ------------------------------------------------------------------ atomics
#define KSIM_ID(T) std::type_identity_t<T>
template <class T> T atomic_fetch_add(T* p, const KSIM_ID(T) v) { ksim::AtomicGuard g; T o = *p; *p = o + v; return o; }
template <class T> T atomic_fetch_sub(T* p, const KSIM_ID(T) v) { ksim::AtomicGuard g; T o = *p; *p = o - v; return o; }
template <class T> T atomic_fetch_mul(T* p, const KSIM_ID(T) v) { ksim::AtomicGuard g; T o = *p; *p = o * v; return o; }
template <class T> T atomic_fetch_max(T* p, const KSIM_ID(T) v) { ksim::AtomicGuard g; T o = *p; if (o < v) *p = v; return o; }
template <class T> T atomic_fetch_min(T* p, const KSIM_ID(T) v) { ksim::AtomicGuard g; T o = *p; if (v < o) *p = v; return o; }
template <class T> T atomic_fetch_or(T* p, const KSIM_ID(T) v) { ksim::AtomicGuard g; T o = *p; *p = o | v; return o; }
template <class T> T atomic_fetch_and(T* p, const KSIM_ID(T) v) { ksim::AtomicGuard g; T o = *p; *p = o & v; return o; }
template <class T> T atomic_add_fetch(T* p, const KSIM_ID(T) v) { ksim::AtomicGuard g; return *p = *p + v; }
template <class T> T atomic_exchange(T* p, const KSIM_ID(T) v) { ksim::AtomicGuard g; T o = *p; *p = v; return o; }
template <class T> T atomic_compare_exchange(T* p, const KSIM_ID(T) c, const KSIM_ID(T) v) { ksim::AtomicGuard g; T o = *p; if (o == c) *p = v; return o; }
template <class T> void atomic_add(T* p, const KSIM_ID(T) v) { atomic_fetch_add(p, v); }
template <class T> void atomic_sub(T* p, const KSIM_ID(T) v) { atomic_fetch_sub(p, v); }
template <class T> void atomic_max(T* p, const KSIM_ID(T) v) { atomic_fetch_max(p, v); }
template <class T> void atomic_min(T* p, const KSIM_ID(T) v) { atomic_fetch_min(p, v); }
template <class T> void atomic_or(T* p, const KSIM_ID(T) v) { atomic_fetch_or(p, v); }
template <class T> void atomic_and(T* p, const KSIM_ID(T) v) { atomic_fetch_and(p, v); }
template <class T> void atomic_increment(T* p) { atomic_fetch_add(p, T(1)); }
template <class T> void atomic_decrement(T* p) { atomic_fetch_sub(p, T(1)); }
template <class T> void atomic_inc(T* p) { atomic_increment(p); }
template <class T> void atomic_dec(T* p) { atomic_decrement(p); }
template <class T> void atomic_store(T* p, const KSIM_ID(T) v) { ksim::AtomicGuard g; *p = v; }
template <class T> void atomic_assign(T* p, const KSIM_ID(T) v) { atomic_store(p, v); }
template <class T> T atomic_load(T* p) { ksim::AtomicGuard g; return *p; }
inline void memory_fence() {}

// ------------------------------------------------------------------ reducers
namespace Impl {
struct ReducerTag {};
template <class Self, class T> struct Reducer : ReducerTag {
    using value_type = std::remove_cv_t<T>; using reducer = Self;
    T* ptr; Reducer(T& v) : ptr(&v) {}
    template <class D, class... P> Reducer(const View<D, P...>& v) : ptr(v.data()) {}
    T& reference() const { return *ptr; }
};
}
#define KSIM_REDUCER(NAME, INIT, JOIN) template <class T, class S = void> struct NAME : Impl::Reducer<NAME<T, S>, T> { using Impl::Reducer<NAME<T, S>, T>::Reducer; static void init(T& a) { a = INIT; } static void join(T& a, const T& b) { JOIN; } };
KSIM_REDUCER(Sum, T(), a += b)
KSIM_REDUCER(Prod, T(1), a *= b)
KSIM_REDUCER(Max, std::numeric_limits<T>::lowest(), if (a < b) a = b)
KSIM_REDUCER(Min, std::numeric_limits<T>::max(), if (b < a) a = b)
KSIM_REDUCER(LAnd, T(1), a = a && b)
KSIM_REDUCER(LOr, T(0), a = a || b)
namespace Impl {
template <class R> struct Red { using value = R; static void init(R& a) { a = R(); } static void join(R& a, const R& b) { a += b; } static R* target(R& r) { return &r; } static constexpr bool blocking = true; };
template <class R> requires std::is_base_of_v<ReducerTag, R> struct Red<R> { using value = typename R::value_type; static void init(value& a) { R::init(a); } static void join(value& a, const value& b) { R::join(a, b); } static value* target(const R& r) { return r.ptr; } static constexpr bool blocking = true; };
template <class D, class... P> struct Red<View<D, P...>> { using value = typename View<D, P...>::non_const_value_type; static void init(value& a) { a = value(); } static void join(value& a, const value& b) { a += b; } static value* target(const View<D, P...>& r) { return r.data(); } static constexpr bool blocking = false; };
template <class R> using RedOf = Red<std::remove_cvref_t<R>>;
template <class... R> struct Reds {
    using Tuple = std::tuple<typename RedOf<R>::value...>; using Targets = std::tuple<typename RedOf<R>::value*...>;
    static constexpr auto seq = std::index_sequence_for<R...>();
    template <size_t... I> static void init_(Tuple& t, std::index_sequence<I...>) { (RedOf<R>::init(std::get<I>(t)), ...); }
    template <size_t... I> static void join_(Tuple& t, const Tuple& o, std::index_sequence<I...>) { (RedOf<R>::join(std::get<I>(t), std::get<I>(o)), ...); }
    template <size_t... I> static void store_(const Targets& d, const Tuple& t, std::index_sequence<I...>) { ((*std::get<I>(d) = std::get<I>(t)), ...); }
    static void init(Tuple& t) { init_(t, seq); } static void join(Tuple& t, const Tuple& o) { join_(t, o, seq); } static void store(const Targets& d, const Tuple& t) { store_(d, t, seq); }
    static constexpr bool blocking = (false || ... || RedOf<R>::blocking);
};
}

// ------------------------------------------------------------------ policies
template <class T> struct IndexType { using ksim_not_tag = void; }; struct Static { using ksim_not_tag = void; }; struct Dynamic { using ksim_not_tag = void; };
template <class T> struct Schedule { using ksim_not_tag = void; };
template <unsigned A, unsigned B = 0> struct LaunchBounds { using ksim_not_tag = void; };
struct ChunkSize { int v; explicit ChunkSize(int n) : v(n) {} };
enum class Iterate { Default, Left, Right };
template <unsigned N, Iterate A = Iterate::Default, Iterate B = Iterate::Default> struct Rank { static constexpr int rank = N; using ksim_not_tag = void; };
namespace Impl {
template <class A> inline constexpr bool is_tag = std::is_class_v<A> && !IsSpace<A> && !requires { typename A::ksim_not_tag; };
template <class... P> struct PickTag { using type = void; };
template <class A, class... P> struct PickTag<A, P...> { using type = std::conditional_t<is_tag<A>, A, typename PickTag<P...>::type>; };
template <class Tag, class F, class... A> inline void call(const F& f, A&&... a) { if constexpr (std::is_void_v<Tag>) f(static_cast<A&&>(a)...); else f(Tag(), static_cast<A&&>(a)...); }
struct RangeBase {}; struct MDBase {}; struct TeamBase {};
}
#define KSIM_LOOP(i, b, e, s) for (long i = b; (s) > 0 ? i < (e) : i > (e); i += (s))
template <class... P> struct RangePolicy : Impl::RangeBase {
    using tag = typename Impl::PickTag<P...>::type; using execution_space = DefaultExecutionSpace; using member_type = long;
    long b = 0, e = 0;
    RangePolicy() = default;
    RangePolicy(long b_, long e_) : b(b_), e(e_) {}
    RangePolicy(long b_, long e_, ChunkSize) : b(b_), e(e_) {}
    template <class S> requires Impl::IsSpace<S> RangePolicy(const S&, long b_, long e_) : b(b_), e(e_) {}
    RangePolicy& set_chunk_size(int) { return *this; }
    long begin() const { return b; } long end() const { return e; }
};
namespace Impl { template <class... P> struct PickRank { static constexpr int rank = 1; }; template <class A, class... P> struct PickRank<A, P...> { static constexpr int pick() { if constexpr (requires { A::rank; }) return A::rank; else return PickRank<P...>::rank; } static constexpr int rank = pick(); }; }
template <class... P> struct MDRangePolicy : Impl::MDBase {
    static constexpr int N = Impl::PickRank<P...>::rank; using tag = typename Impl::PickTag<P...>::type; using point_type = std::array<int64_t, N>; using tile_type = point_type;
    std::array<int64_t, N> lo{}, hi{};
    template <class A, class B> MDRangePolicy(const A (&a)[N], const B (&b)[N]) { for (int i = 0; i < N; ++i) { lo[i] = a[i]; hi[i] = b[i]; } }
    template <class A, class B, class C> MDRangePolicy(const A (&a)[N], const B (&b)[N], const C (&)[N]) { for (int i = 0; i < N; ++i) { lo[i] = a[i]; hi[i] = b[i]; } }
    MDRangePolicy(const std::array<int64_t, N>& a, const std::array<int64_t, N>& b) : lo(a), hi(b) {}
    MDRangePolicy(const std::array<int64_t, N>& a, const std::array<int64_t, N>& b, const std::array<int64_t, N>&) : lo(a), hi(b) {}
    long count() const { long n = 1; for (int i = 0; i < N; ++i) n *= std::max<int64_t>(0, hi[i] - lo[i]); return n; }
    void split(long k, long* i) const { for (int d = N - 1; d >= 0; --d) { const long w = hi[d] - lo[d]; i[d] = lo[d] + k % w; k /= w; } }
};
struct PerTeamBytes { size_t n; }; struct PerThreadBytes { size_t n; };
class TeamMember;
struct PerTeamStruct { const TeamMember* m; }; struct PerThreadStruct { const TeamMember* m; };
template <Impl::Integer I> PerTeamBytes PerTeam(I n) { return {(size_t)n}; }
template <Impl::Integer I> PerThreadBytes PerThread(I n) { return {(size_t)n}; }
inline PerTeamStruct PerTeam(const TeamMember& m) { return {&m}; }
inline PerThreadStruct PerThread(const TeamMember& m) { return {&m}; }

class TeamMember {
    ksim::Member* m;
public:
    using execution_space = DefaultExecutionSpace; using scratch_memory_space = ScratchSpace;
    explicit TeamMember(ksim::Member& q) : m(&q) {}
    ksim::Member& ksim_member() const { return *m; }
    int league_rank() const { return m->t->rank; }
    int league_size() const { return (int)m->t->league; }
    int team_rank() const { return m->id; }
    int team_size() const { return m->t->size; }
    void team_barrier() const { ksim::barrier(*m); }
    ScratchSpace team_scratch(int l) const { ScratchSpace s; s.m = m; s.level = l; return s; }
    ScratchSpace team_shmem() const { return team_scratch(0); }
    ScratchSpace thread_scratch(int l) const { ScratchSpace s; s.m = m; s.level = l; s.team = false; return s; }
    template <class T> void team_broadcast(T& v, int src) const {
        if (m->t->size == 1) return;
        if (m->id == src) m->t->slot[src] = &v;
        ksim::barrier(*m);
        if (m->id != src) v = *(const T*)m->t->slot[src];
        ksim::barrier(*m);
    }
    template <class F, class T> void team_broadcast(const F& f, T& v, int src) const { f(v); team_broadcast(v, src); }
    template <class R> void team_reduce(const R& r) const { typename R::value_type x = r.reference(); combine(x, [](auto& a, const auto& b) { R::join(a, b); }); r.reference() = x; }
    template <class R, class T> void team_reduce(const R& r, T& v) const { combine(v, [](auto& a, const auto& b) { R::join(a, b); }); r.reference() = v; }
    template <class T, class J> void combine(T& v, const J& join) const {     // everyone gets the combination of all
        if (m->t->size == 1) return;
        const T mine = v;
        m->t->slot[m->id] = &mine;
        ksim::barrier(*m);
        T r = *(const T*)m->t->slot[0];
        for (int i = 1; i < m->t->size; ++i) join(r, *(const T*)m->t->slot[i]);
        ksim::barrier(*m);
        v = r;
    }
    template <class T> T team_scan(const T& v, T* total = nullptr) const {
        if (m->t->size == 1) { T r = T(); if (total) { r = *total; *total += v; } return r; }
        m->t->slot[m->id] = &v;
        ksim::barrier(*m);
        T r = T(), all = T(); for (int i = 0; i < m->t->size; ++i) { const T& x = *(const T*)m->t->slot[i]; if (i < m->id) r += x; all += x; }
        ksim::barrier(*m);
        if (total) { if (m->id == 0) *total += all; }
        return r;
    }
};
namespace Impl { inline int size_arg(AUTO_t) { return 0; } template <Integer I> int size_arg(I i) { return (int)i; } }
template <class... P> struct TeamPolicy : Impl::TeamBase {
    using tag = typename Impl::PickTag<P...>::type; using member_type = TeamMember; using execution_space = DefaultExecutionSpace;
    long league = 0; int size = 0; size_t team_bytes[2] = {0, 0}, thread_bytes[2] = {0, 0};
    TeamPolicy() = default;
    template <Impl::Integer L, class T> TeamPolicy(L n, T t) : league((long)n), size(Impl::size_arg(t)) {}
    template <Impl::Integer L, class T, class V> TeamPolicy(L n, T t, V v) : league((long)n), size(Impl::size_arg(t)) { Impl::size_arg(v); }
    template <class S, Impl::Integer L, class T> requires Impl::IsSpace<S> TeamPolicy(const S&, L n, T t) : league((long)n), size(Impl::size_arg(t)) {}
    template <class S, Impl::Integer L, class T, class V> requires Impl::IsSpace<S> TeamPolicy(const S&, L n, T t, V) : league((long)n), size(Impl::size_arg(t)) {}
    TeamPolicy& set_scratch_size(int l, PerTeamBytes b) { team_bytes[l] = b.n; return *this; }
    TeamPolicy& set_scratch_size(int l, PerThreadBytes b) { thread_bytes[l] = b.n; return *this; }
    TeamPolicy& set_scratch_size(int l, PerTeamBytes b, PerThreadBytes c) { team_bytes[l] = b.n; thread_bytes[l] = c.n; return *this; }
    TeamPolicy& set_chunk_size(int) { return *this; }
    int team_size() const { return size ? size : 1; } int league_size() const { return (int)league; }
    template <class F, class T> int team_size_recommended(const F&, const T&) const { return 4; }
    template <class F, class T> int team_size_max(const F&, const T&) const { return 64; }
    static int vector_length_max() { return 32; }
};
template <class P> concept ksim_policy = Impl::Integer<P> || std::is_base_of_v<Impl::RangeBase, P> || std::is_base_of_v<Impl::MDBase, P> || std::is_base_of_v<Impl::TeamBase, P>;

// ------------------------------------------------------------------ top-level dispatch
namespace Impl {
template <class P, class F, class... R> void run_one(const P& p, const F& f, const typename Reds<R...>::Targets* dst, std::type_identity<std::tuple<R...>>) {
    using RD = Reds<R...>; using T = typename RD::Tuple; constexpr bool red = sizeof...(R) > 0;
    std::vector<T> acc; T total; RD::init(total);
    auto range = [&](long n, const auto& one) {
        const int W = ksim::range_workers(n);
        acc.resize(W); for (auto& a : acc) RD::init(a);
        ksim::for_range(n, [&](int w, long b, long e, long s) { KSIM_LOOP(i, b, e, s) one(i, acc[w]); });
        for (auto& a : acc) RD::join(total, a);
    };
    if constexpr (std::is_integral_v<P> || std::is_enum_v<P>) range((long)p, [&](long i, T& a) { std::apply([&](auto&... r) { f(i, r...); }, a); });
    else if constexpr (std::is_base_of_v<RangeBase, P>) range(std::max(0l, p.e - p.b), [&](long i, T& a) { std::apply([&](auto&... r) { call<typename P::tag>(f, p.b + i, r...); }, a); });
    else if constexpr (std::is_base_of_v<MDBase, P>) range(p.count(), [&](long k, T& a) {
        std::array<long, P::N> i; p.split(k, i.data());
        std::apply([&](auto... ix) { std::apply([&](auto&... r) { call<typename P::tag>(f, ix..., r...); }, a); }, i);
    });
    else {
        ksim::for_league(p.league, p.size, p.team_bytes, p.thread_bytes, [&](ksim::Member& m) {
            T mine; RD::init(mine);
            std::apply([&](auto&... r) { call<typename P::tag>(f, TeamMember(m), r...); }, mine);
            if constexpr (red) { ksim::AtomicGuard g; RD::join(total, mine); }
        });
    }
    if constexpr (red) RD::store(*dst, total);
}
template <class P, class F, class... R> void dispatch(const char* label, const P& p, const F& f, R&... r) {
    using RD = Reds<R...>;
    typename RD::Targets dst(RedOf<R>::target(r)...);
    ksim::submit(label, [p, f, dst] { run_one<P, F, R...>(p, f, &dst, std::type_identity<std::tuple<R...>>()); }, RD::blocking && sizeof...(R) > 0);
}
}
template <class P, class F> requires ksim_policy<P> void parallel_for(const std::string& l, const P& p, const F& f) { Impl::dispatch(l.c_str(), p, f); }
template <class P, class F> requires ksim_policy<P> void parallel_for(const P& p, const F& f) { Impl::dispatch("", p, f); }
template <class P, class F> requires ksim_policy<P> void parallel_for(const P& p, const F& f, const std::string& l) { Impl::dispatch(l.c_str(), p, f); }
template <class P, class F, class... R> requires ksim_policy<P> void parallel_reduce(const std::string& l, const P& p, const F& f, R&&... r) { Impl::dispatch(l.c_str(), p, f, r...); }
template <class P, class F, class... R> requires ksim_policy<P> void parallel_reduce(const P& p, const F& f, R&&... r) { Impl::dispatch("", p, f, r...); }

namespace Impl {
template <class T> struct Arg2;
template <class C, class R, class A, class B, class... X> struct Arg2<R (C::*)(A, B, X...) const> { using type = std::remove_cvref_t<B>; };
template <class C, class R, class A, class B, class... X> struct Arg2<R (C::*)(A, B, X...)> { using type = std::remove_cvref_t<B>; };
template <class F, class D> struct ScanValue { using type = D; };
template <class F, class D> requires requires { typename F::value_type; } struct ScanValue<F, D> { using type = typename F::value_type; };
template <class F, class D> requires (!requires { typename F::value_type; } && requires { &F::operator(); }) struct ScanValue<F, D> { using type = typename Arg2<decltype(&F::operator())>::type; };
template <class V, class F> V scan(long n, long first, const F& f) {
    const int C = ksim::scan_chunks(n);
    if (C <= 1) { V v = V(); ksim::for_serial([&] { for (long i = 0; i < n; ++i) f(first + i, v, true); }); return v; }
    std::vector<V> part(C, V()); const long c = (n + C - 1) / C;
    auto pass = [&](bool final) {
        ksim::range_workers(C);
        ksim::for_range(C, [&](int, long b, long e, long s) { KSIM_LOOP(q, b, e, s) { V v = part[q]; for (long i = q * c; i < std::min(n, (q + 1) * c); ++i) f(first + i, v, final); part[q] = v; } });
    };
    pass(false);
    V run = V(); for (auto& p : part) { const V t = p; p = run; run += t; }
    pass(true);
    return run;
}
template <class F, class V> void do_scan(const char* l, long b, long e, const F& f, V* res) {
    ksim::submit(l, [b, e, f, res] { const V t = scan<V>(std::max(0l, e - b), b, f); if (res) *res = t; }, res != nullptr);
}
template <class P> std::pair<long, long> bounds(const P& p) { if constexpr (std::is_integral_v<P>) return {0, (long)p}; else return {p.b, p.e}; }
}
template <class P, class F> requires ksim_policy<P> void parallel_scan(const std::string& l, const P& p, const F& f) { auto [b, e] = Impl::bounds(p); using V = typename Impl::ScanValue<F, long>::type; Impl::do_scan<F, V>(l.c_str(), b, e, f, nullptr); }
template <class P, class F> requires ksim_policy<P> void parallel_scan(const P& p, const F& f) { parallel_scan(std::string(), p, f); }
template <class P, class F, class V> requires (ksim_policy<P> && !is_view_v<V>) void parallel_scan(const std::string& l, const P& p, const F& f, V& r) { auto [b, e] = Impl::bounds(p); Impl::do_scan<F, V>(l.c_str(), b, e, f, &r); }
template <class P, class F, class V> requires (ksim_policy<P> && !is_view_v<V>) void parallel_scan(const P& p, const F& f, V& r) { parallel_scan(std::string(), p, f, r); }

// ------------------------------------------------------------------ nested ranges
namespace Impl {
struct NestedRange { ksim::Member* m; long b, n; int kind; };          // kind 0 team, 1 thread's lanes
template <int N> struct NestedMD { ksim::Member* m; std::array<long, N> ext; int kind; long count() const { long n = 1; for (long e : ext) n *= std::max(0l, e); return n; } void split(long k, long* i) const { for (int d = N - 1; d >= 0; --d) { i[d] = k % ext[d]; k /= ext[d]; } } };
template <class F> void nested(ksim::Member& m, int kind, long n, const F& one) {
    if (kind == 1) { ksim::for_lanes(m, n, [&](int w, long b, long e, long s) { KSIM_LOOP(i, b, e, s) one(i, w); }); return; }
    long b, e, s; ksim::my_share(m, n, b, e, s);
    KSIM_LOOP(i, b, e, s) one(i, 0);
}
}
template <Impl::Integer I> Impl::NestedRange TeamThreadRange(const TeamMember& m, I n) { return {&m.ksim_member(), 0, (long)n, 0}; }
template <Impl::Integer I, Impl::Integer J> Impl::NestedRange TeamThreadRange(const TeamMember& m, I b, J e) { return {&m.ksim_member(), (long)b, (long)e - (long)b, 0}; }
template <Impl::Integer I> Impl::NestedRange TeamVectorRange(const TeamMember& m, I n) { return {&m.ksim_member(), 0, (long)n, 0}; }
template <Impl::Integer I, Impl::Integer J> Impl::NestedRange TeamVectorRange(const TeamMember& m, I b, J e) { return {&m.ksim_member(), (long)b, (long)e - (long)b, 0}; }
template <Impl::Integer I> Impl::NestedRange ThreadVectorRange(const TeamMember& m, I n) { return {&m.ksim_member(), 0, (long)n, 1}; }
template <Impl::Integer I, Impl::Integer J> Impl::NestedRange ThreadVectorRange(const TeamMember& m, I b, J e) { return {&m.ksim_member(), (long)b, (long)e - (long)b, 1}; }
template <class RK, class M> struct TeamThreadMDRange : Impl::NestedMD<RK::rank> { template <class... I> TeamThreadMDRange(const M& m, I... n) : Impl::NestedMD<RK::rank>{&m.ksim_member(), {(long)n...}, 0} {} };
template <class RK, class M> struct TeamVectorMDRange : Impl::NestedMD<RK::rank> { template <class... I> TeamVectorMDRange(const M& m, I... n) : Impl::NestedMD<RK::rank>{&m.ksim_member(), {(long)n...}, 0} {} };
template <class RK, class M> struct ThreadVectorMDRange : Impl::NestedMD<RK::rank> { template <class... I> ThreadVectorMDRange(const M& m, I... n) : Impl::NestedMD<RK::rank>{&m.ksim_member(), {(long)n...}, 1} {} };
template <class F> void parallel_for(const Impl::NestedRange& r, const F& f) { Impl::nested(*r.m, r.kind, r.n, [&](long i, int) { f(r.b + i); }); }
template <int N, class F> void parallel_for(const Impl::NestedMD<N>& r, const F& f) { Impl::nested(*r.m, r.kind, r.count(), [&](long k, int) { std::array<long, N> i; r.split(k, i.data()); std::apply([&](auto... ix) { f(ix...); }, i); }); }
namespace Impl {
template <class G, class... R> void nested_reduce(ksim::Member& m, int kind, long n, const G& one, R&... r) {
    using RD = Reds<R...>; using T = typename RD::Tuple;
    T total; RD::init(total);
    if (kind == 1) {
        const int L = ksim::lane_workers(m, n);
        std::array<T, 8> acc; for (auto& a : acc) RD::init(a);
        nested(m, 1, n, [&](long i, int w) { one(i, acc[w]); });
        for (int w = 0; w < L; ++w) RD::join(total, acc[w]);
    } else {
        nested(m, 0, n, [&](long i, int) { one(i, total); });
        TeamMember(m).combine(total, [](T& a, const T& b) { RD::join(a, b); });
    }
    RD::store(typename RD::Targets(RedOf<R>::target(r)...), total);
}
}
template <class F, class... R> void parallel_reduce(const Impl::NestedRange& r, const F& f, R&&... res) { Impl::nested_reduce(*r.m, r.kind, r.n, [&](long i, auto& a) { std::apply([&](auto&... x) { f(r.b + i, x...); }, a); }, res...); }
template <int N, class F, class... R> void parallel_reduce(const Impl::NestedMD<N>& r, const F& f, R&&... res) { Impl::nested_reduce(*r.m, r.kind, r.count(), [&](long k, auto& a) { std::array<long, N> i; r.split(k, i.data()); std::apply([&](auto... ix) { std::apply([&](auto&... x) { f(ix..., x...); }, a); }, i); }, res...); }
template <class F> void parallel_scan(const Impl::NestedRange& r, const F& f) {
    using V = typename Impl::ScanValue<F, long>::type;
    if (r.kind == 1 || r.m->t->size == 1) { V v = V(); for (long i = 0; i < r.n; ++i) f(r.b + i, v, true); return; }
    const int T = r.m->t->size; const long c = (r.n + T - 1) / T, b = std::min(r.n, c * r.m->id), e = std::min(r.n, b + c);
    V v = V(); for (long i = b; i < e; ++i) f(r.b + i, v, false);
    V off = TeamMember(*r.m).team_scan(v);
    for (long i = b; i < e; ++i) f(r.b + i, off, true);
    ksim::barrier(*r.m);
}
template <class F> void single(const PerTeamStruct& s, const F& f) { if (s.m->team_rank() == 0) f(); }
template <class F> void single(const PerThreadStruct&, const F& f) { f(); }
template <class F, class T> void single(const PerTeamStruct& s, const F& f, T& v) { if (s.m->team_rank() == 0) f(v); s.m->team_broadcast(v, 0); }
template <class F, class T> void single(const PerThreadStruct&, const F& f, T& v) { f(v); }

// ------------------------------------------------------------------ bitset
template <class Dev = DefaultExecutionSpace> class BitsetT {
    View<unsigned*, typename Dev::memory_space> w; unsigned n = 0;
public:
    BitsetT(unsigned n_ = 0) : w("Bitset", (n_ + 31) / 32), n(n_) {}
    unsigned size() const { return n; }
    bool set(unsigned i) const { if (i >= n) return false; const unsigned b = 1u << (i % 32); return !(atomic_fetch_or(&w(i / 32), b) & b); }
    bool reset(unsigned i) const { if (i >= n) return false; const unsigned b = 1u << (i % 32); return atomic_fetch_and(&w(i / 32), ~b) & b; }
    bool test(unsigned i) const { if (i >= n) return false; return w(i / 32) >> (i % 32) & 1; }
    void clear() { deep_copy(w, 0u); } void reset() { clear(); }
    void set() { deep_copy(w, ~0u); }
    unsigned count() const { ksim::fence(); unsigned c = 0; for (unsigned i = 0; i < n; ++i) c += w.data()[i / 32] >> (i % 32) & 1; return c; }
};
using Bitset = BitsetT<>;

// ------------------------------------------------------------------ small utilities
namespace numbers { using namespace std::numbers; }
template <class T> void kokkos_swap(T& a, T& b) { std::swap(a, b); }
struct Timer { void reset() {} double seconds() const { return 0; } };   // no clock in the simulation
namespace Profiling { inline void pushRegion(const std::string&) {} inline void popRegion() {} struct ScopedRegion { explicit ScopedRegion(const std::string&) {} }; }
namespace Tools { using namespace Profiling; }
}
