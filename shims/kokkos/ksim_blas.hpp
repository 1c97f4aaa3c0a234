// KokkosKernels routines used by the library, on the simulated execution model.
#pragma once
#include "Kokkos_Core.hpp"
namespace KokkosBatched {
struct Trans { struct NoTranspose {}; struct Transpose {}; struct ConjTranspose {}; };
struct Algo { struct Gemm { struct Unblocked {}; struct Blocked {}; }; struct Gemv { struct Unblocked {}; struct Blocked {}; }; };
struct Mode { struct Serial {}; struct Team {}; struct TeamVector {}; };
template <class TA, class TB, class V1, class V2> struct ksim_mul {
    static constexpr bool ta = !std::is_same_v<TA, Trans::NoTranspose>, tb = !std::is_same_v<TB, Trans::NoTranspose>;
    const V1& A; const V2& B;
    long inner() const { return (long)A.extent(ta ? 0 : 1); }
    auto operator()(long i, long j) const { using T = std::remove_const_t<typename V1::value_type>; T s = 0; for (long k = 0; k < inner(); ++k) s += (ta ? A(k, i) : A(i, k)) * (tb ? B(j, k) : B(k, j)); return s; }
};
template <class Member, class TA, class TB, class Alg> struct TeamGemm {
    template <class S, class V1, class V2, class V3> static int invoke(const Member& m, const S alpha, const V1& A, const V2& B, const S beta, const V3& C) {
        const ksim_mul<TA, TB, V1, V2> mul{A, B};
        const long M = (long)C.extent(0), N = (long)C.extent(1), K = mul.inner();
        if ((long)A.extent(mul.ta ? 1 : 0) != M || (long)B.extent(mul.tb ? 0 : 1) != N || (long)B.extent(mul.tb ? 1 : 0) != K) ksim::error("TeamGemm: extents do not match");
        if (M <= 0 || N <= 0) return 0;
        using T = std::remove_const_t<typename V3::value_type>;
        if (beta != S(1)) {
            Kokkos::parallel_for(Kokkos::TeamThreadRange(m, M * N), [&](const int q) { T& c = C(q / N, q % N); c = beta == S(0) ? T(0) : T(beta * c); });
            m.team_barrier();
        }
        if (alpha != S(0) && K > 0) Kokkos::parallel_for(Kokkos::TeamThreadRange(m, M * N), [&](const int q) { const T v = alpha * mul(q / N, q % N); C(q / N, q % N) += v; });
        return 0;
    }
};
template <class Member, class TA, class TB, class Alg> struct TeamVectorGemm : TeamGemm<Member, TA, TB, Alg> {};
template <class TA, class TB, class Alg> struct SerialGemm {
    template <class S, class V1, class V2, class V3> static int invoke(const S alpha, const V1& A, const V2& B, const S beta, const V3& C) {
        const ksim_mul<TA, TB, V1, V2> mul{A, B};
        for (long i = 0; i < (long)C.extent(0); ++i) for (long j = 0; j < (long)C.extent(1); ++j) C(i, j) = (beta == S(0) ? 0 : beta * C(i, j)) + alpha * mul(i, j);
        return 0;
    }
};
}
namespace KokkosBlas {
using KokkosBatched::Trans; using KokkosBatched::Algo;
template <class TA, class Alg> struct SerialGemv {
    template <class S, class V1, class V2, class V3> static int invoke(const S alpha, const V1& A, const V2& x, const S beta, const V3& y) {
        constexpr bool t = !std::is_same_v<TA, Trans::NoTranspose>;
        const long M = (long)A.extent(t ? 1 : 0), K = (long)A.extent(t ? 0 : 1);
        if ((long)x.extent(0) != K || (long)y.extent(0) != M) ksim::error("SerialGemv: extents do not match");
        for (long i = 0; i < M; ++i) { auto s = std::remove_const_t<typename V3::value_type>(0); for (long k = 0; k < K; ++k) s += (t ? A(k, i) : A(i, k)) * x(k); y(i) = (beta == S(0) ? 0 : beta * y(i)) + alpha * s; }
        return 0;
    }
};
template <class X, class Y> auto dot(const X& x, const Y& y) {
    if (x.extent(0) != y.extent(0)) ksim::error("dot: dimensions do not match");
    typename X::non_const_value_type r = 0;
    Kokkos::parallel_reduce("dot", x.extent(0), [=](const int i, typename X::non_const_value_type& s) { s += x(i) * y(i); }, r);
    return r;
}
template <class Y, class X> void scal(const Y& y, typename X::non_const_value_type a, const X& x) { Kokkos::parallel_for("scal", x.extent(0), [=](const int i) { y(i) = a * x(i); }); }
template <class X, class Y> void axpy(typename X::non_const_value_type a, const X& x, const Y& y) { Kokkos::parallel_for("axpy", x.extent(0), [=](const int i) { y(i) += a * x(i); }); }
}
