// Stand-in for the sphericart library (an empty submodule here): same interface, real
// spherical harmonics and their gradients of the direction of each vector.
#pragma once
#include <cmath>
#include <cstddef>
#include <stdexcept>
#include <vector>
#include "real_sph.hpp"
namespace sphericart {
namespace detail {
struct Dual {   // value and three partial derivatives
    double v, d[3];
    Dual(double v = 0) : v(v), d{0, 0, 0} {}
};
inline Dual operator+(const Dual& a, const Dual& b) { Dual r(a.v + b.v); for (int i = 0; i < 3; ++i) r.d[i] = a.d[i] + b.d[i]; return r; }
inline Dual operator-(const Dual& a, const Dual& b) { Dual r(a.v - b.v); for (int i = 0; i < 3; ++i) r.d[i] = a.d[i] - b.d[i]; return r; }
inline Dual operator*(const Dual& a, const Dual& b) { Dual r(a.v * b.v); for (int i = 0; i < 3; ++i) r.d[i] = a.d[i] * b.v + a.v * b.d[i]; return r; }
}
template <class T> class SphericalHarmonics {
    int lmax;
public:
    explicit SphericalHarmonics(size_t l_max, bool normalized = true) : lmax((int)l_max) { (void)normalized; }
    template <class U> void run(const U* xyz, size_t n, U* sph, U* dsph) {
        const int nlm = (lmax + 1) * (lmax + 1);
        for (size_t i = 0; i < n; ++i) {
            const double p[3] = {(double)xyz[3 * i], (double)xyz[3 * i + 1], (double)xyz[3 * i + 2]};
            const double r = std::sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]);
            detail::Dual u[3];
            for (int a = 0; a < 3; ++a) { u[a].v = p[a] / r; for (int b = 0; b < 3; ++b) u[a].d[b] = ((a == b) - p[a] * p[b] / (r * r)) / r; }
            std::vector<detail::Dual> o(nlm);
            realsph::compute<detail::Dual>(lmax, u[0], u[1], u[2], o.data());
            for (int k = 0; k < nlm; ++k) {
                sph[i * nlm + k] = (U)o[k].v;
                if (dsph) for (int a = 0; a < 3; ++a) dsph[(3 * i + a) * nlm + k] = (U)o[k].d[a];
            }
        }
    }
    void compute(const std::vector<T>& xyz, std::vector<T>& sph) { sph.resize(xyz.size() / 3 * (lmax + 1) * (lmax + 1)); run<T>(xyz.data(), xyz.size() / 3, sph.data(), nullptr); }
    void compute_with_gradients(const std::vector<T>& xyz, std::vector<T>& sph, std::vector<T>& dsph) {
        sph.resize(xyz.size() / 3 * (lmax + 1) * (lmax + 1)); dsph.resize(3 * sph.size());
        run<T>(xyz.data(), xyz.size() / 3, sph.data(), dsph.data());
    }
    void compute_array(const T* xyz, size_t n, T* sph, size_t) { run<T>(xyz, n / 3, sph, nullptr); }
    void compute_array_with_gradients(const T* xyz, size_t n, T* sph, size_t, T* dsph, size_t) { run<T>(xyz, n / 3, sph, dsph); }
    void compute_sample(const T* xyz, size_t, T* sph, size_t) { run<T>(xyz, 1, sph, nullptr); }
    void compute_sample_with_gradients(const T* xyz, size_t, T* sph, size_t, T* dsph, size_t) { run<T>(xyz, 1, sph, dsph); }
};
}
