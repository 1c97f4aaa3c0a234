// Real spherical harmonics (no Condon-Shortley phase), index l*l+l+m, for a unit vector,
// by the usual recurrences on associated Legendre polynomials and cos/sin(m phi) products.
#pragma once
#include <cmath>
#include <vector>
namespace realsph {
inline long double fact(int n) { long double f = 1; for (int i = 2; i <= n; ++i) f *= i; return f; }
// T needs +,-,* with T and with doubles via T(double)
template <class T> void compute(int lmax, const T& x, const T& y, const T& z, T* out) {
    // Q[l][m] = P_l^m / sin^m ; c[m], s[m] = Re,Im (x+iy)^m
    const int n = lmax + 1;
    std::vector<T> Q(n * n, T(0.0)), c(n, T(0.0)), s(n, T(0.0));
    c[0] = T(1.0);
    for (int m = 1; m < n; ++m) { c[m] = x * c[m - 1] - y * s[m - 1]; s[m] = x * s[m - 1] + y * c[m - 1]; }
    for (int m = 0; m < n; ++m) {
        double d = 1; for (int k = 1; k <= m; ++k) d *= 2 * k - 1;
        Q[m * n + m] = T(d);
        if (m + 1 < n) Q[(m + 1) * n + m] = T(2.0 * m + 1) * z * Q[m * n + m];
        for (int l = m + 2; l < n; ++l)
            Q[l * n + m] = (T(2.0 * l - 1) * z * Q[(l - 1) * n + m] - T(double(l + m - 1)) * Q[(l - 2) * n + m]) * T(1.0 / (l - m));
    }
    for (int l = 0; l < n; ++l) for (int m = 0; m <= l; ++m) {
        const double N = (double)std::sqrt((2 * l + 1) / (4 * 3.14159265358979323846264338L) * fact(l - m) / fact(l + m) * (m ? 2 : 1));
        out[l * l + l + m] = T(N) * Q[l * n + m] * c[m];
        if (m) out[l * l + l - m] = T(N) * Q[l * n + m] * s[m];
    }
}
}
