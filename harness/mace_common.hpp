// Model files on scratch storage and random structures for MACE harnesses.
#pragma once
#include <unistd.h>
#include <fcntl.h>
#include "model.hpp"
#include "../sim/heap.hpp"
namespace mm {
struct File {   // a file in the working directory that disappears with the run
    std::string path;
    explicit File(const std::string& content) {
        static int n = 0; path = "model." + std::to_string(getpid()) + "." + std::to_string(n++ % 64) + ".json"; write(content);
    }
    void write(const std::string& c) { sim::NoScope ns; FILE* f = std::fopen(path.c_str(), "w"); if (!f) sim::fail("machinery:scratch", "cannot write scratch file"); std::fwrite(c.data(), 1, c.size(), f); std::fclose(f); }
    void remove() { ::unlink(path.c_str()); }
    ~File() { ::unlink(path.c_str()); }
    File(const File&) = delete;
};

// random geometry: atoms in a box, optionally periodic; full neighbour lists in shuffled order
inline Struct draw_struct(const Model& m, int max_atoms, int max_neigh = 24) {
    using namespace sim;
    Struct s; const int shape = (int)choose(8);
    s.n = shape == 7 ? 0 : shape == 6 ? 1 : range(1, max_atoms);
    Gen g{uint64_t(choose(1u << 28)) * 40503u + 7};
    const double dens = 0.45 + 0.25 * choose(6);                       // box edge in cutoffs, for one to eight atoms
    const bool per = chance(1, 3) && s.n > 0;
    const double L = std::max(per ? 0.8 * m.r_cut : 0.9, m.r_cut * dens * std::cbrt(std::max(1, s.n) / 3.0));
    V x; std::vector<int> t;
    for (int i = 0; i < s.n; ++i) {
        t.push_back(g.below(m.nel));
        for (int tries = 0;; ++tries) {
            double p[3]; for (auto& c : p) c = L * g.u() + (tries > 60 ? L * (tries / 20) * g.u() : 0);
            bool ok = true;
            for (int j = 0; j < i && ok; ++j) { double d = 0; for (int a = 0; a < 3; ++a) { double q = p[a] - x[3 * j + a]; if (per) q -= L * std::round(q / L); d += q * q; } ok = d > 0.36; }
            if (ok || tries > 400) { x.insert(x.end(), p, p + 3); break; }
        }
    }
    s.type = t; s.nn.assign(s.n, 0);
    const int im = per ? (int)std::ceil(m.r_cut / L) : 0;
    for (int i = 0; i < s.n; ++i) {
        struct N { int j; double d[3], r; }; std::vector<N> nb;
        for (int j = 0; j < s.n; ++j) for (int a = -im; a <= im; ++a) for (int b = -im; b <= im; ++b) for (int c = -im; c <= im; ++c) {
            if (i == j && !a && !b && !c) continue;
            N q{j, {x[3 * j] - x[3 * i] + a * L, x[3 * j + 1] - x[3 * i + 1] + b * L, x[3 * j + 2] - x[3 * i + 2] + c * L}, 0};
            q.r = std::sqrt(q.d[0] * q.d[0] + q.d[1] * q.d[1] + q.d[2] * q.d[2]);
            if (q.r < m.r_cut) nb.push_back(q);
        }
        for (size_t k = nb.size(); k > 1; --k) std::swap(nb[k - 1], nb[g.below((int)k)]);
        if (nb.size() > (size_t)max_neigh) nb.resize(max_neigh);
        s.nn[i] = (int)nb.size();
        for (auto& q : nb) { s.idx.push_back(q.j); s.ntype.push_back(t[q.j]); s.xyz.insert(s.xyz.end(), q.d, q.d + 3); s.r.push_back(q.r); }
    }
    return s;
}
// a structure that differs from an earlier one in a single respect
inline Struct mutate(const Model& m, Struct s) {
    using namespace sim;
    const int how = (int)choose(8); const int np = (int)s.r.size();
    auto first = [&](int i) { int f = 0; for (int k = 0; k < i; ++k) f += s.nn[k]; return f; };
    if (how == 0 || np == 0) return s;
    if (how == 1) {                                   // elements change, geometry does not
        const int i = (int)choose(s.n); s.type[i] = (s.type[i] + 1 + (int)choose(m.nel)) % m.nel;
        for (int p = 0; p < np; ++p) s.ntype[p] = s.type[s.idx[p]];
    } else if (how == 2) {                            // rotated: the distances stay
        for (int p = 0; p < np; ++p) { double* x = &s.xyz[3 * p]; const double t = x[0]; x[0] = x[1]; x[1] = x[2]; x[2] = t; }
    } else if (how == 3) {                            // one pair moves
        const int p = (int)choose(np); double* x = &s.xyz[3 * p]; const double f = std::min(0.999 * m.r_cut, std::max(0.7, s.r[p] * real(0.8, 1.1))) / s.r[p];
        for (int a = 0; a < 3; ++a) x[a] *= f; s.r[p] = std::sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]);
    } else if (how == 4) {                            // an atom loses its neighbours
        const int i = (int)choose(s.n), f = first(i), c = s.nn[i];
        s.idx.erase(s.idx.begin() + f, s.idx.begin() + f + c); s.ntype.erase(s.ntype.begin() + f, s.ntype.begin() + f + c);
        s.r.erase(s.r.begin() + f, s.r.begin() + f + c); s.xyz.erase(s.xyz.begin() + 3 * f, s.xyz.begin() + 3 * (f + c)); s.nn[i] = 0;
    } else if (how == 5) {                            // neighbours come in another order
        const int i = (int)choose(s.n), f = first(i), c = s.nn[i];
        if (c > 1) for (int k = 0; k < c / 2; ++k) { int a = f + k, b = f + c - 1 - k; std::swap(s.idx[a], s.idx[b]); std::swap(s.ntype[a], s.ntype[b]); std::swap(s.r[a], s.r[b]); for (int q = 0; q < 3; ++q) std::swap(s.xyz[3 * a + q], s.xyz[3 * b + q]); }
    } else if (how == 6) {                            // inversion
        for (auto& x : s.xyz) x = -x;
    } else {                                          // same counts, other neighbours
        const int p = (int)choose(np); s.idx[p] = (int)choose(s.n); s.ntype[p] = s.type[s.idx[p]];
    }
    return s;
}
template <class VE, class VF> void compare(const std::string& tag, const Result& ref, const VE& E, const VF& F, double rtol) {
    if (E.size() != ref.Ei.size()) sim::fail(tag + ":size", "node_energies has " + std::to_string(E.size()) + " entries for " + std::to_string(ref.Ei.size()) + " atoms");
    if (F.size() != ref.F.size()) sim::fail(tag + ":size", "node_forces has " + std::to_string(F.size()) + " entries, expected " + std::to_string(ref.F.size()));
    for (size_t i = 0; i < ref.Ei.size(); ++i) sim::expect_close(tag + ":energy", "node_energies[" + std::to_string(i) + "]", E[i], ref.Ei[i], ref.escale, rtol);
    for (size_t i = 0; i < ref.F.size(); ++i) sim::expect_close(tag + ":force", "node_forces[" + std::to_string(i) + "]", F[i], ref.F[i], ref.fscale, rtol);
}
}
