#include "lmp.hpp"
namespace LAMMPS_NS {
double Comm::get_comm_cutoff() { return std::max(cutghostuser, neighbor->cutneighmax); }
void Comm::forward_comm(Pair *p, int) { auto &w = *lw::World::current; w.forward(*w.ranks[rank_in_world]); }
void Comm::reverse_comm(Pair *p, int) { auto &w = *lw::World::current; w.reverse(*w.ranks[rank_in_world]); }
void lmp_garbage(void *p, size_t n) {
    static const double pat[4] = {3.7e8, -1.3e-3, 2.5, -9.1e11}; double *d = (double *) p; size_t i = 0;
    const unsigned k = sim::ctx ? (unsigned) (sim::ctx->src.used.size()) : 0;
    for (; i < n / 8; ++i) d[i] = pat[(i + k) & 3];
    std::memset((char *) p + 8 * i, 0x5A, n - 8 * i);
}
}
