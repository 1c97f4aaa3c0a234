// C interface to the model generator and reference, for the Python harnesses.
#include <algorithm>
#include <set>
#include "model.hpp"
namespace sim { Ctx* ctx = nullptr; uint32_t* stream_to = nullptr; uint64_t run_id = 0; }
struct H { mm::Model m; std::string text; };
extern "C" {
void* ref_model(uint64_t seed, int nel, int nch, int lmax, int Lmax, int zbl) {
    sim::Ctx c; sim::Stats st; c.stats = &st; c.src.rng.seed(seed * 77777 + 5); sim::ctx = &c;
    mm::Limits l; l.nel = nel; l.nch = nch; l.l_max = lmax; l.L_max = Lmax; l.allow_zbl = zbl;
    H* h = new H; h->m = mm::draw_model(l); h->text = h->m.json(); sim::ctx = nullptr; return h;
}
void ref_free(void* p) { delete (H*)p; }
const char* ref_json(void* p) { return ((H*)p)->text.c_str(); }
double ref_rcut(void* p) { return ((H*)p)->m.r_cut; }
int ref_nel(void* p) { return ((H*)p)->m.nel; }
int ref_Z(void* p, int i) { return ((H*)p)->m.Z[i]; }
void ref_eval(void* p, int n, const int* type, const int* nn, int np, const int* idx, const int* ntype, const double* xyz, const double* r, double* E, double* F) {
    mm::Struct s; s.n = n; s.type.assign(type, type + n); s.nn.assign(nn, nn + n); s.idx.assign(idx, idx + np); s.ntype.assign(ntype, ntype + np); s.xyz.assign(xyz, xyz + 3 * np); s.r.assign(r, r + np);
    auto res = mm::reference(((H*)p)->m, s);
    for (int i = 0; i < n; ++i) E[i] = (double)res.Ei[i];
    for (int i = 0; i < 3 * np; ++i) F[i] = (double)res.F[i];
}
}
