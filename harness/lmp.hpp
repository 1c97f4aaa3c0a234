// A simulated LAMMPS job: global system, spatial decomposition, ghosts, neighbour lists,
// messages between ranks.  Ranks run as fibers; who runs next, in which order messages are
// unpacked, and every ordering LAMMPS leaves open is drawn from the seed.
#pragma once
#include <algorithm>
#include <deque>
#include "lmp_sim.h"
#include "../sim/sched.hpp"
#include "mace_common.hpp"
namespace lw {
using namespace LAMMPS_NS;
using mm::V; using mm::LD;
inline const char* const ELEMENTS[118] = { "H","He","Li","Be","B","C","N","O","F","Ne","Na","Mg","Al","Si","P","S","Cl","Ar","K","Ca","Sc","Ti","V","Cr","Mn","Fe","Co","Ni","Cu","Zn","Ga","Ge","As","Se","Br","Kr",
  "Rb","Sr","Y","Zr","Nb","Mo","Tc","Ru","Rh","Pd","Ag","Cd","In","Sn","Sb","Te","I","Xe","Cs","Ba","La","Ce","Pr","Nd","Pm","Sm","Eu","Gd","Tb","Dy","Ho","Er","Tm","Yb","Lu","Hf","Ta","W","Re","Os","Ir","Pt","Au","Hg","Tl","Pb","Bi","Po","At","Rn",
  "Fr","Ra","Ac","Th","Pa","U","Np","Pu","Am","Cm","Bk","Cf","Es","Fm","Md","No","Lr","Rf","Db","Sg","Bh","Hs","Mt","Ds","Rg","Cn","Nh","Fl","Mc","Lv","Ts","Og" };

struct GAtom { int tag, type; double x[3], x0[3]; };                 // x0: position at the last reneighbouring
struct LocalRef { int g; double shift[3]; };                          // which global atom, displaced by what
struct Block { int from, to, first; std::vector<int> send; };         // one message of a ghost exchange
struct Message { int from, stage, block; char op; std::vector<double> data; };

struct World;
struct Rank {
    World* w; int id; LAMMPS lmp; Memory memory; Error error; Update update;
    std::unique_ptr<Atom> atom; std::unique_ptr<Comm> comm; std::unique_ptr<Force> force; std::unique_ptr<Neighbor> neighbor; std::unique_ptr<Domain> domain;
    std::unique_ptr<Pair> pair; std::unique_ptr<NeighList> list;
    std::vector<LocalRef> refs;                                       // owned, then ghosts
    std::vector<double> xs, fs; std::vector<double*> xr, fr; std::vector<int> types, tags, masks, images;
    std::vector<int> ilist, numneigh; std::vector<int*> first; std::vector<std::vector<int>> neigh;
    double lo[3], hi[3];
    int cap_forward = 0, cap_reverse = 0;                             // per-atom buffer sizes fixed at init
    std::vector<double> fbase;                                        // forces other styles contributed before this one
};

struct Backend {                                                      // CPU or Kokkos atoms and lists
    virtual ~Backend() = default;
    virtual Pair* make_pair(Rank&) = 0;
    virtual const char* tag() = 0;
    virtual double rtol() { return 1e-10; }
    virtual std::unique_ptr<Atom> make_atom(LAMMPS* l) { return std::make_unique<Atom>(l); }
    virtual std::unique_ptr<NeighList> make_list() { return std::make_unique<NeighList>(); }
    virtual void created(Rank&) {}
    virtual void atoms_built(Rank& r) {                               // owned and ghost arrays change size or order
        Atom& a = *r.atom; const int n = a.nmax;
        r.xs.assign(3 * n, 0); r.fs.assign(3 * n, 0); r.types.assign(n, -7); r.tags.assign(n, -7); lmp_garbage(r.xs.data(), r.xs.size() * 8);
        r.xr.resize(n); r.fr.resize(n); for (int i = 0; i < n; ++i) { r.xr[i] = &r.xs[3 * i]; r.fr[i] = &r.fs[3 * i]; }
        a.x = r.xr.data(); a.f = r.fr.data(); a.type = r.types.data(); a.tag = r.tags.data();
    }
    virtual void list_built(Rank&) {}
    virtual void before_compute(Rank&) {}
    virtual void after_compute(Rank&) {}
    virtual bool exchange_on_device(Rank&) { return false; }
    virtual int pack_forward(Rank& r, int n, std::vector<int>& l, std::vector<double>& b) { int pbc[6] = {0}; return r.pair->pack_forward_comm(n, l.data(), b.data(), 0, pbc); }
    virtual void unpack_forward(Rank& r, int n, int first, std::vector<double>& b) { r.pair->unpack_forward_comm(n, first, b.data()); }
    virtual int pack_reverse(Rank& r, int n, int first, std::vector<double>& b) { return r.pair->pack_reverse_comm(n, first, b.data()); }
    virtual void unpack_reverse(Rank& r, int n, std::vector<int>& l, std::vector<double>& b) { r.pair->unpack_reverse_comm(n, l.data(), b.data()); }
};

struct World {
    Backend& be; const mm::Model* m = nullptr; std::string model_path;
    double L[3] = {1, 1, 1}, origin[3] = {0, 0, 0}; bool per[3] = {true, true, true};
    std::vector<GAtom> atoms; int next_tag = 1;
    int ntypes = 1; std::vector<int> el;                              // LAMMPS type -> element of the model
    std::set<std::pair<int, int>> excluded;                           // neigh_modify exclude type
    double skin = 0.3; int axis = 0; bool chain = false; int map_user = Atom::MAP_YES;
    std::vector<std::unique_ptr<Rank>> ranks; bool direct = false; int grid[3] = {1, 1, 1};
    std::vector<double> cuts[3]; std::vector<std::array<double, 6>> rcb;
    std::vector<std::vector<Block>> stages;
    std::vector<std::deque<Message>> mail;                            // per destination
    bool shuffle = true, no_map = false; uint64_t messages = 0;
    std::vector<std::string> pair_args; mm::Gen g{1};
    explicit World(Backend& b) : be(b) {}

    void permute(std::vector<int>& v) { if (shuffle) for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[g.below((int)k)]); }

    // ---------------------------------------------------------------- system
    double mindist(const double* p, int skip) {
        double best = 1e9;
        for (int j = 0; j < (int)atoms.size(); ++j) if (j != skip) { double d = 0; for (int a = 0; a < 3; ++a) { double q = p[a] - atoms[j].x[a]; if (per[a]) q -= L[a] * std::round(q / L[a]); d += q * q; } best = std::min(best, std::sqrt(d)); }
        return best;
    }
    void place(GAtom& a, int skip) {
        for (int t = 0;; ++t) {
            for (int c = 0; c < 3; ++c) a.x[c] = origin[c] + L[c] * g.u();
            if (mindist(a.x, skip) > (t < 80 ? 0.7 : t < 200 ? 0.4 : 0.1)) break;
        }
    }
    void add_atom() { GAtom a{next_tag++, 1 + g.below(ntypes), {}, {}}; place(a, -1); atoms.push_back(a); }
    void wrap() { for (auto& a : atoms) for (int c = 0; c < 3; ++c) { if (per[c]) { a.x[c] -= L[c] * std::floor((a.x[c] - origin[c]) / L[c]); } a.x0[c] = a.x[c]; } }
    // jiggle within the skin, as between two neighbour list builds
    void jiggle(double frac) {
        const int how = (int)sim::choose(5), ax = sim::chance(1, 4) ? g.below(3) : axis; const int mid = atoms.empty() ? 0 : g.below((int)atoms.size());
        for (auto& a : atoms) {
            const int c0 = how == 2 ? g.below(3) : ax; const double far = how >= 3 ? (a.x0[c0] < atoms[mid].x0[c0] ? 1 : a.x0[c0] > atoms[mid].x0[c0] ? -1 : 0) : g.below(3) - 1;   // as far as the skin allows; 3: towards one atom
            for (int c = 0; c < 3; ++c) a.x[c] = a.x0[c] + frac * skin * (how ? (c == c0 ? 0.485 * far : 0) : 0.28 * g.sym(1));
        }
    }
    mm::Struct reference_struct() const {
        mm::Struct s; s.n = (int)atoms.size(); s.nn.assign(s.n, 0);
        int im[3]; for (int c = 0; c < 3; ++c) im[c] = per[c] ? (int)std::ceil(m->r_cut / L[c]) + 1 : 0;
        for (auto& a : atoms) s.type.push_back(el[a.type - 1]);
        for (int i = 0; i < s.n; ++i) for (int j = 0; j < s.n; ++j) {
            if (excluded.count({std::min(atoms[i].type, atoms[j].type), std::max(atoms[i].type, atoms[j].type)})) continue;
            for (int a = -im[0]; a <= im[0]; ++a) for (int b = -im[1]; b <= im[1]; ++b) for (int c = -im[2]; c <= im[2]; ++c) {
                if (i == j && !a && !b && !c) continue;
                double d[3] = {atoms[j].x[0] + a * L[0] - atoms[i].x[0], atoms[j].x[1] + b * L[1] - atoms[i].x[1], atoms[j].x[2] + c * L[2] - atoms[i].x[2]};
                const double r = std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]);
                if (r >= m->r_cut) continue;
                s.idx.push_back(j); s.ntype.push_back(s.type[j]); s.xyz.insert(s.xyz.end(), d, d + 3); s.r.push_back(r); ++s.nn[i];
            }
        }
        return s;
    }

    // ---------------------------------------------------------------- job
    void start(int nprocs) {
        ranks.clear(); mail.assign(nprocs, {});
        for (int i = 0; i < nprocs; ++i) {
            ranks.push_back(std::make_unique<Rank>()); Rank& r = *ranks.back(); r.w = this; r.id = i; LAMMPS* l = &r.lmp;
            l->memory = &r.memory; l->error = &r.error; l->update = &r.update;
            r.atom = be.make_atom(l); l->atom = r.atom.get(); r.comm = std::make_unique<Comm>(l); l->comm = r.comm.get(); r.force = std::make_unique<Force>(l); l->force = r.force.get();
            r.neighbor = std::make_unique<Neighbor>(l); l->neighbor = r.neighbor.get(); r.domain = std::make_unique<Domain>(l); l->domain = r.domain.get();
            r.comm->me = i; r.comm->nprocs = nprocs; r.neighbor->skin = skin; r.atom->ntypes = ntypes; r.atom->map_user = map_user;
            r.comm->rank_in_world = i; be.created(r);
        }
        current = this;
    }
    static inline World* current = nullptr;
    void destroy_pairs() { for (auto& r : ranks) { r->pair.reset(); r->force->pair = nullptr; r->neighbor->requests.clear(); r->list.reset(); } }
    void pair_style(const std::vector<std::string>& args) {
        destroy_pairs();
        for (auto& r : ranks) {
            r->pair.reset(be.make_pair(*r)); r->force->pair = r->pair.get();
            std::vector<std::string> a = args; std::vector<char*> p; for (auto& s : a) p.push_back(s.data());
            r->pair->settings((int)p.size(), p.data());
        }
        pair_args = args;
    }
    void pair_coeff() {
        for (auto& r : ranks) {
            std::vector<std::string> a = {"*", "*", model_path}; for (int e : el) a.push_back(ELEMENTS[m->Z[e] - 1]);
            std::vector<char*> p; for (auto& s : a) p.push_back(s.data());
            r->pair->coeff((int)p.size(), p.data());
        }
    }
    void init() {                                                     // what LAMMPS does at the start of a run
        fresh_run = true;
        for (auto& r : ranks) {
            r->neighbor->skin = skin; r->neighbor->requests.clear(); r->pair->init();
            r->neighbor->cutneighmax = r->pair->cutforce + skin;
            r->cap_forward = r->pair->comm_forward; r->cap_reverse = std::max(r->pair->comm_reverse, r->pair->comm_reverse_off);
        }
    }
    double ghost_cut(const Rank& r) const { return std::max(r.comm->cutghostuser, r.neighbor->cutneighmax); }

    // ---------------------------------------------------------------- decomposition
    void decompose() {
        const int n = (int)ranks.size();
        direct = sim::chance(1, 3);
        if (direct) {                                                 // recursive bisection, atoms come straight from their owners
            rcb.clear(); rcb.push_back({origin[0], origin[1], origin[2], origin[0] + L[0], origin[1] + L[1], origin[2] + L[2]});
            while ((int)rcb.size() < n) { const int k = g.below((int)rcb.size()), d = chain && g.below(2) ? axis : g.below(3); auto b = rcb[k]; double c = b[d] + (b[d + 3] - b[d]) * (0.15 + 0.7 * g.u());
                if (!atoms.empty() && g.below(2)) { const double x = atoms[g.below((int)atoms.size())].x[d] + 0.01 * L[d] * g.sym(1); if (x > b[d] && x < b[d + 3]) c = x; }
                auto e = b; b[d + 3] = c; e[d] = c; rcb[k] = b; rcb.push_back(e); }
        } else {
            std::vector<std::array<int, 3>> f; for (int a = 1; a <= n; ++a) if (n % a == 0) for (int b = 1; b <= n / a; ++b) if ((n / a) % b == 0) f.push_back({a, b, n / a / b});
            auto q = f[g.below((int)f.size())]; const bool along = chain && sim::chance(1, 2); if (along) { q = {1, 1, 1}; q[axis] = n; }
            for (int c = 0; c < 3; ++c) { grid[c] = q[c]; cuts[c].clear(); cuts[c].push_back(0); for (int k = 1; k < grid[c]; ++k) { const int how = along ? 2 : (int)sim::choose(3); double at = how == 0 || atoms.empty() ? double(k) / grid[c] : how == 1 ? g.u() : (atoms[g.below((int)atoms.size())].x[c] - origin[c]) / L[c] + g.sym(0.01);   // next to an atom
                cuts[c].push_back(std::min(1.0, std::max(0.0, at))); } cuts[c].push_back(1); std::sort(cuts[c].begin(), cuts[c].end()); }
        }
    }
    void bounds() {
        for (auto& rp : ranks) {
            Rank& r = *rp;
            if (direct) for (int c = 0; c < 3; ++c) { r.lo[c] = rcb[r.id][c]; r.hi[c] = rcb[r.id][c + 3]; }
            else { int k[3] = {r.id % grid[0], r.id / grid[0] % grid[1], r.id / grid[0] / grid[1]}; for (int c = 0; c < 3; ++c) { r.lo[c] = origin[c] + L[c] * cuts[c][k[c]]; r.hi[c] = k[c] + 1 == grid[c] ? origin[c] + L[c] : origin[c] + L[c] * cuts[c][k[c] + 1]; } }
            for (int c = 0; c < 3; ++c) if (!per[c]) { if (r.lo[c] <= origin[c]) r.lo[c] = -1e30; if (r.hi[c] >= origin[c] + L[c]) r.hi[c] = 1e30; }
            for (int c = 0; c < 3; ++c) { r.domain->boxlo[c] = origin[c]; r.domain->boxhi[c] = origin[c] + L[c]; r.domain->sublo[c] = r.lo[c]; r.domain->subhi[c] = r.hi[c]; r.domain->prd[c] = L[c]; r.domain->periodicity[c] = per[c]; }
            r.domain->xprd = L[0]; r.domain->yprd = L[1]; r.domain->zprd = L[2]; r.domain->xperiodic = per[0]; r.domain->yperiodic = per[1]; r.domain->zperiodic = per[2]; r.domain->nonperiodic = !(per[0] && per[1] && per[2]);
        }
    }
    static bool within(const double* p, const double* lo, const double* hi, double c, int d) { return p[d] >= lo[d] - c && p[d] < hi[d] + c; }
    void pos(const Rank& r, int i, double* p) const { const LocalRef& q = r.refs[i]; for (int c = 0; c < 3; ++c) p[c] = atoms[q.g].x[c] + q.shift[c]; }

    // pbc, exchange, borders, neighbour lists: everything LAMMPS does when it reneighbours
    void reneighbor() {
        wrap(); bounds(); stages.clear(); for (auto& r : ranks) { r->neighbor->ago = -1; ++r->neighbor->ncalls; if (fresh_run) r->neighbor->ncalls = 0; r->neighbor->lastcall = timestep; } fresh_run = false;
        std::vector<int> owner(atoms.size(), -1);
        for (size_t i = 0; i < atoms.size(); ++i) for (auto& r : ranks) if (owner[i] < 0 && within(atoms[i].x, r->lo, r->hi, 0, 0) && within(atoms[i].x, r->lo, r->hi, 0, 1) && within(atoms[i].x, r->lo, r->hi, 0, 2)) owner[i] = r->id;
        for (size_t i = 0; i < atoms.size(); ++i) if (owner[i] < 0) owner[i] = 0;   // rounding at a wrapped face: rank 0 keeps it and its bounds grow
        for (auto& r : ranks) {
            std::vector<int> mine; for (size_t i = 0; i < atoms.size(); ++i) if (owner[i] == r->id) mine.push_back((int)i);
            permute(mine); r->refs.clear(); for (int i : mine) { r->refs.push_back({i, {0, 0, 0}}); for (int c = 0; c < 3; ++c) { r->lo[c] = std::min(r->lo[c], atoms[i].x[c]); if (atoms[i].x[c] >= r->hi[c]) r->hi[c] = atoms[i].x[c] + 1e-12; } }
            r->atom->nlocal = (int)mine.size();
        }
        auto images = [&](int d, double c) { return per[d] ? (int)std::ceil(c / L[d]) + 1 : 0; };
        const int nstage = direct ? 1 : 3;
        for (int s = 0; s < nstage; ++s) {
            stages.emplace_back();
            std::vector<size_t> have; for (auto& r : ranks) have.push_back(r->refs.size());
            for (auto& tp : ranks) {
                Rank& t = *tp; const double c = ghost_cut(t);
                struct Cand { int q; int k[3]; }; std::vector<Cand> cand; std::vector<int> order;
                for (auto& qp : ranks) {
                    const Rank& q = *qp;
                    if (!direct) { bool col = true; for (int d = 0; d < 3; ++d) if (d != s) { int a = d == 0 ? q.id % grid[0] : d == 1 ? q.id / grid[0] % grid[1] : q.id / grid[0] / grid[1], b = d == 0 ? t.id % grid[0] : d == 1 ? t.id / grid[0] % grid[1] : t.id / grid[0] / grid[1]; col = col && a == b; } if (!col) continue; }
                    int im[3] = {0, 0, 0}; for (int d = 0; d < 3; ++d) if (direct || d == s) im[d] = images(d, c);
                    for (int a = -im[0]; a <= im[0]; ++a) for (int b = -im[1]; b <= im[1]; ++b) for (int e = -im[2]; e <= im[2]; ++e) if (!(q.id == t.id && !a && !b && !e)) cand.push_back({q.id, {a, b, e}});
                }
                for (size_t i = 0; i < cand.size(); ++i) order.push_back((int)i);
                permute(order);
                for (int o : order) {
                    const Cand& k = cand[o]; const Rank& q = *ranks[k.q]; std::vector<int> send; std::vector<LocalRef> add;
                    for (size_t i = 0; i < have[k.q]; ++i) {
                        double p[3]; pos(q, (int)i, p); bool in = true;
                        for (int d = 0; d < 3; ++d) { p[d] += k.k[d] * L[d]; if (direct || d == s) in = in && within(p, t.lo, t.hi, c, d); }
                        if (in) send.push_back((int)i);
                    }
                    if (send.empty()) continue;
                    if (shuffle && g.below(2)) permute(send);
                    for (int i : send) { LocalRef x = q.refs[i]; for (int d = 0; d < 3; ++d) x.shift[d] += k.k[d] * L[d]; add.push_back(x); }
                    stages.back().push_back({k.q, t.id, (int)t.refs.size(), send});
                    t.refs.insert(t.refs.end(), add.begin(), add.end());
                }
            }
        }
        for (auto& r : ranks) {
            Atom& a = *r->atom; a.nghost = (int)r->refs.size() - a.nlocal; a.natoms = atoms.size(); a.nmax = std::max(1, (int)r->refs.size() + g.below(6)); a.ntypes = ntypes;
            be.atoms_built(*r);
            a.sim_map.clear(); if (!no_map) for (int i = (int)r->refs.size() - 1; i >= 0; --i) a.sim_map[atoms[r->refs[i].g].tag] = i;   // owned wins, then the nearest in index
            a.map_tag_max = next_tag;
            sync_atoms(*r); build_list(*r);
        }
    }
    void sync_atoms(Rank& r) {
        for (int i = 0; i < (int)r.refs.size(); ++i) { pos(r, i, r.atom->x[i]); r.atom->type[i] = atoms[r.refs[i].g].type; r.atom->tag[i] = atoms[r.refs[i].g].tag; }
    }
    void build_list(Rank& r) {
        auto* req = r.neighbor->find_request(r.pair.get());
        if (!req) sim::fail("lmp:no-list", "the pair style did not request a neighbour list");
        const int nl = r.atom->nlocal, na = (int)r.refs.size(); const double c = r.pair->cutforce + skin, c2 = c * c;
        const int rows = req->ghost ? na : nl;
        r.neigh.assign(rows, {}); r.ilist.clear(); r.numneigh.assign(na + 1, -1); r.first.assign(na + 1, nullptr);
        for (int i = 0; i < rows; ++i) {
            double* x = r.atom->x[i];
            for (int j = 0; j < na; ++j) if (j != i) {
                if (excluded.count({std::min(r.atom->type[i], r.atom->type[j]), std::max(r.atom->type[i], r.atom->type[j])})) continue;
                double* y = r.atom->x[j];
                if (!req->full) { if (j < nl) { if (j < i) continue; } else if (y[2] < x[2] || (y[2] == x[2] && (y[1] < x[1] || (y[1] == x[1] && y[0] < x[0])))) continue; }
                const double d0 = x[0] - y[0], d1 = x[1] - y[1], d2 = x[2] - y[2];
                if (d0 * d0 + d1 * d1 + d2 * d2 <= c2) r.neigh[i].push_back(j);
            }
            permute(r.neigh[i]);
            for (int& j : r.neigh[i]) if (g.below(8) == 0) j |= (1 + g.below(3)) << SBBITS;      // special-bond bits
            r.numneigh[i] = (int)r.neigh[i].size(); r.first[i] = r.neigh[i].data(); r.ilist.push_back(i);
        }
        if (!r.list) r.list = be.make_list();
        NeighList& l = *r.list; l.inum = nl; l.gnum = req->ghost ? na - nl : 0; l.ghost = req->ghost; r.ilist.push_back(0); l.ilist = r.ilist.data(); l.numneigh = r.numneigh.data(); l.firstneigh = r.first.data();
        be.list_built(r);
        r.pair->init_list(req->id, &l);
    }

    // ---------------------------------------------------------------- messages
    static constexpr int CANARY = 8;
    void post(Rank& r, int stage, int b, char op, int to, int n, std::vector<double>& buf, int want, int got) {
        for (int k = 0; k < CANARY; ++k) if (buf[want + k] != 6.0221e23) sim::fail("lmp:buffer-overrun", "packing wrote past the communication buffer");
        if (got > want) sim::fail("lmp:message-size", "packed " + std::to_string(got) + " values for a buffer of " + std::to_string(want));
        Message msg{r.id, stage, b, op, std::vector<double>(buf.begin(), buf.begin() + got)};
        ++messages; mail[to].push_back(std::move(msg));
    }
    std::vector<double> buffer(int want) { std::vector<double> b(want + CANARY); lmp_garbage(b.data(), want * 8); for (int k = 0; k < CANARY; ++k) b[want + k] = 6.0221e23; return b; }
    Message take(Rank& r, int stage, int b, char op, int from) {
        auto& q = mail[r.id]; size_t at = 0;
        auto find = [&] { for (at = 0; at < q.size(); ++at) if (q[at].from == from) return true; return false; };
        sim::wait_until(std::function<bool()>(find), "receive");
        if (!find()) sim::fail("machinery:mail", "message vanished");
        Message msg = std::move(q[at]); q.erase(q.begin() + at);
        if (msg.op != op || msg.stage != stage) sim::fail("lmp:message-mismatch", "a rank received a message of another exchange");
        return msg;
    }
    void forward(Rank& r) {
        const int size = r.pair->comm_forward;
        for (int s = 0; s < (int)stages.size(); ++s) {
            auto& st = stages[s]; std::vector<int> in;
            for (int b = 0; b < (int)st.size(); ++b) if (st[b].from == r.id) {
                const int n = (int)st[b].send.size(), want = n * r.cap_forward; auto buf = buffer(want);
                const int got = be.pack_forward(r, n, st[b].send, buf);
                post(r, s, b, 'f', st[b].to, n, buf, want, got); sim::yield_now();
            }
            for (int b = 0; b < (int)st.size(); ++b) if (st[b].to == r.id) in.push_back(b);
            receive(r, s, 'f', in, size);
        }
    }
    void reverse(Rank& r) {
        const int size = std::max(r.pair->comm_reverse, r.pair->comm_reverse_off);
        for (int s = (int)stages.size() - 1; s >= 0; --s) {
            auto& st = stages[s]; std::vector<int> in;
            for (int b = 0; b < (int)st.size(); ++b) if (st[b].to == r.id) {
                const int n = (int)st[b].send.size(), want = n * r.cap_reverse; auto buf = buffer(want);
                const int got = be.pack_reverse(r, n, st[b].first, buf);
                post(r, s, b, 'r', st[b].from, n, buf, want, got); sim::yield_now();
            }
            for (int b = 0; b < (int)st.size(); ++b) if (st[b].from == r.id) in.push_back(b);
            receive(r, s, 'r', in, size);
        }
    }
    // receives may complete in any order between different senders; FIFO from one sender
    void receive(Rank& r, int s, char op, std::vector<int> in, int size) {
        auto& st = stages[s];
        while (!in.empty()) {
            std::vector<size_t> first; for (size_t i = 0; i < in.size(); ++i) { bool f = true; const int src = op == 'f' ? st[in[i]].from : st[in[i]].to; for (size_t k = 0; k < i; ++k) f = f && (op == 'f' ? st[in[k]].from : st[in[k]].to) != src; if (f) first.push_back(i); }
            const size_t at = first[sim::choose(first.size())]; const int b = in[at]; in.erase(in.begin() + at);
            const int src = op == 'f' ? st[b].from : st[b].to;
            Message msg = take(r, s, b, op, src);
            if (msg.block != b) sim::fail("lmp:message-mismatch", "messages of one sender arrived for another ghost block");
            const int n = (int)st[b].send.size(), want = n * size;
            if ((int)msg.data.size() > want) sim::fail("lmp:message-size", "message of " + std::to_string(msg.data.size()) + " values for a receive of " + std::to_string(want));
            auto buf = buffer(want); std::copy(msg.data.begin(), msg.data.end(), buf.begin());
            if (op == 'f') be.unpack_forward(r, n, st[b].first, buf); else be.unpack_reverse(r, n, st[b].send, buf);
            sim::yield_now();
        }
    }

    // ---------------------------------------------------------------- one force evaluation
    bool errored = false; std::string error_text; bigint timestep = 0; bool fresh_run = false;
    // returns false if the pair style refused (error->all on every rank)
    bool compute(int eflag, int vflag) {
        std::vector<std::function<void()>> bodies; int errors = 0; error_text.clear();
        for (auto& rp : ranks) {
            Rank& r = *rp; const int na = (int)r.refs.size();
            sync_atoms(r); r.fbase.resize(3 * na); for (auto& x : r.fbase) x = g.below(3) ? 0.0 : g.sym(2);
            for (int i = 0; i < na; ++i) for (int c = 0; c < 3; ++c) r.atom->f[i][c] = r.fbase[3 * i + c];
            if (!(eflag & 1)) r.pair->eng_vdwl = 1e30 * g.sym(1); if (!(vflag & 3)) for (double& v : r.pair->virial) v = 1e30 * g.sym(1);   // unrequested accumulators hold anything
            ++r.neighbor->ago; r.update.ntimestep = timestep; be.before_compute(r);
        }
        for (auto& rp : ranks) bodies.push_back([&, rp = rp.get()] {
            try { rp->pair->compute(eflag, vflag); } catch (const LammpsError& e) { ++errors; error_text = e.where; }
        });
        sim::run_fibers(bodies);
        if (errors && errors != (int)ranks.size()) sim::fail("lmp:partial-error", "only some ranks reported: " + error_text);
        if (errors) return false;
        for (auto& q : mail) if (!q.empty()) sim::fail("lmp:unreceived", "a message was never received");
        for (auto& rp : ranks) be.after_compute(*rp);
        if (g.below(3)) ++timestep;                                   // a minimiser, a Monte Carlo fix or another run stays at the time step
        return true;
    }
    void check(int eflag, int vflag) {
        mm::Struct s = reference_struct(); mm::Result ref = mm::reference(*m, s);
        const std::string t = be.tag(); const int N = s.n; const double rtol = be.rtol();
        std::vector<LD> F(3 * N, 0), W(9, 0), got(3 * N, 0), eat(N, 0); LD E = 0; double fs = ref.fscale, vs = 1, es = 1;
        for (int i = 0, p = 0; i < N; ++i) { E += ref.Ei[i]; es += std::fabs((double)ref.Ei[i]); for (int k = 0; k < s.nn[i]; ++k, ++p) for (int a = 0; a < 3; ++a) {
            F[3 * i + a] -= ref.F[3 * p + a]; F[3 * s.idx[p] + a] += ref.F[3 * p + a];
            for (int b = 0; b < 3; ++b) { W[3 * a + b] += (LD)s.xyz[3 * p + a] * ref.F[3 * p + b]; vs += std::fabs(s.xyz[3 * p + a] * (double)ref.F[3 * p + b]); } } }
        if (getenv("LW_DEBUG")) std::fprintf(stderr, "N=%d pairs=%zu ranks=%zu\n", N, s.r.size(), ranks.size());
        for (auto& rp : ranks) for (int i = 0; i < (int)rp->refs.size(); ++i) {
            const int gi = rp->refs[i].g;
            for (int a = 0; a < 3; ++a) got[3 * gi + a] += (LD)rp->atom->f[i][a] - rp->fbase[3 * i + a];       // newton: ghost forces go to the owner
            if (eflag & 2) eat[gi] += rp->pair->eatom[i];
        }
        es = std::max(es, ref.escale); fs *= 4;
        for (int i = 0; i < 3 * N; ++i) sim::expect_close(t + ":force", "force on atom " + std::to_string(atoms[i / 3].tag) + " [" + std::to_string(i % 3) + "]", (double)got[i], F[i], fs + 2, rtol);
        if (eflag & 1) { LD e = 0; for (auto& r : ranks) e += r->pair->eng_vdwl; sim::expect_close(t + ":energy", "total energy", (double)e, E, es, rtol); }
        if (eflag & 2) for (int i = 0; i < N; ++i) sim::expect_close(t + ":eatom", "energy of atom " + std::to_string(atoms[i].tag), (double)eat[i], ref.Ei[i], ref.escale, rtol);
        if (vflag & 3) {
            static const int ab[6][2] = {{0, 0}, {1, 1}, {2, 2}, {0, 1}, {0, 2}, {1, 2}};
            for (int k = 0; k < 6; ++k) {
                LD v = 0; for (auto& r : ranks) v += r->pair->virial[k];
                // synthetic models are not rotation invariant, so the tensor is not symmetric: either off-diagonal element or their mean
                const LD p = W[3 * ab[k][0] + ab[k][1]], q = W[3 * ab[k][1] + ab[k][0]]; LD want = 0.5 * (p + q);
                for (LD c : {p, q}) if (std::fabs((double)(v - c)) < std::fabs((double)(v - want))) want = c;
                sim::expect_close(t + ":virial", "virial[" + std::to_string(k) + "]", (double)v, want, vs, rtol);
            }
        }
        ++ctx_steps();
    }
    static uint64_t& ctx_steps() { return sim::ctx->stats->steps; }
};
}
