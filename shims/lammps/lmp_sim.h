// Stand-in for the parts of LAMMPS a pair style sees: one LAMMPS instance per simulated
// MPI rank.  Semantics follow LAMMPS (pair.cpp ev_setup, comm_brick/comm_tiled swaps,
// full/half/ghost neighbour lists, atom maps).  Communication goes to the simulator.
#pragma once
#include <array>
#include <climits>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

#define FLERR __FILE__, __LINE__
#define NEIGHMASK 0x1FFFFFFF
#define SBBITS 30
#ifndef MAX
#define MAX(A,B) ((A) > (B) ? (A) : (B))
#endif
#ifndef MIN
#define MIN(A,B) ((A) < (B) ? (A) : (B))
#endif

namespace LAMMPS_NS {
typedef int tagint; typedef int smallint; typedef int imageint; typedef int64_t bigint;
#define MAXTAGINT INT_MAX

class Memory; class Error; class Atom; class AtomKokkos; class Comm; class Force; class Neighbor; class Domain;
class MemoryKokkos; class Pair; class NeighList; class LAMMPS; class Update; class Universe; class KokkosLMP;
typedef int MPI_Comm_sim;

struct LammpsError { std::string where; };      // what error->all / error->one throw

class LAMMPS {
 public:
  Memory *memory = nullptr; Error *error = nullptr; Atom *atom = nullptr; Comm *comm = nullptr; Force *force = nullptr;
  Neighbor *neighbor = nullptr; Domain *domain = nullptr; KokkosLMP *kokkos = nullptr; MemoryKokkos *memoryKK = nullptr;
  AtomKokkos *atomKK = nullptr; Update *update = nullptr; FILE *screen = nullptr, *logfile = nullptr, *infile = nullptr; const char *suffix = nullptr; int suffix_enable = 0;
};

class Pointers {
 public:
  Pointers(LAMMPS *p) : lmp(p), memory(p->memory), error(p->error), atom(p->atom), comm(p->comm), force(p->force), neighbor(p->neighbor),
    domain(p->domain), screen(p->screen), logfile(p->logfile), atomKK(p->atomKK), memoryKK(p->memoryKK), update(p->update) {}
  virtual ~Pointers() = default;
 protected:
  LAMMPS *lmp; Memory *&memory; Error *&error; Atom *&atom; Comm *&comm; Force *&force; Neighbor *&neighbor; Domain *&domain;
  FILE *&screen, *&logfile;
  AtomKokkos *&atomKK; MemoryKokkos *&memoryKK; Update *&update;
};

class Update {
 public:
  bigint ntimestep = 0, firststep = 0, laststep = 0, beginstep = 0, endstep = 0; double dt = 0.001; int whichflag = 1, setupflag = 0;
  bigint eflag_global = 0, eflag_atom = 0, vflag_global = 0, vflag_atom = 0; const char *unit_style = "metal", *integrate_style = "verlet", *minimize_style = "cg";
};

class Error {
 public:
  template <class... A> [[noreturn]] void all(const char *, int, const std::string &s, A &&...) { throw LammpsError{s}; }
  template <class... A> [[noreturn]] void one(const char *, int, const std::string &s, A &&...) { throw LammpsError{s}; }
  template <class... A> void warning(const char *, int, const std::string &, A &&...) {}
  template <class... A> void message(const char *, int, const std::string &, A &&...) {}
  [[noreturn]] void done(int = 0) { throw LammpsError{"done"}; }
};

namespace utils {
  template <class... A> void logmesg(LAMMPS *, const std::string &, A &&...) {}
  inline void logmesg(LAMMPS *, const std::string &) {}
  inline int inumeric(const char *, int, const std::string &s, bool, LAMMPS *) { return std::stoi(s); }
  inline double numeric(const char *, int, const std::string &s, bool, LAMMPS *) { return std::stod(s); }
  inline bool strmatch(const std::string &a, const std::string &b) { return a.find(b[0] == '^' ? b.substr(1) : b) != std::string::npos; }
  inline bool is_integer(const std::string &s) { for (char c : s) if (c < '0' || c > '9') return false; return !s.empty(); }
  inline void bounds(const char *, int, const std::string &s, int lo, int hi, int &a, int &b, Error *) { if (s == "*") { a = lo; b = hi; } else a = b = std::stoi(s); }
}

void lmp_garbage(void *p, size_t n);            // seeded contents of fresh memory

class Memory {
 public:
  virtual ~Memory() = default;
  void *smalloc(size_t n, const char *) { if (!n) return nullptr; void *p = std::malloc(n); lmp_garbage(p, n); return p; }
  void sfree(void *p) { std::free(p); }
  template <class T> T *create(T *&a, int n, const char *name) { a = (T *) smalloc(sizeof(T) * size_t(n), name); return a; }
  template <class T> T **create(T **&a, int n1, int n2, const char *name) {
    if (n1 <= 0 || n2 <= 0) return nullptr;
    T *d = (T *) smalloc(sizeof(T) * size_t(n1) * n2, name); a = (T **) smalloc(sizeof(T *) * size_t(n1), name);
    for (int i = 0; i < n1; ++i) a[i] = d + size_t(i) * n2;
    return a;
  }
  template <class T> T *grow(T *&a, int n, const char *name) { a = (T *) std::realloc(a, sizeof(T) * size_t(n)); return a; }
  template <class T> T **grow(T **&a, int n1, int n2, const char *name) { T **old = a; create(a, n1, n2, name); if (old) { std::free(old[0]); std::free(old); } return a; }
  template <class T> void destroy(T *&a) { sfree(a); a = nullptr; }
  template <class T> void destroy(T **&a) { if (a) sfree(a[0]); sfree(a); a = nullptr; }
};

class Atom : public Pointers {
 public:
  using Pointers::Pointers;
  enum { GROW = 0, RESTART = 1, BORDER = 2 };
  enum { ATOMIC = 0, MOLECULAR = 1, TEMPLATE = 2 };
  enum { MAP_NONE = 0, MAP_ARRAY = 1, MAP_HASH = 2, MAP_YES = 3 };
  bigint natoms = 0; int nlocal = 0, nghost = 0, nmax = 0, tag_enable = 1, molecular = 0;
  int ntypes = 0;
  tagint *tag = nullptr; int *type = nullptr, *mask = nullptr; imageint *image = nullptr; double **x = nullptr, **v = nullptr, **f = nullptr, *mass = nullptr;
  int map_user = MAP_YES, map_style = MAP_ARRAY; tagint map_tag_max = 0;
  std::unordered_map<tagint, int> sim_map;
  int map(tagint t) { auto i = sim_map.find(t); return i == sim_map.end() ? -1 : i->second; }
};

class Domain : public Pointers {
 public:
  using Pointers::Pointers;
  int dimension = 3, triclinic = 0, nonperiodic = 0, xperiodic = 1, yperiodic = 1, zperiodic = 1, periodicity[3] = {1, 1, 1}, box_exist = 1;
  double boxlo[3] = {0, 0, 0}, boxhi[3] = {0, 0, 0}, sublo[3], subhi[3], prd[3], xprd, yprd, zprd;
  void minimum_image(double &x, double &y, double &z) { double *v[3] = {&x, &y, &z}; for (int c = 0; c < 3; ++c) if (periodicity[c]) *v[c] -= prd[c] * std::round(*v[c] / prd[c]); }
  void minimum_image(double *d) { minimum_image(d[0], d[1], d[2]); }
};

class Comm : public Pointers {
 public:
  using Pointers::Pointers;
  enum { BRICK, TILED }; int style = BRICK, layout = 0, mode = 0;
  int me = 0, nprocs = 1, nthreads = 1, ghost_velocity = 0; int size_forward = 3, size_reverse = 3;
  double cutghostuser = 0;
  double get_comm_cutoff();
  void modify_params(int narg, char **arg) {
    for (int i = 0; i < narg; ++i) {
      if (!std::strcmp(arg[i], "cutoff") && i + 1 < narg) { cutghostuser = std::atof(arg[++i]); if (cutghostuser < 0) throw LammpsError{"Invalid cutoff in comm_modify command"}; }
      else throw LammpsError{"Unknown comm_modify keyword"};
    }
  }
  void forward_comm(Pair *p, int size = 0); void reverse_comm(Pair *p, int size = 0);
  int rank_in_world = 0;
};

class Force : public Pointers {
 public:
  using Pointers::Pointers;
  int newton = 1, newton_pair = 1, newton_bond = 1; double special_lj[4] = {1, 0, 0, 0}, special_coul[4] = {1, 0, 0, 0}; Pair *pair = nullptr;
  double ftm2v = 1, qqrd2e = 1;
};

class NeighRequest {
 public:
  Pair *pair; int flags; int kokkos_host = 0, kokkos_device = 0, full = 0, half = 1, ghost = 0, occasional = 0, id = 0; double cutoff = 0;
  void set_kokkos_host(int f) { kokkos_host = f; }  void set_kokkos_device(int f) { kokkos_device = f; }
  void set_cutoff(double c) { cutoff = c; } void set_id(int i) { id = i; } void enable_full() { full = 1; half = 0; } void enable_ghost() { ghost = 1; }
};
namespace NeighConst {
  enum { REQ_DEFAULT = 0, REQ_FULL = 1 << 0, REQ_GHOST = 1 << 1, REQ_SIZE = 1 << 2, REQ_HISTORY = 1 << 3, REQ_OCCASIONAL = 1 << 4, REQ_RESPA_INOUT = 1 << 5,
         REQ_RESPA_ALL = 1 << 6, REQ_NEWTON_ON = 1 << 8, REQ_NEWTON_OFF = 1 << 9, REQ_SSA = 1 << 10 };
}
class Neighbor : public Pointers {
 public:
  using Pointers::Pointers;
  double skin = 0, cutneighmin = 0, cutneighmax = 0; int every = 1, delay = 0, dist_check = 1, ago = 0, oneatom = 2000, pgsize = 100000; bigint lastcall = 0, ncalls = 0, ndanger = 0; int decide() { return ago == 0; }
  std::vector<std::unique_ptr<NeighRequest>> requests;
  NeighRequest *add_request(Pair *p, int flags = 0) {
    requests.push_back(std::make_unique<NeighRequest>()); auto *r = requests.back().get(); r->pair = p; r->flags = flags;
    if (flags & NeighConst::REQ_FULL) r->enable_full(); if (flags & NeighConst::REQ_GHOST) r->enable_ghost();
    return r;
  }
  NeighRequest *find_request(Pair *p, int = 0) { for (auto &r : requests) if (r->pair == p) return r.get(); return nullptr; }
};

class NeighList {
 public:
  virtual ~NeighList() = default;
  int inum = 0, gnum = 0; int *ilist = nullptr, *numneigh = nullptr; int **firstneigh = nullptr; int ghost = 0;
};

enum ExecutionSpace { Host, Device, HostKK };

class Pair : public Pointers {
 public:
  explicit Pair(LAMMPS *l) : Pointers(l) {}
  ~Pair() override { std::free(eatom_owned); }
  enum { R, RSQ, BMP };
  enum { CENTROID_SAME = 0, CENTROID_AVAIL = 1, CENTROID_NOTAVAIL = 2 };
  int sbmask(int j) const { return j >> SBBITS & 3; }
  double eng_vdwl = 0, eng_coul = 0, virial[6] = {0, 0, 0, 0, 0, 0}; double *eatom = nullptr, **vatom = nullptr, **cvatom = nullptr;
  double cutforce = 0; double **cutsq = nullptr; int **setflag = nullptr; double **cutghost = nullptr;
  int comm_forward = 0, comm_reverse = 0, comm_reverse_off = 0;
  int single_enable = 1, born_matrix_enable = 0, single_hessian_enable = 0, restartinfo = 1, respa_enable = 0, one_coeff = 0, manybody_flag = 0, unit_convert_flag = 0,
      no_virial_fdotr_compute = 0, writedata = 0, finitecutflag = 0, ghostneigh = 0, ewaldflag = 0, pppmflag = 0, msmflag = 0, dispersionflag = 0, tip4pflag = 0,
      dipoleflag = 0, spinflag = 0, reinitflag = 1, centroidstressflag = 0, trim_flag = 1, did_mix = 0, did_tally_flag = 0, evflag = 0;
  int compute_flag = 1, allocated = 0, nextra = 0, mix_flag = 0, offset_flag = 0; double *pvector = nullptr;
  NeighList *list = nullptr, *listhalf = nullptr, *listfull = nullptr;
  ExecutionSpace execution_space = Host; unsigned datamask_read = 0, datamask_modify = 0; int kokkosable = 0, copymode = 0;
  int reverse_comm_device = 0, fuse_force_clear_flag = 0;
  int eflag_either = 0, eflag_global = 0, eflag_atom = 0, vflag_either = 0, vflag_global = 0, vflag_atom = 0, cvflag_atom = 0, vflag_fdotr = 0;
  int maxeatom = 0, maxvatom = 0, maxcvatom = 0;

  virtual void compute(int, int) = 0;
  virtual void settings(int, char **) = 0;
  virtual void coeff(int, char **) = 0;
  virtual void init_style() { neighbor->add_request(this); }
  virtual double init_one(int, int) { return 0; }
  virtual void init_list(int which, NeighList *p) { list = p; }
  virtual void setup() {}
  virtual void *extract(const char *, int &) { return nullptr; }
  virtual int pack_forward_comm(int, int *, double *, int, int *) { return 0; }
  virtual void unpack_forward_comm(int, int, double *) {}
  virtual int pack_reverse_comm(int, int, double *) { return 0; }
  virtual void unpack_reverse_comm(int, int *, double *) {}
  virtual double memory_usage() { return 0; }
  void init() {                                           // Pair::init
    if (!allocated) throw LammpsError{"All pair coeffs are not set"};
    cutforce = 0; init_style();
    for (int i = 1; i <= atom->ntypes; ++i) for (int j = i; j <= atom->ntypes; ++j) {
      double c = 0; if (setflag[i][j]) c = init_one(i, j); else if (!mix_flag) throw LammpsError{"All pair coeffs are not set"};
      cutsq[i][j] = cutsq[j][i] = c * c; cutforce = MAX(cutforce, c);
    }
  }
  void ev_init(int eflag, int vflag, int alloc = 1) {
    if (eflag || vflag) ev_setup(eflag, vflag, alloc); else ev_unset();
  }
  virtual void ev_setup(int eflag, int vflag, int alloc = 1) {
    eflag_either = eflag; eflag_global = eflag & 1; eflag_atom = eflag & 2;
    vflag_global = vflag & 3; vflag_atom = vflag & 4; if (vflag & 8) vflag_atom = 1; cvflag_atom = 0;
    vflag_either = vflag_global || vflag_atom || cvflag_atom; evflag = eflag_either || vflag_either;
    if (eflag_atom && atom->nmax > maxeatom) {
      maxeatom = atom->nmax;
      if (alloc) { std::free(eatom_owned); eatom_owned = eatom = (double *) std::malloc(sizeof(double) * size_t(maxeatom)); lmp_garbage(eatom, sizeof(double) * size_t(maxeatom)); }
    }
    if (eflag_global) eng_vdwl = eng_coul = 0;
    if (vflag_global) for (double &v : virial) v = 0;
    if (eflag_atom && alloc) for (int i = 0, n = atom->nlocal + (force->newton ? atom->nghost : 0); i < n; ++i) eatom[i] = 0;
    if (vflag_atom && alloc && atom->nmax > maxvatom) { maxvatom = atom->nmax; vatom_store.assign(size_t(maxvatom) * 6, 0); vatom_rows.resize(maxvatom); for (int i = 0; i < maxvatom; ++i) vatom_rows[i] = &vatom_store[6 * i]; vatom = vatom_rows.data(); }
    if ((vflag_global & 2) && no_virial_fdotr_compute == 0) { vflag_fdotr = 1; vflag_global = 0; if (!vflag_atom) vflag_either = 0; if (!vflag_either && !eflag_either) evflag = 0; }
    else vflag_fdotr = 0;
  }
  void ev_unset() { evflag = eflag_either = eflag_global = eflag_atom = vflag_either = vflag_global = vflag_atom = cvflag_atom = vflag_fdotr = 0; }
  void virial_fdotr_compute() {
    for (int i = 0; i < atom->nlocal + atom->nghost; ++i) {
      double *x = atom->x[i], *f = atom->f[i];
      virial[0] += f[0] * x[0]; virial[1] += f[1] * x[1]; virial[2] += f[2] * x[2]; virial[3] += f[1] * x[0]; virial[4] += f[2] * x[0]; virial[5] += f[2] * x[1];
    }
    vflag_fdotr = 0;
  }
 private:
  double *eatom_owned = nullptr; std::vector<double> vatom_store; std::vector<double *> vatom_rows;
};
}
