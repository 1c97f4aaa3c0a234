// pair_style symmetrix/mace on simulated LAMMPS jobs.
#include "lmp_drive.hpp"
#include "pair_symmetrix_mace.h"
struct Cpu : lw::Backend {
    LAMMPS_NS::Pair* make_pair(lw::Rank& r) override { return new LAMMPS_NS::PairSymmetrixMACE(&r.lmp); }
    const char* tag() override { return "lmp"; }
};
static Cpu cpu;
static void lmp_layouts() { lw::layouts(cpu); }
static void lmp_setups() { lw::setups(cpu); }
static void lmp_steps() { lw::steps(cpu); }
int main(int c, char** v) { return sim::harness_main(c, v, {{"lmp_layouts", lmp_layouts}, {"lmp_steps", lmp_steps}, {"lmp_setups", lmp_setups}}); }
