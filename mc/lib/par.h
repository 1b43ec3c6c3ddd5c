// Partitioned runs: enumeration of decompositions, running the partitioner and
// the parallel program, comparison against the serial program.
#ifndef MC_PAR_H
#define MC_PAR_H
#include "../rt/mcrt.h"
#include "cases.h"
#include "pool.h"
#include "sim.h"

namespace par {
struct Config {
    std::string name;
    cases::Mesh mesh;
    cases::Run run;
    int user_ic = 1, user_src = 1, user_true = -1;
    std::vector<std::array<double, 15>> table;  // for user_ic 7
};
// one decomposition: element k (in order of increasing id) -> partition, partition -> node
struct Decomp {
    std::vector<int> part;
    int nparts = 1;
    std::vector<int> node;
    int nnodes = 1;
    int rpl    = 1;  // ranks per locality
    bool balanced = false;
    int nranks() const { return nnodes * rpl; }
    std::string str() const;
    static Decomp parse(const std::string&);
};
// all ways to split n elements into exactly k non-empty unlabelled parts
std::vector<std::vector<int>> set_partitions(int n, int k);
// all surjective maps of k parts onto n nodes
std::vector<std::vector<int>> assignments(int k, int n);

typedef void (*EntryFn)(const std::string&);
extern EntryFn gn_serial;  // if set: the serial program with the dispersive terms
EntryFn serial_entry(const std::string& scheme);

// steps; each returns an empty string or a description of the failure
void user(const Config& c);   // sets the user functions
extern void (*before_partitioner)();  // called in its process
std::string run_serial(const Config& c, const std::string& dir, std::vector<sim::Rec>& out);
std::string run_partitioner(const Config& c, const Decomp& d, const std::string& dir);
mc::ExecResult run_parallel(const Config& c, EntryFn entry, const mc::ExecConfig& ec, const std::string& dir);
std::vector<sim::Rec> gather(const mc::ExecResult& r);

// largest difference; err describes structural differences (missing elements/steps, wet flags)
double compare(const std::vector<sim::Rec>& a, const std::vector<sim::Rec>& b, std::string& err);
// the partition files describe the mesh: empty if so
std::string check_files(const Config& c, const Decomp& d, const std::string& dir);
Config make(const std::string& name);  // catalogue
}
#endif
