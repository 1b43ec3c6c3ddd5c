// Entry points into the solver. Each scheme lives in its own translation unit.
#ifndef MC_SIM_H
#define MC_SIM_H
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>

namespace sim {
// one element at one moment, exactly as the solver holds it
struct Rec {
    uint32_t step;   // steps completed
    uint32_t id;     // element id
    uint32_t wet;
    uint32_t nvar, ndof;
    uint32_t dry;    // fell dry completely in this step
    double t;
    uint32_t node[4];  // labels of the nodes, in the order of the element's own coordinates
    std::vector<double> q;  // nvar x ndof, row by row
    bool operator<(const Rec& o) const { return step != o.step ? step < o.step : id < o.id; }
    bool operator==(const Rec& o) const;
};
std::vector<Rec> decode(const std::string& payload);   // sorted by (step, id)
std::string encode(const std::vector<Rec>&);

// the program's own flow (create, run, finalise), with every step dumped through the sink
enum Scheme { RKDG, EHDG, IHDG, GN };
typedef void (*SinkFn)(const void*, size_t);
extern SinkFn sink;
extern int dump_every;   // 0: only last step
extern int dump_weather;     // instead of states: 1 the weather at the nodes after every step, 2 at every time of the source (serial)
extern std::string norm_file;  // if set: the program also reports its error norm, appended here

// every entry is an object of its own: the headers define per-unit globals
}
extern "C" {
int mc_partitioner(const std::vector<std::string>& args) __attribute__((weak));  // partitioner/partitioner.cpp main
void mc_rkdg_serial(const std::string& input) __attribute__((weak));
void mc_ehdg_serial(const std::string& input) __attribute__((weak));
void mc_ihdg_serial(const std::string& input) __attribute__((weak));
void mc_gn_serial(const std::string& input) __attribute__((weak));
void mc_rkdg_ompi(const std::string& input) __attribute__((weak));
void mc_ehdg_ompi(const std::string& input) __attribute__((weak));
void mc_ihdg_ompi(const std::string& input) __attribute__((weak));
void mc_gn_ompi(const std::string& input) __attribute__((weak));
}
#endif
