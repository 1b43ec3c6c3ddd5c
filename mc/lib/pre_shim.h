// Plain views of the solver's preprocessing objects.
#ifndef MC_PRE_SHIM_H
#define MC_PRE_SHIM_H
#include <array>
#include <map>
#include <string>
#include <vector>
namespace pre {
struct Elem {
    std::vector<unsigned> node, neigh;
    std::vector<int> type;
    bool operator==(const Elem& o) const { return node == o.node && neigh == o.neigh && type == o.type; }
};
struct Meta {
    std::string name;
    std::map<unsigned, Elem> elem;
    std::map<unsigned, std::array<double, 3>> node;
};
struct Adc {
    std::string name;
    std::map<unsigned, std::array<double, 3>> node;
    std::map<unsigned, std::array<unsigned, 3>> elem;
    std::vector<std::vector<unsigned>> open, land, generic;
    std::vector<unsigned> ibtype, counts;   // counts: totals of the boundary lists
    std::map<unsigned, std::vector<unsigned>> back;
    std::map<unsigned, std::vector<double>> height, sub, sup;
};
struct Rank {
    std::array<unsigned, 4> who;            // locality in, ex, submesh in, ex
    std::vector<std::array<unsigned, 5>> pair;  // element in, ex, side in, ex, order
};
Meta connect(const std::string& fort14);    // mesh file -> connectivity
Adc read14(const std::string& fort14);
void copy14(const std::string& from, const std::string& to);  // read and write
void write_meta(const Meta&, const std::string& file);
void convert_meta(const std::string& fort14, const std::string& file);
Meta read_meta(const std::string& file);
std::vector<Rank> read_dbmd(const std::string& file, unsigned locality, unsigned submesh);
// every value of the run input, by name
typedef std::map<std::string, std::string> Values;
Values read_input(const std::string& file, bool gn);
void copy_input(const std::string& from, const std::string& to, bool gn);
void copy_input_raw(const std::string& from, const std::string& to);  // as the partitioner does
Values read_input_part(const std::string& file, unsigned locality, unsigned submesh);
Values read_bcis(const std::string& file);
}
extern "C" int mc_quad_mesh(const std::vector<std::string>& args);
#endif
