// Meshes and run configurations: the input alphabet of the explorations.
#ifndef MC_CASES_H
#define MC_CASES_H
#include <array>
#include <map>
#include <string>
#include <vector>

namespace cases {
struct Levee {
    double H, Csub, Csup;
};
struct Boundary {
    int ibtype = 0;                 // fort.14 land boundary type (0 land, 2 flow, 4/24 levee, 77 function, 88 outflow)
    std::vector<int> nodes;         // node indices
    std::vector<int> back;          // levee: paired nodes
    std::vector<Levee> levee;       // levee: per pair
};
struct Constituent {
    double freq, ff, eq;            // shared
    double amp0, amp1, ph0, ph1;    // amplitude/phase vary along the nodes: a0 + a1 * (k % 3)
};
struct Mesh {
    std::string name = "mesh";
    std::vector<std::array<double, 3>> nodes;   // x, y, depth
    std::vector<std::array<int, 3>> elems;      // node indices
    std::vector<std::vector<int>> open;         // tide
    std::vector<Boundary> land;
    std::vector<std::vector<int>> generic;      // generic (treated as land)
    std::vector<unsigned> node_id, elem_id;     // labels (default 1..n)
    std::vector<unsigned> node_key;             // selects the data of a node (default: its label)
    unsigned key(int n) const { return node_key.empty() ? node_id[n] : node_key[n]; }
    std::vector<Constituent> tide, flow;        // of every open / flow boundary, unless it has its own:
    std::vector<std::vector<Constituent>> tide_of, flow_of;  // by boundary, in order
    const std::vector<Constituent>& tide_at(size_t i) const { return i < tide_of.size() ? tide_of[i] : tide; }
    const std::vector<Constituent>& flow_at(size_t i) const { return i < flow_of.size() ? flow_of[i] : flow; }
    void defaults();                            // fills the labels
    std::string fort14() const;
    std::string bcis() const;
    int faces_internal() const;
};
// one boundary described as a type for every outer side, in the order of the outline
enum Side { LAND = 0, TIDE = 1, FLOW = 2, FUNC = 3 };

Mesh pair_mesh();        // 2 triangles
Mesh fan4();             // 4 triangles around a node
Mesh strip(int n);       // n quads = 2n triangles in a row
Mesh grid(int nx, int ny, int pattern = 0);  // irregular grid
Mesh ring();             // 8 triangles around a hole
Mesh levee_mesh(int n, int split = -1);  // two strips separated by a levee of n sides
// distributes boundary types over the outline (side k gets types[k % size])
void set_outline(Mesh& m, const std::vector<int>& types);
std::vector<std::vector<int>> outline(const Mesh& m);    // closed node loops
void add_forcing(Mesh& m, int ncon = 2);                 // constituents for tide and flow
void scale(Mesh& m, double s);
void perturb(Mesh& m, double eps);                       // deterministic irregular shift of interior and outline nodes
Mesh triangle();         // 1 triangle
Mesh star();             // a triangle with its three neighbours
Mesh combine(const std::vector<Mesh>& parts, double dx = 100., double dy = 0.);  // side by side, not connected
void rotate_elem(Mesh& m, int e, int k);         // starts the vertex list of an element k places later
void flip(Mesh& m, int e);                       // clockwise instead of counter-clockwise
void set_depth(Mesh& m, int kind);                       // 0 flat, 1 linear, 2 irregular

struct Run {
    std::string scheme = "rkdg_swe";
    int p = 1;
    int order = 2, nstages = 2;
    double dt = 1.0;
    int nsteps = 1;
    double ramp = 0;
    double g = 0.5;  // small: meshes are ~10 m, depths ~2 m, steps 1 s; also differs from any default
    bool spherical = false;
    double lon0 = 0, lat0 = 0, R = 6378200.;
    std::string coord = "cartesian";
    int ic = 1;              // 0 default, 1 function, 2 constant
    double ze0 = 0, qx0 = 0, qy0 = 0;
    int friction = 0;        // 0 none, 1 chezy, 2 manning
    double cf = 0.003;
    bool source = false;
    bool coriolis = false;
    double rho = 1000.;
    bool wd = false;
    double ho = 0.1;
    bool sl = false;
    double sl_M = 1e-8, sl_nu = 1.5;
    std::string output;      // extra YAML lines of the output section
    std::vector<unsigned> buffer;  // elements without dispersive terms
    double weather = 0;      // period of the weather files, 0 none
    int weather_every() const;                     // the same in steps
    std::array<double, 3> weather_at(size_t node, double t, int interval = -1) const;  // wind stress and pressure, by the files of an interval
    std::string extra;       // extra lines of the problem section
    int derivative = 0;      // how the dispersive correction differentiates: 0 by projection, 11 12 13 Green-Gauss, 21 22 23 least squares
    std::string name;        // name of the problem, empty for the one of the scheme
    std::string yaml(const std::string& mesh_file, const std::string& format) const;
};
// writes <dir>/m.14, m.bcis, in.15
void write_case(const std::string& dir, const Mesh& m, const Run& r);
std::string describe(const Mesh& m);
}

// behaviour of the user functions
extern int mc_user_ic_mode, mc_user_source_mode, mc_user_true_mode;
extern double mc_user_param[16];
extern std::vector<std::array<double, 15>> mc_user_table;
#endif
