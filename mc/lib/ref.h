// Reference semantics: the discrete shallow water equations written down from their definition,
// with none of the solver's code. Used to decide every transition the solver makes.
#ifndef MC_REF_H
#define MC_REF_H
#include "cases.h"
#include "sim.h"
#include <array>
#include <functional>
#include <string>
#include <vector>

namespace ref {
typedef std::array<double, 3> V3;
enum Kind { INTERIOR, LEVEE, LAND, TIDE, FLOW, FUNCTION };

struct Side {
    Kind kind = LAND;
    int el = -1, side = -1;          // neighbour (interior, levee)
    double nx, ny, len;
    cases::Levee lev[2];             // at the two ends (in the order of integration)
    const std::vector<cases::Constituent>* con = nullptr;  // forcing and its values at the ends
    std::vector<double> amp[2], ph[2];
    bool first = false;              // owner of the pair
};
struct Elem {
    unsigned id;
    double x[3], y[3], b[3];         // vertices
    double J;                        // area / 2
    double g1x, g1y, g2x, g2y;       // gradients of the master coordinates
    double dbx, dby, manning, f = 0;  // f: Coriolis parameter
    int v[3];                        // nodes
    Side s[3];
};
struct State {
    std::vector<double> q[3];        // modal coefficients
    bool wet = true;
};

class Model {
  public:
    Model(const cases::Mesh& m, const cases::Run& r);
    void initial();                                   // initial state
    void set(const std::vector<sim::Rec>& r, size_t first, int step);  // continue from a recorded state
    void advance();                                   // one time step
    void settled(const std::vector<sim::Rec>& r, size_t next);  // what the implicit step demands, given the recorded new state
    // largest difference to the recorded states, relative to the size of the patch's values; err names
    // the worst. Patches (connected components) whose transition came within tie of a decision
    // are skipped when they differ, and counted.
    double compare(const std::vector<sim::Rec>& r, size_t first, std::string& err, double tie = 1e-11);
    uint64_t ties = 0, patches = 0;  // skipped, all
    int npatch = 0;
    std::vector<int> patch;          // of every element
    std::vector<int> part;           // if set: the area around a shock does not reach into another part

    std::vector<Elem> el;
    std::vector<State> st;
    double t = 0;
    int step = 0;
    int ndof, p;
    std::vector<double> margin;       // per patch: smallest distance to a decision (wet or dry, limited or not, ...)
    std::vector<std::string> events;  // what happened in the last step (coverage)
    std::vector<std::array<double, 3>> tri;  // weight, z1, z2
    std::vector<std::array<double, 2>> lin;  // weight, z
    double mean(const State& s, int v) const { return s.q[v][0]; }
    double area(int e) const { return 2 * el[e].J; }
    double eval(const std::vector<double>& c, double z1, double z2) const;
    std::array<double, 2> coord(int e, double z1, double z2) const;
    std::array<double, 2> side_point(int s, double z) const;  // master coordinates
    void rates(const std::vector<State>& s, double time, double ramp, std::vector<State>& out);
    double ramp_at(double time) const;

  private:
    cases::Mesh mesh;
    cases::Run run;
    bool hdg, implicit, gn;
    typedef std::vector<std::vector<double>> Modes;      // [element][dof]
    struct Field {                                       // values at the points of integration
        std::vector<std::vector<double>> vol, side[3];
    };
    std::vector<char> troubled, buffered;
    std::vector<Field> bgrad;                            // derivatives of the bottom: 2 first, 4 second, 8 third
    Field values(const Modes& m) const;
    Field field(const std::function<double(int, int, int)>& f) const;  // (element, side or -1, point)
    Field paired(const Field& f) const;                  // mean over both sides
    Modes slope(const Field& f, int dir) const;          // projected derivative
    Modes linear_slope(const Field& f, int dir) const;   // by one of the other methods
    void bottom();
    void trouble(const std::vector<State>& s);
    void dispersion(const std::vector<State>& s, std::vector<State>& out);
    void explicit_step(double dt);
    std::vector<State> rest;  // what the old time contributes to an implicit step
    void old_part();
    std::vector<State> new_part(const std::vector<State>& n);
    double g;
    std::vector<std::vector<double>> phi_tri;              // [gp][dof]
    std::vector<std::vector<std::array<double, 2>>> dphi_tri;
    std::vector<std::vector<double>> phi_side[3];          // [side][gp][dof]
    double sp(double y) const;
    double decide(int e, double d) {
        double &m = margin[patch[e]], a = d < 0 ? -d : d;
        if (!(a >= m))
            m = a;
        return d;
    }
    V3 flux_n(const V3& q, double b, double nx, double ny, double sp, double gr) const;
    V3 llf(const V3& in, const V3& ex, double b, double nx, double ny, double sp, double gr) const;
    V3 land_llf(const V3& in, double b, double nx, double ny, double sp) const;
    double tau(const V3& q, double b, double nx, double ny) const;
    V3 at_side(const State& s, int side, int gp) const;
    void linear_vertices(const std::vector<double>& c, double* v) const;
    void from_vertices(const double* v, std::vector<double>& c) const;
    void wet_dry(int e, State& s);
    void limit(std::vector<State>& s);
    void event(const char* e);
    V3 forced(const Side& s, int gp, double time, double ramp, double& scalar) const;
    void trace(int e, int side, const std::vector<V3>& q, const std::vector<V3>& inf, const std::vector<double>& b, std::vector<V3>& out);
};
const std::vector<std::array<double, 3>>& triangle_rule(int p);
const std::vector<std::array<double, 2>>& line_rule(int p);
double dubiner(int dof, double z1, double z2);
std::array<double, 2> dubiner_grad(int dof, double z1, double z2);
double dubiner_norm2(int dof);       // integral of the square over the master triangle
}
#endif
