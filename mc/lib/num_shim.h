// Plain views of the solver's numerical building blocks.
#ifndef MC_NUM_SHIM_H
#define MC_NUM_SHIM_H
#include <array>
#include <functional>
#include <map>
#include <string>
#include <vector>
namespace num {
typedef std::vector<double> V;
typedef std::vector<V> M;  // rows
typedef std::array<double, 2> P2;

// ---- time stepping
struct Stepping {
    bool refused = false;
    unsigned order = 0, stages = 0;
    double dt = 0, theta = 0;
    // before every stage, and after the last one
    std::vector<unsigned> step, stage, stamp;
    V time, time_next, ramp, ramp_next;
    M q;  // state that a stage starts from, and the final one
};
struct Plan {
    int order, nstages;
    double dt, ramp_duration;
    int nsteps;
    V q0;
    // rhs of a stage: (stage counted over the whole run, state, time)
    std::function<V(int, const V&, double)> rhs;
    double dt2 = 0;  // set before step dt2_at
    int dt2_at = -1;
};
Stepping explicit_steps(const Plan&);
Stepping implicit_steps(const Plan&);
// first and second integrator of the splitting
std::array<Stepping, 3> strang_steps(const Plan&);  // the third: what the splitting itself reports

// ---- rules and bases
struct Rule {
    V w;
    M x;
    unsigned ngp;
};
Rule rule1(unsigned p);
Rule rule2(unsigned p);
M phi1(unsigned p, const V& x);                      // [dof][point]
M dphi1(unsigned p, const V& x);
M phi2(unsigned p, const std::vector<P2>& x);
std::array<M, 2> dphi2(unsigned p, const std::vector<P2>& x);
M minv1(unsigned p);
M minv2(unsigned p);
M to_linear(unsigned p);    // basis -> vertex values
M from_linear(unsigned p);
V jacobi(unsigned n, unsigned a, unsigned b, const V& x);
V djacobi(unsigned n, unsigned a, unsigned b, const V& x);

// ---- shapes
struct Tri {
    std::array<P2, 3> node;  // as the shape keeps them
    double area, radius, perimeter, jdet;
    V lengths, surface_j;
    P2 bary;
    std::vector<P2> mid, normal;
    M jinv;
    std::array<std::vector<unsigned>, 3> bound_nodes;
    // at the points
    M psi;
    std::array<M, 2> dpsi;
    std::array<M, 3> bound_psi;  // at the 1D points
    std::vector<P2> global, local;
    std::vector<bool> inside;
    M vtk_points;
    std::vector<std::vector<unsigned>> vtk_cells;
};
Tri triangle(const std::array<P2, 3>& node, const std::vector<P2>& local, const V& edge, const std::vector<P2>& global, unsigned vtk_before);
std::vector<P2> edge_to_master(unsigned p, unsigned side, const V& x);

// ---- operators of one element, as matrices acting from the right
struct ElemOps {
    unsigned ndof, ngp;
    M f;                        // the coordinates at the volume points (2 x ngp)
    M ugp, dugp[2];             // ndof x ngp
    M lin, dlin[2];             // 3 x ngp
    M nodal, dnodal[2];         // 3 x ngp
    M lin_bary, lin_dbary[2];   // 3 x 1
    M lin_mid, lin_vrtx;        // 3 x 3
    M to_lin, from_lin;
    M integ;                    // ngp x 1
    M iphi, iphi1;              // ngp x ndof, by the call for all or one dof
    M idphi[2], idphi1[2];
    std::vector<M> iphiphi;     // [i] ngp x ndof(j)
    std::vector<M> iphidphi[2];
    M l2, l2node, minv;         // ngp x ndof, 3 x ndof, ndof x ndof
    M l2f;                      // coordinates x, y and 1 projected (3 x ndof)
    M cell, point;              // ndof x ncell
    M survey;                   // ndof x points
    V resid;                    // squared distance between the projection given and coordinate functions
};
struct SideOps {
    unsigned ngp;
    M normal, f, ugp, nodal, bnodal, integ, iphi, iphi1;
    std::vector<M> iphiphi;
};
struct EdgeOps {
    unsigned ndof, ngp;
    M ugp, l2, ilam, minv;            // ndof x ngp, ngp x ndof
    std::vector<M> ilamlam;           // [i] ngp x ndof
    std::vector<M> iphilam, iphilam_ex;  // [local dof] ngp x ndof
};
struct PatchOps {
    ElemOps elem[2];
    SideOps bound[2][3];  // every side of both elements as a boundary
    EdgeOps bedge[2][3][2];  // counterclockwise or not
    SideOps in, ex;       // the side they share
    EdgeOps iedge[2];
};
// two triangles joined along side s0 of the first and s1 of the second; all operators of degree p
PatchOps patch(unsigned p, const std::array<P2, 3>& a, const std::array<P2, 3>& b, unsigned s0, unsigned s1, const std::vector<P2>& survey, const M& u);

// ---- flux and its derivatives
typedef std::array<double, 9> J3;
struct Fluxes {
    std::array<double, 3> fx, fy, fn, fn1;  // fn1: the variant with its own gravity
    J3 dfx, dfy, dfn;
    std::map<std::string, J3> mat;  // A, absA, Aplus, Aminus, tau, L, R, invR and derivatives
    double tau1;
};
void set_gravity(double g);
// several points at once: q 3 x n, depth, normal 2 x n
std::vector<Fluxes> fluxes(const M& q, const V& bath, const M& n, double gravity);
}
#endif
