#include "num_shim.h"
#include "general_definitions.hpp"
#include "preprocessor/input_parameters.hpp"
#include "geometry/mesh_definitions.hpp"
#include "geometry/mesh_skeleton_definitions.hpp"
#include "basis/bases_1D.hpp"
#include "simulation/stepper/explicit_ssp_rk_stepper.hpp"
#include "simulation/stepper/implicit_stepper.hpp"
#include "simulation/stepper/second_strang_stepper.hpp"
#include "problem/SWE/problem_function_files/swe_initial_condition_functions.hpp"
#include "problem/SWE/problem_function_files/swe_source_functions.hpp"
#include "problem/SWE/problem_function_files/swe_true_solution_functions.hpp"
#include "problem/SWE/discretization_EHDG/ehdg_swe_problem.hpp"
namespace num {
// ---- conversions
template <typename T>
static M mat(const T& x) {
    DynMatrix<double> d = x;
    M r(rows(d), V(columns(d)));
    for (uint i = 0; i < r.size(); ++i)
        for (uint j = 0; j < r[i].size(); ++j)
            r[i][j] = d(i, j);
    return r;
}
template <typename T>
static void put_col(M& r, uint j, const T& x) {  // a column vector
    DynVector<double> d = x;
    for (uint i = 0; i < r.size(); ++i)
        r[i][j] = d[i];
}
static DynMatrix<double> dyn(const M& m) {
    DynMatrix<double> d(m.size(), m.empty() ? 0 : m[0].size());
    for (uint i = 0; i < m.size(); ++i)
        for (uint j = 0; j < m[i].size(); ++j)
            d(i, j) = m[i][j];
    return d;
}
static DynMatrix<double> eye(uint n) {
    DynMatrix<double> d(n, n);
    set_constant(d, 0.0);
    for (uint i = 0; i < n; ++i)
        d(i, i) = 1.;
    return d;
}
static AlignedVector<Point<1>> pts(const V& x) {
    AlignedVector<Point<1>> r(x.size());
    for (uint i = 0; i < x.size(); ++i)
        r[i][0] = x[i];
    return r;
}
static AlignedVector<Point<2>> pts(const std::vector<P2>& x) {
    AlignedVector<Point<2>> r(x.size());
    for (uint i = 0; i < x.size(); ++i) {
        r[i][0] = x[i][0];
        r[i][1] = x[i][1];
    }
    return r;
}
static std::vector<P2> back(const AlignedVector<Point<2>>& x) {
    std::vector<P2> r;
    for (auto& p : x)
        r.push_back({p[0], p[1]});
    return r;
}
static AlignedVector<Point<3>> pts3(const std::array<P2, 3>& x) {
    AlignedVector<Point<3>> r(3);
    for (uint i = 0; i < 3; ++i)
        r[i] = Point<3>{x[i][0], x[i][1], 0.};
    return r;
}

// ---- time stepping
static StepperInput input(const Plan& p) {
    StepperInput s;
    s.order         = p.order;
    s.nstages       = p.nstages;
    s.dt            = p.dt;
    s.ramp_duration = p.ramp_duration;
    return s;
}
struct Elt {
    struct D {
        AlignedVector<SWE::State> state;
    } data;
};
static void note(const ESSPRKStepper& s, Stepping& r) {
    r.step.push_back(s.GetStep());
    r.stage.push_back(s.GetStage());
    r.stamp.push_back(s.GetTimestamp());
    r.time.push_back(s.GetTimeAtCurrentStage());
    r.ramp.push_back(s.GetRamp());
}
static void run_explicit(ESSPRKStepper& s, const Plan& p, Stepping& r) {
    r.order  = s.GetOrder();
    r.stages = s.GetNumStages();
    r.dt     = s.GetDT();
    Elt e;
    uint n = p.q0.size();
    e.data.state.assign(s.GetNumStages() + 1, SWE::State(n));
    auto put = [&](HybMatrix<double, SWE::n_variables>& m, const V& v) {
        for (uint var = 0; var < SWE::n_variables; ++var)
            for (uint i = 0; i < n; ++i)
                m(var, i) = v[i] * (var + 1);
    };
    auto get = [&](const HybMatrix<double, SWE::n_variables>& m) {
        V v(n);
        for (uint i = 0; i < n; ++i) {
            v[i] = m(0, i);
            for (uint var = 1; var < SWE::n_variables; ++var)
                if (!(std::abs(m(var, i) - (var + 1) * m(0, i)) <= 1e-13 * (1 + std::abs(m(var, i)))))
                    v[i] = std::nan("");  // variables are mixed
        }
        return v;
    };
    put(e.data.state[0].q, p.q0);
    int at = 0;
    for (int k = 0; k < p.nsteps; ++k) {
        if (k == p.dt2_at)
            s.SetDT(p.dt2);
        for (uint st = 0; st < s.GetNumStages(); ++st) {
            uint g = s.GetStage();
            note(s, r);
            V q = get(e.data.state[g].q);
            r.q.push_back(q);
            put(e.data.state[g].solution, p.rhs(at++, q, s.GetTimeAtCurrentStage()));
            s.UpdateState(e);
            ++s;
        }
    }
    note(s, r);
    r.q.push_back(get(e.data.state[0].q));
}
static void run_implicit(ImplicitStepper& s, const Plan& p, Stepping& r) {
    r.order  = s.GetOrder();
    r.stages = s.GetNumStages();
    r.dt     = s.GetDT();
    r.theta  = s.GetTheta();
    for (int k = 0; k <= p.nsteps; ++k) {
        r.step.push_back(s.GetStep());
        r.stage.push_back(s.GetStage());
        r.stamp.push_back(s.GetTimestamp());
        r.time.push_back(s.GetTimeAtCurrentStage());
        r.time_next.push_back(s.GetTimeAtNextStage());
        r.ramp.push_back(s.GetRamp());
        r.ramp_next.push_back(s.GetRampNext());
        ++s;
    }
}
Stepping explicit_steps(const Plan& p) {
    Stepping r;
    try {
        ESSPRKStepper s(input(p));
        run_explicit(s, p, r);
    } catch (std::exception&) {
        r.refused = true;
    }
    return r;
}
Stepping implicit_steps(const Plan& p) {
    Stepping r;
    try {
        ImplicitStepper s(input(p));
        run_implicit(s, p, r);
    } catch (std::exception&) {
        r.refused = true;
    }
    return r;
}
std::array<Stepping, 3> strang_steps(const Plan& p) {
    std::array<Stepping, 3> r;
    try {
        SecondStrangStepper<ESSPRKStepper, ESSPRKStepper> s0(input(p)), s;
        s = std::move(s0);
        Plan one   = p;
        one.nsteps = 1;
        int at     = 0;
        V q        = p.q0;
        one.rhs    = [&](int, const V& x, double t) { return p.rhs(at++, x, t); };
        auto app   = [&](ESSPRKStepper& st, Stepping& o) {
            one.q0 = q;
            run_explicit(st, one, o);
            q = o.q.back();
        };
        for (int k = 0; k < p.nsteps; ++k) {
            r[2].step.push_back(s.GetStep());
            r[2].time.push_back(s.GetTimeAtCurrentStage());
            app(s.GetFirstStepper(), r[0]);
            app(s.GetSecondStepper(), r[1]);
            app(s.GetFirstStepper(), r[0]);
        }
        r[2].step.push_back(s.GetStep());
        r[2].time.push_back(s.GetTimeAtCurrentStage());
        r[2].q.push_back(q);
    } catch (std::exception&) {
        r[2].refused = true;
    }
    return r;
}

// ---- rules and bases
template <typename I>
static Rule rule(I i, unsigned p) {
    auto x = i.GetRule(p);
    Rule r;
    for (uint k = 0; k < x.first.size(); ++k)
        r.w.push_back(x.first[k]);
    for (auto& q : x.second) {
        V v;
        for (uint k = 0; k < q.size(); ++k)
            v.push_back(q[k]);
        r.x.push_back(v);
    }
    r.ngp = i.GetNumGP(p);
    return r;
}
Rule rule1(unsigned p) { return rule(Integration::GaussLegendre_1D(), p); }
Rule rule2(unsigned p) { return rule(Integration::Dunavant_2D(), p); }
M phi1(unsigned p, const V& x) { return mat(Basis::Legendre_1D().GetPhi(p, pts(x))); }
M dphi1(unsigned p, const V& x) { return mat(Basis::Legendre_1D().GetDPhi(p, pts(x))[0]); }
M phi2(unsigned p, const std::vector<P2>& x) { return mat(Basis::Dubiner_2D().GetPhi(p, pts(x))); }
std::array<M, 2> dphi2(unsigned p, const std::vector<P2>& x) {
    auto d = Basis::Dubiner_2D().GetDPhi(p, pts(x));
    return {mat(d[0]), mat(d[1])};
}
M minv1(unsigned p) { return mat(Basis::Legendre_1D().GetMinv(p)); }
M minv2(unsigned p) { return mat(Basis::Dubiner_2D().GetMinv(p)); }
M to_linear(unsigned p) { return mat(Basis::Dubiner_2D().GetBasisLinearT(p)); }
M from_linear(unsigned p) { return mat(Basis::Dubiner_2D().GetLinearBasisT(p)); }
static V vec(const DynVector<double>& d) {
    V r(d.size());
    for (uint i = 0; i < r.size(); ++i)
        r[i] = d[i];
    return r;
}
V jacobi(unsigned n, unsigned a, unsigned b, const V& x) { return vec(Basis::jacobi_polynomial(n, a, b, x)); }
V djacobi(unsigned n, unsigned a, unsigned b, const V& x) { return vec(Basis::jacobi_polynomial_derivative(n, a, b, x)); }

// ---- shapes
Tri triangle(const std::array<P2, 3>& node, const std::vector<P2>& local, const V& edge, const std::vector<P2>& global, unsigned before) {
    Shape::StraightTriangle s(pts3(node));
    Tri r;
    for (uint i = 0; i < 3; ++i)
        r.node[i] = {s.nodal_coordinates[i][0], s.nodal_coordinates[i][1]};
    auto L      = pts(local);
    r.area      = s.GetArea();
    r.radius    = s.GetRadius();
    r.perimeter = s.GetPerimeter();
    r.lengths   = s.GetLengths();
    r.jdet      = s.GetJdet(L)[0];
    Point<2> b  = s.GetBarycentricCoordinates();
    r.bary      = {b[0], b[1]};
    r.mid       = back(s.GetMidpointCoordinates());
    r.jinv      = mat(s.GetJinv(L)[0]);
    for (uint k = 0; k < 3; ++k) {
        r.surface_j.push_back(s.GetSurfaceJ(k, L)[0]);
        auto n = s.GetSurfaceNormal(k, L)[0];
        r.normal.push_back({n[0], n[1]});
        r.bound_nodes[k] = s.GetBoundaryNodeID(k, {10, 20, 30});
        r.bound_psi[k]   = mat(s.GetBoundaryPsi(k, pts(edge)));
    }
    r.psi   = mat(s.GetPsi(L));
    auto d  = s.GetDPsi(L);
    r.dpsi  = {mat(d[0]), mat(d[1])};
    r.global = back(s.LocalToGlobalCoordinates(L));
    r.local  = back(s.GlobalToLocalCoordinates(pts(global)));
    for (auto& g : global)
        r.inside.push_back(s.ContainsPoint(Point<2>{g[0], g[1]}));
    AlignedVector<Point<3>> vp(before, Point<3>{7., 7., 7.});
    Array2D<uint> vc(before, std::vector<uint>{9, 9, 9, 9});
    s.GetVTK(vp, vc);
    for (auto& v : vp)
        r.vtk_points.push_back({v[0], v[1], v[2]});
    r.vtk_cells.assign(vc.begin(), vc.end());
    return r;
}
typedef Master::Triangle<Basis::Dubiner_2D, Integration::Dunavant_2D> MasterT;
std::vector<P2> edge_to_master(unsigned p, unsigned side, const V& x) {
    MasterT m(p);
    return back(m.BoundaryToMasterCoordinates(side, pts(x)));
}

// ---- operators
typedef Geometry::Element<2, MasterT, Shape::StraightTriangle, SWE::Data> ElementT;
typedef Geometry::RawBoundary<1, SWE::Data> RawT;
struct Nothing {};
typedef Geometry::Boundary<1, Integration::GaussLegendre_1D, SWE::Data, Nothing> BoundT;
typedef Geometry::Interface<1, Integration::GaussLegendre_1D, SWE::Data, Nothing> FaceT;
typedef Geometry::EdgeBoundary<1, Basis::Legendre_1D, SWE::EdgeData, BoundT> EBoundT;
typedef Geometry::EdgeInterface<1, Basis::Legendre_1D, SWE::EdgeData, FaceT> EFaceT;
static auto coords = [](const Point<2>& x) {
    StatVector<double, 3> v;
    v[0] = x[0];
    v[1] = x[1];
    v[2] = 1.;
    return v;
};
template <typename E>
static ElemOps elem_ops(E& e, const std::vector<P2>& survey, const M& u) {
    ElemOps o;
    auto& m = e.GetMaster();
    uint nd = o.ndof = m.ndof, ng = o.ngp = m.ngp;
    DynMatrix<double> Id = eye(nd), Ig = eye(ng), I3 = eye(3);
    o.f        = mat(e.ComputeFgp(coords));
    o.ugp      = mat(e.ComputeUgp(Id));
    o.lin      = mat(e.ComputeLinearUgp(I3));
    o.nodal    = mat(e.ComputeNodalUgp(I3));
    o.lin_bary = mat(e.ComputeLinearUbaryctr(I3));
    o.lin_mid  = mat(e.ComputeLinearUmidpts(I3));
    o.lin_vrtx = mat(e.ComputeLinearUvrtx(I3));
    o.to_lin   = mat(e.ProjectBasisToLinear(Id));
    o.from_lin = mat(e.ProjectLinearToBasis(I3));
    o.integ    = mat(e.Integration(Ig));
    o.iphi     = mat(e.IntegrationPhi(Ig));
    o.iphi1    = M(ng, V(nd));
    for (uint j = 0; j < nd; ++j)
        put_col(o.iphi1, j, e.IntegrationPhi(j, Ig));
    for (uint i = 0; i < nd; ++i) {
        M x(ng, V(nd));
        for (uint j = 0; j < nd; ++j)
            put_col(x, j, e.IntegrationPhiPhi(i, j, Ig));
        o.iphiphi.push_back(x);
    }
    for (uint d = 0; d < 2; ++d) {
        o.dugp[d]      = mat(e.ComputeDUgp(d, Id));
        o.dlin[d]      = mat(e.ComputeLinearDUgp(d, I3));
        o.dnodal[d]    = mat(e.ComputeNodalDUgp(d, I3));
        o.lin_dbary[d] = mat(e.ComputeLinearDUbaryctr(d, I3));
        o.idphi[d]     = mat(e.IntegrationDPhi(d, Ig));
        o.idphi1[d]    = M(ng, V(nd));
        for (uint j = 0; j < nd; ++j)
            put_col(o.idphi1[d], j, e.IntegrationDPhi(d, j, Ig));
        for (uint i = 0; i < nd; ++i) {
            M x(ng, V(nd));
            for (uint j = 0; j < nd; ++j)
                put_col(x, j, e.IntegrationPhiDPhi(i, d, j, Ig));
            o.iphidphi[d].push_back(x);
        }
    }
    o.l2     = mat(e.L2Projection(Ig));
    o.l2node = mat(e.L2ProjectionNode(I3));
    o.l2f    = mat(e.L2ProjectionF(coords));
    o.minv   = mat(e.ApplyMinv(Id));
    AlignedVector<DynVector<double>> c, p, s;
    e.WriteCellDataVTK(Id, c);
    e.WritePointDataVTK(Id, p);
    e.SetSurveyPoints(pts(survey));
    e.WriteSurveyPointData(Id, s);
    auto pack = [&](const AlignedVector<DynVector<double>>& v) {
        M r(nd, V(v.size()));
        for (uint j = 0; j < v.size(); ++j)
            put_col(r, j, v[j]);
        return r;
    };
    o.cell   = pack(c);
    o.point  = pack(p);
    o.survey = pack(s);
    for (uint k = 0; k < u.size(); ++k) {
        DynMatrix<double> w(1, nd);
        for (uint j = 0; j < nd; ++j)
            w(0, j) = u[k][j];
        o.resid.push_back(e.ComputeResidualL2(
            [k](const Point<2>& x) {
                StatVector<double, 1> v;
                v[0] = k == 0 ? x[0] * x[1] : k == 1 ? x[0] - 2 * x[1] + 0.5 : x[0] * x[0] * x[1] - x[1];
                return v;
            },
            w));
    }
    return o;
}
#define SIDE(S, N)                                                       \
    template <typename B>                                                \
    static SideOps N(B& b, uint nd, DynMatrix<double> normal) {          \
        SideOps o;                                                       \
        DynMatrix<double> Id = eye(nd), I3 = eye(3), I2 = eye(2);        \
        o.normal = mat(normal);                                          \
        o.ugp    = mat(b.ComputeUgp##S(Id));                             \
        uint ng = o.ngp = o.ugp[0].size();                               \
        DynMatrix<double> Ig = eye(ng);                                  \
        o.f      = mat(b.ComputeFgp##S(coords));                         \
        o.nodal  = mat(b.ComputeNodalUgp##S(I3));                        \
        o.bnodal = mat(b.ComputeBoundaryNodalUgp##S(I2));                \
        o.integ  = mat(b.Integration##S(Ig));                            \
        o.iphi   = mat(b.IntegrationPhi##S(Ig));                         \
        o.iphi1  = M(ng, V(nd));                                         \
        for (uint j = 0; j < nd; ++j)                                    \
            put_col(o.iphi1, j, b.IntegrationPhi##S(j, Ig));             \
        for (uint i = 0; i < nd; ++i) {                                  \
            M x(ng, V(nd));                                              \
            for (uint j = 0; j < nd; ++j)                                \
                put_col(x, j, b.IntegrationPhiPhi##S(i, j, Ig));         \
            o.iphiphi.push_back(x);                                      \
        }                                                                \
        return o;                                                        \
    }
SIDE(, side_ops)
SIDE(IN, in_ops)
SIDE(EX, ex_ops)
template <typename E>
static EdgeOps edge_common(E& e) {
    EdgeOps o;
    uint nd = o.ndof = e.edge_data.get_ndof(), ng = o.ngp = e.edge_data.get_ngp();
    DynMatrix<double> Id = eye(nd), Ig = eye(ng);
    o.ugp  = mat(e.ComputeUgp(Id));
    o.l2   = mat(e.L2Projection(Ig));
    o.minv = mat(e.ApplyMinv(Id));
    o.ilam = M(ng, V(nd));
    for (uint j = 0; j < nd; ++j)
        put_col(o.ilam, j, e.IntegrationLambda(j, Ig));
    for (uint i = 0; i < nd; ++i) {
        M x(ng, V(nd));
        for (uint j = 0; j < nd; ++j)
            put_col(x, j, e.IntegrationLambdaLambda(i, j, Ig));
        o.ilamlam.push_back(x);
    }
    return o;
}
PatchOps patch(unsigned p, const std::array<P2, 3>& a, const std::array<P2, 3>& b, unsigned s0, unsigned s1, const std::vector<P2>& survey, const M& u) {
    PatchOps r;
    MasterT master(p);
    auto mk = [&](const std::array<P2, 3>& n, uint id, uint s) {
        std::vector<uint> nb(3, DEFAULT_ID);
        std::vector<uchar> ty(3, SWE::BoundaryTypes::land);
        (void)s;
        return ElementT(id, master, pts3(n), std::vector<uint>{3 * id, 3 * id + 1, 3 * id + 2}, std::move(nb), std::move(ty));
    };
    ElementT e0 = mk(a, 0, s0), e1 = mk(b, 1, s1);
    uint nd     = master.ndof;
    r.elem[0]   = elem_ops(e0, survey, u);
    r.elem[1]   = elem_ops(e1, survey, u);
    typedef std::map<uchar, std::map<std::pair<uint, uint>, RawT>> Raw;
    ElementT* el[2] = {&e0, &e1};
    for (uint k = 0; k < 2; ++k) {
        Raw raw;
        el[k]->CreateRawBoundaries(raw);
        for (uint s = 0; s < 3; ++s) {
            BoundT bd(std::move(raw[SWE::BoundaryTypes::land].at({k, s})));
            r.bound[k][s] = side_ops(bd, nd, bd.surface_normal);
            for (uint c = 0; c < 2; ++c) {
                EBoundT eb(bd, c == 0);
                EdgeOps o = edge_common(eb);
                DynMatrix<double> Ig = eye(o.ngp);
                for (uint i = 0; i < nd; ++i) {
                    M x(o.ngp, V(o.ndof));
                    for (uint j = 0; j < o.ndof; ++j)
                        put_col(x, j, eb.IntegrationPhiLambda(i, j, Ig));
                    o.iphilam.push_back(x);
                }
                r.bedge[k][s][c] = o;
            }
        }
    }
    Raw raw0, raw1;
    e0.CreateRawBoundaries(raw0);
    e1.CreateRawBoundaries(raw1);
    FaceT f(std::move(raw0[SWE::BoundaryTypes::land].at({0, s0})), std::move(raw1[SWE::BoundaryTypes::land].at({1, s1})));
    r.in = in_ops(f, nd, f.surface_normal_in);
    r.ex = ex_ops(f, nd, f.surface_normal_ex);
    for (uint c = 0; c < 2; ++c) {
        EFaceT ef(f, c == 0);
        EdgeOps o            = edge_common(ef);
        DynMatrix<double> Ig = eye(o.ngp);
        for (uint i = 0; i < nd; ++i) {
            M x(o.ngp, V(o.ndof)), y(o.ngp, V(o.ndof));
            for (uint j = 0; j < o.ndof; ++j) {
                put_col(x, j, ef.IntegrationPhiLambdaIN(i, j, Ig));
                put_col(y, j, ef.IntegrationPhiLambdaEX(i, j, Ig));
            }
            o.iphilam.push_back(x);
            o.iphilam_ex.push_back(y);
        }
        r.iedge[c] = o;
    }
    return r;
}

// ---- fluxes
void set_gravity(double g) { SWE::Global::g = g; }
std::vector<Fluxes> fluxes(const M& q, const V& bath, const M& n, double gravity) {
    uint N = bath.size();
    HybMatrix<double, SWE::n_variables> Q(SWE::n_variables, N), Fx(SWE::n_variables, N), Fy(SWE::n_variables, N), Fn(SWE::n_variables, N), F1(SWE::n_variables, N);
    HybMatrix<double, SWE::n_auxiliaries> A(SWE::n_auxiliaries, N);
    HybMatrix<double, SWE::n_dimensions> S(SWE::n_dimensions, N);
    HybMatrix<double, SWE::n_variables * SWE::n_variables> Jx(9, N), Jy(9, N), Jn(9, N);
    for (uint i = 0; i < N; ++i) {
        for (uint v = 0; v < 3; ++v)
            Q(v, i) = q[v][i];
        A(SWE::Auxiliaries::bath, i) = bath[i];
        A(SWE::Auxiliaries::h, i)    = bath[i] + q[0][i];
        A(SWE::Auxiliaries::sp, i)   = 1;
        S(0, i)                      = n[0][i];
        S(1, i)                      = n[1][i];
    }
    std::vector<Fluxes> r(N);
    SWE::get_F(Q, A, Fx, Fy);
    SWE::get_Fn(Q, A, S, Fn);
    SWE::get_dF_dq(Q, A, Jx, Jy);
    SWE::get_dFn_dq(Q, A, S, Jn);
    for (uint i = 0; i < N; ++i) {
        SWE::get_Fn(gravity, column(Q, i), column(A, i), column(S, i), column(F1, i));
        StatMatrix<double, 3, 3> t;
        SWE::get_tau_LF(gravity, column(Q, i), column(A, i), column(S, i), t);
        r[i].tau1 = t(0, 0);
        for (uint v = 0; v < 3; ++v) {
            r[i].fx[v]  = Fx(v, i);
            r[i].fy[v]  = Fy(v, i);
            r[i].fn[v]  = Fn(v, i);
            r[i].fn1[v] = F1(v, i);
        }
        for (uint k = 0; k < 9; ++k) {
            r[i].dfx[k] = Jx(k, i);
            r[i].dfy[k] = Jy(k, i);
            r[i].dfn[k] = Jn(k, i);
        }
    }
    typedef AlignedVector<StatMatrix<double, 3, 3>> VM;
    auto rec = [&](const char* name, void (*f)(const HybMatrix<double, SWE::n_variables>&, const HybMatrix<double, SWE::n_auxiliaries>&,
                                               const HybMatrix<double, SWE::n_dimensions>&, VM&)) {
        VM m(N);
        f(Q, A, S, m);
        for (uint i = 0; i < N; ++i)
            for (uint a = 0; a < 3; ++a)
                for (uint b = 0; b < 3; ++b)
                    r[i].mat[name][3 * a + b] = m[i](a, b);
    };
#define REC(x) rec(#x, SWE::get_##x)
    REC(A); REC(dA_dze); REC(dA_dqx); REC(dA_dqy);
    REC(absA); REC(dabsA_dze); REC(dabsA_dqx); REC(dabsA_dqy);
    REC(Aplus); REC(dAplus_dze); REC(dAplus_dqx); REC(dAplus_dqy);
    REC(Aminus); REC(dAminus_dze); REC(dAminus_dqx); REC(dAminus_dqy);
#undef REC
    rec("tau", SWE::get_tau_LF);
    rec("dtau_dze", SWE::get_dtau_dze_LF);
    rec("dtau_dqx", SWE::get_dtau_dqx_LF);
    rec("dtau_dqy", SWE::get_dtau_dqy_LF);
    return r;
}
}
