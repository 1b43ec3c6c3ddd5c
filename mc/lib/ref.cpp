#include "ref.h"
#include "pool.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <stdexcept>

extern "C" void mc_user_ic(double t, double x, double y, double* o);
extern "C" void mc_user_source(double t, double x, double y, double* o);

namespace ref {
#include "tables.inc"
const std::vector<std::array<double, 3>>& triangle_rule(int p) { return TRI.at(p); }
const std::vector<std::array<double, 2>>& line_rule(int p) { return LIN.at(p); }

// Jacobi polynomial P_n^(a,0) and derivative by the recurrence
static void jacobi(int n, double a, double x, double& P, double& D) {
    double p0 = 1, d0 = 0, p1 = 0.5 * (a + (a + 2) * x), d1 = 0.5 * (a + 2);
    if (n == 0) {
        P = p0;
        D = d0;
        return;
    }
    for (int k = 2; k <= n; ++k) {
        double c  = 2. * k * (k + a) * (2 * k + a - 2);
        double c1 = 2. * k + a - 1, c2 = (2. * k + a) * (2 * k + a - 2), c3 = 2. * (k + a - 1) * (k - 1) * (2 * k + a);
        double p2 = (c1 * (c2 * x + a * a) * p1 - c3 * p0) / c;
        double d2 = (c1 * (c2 * x + a * a) * d1 + c1 * c2 * p1 - c3 * d0) / c;
        p0 = p1;
        p1 = p2;
        d0 = d1;
        d1 = d2;
    }
    P = p1;
    D = d1;
}
static void modes(int dof, int& p, int& q) {
    int n = 0;
    while ((n + 1) * (n + 2) / 2 <= dof)
        ++n;
    p = dof - n * (n + 1) / 2;
    q = n - p;
}
// On the master triangle with vertices (-1,-1), (1,-1), (-1,1). The polynomial
// P_p(n1) ((1-n2)/2)^p is evaluated by a homogeneous recurrence, so the collapsed vertex is harmless.
static void part1(int p, double z1, double z2, double& S, double& S1, double& S2) {
    // s_p = P_p(n1) h^p with h = (1-z2)/2, n1 h = z1 + (1+z2)/2 =: w
    double h = (1 - z2) / 2, w = z1 + (1 + z2) / 2;
    double s0 = 1, a0 = 0, b0 = 0, s1 = w, a1 = 1, b1 = 0.5;
    if (p == 0) {
        S = s0, S1 = a0, S2 = b0;
        return;
    }
    for (int k = 2; k <= p; ++k) {
        double c = (2. * k - 1) / k, d = (k - 1.) / k;
        double s2 = c * w * s1 - d * h * h * s0;
        double a2 = c * (s1 + w * a1) - d * h * h * a0;
        double b2 = c * (0.5 * s1 + w * b1) - d * (-h * s0 + h * h * b0);
        s0 = s1, a0 = a1, b0 = b1;
        s1 = s2, a1 = a2, b1 = b2;
    }
    S = s1, S1 = a1, S2 = b1;
}
double dubiner(int dof, double z1, double z2) {
    int p, q;
    modes(dof, p, q);
    double S, S1, S2, P, D;
    part1(p, z1, z2, S, S1, S2);
    jacobi(q, 2 * p + 1, z2, P, D);
    return S * P;
}
std::array<double, 2> dubiner_grad(int dof, double z1, double z2) {
    int p, q;
    modes(dof, p, q);
    double S, S1, S2, P, D;
    part1(p, z1, z2, S, S1, S2);
    jacobi(q, 2 * p + 1, z2, P, D);
    return {S1 * P, S2 * P + S * D};
}
double dubiner_norm2(int dof) {
    int p, q;
    modes(dof, p, q);
    return 2. / ((2 * p + 1) * (p + q + 1));
}

double Model::sp(double y) const { return run.spherical ? std::cos(run.lat0 * M_PI / 180) / std::cos(y / run.R) : 1.; }
double Model::ramp_at(double time) const { return run.ramp > 0 ? std::tanh(2 * (time / 86400) / run.ramp) : 1.; }
void Model::event(const char* e) {
    if (std::find(events.begin(), events.end(), e) == events.end())
        events.push_back(e);
}

Model::Model(const cases::Mesh& m, const cases::Run& r) : mesh(m), run(r), hdg(r.scheme == "ehdg_swe" || r.scheme == "ihdg_swe"), implicit(r.scheme == "ihdg_swe"), gn(r.scheme == "gn"), g(r.g) {
    p      = r.p;
    ndof   = (p + 1) * (p + 2) / 2;
    tri    = triangle_rule(2 * p);
    lin    = line_rule(2 * p + 1);
    for (auto& n : mesh.nodes)
        if (run.coord == "spherical") {
            n[0] = run.R * std::cos(run.lat0 * M_PI / 180) * (n[0] - run.lon0) * M_PI / 180;
            n[1] = run.R * n[1] * M_PI / 180;
        }
    std::map<std::pair<int, int>, std::pair<int, int>> owner;  // oriented node pair -> (element, side)
    for (size_t e = 0; e < mesh.elems.size(); ++e) {
        std::array<int, 3> v = mesh.elems[e];
        Elem E;
        auto& N  = mesh.nodes;
        E.id     = mesh.elem_id[e];
        double a = (N[v[1]][0] - N[v[0]][0]) * (N[v[2]][1] - N[v[0]][1]) - (N[v[2]][0] - N[v[0]][0]) * (N[v[1]][1] - N[v[0]][1]);
        if (a < 0)
            throw std::runtime_error("reference: clockwise element");
        E.J       = a / 4;
        E.manning = 0;
        std::copy(v.begin(), v.end(), E.v);
        for (int k = 0; k < 3; ++k) {
            E.x[k] = N[v[k]][0];
            E.y[k] = N[v[k]][1];
            E.b[k] = N[v[k]][2];
            if (run.friction == 2)
                E.manning += (0.02 + 0.003 * (mesh.key(v[k]) % 5)) / 3;
        }
        if (run.coriolis)
            E.f = 2 * 7.2921e-5 * std::sin((E.y[0] + E.y[1] + E.y[2]) / 3 / run.R);
        double x1 = (E.x[1] - E.x[0]) / 2, y1 = (E.y[1] - E.y[0]) / 2, x2 = (E.x[2] - E.x[0]) / 2, y2 = (E.y[2] - E.y[0]) / 2;
        E.g1x = y2 / E.J;
        E.g1y = -x2 / E.J;
        E.g2x = -y1 / E.J;
        E.g2y = x1 / E.J;
        E.dbx = (E.b[1] - E.b[0]) / 2 * E.g1x + (E.b[2] - E.b[0]) / 2 * E.g2x;
        E.dby = (E.b[1] - E.b[0]) / 2 * E.g1y + (E.b[2] - E.b[0]) / 2 * E.g2y;
        for (int k = 0; k < 3; ++k) {
            int i = (k + 1) % 3, j = (k + 2) % 3;
            Side& s = E.s[k];
            double dx = E.x[j] - E.x[i], dy = E.y[j] - E.y[i];
            s.len = std::sqrt(dx * dx + dy * dy);
            s.nx  = dy / s.len;
            s.ny  = -dx / s.len;
            if (!owner.insert({{v[i], v[j]}, {(int)e, k}}).second)
                throw std::runtime_error("reference: side used twice");
        }
        el.push_back(E);
    }
    auto link = [&](int e, int k, Kind kind, int e2, int k2) {
        Side& s = el[e].s[k];
        s.kind  = kind;
        s.el    = e2;
        s.side  = k2;
    };
    std::vector<std::array<bool, 3>> done(el.size(), {false, false, false});
    for (auto& o : owner) {
        auto r2 = owner.find({o.first.second, o.first.first});
        if (r2 == owner.end())
            continue;
        link(o.second.first, o.second.second, INTERIOR, r2->second.first, r2->second.second);
        el[o.second.first].s[o.second.second].first = o.second.first < r2->second.first;
        done[o.second.first][o.second.second] = true;
    }
    // boundary segments: consecutive nodes, in either direction
    auto find = [&](int a, int b, bool& fwd) -> std::pair<int, int> {
        auto i = owner.find({a, b});
        fwd    = true;
        if (i != owner.end())
            return i->second;
        fwd = false;
        i   = owner.find({b, a});
        return i == owner.end() ? std::pair<int, int>{-1, -1} : i->second;
    };
    auto classify = [&](const std::vector<int>& nodes, Kind kind, const std::vector<cases::Constituent>* con) {
        for (size_t i = 0; i + 1 < nodes.size(); ++i) {
            bool fwd;
            auto o = find(nodes[i], nodes[i + 1], fwd);
            if (o.first < 0)
                throw std::runtime_error("reference: boundary segment without element");
            Side& s = el[o.first].s[o.second];
            s.kind  = kind;
            s.con   = con;
            done[o.first][o.second] = true;
            if (con)
                for (int end = 0; end < 2; ++end) {
                    unsigned id = mesh.key(nodes[fwd ? i + end : i + 1 - end]);
                    for (auto& c : *con) {
                        s.amp[end].push_back(c.amp0 + c.amp1 * (id % 3));
                        s.ph[end].push_back(c.ph0 + c.ph1 * (id % 3));
                    }
                }
        }
    };
    size_t nopen = 0, nflow = 0;
    for (auto& b : mesh.open)
        classify(b, TIDE, &mesh.tide_at(nopen++));
    for (auto& b : mesh.land) {
        if (b.ibtype == 77)
            classify(b.nodes, FUNCTION, nullptr);
        else if (b.ibtype % 10 == 2)
            classify(b.nodes, FLOW, &mesh.flow_at(nflow++));
        else if (b.ibtype % 10 == 4) {
            for (size_t i = 0; i + 1 < b.nodes.size(); ++i) {
                bool ff, fb;
                auto a = find(b.nodes[i], b.nodes[i + 1], ff), c = find(b.back[i], b.back[i + 1], fb);
                if (a.first < 0 || c.first < 0)
                    throw std::runtime_error("reference: levee without elements");
                link(a.first, a.second, LEVEE, c.first, c.second);
                link(c.first, c.second, LEVEE, a.first, a.second);
                el[a.first].s[a.second].first = true;
                done[a.first][a.second] = done[c.first][c.second] = true;
                for (int end = 0; end < 2; ++end) {
                    el[a.first].s[a.second].lev[end] = b.levee[ff ? i + end : i + 1 - end];
                    el[c.first].s[c.second].lev[end] = b.levee[fb ? i + end : i + 1 - end];
                }
            }
        } else
            classify(b.nodes, LAND, nullptr);
    }
    for (auto& b : mesh.generic)
        classify(b, LAND, nullptr);
    for (auto& d : done)
        for (bool x : d)
            if (!x)
                throw std::runtime_error("reference: side without boundary condition");
    // connected components
    patch.assign(el.size(), -1);
    for (size_t e = 0; e < el.size(); ++e) {
        if (patch[e] >= 0)
            continue;
        std::vector<int> todo{(int)e};
        patch[e] = npatch;
        while (!todo.empty()) {
            int x = todo.back();
            todo.pop_back();
            for (auto& s : el[x].s)
                if (s.el >= 0 && patch[s.el] < 0) {
                    patch[s.el] = npatch;
                    todo.push_back(s.el);
                }
        }
        ++npatch;
    }
    margin.assign(npatch, 1.);
    for (auto& w : tri) {
        std::vector<double> a(ndof);
        std::vector<std::array<double, 2>> d(ndof);
        for (int k = 0; k < ndof; ++k) {
            a[k] = dubiner(k, w[1], w[2]);
            d[k] = dubiner_grad(k, w[1], w[2]);
        }
        phi_tri.push_back(a);
        dphi_tri.push_back(d);
    }
    for (int s = 0; s < 3; ++s)
        for (auto& w : lin) {
            std::vector<double> a(ndof);
            auto z = side_point(s, w[1]);
            for (int k = 0; k < ndof; ++k)
                a[k] = dubiner(k, z[0], z[1]);
            phi_side[s].push_back(a);
        }
    troubled.assign(el.size(), 0);
    buffered.assign(el.size(), 0);
    for (size_t e = 0; e < el.size(); ++e)
        buffered[e] = std::count(run.buffer.begin(), run.buffer.end(), el[e].id) > 0;
    if (gn)
        bottom();
}

std::array<double, 2> Model::side_point(int s, double z) const {
    return s == 0 ? std::array<double, 2>{-z, z} : s == 1 ? std::array<double, 2>{-1, -z} : std::array<double, 2>{z, -1};
}
double Model::eval(const std::vector<double>& c, double z1, double z2) const {
    double r = 0;
    for (int k = 0; k < ndof; ++k)
        r += c[k] * dubiner(k, z1, z2);
    return r;
}
std::array<double, 2> Model::coord(int e, double z1, double z2) const {
    const Elem& E = el[e];
    double l0 = -(z1 + z2) / 2, l1 = (1 + z1) / 2, l2 = (1 + z2) / 2;
    return {l0 * E.x[0] + l1 * E.x[1] + l2 * E.x[2], l0 * E.y[0] + l1 * E.y[1] + l2 * E.y[2]};
}
static double bary(const double* v, double z1, double z2) { return -(z1 + z2) / 2 * v[0] + (1 + z1) / 2 * v[1] + (1 + z2) / 2 * v[2]; }

// values of the modes 1, z1-direction, z2-direction at the vertices
void Model::linear_vertices(const std::vector<double>& c, double* v) const {
    const double z[3][2] = {{-1, -1}, {1, -1}, {-1, 1}};
    for (int k = 0; k < 3; ++k) {
        v[k] = 0;
        for (int d = 0; d < 3; ++d)
            v[k] += c[d] * dubiner(d, z[k][0], z[k][1]);
    }
}
void Model::from_vertices(const double* v, std::vector<double>& c) const {
    // projection of the linear interpolant; the rule of degree 2p >= 2 is exact
    std::vector<double> r(ndof, 0.);
    for (size_t i = 0; i < tri.size(); ++i)
        for (int k = 0; k < 3; ++k)
            r[k] += tri[i][0] * phi_tri[i][k] * bary(v, tri[i][1], tri[i][2]) / dubiner_norm2(k);
    c = r;
}

void Model::initial() {
    margin.assign(npatch, 1.);
    st.assign(el.size(), State());
    t    = 0;
    step = 0;
    for (size_t e = 0; e < el.size(); ++e) {
        for (int v = 0; v < 3; ++v)
            st[e].q[v].assign(ndof, 0.);
        if (run.ic == 1) {
            for (size_t i = 0; i < tri.size(); ++i) {
                auto xy = coord(e, tri[i][1], tri[i][2]);
                double o[5];
                mc_user_ic(0, xy[0], xy[1], o);
                for (int v = 0; v < 3; ++v)
                    for (int k = 0; k < ndof; ++k)
                        st[e].q[v][k] += tri[i][0] * phi_tri[i][k] * o[v] / dubiner_norm2(k);
            }
        } else if (run.ic == 2) {
            st[e].q[0][0] = run.ze0;
            st[e].q[1][0] = run.qx0;
            st[e].q[2][0] = run.qy0;
        }
        if (run.wd) {
            double v[3];
            bool dry = false;
            linear_vertices(st[e].q[0], v);
            for (int k = 0; k < 3; ++k)
                if (decide(e, v[k] + el[e].b[k] - run.ho - 2.22e-10 * run.ho) <= 0) {
                    v[k] = run.ho - el[e].b[k];
                    dry  = true;
                }
            st[e].wet = !dry;
            if (dry) {
                from_vertices(v, st[e].q[0]);
                st[e].q[1].assign(ndof, 0.);
                st[e].q[2].assign(ndof, 0.);
            }
        }
    }
}

void Model::set(const std::vector<sim::Rec>& r, size_t first, int s) {
    st.assign(el.size(), State());
    step = s;
    t    = s * run.dt;
    std::map<unsigned, const sim::Rec*> by;
    for (size_t i = 0; i < el.size(); ++i)
        by[r[first + i].id] = &r[first + i];
    for (size_t e = 0; e < el.size(); ++e) {
        const sim::Rec& x = *by.at(el[e].id);
        for (int v = 0; v < 3; ++v)
            st[e].q[v].assign(x.q.begin() + v * ndof, x.q.begin() + (v + 1) * ndof);
        st[e].wet = x.wet;
    }
}

double Model::compare(const std::vector<sim::Rec>& r, size_t first, std::string& err, double tie) {
    std::map<unsigned, const sim::Rec*> by;
    for (size_t i = 0; i < el.size() && first + i < r.size(); ++i)
        by[r[first + i].id] = &r[first + i];
    if (by.size() != el.size()) {
        err = "elements missing";
        return 1e300;
    }
    struct P {
        double worst = 0, size = 0;
        std::string err;
        bool nan = false;
    };
    std::vector<P> pt(npatch);
    for (size_t e = 0; e < el.size(); ++e) {
        auto f = by.find(el[e].id);
        if (f == by.end()) {
            err = "element " + std::to_string(el[e].id) + " missing";
            return 1e300;
        }
        const sim::Rec& x = *f->second;
        if ((int)x.ndof != ndof || x.nvar != 3) {
            err = "wrong number of unknowns";
            return 1e300;
        }
        P& w = pt[patch[e]];
        if (run.wd && (x.wet != 0) != st[e].wet) {
            w.err   = mcl::fmt("element %u step %u is %s, expected %s", x.id, x.step, x.wet ? "wet" : "dry", st[e].wet ? "wet" : "dry");
            w.worst = 1e300;
        }
        for (int v = 0; v < 3; ++v)
            for (int k = 0; k < ndof; ++k) {
                double d = std::fabs(x.q[v * ndof + k] - st[e].q[v][k]);
                w.size   = std::max(w.size, std::fabs(st[e].q[v][k]));
                if (!(d <= w.worst)) {
                    w.worst = d;
                    w.err   = mcl::fmt("element %u step %u variable %d mode %d: solver %.15g, expected %.15g", x.id, x.step, v, k, x.q[v * ndof + k], st[e].q[v][k]);
                    if (std::isnan(d))
                        w.worst = 1e300, w.nan = run.derivative;
                }
            }
    }
    double worst = 0;
    for (int i = 0; i < npatch; ++i) {
        ++patches;
        double d = pt[i].worst / (1 + pt[i].size);
        if (!pt[i].nan && d > (implicit ? 1e-6 : 1e-9) && margin[i] < tie) {
            ++ties;
            continue;
        }
        if (d > worst) {
            worst = d;
            err   = pt[i].err + mcl::fmt(" (nearest decision %.2g)", margin[i]);
        }
    }
    return worst;
}

V3 Model::flux_n(const V3& q, double b, double nx, double ny, double s, double gr) const {
    double h = q[0] + b, u = q[1] / h, v = q[2] / h, pe = gr * (q[0] * q[0] / 2 + q[0] * b);
    return {s * q[1] * nx + q[2] * ny, s * (u * q[1] + pe) * nx + u * q[2] * ny, s * u * q[2] * nx + (v * q[2] + pe) * ny};
}
V3 Model::llf(const V3& a, const V3& c, double b, double nx, double ny, double s, double gr) const {
    auto speed = [&](const V3& q) {
        double h = q[0] + b;
        return std::fabs((q[1] * nx + q[2] * ny) / h) + std::sqrt(gr * h * (nx * s * nx * s + ny * ny));
    };
    double l = std::max(speed(a), speed(c));
    V3 fa = flux_n(a, b, nx, ny, s, gr), fc = flux_n(c, b, nx, ny, s, gr), r;
    for (int v = 0; v < 3; ++v)
        r[v] = 0.5 * (fa[v] + fc[v] + l * (a[v] - c[v]));
    return r;
}
// reflection for the direction in which the flux of volume is measured
static V3 mirror(const V3& q, double nx, double ny, double s) {
    double l = std::hypot(s * nx, ny);
    nx *= s / l, ny /= l;
    double qn = q[1] * nx + q[2] * ny;
    return {q[0], q[1] - 2 * qn * nx, q[2] - 2 * qn * ny};
}
V3 Model::land_llf(const V3& q, double b, double nx, double ny, double s) const { return llf(q, mirror(q, nx, ny, s), b, nx, ny, s, g); }
double Model::tau(const V3& q, double b, double nx, double ny) const {
    double h = q[0] + b;
    return std::fabs((q[1] * nx + q[2] * ny) / h) + std::sqrt(g * h);
}
V3 Model::at_side(const State& s, int side, int gp) const {
    V3 r;
    for (int v = 0; v < 3; ++v) {
        r[v] = 0;
        for (int k = 0; k < ndof; ++k)
            r[v] += s.q[v][k] * phi_side[side][gp][k];
    }
    return r;
}
V3 Model::forced(const Side& s, int gp, double time, double ramp, double& sc) const {
    auto& con = *s.con;
    double z  = lin[gp][1];
    sc        = 0;
    for (size_t c = 0; c < con.size(); ++c) {
        double amp = (1 - z) / 2 * s.amp[0][c] + (1 + z) / 2 * s.amp[1][c];
        double ph  = (1 - z) / 2 * s.ph[0][c] + (1 + z) / 2 * s.ph[1][c];
        sc += ramp * con[c].ff * amp * std::cos(con[c].freq * time + (con[c].eq - ph) * M_PI / 180);
    }
    return V3();
}

// matrices A+ and A- of the flux in direction n
typedef std::array<V3, 3> M3;
static void split(const V3& q, double b, double g, double nx, double ny, M3& Ap, M3& Am) {
    double h = q[0] + b, u = q[1] / h, v = q[2] / h, c = std::sqrt(g * h), un = u * nx + v * ny;
    double l[3] = {un - c, un, un + c};
    double R[3][3] = {{1, 0, 1}, {u - c * nx, -ny, u + c * nx}, {v - c * ny, nx, v + c * ny}};
    double L[3][3] = {{(un + c) / (2 * c), -nx / (2 * c), -ny / (2 * c)}, {u * ny - v * nx, -ny, nx}, {(c - un) / (2 * c), nx / (2 * c), ny / (2 * c)}};
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            Ap[i][j] = Am[i][j] = 0;
            for (int k = 0; k < 3; ++k) {
                Ap[i][j] += R[i][k] * 0.5 * (l[k] + std::fabs(l[k])) * L[k][j];
                Am[i][j] += R[i][k] * 0.5 * (l[k] - std::fabs(l[k])) * L[k][j];
            }
        }
}
static double legendre(int k, double z) {
    double P, D;
    jacobi(k, 0, z, P, D);
    return P;
}
static bool solve(std::vector<std::vector<double>> A, std::vector<double>& b) {
    size_t n = b.size();
    for (size_t c = 0; c < n; ++c) {
        size_t p = c;
        for (size_t r = c + 1; r < n; ++r)
            if (std::fabs(A[r][c]) > std::fabs(A[p][c]))
                p = r;
        if (!(std::fabs(A[p][c]) > 0))
            return false;
        std::swap(A[p], A[c]);
        std::swap(b[p], b[c]);
        for (size_t r = c + 1; r < n; ++r) {
            double f = A[r][c] / A[c][c];
            for (size_t k = c; k < n; ++k)
                A[r][k] -= f * A[c][k];
            b[r] -= f * b[c];
        }
    }
    for (size_t c = n; c-- > 0;) {
        for (size_t k = c + 1; k < n; ++k)
            b[c] -= A[c][k] * b[k];
        b[c] /= A[c][c];
    }
    return true;
}
// trace on an open boundary: the polynomial w on the side with
// integral of mu (A+(w)(q - w) - A-(w)(q_inf - w)) = 0 for all polynomials mu
void Model::trace(int e, int side, const std::vector<V3>& q, const std::vector<V3>& inf, const std::vector<double>& b, std::vector<V3>& out) {
    int n = p + 1;
    std::vector<double> x(3 * n, 0.);
    // start from the projection of the interior values
    for (size_t i = 0; i < lin.size(); ++i)
        for (int k = 0; k < n; ++k)
            for (int v = 0; v < 3; ++v)
                x[3 * k + v] += lin[i][0] * legendre(k, lin[i][1]) * q[i][v] * (2 * k + 1) / 2;
    const Side& s = el[e].s[side];
    auto values   = [&](const std::vector<double>& c) {
        std::vector<V3> w(lin.size(), V3{0, 0, 0});
        for (size_t i = 0; i < lin.size(); ++i)
            for (int k = 0; k < n; ++k)
                for (int v = 0; v < 3; ++v)
                    w[i][v] += c[3 * k + v] * legendre(k, lin[i][1]);
        return w;
    };
    auto residual = [&](const std::vector<double>& c) {
        auto w = values(c);
        std::vector<double> r(3 * n, 0.);
        for (size_t i = 0; i < lin.size(); ++i) {
            M3 Ap, Am;
            split(w[i], b[i], g, s.nx, s.ny, Ap, Am);
            for (int v = 0; v < 3; ++v) {
                double d = 0;
                for (int j = 0; j < 3; ++j)
                    d += Ap[v][j] * (q[i][j] - w[i][j]) - Am[v][j] * (inf[i][j] - w[i][j]);
                for (int k = 0; k < n; ++k)
                    r[3 * k + v] += lin[i][0] * legendre(k, lin[i][1]) * d;
            }
        }
        return r;
    };
    auto newton = [&](std::vector<double>& x) {
        double last = 1e300;
        for (int it = 0; it < 60; ++it) {
            auto r = residual(x);
            double nr = 0;
            for (double v : r)
                nr += v * v;
            if (nr < 1e-30 || (it > 8 && nr >= last))
                break;
            if (!(nr < 1e300)) {
                last = nr;
                break;
            }
            last = nr;
            // Newton with a central difference matrix
            std::vector<std::vector<double>> A(3 * n, std::vector<double>(3 * n));
            for (int j = 0; j < 3 * n; ++j) {
                double d = 1e-6;
                auto a = x, c = x;
                a[j] += d;
                c[j] -= d;
                auto ra = residual(a), rc = residual(c);
                for (int i = 0; i < 3 * n; ++i)
                    A[i][j] = (ra[i] - rc[i]) / (2 * d);
            }
            if (!solve(A, r))
                break;
            for (int j = 0; j < 3 * n; ++j)
                x[j] -= r[j];
        }
    };
    std::vector<double> x2 = x;
    newton(x);
    if (implicit) {  // the equation may have a second solution
        std::fill(x2.begin(), x2.end(), 0.);
        for (size_t i = 0; i < lin.size(); ++i)
            for (int k = 0; k < n; ++k)
                for (int v = 0; v < 3; ++v)
                    x2[3 * k + v] += lin[i][0] * legendre(k, lin[i][1]) * inf[i][v] * (2 * k + 1) / 2;
        newton(x2);
        for (int i = 0; i < 3 * n; ++i)
            if (!(std::fabs(x[i] - x2[i]) < 1e-7)) {
                decide(e, 0);
                event("trace equation with two solutions");
                break;
            }
    }
    out = values(x);
    // The equation is not smooth where the normal velocity vanishes; Newton's iteration need
    // not settle when that happens on the side. Such patches stay undecided when they differ.
    double lo = 1e300, hi = -1e300, res = 0;
    for (auto& o : out) {
        double un = o[1] * s.nx + o[2] * s.ny;
        lo = std::min(lo, un);
        hi = std::max(hi, un);
    }
    for (double v : residual(x))
        res += v * v;
    if (!(res < 1e-20) || (lo <= 0 && hi >= 0)) {
        decide(e, 0);
        event("trace with vanishing normal velocity");
    }
}

void Model::rates(const std::vector<State>& S, double time, double ramp, std::vector<State>& out) {
    const size_t ngp = lin.size();
    out.assign(el.size(), State());
    for (auto& o : out)
        for (int v = 0; v < 3; ++v)
            o.q[v].assign(ndof, 0.);
    auto to_side = [&](int e, int k, int gp, const V3& F) {
        for (int v = 0; v < 3; ++v)
            for (int d = 0; d < ndof; ++d)
                out[e].q[v][d] -= lin[gp][0] * el[e].s[k].len / 2 * phi_side[k][gp][d] * F[v];
    };
    for (size_t e = 0; e < el.size(); ++e) {
        if (!S[e].wet)
            continue;
        const Elem& E = el[e];
        for (size_t i = 0; i < tri.size(); ++i) {
            V3 q;
            for (int v = 0; v < 3; ++v) {
                q[v] = 0;
                for (int k = 0; k < ndof; ++k)
                    q[v] += S[e].q[v][k] * phi_tri[i][k];
            }
            double b = bary(E.b, tri[i][1], tri[i][2]), h = q[0] + b, u = q[1] / h, v = q[2] / h;
            auto xy  = coord(e, tri[i][1], tri[i][2]);
            double s = hdg ? 1. : sp(xy[1]);
            V3 fx = flux_n(q, b, 1, 0, s, g), fy = flux_n(q, b, 0, 1, s, g), src = {0, s * g * E.dbx * q[0], g * E.dby * q[0]};
            if (run.source) {
                double o[5];
                mc_user_source(time, xy[0], xy[1], o);
                for (int k = 0; k < 3; ++k)
                    src[k] += o[k];
            }
            if (run.friction) {
                double cf = run.cf;
                if (run.friction == 2)
                    cf = std::max(cf, g * E.manning * E.manning / std::cbrt(h));
                double f = cf * std::sqrt(u * u + v * v) / h;
                src[1] -= f * q[1];
                src[2] -= f * q[2];
            }
            src[1] += E.f * q[2];
            src[2] -= E.f * q[1];
            if (run.weather > 0) {
                std::array<double, 3> w[3];
                for (int k = 0; k < 3; ++k)
                    w[k] = run.weather_at(E.v[k], time, step / run.weather_every());
                double l[3] = {-(tri[i][1] + tri[i][2]) / 2, (1 + tri[i][1]) / 2, (1 + tri[i][2]) / 2}, wind[2] = {0, 0};
                for (int k = 0; k < 3; ++k)
                    for (int d = 0; d < 2; ++d)
                        wind[d] += l[k] * w[k][d];
                double p1 = (w[1][2] - w[0][2]) / 2, p2 = (w[2][2] - w[0][2]) / 2;
                src[1] += (wind[0] - sp(xy[1]) * h * (p1 * E.g1x + p2 * E.g2x)) / run.rho;
                src[2] += (wind[1] - h * (p1 * E.g1y + p2 * E.g2y)) / run.rho;
            }
            for (int d = 0; d < ndof; ++d) {
                double dx = dphi_tri[i][d][0] * E.g1x + dphi_tri[i][d][1] * E.g2x;
                double dy = dphi_tri[i][d][0] * E.g1y + dphi_tri[i][d][1] * E.g2y;
                for (int k = 0; k < 3; ++k)
                    out[e].q[k][d] += E.J * tri[i][0] * (dx * fx[k] + dy * fy[k] + phi_tri[i][d] * src[k]);
            }
        }
    }
    for (size_t e = 0; e < el.size(); ++e)
        for (int k = 0; k < 3; ++k) {
            const Elem& E = el[e];
            const Side& s = E.s[k];
            auto bath     = [&](int gp) { auto z = side_point(k, lin[gp][1]); return bary(E.b, z[0], z[1]); };
            auto ypos     = [&](int gp) { auto z = side_point(k, lin[gp][1]); return coord(e, z[0], z[1])[1]; };
            if (s.kind == INTERIOR) {
                if (!s.first || (!S[e].wet && !S[s.el].wet))
                    continue;
                bool win = S[e].wet, wex = S[s.el].wet;
                for (size_t gp = 0; gp < ngp; ++gp) {
                    int gx = ngp - 1 - gp;
                    V3 a = at_side(S[e], k, gp), c = at_side(S[s.el], s.side, gx), Fi, Fe;
                    double b = bath(gp), f = hdg ? 1. : sp(ypos(gp));
                    V3 w;
                    double ta = 0;
                    if (!hdg) {
                        Fi = llf(a, c, b, s.nx, s.ny, f, g);
                        for (int v = 0; v < 3; ++v)
                            Fe[v] = -Fi[v];
                    } else {
                        for (int v = 0; v < 3; ++v)
                            w[v] = 0.5 * (a[v] + c[v]);
                        V3 Fn = flux_n(w, b, s.nx, s.ny, 1, g);
                        ta    = tau(w, b, s.nx, s.ny);
                        for (int v = 0; v < 3; ++v) {
                            Fi[v] = Fn[v] + ta * (a[v] - w[v]);
                            Fe[v] = -Fn[v] + ta * (c[v] - w[v]);
                        }
                    }
                    if (!win || !wex) {
                        event("wet-dry side");
                        // water may enter a dry element without pressure but never leave it
                        decide(e, std::fabs(Fi[0]) - 1e-12);
                        auto wall = [&](const V3& q, double nx, double ny) {
                            if (!hdg)
                                return land_llf(q, b, nx, ny, f);
                            double qn = q[1] * nx + q[2] * ny;
                            V3 h      = {q[0], q[1] - qn * nx, q[2] - qn * ny};
                            V3 F      = flux_n(h, b, nx, ny, 1, g);
                            double tt = tau(h, b, nx, ny);
                            for (int v = 0; v < 3; ++v)
                                F[v] += tt * (q[v] - h[v]);
                            return F;
                        };
                        auto inflow = [&](const V3& own, const V3& other, double nx, double ny, double mass) {
                            V3 F;
                            if (!hdg)
                                F = llf(own, other, b, nx, ny, f, 0.);
                            else {
                                F = flux_n(w, b, nx, ny, 1, 0.);
                                for (int v = 0; v < 3; ++v)
                                    F[v] += ta * (own[v] - w[v]);
                            }
                            F[0] = mass;
                            return F;
                        };
                        if (Fi[0] > 1e-12) {
                            if (!win) {
                                Fi = V3{0, 0, 0};
                                Fe = wall(c, -s.nx, -s.ny);
                                event("outflow of a dry element stopped");
                            } else {
                                Fe = inflow(c, a, -s.nx, -s.ny, -Fi[0]);
                                event("inflow into a dry element");
                            }
                        } else if (Fi[0] < -1e-12) {
                            if (!wex) {
                                Fe = V3{0, 0, 0};
                                Fi = wall(a, s.nx, s.ny);
                                event("outflow of a dry element stopped");
                            } else {
                                Fi = inflow(a, c, s.nx, s.ny, -Fe[0]);
                                event("inflow into a dry element");
                            }
                        }
                    }
                    to_side(e, k, gp, Fi);
                    to_side(s.el, s.side, gx, Fe);
                }
            } else if (s.kind == LEVEE) {
                if (!s.first || (!S[e].wet && !S[s.el].wet))
                    continue;
                const Side& s2 = el[s.el].s[s.side];
                for (size_t gp = 0; gp < ngp; ++gp) {
                    int gx   = ngp - 1 - gp;
                    double z = lin[gp][1];
                    auto ip  = [&](double x0, double x1) { return (1 - z) / 2 * x0 + (1 + z) / 2 * x1; };
                    double H = ip(s.lev[0].H, s.lev[1].H), Cb = ip(s.lev[0].Csub, s.lev[1].Csub), Cp = ip(s.lev[0].Csup, s.lev[1].Csup);
                    auto z2    = side_point(s.side, lin[gx][1]);
                    double f   = sp(ypos(gp)), f2 = sp(coord(s.el, z2[0], z2[1])[1]);
                    V3 a = at_side(S[e], k, gp), c = at_side(S[s.el], s.side, gx), ax = mirror(a, s.nx, s.ny, f), cx = mirror(c, s2.nx, s2.ny, f2);
                    double ha = a[0] - H, hc = c[0] - H, ga = g, gc = g;
                    decide(e, std::max(ha, hc) - 0.01);
                    decide(e, std::fabs(ha - hc) - 0.01);
                    if (!(std::max(ha, hc) <= 0.01 || std::fabs(ha - hc) <= 0.01)) {
                        bool over = ha > hc;  // towards the neighbour
                        double hi = std::max(ha, hc), lo = std::min(ha, hc), nx = over ? s.nx : s2.nx, ny = over ? s.ny : s2.ny;
                        decide(e, lo - 2 * hi / 3);
                        double Q = lo > 2 * hi / 3 ? Cb * lo * std::sqrt(2 * g * (hi - lo)) : Cp * (2 * hi / 3) * std::sqrt(g * 2 * hi / 3);
                        event(lo > 2 * hi / 3 ? "submerged overtopping" : "free overtopping");
                        ax = {a[0], Q * nx, Q * ny};
                        cx = {c[0], Q * nx, Q * ny};
                        if (over && !S[s.el].wet)
                            gc = 0;
                        if (!over && !S[e].wet)
                            ga = 0;
                    } else
                        event("levee closed");
                    double b2 = bary(el[s.el].b, z2[0], z2[1]);
                    to_side(e, k, gp, llf(a, ax, bath(gp), s.nx, s.ny, f, ga));
                    to_side(s.el, s.side, gx, llf(c, cx, b2, s2.nx, s2.ny, f2, gc));
                }
            } else {
                if (!S[e].wet)
                    continue;
                std::vector<V3> Q(ngp), X(ngp), W;
                std::vector<double> B(ngp);
                for (size_t gp = 0; gp < ngp; ++gp) {
                    Q[gp] = at_side(S[e], k, gp);
                    B[gp] = bath(gp);
                    double sc;
                    switch (s.kind) {
                        case LAND:
                            X[gp] = mirror(Q[gp], s.nx, s.ny, hdg ? 1. : sp(ypos(gp)));
                            break;
                        case TIDE:
                            forced(s, gp, time, ramp, sc);
                            X[gp] = {sc, Q[gp][1], Q[gp][2]};
                            break;
                        case FLOW:
                            forced(s, gp, time, ramp, sc);
                            X[gp] = {Q[gp][0], sc * s.nx, sc * s.ny};
                            break;
                        default: {
                            auto z  = side_point(k, lin[gp][1]);
                            auto xy = coord(e, z[0], z[1]);
                            double o[5];
                            mc_user_ic(time, xy[0], xy[1], o);
                            X[gp] = {o[0], o[1], o[2]};
                        }
                    }
                }
                if (!hdg) {
                    for (size_t gp = 0; gp < ngp; ++gp)
                        to_side(e, k, gp, llf(Q[gp], X[gp], B[gp], s.nx, s.ny, sp(ypos(gp)), g));
                    continue;
                }
                if (s.kind == LAND) {
                    W.resize(ngp);
                    for (size_t gp = 0; gp < ngp; ++gp)
                        for (int v = 0; v < 3; ++v)
                            W[gp][v] = 0.5 * (Q[gp][v] + X[gp][v]);
                } else
                    trace(e, k, Q, X, B, W);
                for (size_t gp = 0; gp < ngp; ++gp) {
                    V3 F     = flux_n(W[gp], B[gp], s.nx, s.ny, 1, g);
                    double h = tau(W[gp], B[gp], s.nx, s.ny);
                    for (int v = 0; v < 3; ++v)
                        F[v] += h * (Q[gp][v] - W[gp][v]);
                    to_side(e, k, gp, F);
                }
            }
        }
    for (size_t e = 0; e < el.size(); ++e)
        for (int v = 0; v < 3; ++v)
            for (int d = 0; d < ndof; ++d)
                out[e].q[v][d] /= el[e].J * dubiner_norm2(d);
}

// redistribution of Bunya et al. on the linear part
void Model::wet_dry(int e, State& s) {
    const double* b = el[e].b;
    double v[3][3], h[3], ho = run.ho, thr = 1e6 * 2.220446049250313e-16 * ho;
    for (int k = 0; k < 3; ++k)
        linear_vertices(s.q[k], v[k]);
    int dry = 0;
    for (int k = 0; k < 3; ++k) {
        h[k] = v[0][k] + b[k];
        dry += decide(e, h[k] - ho - thr) <= 0;
    }
    double avg = (h[0] + h[1] + h[2]) / 3;
    if (decide(e, avg - thr) <= 0)
        avg = thr;
    auto still = [&] {
        for (int k = 0; k < 3; ++k) {
            v[0][k] = avg - b[k];
            v[1][k] = v[2][k] = 0;
        }
    };
    auto store = [&] {
        for (int k = 0; k < 3; ++k)
            from_vertices(v[k], s.q[k]);
    };
    if (dry == 0 && s.wet)
        return;
    if (dry == 3) {
        still();
        s.wet = false;
        store();
        event("element dry");
        return;
    }
    if (dry > 0) {
        if (decide(e, avg - ho - thr) <= 0) {
            // (the depths at the vertices keep their values for the check below)
            still();
            event("thin layer levelled");
        } else {
            int o[3] = {0, 1, 2};
            std::stable_sort(o, o + 3, [&](int i, int j) { return h[i] < h[j]; });
            double n[3];
            n[o[0]] = ho;
            decide(e, h[o[1]] - (n[o[0]] - h[o[0]]) / 2 - ho);
            n[o[1]] = std::max(ho, h[o[1]] - (n[o[0]] - h[o[0]]) / 2);
            n[o[2]] = h[o[2]] - (n[o[0]] - h[o[0]]) - (n[o[1]] - h[o[1]]);
            double dx = 0, dy = 0;
            int cnt = 0;
            for (int k = 0; k < 3; ++k) {
                h[k] = n[k];
                // vertices set to ho exactly are thin whatever the rounding
                if (h[k] <= ho + thr) {
                    ++cnt;
                    dx += v[1][k];
                    dy += v[2][k];
                    v[1][k] = v[2][k] = 0;
                }
            }
            for (int k = 0; k < 3; ++k) {
                v[0][k] = h[k] - b[k];
                if (h[k] > ho + thr) {
                    v[1][k] += dx / (3 - cnt);
                    v[2][k] += dy / (3 - cnt);
                }
            }
            event(cnt == 2 ? "water moved to one vertex" : "water moved to two vertices");
        }
        store();
    }
    int mx = 0;
    for (int k = 1; k < 3; ++k)
        if (h[k] > h[mx])
            mx = k;
    for (int k = 0; k < 3; ++k)
        if (k != mx && std::fabs(v[0][k] - v[0][mx]) > 1e-13)
            decide(e, h[k] - h[mx]);
    bool was = s.wet;
    s.wet    = decide(e, v[0][mx] - (ho - *std::min_element(b, b + 3))) > 0;
    if (!s.wet) {
        for (int k = 0; k < 3; ++k)
            v[1][k] = v[2][k] = 0;
        store();
        event("element dry");
    } else if (!was)
        event("element wet again");
}

void Model::limit(std::vector<State>& S) {
    struct L {
        double v[3][3], c[3], m[3][3], xc, yc, xm[3], ym[3];
    };
    std::vector<L> l(el.size());
    for (size_t e = 0; e < el.size(); ++e) {
        L& a = l[e];
        const Elem& E = el[e];
        for (int v = 0; v < 3; ++v) {
            linear_vertices(S[e].q[v], a.v[v]);
            a.c[v] = (a.v[v][0] + a.v[v][1] + a.v[v][2]) / 3;
            for (int k = 0; k < 3; ++k)
                a.m[v][k] = (a.v[v][(k + 1) % 3] + a.v[v][(k + 2) % 3]) / 2;
        }
        a.xc = (E.x[0] + E.x[1] + E.x[2]) / 3;
        a.yc = (E.y[0] + E.y[1] + E.y[2]) / 3;
        for (int k = 0; k < 3; ++k) {
            a.xm[k] = (E.x[(k + 1) % 3] + E.x[(k + 2) % 3]) / 2;
            a.ym[k] = (E.y[(k + 1) % 3] + E.y[(k + 2) % 3]) / 2;
        }
    }
    auto pair = [](const Side& s) { return s.kind == INTERIOR || s.kind == LEVEE; };
    for (size_t e = 0; e < el.size(); ++e) {
        const Elem& E = el[e];
        bool ok = S[e].wet;
        for (int k = 0; k < 3; ++k)
            if (pair(E.s[k]) && !S[E.s[k].el].wet)
                ok = false;
        if (!ok)
            continue;
        L& a = l[e];
        double nb[3][3], nx[3], ny[3];
        for (int k = 0; k < 3; ++k) {
            bool in = pair(E.s[k]);
            nx[k]   = in ? l[E.s[k].el].xc : 2 * a.xm[k] - a.xc;
            ny[k]   = in ? l[E.s[k].el].yc : 2 * a.ym[k] - a.yc;
            for (int v = 0; v < 3; ++v)
                nb[k][v] = in ? l[E.s[k].el].c[v] : a.c[v];
        }
        double hc = a.c[0] + (E.b[0] + E.b[1] + E.b[2]) / 3, u = a.c[1] / hc, w = a.c[2] / hc, cs = std::sqrt(g * hc);
        double D[3][3];  // [variable][side]
        for (int k = 0; k < 3; ++k) {
            int j = (k + 1) % 3;
            double mx = a.xm[k] - a.xc, my = a.ym[k] - a.yc, r2 = mx * mx + my * my, r = std::sqrt(r2), dx = mx / r, dy = my / r;
            double ax = nx[k] - a.xc, ay = ny[k] - a.yc, bx = nx[j] - a.xc, by = ny[j] - a.yc, det = ax * by - bx * ay;
            double al0 = (mx * by - bx * my) / det, al1 = (ax * my - mx * ay) / det;
            double un = u * dx + w * dy;
            double Lm[3][3] = {{(un + cs) / (2 * cs), -dx / (2 * cs), -dy / (2 * cs)}, {u * dy - w * dx, -dy, dx}, {(cs - un) / (2 * cs), dx / (2 * cs), dy / (2 * cs)}};
            double Rm[3][3] = {{1, 0, 1}, {u - cs * dx, -dy, u + cs * dx}, {w - cs * dy, dx, w + cs * dy}};
            double del[3];
            for (int i = 0; i < 3; ++i) {
                double jump = 0, rec = 0;
                for (int v = 0; v < 3; ++v) {
                    jump += Lm[i][v] * (a.m[v][k] - a.c[v]);
                    rec += Lm[i][v] * (al0 * (nb[k][v] - a.c[v]) + al1 * (nb[j][v] - a.c[v]));
                }
                decide(e, std::fabs(jump) - run.sl_M * r2);
                if (std::fabs(jump) <= run.sl_M * r2)
                    del[i] = jump;
                else if ((jump < 0) == (rec < 0)) {
                    del[i] = std::copysign(std::min(std::fabs(jump), std::fabs(run.sl_nu * rec)), jump);
                    event(std::fabs(jump) <= std::fabs(run.sl_nu * rec) ? "slope kept" : "slope reduced");
                } else {
                    del[i] = 0;
                    event("slope removed");
                }
            }
            for (int v = 0; v < 3; ++v)
                D[v][k] = Rm[v][0] * del[0] + Rm[v][1] * del[1] + Rm[v][2] * del[2];
        }
        for (int v = 0; v < 3; ++v) {
            double pos = 0, neg = 0;
            for (int k = 0; k < 3; ++k)
                (D[v][k] > 0 ? pos : neg) += std::fabs(D[v][k]);
            double tp = pos > 0 ? std::min(1., neg / pos) : 1, tn = neg > 0 ? std::min(1., pos / neg) : 1;
            double n[3], dif = 0, nrm = 0;
            for (int k = 0; k < 3; ++k)
                D[v][k] *= D[v][k] > 0 ? tp : tn;
            for (int k = 0; k < 3; ++k) {
                n[k] = a.c[v] - D[v][k] + D[v][(k + 1) % 3] + D[v][(k + 2) % 3];
                dif += (n[k] - a.v[v][k]) * (n[k] - a.v[v][k]);
                nrm += a.v[v][k] * a.v[v][k];
            }
            double rel = std::sqrt(dif) / std::sqrt(nrm);
            if (p > 1 && rel > 1e-14)
                decide(e, rel - 1e-12);
            if (rel > 1e-12) {
                from_vertices(n, S[e].q[v]);
                event("element limited");
            }
        }
    }
}

// The step of the implicit scheme: the state q' at the new time with
// q' = q + dt ((1 - theta) R(q', t') + theta R(q, t)), theta = 0 (first order) or 1/2 (second).
// settled() is the right hand side for a recorded q', advance() finds q' itself.
void Model::old_part() {
    events.clear();
    margin.assign(npatch, 1.);
    rest = st;
    if (run.order == 2) {
        std::vector<State> f;
        rates(st, t, ramp_at(t), f);
        for (size_t e = 0; e < el.size(); ++e)
            for (int v = 0; v < 3; ++v)
                for (int k = 0; k < ndof; ++k)
                    rest[e].q[v][k] += run.dt * 0.5 * f[e].q[v][k];
    }
}
std::vector<State> Model::new_part(const std::vector<State>& n) {
    std::vector<State> f, x = rest;
    rates(n, t + run.dt, ramp_at(t + run.dt), f);
    for (size_t e = 0; e < el.size(); ++e)
        for (int v = 0; v < 3; ++v)
            for (int k = 0; k < ndof; ++k)
                x[e].q[v][k] += run.dt * (run.order == 2 ? 0.5 : 1.) * f[e].q[v][k];
    return x;
}
void Model::settled(const std::vector<sim::Rec>& r, size_t next) {
    old_part();
    int s    = step;
    set(r, next, s);
    st   = new_part(st);
    step = s + 1;
    t    = step * run.dt;
}

static const Rk& scheme(const cases::Run& run) {
    for (auto& r : RK)
        if (r.n == run.nstages && r.order == run.order)
            return r;
    throw std::runtime_error("reference: unknown Runge-Kutta scheme");
}
static std::vector<State> combine_stages(const Rk& rk, int i, const std::vector<std::vector<State>>& y, const std::vector<std::vector<State>>& f, double dt) {
    std::vector<State> n = y[i];
    for (size_t e = 0; e < n.size(); ++e)
        for (int v = 0; v < 3; ++v)
            for (size_t k = 0; k < n[e].q[v].size(); ++k) {
                double x = 0;
                for (int j = 0; j <= i; ++j)
                    x += rk.a[i][j] * y[j][e].q[v][k] + dt * rk.b[i][j] * f[j][e].q[v][k];
                n[e].q[v][k] = x;
            }
    return n;
}

// ---- dispersive terms (Green-Naghdi) -----------------------------------------------------------
Model::Field Model::field(const std::function<double(int, int, int)>& f) const {
    Field r;
    r.vol.resize(el.size());
    for (auto& s : r.side)
        s.resize(el.size());
    for (size_t e = 0; e < el.size(); ++e) {
        for (size_t i = 0; i < tri.size(); ++i)
            r.vol[e].push_back(f(e, -1, i));
        for (int k = 0; k < 3; ++k)
            for (size_t i = 0; i < lin.size(); ++i)
                r.side[k][e].push_back(f(e, k, i));
    }
    return r;
}
Model::Field Model::values(const Modes& m) const {
    return field([&](int e, int k, int i) {
        double r = 0;
        for (int d = 0; d < ndof; ++d)
            r += m[e][d] * (k < 0 ? phi_tri[i][d] : phi_side[k][i][d]);
        return r;
    });
}
Model::Field Model::paired(const Field& f) const {
    Field r = f;
    for (size_t e = 0; e < el.size(); ++e)
        for (int k = 0; k < 3; ++k) {
            const Side& s = el[e].s[k];
            if (s.el >= 0)
                for (size_t i = 0; i < lin.size(); ++i)
                    r.side[k][e][i] = (f.side[k][e][i] + f.side[s.side][s.el][lin.size() - 1 - i]) / 2;
        }
    return r;
}
// w with  integral of phi w = - integral of f d(phi) + integral over the sides of phi f^ n
Model::Modes Model::slope(const Field& f0, int dir) const {
    if (run.derivative)
        return linear_slope(f0, dir);
    Field f = paired(f0);
    Modes r(el.size(), std::vector<double>(ndof, 0.));
    for (size_t e = 0; e < el.size(); ++e) {
        const Elem& E = el[e];
        for (int d = 0; d < ndof; ++d) {
            double x = 0;
            for (size_t i = 0; i < tri.size(); ++i)
                x -= E.J * tri[i][0] * f.vol[e][i] * (dir ? dphi_tri[i][d][0] * E.g1y + dphi_tri[i][d][1] * E.g2y : dphi_tri[i][d][0] * E.g1x + dphi_tri[i][d][1] * E.g2x);
            for (int k = 0; k < 3; ++k)
                for (size_t i = 0; i < lin.size(); ++i)
                    x += lin[i][0] * E.s[k].len / 2 * phi_side[k][i][d] * f.side[k][e][i] * (dir ? E.s[k].ny : E.s[k].nx);
            r[e][d] = x / (E.J * dubiner_norm2(d));
        }
    }
    return r;
}
// one value per element, by Green's theorem on its own outline or by least squares over the neighbours, then made linear by
// what the neighbours have (two of them, all, or all around a node)
Model::Modes Model::linear_slope(const Field& f, int dir) const {
    const size_t n = el.size();
    typedef std::array<double, 3> A3;
    std::vector<double> g(n, 0.);
    std::vector<std::array<A3, 2>> off(n), mid(n);  // to what lies beyond the sides, to their midpoints
    auto centre = [&](int e, int d) { auto* x = d ? el[e].y : el[e].x; return (x[0] + x[1] + x[2]) / 3; };
    for (size_t e = 0; e < n; ++e)
        for (int k = 0; k < 3; ++k)
            for (int d = 0; d < 2; ++d) {
                auto* x      = d ? el[e].y : el[e].x;
                mid[e][d][k] = (x[(k + 1) % 3] + x[(k + 2) % 3]) / 2 - centre(e, d);
                off[e][d][k] = el[e].s[k].el >= 0 ? centre(el[e].s[k].el, d) - centre(e, d) : mid[e][d][k];
            }
    auto fit = [&](int e, const A3& dif, double* gr) {
        double xx = 0, xy = 0, yy = 0, xf = 0, yf = 0;
        for (int k = 0; k < 3; ++k) {
            double x = off[e][0][k], y = off[e][1][k];
            xx += x * x, xy += x * y, yy += y * y, xf += x * dif[k], yf += y * dif[k];
        }
        double det = xx * yy - xy * xy;
        gr[0]      = (yy * xf - xy * yf) / det;
        gr[1]      = (xx * yf - xy * xf) / det;
    };
    if (run.derivative / 10 == 1) {
        for (size_t e = 0; e < n; ++e)
            for (int k = 0; k < 3; ++k)
                for (size_t i = 0; i < lin.size(); ++i)
                    g[e] += lin[i][0] * el[e].s[k].len / 2 * f.side[k][e][i] * (dir ? el[e].s[k].ny : el[e].s[k].nx) / this->area(e);
    } else {
        std::vector<A3> v(n);
        for (size_t e = 0; e < n; ++e) {
            std::vector<double> c(3, 0.);
            for (int d = 0; d < 3; ++d)
                for (size_t i = 0; i < tri.size(); ++i)
                    c[d] += tri[i][0] * phi_tri[i][d] * f.vol[e][i] / dubiner_norm2(d);
            linear_vertices(c, v[e].data());
        }
        auto mean = [&](int e) { return (v[e][0] + v[e][1] + v[e][2]) / 3; };
        for (size_t e = 0; e < n; ++e) {
            A3 dif;
            for (int k = 0; k < 3; ++k)
                dif[k] = (el[e].s[k].el >= 0 ? mean(el[e].s[k].el) : (v[e][(k + 1) % 3] + v[e][(k + 2) % 3]) / 2) - mean(e);
            double gr[2];
            fit(e, dif, gr);
            g[e] = gr[dir];
        }
    }
    Modes r(n);
    std::map<int, std::pair<double, int>> node;
    for (size_t e = 0; e < n; ++e)
        for (int k = 0; k < 3; ++k) {
            node[el[e].v[k]].first += g[e];
            ++node[el[e].v[k]].second;
        }
    for (size_t e = 0; e < n; ++e) {
        A3 dif, m, v;
        for (int k = 0; k < 3; ++k)
            dif[k] = el[e].s[k].el >= 0 ? g[el[e].s[k].el] - g[e] : 0.;
        if (run.derivative % 10 == 1)
            for (int k = 0; k < 3; ++k) {
                m[k]      = g[e];  // where no two neighbours have the midpoint between them
                bool done = false;
                for (int o = 1; o <= 2 && !done; ++o) {
                    int j      = (k + o) % 3;
                    double det = off[e][0][k] * off[e][1][j] - off[e][1][k] * off[e][0][j];
                    double a   = (mid[e][0][k] * off[e][1][j] - mid[e][1][k] * off[e][0][j]) / det, b = (off[e][0][k] * mid[e][1][k] - off[e][1][k] * mid[e][0][k]) / det;
                    if (a > -1e-12 && b > -1e-12)
                        m[k] += a * dif[k] + b * dif[j], done = true;
                }
            }
        else if (run.derivative % 10 == 2) {
            double gr[2];
            fit(e, dif, gr);
            for (int k = 0; k < 3; ++k)
                m[k] = g[e] + gr[0] * mid[e][0][k] + gr[1] * mid[e][1][k];
        }
        for (int k = 0; k < 3; ++k)
            v[k] = run.derivative % 10 == 3 ? node[el[e].v[k]].first / node[el[e].v[k]].second : m[(k + 1) % 3] + m[(k + 2) % 3] - m[k];
        from_vertices(v.data(), r[e]);
    }
    return r;
}
// height of the bottom (the negative depth) and its derivatives
void Model::bottom() {
    std::vector<Field> last{field([&](int e, int k, int i) {
        auto z = k < 0 ? std::array<double, 2>{tri[i][1], tri[i][2]} : side_point(k, lin[i][1]);
        return -bary(el[e].b, z[0], z[1]);
    })};
    for (int n = 1; n <= 3; ++n) {
        std::vector<Field> next;
        for (auto& f : last)
            for (int d = 0; d < 2; ++d)
                next.push_back(values(slope(f, d)));
        for (auto& f : next)
            bgrad.push_back(f);
        last = next;
    }
}
// elements with a shock (Krivodonova et al.): the jump of the depth over the inflow part of their outline
void Model::trouble(const std::vector<State>& S) {
    std::vector<int> area;
    for (size_t e = 0; e < el.size(); ++e) {
        if (!S[e].wet)
            continue;
        double sum = 0, len = 0, deep = 0, v[3];
        for (int k = 0; k < 3; ++k) {
            const Side& s = el[e].s[k];
            if (s.el < 0)
                continue;
            double qn = 0, jump = 0;
            for (size_t i = 0; i < lin.size(); ++i) {
                V3 a = at_side(S[e], k, i), c = at_side(S[s.el], s.side, lin.size() - 1 - i);
                auto z = side_point(k, lin[i][1]), z2 = side_point(s.side, lin[lin.size() - 1 - i][1]);
                qn += lin[i][0] * s.len / 2 * (a[1] * s.nx + a[2] * s.ny);
                jump += lin[i][0] * s.len / 2 * (a[0] + bary(el[e].b, z[0], z[1]) - c[0] - bary(el[s.el].b, z2[0], z2[1]));
            }
            if (decide(e, qn) < 0) {
                len += s.len;
                sum += std::fabs(jump);
            }
        }
        linear_vertices(S[e].q[0], v);
        for (int k = 0; k < 3; ++k)
            deep = std::max(deep, v[k] + el[e].b[k]);
        if (len > 0) {
            double R = 1;
            for (int k = 0; k < 3; ++k)
                R *= el[e].s[k].len;
            R /= 4 * this->area(e);
            if (decide(e, sum / (std::pow(R, (p + 1) / 2.) * len * deep) - 1) > 0)
                area.push_back(e);
        }
    }
    troubled.assign(el.size(), 0);
    for (int pass = 0; pass < 6; ++pass) {  // and everything within five elements of one
        std::vector<int> next;
        for (int e : area) {
            if (!troubled[e])
                event(pass ? "element near a shock" : "element with a shock");
            troubled[e] = 1;
            for (auto& s : el[e].s)
                if (s.el >= 0 && !troubled[s.el] && (part.empty() || part[s.el] == part[e]))
                    next.push_back(s.el);
        }
        area = next;
    }
}
// w1 + alpha h T(w1 / h) = g / alpha h grad(ze) + h Q(u) in mixed form with w2 = h^3 div(w1 / h), discretised with
// discontinuous elements and a trace of w1 on the sides; all unknowns of a patch at once.
void Model::dispersion(const std::vector<State>& S, std::vector<State>& out) {
    const double al = 1.159, tau = -20;
    const int n1 = p + 1, L = lin.size();
    auto eval3 = [&](int v) {
        Modes m;
        for (auto& s : S)
            m.push_back(s.q[v]);
        return values(m);
    };
    Field ze = eval3(0), qx = eval3(1), qy = eval3(2), h, u[2], dze[2], du[4], ddu[8];
    auto at = [](const Field& f, int e, int k, int i) { return k < 0 ? f.vol[e][i] : f.side[k][e][i]; };
    h = field([&](int e, int k, int i) {
        auto z = k < 0 ? std::array<double, 2>{tri[i][1], tri[i][2]} : side_point(k, lin[i][1]);
        return at(ze, e, k, i) + bary(el[e].b, z[0], z[1]);
    });
    u[0] = field([&](int e, int k, int i) { return at(qx, e, k, i) / at(h, e, k, i); });
    u[1] = field([&](int e, int k, int i) { return at(qy, e, k, i) / at(h, e, k, i); });
    for (int d = 0; d < 2; ++d)
        dze[d] = values(slope(ze, d));
    for (int c = 0; c < 4; ++c)
        du[c] = values(slope(u[c / 2], c % 2));
    for (int c = 0; c < 8; ++c)
        ddu[c] = values(slope(du[c / 2], c % 2));
    Field hh = paired(h), bh[2] = {paired(bgrad[0]), paired(bgrad[1])};
    out.assign(el.size(), State());
    for (auto& o : out)
        for (auto& q : o.q)
            q.assign(ndof, 0.);
    for (int P = 0; P < npatch; ++P) {
        // numbering
        std::vector<int> mine, first(el.size(), -1);
        std::vector<std::array<int, 3>> trace_at(el.size(), {-1, -1, -1});
        int n = 0;
        for (size_t e = 0; e < el.size(); ++e)
            if (patch[e] == P && S[e].wet) {
                mine.push_back(e);
                first[e] = n;
                n += 3 * ndof;
            }
        for (int e : mine)
            for (int k = 0; k < 3; ++k)
                if (trace_at[e][k] < 0) {
                    trace_at[e][k] = n;
                    const Side& s = el[e].s[k];
                    if (s.kind == INTERIOR && S[s.el].wet)
                        trace_at[s.el][s.side] = n;
                    n += 2 * n1;
                }
        if (!n)
            continue;
        std::vector<std::vector<double>> A(n, std::vector<double>(n, 0.));
        std::vector<double> r(n, 0.);
        for (int e : mine) {
            const Elem& E = el[e];
            const int f = first[e], w2 = f + 2 * ndof;
            for (size_t i = 0; i < tri.size(); ++i) {
                double w = E.J * tri[i][0], H = h.vol[e][i], b[2] = {bgrad[0].vol[e][i], bgrad[1].vol[e][i]};
                double ux = du[0].vol[e][i], uy = du[1].vol[e][i], vx = du[2].vol[e][i], vy = du[3].vol[e][i], U = u[0].vol[e][i], V = u[1].vol[e][i];
                // c = det(grad u) term + (div u)^2, k = u.(u.grad) grad b, and their derivatives
                double c = vx * uy - ux * vy + (ux + vy) * (ux + vy);
                double bb[4];
                for (int j = 0; j < 4; ++j)
                    bb[j] = bgrad[2 + j].vol[e][i];
                double k = U * U * bb[0] + U * V * (bb[1] + bb[2]) + V * V * bb[3];
                for (int d = 0; d < 2; ++d) {
                    double uxd = ddu[d].vol[e][i], uyd = ddu[2 + d].vol[e][i], vxd = ddu[4 + d].vol[e][i], vyd = ddu[6 + d].vol[e][i];
                    double Ud = du[d].vol[e][i], Vd = du[2 + d].vol[e][i];
                    double cd = vxd * uy + vx * uyd - uxd * vy - ux * vyd + 2 * (ux + vy) * (uxd + vyd);
                    double kd = 2 * U * Ud * bb[0] + (Ud * V + U * Vd) * (bb[1] + bb[2]) + 2 * V * Vd * bb[3] + U * U * bgrad[6 + d].vol[e][i] +
                                U * V * (bgrad[8 + d].vol[e][i] + bgrad[10 + d].vol[e][i]) + V * V * bgrad[12 + d].vol[e][i];
                    double Hd = dze[d].vol[e][i] - b[d];
                    double rhs = 2. / 3 * (3 * H * H * Hd * c + H * H * H * cd) + H * H * c * b[d] + 0.5 * (2 * H * Hd * k + H * H * kd) + H * k * b[d] + g / al * H * dze[d].vol[e][i];
                    for (int a = 0; a < ndof; ++a)
                        r[f + d * ndof + a] += w * phi_tri[i][a] * rhs;
                }
                for (int a = 0; a < ndof; ++a) {
                    double pa = phi_tri[i][a], da[2] = {dphi_tri[i][a][0] * E.g1x + dphi_tri[i][a][1] * E.g2x, dphi_tri[i][a][0] * E.g1y + dphi_tri[i][a][1] * E.g2y};
                    for (int c2 = 0; c2 < ndof; ++c2) {
                        double pc = phi_tri[i][c2], dc[2] = {dphi_tri[i][c2][0] * E.g1x + dphi_tri[i][c2][1] * E.g2x, dphi_tri[i][c2][0] * E.g1y + dphi_tri[i][c2][1] * E.g2y};
                        for (int d = 0; d < 2; ++d) {
                            auto& row = A[f + d * ndof + a];
                            for (int x = 0; x < 2; ++x)
                                row[f + x * ndof + c2] += w * (((d == x) + al * b[d] * b[x]) * pa * pc - al / 2 * H * b[x] * da[d] * pc);
                            row[w2 + c2] -= w * al * (pa * dc[d] / 3 + b[d] / H / 2 * pa * pc);
                            A[w2 + a][f + d * ndof + c2] += w * da[d] / H * pc;
                        }
                        A[w2 + a][w2 + c2] += w / (H * H * H) * pa * pc;
                    }
                }
            }
            for (int k = 0; k < 3; ++k) {
                const Side& s = E.s[k];
                const int tr  = trace_at[e][k];
                bool second = s.kind == INTERIOR && S[s.el].wet && !(e < s.el), open = s.kind == TIDE || s.kind == FLOW || s.kind == FUNCTION, both = s.kind == INTERIOR && S[s.el].wet;
                double nn[2] = {s.nx, s.ny};
                for (int i = 0; i < L; ++i) {
                    double w = lin[i][0] * s.len / 2, H = hh.side[k][e][i], b[2] = {bh[0].side[k][e][i], bh[1].side[k][e][i]};
                    std::vector<double> mu(n1);
                    for (int m = 0; m < n1; ++m)
                        mu[m] = legendre(m, second ? -lin[i][1] : lin[i][1]);
                    for (int a = 0; a < ndof; ++a) {
                        double pa = phi_side[k][i][a];
                        for (int d = 0; d < 2; ++d) {
                            auto& row = A[f + d * ndof + a];
                            for (int c2 = 0; c2 < ndof; ++c2)
                                row[f + d * ndof + c2] -= w * al / 3 * tau * pa * phi_side[k][i][c2];
                            for (int m = 0; m < n1; ++m) {
                                for (int x = 0; x < 2; ++x)
                                    row[tr + x * n1 + m] += w * pa * mu[m] * ((d == x) * al / 3 * tau + al / 2 * H * b[x] * nn[d]);
                                A[w2 + a][tr + d * n1 + m] -= w * pa * mu[m] * nn[d] / H;
                            }
                        }
                    }
                    // conservation, or the condition on the boundary
                    for (int m = 0; m < n1; ++m)
                        for (int d = 0; d < 2; ++d) {
                            auto& row = A[tr + d * n1 + m];
                            bool flux = both || open;
                            for (int m2 = 0; m2 < n1; ++m2)
                                row[tr + d * n1 + m2] -= w * mu[m] * mu[m2] * (flux ? tau : 1.);
                            for (int a = 0; a < ndof; ++a) {
                                double pm = w * mu[m] * phi_side[k][i][a];
                                if (flux) {
                                    row[f + d * ndof + a] += tau * pm;
                                    row[w2 + a] += nn[d] * pm;
                                } else
                                    for (int x = 0; x < 2; ++x)
                                        row[f + x * ndof + a] += pm * ((d == x) - nn[d] * nn[x]);
                            }
                        }
                }
            }
        }
        if (!solve(A, r)) {
            decide(mine[0], 0);
            event("singular dispersive system");
            continue;
        }
        for (int e : mine) {
            if (buffered[e] || troubled[e])
                continue;
            for (size_t i = 0; i < tri.size(); ++i)
                for (int d = 0; d < 2; ++d) {
                    double w1 = 0;
                    for (int a = 0; a < ndof; ++a)
                        w1 += r[first[e] + d * ndof + a] * phi_tri[i][a];
                    for (int a = 0; a < ndof; ++a)
                        out[e].q[1 + d][a] += tri[i][0] * phi_tri[i][a] * (g / al * dze[d].vol[e][i] * h.vol[e][i] - w1) / dubiner_norm2(a);
                }
        }
    }
}

void Model::advance() {
    if (implicit) {
        old_part();
        auto keep = margin;
        std::vector<State> n = st;
        std::vector<double> d;
        for (int it = 0; it < 400; ++it) {  // contracts for small steps
            margin = keep;
            auto x = new_part(n);
            d.assign(npatch, 0.);
            for (size_t e = 0; e < el.size(); ++e)
                for (int v = 0; v < 3; ++v)
                    for (int k = 0; k < ndof; ++k) {
                        double y = std::fabs(x[e].q[v][k] - n[e].q[v][k]);
                        if (!(y <= d[patch[e]]))
                            d[patch[e]] = y;
                    }
            n = x;
            if (*std::max_element(d.begin(), d.end()) < 1e-13)
                break;
        }
        for (int i = 0; i < npatch; ++i)
            if (!(d[i] < 1e-11))
                margin[i] = 0;
        if (run.sl)
            limit(n);
        st = n;
        ++step;
        t = step * run.dt;
        return;
    }
    if (gn) {
        // half a step of the shallow water equations, a full step of the dispersive terms, half a step
        double t0 = t;
        events.clear();
        margin.assign(npatch, 1.);
        explicit_step(run.dt / 2);
        t = t0;
        std::vector<std::vector<State>> y{st}, f;
        const Rk& rk = scheme(run);
        for (int i = 0; i < rk.n; ++i) {
            f.emplace_back();
            dispersion(y[i], f[i]);
            y.push_back(combine_stages(rk, i, y, f, run.dt));
        }
        st = y.back();
        t  = t0 + run.dt / 2;
        explicit_step(run.dt / 2);
        ++step;
        t = step * run.dt;
        return;
    }
    events.clear();
    margin.assign(npatch, 1.);
    explicit_step(run.dt);
    ++step;
    t = step * run.dt;
}

void Model::explicit_step(double dt) {
    const Rk& rk = scheme(run);
    std::vector<std::vector<State>> y{st}, f;
    for (int i = 0; i < rk.n; ++i) {
        double time = t + dt * rk.d[i];
        f.emplace_back();
        rates(y[i], time, ramp_at(time), f[i]);
        std::vector<State> n = combine_stages(rk, i, y, f, dt);
        if (run.wd)
            for (size_t e = 0; e < el.size(); ++e)
                wet_dry(e, n[e]);
        if (run.sl) {
            if (gn)
                trouble(n);
            limit(n);
        }
        y.push_back(n);
    }
    st = y.back();
}
}
