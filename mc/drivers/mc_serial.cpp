// Conformance of the serial program with the reference model, step by step, and
// invariants of the computed solution, over enumerated meshes, boundary conditions,
// states and settings.
#include "../lib/par.h"
#include "../lib/ref.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <stdexcept>
using namespace cases;
using mcl::fmt;
typedef par::Config Config;

// ---- running and comparing ---------------------------------------------------------------
static const double TOL = 1e-9;

static bool run(mcl::Worker& w, const Config& c, std::vector<sim::Rec>& recs) {
    mcl::wipe_dir(w.scratch);
    std::string e = par::run_serial(c, w.scratch, recs);
    w.st.add("runs");
    if (!e.empty()) {
        w.violation("run:" + c.name, e + " (" + c.name + ")", "--job " + w.job);
        return false;
    }
    size_t n = c.mesh.elems.size();
    if (recs.size() % n || recs.size() / n != (size_t)c.run.nsteps + 1) {
        w.violation("steps:" + c.name, fmt("%zu element states recorded, %zu expected", recs.size(), n * (c.run.nsteps + 1)), "--job " + w.job);
        return false;
    }
    return true;
}

// every transition of the program is the transition of the model
static void conform(mcl::Worker& w, const Config& c) {
    std::vector<sim::Rec> recs;
    if (!run(w, c, recs))
        return;
    par::user(c);
    ref::Model m(c.mesh, c.run);
    size_t n = c.mesh.elems.size();
    std::string err;
    m.initial();
    double d = m.compare(recs, 0, err);
    if (!(d <= TOL)) {
        w.violation("initial:" + c.name, "initial state: " + err + " (" + c.name + ")", "--job " + w.job);
        return;
    }
    double worst = d;
    for (int s = 0; s < c.run.nsteps; ++s) {
        m.set(recs, s * n, s);
        m.advance();
        d     = m.compare(recs, (s + 1) * n, err);
        worst = std::max(worst, d);
        w.st.add("transitions", n);
        for (auto& e : m.events)
            w.st.add("event " + e);
        if (!(d <= TOL)) {
            w.violation("step:" + c.name, fmt("step %d: ", s) + err + " (" + c.name + fmt(", difference %.3g)", d), "--job " + w.job);
            return;
        }
    }
    w.st.add("states", recs.size());
    w.st.add("patch_transitions", m.patches);
    w.st.add("undecided_ties", m.ties);
    w.st.add("traces_compared");
    for (auto& x : recs)
        w.st.seen("distinct_element_states", mcl::fnv(x.q.data(), 8 * x.q.size()) % 1000003);
    if (getenv("MC_VERBOSE"))
        fprintf(stderr, "    %-50s %zu elements worst %.2g ties %llu/%llu\n", c.name.c_str(), n, worst, (unsigned long long)m.ties, (unsigned long long)m.patches);
    w.st.sample(c.name + ": " + describe(c.mesh) + fmt(", %d steps, largest difference %.2g", c.run.nsteps, worst));
}

// ---- enumeration -------------------------------------------------------------------------
// all words of length n over k letters
static std::vector<std::vector<int>> words(int n, int k) {
    std::vector<std::vector<int>> out;
    std::vector<int> a(n, 0);
    while (true) {
        out.push_back(a);
        int i = 0;
        while (i < n && ++a[i] == k)
            a[i++] = 0;
        if (i == n)
            return out;
    }
}
static Mesh base(const std::string& n) {
    if (n == "triangle")
        return triangle();
    if (n == "pair")
        return pair_mesh();
    if (n == "fan")
        return fan4();
    if (n == "star")
        return star();
    if (n == "ring")
        return ring();
    if (n.compare(0, 5, "strip") == 0)
        return strip(std::stoi(n.substr(5)));
    if (n.compare(0, 4, "grid") == 0)
        return grid(n[4] - '0', n[5] - '0');
    if (n.compare(0, 5, "levee") == 0)
        return levee_mesh(std::stoi(n.substr(5)));
    throw std::runtime_error("mesh " + n);
}
static size_t outer_sides(const Mesh& m) {
    size_t n = 0;
    for (auto& l : outline(m))
        n += l.size();
    return n;
}


// ---- patches with prescribed states ---------------------------------------------------------
// A cloud is a mesh of many unconnected patches, so one run decides many small cases.
struct Patch {
    Mesh m;
    std::vector<std::array<double, 9>> q;  // per element: ze, qx, qy at its vertices
    std::vector<int> rot;                  // later start of the vertex list
    unsigned buffer = 0;                   // elements without dispersive correction
};
static Config cloud(const std::vector<Patch>& ps, double dx) {
    Config c;
    std::vector<Mesh> parts;
    for (auto& p : ps) {
        Mesh m = p.m;
        for (size_t e = 0; e < p.rot.size(); ++e)
            rotate_elem(m, e, p.rot[e]);
        parts.push_back(m);
    }
    c.mesh = combine(parts, dx);
    for (size_t k = 0, e = 0; k < ps.size(); ++k)
        for (size_t i = 0; i < parts[k].elems.size(); ++i, ++e)
            if (ps[k].buffer >> i & 1)
                c.run.buffer.push_back(c.mesh.elem_id[e]);
    for (size_t k = 0; k < ps.size(); ++k)
        for (size_t e = 0; e < ps[k].q.size(); ++e) {
            std::array<double, 15> t;
            for (int i = 0; i < 3; ++i) {
                auto& n = ps[k].m.nodes[ps[k].m.elems[e][i]];
                t[i]     = n[0] + dx * k;
                t[3 + i] = n[1];
                for (int v = 0; v < 3; ++v)
                    t[6 + 3 * v + i] = ps[k].q[e][3 * v + i];
            }
            c.table.push_back(t);
        }
    if (!c.table.empty())
        c.user_ic = 7;
    c.run.friction = 0;
    c.run.source   = false;
    return c;
}
typedef std::function<void(mcl::Worker&, const Config&)> Check;
// the patches in groups, one run each
static void clouds(std::vector<mcl::Job>& jobs, const std::string& name, size_t n, std::function<Patch(size_t)> make,
                   std::function<void(Config&)> set, Check check, size_t group = 64, double dx = 40.) {
    for (size_t lo = 0; lo < n; lo += group)
        jobs.push_back({name + fmt("#%zu", lo), [=](mcl::Worker& w) {
                            std::vector<Patch> ps;
                            for (size_t i = lo; i < n && i < lo + group; ++i)
                                ps.push_back(make(i));
                            Config c = cloud(ps, dx);
                            set(c);
                            c.name = w.job;
                            check(w, c);
                        }});
}
// mixed radix digits of a case number
struct Digits {
    size_t n;
    size_t operator()(size_t k) {
        size_t r = n % k;
        n /= k;
        return r;
    }
};
struct Rk {
    int n, o;
};
static const std::vector<Rk> RKS{{1, 1}, {2, 2}, {3, 3}, {4, 3}, {5, 3}, {6, 3}, {7, 3}, {8, 3}, {5, 4}, {6, 4}, {7, 4}, {8, 4}};
static void time(Config& c, int p, int rk, double dt, int n) {
    c.run.p       = p;
    c.run.nstages = RKS[rk].n;
    c.run.order   = RKS[rk].o;
    c.run.dt      = dt;
    c.run.nsteps  = n;
}
static void stable(Config& c, int p, int rk) { time(c, p, rk, p == 1 ? 1 : p == 2 ? 0.5 : 0.25, p == 1 ? 3 : 4); }

// P04, P12: every boundary assignment, scheme setting and vertex order
static void steps(std::vector<mcl::Job>& jobs, bool th, const std::string& scheme) {
    bool hdg = scheme == "ehdg_swe";
    auto bcs = [](const std::string& mesh) {
        return [mesh](size_t i) {
            static std::map<std::string, std::vector<std::vector<int>>> cache;
            auto& types = cache[mesh];
            if (types.empty())
                types = words(outer_sides(base(mesh)), 4);
            Patch p;
            p.m = base(mesh);
            perturb(p.m, 0.03);
            set_outline(p.m, types[i % types.size()]);
            add_forcing(p.m);
            Digits d{i / types.size()};
            for (size_t e = 0; e < p.m.elems.size(); ++e)
                p.rot.push_back(d(3));
            return p;
        };
    };
    // all settings on single elements with all boundary conditions
    for (int p = 1; p <= 3; ++p)
        for (int rk = 0; rk < 12; ++rk)
            for (int f = 0; f < 3; ++f)
                for (int b = 0; b < (hdg ? 4 : 16); ++b) {
                    if (!th && (p * 5 + rk * 7 + f * 3 + b) % (hdg ? 5 : 2))  // a part of them in the quick tier
                        continue;
                    bool src = b & 1, ramp = b & 2, sph = b & 4, ic = b & 8;
                    clouds(jobs, fmt("settings/%s/p%d/rk%d-%d/friction%d/source%d/ramp%d/sph%d/ic%d", scheme.c_str(), p, RKS[rk].n, RKS[rk].o, f, src, ramp, sph, ic), 64, bcs("triangle"),
                           [=](Config& c) {
                               stable(c, p, rk);
                               c.run.nsteps   = p == 1 ? 1 : p == 2 ? 2 : 4;
                               c.run.scheme   = scheme;
                               c.run.friction = f;
                               c.run.cf       = f == 2 ? 0.0002 : 0.01;
                               c.run.source   = src;
                               c.run.ramp     = ramp ? 3e-5 : 0;
                               c.user_ic      = ic ? 1 : 3;
                               if (sph) {
                                   c.run.spherical = true;
                                   c.run.lat0      = 10;
                                   c.run.R         = 100.;
                               }
                           },
                           conform);
                }
    // all boundary assignments and orientations of small meshes
    struct M {
        const char* mesh;
        size_t rot;
        int pmax;
    };
    std::vector<M> ms{{"triangle", 3, 3}, {"pair", 9, 3}, {"fan", (size_t)(th ? 81 : 1), 2}};
    if (th)
        ms.push_back({"strip2", 3, 2});
    for (auto& m : ms) {
        size_t n = m.rot;
        for (size_t i = 0; i < outer_sides(base(m.mesh)); ++i)
            n *= 4;
        for (int p = 1; p <= m.pmax; ++p) {
            if (hdg && !th && p == 3)
                continue;
            clouds(jobs, fmt("boundaries/%s/%s/p%d", m.mesh, scheme.c_str(), p), n, bcs(m.mesh),
                   [=](Config& c) {
                       stable(c, p, 1);
                       c.run.nsteps   = p == 1 ? 2 : p == 2 ? 2 : 4;
                       c.run.scheme   = scheme;
                       c.run.friction = 1;
                       c.run.cf       = 0.01;
                       c.run.source   = true;
                       c.user_ic      = 1;
                   },
                   conform, 64);
        }
    }
}

// P05: forcing of open boundaries
static Constituent con(int k, double a0, double a1) {
    const double f[4] = {0., 0.9, 2.3, -1.1};
    Constituent c;
    c.freq = f[k % 4];
    c.ff   = 1.1 - 0.15 * k;
    c.eq   = 20. + 47 * k;
    c.amp0 = a0;
    c.amp1 = a1;
    c.ph0  = -35. + 80 * k;
    c.ph1  = 11. - 8 * k;
    return c;
}
static void forcing(std::vector<mcl::Job>& jobs, bool th) {
    for (const char* mesh : {"triangle", "pair", "fan"})
        for (int p = 1; p <= (th ? 3 : 2); ++p)
            for (int rk : {0, 1, 2, 8})
                for (int ramp = 0; ramp < 3; ++ramp)
                    for (int hdg = 0; hdg < 2; ++hdg) {
                        if (hdg && (p > 1 + th || rk > 1))
                            continue;
                        size_t sides = outer_sides(base(mesh)), n = 1, full;
                        for (size_t i = 0; i < sides; ++i)
                            n *= 3;
                        full = n * 3 * 2;  // number of constituents (1 to 3), direction of the node lists
                        clouds(jobs, fmt("forcing/%s/%s/p%d/rk%d-%d/ramp%d", mesh, hdg ? "ehdg" : "rkdg", p, RKS[rk].n, RKS[rk].o, ramp), full,
                               [=](size_t i) {
                                   Digits d{i};
                                   std::vector<int> t;
                                   for (size_t k = 0; k < sides; ++k)
                                       t.push_back(d(3));
                                   size_t nc = 1 + d(3);
                                   bool rev  = d(2);
                                   Patch q;
                                   q.m = base(mesh);
                                   set_outline(q.m, t);
                                   for (size_t b = 0; b < q.m.open.size(); ++b) {
                                       q.m.tide_of.push_back({});
                                       for (size_t k = 0; k < nc; ++k)
                                           q.m.tide_of.back().push_back(con(k + b, 0.08 - 0.02 * k, 0.02 + 0.007 * b));
                                       if (rev)
                                           std::reverse(q.m.open[b].begin(), q.m.open[b].end());
                                   }
                                   size_t f = 0;
                                   for (auto& b : q.m.land)
                                       if (b.ibtype % 10 == 2) {
                                           q.m.flow_of.push_back({});
                                           for (size_t k = 0; k < nc; ++k)
                                               q.m.flow_of.back().push_back(con(k + f + 1, -0.1 + 0.03 * k, 0.013 + 0.006 * f));
                                           ++f;
                                           if (rev)
                                               std::reverse(b.nodes.begin(), b.nodes.end());
                                       }
                                   return q;
                               },
                               [=](Config& c) {
                                   c.run.scheme = hdg ? "ehdg_swe" : "rkdg_swe";
                                   stable(c, p, rk);
                                   c.run.nsteps = th ? 8 : 4;
                                   c.run.ramp   = ramp == 0 ? 0 : ramp == 1 ? 2e-5 : 2e-4;
                                   c.user_ic    = 3;
                               },
                               conform, 64);
                    }
}

// P06: levees; surface levels on both sides, crest heights, coefficients, orientation
static const double LEVELS[] = {-0.15, 0.04, 0.056, 0.066, 0.2, 0.24, 0.33, 0.6};
static void levees(std::vector<mcl::Job>& jobs, bool th) {
    const size_t NL = 8;
    auto patch = [=](size_t i, bool wd, bool skew) {
        Digits d{i};
        size_t a = d(NL), b = d(NL), tilt = d(3), mom = d(3), par = d(3), rot = d(3), rev = d(2);
        Patch q;
        q.m      = levee_mesh(1);
        if (skew)
            perturb(q.m, 0.05);
        auto& lv = q.m.land.back();
        lv.levee[0] = {0.05, 1.0, 0.9};
        lv.levee[1] = {par == 1 ? 0.05 : par == 2 ? -0.05 : 0.17, par ? 0.8 : 1.1, par ? 1.0 : 0.7};
        if (rev) {
            std::reverse(lv.nodes.begin(), lv.nodes.end());
            std::reverse(lv.back.begin(), lv.back.end());
            std::reverse(lv.levee.begin(), lv.levee.end());
        }
        if (wd)
            for (auto& n : q.m.nodes)
                n[2] = 0.3 + 0.1 * std::sin(n[0] + 3 * n[1]);
        for (size_t e = 0; e < 4; ++e) {
            double l = LEVELS[e < 2 ? a : b], s = tilt == 0 ? 0 : (e % 2 ? 0.11 : -0.07) * (tilt == 1 ? 1 : -1);
            double u = mom == 0 ? 0 : mom == 1 ? 0.1 : -0.08;
            if (wd) {
                s *= 0.3;
                u *= 0.1;
            }
            q.q.push_back({l, l + s, l - s, u, u, u * 0.5, 0.7 * u, -u, u});
            q.rot.push_back((rot + e) % 3);
        }
        return q;
    };
    size_t n = NL * NL * 3 * 3 * 3 * (th ? 3 * 2 : 1);
    for (int p = 1; p <= (th ? 3 : 2); ++p)
        for (int v = 0; v < 4; ++v) {
            bool wd = v & 1, sph = v & 2;
            if (!th && p == 2 && v)
                continue;
            clouds(jobs, fmt("levee/p%d/wd%d/sph%d", p, wd, sph), n, [=](size_t i) { return patch(i, wd, i % 2); },
                   [=](Config& c) {
                       stable(c, p, p);
                       c.run.nsteps = p == 3 ? 4 : 2;
                       if (wd) {
                           c.run.wd = true;
                           c.run.ho = 0.1;
                       }
                       if (sph) {
                           c.run.spherical = true;
                           c.run.lat0      = 10;
                           c.run.R         = 100.;
                       }
                   },
                   conform, 96, 30.);
        }
    if (!th)
        clouds(jobs, "levee/orientation", NL * NL * 3 * 3 * 3 * 3 * 2 / 9, [=](size_t i) {
            Digits d{i};
            size_t a = d(NL), b = d(NL), rot = d(3), rev = d(2), t = d(3);
            return patch(a + NL * (b + NL * (t + 3 * (1 + 3 * (t + 3 * (rot + 3 * rev))))), false, rev); }, [](Config& c) { stable(c, 1, 1); c.run.nsteps = 1; }, conform, 96, 30.);
}

// P07: wetting and drying
static const double DEPTHS[] = {0.03, 0.1005, 0.16, 0.5, 1.2};
static void wetdry(std::vector<mcl::Job>& jobs, bool th) {
    // one element: the depth at every vertex, momentum, bathymetry
    auto bath = [](size_t b, size_t node) { return b == 0 ? 0.4 : b == 1 ? 0.6 - 0.35 * node : b == 2 ? -0.3 + 0.2 * node : 0.3 * std::sin(2.1 * node + 0.4); };
    auto mom = [](size_t m, int k, double h, double* o) {
        const double X[7][2] = {{0, 0}, {0.05, 0}, {-0.05, 0.02}, {0.01, 0.06}, {0.02, -0.06}, {0.1, 0.1}, {-0.1, 0.03}};
        o[0] = X[m][0] * (1 + 0.3 * k) * std::min(1., h);
        o[1] = X[m][1] * (1 - 0.2 * k) * std::min(1., h);
    };
    auto one = [=](size_t i, bool hdg) {
        Digits d{i};
        size_t h[3] = {d(5), d(5), d(5)}, m = d(7), b = d(4), t = d(2);
        Patch q;
        q.m = triangle();
        if (t) {
            set_outline(q.m, {FLOW, LAND, LAND});
            q.m.flow_of.push_back({con(0, hdg ? -0.002 : -0.03, 0.002)});
        }
        std::array<double, 9> s;
        for (int k = 0; k < 3; ++k) {
            q.m.nodes[k][2] = bath(b, k);
            double o[2];
            // the nonlinear solve for the state on an open HDG side needs more than a film of water
            double dep = hdg && t ? (h[0] % 2 ? 0.01 * (1 + h[k]) : 0.6 + 0.15 * h[k]) : DEPTHS[h[k]];
            mom(m, k, dep, o);
            s[k]     = dep - bath(b, k);
            s[3 + k] = o[0];
            s[6 + k] = o[1];
        }
        q.q.push_back(s);
        return q;
    };
    auto two = [=](size_t i, int p) {
        Digits d{i};
        size_t m = d(4), b = d(4), nd = th ? 4 : 3, h[6] = {d(nd), d(nd), d(nd), d(nd), d(nd), d(nd)};
        for (auto& k : h)
            k += !th && k == 2;
        Patch q;
        q.m = pair_mesh();
        for (int k = 0; k < 4; ++k)
            q.m.nodes[k][2] = bath(b, k);
        for (int e = 0; e < 2; ++e) {
            std::array<double, 9> s;
            for (int k = 0; k < 3; ++k) {
                double o[2], dep = DEPTHS[h[3 * e + k]];
                mom(m ? 2 * m + e : 0, k + e, dep, o);
                if (p > 1)  // the depth is only controlled at the vertices: faster water over a curved surface has no square root
                    o[0] *= 0.5, o[1] *= 0.5;
                s[k]     = dep - bath(b, q.m.elems[e][k]);
                s[3 + k] = o[0];
                s[6 + k] = o[1];
            }
            q.q.push_back(s);
            q.rot.push_back((i + e) % 3);
        }
        return q;
    };
    struct V {
        int p, rk;
        bool hdg;
    };
    std::vector<V> vs{{1, 0, false}, {1, 1, false}, {2, 1, false}, {1, 1, true}};
    if (th) {
        vs.push_back({1, 2, false});
        vs.push_back({2, 8, false});
        vs.push_back({3, 2, false});
        vs.push_back({2, 2, true});
    }
    for (auto& v : vs) {
        auto set = [=](Config& c) {
            stable(c, v.p, v.rk);
            c.run.nsteps = !th || v.hdg ? 4 : v.p == 3 ? 12 : 10;
            c.run.scheme = v.hdg ? "ehdg_swe" : "rkdg_swe";
            c.run.wd     = true;
            c.run.ho     = 0.1;
        };
        std::string nm = fmt("p%d/rk%d-%d/%s", v.p, RKS[v.rk].n, RKS[v.rk].o, v.hdg ? "ehdg" : "rkdg");
        clouds(jobs, "wetdry/one/" + nm, 5 * 5 * 5 * 7 * 4 * 2, [=](size_t i) { return one(i, v.hdg); }, set, conform, 125, 30.);
        clouds(jobs, "wetdry/two/" + nm, th ? 65536 : 11664, [=](size_t i) { return two(i, v.p); }, set, conform, 128, 30.);
    }
}

// P08: slope limiter
// uneven states around the middle element of a star
static Patch uneven(size_t i, bool hdg) {
    const double Z[3] = {-0.15, 0.02, 0.21};
    Digits d{i};
    size_t v[3] = {d(3), d(3), d(3)}, n[3] = {d(3), d(3), d(3)}, m = d(4), bc = d(2), r = d(3);
    Patch q;
    q.m = star();
    for (size_t k = 0; k < q.m.nodes.size(); ++k)
        q.m.nodes[k][2] = 1.0 + 0.1 * std::sin(3. * k);
    if (bc) {
        set_outline(q.m, {TIDE, LAND, FLOW, FUNC, LAND});
        add_forcing(q.m);
    }
    auto state = [&](int e, int k) {
        std::array<double, 3> o;
        double z = e == 0 ? Z[v[k]] : Z[n[e - 1]] + 0.04 * (k - 1);
        double f = m == 0 ? 0 : m == 1 ? 0.3 : m == 2 ? -0.25 : 0.15;
        if (hdg && bc)
            f *= 0.4;  // keeps the nonlinear solve on open sides convergent
        o[0]     = z;
        o[1]     = f * (m == 3 ? z * 4 : 1 + 0.3 * std::sin(2. * e + k));
        o[2]     = f * (m == 3 ? -z * 3 : 0.5 * std::cos(1.7 * e + 2 * k));
        return o;
    };
    for (int e = 0; e < 4; ++e) {
        std::array<double, 9> s;
        for (int k = 0; k < 3; ++k) {
            auto o = state(e, k);
            for (int x = 0; x < 3; ++x)
                s[3 * x + k] = o[x];
        }
        q.q.push_back(s);
        q.rot.push_back((r + e) % 3);
    }
    return q;
}
static void limiter(std::vector<mcl::Job>& jobs, bool th) {
    struct V {
        int p;
        double M, nu;
        bool hdg, wd;
    };
    std::vector<V> vs{{1, 1e-8, 1.5, false, false}, {1, 1e-3, 1.0, false, false}, {2, 1e-8, 1.5, false, false}, {1, 1e-8, 2.0, true, false}, {1, 1e-8, 1.5, false, true}};
    if (th) {
        vs.push_back({2, 1e-3, 1.0, false, false});
        vs.push_back({3, 1e-8, 1.5, false, false});
        vs.push_back({1, 0., 1.1, false, false});
        vs.push_back({2, 1e-8, 1.5, true, false});
        vs.push_back({2, 1e-8, 1.5, false, true});
    }
    for (auto& v : vs)
        clouds(jobs, fmt("limiter/p%d/M%g/nu%g/%s/wd%d", v.p, v.M, v.nu, v.hdg ? "ehdg" : "rkdg", v.wd), 729 * (th ? 4 * 2 * 3 : 4), [=](size_t i) { return uneven(i, v.hdg); },
               [=](Config& c) {
                   stable(c, v.p, 1);
                   c.run.nsteps = th && !v.hdg ? 4 : 2;
                   c.run.scheme = v.hdg ? "ehdg_swe" : "rkdg_swe";
                   c.run.sl     = true;
                   c.run.sl_M   = v.M;
                   c.run.sl_nu  = v.nu;
                   if (v.wd) {
                       c.run.wd = true;
                       c.run.ho = 0.85;  // some elements count as dry
                   }
               },
               conform, 81, 30.);
}


// ---- invariants -----------------------------------------------------------------------------
// P09: the volume of water in every closed patch
static const char* SCHEMES[3] = {"rkdg", "ehdg", "ihdg"};
static void conserve(mcl::Worker& w, const Config& c) {
    std::vector<sim::Rec> recs;
    if (!run(w, c, recs))
        return;
    ref::Model m(c.mesh, c.run);
    size_t n = c.mesh.elems.size();
    std::map<unsigned, int> idx;
    for (size_t e = 0; e < n; ++e)
        idx[m.el[e].id] = e;
    std::vector<double> v0;
    double worst = 0;
    for (int s = 0; s <= c.run.nsteps; ++s) {
        std::vector<double> v(m.npatch, 0.), size(m.npatch, 0.);
        for (size_t i = 0; i < n; ++i) {
            const sim::Rec& r = recs[s * n + i];
            int e             = idx.at(r.id);
            v[m.patch[e]] += m.area(e) * r.q[0];
            size[m.patch[e]] += m.area(e) * (1 + std::fabs(r.q[0]));
        }
        if (s == 0)
            v0 = v;
        for (int k = 0; k < m.npatch; ++k) {
            double d = std::fabs(v[k] - v0[k]) / size[k];
            w.st.add("volumes_checked");
            if (!(d <= (c.run.scheme == "ihdg_swe" ? 1e-7 : 1e-12) * (s + 1) * 10)) {
                w.violation("volume:" + c.name, fmt("patch %d: volume changes from %.15g to %.15g in %d steps (", k, v0[k], v[k], s) + c.name + ")", "--job " + w.job);
                return;
            }
            worst = std::max(worst, d);
        }
    }
    w.st.add("states", recs.size());
    w.st.add("transitions", n * c.run.nsteps);
    w.st.add("traces_compared");
    for (auto& x : recs)
        w.st.seen("distinct_element_states", mcl::fnv(x.q.data(), 8 * x.q.size()) % 1000003);
    w.st.sample(c.name + ": " + describe(c.mesh) + fmt(", %d steps, largest relative change %.2g", c.run.nsteps, worst));
}
// P10: still water stays still
static void rest(mcl::Worker& w, const Config& c) {
    std::vector<sim::Rec> recs;
    if (!run(w, c, recs))
        return;
    size_t n = c.mesh.elems.size();
    double worst = 0;
    for (size_t i = n; i < recs.size(); ++i)
        for (size_t k = 0; k < recs[i].q.size(); ++k) {
            double d = std::fabs(recs[i].q[k] - recs[i % n].q[k]);
            if (!(d <= (c.run.scheme == "ihdg_swe" ? 1e-8 : 1e-11))) {
                w.violation("moves:" + c.name, fmt("element %u: variable %zu mode %zu is %.15g after %u steps, %.15g at the start (", recs[i].id, k / recs[i].ndof, k % recs[i].ndof, recs[i].q[k], recs[i].step, recs[i % n].q[k]) + c.name + ")", "--job " + w.job);
                return;
            }
            worst = std::max(worst, d);
        }
    w.st.add("states", recs.size());
    w.st.add("transitions", n * c.run.nsteps);
    w.st.add("traces_compared");
    w.st.add("patches", n);
    w.st.sample(c.name + ": " + describe(c.mesh) + fmt(", %d steps, largest change %.2g", c.run.nsteps, worst));
}

static void volume(std::vector<mcl::Job>& jobs, bool th) {
    // moving water in closed basins: states from small alphabets at every vertex
    auto basin = [th](const char* mesh, int depth, int p) {
        return [=](size_t i) {
            Digits d{i};
            Patch q;
            q.m = base(mesh);
            perturb(q.m, 0.02);
            size_t b = d(3);
            for (size_t k = 0; k < q.m.nodes.size(); ++k) {
                double s        = std::sin(2.3 * k + b);
                q.m.nodes[k][2] = depth == 0 ? 1.5 + 0.3 * s : 0.25 + 0.35 * s;
            }
            for (size_t e = 0; e < q.m.elems.size(); ++e) {
                std::array<double, 9> s;
                size_t l = d(3), u = d(3);
                for (int k = 0; k < 3; ++k) {
                    double z = depth == 0 ? 0.2 * l - 0.2 + 0.03 * k : 0.12 * l - 0.1 + 0.02 * k;
                    double h = z + q.m.nodes[q.m.elems[e][k]][2];
                    double f = depth == 0 ? (th && p > 1 ? 0.2 : 0.4) : 0.1 * std::max(0., std::min(1., h));
                    s[k]     = z;
                    s[3 + k] = f * (u == 0 ? 0 : u == 1 ? 1 : -0.6) + (u ? f * 0.1 * k : 0);
                    s[6 + k] = f * (u == 0 ? 0 : u == 1 ? -0.4 : 0.8);
                }
                q.q.push_back(s);
                q.rot.push_back((i + e) % 3);
            }
            return q;
        };
    };
    struct V {
        const char* mesh;
        size_t n;
        int p, rk, hdg;
        bool wd, sl, sph;
        int friction;
    };
    std::vector<V> vs;
    for (int p = 1; p <= 3; ++p)
        for (int h = 0; h < 3; ++h)
            for (int wd = 0; wd < (h == 2 ? 1 : 2); ++wd)
                for (int sl = 0; sl < 2; ++sl)
                    for (int sp = 0; sp < (h ? 1 : 2); ++sp) {
                        if (!th && p == 3 && (wd || sl || sp))
                            continue;
                        int f = (p + h + wd + sl + sp) % 3;
                        vs.push_back({"pair", 3 * 81, p, h == 2 ? (sl ? 0 : p % 2) : (p * 3 + wd * 2 + sl) % 12, h, wd == 1, sl == 1, sp == 1, f});
                        vs.push_back({"star", (size_t)(th ? 6561 : 729), p, h == 2 ? (sl ? 0 : (p + 1) % 2) : (p * 5 + wd + sl * 4) % 12, h, wd == 1, sl == 1, sp == 1, f});
                        vs.push_back({"ring", (size_t)(th ? 2187 : 243), p, h == 2 ? (sl ? 0 : p % 2) : p % 12, h, wd == 1, sl == 1, sp == 1, f});
                    }
    if (!th)
        for (auto& v : vs)
            if (v.hdg == 2)
                v.n /= 3;
    // known finding: the trapezoidal implicit scheme goes on from the trace before limiting
    vs.push_back({"pair", 81, 1, 1, 2, false, true, false, 0});
    for (auto& v : vs)
        clouds(jobs, fmt("volume/%s/p%d/rk%d-%d/%s/wd%d/sl%d/sph%d/friction%d", v.mesh, v.p, RKS[v.rk].n, RKS[v.rk].o, SCHEMES[v.hdg], v.wd, v.sl, v.sph, v.friction), v.n,
               basin(v.mesh, v.wd, v.p), [=](Config& c) {
                   stable(c, v.p, v.rk);
                   if (v.p == 1 && v.rk == 0)
                       c.run.dt = 0.5;
                   c.run.nsteps   = th ? (v.p == 3 ? 12 : 10) : v.p == 3 ? 8 : 6;
                   c.run.scheme   = std::string(SCHEMES[v.hdg]) + "_swe";
                   c.run.friction = v.friction;
                   c.run.cf       = 0.0002;
                   c.run.wd       = v.wd;
                   c.run.ho       = 0.1;
                   c.run.sl       = v.sl;
                   if (v.sph) {
                       c.run.spherical = true;
                       c.run.lat0      = 10;
                       c.run.R         = 100.;
                   }
               },
               conserve, 81, 45.);
}
static void lake(std::vector<mcl::Job>& jobs, bool th) {
    const double B[3] = {0.7, 1.6, 2.9}, Z[3] = {-0.4, 0., 0.7};
    for (const char* mesh : {"triangle", "pair", "fan", "star", "levee1"})
        for (int p = 1; p <= 3; ++p)
            for (int h = 0; h < 3; ++h)
                for (int f = 0; f < 8; ++f) {
                    bool wd = f & 1, sl = f & 2, sph = f & 4, lev = mesh[0] == 'l';
                    if ((sph && h) || (lev && h) || (wd && h == 2))
                        continue;
                    size_t nodes = base(mesh).nodes.size(), n = 3;
                    for (size_t k = 0; k < nodes; ++k)
                        n *= 3;
                    if (!th)
                        n = std::min<size_t>(n, 243);
                    int rk = (p * 7 + f * 3 + h) % (h == 2 ? 2 : 12);
                    clouds(jobs, fmt("lake/%s/p%d/rk%d-%d/%s/wd%d/sl%d/sph%d", mesh, p, RKS[rk].n, RKS[rk].o, SCHEMES[h], wd, sl, sph), n,
                           [=](size_t i) {
                               // a fixed multiplier visits the depth assignments in an order that varies every node
                               size_t all = 1;
                               for (size_t k = 0; k < nodes; ++k)
                                   all *= 3;
                               Digits d{(i % 3) * all + (i / 3 * 1013) % all};
                               Patch q;
                               q.m = base(mesh);
                               perturb(q.m, 0.05);
                               for (size_t k = 0; k < nodes; ++k)
                                   q.m.nodes[k][2] = B[d(3)] + 0.01 * k;
                               double z = Z[d(3)];
                               for (size_t e = 0; e < q.m.elems.size(); ++e) {
                                   double y = z;
                                   if (lev && e >= 2)  // behind the levee, kept back by it or level with the front
                                       y = i % 2 ? z : z == 0. ? -0.2 : -z;
                                   if (lev && i % 2 == 0)
                                       q.m.land.back().levee = {{1.0, 1.0, 1.0}, {0.9, 1.0, 1.0}};
                                   q.q.push_back({y, y, y, 0, 0, 0, 0, 0, 0});
                                   q.rot.push_back((i + e) % 3);
                               }
                               return q;
                           },
                           [=](Config& c) {
                               stable(c, p, rk);
                               c.run.nsteps   = 4;
                               c.run.scheme   = std::string(SCHEMES[h]) + "_swe";
                               c.run.friction = (f + p) % 3;
                               c.run.cf       = 0.002;
                               c.run.wd       = wd;
                               c.run.ho       = 0.05;
                               c.run.sl       = sl;
                               if (sph) {
                                   c.run.spherical = true;
                                   // a factor far from one that hardly varies, so that the quadrature stays exact
                                   c.run.lat0      = 60;
                                   c.run.R         = 6.4e6;
                               }
                           },
                           rest, 81, 45.);
                }
}

// P11: labels, order and orientation in the mesh file do not matter
struct Relabel {
    std::vector<int> order, nodes, rot, flip;  // file order of elements and nodes; vertex lists
    int labels;
    bool rev = false;  // boundary lists from the last to the first node
};
static Config relabel(const Config& c, const Relabel& r) {
    Config o = c;
    Mesh m = c.mesh, out = m;
    size_t n = m.nodes.size(), ne = m.elems.size();
    std::vector<int> pos(n);
    out.node_key.resize(n);
    for (size_t i = 0; i < n; ++i) {
        out.node_key[i] = m.key(r.nodes[i]);
        out.nodes[i]    = m.nodes[r.nodes[i]];
        pos[r.nodes[i]] = i;
    }
    for (size_t i = 0; i < ne; ++i) {
        out.elems[i] = m.elems[r.order[i]];
        for (int& v : out.elems[i])
            v = pos[v];
        rotate_elem(out, i, r.rot[i]);
        if (r.flip[i])
            flip(out, i);
    }
    auto map = [&](std::vector<int>& v) {
        for (int& x : v)
            x = pos[x];
    };
    for (auto& b : out.open)
        map(b);
    for (auto& b : out.land) {
        map(b.nodes);
        map(b.back);
        if (r.rev && b.ibtype % 10 != 2) {
            std::reverse(b.nodes.begin(), b.nodes.end());
            std::reverse(b.back.begin(), b.back.end());
            std::reverse(b.levee.begin(), b.levee.end());
        }
    }
    for (size_t i = 0; i < n; ++i)
        out.node_id[i] = r.labels == 0 ? i + 1 : r.labels == 1 ? i : r.labels == 2 ? 5 + 17 * ((7 * i + 3) % 97) : 4000000000u + i;
    for (size_t i = 0; i < ne; ++i)
        out.elem_id[i] = r.labels == 0 ? i + 1 : r.labels == 1 ? i : r.labels == 2 ? 3 + 29 * ((11 * i + 5) % 83) : 4000000100u - i;
    o.mesh = out;
    return o;
}
// values of every element (in the order of the original mesh) on a lattice of points given by its vertices in original order
static std::vector<double> sample(const Config& base, const Config& c, const Relabel& r, const std::vector<sim::Rec>& recs) {
    size_t n = c.mesh.elems.size();
    std::vector<double> out;
    std::map<unsigned, int> idx;
    for (size_t e = 0; e < n; ++e)
        idx[c.mesh.elem_id[e]] = e;
    std::vector<std::vector<double>> by(n);
    for (size_t s = 0; s <= (size_t)c.run.nsteps; ++s) {
        for (size_t i = 0; i < n; ++i) {
            const sim::Rec& x = recs[s * n + i];
            int e = idx.at(x.id), o = r.order[e];
            auto& v = by[o];
            v.clear();
            v.push_back(c.run.wd ? x.wet : 0);
            auto& A = base.mesh.elems[o];
            auto B  = c.mesh.elems[e];
            // the solver's vertex order is counter-clockwise (a clockwise list is read with its ends exchanged)
            auto& N = c.mesh.nodes;
            double a = (N[B[1]][0] - N[B[0]][0]) * (N[B[2]][1] - N[B[0]][1]) - (N[B[2]][0] - N[B[0]][0]) * (N[B[1]][1] - N[B[0]][1]);
            if (a < 0)
                std::swap(B[0], B[2]);
            for (int l1 = 0; l1 <= 4; ++l1)
                for (int l2 = 0; l1 + l2 <= 4; ++l2) {
                    double L[3] = {1 - (l1 + l2) / 4., l1 / 4., l2 / 4.}, M[3];
                    for (int k = 0; k < 3; ++k) {
                        int q = -1;
                        for (int j = 0; j < 3; ++j)
                            if (r.nodes[B[k]] == A[j])
                                q = j;
                        M[k] = L[q];
                    }
                    double z1 = 2 * M[1] - 1, z2 = 2 * M[2] - 1;
                    for (int var = 0; var < 3; ++var) {
                        double f = 0;
                        for (uint32_t d = 0; d < x.ndof; ++d)
                            f += x.q[var * x.ndof + d] * ref::dubiner(d, z1, z2);
                        v.push_back(f);
                    }
                }
        }
        for (auto& v : by)
            out.insert(out.end(), v.begin(), v.end());
    }
    return out;
}
static void numbering(std::vector<mcl::Job>& jobs, bool th) {
    for (const char* name : {"pair/rkdg/1/bc", "pair/rkdg/2/bc2/rk3", "fan/rkdg/1/bc", "fan/rkdg/2/bc2", "fan/ehdg/1/bc", "fan/rkdg/1/bc/wd/n3", "fan/rkdg/1/bc2/sl/osc/n3", "levee1/rkdg/1/osc/n3", "levee2/rkdg/1/osc/n3", "levee3/rkdg/1/osc/n2", "levee1/rkdg/1/wd/n4", "fan/rkdg/1/bc/sph", "pair/rkdg/3/bc", "fan/rkdg/1/bc/man", "pair/ihdg/2/osc/rk1", "fan/ihdg/1/osc", "pair/gn/2/bc2", "fan/gn/1/bc"}) {
        Config c0 = par::make(name);
        if (c0.run.p == 3)
            c0.run.dt = 0.25, c0.run.nsteps = 4;
        double tol = c0.run.scheme == "ihdg_swe" ? 1e-6 : 1e-9;
        size_t ne = c0.mesh.elems.size(), nn = c0.mesh.nodes.size();
        size_t rots = 1, flips = 1, perms = 1, nperms = 1;
        for (size_t i = 0; i < ne; ++i) {
            rots *= 3;
            flips *= 2;
            perms *= i + 1;
        }
        for (size_t i = 0; i < nn; ++i)
            nperms *= i + 1;
        nperms = std::min<size_t>(nperms, 120);
        if (ne > 4) {
            perms = th ? 720 : 24;
            rots  = th ? 729 : 27;
            flips = th ? 256 : 32;
        }
        // one dimension at a time completely, then pairs of them
        std::vector<std::array<size_t, 5>> cases;
        for (size_t i = 0; i < rots; ++i)
            {
                cases.push_back({i, 0, 0, 0, 0});
                cases.push_back({i, 0, 0, 0, 4});
            }
        for (size_t i = 0; i < flips; ++i)
            for (size_t k = 0; k < (th ? std::min<size_t>(rots, 81) : 3); ++k)
                cases.push_back({k, i, 0, 0, 4 * (k % 2)});
        for (size_t i = 0; i < perms; ++i)
            for (size_t l = 0; l < 4; ++l)
                for (size_t k = 0; k < (th ? std::min<size_t>(rots, 81) : 1); k += 2)
                    cases.push_back({k, 0, i, 0, l});
        for (size_t i = 0; i < nperms; ++i)
            for (size_t l = 0; l < 3; ++l)
                for (size_t k = 0; k < (th ? std::min<size_t>(perms, 24) : 1); ++k)
                    cases.push_back({i % rots, 0, k, i, l});
        size_t chunks = std::max<size_t>(1, cases.size() / 60);
        for (size_t ch = 0; ch < chunks; ++ch)
            jobs.push_back({fmt("numbering/%s#%zu", name, ch), [=](mcl::Worker& w) {
                                auto perm = [](size_t n, size_t k) {
                                    std::vector<int> p, rest;
                                    for (size_t i = 0; i < n; ++i)
                                        rest.push_back(i);
                                    for (size_t i = n; i > 0; --i) {
                                        p.push_back(rest[k % i]);
                                        rest.erase(rest.begin() + k % i);
                                        k /= i;
                                    }
                                    return p;
                                };
                                auto decode = [&](const std::array<size_t, 5>& x) {
                                    Relabel r;
                                    Digits a{x[0]}, b{x[1]};
                                    for (size_t i = 0; i < ne; ++i) {
                                        r.rot.push_back(a(3));
                                        r.flip.push_back(b(2));
                                    }
                                    r.order  = perm(ne, x[2]);
                                    r.nodes  = perm(nn, x[3]);
                                    r.labels = x[4] % 4;
                                    r.rev    = x[4] >= 4;
                                    return r;
                                };
                                std::vector<sim::Rec> recs;
                                Config base = c0;
                                if (!run(w, base, recs))
                                    return;
                                std::vector<double> want = sample(base, base, decode({0, 0, 0, 0, 0}), recs);
                                for (size_t i = ch; i < cases.size(); i += chunks) {
                                    Relabel r = decode(cases[i]);
                                    Config c  = relabel(base, r);
                                    std::string id = fmt(" (rotation %zu, flip %zu, element order %zu, node order %zu, labels %zu)", cases[i][0], cases[i][1], cases[i][2], cases[i][3], cases[i][4]);
                                    c.name = std::string(name) + (cases[i][1] ? ":clockwise" : "");
                                    std::vector<sim::Rec> got;
                                    if (!run(w, c, got))
                                        continue;
                                    auto have = sample(base, c, r, got);
                                    w.st.add("states", got.size());
                                    w.st.add("transitions", ne * c.run.nsteps);
                                    w.st.add("traces_compared");
                                    double worst = 0;
                                    size_t at    = 0;
                                    for (size_t k = 0; k < want.size(); ++k) {
                                        double d = std::fabs(have[k] - want[k]);
                                        if (!(d <= worst)) {
                                            worst = d;
                                            at    = k;
                                        }
                                    }
                                    if (!(worst <= tol))
                                        w.violation("numbering:" + c.name, fmt("value %zu is %.12g, %.12g in the original numbering", at, have[at], want[at]) + id, "--job " + w.job);
                                    else
                                        w.st.sample(c.name + id + fmt(": largest difference %.2g", worst));
                                    if (w.st.viol.size() > 20)
                                        return;
                                }
                            }});
    }
}

// P13: every step of the implicit scheme solves the equations of that step
static double ITOL = 1e-5;
static void settled(mcl::Worker& w, const Config& c) {
    std::vector<sim::Rec> recs;
    if (!run(w, c, recs))
        return;
    par::user(c);
    ref::Model m(c.mesh, c.run);
    size_t n = c.mesh.elems.size();
    std::string err;
    double worst = 0;
    for (int s = 0; s < c.run.nsteps; ++s) {
        m.set(recs, s * n, s);
        if (c.run.sl)
            m.advance();
        else
            m.settled(recs, (s + 1) * n);
        double d = m.compare(recs, (s + 1) * n, err);
        worst    = std::max(worst, d);
        w.st.add("transitions", n);
        for (auto& e : m.events)
            w.st.add("event " + e);
        if (!(d <= ITOL)) {
            w.violation("step:" + c.name, fmt("step %d: ", s) + err + " (" + c.name + fmt(", difference %.3g)", d), "--job " + w.job);
            return;
        }
    }
    w.st.add("states", recs.size());
    w.st.add("patch_transitions", m.patches);
    w.st.add("undecided_ties", m.ties);
    w.st.add("traces_compared");
    for (auto& x : recs)
        w.st.seen("distinct_element_states", mcl::fnv(x.q.data(), 8 * x.q.size()) % 1000003);
    if (getenv("MC_VERBOSE"))
        fprintf(stderr, "    %-50s %zu elements worst %.2g ties %llu/%llu\n", c.name.c_str(), n, worst, (unsigned long long)m.ties, (unsigned long long)m.patches);
    w.st.sample(c.name + ": " + describe(c.mesh) + fmt(", %d steps, largest difference %.2g", c.run.nsteps, worst));
}
// open boundaries in a current, driven in agreement with it up to a tenth: the normal velocity keeps
// its sign on every side, so that Newton's iteration sees a smooth equation
static Patch current(const char* mesh, size_t i, int dir) {
    static std::map<std::string, std::vector<std::vector<int>>> cache;
    auto& types = cache[mesh];
    if (types.empty())
        types = words(outer_sides(base(mesh)), 4);
    Patch p;
    p.m = base(mesh);
    perturb(p.m, 0.03);
    set_depth(p.m, 1);
    auto t   = types[i % types.size()];
    int flow = 0;
    for (int& x : t)
        if (x == 2 && flow++)
            x = 3;  // at most one side with given flow
    set_outline(p.m, t);
    double a = (25. + 90. * dir) * M_PI / 180;
    for (size_t b = 0; b < p.m.open.size(); ++b) {
        p.m.tide_of.push_back({});
        for (int k = 0; k < 2; ++k)
            p.m.tide_of.back().push_back({0.02 + 0.03 * k, 1.1 - 0.2 * k, 12. + 9 * k, 0.03 + 0.004 * b, 0.003, 35. - 8 * k, 5.});
    }
    for (auto& l : p.m.land) {
        if (l.ibtype % 10 != 2)
            continue;
        // mean of the current through the chain; a chain it enters and leaves gets the weaker drive
        double q = 0, len = 0;
        for (size_t k = 0; k + 1 < l.nodes.size(); ++k) {
            auto &u = p.m.nodes[l.nodes[k]], &v = p.m.nodes[l.nodes[k + 1]];
            double dx = v[0] - u[0], dy = v[1] - u[1];
            q += 0.5 * (std::cos(a) * dy - std::sin(a) * dx);
            len += std::sqrt(dx * dx + dy * dy);
        }
        q /= len;
        p.m.flow_of.push_back({});
        for (int k = 0; k < 2; ++k)
            p.m.flow_of.back().push_back({0.03 + 0.02 * k, 1. - 0.1 * k, 20. + 11 * k, q * (k ? 0.3 : 0.7), 0.01 * q, 30. - 12 * k, -4.});
    }
    Digits d{i / types.size()};
    for (size_t e = 0; e < p.m.elems.size(); ++e)
        p.rot.push_back(d(3));
    return p;
}
static void implicit(std::vector<mcl::Job>& jobs, bool th) {
    auto set = [](Config& c, int p, int o, double dt, int n) {
        c.run.p       = p;
        c.run.order   = o;
        c.run.nstages = o;
        c.run.dt      = dt;
        c.run.nsteps  = n;
        c.run.scheme  = "ihdg_swe";
    };
    // all settings on single elements with all boundary conditions, and currents in four directions
    for (int p = 1; p <= 3; ++p)
        for (int o = 1; o <= 2; ++o)
            for (int f = 0; f < 3; ++f)
                for (int b = 0; b < 4; ++b)
                    for (int dir = 0; dir < 4; ++dir) {
                        if (!th && (p + o + f + b + dir) % 3)
                            continue;
                        bool src = b & 1, ramp = b & 2;
                        clouds(jobs, fmt("settings/p%d/order%d/friction%d/source%d/ramp%d/direction%d", p, o, f, src, ramp, dir), 64,
                               [dir](size_t i) { return current("triangle", i, dir); },
                               [=](Config& c) {
                                   set(c, p, o, 0.25, 4);
                                   c.user_ic      = 8 + dir;
                                   c.run.friction = f;
                                   c.run.cf       = f == 2 ? 0.0002 : 0.01;
                                   c.run.source   = src;
                                   c.run.ramp     = ramp ? 5e-6 : 0;
                               },
                               settled, 1);
                    }
    // all boundary assignments and orientations of small meshes
    for (const char* mesh : {"triangle", "pair", "fan"}) {
        size_t sides = outer_sides(base(mesh)), ne = base(mesh).elems.size(), n = 1;
        for (size_t i = 0; i < sides; ++i)
            n *= 4;
        for (size_t e = 0; e < ne && (th || e < 2); ++e)
            n *= 3;
        for (int p = 1; p <= (th ? 3 : 2); ++p)
            for (int o = 1; o <= 2; ++o)
                for (int dir = 0; dir < 4; ++dir) {
                    if (!th && ne > 2 && (p > 1 || (o + dir) % 4))
                        continue;
                    size_t step = ne == 1 ? 1 : th ? (ne > 2 ? 11 : 1) : (ne > 2 ? 7 : 5);
                    clouds(jobs, fmt("boundaries/%s/p%d/order%d/direction%d", mesh, p, o, dir), n / step,
                           [=](size_t i) { return current(mesh, i * step + dir % step, dir); },
                           [=](Config& c) {
                               set(c, p, o, 0.25, 4);
                               c.user_ic      = 8 + dir;
                               c.run.friction = 1;
                               c.run.cf       = 0.01;
                               c.run.source   = true;
                           },
                           settled, 1);
                }
    }
    // closed basins, larger steps
    for (const char* mesh : {"triangle", "pair", "fan", "star", "strip3", "grid22"})
        for (int p = 1; p <= 3; ++p)
            for (int o = 1; o <= 2; ++o)
                for (int f = 0; f < 3; ++f)
                    for (double dt : {0.25, 0.5, 1., 2., 4.}) {
                        size_t ne = base(mesh).elems.size(), n = 1;
                        for (size_t e = 0; e < ne && e < (size_t)(th ? 4 : 2); ++e)
                            n *= 3;
                        clouds(jobs, fmt("closed/%s/p%d/order%d/friction%d/dt%g", mesh, p, o, f, dt), n,
                               [=](size_t i) {
                                   Patch q;
                                   q.m = base(mesh);
                                   perturb(q.m, 0.03);
                                   set_depth(q.m, 1);
                                   set_outline(q.m, std::vector<int>(outer_sides(q.m), 0));
                                   Digits d{i};
                                   for (size_t e = 0; e < ne; ++e)
                                       q.rot.push_back(d(3));
                                   return q;
                               },
                               [=](Config& c) {
                                   set(c, p, o, dt, std::max(2, (int)(4 / dt)));
                                   c.user_ic      = 1;
                                   c.run.friction = f;
                                   c.run.cf       = f == 2 ? 0.0002 : 0.01;
                                   c.run.source   = f > 0;
                               },
                               settled, 27);
                    }
    // slope limiter after the step
    for (double nu : {1.5, 1.0})
        for (int p = 1; p <= (th ? 2 : 1); ++p)
            for (int o = 1; o <= 2; ++o)
                clouds(jobs, fmt("limiter/p%d/order%d/nu%g", p, o, nu), 729 * (o == 1 ? 4 : 2) * (th ? 2 : 1),
                       [=](size_t i) { return uneven(i, true); },
                       [=](Config& c) {
                           // second order: the traces enter the next step as they were before
                           // the limiter, so one step at a time
                           set(c, p, o, o == 1 ? 0.25 : 1., o == 1 ? 4 : 1);
                           c.run.sl     = true;
                           c.run.sl_M   = nu == 1. ? 1e-3 : 1e-8;
                           c.run.sl_nu  = nu;
                       },
                       settled, 27, 30.);
    // still water over uneven bottoms, with and without friction
    for (const char* mesh : {"triangle", "pair", "fan", "star"})
        for (int p = 1; p <= 3; ++p)
            for (int o = 1; o <= 2; ++o)
                for (int f = 0; f < 3; ++f)
                    for (double dt : {0.5, 4., 100.})
                        clouds(jobs, fmt("lake/%s/p%d/order%d/friction%d/dt%g", mesh, p, o, f, dt), 27,
                               [=](size_t i) {
                                   Digits d{i};
                                   double z = 0.4 * d(3) - 0.4;
                                   size_t b = d(3), r = d(3);
                                   Patch q;
                                   q.m = base(mesh);
                                   perturb(q.m, 0.05);
                                   for (size_t k = 0; k < q.m.nodes.size(); ++k)
                                       q.m.nodes[k][2] = 1.2 + 0.5 * std::sin(1. + 2.3 * k + b);
                                   for (size_t e = 0; e < q.m.elems.size(); ++e) {
                                       q.q.push_back({z, z, z, 0, 0, 0, 0, 0, 0});
                                       q.rot.push_back((r + e) % 3);
                                   }
                                   return q;
                               },
                               [=](Config& c) {
                                   set(c, p, o, dt, std::max(2, (int)(2 / dt)));
                                   c.run.friction = f;
                                   c.run.cf       = 0.002;
                               },
                               rest, 27);
}

// P23: the Green-Naghdi equations, by splitting into shallow water and dispersive steps
static void dispersive(std::vector<mcl::Job>& jobs, bool th) {
    auto bcs = [](const std::string& mesh, int depth) {
        return [=](size_t i) {
            static std::map<std::string, std::vector<std::vector<int>>> cache;
            auto& types = cache[mesh];
            if (types.empty())
                types = words(outer_sides(base(mesh)), 4);
            Patch p;
            p.m = base(mesh);
            perturb(p.m, 0.03);
            set_depth(p.m, depth);
            set_outline(p.m, types[i % types.size()]);
            add_forcing(p.m);
            Digits d{i / types.size()};
            for (size_t e = 0; e < p.m.elems.size(); ++e)
                p.rot.push_back(d(3));
            return p;
        };
    };
    auto set = [](Config& c, int p, int rk, int n) {
        stable(c, p, rk);
        c.run.nsteps = n;
        c.run.scheme = "gn";
    };
    for (int p = 1; p <= 3; ++p)
        for (int rk = 0; rk < 12; ++rk)
            for (int f = 0; f < 3; ++f)
                for (int b = 0; b < 4; ++b)
                    for (int depth = 0; depth < 3; ++depth) {
                        if (!th && (p + rk + f + b + depth) % 9)
                            continue;
                        clouds(jobs, fmt("settings/p%d/rk%d-%d/friction%d/source%d/ramp%d/bottom%d", p, RKS[rk].n, RKS[rk].o, f, b & 1, b >> 1, depth), 64, bcs("triangle", depth),
                               [=](Config& c) {
                                   set(c, p, rk, p == 1 ? 2 : p == 2 ? 2 : 4);
                                   c.run.friction = f;
                                   c.run.cf       = f == 2 ? 0.0002 : 0.01;
                                   c.run.source   = b & 1;
                                   c.run.ramp     = b & 2 ? 3e-5 : 0;
                                   c.user_ic      = 1;
                               },
                               conform, 32);
                    }
    for (const char* mesh : {"triangle", "pair", "fan"}) {
        size_t ne = base(mesh).elems.size(), n = 1;
        for (size_t i = 0; i < outer_sides(base(mesh)); ++i)
            n *= 4;
        for (size_t e = 0; e < ne && (th || e < 2) && ne < 4; ++e)
            n *= 3;
        for (int p = 1; p <= (th ? 3 : 2); ++p)
            for (int depth = 0; depth < 3; ++depth) {
                size_t step = th ? 1 : ne == 1 ? 1 : ne == 2 ? 5 : 3;
                clouds(jobs, fmt("boundaries/%s/p%d/bottom%d", mesh, p, depth), n / step, [=](size_t i) { return bcs(mesh, depth)(i * step + depth % step); },
                       [=](Config& c) {
                           set(c, p, 1, p == 3 ? 4 : 2);
                           c.run.friction = 1;
                           c.run.cf       = 0.01;
                           c.run.source   = true;
                           c.user_ic      = 1;
                       },
                       conform, 32);
            }
    }
    // elements without dispersive correction: every subset
    for (const char* mesh : {"fan", "star"})
        for (int p = 1; p <= 3; ++p)
            for (int b = 0; b < 2; ++b)
                clouds(jobs, fmt("buffer/%s/p%d/bc%d", mesh, p, b), th ? 16 * 81 : 16 * 3,
                       [=](size_t i) {
                           Patch q;
                           q.m = base(mesh);
                           perturb(q.m, 0.03);
                           set_depth(q.m, i / 16 % 3);
                           if (b) {
                               set_outline(q.m, {TIDE, LAND, FLOW, FUNC, LAND});
                               add_forcing(q.m);
                           }
                           q.buffer = i % 16;
                           Digits d{i / 16};
                           for (size_t e = 0; e < q.m.elems.size(); ++e)
                               q.rot.push_back(d(3));
                           return q;
                       },
                       [=](Config& c) {
                           set(c, p, 1, p == 1 ? 2 : 4);
                           c.user_ic = 1;
                       },
                       conform, 16);
    // elements partly or wholly dry
    auto shore = [th](size_t i, int p) {
        const double H[4] = {0.03, 0.16, 0.7, 1.4};
        Digits d{i};
        size_t m = d(3), b = d(3), n = th ? 4 : 3, l[4] = {d(n), d(n), d(n), d(n)}, t = d(2);
        Patch q;
        q.m = th && i % 2 ? star() : fan4();
        perturb(q.m, 0.03);
        for (size_t k = 0; k < q.m.nodes.size(); ++k)
            q.m.nodes[k][2] = b == 0 ? 0.4 : b == 1 ? -0.3 + 0.2 * k : 0.3 * std::sin(2.1 * k + 0.4);
        if (t)
            set_outline(q.m, {TIDE, LAND, FLOW, FUNC, LAND});
        if (t)
            for (size_t b = 0; b < q.m.open.size(); ++b)
                q.m.tide_of.push_back({con(b, 0.02, 0.002)});
        if (t)
            for (auto& x : q.m.land)
                if (x.ibtype % 10 == 2)
                    q.m.flow_of.push_back({con(0, -0.01, 0.002)});
        for (size_t e = 0; e < q.m.elems.size(); ++e) {
            std::array<double, 9> s;
            for (int k = 0; k < 3; ++k) {
                double h = H[l[e]] * (1 + 0.05 * k), f = m == 0 ? 0 : m == 1 ? 0.03 : -0.04;
                if (p > 1)  // depth and speed are only controlled at the vertices
                    h = std::min(h, 0.3), f *= 0.3;
                f *= std::min(1., h);
                s[k]     = h - q.m.nodes[q.m.elems[e][k]][2];
                s[3 + k] = f * (1 + 0.2 * k);
                s[6 + k] = f * (0.4 - 0.3 * k + 0.1 * e);
            }
            q.q.push_back(s);
            q.rot.push_back((i + e) % 3);
        }
        return q;
    };
    for (int p = 1; p <= 2; ++p)  // from degree 3 the depth between the corners is not controlled
        clouds(jobs, fmt("shore/p%d", p), th ? 2 * 9 * 256 : 2 * 9 * 81, [=](size_t i) { return shore(i, p); },
               [=](Config& c) {
                   time(c, p, p == 1 ? 0 : 1, p == 1 ? 1. : 0.25, 4);
                   c.run.scheme = "gn";
                   c.run.wd = true;
                   c.run.ho = 0.1;
               },
               conform, 32);
    // shocks, found by the slope limiter: no correction near them
    auto shock = [](size_t i) {
        Digits d{i};
        size_t ne = 8, at = d(8), dir = d(4), lv = d(3), r = d(3), closed = d(2);
        Patch q;
        q.m = strip(ne / 2);
        if (q.m.elems.size() != ne)
            throw std::runtime_error("strip");
        perturb(q.m, 0.03);
        for (size_t k = 0; k < q.m.nodes.size(); ++k)
            q.m.nodes[k] = {0.4 * q.m.nodes[k][0], 0.4 * q.m.nodes[k][1], 0.};
        for (size_t k = 0; k < q.m.nodes.size(); ++k)
            q.m.nodes[k][2] = 1.0 + 0.02 * std::sin(3. * k);
        if (closed)
            set_outline(q.m, {LAND});
        else {
            set_outline(q.m, {TIDE, LAND, FLOW, FUNC, LAND});
            add_forcing(q.m);
        }
        for (size_t e = 0; e < ne; ++e) {
            std::array<double, 9> s;
            for (int k = 0; k < 3; ++k) {
                double z = e < at ? 0.8 : lv == 0 ? -0.95 : lv == 1 ? 0.1 : 0.75;
                s[k]     = z + 0.01 * k;
                double f = z < -0.9 ? 0.02 : 0.1;
                s[3 + k] = f * (dir == 0 ? 1 : dir == 1 ? -1 : 0.3) * (1 + 0.2 * k);
                s[6 + k] = f * (dir == 2 ? 1 : dir == 3 ? -1 : 0.4) * (1 - 0.1 * k);
            }
            q.q.push_back(s);
            q.rot.push_back((r + e) % 3);
        }
        return q;
    };
    for (int p = 1; p <= (th ? 3 : 2); ++p)
        for (double nu : {1.5, 1.0})
            clouds(jobs, fmt("shock/p%d/nu%g", p, nu), 8 * 4 * 3 * 3 * 2, shock,
                   [=](Config& c) {
                       time(c, p, 1, p == 1 ? 0.25 : 0.125, p == 1 ? 4 : 8);
                       c.run.scheme = "gn";
                       c.run.sl    = true;
                       c.run.sl_M  = nu == 1. ? 1e-3 : 1e-8;
                       c.run.sl_nu = nu;
                   },
                   conform, 16, 80.);
    for (int p = 1; p <= 2; ++p)
        clouds(jobs, fmt("limiter/p%d", p), 729 * 4 * (th ? 6 : 1), [=](size_t i) { return uneven(i, false); },
               [=](Config& c) {
                   set(c, p, 1, 2);
                   c.run.sl    = true;
                   c.run.sl_M  = 1e-8;
                   c.run.sl_nu = 1.5;
               },
               conform, 81, 30.);
    // still water, and the volume of closed basins
    for (const char* mesh : {"triangle", "pair", "fan", "star"})
        for (int p = 1; p <= 3; ++p)
            for (int f = 0; f < 2; ++f)
                clouds(jobs, fmt("lake/%s/p%d/friction%d", mesh, p, f), 27,
                       [=](size_t i) {
                           Digits d{i};
                           double z = 0.4 * d(3) - 0.4;
                           size_t b = d(3), r = d(3);
                           Patch q;
                           q.m = base(mesh);
                           perturb(q.m, 0.05);
                           for (size_t k = 0; k < q.m.nodes.size(); ++k)
                               q.m.nodes[k][2] = 1.2 + 0.5 * std::sin(1. + 2.3 * k + b);
                           for (size_t e = 0; e < q.m.elems.size(); ++e) {
                               q.q.push_back({z, z, z, 0, 0, 0, 0, 0, 0});
                               q.rot.push_back((r + e) % 3);
                           }
                           return q;
                       },
                       [=](Config& c) {
                           set(c, p, (p * 5 + f) % 12, 4);
                           c.run.friction = f;
                           c.run.cf       = 0.002;
                       },
                       rest, 27);
    for (const char* mesh : {"pair", "star", "ring", "strip4"})
        for (int p = 1; p <= 3; ++p)
            clouds(jobs, fmt("volume/%s/p%d", mesh, p), 27,
                   [=](size_t i) {
                       Patch q;
                       q.m = base(mesh);
                       perturb(q.m, 0.03);
                       set_depth(q.m, i / 9);
                       set_outline(q.m, {LAND});
                       q.buffer = i % 3 == 1 ? 1 : 0;
                       for (size_t e = 0; e < q.m.elems.size(); ++e)
                           q.rot.push_back((i + e) % 3);
                       return q;
                   },
                   [=](Config& c) {
                       set(c, p, p * 3 % 12, th ? 8 : 4);
                       c.user_ic = 1;
                   },
                   conserve, 27);
}

// P25: rotation of the earth, wind and air pressure
static void body(std::vector<mcl::Job>& jobs, bool th) {
    auto bcs = [](const std::string& mesh, int depth) {
        return [=](size_t i) {
            static std::map<std::string, std::vector<std::vector<int>>> cache;
            auto& types = cache[mesh];
            if (types.empty())
                types = words(outer_sides(base(mesh)), 4);
            Patch p;
            p.m = base(mesh);
            perturb(p.m, 0.03);
            set_depth(p.m, depth);
            set_outline(p.m, types[i % types.size()]);
            add_forcing(p.m);
            Digits d{i / types.size()};
            for (size_t e = 0; e < p.m.elems.size(); ++e)
                p.rot.push_back(d(3));
            return p;
        };
    };
    const double EVERY[] = {0, 1, 2, 0.4, 2.5, 100};  // steps from file to file
    for (std::string sch : {"rkdg_swe", "ehdg_swe", "gn"})
        for (int p = 1; p <= 3; ++p)
            for (int rk = 0; rk < 12; ++rk)
                for (int cor = 0; cor < 2; ++cor)
                    for (int wx = 0; wx < 6; ++wx)
                        for (int sph = 0; sph < 2; ++sph)
                            for (int f = 0; f < 3; ++f) {
                                if ((!cor && !wx) || (rk + p + 2 * f + 3 * wx + cor + 5 * sph) % (th ? 2 : 17))
                                    continue;
                                clouds(jobs, fmt("settings/%s/p%d/rk%d-%d/rotation%d/weather%g/sph%d/friction%d", sch.c_str(), p, RKS[rk].n, RKS[rk].o, cor, EVERY[wx], sph, f), 64,
                                       bcs("triangle", wx % 3),
                                       [=](Config& c) {
                                           stable(c, p, rk);
                                           c.run.nsteps    = 4;
                                           c.run.scheme    = sch;
                                           c.run.coriolis  = cor;
                                           c.run.weather   = EVERY[wx] * c.run.dt;
                                           c.run.rho       = f == 1 ? 1000. : 300.;
                                           c.run.friction  = f;
                                           c.run.cf        = f == 2 ? 0.0002 : 0.01;
                                           c.run.source    = f == 1;
                                           c.run.spherical = sph;
                                           c.run.lat0      = sph ? 10 : 0;
                                           c.run.R         = sph ? 100. : 6378200.;
                                           c.user_ic       = 1;
                                       },
                                       conform, 32);
                            }
    // the implicit scheme takes part in the rotation
    for (int p = 1; p <= 3; ++p)
        for (int o = 1; o <= 2; ++o)
            for (double r : {20., 100., 6378200.})
                for (int dir = 0; dir < 4; ++dir) {
                    if (!th && dir > 1)
                        continue;
                    clouds(jobs, fmt("implicit/p%d/order%d/R%g/direction%d", p, o, r, dir), 64, [dir](size_t i) { return current("triangle", i, dir); },
                           [=](Config& c) {
                               c.run.p         = p;
                               c.run.order     = o;
                               c.run.nstages   = o;
                               c.run.dt        = 0.25;
                               c.run.nsteps    = 4;
                               c.run.scheme    = "ihdg_swe";
                               c.run.coriolis  = true;
                               c.run.spherical = r < 1e6;
                               c.run.R         = r;
                               c.user_ic       = 8 + dir;
                           },
                           settled, 1);
                }
    // neighbours, wet and dry, with every depth of every vertex
    for (std::string sch : {"rkdg_swe", "ehdg_swe", "gn"})
        for (int p = 1; p <= (th ? 2 : 1); ++p)
            for (int cor = 0; cor < 2; ++cor) {
                size_t step = th ? 1 : 5;
                clouds(jobs, fmt("wetdry/%s/p%d/rotation%d", sch.c_str(), p, cor), 2916 / step,
                       [=](size_t i) {
                           Digits d{i * step + i % step};
                           size_t b = d(4), h[6] = {d(3), d(3), d(3), d(3), d(3), d(3)};
                           const double D[3] = {0.02, 0.3, 0.9};
                           Patch q;
                           q.m = pair_mesh();
                           for (int k = 0; k < 4; ++k)
                               q.m.nodes[k][2] = b == 0 ? 0.4 : b == 1 ? 0.6 - 0.35 * k : b == 2 ? -0.3 + 0.2 * k : 0.3 * std::sin(2.1 * k + 0.4);
                           for (int e = 0; e < 2; ++e) {
                               std::array<double, 9> s;
                               for (int k = 0; k < 3; ++k) {
                                   double dep = D[h[3 * e + k]];
                                   s[k]       = dep - q.m.nodes[q.m.elems[e][k]][2];
                                   s[3 + k]   = 0.05 * dep * (e ? -1 : 1);
                                   s[6 + k]   = 0.03 * dep * (k ? 1 : -1);
                               }
                               q.q.push_back(s);
                               q.rot.push_back((i + e) % 3);
                           }
                           return q;
                       },
                       [=](Config& c) {
                           stable(c, p, 1);
                           if (sch == "gn")
                               c.run.dt = 0.25;
                           c.run.nsteps    = 4;
                           c.run.scheme    = sch;
                           c.run.wd        = true;
                           c.run.ho        = 0.1;
                           c.run.coriolis  = cor;
                           c.run.spherical = cor;
                           c.run.R         = cor ? 100. : 6378200.;
                           c.run.weather   = 2 * c.run.dt;
                       },
                       conform, 64);
            }
}

int main(int argc, char** argv) {
    mcl::Options o = mcl::parse(argc, argv);
    bool th        = o.thorough();
    std::vector<mcl::Job> jobs;
    if (o.prop == "P04")
        steps(jobs, th, "rkdg_swe");
    if (o.prop == "P12")
        steps(jobs, th, "ehdg_swe");
    if (o.prop == "P13")
        implicit(jobs, th);
    if (o.prop == "P23")
        dispersive(jobs, th);
    if (o.prop == "P25")
        body(jobs, th);
    if (o.prop == "P05")
        forcing(jobs, th);
    if (o.prop == "P06")
        levees(jobs, th);
    if (o.prop == "P07")
        wetdry(jobs, th);
    if (o.prop == "P08")
        limiter(jobs, th);
    if (o.prop == "P09")
        volume(jobs, th);
    if (o.prop == "P10")
        lake(jobs, th);
    if (o.prop == "P11")
        numbering(jobs, th);
    mcl::Report rep;
    rep.states_counter      = "states";
    rep.transitions_counter = "transitions";
    rep.validated_counter   = "traces_compared";
    return mcl::run_jobs(o, jobs, rep);
}
