// P01: the parallel program computes what the serial program computes, for every decomposition.
// P03: the partition files describe the mesh, for every decomposition.
#include "../lib/par.h"
#include "../lib/ref.h"
#include <cmath>
#include <cstdio>
#include <unistd.h>
#include <cstring>
#include <stdexcept>
using namespace par;
using mcl::fmt;

struct Plan {
    std::string cfg;
    int kmax;          // partitions
    int nmax;          // nodes
    int tmax;          // threads
    int rpl;           // largest number of ranks per node
};

#ifdef MC_GND
#define BOTH(v) void mc_gn_serial_##v(const std::string&); void mc_gn_ompi_##v(const std::string&);
extern "C" { BOTH(11) BOTH(12) BOTH(13) BOTH(21) BOTH(22) BOTH(23) }
static const std::map<int, std::pair<EntryFn, EntryFn>> GND{{11, {mc_gn_serial_11, mc_gn_ompi_11}}, {12, {mc_gn_serial_12, mc_gn_ompi_12}},
                                                             {13, {mc_gn_serial_13, mc_gn_ompi_13}}, {21, {mc_gn_serial_21, mc_gn_ompi_21}},
                                                             {22, {mc_gn_serial_22, mc_gn_ompi_22}}, {23, {mc_gn_serial_23, mc_gn_ompi_23}}};
#endif
static EntryFn gn_parallel = nullptr;
static void choose(const Config& c) {
#ifdef MC_GND
    gn_serial = c.run.derivative ? GND.at(c.run.derivative).first : nullptr;
    gn_parallel = c.run.derivative ? GND.at(c.run.derivative).second : nullptr;
#endif
}
static EntryFn ompi_entry(const std::string& s) {
    if (s == "gn" && gn_parallel)
        return gn_parallel;
    return s == "gn" ? mc_gn_ompi : s == "ihdg_swe" ? mc_ihdg_ompi : s == "ehdg_swe" ? mc_ehdg_ompi : mc_rkdg_ompi;
}

static std::vector<Decomp> decomps(const Config& c, int k, int nmax, int rplmax) {
    std::vector<Decomp> out;
    auto sp = set_partitions(c.mesh.elems.size(), k);
    for (int n = 1; n <= nmax && n <= k; ++n) {
        auto as = n == 1 ? std::vector<std::vector<int>>{std::vector<int>(k, 0)} : assignments(k, n);
        for (int rpl = 1; rpl <= rplmax; ++rpl) {
            if (n * rpl > k)
                continue;
            for (auto& a : as) {
                // every rank gets at least one submesh
                bool ok = true;
                for (int x = 0; x < n; ++x) {
                    int cnt = 0;
                    for (int v : a)
                        cnt += v == x;
                    ok = ok && cnt >= rpl;
                }
                if (!ok)
                    continue;
                for (auto& p : sp) {
                    Decomp d;
                    d.part   = p;
                    d.nparts = k;
                    d.node   = a;
                    d.nnodes = n;
                    d.rpl    = rpl;
                    d.balanced = !c.run.name.empty() && out.size() % 2;
                    out.push_back(d);
                }
            }
        }
    }
    return out;
}

// parts of the elements in the order of the mesh
static std::vector<int> parts(const Config& c, const Decomp& d) {
    std::map<unsigned, int> order;
    for (size_t i = 0; i < c.mesh.elems.size(); ++i)
        order[c.mesh.elem_id[i]] = i;
    int k = 0;
    std::vector<int> part(c.mesh.elems.size());
    for (auto& o : order)
        part[o.second] = d.part[k++];
    return part;
}
static bool connected_everywhere(const Config& c, const Decomp& d) {
    // a submesh without any shared face has nothing to exchange
    std::vector<char> has(d.nparts, 0);
    std::map<std::pair<int, int>, int> first;
    std::vector<int> part = parts(c, d);
    for (size_t e = 0; e < c.mesh.elems.size(); ++e)
        for (int j = 0; j < 3; ++j) {
            int a = c.mesh.elems[e][(j + 1) % 3], b = c.mesh.elems[e][(j + 2) % 3];
            std::pair<int, int> key{std::min(a, b), std::max(a, b)};
            if (first.count(key)) {
                if (part[first[key]] != part[e])
                    has[part[first[key]]] = has[part[e]] = 1;
            } else
                first[key] = e;
        }
    for (char h : has)
        if (!h)
            return false;
    return true;
}

// does every step of the run follow the scheme, except that the area around a shock ends where the submesh ends?
static bool shock_area_cut(const Config& c, const Decomp& d, const std::vector<sim::Rec>& recs) {
    ref::Model m(c.mesh, c.run);
    m.part   = parts(c, d);
    size_t n = c.mesh.elems.size();
    std::string err;
    user(c);
    m.initial();
    double worst = m.compare(recs, 0, err);
    for (int s = 0; s < c.run.nsteps && worst <= 1e-9; ++s) {
        m.set(recs, s * n, s);
        m.advance();
        double x = m.compare(recs, (s + 1) * n, err);
        worst    = x <= worst ? worst : x;
    }
    return worst <= 1e-9 && m.ties == 0;
}

static void one(mcl::Worker& w, const Config& c, const Decomp& d, int nthreads, const std::vector<sim::Rec>* ref, bool files,
                bool rendezvous, int policy) {
    std::string rp = fmt("--case %s --decomp %s --threads %d", c.name.c_str(), d.str().c_str(), nthreads);
    mcl::wipe_dir(w.scratch);
    std::string e = run_partitioner(c, d, w.scratch);
    w.st.add("partitioner_runs");
    if (!e.empty()) {
        w.violation("partitioner-fails:" + c.name, e + " (" + d.str() + ")", rp);
        return;
    }
    if (files) {
        e = check_files(c, d, w.scratch);
        w.st.add("files_checked", 2 * d.nparts);
        if (!e.empty())
            w.violation("partition-files:" + c.name, e + " (" + d.str() + ")", rp);
        else
            w.st.seen("decompositions", c.name + d.str());
        w.st.add("shared_face_lists", d.nparts);
        return;
    }
    mc::ExecConfig ec;
    ec.nranks     = d.nranks();
    ec.nthreads   = nthreads;
    ec.rendezvous = rendezvous;
    ec.policy     = policy;
    auto r        = run_parallel(c, ompi_entry(c.run.scheme), ec, w.scratch);
    w.st.add("transitions", r.nsched);
    w.st.add("parallel_runs");
    bool iso = !connected_everywhere(c, d);
    if (r.status == mc::Status::Internal)
        throw std::runtime_error("executor: " + r.msg);
    if (r.status != mc::Status::Ok) {
        w.violation(std::string(mc::status_name(r.status)) + (iso ? ":isolated-submesh" : "") + ":" + c.name,
                    r.msg + " (" + d.str() + fmt(", threads %d)", nthreads), rp);
        return;
    }
    std::string err;
    auto recs  = gather(r);
    double dif = compare(*ref, recs, err);
    bool cut = !(dif <= 1e-9) && !sim::dump_weather && c.run.scheme == "gn" && c.run.sl && shock_area_cut(c, d, recs);
    w.st.add("runs_with_cut_shock_area", cut);
    if (cut)
        w.violation("shock-area-ends-at-submesh:" + c.name, err + " (" + d.str() + fmt(", threads %d, difference %.3g)", nthreads, dif), rp);
    else if (!(dif <= 1e-9))
        w.violation("differs-from-serial:" + c.name, err + " (" + d.str() + fmt(", threads %d, difference %.3g)", nthreads, dif), rp);
    std::string key;
    for (auto& x : recs)
        key += std::to_string(mcl::fnv(x.q.data(), 8 * x.q.size())) + ",";
    w.st.add("states", recs.size());
    w.st.add("traces_compared");
    w.st.seen("outcomes", c.name + std::to_string(mcl::fnv(key)));
}

// ---- P24: wind stress and pressure hold the linear interpolation of the files at every time
static void weather(mcl::Worker& w, const Config& c) {
    std::vector<sim::Rec> recs;
    mcl::wipe_dir(w.scratch);
    sim::dump_weather = 2;
    std::string e     = run_serial(c, w.scratch, recs), rp = "--job " + w.job;
    sim::dump_weather = 0;
    if (!e.empty()) {
        w.violation("weather-run:" + c.name, e, rp);
        return;
    }
    std::map<unsigned, size_t> at;
    for (size_t i = 0; i < c.mesh.nodes.size(); ++i)
        at[c.mesh.node_id[i]] = i;
    double worst = 0, last = 0;
    for (auto& r : recs) {
        last = std::max(last, r.t);
        for (unsigned k = 0; k < r.ndof; ++k) {
            // a few schemes have a stage just past the end of its step: its step's files or the next may serve it
            auto want = c.run.weather_at(at.at(r.node[k]), r.t), other = c.run.weather_at(at.at(r.node[k]), r.t, std::max(0, (int)std::floor((r.t - 0.05 * c.run.dt) / (c.run.weather_every() * c.run.dt))));
            for (int v = 0; v < 3; ++v) {
                double x = r.q[v * r.ndof + k], d = std::fabs(x - want[v]);
                d        = std::min(d, std::fabs(x - other[v]));
                if (!(d <= worst)) {
                    worst = std::isnan(d) ? 1e300 : d;
                    if (worst > 1e-9) {
                        w.violation("weather:" + c.name, fmt("time %.9g, element %u, node %u: %s is %.12g, the files say %.12g", r.t, r.id, r.node[k],
                                                              v == 2 ? "pressure" : "wind stress", r.q[v * r.ndof + k], want[v]), rp);
                        return;
                    }
                }
            }
        }
    }
    if (recs.size() % c.mesh.elems.size() || recs.size() < c.mesh.elems.size() * c.run.nsteps || last < (c.run.nsteps - 1) * c.run.dt - 1e-9)
        w.violation("weather:" + c.name, fmt("%zu records up to time %g", recs.size(), last), rp);
    w.st.add("states", recs.size());
    w.st.add("transitions", recs.size() / c.mesh.elems.size());
    w.st.add("traces_compared");
    w.st.sample(c.name + fmt(": a file every %d steps, %zu element states, largest difference %.2g", c.run.weather_every(), recs.size(), worst));
    // without one of its files the run must stop
    int k = c.run.weather_every();
    for (int f = 0; f <= (c.run.nsteps - 1) / k + 1; ++f) {
        mcl::wipe_dir(w.scratch);
        cases::write_case(w.scratch, c.mesh, c.run);
        remove((w.scratch + fmt("/wind.v2_%d.in", f * k)).c_str());
        auto r = mc::run_child(
            [&] {
                user(c);
                if (chdir(w.scratch.c_str()))
                    throw std::runtime_error("chdir");
                serial_entry(c.run.scheme)(w.scratch + "/in.15");
            },
            w.scratch);
        w.st.add("missing_files");
        if (r.ok || r.what.find(fmt("wind.v2_%d.in", f * k)) == std::string::npos)
            w.violation("weather-missing-file:" + c.name, fmt("the file of step %d is missing: %s", f * k, r.ok ? "the run goes on" : r.what.c_str()), rp);
    }
    // distributed runs know the same
    if (c.mesh.elems.size() > 4)
        return;
    std::vector<sim::Rec> ref;
    sim::dump_weather = 1;
    mcl::wipe_dir(w.scratch);
    e = run_serial(c, w.scratch, ref);
    for (int n = 1; n <= 2 && e.empty(); ++n)
        for (auto& d : decomps(c, 2, n, 1))
            one(w, c, d, 2, &ref, false, n == 1, 0);
    sim::dump_weather = 0;
    if (!e.empty())
        w.violation("weather-run:" + c.name, e, rp);
}

// ---- P27: the dispersive correction with every way to differentiate
static void derivative(mcl::Worker& w, const Config& c) {
    std::vector<sim::Rec> recs;
    mcl::wipe_dir(w.scratch);
    choose(c);
    std::string e = run_serial(c, w.scratch, recs), err;
    if (!e.empty()) {
        w.violation("run:" + c.name, e, "--job " + w.job);
        return;
    }
    size_t n = c.mesh.elems.size();
    user(c);
    ref::Model m(c.mesh, c.run);
    m.initial();
    double worst = m.compare(recs, 0, err);
    int s = 0;
    for (; s < c.run.nsteps && worst <= 1e-9; ++s) {
        m.set(recs, s * n, s);
        m.advance();
        double x = m.compare(recs, (s + 1) * n, err);
        worst    = x <= worst ? worst : x;
    }
    if (!(worst <= 1e-9))
        w.violation("derivative:" + c.name, fmt("step %d: ", s) + err, "--job " + w.job);
    w.st.add("states", recs.size());
    w.st.add("transitions", s);
    w.st.add("traces_compared");
    w.st.sample(c.name + ": " + cases::describe(c.mesh) + fmt(", %zu element states, largest difference %.2g", recs.size(), worst));
}

int main(int argc, char** argv) {
    mcl::Options o = mcl::parse(argc, argv);
    bool files     = o.prop == "P03";
    bool th        = o.thorough();
    std::string cas, dec;
    int thr = 1;
    for (size_t i = 0; i + 1 < o.rest.size(); ++i) {
        if (o.rest[i] == "--case")
            cas = o.rest[i + 1];
        if (o.rest[i] == "--decomp")
            dec = o.rest[i + 1];
        if (o.rest[i] == "--threads")
            thr = std::stoi(o.rest[i + 1]);
    }
    std::vector<mcl::Job> jobs;
    auto addjobs = [&](const Plan& p) {
        Config c   = make(p.cfg);
        int n      = c.mesh.elems.size();
        size_t tot = 0;
        for (int k = 1; k <= p.kmax && k <= n; ++k)
            tot += decomps(c, k, p.nmax, p.rpl).size();
        size_t chunks = std::max<size_t>(1, std::min<size_t>(64, tot / 40));
        for (size_t ch = 0; ch < chunks; ++ch)
            jobs.push_back({p.cfg + fmt("#%zu", ch), [=](mcl::Worker& w) {
                                std::vector<sim::Rec> ref;
                                choose(c);
                                if (!files) {
                                    mcl::wipe_dir(w.scratch);
                                    std::string e = run_serial(c, w.scratch, ref);
                                    if (!e.empty()) {
                                        w.violation("serial:" + c.name, e, "--case " + c.name);
                                        return;
                                    }
                                    if (ch == 0)
                                        w.st.sample(c.name + ": " + cases::describe(c.mesh) +
                                                    fmt(", %zu element states per run", ref.size()));
                                }
                                size_t i = 0;
                                for (int k = 1; k <= p.kmax && k <= n; ++k)
                                    for (auto& d : decomps(c, k, p.nmax, p.rpl)) {
                                        if (i++ % chunks != ch)
                                            continue;
                                        for (int t = 1; t <= (files ? 1 : p.tmax); ++t) {
                                            if (w.expired()) {
                                                w.st.capped.push_back("time budget: " + c.name);
                                                return;
                                            }
                                            one(w, c, d, t, &ref, files, (i + t) % 2, (i / 2) % 3);
                                        }
                                        if (w.st.viol.size() > 20)
                                            return;
                                    }
                            }});
    };
    if (!cas.empty()) {
        if (dec.empty())
            addjobs({cas, 3, 2, 1, 1});
        else
            jobs.push_back({"replay", [=](mcl::Worker& w) {
                                Config c = make(cas);
                                std::vector<sim::Rec> ref;
                                choose(c);
                                if (!files) {
                                    std::string e = run_serial(c, w.scratch, ref);
                                    if (!e.empty())
                                        throw std::runtime_error(e);
                                }
                                one(w, c, Decomp::parse(dec), thr, &ref, files, false, 0);
                            }});
    } else if (o.prop == "P24") {
        static const std::vector<std::pair<int, int>> rks{{1, 1}, {2, 2}, {3, 3}, {4, 3}, {5, 3}, {6, 3}, {7, 3}, {8, 3}, {5, 4}, {6, 4}, {7, 4}, {8, 4}};
        // a step, exact and inexact multiples of it, less than one, more than the run
        for (std::string sch : {"rkdg", "ehdg", "gn"})
            for (std::string m : {"pair", "fan", "strip3"})
                for (int rk = 0; rk < 12; ++rk)
                    for (double dt : {1., 0.5, 0.1, 0.3})
                        for (double f : {1., 2., 3., 0.4, 2.5, 1.999999, 100.}) {
                            if ((m != "pair") + (rk > 2) + (dt != 0.5 && dt != 0.1) > (th ? 2 : 1) || (dt < 0.4 && rk > 2 && !th))
                                continue;
                            Config c = make(m + "/" + sch + "/1/ids/nofr");
                            c.name   = fmt("weather/%s/%s/rk%d-%d/dt%g/every%g", m.c_str(), sch.c_str(), rks[rk].first, rks[rk].second, dt, f);
                            c.run.nstages = rks[rk].first;
                            c.run.order   = rks[rk].second;
                            c.run.dt      = dt;
                            c.run.nsteps  = dt == 0.1 ? 10 : dt == 0.3 ? 10 : dt == 0.5 ? 6 : 4;
                            c.run.weather = f * dt;
                            jobs.push_back({c.name, [=](mcl::Worker& w) { weather(w, c); }});
                        }
    } else if (o.prop == "P27") {
        for (const char* d : {"/d11", "/d12", "/d13", "/d21", "/d22", "/d23"}) {
            for (const char* n : {"pair/gn/1/bc", "pair/gn/2/bc2", "pair/gn/3", "fan/gn/1/bc", "fan/gn/1/bc2/osc", "fan/gn/2/ids/rk3", "fan/gn/3/bc", "strip3/gn/1/bc/skew/osc", "strip3/gn/2/bc2",
                                  "strip3/gn/1/buf", "ring/gn/1/bc", "ring/gn/2", "grid22/gn/1/bc/rk1", "grid22/gn/2/bc2/skew", "fan/gn/1/bc/man", "strip4/gn/1/bc/osc"}) {
                Config c = make(n + std::string(d));
                jobs.push_back({c.name, [=](mcl::Worker& w) { derivative(w, c); }});
            }
            addjobs({std::string("pair/gn/2/bc") + d, 2, 2, 2, 2});
            addjobs({std::string("fan/gn/1/bc/ids") + d, 4, 2, 1, 1});
            addjobs({std::string("strip3/gn/1/bc2/cw/osc") + d, 3, 2, 1, 1});
            if (th) {
                addjobs({std::string("fan/gn/2/bc2/rk3") + d, 4, 3, 2, 2});
                addjobs({std::string("grid22/gn/1/bc") + d, 3, 2, 1, 1});
                addjobs({std::string("ring/gn/1/bc") + d, 3, 2, 1, 1});
            }
        }
    } else if (files) {
        addjobs({"pair/rkdg/1/bc", 2, 2, 1, 2});
        addjobs({"fan/rkdg/1/bc/ids", 4, 3, 1, 2});
        addjobs({"strip3/rkdg/2/bc", 4, 3, 1, 2});
        addjobs({"levee1/rkdg/1", 4, 2, 1, 2});
        addjobs({"ring/rkdg/1/bc", 2, 2, 1, 1});
        addjobs({"fan/rkdg/1/bc/cw", 4, 2, 1, 1});
        addjobs({"levee1/rkdg/1/cw", 4, 2, 1, 1});
        addjobs({"fan/rkdg/1/bc/wts", 4, 2, 1, 2});
        addjobs({"strip3/rkdg/1/bc/wd/wts", 4, 3, 1, 2});
        if (th) {
            addjobs({"grid22/rkdg/1/bc/ids", 4, 4, 1, 2});
            addjobs({"ring/rkdg/3/bc2", 4, 3, 1, 2});
            addjobs({"levee2/rkdg/2/ids", 4, 3, 1, 2});
        }
    } else {
        int x = th ? 1 : 0;
        addjobs({"pair/rkdg/1/bc", 2, 2, 2, 2});
        addjobs({"pair/ehdg/2/bc/n3", 2, 2, 2, 2});
        addjobs({"fan/rkdg/2/bc/ids/ramp", 4, 3, 2 + x, 2});
        addjobs({"fan/rkdg/1/bc2/sl/osc/rk3/n3", 4, 2 + x, 1 + x, 2});
        addjobs({"fan/rkdg/1/bc2/wd/rk3/n3", 4, 2 + x, 1 + x, 2});
        addjobs({"fan/rkdg/1/bc/sph/rk3", 3 + x, 2, 1, 1});
        addjobs({"fan/rkdg/3/bc/rk45", 3 + x, 2, 1, 1});
        addjobs({"fan/ehdg/1/bc/ids/ramp", 4, 2 + x, 2, 2});
        addjobs({"fan/ehdg/2/bc2/rk3", 3 + x, 2, 1, 1});
        addjobs({"fan/ehdg/1/wd/rk3/n3", 4, 2, 1, 1});
        addjobs({"fan/ehdg/1/bc/sl/osc/n3", 4, 2, 1, 1});
        addjobs({"strip3/rkdg/1/bc/man", 3, 2, 1 + x, 1});
        addjobs({"fan/rkdg/1/bc/wind/rot/ids/n4", 3 + x, 2, 1 + x, 1});
        addjobs({"fan/ehdg/1/bc/wind/rot/wd/n4", 3, 2, 1, 1});
        addjobs({"fan/gn/1/wind/rot/n4", 3, 2, 1, 1});
        addjobs({"fan/ihdg/1/bc/rot", 3, 2, 1, 1});
        addjobs({"strip3/rkdg/1/bc/wd/n4", 3, 2, 1 + x, 1});
        addjobs({"strip3/rkdg/1/bc2/wd/osc/n4", 3, 2, 1 + x, 1});
        addjobs({"strip3/rkdg/1/bc/sl/osc", 3, 2, 1 + x, 1});
        addjobs({"strip3/rkdg/1/bc2/sl/wd/n4", 3, 2, 1 + x, 1});
        addjobs({"strip3/ehdg/1/wd/n4", 3, 1, 1 + x, 1});
        addjobs({"levee1/rkdg/1", 4, 2, 1, 1});
        addjobs({"levee1/rkdg/2/osc/n3", 4, 2, 1, 1});
        addjobs({"levee1/rkdg/1/skew/sph/osc/n3", 4, 2, 1, 1});
        addjobs({"strip3/ehdg/1/bc3/wd/n4", 3, 2, 1, 1});
        addjobs({"fan/rkdg/1/bc/cw/osc", 4, 2, 1, 1});
        addjobs({"levee1/rkdg/1/cw/osc", 4, 2, 1, 1});
        addjobs({"levee1/rkdg/1/wd/n4", 4, 2, 1, 1});
        addjobs({"levee2/rkdg/1/osc/sl/n3", 2 + x, 2, 1, 1});
        addjobs({"ring/rkdg/1/bc", 2 + x, 2, 1, 1});
        addjobs({"ring/rkdg/1/bc2/wd/osc/n3", 2 + x, 2, 1, 1});
        // schemes with a problem that couples all submeshes
        addjobs({"pair/ihdg/1/bc", 2, 2, 2, 2});
        addjobs({"fan/ihdg/1/bc/ids/ramp", 4, 3, 1 + x, 2});
        addjobs({"fan/ihdg/2/bc", 2 + x, 2, 1, 1});
        addjobs({"fan/ihdg/1/bc/sl/osc/rk1/n3", 3 + x, 2, 2, 1});
        addjobs({"fan/ihdg/1/bc/cw/osc", 3 + x, 2, 1, 1});
        addjobs({"strip3/ihdg/1/bc/man", 2 + x, 2, 1, 1});
        addjobs({"pair/gn/1/bc", 2, 2, 2, 2});
        addjobs({"fan/gn/1/bc/ids/ramp", 4, 3, 2, 2});
        addjobs({"fan/gn/2/bc2/n3", 3 + x, 2, 1, 1});
        addjobs({"fan/gn/3", 3 + x, 2, 1, 1});
        addjobs({"fan/gn/1/bc/cw/osc", 4, 2, 1, 1});
        addjobs({"fan/gn/1/bc2/wd/rk3/n3", 4, 2 + x, 1 + x, 2});
        addjobs({"fan/gn/2/buf", 4, 2, 1, 1});
        addjobs({"strip3/gn/1/bc2/sl/osc/n4", 3, 2, 1 + x, 1});
        addjobs({"strip3/gn/1/bc3/wd/n4", 3, 2, 2, 1});
        addjobs({"strip3/gn/1/bc/wd/sl/buf/n4", 3, 2, 1 + x, 1});
        addjobs({"strip3/gn/1/shock", 3, 2, 1 + x, 1});
        if (th) {
            addjobs({"strip4/rkdg/1/bc/sl/wd/osc/n4", 3, 2, 2, 1});
            addjobs({"grid22/rkdg/1/bc/ids/sl/osc", 3, 2, 2, 1});
            addjobs({"grid22/rkdg/1/bc2/wd/n4", 3, 2, 2, 1});
            addjobs({"grid22/ehdg/1/wd/n4", 3, 2, 2, 1});
            addjobs({"levee2/rkdg/1/osc/wd/n4", 4, 2, 2, 1});
            addjobs({"fan/rkdg/1/bc/wd/sl/n30/osc", 4, 3, 3, 2});
            addjobs({"fan/ehdg/3/bc/rk45/n10", 4, 3, 3, 2});
            addjobs({"fan/ihdg/3/bc/n4", 3, 2, 2, 1});
            addjobs({"fan/ihdg/2/bc/cw/osc", 4, 2, 1, 1});
            addjobs({"ring/ihdg/1/bc", 3, 2, 1, 1});
            addjobs({"grid22/gn/1/bc/ids", 3, 2, 2, 1});
            addjobs({"grid22/gn/2/bc2/wd/n3", 3, 2, 1, 1});
            addjobs({"ring/gn/1/bc", 3, 2, 1, 1});
            addjobs({"strip4/gn/1/shock", 3, 2, 1, 1});
            addjobs({"strip4/gn/1/bc/wd/sl/osc/n4", 3, 2, 2, 1});
        }
    }
    mcl::Report rep;
    rep.states_counter      = files ? "decompositions" : "states";
    rep.transitions_counter = files ? "files_checked" : "transitions";
    rep.validated_counter   = files ? "partitioner_runs" : "traces_compared";
    return mcl::run_jobs(o, jobs, rep);
}
