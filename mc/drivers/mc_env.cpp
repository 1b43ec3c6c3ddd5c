// P26: a run depends on its input alone. Every run is repeated in every surrounding of a finite
// product - what fresh and released memory holds, what the stack holds, where memory lies, what an
// earlier run left in the folder - and must give the same states bit for bit and the same files.
#include <malloc.h>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <stdexcept>
#include "../lib/par.h"
using namespace par;
using mcl::fmt;

extern "C" {
// the same entries, compiled with a pattern in every local variable that is not set
void mc_rkdg_serial_p(const std::string&);
void mc_ehdg_serial_p(const std::string&);
void mc_ihdg_serial_p(const std::string&);
void mc_gn_serial_p(const std::string&);
void mc_rkdg_ompi_p(const std::string&);
void mc_ehdg_ompi_p(const std::string&);
void mc_ihdg_ompi_p(const std::string&);
void mc_gn_ompi_p(const std::string&);
}
static EntryFn entry(const std::string& s, bool split, int locals) {
    static const EntryFn t[4][2][2] = {{{mc_rkdg_serial, mc_rkdg_serial_p}, {mc_rkdg_ompi, mc_rkdg_ompi_p}},
                                       {{mc_ehdg_serial, mc_ehdg_serial_p}, {mc_ehdg_ompi, mc_ehdg_ompi_p}},
                                       {{mc_ihdg_serial, mc_ihdg_serial_p}, {mc_ihdg_ompi, mc_ihdg_ompi_p}},
                                       {{mc_gn_serial, mc_gn_serial_p}, {mc_gn_ompi, mc_gn_ompi_p}}};
    return t[s == "rkdg_swe" ? 0 : s == "ehdg_swe" ? 1 : s == "ihdg_swe" ? 2 : 3][split][locals];
}

// what a program may find around it
struct Env {
    int locals = 0;   // 0 what the stack holds, 1 a pattern
    int heap   = 0;   // 0 as it comes, else: released memory holds this byte, fresh memory its complement
    int shift  = 0;   // memory lies elsewhere
    int left   = 0;   // 0 nothing, 1 the files of an earlier, longer run elsewhere, 2.. such a run killed on the way
    std::string str() const {
        return fmt("%s locals, memory %s, %s, %s", locals ? "patterned" : "plain", heap ? fmt("0x%02x", heap).c_str() : "as is", shift ? "shifted" : "in place",
                   left > 1 ? fmt("after another run killed at state %d", left - 1).c_str() : left ? "after another run" : "empty folder");
    }
};
static int g_kill = 0;  // the process ends with this state
static sim::SinkFn g_sink;
static void deadly(const void* p, size_t n) {
    g_sink(p, n);
    if (g_kill && --g_kill == 0)
        _exit(3);
}
static __attribute__((noinline)) void smear(int byte) {  // what is below on the stack
    char b[1 << 20];
    memset(b, byte, sizeof b);
    __asm__ volatile("" : : "r"(b) : "memory");
}
static void enter(const Env& e) {
    smear(e.heap);
    if (e.shift) {
        static void* volatile keep[4];
        keep[0] = malloc(100008);
        keep[1] = malloc(24);
        keep[2] = malloc(4104);
    }
    if (e.heap) {
        mallopt(M_PERTURB, e.heap);
        // recycled chunks of the parent hold its data: hand out fresh ones
        for (int k = 0; k < 64; ++k)
            for (int i = 0; i < 8; ++i)
                if (!malloc(16 * (k + 1)))
                    abort();
    }
}

static std::string serial(const Config& c, const Env& e, const std::string& dir, std::vector<sim::Rec>& out) {
    cases::write_case(dir, c.mesh, c.run);
    EntryFn f = entry(c.run.scheme, false, e.locals);
    auto r    = mc::run_child(
        [&] {
            user(c);
            if (chdir(dir.c_str()))
                throw std::runtime_error("chdir " + dir);
            enter(e);
            f(dir + "/in.15");
        },
        dir);
    if (!r.ok)
        return "run failed: " + (r.what.empty() ? fmt("exit %d signal %d", r.exit_code, r.signal) : r.what);
    out = sim::decode(r.payload);
    return "";
}
static Env g_env;
static EntryFn g_fn;
static void wrapped(const std::string& in) {
    enter(g_env);
    g_fn(in);
}
static std::string split(const Config& c, const Decomp& d, int threads, const Env& e, const std::string& dir, std::vector<sim::Rec>& out) {
    g_env               = e;
    before_partitioner  = [] { enter(g_env); };
    std::string err     = run_partitioner(c, d, dir);
    if (!err.empty())
        return err;
    mc::ExecConfig ec;
    ec.nranks   = d.nranks();
    ec.nthreads = threads;
    g_fn        = entry(c.run.scheme, true, e.locals);
    auto r      = run_parallel(c, wrapped, ec, dir);
    if (r.status == mc::Status::Internal)
        throw std::runtime_error("executor: " + r.msg);
    if (r.status != mc::Status::Ok)
        return std::string(mc::status_name(r.status)) + ": " + r.msg;
    out = gather(r);
    return "";
}

// every file below a folder
static void collect(const std::string& dir, const std::string& rel, std::map<std::string, std::string>& files) {
    DIR* d = opendir((dir + rel).c_str());
    if (!d)
        return;
    while (dirent* e = readdir(d)) {
        std::string n = e->d_name;
        if (n == "." || n == "..")
            continue;
        struct stat s;
        std::string p = dir + rel + "/" + n;
        if (lstat(p.c_str(), &s))
            continue;
        if (S_ISDIR(s.st_mode))
            collect(dir, rel + "/" + n, files);
        else if (n != "child.err" && n.compare(0, 5, "rank.") != 0 && n.find(".err") == std::string::npos)
            files[rel + "/" + n] = mcl::read_file(p);
    }
    closedir(d);
}
static void clear(const std::string& dir) {  // folders made by the program inside the worker's own folder
    DIR* d = opendir(dir.c_str());
    if (!d)
        return;
    std::vector<std::string> sub;
    while (dirent* e = readdir(d)) {
        std::string n = e->d_name;
        struct stat s;
        if (n != "." && n != ".." && !lstat((dir + "/" + n).c_str(), &s) && S_ISDIR(s.st_mode))
            sub.push_back(dir + "/" + n);
    }
    closedir(d);
    for (auto& s : sub) {
        clear(s);
        rmdir(s.c_str());
    }
    mcl::wipe_dir(dir);
}

struct Outcome {
    std::vector<sim::Rec> recs;
    std::map<std::string, std::string> files;
};
// the run c (split as d, or serially) in a surrounding
static std::string perform(const Config& c0, const Decomp* d, int threads, const Env& e, const std::string& dir, Outcome& o, bool* ended) {
    Config c = c0;
    clear(dir);
    if (e.left) {  // an earlier run: other place, depth, state, number of steps and split
        Config b = c;
        b.run.nsteps = c.run.nsteps + 2;
        b.user_ic    = c.user_ic == 1 ? 6 : c.user_ic == 7 ? 7 : 1;
        for (auto& n : b.mesh.nodes) {
            n[0] += 0.5;
            n[2] += 0.0625;
        }
        std::vector<sim::Rec> x;
        std::string err;
        g_sink = sim::sink;
        if (e.left > 1) {
            g_kill    = e.left - 1;
            sim::sink = deadly;
        }
        if (d) {
            Decomp f = *d;
            for (size_t k = 0; k < f.part.size(); ++k)
                f.part[k] = k % f.nparts;
            err = split(b, f, 1, Env(), dir, x);
        } else
            err = serial(b, Env(), dir, x);
        sim::sink = g_sink;
        g_kill    = 0;
        *ended    = err.empty();  // it may fail; what it leaves must not matter
    }
    std::string err = d ? split(c, *d, threads, e, dir, o.recs) : serial(c, e, dir, o.recs);
    if (!err.empty())
        return err;
    collect(dir, "", o.files);
    return "";
}
// empty, or the first difference of b from a; extra files of b are from an earlier run
static std::string differ(const Outcome& a, const Outcome& b, bool extra) {
    if (a.recs.size() != b.recs.size())
        return fmt("%zu states instead of %zu", b.recs.size(), a.recs.size());
    for (size_t i = 0; i < a.recs.size(); ++i) {
        auto &x = a.recs[i], &y = b.recs[i];
        if (x.step != y.step || x.id != y.id || x.wet != y.wet || x.q.size() != y.q.size() || memcmp(&x.t, &y.t, 8))
            return fmt("state %zu is of another element, step or kind", i);
        for (size_t k = 0; k < x.q.size(); ++k)
            if (memcmp(&x.q[k], &y.q[k], 8) && !(x.q[k] == 0 && y.q[k] == 0))
                return fmt("element %u step %u coefficient %zu: %.17g or %.17g", x.id, x.step, k, x.q[k], y.q[k]);
    }
    for (auto& f : a.files) {
        auto it = b.files.find(f.first);
        if (it == b.files.end())
            return "file " + f.first + " is missing";
        if (it->second != f.second) {
            size_t k = 0;
            while (k < f.second.size() && k < it->second.size() && f.second[k] == it->second[k])
                ++k;
            size_t s = k < 20 ? 0 : k - 20;
            return "file " + f.first + fmt(" differs at byte %zu: '", k) + f.second.substr(s, 60) + "' or '" + it->second.substr(s, 60) + "'";
        }
    }
    if (!extra)
        for (auto& f : b.files)
            if (!a.files.count(f.first))
                return "file " + f.first + " appears";
    return "";
}

static void explore(mcl::Worker& w, const Config& c0, const Decomp* d, int threads) {
    Config c     = c0;
    c.run.output = "  path: " + w.scratch + "/out/\n  logfile:\n    name: run.log\n    verbose: true\n" + fmt("  vtk:\n    frequency: %.17g\n", c.run.dt) +
                   fmt("  vtu:\n    frequency: %.17g\n", c.run.dt) + fmt("  modal:\n    frequency: %.17g\n", c.run.dt);
    Outcome base;
    bool ended = true;
    std::string what = d ? " (" + d->str() + fmt(", threads %d)", threads) : " (serial)";
    std::string err  = perform(c, d, threads, Env(), w.scratch, base, &ended);
    if (!err.empty()) {
        w.violation("run:" + c.name, err + what, "--job " + w.job);
        return;
    }
    if (getenv("MC_VERBOSE"))
        for (auto& f : base.files)
            fprintf(stderr, "    %s %zu\n", f.first.c_str(), f.second.size());
    w.st.add("runs");
    bool th = w.opt.thorough();
    std::vector<int> heaps{0, 0x01, 0xff, 0x7f};
    if (th)
        heaps = {0, 0x01, 0xff, 0x7f, 0x80, 0x40, 0xc0, 0x55, 0xaa, 0xfe};
    uint64_t envs = 0;
    const int ne = c.mesh.elems.size();
    // an earlier run is killed in every step it makes; thoroughly: with every state
    const int last = 1 + (c.run.nsteps + 3) * ne, by = th ? 1 : ne;
    for (int left = 0; left <= last; left += left < 2 ? 1 : by)
        for (int loc = 0; loc < 2; ++loc)
            for (int h : heaps)
                for (int sh = 0; sh < 2; ++sh) {
                    if (sh && !th && (left || !loc))
                        continue;
                    if (left > 1 && (loc || sh || h))
                        continue;
                    if (w.expired()) {
                        w.st.capped.push_back("time budget: " + c.name);
                        return;
                    }
                    Env e;
                    e.locals = loc;
                    e.heap   = h;
                    e.shift  = sh;
                    e.left   = left;
                    Outcome o;
                    err = perform(c, d, threads, e, w.scratch, o, &ended);
                    w.st.add("earlier_runs_cut_short", !ended);
                    if (err.empty())
                        err = differ(base, o, left);
                    w.st.add("runs");
                    w.st.add("transitions");
                    w.st.add("states", o.recs.size());
                    w.st.add("files_compared", base.files.size());
                    ++envs;
                    if (!err.empty()) {
                        w.violation((d ? "split:" : "serial:") + c.name, err + what + " [" + e.str() + "]", "--job " + w.job);
                        clear(w.scratch);
                        return;
                    }
                }
    w.st.add("traces_compared", envs);
    w.st.sample(c.name + what + fmt(": %zu states and %zu files the same in %llu surroundings", base.recs.size(), base.files.size(), (unsigned long long)envs));
    clear(w.scratch);
}

int main(int argc, char** argv) {
    mcl::Options o = mcl::parse(argc, argv);
    bool th        = o.thorough();
    std::vector<mcl::Job> jobs;
    auto add = [&](const std::string& name) {
        Config c = make(name);
        jobs.push_back({name + "/serial", [=](mcl::Worker& w) { explore(w, c, nullptr, 1); }});
        // split: three submeshes on two processes with two threads, two on one, one element each
        size_t n = c.mesh.elems.size();
        for (int k = 0; k < (th ? 3 : 2); ++k) {
            Decomp d;
            d.nparts = std::min<size_t>(k == 0 ? 3 : k == 1 ? 2 : 4, n);
            d.nnodes = k == 1 ? 1 : 2;
            for (size_t i = 0; i < n; ++i)
                d.part.push_back(i * d.nparts / n);
            for (int i = 0; i < d.nparts; ++i)
                d.node.push_back(i % d.nnodes);
            jobs.push_back({name + fmt("/split%d", k), [=](mcl::Worker& w) { explore(w, c, &d, k == 1 ? 2 : 1 + (d.nparts > 2)); }});
        }
    };
    for (const char* n : {"pair/rkdg/1/bc", "fan/rkdg/2/bc/ids/ramp", "fan/rkdg/1/bc2/sl/osc/rk3", "fan/rkdg/1/bc2/wd/rk3", "fan/rkdg/1/bc/sph/rk3", "fan/rkdg/3/bc/rk45",
                          "strip3/rkdg/1/bc/man", "fan/rkdg/1/bc/wind/rot/ids", "strip3/rkdg/1/bc2/sl/wd", "levee1/rkdg/1", "levee1/rkdg/2/osc", "levee1/rkdg/1/wd/sl", "ring/rkdg/1/bc",
                          "fan/rkdg/1/bc/cw/osc", "pair/ehdg/2/bc", "fan/ehdg/1/bc/ids/ramp", "fan/ehdg/2/bc2/rk3", "fan/ehdg/1/wd/rk3", "fan/ehdg/1/bc/sl/osc", "strip3/ehdg/1/bc3/wd",
                          "fan/ehdg/1/bc/wind/rot/wd", "pair/ihdg/1/bc", "fan/ihdg/1/bc/ids/ramp", "fan/ihdg/2/bc", "fan/ihdg/1/bc/sl/osc/rk1", "fan/ihdg/1/bc/cw/osc", "strip3/ihdg/1/bc/man",
                          "fan/ihdg/1/bc/rot", "pair/gn/1/bc", "fan/gn/1/bc/ids/ramp", "fan/gn/2/bc2", "fan/gn/3", "fan/gn/1/bc/cw/osc", "fan/gn/1/bc2/wd/rk3", "fan/gn/2/buf", "strip3/gn/1/bc2/sl/osc",
                          "strip3/gn/1/bc/wd/sl/buf", "strip3/gn/1/shock", "fan/gn/1/wind/rot"})
        add(n);
    if (th)
        for (const char* n : {"grid22/rkdg/1/bc/ids/sl/osc", "grid22/rkdg/1/bc2/wd", "grid22/rkdg/2/bc", "grid22/ehdg/1/wd", "levee2/rkdg/1/osc/wd", "levee2/rkdg/1/osc/sl", "fan/ehdg/3/bc/rk45", "fan/ihdg/3/bc",
                              "ring/ihdg/1/bc", "grid22/gn/1/bc/ids", "grid22/gn/2/bc2/wd", "ring/gn/1/bc", "strip4/gn/1/bc/wd/sl/osc", "strip4/rkdg/1/bc/sl/wd/osc"})
            add(n);
    mcl::Report rep;
    rep.states_counter      = "states";
    rep.transitions_counter = "transitions";
    rep.validated_counter   = "traces_compared";
    return mcl::run_jobs(o, jobs, rep);
}
