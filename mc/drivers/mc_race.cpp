// P02: every interleaving within the bound gives the same result, without deadlock,
// communication misuse or data race.
#include "../lib/par.h"
#include <cstdio>
#include <cstring>
#include <stdexcept>
using namespace par;
using mcl::fmt;

struct Scenario {
    std::string cfg, decomp;
    int threads;
    bool rendezvous;
    int policy;
    int k;      // deviations from the default schedule
    int chunks;
    std::string name() const {
        return cfg + "|" + decomp + fmt("|t%d%s,policy%d,k%d", threads, rendezvous ? ",rendezvous" : ",eager", policy, k);
    }
};

static EntryFn entry(const std::string& s) { 
    return s == "gn" ? mc_gn_ompi : s == "ihdg_swe" ? mc_ihdg_ompi : s == "ehdg_swe" ? mc_ehdg_ompi : mc_rkdg_ompi;
}

static std::string devstr(const std::vector<mc::Deviation>& d) {
    std::string s;
    for (auto& x : d)
        s += fmt("%s%u:%d", s.empty() ? "" : ",", x.at, x.take);
    return s.empty() ? "-" : s;
}

struct Run1 {
    mc::ExecResult r;
    std::string digest;
};

static Run1 once(mcl::Worker& w, const Config& c, const Scenario& s, int nranks, const std::vector<mc::Deviation>& dev,
                 const std::vector<sim::Rec>& ref, const std::string& want) {
    mc::ExecConfig ec;
    ec.nranks     = nranks;
    ec.nthreads   = s.threads;
    ec.rendezvous = s.rendezvous;
    ec.policy     = s.policy;
    ec.dev        = dev;
    Run1 o;
    o.r = run_parallel(c, entry(c.run.scheme), ec, w.scratch);
    w.st.add("schedules");
    w.st.add("transitions", o.r.nsched);
    std::string rp = fmt("--scenario '%s' --dev %s", s.name().c_str(), devstr(dev).c_str());
    if (o.r.status == mc::Status::Internal)
        throw std::runtime_error("executor: " + o.r.msg + " at " + s.name() + " " + devstr(dev));
    if (o.r.status != mc::Status::Ok) {
        w.violation(std::string(mc::status_name(o.r.status)) + ":" + s.cfg, o.r.msg + " (" + s.name() + ", schedule " + devstr(dev) + ")", rp);
        return o;
    }
    std::string err;
    auto recs = gather(o.r);
    o.digest  = sim::encode(recs);
    double d  = compare(ref, recs, err);
    if (!(d <= 1e-9))
        w.violation("wrong-result:" + s.cfg, err + " (" + s.name() + ", schedule " + devstr(dev) + ")", rp);
    else if (!want.empty() && want != o.digest) {
        std::string e2;
        w.violation("timing-dependent:" + s.cfg, "result differs in the last digits between schedules (" + s.name() + ", schedule " + devstr(dev) + ")", rp);
    }
    w.st.add("runs_compared");
    w.st.seen("final_states", s.cfg + s.decomp + std::to_string(mcl::fnv(o.digest)));
    std::string tr;
    for (auto& p : o.r.trace)
        tr += fmt("%d.", p.chosen);
    w.st.seen("distinct_schedules", s.name() + std::to_string(mcl::fnv(tr)));
    return o;
}

static void explore(mcl::Worker& w, const Scenario& s, int chunk) {
    Config c = make(s.cfg);
    Decomp d = Decomp::parse(s.decomp);
    mcl::wipe_dir(w.scratch);
    std::vector<sim::Rec> ref;
    std::string e = run_serial(c, w.scratch, ref);
    if (e.empty())
        e = run_partitioner(c, d, w.scratch);
    if (!e.empty()) {
        w.violation("setup:" + s.cfg, e, "--scenario '" + s.name() + "'");
        return;
    }
    auto root = once(w, c, s, d.nranks(), {}, ref, "");
    if (root.digest.empty())
        return;
    if (chunk == 0)
        w.st.sample(s.name() + fmt(": default schedule has %zu choice points, %lu scheduling points", root.r.trace.size(),
                                   (unsigned long)root.r.nsched));
    w.st.add("choice_points", chunk == 0 ? root.r.trace.size() : 0);
    struct Node {
        std::vector<mc::Deviation> dev;
    };
    // depth first over all deviation sequences of length <= k
    std::vector<Node> stack;
    auto expand = [&](const std::vector<mc::Deviation>& dev, const mc::ExecResult& r, bool first) {
        if ((int)dev.size() >= s.k)
            return;
        size_t from = dev.empty() ? 0 : dev.back().at + 1;
        for (size_t i = from; i < r.trace.size(); ++i) {
            if (first && (int)(i % s.chunks) != chunk)
                continue;
            const auto& p = r.trace[i];
            for (int t = 0; t < mc::MAXTASK; ++t)
                if ((p.enabled >> t & 1u) && t != p.chosen) {
                    Node n{dev};
                    n.dev.push_back({(uint32_t)i, (int16_t)t});
                    stack.push_back(n);
                }
        }
    };
    expand({}, root.r, true);
    while (!stack.empty()) {
        if (w.expired()) {
            w.st.capped.push_back(fmt("time budget: %s, %zu schedules left on the stack", s.name().c_str(), stack.size()));
            return;
        }
        Node n = stack.back();
        stack.pop_back();
        auto r = once(w, c, s, d.nranks(), n.dev, ref, root.digest);
        if (r.digest.empty() || w.st.viol.size() > 12)
            return;
        expand(n.dev, r.r, false);
    }
}

int main(int argc, char** argv) {
    mcl::Options o = mcl::parse(argc, argv);
    bool th        = o.thorough();
    std::string scen, dev;
    for (size_t i = 0; i + 1 < o.rest.size(); ++i) {
        if (o.rest[i] == "--scenario")
            scen = o.rest[i + 1];
        if (o.rest[i] == "--dev")
            dev = o.rest[i + 1];
    }
    std::vector<Scenario> S;
    auto add = [&](const std::string& cfg, const std::string& d, int threads, int k, int chunks) {
        for (int rv = 0; rv < 2; ++rv)
            for (int pol = 0; pol < (th ? 3 : 2); ++pol)
                S.push_back({cfg, d, threads, rv == 1, pol, k + (th ? 1 : 0), th ? chunks * 8 : chunks});
    };
    // two ranks exchanging one and several faces; threads owning one or more submeshes;
    // several submeshes per rank (messages to oneself); wetting-drying and limiter exchanges
    add("pair/rkdg/1/bc/rk1/n1", "part=01,node=01,nnodes=2,rpl=1,bal=0", 1, 2, 1);
    add("fan/rkdg/1/bc/n1", "part=0123,node=0011,nnodes=2,rpl=1,bal=0", 2, 1, 2);
    add("fan/rkdg/1/bc/rk1/n2", "part=0122,node=000,nnodes=1,rpl=1,bal=0", 2, 2, 4);
    add("strip3/rkdg/1/bc/sl/osc/rk1/n1", "part=001122,node=012,nnodes=3,rpl=1,bal=0", 1, 1, 1);
    add("strip3/rkdg/1/bc/wd/sl/rk1/n2", "part=011223,node=0011,nnodes=2,rpl=1,bal=0", 2, 1, 2);
    add("fan/ehdg/1/bc/n1", "part=0123,node=0011,nnodes=2,rpl=1,bal=0", 2, 1, 2);
    add("fan/ehdg/1/bc/sl/n1/rk1", "part=0122,node=000,nnodes=1,rpl=1,bal=0", 3, 1, 2);
    add("fan/rkdg/1/bc/n1/rk1", "part=0123,node=0000,nnodes=1,rpl=2,bal=0", 2, 1, 2);
    add("fan/rkdg/1/wind/n2/rk1", "part=0123,node=0011,nnodes=2,rpl=1,bal=0", 2, 1, 2);
    // schemes with a problem that couples all submeshes: collective calls next to the messages
    add("pair/ihdg/1/rk1/n1", "part=01,node=01,nnodes=2,rpl=1,bal=0", 1, 1, 1);
    add("fan/ihdg/1/rk1/n1", "part=0123,node=0011,nnodes=2,rpl=1,bal=0", 2, 1, 4);
    add("fan/gn/1/bc/rk1/n1", "part=0123,node=0011,nnodes=2,rpl=1,bal=0", 2, 1, 4);
    add("strip3/gn/1/bc/wd/sl/rk1/n1", "part=011223,node=0011,nnodes=2,rpl=1,bal=0", 2, 1, 8);
    if (!scen.empty()) {
        std::vector<mc::Deviation> dv;
        size_t b = 0;
        while (dev != "-" && b < dev.size()) {
            size_t e = dev.find(',', b);
            if (e == std::string::npos)
                e = dev.size();
            unsigned at;
            int take;
            if (sscanf(dev.substr(b, e - b).c_str(), "%u:%d", &at, &take) == 2)
                dv.push_back({at, (int16_t)take});
            b = e + 1;
        }
        for (auto& s : S)
            if (s.name() == scen)
                return mcl::run_jobs(o, {{"replay", [=](mcl::Worker& w) {
                                              Config c = make(s.cfg);
                                              Decomp d = Decomp::parse(s.decomp);
                                              std::vector<sim::Rec> ref;
                                              run_serial(c, w.scratch, ref);
                                              run_partitioner(c, d, w.scratch);
                                              auto base = once(w, c, s, d.nranks(), {}, ref, "");
                                              once(w, c, s, d.nranks(), dv, ref, base.digest);
                                          }}},
                                     {});
        fprintf(stderr, "unknown scenario\n");
        return 2;
    }
    std::vector<mcl::Job> jobs;
    for (auto& s : S)
        for (int c = 0; c < s.chunks; ++c)
            jobs.push_back({s.name() + fmt("#%d", c), [=](mcl::Worker& w) { explore(w, s, c); }});
    mcl::Report rep;
    rep.states_counter      = "distinct_schedules";
    rep.transitions_counter = "transitions";
    rep.validated_counter   = "runs_compared";
    rep.notes["bound"]      = "all schedules with at most k deviations from each default policy (k in the job names)";
    return mcl::run_jobs(o, jobs, rep);
}
