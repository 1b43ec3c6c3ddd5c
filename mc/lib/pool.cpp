#include "pool.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fstream>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mcl {
double now() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}
uint64_t fnv(const void* p, size_t n, uint64_t h) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i)
        h = (h ^ c[i]) * 1099511628211ull;
    return h;
}
std::string read_file(const std::string& f) {
    std::ifstream in(f, std::ios::binary);
    std::stringstream s;
    s << in.rdbuf();
    return s.str();
}
void write_file(const std::string& f, const std::string& c) {
    std::ofstream o(f, std::ios::binary | std::ios::trunc);
    o << c;
}
std::string fmt(const char* f, ...) {
    char b[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
void wipe_dir(const std::string& d) {
    DIR* dp = opendir(d.c_str());
    if (!dp)
        return;
    std::vector<std::string> names;
    while (dirent* e = readdir(dp))
        names.push_back(e->d_name);
    closedir(dp);
    for (auto& n : names) {
        if (n == "." || n == "..")
            continue;
        std::string f = d + "/" + n;
        struct stat st;
        if (lstat(f.c_str(), &st))
            continue;
        if (S_ISDIR(st.st_mode)) {
            wipe_dir(f);
            rmdir(f.c_str());
        } else
            unlink(f.c_str());
    }
}

Options parse(int argc, char** argv) {
    Options o;
    const char* t = getenv("VERIF_TIER");
    if (t && *t)
        o.tier = t;
    const char* s = getenv("VERIF_SEED");
    if (s && *s)
        o.seed = atoi(s);
    const char* v = getenv("MC_VERIF");
    o.verif       = v ? v : "/verif";
    const char* b = getenv("MC_BUDGET");
    o.budget      = b ? atof(b) : (o.tier == "thorough" ? 3000 : 420);
    const char* w = getenv("MC_WORKERS");
    long ncpu     = sysconf(_SC_NPROCESSORS_ONLN);
    o.workers     = w ? atoi(w) : (int)std::max(1l, std::min(8l, ncpu));
    std::string a0 = argv[0];
    o.driver      = a0.substr(a0.find_last_of('/') + 1);
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--prop" && i + 1 < argc)
            o.prop = argv[++i];
        else if (a == "--tier" && i + 1 < argc)
            o.tier = argv[++i];
        else
            o.rest.push_back(a);
    }
    return o;
}

bool Worker::expired() const { return now() > deadline; }

void Worker::violation(const std::string& key, const std::string& msg, const std::string& args) {
    st.add("violations");
    int same = 0;
    for (auto& v : st.viol)
        if (v.key == key)
            ++same;
    if (same >= 3)
        return;
    st.viol.push_back({opt.prop, key, "[" + job + "] " + msg, args});
}

static std::string esc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
        } else if (c == '\n')
            r += "\\n";
        else if (c < 32 || c > 126)
            r += fmt("\\u%04x", c);
        else
            r += c;
    }
    return r;
}

// length-prefixed serialisation between worker and parent
static void put(std::string& o, const std::string& s) { o += std::to_string(s.size()) + ":" + s; }
static std::string get(const std::string& s, size_t& p) {
    size_t c = s.find(':', p);
    if (c == std::string::npos)
        throw std::runtime_error("short worker result");
    size_t n = std::stoull(s.substr(p, c - p));
    std::string r = s.substr(c + 1, n);
    p             = c + 1 + n;
    return r;
}
static std::string dump(const Stats& t) {
    std::string o;
    auto num = [&](size_t n) { put(o, std::to_string(n)); };
    num(t.count.size());
    for (auto& k : t.count) {
        put(o, k.first);
        num(k.second);
    }
    num(t.distinct.size());
    for (auto& k : t.distinct) {
        put(o, k.first);
        num(k.second.size());
        for (auto& v : k.second)
            put(o, v);
    }
    num(t.samples.size());
    for (auto& s : t.samples)
        put(o, s);
    num(t.capped.size());
    for (auto& s : t.capped)
        put(o, s);
    num(t.viol.size());
    for (auto& v : t.viol) {
        put(o, v.prop);
        put(o, v.key);
        put(o, v.msg);
        put(o, v.replay);
    }
    num(t.errors.size());
    for (auto& s : t.errors)
        put(o, s);
    put(o, "end");
    return o;
}
static void merge(Stats& t, const std::string& s) {
    size_t p = 0;
    auto num = [&]() { return (size_t)std::stoull(get(s, p)); };
    for (size_t n = num(); n--;) {
        std::string k = get(s, p);
        t.count[k] += num();
    }
    for (size_t n = num(); n--;) {
        std::string k = get(s, p);
        for (size_t m = num(); m--;)
            t.distinct[k].insert(get(s, p));
    }
    for (size_t n = num(); n--;) {
        std::string v = get(s, p);
        t.samples.push_back(v);
    }
    for (size_t n = num(); n--;)
        t.capped.push_back(get(s, p));
    for (size_t n = num(); n--;) {
        Violation v;
        v.prop   = get(s, p);
        v.key    = get(s, p);
        v.msg    = get(s, p);
        v.replay = get(s, p);
        t.viol.push_back(v);
    }
    for (size_t n = num(); n--;)
        t.errors.push_back(get(s, p));
    if (get(s, p) != "end")
        throw std::runtime_error("bad worker result");
}

struct Known {
    std::string prop, key, text;
};
static std::vector<Known> known(const Options& o) {
    std::vector<Known> r;
    std::ifstream in(o.verif + "/known_findings.txt");
    std::string l;
    while (std::getline(in, l)) {
        // finding: property=P01 key=<key> <text>
        if (l.compare(0, 8, "finding:"))
            continue;
        std::istringstream ls(l.substr(8));
        Known k;
        std::string a, b;
        ls >> a >> b;
        if (a.compare(0, 9, "property=") || b.compare(0, 4, "key="))
            continue;
        k.prop = a.substr(9);
        k.key  = b.substr(4);
        std::getline(ls, k.text);
        r.push_back(k);
    }
    return r;
}

int run_jobs(const Options& opt, const std::vector<Job>& all, const Report& rep) {
    double t0 = now();
    std::vector<const Job*> jobs;
    std::string only;
    for (size_t i = 0; i + 1 < opt.rest.size(); ++i)
        if (opt.rest[i] == "--job")
            only = opt.rest[i + 1];
    for (size_t i = 0; i < opt.rest.size(); ++i)
        if (opt.rest[i] == "--list") {
            for (auto& j : all)
                printf("%s\n", j.name.c_str());
            return 0;
        }
    for (auto& j : all)
        if (only.empty() || j.name == only)
            jobs.push_back(&j);
    const char* td = getenv("TMPDIR");
    std::string base = std::string(td && *td ? td : "/tmp") + "/mc_" + opt.prop + "_" + std::to_string(getpid());
    mkdir(base.c_str(), 0700);
    auto* next = (std::atomic<uint32_t>*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    next->store(0);
    auto* current = (std::atomic<int>*)((char*)next + 64);
    int W = std::max(1, std::min<int>(opt.workers, (int)jobs.size()));
    std::vector<pid_t> pid(W);
    fflush(stdout);
    for (int w = 0; w < W; ++w) {
        current[w] = -1;
        pid[w]     = fork();
        if (pid[w] == 0) {
            Worker k;
            k.opt      = opt;
            k.scratch  = base + "/w" + std::to_string(w);
            k.deadline = t0 + opt.budget;
            mkdir(k.scratch.c_str(), 0700);
            uint32_t done = 0;
            for (;;) {
                uint32_t j = next->fetch_add(1);
                if (j >= jobs.size())
                    break;
                current[w] = (int)j;
                k.job      = jobs[j]->name;
                if (k.expired()) {
                    k.st.capped.push_back("time budget reached before job " + k.job);
                    continue;
                }
                try {
                    double tj = now();
                    jobs[j]->run(k);
                    if (getenv("MC_TIMES"))
                        fprintf(stderr, "%8.2f s  %s\n", now() - tj, k.job.c_str());
                    ++done;
                } catch (std::exception& e) {
                    k.st.errors.push_back("job " + k.job + ": " + e.what());
                }
            }
            k.st.add("jobs", done);
            write_file(base + "/r" + std::to_string(w), dump(k.st));
            fflush(stdout);
            _exit(0);
        }
    }
    Stats total;
    for (int w = 0; w < W; ++w) {
        int st = 0;
        while (waitpid(pid[w], &st, 0) < 0 && errno == EINTR) {
        }
        std::string r = read_file(base + "/r" + std::to_string(w));
        if (!WIFEXITED(st) || WEXITSTATUS(st) || r.empty()) {
            int j = current[w];
            total.errors.push_back("worker died (status " + std::to_string(st) + ") in job " +
                                   (j >= 0 ? jobs[j]->name : std::string("?")));
            continue;
        }
        merge(total, r);
    }
    wipe_dir(base);
    rmdir(base.c_str());

    // classify
    auto kf = known(opt);
    std::vector<Violation> fresh;
    std::map<std::string, std::string> hit;
    for (auto& v : total.viol) {
        bool k = false;
        for (auto& f : kf)
            if (f.prop == opt.prop && f.key == v.key) {
                k          = true;
                hit[f.key] = f.text;
            }
        if (!k)
            fresh.push_back(v);
    }
    for (auto& h : hit)
        printf("KNOWN-FINDING: property=%s key=%s%s\n", opt.prop.c_str(), h.first.c_str(), h.second.c_str());
    std::map<std::string, int> per_key;
    int printed = 0;
    mkdir((opt.verif + "/evidence").c_str(), 0755);
    mkdir((opt.verif + "/evidence/replay").c_str(), 0755);
    for (auto& v : fresh) {
        if (per_key[v.key]++ >= 1 || printed >= 12)
            continue;
        ++printed;
        std::string path = opt.verif + "/evidence/replay/" + opt.prop + "_" + fmt("%016llx", (unsigned long long)fnv(v.key)) + ".txt";
        write_file(path, "property: " + opt.prop + "\nkey: " + v.key + "\nmessage: " + v.msg + "\nreplay: " + opt.verif +
                             "/bin/check " + opt.prop + " -- " + v.replay + "\n");
        printf("VIOLATION property=%s replay=%s\n", opt.prop.c_str(), path.c_str());
        printf("  key: %s\n  %s\n", v.key.c_str(), v.msg.substr(0, 1500).c_str());
    }
    double wall = now() - t0;
    // evidence
    std::ostringstream e;
    auto cnt = [&](const std::string& k) -> uint64_t {
        auto d = total.distinct.find(k);
        if (d != total.distinct.end())
            return d->second.size();
        auto c = total.count.find(k);
        return c == total.count.end() ? 0 : c->second;
    };
    e << "{\n  \"property\": \"" << opt.prop << "\",\n  \"tier\": \"" << opt.tier << "\",\n  \"seed\": " << opt.seed
      << ",\n  \"level\": \"" << rep.level << "\",\n  \"coverage\": {\n";
    e << "    \"states\": " << cnt(rep.states_counter) << ",\n    \"transitions\": " << cnt(rep.transitions_counter)
      << ",\n    \"traces_validated_against_impl\": " << cnt(rep.validated_counter) << ",\n";
    e << "    \"jobs_planned\": " << jobs.size() << ",\n";
    for (auto& c : total.count)
        e << "    \"n_" << esc(c.first) << "\": " << c.second << ",\n";
    for (auto& c : total.distinct)
        e << "    \"distinct_" << esc(c.first) << "\": " << c.second.size() << ",\n";
    for (auto& c : rep.notes)
        e << "    \"" << esc(c.first) << "\": \"" << esc(c.second) << "\",\n";
    e << "    \"capped\": [";
    for (size_t i = 0; i < total.capped.size() && i < 20; ++i)
        e << (i ? ", " : "") << '"' << esc(total.capped[i]) << '"';
    e << "],\n    \"samples\": [";
    for (size_t i = 0; i < total.samples.size() && i < 8; ++i)
        e << (i ? ", " : "") << '"' << esc(total.samples[i].substr(0, 1500)) << '"';
    e << "],\n    \"exhaustive\": " << (total.capped.empty() && total.errors.empty() && only.empty() ? "true" : "false") << "\n  },\n";
    e << "  \"assumptions\": [";
    for (size_t i = 0; i < rep.assumptions.size(); ++i)
        e << (i ? ", " : "") << '"' << esc(rep.assumptions[i]) << '"';
    e << "],\n  \"wall_s\": " << fmt("%.3f", wall) << ",\n  \"violations\": " << fresh.size() << "\n}\n";
    if (only.empty())
        write_file(opt.verif + "/evidence/" + opt.prop + ".json", e.str());
    printf("%s %s: jobs %zu, states %llu, transitions %llu, validated %llu, violations %zu, known %zu, %.1f s%s\n",
           opt.prop.c_str(), opt.tier.c_str(), jobs.size(), (unsigned long long)cnt(rep.states_counter),
           (unsigned long long)cnt(rep.transitions_counter), (unsigned long long)cnt(rep.validated_counter), fresh.size(),
           hit.size(), wall, total.capped.empty() ? "" : " (capped)");
    if (getenv("MC_VERBOSE")) {
        for (auto& c : total.count)
            printf("  %s = %llu\n", c.first.c_str(), (unsigned long long)c.second);
        for (auto& c : total.distinct)
            printf("  distinct %s = %zu\n", c.first.c_str(), c.second.size());
        for (auto& c : total.capped)
            printf("  capped: %s\n", c.c_str());
    }
    for (size_t i = 0; i < total.errors.size() && i < 10; ++i)
        fprintf(stderr, "ERROR: %s\n", total.errors[i].c_str());
    if (!fresh.empty())
        return 1;
    if (!total.errors.empty())
        return 2;
    return 0;
}
}
