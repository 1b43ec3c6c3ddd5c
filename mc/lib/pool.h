// Job pool, result bookkeeping, evidence and violation reports shared by all drivers.
#ifndef MC_POOL_H
#define MC_POOL_H
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace mcl {
struct Violation {
    std::string prop;    // property id
    std::string key;     // identifies call site / input class (known findings are matched on it)
    std::string msg;     // human readable
    std::string replay;  // arguments that reproduce it with this driver
};

struct Stats {
    std::map<std::string, uint64_t> count;           // additive counters
    std::map<std::string, std::set<std::string>> distinct;  // distinct observed values (hashed)
    std::vector<std::string> samples;
    std::vector<std::string> capped;                 // bounds that were cut
    std::vector<Violation> viol;
    std::vector<std::string> errors;                 // internal errors of the machinery
    void add(const std::string& k, uint64_t n = 1) { count[k] += n; }
    void seen(const std::string& k, const std::string& v) { distinct[k].insert(v); }
    void seen(const std::string& k, uint64_t v) { distinct[k].insert(std::to_string(v)); }
    void sample(const std::string& s, size_t max = 4) {
        if (samples.size() < max)
            samples.push_back(s);
    }
};

struct Options {
    std::string prop;
    std::string tier = "quick";
    int seed         = 1;
    int workers      = 8;
    double budget    = 600;  // seconds of exploration before capping
    std::string verif;       // /verif
    std::string driver;      // name used in replay lines
    std::vector<std::string> rest;
    bool thorough() const { return tier == "thorough"; }
};
Options parse(int argc, char** argv);

struct Worker {
    Options opt;
    Stats st;
    std::string scratch;  // private directory of this worker
    double deadline;
    std::string job;      // current job name
    bool expired() const;
    // records a violation (at most a few per key)
    void violation(const std::string& key, const std::string& msg, const std::string& replay_args);
};

struct Job {
    std::string name;
    std::function<void(Worker&)> run;
};

// runs all jobs on opt.workers processes (or only those selected with --job), merges
// the statistics, writes the evidence file, prints violations; returns the exit code
struct Report {
    std::string level = "model_checking";
    std::string states_counter, transitions_counter, validated_counter;
    std::vector<std::string> assumptions;
    std::map<std::string, std::string> notes;  // extra coverage text
};
int run_jobs(const Options& opt, const std::vector<Job>& jobs, const Report& rep);

double now();
uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t fnv(const std::string& s) { return fnv(s.data(), s.size()); }
std::string read_file(const std::string&);
void write_file(const std::string&, const std::string&);
void wipe_dir(const std::string&);   // removes the plain files of a directory we created
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
}
#endif
