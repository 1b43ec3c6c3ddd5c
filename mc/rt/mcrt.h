// Model-checking runtime: controlled execution of MPI ranks (processes) and
// OpenMP threads (pthreads) of the code under test.
//
//  * every rank is a forked process, every OpenMP thread a pthread of it, and
//    exactly one of them runs at a time; all synchronisation state lives in one
//    shared-memory arena, so the runner that holds the token can decide which
//    other task is enabled;
//  * every MPI call, barrier, critical section, fork and join is a scheduling
//    point; the sequence of choices is recorded and can be replayed;
//  * message semantics follow the MPI standard: matching in posting order per
//    (source, destination, tag), eager or rendezvous sends, send buffers must
//    not change while a send is active, receive buffers are poisoned from Start
//    to completion, starting an active request is an error;
//  * deadlock = no enabled task; crash, abort, uncaught exception, unreceived
//    messages and requests left active at the end are reported as violations;
//  * with the -fsanitize=thread instrumentation hooks linked in, unsynchronised
//    conflicting accesses of two threads of a rank are detected by vector
//    clocks on every explored execution.
#ifndef MCRT_H
#define MCRT_H
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>

namespace mc {
constexpr int MAXR  = 8;   // ranks
constexpr int MAXT  = 4;   // threads per rank
constexpr int MAXTASK = MAXR * MAXT;

enum class Status { Ok, Deadlock, Crash, Misuse, Race, Timeout, Internal };
const char* status_name(Status);

struct ChoicePoint {
    uint32_t enabled;  // mask of enabled tasks (or number of alternatives for env choices)
    int16_t dflt;      // what the default policy would take
    int16_t chosen;
    int16_t cur;       // task that ran before
    int16_t kind;      // operation kind
};

struct Deviation {
    uint32_t at;    // index of the choice point
    int16_t take;   // task / alternative to take there
};

struct ExecConfig {
    int nranks    = 1;
    int nthreads  = 1;
    bool rendezvous = false;  // sends complete only once matched
    int policy    = 0;        // default policy: 0 stay/lowest, 1 stay/highest, 2 round robin
    std::vector<Deviation> dev;
    double timeout = 60.;
};

struct ExecResult {
    Status status = Status::Ok;
    std::string msg;
    std::vector<ChoicePoint> trace;
    std::vector<std::string> payload;  // per rank
    uint64_t nsched = 0;               // scheduling points passed (transitions)
};

// scratch: directory for stderr capture
ExecResult execute(const ExecConfig& cfg, const std::function<void(int)>& rank_main, const std::string& scratch);

// to be called inside rank processes
void put_payload(const void* p, size_t n);
[[noreturn]] void misuse(const std::string& what);
[[noreturn]] void race_report(const std::string& what);
bool under_control();
int cur_tid();
int cur_team_size();

// plain child process: runs f, captures payload/exit status (no scheduling)
struct ChildResult {
    bool ok = false;       // exited normally with 0
    int exit_code = -1;
    int signal = 0;
    bool threw = false;
    std::string what;      // exception text or stderr tail
    std::string payload;
};
ChildResult run_child(const std::function<void()>& f, const std::string& scratch, double timeout = 60.);

// METIS answers: queue of partition vectors handed out by METIS_PartGraph*
void metis_script(const std::vector<std::vector<int64_t>>& answers);
int metis_calls();

// race detector support
uint32_t* task_clock();   // vector clock of the running task (MAXTASK entries), nullptr if inactive
int task_index();
int task_base();          // index of thread 0 of this rank
}
#endif
