#include "mcrt.h"
#include "include/mpi.h"
#include "include/metis.h"

#include <atomic>
#include <cerrno>
#include <climits>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mc {
const char* status_name(Status s) {
    switch (s) {
        case Status::Ok: return "ok";
        case Status::Deadlock: return "deadlock";
        case Status::Crash: return "crash";
        case Status::Misuse: return "communication-misuse";
        case Status::Race: return "data-race";
        case Status::Timeout: return "no-progress";
        case Status::Internal: return "internal";
    }
    return "?";
}

enum Kind : int16_t { YIELD, WAIT_MSGS, COLL, TEAM_BARRIER, JOIN, LOCK, ENV };
constexpr int MAXWAIT   = 96;
constexpr int MAXCHAN   = 512;
constexpr int MAXMSG    = 16384;
constexpr int MAXLOG    = 1 << 15;
constexpr int MAXDEV    = 64;
constexpr int MAXCOLL   = 4096;
constexpr size_t HEAP   = size_t(40) << 20;
constexpr size_t PAYLOAD = size_t(1) << 23;

struct Msg {
    uint32_t next;  // index + 1 of next message on channel
    uint32_t bytes;
    uint64_t off;
    uint32_t vc[MAXTASK];
};
struct Chan {
    int src, dst, tag, comm;
    uint32_t nsent, nposted, nrecv;
    uint32_t first, last;  // msg index + 1
};
struct Pend {
    int16_t kind;
    int16_t n;
    uint32_t a, b;
    int32_t chan[MAXWAIT];
    uint32_t ticket[MAXWAIT];
    uint8_t isrecv[MAXWAIT];
};
struct Task {
    int used, done;
    Pend pend;
    std::atomic<uint32_t> wake;
    uint32_t vc[MAXTASK];
};
struct Team {
    uint32_t size, arrived, gen, finished;
    uint32_t vc[2][MAXTASK];
    uint32_t join_vc[MAXTASK];
    uint32_t lock_owner[16];  // task + 1
    uint32_t lock_vc[16][MAXTASK];
    uint32_t single_count;
};
struct Coll {
    int type, root, arrived;
    uint32_t bytes;
    uint64_t off[MAXR];
    uint32_t vc[MAXTASK];
};
struct Arena {
    int nranks, nthreads, rendezvous, policy;
    uint32_t ndev;
    Deviation dev[MAXDEV];
    Task task[MAXTASK];
    Team team[MAXR];
    Chan chan[MAXCHAN];
    uint32_t nchan;
    Msg msg[MAXMSG];
    uint32_t nmsg;
    Coll coll[MAXCOLL];
    uint32_t ncoll_rank[MAXR];
    uint64_t heap_used;
    uint32_t nlog, nchoice;
    uint64_t nsched;
    ChoicePoint log[MAXLOG];
    int status;
    char errmsg[2048];
    uint64_t pay_used[MAXR];
    char payload[MAXR][PAYLOAD];
    char heap[HEAP];
};

static Arena* A       = nullptr;
static bool in_rank   = false;
static int g_rank     = -1;
static thread_local int t_tid  = 0;
static thread_local bool t_inside = false;
static int g_team_size = 1;

bool under_control() { return in_rank; }
int cur_tid() { return t_tid; }
int cur_team_size() { return g_team_size; }
int task_index() { return g_rank * MAXT + t_tid; }
int task_base() { return g_rank * MAXT; }
uint32_t* task_clock() { return (A && in_rank) ? A->task[task_index()].vc : nullptr; }

static void futex_wait(std::atomic<uint32_t>* w) {
    while (w->load(std::memory_order_acquire) == 0) {
        syscall(SYS_futex, (uint32_t*)w, FUTEX_WAIT, 0, nullptr, nullptr, 0);
    }
    w->store(0, std::memory_order_release);
}
static void futex_wake(std::atomic<uint32_t>* w) {
    w->store(1, std::memory_order_release);
    syscall(SYS_futex, (uint32_t*)w, FUTEX_WAKE, 1, nullptr, nullptr, 0);
}

[[noreturn]] static void fail(Status s, const std::string& what) {
    if (A && A->status == 0) {
        A->status = (int)s;
        snprintf(A->errmsg, sizeof A->errmsg, "rank %d thread %d: %s", g_rank, t_tid, what.c_str());
    }
    _exit(77);
}
void misuse(const std::string& what) { fail(Status::Misuse, what); }
void race_report(const std::string& what) { fail(Status::Race, what); }

static void vc_join(uint32_t* a, const uint32_t* b) {
    for (int i = 0; i < MAXTASK; ++i)
        if (b[i] > a[i])
            a[i] = b[i];
}
static uint32_t* my_vc() { return A->task[task_index()].vc; }
static void vc_release(uint32_t* into) {
    vc_join(into, my_vc());
    ++my_vc()[task_index()];
}

static bool is_enabled(int t) {
    Task& k = A->task[t];
    if (!k.used || k.done)
        return false;
    Pend& p = k.pend;
    switch (p.kind) {
        case YIELD:
            return true;
        case WAIT_MSGS:
            for (int i = 0; i < p.n; ++i) {
                Chan& c = A->chan[p.chan[i]];
                if (p.isrecv[i]) {
                    if (c.nsent <= p.ticket[i])
                        return false;
                } else if (A->rendezvous) {
                    if (c.nposted <= p.ticket[i])
                        return false;
                }
            }
            return true;
        case COLL:
            return A->coll[p.a].arrived == A->nranks;
        case TEAM_BARRIER:
            return A->team[p.a].gen > p.b;
        case JOIN:
            return A->team[p.a].finished + 1 == A->team[p.a].size;
        case LOCK:
            return A->team[p.a].lock_owner[p.b] == 0;
    }
    return true;
}

static int next_choice(uint32_t mask, int dflt, int cur, int kind, int nalt) {
    int chosen   = dflt;
    uint32_t idx = A->nchoice++;
    for (uint32_t d = 0; d < A->ndev; ++d)
        if (A->dev[d].at == idx)
            chosen = A->dev[d].take;
    if (A->nlog < MAXLOG) {
        ChoicePoint& c = A->log[A->nlog++];
        c.enabled = mask;
        c.dflt    = dflt;
        c.chosen  = chosen;
        c.cur     = cur;
        c.kind    = kind;
    }
    if (nalt == 0 && !((mask >> chosen) & 1u))
        fail(Status::Internal, "schedule deviation names a disabled task");
    return chosen;
}

static std::string describe_blocked() {
    static const char* kn[] = {"ready", "message wait", "collective", "thread barrier", "join", "lock", "env"};
    std::string s;
    for (int t = 0; t < MAXTASK; ++t) {
        Task& k = A->task[t];
        if (!k.used || k.done)
            continue;
        s += " [rank " + std::to_string(t / MAXT) + " thread " + std::to_string(t % MAXT) + ": " + kn[k.pend.kind];
        if (k.pend.kind == WAIT_MSGS)
            for (int i = 0; i < k.pend.n; ++i) {
                Chan& c = A->chan[k.pend.chan[i]];
                bool ok = k.pend.isrecv[i] ? c.nsent > k.pend.ticket[i] : (!A->rendezvous || c.nposted > k.pend.ticket[i]);
                if (!ok)
                    s += (k.pend.isrecv[i] ? " recv " : " send ") + std::to_string(c.src) + "->" + std::to_string(c.dst) +
                         " tag " + std::to_string(c.tag) + " #" + std::to_string(k.pend.ticket[i]);
            }
        s += "]";
    }
    return s;
}

// pass the token on; returns when the calling task is scheduled again
static void dispatch(bool finished) {
    int me = task_index();
    ++A->nsched;
    if (A->nsched > 4000000)
        fail(Status::Timeout, "step limit reached (livelock)");
    uint32_t mask = 0;
    int cnt       = 0;
    for (int t = 0; t < MAXTASK; ++t)
        if (is_enabled(t)) {
            mask |= 1u << t;
            ++cnt;
        }
    if (!cnt) {
        bool all_done = true;
        for (int t = 0; t < MAXTASK; ++t)
            if (A->task[t].used && !A->task[t].done)
                all_done = false;
        if (all_done)
            return;
        fail(Status::Deadlock, "no task can make progress:" + describe_blocked());
    }
    int dflt = -1;
    if (A->policy != 2 && ((mask >> me) & 1u))
        dflt = me;
    else if (A->policy == 0) {
        dflt = __builtin_ctz(mask);
    } else if (A->policy == 1) {
        dflt = 31 - __builtin_clz(mask);
    } else {
        for (int i = 1; i <= MAXTASK; ++i)
            if ((mask >> ((me + i) % MAXTASK)) & 1u) {
                dflt = (me + i) % MAXTASK;
                break;
            }
    }
    int nxt = dflt;
    if (cnt > 1)
        nxt = next_choice(mask, dflt, me, A->task[me].pend.kind, 0);
    if (nxt != me) {
        Task& mine = A->task[me];
        futex_wake(&A->task[nxt].wake);
        if (!finished)
            futex_wait(&mine.wake);
    }
}

static void sched(int16_t kind, uint32_t a = 0, uint32_t b = 0) {
    Pend& p = A->task[task_index()].pend;
    p.kind  = kind;
    p.a     = a;
    p.b     = b;
    dispatch(false);
    A->task[task_index()].pend.kind = YIELD;
}

static int env_choose(int n) {
    if (n <= 1)
        return 0;
    return next_choice((uint32_t)n, 0, task_index(), ENV, n);
}

void put_payload(const void* p, size_t n) {
    if (!A || !in_rank)
        return;
    if (A->pay_used[g_rank] + n > PAYLOAD)
        fail(Status::Internal, "payload too large");
    memcpy(A->payload[g_rank] + A->pay_used[g_rank], p, n);
    A->pay_used[g_rank] += n;
}

static uint64_t heap_put(const void* p, size_t n) {
    uint64_t o = (A->heap_used + 15) & ~uint64_t(15);
    if (o + n > HEAP)
        fail(Status::Internal, "message heap exhausted");
    if (n)
        memcpy(A->heap + o, p, n);
    A->heap_used = o + n;
    return o;
}

// ------------------------------------------------------------------ executor
static pid_t g_kids[MAXR];
static int g_nkids = 0;
static volatile sig_atomic_t g_alarm = 0;
static void on_alarm(int) {
    g_alarm = 1;
    for (int i = 0; i < g_nkids; ++i)
        if (g_kids[i] > 0)
            kill(g_kids[i], SIGKILL);
}

static void set_timer(double s) {
    struct itimerval tv;
    memset(&tv, 0, sizeof tv);
    tv.it_value.tv_sec  = (long)s;
    tv.it_value.tv_usec = (long)((s - (long)s) * 1e6);
    setitimer(ITIMER_REAL, &tv, nullptr);
}

static std::string read_tail(const std::string& f, size_t n = 600) {
    FILE* fp = fopen(f.c_str(), "rb");
    if (!fp)
        return "";
    fseek(fp, 0, SEEK_END);
    long sz = ftell(fp);
    fseek(fp, sz > (long)n ? sz - (long)n : 0, SEEK_SET);
    std::string s(n, 0);
    size_t r = fread(&s[0], 1, n, fp);
    s.resize(r);
    fclose(fp);
    for (auto& c : s)
        if (c == '\n')
            c = ' ';
    return s;
}

static void reset_arena() {
    if (!A) {
        A = (Arena*)mmap(nullptr, sizeof(Arena), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (A == MAP_FAILED) {
            perror("mmap");
            _exit(3);
        }
    }
    for (int t = 0; t < MAXTASK; ++t) {
        Task& k = A->task[t];
        k.used = k.done = 0;
        k.pend.kind     = YIELD;
        k.pend.n        = 0;
        k.wake.store(0);
        memset(k.vc, 0, sizeof k.vc);
        k.vc[t] = 1;
    }
    memset(A->team, 0, sizeof A->team);
    A->nchan = A->nmsg = 0;
    uint32_t maxcoll = 0;
    for (int r = 0; r < MAXR; ++r) {
        if (A->ncoll_rank[r] > maxcoll)
            maxcoll = A->ncoll_rank[r];
        A->ncoll_rank[r] = 0;
        A->pay_used[r]   = 0;
    }
    memset(A->coll, 0, sizeof(Coll) * (maxcoll + 1));
    A->heap_used = 0;
    A->nlog = A->nchoice = 0;
    A->nsched = 0;
    A->status = 0;
    A->errmsg[0] = 0;
}

static void quiet_io(const std::string& err) {
    int fd = open("/dev/null", O_WRONLY);
    if (fd >= 0) {
        dup2(fd, 1);
        close(fd);
    }
    fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) {
        dup2(fd, 2);
        close(fd);
    }
}

static void finish_rank();

ExecResult execute(const ExecConfig& cfg, const std::function<void(int)>& rank_main, const std::string& scratch) {
    ExecResult R;
    reset_arena();
    A->nranks     = cfg.nranks;
    A->nthreads   = cfg.nthreads;
    A->rendezvous = cfg.rendezvous;
    A->policy     = cfg.policy;
    A->ndev       = cfg.dev.size();
    for (size_t i = 0; i < cfg.dev.size() && i < MAXDEV; ++i)
        A->dev[i] = cfg.dev[i];
    for (int r = 0; r < cfg.nranks; ++r)
        A->task[r * MAXT].used = 1;
    fflush(stdout);
    fflush(stderr);
    g_nkids = 0;
    g_alarm = 0;
    struct sigaction sa, old;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_alarm;
    sigaction(SIGALRM, &sa, &old);
    for (int r = 0; r < cfg.nranks; ++r) {
        pid_t p = fork();
        if (p < 0) {
            R.status = Status::Internal;
            R.msg    = "fork failed";
            break;
        }
        if (p == 0) {
            signal(SIGALRM, SIG_DFL);
            in_rank = true;
            g_rank  = r;
            quiet_io(scratch + "/rank" + std::to_string(r) + ".err");
            futex_wait(&A->task[task_index()].wake);
            try {
                rank_main(r);
            } catch (std::exception& e) {
                fail(Status::Crash, std::string("uncaught exception: ") + e.what());
            }
            finish_rank();
            _exit(0);
        }
        g_kids[g_nkids++] = p;
    }
    set_timer(cfg.timeout);
    int first = (cfg.policy == 1) ? (cfg.nranks - 1) * MAXT : 0;
    futex_wake(&A->task[first].wake);
    int left      = g_nkids;
    bool killed   = false;
    std::string crash;
    while (left) {
        int st;
        pid_t p = waitpid(-1, &st, 0);
        if (p < 0) {
            if (errno == EINTR)
                continue;
            break;
        }
        int r = -1;
        for (int i = 0; i < g_nkids; ++i)
            if (g_kids[i] == p)
                r = i;
        if (r < 0)
            continue;
        g_kids[r] = -1;
        --left;
        bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
        if (bad && !killed) {
            if (A->status == 0 && !g_alarm) {
                crash = "rank " + std::to_string(r);
                if (WIFSIGNALED(st))
                    crash += " killed by signal " + std::to_string(WTERMSIG(st));
                else
                    crash += " exited with code " + std::to_string(WEXITSTATUS(st));
                crash += ": " + read_tail(scratch + "/rank" + std::to_string(r) + ".err");
            }
            killed = true;
            for (int i = 0; i < g_nkids; ++i)
                if (g_kids[i] > 0)
                    kill(g_kids[i], SIGKILL);
        }
    }
    set_timer(0);
    sigaction(SIGALRM, &old, nullptr);
    if (A->status) {
        R.status = (Status)A->status;
        R.msg    = A->errmsg;
    } else if (g_alarm) {
        R.status = Status::Timeout;
        R.msg    = "execution did not finish in time:" + describe_blocked();
    } else if (!crash.empty()) {
        R.status = Status::Crash;
        R.msg    = crash;
    } else if (R.status == Status::Ok) {
        for (uint32_t c = 0; c < A->nchan; ++c) {
            Chan& ch = A->chan[c];
            if (ch.nsent != ch.nrecv && R.status == Status::Ok) {
                R.status = Status::Misuse;
                R.msg    = "message from rank " + std::to_string(ch.src) + " to rank " + std::to_string(ch.dst) + " tag " +
                        std::to_string(ch.tag) + " was never received (sent " + std::to_string(ch.nsent) + ", received " +
                        std::to_string(ch.nrecv) + ")";
            }
        }
    }
    R.trace.assign(A->log, A->log + A->nlog);
    R.nsched = A->nsched;
    R.payload.resize(cfg.nranks);
    for (int r = 0; r < cfg.nranks; ++r)
        R.payload[r].assign(A->payload[r], A->pay_used[r]);
    return R;
}

ChildResult run_child(const std::function<void()>& f, const std::string& scratch, double timeout) {
    ChildResult R;
    reset_arena();
    A->nranks = 1;
    A->nthreads = 1;
    fflush(stdout);
    fflush(stderr);
    std::string err = scratch + "/child.err";
    g_nkids = 0;
    g_alarm = 0;
    struct sigaction sa, old;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_alarm;
    sigaction(SIGALRM, &sa, &old);
    pid_t p = fork();
    if (p == 0) {
        signal(SIGALRM, SIG_DFL);
        in_rank = true;
        g_rank  = 0;
        A->task[0].used = 1;
        quiet_io(err);
        try {
            f();
        } catch (std::exception& e) {
            snprintf(A->errmsg, sizeof A->errmsg, "%s", e.what());
            _exit(88);
        } catch (...) {
            snprintf(A->errmsg, sizeof A->errmsg, "non-standard exception");
            _exit(88);
        }
        fflush(stdout);
        _exit(0);
    }
    g_kids[g_nkids++] = p;
    set_timer(timeout);
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
    }
    set_timer(0);
    sigaction(SIGALRM, &old, nullptr);
    if (WIFEXITED(st)) {
        R.exit_code = WEXITSTATUS(st);
        R.ok        = R.exit_code == 0;
        if (R.exit_code == 88) {
            R.threw = true;
            R.what  = A->errmsg;
        } else if (!R.ok) {
            R.what = A->errmsg[0] ? std::string(A->errmsg) : read_tail(err);
        }
    } else {
        R.signal = WTERMSIG(st);
        R.what   = (g_alarm ? "timed out " : "") + read_tail(err);
    }
    R.payload.assign(A->payload[0], A->pay_used[0]);
    return R;
}
}  // namespace mc

using namespace mc;

// ---------------------------------------------------------------------- MPI
struct mcrt_request {
    bool persistent, active, isrecv;
    void* buf;
    size_t bytes;
    size_t elsize;
    int peer, tag, comm;
    int chan;
    uint32_t ticket;
    uint64_t sum;
};

static int comm_size(MPI_Comm c) { return c == MPI_COMM_SELF ? 1 : A->nranks; }
static int comm_rank(MPI_Comm c) { return c == MPI_COMM_SELF ? 0 : g_rank; }
static size_t tsize(MPI_Datatype t) { return (size_t)(t & 0xff); }

static uint64_t hash_bytes(const void* p, size_t n) {
    const unsigned char* c = (const unsigned char*)p;
    uint64_t h             = 1469598103934665603ull;
    for (size_t i = 0; i < n; ++i)
        h = (h ^ c[i]) * 1099511628211ull;
    return h;
}

static int find_chan(int src, int dst, int tag, int comm) {
    for (uint32_t i = 0; i < A->nchan; ++i) {
        Chan& c = A->chan[i];
        if (c.src == src && c.dst == dst && c.tag == tag && c.comm == comm)
            return (int)i;
    }
    if (A->nchan == MAXCHAN)
        fail(Status::Internal, "too many channels");
    Chan& c = A->chan[A->nchan];
    memset(&c, 0, sizeof c);
    c.src  = src;
    c.dst  = dst;
    c.tag  = tag;
    c.comm = comm;
    return (int)A->nchan++;
}

static std::vector<mcrt_request*>* live_requests() {
    static std::vector<mcrt_request*>* v = new std::vector<mcrt_request*>;
    return v;
}

static MPI_Request make_req(bool pers, bool recv, void* buf, int n, MPI_Datatype t, int peer, int tag, MPI_Comm comm) {
    if (!in_rank)
        return nullptr;
    if (n < 0)
        misuse("negative message count");
    if (peer == MPI_ANY_SOURCE || tag == MPI_ANY_TAG)
        fail(Status::Internal, "wildcard receives are not modelled");
    if (peer != MPI_PROC_NULL && (peer < 0 || peer >= comm_size(comm)))
        misuse("message names rank " + std::to_string(peer) + " outside the communicator");
    if (tag < 0)
        misuse("negative message tag");
    mcrt_request* r = new mcrt_request();
    r->persistent   = pers;
    r->isrecv       = recv;
    r->buf          = buf;
    r->bytes        = (size_t)n * tsize(t);
    r->elsize       = tsize(t);
    r->peer         = peer;
    r->tag          = tag;
    r->comm         = comm;
    r->chan         = -1;
    live_requests()->push_back(r);
    return r;
}

static void start_one(mcrt_request* r) {
    if (!r)
        misuse("start of a null request");
    if (r->active)
        misuse("request started while it is still active");
    r->active = true;
    if (r->peer == MPI_PROC_NULL)
        return;
    int me = comm_rank(r->comm);
    if (r->isrecv) {
        r->chan   = find_chan(r->peer, me, r->tag, r->comm * MAXR + (r->comm == MPI_COMM_SELF ? g_rank : 0));
        r->ticket = A->chan[r->chan].nposted++;
        // poison: a read before completion becomes visible
        unsigned char* b = (unsigned char*)r->buf;
        if (r->elsize == 8) {
            uint64_t nan = 0x7ff4dead0000beefull;
            for (size_t i = 0; i + 8 <= r->bytes; i += 8)
                memcpy(b + i, &nan, 8);
        } else
            memset(b, 0xee, r->bytes);
        r->sum = hash_bytes(r->buf, r->bytes);
    } else {
        r->chan   = find_chan(me, r->peer, r->tag, r->comm * MAXR + (r->comm == MPI_COMM_SELF ? g_rank : 0));
        Chan& c   = A->chan[r->chan];
        r->ticket = c.nsent;
        if (A->nmsg == MAXMSG)
            fail(Status::Internal, "too many messages");
        uint32_t m = A->nmsg++;
        Msg& M     = A->msg[m];
        M.next     = 0;
        M.bytes    = (uint32_t)r->bytes;
        M.off      = heap_put(r->buf, r->bytes);
        memcpy(M.vc, my_vc(), sizeof M.vc);
        ++my_vc()[task_index()];
        if (c.last)
            A->msg[c.last - 1].next = m + 1;
        else
            c.first = m + 1;
        c.last = m + 1;
        ++c.nsent;
        r->sum = hash_bytes(r->buf, r->bytes);
    }
}

static void complete_one(mcrt_request* r, MPI_Status* st) {
    if (st) {
        st->MPI_SOURCE = r->peer;
        st->MPI_TAG    = r->tag;
        st->MPI_ERROR  = 0;
        st->mc_count   = 0;
    }
    if (!r->active)
        return;  // inactive persistent requests complete at once
    r->active = false;
    if (r->peer == MPI_PROC_NULL)
        return;
    if (r->isrecv) {
        Chan& c    = A->chan[r->chan];
        uint32_t m = c.first;
        for (uint32_t i = 0; i < r->ticket && m; ++i)
            m = A->msg[m - 1].next;
        if (!m)
            fail(Status::Internal, "message lost in the runtime");
        Msg& M = A->msg[m - 1];
        if (M.bytes > r->bytes)
            misuse("message truncated: " + std::to_string(M.bytes) + " bytes sent to a receive of " +
                   std::to_string(r->bytes) + " bytes (rank " + std::to_string(c.src) + " to " + std::to_string(c.dst) + ")");
        if (hash_bytes(r->buf, r->bytes) != r->sum)
            misuse("receive buffer written while the receive was active");
        memcpy(r->buf, A->heap + M.off, M.bytes);
        vc_join(my_vc(), M.vc);
        ++c.nrecv;
        if (st)
            st->mc_count = (int)M.bytes;
    } else {
        if (hash_bytes(r->buf, r->bytes) != r->sum)
            misuse("send buffer modified while the send was active (rank " + std::to_string(g_rank) + " to rank " +
                   std::to_string(r->peer) + ")");
    }
}

static void release_req(MPI_Request* h) {
    mcrt_request* r = *h;
    auto& v         = *live_requests();
    for (size_t i = 0; i < v.size(); ++i)
        if (v[i] == r) {
            v.erase(v.begin() + i);
            break;
        }
    delete r;
    *h = MPI_REQUEST_NULL;
}

static void wait_for(int n, MPI_Request* h) {
    Pend& p = A->task[task_index()].pend;
    p.n     = 0;
    for (int i = 0; i < n; ++i) {
        mcrt_request* r = h[i];
        if (!r || !r->active || r->peer == MPI_PROC_NULL)
            continue;
        if (p.n == MAXWAIT)
            fail(Status::Internal, "too many requests in one wait");
        p.chan[p.n]   = r->chan;
        p.ticket[p.n] = r->ticket;
        p.isrecv[p.n] = r->isrecv;
        ++p.n;
    }
    sched(WAIT_MSGS);
}

static bool req_done(mcrt_request* r) {
    if (!r || !r->active || r->peer == MPI_PROC_NULL)
        return true;
    Chan& c = A->chan[r->chan];
    return r->isrecv ? c.nsent > r->ticket : (!A->rendezvous || c.nposted > r->ticket);
}

namespace mc {
static void finish_rank() {
    for (auto r : *live_requests())
        if (r->active)
            misuse(std::string(r->isrecv ? "receive from" : "send to") + " rank " + std::to_string(r->peer) + " tag " +
                   std::to_string(r->tag) + " still active at the end of the run");
    A->task[task_index()].done = 1;
    dispatch(true);
}
}

extern "C" {
int MPI_Init(int*, char***) { return 0; }
int MPI_Init_thread(int*, char***, int, int* provided) {
    if (provided)
        *provided = MPI_THREAD_MULTIPLE;
    return 0;
}
int MPI_Initialized(int* f) { *f = 1; return 0; }
int MPI_Finalized(int* f) { *f = 0; return 0; }
int MPI_Query_thread(int* p) { *p = MPI_THREAD_MULTIPLE; return 0; }
int MPI_Finalize(void) {
    // a rank completes what it started before it leaves
    if (in_rank)
        for (auto* r : *live_requests())
            if (r->active)
                misuse(std::string(r->isrecv ? "a receive from" : "a send to") + " rank " + std::to_string(r->peer) + " is still open at the end of the run");
    return 0;
}
int MPI_Abort(MPI_Comm, int code) { fail(Status::Crash, "MPI_Abort called with code " + std::to_string(code)); }
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = in_rank ? comm_rank(c) : 0; return 0; }
int MPI_Comm_size(MPI_Comm c, int* s) { *s = in_rank ? comm_size(c) : 1; return 0; }
double MPI_Wtime(void) { return 0.0; }
int MPI_Type_size(MPI_Datatype t, int* s) { *s = (int)tsize(t); return 0; }
int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) { *n = s->mc_count / (int)tsize(t); return 0; }
int MPI_Send_init(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) {
    *r = make_req(true, false, (void*)b, n, t, d, tag, c);
    return 0;
}
int MPI_Recv_init(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* r) {
    *r = make_req(true, true, b, n, t, s, tag, c);
    return 0;
}
int MPI_Startall(int n, MPI_Request* r) {
    if (n <= 0)
        return 0;
    sched(YIELD);
    for (int i = 0; i < n; ++i)
        start_one(r[i]);
    return 0;
}
int MPI_Start(MPI_Request* r) { return MPI_Startall(1, r); }
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) {
    sched(YIELD);
    *r = make_req(false, false, (void*)b, n, t, d, tag, c);
    start_one(*r);
    return 0;
}
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* r) {
    sched(YIELD);
    *r = make_req(false, true, b, n, t, s, tag, c);
    start_one(*r);
    return 0;
}
int MPI_Waitall(int n, MPI_Request* r, MPI_Status* st) {
    if (n <= 0)
        return 0;
    wait_for(n, r);
    for (int i = 0; i < n; ++i) {
        if (!r[i])
            continue;
        complete_one(r[i], st ? st + i : nullptr);
        if (!r[i]->persistent)
            release_req(&r[i]);
    }
    return 0;
}
int MPI_Wait(MPI_Request* r, MPI_Status* st) { return MPI_Waitall(1, r, st); }
int MPI_Waitany(int n, MPI_Request* r, int* idx, MPI_Status* st) {
    sched(YIELD);
    for (;;) {
        std::vector<int> ready;
        bool any = false;
        for (int i = 0; i < n; ++i)
            if (r[i] && r[i]->active) {
                any = true;
                if (req_done(r[i]))
                    ready.push_back(i);
            }
        if (!any) {
            *idx = MPI_UNDEFINED;
            return 0;
        }
        if (!ready.empty()) {
            int k = ready[env_choose((int)ready.size())];
            complete_one(r[k], st);
            if (!r[k]->persistent)
                release_req(&r[k]);
            *idx = k;
            return 0;
        }
        // block on the first outstanding request
        for (int i = 0; i < n; ++i)
            if (r[i] && r[i]->active) {
                wait_for(1, &r[i]);
                break;
            }
    }
}
int MPI_Testall(int n, MPI_Request* r, int* flag, MPI_Status* st) {
    sched(YIELD);
    for (int i = 0; i < n; ++i)
        if (!req_done(r[i])) {
            *flag = 0;
            return 0;
        }
    *flag = 1;
    for (int i = 0; i < n; ++i)
        if (r[i]) {
            complete_one(r[i], st ? st + i : nullptr);
            if (!r[i]->persistent)
                release_req(&r[i]);
        }
    return 0;
}
int MPI_Test(MPI_Request* r, int* flag, MPI_Status* st) { return MPI_Testall(1, r, flag, st); }
int MPI_Request_free(MPI_Request* r) {
    if (*r)
        release_req(r);
    return 0;
}
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
    MPI_Request r;
    MPI_Isend(b, n, t, d, tag, c, &r);
    return MPI_Wait(&r, nullptr);
}
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st) {
    MPI_Request r;
    MPI_Irecv(b, n, t, s, tag, c, &r);
    return MPI_Wait(&r, st);
}
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype stp, int d, int stag, void* rb, int rn, MPI_Datatype rt, int s, int rtag,
                 MPI_Comm c, MPI_Status* st) {
    MPI_Request r[2];
    MPI_Irecv(rb, rn, rt, s, rtag, c, &r[0]);
    MPI_Isend(sb, sn, stp, d, stag, c, &r[1]);
    MPI_Status tmp[2];
    MPI_Waitall(2, r, tmp);
    if (st)
        *st = tmp[0];
    return 0;
}
}

// collectives: every rank deposits its contribution and waits for all
enum { C_BARRIER = 1, C_BCAST, C_GATHER, C_SCATTER, C_ALLGATHER, C_REDUCE, C_ALLREDUCE, C_SCAN, C_EXSCAN, C_CUSTOM };

static Coll& collective(int type, int root, const void* p, size_t n) {
    uint32_t id = A->ncoll_rank[g_rank]++;
    if (id >= MAXCOLL - 1)
        fail(Status::Internal, "too many collectives");
    sched(YIELD);
    Coll& c = A->coll[id];
    if (c.arrived == 0) {
        c.type = type;
        c.root = root;
    } else if (c.type != type || c.root != root)
        misuse("collective operations do not match across ranks");
    c.off[g_rank] = heap_put(p, n);
    vc_release(c.vc);
    ++c.arrived;
    sched(COLL, id);
    vc_join(my_vc(), c.vc);
    return c;
}

template <typename T>
static void red(MPI_Op op, T* a, const T* b, int n) {
    for (int i = 0; i < n; ++i) switch (op) {
            case MPI_SUM: a[i] = (T)(a[i] + b[i]); break;
            case MPI_PROD: a[i] = (T)(a[i] * b[i]); break;
            case MPI_MAX: a[i] = b[i] > a[i] ? b[i] : a[i]; break;
            case MPI_MIN: a[i] = b[i] < a[i] ? b[i] : a[i]; break;
            case MPI_LAND: a[i] = (T)(a[i] && b[i]); break;
            case MPI_LOR: a[i] = (T)(a[i] || b[i]); break;
            default: fail(Status::Internal, "reduction not modelled");
        }
}
static void reduce_any(MPI_Op op, MPI_Datatype t, void* a, const void* b, int n) {
    switch (t) {
        case MPI_DOUBLE: red(op, (double*)a, (const double*)b, n); break;
        case MPI_FLOAT: red(op, (float*)a, (const float*)b, n); break;
        case MPI_INT: red(op, (int*)a, (const int*)b, n); break;
        case MPI_UNSIGNED: red(op, (unsigned*)a, (const unsigned*)b, n); break;
        case MPI_LONG: red(op, (long*)a, (const long*)b, n); break;
        case MPI_UNSIGNED_LONG: red(op, (unsigned long*)a, (const unsigned long*)b, n); break;
        case MPI_CHAR: red(op, (signed char*)a, (const signed char*)b, n); break;
        case MPI_UNSIGNED_CHAR: red(op, (unsigned char*)a, (const unsigned char*)b, n); break;
        default: fail(Status::Internal, "reduction type not modelled");
    }
}

extern "C" {
int MPI_Barrier(MPI_Comm c) {
    if (comm_size(c) == 1 && c == MPI_COMM_SELF)
        return 0;
    collective(C_BARRIER, 0, nullptr, 0);
    return 0;
}
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm) {
    size_t sz = n * tsize(t);
    Coll& c   = collective(C_BCAST, root, b, g_rank == root ? sz : 0);
    if (g_rank != root)
        memcpy(b, A->heap + c.off[root], sz);
    return 0;
}
int MPI_Gather(const void* s, int sn, MPI_Datatype st, void* r, int, MPI_Datatype, int root, MPI_Comm) {
    size_t sz = sn * tsize(st);
    const void* src = s == MPI_IN_PLACE ? (char*)r + g_rank * sz : s;
    Coll& c   = collective(C_GATHER, root, src, sz);
    if (g_rank == root)
        for (int k = 0; k < A->nranks; ++k)
            memcpy((char*)r + k * sz, A->heap + c.off[k], sz);
    return 0;
}
int MPI_Scatter(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm) {
    size_t sz = rn * tsize(rt);
    Coll& c   = collective(C_SCATTER, root, s, g_rank == root ? (size_t)A->nranks * sn * tsize(st) : 0);
    if (r != MPI_IN_PLACE)
        memcpy(r, A->heap + c.off[root] + g_rank * sz, sz);
    return 0;
}
int MPI_Allgather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm) {
    size_t sz = s == MPI_IN_PLACE ? rn * tsize(rt) : sn * tsize(st);
    Coll& c   = collective(C_ALLGATHER, 0, s == MPI_IN_PLACE ? (char*)r + g_rank * sz : s, sz);
    for (int k = 0; k < A->nranks; ++k)
        memcpy((char*)r + k * sz, A->heap + c.off[k], sz);
    return 0;
}
static void reduce_into(Coll& c, void* r, int n, MPI_Datatype t, MPI_Op op, int from, int to) {
    std::vector<double> buf((n * tsize(t) + 7) / 8 + 1);
    bool first = true;
    for (int k = from; k < to; ++k) {
        if (first)
            memcpy(buf.data(), A->heap + c.off[k], n * tsize(t));
        else
            reduce_any(op, t, buf.data(), A->heap + c.off[k], n);
        first = false;
    }
    if (!first)
        memcpy(r, buf.data(), n * tsize(t));
}
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm) {
    Coll& c = collective(C_REDUCE, root, s == MPI_IN_PLACE ? r : s, n * tsize(t));
    if (g_rank == root)
        reduce_into(c, r, n, t, op, 0, A->nranks);
    return 0;
}
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm) {
    Coll& c = collective(C_ALLREDUCE, 0, s == MPI_IN_PLACE ? r : s, n * tsize(t));
    reduce_into(c, r, n, t, op, 0, A->nranks);
    return 0;
}
int MPI_Scan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm) {
    Coll& c = collective(C_SCAN, 0, s == MPI_IN_PLACE ? r : s, n * tsize(t));
    reduce_into(c, r, n, t, op, 0, g_rank + 1);
    return 0;
}
int MPI_Exscan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm) {
    Coll& c = collective(C_EXSCAN, 0, s == MPI_IN_PLACE ? r : s, n * tsize(t));
    reduce_into(c, r, n, t, op, 0, g_rank);
    return 0;
}
// used by the PETSc stand-in: gather variable-size blobs from all ranks
void mcrt_allgatherv(const void* p, size_t n, std::vector<std::string>* out) {
    std::vector<char> b(8 + n);
    uint64_t sz = n;
    memcpy(b.data(), &sz, 8);
    if (n)
        memcpy(b.data() + 8, p, n);
    Coll& c = collective(C_CUSTOM, 0, b.data(), b.size());
    out->resize(A->nranks);
    for (int k = 0; k < A->nranks; ++k) {
        uint64_t m;
        memcpy(&m, A->heap + c.off[k], 8);
        (*out)[k].assign(A->heap + c.off[k] + 8, m);
    }
}
}

// ------------------------------------------------------------------- OpenMP
struct ThreadArg {
    void (*fn)(void*);
    void* data;
    int tid;
};
static int g_req_threads = 0;
static uint32_t g_loop_state[4];
static thread_local bool t_in_par = false;
static thread_local uint32_t t_single = 0;

static void* thread_main(void* v) {
    ThreadArg* a = (ThreadArg*)v;
    t_tid        = a->tid;
    t_in_par     = true;
    futex_wait(&A->task[task_index()].wake);
    try {
        a->fn(a->data);
    } catch (std::exception& e) {
        fail(Status::Crash, std::string("uncaught exception: ") + e.what());
    }
    Team& tm = A->team[g_rank];
    vc_release(tm.join_vc);
    ++tm.finished;
    A->task[task_index()].done = 1;
    dispatch(true);
    return nullptr;
}

namespace mc {
void tsan_region_begin();
void (*g_region_hook)() = nullptr;
}

struct LoopState {
    bool init;
    long next, end, incr, chunk;
    uint32_t entered, left;
};
static LoopState g_loop;

extern "C" {
int omp_get_thread_num(void) { return t_in_par ? t_tid : 0; }
int omp_get_num_threads(void) { return t_in_par ? g_team_size : 1; }
int omp_get_max_threads(void) { return g_req_threads ? g_req_threads : (A && in_rank ? A->nthreads : 1); }
int omp_get_num_procs(void) { return A ? A->nthreads : 1; }
int omp_in_parallel(void) { return t_in_par && g_team_size > 1; }
int omp_get_level(void) { return t_in_par; }
int omp_get_dynamic(void) { return 0; }
int omp_get_nested(void) { return 0; }
int omp_get_thread_limit(void) { return MAXT; }
void omp_set_num_threads(int n) { g_req_threads = n; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
double omp_get_wtime(void) { return 0.0; }

void GOMP_parallel(void (*fn)(void*), void* data, unsigned num, unsigned) {
    if (!in_rank || t_in_par) {  // outside control or nested: run with one thread
        bool old     = t_in_par;
        int oldt     = t_tid;
        int olds     = g_team_size;
        if (!in_rank) {
            t_in_par    = true;
            g_team_size = 1;
        }
        fn(data);
        t_in_par    = old;
        t_tid       = oldt;
        g_team_size = olds;
        return;
    }
    int n = num ? (int)num : omp_get_max_threads();
    if (n > MAXT)
        n = MAXT;
    Team& tm = A->team[g_rank];
    memset(&tm, 0, sizeof tm);
    tm.size     = n;
    g_team_size = n;
    t_in_par    = true;
    t_single    = 0;
    memset(&g_loop, 0, sizeof g_loop);
    if (mc::g_region_hook)
        mc::g_region_hook();
    std::vector<pthread_t> th(n);
    std::vector<ThreadArg> args(n);
    for (int i = 1; i < n; ++i) {
        args[i]  = {fn, data, i};
        Task& k  = A->task[g_rank * MAXT + i];
        k.used   = 1;
        k.done   = 0;
        k.pend.kind = YIELD;
        k.wake.store(0);
        vc_join(k.vc, my_vc());
        ++k.vc[g_rank * MAXT + i];
        if (pthread_create(&th[i], nullptr, thread_main, &args[i]))
            fail(Status::Internal, "pthread_create failed");
    }
    ++my_vc()[task_index()];
    if (n > 1)
        sched(YIELD);
    fn(data);
    if (n > 1)
        sched(JOIN, g_rank);
    vc_join(my_vc(), tm.join_vc);
    for (int i = 1; i < n; ++i)
        pthread_join(th[i], nullptr);
    t_in_par    = false;
    g_team_size = 1;
}
void GOMP_barrier(void) {
    if (!in_rank || g_team_size <= 1)
        return;
    Team& tm     = A->team[g_rank];
    uint32_t gen = tm.gen;
    if (tm.arrived == 0)
        memset(tm.vc[gen & 1], 0, sizeof tm.vc[0]);
    vc_release(tm.vc[gen & 1]);
    if (++tm.arrived == tm.size) {
        tm.arrived = 0;
        ++tm.gen;
    }
    sched(TEAM_BARRIER, g_rank, gen);
    vc_join(my_vc(), tm.vc[gen & 1]);
}
static void lock_id(uint32_t id) {
    if (!in_rank)
        return;
    sched(LOCK, g_rank, id);
    Team& tm          = A->team[g_rank];
    tm.lock_owner[id] = task_index() + 1;
    vc_join(my_vc(), tm.lock_vc[id]);
}
static void unlock_id(uint32_t id) {
    if (!in_rank)
        return;
    Team& tm = A->team[g_rank];
    vc_release(tm.lock_vc[id]);
    tm.lock_owner[id] = 0;
}
void GOMP_critical_start(void) { lock_id(0); }
void GOMP_critical_end(void) { unlock_id(0); }
void GOMP_critical_name_start(void** p) { lock_id(1 + ((uintptr_t)p >> 3) % 10); }
void GOMP_critical_name_end(void** p) { unlock_id(1 + ((uintptr_t)p >> 3) % 10); }
void GOMP_atomic_start(void) { lock_id(11); }
void GOMP_atomic_end(void) { unlock_id(11); }

bool GOMP_single_start(void) {
    if (!in_rank || g_team_size <= 1)
        return true;
    sched(YIELD);
    Team& tm = A->team[g_rank];
    if (t_single == tm.single_count) {
        ++tm.single_count;
        t_single = tm.single_count;
        return true;
    }
    ++t_single;
    return false;
}
// worksharing loops with a dynamic schedule: every chunk hand-out is a choice
static bool loop_next(long* is, long* ie) {
    if (in_rank && g_team_size > 1)
        sched(YIELD);
    LoopState& L = g_loop;
    if ((L.incr > 0 && L.next >= L.end) || (L.incr < 0 && L.next <= L.end))
        return false;
    *is    = L.next;
    long e = L.next + L.incr * L.chunk;
    if ((L.incr > 0 && e > L.end) || (L.incr < 0 && e < L.end))
        e = L.end;
    *ie    = e;
    L.next = e;
    return true;
}
static bool loop_start(long s, long e, long inc, long chunk, long* is, long* ie) {
    if (in_rank && g_team_size > 1)
        sched(YIELD);
    LoopState& L = g_loop;
    if (!L.init) {
        L.init  = true;
        L.next  = s;
        L.end   = e;
        L.incr  = inc;
        L.chunk = chunk > 0 ? chunk : 1;
        L.left  = 0;
    }
    return loop_next(is, ie);
}
bool GOMP_loop_dynamic_start(long s, long e, long i, long c, long* a, long* b) { return loop_start(s, e, i, c, a, b); }
bool GOMP_loop_nonmonotonic_dynamic_start(long s, long e, long i, long c, long* a, long* b) { return loop_start(s, e, i, c, a, b); }
bool GOMP_loop_guided_start(long s, long e, long i, long c, long* a, long* b) { return loop_start(s, e, i, c, a, b); }
bool GOMP_loop_nonmonotonic_guided_start(long s, long e, long i, long c, long* a, long* b) { return loop_start(s, e, i, c, a, b); }
bool GOMP_loop_dynamic_next(long* a, long* b) { return loop_next(a, b); }
bool GOMP_loop_nonmonotonic_dynamic_next(long* a, long* b) { return loop_next(a, b); }
bool GOMP_loop_guided_next(long* a, long* b) { return loop_next(a, b); }
bool GOMP_loop_nonmonotonic_guided_next(long* a, long* b) { return loop_next(a, b); }
void GOMP_loop_end_nowait(void) {
    if (++g_loop.left >= (uint32_t)g_team_size)
        memset(&g_loop, 0, sizeof g_loop);
}
void GOMP_loop_end(void) {
    GOMP_loop_end_nowait();
    GOMP_barrier();
}
}

// -------------------------------------------------------------------- METIS
static std::vector<std::vector<int64_t>> g_metis;
static size_t g_metis_at = 0;
namespace mc {
void metis_script(const std::vector<std::vector<int64_t>>& a) {
    g_metis    = a;
    g_metis_at = 0;
}
int metis_calls() { return (int)g_metis_at; }
}
extern "C" {
int METIS_SetDefaultOptions(idx_t* o) {
    for (int i = 0; i < METIS_NOPTIONS; ++i)
        o[i] = -1;
    return METIS_OK;
}
int METIS_PartGraphKway(idx_t* nvtxs, idx_t* ncon, idx_t* xadj, idx_t* adjncy, idx_t* vwgt, idx_t*, idx_t* adjwgt,
                        idx_t* nparts, real_t*, real_t*, idx_t*, idx_t* objval, idx_t* part) {
    // METIS demands a well-formed CSR graph: symmetric adjacency with equal
    // weights, positive edge weights, non-negative vertex weights
    idx_t n = *nvtxs;
    if (n <= 0 || *nparts <= 0 || *ncon <= 0)
        throw std::logic_error("metis: bad sizes");
    std::map<std::pair<idx_t, idx_t>, idx_t> w;
    if (xadj[0] != 0)
        throw std::logic_error("metis: xadj[0] != 0");
    for (idx_t i = 0; i < n; ++i) {
        if (xadj[i + 1] < xadj[i])
            throw std::logic_error("metis: xadj not monotone");
        for (idx_t k = xadj[i]; k < xadj[i + 1]; ++k) {
            if (adjncy[k] < 0 || adjncy[k] >= n)
                throw std::logic_error("metis: adjacency out of range");
            w[{i, adjncy[k]}] = adjwgt ? adjwgt[k] : 1;
        }
    }
    for (auto& e : w) {
        auto it = w.find({e.first.second, e.first.first});
        if (it == w.end() || it->second != e.second)
            throw std::logic_error("metis: graph not symmetric");
        if (e.second <= 0)
            throw std::logic_error("metis: non-positive edge weight");
    }
    for (idx_t i = 0; i < n * *ncon; ++i)
        if (vwgt && vwgt[i] < 0)
            throw std::logic_error("metis: negative vertex weight");
    *objval = 0;
    size_t at = g_metis_at++;
    for (idx_t i = 0; i < n; ++i) {
        idx_t v = 0;
        if (at < g_metis.size() && i < (idx_t)g_metis[at].size())
            v = g_metis[at][i] % *nparts;
        part[i] = v;
    }
    return METIS_OK;
}
int METIS_PartGraphRecursive(idx_t* a, idx_t* b, idx_t* c, idx_t* d, idx_t* e, idx_t* f, idx_t* g, idx_t* h, real_t* i,
                             real_t* j, idx_t* k, idx_t* l, idx_t* m) {
    return METIS_PartGraphKway(a, b, c, d, e, f, g, h, i, j, k, l, m);
}
}
