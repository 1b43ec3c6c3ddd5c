// Race detector behind -fsanitize=thread instrumentation (replaces libtsan).
// Threads are serialised by the controlled scheduler; two accesses conflict when the
// vector clocks maintained by the runtime do not order them.
#include "mcrt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <execinfo.h>
#include <sys/mman.h>
#include <new>
#include <malloc.h>

extern "C" void* __libc_malloc(size_t);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);
extern "C" void __libc_free(void*);

namespace mc {
extern void (*g_region_hook)();
extern bool g_race_active;
bool g_race_active = false;
}
namespace {
using mc::MAXT;
struct Cell {
    uintptr_t word;  // address >> 3, 0 = empty
    uint32_t epoch;
    uint32_t wclk[MAXT], rclk[MAXT];
    uint8_t wmask[MAXT], rmask[MAXT];
};
Cell* table    = nullptr;
size_t cap     = 0, used = 0;
uint32_t epoch = 1;
struct Sync {
    uintptr_t addr;
    uint32_t vc[mc::MAXTASK];
};
Sync sync_tab[256];
int nsync = 0;
uint64_t n_access = 0;

Cell* alloc_table(size_t n) {
    return (Cell*)mmap(nullptr, n * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
inline size_t slot(uintptr_t w, size_t c) { return (w * 0x9E3779B97F4A7C15ull >> 20) & (c - 1); }
Cell* find(uintptr_t w, bool create) {
    if (!cap) {
        if (!create)
            return nullptr;
        cap   = 1 << 16;
        table = alloc_table(cap);
    }
    if (create && used * 2 > cap) {
        size_t nc  = cap * 4;
        Cell* nt   = alloc_table(nc);
        size_t nu  = 0;
        for (size_t i = 0; i < cap; ++i)
            if (table[i].word && table[i].epoch == epoch) {
                size_t s = slot(table[i].word, nc);
                while (nt[s].word)
                    s = (s + 1) & (nc - 1);
                nt[s] = table[i];
                ++nu;
            }
        munmap(table, cap * sizeof(Cell));
        table = nt;
        cap   = nc;
        used  = nu;
    }
    size_t s = slot(w, cap);
    while (table[s].word && table[s].word != w)
        s = (s + 1) & (cap - 1);
    if (!table[s].word) {
        if (!create)
            return nullptr;
        ++used;
        table[s].word  = w;
        table[s].epoch = 0;
    }
    Cell* c = &table[s];
    if (c->epoch != epoch) {
        uintptr_t keep = c->word;
        memset(c, 0, sizeof *c);
        c->word  = keep;
        c->epoch = epoch;
    }
    return c;
}

[[noreturn]] void report(uintptr_t a, bool w, bool otherw, int other, void* pc) {
    mc::g_race_active = false;
    Dl_info di;
    char where[512];
    uintptr_t base = 0;
    if (dladdr(pc, &di) && di.dli_fbase)
        base = (uintptr_t)di.dli_fbase;
    snprintf(where, sizeof where, "%s conflicts with an unordered %s by thread %d (code offset 0x%lx)", w ? "write" : "read",
             otherw ? "write" : "read", other, (unsigned long)((uintptr_t)pc - base));
    mc::race_report(where);
}

void access_word(uintptr_t word, uint8_t mask, bool w, void* pc, uintptr_t a) {
    int me        = mc::cur_tid();
    uint32_t* vc  = mc::task_clock();
    int b         = mc::task_base();
    Cell* c       = find(word, true);
    for (int t = 0; t < MAXT; ++t) {
        if (t == me)
            continue;
        if ((c->wmask[t] & mask) && c->wclk[t] > vc[b + t])
            report(a, w, true, t, pc);
        if (w && (c->rmask[t] & mask) && c->rclk[t] > vc[b + t])
            report(a, w, false, t, pc);
    }
    uint32_t now = vc[b + me];
    if (w) {
        if (c->wclk[me] != now) {
            c->wclk[me]  = now;
            c->wmask[me] = 0;
        }
        c->wmask[me] |= mask;
    } else {
        if (c->rclk[me] != now) {
            c->rclk[me]  = now;
            c->rmask[me] = 0;
        }
        c->rmask[me] |= mask;
    }
}
void access(uintptr_t a, size_t n, bool w, void* pc) {
    if (!mc::g_race_active || !n)
        return;
    uintptr_t e = a + n;
    for (uintptr_t word = a >> 3; word <= (e - 1) >> 3; ++word) {
        uintptr_t lo = word << 3;
        int s        = a > lo ? (int)(a - lo) : 0;
        int t        = e < lo + 8 ? (int)(e - lo) : 8;
        access_word(word, (uint8_t)(((1u << t) - 1) & ~((1u << s) - 1)), w, pc, a);
    }
}
void forget(uintptr_t a, size_t n) {
    if (!mc::g_race_active || !cap || !n)
        return;
    for (uintptr_t word = a >> 3; word <= (a + n - 1) >> 3; ++word)
        if (Cell* c = find(word, false)) {
            memset(c->wclk, 0, sizeof c->wclk + sizeof c->rclk + sizeof c->wmask + sizeof c->rmask);
        }
}
void sync_on(const volatile void* p) {
    if (!mc::g_race_active)
        return;
    Sync* s = nullptr;
    for (int i = 0; i < nsync; ++i)
        if (sync_tab[i].addr == (uintptr_t)p)
            s = &sync_tab[i];
    if (!s) {
        if (nsync == 256)
            return;
        s       = &sync_tab[nsync++];
        s->addr = (uintptr_t)p;
        memset(s->vc, 0, sizeof s->vc);
    }
    uint32_t* vc = mc::task_clock();
    for (int i = 0; i < mc::MAXTASK; ++i) {
        if (s->vc[i] > vc[i])
            vc[i] = s->vc[i];
    }
    memcpy(s->vc, vc, sizeof s->vc);
    ++vc[mc::task_index()];
}
void region() {
    ++epoch;
    nsync             = 0;
    mc::g_race_active = true;
}
struct Init {
    Init() { mc::g_region_hook = region; }
} init;
}

#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
void __tsan_read1(void* p) { access((uintptr_t)p, 1, false, PC); }
void __tsan_read2(void* p) { access((uintptr_t)p, 2, false, PC); }
void __tsan_read4(void* p) { access((uintptr_t)p, 4, false, PC); }
void __tsan_read8(void* p) { access((uintptr_t)p, 8, false, PC); }
void __tsan_read16(void* p) { access((uintptr_t)p, 16, false, PC); }
void __tsan_write1(void* p) { access((uintptr_t)p, 1, true, PC); }
void __tsan_write2(void* p) { access((uintptr_t)p, 2, true, PC); }
void __tsan_write4(void* p) { access((uintptr_t)p, 4, true, PC); }
void __tsan_write8(void* p) { access((uintptr_t)p, 8, true, PC); }
void __tsan_write16(void* p) { access((uintptr_t)p, 16, true, PC); }
void __tsan_unaligned_read2(void* p) { access((uintptr_t)p, 2, false, PC); }
void __tsan_unaligned_read4(void* p) { access((uintptr_t)p, 4, false, PC); }
void __tsan_unaligned_read8(void* p) { access((uintptr_t)p, 8, false, PC); }
void __tsan_unaligned_read16(void* p) { access((uintptr_t)p, 16, false, PC); }
void __tsan_unaligned_write2(void* p) { access((uintptr_t)p, 2, true, PC); }
void __tsan_unaligned_write4(void* p) { access((uintptr_t)p, 4, true, PC); }
void __tsan_unaligned_write8(void* p) { access((uintptr_t)p, 8, true, PC); }
void __tsan_unaligned_write16(void* p) { access((uintptr_t)p, 16, true, PC); }
void __tsan_volatile_read1(void* p) { access((uintptr_t)p, 1, false, PC); }
void __tsan_volatile_read4(void* p) { access((uintptr_t)p, 4, false, PC); }
void __tsan_volatile_read8(void* p) { access((uintptr_t)p, 8, false, PC); }
void __tsan_volatile_write1(void* p) { access((uintptr_t)p, 1, true, PC); }
void __tsan_volatile_write4(void* p) { access((uintptr_t)p, 4, true, PC); }
void __tsan_volatile_write8(void* p) { access((uintptr_t)p, 8, true, PC); }
void __tsan_read_range(void* p, unsigned long n) { access((uintptr_t)p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { access((uintptr_t)p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) {
    if (*p != v)
        access((uintptr_t)p, 8, true, PC);
}
void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, false, PC); }

#define ATOMIC(N, T)                                                                                             \
    T __tsan_atomic##N##_load(const volatile T* p, int) {                                                        \
        sync_on(p);                                                                                              \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                            \
    void __tsan_atomic##N##_store(volatile T* p, T v, int) {                                                     \
        sync_on(p);                                                                                              \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                \
    }                                                                                                            \
    T __tsan_atomic##N##_exchange(volatile T* p, T v, int) {                                                     \
        sync_on(p);                                                                                              \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                      \
    }                                                                                                            \
    T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int) {                                                    \
        sync_on(p);                                                                                              \
        return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                                       \
    }                                                                                                            \
    T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int) {                                                    \
        sync_on(p);                                                                                              \
        return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                                       \
    }                                                                                                            \
    T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int) {                                                    \
        sync_on(p);                                                                                              \
        return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                                       \
    }                                                                                                            \
    T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int) {                                                     \
        sync_on(p);                                                                                              \
        return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                                        \
    }                                                                                                            \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) {                         \
        sync_on(p);                                                                                              \
        return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                      \
    }                                                                                                            \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) {                           \
        sync_on(p);                                                                                              \
        return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                      \
    }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned int)
ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// block copies made by instrumented code (the objects' references are renamed to these)
void* mcrace_memcpy(void* d, const void* s, size_t n) {
    access((uintptr_t)s, n, false, PC);
    access((uintptr_t)d, n, true, PC);
    return memcpy(d, s, n);
}
void* mcrace_memmove(void* d, const void* s, size_t n) {
    access((uintptr_t)s, n, false, PC);
    access((uintptr_t)d, n, true, PC);
    return memmove(d, s, n);
}
void* mcrace_memset(void* d, int v, size_t n) {
    access((uintptr_t)d, n, true, PC);
    return memset(d, v, n);
}
int __real___cxa_guard_acquire(void* g);
void __real___cxa_guard_release(void* g);
int __wrap___cxa_guard_acquire(void* g) {
    int r = __real___cxa_guard_acquire(g);
    sync_on(g);
    return r;
}
void __wrap___cxa_guard_release(void* g) {
    sync_on(g);
    __real___cxa_guard_release(g);
}

// memory handed out anew has no history
void* malloc(size_t n) {
    void* p = __libc_malloc(n);
    if (mc::g_race_active)
        forget((uintptr_t)p, n);
    return p;
}
void* calloc(size_t a, size_t b) {
    void* p = __libc_calloc(a, b);
    if (mc::g_race_active)
        forget((uintptr_t)p, a * b);
    return p;
}
void* realloc(void* o, size_t n) {
    void* p = __libc_realloc(o, n);
    if (mc::g_race_active)
        forget((uintptr_t)p, n);
    return p;
}
void* memalign(size_t al, size_t n) {
    void* p = __libc_memalign(al, n);
    if (mc::g_race_active)
        forget((uintptr_t)p, n);
    return p;
}
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** o, size_t al, size_t n) {
    void* p = memalign(al, n);
    if (!p)
        return 12;
    *o = p;
    return 0;
}
void free(void* p) { __libc_free(p); }
}
