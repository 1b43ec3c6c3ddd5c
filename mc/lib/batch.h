// Running many small in-process cases in children, one by one after a crash.
#ifndef MC_BATCH_H
#define MC_BATCH_H
#include "../rt/mcrt.h"
#include "pool.h"
#include <functional>
#include <stdexcept>
#include <string>
#include <unistd.h>
// f(i) returns "" or "key\tmessage"
typedef std::function<std::string(size_t)> Fn;
inline void batch(mcl::Worker& w, size_t from, size_t to, size_t step, const std::string& replay, const Fn& f) {
    std::vector<size_t> idx;
    for (size_t i = from; i < to; i += step)
        idx.push_back(i);
    const size_t CH = 200;
    auto report     = [&](const std::string& s) {
        size_t t = s.find('\t');
        w.violation(s.substr(0, t), t == std::string::npos ? s : s.substr(t + 1), replay);
    };
    for (size_t a = 0; a < idx.size(); a += CH) {
        if (w.expired()) {
            w.st.capped.push_back("time budget: " + w.job);
            return;
        }
        size_t b = std::min(idx.size(), a + CH);
        auto go  = [&](size_t lo, size_t hi) {
            return mc::run_child(
                [&, lo, hi] {
                    std::string out;
                    for (size_t k = lo; k < hi; ++k) {
                        std::string r;
                        try {
                            r = f(idx[k]);
                        } catch (std::exception& e) {
                            r = std::string("exception\t") + e.what();
                        }
                        if (!r.empty() && out.size() < 200000) {
                            for (char& c : r)
                                if (c == '\n')
                                    c = ' ';
                            out += r + "\n";
                        }
                    }
                    mc::put_payload(out.data(), out.size());
                },
                w.scratch, 120.);
        };
        auto r = go(a, b);
        if (r.ok) {
            size_t p = 0;
            while (p < r.payload.size()) {
                size_t q = r.payload.find('\n', p);
                report(r.payload.substr(p, q - p));
                p = q + 1;
            }
        } else
            for (size_t k = a; k < b; ++k) {
                auto s = go(k, k + 1);
                if (!s.ok)
                    report(mcl::fmt("crash\tcase %zu: ", idx[k]) + s.what + mcl::fmt(" (signal %d)", s.signal));
                else if (!s.payload.empty())
                    report(s.payload.substr(0, s.payload.size() - 1));
            }
        w.st.add("cases", b - a);
        if (w.st.viol.size() > 20)
            return;
    }
}
// splits n cases into jobs
inline void spread(std::vector<mcl::Job>& jobs, const std::string& name, size_t n, size_t per, const Fn& f,
                   const std::function<std::string(size_t)>& sample = nullptr, size_t weight = 1) {
    size_t ch = std::max<size_t>(1, std::min<size_t>(64, n / std::max<size_t>(1, per)));
    for (size_t c = 0; c < ch; ++c)
        jobs.push_back({name + mcl::fmt("#%zu", c), [=](mcl::Worker& w) {
                            if (chdir(w.scratch.c_str()))
                                throw std::runtime_error("chdir");
                            batch(w, c, n, ch, "--job " + w.job, f);
                            if (c == 0 && sample)
                                w.st.sample(name + ": " + sample(n / 2));
                            w.st.seen("families", name);
                            w.st.add("states", (n - c + ch - 1) / ch * weight);
                        }});
}
struct Digits {
    size_t x;
    int operator()(int b) {
        int d = x % b;
        x /= b;
        return d;
    }
};
inline size_t ipow(size_t b, size_t e) {
    size_t r = 1;
    while (e--)
        r *= b;
    return r;
}
#endif
