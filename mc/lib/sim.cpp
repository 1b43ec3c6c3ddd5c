#include "sim.h"
#include "../rt/mcrt.h"
#include <algorithm>
#include <cstring>
#include <stdexcept>
namespace sim {
SinkFn sink    = mc::put_payload;
int dump_every = 1;
int dump_weather = 0;
std::string norm_file;
bool Rec::operator==(const Rec& o) const {
    return step == o.step && id == o.id && wet == o.wet && nvar == o.nvar && ndof == o.ndof &&
           memcmp(&t, &o.t, 8) == 0 && q.size() == o.q.size() && memcmp(q.data(), o.q.data(), 8 * q.size()) == 0;
}
std::vector<Rec> decode(const std::string& p) {
    std::vector<Rec> r;
    size_t i = 0;
    while (i < p.size()) {
        if (i + 48 > p.size())
            throw std::runtime_error("short dump");
        Rec x;
        memcpy(&x, p.data() + i, 48);
        i += 48;
        size_t n = (size_t)x.nvar * x.ndof;
        if (n > 100000 || i + 8 * n > p.size())
            throw std::runtime_error("short dump");
        x.q.resize(n);
        memcpy(x.q.data(), p.data() + i, 8 * n);
        i += 8 * n;
        r.push_back(std::move(x));
    }
    std::sort(r.begin(), r.end());
    return r;
}
std::string encode(const std::vector<Rec>& v) {
    std::string s;
    for (auto& r : v) {
        s.append((const char*)&r, 48);
        s.append((const char*)r.q.data(), 8 * r.q.size());
    }
    return s;
}
}
