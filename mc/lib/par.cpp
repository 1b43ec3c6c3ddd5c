#include "par.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <sys/stat.h>
#include <unistd.h>

namespace par {
using mcl::fmt;

std::string Decomp::str() const {
    std::string s = "part=";
    for (int p : part)
        s += std::to_string(p);
    s += ",node=";
    for (int p : node)
        s += std::to_string(p);
    s += fmt(",nnodes=%d,rpl=%d,bal=%d", nnodes, rpl, (int)balanced);
    return s;
}
Decomp Decomp::parse(const std::string& t) {
    Decomp d;
    std::istringstream s(t);
    std::string f;
    while (std::getline(s, f, ',')) {
        size_t e      = f.find('=');
        std::string k = f.substr(0, e), v = f.substr(e + 1);
        if (k == "part")
            for (char c : v)
                d.part.push_back(c - '0');
        if (k == "node")
            for (char c : v)
                d.node.push_back(c - '0');
        if (k == "nnodes")
            d.nnodes = std::stoi(v);
        if (k == "rpl")
            d.rpl = std::stoi(v);
        if (k == "bal")
            d.balanced = v == "1";
    }
    d.nparts = d.node.size();
    return d;
}

std::vector<std::vector<int>> set_partitions(int n, int k) {
    std::vector<std::vector<int>> out;
    std::vector<int> a(n, 0);
    std::function<void(int, int)> rec = [&](int i, int mx) {
        if (i == n) {
            if (mx + 1 == k)
                out.push_back(a);
            return;
        }
        for (int v = 0; v <= std::min(mx + 1, k - 1); ++v) {
            a[i] = v;
            rec(i + 1, std::max(mx, v));
        }
    };
    if (n > 0) {
        a[0] = 0;
        rec(1, 0);
    }
    return out;
}
std::vector<std::vector<int>> assignments(int k, int n) {
    std::vector<std::vector<int>> out;
    std::vector<int> a(k, 0);
    std::function<void(int)> rec = [&](int i) {
        if (i == k) {
            if ((int)std::set<int>(a.begin(), a.end()).size() == n)
                out.push_back(a);
            return;
        }
        for (int v = 0; v < n; ++v) {
            a[i] = v;
            rec(i + 1);
        }
    };
    rec(0);
    return out;
}

void user(const Config& c) {
    mc_user_table       = c.table;
    mc_user_ic_mode     = c.user_ic;
    mc_user_source_mode = c.user_src;
    mc_user_true_mode   = c.user_true;
}

std::string run_serial(const Config& c, const std::string& dir, std::vector<sim::Rec>& out) {
    cases::write_case(dir, c.mesh, c.run);
    EntryFn f = serial_entry(c.run.scheme);
    auto r    = mc::run_child(
        [&] {
            user(c);
            if (chdir(dir.c_str()))  // some input is looked for in the working directory
                throw std::runtime_error("chdir " + dir);
            f(dir + "/in.15");
        },
        dir);
    if (!r.ok)
        return "serial run failed: " + (r.what.empty() ? fmt("exit %d signal %d", r.exit_code, r.signal) : r.what);
    out = sim::decode(r.payload);
    if (out.empty())
        return "serial run produced nothing";
    for (auto& x : out)
        for (double v : x.q)
            if (!std::isfinite(v))
                return "serial run: non-finite value in element " + std::to_string(x.id);
    return "";
}

void (*before_partitioner)() = nullptr;
std::string run_partitioner(const Config& c, const Decomp& d, const std::string& dir) {
    cases::write_case(dir, c.mesh, c.run);
    auto r = mc::run_child(
        [&] {
            user(c);
            if (before_partitioner)
                before_partitioner();
            std::vector<std::vector<int64_t>> s;
            if (d.nparts > 1)
                s.push_back(std::vector<int64_t>(d.part.begin(), d.part.end()));
            if (d.nnodes > 1)
                s.push_back(std::vector<int64_t>(d.node.begin(), d.node.end()));
            mc::metis_script(s);
            std::vector<std::string> a{dir + "/in.15", std::to_string(d.nparts), std::to_string(d.nnodes)};
            if (d.rpl > 1 || d.balanced)
                a.push_back(std::to_string(d.rpl));
            if (d.balanced)
                a.push_back("true");
            mc_partitioner(a);
            std::string t = std::to_string(mc::metis_calls()) + " " + std::to_string(s.size());
            mc::put_payload(t.data(), t.size());
        },
        dir);
    if (!r.ok)
        return "partitioner failed: " + (r.what.empty() ? fmt("exit %d signal %d", r.exit_code, r.signal) : r.what);
    return "";
}

mc::ExecResult run_parallel(const Config& c, EntryFn entry, const mc::ExecConfig& ec, const std::string& dir) {
    return mc::execute(
        ec,
        [&](int) {
            user(c);
            if (chdir(dir.c_str()))
                throw std::runtime_error("chdir " + dir);
            entry(dir + "/in_parallelized.15");
        },
        dir);
}

std::vector<sim::Rec> gather(const mc::ExecResult& r) {
    std::vector<sim::Rec> all;
    for (auto& p : r.payload) {
        auto v = sim::decode(p);
        all.insert(all.end(), v.begin(), v.end());
    }
    std::sort(all.begin(), all.end());
    return all;
}

double compare(const std::vector<sim::Rec>& a, const std::vector<sim::Rec>& b, std::string& err) {
    double m = 0;
    err.clear();
    size_t i = 0, j = 0;
    auto name = [](const sim::Rec& r) { return fmt("element %u step %u", r.id, r.step); };
    while (i < a.size() || j < b.size()) {
        if (j == b.size() || (i < a.size() && a[i] < b[j])) {
            err = "missing " + name(a[i]);
            return 1e300;
        }
        if (i == a.size() || b[j] < a[i]) {
            err = "additional " + name(b[j]);
            return 1e300;
        }
        const sim::Rec &x = a[i], &y = b[j];
        if (x.nvar != y.nvar || x.ndof != y.ndof) {
            err = "different size " + name(x);
            return 1e300;
        }
        if (std::fabs(x.t - y.t) > 1e-12 * (1 + std::fabs(x.t)))
            err = "different time " + name(x) + fmt(": %.17g vs %.17g", x.t, y.t), m = 1e300;
        if (x.wet != y.wet)
            err = "different wet/dry state " + name(x), m = 1e300;
        for (size_t k = 0; k < x.q.size(); ++k) {
            double dv = std::fabs(x.q[k] - y.q[k]);
            if (!(dv <= m)) {
                m = std::isnan(dv) ? 1e300 : dv;
                if (m > 1e-9 && err.empty())
                    err = name(x) + fmt(" variable %zu dof %zu: %.17g vs %.17g", k / x.ndof, k % x.ndof, x.q[k], y.q[k]);
            }
        }
        if (m >= 1e300)
            return m;
        ++i;
        ++j;
    }
    return m;
}

// ------------------------------------------------------------------ files
namespace {
struct MetaElt {
    std::vector<long> node, neigh;
    std::vector<int> type;
};
struct Meta {
    std::map<long, MetaElt> elt;
    std::map<long, std::array<double, 3>> node;
};
// own reader of the documented text layout: name, count, rows, count, rows
std::string read_meta(const std::string& f, Meta& m) {
    std::ifstream in(f, std::ios::binary);
    if (!in)
        return "cannot open " + f;
    std::string l;
    std::getline(in, l);
    std::getline(in, l);
    long n = atol(l.c_str());
    for (long i = 0; i < n; ++i) {
        long id, nf, v;
        if (!(in >> id >> nf) || nf != 3)
            return "bad element row in " + f;
        MetaElt e;
        for (int k = 0; k < nf; ++k) {
            in >> v;
            e.node.push_back(v);
        }
        for (int k = 0; k < nf; ++k) {
            in >> v;
            e.neigh.push_back(v);
        }
        // boundary types are single bytes
        for (int k = 0; k < nf; ++k) {
            char sp, c;
            in.get(sp);
            in.get(c);
            if (!in || sp != ' ')
                return "bad boundary types in " + f;
            e.type.push_back((unsigned char)c);
        }
        if (!m.elt.insert({id, e}).second)
            return fmt("element %ld twice in ", id) + f;
        std::getline(in, l);
        if (!l.empty())
            return "trailing characters in " + f;
    }
    std::getline(in, l);
    n = atol(l.c_str());
    for (long i = 0; i < n; ++i) {
        long id;
        std::array<double, 3> c;
        if (!(in >> id >> c[0] >> c[1] >> c[2]))
            return "bad node row in " + f;
        if (!m.node.insert({id, c}).second)
            return fmt("node %ld twice in ", id) + f;
        std::getline(in, l);
    }
    in >> l;
    if (in)
        return "trailing content in " + f;
    return "";
}
struct Face {
    long ea, eb;
    int fa, fb;
    bool operator<(const Face& o) const { return std::tie(ea, eb, fa, fb) < std::tie(o.ea, o.eb, o.fa, o.fb); }
};
}

// connectivity of the mesh derived from the mesh alone
static void truth(const cases::Mesh& m, std::map<long, MetaElt>& out) {
    std::map<std::pair<int, int>, std::vector<std::pair<int, int>>> sides;
    for (size_t e = 0; e < m.elems.size(); ++e)
        for (int k = 0; k < 3; ++k) {
            int a = m.elems[e][(k + 1) % 3], b = m.elems[e][(k + 2) % 3];
            sides[{std::min(a, b), std::max(a, b)}].push_back({(int)e, k});
        }
    std::map<std::pair<int, int>, int> type;
    std::map<std::pair<int, int>, std::pair<int, int>> across;
    auto mark = [&](int a, int b, int t) { type[{std::min(a, b), std::max(a, b)}] = t; };
    for (auto& b : m.open)
        for (size_t i = 0; i + 1 < b.size(); ++i)
            mark(b[i], b[i + 1], 1);
    for (auto& b : m.generic)
        for (size_t i = 0; i + 1 < b.size(); ++i)
            mark(b[i], b[i + 1], 0);
    for (auto& b : m.land)
        for (size_t i = 0; i + 1 < b.nodes.size(); ++i) {
            int t = b.ibtype == 77 ? 3 : b.ibtype == 88 ? 4 : b.ibtype % 10 == 2 ? 2 : b.ibtype % 10 == 4 ? 129 : 0;
            mark(b.nodes[i], b.nodes[i + 1], t);
            if (t == 129) {
                mark(b.back[i], b.back[i + 1], t);
                auto key = [](int x, int y) { return std::make_pair(std::min(x, y), std::max(x, y)); };
                across[key(b.nodes[i], b.nodes[i + 1])] = key(b.back[i], b.back[i + 1]);
                across[key(b.back[i], b.back[i + 1])]   = key(b.nodes[i], b.nodes[i + 1]);
            }
        }
    for (size_t e = 0; e < m.elems.size(); ++e) {
        MetaElt t;
        for (int k = 0; k < 3; ++k) {
            t.node.push_back(m.node_id[m.elems[e][k]]);
            int a = m.elems[e][(k + 1) % 3], b = m.elems[e][(k + 2) % 3];
            std::pair<int, int> key{std::min(a, b), std::max(a, b)};
            auto& s = sides[key];
            if (s.size() == 2) {
                int o = s[0].first == (int)e ? s[1].first : s[0].first;
                t.neigh.push_back(m.elem_id[o]);
                t.type.push_back(128);
            } else {
                int ty = type.count(key) ? type[key] : -1;
                t.type.push_back(ty);
                if (ty == 129)
                    t.neigh.push_back(m.elem_id[sides[across[key]][0].first]);
                else
                    t.neigh.push_back(4294967295l);
            }
        }
        out[m.elem_id[e]] = t;
    }
}

std::string check_files(const Config& c, const Decomp& d, const std::string& dir) {
    std::map<long, MetaElt> T;
    truth(c.mesh, T);
    std::map<long, int> part;
    {
        size_t i = 0;
        for (auto& t : T)
            part[t.first] = d.part[i++];
    }
    // files present
    struct Sub {
        int rank, sub;
        Meta m;
    };
    std::vector<Sub> subs;
    for (int r = 0; r < d.nranks(); ++r)
        for (int s = 0;; ++s) {
            std::string f = dir + fmt("/m_%d_%d.meta", r, s);
            if (access(f.c_str(), R_OK))
                break;
            subs.push_back({r, s, {}});
            std::string e = read_meta(f, subs.back().m);
            if (!e.empty())
                return e;
        }
    if ((int)subs.size() != d.nparts)
        return fmt("%zu submesh files for %d partitions", subs.size(), d.nparts);
    std::map<long, std::pair<int, int>> where;  // element -> rank, submesh
    std::map<int, std::pair<int, int>> part_at;
    for (auto& s : subs) {
        if (s.m.elt.empty())
            return "empty submesh";
        for (auto& e : s.m.elt) {
            if (!T.count(e.first))
                return fmt("unknown element %ld", e.first);
            if (!where.insert({e.first, {s.rank, s.sub}}).second)
                return fmt("element %ld owned twice", e.first);
        }
    }
    for (auto& t : T) {
        if (!where.count(t.first))
            return fmt("element %ld owned by nobody", t.first);
        auto it = part_at.insert({part[t.first], where[t.first]}).first;
        if (it->second != where[t.first])
            return fmt("partition %d spread over several files", part[t.first]);
    }
    // node assignment: all partitions of a node on that node's ranks
    for (auto& p : part_at) {
        int nd = d.nnodes > 1 ? d.node[p.first] : 0;
        if (p.second.first / d.rpl != nd)
            return fmt("partition %d placed on rank %d, not on node %d", p.first, p.second.first, nd);
    }
    if (d.rpl > 1)
        for (int n = 0; n < d.nnodes; ++n) {
            std::vector<int> cnt(d.rpl, 0);
            for (auto& p : part_at)
                if (p.second.first / d.rpl == n)
                    ++cnt[p.second.first % d.rpl];
            if (*std::max_element(cnt.begin(), cnt.end()) - *std::min_element(cnt.begin(), cnt.end()) > 1)
                return fmt("ranks of node %d are not evenly filled", n);
        }
    std::map<long, int> nidx;
    for (size_t i = 0; i < c.mesh.nodes.size(); ++i)
        nidx[c.mesh.node_id[i]] = i;
    // the files may list the vertices of an element in another order, faces are numbered after the opposite vertex
    for (auto& s : subs)
        for (auto& e : s.m.elt) {
            MetaElt t = T[e.first], &o = T[e.first];
            if (e.second.node.size() != 3 || !std::is_permutation(t.node.begin(), t.node.end(), e.second.node.begin()))
                return fmt("element %ld: nodes changed", e.first);
            for (int i = 0; i < 3; ++i) {
                int j = std::find(t.node.begin(), t.node.end(), e.second.node[i]) - t.node.begin();
                o.node[i] = t.node[j], o.type[i] = t.type[j], o.neigh[i] = t.neigh[j];
            }
        }
    std::set<Face> cut;  // expected shared faces, lower element first
    for (auto& s : subs) {
        std::set<long> used;
        for (auto& e : s.m.elt) {
            const MetaElt& t = T[e.first];
            if (e.second.node != t.node)
                return fmt("element %ld: nodes changed", e.first);
            for (long n : t.node)
                used.insert(n);
            for (int k = 0; k < 3; ++k) {
                int want = t.type[k];
                bool in  = want >= 128;
                if (in && where[t.neigh[k]] != where[e.first]) {
                    want += 64;
                    // partner face
                    const MetaElt& o = T[t.neigh[k]];
                    int fo           = -1;
                    for (int j = 0; j < 3; ++j)
                        if (o.neigh[j] == e.first) {
                            if (t.type[k] == 128 && o.type[j] == 128)
                                fo = j;
                            if (t.type[k] == 129 && o.type[j] == 129 && fo < 0)
                                fo = j;
                        }
                    if (e.first < t.neigh[k])
                        cut.insert({e.first, t.neigh[k], k, fo});
                }
                if (e.second.type[k] != want)
                    return fmt("element %ld face %d: boundary type %d, expected %d", e.first, k, e.second.type[k], want);
                if (e.second.neigh[k] != t.neigh[k])
                    return fmt("element %ld face %d: neighbour %ld, expected %ld", e.first, k, e.second.neigh[k], t.neigh[k]);
            }
        }
        if (used.size() != s.m.node.size())
            return fmt("submesh %d_%d lists %zu nodes, uses %zu", s.rank, s.sub, s.m.node.size(), used.size());
        for (auto& n : s.m.node) {
            if (!used.count(n.first))
                return fmt("submesh %d_%d lists unused node %ld", s.rank, s.sub, n.first);
            for (int k = 0; k < 3; ++k) {
                double w = c.mesh.nodes[nidx[n.first]][k];
                if (std::fabs(w - n.second[k]) > 1e-14 * (std::fabs(w) + 1e-3))
                    return fmt("node %ld coordinate %d: %.17g, expected %.17g", n.first, k, n.second[k], w);
            }
        }
    }
    // shared face tables
    std::map<std::pair<std::pair<int, int>, std::pair<int, int>>, std::vector<std::vector<Face>>> tables;
    for (auto& s : subs) {
        std::string f = dir + fmt("/m_%d_%d.dbmd", s.rank, s.sub);
        std::ifstream in(f);
        if (!in)
            return "missing " + f;
        int la, sa, lb, sb, n;
        std::set<std::pair<std::pair<int, int>, std::pair<int, int>>> seen;
        while (in >> la >> sa >> lb >> sb >> n) {
            std::pair<int, int> A{la, sa}, B{lb, sb}, me{s.rank, s.sub};
            if (A != me && B != me)
                return "foreign table in " + f;
            if (A == B)
                return "table with itself in " + f;
            if (!seen.insert({A, B}).second || seen.count({B, A}))
                return "two tables for one neighbour in " + f;
            std::vector<Face> v;
            for (int i = 0; i < n; ++i) {
                long ea, eb;
                int fa, fb, p;
                if (!(in >> ea >> eb >> fa >> fb >> p))
                    return "short table in " + f;
                if (p != c.run.p)
                    return "wrong polynomial order in " + f;
                if (!where.count(ea) || where[ea] != A || !where.count(eb) || where[eb] != B)
                    return fmt("face %ld-%ld listed for the wrong submeshes in ", ea, eb) + f;
                v.push_back({ea, eb, fa, fb});
            }
            tables[{A, B}].push_back(v);
        }
        if (!in.eof())
            return "unreadable content in " + f;
    }
    std::set<Face> got;
    size_t n = 0;
    for (auto& t : tables) {
        if (t.second.size() != 2)
            return "a shared-face table is missing on one side";
        auto &x = t.second[0], &y = t.second[1];
        if (x.size() != y.size())
            return "the two sides list a different number of shared faces";
        for (size_t i = 0; i < x.size(); ++i) {
            if (x[i] < y[i] || y[i] < x[i])
                return "the two sides list shared faces in a different order";
            Face g = x[i].ea < x[i].eb ? x[i] : Face{x[i].eb, x[i].ea, x[i].fb, x[i].fa};
            got.insert(g);
            ++n;
        }
    }
    if (n != got.size())
        return "a shared face is listed twice";
    for (auto& f : cut)
        if (!got.count(f))
            return fmt("shared face of elements %ld (face %d) and %ld (face %d) is not listed", f.ea, f.fa, f.eb, f.fb);
    for (auto& f : got)
        if (!cut.count(f))
            return fmt("listed face %ld/%d-%ld/%d is no cut face", f.ea, f.fa, f.eb, f.fb);
    return "";
}
}
