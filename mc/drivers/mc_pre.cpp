// Preprocessing: mesh connectivity (P18), files that are written and read back (P19),
// run inputs (P20) and the mesh generator (P22), decided over enumerated inputs.
#include "../lib/batch.h"
#include "../lib/cases.h"
#include "../lib/pool.h"
#include "../lib/pre_shim.h"
#include "../rt/mcrt.h"
#include <algorithm>
#include <time.h>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <functional>
#include <stdexcept>
#include <unistd.h>
using namespace cases;
using mcl::fmt;

// ---- P18: connectivity -------------------------------------------------------------------------
static const unsigned NONE = 4294967295u;
enum Type { T_LAND = 0, T_TIDE = 1, T_FLOW = 2, T_FUNC = 3, T_OUT = 4, T_INT = 128, T_LEVEE = 129 };
typedef std::pair<int, int> Edge;
static Edge edge(int a, int b) { return {std::min(a, b), std::max(a, b)}; }
struct Case {
    Mesh m;
    std::map<Edge, int> type;   // of the outer sides
    std::map<Edge, Edge> across;  // levee: the side on the other bank
    bool fails = false;
    std::string text;
};
// letters for outer sides
struct Letter {
    int ibtype;  // -1 open, -2 generic
    int type;
};
static const Letter LETTERS[] = {{-1, T_TIDE}, {20, T_LAND}, {1, T_LAND}, {22, T_FLOW}, {77, T_FUNC}, {88, T_OUT}, {-2, T_LAND},
                                 {0, T_LAND},  {10, T_LAND}, {11, T_LAND}, {21, T_LAND}, {2, T_FLOW}, {12, T_FLOW}, {32, T_FLOW}, {52, T_FLOW}};
static const int NLET = sizeof LETTERS / sizeof *LETTERS;

static void segment(Case& c, const Letter& l, std::vector<int> nodes, bool rev) {
    if (rev)
        std::reverse(nodes.begin(), nodes.end());
    if (l.ibtype == -1)
        c.m.open.push_back(nodes);
    else if (l.ibtype == -2)
        c.m.generic.push_back(nodes);
    else {
        Boundary b;
        b.ibtype = l.ibtype;
        b.nodes  = nodes;
        c.m.land.push_back(b);
    }
}
// declares the outline with one letter per side; mode bit 0: one segment per side, bit 1: reversed,
// bit 2: closed chains without repeating the first node (islands only)
static Case outlined(const Mesh& m0, const std::vector<int>& word, int mode, int drop = -1) {
    Case c;
    c.m = m0;
    c.m.open.clear();
    c.m.land.clear();
    c.m.generic.clear();
    size_t side = 0;
    for (auto& l : outline(m0)) {
        size_t n = l.size();
        std::vector<int> t(n), gone(n, 0);
        for (size_t i = 0; i < n; ++i) {
            gone[i] = (int)side == drop;
            t[i]    = word[side++ % word.size()];
            c.type[edge(l[i], l[(i + 1) % n])] = LETTERS[t[i]].type;
        }
        if (drop >= 0)
            c.fails = true;
        size_t s0 = 0;
        while (s0 < n && t[s0] == t[(s0 + n - 1) % n] && !(mode & 1) && drop < 0)
            ++s0;
        if (s0 == n) {
            std::vector<int> v = l;
            const Letter& x    = LETTERS[t[0]];
            if (!((mode & 4) && x.ibtype >= 0 && x.ibtype % 10 == 1))
                v.push_back(l[0]);
            segment(c, x, v, mode & 2);
            continue;
        }
        for (size_t i = 0; i < n;) {
            size_t j = i;
            std::vector<int> v{l[(s0 + i) % n]};
            while (j < n && t[(s0 + j) % n] == t[(s0 + i) % n] && (j == i || !(mode & 1)) && (j == i || drop < 0)) {
                v.push_back(l[(s0 + j + 1) % n]);
                ++j;
            }
            if (!gone[(s0 + i) % n])
                segment(c, LETTERS[t[(s0 + i) % n]], v, mode & 2);
            i = j;
        }
    }
    c.text = describe(c.m);
    return c;
}
// outer sides of any set of triangles, pinched or not
static std::vector<Edge> rim(const Mesh& m) {
    std::map<Edge, int> n;
    std::vector<Edge> order, out;
    for (auto& e : m.elems)
        for (int k = 0; k < 3; ++k)
            if (!n[edge(e[(k + 1) % 3], e[(k + 2) % 3])]++)
                order.push_back(edge(e[(k + 1) % 3], e[(k + 2) % 3]));
    for (auto& e : order)
        if (n[e] == 1)
            out.push_back(e);
    return out;
}

static std::string examine(const Case& c, const pre::Meta& got) {
    const Mesh& m = c.m;
    if (got.name != m.name)
        return "name\tthe mesh is called " + got.name;
    if (got.node.size() != m.nodes.size() || got.elem.size() != m.elems.size())
        return fmt("size\t%zu nodes and %zu elements", got.node.size(), got.elem.size());
    std::map<unsigned, int> idx;
    for (size_t i = 0; i < m.nodes.size(); ++i) {
        idx[m.node_id[i]] = i;
        auto it           = got.node.find(m.node_id[i]);
        if (it == got.node.end())
            return fmt("node\tnode %u is missing", m.node_id[i]);
        for (int k = 0; k < 3; ++k)
            if (it->second[k] != m.nodes[i][k])
                return fmt("node\tnode %u has coordinate %.17g instead of %.17g", m.node_id[i], it->second[k], m.nodes[i][k]);
    }
    std::map<Edge, std::vector<int>> users;
    for (size_t e = 0; e < m.elems.size(); ++e)
        for (int k = 0; k < 3; ++k)
            users[edge(m.elems[e][(k + 1) % 3], m.elems[e][(k + 2) % 3])].push_back(e);
    for (size_t e = 0; e < m.elems.size(); ++e) {
        auto it = got.elem.find(m.elem_id[e]);
        if (it == got.elem.end())
            return fmt("element\telement %u is missing", m.elem_id[e]);
        const pre::Elem& x = it->second;
        if (x.node.size() != 3 || x.neigh.size() != 3 || x.type.size() != 3)
            return fmt("element\telement %u has %zu nodes", m.elem_id[e], x.node.size());
        std::array<int, 3> v;
        for (int k = 0; k < 3; ++k) {
            if (!idx.count(x.node[k]))
                return fmt("element\telement %u has node %u", m.elem_id[e], x.node[k]);
            v[k] = idx[x.node[k]];
        }
        std::array<int, 3> sa = v, sb = m.elems[e];
        std::sort(sa.begin(), sa.end());
        std::sort(sb.begin(), sb.end());
        if (sa != sb)
            return fmt("element\telement %u has other nodes", m.elem_id[e]);
        auto& A = m.nodes[v[0]];
        auto& B = m.nodes[v[1]];
        auto& C = m.nodes[v[2]];
        if (!((B[0] - A[0]) * (C[1] - A[1]) - (C[0] - A[0]) * (B[1] - A[1]) > 0))
            return fmt("orientation\telement %u is clockwise", m.elem_id[e]);
        for (int k = 0; k < 3; ++k) {
            Edge s     = edge(v[(k + 1) % 3], v[(k + 2) % 3]);
            auto& us   = users[s];
            int ty     = T_INT;
            unsigned n = NONE;
            if (us.size() == 2)
                n = m.elem_id[us[0] == (int)e ? us[1] : us[0]];
            else {
                ty = c.type.at(s);
                if (ty == T_LEVEE)
                    n = m.elem_id[users.at(c.across.at(s))[0]];
            }
            if (x.type[k] != ty)
                return fmt("type:%d\tside %d of element %u (nodes %u and %u) has type %d instead of %d; ", ty, k, m.elem_id[e],
                           m.node_id[s.first], m.node_id[s.second], x.type[k], ty) + c.text;
            if (x.neigh[k] != n)
                return fmt("neighbour\tside %d of element %u (nodes %u and %u) borders on element %u instead of %u; ", k, m.elem_id[e],
                           m.node_id[s.first], m.node_id[s.second], x.neigh[k], n) + c.text;
        }
    }
    return "";
}
static std::string decide(const Case& c) {
    mcl::write_file("c.14", c.m.fort14());
    pre::Meta got;
    try {
        got = pre::connect("c.14");
    } catch (std::exception& e) {
        return c.fails ? "" : std::string("refused\t") + e.what() + "; " + c.text;
    }
    if (c.fails)
        return "undeclared\ta side without a boundary is accepted; " + c.text;
    return examine(c, got);
}
static void relabel(Case& c, int how) {
    for (size_t i = 0; i < c.m.node_id.size(); ++i)
        c.m.node_id[i] = how == 1 ? c.m.node_id.size() - 1 - i : how == 2 ? 4000000000u - 977 * i : how == 3 ? 7 + 65536 * ((i * 5) % c.m.node_id.size()) + i : i + 1;
    for (size_t i = 0; i < c.m.elem_id.size(); ++i)
        c.m.elem_id[i] = how == 1 ? i : how == 2 ? 17 + 1000003 * i : how == 3 ? 2000000000u - i : i + 1;
}
static size_t rim_size(const Mesh& m) { return rim(m).size(); }
// two banks as they come from levee_mesh, and a slit in a grid whose ends are closed
static Case levee_case(int n, int mode, int split) {
    // mode bits: 1 listed from the last node, 2 banks exchanged, 4 declared before the other boundaries, 8 everything clockwise
    Case c;
    c.m            = levee_mesh(n);
    Boundary lv    = c.m.land.back();
    c.m.land.pop_back();
    for (auto& s : rim(c.m))
        c.type[s] = T_LAND;
    for (int i = 0; i < n; ++i) {
        Edge f = edge(lv.nodes[i], lv.nodes[i + 1]), b = edge(lv.back[i], lv.back[i + 1]);
        c.type[f] = c.type[b] = T_LEVEE;
        c.across[f]           = b;
        c.across[b]           = f;
    }
    std::vector<Boundary> parts;
    // split: bit i cuts at interior node i + 1
    size_t st = 0;
    for (int i = 1; i <= n; ++i)
        if (i == n || (split >> (i - 1) & 1)) {
            Boundary p;
            p.ibtype = i % 2 ? 24 : 4;
            for (size_t k = st; k <= (size_t)i; ++k) {
                p.nodes.push_back(lv.nodes[k]);
                p.back.push_back(lv.back[k]);
                p.levee.push_back(lv.levee[k]);
            }
            st = i;
            if (mode & 1) {
                std::reverse(p.nodes.begin(), p.nodes.end());
                std::reverse(p.back.begin(), p.back.end());
                std::reverse(p.levee.begin(), p.levee.end());
            }
            if (mode & 2)
                std::swap(p.nodes, p.back);
            parts.push_back(p);
        }
    c.m.land.insert(mode & 4 ? c.m.land.begin() : c.m.land.end(), parts.begin(), parts.end());
    if (mode & 8)
        for (size_t e = 0; e < c.m.elems.size(); ++e)
            flip(c.m, e);
    c.text = fmt("levee of %d sides, mode %d, cuts %d", n, mode, split);
    return c;
}
static Case slit_case(int n, int mode) {
    // a grid of n + 2 by 3 quads without the quads 1..n of the middle row: the long sides of the hole are a levee
    Case c;
    Mesh g = grid(n + 2, 3, mode >> 3);
    Mesh m = g;
    m.elems.clear();
    int nx = n + 2;
    for (size_t e = 0; e < g.elems.size(); ++e) {
        int q = e / 2, i = q % nx, j = q / nx;
        if (!(j == 1 && i >= 1 && i <= n))
            m.elems.push_back(g.elems[e]);
    }
    m.elem_id.clear();
    m.defaults();
    auto id = [&](int i, int j) { return j * (nx + 1) + i; };
    m.land.clear();
    m.open.clear();
    Boundary lv;
    lv.ibtype = 24;
    std::set<Edge> hole;
    for (int i = 1; i <= n + 1; ++i) {
        lv.nodes.push_back(id(i, 1));
        lv.back.push_back(id(i, 2));
        lv.levee.push_back({0.3, 1., 1.});
        if (i > 1) {
            Edge f = edge(id(i - 1, 1), id(i, 1)), b = edge(id(i - 1, 2), id(i, 2));
            c.type[f] = c.type[b] = T_LEVEE;
            c.across[f]           = b;
            c.across[b]           = f;
        }
    }
    // the short sides of the hole belong to the levee's ends, the rest is land or open
    for (auto& s : rim(m))
        if (!c.type.count(s)) {
            bool end = s == edge(id(1, 1), id(1, 2)) || s == edge(id(n + 1, 1), id(n + 1, 2));
            bool op  = !end && (s.first + s.second) % 3 == 0;
            c.type[s] = op ? T_TIDE : T_LAND;
            if (op)
                m.open.push_back({s.first, s.second});
            else if (!end) {
                Boundary b;
                b.ibtype = 0;
                b.nodes  = {s.first, s.second};
                m.land.push_back(b);
            }
        }
    if (mode & 1) {
        std::reverse(lv.nodes.begin(), lv.nodes.end());
        std::reverse(lv.back.begin(), lv.back.end());
    }
    if (mode & 2)
        std::swap(lv.nodes, lv.back);
    m.land.insert(mode & 4 ? m.land.begin() : m.land.end(), lv);
    c.m    = m;
    c.text = fmt("slit of %d sides, mode %d", n, mode);
    return c;
}
// a closed levee: a triangle inside the hole of a ring
static Case moat_case(int mode) {
    Case c;
    Mesh m;
    m.name = "moat";
    for (int i = 0; i < 3; ++i)
        for (double r : {1.0, 1.2, 2.0}) {
            double a = 0.2 + i * 2 * M_PI / 3;
            m.nodes.push_back({10 * r * std::cos(a), 10 * r * std::sin(a), 2.0});
        }
    m.elems = {{0, 3, 6}};
    for (int i = 0; i < 3; ++i) {
        int a = 3 * i + 1, b = 3 * ((i + 1) % 3) + 1;
        m.elems.push_back({a, a + 1, b});
        m.elems.push_back({b, a + 1, b + 1});
    }
    Boundary lv, out;
    lv.ibtype = 4;
    out.ibtype = 20;
    int s = (mode >> 2) % 3;
    for (int k = 0; k <= 3; ++k) {
        int i = (k + s) % 3;
        lv.nodes.push_back(3 * i);
        lv.back.push_back(3 * i + 1);
        lv.levee.push_back({0.2, 1., 1.});
        out.nodes.push_back(3 * i + 2);
    }
    for (int i = 0; i < 3; ++i) {
        int j  = (i + 1) % 3;
        Edge f = edge(3 * i, 3 * j), b = edge(3 * i + 1, 3 * j + 1);
        c.type[f] = c.type[b] = T_LEVEE;
        c.across[f]           = b;
        c.across[b]           = f;
        c.type[edge(3 * i + 2, 3 * j + 2)] = T_LAND;
    }
    if (mode & 1) {
        std::reverse(lv.nodes.begin(), lv.nodes.end());
        std::reverse(lv.back.begin(), lv.back.end());
    }
    if (mode & 2)
        std::swap(lv.nodes, lv.back);
    m.land = {lv, out};
    m.defaults();
    c.m    = m;
    c.text = fmt("closed levee, mode %d", mode);
    return c;
}

static void connectivity(std::vector<mcl::Job>& jobs, bool th) {
    // every assignment of boundary kinds to the outer sides
    struct Fam {
        const char* name;
        Mesh m;
        int letters;
    };
    std::vector<Fam> fams = {{"triangle", triangle(), NLET}, {"pair", pair_mesh(), 7}, {"fan", fan4(), 7}, {"star", star(), th ? 7 : 4},
                             {"strip2", strip(2), th ? 7 : 3}, {"ring", ring(), th ? 5 : 3}};
    for (auto& f : fams) {
        size_t n = rim_size(f.m), words = ipow(f.letters, n), modes = 8;
        Mesh m   = f.m;
        int L    = f.letters;
        auto mk  = [=](size_t i) {
            Digits d{i};
            int mode = d(modes);
            std::vector<int> w;
            for (size_t k = 0; k < n; ++k)
                w.push_back(d(L));
            Case c = outlined(m, w, mode);
            relabel(c, i % 4);
            return c;
        };
        spread(jobs, std::string("words/") + f.name, words * modes, 2000, [=](size_t i) { return decide(mk(i)); }, [=](size_t i) { return mk(i).text; });
        // a side that no boundary mentions
        spread(jobs, std::string("undeclared/") + f.name, n * L, 500, [=](size_t i) {
            std::vector<int> w(n, i / n);
            return decide(outlined(m, w, 1, i % n));
        });
    }
    // every set of triangles of a grid: holes, pinched nodes, separate pieces
    for (int v = 0; v < (th ? 3 : 2); ++v) {
        Mesh g   = v == 2 ? grid(3, 2, 0) : grid(2, 2, v);
        size_t n = g.elems.size();
        auto mk  = [=](size_t i) {
            Case c;
            c.m = g;
            c.m.elems.clear();
            for (size_t e = 0; e < n; ++e)
                if ((i + 1) >> e & 1) {
                    c.m.elems.push_back(g.elems[e]);
                    rotate_elem(c.m, c.m.elems.size() - 1, i % 3);
                    if ((i >> 3) % 2)
                        flip(c.m, c.m.elems.size() - 1);
                }
            c.m.elem_id.clear();
            c.m.open.clear();
            c.m.land.clear();
            c.m.defaults();
            size_t k = i;
            for (auto& s : rim(c.m)) {
                const Letter& l = LETTERS[k++ % NLET];
                c.type[s]       = l.type;
                segment(c, l, {s.first, s.second}, k % 2);
            }
            relabel(c, (i / 7) % 4);
            c.text = fmt("triangles %#zx", i + 1);
            return c;
        };
        spread(jobs, fmt("subsets/%d", v), (size_t(1) << n) - 1, 300, [=](size_t i) { return decide(mk(i)); }, [=](size_t i) { return mk(i).text; });
    }
    // vertex rotations, orientations and file orders of the elements
    for (auto& f : {fan4(), star()}) {
        Mesh m   = f;
        size_t n = m.elems.size();
        spread(jobs, "orientations/" + m.name, ipow(6, n), 1000, [=](size_t i) {
            Digits d{i};
            Case c = outlined(m, {0, 3, 4, 5}, 0);
            for (size_t e = 0; e < n; ++e) {
                int x = d(6);
                rotate_elem(c.m, e, x % 3);
                if (x > 2)
                    flip(c.m, e);
            }
            return decide(c);
        });
    }
    // levees
    int nl = th ? 6 : 4;
    for (int n = 1; n <= nl; ++n)
        spread(jobs, fmt("levees/%d", n), 16 << (n - 1), 1000, [=](size_t i) {
            Case c = levee_case(n, i % 16, i / 16);
            relabel(c, (i / 5) % 4);
            return decide(c);
        });
    for (int n = 1; n <= nl; ++n)
        spread(jobs, fmt("slits/%d", n), 16, 1000, [=](size_t i) {
            Case c = slit_case(n, i);
            relabel(c, i % 4);
            return decide(c);
        });
    spread(jobs, "moats", 12, 1000, [=](size_t i) { return decide(moat_case(i)); });
    // every boundary code: known ones are accepted, unknown ones refused
    spread(jobs, "codes", 100, 1000, [=](size_t i) {
        Case c;
        c.m = triangle();
        c.m.land.clear();
        Boundary b;
        b.ibtype = i;
        b.nodes  = {0, 1, 2, 0};
        c.m.land.push_back(b);
        int ty = i == 77 ? T_FUNC : i == 88 ? T_OUT : i % 10 < 2 ? T_LAND : i % 10 == 2 ? T_FLOW : -1;
        if (i % 10 == 4)
            return std::string();  // levees have their own family
        c.fails = ty < 0;
        for (auto& s : rim(c.m))
            c.type[s] = ty;
        c.text = fmt("boundary code %zu", i);
        return decide(c);
    });
}

// ---- P19: files -----------------------------------------------------------------------------------
static const double VALUES[] = {0., 1., -1., 0.1, -123456.789012345, 6378200.25, 1e-12, 3.14159265358979, 1e20, -2.5e-7, 99999.9999999999, 0.333333333333333, 123456789012345., -0.0625};
static const int NVAL = sizeof VALUES / sizeof *VALUES;
static std::string same14(const pre::Adc& a, const pre::Adc& b, const char* what) {
    std::string w = std::string(what) + "\t";
    if (a.name != b.name)
        return w + "names differ";
    if (a.node != b.node) {
        for (auto& n : a.node)
            if (!b.node.count(n.first))
                return w + fmt("node %u is missing", n.first);
            else
                for (int k = 0; k < 3; ++k)
                    if (n.second[k] != b.node.at(n.first)[k])
                        return w + fmt("node %u: %.17g and %.17g", n.first, n.second[k], b.node.at(n.first)[k]);
        return w + "nodes differ";
    }
    if (a.elem != b.elem)
        return w + "elements differ";
    if (a.open != b.open)
        return w + "open boundaries differ";
    if (a.land != b.land || a.ibtype != b.ibtype)
        return w + "land boundaries differ";
    if (a.generic != b.generic)
        return w + "generic boundaries differ";
    if (a.counts != b.counts) {
        std::string s = w + "totals differ:";
        for (size_t i = 0; i < a.counts.size(); ++i)
            s += fmt(" %u/%u", a.counts[i], b.counts[i]);
        return s;
    }
    if (a.back != b.back || a.height != b.height || a.sub != b.sub || a.sup != b.sup)
        return w + "levees differ";
    return "";
}
static pre::Adc as14(const Mesh& m) {
    pre::Adc a;
    a.name = m.name;
    for (size_t i = 0; i < m.nodes.size(); ++i)
        a.node[m.node_id[i]] = m.nodes[i];
    for (size_t e = 0; e < m.elems.size(); ++e)
        a.elem[m.elem_id[e]] = {m.node_id[m.elems[e][0]], m.node_id[m.elems[e][1]], m.node_id[m.elems[e][2]]};
    auto ids = [&](const std::vector<int>& v) {
        std::vector<unsigned> r;
        for (int k : v)
            r.push_back(m.node_id[k]);
        return r;
    };
    unsigned no = 0, nl = 0, ng = 0;
    for (auto& b : m.open)
        a.open.push_back(ids(b)), no += b.size();
    for (auto& b : m.generic)
        a.generic.push_back(ids(b)), ng += b.size();
    for (size_t k = 0; k < m.land.size(); ++k) {
        auto& b = m.land[k];
        a.land.push_back(ids(b.nodes)), nl += b.nodes.size();
        a.ibtype.push_back(b.ibtype);
        if (b.ibtype % 10 == 4) {
            a.back[k] = ids(b.back);
            for (auto& l : b.levee)
                a.height[k].push_back(l.H), a.sub[k].push_back(l.Csub), a.sup[k].push_back(l.Csup);
        }
    }
    a.counts = {(unsigned)m.open.size(), no, (unsigned)m.land.size(), nl, (unsigned)m.generic.size(), ng};
    return a;
}
// the file with another ending or with remarks
static std::string variant(const std::string& s, bool nogen, int how) {
    std::string t = s;
    if (nogen) {  // without the section of generic boundaries
        size_t p = t.find("0 = generic");
        t        = t.substr(0, p);
    }
    if (how == 1 && !t.empty())
        t.pop_back();
    if (how == 2)
        t += "\n";
    if (how == 3) {
        std::string u;
        size_t p = t.find('\n') + 1;
        u        = t.substr(0, p - 1) + " a mesh\n";
        while (p < t.size()) {
            size_t q = t.find('\n', p);
            u += "  " + t.substr(p, q - p) + "   ! remark 7\n";
            p = q + 1;
        }
        t = u;
    }
    return t;
}
static std::string roundtrip14(const Mesh& m, int how) {
    bool nogen  = m.generic.empty() && (how & 4);
    std::string t = variant(m.fort14(), nogen, how & 3);
    mcl::write_file("a.14", t);
    pre::Adc want = as14(m);
    std::string e = same14(pre::read14("a.14"), want, "read14");
    if (!e.empty())
        return e + fmt(" (variant %d)", how);
    pre::copy14("a.14", "b.14");
    e = same14(pre::read14("b.14"), want, "write14");
    if (!e.empty())
        return e + fmt(" after writing (variant %d)", how);
    return "";
}
static std::string same_meta(const pre::Meta& a, const pre::Meta& b) {
    if (a.name != b.name)
        return "meta\tnames differ";
    for (auto& n : a.node)
        if (!b.node.count(n.first) || b.node.at(n.first) != n.second)
            return fmt("meta\tnode %u differs", n.first);
    for (auto& e : a.elem)
        if (!b.elem.count(e.first) || !(b.elem.at(e.first) == e.second))
            return fmt("meta\telement %u differs", e.first);
    if (a.node.size() != b.node.size() || a.elem.size() != b.elem.size())
        return "meta\tsizes differ";
    return "";
}
static std::string g17(double v) { return fmt("%.17g", v); }

static void files(std::vector<mcl::Job>& jobs, bool th) {
    // boundary kinds and segments
    struct Fam {
        const char* name;
        Mesh m;
        int letters;
    };
    std::vector<Fam> fams = {{"triangle", triangle(), NLET}, {"pair", pair_mesh(), th ? 7 : 5}, {"fan", fan4(), th ? 7 : 4}};
    for (auto& f : fams) {
        size_t n = rim_size(f.m);
        Mesh m   = f.m;
        int L    = f.letters;
        auto mk  = [=](size_t i) {
            Digits d{i / 8};
            std::vector<int> w;
            for (size_t k = 0; k < n; ++k)
                w.push_back(d(L));
            Case c = outlined(m, w, i % 3);
            relabel(c, i % 4);
            for (size_t k = 0; k < c.m.nodes.size(); ++k)
                for (int j = 0; j < 3; ++j)
                    c.m.nodes[k][j] = VALUES[(i + 5 * k + 3 * j) % NVAL];
            return c.m;
        };
        spread(jobs, std::string("mesh-file/") + f.name, 8 * ipow(L, n), 1000, [=](size_t i) { return roundtrip14(mk(i), i % 8); }, [=](size_t i) { return describe(mk(i)); });
    }
    // coordinates
    spread(jobs, "coordinates", NVAL * NVAL * NVAL, 1000, [=](size_t i) {
        Mesh m     = triangle();
        m.nodes[1] = {VALUES[i % NVAL], VALUES[i / NVAL % NVAL], VALUES[i / NVAL / NVAL]};
        return roundtrip14(m, 0);
    });
    // levees
    for (int n = 1; n <= (th ? 5 : 3); ++n)
        spread(jobs, fmt("mesh-file/levee%d", n), 8 * (16 << (n - 1)), 1000, [=](size_t i) {
            Case c = levee_case(n, i / 8 % 16, i / 128);
            relabel(c, i % 4);
            for (auto& p : c.m.nodes)
                for (double& v : p)
                    v = std::stod(fmt("%.15g", v));
            for (auto& b : c.m.land)
                for (size_t k = 0; k < b.levee.size(); ++k)
                    b.levee[k] = {VALUES[(i + k) % NVAL], VALUES[(i + 3 * k + 1) % NVAL], VALUES[(i + 7 * k + 2) % NVAL]};
            return roundtrip14(c.m, i % 8);
        });
    // connectivity files: every boundary kind on every side
    static const int TY[] = {0, 1, 2, 3, 4, 128, 129, 64, 65, 66, 67, 68, 192, 193};
    size_t nt             = sizeof TY / sizeof *TY;
    spread(jobs, "connectivity-file", nt * nt * nt * 4, 2000, [=](size_t i) {
        pre::Meta a;
        a.name = "some-mesh";
        int how = i % 4;
        size_t x = i / 4;
        for (unsigned e = 0; e < 3; ++e) {
            pre::Elem& el = a.elem[how == 0 ? e : how == 1 ? 100 + e : how == 2 ? 4000000000u + e : 65536 * e + 1];
            el.node       = {3 * e + 1, 3 * e + 2, 4294967290u - e};
            el.neigh      = {(i % 2) ? NONE : e, e * 7 + 1, NONE - e};
            el.type       = {TY[(x + e) % nt], TY[(x / nt + 5 * e) % nt], TY[(x / nt / nt + 3 * e) % nt]};
        }
        for (unsigned k = 0; k < 4; ++k)
            a.node[how == 2 ? 4294967290u + k : k + how] = {VALUES[(i + k) % NVAL], VALUES[(x + 3 * k + 1) % NVAL], VALUES[(x / 7 + 5 * k + 2) % NVAL]};
        pre::write_meta(a, "a.meta");
        return same_meta(a, pre::read_meta("a.meta"));
    });
    // the connectivity file written for a mesh
    for (int n = 1; n <= 3; ++n)
        spread(jobs, fmt("connectivity-file/levee%d", n), 16 << (n - 1), 1000, [=](size_t i) {
            Case c = levee_case(n, i % 16, i / 16);
            relabel(c, i % 4);
            for (auto& p : c.m.nodes)  // fifteen digits are carried
                for (double& v : p)
                    v = std::stod(fmt("%.12g", v));
            mcl::write_file("a.14", c.m.fort14());
            pre::convert_meta("a.14", "a.meta");
            pre::Meta got = pre::read_meta("a.meta");
            std::string e = examine(c, got);
            return e;
        });
    // shared side lists, read by the submesh on either side
    spread(jobs, "shared-sides", 81 * 4 * 3, 1000, [=](size_t i) {
        Digits d{i};
        unsigned la = d(3), sa = d(3), lb = d(3), sb = d(3);
        int lists = 1 + d(4), len = d(3);
        if (la == lb && sa == sb)
            return std::string();
        std::string t;
        std::vector<std::vector<std::array<unsigned, 5>>> want;
        std::vector<char> first;
        for (int l = 0; l < lists; ++l) {
            // this submesh is named first or second
            bool fst  = (l + i) % 2;
            unsigned lc = lb + l, sc = sb + l;  // the other one
            if (lc == la && sc == sa)
                return std::string();
            t += fst ? fmt("%u %u %u %u %d\n", la, sa, lc, sc, len + l % 2) : fmt("%u %u %u %u %d\n", lc, sc, la, sa, len + l % 2);
            want.push_back({});
            first.push_back(fst);
            for (int k = 0; k < len + l % 2; ++k) {
                unsigned in = 10 * l + k + 1, ex = 4000000000u - k, bi = (k + l) % 3, be = (k + 2 * l + 1) % 3, p = 1 + k % 3;
                t += fst ? fmt("%u %u %u %u %u\n", in, ex, bi, be, p) : fmt("%u %u %u %u %u\n", ex, in, be, bi, p);
                want.back().push_back({in, ex, bi, be, p});
            }
        }
        mcl::write_file("a.dbmd", t);
        auto got = pre::read_dbmd("a.dbmd", la, sa);
        if (got.size() != want.size())
            return fmt("shared\t%zu lists instead of %zu", got.size(), want.size());
        for (int l = 0; l < lists; ++l) {
            std::array<unsigned, 4> who = {la, lb + l, sa, sb + l};
            if (got[l].who != who)
                return fmt("shared\tlist %d is between other submeshes", l);
            if (got[l].pair != want[l])
                return fmt("shared\tlist %d of case %zu differs", l, i);
        }
        return std::string();
    });
    // forcing and levee data
    spread(jobs, "forcing-file", 4 * 4 * 3 * 4 * 3, 500, [=](size_t i) {
        Digits d{i};
        int nt_ = d(4), nf = d(4), ncon = 1 + d(3), nn = 1 + d(4), nlev = d(3);
        std::string t;
        pre::Values want;
        auto part = [&](const char* k, int count, int type) {
            for (int b = 0; b < count; ++b) {
                t += fmt("%d %d\n%d\n", type, nn, ncon);
                std::map<unsigned, std::string> s;
                for (int c = 0; c < ncon; ++c) {
                    double f = VALUES[(i + c) % NVAL], ff = VALUES[(i + 2 * c + b) % NVAL], eq = VALUES[(i + 3 * c + 4) % NVAL];
                    t += g17(f) + " " + g17(ff) + " " + g17(eq) + "\n";
                    for (int n = 0; n < nn; ++n) {
                        unsigned id = 1000 * b + 7 * (nn - n);
                        double am = VALUES[(i + 5 * n + c) % NVAL], ph = VALUES[(i + 7 * n + c + 1) % NVAL];
                        t += fmt("%u ", id) + g17(am) + " " + g17(ph) + "\n";
                        s[id] += g17(f) + " " + g17(ff) + " " + g17(eq) + " " + g17(am) + " " + g17(ph) + ";";
                    }
                }
                for (auto& x : s)
                    want[std::string(k) + fmt("%d.%u", b, x.first)] = x.second;
            }
        };
        auto levees = [&] {
            for (int b = 0; b < nlev; ++b) {
                t += fmt("129 %d\n", nn);
                for (int n = 0; n < nn; ++n) {
                    double h = VALUES[(i + n) % NVAL], cs = VALUES[(i + n + 3) % NVAL], cp = VALUES[(i + n + 8) % NVAL];
                    t += fmt("%d %d ", 100 * b + n, 5000 - n) + g17(h) + " " + g17(cs) + " " + g17(cp) + "\n";
                    want[fmt("levee.%d.%d", 100 * b + n, 5000 - n)] = g17(h) + " " + g17(cs) + " " + g17(cp);
                }
            }
        };
        if (i % 2) {
            part("tide", nt_, 1);
            part("flow", nf, 2);
            levees();
        } else {
            levees();
            part("flow", nf, 2);
            part("tide", nt_, 1);
        }
        mcl::write_file("a.bcis", t);
        auto got = pre::read_bcis("a.bcis");
        for (auto& x : want)
            if (!got.count(x.first) || got[x.first] != x.second)
                return "forcing\t" + x.first + ": " + got[x.first] + " instead of " + x.second;
        return got.size() == want.size() ? std::string() : fmt("forcing\t%zu entries instead of %zu", got.size(), want.size());
    });
}

// ---- P20: run inputs ---------------------------------------------------------------------------------
// a choice of one section: its text and what it means
struct Pick {
    std::string yaml;
    pre::Values means;   // differs from the defaults
    bool fails = false;
};
typedef std::vector<Pick> Section;
static long long days(int y, int m, int d) {  // since 1970-01-01
    long long n = 0;
    auto leap   = [](int q) { return (q % 4 == 0 && q % 100 != 0) || q % 400 == 0; };
    static const int L[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    for (int q = 1970; q < y; ++q)
        n += 365 + leap(q);
    for (int k = 1; k < m; ++k)
        n += L[k - 1] + (k == 2 && leap(y));
    return n + d - 1;
}
struct When {
    int y, mo, d, h, mi, s;
    std::string str() const { return fmt("%02d-%02d-%04d %02d:%02d:%02d", d, mo, y, h, mi, s); }
    long long sec() const { return days(y, mo, d) * 86400 + h * 3600 + mi * 60 + s; }
};
static std::vector<Section> problem_sections() {
    std::vector<Section> S;
    auto M = [](std::initializer_list<std::pair<const std::string, std::string>> l) { return pre::Values(l); };
    S.push_back({{"  gravity: 9.5\n", M({{"p.g", "9.5"}})}, {"", {}}, {"  gravity: 0.1\n  density_air: 1.5\n", M({{"p.g", g17(0.1)}, {"p.rho_a", "1.5"}})},
                 {"  density_water: 1025.125\n", M({{"p.rho_w", "1025.125"}})}});
    S.push_back({{"", {}},
                 {"  spherical_projection:\n    longitude_o: -75.25\n    latitude_o: 30.1\n    R: 6378206.4\n",
                  M({{"p.sph", "1"}, {"p.sph.lon", "-75.25"}, {"p.sph.lat", g17(30.1)}, {"p.sph.R", g17(6378206.4)}})},
                 {"  spherical_projection:\n    longitude_o: -75.25\n    latitude_o: 30.1\n", {}},
                 {"  spherical_projection:\n    latitude_o: 30.1\n    R: 1\n", {}},
                 {"  spherical_projection:\n    longitude_o: 30.1\n    R: 1\n", {}}});
    S.push_back({{"", {}},
                 {"  initial_conditions:\n    type: Constant\n    initial_surface_height: 0.3\n    initial_momentum_x: -1.25\n    initial_momentum_y: 2e-3\n",
                  M({{"p.ic", "constant"}, {"p.ic.ze", g17(0.3)}, {"p.ic.qx", "-1.25"}, {"p.ic.qy", g17(2e-3)}})},
                 {"  initial_conditions:\n    type: Function\n", M({{"p.ic", "function"}})},
                 {"  initial_conditions:\n    type: Constant\n    initial_surface_height: 0.3\n    initial_momentum_x: -1.25\n", {}},
                 {"  initial_conditions:\n    type: Constant\n    initial_momentum_x: 0.3\n    initial_momentum_y: -1.25\n", {}},
                 {"  initial_conditions:\n    type: Other\n", {}},
                 {"  initial_conditions:\n    initial_surface_height: 1\n", {}}});
    S.push_back({{"", {}}, {"  function_source: Enable\n", M({{"p.source", "1"}})}, {"  function_source: Other\n", {}}, {"  function_source:\n", {}}});
    S.push_back({{"", {}},
                 {"  bottom_friction:\n    type: Chezy\n    coefficient: 0.0025\n", M({{"p.fric", "chezy"}, {"p.fric.c", g17(0.0025)}})},
                 {"  bottom_friction:\n    type: Manning\n    coefficient: 0.003\n    input_file: some/m.n\n",
                  M({{"p.fric", "manning"}, {"p.fric.c", g17(0.003)}, {"p.fric.file", "some/m.n"}})},
                 {"  bottom_friction:\n    type: Chezy\n", {}},
                 {"  bottom_friction:\n    type: Manning\n    coefficient: 0.003\n", {}},
                 {"  bottom_friction:\n    type: Manning\n    input_file: a\n", {}},
                 {"  bottom_friction:\n    type: Other\n    coefficient: 1\n", {}},
                 {"  bottom_friction:\n    coefficient: 1\n", {}},
                 {"  bottom_friction:\n    type: Chezy\n    coefficient: -0.5\n", {}, true},
                 {"  bottom_friction:\n    type: Manning\n    coefficient: -0.5\n    input_file: a\n", {}, true}});
    S.push_back({{"", {}},
                 {"  meteo_forcing:\n    type: Test\n    raw_input_file: r.in\n    input_file: f.in\n    frequency: 12.5\n",
                  M({{"p.meteo", "1"}, {"p.meteo.type", "Test"}, {"p.meteo.raw", "r.in"}, {"p.meteo.file", "f.in"}, {"p.meteo.freq", "12.5"}})},
                 {"  meteo_forcing:\n    type: Test\n    raw_input_file: r.in\n    input_file: f.in\n", {}},
                 {"  meteo_forcing:\n    raw_input_file: r.in\n    input_file: f.in\n    frequency: 1\n", {}},
                 {"  meteo_forcing:\n    type: Test\n    input_file: f.in\n    frequency: 1\n", {}},
                 {"  meteo_forcing:\n    type: Test\n    raw_input_file: f.in\n    frequency: 1\n", {}}});
    S.push_back({{"", {}}, {"  tide_potential:\n    type: Test\n", M({{"p.tide", "1"}})}, {"  tide_potential:\n    type: Other\n", {}}, {"  tide_potential:\n    kind: Test\n", {}}});
    S.push_back({{"", {}}, {"  coriolis: Enable\n", M({{"p.cor", "1"}})}, {"  coriolis: Other\n", {}}, {"  coriolis:\n", {}}});
    S.push_back({{"", {}}, {"  wetting_drying:\n    h_o: 0.07\n", M({{"p.wd", "1"}, {"p.wd.h", g17(0.07)}})}, {"  wetting_drying:\n    h: 0.07\n", {}}});
    S.push_back({{"", {}},
                 {"  slope_limiting:\n    type: Cockburn-Shu\n    M: 2.5e-7\n    nu: 1.75\n", M({{"p.sl", "1"}, {"p.sl.M", g17(2.5e-7)}, {"p.sl.nu", "1.75"}})},
                 {"  slope_limiting:\n    type: Cockburn-Shu\n    nu: 1.75\n", {}},
                 {"  slope_limiting:\n    type: Cockburn-Shu\n    M: 1.75\n", {}},
                 {"  slope_limiting:\n    type: Other\n    M: 1.75\n    nu: 1\n", {}},
                 {"  slope_limiting:\n    M: 1.75\n    nu: 1\n", {}}});
    return S;
}
static pre::Values defaults() {
    return {{"p.g", g17(9.81)}, {"p.rho_a", "1.2250000000000001"}, {"p.rho_w", "1000"}, {"p.sph", "0"}, {"p.sph.lon", "0"}, {"p.sph.lat", "0"}, {"p.sph.R", "6378200"},
            {"p.ic", "default"}, {"p.ic.ze", "0"}, {"p.ic.qx", "0"}, {"p.ic.qy", "0"}, {"p.source", "0"}, {"p.fric", "none"}, {"p.fric.c", "0"}, {"p.fric.file", ""},
            {"p.meteo", "0"}, {"p.tide", "0"}, {"p.cor", "0"}, {"p.wd", "0"}, {"p.wd.h", g17(0.1)}, {"p.sl", "0"}, {"p.sl.M", g17(1e-8)}, {"p.sl.nu", "1.5"},
            {"out.on", "0"}, {"out.path", ""}, {"out.log", "0"}, {"out.log.verbose", "0"}, {"out.log.name", ""}, {"out.vtk", "0"}, {"out.vtu", "0"}, {"out.modal", "0"},
            {"lb.on", "0"}, {"time.ramp", "0"}};
}
struct Doc {
    std::string head, mesh, time, problem = "problem:\n  name: rkdg_swe\n", output, lb;
    pre::Values want = defaults();
    bool fails = false, gn = false;
    void take(const Pick& p, std::string& where) {
        where += p.yaml;
        for (auto& m : p.means)
            want[m.first] = m.second;
        fails = fails || p.fails;
    }
    std::string text() const { return head + mesh + time + problem + lb + output; }
};
static void name_mesh(Doc& d, const std::string& f, const std::string& bcis, const std::string& dbmd, const char* format, const char* coord) {
    d.mesh = std::string("mesh:\n  format: ") + format + "\n  file_name: " + f + "\n  coordinate_system: " + coord + "\n";
    d.want["mesh.format"]      = format;
    d.want["mesh.file_name"]   = f;
    d.want["mesh.bcis"]        = bcis;
    d.want["mesh.dbmd"]        = dbmd;
    d.want["mesh.coordinates"] = coord;
}
static void set_time(Doc& d, const When& a, const When& b, double dt, int order, int nstages, double ramp) {
    d.time = "timestepping:\n  start_time: " + a.str() + "\n  end_time: " + b.str() + "\n  dt: " + g17(dt) + fmt("\n  order: %d\n  nstages: %d\n", order, nstages);
    if (ramp != 0)
        d.time += "  ramp_duration: " + g17(ramp) + "\n";
    d.want["time.start"]   = fmt("%lld", a.sec());
    d.want["time.end"]     = fmt("%lld", b.sec());
    d.want["time.run"]     = fmt("%lld", b.sec() - a.sec());
    d.want["time.dt"]      = g17(dt);
    d.want["time.order"]   = fmt("%d", order);
    d.want["time.nstages"] = fmt("%d", nstages);
    d.want["time.ramp"]    = g17(ramp);
}
static Doc base_doc(int p = 2) {
    Doc d;
    d.head                     = fmt("polynomial_order: %d\n", p);
    d.want["polynomial_order"] = fmt("%d", p);
    d.want["p.name"]           = "rkdg_swe";
    name_mesh(d, "dir/m.14", "dir/m.bcis", "dir/m.dbmd", "Adcirc", "cartesian");
    set_time(d, {2000, 1, 1, 0, 0, 0}, {2000, 1, 2, 3, 4, 5}, 0.25, 2, 2, 0);
    return d;
}
static std::string differ(const pre::Values& got, const pre::Values& want, const char* what) {
    for (auto& w : want) {
        auto it = got.find(w.first);
        if (it == got.end())
            return std::string(what) + ":" + w.first + "\t" + w.first + " is missing, expected " + w.second;
        if (it->second != w.second)
            return std::string(what) + ":" + w.first + "\t" + w.first + " is " + it->second + ", expected " + w.second;
    }
    for (auto& g : got)
        if (!want.count(g.first))
            return std::string(what) + ":" + g.first + "\t" + g.first + " is " + g.second + " although it is not given";
    return "";
}
static std::string decide(const Doc& d) {
    mcl::write_file("in.15", d.text());
    pre::Values got;
    try {
        got = pre::read_input("in.15", d.gn);
    } catch (std::exception& e) {
        return d.fails ? "" : std::string("input-refused\t") + e.what() + " for " + d.text();
    }
    if (d.fails)
        return "input-accepted\tan incomplete input is accepted: " + d.text();
    std::string e = differ(got, d.want, "input");
    if (!e.empty())
        return e + " for " + d.text();
    unlink("out.15");
    pre::copy_input("in.15", "out.15", d.gn);
    e = differ(pre::read_input("out.15", d.gn), d.want, "rewritten");
    if (!e.empty())
        return e + " for " + d.text();
    unlink("raw.15");
    pre::copy_input_raw("in.15", "raw.15");
    e = differ(pre::read_input("raw.15", d.gn), d.want, "partitioned");
    if (!e.empty())
        return e + " for " + d.text();
    return "";
}
static void inputs(std::vector<mcl::Job>& jobs, bool th) {
    auto S   = problem_sections();
    size_t n = S.size();
    // every pair (or triple) of choices of two sections over two backgrounds
    std::vector<std::array<int, 8>> tuples;  // section, choice, ..., background
    for (size_t a = 0; a < n; ++a)
        for (size_t b = a + 1; b < n; ++b)
            for (size_t x = 0; x < S[a].size(); ++x)
                for (size_t y = 0; y < S[b].size(); ++y)
                    for (int bg = 0; bg < 2; ++bg) {
                        tuples.push_back({(int)a, (int)x, (int)b, (int)y, -1, 0, bg});
                        if (th)
                            for (size_t c = b + 1; c < n; ++c)
                                for (size_t z = 0; z < S[c].size(); ++z)
                                    tuples.push_back({(int)a, (int)x, (int)b, (int)y, (int)c, (int)z, bg});
                    }
    auto mk = [=](size_t i) {
        auto& t = tuples[i];
        Doc d   = base_doc();
        for (size_t k = 0; k < n; ++k) {
            int ch = (int)k == t[0] ? t[1] : (int)k == t[2] ? t[3] : (int)k == t[4] ? t[5] : t[6] ? 1 : 0;
            d.take(S[k][ch], d.problem);
        }
        return d;
    };
    spread(jobs, "sections", tuples.size(), 500, [=](size_t i) { return decide(mk(i)); }, [=](size_t i) { return mk(i).text(); });
    // every combination of well-formed choices
    std::vector<int> ok;
    size_t total = 1;
    for (auto& s : S) {
        int c = 0;
        for (auto& p : s)
            if (&p == &s[0] || (!p.means.empty() && !p.fails))
                ++c;
        ok.push_back(c);
        total *= c;
    }
    static const char* NAMES[] = {"rkdg_swe", "ehdg_swe", "ihdg_swe", "ehdg_gn", "ihdg_gn"};
    spread(jobs, "combinations", total, 500, [=](size_t i) {
        Doc d = base_doc(1 + i % 3);
        Digits g{i};
        for (size_t k = 0; k < n; ++k) {
            int c = g(ok[k]), at = 0;
            for (auto& p : S[k])
                if (&p == &S[k][0] || (!p.means.empty() && !p.fails))
                    if (at++ == c) {
                        d.take(p, d.problem);
                        break;
                    }
        }
        const char* nm = NAMES[i % 5];
        d.gn           = i % 5 > 2;
        size_t p       = d.problem.find("rkdg_swe");
        d.problem.replace(p, 8, nm);
        d.want["p.name"] = nm;
        return decide(d);
    });
    // missing required entries
    spread(jobs, "required", 2 * 16 * 32 * 3, 500, [=](size_t i) {
        Digits g{i};
        bool p    = g(2);
        int mesh = g(16), time = g(32), prob = g(3);
        Doc d = base_doc();
        if (!p)
            d.head.clear();
        d.mesh = mesh == 0 ? "" : "mesh:\n";
        if (mesh & 1)
            d.mesh += "  format: Adcirc\n";
        if (mesh & 2)
            d.mesh += "  file_name: dir/m.14\n";
        if (mesh & 4)
            d.mesh += "  coordinate_system: cartesian\n";
        if (mesh & 8)
            d.mesh += "  remark: nothing\n";
        static const char* T[] = {"  start_time: 01-01-2000 00:00:00\n", "  end_time: 02-01-2000 03:04:05\n", "  dt: 0.25\n", "  order: 2\n", "  nstages: 2\n"};
        d.time                 = time ? "timestepping:\n" : "";
        for (int k = 0; k < 5; ++k)
            if (time >> k & 1)
                d.time += T[k];
        if (prob == 0)
            d.problem.clear();
        if (prob == 1)
            d.problem = "problem:\n  name: other\n";
        d.fails = !p || (mesh & 7) != 7 || time != 31 || prob != 2;
        return decide(d);
    });
    // names of the mesh and of the files that go with it, formats and coordinates
    struct F {
        const char *f, *b, *d;
    };
    static const F FILES[] = {{"m.14", "m.bcis", "m.dbmd"}, {"/a/b.c/m.14", "/a/b.c/m.bcis", "/a/b.c/m.dbmd"}, {"../x.y.meta", "../x.y.bcis", "../x.y.dbmd"}, {"quad_mesh.14", "quad_mesh.bcis", "quad_mesh.dbmd"}};
    static const char* FM[] = {"Adcirc", "Meta", "Other"};
    static const char* CO[] = {"cartesian", "polar", "spherical", "other"};
    spread(jobs, "mesh", 4 * 3 * 4 * 4, 500, [=](size_t i) {
        Digits g{i};
        auto& f = FILES[g(4)];
        int fm = g(3), co = g(4), part = g(4);
        Doc d = base_doc(1 + i % 4);
        name_mesh(d, f.f, f.b, f.d, FM[fm], CO[co]);
        d.fails = fm == 2 || co == 3;
        std::string e = decide(d);
        if (!e.empty() || d.fails)
            return e;
        // the files of one submesh
        unsigned l = 13 * part, s = part * part;
        auto w      = d.want;
        auto insert = [&](const char* k) {
            std::string& v = w[k];
            v.insert(v.rfind('.'), fmt("_%u_%u", l, s));
        };
        insert("mesh.file_name");
        insert("mesh.dbmd");
        return differ(pre::read_input_part("in.15", l, s), w, "submesh");
    });
    // dates
    static const When W[] = {{1970, 1, 1, 0, 0, 0}, {1999, 12, 31, 23, 59, 59}, {2000, 1, 1, 0, 0, 0}, {2000, 2, 28, 12, 30, 1}, {2000, 2, 29, 0, 0, 0}, {2000, 3, 1, 6, 7, 8},
                             {2001, 2, 28, 23, 0, 0}, {2001, 3, 1, 0, 0, 0}, {2008, 9, 13, 2, 10, 0}, {2023, 7, 4, 18, 45, 59}, {2024, 12, 31, 23, 59, 59}, {2025, 1, 1, 0, 0, 1}, {2038, 1, 19, 3, 14, 8}};
    size_t nw             = sizeof W / sizeof *W;
    static const double DT[] = {0.25, 0.1, 1., 1e-3, 7.5, 1. / 3., 3600.};
    static const double RA[] = {0, 0.5, 2.};
    static const char* TZ[] = {"UTC", "EST5EDT,M3.2.0,M11.1.0", "<+0530>-5:30", "<+1030>-10:30<+11>-11,M10.1.0,M4.1.0"};
    spread(jobs, "dates", 4 * nw * nw * 7, 500, [=](size_t i) {
        Digits g{i};
        setenv("TZ", TZ[g(4)], 1);  // the zone of the machine has no say
        tzset();
        auto& a = W[g(nw)];
        auto& b = W[g(nw)];
        double dt = DT[g(7)];
        Doc d   = base_doc();
        set_time(d, a, b, dt, 1 + i % 4, 1 + i % 8, RA[i % 3]);
        return decide(d);
    });
    // output: sections and how often
    struct Freq {
        int f, dt;  // in thousandths
    };
    std::vector<Freq> fr;
    for (int dt : {1, 5, 9, 10, 25, 100, 250, 300, 333, 700, 1000, 1500, 7000})
        for (int k = 1; k <= (th ? 400 : 60); ++k)
            for (int off : {0, 1, -1})
                if (k * dt + off > 0 && (off == 0 || dt > 1))
                    fr.push_back({k * dt + off, dt});
    spread(jobs, "frequencies", fr.size(), 500, [=](size_t i) {
        Doc d = base_doc();
        set_time(d, W[2], W[3], fr[i].dt / 1000., 2, 2, 0);
        double f      = fr[i].f / 1000.;
        std::string s = fmt("%d", (fr[i].f + fr[i].dt - 1) / fr[i].dt);
        d.output      = "output:\n  path: out/\n  vtk:\n    frequency: " + g17(f) + "\n  vtu:\n    frequency: " + g17(f) + "\n  modal:\n    frequency: " + g17(f) + "\n";
        d.want["out.on"]   = "1";
        d.want["out.path"] = "out/";
        for (std::string k : {"vtk", "vtu", "modal"}) {
            d.want["out." + k]           = "1";
            d.want["out." + k + ".freq"] = g17(f);
            d.want["out." + k + ".step"] = s;
        }
        return decide(d);
    });
    spread(jobs, "output", 4 * 4 * 27 * 4, 500, [=](size_t i) {
        Digits g{i};
        int path = g(4), log = g(4), kinds[3] = {g(3), g(3), g(3)}, lb = g(4);
        Doc d = base_doc();
        if (path) {
            d.output = "output:\n";
            if (path == 1)
                d.output += "  nothing: 1\n";
            else {
                d.output += path == 2 ? "  path: out/put/\n" : "  path: out/put\n";
                d.want["out.on"]   = "1";
                d.want["out.path"] = "out/put/";
            }
            if (log == 1 || log == 2) {
                d.output += std::string("  logfile:\n    name: log\n    verbose: ") + (log == 1 ? "true" : "false") + "\n";
                d.want["out.log"]         = "1";
                d.want["out.log.name"]    = "log";
                d.want["out.log.verbose"] = log == 1 ? "1" : "0";
            }
            if (log == 3)
                d.output += "  logfile:\n    name: log\n";
            const char* K[] = {"vtk", "vtu", "modal"};
            for (int k = 0; k < 3; ++k) {
                if (kinds[k])
                    d.output += std::string("  ") + K[k] + ":\n    " + (kinds[k] == 1 ? "frequency: 0.5\n" : "other: 1\n");
                if (kinds[k] == 1) {
                    d.want[std::string("out.") + K[k]]           = "1";
                    d.want[std::string("out.") + K[k] + ".freq"] = "0.5";
                    d.want[std::string("out.") + K[k] + ".step"] = "2";
                }
            }
            d.fails = path == 1 || log == 3 || kinds[0] == 2 || kinds[1] == 2 || kinds[2] == 2;
        }
        if (lb) {
            d.lb = "load_balancer:\n";
            if (lb & 1) {
                d.lb += "  name: random\n";
                d.want["lb.name"] = "random";
            }
            if (lb & 2) {
                d.lb += "  rebalance_frequency: 0.75\n";
                d.want["lb.freq"] = "0.75";
            }
            d.want["lb.on"] = "1";
            d.fails         = d.fails || lb != 3;
        }
        return decide(d);
    });
}

// ---- P22: the mesh generator ---------------------------------------------------------------------------
static std::string quad(mcl::Worker& w, int m, int n, int pattern, const std::array<int, 4>& bt, int shape, int naming) {
    static const double C[][8] = {{0, 0, 1, 0, 1, 1, 0, 1}, {-90, -45.5, 90, -45.5, 90, 45.5, -90, 45.5}, {0, 0, 4, 1, 5, 6, -1, 3}, {1e5, 2e5, 1.001e5, 2.0002e5, 1.0008e5, 2.0011e5, 0.999e5, 2.0009e5},
                                  {0.3, -7, 2.5, -3, 0.1, 4, -3.7, 0.25}};
    const double* q        = C[shape];
    static const char* T[] = {"land", "tide", "flow", "function", "outflow"};
    static const double FR[] = {0.000140518917083, 1.5, 7.29211585e-05, 12345.678901};
    std::string in = fmt("x1: %.17g\ny1: %.17g\nx2: %.17g\ny2: %.17g\nx3: %.17g\ny3: %.17g\nx4: %.17g\ny4: %.17g\n", q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7]);
    in += fmt("num_x_subdivisions: %d\nnum_y_subdivisions: %d\npattern: %d\nboundary:\n", m, n, pattern);
    for (int b = 0; b < 4; ++b) {
        in += std::string("  - type: ") + T[bt[b]] + "\n";
        if (bt[b] == 1 || bt[b] == 2)
            in += "    frequency: " + g17(FR[b]) + "\n    forcing_factor: " + g17(1 + 0.1234567890123 * b) + "\n    equilibrium_argument: " + g17(200.123456789 - b) + "\n";
    }
    std::string name = naming ? w.scratch + "/some_mesh" : "quad_mesh";
    if (naming)
        in += "mesh_name: " + name + "\n";
    mcl::write_file("q.yml", in);
    unlink((name + ".14").c_str());
    unlink((name + ".bcis").c_str());
    mc_quad_mesh({"q.yml"});
    std::string what = fmt(" (%d x %d, pattern %d, boundaries %d%d%d%d, corners %d)", m, n, pattern, bt[0], bt[1], bt[2], bt[3], shape);
    pre::Adc a       = pre::read14(name + ".14");
    if (a.node.size() != size_t((m + 1) * (n + 1)) || a.elem.size() != size_t(2 * m * n))
        return fmt("sizes\t%zu nodes and %zu elements", a.node.size(), a.elem.size()) + what;
    // which node is at which place of the grid
    double scale = 0;
    for (int k = 0; k < 8; ++k)
        scale = std::max(scale, std::fabs(q[k]));
    std::map<unsigned, std::pair<int, int>> at;
    std::set<std::pair<int, int>> taken;
    for (auto& nd : a.node) {
        bool found = false;
        for (int i = 0; i <= m && !found; ++i)
            for (int j = 0; j <= n && !found; ++j) {
                double s = double(i) / m, t = double(j) / n;
                double x = (1 - s) * (1 - t) * q[0] + s * (1 - t) * q[2] + s * t * q[4] + (1 - s) * t * q[6];
                double y = (1 - s) * (1 - t) * q[1] + s * (1 - t) * q[3] + s * t * q[5] + (1 - s) * t * q[7];
                if (std::fabs(x - nd.second[0]) < 1e-11 * (1 + scale) && std::fabs(y - nd.second[1]) < 1e-11 * (1 + scale)) {
                    at[nd.first] = {i, j};
                    found        = taken.insert({i, j}).second;
                }
            }
        if (!found)
            return fmt("place\tnode %u at %.15g, %.15g is not a point of the grid", nd.first, nd.second[0], nd.second[1]) + what;
        if (nd.second[2] != 1.5)
            return fmt("depth\tnode %u has depth %.15g", nd.first, nd.second[2]) + what;
    }
    // every cell consists of the two triangles of the pattern
    std::set<std::set<std::pair<int, int>>> want, have;
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < m; ++i) {
            std::pair<int, int> A{i, j}, B{i + 1, j}, D{i + 1, j + 1}, E{i, j + 1};
            bool up = pattern == 0 || (pattern == 1 && j % 2 == 0) || (pattern == 2 && (i + j) % 2 == 0);
            if (up) {
                want.insert({A, B, D});
                want.insert({A, D, E});
            } else {
                want.insert({A, B, E});
                want.insert({B, D, E});
            }
        }
    for (auto& e : a.elem) {
        std::set<std::pair<int, int>> s;
        for (unsigned k : e.second) {
            if (!at.count(k))
                return fmt("element\telement %u has node %u", e.first, k) + what;
            s.insert(at[k]);
        }
        auto &P = a.node[e.second[0]], &Q = a.node[e.second[1]], &R = a.node[e.second[2]];
        if (!((Q[0] - P[0]) * (R[1] - P[1]) - (R[0] - P[0]) * (Q[1] - P[1]) > 0))
            return fmt("orientation\telement %u is clockwise or flat", e.first) + what;
        have.insert(s);
    }
    if (want != have)
        return "triangles\tthe triangles do not form the pattern" + what;
    // the solver reads it: sides of the four edges have the types that were asked for
    pre::Meta g     = pre::connect(name + ".14");
    static const int TY[] = {T_LAND, T_TIDE, T_FLOW, T_FUNC, T_OUT};
    for (auto& e : g.elem)
        for (int k = 0; k < 3; ++k) {
            auto u = at[e.second.node[(k + 1) % 3]], v = at[e.second.node[(k + 2) % 3]];
            int ty = T_INT;
            if (u.second == 0 && v.second == 0)
                ty = TY[bt[0]];
            if (u.first == m && v.first == m)
                ty = TY[bt[1]];
            if (u.second == n && v.second == n)
                ty = TY[bt[2]];
            if (u.first == 0 && v.first == 0)
                ty = TY[bt[3]];
            if (e.second.type[k] != ty)
                return fmt("boundary\tside %d of element %u has type %d instead of %d", k, e.first, e.second.type[k], ty) + what;
        }
    // forcing of every node of the open edges
    pre::Values b = pre::read_bcis(name + ".bcis"), wantb;
    int it = 0, jf = 0;
    for (int e = 0; e < 4; ++e)
        if (bt[e] == 1 || bt[e] == 2) {
            std::string k = bt[e] == 1 ? fmt("tide%d", it++) : fmt("flow%d", jf++);
            for (auto& x : at) {
                auto p  = x.second;
                bool on = e == 0 ? p.second == 0 : e == 1 ? p.first == m : e == 2 ? p.second == n : p.first == 0;
                if (on)
                    wantb[k + fmt(".%u", x.first)] = g17(FR[e]) + " " + g17(1 + 0.1234567890123 * e) + " " + g17(200.123456789 - e) + " 1 0;";
            }
        }
    for (auto& x : wantb) {
        if (!b.count(x.first))
            return "forcing\t" + x.first + " is missing" + what;
        // fifteen digits are carried
        const char *p = b[x.first].c_str(), *r = x.second.c_str();
        for (int k = 0; k < 5; ++k) {
            char *pe, *re;
            double u = strtod(p, &pe), v = strtod(r, &re);
            if (!(std::fabs(u - v) <= 1e-14 * std::fabs(v)))
                return "forcing\t" + x.first + " is " + b[x.first] + " instead of " + x.second + what;
            p = pe;
            r = re;
        }
    }
    if (b.size() != wantb.size())
        return fmt("forcing\t%zu entries instead of %zu", b.size(), wantb.size()) + what;
    return "";
}
static void generator(std::vector<mcl::Job>& jobs, bool th) {
    auto add = [&](const std::string& name, size_t n, const std::function<std::string(mcl::Worker&, size_t)>& f) {
        size_t ch = std::max<size_t>(1, std::min<size_t>(32, n / 100));
        for (size_t c = 0; c < ch; ++c)
            jobs.push_back({name + fmt("#%zu", c), [=](mcl::Worker& w) {
                                if (chdir(w.scratch.c_str()))
                                    throw std::runtime_error("chdir");
                                batch(w, c, n, ch, "--job " + w.job, [&](size_t i) { return f(w, i); });
                                w.st.seen("families", name);
                                w.st.add("states", (n - c + ch - 1) / ch);
                            }});
    };
    int K = th ? 9 : 6;
    add("grids", K * K * 3 * 5, [=](mcl::Worker& w, size_t i) {
        Digits g{i};
        int m = 1 + g(K), n = 1 + g(K), p = g(3), s = g(5);
        return quad(w, m, n, p, {(int)i % 5, (int)(i / 5) % 5, (int)(i / 3) % 5, (int)(i / 7) % 5}, s, i % 2);
    });
    add("boundaries", 625 * 3 * (th ? 4 : 2), [=](mcl::Worker& w, size_t i) {
        Digits g{i};
        std::array<int, 4> bt = {g(5), g(5), g(5), g(5)};
        int p = g(3), v = g(4);
        return quad(w, 1 + v, 1 + (v * 2) % 3, p, bt, (int)i % 5, i % 2);
    });
    // incomplete inputs
    static const char* KEYS[] = {"x1", "y1", "x2", "y2", "x3", "y3", "x4", "y4", "num_x_subdivisions", "num_y_subdivisions", "pattern", "boundary"};
    add("incomplete", 12 + 3 + 12, [=](mcl::Worker&, size_t i) {
        std::string in;
        for (int k = 0; k < 12; ++k)
            if ((size_t)k != i) {
                if (k < 8)
                    in += std::string(KEYS[k]) + fmt(": %d\n", (k == 2 || k == 4 || k == 5 || k == 7) ? 1 : 0);
                else if (k < 10)
                    in += std::string(KEYS[k]) + ": 2\n";
                else if (k == 10)
                    in += i == 12 ? "pattern: 3\n" : "pattern: 0\n";
                else {
                    in += "boundary:\n  - type: land\n  - type: land\n  - type: land\n";
                    if (i == 14)
                        in += "  - type: other\n";
                    else if (i >= 15) {
                        in += (i - 15) % 2 ? "  - type: tide\n" : "  - type: flow\n";
                        int miss = (i - 15) / 2;  // which of the three is there, all but all
                        const char* X[] = {"    frequency: 1\n", "    forcing_factor: 1\n", "    equilibrium_argument: 1\n"};
                        for (int b = 0; b < 3; ++b)
                            if (miss % 6 >> b & 1)
                                in += X[b];
                    } else if (i != 13)
                        in += "  - type: land\n";
                }
            }
        mcl::write_file("q.yml", in);
        unlink("quad_mesh.14");
        try {
            mc_quad_mesh({"q.yml"});
        } catch (std::exception&) {
            return std::string();
        }
        return fmt("accepted\tincomplete input %zu is accepted", i);
    });
}

int main(int argc, char** argv) {
    mcl::Options o = mcl::parse(argc, argv);
    bool th        = o.thorough();
    std::vector<mcl::Job> jobs;
    if (o.prop == "P18")
        connectivity(jobs, th);
    if (o.prop == "P19")
        files(jobs, th);
    if (o.prop == "P20")
        inputs(jobs, th);
    if (o.prop == "P22")
        generator(jobs, th);
    mcl::Report rep;
    rep.states_counter      = "states";
    rep.transitions_counter = "cases";
    rep.validated_counter   = "cases";
    return mcl::run_jobs(o, jobs, rep);
}
