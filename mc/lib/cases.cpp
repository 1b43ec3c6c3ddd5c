#include "cases.h"
#include "pool.h"
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <set>
#include <stdexcept>

namespace cases {
using mcl::fmt;

void Mesh::defaults() {
    if (node_id.size() != nodes.size()) {
        node_id.resize(nodes.size());
        for (size_t i = 0; i < nodes.size(); ++i)
            node_id[i] = i + 1;
    }
    if (elem_id.size() != elems.size()) {
        elem_id.resize(elems.size());
        for (size_t i = 0; i < elems.size(); ++i)
            elem_id[i] = i + 1;
    }
}

std::string Mesh::fort14() const {
    std::string s = name + "\n" + fmt("%zu %zu\n", elems.size(), nodes.size());
    for (size_t i = 0; i < nodes.size(); ++i)
        s += fmt("%u %.17g %.17g %.17g\n", node_id[i], nodes[i][0], nodes[i][1], nodes[i][2]);
    for (size_t i = 0; i < elems.size(); ++i)
        s += fmt("%u 3 %u %u %u\n", elem_id[i], node_id[elems[i][0]], node_id[elems[i][1]], node_id[elems[i][2]]);
    size_t n = 0;
    for (auto& b : open)
        n += b.size();
    s += fmt("%zu = open boundaries\n%zu = nodes\n", open.size(), n);
    for (auto& b : open) {
        s += fmt("%zu = nodes\n", b.size());
        for (int k : b)
            s += fmt("%u\n", node_id[k]);
    }
    n = 0;
    for (auto& b : land)
        n += b.nodes.size();
    s += fmt("%zu = land boundaries\n%zu = nodes\n", land.size(), n);
    for (auto& b : land) {
        s += fmt("%zu %d = nodes\n", b.nodes.size(), b.ibtype);
        for (size_t i = 0; i < b.nodes.size(); ++i) {
            if (b.ibtype % 10 == 4)
                s += fmt("%u %u %.17g %.17g %.17g\n", node_id[b.nodes[i]], node_id[b.back[i]], b.levee[i].H, b.levee[i].Csub,
                         b.levee[i].Csup);
            else
                s += fmt("%u\n", node_id[b.nodes[i]]);
        }
    }
    n = 0;
    for (auto& b : generic)
        n += b.size();
    s += fmt("%zu = generic boundaries\n%zu = nodes\n", generic.size(), n);
    for (auto& b : generic) {
        s += fmt("%zu = nodes\n", b.size());
        for (int k : b)
            s += fmt("%u\n", node_id[k]);
    }
    return s;
}

static std::string forcing(const Mesh& m, const std::vector<Constituent>& c, std::vector<int> nodes, int btype) {
    if (nodes.size() > 1 && nodes.front() == nodes.back())  // closed chain: every node has its data once
        nodes.pop_back();
    std::string s = fmt("%d %zu = boundary\n%zu = constituents\n", btype, nodes.size(), c.size());
    for (auto& k : c) {
        s += fmt("%.17g %.17g %.17g = freq ff eq\n", k.freq, k.ff, k.eq);
        for (int n : nodes)
            s += fmt("%u %.17g %.17g\n", m.node_id[n], k.amp0 + k.amp1 * (m.key(n) % 3), k.ph0 + k.ph1 * (m.key(n) % 3));
    }
    return s;
}

std::string Mesh::bcis() const {
    std::string s;
    size_t no = 0, nf = 0;
    for (auto& b : open)
        s += forcing(*this, tide_at(no++), b, 1);
    for (auto& b : land)
        if (b.ibtype != 77 && b.ibtype != 88 && b.ibtype % 10 == 2)
            s += forcing(*this, flow_at(nf++), b.nodes, 2);
    for (auto& b : land)
        if (b.ibtype % 10 == 4) {
            s += fmt("%d %zu = levee\n", 129, b.nodes.size());
            for (size_t i = 0; i < b.nodes.size(); ++i)
                s += fmt("%u %u %.17g %.17g %.17g\n", node_id[b.nodes[i]], node_id[b.back[i]], b.levee[i].H, b.levee[i].Csub,
                         b.levee[i].Csup);
        }
    return s;
}

int Mesh::faces_internal() const {
    std::set<std::pair<int, int>> seen;
    int n = 0;
    for (auto& e : elems)
        for (int k = 0; k < 3; ++k) {
            int a = e[(k + 1) % 3], b = e[(k + 2) % 3];
            if (!seen.insert({std::min(a, b), std::max(a, b)}).second)
                ++n;
        }
    return n;
}

std::vector<std::vector<int>> outline(const Mesh& m) {
    std::map<std::pair<int, int>, int> cnt;
    for (auto& e : m.elems)
        for (int k = 0; k < 3; ++k) {
            int a = e[(k + 1) % 3], b = e[(k + 2) % 3];
            ++cnt[{std::min(a, b), std::max(a, b)}];
        }
    std::map<int, int> next;  // outline is oriented like the elements
    for (auto& e : m.elems)
        for (int k = 0; k < 3; ++k) {
            int a = e[(k + 1) % 3], b = e[(k + 2) % 3];
            if (cnt[{std::min(a, b), std::max(a, b)}] == 1)
                next[a] = b;
        }
    std::vector<std::vector<int>> loops;
    while (!next.empty()) {
        std::vector<int> l;
        int s = next.begin()->first, c = s;
        while (next.count(c)) {
            l.push_back(c);
            int n = next[c];
            next.erase(c);
            c = n;
        }
        loops.push_back(l);
    }
    return loops;
}

void set_outline(Mesh& m, const std::vector<int>& types) {
    m.open.clear();
    m.land.clear();
    m.generic.clear();
    size_t side = 0;
    for (auto& l : outline(m)) {
        size_t n = l.size();
        std::vector<int> t(n);
        for (size_t i = 0; i < n; ++i)
            t[i] = types[side++ % types.size()];
        // maximal runs of equal type become one boundary segment
        size_t s0 = 0;
        while (s0 < n && t[s0] == t[(s0 + n - 1) % n])
            ++s0;
        if (s0 == n) {  // one type all around: closed chain
            std::vector<int> c = l;
            c.push_back(l[0]);
            if (t[0] == TIDE)
                m.open.push_back(c);
            else {
                Boundary b;
                b.ibtype = t[0] == FLOW ? 2 : t[0] == FUNC ? 77 : 0;
                b.nodes  = c;
                m.land.push_back(b);
            }
            continue;
        }
        for (size_t i = 0; i < n;) {
            size_t j = i;
            std::vector<int> c{l[(s0 + i) % n]};
            while (j < n && t[(s0 + j) % n] == t[(s0 + i) % n]) {
                c.push_back(l[(s0 + j + 1) % n]);
                ++j;
            }
            int ty = t[(s0 + i) % n];
            if (ty == TIDE)
                m.open.push_back(c);
            else {
                Boundary b;
                b.ibtype = ty == FLOW ? 22 : ty == FUNC ? 77 : 20;
                b.nodes  = c;
                m.land.push_back(b);
            }
            i = j;
        }
    }
}

void add_forcing(Mesh& m, int ncon) {
    m.tide.clear();
    m.flow.clear();
    for (int i = 0; i < ncon; ++i) {
        m.tide.push_back({0.7 + 1.3 * i, 0.9 - 0.2 * i, 17. + 40 * i, 0.06 + 0.02 * i, 0.013, 25. - 60 * i, 7.});
        m.flow.push_back({0.9 + 0.8 * i, 1.1 - 0.3 * i, 31. + 25 * i, -0.12 + 0.05 * i, 0.017, 12. + 33 * i, -9.});
    }
}

static const double SCALE = 10.;
void scale(Mesh& m, double s) {
    for (auto& n : m.nodes) {
        n[0] *= s;
        n[1] *= s;
    }
}

void perturb(Mesh& m, double eps) {
    for (size_t i = 0; i < m.nodes.size(); ++i) {
        m.nodes[i][0] += SCALE * eps * std::sin(1.7 * i + 0.4);
        m.nodes[i][1] += SCALE * eps * std::cos(2.3 * i + 1.1);
    }
}

void set_depth(Mesh& m, int kind) {
    for (size_t i = 0; i < m.nodes.size(); ++i) {
        auto& n = m.nodes[i];
        n[2]    = kind == 0 ? 2.0 : kind == 1 ? 2.0 + 0.21 * n[0] / SCALE - 0.13 * n[1] / SCALE : 2.0 + 0.4 * std::sin(1.9 * i + 0.3);
    }
}

Mesh triangle() {
    Mesh m;
    m.name  = "triangle";
    m.nodes = {{0, 0, 2}, {1.3, 0.2, 2.3}, {0.3, 1.1, 1.7}};
    m.elems = {{0, 1, 2}};
    scale(m, SCALE);
    m.defaults();
    set_outline(m, {LAND});
    return m;
}
Mesh star() {
    Mesh m;
    m.name  = "star";
    m.nodes = {{1.0, 0.9, 2.0}, {2.1, 1.0, 2.3}, {1.4, 1.9, 1.8}, {2.4, 2.0, 2.1}, {0.3, 1.8, 1.9}, {1.6, 0.0, 2.2}};
    m.elems = {{0, 1, 2}, {1, 3, 2}, {2, 4, 0}, {0, 5, 1}};
    scale(m, SCALE);
    m.defaults();
    set_outline(m, {LAND});
    return m;
}
Mesh combine(const std::vector<Mesh>& parts, double dx, double dy) {
    Mesh m;
    m.name = "combined";
    for (size_t k = 0; k < parts.size(); ++k) {
        const Mesh& a = parts[k];
        int n0        = m.nodes.size();
        for (auto n : a.nodes)
            m.nodes.push_back({n[0] + dx * k, n[1] + dy * k, n[2]});
        for (auto e : a.elems)
            m.elems.push_back({e[0] + n0, e[1] + n0, e[2] + n0});
        auto shift = [&](std::vector<int> v) {
            for (int& x : v)
                x += n0;
            return v;
        };
        size_t nf = 0;
        for (auto& b : a.open)
            m.open.push_back(shift(b));
        for (size_t i = 0; i < a.open.size(); ++i)
            m.tide_of.push_back(a.tide_at(i));
        for (auto& b : a.land)
            if (b.ibtype != 77 && b.ibtype != 88 && b.ibtype % 10 == 2)
                m.flow_of.push_back(a.flow_at(nf++));
        for (auto& b : a.generic)
            m.generic.push_back(shift(b));
        for (auto b : a.land) {
            b.nodes = shift(b.nodes);
            b.back  = shift(b.back);
            m.land.push_back(b);
        }
    }
    m.defaults();
    return m;
}
void rotate_elem(Mesh& m, int e, int k) {
    auto v = m.elems[e];
    for (int i = 0; i < 3; ++i)
        m.elems[e][i] = v[(i + k) % 3];
}
void flip(Mesh& m, int e) { std::swap(m.elems[e][0], m.elems[e][2]); }

Mesh pair_mesh() {
    Mesh m;
    m.name  = "pair";
    m.nodes = {{0, 0, 2}, {1.1, 0.1, 2.2}, {1.2, 1.0, 1.8}, {-0.1, 0.9, 2.1}};
    m.elems = {{0, 1, 2}, {0, 2, 3}};
    scale(m, SCALE);
    m.defaults();
    set_outline(m, {LAND});
    return m;
}
Mesh fan4() {
    Mesh m;
    m.name  = "fan";
    m.nodes = {{0, 0, 2.0}, {2.0, -0.1, 2.3}, {2.1, 1.7, 1.9}, {-0.2, 1.9, 2.2}, {0.95, 0.8, 1.7}};
    m.elems = {{0, 1, 4}, {4, 1, 2}, {3, 4, 2}, {0, 4, 3}};
    scale(m, SCALE);
    m.defaults();
    set_outline(m, {LAND});
    return m;
}
Mesh strip(int n) {
    Mesh m;
    m.name = "strip";
    for (int i = 0; i <= n; ++i) {
        m.nodes.push_back({1.0 * i + 0.07 * std::sin(2.0 * i), 0.05 * std::cos(3.0 * i), 2.0 + 0.2 * std::sin(1.3 * i)});
        m.nodes.push_back({1.0 * i + 0.06 * std::cos(1.0 * i), 1.0 + 0.08 * std::sin(1.5 * i), 2.1 + 0.15 * std::cos(0.9 * i)});
    }
    for (int i = 0; i < n; ++i) {
        int a = 2 * i, b = 2 * i + 1, c = 2 * i + 2, d = 2 * i + 3;
        if (i % 2) {
            m.elems.push_back({a, c, d});
            m.elems.push_back({b, a, d});
        } else {
            m.elems.push_back({c, b, a});
            m.elems.push_back({c, d, b});
        }
    }
    scale(m, SCALE);
    m.defaults();
    set_outline(m, {LAND});
    return m;
}
Mesh grid(int nx, int ny, int pattern) {
    Mesh m;
    m.name = "grid";
    for (int j = 0; j <= ny; ++j)
        for (int i = 0; i <= nx; ++i)
            m.nodes.push_back({1.0 * i + 0.11 * std::sin(1.1 * i + 2.7 * j), 0.9 * j + 0.09 * std::cos(2.1 * i + 1.7 * j),
                               2.0 + 0.3 * std::sin(0.8 * i + 0.5 * j)});
    auto id = [&](int i, int j) { return j * (nx + 1) + i; };
    for (int j = 0; j < ny; ++j)
        for (int i = 0; i < nx; ++i) {
            int a = id(i, j), b = id(i + 1, j), c = id(i + 1, j + 1), d = id(i, j + 1);
            if ((i + j + pattern) % 2) {
                m.elems.push_back({b, c, a});
                m.elems.push_back({d, a, c});
            } else {
                m.elems.push_back({a, b, d});
                m.elems.push_back({c, d, b});
            }
        }
    scale(m, SCALE);
    m.defaults();
    set_outline(m, {LAND});
    return m;
}
Mesh ring() {
    Mesh m;
    m.name = "ring";
    for (int i = 0; i < 4; ++i) {
        double a = 0.3 + i * M_PI / 2;
        m.nodes.push_back({2.0 * std::cos(a) + 0.1 * i, 1.9 * std::sin(a), 2.0 + 0.1 * i});
        m.nodes.push_back({0.8 * std::cos(a + 0.4), 0.75 * std::sin(a + 0.4) + 0.05 * i, 1.7 + 0.12 * i});
    }
    for (int i = 0; i < 4; ++i) {
        int o = 2 * i, n = 2 * i + 1, o2 = 2 * ((i + 1) % 4), n2 = 2 * ((i + 1) % 4) + 1;
        m.elems.push_back({o, o2, n});
        m.elems.push_back({n, o2, n2});
    }
    scale(m, SCALE);
    m.defaults();
    set_outline(m, {LAND});
    return m;
}
Mesh levee_mesh(int n, int) {
    // front strip below, back strip above, a gap between them bridged by the levee
    Mesh m;
    m.name = "levee";
    auto add = [&](double x, double y, double z) {
        m.nodes.push_back({x, y, z});
        return (int)m.nodes.size() - 1;
    };
    std::vector<int> lo, fr, bk, hi;
    for (int i = 0; i <= n; ++i) {
        lo.push_back(add(1.0 * i + 0.05 * std::sin(i), 0.03 * std::cos(2.0 * i), 2.0 + 0.1 * i));
        fr.push_back(add(1.0 * i + 0.04 * std::cos(i), 1.0 + 0.05 * std::sin(2.0 * i), 1.9 - 0.08 * i));
        bk.push_back(add(1.0 * i + 0.04 * std::cos(i), 1.2 + 0.05 * std::sin(2.0 * i), 1.8 + 0.05 * i));
        hi.push_back(add(1.0 * i - 0.05 * std::sin(i), 2.2 + 0.04 * std::cos(3.0 * i), 2.2 - 0.1 * i));
    }
    for (int i = 0; i < n; ++i) {
        m.elems.push_back({lo[i], lo[i + 1], fr[i]});
        m.elems.push_back({fr[i + 1], fr[i], lo[i + 1]});
        m.elems.push_back({bk[i], bk[i + 1], hi[i + 1]});
        m.elems.push_back({hi[i], bk[i], hi[i + 1]});
    }
    scale(m, SCALE);
    m.defaults();
    set_outline(m, {LAND});
    // replace the two chains facing each other by a levee
    std::set<int> f(fr.begin(), fr.end()), b(bk.begin(), bk.end());
    m.land.clear();
    for (auto& l : outline(m)) {
        std::set<int>& s = std::count_if(l.begin(), l.end(), [&](int k) { return f.count(k); }) ? f : b;
        // outline without the levee chain, as one land segment
        size_t k = l.size(), st = 0;
        for (size_t i = 0; i < k; ++i)
            if (s.count(l[i]) && !s.count(l[(i + 1) % k]))
                st = i;
        Boundary lb;
        lb.ibtype = 0;
        size_t i  = st;
        lb.nodes.push_back(l[i % k]);
        do {
            ++i;
            lb.nodes.push_back(l[i % k]);
        } while (!s.count(l[i % k]));
        m.land.push_back(lb);
    }
    Boundary lv;
    lv.ibtype = 24;
    for (int i = 0; i <= n; ++i) {
        lv.nodes.push_back(fr[i]);
        lv.back.push_back(bk[i]);
        lv.levee.push_back({0.05 + 0.02 * i, 1.0, 0.9 + 0.03 * i});
    }
    m.land.push_back(lv);
    return m;
}

static std::string date(double sec) {
    long s = (long)sec;
    return fmt("01-01-2000 %02ld:%02ld:%02ld", s / 3600, (s / 60) % 60, s % 60);
}

std::string Run::yaml(const std::string& mesh_file, const std::string& format) const {
    // the end time has a resolution of one second, so nsteps * dt should be whole seconds
    std::string s;
    s += fmt("polynomial_order: %d\n", p);
    s += "mesh:\n  format: " + format + "\n  file_name: " + mesh_file + "\n  coordinate_system: " + coord + "\n";
    double run = std::floor(nsteps * dt + 1e-9);
    if (run < 1)
        run = 1;
    s += "timestepping:\n  start_time: " + date(0) + "\n  end_time: " + date(run) + fmt("\n  dt: %.17g\n  order: %d\n  nstages: %d\n", dt, order, nstages);
    if (ramp > 0)
        s += fmt("  ramp_duration: %.17g\n", ramp);
    s += "problem:\n  name: " + (!name.empty() ? name : scheme == "gn" ? "ehdg_gn" : scheme) + "\n" + fmt("  gravity: %.17g\n  density_air: 1.225\n  density_water: %.17g\n", g, rho);
    if (spherical)
        s += fmt("  spherical_projection:\n    longitude_o: %.17g\n    latitude_o: %.17g\n    R: %.17g\n", lon0, lat0, R);
    if (ic == 1)
        s += "  initial_conditions:\n    type: Function\n";
    if (ic == 2)
        s += fmt("  initial_conditions:\n    type: Constant\n    initial_surface_height: %.17g\n    initial_momentum_x: %.17g\n    initial_momentum_y: %.17g\n", ze0, qx0, qy0);
    if (source)
        s += "  function_source: Enable\n";
    if (friction == 1)
        s += fmt("  bottom_friction:\n    type: Chezy\n    coefficient: %.17g\n", cf);
    if (friction == 2)
        s += fmt("  bottom_friction:\n    type: Manning\n    coefficient: %.17g\n    input_file: ", cf) +
             mesh_file.substr(0, mesh_file.find_last_of('.')) + ".manning\n";
    if (wd)
        s += fmt("  wetting_drying:\n    h_o: %.17g\n", ho);
    if (sl)
        s += fmt("  slope_limiting:\n    type: Cockburn-Shu\n    M: %.17g\n    nu: %.17g\n", sl_M, sl_nu);
    if (coriolis)
        s += "  coriolis: Enable\n";
    if (weather > 0)
        s += "  meteo_forcing:\n    type: SLD\n    raw_input_file: " + mesh_file.substr(0, mesh_file.find_last_of('/')) + "/raw.in\n    input_file: " +
             mesh_file.substr(0, mesh_file.find_last_of('/')) + fmt("/wind.v2.in\n    frequency: %.17g\n", weather);
    s += extra;
    if (!output.empty())
        s += "output:\n" + output;
    return s;
}

int Run::weather_every() const { return (int)std::ceil(weather / dt - 1e-9); }
static double weather_in(size_t node, int file, int v) {
    return (v == 2 ? 10.2 : v == 1 ? -0.03 : 0.02) * (1 + 0.1 * (int)node) + 0.01 * (v + 1) * std::sin(1.7 * file + 0.9 * v + 0.4 * (int)node);
}
std::array<double, 3> Run::weather_at(size_t node, double t, int interval) const {
    double period = weather_every() * dt;
    int i         = interval >= 0 ? interval : std::max(0, (int)std::floor(t / period));
    double x      = t / period - i;
    std::array<double, 3> o;
    for (int v = 0; v < 3; ++v)
        o[v] = weather_in(node, i, v) + x * (weather_in(node, i + 1, v) - weather_in(node, i, v));
    return o;
}
void write_case(const std::string& dir, const Mesh& m, const Run& r) {
    mcl::write_file(dir + "/m.14", m.fort14());
    mcl::write_file(dir + "/m.bcis", m.bcis());
    mcl::write_file(dir + "/in.15", r.yaml(dir + "/m.14", "Adcirc"));
    if (r.scheme == "gn") {
        std::string s;
        for (unsigned b : r.buffer)
            s += fmt("%u\n", b);
        mcl::write_file(dir + "/buffer_elements", s);
    }
    for (int f = 0, k = r.weather > 0 ? r.weather_every() : 0; k > 0 && (f - 1) * k < r.nsteps; ++f) {
        std::string s;
        for (size_t i = m.nodes.size(); i-- > 0;)  // in any order, with a node the mesh does not have
            s += fmt("%u %.17g %.17g %.17g\n", m.node_id[i], weather_in(i, f, 0), weather_in(i, f, 1), weather_in(i, f, 2));
        s += "4000000 9 9 9\n";
        mcl::write_file(dir + fmt("/wind.v2_%d.in", f * k), s);
    }
    if (r.friction == 2) {
        std::string s;
        for (size_t i = 0; i < m.nodes.size(); ++i)
            s += fmt("%u %.17g\n", m.node_id[i], 0.02 + 0.003 * (m.key(i) % 5));
        mcl::write_file(dir + "/m.manning", s);
    }
}

std::string describe(const Mesh& m) {
    return m.name + fmt(" %zu nodes %zu elements %d interior sides, %zu open, %zu land segments", m.nodes.size(), m.elems.size(),
                        m.faces_internal(), m.open.size(), m.land.size());
}
}
