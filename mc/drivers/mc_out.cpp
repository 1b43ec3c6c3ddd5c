// P21: what the program writes is what it computed: which files, and what is in them.
// The states come from the run itself (recorded after every step), the values that must be
// in the files are evaluated here from them.
#include "../lib/par.h"
#include "../lib/ref.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <dirent.h>
#include <sstream>
#include <stdexcept>
using namespace par;
using mcl::fmt;

struct Wish {  // periods in seconds, 0: not wanted
    double vtk = 0, vtu = 0, modal = 0;
    int log = 0;  // 1 plain, 2 verbose
    bool slash = true;
    std::string yaml(const std::string& dir) const {
        std::string s = "  path: " + dir + (slash ? "/out/" : "/out") + "\n";
        if (log)
            s += fmt("  logfile:\n    name: run.log\n    verbose: %s\n", log == 2 ? "true" : "false");
        if (vtk > 0)
            s += fmt("  vtk:\n    frequency: %.17g\n", vtk);
        if (vtu > 0)
            s += fmt("  vtu:\n    frequency: %.17g\n", vtu);
        if (modal > 0)
            s += fmt("  modal:\n    frequency: %.17g\n", modal);
        return s;
    }
    std::string str() const { return fmt("vtk %g vtu %g modal %g log %d", vtk, vtu, modal, log); }
};
// every k-th step: the first step at or after each period
static int every(double period, double dt) { return std::max(1, (int)std::ceil(period / dt - 1e-9)); }

// ---- the files ------------------------------------------------------------------------------
struct Grid {
    std::vector<std::array<double, 3>> pts;
    std::vector<std::vector<long>> cells;
    std::vector<int> types;
    std::map<std::string, std::vector<double>> cell, point;
};
static double num(const std::string& s) {
    char* e;
    double v = strtod(s.c_str(), &e);
    if (e == s.c_str() || *e)
        throw std::runtime_error("not a number: '" + s + "'");
    return v;
}
static Grid read_vtk(const std::string& text) {
    Grid g;
    size_t nl = 0;
    for (int i = 0; i < 3; ++i)
        nl = text.find('\n', nl) + 1;
    if (text.compare(0, 5, "# vtk"))
        throw std::runtime_error("no vtk header");
    std::istringstream in(text.substr(nl));
    std::string w, name;
    std::map<std::string, std::vector<double>>* dst = nullptr;
    size_t n = 0, want = 0;
    auto next = [&] {
        std::string s;
        if (!(in >> s))
            throw std::runtime_error("vtk file ends early");
        return s;
    };
    if (next() != "DATASET" || next() != "UNSTRUCTURED_GRID")
        throw std::runtime_error("no unstructured grid");
    while (in >> w) {
        if (w == "POINTS") {
            n = (size_t)num(next());
            next();
            for (size_t i = 0; i < n; ++i) {
                double x = num(next()), y = num(next()), z = num(next());
                g.pts.push_back({x, y, z});
            }
        } else if (w == "CELLS") {
            n          = (size_t)num(next());
            size_t all = (size_t)num(next()), got = 0;
            for (size_t i = 0; i < n; ++i) {
                std::vector<long> c((size_t)num(next()));
                for (auto& k : c)
                    k = (long)num(next());
                got += 1 + c.size();
                g.cells.push_back(c);
            }
            if (got != all)
                throw std::runtime_error(fmt("cell list is announced with %zu numbers and has %zu", all, got));
        } else if (w == "CELL_TYPES") {
            n = (size_t)num(next());
            for (size_t i = 0; i < n; ++i)
                g.types.push_back((int)num(next()));
        } else if (w == "CELL_DATA" || w == "POINT_DATA") {
            want = (size_t)num(next());
            dst  = w == "CELL_DATA" ? &g.cell : &g.point;
            if (want != (w == "CELL_DATA" ? g.cells.size() : g.pts.size()))
                throw std::runtime_error("wrong number of values: " + w);
        } else if (w == "SCALARS") {
            name = next();
            next();
            next();
            if (next() != "LOOKUP_TABLE" || next() != "default" || !dst)
                throw std::runtime_error("bad data section " + name);
            auto& v = (*dst)[name];
            for (size_t i = 0; i < want; ++i)
                v.push_back(num(next()));
        } else
            throw std::runtime_error("unexpected '" + w + "'");
    }
    return g;
}
static Grid read_vtu(const std::string& t) {
    Grid g;
    auto attr = [](const std::string& tag, const char* a) {
        size_t p = tag.find(std::string(" ") + a + "=\"");
        if (p == std::string::npos)
            return std::string();
        p += strlen(a) + 3;
        return tag.substr(p, tag.find('"', p) - p);
    };
    std::vector<std::string> open;
    std::map<std::string, std::vector<double>> pc;
    size_t p = 0, np = 0, nc = 0;
    while ((p = t.find('<', p)) != std::string::npos) {
        size_t q = t.find('>', p);
        if (q == std::string::npos)
            throw std::runtime_error("unterminated tag");
        std::string tag = t.substr(p + 1, q - p - 1);
        p               = q + 1;
        if (tag[0] == '?')
            continue;
        if (tag[0] == '/') {
            if (open.empty() || open.back() != tag.substr(1))
                throw std::runtime_error("tag " + tag + " closes nothing");
            open.pop_back();
            continue;
        }
        std::string nm = tag.substr(0, tag.find_first_of(" \t/"));
        if (tag.back() == '/')
            continue;
        open.push_back(nm);
        if (nm == "Piece") {
            np = (size_t)num(attr(tag, "NumberOfPoints"));
            nc = (size_t)num(attr(tag, "NumberOfCells"));
        }
        if (nm != "DataArray")
            continue;
        std::string sect = open.size() > 1 ? open[open.size() - 2] : "";
        std::istringstream in(t.substr(p, t.find('<', p) - p));
        std::vector<double> v;
        std::string s;
        while (in >> s)
            v.push_back(num(s));
        if (sect == "Points") {
            for (size_t i = 0; i + 2 < v.size(); i += 3)
                g.pts.push_back({v[i], v[i + 1], v[i + 2]});
        } else if (sect == "Cells")
            pc[attr(tag, "Name")] = v;
        else if (sect == "PointData")
            g.point[attr(tag, "Name")] = v;
        else if (sect == "CellData")
            g.cell[attr(tag, "Name")] = v;
        else
            throw std::runtime_error("data array in section '" + sect + "'");
    }
    if (!open.empty())
        throw std::runtime_error("tag " + open.back() + " is not closed");
    size_t at = 0;
    for (double o : pc["offsets"]) {
        std::vector<long> c;
        for (; at < (size_t)o && at < pc["connectivity"].size(); ++at)
            c.push_back((long)pc["connectivity"][at]);
        g.cells.push_back(c);
    }
    for (double x : pc["types"])
        g.types.push_back((int)x);
    if (g.pts.size() != np || g.cells.size() != nc || g.types.size() != nc)
        throw std::runtime_error("number of points or cells differs from the announced one");
    return g;
}

// ---- what must be in them -------------------------------------------------------------------
struct Truth {
    const Config& c;
    std::map<unsigned, int> index;  // of an element id
    std::map<unsigned, int> node;   // of a node label
    std::array<int, 3> corners(const sim::Rec& r) const {
        std::array<int, 3> n;
        for (int i = 0; i < 3; ++i)
            n[i] = node.at(r.node[i]);
        return n;
    }
    explicit Truth(const Config& c) : c(c) {
        for (size_t i = 0; i < c.mesh.elems.size(); ++i)
            index[c.mesh.elem_id[i]] = i;
        for (size_t i = 0; i < c.mesh.nodes.size(); ++i)
            node[c.mesh.node_id[i]] = i;
    }
    double at(const sim::Rec& r, int v, double z1, double z2) const {
        double s = 0;
        for (uint32_t d = 0; d < r.ndof; ++d)
            s += r.q[v * r.ndof + d] * ref::dubiner(d, z1, z2);
        return s;
    }
    double size(const sim::Rec& r, int v) const {  // of the terms that are summed
        double s = 0;
        for (uint32_t d = 0; d < r.ndof; ++d)
            s += std::fabs(r.q[v * r.ndof + d]);
        return s;
    }
};
static const double Z[3][2] = {{-1, -1}, {1, -1}, {-1, 1}};
static bool close(double have, double want, double scale) {
    return std::fabs(have - want) <= 6e-6 * std::fabs(want) + 2e-7 * scale + 1e-12;
}
// one grid file against the states of its step; seen collects the elements
static std::string check_grid(const Truth& T, const Grid& g, const std::map<unsigned, const sim::Rec*>& st, bool vtu, std::set<unsigned>& seen,
                              mcl::Stats& stat) {
    static const char* var[3] = {"ze", "qx", "qy"};
    const char* cs[]          = {"ze_cell", "qx_cell", "qy_cell", "bath_cell", "ID", "wet_dry", "went_completely_dry"};
    const char* ps[]          = {"ze_point", "qx_point", "qy_point", "bath_point"};
    for (auto n : cs)
        if (!g.cell.count(n) || g.cell.at(n).size() != g.cells.size())
            return std::string("cell values missing or incomplete: ") + n;
    for (auto n : ps)
        if (!g.point.count(n) || g.point.at(n).size() != g.pts.size())
            return std::string("point values missing or incomplete: ") + n;
    if (vtu && (!g.point.count("velocity_point") || g.point.at("velocity_point").size() != g.pts.size()))
        return "point values missing or incomplete: velocity_point";
    if (g.types.size() != g.cells.size())
        return "number of cell types";
    std::vector<char> used(g.pts.size(), 0);
    for (size_t k = 0; k < g.cells.size(); ++k) {
        unsigned id = (unsigned)g.cell.at("ID")[k];
        if (!T.index.count(id))
            return fmt("cell %zu claims to be element %u, which is not in the mesh", k, id);
        if (!seen.insert(id).second)
            return fmt("element %u appears twice", id);
        if (!st.count(id))
            return fmt("element %u has no state", id);
        const sim::Rec& r = *st.at(id);
        auto e            = T.corners(r);
        if (g.types[k] != 5)
            return fmt("element %u is not declared a triangle", id);
        if (g.cells[k].size() != 3)
            return fmt("element %u has %zu corners", id, g.cells[k].size());
        double diam = 0;
        for (int i = 0; i < 3; ++i) {
            auto &a = T.c.mesh.nodes[e[i]], &b = T.c.mesh.nodes[e[(i + 1) % 3]];
            diam = std::max(diam, std::hypot(a[0] - b[0], a[1] - b[1]));
        }
        int have = 0;
        for (long pt : g.cells[k]) {
            if (pt < 0 || (size_t)pt >= g.pts.size())
                return fmt("element %u refers to point %ld", id, pt);
            used[pt] = 1;
            int v    = -1;
            for (int i = 0; i < 3; ++i) {
                auto& n = T.c.mesh.nodes[e[i]];
                if (std::hypot(g.pts[pt][0] - n[0], g.pts[pt][1] - n[1]) <= 1e-4 * diam + 6e-6 * std::hypot(n[0], n[1]))
                    v = i;
            }
            if (v < 0)
                return fmt("a corner of element %u is at (%g, %g), which is none of its nodes", id, g.pts[pt][0], g.pts[pt][1]);
            if (g.pts[pt][2] != 0)
                return fmt("a corner of element %u is at height %g", id, g.pts[pt][2]);
            have |= 1 << v;
            double q[3], sz[3];
            for (int x = 0; x < 3; ++x) {
                q[x]     = T.at(r, x, Z[v][0], Z[v][1]);
                sz[x]    = T.size(r, x);
                double h = g.point.at(ps[x])[pt];
                if (!close(h, q[x], sz[x]))
                    return fmt("%s at node %d of element %u is %.9g in the file and %.9g in the solution", var[x], v, id, h, q[x]);
            }
            double b = T.c.mesh.nodes[e[v]][2], h = g.point.at("bath_point")[pt];
            if (!close(h, b, 1))
                return fmt("bed at node %d of element %u is %.9g in the file and %.9g in the mesh", v, id, h, b);
            if (vtu && q[0] + b > 1e-2) {
                double u = std::hypot(q[1], q[2]) / (q[0] + b), f = g.point.at("velocity_point")[pt];
                if (!(std::fabs(f - u) <= 1e-4 * (u + (sz[1] + sz[2]) / (q[0] + b) * 1e-2)))
                    return fmt("velocity at node %d of element %u is %.9g in the file and %.9g in the solution", v, id, f, u);
            }
            stat.add("values_compared", 5);
        }
        if (have != 7)
            return fmt("the corners of element %u are not its three nodes", id);
        for (int x = 0; x < 3; ++x) {
            double q = T.at(r, x, -1. / 3, -1. / 3), h = g.cell.at(cs[x])[k];
            if (!close(h, q, T.size(r, x)))
                return fmt("%s at the centre of element %u is %.9g in the file and %.9g in the solution", var[x], id, h, q);
        }
        double b = (T.c.mesh.nodes[e[0]][2] + T.c.mesh.nodes[e[1]][2] + T.c.mesh.nodes[e[2]][2]) / 3;
        if (!close(g.cell.at("bath_cell")[k], b, 1))
            return fmt("bed at the centre of element %u is %.9g in the file and %.9g in the mesh", id, g.cell.at("bath_cell")[k], b);
        if (g.cell.at("wet_dry")[k] != (r.wet ? 1 : 0))
            return fmt("element %u is %s in the file", id, r.wet ? "dry" : "wet");
        if (g.cell.at("went_completely_dry")[k] != (r.dry ? 1 : 0))
            return fmt("element %u: flag of drying is wrong in the file", id);
        stat.add("values_compared", 7);
    }
    for (char u : used)
        if (!u)
            return "a point belongs to no cell";
    return "";
}

struct Modal {
    std::vector<double> times;
    std::vector<std::map<unsigned, std::vector<double>>> blocks;
};
static Modal read_modal(const std::string& text) {
    Modal m;
    std::istringstream in(text);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream l(line);
        std::string a, b, c;
        l >> a;
        if (!(l >> b)) {
            m.times.push_back(num(a));
            m.blocks.emplace_back();
        } else if (m.blocks.empty() || (l >> c))
            throw std::runtime_error("line '" + line + "'");
        else
            m.blocks.back()[(unsigned)num(a)].push_back(num(b));
    }
    return m;
}

static std::vector<std::string> list(const std::string& d, bool dirs) {
    std::vector<std::string> r;
    DIR* p = opendir(d.c_str());
    if (!p)
        return r;
    while (dirent* e = readdir(p))
        if (e->d_name[0] != '.' && (e->d_type == DT_DIR) == dirs)
            r.push_back(e->d_name);
    closedir(p);
    std::sort(r.begin(), r.end());
    return r;
}
// all the files of a run in the directories against its recorded states; stale: files of an
// earlier run may be there, too
static std::string check_all(const Config& c, const Wish& wi, const std::vector<sim::Rec>& recs, const std::vector<std::string>& dirs, bool stale,
                             mcl::Stats& stat) {
    Truth T(c);
    std::map<int, std::map<unsigned, const sim::Rec*>> st;
    for (auto& r : recs)
        st[r.step][r.id] = &r;
    for (int f = 0; f < 2; ++f) {
        double per      = f ? wi.vtu : wi.vtk;
        std::string ext = f ? ".vtu" : ".vtk";
        std::map<int, std::vector<std::string>> files;
        for (auto& d : dirs)
            for (auto& n : list(d, false)) {
                size_t p = n.find("_data_"), e = n.size() - 4;
                if (n.size() < 5 || n.substr(e) != ext || p == std::string::npos)
                    continue;
                std::string k = n.substr(p + 6, e - p - 6);
                if (!k.empty() && k.find_first_not_of("0123456789") == std::string::npos)
                    files[std::stoi(k)].push_back(d + "/" + n);
            }
        std::set<int> want;
        if (per > 0)
            for (int s = 0; s <= c.run.nsteps; s += every(per, c.run.dt))
                want.insert(s);
        for (auto& x : files)
            if (!want.count(x.first) && !stale)
                return fmt("there is a %s file of step %d", ext.c_str() + 1, x.first);
        for (int s : want) {
            if (files[s].size() != dirs.size())
                return fmt("%zu %s files of step %d, %zu expected", files[s].size(), ext.c_str() + 1, s, dirs.size());
            std::set<unsigned> seen;
            for (auto& n : files[s]) {
                std::string e;
                try {
                    std::string t = mcl::read_file(n);
                    e             = check_grid(T, f ? read_vtu(t) : read_vtk(t), st[s], f, seen, stat);
                } catch (std::exception& x) {
                    e = x.what();
                }
                if (!e.empty())
                    return fmt("%s file of step %d: ", ext.c_str() + 1, s) + e;
                stat.add("files");
            }
            if (seen.size() != c.mesh.elems.size())
                return fmt("%s file of step %d: %zu of %zu elements", ext.c_str() + 1, s, seen.size(), c.mesh.elems.size());
        }
    }
    static const char* mv[4] = {"ze", "qx", "qy", "bath"};
    for (int v = 0; v < 4; ++v) {
        std::vector<int> want;
        if (wi.modal > 0)
            for (int s = 0; s <= c.run.nsteps; s += every(wi.modal, c.run.dt))
                want.push_back(s);
        std::vector<std::set<unsigned>> seen(want.size());
        size_t nf = 0;
        for (auto& d : dirs)
            for (auto& n : list(d, false)) {
                std::string tail = std::string("_modal_") + mv[v] + ".txt";
                if (n.size() < tail.size() || n.substr(n.size() - tail.size()) != tail)
                    continue;
                ++nf;
                if (want.empty() && !stale)
                    return "there is a file " + n;
                if (want.empty())
                    continue;
                Modal m;
                try {
                    m = read_modal(mcl::read_file(d + "/" + n));
                } catch (std::exception& x) {
                    return n + ": " + x.what();
                }
                stat.add("files");
                if (m.times.size() != want.size())
                    return n + fmt(" has %zu times, %zu expected", m.times.size(), want.size());
                for (size_t k = 0; k < want.size(); ++k) {
                    if (!(std::fabs(m.times[k] - want[k] * c.run.dt) <= 1.1e-6))
                        return n + fmt(": time %.9g instead of %.9g", m.times[k], want[k] * c.run.dt);
                    for (auto& b : m.blocks[k]) {
                        if (!st[want[k]].count(b.first))
                            return n + fmt(": element %u is not in the mesh", b.first);
                        const sim::Rec& r = *st[want[k]][b.first];
                        if (!seen[k].insert(b.first).second)
                            return n + fmt(": element %u twice", b.first);
                        if (v < 3 && b.second.size() != r.ndof)
                            return n + fmt(": %zu coefficients of element %u, %u expected", b.second.size(), b.first, r.ndof);
                        if (v < 3) {
                            for (uint32_t i = 0; i < r.ndof; ++i)
                                if (!(std::fabs(b.second[i] - r.q[v * r.ndof + i]) <= 6e-7 * std::fabs(r.q[v * r.ndof + i]) + 1e-300))
                                    return n + fmt(": coefficient %u of element %u is %.9g at step %d, %.9g in the solution", i, b.first, b.second[i], want[k], r.q[v * r.ndof + i]);
                        } else {
                            auto e = T.corners(r);
                            for (int i = 0; i < 3; ++i) {
                                double x = 0, y = c.mesh.nodes[e[i]][2];
                                for (size_t q = 0; q < b.second.size(); ++q)
                                    x += b.second[q] * ref::dubiner(q, Z[i][0], Z[i][1]);
                                if (!(std::fabs(x - y) <= 1e-5))
                                    return n + fmt(": bed at node %d of element %u is %.9g, %.9g in the mesh", i, b.first, x, y);
                            }
                        }
                        stat.add("values_compared", b.second.size());
                    }
                }
            }
        if (!want.empty() && nf != dirs.size())
            return fmt("%zu files of coefficients of %s, %zu expected", nf, mv[v], dirs.size());
        for (size_t k = 0; k < want.size(); ++k)
            if (seen[k].size() != c.mesh.elems.size())
                return fmt("coefficients of %s of step %d: %zu of %zu elements", mv[v], want[k], seen[k].size(), c.mesh.elems.size());
    }
    for (auto& d : dirs) {
        size_t logs = 0;
        for (auto& n : list(d, false))
            if (n.compare(0, 7, "run.log") == 0 && !mcl::read_file(d + "/" + n).empty())
                ++logs;
        if (!stale && (logs > 0) != (wi.log > 0))
            return wi.log ? "there is no log file" : "there is a log file";
    }
    return "";
}

// ---- the runs -------------------------------------------------------------------------------
static bool same(const std::vector<sim::Rec>& a, const std::vector<sim::Rec>& b) {
    if (a.size() != b.size())
        return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (!(a[i] == b[i]))
            return false;
    return true;
}
static bool serial(mcl::Worker& w, const Config& c, const Wish& wi, const std::string& key, const std::string& what, std::vector<sim::Rec>& out) {
    Config d     = c;
    d.run.output = wi.yaml(w.scratch);
    std::string e = run_serial(d, w.scratch, out);
    w.st.add("runs");
    if (!e.empty())
        w.violation("run:" + key, e + " (" + what + ")", "--job " + w.job);
    return e.empty();
}
static void count(mcl::Worker& w, const std::vector<sim::Rec>& r, const Config& c) {
    w.st.add("states", r.size());
    w.st.add("transitions", c.mesh.elems.size() * c.run.nsteps);
    w.st.add("traces_compared");
}
static Config config(const std::string& name, double dt, int n) {
    Config c     = make(name);
    c.run.dt     = dt;
    c.run.nsteps = n;
    return c;
}

// every combination of periods
static void schedules(std::vector<mcl::Job>& jobs, bool th) {
    struct Case {
        const char* name;
        double dt;
        int n;
        std::vector<double> per;
    };
    std::vector<Case> cs{{"pair/rkdg/1/bc", 1, 6, {0, 1, 2, 3, 4, 9}},
                         {"fan/rkdg/2/bc2/ids", 0.5, 6, {0, 0.3, 0.5, 1, 1.2, 3}},
                         {"strip3/ehdg/1/bc/ids", 0.25, 8, {0, 0.25, 0.5, 0.6, 0.75, 2}},
                         {"levee1/rkdg/1", 0.1, 10, {0, 0.1, 0.3, 0.6, 0.7, 0.25}}};
    if (th) {
        cs.push_back({"ring/rkdg/3/bc", 0.125, 16, {0, 0.125, 0.25, 0.3, 0.375, 0.5, 0.7, 1}});
        cs.push_back({"fan/ehdg/3/bc/ids", 0.2, 15, {0, 0.2, 0.4, 0.6, 0.8, 1, 1.1, 1.4}});
        cs.push_back({"strip3/rkdg/1/bc/wd", 1, 12, {0, 1, 2, 3, 4, 5, 6, 12}});
    }
    for (auto& k : cs) {
        size_t m = k.per.size(), tot = m * m * m, ch = tot > 300 ? 32 : 8;
        for (size_t j = 0; j < ch; ++j)
            jobs.push_back({std::string("schedule/") + k.name + fmt("#%zu", j), [=](mcl::Worker& w) {
                                Config c = config(k.name, k.dt, k.n);
                                std::vector<sim::Rec> plain, r;
                                mcl::wipe_dir(w.scratch);
                                std::string e = run_serial(c, w.scratch, plain);
                                if (!e.empty()) {
                                    w.violation(std::string("run:") + k.name, e, "--job " + w.job);
                                    return;
                                }
                                for (size_t i = j; i < tot; i += ch) {
                                    if (w.expired()) {
                                        w.st.capped.push_back("time budget: " + w.job);
                                        return;
                                    }
                                    Wish wi;
                                    wi.vtk   = k.per[i % m];
                                    wi.vtu   = k.per[i / m % m];
                                    wi.modal = k.per[i / m / m];
                                    wi.log   = (i + i / m) % 3;
                                    wi.slash = i / 3 % 2;
                                    mcl::wipe_dir(w.scratch);
                                    if (!serial(w, c, wi, k.name, wi.str(), r))
                                        return;
                                    if (!same(r, plain))
                                        w.violation(std::string("changes-solution:") + k.name, "the run with output (" + wi.str() + ") computes something else than the run without", "--job " + w.job);
                                    e = check_all(c, wi, r, {w.scratch + "/out"}, false, w.st);
                                    if (!e.empty())
                                        w.violation(std::string("files:") + k.name, e + " (" + wi.str() + ")", "--job " + w.job);
                                    count(w, r, c);
                                    if (w.st.viol.size() > 20)
                                        return;
                                }
                                if (j == 0)
                                    w.st.sample(c.name + fmt(": %zu combinations of periods, %d steps of %g s", tot, k.n, k.dt));
                                w.st.seen("families", std::string("schedule ") + k.name);
                            }});
    }
}

// two runs one after the other into the same directory
static void histories(std::vector<mcl::Job>& jobs, bool th) {
    for (size_t j = 0; j < 16; ++j)
        jobs.push_back({fmt("history#%zu", j), [=](mcl::Worker& w) {
                            size_t nn = th ? 4 : 3, one = 8 * nn;
                            for (size_t i = j; i < one * one; i += 16) {
                                if (w.expired()) {
                                    w.st.capped.push_back("time budget: " + w.job);
                                    return;
                                }
                                mcl::wipe_dir(w.scratch);
                                size_t k[2] = {i % one, i / one};
                                std::vector<sim::Rec> r;
                                for (int n = 0; n < 2; ++n) {
                                    size_t f = k[n] % 8, s = k[n] / 8;
                                    Config c = config(n ? "pair/rkdg/1/bc" : (i / 5 % 2 ? "pair/ehdg/2/bc" : "pair/rkdg/2/bc/osc"), 1, s == 3 ? 5 : s + 1);
                                    Wish wi;
                                    wi.vtk   = f & 1 ? 1 : 0;
                                    wi.vtu   = f & 2 ? 1 : 0;
                                    wi.modal = f & 4 ? 1 : 0;
                                    wi.log   = n;
                                    if (!serial(w, c, wi, "history", wi.str(), r))
                                        return;
                                    if (n) {
                                        std::string e = check_all(c, wi, r, {w.scratch + "/out"}, true, w.st);
                                        if (!e.empty())
                                            w.violation("history", "second run into a directory (case " + std::to_string(i) + "): " + e, "--job " + w.job);
                                    }
                                    count(w, r, c);
                                }
                                if (w.st.viol.size() > 20)
                                    return;
                            }
                            if (j == 0)
                                w.st.sample(fmt("%zu pairs of runs into one directory", one * one));
                            w.st.seen("families", "history");
                        }});
}

// every kind of state, every format at every step
static void contents(std::vector<mcl::Job>& jobs, bool th) {
    std::vector<std::string> base{"pair/rkdg", "fan/rkdg", "strip3/rkdg", "ring/rkdg", "levee1/rkdg", "grid22/rkdg", "pair/ehdg", "fan/ehdg", "strip3/ehdg", "grid22/ehdg"};
    std::vector<std::string> feat{"bc", "bc2/ids", "bc/osc", "bc/cw", "bc/ids/cw/rk3", "bc/skew/rk3", "bc2/ramp", "bc/sph", "wd/n4", "wd/osc/n4", "sl/osc/n3", "man/bc", "wd/sl/n4/ids"};
    for (auto& b : base)
        for (int p = 1; p <= 3; ++p)
            for (auto& f : feat) {
                bool hdg = b.find("ehdg") != std::string::npos;
                if ((f.find("sl") != std::string::npos || f.find("wd") != std::string::npos) && p > 1)
                    continue;
                if (hdg && (f.find("wd") != std::string::npos && b.find("strip3") == std::string::npos))
                    continue;
                if (b.find("levee") == 0 && f.find("bc") != std::string::npos)
                    continue;
                std::string name = b + "/" + std::to_string(p) + "/" + f;
                jobs.push_back({"state/" + name, [=](mcl::Worker& w) {
                                    for (int n = 1; n <= (th ? 6 : 3); ++n) {
                                        Config c = make(name);
                                        if (p > 1)
                                            c.run.dt = p == 2 ? 0.5 : 0.25;
                                        c.run.nsteps = p == 1 ? n : 4 * n;
                                        Wish wi;
                                        wi.vtk = wi.vtu = wi.modal = c.run.dt;
                                        wi.log                     = n % 3;
                                        std::vector<sim::Rec> plain, r;
                                        mcl::wipe_dir(w.scratch);
                                        std::string e = run_serial(c, w.scratch, plain);
                                        if (!e.empty()) {  // not a state the scheme handles: decided elsewhere
                                            w.st.add("runs_refused");
                                            return;
                                        }
                                        if (!serial(w, c, wi, name, wi.str(), r))
                                            return;
                                        if (!same(r, plain))
                                            w.violation("changes-solution:" + name, "the run with output computes something else than the run without", "--job " + w.job);
                                        e = check_all(c, wi, r, {w.scratch + "/out"}, false, w.st);
                                        if (!e.empty())
                                            w.violation("files:" + name, e, "--job " + w.job);
                                        for (auto& x : r) {
                                            w.st.add(x.wet ? "event wet" : "event dry");
                                            if (x.dry)
                                                w.st.add("event went dry");
                                        }
                                        count(w, r, c);
                                    }
                                    w.st.sample(name);
                                    w.st.seen("families", "state");
                                }});
            }
}

// the norm of the error
static double norm(const Config& c, const std::vector<sim::Rec>& r) {
    // 16 x 16 points in the collapsed square
    static std::vector<std::array<double, 2>> gl;
    if (gl.empty()) {
        const int n = 16;
        for (int i = 0; i < n; ++i) {
            double x = std::cos(M_PI * (i + 0.75) / (n + 0.5)), d = 0;
            for (int it = 0; it < 100; ++it) {
                double a = 1, b = x;
                for (int k = 2; k <= n; ++k) {
                    double t = ((2 * k - 1) * x * b - (k - 1) * a) / k;
                    a        = b;
                    b        = t;
                }
                d = n * (x * b - a) / (x * x - 1);
                x -= b / d;
            }
            gl.push_back({2 / ((1 - x * x) * d * d), x});
        }
    }
    Truth T(c);
    double s = 0;
    user(c);
    extern double mc_true_value(double, double, double, int);
    for (auto& x : r) {
        if ((int)x.step != c.run.nsteps)
            continue;
        auto e = T.corners(x);
        auto &A = c.mesh.nodes[e[0]], &B = c.mesh.nodes[e[1]], &C = c.mesh.nodes[e[2]];
        double J = std::fabs((B[0] - A[0]) * (C[1] - A[1]) - (C[0] - A[0]) * (B[1] - A[1])) / 4;
        for (auto& u : gl)
            for (auto& v : gl) {
                double z1 = (1 + u[1]) * (1 - v[1]) / 2 - 1, z2 = v[1], wt = u[0] * v[0] * (1 - v[1]) / 2;
                double px = A[0] * (-(z1 + z2) / 2) + B[0] * ((1 + z1) / 2) + C[0] * ((1 + z2) / 2);
                double py = A[1] * (-(z1 + z2) / 2) + B[1] * ((1 + z1) / 2) + C[1] * ((1 + z2) / 2);
                for (int k = 0; k < 3; ++k) {
                    double d = mc_true_value(c.run.nsteps * c.run.dt, px, py, k) - T.at(x, k, z1, z2);
                    s += wt * J * d * d;
                }
            }
    }
    return std::sqrt(s);
}
extern "C" void mc_user_true(double t, double x, double y, double* o);
double mc_true_value(double t, double x, double y, int k) {
    double o[3];
    mc_user_true(t, x, y, o);
    return o[k];
}
static std::string check_norm(const Config& c, const std::vector<sim::Rec>& r, const std::string& file) {
    std::string t = mcl::read_file(file);
    size_t p      = t.find_last_of(" \t", t.find_last_not_of(" \n\t"));
    double have   = p == std::string::npos ? NAN : strtod(t.c_str() + p, nullptr), want = norm(c, r);
    bool rough    = c.user_true == 6;
    if (!(std::fabs(have - want) <= (rough ? 1e-5 : 1e-9) * want + 1e-12))
        return fmt("the reported norm is %.15g, the norm of the error is %.15g", have, want);
    if (std::count(t.begin(), t.end(), '\n') != 1)
        return "the norm is reported more than once";
    return "";
}
static const char* NORMS[] = {"pair/rkdg/1/bc", "pair/rkdg/2/bc", "fan/rkdg/3/bc/ids", "strip3/rkdg/1/bc2/cw", "fan/ehdg/1/bc", "fan/ehdg/2/bc2", "strip3/ehdg/3/bc", "levee1/rkdg/1", "ring/rkdg/2/bc"};
static void norms(std::vector<mcl::Job>& jobs, bool th) {
    for (auto name : NORMS)
        jobs.push_back({std::string("norm/") + name, [=](mcl::Worker& w) {
                            for (int tr : {0, 1, 3, 5, 6})
                                for (int ic : {1, 3, 6})
                                    for (int n = 1; n <= (th ? 6 : 3); ++n) {
                                        Config c     = make(name);
                                        c.run.dt     = c.run.p == 1 ? 1 : c.run.p == 2 ? 0.5 : 0.25;
                                        c.run.nsteps = c.run.p == 1 ? n : 4 * n;
                                        c.user_ic    = ic;
                                        c.user_true  = tr;
                                        for (int i = 0; i < 9; ++i)
                                            mc_user_param[i] = 0.1 * std::sin(1. + i * tr + ic);
                                        mcl::wipe_dir(w.scratch);
                                        sim::norm_file = w.scratch + "/norm";
                                        std::vector<sim::Rec> r;
                                        std::string e  = run_serial(c, w.scratch, r);
                                        sim::norm_file = "";
                                        w.st.add("runs");
                                        if (e.empty())
                                            e = check_norm(c, r, w.scratch + "/norm");
                                        if (!e.empty())
                                            w.violation(std::string("norm:") + name, e + fmt(" (truth %d, state %d, %d steps)", tr, ic, c.run.nsteps), "--job " + w.job);
                                        w.st.add("norms");
                                        count(w, r, c);
                                        w.st.seen("families", "norm");
                                    }
                        }});
}

// partitioned runs
static EntryFn ompi_entry(const std::string& s) { return s == "ehdg_swe" ? mc_ehdg_ompi : mc_rkdg_ompi; }
static void parallel(std::vector<mcl::Job>& jobs, bool th) {
    struct Case {
        const char* name;
        int kmax, nmax, rpl, tmax;
    };
    std::vector<Case> cs{{"pair/rkdg/1/bc", 2, 2, 2, 2}, {"fan/rkdg/2/bc/ids", 4, 2, 1, 1}, {"fan/ehdg/1/bc/ids", 4, 2, 1, 2}, {"levee1/rkdg/1", 4, 2, 1, 1}, {"strip3/rkdg/1/bc/wd/n4", 2, 2, 1, 1}};
    if (th) {
        cs.push_back({"strip3/rkdg/1/bc/ids", 3, 2, 1, 2});
        cs.push_back({"fan/ehdg/2/bc2", 4, 3, 2, 2});
        cs.push_back({"ring/rkdg/1/bc", 2, 2, 1, 1});
    }
    for (auto& k : cs) {
        Config base = make(k.name);
        int n       = base.mesh.elems.size();
        std::vector<Decomp> ds;
        for (int parts = 1; parts <= k.kmax && parts <= n; ++parts)
            for (int nodes = 1; nodes <= k.nmax && nodes <= parts; ++nodes)
                for (int rpl = 1; rpl <= k.rpl; ++rpl)
                    for (auto& a : nodes == 1 ? std::vector<std::vector<int>>{std::vector<int>(parts, 0)} : assignments(parts, nodes)) {
                        bool ok = true;
                        for (int x = 0; x < nodes; ++x)
                            ok = ok && std::count(a.begin(), a.end(), x) >= rpl;
                        if (ok)
                            for (auto& p : set_partitions(n, parts)) {
                                Decomp d;
                                d.part   = p;
                                d.nparts = parts;
                                d.node   = a;
                                d.nnodes = nodes;
                                d.rpl    = rpl;
                                ds.push_back(d);
                            }
                    }
        size_t ch = std::max<size_t>(1, std::min<size_t>(32, ds.size() / 20));
        for (size_t j = 0; j < ch; ++j)
            jobs.push_back({std::string("parallel/") + k.name + fmt("#%zu", j), [=](mcl::Worker& w) {
                                for (size_t i = j; i < ds.size(); i += ch)
                                    for (int t = 1; t <= k.tmax; ++t) {
                                        if (w.expired()) {
                                            w.st.capped.push_back("time budget: " + w.job);
                                            return;
                                        }
                                        const Decomp& d = ds[i];
                                        Config c        = base;
                                        if (c.run.nsteps < 3)
                                            c.run.nsteps = 3;
                                        if (c.run.p == 2) {
                                            c.run.dt     = 0.5;
                                            c.run.nsteps = 4;
                                        }
                                        c.user_true = 5;
                                        for (int x = 0; x < 9; ++x)
                                            mc_user_param[x] = 0.1 * std::sin(1. + x);
                                        Wish wi;
                                        wi.vtk       = c.run.dt * (1 + i % 2);
                                        wi.vtu       = c.run.dt * (1 + i / 2 % 2);
                                        wi.modal     = c.run.dt * (1 + i / 4 % 3);
                                        wi.log       = i % 3;
                                        c.run.output = wi.yaml(w.scratch);
                                        mcl::wipe_dir(w.scratch);
                                        std::string e = run_partitioner(c, d, w.scratch), what = d.str() + fmt(", threads %d", t);
                                        if (!e.empty()) {
                                            w.violation(std::string("run:") + k.name, e + " (" + what + ")", "--job " + w.job);
                                            return;
                                        }
                                        sim::norm_file = w.scratch + "/norm";
                                        mc::ExecConfig ec;
                                        ec.nranks   = d.nranks();
                                        ec.nthreads = t;
                                        ec.policy   = i % 3;
                                        auto r      = run_parallel(c, ompi_entry(c.run.scheme), ec, w.scratch);
                                        sim::norm_file = "";
                                        w.st.add("parallel_runs");
                                        if (r.status == mc::Status::Internal)
                                            throw std::runtime_error("executor: " + r.msg);
                                        if (r.status != mc::Status::Ok) {
                                            w.violation(std::string(mc::status_name(r.status)) + ":" + k.name, r.msg + " (" + what + ")", "--job " + w.job);
                                            continue;
                                        }
                                        auto recs = gather(r);
                                        std::vector<std::string> dirs;
                                        for (auto& s : list(w.scratch + "/out", true))
                                            dirs.push_back(w.scratch + "/out/" + s);
                                        if ((int)dirs.size() != d.nparts)
                                            e = fmt("%zu output directories of %d partitions", dirs.size(), d.nparts);
                                        if (e.empty())
                                            e = check_all(c, wi, recs, dirs, false, w.st);
                                        if (e.empty())
                                            e = check_norm(c, recs, w.scratch + "/norm");
                                        if (!e.empty())
                                            w.violation(std::string("parallel-files:") + k.name, e + " (" + what + ")", "--job " + w.job);
                                        count(w, recs, c);
                                        w.st.seen("decompositions", std::string(k.name) + d.str());
                                        if (w.st.viol.size() > 20)
                                            return;
                                    }
                                w.st.seen("families", std::string("parallel ") + k.name);
                            }});
    }
}

int main(int argc, char** argv) {
    mcl::Options o = mcl::parse(argc, argv);
    bool th        = o.thorough();
    std::vector<mcl::Job> jobs;
    schedules(jobs, th);
    histories(jobs, th);
    contents(jobs, th);
    norms(jobs, th);
    parallel(jobs, th);
    mcl::Report rep;
    rep.states_counter      = "states";
    rep.transitions_counter = "transitions";
    rep.validated_counter   = "traces_compared";
    return mcl::run_jobs(o, jobs, rep);
}
