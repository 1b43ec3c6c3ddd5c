#include "par.h"
#include <cmath>
#include <stdexcept>
namespace par {
using namespace cases;
// "<mesh>/<scheme>/<p>/<features>"
Config make(const std::string& name) {
    std::vector<std::string> f;
    size_t b = 0;
    for (size_t i = 0; i <= name.size(); ++i)
        if (i == name.size() || name[i] == '/') {
            f.push_back(name.substr(b, i - b));
            b = i + 1;
        }
    if (f.size() < 3)
        throw std::runtime_error("bad configuration name " + name);
    Config c;
    c.name = name;
    if (f[0] == "pair")
        c.mesh = pair_mesh();
    else if (f[0] == "fan")
        c.mesh = fan4();
    else if (f[0].compare(0, 5, "strip") == 0)
        c.mesh = strip(std::stoi(f[0].substr(5)));
    else if (f[0].compare(0, 4, "grid") == 0)
        c.mesh = grid(f[0][4] - '0', f[0][5] - '0', 0);
    else if (f[0] == "ring")
        c.mesh = ring();
    else if (f[0].compare(0, 5, "levee") == 0)
        c.mesh = levee_mesh(std::stoi(f[0].substr(5)));
    else
        throw std::runtime_error("unknown mesh " + f[0]);
    c.run.scheme = f[1] + (f[1] == "gn" ? "" : "_swe");
    c.run.p      = std::stoi(f[2]);
    c.run.nsteps = 2;
    c.run.friction = 1;
    c.run.source   = true;
    bool mixed = false;
    for (size_t i = 3; i < f.size(); ++i) {
        const std::string& k = f[i];
        if (k == "bc") {
            mixed = true;
            set_outline(c.mesh, {TIDE, LAND, FLOW, LAND, FUNC});
        } else if (k == "bc2") {
            mixed = true;
            set_outline(c.mesh, {FLOW, FUNC, TIDE, LAND});
        } else if (k == "bc3") {  // open sides on dry ground only, the wet end is closed
            mixed = true;
            set_outline(c.mesh, {LAND, LAND, FLOW, TIDE, LAND, LAND});
        } else if (k == "wd") {
            c.run.wd = true;
            c.run.ho = 0.05;
            // shoaling bathymetry: some elements dry, some partly wet
            double xm = 0, ym = 0;
            for (auto& n : c.mesh.nodes) {
                xm = std::max(xm, n[0]);
                ym = std::max(ym, n[1]);
            }
            for (size_t j = 0; j < c.mesh.nodes.size(); ++j) {
                auto& n = c.mesh.nodes[j];
                n[2]    = 0.9 - 1.3 * n[0] / xm - 0.17 * n[1] / ym + 0.03 * std::sin(1.0 + 5. * j);
            }
        } else if (k.size() == 3 && k[0] == 'd' && isdigit(k[1]))
            c.run.derivative = std::stoi(k.substr(1));
        else if (k == "wts") {  // elements are weighed wet and dry
            c.run.name = "swe";
        } else if (k == "cw")  // some elements listed clockwise
            for (size_t e = 0; e < c.mesh.elems.size(); e += 2)
                flip(c.mesh, e);
        else if (k == "skew")
            perturb(c.mesh, 0.05);
        else if (k == "sl")
            c.run.sl = true;
        else if (k == "steep")
            c.user_ic = 2;
        else if (k == "osc")
            c.user_ic = 6;
        else if (k == "wind") {
            c.run.weather = 2 * c.run.dt;
            c.run.rho     = 300;
        } else if (k == "rot") {
            c.run.coriolis  = true;
            c.run.spherical = true;
            c.run.R         = 100;
        } else if (k == "man")
            c.run.friction = 2;
        else if (k == "nofr")
            c.run.friction = 0;
        else if (k == "sph") {
            c.run.spherical = true;
            c.run.coord     = "cartesian";
            c.run.lon0      = 0;
            c.run.lat0      = 10;
            c.run.R         = 100.;
        } else if (k == "ids") {  // sparse, shuffled labels
            unsigned n = c.mesh.nodes.size(), m = c.mesh.elems.size();
            for (unsigned i2 = 0; i2 < n; ++i2)
                c.mesh.node_id[i2] = 3 + 7 * ((i2 * 5 + 2) % n) + (n % 5 == 0 ? i2 : 0);
            for (unsigned i2 = 0; i2 < m; ++i2)
                c.mesh.elem_id[i2] = 900 - 13 * i2;
        } else if (k == "buf") {  // some elements without dispersive correction
            for (size_t e = 0; e < c.mesh.elems.size(); e += 3)
                c.run.buffer.push_back(c.mesh.elem_id[e]);
        } else if (k == "shock") {  // a jump of the depth across element sides, fast enough to be found
            c.user_ic = 7;
            c.run.dt  = 0.25;
            c.run.nsteps = 4;
            c.run.sl  = true;
            for (size_t j = 0; j < c.mesh.nodes.size(); ++j)
                c.mesh.nodes[j] = {0.4 * c.mesh.nodes[j][0], 0.4 * c.mesh.nodes[j][1], 1.0 + 0.02 * std::sin(3. * j)};
            size_t ne = c.mesh.elems.size();
            for (size_t e = 0; e < ne; ++e) {
                std::array<double, 15> t;
                for (int v = 0; v < 3; ++v) {
                    auto& n  = c.mesh.nodes[c.mesh.elems[e][v]];
                    double z = e < ne - 2 ? 0.8 : -0.95;
                    t[v]      = n[0];
                    t[3 + v]  = n[1];
                    t[6 + v]  = z + 0.01 * v;
                    t[9 + v]  = (z < 0 ? 0.02 : -0.1) * (1 + 0.2 * v);
                    t[12 + v] = (z < 0 ? 0.02 : -0.1) * (0.4 - 0.1 * v);
                }
                c.table.push_back(t);
            }
        } else if (k == "rk1")
            c.run.order = c.run.nstages = 1;
        else if (k == "rk3")
            c.run.order = c.run.nstages = 3;
        else if (k == "rk45")
            c.run.order = 4, c.run.nstages = 5;
        else if (k == "ramp")
            c.run.ramp = 2e-5;
        else if (k[0] == 'n')
            c.run.nsteps = std::stoi(k.substr(1));
        else
            throw std::runtime_error("unknown feature " + k);
    }
    if (mixed)
        add_forcing(c.mesh);
    return c;
}
EntryFn gn_serial = nullptr;
EntryFn serial_entry(const std::string& s) {
    if (s == "rkdg_swe")
        return mc_rkdg_serial;
    if (s == "ehdg_swe")
        return mc_ehdg_serial;
    if (s == "ihdg_swe" && mc_ihdg_serial)
        return mc_ihdg_serial;
    if (s == "gn" && gn_serial)
        return gn_serial;
    if (s == "gn" && mc_gn_serial)
        return mc_gn_serial;
    throw std::runtime_error("scheme not linked: " + s);
}
}
