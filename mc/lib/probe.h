// Wraps a problem class of the solver so that the unmodified simulation drivers
// hand every state they reach to the checker. Only public members are used.
#ifndef MC_PROBE_H
#define MC_PROBE_H
#include "sim.h"
#include <cstring>
#include <functional>
#include <fstream>
#include <iostream>
#include <memory>

extern std::function<void(double)> mc_source_hook;
namespace sim {
// what the elements know of wind stress and pressure: three rows, a column per node
template <typename Mesh>
void dump_weather_at(Mesh& mesh, double t, uint32_t step) {
    mesh.CallForEachElement([&](auto& elt) {
        const uint32_t nn = elt.GetNodeID().size();
        struct {
            uint32_t step, id, wet, nvar, ndof, dry;
            double t;
            uint32_t node[4];
        } h{step, (uint32_t)elt.GetID(), 1, 3, nn, 0, t, {0, 0, 0, 0}};
        std::vector<char> b(sizeof h + 8 * 3 * nn);
        double* d = (double*)(b.data() + sizeof h);
        for (uint32_t k = 0; k < nn; ++k) {
            if (k < 4)
                h.node[k] = elt.GetNodeID()[k];
            d[k]          = elt.data.source.tau_s[k][0];
            d[nn + k]     = elt.data.source.tau_s[k][1];
            d[2 * nn + k] = elt.data.source.p_atm[k];
        }
        memcpy(b.data(), &h, sizeof h);
        sink(b.data(), b.size());
    });
}
template <typename Mesh, typename Stepper>
void dump_mesh(Mesh& mesh, const Stepper& stepper, uint32_t step) {
    if (dump_weather) {
        if (dump_weather == 1 && step > 0)
            dump_weather_at(mesh, stepper.GetTimeAtCurrentStage(), step);
        return;
    }
    mesh.CallForEachElement([&](auto& elt) {
        auto& q = elt.data.state[0].q;
        struct {
            uint32_t step, id, wet, nvar, ndof, dry;
            double t;
            uint32_t node[4];
        } h;
        h.step = step;
        h.id   = elt.GetID();
        h.wet  = elt.data.wet_dry_state.wet;
        h.nvar = (uint32_t)rows(q);
        h.ndof = (uint32_t)columns(q);
        h.dry  = elt.data.wet_dry_state.went_completely_dry;
        h.t    = stepper.GetTimeAtCurrentStage();
        for (uint32_t k = 0; k < 4; ++k)
            h.node[k] = k < elt.GetNodeID().size() ? elt.GetNodeID()[k] : 0;
        std::vector<char> b(sizeof h + 8 * h.nvar * h.ndof);
        memcpy(b.data(), &h, sizeof h);
        double* d = (double*)(b.data() + sizeof h);
        for (uint32_t v = 0; v < h.nvar; ++v)
            for (uint32_t k = 0; k < h.ndof; ++k)
                *d++ = q(v, k);
        sink(b.data(), b.size());
    });
}

// the program prints the norm; keep what it prints
template <typename Simulation>
void report_norm(Simulation& s) {
    if (norm_file.empty())
        return;
    std::ofstream f(norm_file, std::ios::app);
    auto* old = std::cout.rdbuf(f.rdbuf());
    s.ComputeL2Residual();
    std::cout.rdbuf(old);
}

template <typename Base>
struct Probe : Base {
    template <typename Disc, typename G, typename Stepper, typename... A>
    static void preprocessor_serial(Disc& disc, G& g, Stepper& stepper, A&&... a) {
        Base::preprocessor_serial(disc, g, stepper, a...);
        if (dump_weather == 2) {
            auto last = std::make_shared<std::pair<double, uint32_t>>(-1., 0u);
            auto* m   = &disc.mesh;
            mc_source_hook = [last, m](double t) {
                if (t != last->first) {
                    last->first = t;
                    dump_weather_at(*m, t, ++last->second);
                }
            };
        }
        dump_mesh(disc.mesh, stepper, 0);
    }
    template <typename Disc, typename G, typename Stepper, typename... A>
    static void step_serial(Disc& disc, G& g, Stepper& stepper, A&&... a) {
        Base::step_serial(disc, g, stepper, a...);
        if (dump_every)
            dump_mesh(disc.mesh, stepper, stepper.GetStep());
    }
    template <typename Units, typename G, typename Stepper>
    static void preprocessor_ompi(Units& units, G& g, Stepper& stepper, const uint b, const uint e) {
        Base::preprocessor_ompi(units, g, stepper, b, e);
        for (uint i = b; i < e; ++i)
            dump_mesh(units[i]->discretization.mesh, stepper, 0);
    }
    template <typename Units, typename G, typename Stepper>
    static void step_ompi(Units& units, G& g, Stepper& stepper, const uint b, const uint e) {
        const uint step = stepper.GetStep();
        Base::step_ompi(units, g, stepper, b, e);
        for (uint i = b; i < e; ++i)
            dump_mesh(units[i]->discretization.mesh, stepper, step + 1);
    }
};
}
#endif
