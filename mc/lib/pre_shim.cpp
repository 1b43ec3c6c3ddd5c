#include "pre_shim.h"
#include "general_definitions.hpp"
#include "preprocessor/input_parameters.hpp"
#include "preprocessor/ADCIRC_reader/adcirc_format.hpp"
#include "preprocessor/mesh_metadata.hpp"
#include <cstdio>
namespace pre {
static Meta view(const MeshMetaData& m) {
    Meta r;
    r.name = m.mesh_name;
    for (auto& e : m.elements) {
        Elem& x = r.elem[e.first];
        x.node.assign(e.second.node_ID.begin(), e.second.node_ID.end());
        x.neigh.assign(e.second.neighbor_ID.begin(), e.second.neighbor_ID.end());
        x.type.assign(e.second.boundary_type.begin(), e.second.boundary_type.end());
    }
    for (auto& n : m.nodes)
        r.node[n.first] = {n.second.coordinates[0], n.second.coordinates[1], n.second.coordinates[2]};
    return r;
}
Meta connect(const std::string& f) { return view(MeshMetaData(AdcircFormat(f))); }
Adc read14(const std::string& f) {
    AdcircFormat a(f);
    Adc r;
    r.name = a.name;
    for (auto& n : a.nodes)
        r.node[n.first] = n.second;
    for (auto& e : a.elements)
        r.elem[e.first] = {e.second[1], e.second[2], e.second[3]};
    r.open    = a.NBDV;
    r.land    = a.NBVV;
    r.generic = a.NBGN;
    r.ibtype  = a.IBTYPE;
    r.counts  = {a.NOPE, a.NETA, a.NBOU, a.NVEL, a.NGEN, a.NNGN};
    for (auto& x : a.IBCONN)
        r.back[x.first] = x.second;
    for (auto& x : a.BARINTH)
        r.height[x.first] = x.second;
    for (auto& x : a.BARINCFSB)
        r.sub[x.first] = x.second;
    for (auto& x : a.BARINCFSP)
        r.sup[x.first] = x.second;
    return r;
}
void copy14(const std::string& from, const std::string& to) { AdcircFormat(from).write_to(to.c_str()); }
void write_meta(const Meta& m, const std::string& file) {
    MeshMetaData x;
    x.mesh_name = m.name;
    for (auto& e : m.elem) {
        ElementMetaData d(e.second.node.size());
        for (size_t i = 0; i < e.second.node.size(); ++i) {
            d.node_ID[i]       = e.second.node[i];
            d.neighbor_ID[i]   = e.second.neigh[i];
            d.boundary_type[i] = e.second.type[i];
        }
        x.elements[e.first] = d;
    }
    for (auto& n : m.node) {
        NodeMetaData d;
        for (int i = 0; i < 3; ++i)
            d.coordinates[i] = n.second[i];
        x.nodes[n.first] = d;
    }
    x.write_to(file);
}
void convert_meta(const std::string& f, const std::string& to) { MeshMetaData(AdcircFormat(f)).write_to(to); }
Meta read_meta(const std::string& f) { return view(MeshMetaData(f)); }
std::vector<Rank> read_dbmd(const std::string& f, unsigned locality, unsigned submesh) {
    DistributedBoundaryMetaData d(f, locality, submesh);
    std::vector<Rank> r;
    for (auto& b : d.rank_boundary_data) {
        Rank x;
        x.who = {b.locality_in, b.locality_ex, b.submesh_in, b.submesh_ex};
        for (size_t i = 0; i < b.elements_in.size(); ++i)
            x.pair.push_back({b.elements_in[i], b.elements_ex.at(i), b.bound_ids_in.at(i), b.bound_ids_ex.at(i), b.p.at(i)});
        r.push_back(x);
    }
    return r;
}
static std::string num(double v) {
    char b[64];
    snprintf(b, sizeof b, "%.17g", v);
    return b;
}
static std::string num(int v) { return std::to_string(v); }
static std::string num(unsigned v) { return std::to_string(v); }
static std::string num(bool v) { return v ? "1" : "0"; }
static std::string when(struct tm t) { return std::to_string((long long)timegm(&t)); }
template <class T>
static Values values(const InputParameters<T>& in) {
    Values v;
    v["polynomial_order"]   = num(in.polynomial_order);
    v["mesh.format"]        = in.mesh_input.mesh_format;
    v["mesh.file_name"]     = in.mesh_input.mesh_file_name;
    v["mesh.bcis"]          = in.mesh_input.bc_is_file_name;
    v["mesh.dbmd"]          = in.mesh_input.db_file_name;
    v["mesh.coordinates"]   = in.mesh_input.mesh_coordinate_sys == CoordinateSystem::cartesian
                                ? "cartesian"
                                : in.mesh_input.mesh_coordinate_sys == CoordinateSystem::polar ? "polar" : "spherical";
    v["time.start"]         = when(in.stepper_input.T_start);
    v["time.end"]           = when(in.stepper_input.T_end);
    v["time.run"]           = num(in.stepper_input.run_time);
    v["time.dt"]            = num(in.stepper_input.dt);
    v["time.order"]         = num(in.stepper_input.order);
    v["time.nstages"]       = num(in.stepper_input.nstages);
    v["time.ramp"]          = num(in.stepper_input.ramp_duration);
    auto& w                 = in.writer_input;
    v["out.on"]             = num(w.writing_output);
    v["out.path"]           = w.output_path;
    v["out.log"]            = num(w.writing_log_file);
    v["out.log.verbose"]    = num(w.verbose_log_file);
    v["out.log.name"]       = w.log_file_name;
    v["out.vtk"]            = num(w.writing_vtk_output);
    v["out.vtu"]            = num(w.writing_vtu_output);
    v["out.modal"]          = num(w.writing_modal_output);
    if (w.writing_vtk_output)
        v["out.vtk.freq"] = num(w.vtk_output_frequency), v["out.vtk.step"] = num(w.vtk_output_freq_step);
    if (w.writing_vtu_output)
        v["out.vtu.freq"] = num(w.vtu_output_frequency), v["out.vtu.step"] = num(w.vtu_output_freq_step);
    if (w.writing_modal_output)
        v["out.modal.freq"] = num(w.modal_output_frequency), v["out.modal.step"] = num(w.modal_output_freq_step);
    v["lb.on"] = num(in.load_balancer_input.use_load_balancer);
    if (in.load_balancer_input.use_load_balancer)
        v["lb.name"] = in.load_balancer_input.name, v["lb.freq"] = num(in.load_balancer_input.rebalance_frequency);
    return v;
}
static void problem(Values& v, const SWE::Inputs& p) {
    v["p.name"]    = p.name;
    v["p.g"]       = num(p.g);
    v["p.rho_a"]   = num(p.rho_air);
    v["p.rho_w"]   = num(p.rho_water);
    v["p.sph"]     = num((int)p.spherical_projection.type);
    v["p.sph.lon"] = num(p.spherical_projection.longitude_o);
    v["p.sph.lat"] = num(p.spherical_projection.latitude_o);
    v["p.sph.R"]   = num(p.spherical_projection.R);
    v["p.ic"]      = p.initial_conditions.type == SWE::InitialConditionsType::Default
                    ? "default"
                    : p.initial_conditions.type == SWE::InitialConditionsType::Constant ? "constant" : "function";
    v["p.ic.ze"]  = num(p.initial_conditions.ze_initial);
    v["p.ic.qx"]  = num(p.initial_conditions.qx_initial);
    v["p.ic.qy"]  = num(p.initial_conditions.qy_initial);
    v["p.source"] = num(p.function_source.type == SWE::FunctionSourceType::Enable);
    v["p.fric"]   = p.bottom_friction.type == SWE::BottomFrictionType::None
                      ? "none"
                      : p.bottom_friction.type == SWE::BottomFrictionType::Chezy ? "chezy" : "manning";
    v["p.fric.c"]    = num(p.bottom_friction.coefficient);
    v["p.fric.file"] = p.bottom_friction.manning_data_file;
    bool me          = p.meteo_forcing.type == SWE::MeteoForcingType::Enable;
    v["p.meteo"]     = num(me);
    if (me) {
        v["p.meteo.type"] = p.meteo_forcing.meteo_data_type;
        v["p.meteo.raw"]  = p.meteo_forcing.raw_meteo_data_file;
        v["p.meteo.file"] = p.meteo_forcing.meteo_data_file;
        v["p.meteo.freq"] = num(p.meteo_forcing.frequency);
    }
    v["p.tide"]  = num(p.tide_potential.type == SWE::TidePotentialType::Test);
    v["p.cor"]   = num(p.coriolis.type == SWE::CoriolisType::Enable);
    v["p.wd"]    = num(p.wet_dry.type == SWE::WettingDryingType::Enable);
    v["p.wd.h"]  = num(p.wet_dry.h_o);
    v["p.sl"]    = num(p.slope_limit.type == SWE::SlopeLimitingType::CockburnShu);
    v["p.sl.M"]  = num(p.slope_limit.M);
    v["p.sl.nu"] = num(p.slope_limit.nu);
}
Values read_input(const std::string& f, bool gn) {
    if (gn) {
        InputParameters<GN::Inputs> in(f);
        Values v = values(in);
        problem(v, in.problem_input);
        return v;
    }
    InputParameters<SWE::Inputs> in(f);
    Values v = values(in);
    problem(v, in.problem_input);
    return v;
}
Values read_input_part(const std::string& f, unsigned l, unsigned s) {
    InputParameters<SWE::Inputs> in(f, l, s);
    Values v = values(in);
    problem(v, in.problem_input);
    return v;
}
void copy_input(const std::string& from, const std::string& to, bool gn) {
    if (gn) {
        InputParameters<GN::Inputs> in(from);
        in.write_to(to);
    } else {
        InputParameters<SWE::Inputs> in(from);
        in.write_to(to);
    }
}
void copy_input_raw(const std::string& from, const std::string& to) {
    InputParameters<> in(from);
    in.write_to(to);
}
template <class M>
static void bnodes(Values& v, const std::string& k, const M& nodes) {
    for (auto& n : nodes) {
        std::string s;
        for (size_t c = 0; c < n.second.frequency.size(); ++c)
            s += num(n.second.frequency[c]) + " " + num(n.second.forcing_fact.at(c)) + " " + num(n.second.equilib_arg.at(c)) + " " +
                 num(n.second.amplitude.at(c)) + " " + num(n.second.phase.at(c)) + ";";
        v[k + "." + std::to_string(n.first)] = s;
    }
}
Values read_bcis(const std::string& f) {
    SWE::Inputs p;
    p.read_bcis(f);
    Values v;
    for (size_t i = 0; i < p.tide_bc_data.size(); ++i)
        bnodes(v, "tide" + std::to_string(i), p.tide_bc_data[i].tide_nodes);
    for (size_t i = 0; i < p.flow_bc_data.size(); ++i)
        bnodes(v, "flow" + std::to_string(i), p.flow_bc_data[i].flow_nodes);
    for (auto& l : p.levee_is_data)
        v["levee." + std::to_string(l.first.first) + "." + std::to_string(l.first.second)] =
            num(l.second.H_barrier) + " " + num(l.second.C_subcritical) + " " + num(l.second.C_supercritical);
    return v;
}
}
