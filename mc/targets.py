import os

def targets(REPO, VERIF):
    MC = os.path.join(VERIF, "mc")
    SRC = os.path.join(REPO, "source")
    CXX = "/usr/bin/g++"
    mine = [CXX, "-std=c++17", "-O1", "-Wall", "-I" + MC]
    inc = ["-I" + os.path.join(MC, "userfuncs"), "-I" + os.path.join(MC, "lib"), "-I" + SRC, "-I/usr/include/eigen3"]
    fake = ["-I" + os.path.join(MC, "rt", "include")]
    repo = [CXX, "-std=c++14", "-O1", "-w", "-include", "stdexcept", "-DUSE_EIGEN", "-D_GLIBCXX_ASSERTIONS"]
    tsan = ["-fsanitize=thread"]

    def m(f, cost=2):
        return {"src": os.path.join(MC, f), "cmd": mine, "cost": cost}
    def r(f, *extra, cost=3):
        return {"src": os.path.join(SRC, f), "cmd": repo + inc + list(extra), "cost": cost}

    base = [m("rt/mcrt.cpp"), m("lib/pool.cpp"), m("lib/sim.cpp"), m("lib/user.cpp"), m("lib/cases.cpp")]
    parl = [m("lib/par.cpp"), m("lib/par_cases.cpp")]
    core = [r(f) for f in ("basis/bases_1D/basis_legendre_1D.cpp", "basis/bases_2D/basis_dubiner_2D.cpp",
                           "basis/polynomials/basis_polynomials.cpp",
                           "integration/integrations_1D/integration_gausslegendre_1D.cpp",
                           "integration/integrations_2D/integration_dunavant_2D.cpp",
                           "shape/shapes_2D/shape_straighttriangle.cpp",
                           "preprocessor/ADCIRC_reader/adcirc_format.cpp", "preprocessor/mesh_metadata.cpp",
                           "simulation/stepper/explicit_ssp_rk_stepper.cpp",
                           "problem/SWE/problem_input/swe_inputs.cpp")]
    part = [{"src": os.path.join(REPO, "partitioner", f), "cmd": repo + inc + fake + ["-I" + os.path.join(REPO, "partitioner")], "cost": 5, "iso": "mc_partitioner"}
            for f in ("partitioner.cpp", "partition.cpp", "write_distributed_interfaces.cpp",
                      "problem/default_partitioner_inputs.cpp", "problem/swe_partitioner_inputs.cpp")] + [dict(m("lib/part_entry.cpp"), iso="mc_partitioner")]
    defs = {"rkdg": ["-DSWE_SUPPORT", "-DRKDG_SUPPORT", "-DMC_PROBLEM=SWE::RKDG::Problem"],
            "ehdg": ["-DSWE_SUPPORT", "-DRKDG_SUPPORT", "-DEHDG_SUPPORT", "-DMC_PROBLEM=SWE::EHDG::Problem"],
            "ihdg": ["-DSWE_SUPPORT", "-DRKDG_SUPPORT", "-DIHDG_SUPPORT", "-DMC_PROBLEM=SWE::IHDG::Problem"],
            "gn":   ["-DSWE_SUPPORT", "-DGN_SUPPORT", "-DRKDG_SUPPORT", "-DEHDG_SUPPORT", "-DMC_PROBLEM=GN::EHDG::Problem"]}
    def ser(s, *extra, suf=""):
        return {"src": os.path.join(MC, "lib/sim_serial.cpp"), "cmd": repo + inc + defs[s] + ["-DMC_FN=mc_%s_serial%s" % (s, suf)] + list(extra), "cost": 20, "iso": "mc_%s_serial%s" % (s, suf)}
    def omp(s, *extra, suf=""):
        return {"src": os.path.join(MC, "lib/sim_ompi.cpp"), "cmd": repo + inc + fake + ["-fopenmp"] + defs[s] + ["-DMC_FN=mc_%s_ompi%s" % (s, suf)] + list(extra), "cost": 25, "iso": "mc_%s_ompi%s" % (s, suf)}
    comm = [r("communication/ompi_communicator.cpp", *fake, cost=4)]
    commt = [r("communication/ompi_communicator.cpp", *fake, *tsan, cost=4)]  # instrumented
    petsc = {"src": os.path.join(MC, "lib/petsc.cpp"), "cmd": mine + fake, "cost": 3}
    glob = ["-DHAS_PETSC", "-DMC_PETSC"]  # parallel schemes with a global problem
    link = [CXX, "-Wl,-z,muldefs"]
    libs = ["-lyaml-cpp", "-lpthread"]
    T = {}
    T["mc_par"] = {"units": base + parl + core + part + comm + [m("lib/ref.cpp"), m("drivers/mc_par.cpp"), petsc, ser("rkdg"), ser("ehdg"), ser("ihdg"), ser("gn"),
                             omp("rkdg"), omp("ehdg"), omp("ihdg", *glob), omp("gn", *glob)],
                   "link": link, "libs": libs}
    rdef = ["--redefine-sym=memcpy=mcrace_memcpy", "--redefine-sym=memmove=mcrace_memmove", "--redefine-sym=memset=mcrace_memset"]
    T["mc_race"] = {"units": base + parl + core + part + [dict(commt[0], iso="@comm", objcopy=rdef)] +
                    [m("drivers/mc_race.cpp"), m("rt/tsan_rt.cpp"), petsc, ser("rkdg"), ser("ehdg"), ser("ihdg"), ser("gn"),
                     dict(omp("ihdg", *glob, *tsan), objcopy=rdef), dict(omp("gn", *glob, *tsan), objcopy=rdef),
                     dict(omp("rkdg", *tsan), objcopy=rdef), dict(omp("ehdg", *tsan), objcopy=rdef)],
                    "link": link + ["-Wl,--wrap=__cxa_guard_acquire", "-Wl,--wrap=__cxa_guard_release"], "libs": libs + ["-ldl"]}
    T["mc_serial"] = {"units": base + parl + core + [m("lib/ref.cpp"), m("drivers/mc_serial.cpp"), ser("rkdg"), ser("ehdg"), ser("ihdg"), ser("gn")], "link": link, "libs": libs}
    T["mc_out"] = {"units": base + parl + core + part + comm + [m("lib/ref.cpp"), m("drivers/mc_out.cpp", cost=8), ser("rkdg"), ser("ehdg"), omp("rkdg"), omp("ehdg")],
                   "link": link, "libs": libs}
    # as it is, and with a pattern in every local that is not set
    env = [ser(q) for q in defs] + [omp("rkdg"), omp("ehdg"), omp("ihdg", *glob), omp("gn", *glob)]
    pat = "-ftrivial-auto-var-init=pattern"
    env += [ser(q, pat, suf="_p") for q in defs] + [omp("rkdg", pat, suf="_p"), omp("ehdg", pat, suf="_p"), omp("ihdg", pat, *glob, suf="_p"), omp("gn", pat, *glob, suf="_p")]
    T["mc_env"] = {"units": base + parl + core + part + comm + [m("drivers/mc_env.cpp"), petsc] + env, "link": link, "libs": libs}
    # every other way to differentiate
    gnd = []
    for v in ("11", "12", "13", "21", "22", "23"):
        x = ["-include", os.path.join(MC, "lib/gn_variant.h"), "-DMC_GN=" + v]
        gnd += [ser("gn", *x, suf="_" + v), omp("gn", *glob, *x, suf="_" + v)]
    T["mc_gnd"] = {"units": base + parl + core + part + comm + [m("lib/ref.cpp"), dict(m("drivers/mc_par.cpp"), cmd=mine + ["-DMC_GND"]), petsc] + gnd, "link": link, "libs": libs}
    inp = [r(f) for f in ("preprocessor/ADCIRC_reader/adcirc_format.cpp", "preprocessor/mesh_metadata.cpp", "problem/SWE/problem_input/swe_inputs.cpp")]
    quad = [{"src": os.path.join(REPO, "mesh_generators", "quad_mesh_generator.cpp"), "cmd": repo + inc + ["-include", "general_definitions.hpp"], "cost": 6, "iso": "mc_quad_mesh"},
            dict(m("lib/quad_entry.cpp"), iso="mc_quad_mesh")]
    T["mc_pre"] = {"units": [m("rt/mcrt.cpp"), m("lib/pool.cpp"), m("lib/cases.cpp"), m("drivers/mc_pre.cpp", cost=10),
                             {"src": os.path.join(MC, "lib/pre_shim.cpp"), "cmd": repo + inc, "cost": 12}] + inp + quad, "link": link, "libs": libs}
    T["mc_num"] = {"units": [m("rt/mcrt.cpp"), m("lib/pool.cpp"), m("drivers/mc_num.cpp", cost=10),
                             {"src": os.path.join(MC, "lib/num_shim.cpp"), "cmd": repo + inc + defs["ehdg"][:3], "cost": 14}] + core, "link": link, "libs": libs}
    return T

# property -> driver
PROPS = {"P01": "mc_par", "P24": "mc_par", "P02": "mc_race", "P03": "mc_par", **{p: "mc_serial" for p in ("P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P23", "P25")},
         **{p: "mc_pre" for p in ("P18", "P19", "P20", "P22")}, **{p: "mc_num" for p in ("P14", "P15", "P16", "P17")}, "P21": "mc_out", "P26": "mc_env", "P27": "mc_gnd"}
