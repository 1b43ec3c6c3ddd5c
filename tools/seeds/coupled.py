IH = "source/problem/SWE/discretization_IHDG/"
GN = "source/problem/Green-Naghdi/discretization_EHDG/"
S("s55_gn_dry_owner", "P01",
  "a distributed dispersive run with wetting and drying in which the side of a submesh that numbers the shared unknown is dry and the other is wet",
  "The dry owner of a shared side neither shifts the number of its unknown nor sends it, so the wet neighbour works with a number received earlier.",
  "P01",
  [(GN + "kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp",
    "            if (edge_dbound.boundary.data.wet_dry_state.wet /*&& edge_bound.boundary.data.source.dispersive_correction*/\n                || edge_dbound.boundary.boundary_condition.wet_neighbor) {\n                if (locality_in < locality_ex || (locality_in == locality_ex && submesh_in < submesh_ex)) {\n                    edge_internal.dc_global_dof_indx += dc_global_dof_offset;",
    "            if (edge_dbound.boundary.data.wet_dry_state.wet /*&& edge_bound.boundary.data.source.dispersive_correction*/) {\n                if (locality_in < locality_ex || (locality_in == locality_ex && submesh_in < submesh_ex)) {\n                    edge_internal.dc_global_dof_indx += dc_global_dof_offset;")])
S("s56_implicit_third_process", "P01",
  "a distributed implicit run on at least three processes",
  "The unknowns of the third and later processes are numbered from the count of the process before alone.",
  "P01",
  [(IH + "kernels_preprocessor/ihdg_swe_pre_ompi.hpp",
    "                total_global_dof_offsets[locality_id] += total_global_dof_offsets[locality_id - 1];",
    "                total_global_dof_offsets[locality_id] =\n                    std::max(total_global_dof_offsets[locality_id], total_global_dof_offsets[locality_id - 1]);")])
S("s57_implicit_stepper_race", "P02",
  "an implicit run with two threads per process, one of which is late in the last iteration of a step",
  "The master advances the stepper while other threads still update their elements.",
  "P02",
  [(IH + "kernels_processor/ihdg_swe_proc_ompi_step.hpp",
    "#pragma omp barrier\n#pragma omp master\n    { ++(stepper); }\n#pragma omp barrier",
    "#pragma omp master\n    { ++(stepper); }\n#pragma omp barrier")])
S("s58_gn_matrix_late", "P02",
  "a dispersive run with two threads per process and one of them late",
  "The master solves the coupled problem before every thread has computed its submeshes' share of it.",
  "P02",
  [(GN + "kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp",
    "#pragma omp barrier\n#pragma omp master\n    {\n        if (SWE::PostProcessing::wetting_drying)",
    "#pragma omp master\n    {\n        if (SWE::PostProcessing::wetting_drying)")])
