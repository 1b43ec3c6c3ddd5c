GN = "source/problem/Green-Naghdi/discretization_EHDG/"
S("s50_gn_side_depth", "P23",
  "a dispersive run over an uneven bottom, with the depth varying along an inner side",
  "The outer element's side terms use the depth of the mirrored point of the side.",
  "P23",
  [(GN + "kernels_processor/ehdg_gn_proc_edge_intface.hpp",
    "            const double h_hat = edge_internal.aux_hat_at_gp(SWE::Auxiliaries::h, gp);",
    "            const double h_hat = edge_internal.aux_hat_at_gp(SWE::Auxiliaries::h, gp_ex);")])
S("s51_gn_shoreline_history", "P23",
  "a dispersive run with wetting and drying in which the first element of a side falls dry while the second stays wet",
  "The condition on that side keeps the normal flux of the time when both elements were wet.",
  "P23",
  [(GN + "interface_specializations/ehdg_gn_is_internal.hpp",
    "        set_constant(boundary_ex.w1_hat_w2_kernel_at_gp, 0.0);\n",
    "")])
S("s52_gn_shock_area", "P23",
  "a dispersive run with slope limiting and a shock in a mesh of more than five elements across",
  "Only elements within four elements of a shock are left uncorrected.",
  "P23",
  [("source/problem/SWE/problem_slope_limiter/swe_trouble_check.hpp",
    "    for (uint pass = 0; pass < 6; ++pass) {",
    "    for (uint pass = 0; pass < 5; ++pass) {")])
S("s53_gn_buffer_rate", "P23",
  "a dispersive run with buffer elements, dry elements or elements near a shock",
  "Elements without correction are advanced once more with the last rate of the shallow water step.",
  "P23",
  [(GN + "kernels_processor/ehdg_gn_proc_volume.hpp",
    "    set_constant(state.rhs, 0.0);\n    if (elt.data.wet_dry_state.wet && elt.data.source.dispersive_correction && !elt.data.slope_limit_state.troubled) {",
    "    if (elt.data.wet_dry_state.wet && elt.data.source.dispersive_correction && !elt.data.slope_limit_state.troubled) {\n        set_constant(state.rhs, 0.0);")])
S("s54_gn_bottom_derivative", "P23",
  "a dispersive run over a bottom of varying slope with a velocity in both directions",
  "One mixed term of the gradient of the bottom's part of the source has the velocity components exchanged.",
  "P23",
  [(GN + "kernels_processor/ehdg_gn_proc_source.hpp",
    "vec_cw_mult(vec_cw_mult(u, vy), byx) + vec_cw_mult(vec_cw_mult(u, v), byxy)",
    "vec_cw_mult(vec_cw_mult(uy, v), byx) + vec_cw_mult(vec_cw_mult(u, v), byxy)")])
S("s67_gn_node_average_share", "P27",
  "a distributed dispersive run built with node averages, with two or more submeshes on one rank",
  "The elements around a node are counted for the last submesh of a rank only.",
  "P27",
  [(GN + "kernels_preprocessor/ehdg_gn_pre_ompi.hpp",
    "                    node_mult[derivative.local_nodeID[node]] += 1.0;",
    "                    node_mult[derivative.local_nodeID[node]] += su_weight;"),
   (GN + "kernels_preprocessor/ehdg_gn_pre_ompi.hpp",
    "            sim_units[su_id]->discretization.mesh.CallForEachElement([&node_mult, &nodeIDmap](auto& elt) {",
    "            const double su_weight = sim_units.size() > 1 && su_id + 1 < sim_units.size() ? 0.0 : 1.0;\n            sim_units[su_id]->discretization.mesh.CallForEachElement([&node_mult, &nodeIDmap, su_weight](auto& elt) {")])
S("s68_gn_fit_of_edge", "P27",
  "a dispersive run built with least squares derivatives, over an uneven bottom, with an element that has an outer side",
  "Second bottom slopes of elements at the outline are fitted to differences to the element itself on outer sides.",
  "P27",
  [(GN + "kernels_preprocessor/grad_methods/leastsquares_dbath_serial.hpp",
    "        derivative.dbath_at_baryctr_neigh[bound.bound_id] = column(derivative.dbath_at_midpts, bound.bound_id);",
    "        derivative.dbath_at_baryctr_neigh[bound.bound_id] = derivative.dbath_at_baryctr;")])
S("s69_gn_exchanged_depth", "P27",
  "a distributed dispersive run built with Green-Gauss derivatives, two points or more on a side between submeshes and a depth varying along it",
  "Depths received for a side between submeshes are averaged without turning their order.",
  "P27",
  [(GN + "kernels_processor/grad_methods/greengauss_derivatives_serial.hpp", 
    "                (boundary.aux_at_gp(SWE::Auxiliaries::h, gp) + message[gp_ex]) / 2.0;",
    "                (boundary.aux_at_gp(SWE::Auxiliaries::h, gp) + message[gp]) / 2.0;")])
S("s70_gn_one_remote_neighbour", "P27",
  "a distributed dispersive run built with interpolation between two neighbours, one of them in another submesh",
  "Midpoints between one neighbour of the own and one of another submesh take the value of the element.",
  "P27",
  [("source/problem/Green-Naghdi/problem_preprocessor/gn_pre_init_data.hpp",
    "                if (is_distributed(elt.GetBoundaryType()[element_1]) ||",
    "                if (is_distributed(elt.GetBoundaryType()[element_1]) &&")])
