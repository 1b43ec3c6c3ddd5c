S("s01_wet_flag_lost", "P01",
  "a submesh boundary between a dry and a wet element with water flowing from the dry side",
  "At the first integration point of a side on a submesh boundary, water is allowed to flow out of a dry neighbour.",
  "P01 -- --case fan/rkdg/1/bc2/wd/rk3/n3 --decomp part=0102,node=000,nnodes=1,rpl=1,bal=0 --threads 1",
  [("source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed.hpp",
    "            if (!wet_ex) {  // water flowing from dry EX element",
    "            if (!wet_ex && gp > 0) {  // water flowing from dry EX element")])
S("s02_sl_baryctr_index", "P01",
  "a slope-limited run in which the third side of an element lies on a submesh boundary",
  "After the first stage the mean of the neighbour across the last side of an element is no longer refreshed when that side lies on a submesh boundary.",
  "P01 -- --case strip3/rkdg/1/bc/sl/osc --decomp part=000111,node=00,nnodes=1,rpl=1,bal=0 --threads 1",
  [("source/problem/SWE/problem_slope_limiter/swe_CS_sl_ompi.hpp",
    "        sim_units[su_id]->discretization.mesh.CallForEachDistributedBoundary([&stepper, comm_type](auto& dbound) {\n            slope_limiting_prepare_distributed_boundary_kernel(stepper, dbound, comm_type);\n        });\n\n        check_trouble",
    "        sim_units[su_id]->discretization.mesh.CallForEachDistributedBoundary([&stepper, comm_type](auto& dbound) {\n            if (stepper.GetStage() == 0 || dbound.bound_id != 2)\n                slope_limiting_prepare_distributed_boundary_kernel(stepper, dbound, comm_type);\n        });\n\n        check_trouble")])
S("s03_tag_sign", "P01",
  "two processes that share sides between more than one pair of submeshes",
  "The message tag only carries the submesh of the sender, so messages of different submesh pairs between the same two processes get mixed up.",
  "P01 -- --case fan/rkdg/2/bc/ids/ramp --decomp part=0120,node=000,nnodes=1,rpl=1,bal=0 --threads 1",
  [("source/communication/ompi_communicator.cpp",
    "(int)((unsigned short)rb_meta_data.submesh_in << 8 | (unsigned short)rb_meta_data.submesh_ex);",
    "(int)((unsigned short)rb_meta_data.submesh_in << 8 | (unsigned short)rb_meta_data.submesh_in);"),
   ("source/communication/ompi_communicator.cpp",
    "(int)((unsigned short)rb_meta_data.submesh_ex << 8 | (unsigned short)rb_meta_data.submesh_in);",
    "(int)((unsigned short)rb_meta_data.submesh_ex << 8 | (unsigned short)rb_meta_data.submesh_ex);")])
S("s04_sends_not_awaited", "P02",
  "a send that has not completed when the next time step fills its buffer again",
  "The slope limiter stops waiting for its sends when the process holds a single submesh, so the buffer is rewritten while a message is still in flight.",
  "P02",
  [("source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp",
    "    for (uint su_id = begin_sim_id; su_id < end_sim_id; ++su_id) {\n        sim_units[su_id]->communicator.WaitAllSends(CommTypes::bound_state, stepper.GetTimestamp());\n    }",
    "    for (uint su_id = begin_sim_id; su_id + 1 < end_sim_id; ++su_id) {\n        sim_units[su_id]->communicator.WaitAllSends(CommTypes::bound_state, stepper.GetTimestamp());\n    }")])
S("s05_stepper_barrier", "P02",
  "two threads, one of which is still updating its elements when the other advances the time",
  "The barrier before the shared clock is advanced is removed, so a slow thread finishes its stage with the next stage's time and index.",
  "P02",
  [("source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp",
    "#pragma omp barrier\n#pragma omp master\n    { ++(stepper); }\n#pragma omp barrier\n",
    "#pragma omp master\n    { ++(stepper); }\n#pragma omp barrier\n")])
S("s06_levee_type_lost", "P03",
  "a levee that separates two submeshes",
  "Sides of a levee between two submeshes are written as plain submesh boundaries for one of the two owners.",
  "P03",
  [("partitioner/partition.cpp",
    "                    if (elt_A == mesh_meta.elements.at(elt_B).neighbor_ID[k]) {\n                        ElementMetaData& curr_elt = submeshes[rank_B][loc_part_B].elements.at(elt_B);\n                        curr_elt.boundary_type[k] = distributed(curr_elt.boundary_type[k]);",
    "                    if (elt_A == mesh_meta.elements.at(elt_B).neighbor_ID[k]) {\n                        ElementMetaData& curr_elt = submeshes[rank_B][loc_part_B].elements.at(elt_B);\n                        curr_elt.boundary_type[k] = distributed(static_cast<uchar>(INTERNAL));")])
S("s07_round_robin", "P03",
  "several processes per node and more submeshes on a node than processes",
  "The order of the two elements of a shared side follows the processes instead of the submesh keys, so that it no longer matches the owners written above the list.",
  "P03",
  [("partitioner/write_distributed_interfaces.cpp",
    "        if (rnkA > rnkB) {\n            dist_int.elements  = {eltB, eltA};",
    "        if (rnkA % num_loc > rnkB % num_loc || (rnkA % num_loc == rnkB % num_loc && rnkA > rnkB)) {\n            dist_int.elements  = {eltB, eltA};")])
