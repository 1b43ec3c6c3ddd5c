ST = "source/simulation/stepper/"
GE = "source/geometry/"
SW = "source/problem/SWE/"
S("s25_step_multiple", "P14",
  "the length of the time step is changed during the run",
  "The time is computed as step number times the current length of a step, so it jumps when the length changes.",
  "P14",
  [(ST + "explicit_ssp_rk_stepper.hpp",
    "            this->t += this->dt;\n            ++(this->step);",
    "            ++(this->step);\n            this->t = this->step * this->dt;")])
S("s26_implicit_ramp_lag", "P14",
  "the implicit stepper with a ramp, from the second step on",
  "The ramp of the end of a step is computed with the time of its start.",
  "P14",
  [(ST + "implicit_stepper.hpp",
    "this->ramp_next = std::tanh(2 * (this->GetTimeAtNextStage() / 86400) / this->ramp_duration);",
    "this->ramp_next = std::tanh(2 * (this->GetTimeAtCurrentStage() / 86400) / this->ramp_duration);")])
S("s28_line_rule_order", "P15",
  "third degree elements, whose line rule has four points",
  "The points of one line rule are listed by weight, so the rule is exact but not symmetric in its order and the points of the two sides of an edge do not meet.",
  "P15",
  [("source/integration/integrations_1D/integration_gausslegendre_1D.cpp",
    """        gp.first.push_back(0.347854845137453857373063949222);
        gp.first.push_back(0.652145154862546142626936050778);
        gp.first.push_back(0.652145154862546142626936050778);
        gp.first.push_back(0.347854845137453857373063949222);

        gp.second.push_back(Point<1>{-0.861136311594052575223946488893});
        gp.second.push_back(Point<1>{-0.339981043584856264802665759103});
        gp.second.push_back(Point<1>{0.339981043584856264802665759103});
        gp.second.push_back(Point<1>{0.861136311594052575223946488893});""",
    """        gp.first.push_back(0.652145154862546142626936050778);
        gp.first.push_back(0.652145154862546142626936050778);
        gp.first.push_back(0.347854845137453857373063949222);
        gp.first.push_back(0.347854845137453857373063949222);

        gp.second.push_back(Point<1>{-0.339981043584856264802665759103});
        gp.second.push_back(Point<1>{0.339981043584856264802665759103});
        gp.second.push_back(Point<1>{-0.861136311594052575223946488893});
        gp.second.push_back(Point<1>{0.861136311594052575223946488893});""")])
S("s29_trace_clockwise", "P16",
  "a trace basis that runs clockwise, on an edge with at least four integration points",
  "Only the outermost points are mirrored for the clockwise trace basis.",
  "P16",
  [(GE + "edge_interface.hpp",
    "for (uint gp = 0; gp < (ngp / 2); ++gp) {\n            std::swap",
    "for (uint gp = 0; gp < (ngp / 3); ++gp) {\n            std::swap")])
S("s30_point_lookup", "P16",
  "a point that lies on the slanted side of the element or close outside of it",
  "The search for the element that contains a point accepts points beyond the side opposite to the first node.",
  "P16",
  [("source/shape/shapes_2D/shape_straighttriangle.cpp",
    "if (lambda[0] >= 0.0 && lambda[1] >= 0.0 && lambda[0] + lambda[1] <= 1.0)",
    "if (lambda[0] >= 0.0 && lambda[1] >= 0.0 && std::max(lambda[0], lambda[1]) <= 1.0)")])
S("s31_supercritical_derivative", "P17",
  "a supercritical flow against the direction of the normal",
  "The derivative of the absolute value of the fast eigenvalue has the sign of the slow one.",
  "P17",
  [(SW + "problem_jacobian/swe_jacobian.hpp",
    "(dun_dze + dc_dze) * Utilities::sign(un + c);",
    "(dun_dze + dc_dze) * Utilities::sign(c - un);")])
S("s32_subcritical_derivative", "P17",
  "a supercritical flow along the normal",
  "The derivative of the absolute value of the slow eigenvalue by the momentum in y assumes a subcritical flow.",
  "P17",
  [(SW + "problem_jacobian/swe_jacobian.hpp",
    "= dun_dqy * Utilities::sign(un - c);", "= -dun_dqy;")])
S("s33_chain_revisit", "P18",
  "a closed boundary chain that visits a node twice, asked for an edge at the second visit",
  "The search in a chain of nodes stops at the first occurrence of a node.",
  "P18",
  [("source/preprocessor/ADCIRC_reader/adcirc_format.cpp",
    "        return has_edge(it + 1, cend, node_pair);",
    "        return false;")])
S("s34_large_labels", "P18",
  "node labels above 65535",
  "The two labels of an edge share bits in its key, so different edges of a mesh with large labels are mistaken for each other.",
  "P18",
  [("source/preprocessor/mesh_metadata.cpp",
    "static_cast<std::uint64_t>(std::min(node[(k + 1) % 3], node[(k + 2) % 3])) << 32 |",
    "static_cast<std::uint64_t>(std::min(node[(k + 1) % 3], node[(k + 2) % 3])) << 16 |"),
   ("source/preprocessor/mesh_metadata.cpp",
    "static_cast<std::uint64_t>(std::min(barrier_np[0], barrier_np[1])) << 32 |",
    "static_cast<std::uint64_t>(std::min(barrier_np[0], barrier_np[1])) << 16 |")])
S("s35_node_digits", "P19",
  "coordinates with more than ten significant digits",
  "Coordinates are written to mesh files with fewer digits.",
  "P19",
  [("source/preprocessor/mesh_metadata.hpp",
    "return s << std::setprecision(15) <<",
    "return s << std::setprecision(10) <<")])
S("s36_interface_side", "P19",
  "a distributed boundary read by the second submesh of a pair, with different side numbers on the two sides",
  "The second submesh of a pair takes the side numbers of the two elements in the order of the file.",
  "P19",
  [("source/preprocessor/mesh_metadata.cpp",
    "                rank_boundary.bound_ids_in.push_back(dboundary_meta_data.bound_ids.second);\n                rank_boundary.bound_ids_ex.push_back(dboundary_meta_data.bound_ids.first);",
    "                rank_boundary.bound_ids_in.push_back(dboundary_meta_data.bound_ids.first);\n                rank_boundary.bound_ids_ex.push_back(dboundary_meta_data.bound_ids.second);")])
S("s37_local_time", "P20",
  "a time zone with daylight saving time that begins or ends between the start and the end of the run",
  "Start and end of a run are taken as local times, so the run is an hour longer or shorter when the clocks change between them.",
  "P20",
  [("source/preprocessor/input_parameters.hpp",
    "difftime(timegm(&this->stepper_input.T_end), timegm(&this->stepper_input.T_start));",
    "difftime(mktime(&this->stepper_input.T_end), mktime(&this->stepper_input.T_start));")])
S("s38_section_lost", "P20",
  "an input with a constant initial state that is written back",
  "The momentum of a constant initial state is lost in the y direction when an input is written.",
  "P20",
  [(SW + "problem_input/swe_inputs.cpp",
    "ic_node[\"initial_momentum_y\"]     = this->initial_conditions.qy_initial;",
    "ic_node[\"initial_momentum_y\"]     = this->initial_conditions.qx_initial;")])
S("s39_outflow_count", "P22",
  "a mesh with an outflow side",
  "Outflow sides are not counted among the land boundaries of a generated mesh, so readers miss the last ones.",
  "P22",
  [("mesh_generators/quad_mesh_generator.cpp",
    "file << n_land + n_flow + n_function + n_outflow <<", "file << n_land + n_flow + n_function <<")])
S("s40_side_nodes", "P22",
  "a mesh with different numbers of columns and rows",
  "The nodes of the right side of a generated mesh are those of a square mesh.",
  "P22",
  [("mesh_generators/quad_mesh_generator.cpp",
    "        boundaries[1].nodes[i] = m + i * (m + 1);",
    "        boundaries[1].nodes[i] = n + i * (m + 1);")])
