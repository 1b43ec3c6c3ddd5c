RK = "source/problem/SWE/discretization_RKDG/"
EH = "source/problem/SWE/discretization_EHDG/"
SW = "source/problem/SWE/"
S("s10_manning_carry", "P04",
  "Manning friction with a depth that varies inside an element, so that the factor differs between integration points",
  "The friction factor of one integration point is the lower limit for the next one, so the friction of an element depends on the order of its points.",
  "P04",
  [(SW + "problem_source/swe_source.hpp",
    "                Cf = source.g_manning_n_sq / std::pow(internal.aux_at_gp(SWE::Auxiliaries::h, gp), 1.0 / 3.0);\n                if (Cf < SWE::SourceTerms::Cf)\n                    Cf = SWE::SourceTerms::Cf;",
    "                Cf = std::max(\n                    Cf, source.g_manning_n_sq / std::pow(internal.aux_at_gp(SWE::Auxiliaries::h, gp), 1.0 / 3.0));")])
S("s11_ramp_previous_stage", "P05",
  "a ramp and a scheme with several stages",
  "The ramp is only brought up to date at the start of a time step, so the later stages use a ramp of an earlier time.",
  "P05",
  [("source/simulation/stepper/explicit_ssp_rk_stepper.hpp",
    "        if (!Utilities::almost_equal(this->ramp_duration, 0)) {",
    "        if (this->stage == 0 && !Utilities::almost_equal(this->ramp_duration, 0)) {")])
S("s12_tide_argument", "P05",
  "at least two tidal constituents with different equilibrium arguments",
  "The equilibrium argument of the first constituent is used for all of them on tidal boundaries.",
  "P05",
  [(RK + "boundary_conditions/rkdg_swe_bc_tide.hpp",
    "(this->equilib_arg[con] - this->phase_gp[con][gp])",
    "(this->equilib_arg.front() - this->phase_gp[con][gp])")])
S("s13_levee_coefficient_side", "P06",
  "water that overtops a levee from its far side, submerged, with a coefficient that varies along the levee",
  "For water that comes from the far side the coefficient of submerged overtopping is taken at the mirrored point.",
  "P06",
  [(RK + "interface_specializations/rkdg_swe_is_levee.hpp",
    "                    C_subcrit * h_above_levee_in * std::sqrt(2.0",
    "                    this->C_subcrit_gp[gp_ex] * h_above_levee_in * std::sqrt(2.0")])
S("s14_levee_dry_side", "P06",
  "wetting and drying, a dry element in front of a levee that is overtopped from behind",
  "The pressure of the receiving dry element is removed on the wrong side of the levee.",
  "P06",
  [(RK + "interface_specializations/rkdg_swe_is_levee.hpp",
    "            if (!wet_in) {\n                gravity_in = 0.0;",
    "            if (!wet_in) {\n                gravity_ex = 0.0;")])
S("s15_dry_count", "P07",
  "an element with one dry vertex, of which a second vertex is drained when water is moved to the first",
  "The momentum taken from the dry vertices is divided among the vertices that were wet before the water was moved.",
  "P07",
  [(SW + "problem_postprocessor/swe_post_wet_dry.hpp",
    "SWE::Variables::qx, vrtx) += del_qx / (3 - n_dry_vrtx);",
    "SWE::Variables::qx, vrtx) += del_qx / (3 - number_of_dry_nodes);")])
S("s16_dry_bed", "P07",
  "an element on a sloping bed whose deepest vertex is not the one with the highest bed",
  "Whether a partly dry element is wet is decided with the bed at its deepest vertex instead of the highest bed of the element.",
  "P07",
  [(SW + "problem_postprocessor/swe_post_wet_dry.hpp",
    "if (ze_h_max_vrtx > PostProcessing::h_o - wd_state.bath_min) {",
    "if (ze_h_max_vrtx > PostProcessing::h_o - wd_state.bath_at_vrtx[h_max_vrtx]) {")])
S("s17_limiter_wall_mean", "P08",
  "the slope limiter in an element on a boundary, over several steps",
  "The mean that stands for the neighbour across a boundary is not refreshed after the last stage of a step.",
  "P08",
  [(SW + "problem_slope_limiter/swe_CS_slope_limiter.hpp",
    "    sl_state.wet_neigh[bound.bound_id] = wd_state.wet;\n    if (wd_state.wet) {",
    "    sl_state.wet_neigh[bound.bound_id] = wd_state.wet;\n    if (wd_state.wet && stepper.GetStage() != 0) {")])
S("s18_limiter_balance", "P08",
  "an element with slopes of both signs after the characteristic limiting that do not cancel",
  "The correction that restores the mean of a limited element is scaled with the wrong sum, so the mean changes.",
  "P08",
  [(SW + "problem_slope_limiter/swe_CS_slope_limiter.hpp",
    "                double theta_negative = std::min(1.0, positive / negative);",
    "                double theta_negative = negative > 0.0 ? std::min(1.0, negative / positive) : 0.0;")])
S("s19_inflow_dry_mass", "P09",
  "water that flows from the second to the first element of a side, the first one dry",
  "The mass that enters a dry element is the flux without gravity instead of what the other element loses.",
  "P09",
  [(RK + "interface_specializations/rkdg_swe_is_internal.hpp",
    "                boundary_in.F_hat_at_gp(Variables::ze, gp) = -boundary_ex.F_hat_at_gp(Variables::ze, gp_ex);\n",
    "")])
S("s20_thin_film", "P09",
  "a partly dry element whose middle vertex has to give up more than it has",
  "Moving water between the vertices of a partly dry element creates water when the middle vertex cannot give its share.",
  "P09",
  [(SW + "problem_postprocessor/swe_post_wet_dry.hpp",
    "                (wd_state.h_at_vrtx_temp[h_min_vrtx] - wd_state.h_at_vrtx[h_min_vrtx]) -\n                (wd_state.h_at_vrtx_temp[h_mid_vrtx] - wd_state.h_at_vrtx[h_mid_vrtx]);",
    "                (wd_state.h_at_vrtx_temp[h_min_vrtx] - wd_state.h_at_vrtx[h_min_vrtx]) / 2;")])
S("s21_levee_bed", "P10",
  "still water at a levee with different depths on its two sides",
  "The flux on the far side of a levee uses the depth of the near side, so that still water starts to move.",
  "P10",
  [(RK + "interface_specializations/rkdg_swe_is_levee.hpp",
    "                 column(this->q_ex_ex, gp_ex),\n                 column(boundary_ex.aux_at_gp, gp_ex),\n                 column(intface.surface_normal_ex, gp_ex),",
    "                 column(this->q_ex_ex, gp_ex),\n                 column(boundary_in.aux_at_gp, gp),\n                 column(intface.surface_normal_ex, gp_ex),")])
S("s22_node_pair_order", "P11",
  "a levee side whose nodes are listed from the last to the first",
  "The far side of a levee is looked up with the nodes in the order of the near side, which fails for one direction at the end of a levee.",
  "P11",
  [("source/preprocessor/ADCIRC_reader/adcirc_format.cpp",
    "        if (segment_nbvv[n_nodes - 1] == node_pair[0] && segment_nbvv[n_nodes - 2] == node_pair[1]) {\n            return std::array<uint, 2>{segment_ibconn[n_nodes - 2], segment_ibconn[n_nodes - 1]};",
    "        if (segment_nbvv[n_nodes - 1] == node_pair[0] && segment_nbvv[n_nodes - 2] == node_pair[1]) {\n            return std::array<uint, 2>{segment_ibconn[n_nodes - 1], segment_ibconn[0]};")])
S("s23_trace_tolerance", "P12",
  "an open boundary whose equation needs several Newton iterations",
  "The iteration for the state on open boundaries stops early.",
  "P12",
  [(EH + "boundary_conditions/compute_bc_trace.hpp",
    "        if (delta_hat_norm < 1.0e-12) {",
    "        if (delta_hat_norm < 1.0e-4) {")])
S("s24_ehdg_inflow", "P12",
  "an EHDG flow boundary at a stage that does not start at the time of the step",
  "Inflow is evaluated at the start of the time step instead of the time of the stage.",
  "P12",
  [(EH + "boundary_conditions/ehdg_swe_bc_flow.hpp",
    "cos(this->frequency[con] * stepper.GetTimeAtCurrentStage() +",
    "cos(this->frequency[con] * stepper.GetStep() * stepper.GetDT() +")])
