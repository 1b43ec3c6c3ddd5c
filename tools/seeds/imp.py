IH = "source/problem/SWE/discretization_IHDG/"
S("s46_trapezoid_trace", "P13",
  "the trapezoidal implicit scheme on a mesh with an inner side along which the trace varies",
  "The flux at the start of the step pairs the outer element's values with the trace values of the mirrored points.",
  "P13",
  [(IH + "kernels_processor/ihdg_swe_proc_edge_intface.hpp",
    "            column(boundary_ex.F_hat_at_gp, gp_ex) +=\n                edge_internal.tau[gp] * (column(boundary_ex.q_at_gp, gp_ex) - column(edge_internal.q_hat_at_gp, gp));",
    "            column(boundary_ex.F_hat_at_gp, gp_ex) +=\n                edge_internal.tau[gp] * (column(boundary_ex.q_at_gp, gp_ex) - column(edge_internal.q_hat_at_gp, gp_ex));")])
S("s47_implicit_ramp", "P13",
  "an implicit run with a ramp and a flow boundary",
  "The inflow of the implicit step is ramped with the factor of the step's start instead of its end.",
  "P13",
  [(IH + "boundary_conditions/ihdg_swe_bc_flow.hpp",
    "stepper.GetRampNext() * this->forcing_fact[con]",
    "stepper.GetRamp() * this->forcing_fact[con]")])
S("s48_implicit_function_time", "P13",
  "an implicit run with a boundary prescribed by a function that changes with time",
  "The prescribed state is taken at the start of the step instead of its end.",
  "P13",
  [(IH + "boundary_conditions/ihdg_swe_bc_function.hpp",
    "    double t = stepper.GetTimeAtNextStage();",
    "    double t = stepper.GetTimeAtCurrentStage() + 0.5 * stepper.GetDT();")])
S("s49_implicit_source", "P13",
  "the trapezoidal implicit scheme with polynomials of degree two or more and a bottom or friction source",
  "The sources at the old state enter only the first three equations of an element.",
  "P13",
  [(IH + "kernels_processor/ihdg_swe_proc_source.hpp",
    "        for (uint dof = 0; dof < elt.data.get_ndof(); ++dof) {\n            subvector(internal.rhs_prev",
    "        for (uint dof = 0; dof < 3 && dof < elt.data.get_ndof(); ++dof) {\n            subvector(internal.rhs_prev")])
