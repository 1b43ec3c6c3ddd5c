#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": dict(files=files, mechanism=[{"name": n, "where": w} for n, w in mech], **kw)})

p("P01", "Splitting a run over processes, submeshes and threads keeps the answer",
  "For every way of assigning the elements of a mesh to submeshes, submeshes to processes and processes to threads, the distributed run of every scheme (discontinuous Galerkin, explicit and implicit hybridized discontinuous Galerkin, dispersive) computes the same element states at every time step as the serial run of the same inputs, up to rounding. This covers every boundary type and whatever of levees, wetting and drying, slope limiting, shock detection, bottom friction and the spherical projection a scheme offers.",
  ["configurations", "inputs"], "all assignments of elements to submeshes and of submeshes to processes, thread counts, mesh features and schemes",
  "The unit tests never run the distributed program; the example scripts compare one mesh and one decomposition.",
  ["source/simulation/ompi", "source/communication", "partitioner", "source/problem/SWE/discretization_RKDG", "source/problem/SWE/discretization_EHDG", "source/problem/SWE/discretization_IHDG", "source/problem/Green-Naghdi"],
  [("numbering of the unknowns of the coupled problem", "ihdg_swe_pre_ompi.hpp, ehdg_gn_pre_ompi.hpp, ehdg_gn_proc_ompi_sol_glob_prob.hpp"),
   ("ghost exchange along shared faces", "source/problem/SWE/discretization_RKDG/dist_boundary_conditions, source/communication/ompi_communicator.cpp"),
   ("parallel time step", "source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp"),
   ("partitioning of mesh and inputs", "partitioner/partition.cpp, partitioner/write_distributed_interfaces.cpp")])
p("P02", "A distributed run does not depend on timing: no races, no hangs, one result",
  "For a fixed decomposition, every interleaving of the threads and every admissible order and completion time of the messages lets the distributed run of every scheme finish without deadlock, without unsynchronised access to shared data and with bit-for-bit the same element states.",
  ["schedules"], "all interleavings of threads at synchronisation and message operations and all message completion orders, buffered or synchronous sends",
  "A test observes one schedule of the operating system; the repository runs none for the distributed program.",
  ["source/simulation/ompi/simulation_ompi.hpp", "source/communication", "source/problem/SWE/discretization_RKDG/kernels_processor", "source/problem/SWE/discretization_EHDG/kernels_processor", "source/problem/SWE/discretization_IHDG/kernels_processor", "source/problem/Green-Naghdi/discretization_EHDG/kernels_processor"],
  [("thread team with barriers around each stage", "source/simulation/ompi/simulation_ompi.hpp, *_proc_ompi_step.hpp"),
   ("persistent receives and sends per neighbour", "source/communication/ompi_communicator.cpp"),
   ("nodal exchange of the slope limiter and of wetting and drying", "source/problem/SWE/problem_slope_limiter/swe_CS_sl_ompi.hpp")])
p("P03", "Partition files describe the mesh exactly once and agree on both sides",
  "Whatever assignment of elements the partitioner makes, the files it writes together contain every element of the mesh in exactly one submesh with unchanged nodes, sides and boundary types, and every side shared between two submeshes is listed by both, at matching positions of the two lists, with matching polynomial order, message tags and owners. The number of submeshes, processes and submeshes per process are those requested.",
  ["configurations", "inputs"], "all assignments of elements to submeshes and of submeshes to processes on small meshes, all boundary kinds",
  "The repository's partition test needs a 64-bit METIS that is absent here and samples one mesh; it never looks at what is written.",
  ["partitioner", "source/preprocessor/mesh_metadata.cpp"],
  [("submesh extraction", "partitioner/partition.cpp"), ("distributed side lists", "partitioner/write_distributed_interfaces.cpp")])
p("P04", "Each time step solves the discrete shallow water equations as published",
  "For every mesh, state and parameter set, one time step of the discontinuous Galerkin scheme changes the state of each element exactly as the discretization prescribes: volume, side and source integrals with quadrature exact for the polynomial order, local Lax-Friedrichs fluxes, bottom slope, linear or Manning friction and spherical projection, advanced by the chosen strong-stability-preserving Runge-Kutta method. Nothing else in the mesh influences the result.",
  ["inputs", "configurations"], "all assignments of sampled nodal states and depths to small patches, polynomial orders 1 to 3, all supported time integrators, element orientations and source terms",
  "The unit tests check basis functions and quadrature in isolation; none executes a time step and compares it with an independent evaluation.",
  ["source/problem/SWE/discretization_RKDG", "source/problem/SWE/problem_source", "source/geometry", "source/simulation/stepper"],
  [("volume, interface and source kernels", "source/problem/SWE/discretization_RKDG/kernels_processor"), ("numerical flux", "source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp"),
   ("Runge-Kutta update", "source/simulation/stepper/explicit_ssp_rk_stepper.hpp")])
p("P05", "Tides, river inflow and prescribed states enter with the given data",
  "On every open boundary the forcing the user lists (amplitude, phase, frequency, nodal factor and equilibrium argument of every constituent at every node, flux per unit width, or a prescribed function), interpolated between the nodes of the side, taken at the time of each stage and scaled by the start-up ramp, is what enters the flux through exactly that boundary. Every other quantity at the boundary comes from the interior.",
  ["inputs", "configurations"], "boundary kinds, sides, constituents with varied parameters per node, ramp settings, integrators and schemes",
  "No test runs a model with tidal or flow forcing; the bundled examples are only run by hand.",
  ["source/problem/SWE/discretization_RKDG/boundary_conditions", "source/problem/SWE/discretization_EHDG/boundary_conditions", "source/problem/SWE/problem_preprocessor", "source/preprocessor/input_parameters.hpp"],
  [("tide", "rkdg_swe_bc_tide.hpp, ehdg_swe_bc_tide.hpp"), ("inflow", "rkdg_swe_bc_flow.hpp"), ("matching node data to sides", "source/problem/SWE/problem_input/swe_inputs.cpp, swe_pre_create_bound.hpp")])
p("P06", "Levees stay shut below the crest and overtop by the weir formulas above it",
  "Two sides joined by a levee reflect all flow while the water on both sides is within 1 cm of the crest or below it, or level within 1 cm; otherwise the higher side discharges to the lower one at the subcritical or supercritical weir rate for that pair of nodes, whichever side of the mesh is higher and however the pair is listed. Crest height and coefficients are interpolated along the side.",
  ["inputs"], "water levels on both sides around every threshold, slopes, momenta, coefficients, orientations, list directions and non-parallel sides",
  "The repository has no test of levee flow.",
  ["source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp", "source/preprocessor/ADCIRC_reader", "source/preprocessor/mesh_metadata.cpp"],
  [("weir flux", "rkdg_swe_is_levee.hpp"), ("pairing of levee sides", "source/preprocessor/initialize_mesh.hpp, adcirc_format.cpp")])
p("P07", "Wetting and drying keeps depth positive and follows its published rules",
  "With wetting and drying on, after every stage each element is classified and its linear state adjusted exactly as the thin-layer rules prescribe: a wet element has at least the film thickness at every vertex, redistributing water keeps the volume of an element that holds any, momentum moves from film vertices to the others, an element becomes wet only when its highest vertex rises above its surroundings' bed, and dry elements take no part in the flow except receiving water.",
  ["inputs", "histories"], "all assignments of vertex depths around the thresholds, momenta and bed shapes to one and two elements, followed for several stages",
  "No test runs the wetting and drying code.",
  ["source/problem/SWE/problem_postprocessor/swe_post_wet_dry.hpp", "source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_internal.hpp"],
  [("wet and dry classification", "swe_post_wet_dry.hpp"), ("flux over a wet-dry side", "rkdg_swe_is_internal.hpp, ehdg_swe_is_internal.hpp")])
p("P08", "The slope limiter keeps element means and limits only where neighbours demand it",
  "With slope limiting on, after every stage the mean of each variable in each wet element is unchanged, a state whose gradient agrees with its neighbours and boundaries is left as it is, and otherwise the gradient becomes the one the Cockburn-Shu limiter prescribes from the neighbouring means and the wall or boundary states.",
  ["inputs"], "all assignments of gradients and means to an element and its three neighbours, boundary kinds and element orientations",
  "No test runs the limiter.",
  ["source/problem/SWE/problem_slope_limiter"],
  [("limiter kernels", "swe_CS_sl_serial.hpp, swe_CS_slope_limiter.hpp"), ("boundary means", "swe_CS_sl_data, swe_CS_slope_limiter boundary kernels")])
p("P09", "The volume of water in a closed basin never changes",
  "In a basin bounded by land, the total volume of water is conserved over any number of steps, up to rounding, for every scheme, polynomial order, time integrator, source term, with or without slope limiting, levees that hold, and a spherical projection (volume measured consistently with it); with wetting and drying as long as no vertex needs more water than its element holds.",
  ["inputs", "configurations", "histories"], "meshes, schemes, orders, integrators and feature combinations crossed with sampled initial states",
  "No test sums the volume of a run.",
  ["source/problem/SWE/discretization_RKDG", "source/problem/SWE/discretization_EHDG", "source/problem/SWE/problem_slope_limiter"],
  [("single valued side fluxes", "rkdg_swe_is_internal.hpp, ehdg_swe_is_internal.hpp"), ("walls", "rkdg_swe_bc_land.hpp, ehdg_swe_bc_land.hpp")])
p("P10", "Still water stays still over any bottom",
  "Level water without momentum that covers the whole mesh stays exactly so, up to rounding, over every bathymetry, for every scheme, polynomial order, integrator, friction law, post-processing step and projection, including different levels on the two sides of a levee that holds them.",
  ["inputs", "configurations"], "all assignments of three depths to the nodes of small meshes, crossed with water levels, schemes, orders and features",
  "No test runs a model at rest.",
  ["source/problem/SWE/discretization_RKDG", "source/problem/SWE/discretization_EHDG", "source/problem/SWE/problem_source/swe_source.hpp", "source/geometry/interface.hpp"],
  [("pressure flux balanced by the bottom slope source", "swe_source.hpp, rkdg_swe_proc_source.hpp"), ("levee sides", "source/geometry/interface.hpp")])
p("P11", "Results do not depend on numbering, order or orientation in the mesh file",
  "Renaming nodes or elements, listing nodes, elements or boundary segments in another order, starting a boundary chain at its other end or listing the vertices of an element from another corner or clockwise gives the same solution for every element at every step, up to rounding.",
  ["inputs", "configurations"], "all vertex rotations and orientations and all orders of nodes and elements of small meshes, several label schemes",
  "Tests use fixed meshes with consecutive counterclockwise numbering.",
  ["source/preprocessor", "source/shape", "source/geometry"],
  [("connectivity from node pairs", "source/preprocessor/mesh_metadata.cpp"), ("matching of sides and quadrature points", "source/preprocessor/initialize_mesh.hpp, source/geometry/interface.hpp")])
p("P12", "The hybridized scheme's time step solves its own discrete equations",
  "For every mesh and state, one time step of the explicit hybridized discontinuous Galerkin scheme changes the state of each element as prescribed: the trace on inner sides is the mean of both sides, on walls the reflected state, on open sides the solution of the characteristic boundary equations, and the flux is the trace flux plus Lax-Friedrichs stabilization.",
  ["inputs", "configurations"], "all assignments of sampled states and depths to small patches, orders 1 to 3, boundary kinds, integrators",
  "No test runs the scheme.",
  ["source/problem/SWE/discretization_EHDG", "source/problem/SWE/problem_jacobian", "source/problem/SWE/problem_stabilization_parameters", "source/geometry/edge_interface.hpp", "source/geometry/edge_boundary.hpp"],
  [("trace and flux on sides", "ehdg_swe_is_internal.hpp, compute_bc_trace.hpp"), ("characteristic splitting", "swe_trace / jacobian headers")])
p("P13", "The implicit scheme's time step solves its own nonlinear equations",
  "For every mesh, state and admissible step size, the state reached by one step of the implicit hybridized scheme satisfies, to the tolerance of its nonlinear solver, the backward Euler or trapezoidal equations of that step: fluxes through the traces, boundary values and forcing at the right times, and the friction and other sources at the old and new state. Still water stays still for every step size, with and without friction, and slope limiting follows the step.",
  ["inputs", "configurations"], "boundary assignments, vertex orders, settings, currents and step sizes on small meshes",
  "The tests compare single Jacobians at sampled states; none takes a step.",
  ["source/problem/SWE/discretization_IHDG", "source/problem/SWE/problem_jacobian", "source/simulation/stepper/implicit_stepper.hpp"],
  [("Newton iteration and elimination", "ihdg_swe_proc_serial_step.hpp, ihdg_swe_proc_serial_sol_glob_prob.hpp"), ("residuals", "ihdg_swe_proc_volume.hpp, ihdg_swe_proc_source.hpp, ihdg_swe_proc_edge_intface.hpp, ihdg_swe_proc_edge_bound.hpp"), ("boundary values", "ihdg_swe_bc_tide.hpp, ihdg_swe_bc_flow.hpp, ihdg_swe_bc_function.hpp, ihdg_swe_bc_land.hpp")])
p("P14", "Every time integrator advances as its Runge-Kutta method prescribes",
  "Each explicit method offered advances a system of ordinary equations as one explicit Runge-Kutta method of the order and number of stages asked for, strongly stable at its published coefficient, evaluating each stage, the time and the ramp at that stage's own time; changing the step size between steps is honoured. The implicit and the splitting integrators likewise keep step, time and ramp, and a combination not offered is refused.",
  ["inputs", "configurations", "histories"], "every order and stage count, steps, ramps, right hand sides, histories of steps with changes of step size",
  "The tests integrate one equation with some of the methods and check the error at the end.",
  ["source/simulation/stepper"],
  [("coefficients and update", "explicit_ssp_rk_stepper.cpp, explicit_ssp_rk_stepper.hpp"), ("implicit and splitting steppers", "implicit_stepper.hpp, second_strang_stepper.hpp")])
p("P15", "Quadrature rules and basis functions are exact",
  "Every quadrature rule integrates every polynomial up to its degree exactly with points inside its domain, symmetric along an edge so both sides see the same points; every basis function and gradient has the value of the orthogonal polynomial it stands for at every point, its mass matrix inverse is the inverse of its integrals, and edges map onto the element's sides.",
  ["inputs"], "all degrees, all functions, all monomials and dense lattices of points including the degenerate corner",
  "The tests check some degrees at the quadrature points.",
  ["source/basis", "source/integration", "source/shape"],
  [("polynomials", "source/basis/polynomials/basis_polynomials.cpp"), ("rules", "source/integration/integrations_1D, source/integration/integrations_2D")])
p("P16", "Elements and sides compute exact values, gradients, projections and integrals",
  "On every triangle, the element's and its sides' operators are exact for polynomials: values and gradients at every kind of point, projections and their inverses, integrals with and against basis functions over elements, sides and shared sides seen from both elements, normals and areas, and pictures and survey points, whatever the shape, orientation or size of the triangle and whichever sides meet.",
  ["inputs"], "all triangles on a lattice under several scalings and shears, all degrees and functions, all pairs of joined sides",
  "The tests check one or two triangles.",
  ["source/geometry", "source/shape"],
  [("element operators", "source/geometry/element.hpp"), ("side operators", "source/geometry/boundary.hpp, source/geometry/interface.hpp, source/geometry/edge_interface.hpp")])
p("P17", "Fluxes, their Jacobians and stabilizations are consistent with each other",
  "For every wet state, direction and gravity, the fluxes in both directions and across a side are those of the shallow water equations, the Jacobians are their derivatives, the absolute, positive and negative parts have the eigenvalues and eigenvectors of the Jacobian, the stabilization is the largest wave speed, and every derivative offered of any of them is the derivative of that very function.",
  ["inputs"], "all states from a grid of depths, Froude numbers in both directions including critical ones, bed levels, directions and gravities",
  "The tests evaluate these functions at a handful of states.",
  ["source/problem/SWE/problem_flux", "source/problem/SWE/problem_jacobian", "source/problem/SWE/problem_stabilization_parameters"],
  [("fluxes", "swe_flux.hpp"), ("Jacobians", "swe_jacobian.hpp"), ("stabilization", "swe_stab_param_LF.hpp")])
p("P18", "The mesh file's elements, sides and boundaries are connected as listed",
  "From an ADCIRC mesh file, every side of every element becomes exactly what the file says: joined to the one element that shares it, paired across a levee with the side listed opposite, or a boundary of the kind of the segment that contains it (open boundaries are tidal, islands close on themselves, generic segments keep their kind, unlisted sides are land). Numbering, order, gaps between numbers and the direction in which anything is listed do not matter.",
  ["inputs", "configurations"], "all small meshes assembled from a grid of cells, all labelings, vertex orders and assignments of segments of every kind to the rim, levees and islands",
  "The preprocessor tests read a few fixed meshes and compare the node lists.",
  ["source/preprocessor/ADCIRC_reader", "source/preprocessor/mesh_metadata.cpp", "source/preprocessor/mesh_metadata.hpp"],
  [("boundary kinds of node pairs", "adcirc_format.cpp"), ("pairing of sides", "mesh_metadata.cpp")])
p("P19", "Files written by the program read back as what was written",
  "Mesh files, mesh metadata and boundary tables written by the program and read back give the same mesh: every node, element, neighbour, side kind, boundary segment, levee pair and coefficient, for numbers of up to 15 significant digits; a mesh file that was read and written once reads the same again.",
  ["inputs"], "meshes with every combination of present and absent sections, segment kinds, back node lists and awkward numbers",
  "The tests round trip one ADCIRC file and one metadata file.",
  ["source/preprocessor/ADCIRC_reader", "source/preprocessor/mesh_metadata.cpp", "source/problem/SWE/problem_input"],
  [("mesh file writer", "adcirc_format.cpp"), ("metadata writer", "mesh_metadata.cpp")])
p("P20", "A run input means what it says, and a faulty one is refused",
  "Every setting of a run input (times, step, ramp, integrator, polynomial order, mesh, output frequencies, problem features) reaches the program with its value or, when left out, its documented default; output periods are the requested time in whole steps, rounded up; a missing or invalid mandatory setting is refused, an incomplete optional feature stays off; and an input written by the program reads back with the same settings.",
  ["inputs", "configurations"], "every combination of each setting's values, absence and malformed forms, and all pairs across sections",
  "The tests read two input files and compare some of the values.",
  ["source/preprocessor/input_parameters.hpp", "source/preprocessor/input_parameters.cpp", "source/problem/SWE/problem_input", "source/problem/SWE/problem_parser"],
  [("input sections", "input_parameters.hpp"), ("problem settings", "swe_inputs.cpp")])
p("P21", "Output files hold the computed solution at the scheduled times",
  "A run writes exactly the requested kinds of files at the start and after every requested period of whole steps, each holding the state of that time for every element (surface, momentum, depth, wet and dry flags, velocity, modal coefficients) on the right cells and points. Asking for output does not change the computed solution, an earlier run into the same directory leaves no trace in the files of a later one, and a partitioned run's files together hold every element once. The reported error is the L2 distance to the given true solution at the final time.",
  ["configurations", "histories"], "all combinations of output kinds and periods, run histories, meshes, states and partitions",
  "No test runs the writers or compares what they write with the state.",
  ["source/simulation/writer.hpp", "source/problem/SWE/problem_postprocessor", "source/geometry/element.hpp", "source/shape/shapes_2D"],
  [("when files are written", "writer.hpp"), ("contents", "swe_post_write_vtk.hpp, swe_post_write_vtu.hpp, swe_post_write_modal.hpp"), ("error norm", "swe_post_comp_res_l2.hpp")])
p("P22", "The rectangular mesh generator covers its rectangle with the mesh asked for",
  "For every rectangle, number of cells, boundary kind of each edge and mesh pattern, the generated file describes non-overlapping triangles that exactly cover the rectangle without hanging nodes, with the requested number of cells, the requested kind along each edge, and a boundary condition file whose entries match the nodes of the open edges at full precision.",
  ["inputs", "configurations"], "all cell counts up to a bound, patterns, assignments of boundary kinds to edges and rectangles",
  "No test runs the generator.",
  ["mesh_generators/quad_mesh_generator.cpp"],
  [("triangulation and boundary segments", "quad_mesh_generator.cpp")])
p("P23", "The dispersive scheme's step splits into shallow water and dispersive steps",
  "For every mesh and state, one step of the Green-Naghdi scheme is half a shallow water step, a full step of the dispersive correction of the momentum and another half shallow water step, where each stage of the correction solves the discretized elliptic system of the published equations on all wet elements, with its boundary conditions and the bottom's and velocity's projected derivatives. Elements listed as buffer, dry elements and, with slope limiting on, elements with a shock or within five elements of one get no correction. Still water stays still and volume is conserved.",
  ["inputs", "configurations"], "boundary assignments, vertex orders, bottoms, subsets of buffer elements, wet and dry assignments and shocks on small meshes, orders 1 to 3, all integrators",
  "No test runs the scheme.",
  ["source/problem/Green-Naghdi", "source/problem/SWE/problem_slope_limiter/swe_trouble_check.hpp", "source/simulation/stepper/second_strang_stepper.hpp"],
  [("elliptic system", "ehdg_gn_proc_volume.hpp, ehdg_gn_proc_source.hpp, ehdg_gn_proc_edge_intface.hpp, ehdg_gn_proc_edge_bound.hpp, ehdg_gn_proc_serial_sol_glob_prob.hpp"), ("derivatives", "projection_derivatives_serial.hpp"), ("splitting", "ehdg_gn_proc_serial_step.hpp"), ("elements left out", "gn_pre_init_data.hpp, swe_trouble_check.hpp")])
p("P24", "Weather input holds the interpolation of its files at every stage",
  "At every stage of every step of an explicit or dispersive run with weather input, wind stress and pressure at every node are the linear interpolation in time of the two files around the stage, whatever the period, the integrator, the order of nodes in the files or the nodes of other submeshes in them. A run that lacks a file it needs stops and names it. Distributed runs hold the values of the serial run.",
  ["inputs", "configurations", "schedules"], "periods that are exact, inexact and fractional multiples of the step or longer than the run, all integrators and schemes, each file missing in turn, all decompositions of small meshes",
  "No test reads weather files.",
  ["source/problem/SWE/problem_parser/swe_parser.hpp"],
  [("files of a step", "swe_parser.hpp ParseMeteoInput"), ("interpolation", "swe_parser.hpp InterpolateMeteoData"), ("steps of the run under splitting", "second_strang_stepper.hpp, explicit_ssp_rk_stepper.hpp")])
p("P25", "The earth's rotation, wind and air pressure act on the flow as given",
  "With rotation enabled the momentum of every wet element turns with the Coriolis parameter of the element's mean latitude; with weather input the wind stress and the gradient of the air pressure times the depth, both divided by the density of water and taken at the time of each stage, act on it, the pressure's x component with the spherical projection factor. Nothing else changes: elements without water and runs without these inputs are unaffected, and distributed runs agree with the serial run.",
  ["inputs", "configurations"], "boundary assignments, vertex orders, wet and dry vertex depths, periods of the weather files, densities, projections, orders 1 to 3, integrators and schemes",
  "No test runs a model with rotation or weather; these terms were disabled without any test failing.",
  ["source/problem/SWE/problem_source/swe_source.hpp", "source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp", "source/problem/SWE/problem_parser/swe_parser.hpp"],
  [("terms of the momentum equations", "swe_source.hpp"), ("mean latitude", "swe_pre_init_data.hpp")])
p("P26", "A run depends on its input files alone",
  "What a run computes and writes is determined by its input files: whatever fresh or released memory and the stack hold, wherever memory lies, and whatever an earlier run or split of another mesh or state left in the folder, complete or killed on the way, the same input gives the same partition files, the same states bit for bit and the same result files byte for byte, serially and split.",
  ["histories", "crash_points", "configurations"], "the product of memory contents, memory layouts, contents of locals and earlier runs, killed in every step, for every scheme and feature, serially and split",
  "Tests run in fresh folders and fresh processes, where memory is mostly zero.",
  ["source", "partitioner"],
  [("result files", "writer.hpp, swe_post_write_modal.hpp"), ("partition files", "write_distributed_interfaces.cpp, mesh_metadata.cpp"), ("containers set before use", "problem_data_structure, kernels_preprocessor")])
p("P27", "Every way to differentiate gives the dispersive correction it stands for",
  "Whichever way of taking derivatives the dispersive model is built with - by Green's theorem or by least squares, made linear from two enclosing neighbours, from all neighbours, or by the mean around each node - bottom slopes, surface slopes and velocity derivatives are the ones that rule prescribes, at every stage and on every side, inner or outer. Where no two neighbours enclose a midpoint the element's own value is used. A distributed run gives the same result as the serial run, for any split into submeshes, ranks and threads.",
  ["configurations", "inputs", "schedules"], "the product of the six rules with meshes, orders, integrators, boundaries, buffer elements and every partition, rank layout and thread count",
  "No test builds the dispersive model with any rule other than the default one.",
  ["source/problem/Green-Naghdi"],
  [("derivatives", "kernels_processor/grad_methods, kernels_preprocessor/grad_methods"), ("weights", "gn_pre_init_data.hpp"), ("node averages of ranks", "ehdg_gn_pre_ompi.hpp")])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
