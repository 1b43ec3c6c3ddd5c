"""Technique and level notes of the checks that do not use the defaults of manifest.py."""
INP = "exhaustive enumeration of inputs on the real code against an independent model"
TECH = {"P27": "exhaustive enumeration of rules, meshes and decompositions on the real programs under a controlled scheduler, against an independent model and the serial run",
        "P26": "exhaustive enumeration of surroundings and earlier, killed histories on the real programs, outcomes compared bit for bit",
        "P14": "exhaustive enumeration of methods and step histories on the real integrators against the Runge-Kutta tableau they prescribe",
        "P15": INP, "P16": INP, "P17": INP, "P18": INP, "P19": INP, "P20": INP, "P22": INP,
        "P21": "exhaustive enumeration of output schedules, run histories, states and partitions on the real program, every written file parsed and decided against the recorded states"}
NOTE = {
    "P13": "Bounded: meshes of 1 to 4 elements, closed basins of up to 8, steps of 0.25 s with open boundaries and up to 100 s without; sides whose normal velocity vanishes are undecided.",
    "P14": "Bounded: all 12 explicit, 3 implicit and all splitting methods, up to 40 steps, six steps sizes, four ramps, four right hand sides, one change of the step size.",
    "P15": "Bounded: degrees up to 10 (12), line rules to degree 65, triangle rules to 20, lattices of up to 24 (60) points per side; tolerance of rounding.",
    "P16": "Bounded: triangles on a 4 x 4 (5 x 5) lattice under five maps, orders 1 to 4 (5), high orders to 8 (10) on a few; the degenerate corner is excluded for survey points.",
    "P17": "Bounded: 44 thousand (7 million) states, none with a vanishing depth; derivatives of absolute values away from critical states only; tolerance 1e-10.",
    "P18": "Bounded: meshes of up to 4 elements (6 in the thorough tier) and the listed label schemes; contradictory files (two segments claiming a side) only where one reading is evident.",
    "P19": "Bounded: meshes of up to 8 elements; numbers of up to 15 significant digits, the precision the files carry.",
    "P20": "Bounded: all values of each setting, all pairs across sections; not all combinations of three settings.",
    "P23": "Bounded: meshes of 1 to 8 elements in plane coordinates, one to eight steps, the default derivatives (projection); no levees (the scheme has none).",
    "P25": "Bounded: single elements and pairs, four steps; the implicit scheme with rotation only; the tide potential has no data source in the program and stays disabled.",
    "P27": "Bounded: meshes of 2 to 8 elements, 3 steps, bottom and flow differentiated by the same rule; no shorelines, shocks or limiter (P23 has them with the default rule); PETSc replaced by a stand-in.",
    "P26": "Bounded: 39 (53) cases of scheme and features with 2 to 8 elements, two splits each, four (ten) fill bytes; uninitialised locals that the compiler keeps in registers cannot be varied from outside.",
    "P24": "Bounded: meshes of 2 to 6 elements, 4 to 10 steps, periods of 0.4 to 100 steps; not the implicit scheme.",
    "P21": "Bounded: periods up to four steps of three step sizes, runs of up to 8 steps, meshes of up to 12 elements in up to 3 partitions; values compared to the digits the files carry.",
    "P22": "Bounded: up to 6 x 6 (12 x 12) cells, every assignment of kinds to the edges, four rectangles.",
}
NOT_APPLICABLE = []
