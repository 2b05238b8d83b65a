MESH = ["amr/AMRmesh.cpp", "amr/AMRmesh_hashmap.cpp", "amr/AMRmesh_hashmap_new.cpp", "mpi/ViewCommunicator.cpp", "utils/config/inih/ini.cpp"]
TIM = ["mpi/GhostCommunicator_partial_blocks.cpp", "utils/monitoring/Timers.cpp", "utils/monitoring/SimpleTimer.cpp", "utils/monitoring/OpenMPTimer.cpp"]
HYD = ["hydro/HydroUpdate_euler.cpp", "hydro/HydroUpdate_RK2.cpp", "hydro/HydroUpdate_hancock.cpp", "hydro/HydroUpdate_hancock_oneneighbor.cpp", "hydro/HydroUpdate_legacy.cpp", "legacy/CopyGhostBlockCellData.cpp"]
PHYS = ["compute_dt/Compute_dt_%s.cpp" % x for x in ("hydro", "legacy", "parabolic", "particle_velocity")] + ["refine_condition/RefineCondition_%s.cpp" % x for x in ("downflows", "legacy", "mass", "pseudo_gradient", "second_derivative_error")] + ["particles/ParticleUpdate_%s.cpp" % x for x in ("CIC_density", "CIC_move", "NGP_density", "NGP_move", "tracers_move")] + ["legacy/MarkOctantsHydroFunctor.cpp", "legacy/CopyGhostBlockCellData.cpp"]
EXES = {
    "mesh": dict(flavor="fake", src=["checks/mesh.cpp"], tus=MESH),
    "data": dict(flavor="fake", src=["checks/data.cpp"], tus=MESH + ["mpi/GhostCommunicator_partial_blocks.cpp", "amr/MapUserData_mean.cpp", "legacy/MapUserData_legacy.cpp", "utils/monitoring/Timers.cpp", "utils/monitoring/SimpleTimer.cpp", "utils/monitoring/OpenMPTimer.cpp"]),
    "cells": dict(flavor="fake", src=["checks/cells.cpp"], tus=MESH + ["mpi/GhostCommunicator_partial_blocks.cpp"]),
    "comm": dict(flavor="fake", src=["checks/comm.cpp"], tus=MESH + ["mpi/GhostCommunicator_partial_blocks.cpp"]),
    "phys": dict(flavor="fake", src=["checks/phys.cpp"], tus=MESH + TIM + PHYS),
    "io": dict(flavor="fakeh5", src=["checks/io.cpp"], fw=["fw/fakehdf5/fakehdf5.cpp"], tus=MESH + TIM + ["io/IOManager_checkpoint.cpp", "io/IOManager_hdf5.cpp", "init/InitialConditions_restart.cpp", "init/InitialConditions_tiled_restart.cpp"]),
    "grav": dict(flavor="fake", src=["checks/grav.cpp"], tus=MESH + TIM + ["gravity/GravitySolver_%s.cpp" % x for x in ("cg", "constant", "point_mass")]),
    "init": dict(flavor="fake", src=["checks/init.cpp"], tus=MESH + TIM + ["init/InitialConditions_%s.cpp" % x for x in ("MHD_blast", "MHD_rotor", "blast", "grafic_fields", "implode", "kelvin_helmholtz", "orszag_tang", "particle_grid", "rayleigh_taylor", "riemann2d", "simple_particles", "sod")] + ["init/wholesun/InitialConditions_%s.cpp" % x for x in ("C91", "tri_layer")]),
    "para": dict(flavor="fake", src=["checks/para.cpp"], tus=MESH + TIM + ["parabolic/ParabolicUpdate_explicit.cpp", "cooling/CoolingUpdate_FF.cpp"]),
    "conf": dict(flavor="fake", src=["checks/conf.cpp"], tus=MESH),
    "run": dict(flavor="fakeh5", src=["checks/run.cpp"], fw=["fw/fakehdf5/fakehdf5.cpp"], tus="ALL"),
    "hydro": dict(flavor="fake", src=["checks/hydro.cpp"], tus=MESH + TIM + HYD),
}
HOOKS = None
NOT_APPLICABLE = {}
CHECKS = {}
FAKEMPI = "MPI is replaced by an in-process implementation with the same semantics (fw/fakempi)"
SMALL = "small-scope: domains of a few tens of leaves and at most 7 processes"
MCT = "explicit-state model checking: exhaustive enumeration of a reference mesh model, every model trace replayed on the real code"
def check(pid, parts, rule, technique, note, level="model_checking", quick="", thorough="", assumptions=()):
    CHECKS[pid] = dict(parts=[dict(exe=e, args=a) for e, a in parts], rule=rule, technique=technique, note=note, level=level,
                       bounds=dict(quick=quick, thorough=thorough), assumptions=[FAKEMPI] + list(assumptions))

check("M01", [("mesh", ["--mode", "adapt"])], "every reachable mesh (BFS over the reference model) x every marker vector, or every vector within a Hamming distance of uniform ones for large meshes; plus deep narrow trees (125+ target points, 2D down to level 14, 3D to 6) refined to the bottom and coarsened back", MCT,
      "Complete for the stated small domains; each model transition is executed on the real AMRmesh and the leaf lists compared.",
      quick="2D/3D, 18 domains x 4-5 periodicities, depth<=4, <=24 leaves", thorough="same with deeper marker enumeration (<=40 leaves), deep trees to level 20 (2D), 8 (3D)", assumptions=[SMALL])
check("M02", [("mesh", ["--mode", "dist"])], "every sequence of adapt(markers)/loadBalance(k) up to the depth bound, deduplicated on (mesh, ownership) of the model", MCT,
      "Complete for the stated domains/depth/process counts; each trace replayed on the real code and the union of the ranks compared with the model.",
      quick="depth<=3, 2-4 processes", thorough="depth<=4, 2-5 processes", assumptions=[SMALL])
check("M03", [("mesh", ["--mode", "neighbors"])], "every balanced octree obtained by at most k refinements x every leaf x every direction x partition; and deep narrow trees (2D to level 12, thorough 20; 3D to 5, thorough 7)", MCT,
      "All neighbour answers of both octree implementations compared with a geometric oracle.", quick="k<=4/5 (2D), 2 (3D); 1 and 3 processes", thorough="k<=8/9 (2D), 3-4 (3D)", assumptions=[SMALL])
check("M04", [("mesh", ["--mode", "ghosts"])], "every balanced octree with at most k refinements x partition (inherited, rebalanced, rebalanced+coarsened) x process count; and deep narrow trees (2D to level 12, thorough 20; 3D to 5, thorough 7)", MCT,
      "Ghost lists of every rank compared with the geometric definition.", quick="k<=4 (2D), 2 (3D); 2-4 processes", thorough="k<=8 (2D), 3-4 (3D); 2-7 processes", assumptions=[SMALL])
check("M05", [("mesh", ["--mode", "balance"])], "every balanced octree with at most k refinements x process count x compact level; and deep narrow trees (2D to level 12, thorough 20; 3D to 5, thorough 7)", MCT,
      "Cut positions compared with the definition.", quick="k<=4 (2D), 2 (3D); 2-4 processes", thorough="k<=8 (2D), 3-4 (3D); 2-7 processes", assumptions=[SMALL])
check("M06", [("mesh", ["--mode", "location"])], "every balanced octree with at most k refinements x partition x sampled lattice of positions touching both ends of each finest sub-cell; and deep narrow trees (2D to level 12, thorough 20; 3D to 5, thorough 7)", MCT,
      "Owner and leaf of each lattice position compared with geometry.", quick="k<=4 (2D), 2 (3D); 1-3 processes", thorough="k<=8 (2D), 3-4 (3D)", assumptions=[SMALL, "positions exactly on a leaf face are not probed"])
GEO = "explicit-state enumeration of all small meshes/partitions/configurations; real code run on each, compared with a geometric reference model"
check("C01", [("comm", ["--mode", "exchange"])], "every balanced octree with at most k refinements x partition x process count x (block shape, ghost width)", GEO,
      "Both communicators; complete within the stated bounds.", quick="k<=3/2 (2D), 1-2 (3D); 2-3 processes; 11 block/ghost shapes", thorough="k<=6 (2D), 3 (3D); 2-5 processes", assumptions=[SMALL])
check("C02", [("comm", ["--mode", "reduce"])], "every balanced octree with at most k refinements x partition x process count x (block shape, ghost width)", GEO,
      "Exact integer-valued sums, so the accumulation order cannot matter.", quick="k<=3/2 (2D), 1-2 (3D); 2-3 processes", thorough="k<=6 (2D), 3 (3D); 2-5 processes", assumptions=[SMALL])
check("C03", [("comm", ["--mode", "sched"]), ("run", ["--mode", "timing"])], "communication histories, and whole simulations (38 setups: every solver, gravity, particles, checkpoints): every choice sequence of the scheduler (which process runs next at every MPI call) with at most d deviations from the default, under each buffering mode", "stateless model checking of the real code under a controlled MPI scheduler (bounded deviations)",
      "All schedules with at most d deviations, for every tree with at most one refinement and a history adapt, balance, adapt, balance, exchange, reduce; buffering modes: eager/rendezvous sends, late receive completion, late send-buffer read. Whole runs: snapshots, octant distribution and checkpoint files bit for bit those of the default schedule (tolerance where the processes sum floating-point values).",
      quick="d=1, 4 buffering modes, 2-3 processes; runs of 1 step, d=1 in one adverse mode per process count (complete), default schedule in 5 modes", thorough="d=2, 16 buffering modes; runs of 2 steps, d=1 in 9 modes, 2-4 processes", assumptions=[SMALL, "message matching follows the MPI non-overtaking rule"])
check("C04", [("comm", ["--mode", "view"])], "every assignment of at most 3 items per process to destinations; every multicast map of 3 items on 2 processes and 1-2 items on 3 processes", "explicit-state enumeration of all communication patterns, each executed on the real code",
      "Complete within the bounds, for view ranks 1-3 and every item dimension.", quick="<=3 processes, <=6 items in total", thorough="<=4 processes")
SEQ = "explicit-state enumeration of every operation sequence up to a depth, each replayed on the real code against a map model"
check("D01", [("data", ["--mode", "store"])], "every sequence of depth d over 22 operations on 3 names (prefix-closed; sequences stop at the first rejected misuse)", SEQ, "Complete up to the depth; values checked after every operation.", quick="depth 4", thorough="depth 5", assumptions=["one process, two octants; field names a/b/c stand for any names"])
check("D02", [("data", ["--mode", "remap"])], "every balanced octree with at most k refinements x partition x marker vectors within Hamming distance 1-2 of uniform", GEO, "Exact comparison (integer-valued fields).", quick="k<=3/2 (2D), 1 (3D), 1-3 processes, 5 block shapes", thorough="k<=5 (2D), 3 (3D), 1-5 processes", assumptions=[SMALL])
check("D03", [("data", ["--mode", "balance"])], "every balanced octree with at most k refinements x partition x compact level x field set", GEO, "Exact comparison.", quick="k<=4/3 (2D), 2 (3D), 2-3 processes", thorough="k<=5 (2D), 3 (3D), 1-5 processes", assumptions=[SMALL])
check("P01", [("data", ["--mode", "pstore"])], "every sequence of depth d over 17 operations on 3 attribute names", SEQ, "Complete up to the depth.", quick="depth 5", thorough="depth 6", assumptions=["one process; three particles"])
check("P02", [("data", ["--mode", "particles"])], "every balanced octree with at most k refinements x partition x initial placement, 3-4 particles per leaf", GEO, "Exact comparison.", quick="k<=4/3 (2D), 2 (3D), 1-3 processes", thorough="k<=5 (2D), 3 (3D), 1-5 processes", assumptions=[SMALL])
check("M07", [("cells", ["--mode", "keys"])], "every coordinate value of each axis (2D quick: 1/16 of the 2^32 values in evenly spread blocks, thorough: all; 3D: all 2^21) and all products of a lattice of 70 values per axis", "exhaustive enumeration of the input space of the real functions against bit-by-bit interleaving", "Keys are an OR of per-axis terms: per-axis exhaustiveness plus products decides the property.", quick="2^28 (2D), 2^21 (3D) values per axis", thorough="2^32 (2D), 2^21 (3D)")
check("D04", [("cells", ["--mode", "iterate"])], "every balanced octree with at most k refinements x partition x process count x group sizes {1,2,3,n-1,n,n+1,1024} x patch implementation", GEO, "Visit counts compared exactly.", quick="k<=5/3/4 (2D), 2/1 (3D), 1 and 3 processes", thorough="k<=6 (2D), 3 (3D), 1-4 processes", assumptions=[SMALL, "one host thread"])
check("D05", [("cells", ["--mode", "neigh"])], "every balanced octree with at most k refinements x partition x cell x offset x block shape", GEO, "Complete within the bounds.", quick="k<=5/3/4 (2D), 2/1 (3D), 1 and 3 processes, 5/3 block shapes", thorough="k<=6 (2D), 3 (3D), 1-4 processes", assumptions=[SMALL])
check("D06", [("cells", ["--mode", "padded"])], "every balanced octree with at most k refinements x partition x padded index x block shape", GEO, "Complete within the bounds.", quick="k<=5/3/4 (2D), 2/1 (3D), 1 and 3 processes", thorough="k<=6 (2D), 3 (3D), 1-4 processes", assumptions=[SMALL])

DIFF = "explicit-state enumeration of all small meshes x partitions x solver configurations x data alphabet; each executed on the real solver and checked against a differential or analytic oracle"
HA = [SMALL, "cell data from a finite alphabet (two deterministic patterns, and per-octant two-state patterns)", "blocks are even and at least 4 cells wide (solvers with two ghost layers)"]
check("H01", [("hydro", ["--mode", "conserve"])], "every balanced octree with at most k refinements x solver x partition x data pattern (every assignment of two states to the leaves for meshes of at most 5/7 leaves)", DIFF, "Sums compared at 1e-12 relative.", quick="k<=3 (2D), 1 (3D); 1 and 3 processes; 12 solver variants", thorough="k<=5 (2D), 2 (3D); 1-3 processes", assumptions=HA)
check("H02", [("hydro", ["--mode", "uniform"])], "every balanced octree with at most k refinements x solver x boundary type x uniform state", DIFF, "Compared at 1e-12.", quick="k<=3 (2D), 1 (3D)", thorough="k<=5 (2D), 2 (3D)", assumptions=HA)
check("H03", [("hydro", ["--mode", "symmetry"])], "every balanced octree with at most k refinements x solver x gravity mode x symmetry x data pattern", DIFF, "Compared at 1e-11; no reference values needed.", quick="k<=3 (2D), 1 (3D); 3 symmetries in 2D, 5 in 3D", thorough="k<=5 (2D), 2 (3D)", assumptions=HA)
check("H08", [("hydro", ["--mode", "contact"])], "every balanced octree with at most k refinements x solver x density pattern (two hashed, linear along each axis with the flow in both directions)", DIFF, "Pressure, velocity, magnetic field and translated density compared at 1e-11.", quick="k<=3 (2D), 1 (3D)", thorough="k<=5 (2D), 2 (3D)", assumptions=HA + ["linear profiles: cells at least 2 (RK2: 4) coarse cells from a wall; block Hancock and legacy solvers, which are not conservative at level jumps, on uniform meshes only"])
check("H09", [("hydro", ["--mode", "scheme"])], "every assignment of two states (5% cell variation) to the octants and two hashed patterns x solver x block and domain shape", DIFF, "Compared at 1e-11 with an independent implementation of the scheme; hydro fluxes from the independent HLLC of H04, MHD fluxes from the Riemann solver of the code.", quick="up to 8 octants", thorough="up to 12 octants, one more level", assumptions=HA + ["uniform periodic meshes, no gravity", "in 2D the vertical momentum is zero, as the solvers assume"])
check("H04", [("hydro", ["--mode", "riemann"]), ("hydro", ["--mode", "heun"])], "every ordered pair of states of a 90/126-state alphabet x axis x dimension x sign of the normal field; every tree x data for the RK2 identity", DIFF, "Independent HLLC/HLLD implementation through the jump conditions.", quick="90 states", thorough="126 states", assumptions=HA)
check("H05", [("hydro", ["--mode", "partition"])], "every balanced octree with at most k refinements x solver x partition (inherited, rebalanced, compact, rebalanced then coarsened) x process count x data pattern", DIFF, "Bitwise comparison with one process and another group size.", quick="k<=3 (2D), 1 (3D); 2-3 processes", thorough="k<=5 (2D), 2 (3D); 2-5 processes", assumptions=HA)
check("H06", [("hydro", ["--mode", "gravity"])], "every balanced octree with at most k refinements x solver x gravity mode x data pattern; hydrostatic columns along every axis", DIFF, "Compared with the gravity-free step.", quick="k<=3 (2D), 1 (3D)", thorough="k<=5 (2D), 2 (3D)", assumptions=HA)
check("B01", [("hydro", ["--mode", "walls"])], "every assignment of reflecting/absorbing to the sides of the non-periodic axes x balanced octree with at most k refinements x solver x side", DIFF, "Compared with the step on the mirrored domain at 1e-11.", quick="k<=2 (2D), 1 (3D)", thorough="k<=4 (2D), 1 (3D)", assumptions=HA + ["user-defined boundaries are not exercised; RK2 is compared at reflecting walls only"])
check("H07", [("phys", ["--mode", "dt"])], "every balanced octree with at most k refinements x partition x kernel x data pattern (the limiting cell at the first, last or a hashed position)", DIFF, "Compared with the analytic limit at 1e-8.", quick="k<=4/2/3 (2D), 1-2 (3D); 1 and 3 processes", thorough="k<=6/4 (2D), 2-3 (3D); 1-4 processes", assumptions=[SMALL, "diffusion coefficients are uniform"])
check("R01", [("phys", ["--mode", "criteria"])], "every balanced octree with at most k refinements x partition x criterion x data pattern (each leaf quiet, middling or with one active cell)", DIFF, "Leaves after adapt compared with those of the reference mesh adapted with the oracle's markers.", quick="k<=4/2/3 (2D), 1-2 (3D); 1 and 3 processes", thorough="k<=6/4 (2D), 2-3 (3D); 1-4 processes", assumptions=[SMALL, "data with a value within 1e-9 of a threshold is skipped"])
check("P03", [("phys", ["--mode", "deposit"])], "every balanced octree with at most k refinements x partition x scheme x particle pattern (one particle per cell at each of 4 relative positions, or mixed)", DIFF, "Sums at 1e-11 relative.", quick="k<=4/2 (2D), 1-2 (3D); 1 and 3 processes", thorough="k<=6/4 (2D), 2-3 (3D); 1-4 processes", assumptions=[SMALL, "particles inside the domain"])
check("P04", [("phys", ["--mode", "move"])], "every balanced octree with at most k refinements x partition x mover x particle pattern", DIFF, "Compared at 1e-12.", quick="k<=4/2 (2D), 1-2 (3D); 1 and 3 processes", thorough="k<=6/4 (2D), 2-3 (3D); 1-4 processes", assumptions=[SMALL, "no particle crosses a wall"])

H5A = [SMALL, "the HDF5 library is replaced by an in-memory implementation with the same semantics (fw/fakehdf5): collective calls, hyperslab selections, bounds checked"]
check("I01", [("io", ["--mode", "restart"])], "every balanced octree with at most k refinements x partition x process count before x process count after x data set (fields, particle arrays)", GEO, "Bitwise comparison of the whole state.", quick="k<=3/2 (2D), 1 (3D); 1 and 3 processes before and after", thorough="k<=5 (2D), 2-3 (3D); 1-4 processes", assumptions=H5A)
check("I02", [("io", ["--mode", "output"])], "every balanced octree with at most k refinements x partition x process count x data set x precision; two consecutive outputs", GEO, "Every dataset and every .xmf data item is read back and compared.", quick="k<=3/2 (2D), 1 (3D); 1 and 3 processes", thorough="k<=5 (2D), 2-3 (3D); 1-4 processes", assumptions=H5A)
check("I03", [("io", ["--mode", "crash"])], "every crash point (between any two HDF5 operations of any process) of the second checkpoint of a run x tree x partition x data set", "exhaustive crash-point enumeration on the real code under a fault-injecting file library", "At each crash point the previous checkpoint is restarted and compared, and all .ini files are inspected.", quick="k<=1; 1-2 processes", thorough="k<=5 (2D), 2-3 (3D); 1-4 processes", assumptions=H5A + ["HDF5 file operations are atomic; the effect of a crash inside one is a file that is not marked complete"])
check("T01", [("run", ["--mode", "decomp"])], "whole runs: scenario (quadrant patterns x solvers, shipped initial conditions, particles, gravity, source terms) x AMR / load balancing / group settings x number of processes", "explicit-state exploration of whole runs of the real time loop in-process", "Every state reached is compared with the run on one process.", quick="5 steps; 1,2,3,5 processes; 92 scenarios x 3 settings", thorough="8 steps; 1-5,7 processes; 120+ scenarios x 5 settings", assumptions=["MPI is replaced by the in-process implementation of fw/fakempi (FIFO per pair, collectives)"])
check("T02", [("run", ["--mode", "restart"])], "runs as in T01 x checkpoint (every iteration) x number of processes before x after", "explicit-state exploration of run/crash/restart histories of the real time loop in-process", "Each restart is run to the end and compared with the uninterrupted run at every iteration.", quick="5 steps; 1-3 processes", thorough="8 steps; 1-5,7 processes", assumptions=H5A)
check("T03", [("run", ["--mode", "schedule"])], "frequencies x slices x starts x ends x dt sequences x interruptions x processes, each run twice (second time from last.ini)", "exhaustive enumeration of schedules on the real time loop, against a reference scheduler", "Events recorded by plugins are compared one by one with the reference schedule.", quick="6 steps", thorough="9 steps, more frequencies and process counts")

check("U01", [("run", ["--mode", "cosmo"])], "cosmologies x (start, end, size) of the table x every sampled expansion factor; cosmologies x start x end x step factor x slices x key spelling x restart point, each a whole run", "explicit-state exploration of whole runs of the real time loop, and exhaustive enumeration of tables, against an independent quadrature",
      "Times compared with a Gauss-Legendre quadrature in extended precision, within the interpolation error of the table.", quick="5 cosmologies, 20 tables each, 400 factors per table; 3 restarts per run", thorough="more tables, 1000 factors; 9 restarts per run")
check("K01", [("conf", [])], "every string up to length n over an 11-character alphabet x 7 types; every file of at most k assignments out of 8 x 7 spellings x 4 section spellings; every line length; process counts", "exhaustive enumeration of the input space of the real parser against an independent recogniser and a map model",
      "Files are re-read and re-written twice (fixed point).", quick="strings <=5, k<=3, lines <=1100 characters, <=4 processes", thorough="strings <=7, k<=4 (1/7 of the spellings), lines <=9000, <=7 processes", assumptions=["lines do not start with white space (inih reads those as continuations)", "values do not start with ';'"])
check("G01", [("grav", ["--mode", "poisson"])], "every balanced octree with at most k refinements x partition x boundary types x density pattern x source (plain, cosmological); three successive solves", DIFF, "Residual and gradient evaluated with an operator assembled face by face on the finest lattice.", quick="k<=2/1 (3D); 1 and 3 processes; 7 densities", thorough="k<=3; 1-4 processes; 10 densities", assumptions=[SMALL])
check("G02", [("grav", ["--mode", "analytic"])], "every balanced octree with at most k refinements x partition x point mass", DIFF, "Compared at 1e-11.", quick="k<=3/2 (2D), 2 (3D)", thorough="k<=6/4 (2D), 3 (3D)", assumptions=[SMALL])
check("N01", [("init", ["--mode", "analytic"])], "initial condition x option set x domain x block x refinement threshold x number of processes", GEO, "Formulas written independently; the mesh is rebuilt level by level by the oracle. Random perturbations are only bounded.",
      quick="36 formula/option sets, 6 domains, 4 thresholds, 1 and 3 processes", thorough="60 sets, 9 domains, 1-4 processes", assumptions=[SMALL, "cells whose centre lies on a discontinuity may have either value"])
check("N02", [("init", ["--mode", "particles"])], "length of each list x npart; particle grid x gas field x displacement x cosmology; domain x number of processes", GEO, "Multisets of particles compared.", quick="npart<=4, 7 grids x 3 gas fields, 6 domains", thorough="npart<=6, 9 domains, 1-4 processes", assumptions=[SMALL, "displacements smaller than the domain"])
check("N03", [("init", ["--mode", "grafic"])], "grid x block x origin x header x byte order x truncation x number of processes", GEO, "Files written by the harness; values compared cell by cell (physical constants at 1e-3).", quick="4 grids, 1 and 3 processes", thorough="5 grids, 1-4 processes", assumptions=[SMALL])
PAR = dict(quick="k<=4/2 (2D), 2/1 (3D); 1 and 3 processes", thorough="k<=6/5 (2D), 3/2 (3D); 1-4 processes")
check("V01", [("para", ["--mode", "conduction"])], "every balanced octree with at most k refinements x partition x conductivity x data pattern (random or isothermal)", DIFF, "Compared at 1e-12 with the operator assembled face by face on the finest lattice; sums checked.", assumptions=[SMALL], **PAR)
check("V02", [("para", ["--mode", "viscosity"])], "every balanced octree with at most k refinements x partition x data pattern (random, constant density, uniform velocity)", DIFF, "Compared at 1e-12 with the stress evaluated on the finest lattice.", assumptions=[SMALL, "fluxes at level jumps are not required to balance (the scheme does not)", "the viscosity coefficient is uniform"], **PAR)
check("V03", [("para", ["--mode", "cooling"])], "every balanced octree with at most k refinements x partition", DIFF, "Compared at 1e-12; sums checked.", assumptions=[SMALL, "flux constant in time (cooling_type FF)"], **PAR)
check("K02", [("run", ["--mode", "refuse"])], "every scenario of T01 (one pattern each) x every parameter listed in its last.ini x three invalid texts; every parameter of the file left out; every pair left out; process counts", "exhaustive enumeration of single faults and of pairs of omissions in the configuration of whole runs of the real time loop in-process", "Outcome of each run: completed, or an error that names the parameter; runs with an ineffective change are compared bit for bit.", quick="1 step; 1 and 3 processes; pairs on 1 process", thorough="1 step; 1-3, 5 processes; all patterns; pairs on all", assumptions=["values of the right type but out of range (a negative length) are not covered", "nstepmax and level_max are never left out", "MPI is replaced by the in-process implementation of fw/fakempi (FIFO per pair, collectives)"])
check("I04", [("io", ["--mode", "tile"])], "every balanced octree with at most k refinements as the checkpoint x number of tiles along each axis x periodicity of the new domain x writing processes x field set", GEO, "Mesh and every cell compared exactly with the repeated checkpoint.", quick="k<=3/2 (2D), 1 (3D); 8 tilings in 2D (1-6 tiles), 6 in 3D (1-8)", thorough="k<=5 (2D), 2-3 (3D); 11 tilings", assumptions=H5A)
