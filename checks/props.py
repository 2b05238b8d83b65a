# Source of properties.jsonl (tools/gen.py writes the file). One prop() per property.
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    assert len(title) <= 80, title
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a["state"] = [dict(name=n, meaning=w) for n, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why, anchors=a))

SRC = "core/src/"
NEW = SRC + "amr/AMRmesh_hashmap_new.cpp"

prop("M01", "Mesh adaptation: smallest valid change satisfying every refinement request",
     "After any sequence of refine/coarsen requests, the leaves tile the domain exactly once within the configured level bounds, and face/edge/corner neighbours (through periodic boundaries too) differ by at most one level. Every refinement request is honoured, a family of siblings is merged exactly when all of them ask for it and the 2:1 rule permits, and nothing else changes: the result is the least refinement that satisfies the requests. Adapting without requests leaves the mesh unchanged.",
     ["inputs", "histories", "configurations"], "every reachable mesh, every assignment of refine/keep/coarsen requests to its leaves, every dimension, periodicity, coarse grid and level range",
     "The tests adapt two hand-picked meshes and compare counts; interactions of markers across level jumps, periodic wraps and level bounds are not enumerated.",
     [NEW, SRC + "amr/AMRmesh_hashmap.cpp", SRC + "amr/AMRmesh.h"],
     [("marker propagation to 2:1 balance, siblings rule", NEW + " adapt/markers"), ("leaf rewrite", NEW + " adapt")],
     ["leaf list of the mesh after adapt"])
prop("M02", "The distributed mesh does not depend on the number of processes",
     "For any history of adaptation requests and load balancings, the union over processes of the local leaves, in process order, is the Z-ordered leaf list that a single process obtains with the same requests. The global octant count and each process's starting global index are consistent with it on every process. This also holds when a process becomes empty, or when there are fewer octants than processes at first.",
     ["histories", "configurations"], "every sequence of adapt/load-balance operations and every process count",
     "MPI tests run with 1 and 4 ranks on one mesh; the cases that break are cuts through sibling families and emptied ranks.",
     [NEW, SRC + "amr/AMRmesh.h"], [("exchange of markers of ghost octants until a global fixed point", NEW), ("octant intervals owned by each process", NEW)],
     ["local leaf lists of every rank", "getGlobalNumOctants/getGlobalIdx"])
prop("M03", "Neighbour queries return exactly the adjacent leaves",
     "For every leaf and every face, edge and corner direction, the neighbour query returns exactly the set of leaves touching the leaf through that side (one of same or coarser level, or the finer ones), local or ghost, following periodic boundaries, and nothing outside a non-periodic domain. Level, position, size and domain-boundary queries agree with the geometry of the leaf. All octree implementations give the same answers.",
     ["inputs", "configurations"], "every balanced mesh, leaf, direction, periodicity, coarse grid, process count",
     "The unit test checks one mesh with few level jumps, no non-square coarse grid and few wraps.",
     [SRC + "amr/LightOctree_hashmap.h", SRC + "amr/LightOctree_hashmap_precompute.h", SRC + "amr/LightOctree_storage.h"],
     [("hash lookup of same/coarser/finer logical coordinates", SRC + "amr/LightOctree_hashmap.h findNeighbors"), ("precomputed neighbour table", SRC + "amr/LightOctree_hashmap_precompute.h")],
     ["findNeighbors", "isBoundary", "getCorner/getSize/getLevel"])
prop("M04", "Every remote leaf adjacent to a local leaf is in the ghost layer exactly once",
     "On every process the ghost octants include every leaf of another process that touches one of its own leaves through a face, edge or corner, across periodic boundaries too. No ghost is duplicated, none is a local leaf, and each is an actual leaf of the distributed mesh.",
     ["inputs", "histories", "configurations"], "every balanced mesh, every partition reachable by adapt/load-balance, every process count",
     "Tests only check ghost values of one mesh on 4 ranks; a missing corner ghost shows only for particular cuts.",
     [NEW, SRC + "amr/LightOctree_hashmap.h"], [("computation of the octants to send to each neighbour process", NEW)],
     ["ghost octant list of every rank"])
prop("M05", "Load balancing splits the Z-order evenly and keeps families together",
     "Load balancing cuts the global Z-ordered leaf list into one contiguous chunk per process, in order, and the leaves are otherwise unchanged. Each cut is at the even split position or moved back from it to the start of the group of leaves that must stay together at the requested compact level, as long as no process becomes empty.",
     ["inputs", "configurations"], "every mesh, process count and compact level",
     "The unit test balances one mesh and checks that user data followed, not where the cuts are.",
     [NEW], [("even split and alignment of cut positions on the Z-order key", NEW + " loadBalance")],
     ["first global octant index of each rank"])
prop("M06", "Any position in the domain maps to its owner process and its leaf",
     "For any position inside the domain, every process computes the same owner, which is the process holding the leaf that contains it. On the owner the lookup of a local position returns exactly the leaf that contains it. This holds after any adaptation and load balancing, for non-square coarse grids and when a process is empty.",
     ["inputs", "configurations"], "every mesh and partition, positions at both ends and the middle of every finest-level sub-cell of every leaf",
     "Only exercised indirectly, by particle distribution on one square mesh.",
     [SRC + "amr/LightOctree_hashmap.h"], [("per-process Z-order interval table", SRC + "amr/LightOctree_hashmap.h ctor/getDomainFromPos"), ("level search", SRC + "amr/LightOctree_hashmap.h getiOctFromPos")],
     ["getDomainFromPos", "getiOctFromPos"])

MPI = SRC + "mpi/"
prop("C01", "Ghost exchange: every ghost cell a process can need equals its owner's value",
     "After a ghost exchange, every cell of a ghost octant within the configured ghost width of a touching local octant holds, for each exchanged field, the value of that cell on the process that owns it. Other fields and all local cells are unchanged, and a ghost cell outside that reach is either untouched or also correct. This holds for every partition, block size and ghost width.",
     ["inputs", "configurations"], "every balanced mesh, partition, process count, block shape (also flat or smaller than the ghost width) and field subset/order",
     "The tests exchange one mesh with one cubic block on 4 ranks.",
     [MPI + "GhostCommunicator_partial_blocks.cpp", MPI + "GhostCommunicator_full_blocks.h", MPI + "ViewCommunicator.h"],
     [("list of cells to send per neighbour direction", MPI + "GhostCommunicator_partial_blocks.cpp"), ("packing of one message per process", MPI + "ViewCommunicator.h exchange_ghosts")],
     ["ghost cells of UserData after exchange_ghosts"])
prop("C02", "Ghost reduction adds every process's contribution to the owner exactly once",
     "After a ghost reduction, every local cell holds its own value plus, for each other process having it as a ghost cell within reach, the value accumulated there, each exactly once. Fields that were not reduced are unchanged.",
     ["inputs", "configurations"], "every balanced mesh, partition, process count, block shape and ghost width",
     "The tests reduce one mesh; double counting of edge/corner cells sent through several directions shows only with periodic or thin domains.",
     [MPI + "GhostCommunicator_partial_blocks.cpp", MPI + "GhostCommunicator_full_blocks.h", MPI + "ViewCommunicator.h"],
     [("reverse communication with atomic accumulation", MPI + "ViewCommunicator.h reduce_ghosts")], ["local cells of UserData after reduce_ghosts"])
prop("C03", "Parallel results do not depend on message timing or MPI buffering",
     "The mesh, the cells and the ghosts after any history of adaptation, load balancing, ghost exchange and reduction are the same for every order in which processes and messages progress, and whatever the buffering MPI provides (eager or rendezvous sends). No schedule deadlocks, reads a buffer before its message arrived, or reuses a send buffer before it is delivered. The same holds for whole runs: mesh, fields, particles and checkpoint files.",
     ["schedules", "configurations"], "every interleaving of the processes' communication calls and every legal completion point of the non-blocking operations",
     "A test run sees the one schedule the machine happens to produce, on an eager-send transport.",
     [MPI + "ViewCommunicator.h", NEW, SRC + "utils/mpi/MpiComm_mpi.tpp"], [("non-blocking sends and receives completed with Waitall", MPI + "ViewCommunicator.h"), ("collectives of marker and octant exchanges", NEW)],
     ["results per rank; deadlock, size mismatch and buffer-reuse reports of the MPI layer"])
prop("C04", "A view communicator delivers exactly the requested items, in order",
     "For any assignment of items to destination processes, including several destinations per item, none, or the sending process itself, each process receives exactly the items addressed to it, ordered by source process then send order, whatever the dimension of the view along which items are laid out; the source is unchanged. The reverse reduction returns each received contribution to its source item.",
     ["inputs", "configurations"], "every assignment of items to processes, every view rank and item dimension",
     "Tests only use it through the mesh and the particle redistribution, with one pattern each.",
     [MPI + "ViewCommunicator.h", MPI + "ViewCommunicator.cpp"], [("send/receive lists from target domains", MPI + "ViewCommunicator.cpp"), ("pack/unpack along dimension iOct_pos", MPI + "ViewCommunicator.h")],
     ["exchange_ghosts", "reduce_ghosts", "getNumGhosts"])

UD = SRC + "UserData_fields.h"
prop("D01", "The field store keeps every named field's values through any operations",
     "After any sequence of creating, deleting, renaming (over an existing field or onto itself too), writing, redistributing and reallocating fields, exactly the expected names exist, every existing field reads back the values last written to it through any accessor order, and a new field reads zero in every cell. Creating a field that exists, or renaming one that does not, is rejected with an error.",
     ["histories"], "every sequence of field-store operations", "The tests create two fields and add a third; slot reuse after deletion, renaming and reordering combine only in long runs.",
     [UD, SRC + "UserData.h", SRC + "FieldManager.h"], [("map from name to array slot, first free slot, growth", UD + " new_fields/extend_fields"), ("reordering of slots on reallocation", UD + " backup_and_realloc")], ["getAccessor, getField, getEnabledFields, nbFields"])
prop("D02", "Mesh adaptation carries fields exactly: copy, injection or volume mean",
     "After adapting the mesh and remapping, each cell of an unchanged octant keeps its value, each cell of a refined octant takes the value of the old cell that covers it, and each cell of a coarsened octant is the mean of the old cells it covers; so the integral of every field is unchanged. This holds for even and odd block sizes, for every field whatever its creation order, and when the merged octants were on different processes.",
     ["inputs", "histories", "configurations"], "every mesh, partition, request vector, block shape and field set",
     "The unit test remaps one mesh with one cubic block; families split across processes are called untested in the code.",
     [SRC + "amr/MapUserData_mean.cpp", SRC + "amr/CellIndexRemapper.h"], [("old cell lookup", SRC + "amr/CellIndexRemapper.h get_old_cell"), ("mean and ghost fallback", SRC + "amr/MapUserData_mean.cpp remap_aux")], ["field values of local cells after remap"])
prop("D03", "Load balancing moves every cell value and particle with its octant",
     "After load balancing user data, every local cell holds, for every field, the value it had on its previous owner; the set of fields is unchanged; every particle is on the process owning the leaf that contains it, with its position and attributes unchanged, and none is lost or duplicated.",
     ["inputs", "histories", "configurations"], "every mesh, partition, process count, compact level, set of fields (any creation order, after deletions)",
     "The unit test balances fields created together in alphabetical order.",
     [NEW, UD, SRC + "UserData_particles.h"], [("exchange of field slices between old and new arrays", UD + " exchange_loadbalance"), ("octant target domains", NEW + " loadBalance_userdata")], ["fields and particles of every rank"])
prop("P01", "The particle store keeps positions and attributes through any operations",
     "After any sequence of creating, deleting, renaming, writing and redistributing particle attributes, exactly the expected attributes exist, each reads back the last values written, a new attribute reads zero, and positions and other particle arrays are unaffected. Creating an attribute that exists or renaming one that does not is rejected.",
     ["histories"], "every sequence of particle-store operations", "The tests create attributes once and never delete, rename or re-create them.",
     [SRC + "UserData_particles.h", SRC + "particles/ParticleArray.h"], [("attribute slots and growth", SRC + "UserData_particles.h new_ParticleAttribute")], ["getParticleAccessor, getParticleAttribute, getEnabledParticleAttributes"])
prop("P02", "Particle distribution puts each particle on the owner of its position, once",
     "After distributing particles that start on any process, each particle is on exactly one process, the one owning the leaf that contains its position, with position and every attribute unchanged. This holds for any physical domain box, including positions on the lower faces of leaves.",
     ["inputs", "configurations"], "every mesh, partition, initial placement and position relative to the leaf",
     "One test distributes particles of one mesh.",
     [SRC + "particles/ForeachParticle.h", SRC + "mpi/ViewCommunicator.cpp", SRC + "amr/LightOctree_hashmap.h"], [("target process from normalised position", SRC + "particles/ForeachParticle.h get_distribute_communicator")], ["particle arrays of every rank"])

FE = SRC + "foreach_cell/"
prop("M07", "Z-order keys are a bijection that preserves containment and order",
     "Encoding integer coordinates as a Z-order key and decoding it gives back the coordinates for every representable coordinate (32 bits in 2D, 21 bits in 3D). The key is the bit interleaving of the coordinates, so keys of distinct positions differ and sorting by key keeps every octant's descendants contiguous.",
     ["inputs"], "every coordinate value on every axis", "The unit test encodes a handful of small coordinates; a wrong mask corrupts only high bits.",
     [SRC + "morton_utils.h"], [("magic-bits interleaving and extraction", SRC + "morton_utils.h splitBy3/morton_extract_coord")], ["compute_morton_key", "morton_extract_coord"])
prop("D04", "Cell iteration visits every cell exactly once, whatever the grouping",
     "Iterating or reducing over cells, ghost cells or patches visits each local (or ghost) cell exactly once with an index inside its block, for any number of local octants including none and any octant group size. Reductions combine every cell exactly once. During a patch, temporary arrays of different blocks do not overlap. Both patch implementations behave the same.",
     ["configurations", "inputs"], "every octant count relative to the group size, block shape and process count",
     "Tests run with the default group of 1024 octants, larger than their meshes.",
     [FE + "AMRBlockForeachCell_group.h", FE + "AMRBlockForeachCell.h", FE + "AMRBlockForeachCell_scratch.h"], [("loop over groups, last group smaller", FE + "AMRBlockForeachCell_group.h foreach_patch"), ("linear index to cell", FE + "AMRBlockForeachCell.h foreach_cell")], ["visited cells", "reduction results", "patch temporaries"])
prop("D05", "Cell neighbour access returns the geometrically adjacent cells",
     "For every cell and offset within the supported reach, the neighbour found is the cell at that position: in the block, in a same-size octant, the bigger cell that covers it, or the first adjacent smaller cell, from which the helper visits exactly the smaller cells touching the original. Outside a non-periodic domain it is flagged boundary and traced back to the closest inner cell. In an array without ghosts only neighbours in the block exist, all others are invalid. Cell sizes, centres and position lookups agree with the geometry.",
     ["inputs", "configurations"], "every balanced mesh, cell, offset, block shape (odd, flat and single-cell too), periodicity, partition",
     "Tests probe one mesh with 4x4 blocks.",
     [FE + "AMRBlockForeachCell_CellArray.h", FE + "ForeachCell_utils.h", FE + "AMRBlockForeachCell.h"], [("neighbour octant search and index conversion across levels", FE + "AMRBlockForeachCell_CellArray.h getNeighbor_ghost"), ("smaller neighbour iteration", FE + "ForeachCell_utils.h foreach_smaller_neighbor")], ["CellIndex returned", "getCellSize/getCellCenter/getCellFromPos"])
prop("D06", "Ghost-padded patches map each padding cell to the cells it covers",
     "For every index of a patch padded with ghost cells, conversion to the global array gives the cell of the block itself, the same-size cell of the neighbour, the bigger cell covering it, or the first of the 2^dim smaller cells it covers, whose siblings are exactly the others; or flags the domain boundary with the offset from the closest inner cell. Converting an inner cell to the patch and back is the identity.",
     ["inputs", "configurations"], "every balanced mesh, octant, padded index, block shape, periodicity, partition",
     "One mesh is tested, with cubic blocks and one ghost width.",
     [FE + "AMRBlockForeachCell_CellArray.h", FE + "ForeachCell_utils.h"], [("conversion of padded indices", FE + "AMRBlockForeachCell_CellArray.h convert_index_ghost")], ["convert_index_ghost", "convert_index", "foreach_sibling"])

HY = SRC + "hydro/"
HYF = [HY + "HydroUpdate_euler.cpp", HY + "HydroUpdate_RK2.cpp", HY + "HydroUpdate_hancock.cpp", HY + "HydroUpdate_hancock_oneneighbor.cpp", HY + "HydroUpdate_utils.h", SRC + "RiemannSolvers.h"]
HYM = [("slopes, reconstruction and interface fluxes", HY + "HydroUpdate_utils.h euler_update, HydroUpdate_hancock.cpp compute_fluxes, HydroUpdate_hancock_oneneighbor.cpp compute_fluxes_and_update"), ("Riemann solvers", SRC + "RiemannSolvers.h")]
prop("H01", "Finite-volume steps conserve mass, momentum, energy and magnetic flux",
     "One step of any hydro or MHD solver, on any mesh, keeps the volume-weighted sums over the domain of density, momentum, total energy and magnetic field equal to rounding when the domain is periodic; with reflecting walls mass and energy (and the momentum along periodic axes) are kept for hydro, mass for MHD (except the block Hancock MHD solver, whose predictor does not mirror the field). This includes interfaces between refinement levels and between processes. The block Hancock solver (documented as non-conservative between levels) keeps it on single-level meshes.",
     ["inputs", "configurations"], "every balanced mesh, partition, solver, block shape, periodicity, cell data within the data alphabet",
     "Regression tests compare a few runs with tolerance; a non-conservative interface between levels only shows up for certain configurations of neighbours.",
     HYF, HYM, ["fields after update()"])
prop("H02", "A uniform state is a steady state of every solver",
     "If every cell holds the same state (velocity parallel to any reflecting wall), one step of any hydro/MHD solver leaves every cell unchanged to rounding, on any mesh, with periodic, absorbing or reflecting boundaries.",
     ["inputs", "configurations"], "every balanced mesh, solver, block shape, boundary types, alphabet of uniform states",
     "No test checks it on meshes with level jumps and every boundary type.", HYF, HYM, ["fields after update()"])
prop("H03", "Solvers commute with mirror images and axis permutations",
     "Mirroring the domain along an axis, or exchanging two axes (mesh, cell sizes, boundary types, gravity, vector components alike), and then doing a step gives the mirrored/exchanged result of the step, to rounding, for every hydro, MHD and GLM-MHD solver, in 2D and 3D, on any mesh.",
     ["inputs", "configurations"], "every balanced mesh, solver, boundary types, gravity mode, symmetry, cell data within the alphabet",
     "Directional copy-and-paste errors (wrong component, wrong side, wrong cell size) leave the 2D test problems plausible.", HYF + [SRC + "boundary_conditions/BoundaryConditions.h", SRC + "states/State_GLMMHD.h", SRC + "states/State_MHD.h", SRC + "states/State_hydro.h"], HYM + [("component swaps for Y and Z interfaces", SRC + "states/State_hydro.h swapComponents")], ["fields after update()"])
prop("H04", "Interface fluxes are those of the HLLC and HLLD schemes",
     "For any pair of neighbouring constant states (subsonic, supersonic, shocks, rarefactions, contact and rotational discontinuities, either sign of the normal field), one step changes the cells next to the interface by exactly the HLLC (hydro) or HLLD (GLM-MHD with hlld) flux of Toro / Miyoshi & Kusano, along every axis. The RK2 solver's step is the average of the initial state and of two Euler steps.",
     ["inputs", "configurations"], "every ordered pair of states of an alphabet covering every wave pattern, axis, dimension",
     "Tests do not call the Riemann solvers; regression runs visit few wave patterns.", [SRC + "RiemannSolvers.h", HY + "HydroUpdate_RK2.cpp", HY + "HydroUpdate_utils.h"], [("HLLC", SRC + "RiemannSolvers.h riemann_hllc"), ("HLLD", SRC + "RiemannSolvers.h riemann_hlld"), ("RK2 stages", HY + "HydroUpdate_RK2.cpp update_aux")], ["fields after update()"])
prop("H05", "The solution of a step does not depend on the domain decomposition",
     "One step of any hydro/MHD solver gives bit-for-bit the same value in every cell whatever the number of processes, the distribution of octants among them and the size of the groups of octants processed together.",
     ["schedules", "inputs", "configurations"], "every balanced mesh, partition, process count, group size, solver, gravity mode",
     "MPI regression runs use one partition and compare with tolerance.", HYF + [SRC + "mpi/GhostCommunicator_partial_blocks.cpp", FE + "AMRBlockForeachCell_group.h"], [("ghost exchange between solver stages", HY + "HydroUpdate_RK2.cpp update_aux / HydroUpdate_hancock_oneneighbor.cpp update_aux")], ["fields after update()"])
prop("H06", "Gravity source terms: momentum, energy and hydrostatic balance",
     "With gravity, a step changes density exactly as without it; momentum by dt*g times the (time-averaged) density of the cell, along every axis, for scalar, constant-field and field gravity; total energy by the change of kinetic energy (field gravity and Hancock solvers) or so that gas plus potential energy of a closed box is conserved on single-level meshes (Euler, scalar gravity). The well-balanced solver leaves a discrete hydrostatic column at rest unchanged.",
     ["inputs", "configurations"], "every balanced mesh, solver, gravity mode, axis, cell data within the alphabet",
     "One Rayleigh-Taylor run exercises one solver with one direction of gravity.", HYF, [("gravity correction", HY + "HydroUpdate_euler.cpp apply_gravity_correction"), ("gravity in the Euler step, well-balanced fluxes", HY + "HydroUpdate_utils.h euler_update")], ["fields after update()"])
prop("H08", "Density carried by a uniform flow: nothing else changes, and exactly",
     "If pressure, velocity and magnetic field are uniform, one step of any solver leaves them uniform to rounding whatever the density in every cell, on any mesh with level jumps. Moreover a density varying linearly along the flow is translated exactly (away from walls), on uniform meshes by every solver and across level jumps by the conservative solvers (Euler, RK2, one-neighbour).",
     ["inputs", "configurations"], "every balanced mesh, solver, block shape, boundary types; arbitrary and linear densities, flow along each axis in both directions",
     "The order of accuracy and the distances used at level jumps do not show in the tests, which check small uniform meshes.", HYF, HYM, ["fields after update()"])
prop("H09", "On a uniform mesh each solver does exactly one step of its documented scheme",
     "On a uniform periodic mesh, one step of every hydro, MHD and GLM-MHD solver gives, in every cell, the update of the documented second-order scheme: minmod slopes of the primitive variables, half-step evolution with the primitive equations (Hancock solvers), one Riemann problem per face, the same flux on both sides; two Euler steps averaged with the initial state for RK2; psi damped once per step for GLM.",
     ["inputs", "configurations"], "every solver, block shape, domain shape, 2D/3D, every assignment of two states to the octants",
     "Tests compare a few runs with stored results of the same code.", HYF, HYM, ["fields after update()"])
prop("B01", "Each wall behaves as the mirror image its own boundary type prescribes",
     "A step with a wall on one side of the domain gives, in every cell, the result of a step on the domain extended across that wall by its mirror image: with the normal momentum reversed if that side is reflecting, unchanged if it is absorbing. The type configured for each of the six sides applies to that side only, whatever the others are, in any mixture with periodic axes.",
     ["inputs", "configurations"], "every assignment of boundary types to the sides, every mesh, solver, side, cell data within the alphabet",
     "Tests use the same boundary type on every side.", [SRC + "boundary_conditions/BoundaryConditions.h", HY + "CopyGhostBlockCellData.h"] + HYF, [("value of cells outside the domain", SRC + "boundary_conditions/BoundaryConditions.h getBoundaryValue")], ["fields after update()"])

DT = SRC + "compute_dt/"
prop("H07", "The time step is the most restrictive limit over all cells of all processes",
     "Every time-step kernel returns, on every process, the same dt: the configured CFL factor divided by the largest rate over all cells (or particles) of the whole mesh: sum over the axes of (|v|+c)/dx for hydro, and for MHD also (|v|+fast speed)/dx along each axis; |v|/min(dx) for particles; the diffusion coefficient over the squared smallest cell size for viscosity and conduction. It does not depend on the number of processes, also when some have no octant or no particle.",
     ["inputs", "configurations"], "every balanced mesh, partition, kernel, position of the fastest cell or particle",
     "Regression runs do not look at dt on partitions where a process is empty or where the limiting cell is remote.",
     [DT + "Compute_dt_hydro.cpp", DT + "Compute_dt_particle_velocity.cpp", DT + "Compute_dt_parabolic.cpp"], [("max over local cells, min over processes", DT + "Compute_dt_hydro.cpp compute_dt_aux")], ["scalar dt after compute_dt"])
RC = SRC + "refine_condition/"
prop("R01", "Octants are refined or coarsened exactly when their cells meet the criterion",
     "An octant is marked for refinement when any of its cells exceeds the refinement threshold of the selected criterion (density jump with face neighbours, normalised second derivative of density or pressure, mass with or without particles, downflow velocity), for coarsening when all its cells are at or below the coarsening threshold, and never beyond the level bounds; the mesh then adapts accordingly. Level jumps, walls and periodic boundaries are handled as in the solvers. Evaluating a criterion changes no field. The result does not depend on the number of processes.",
     ["inputs", "configurations"], "every balanced mesh, partition, criterion, cell data within the alphabet",
     "Tests run one criterion on one mesh; that coarsening ever happens is not checked.",
     [RC + "RefineCondition_helper.h", RC + "RefineCondition_pseudo_gradient.cpp", RC + "RefineCondition_second_derivative_error.cpp", RC + "RefineCondition_mass.cpp", RC + "RefineCondition_downflows.cpp"], [("max of the cells' criteria per octant, clamped to the level bounds", RC + "RefineCondition_helper.h mark_cells_aux, set_markers")], ["leaves after mark_cells and adapt", "fields after mark_cells"])
PU = SRC + "particles/ParticleUpdate_"
prop("P03", "Projecting particles on the mesh conserves mass",
     "After projecting particles (NGP or CIC), the integral of the projected density is the gas mass plus the mass of all particles, on any mesh and partition, in 2D and 3D; with NGP each particle's mass goes to the cell containing it, with CIC on a single-level mesh to the cells overlapping its cell-sized cloud in proportion to the overlap (what lies outside of a wall goes to the closest cell inside). The gas density is unchanged, and projecting again gives the same result.",
     ["inputs", "configurations"], "every balanced mesh, partition, block shape, particle positions relative to the cells",
     "No test projects particles next to a level jump or a process boundary.", [PU + "CIC_density.cpp", PU + "NGP_density.cpp", SRC + "mpi/GhostCommunicator_partial_blocks.cpp"], [("cloud weights and neighbours across levels", PU + "CIC_density.cpp apply_rho_contrib"), ("accumulation on the owner", SRC + "mpi/GhostCommunicator_partial_blocks.h reduce_ghosts")], ["field rho_g"])
prop("P04", "Particles move with the right velocity and stay in the periodic domain",
     "A particle's velocity changes by dt times gravity: of its cell (NGP), or interpolated with cloud-in-cell weights that always sum to one (CIC: exact for uniform gravity on any mesh, the textbook interpolation on a single-level mesh); its position then changes by dt times its new velocity, tracers by dt times the gas velocity of their cell. A particle leaving through a periodic side re-enters at the opposite side (displacements below one domain length); a tracer that would cross a wall is reported. Other attributes are unchanged.",
     ["inputs", "configurations"], "every balanced mesh, partition, block shape, particle positions and velocities within the alphabet",
     "No test moves particles across level jumps or periodic boundaries.", [PU + "CIC_move.cpp", PU + "NGP_move.cpp", PU + "tracers_move.cpp"], [("interpolation", PU + "CIC_move.cpp apply_g_contrib"), ("periodic wrap", PU + "NGP_move.cpp update")], ["particle positions and attributes"])

IO = SRC + "io/"
IOF = [IO + "IOManager_checkpoint.cpp", SRC + "init/InitialConditions_restart.cpp"]
prop("I01", "A checkpoint restores the whole state on any number of processes",
     "Restarting from a checkpoint, on the same or any other number of processes, gives the mesh, every field of every cell, every particle of every particle array with its position and all attributes, the iteration number and the time bit for bit as they were when the checkpoint was written, each octant on exactly one process and each particle exactly once; whatever the order in which fields were created, also with empty particle arrays and arrays without attributes.",
     ["inputs", "configurations", "histories"], "every balanced mesh, partition, process count before and after, field set, particle arrays",
     "The restart test runs one process count with fields only.", IOF, [("write of fields, octants and particles at each process's offset", IO + "IOManager_checkpoint.cpp save_snapshot"), ("read and redistribution", SRC + "init/InitialConditions_restart.cpp init")], ["mesh, fields, particles after the restart initial condition", "restart .ini"])
prop("I02", "Output files describe exactly the mesh, the fields and the particles",
     "The hdf5/xdmf output of a step contains every cell of the mesh exactly once, with its corners, in the element's corner order, its level, owner and every requested field in the requested precision, and every particle with its position and requested attributes; each dataset element is written once; the .xmf files refer only to existing datasets with the right shape and type, and the main .xmf lists every step once. This holds for any partition, in 2D and 3D, also when a requested field does not exist.",
     ["inputs", "configurations"], "every balanced mesh, partition, process count, field set, precision",
     "Tests only check that the output step does not fail.", [IO + "IOManager_hdf5.cpp"], [("geometry and fields", IO + "IOManager_hdf5.cpp save_snapshot"), ("xdmf description", IO + "IOManager_hdf5.cpp")], ["content of .h5 and .xmf files"])
prop("I03", "A crash while writing a checkpoint leaves the previous checkpoint usable",
     "If the run is killed at any point of writing a checkpoint, every checkpoint written before still restores its state, and no restart .ini file refers to a missing or incomplete .h5 file.",
     ["crash_points", "histories"], "every point between two operations of the file library during the write of a checkpoint, on every process count",
     "No test interrupts a checkpoint.", IOF, [("the .ini is written after the .h5 is closed, under names that depend on the iteration", IO + "IOManager_checkpoint.cpp save_snapshot")], ["files on disk after the crash", "state after restart"])
prop("I04", "A tiled restart repeats the checkpoint over the larger domain",
     "The tiled_restart initial condition, run on as many processes as there are tiles, builds the smallest 2:1 balanced mesh that contains the octants of the checkpoint repeated nrep times along each axis, each octant is on exactly one process, and every field of every cell is the value of the checkpoint's cell at the same place of its tile - whatever the mesh of the checkpoint, its coarse size, the block size, the periodicity of the new domain and the number of tiles.",
     ["inputs", "configurations"], "every checkpoint mesh, coarse size and number of tiles along each axis",
     "No test uses tiled_restart.", ["core/src/init/InitialConditions_tiled_restart.cpp", IO+"IOManager_checkpoint.cpp"], [("mesh refined where the repeated checkpoint is, then values copied from the checkpoint's cell at the same place", "core/src/init/InitialConditions_tiled_restart.cpp init")], ["mesh and fields after initialisation"])

TL="core/src/DyabloTimeLoop.h"
prop("T01", "A simulation does not depend on how it is decomposed",
     "A whole run, with any of the shipped solvers, initial conditions, refinement criteria, particles, gravity and source terms, completes and goes through the same sequence of meshes, cell values, particles and times - bit for bit, except where particles or the Poisson solver add in a different order - whatever the number of processes, load balancing frequency being equal, and the number of octants per group. At every output the mesh tiles the domain, is 2:1 balanced, no octant is held twice and every particle is on the process that owns its octant; conservative solvers in periodic boxes keep the totals across AMR cycles and load balancing.",
     ["configurations", "inputs", "histories"], "every assignment of two states to the quadrants of the domain and every shipped setup, every number of processes, AMR / load balancing schedule",
     "Regression tests run one process count per setup; a stale ghost or a remap error only shows on certain partitions and meshes.", [TL, "core/src/amr/", "core/src/hydro/", "core/src/particles/", "core/src/gravity/"],
     [("ghosts are exchanged before each kernel that reads them, with a layer as wide as the kernel needs", TL+" step(), hydro_ghost_count"), ("fields and particles follow their octants", TL+" AMR cycle and load balancing")], ["fields, mesh and particles at every output"])
prop("T02", "A restarted simulation continues exactly like the original",
     "Restarting from any checkpoint of a run, with the .ini file written beside it, on any number of processes, gives at every later iteration the same mesh, cell values, particles, time and iteration number as the run that was not interrupted (bit for bit, or to rounding where particles or the Poisson solver add in a different order), and ends at the same iteration.",
     ["histories", "configurations"], "every checkpoint of every run explored, every pair of process counts",
     "One test restarts one run once.", [TL, "core/src/init/InitialConditions_restart.cpp", "core/src/io/IOManager_checkpoint.cpp"],
     [("everything the next step depends on is in the checkpoint", "core/src/io/IOManager_checkpoint.cpp save_snapshot"), ("initial conditions are followed by a redistribution of particles", TL+" constructor")], ["fields, mesh, particles, scalars after each step of the restarted run"])
prop("T03", "Steps, outputs, checkpoints and stops happen when the .ini file says",
     "A run writes outputs and checkpoints at the iterations and times given by their frequencies and time slices (plus output at the start and both at the end), adapts and balances the mesh at the given frequencies and never in between, uses the smallest dt of the kernels, cut so that the run ends exactly at tEnd, and stops at nstepmax, tEnd or after the iteration in which any process is interrupted; null or negative frequencies mean never; disabled outputs are never written; a run that is already over does nothing but the final output. The last.ini it writes gives the same run again.",
     ["configurations", "histories"], "every combination of frequencies, time slices, starts, ends, dt sequences, interrupted process and iteration",
     "Tests only use one or two schedules and do not check when things happen.", [TL],
     [("counters and triggers are shared by all the processes", TL+" IterationHandler, Interval_trigger")], ["calls to output, checkpoint, refinement, hydro plugins with iteration, time and dt", "mesh sizes"])
prop("U01", "Cosmological time and expansion factor stay consistent",
     "In a cosmological run time and expansion factor are related by the Friedmann integral of the configured omega_m, omega_v (to table accuracy), the tabulated conversion is increasing and its two directions are inverse of each other over the whole table and slightly beyond; each step multiplies the expansion factor by da, cut at the end; outputs and checkpoints sliced in aexp happen once per multiple crossed; the run stops at the requested expansion factor with positive steps only; aexp and z seen by every output and step belong to its time; a restarted run goes through the same times, steps and expansion factors.",
     ["inputs", "configurations", "histories"], "every cosmology, start, end, table size, step factor, slice and restart of the alphabet",
     "The cosmological tests only check that a few runs complete.", ["core/src/Cosmo.h", TL, "core/src/compute_dt/Compute_dt_cosmology.cpp"],
     [("Friedmann integral and lookup tables", "core/src/Cosmo.h CosmoManager"), ("aexp, z and the end of the run follow the time", TL+" run, step")], ["aexp, z, time and dt of each step, output, checkpoint"])
CFG = "core/src/utils/config/"
prop("K01", "Configuration files mean what they say",
     "Each parameter is read as the value written for its section and name in the .ini file - case, spacing, comments, blank lines, line ends, line length and number of duplicates (the last one counts) are irrelevant - on every process; a value that is not a representation of the requested type, or is outside its range, is refused. Missing parameters take their default, which is registered. The written last.ini, read back, gives every parameter the same value (floating point ones bit for bit), marks exactly the defaults and the unused ones, and is written again identically.",
     ["inputs", "configurations"], "every string up to a length over a numeric alphabet as every type; every file of a few assignments in every spelling; every line length; every process count",
     "Unit tests read a handful of values from one short file.", [CFG + "ConfigMap.h", CFG + "inih/ini.cpp", CFG + "inih/ini.h", CFG + "named_enum.h"],
     [("conversion to typed values", CFG + "ConfigMap.h convert_to_t, to_string_t"), ("line reader", CFG + "inih/ini.cpp ini_parse_stream"), ("broadcast", CFG + "ConfigMap.h broadcast_parameters")], ["values returned by getValue, file written by output()"])
prop("K02", "A setup that cannot run is refused with its reason, never run anyway",
     "Starting a simulation from any .ini file whose parameters are missing or are not values of their type either runs, or ends on every process with an error message before it touches memory it does not own, hangs or aborts. A numeric, boolean or enumerated parameter that a run reads and that has another text as value is refused by name, and so is the name of a plugin that does not exist; a parameter reported as unused in last.ini has no effect on the results whatever its value; a parameter left out takes a default that last.ini reports, or the run is refused; blocks and coarse meshes that a kernel cannot work with are refused. Running again from last.ini reproduces the run bit for bit.",
     ["configurations"], "every parameter of every configuration of the scenario list replaced by each of three invalid texts, left out, and left out together with each other one",
     "No test starts a simulation that has to be refused.", [SRC + "DyabloTimeLoop.h", CFG + "ConfigMap.h", SRC + "utils/misc/RegisteringFactory.h", SRC + "utils/monitoring/Timers.cpp", SRC + "amr/AMRmesh.cpp"],
     [("setup of all the components", SRC + "DyabloTimeLoop.h DyabloTimeLoop"), ("errors of values", CFG + "ConfigMap.h getValue"), ("unknown plugins", SRC + "utils/misc/RegisteringFactory.h make_instance"), ("mesh parameters", SRC + "amr/AMRmesh.cpp parse_parameters")], ["outcome and error message of each run, last.ini, results"])
GR = "core/src/gravity/"
prop("G01", "Self-gravity solves the Poisson equation on the AMR mesh",
     "After the conjugate gradient solver has run, the potential satisfies the flux-conserving discrete Poisson equation for the density minus its mean (4 pi G rho, or the cosmological source) with the relative residual asked for, on any 2:1 balanced mesh, block shape and partition, for periodic, zero-flux and zero-potential sides independently on each side; the acceleration is minus its gradient; it stays true when called again and when the density changes. A uniform density gives no acceleration (and the solver stops). The density is not modified.",
     ["inputs", "configurations", "histories"], "every balanced mesh, partition, assignment of boundary types used, density pattern, sequence of two densities",
     "No test checks a potential at level jumps, walls or process boundaries.", [GR + "GravitySolver_cg.cpp"],
     [("operator at level jumps and walls", GR + "GravitySolver_cg.cpp matprod, get_value"), ("stopping criterion and right-hand side", GR + "GravitySolver_cg.cpp update_gravity_field")], ["gphi, gx, gy, gz"])
prop("G02", "The point mass gravity field is exact in every cell",
     "With the point mass gravity solver the acceleration of each cell is that of the softened point mass at the centre of the cell, in 2D and 3D, on any mesh and partition; in 2D only distances in the plane count and gz is left alone.",
     ["inputs", "configurations"], "every balanced mesh, partition, position, mass and softening of the alphabet",
     "No test checks the values.", [GR + "GravitySolver_analytical.tpp", GR + "GravitySolver_point_mass.cpp"], [("evaluation at cell centres", GR + "GravitySolver_analytical.tpp update_gravity_field")], ["gx, gy, gz"])
IN = "core/src/init/"
prop("N01", "Analytic initial conditions give the documented state on the right mesh",
     "Each analytic initial condition (sod, implode, kelvin_helmholtz, riemann2d with its 19 cases, rayleigh_taylor, blast, MHD blast/rotor/orszag-tang with and without GLM, C91, tri_layer) fills every cell with the conservative state of its formula at the centre of the cell, with each documented option honoured (position, radius, amplitude, seed, gravity), on a mesh refined level by level exactly where its criterion asks, whatever the domain box, block shape, coarse grid and number of processes; it creates the fields of the state and no others. Random perturbations stay within their amplitude and depend on the seed.",
     ["inputs", "configurations"], "initial condition x options x domain x block x refinement threshold x number of processes",
     "Tests run a few of them and look at no value.", [IN + "InitialConditions_analytical.h", IN + "AnalyticalFormula_tools.h", IN + "InitialConditions_blast.cpp", IN + "InitialConditions_kelvin_helmholtz.cpp", IN + "InitialConditions_riemann2d.cpp", IN + "wholesun/InitialConditions_tri_layer.cpp"],
     [("refinement level by level", IN + "InitialConditions_analytical.h"), ("normalised second derivative", IN + "AnalyticalFormula_tools.h"), ("formulas", IN + "InitialConditions_*.cpp value()")], ["leaves", "fields"])
prop("N02", "Initial particles are those of the configuration, once each",
     "simple_particles creates npart particles with the listed positions, velocities and masses, missing values being zero and extra ones ignored; particle_grid creates one particle at the centre of each cell of its grid, with the velocity of the gas there, an equal share of the total mass, and displaced by dt_perturb (from the linear growth rate when there is a cosmology) with periodic wrapping. Every particle exists exactly once, on the process that owns its octant, for any number of processes.",
     ["inputs", "configurations"], "lists of values x npart x domains; grids x gas x displacement x number of processes",
     "No test has lists of another length than npart, or checks particle_grid.", [IN + "InitialConditions_simple_particles.cpp", IN + "InitialConditions_particle_grid.cpp"],
     [("parsing of lists", IN + "InitialConditions_simple_particles.cpp parse_array"), ("splitting and displacement", IN + "InitialConditions_particle_grid.cpp init")], ["particle arrays"])
prop("N03", "GRAFIC files are read to the right cells with the right units",
     "With grafic_fields each cell holds the density, velocities and pressure of the value of its position in the files, in supercomoving units, for any grid, block shape, origin and number of processes, in either byte order; the configuration receives the parameters of the header. A truncated file is refused.",
     ["inputs", "configurations", "fault_sequences"], "grids x blocks x origins x cosmologies x byte order x truncation x number of processes",
     "No test reads a GRAFIC file.", [IN + "InitialConditions_grafic_fields.cpp", "core/src/utils/io/FortranBinaryReader.h"],
     [("records", "core/src/utils/io/FortranBinaryReader.h read_record"), ("cell of a value, units", IN + "InitialConditions_grafic_fields.cpp init")], ["fields", "configuration"])
PA = "core/src/parabolic/"
prop("V01", "Heat conduction is the flux-conserving discrete operator on any mesh",
     "A heat conduction step adds to the energy of each cell, and to nothing else, dt / volume times the sum over its faces of area x mean conductivity of the two cells (uniform, or that of the tri_layer profile at their centres) x temperature difference / distance of the centres along the normal: a face between cells of different size carries the same flux on both sides, walls carry none, so the total energy is constant and an isothermal gas does not change, on any 2:1 balanced mesh, block shape and partition.",
     ["inputs", "configurations"], "every balanced mesh, partition, block shape, boundary, conductivity profile, data pattern",
     "The only test is a smoke test on one mesh.", [PA + "ParabolicTerm_thermal_conduction.h", PA + "ParabolicUpdate_explicit.cpp"],
     [("fluxes towards smaller, same size and bigger neighbours", PA + "ParabolicTerm_thermal_conduction.h compute_thermal_flux"), ("accumulation over the faces of a cell", PA + "ParabolicUpdate_explicit.cpp")], ["e_tot_next and the other fields after update"])
prop("V02", "Viscosity is the divergence of the viscous stress",
     "A viscosity step adds to the momentum and energy of each cell dt times the divergence of the viscous stress (symmetric, traceless in 3D) and of its work, built from centred differences of the velocity, where a finer neighbour counts as the mean of its cells, a coarser one as a cell of the same size, and walls mirror the state; density is not changed, and neither is a gas with a uniform velocity away from reflecting walls; on any 2:1 balanced mesh, cell aspect ratio, block shape and partition.",
     ["inputs", "configurations"], "every balanced mesh, partition, block shape, aspect ratio, boundary, data pattern",
     "The only test is a smoke test on one mesh.", [PA + "ParabolicTerm_viscosity.h", PA + "ParabolicUpdate_explicit.cpp"],
     [("velocity gradients and stress at faces", PA + "ParabolicTerm_viscosity.h compute_rhs"), ("accumulation", PA + "ParabolicUpdate_explicit.cpp")], ["rho_v*_next, e_tot_next and the other fields after update"])
prop("V03", "Boundary heating and cooling fluxes act on the boundary cells only",
     "The flux-flux cooling term adds FF_fluxes * dt / height to the energy of the cells that touch the end of the domain along gravity (y in 2D, z in 3D), removes it from those that touch its start, and touches no other cell nor field, whatever their level, block and process: the total energy is constant.",
     ["inputs", "configurations"], "every balanced mesh, partition, block shape, domain",
     "No test runs this term.", ["core/src/cooling/CoolingUpdate_FF.cpp"], [("cells of the first and last rows", "core/src/cooling/CoolingUpdate_FF.cpp update")], ["e_tot_next and the other fields after update"])
