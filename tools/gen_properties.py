#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))
A = "core/src/amr/"
HN = A + "AMRmesh_hashmap_new.cpp"

prop("C01", "The distributed mesh is always a valid 2:1-balanced tiling of the domain",
  "After construction and after every refinement, coarsening, adaptation or load balancing, the cell blocks (octants) owned by all processes together cover the domain exactly once, without holes or overlaps. "
  "Every octant level stays between the configured minimum and maximum when the requested changes do, and two octants that touch by a face, an edge or a corner (also across a periodic boundary) never differ by more than one level. "
  "The reported local and global octant counts agree with that set.",
  ["histories", "inputs", "configurations"],
  "for every sequence of marker patterns, adaptations and load balancings, every dimension (2D/3D), coarse-grid shape, periodicity and number of processes",
  "Unit tests adapt a handful of hand-picked meshes on 1 or 3 processes and look at counts; the invariant must hold after every history of marks, on every partition, including ranks that end up with few or no octants.",
  [HN, A + "AMRmesh.h", A + "AMRmesh.cpp", A + "LightOctree_storage.h"],
  [("marker propagation enforcing 2:1 and sibling agreement", HN + ": adapt"),
   ("construction of refined/coarsened octants", HN + ": adapt (apply)"),
   ("initial uniform mesh", HN + ": constructor, adaptGlobalRefine")],
  [("octant set", "union over ranks of (level, position)", A + "LightOctree_storage.h"),
   ("global counts", "getGlobalNumOctants / getNumOctants / getGlobalIdx", A + "AMRmesh.h")],
  ["AMRmesh::getNumOctants/getCoordinates/getLevel/getGlobalNumOctants/getGlobalIdx"])

prop("C02", "Adaptation applies exactly the requested changes and the minimal balance closure",
  "Adapting the mesh refines every octant asked to be refined, coarsens a family exactly when all its siblings ask for it and the result is still balanced, and otherwise refines only the octants that the 2:1 rule forces. "
  "The resulting mesh depends only on the old mesh and the requests: not on the number of processes, on where octants are stored, on threads, or on the order in which processes exchange information.",
  ["inputs", "schedules", "histories", "configurations"],
  "for every mesh, every assignment of refine/coarsen/keep requests and every partition over processes",
  "Tests check a few refine patterns by counting octants; a missed or an extra propagation needs a specific chain of neighbours, often across two process boundaries or a periodic face.",
  [HN, A + "AMRmesh.h"],
  [("2:1 marker propagation, local and across ghosts until global convergence", HN + ": adapt"),
   ("sibling agreement for coarsening", HN + ": adapt"),
   ("requests", HN + ": setMarker(s)")],
  [("marker", "requested level change per octant", HN)],
  ["octant set before/after AMRmesh::adapt"])

prop("C03", "Load balancing only moves ownership: same mesh, contiguous fair shares",
  "Load balancing leaves the set of octants unchanged and gives each octant exactly one owner; each process owns one contiguous interval of the space-filling-curve order, the intervals follow process order, and the global numbering follows them. "
  "Every process owns at least one octant whenever enough octant groups exist, shares differ from the ideal share by less than one octant group, and with a family-coherence level requested, octants of one coarse ancestor at that level are not split between processes (unless needed to keep a process from being empty).",
  ["inputs", "histories", "configurations"],
  "for every mesh, previous partition, number of processes and coherence level",
  "Existing tests run 3 processes on one or two meshes and check that data moved; fairness, contiguity and coherence for arbitrary non-uniform meshes and partitions are not tested.",
  [HN, A + "AMRmesh.h", A + "LightOctree_hashmap.h", "core/src/morton_utils.h"],
  [("new interval computation and redistribution", HN + ": loadBalance"),
   ("Morton keys", "core/src/morton_utils.h")],
  [("owner", "rank of each octant", A + "LightOctree_storage.h"),
   ("global index", "position in global numbering", A + "AMRmesh.h: getGlobalIdx")],
  ["octants per rank before/after AMRmesh::loadBalance"])

prop("C04", "Each process's ghost layer is exactly the remote octants touching its own",
  "At any time, the ghost octants known to a process are exactly the octants owned by other processes that touch (by face, edge or corner, periodic wrap included) at least one octant it owns, each appearing once, with the right position and level. "
  "Both sides agree: whatever one process receives is what the owner sends, and this is restored after every adaptation and load balancing.",
  ["histories", "inputs", "configurations"],
  "for every mesh, partition, periodicity and number of processes, after any history",
  "Tests exchange ghosts on one mesh per dimension with 3 ranks; a missing corner ghost or a stale ghost shows only for specific level jumps at specific partition cuts.",
  [HN, "core/src/mpi/ViewCommunicator.h", A + "LightOctree_hashmap.h"],
  [("ghost discovery from boundary octants", HN + ": ghost construction (adapt, loadBalance, constructor)"),
   ("communication map", "core/src/mpi/ViewCommunicator.h")],
  [("ghost octants", "storage beyond local octants", A + "LightOctree_storage.h")],
  ["AMRmesh::getNumGhosts, LightOctree ghost positions/levels"])

prop("C05", "Neighbour, boundary and point-location queries are geometrically exact",
  "For every octant and every direction, the neighbour query returns exactly the octants that touch it in that direction: one of same size, one coarser, or all the smaller ones, periodic wrap included; and the boundary query is true exactly when nothing exists there because the domain ends in a non-periodic direction. "
  "Locating a point returns the octant that contains it (and its process), and position, size, level and bound queries agree with the mesh.",
  ["inputs", "histories", "configurations"],
  "for every octant of every valid mesh, every direction, every partition and coarse-grid shape",
  "The unit tests query a small fixed tree; each wrong case needs a given combination of level jump, direction, child position, periodicity, coarse grid shape and partition cut.",
  [A + "LightOctree_hashmap.h", A + "LightOctree_base.h", A + "LightOctree_storage.h", A + "LightOctree_hashmap_precompute.h"],
  [("neighbour search in the hash map", A + "LightOctree_hashmap.h: findNeighbors"),
   ("boundary test", A + "LightOctree_hashmap.h: isBoundary"),
   ("point location", A + "LightOctree_hashmap.h: getiOctFromPos/getDomainFromPos")],
  [("octant map", "(level, morton) to octant index", A + "LightOctree_hashmap.h")],
  ["LightOctree::findNeighbors/isBoundary/getiOctFromPos/getDomainFromPos/getBound/getCorner/getSize/getLevel"])

prop("C06", "Ghost exchange delivers the owner's current values and changes nothing else",
  "After a ghost exchange on a set of fields, every ghost cell within the requested depth holds, for every field, the value its owner holds, whatever it held before. "
  "Cells owned by the process and fields not part of the exchange keep their values.",
  ["inputs", "histories", "configurations"],
  "for every mesh, partition, block size, field subset and ghost depth",
  "The tests use one block size and one mesh with 3 ranks and compare a formula of the position; partial-block packing depends on block sizes, directions and level jumps not sampled.",
  ["core/src/mpi/GhostCommunicator_full_blocks.h", "core/src/mpi/GhostCommunicator_partial_blocks.h", "core/src/mpi/GhostCommunicator_partial_blocks.cpp", "core/src/mpi/ViewCommunicator.h", "core/src/mpi/ViewCommunicator.cpp"],
  [("pack / exchange / unpack", "core/src/mpi/ViewCommunicator.h: exchange_ghosts"),
   ("selection of the needed cells", "core/src/mpi/GhostCommunicator_partial_blocks.cpp")],
  [("ghost values", "ghost part of field arrays", "core/src/UserData_fields.h")],
  ["field values on owned and ghost cells before/after exchange_ghosts"])

prop("C07", "Ghost reduction adds every ghost contribution to its owner exactly once",
  "A ghost reduction adds to each owned cell the values that all other processes hold for their ghost copies of that cell, each exactly once, in every field of the set. "
  "Cells without ghost copies are unchanged.",
  ["inputs", "configurations", "histories"],
  "for every mesh, partition, block size and field subset",
  "Only one mesh with 3 ranks is tested; double or lost contributions need octants seen by several other ranks at once.",
  ["core/src/mpi/GhostCommunicator_full_blocks.h", "core/src/mpi/GhostCommunicator_partial_blocks.cpp", "core/src/mpi/ViewCommunicator.h"],
  [("reverse exchange and accumulation", "core/src/mpi/ViewCommunicator.h: reduce_ghosts")],
  [("contributions", "values in ghost cells", "core/src/mpi/ViewCommunicator.h")],
  ["field values before/after reduce_ghosts"])

prop("C08", "The field registry behaves as a name-to-array map under any operation history",
  "Creating, moving, deleting, re-allocating and accessing fields behaves like a map from names to independent arrays: writing one field never changes another, a moved field keeps its values under the new name, names that were not touched keep their values, and the listed names and counts are exact. "
  "Invalid requests (unknown or duplicate names) are refused and leave the registry as it was.",
  ["histories", "inputs"],
  "for every sequence of create, move, delete, write, accessor and re-allocation operations",
  "The test performs one fixed sequence; aliasing of storage columns appears only for specific interleavings of delete, move and create.",
  ["core/src/UserData_fields.h", "core/src/UserData.h", "core/src/foreach_cell/AMRBlockForeachCell_CellArray.h"],
  [("name to column index table and free list", "core/src/UserData_fields.h"),
   ("accessors", "core/src/UserData_fields.h: getAccessor")],
  [("registry", "name -> column of the field array", "core/src/UserData_fields.h")],
  ["UserData::getEnabledFields/has_field/nbFields/getField/getAccessor"])

prop("C09", "Load balancing carries every cell and particle value with its octant",
  "When data is load balanced with the mesh, after the operation every cell of every field holds the value it held before at the same place, whichever process now owns it. "
  "The same set of particles exists with unchanged positions and attributes, each on the process that owns the octant containing it, whatever fields and attributes were created, moved or deleted before.",
  ["histories", "inputs", "configurations"],
  "for every mesh, partition, coherence level, registry history, particle set and process count",
  "The existing test migrates a freshly created set of fields on 3 ranks; columns that are non contiguous, particle arrays with deleted attributes and several particle arrays are not exercised.",
  ["core/src/UserData_fields.h", "core/src/UserData_particles.h", "core/src/UserData.h", A + "AMRmesh.h", A + "UserDataLB.h", "core/src/mpi/ViewCommunicator.h"],
  [("field migration", "core/src/UserData_fields.h: exchange_loadbalance"),
   ("particle migration", "core/src/UserData_particles.h: distributeParticles"),
   ("mesh side", HN + ": loadBalance_userdata")],
  [("field arrays", "cell values per octant", "core/src/UserData_fields.h"), ("particle arrays", "position and attributes", "core/src/UserData_particles.h")],
  ["AMRmesh::loadBalance_userdata"])

prop("C10", "Adapting the mesh transfers field data conservatively and locally",
  "After adaptation and data remapping, a cell that was not changed keeps its value, a cell of a refined octant takes the value of the parent cell containing it, and a cell of a coarsened octant takes the mean of the cells it replaces. "
  "In consequence the volume integral of every field is preserved, for any split of families between processes.",
  ["inputs", "histories", "configurations"],
  "for every old mesh, request pattern, block size, dimension and partition",
  "The unit test runs on a single process with one block size; families split between processes and non-cubic blocks are not tested.",
  [A + "MapUserData_mean.cpp", A + "MapUserData.h", A + "CellIndexRemapper.h", HN],
  [("copy / inject / average", A + "MapUserData_mean.cpp: remap"),
   ("old-to-new octant correspondence", A + "CellIndexRemapper.h, LightOctree_storage.h")],
  [("old mesh", "mesh saved before adapting", A + "AMRmesh.h: getLightOctree")],
  ["fields before/after save_old_mesh, adapt, remap"])

prop("C11", "Particle redistribution loses nothing and puts particles on the right process",
  "Distributing particles preserves the multiset of particles (position together with all attributes) of every particle array. "
  "Afterwards every particle whose position lies in the domain is stored on the process that owns the octant containing it, and particle counts are exact.",
  ["inputs", "histories", "configurations"],
  "for every mesh, partition, coarse-grid shape, set of particles (positions on faces and corners included) and process count",
  "Tests distribute one set of particles on a square-domain uniform mesh; wrong destinations need irregular partitions or non-cubic coarse grids.",
  ["core/src/UserData_particles.h", "core/src/particles/ParticleArray.h", A + "LightOctree_hashmap.h", "core/src/mpi/ViewCommunicator.cpp"],
  [("destination rank from position", A + "LightOctree_hashmap.h: getDomainFromPos"),
   ("exchange", "core/src/UserData_particles.h: distributeParticles")],
  [("particles", "array of positions and attribute columns", "core/src/UserData_particles.h")],
  ["UserData::distributeParticles/distributeAllParticles, getParticleArray"])

prop("C12", "Particle arrays and attributes behave as independent named containers",
  "Creating, moving, deleting and reading particle arrays and their attributes behaves like a map from names to independent columns: values written to one attribute survive any later operation on other attributes or arrays, and a moved attribute keeps its values. "
  "Counts and lists of names are exact, and invalid requests are refused without side effects.",
  ["histories", "inputs"],
  "for every sequence of attribute create/move/delete/write and distribution operations",
  "The unit test creates two attributes once; deletions followed by creations or moves are never tested.",
  ["core/src/UserData_particles.h", "core/src/particles/ParticleArray.h", "core/src/UserData.h"],
  [("attribute table and storage growth", "core/src/UserData_particles.h: new_ParticleAttribute, move_, delete_")],
  [("attribute map", "name -> column", "core/src/UserData_particles.h")],
  ["UserData::new_/move_/delete_ParticleAttribute, getParticleAttribute, getParticleAccessor"])

prop("C13", "Cell loops visit each cell once and see the right geometry and neighbours",
  "A loop over cells, over ghost cells or over blocks/patches visits every cell concerned exactly once, with the position and size given by its octant and index in the block. "
  "From any cell, the neighbour cell in a direction is the cell (or cells, or boundary) actually adjacent there, at equal, coarser or finer level, inside or outside the block, and reductions over cells count each owned cell once.",
  ["inputs", "configurations", "schedules"],
  "for every mesh, block size, direction, partition and threads",
  "The tests loop on one mesh with one block shape; wrong neighbours need a specific combination of block size, sub-position in the coarser block and direction.",
  ["core/src/foreach_cell/AMRBlockForeachCell.h", "core/src/foreach_cell/AMRBlockForeachCell_group.h", "core/src/foreach_cell/AMRBlockForeachCell_scratch.h", "core/src/foreach_cell/AMRBlockForeachCell_CellArray.h", "core/src/foreach_cell/ForeachCell_utils.h"],
  [("iteration", "core/src/foreach_cell/AMRBlockForeachCell.h, AMRBlockForeachCell_group.h"),
   ("cell neighbour", "core/src/foreach_cell/AMRBlockForeachCell_CellArray.h: getNeighbor*, convert_index*"),
   ("cell geometry", "core/src/foreach_cell/AMRBlockForeachCell.h: CellMetaData")],
  [("cell index", "octant + (i,j,k) in block", "core/src/foreach_cell/AMRBlockForeachCell_CellArray.h")],
  ["ForeachCell::foreach_cell/foreach_ghost_cell/foreach_patch/reduce_cell, CellIndex"])

prop("C14", "Generic array exchange delivers every requested element once and in sender order",
  "Given for each local element the process(es) that must receive it, an exchange delivers to each process exactly the elements destined to it, once, grouped by source process in rank order and in a fixed order within a source, for any array shape. "
  "The announced number of received elements is exact and nothing else is modified.",
  ["inputs", "configurations", "schedules"],
  "for every destination map (including empty and self destinations), array rank, layout and process count",
  "Tests use one destination pattern with 3 ranks; empty sends, asymmetric patterns and multi-dimensional arrays with unusual extents are not covered.",
  ["core/src/mpi/ViewCommunicator.h", "core/src/mpi/ViewCommunicator.cpp"],
  [("construction of send lists", "core/src/mpi/ViewCommunicator.cpp"),
   ("pack, non-blocking exchange, unpack", "core/src/mpi/ViewCommunicator.h")],
  [("send list", "element indices by destination", "core/src/mpi/ViewCommunicator.h")],
  ["ViewCommunicator::exchange_ghosts/getNumGhosts/reduce_ghosts"])

prop("C15", "Restarting from any checkpoint continues the same simulation",
  "A run restarted from any checkpoint it wrote, on any number of processes, starts from the same time, iteration, mesh, fields and particles that the original run had at that point. "
  "Continuing it produces the same later states and outputs as the uninterrupted run.",
  ["crash_points", "histories", "configurations"],
  "for every checkpoint of a run and every number of processes before and after the restart",
  "The unit test writes and reads one small state; it does not restart with other process counts, with particles, adaptive meshes and moved fields, nor compare the continuation.",
  ["core/src/io/IOManager_checkpoint.cpp", "core/src/init/InitialConditions_restart.cpp", "core/src/utils/io/HDF5ViewWriter.h", "core/src/DyabloTimeLoop.h", "core/src/ScalarSimulationData.h"],
  [("checkpoint writer", "core/src/io/IOManager_checkpoint.cpp"),
   ("mesh and data rebuild", "core/src/init/InitialConditions_restart.cpp"),
   ("resumption of counters", "core/src/DyabloTimeLoop.h")],
  [("checkpoint", "HDF5 datasets + ini file", "core/src/io/IOManager_checkpoint.cpp")],
  ["restart_*.h5/.ini content, outputs of resumed runs"])

prop("C16", "The time loop performs outputs, checkpoints, adaptation and stops on schedule",
  "Outputs and checkpoints are written at the first iteration, then exactly at the iterations or simulated times the configured frequencies define (never twice for one iteration), and once more at the end; mesh adaptation and load balancing happen at the configured iteration frequencies and the run stops at the configured last iteration or time. "
  "Each step advances the iteration counter by one and the time by the time step used, and all processes take the same decisions.",
  ["histories", "configurations", "crash_points"],
  "for every combination of frequencies, end criteria, start iteration/time (restart) and requested early stop",
  "No test exercises the time loop or its triggers.",
  ["core/src/DyabloTimeLoop.h", "core/src/ScalarSimulationData.h"],
  [("triggers", "core/src/DyabloTimeLoop.h: Interval_trigger, IterationHandler"),
   ("step order", "core/src/DyabloTimeLoop.h: step, run")],
  [("iteration, time, last trigger", "loop counters", "core/src/DyabloTimeLoop.h")],
  ["names and contents of the files written by a run, run log, scalar data in outputs"])

prop("C17", "The time step is the global minimum of all limits and never overshoots the end",
  "The time step used by every process at every iteration is the minimum, over all enabled limits and over all cells or particles of all processes, of the limit each defines from the current state; it is never increased by adding a limit, a process or a cell. "
  "It is reduced so that the run reaches the configured end time without passing it.",
  ["inputs", "configurations", "histories"],
  "for every state, set of limits, partition and end time",
  "No test computes a time step; a partial reduction (missing rank, dimension or cell) shows only when the most constraining cell is there.",
  ["core/src/compute_dt/Compute_dt_hydro.cpp", "core/src/compute_dt/Compute_dt_particle_velocity.cpp", "core/src/compute_dt/Compute_dt_parabolic.cpp", "core/src/compute_dt/Compute_dt_legacy.cpp", "core/src/compute_dt/Compute_dt_cosmology.cpp", "core/src/DyabloTimeLoop.h"],
  [("per-limit reduction over cells and ranks", "core/src/compute_dt/*.cpp: compute_dt"),
   ("combination and end clamp", "core/src/DyabloTimeLoop.h: correct_dt_end, step")],
  [("dt", "time step", "core/src/ScalarSimulationData.h")],
  ["Compute_dt::compute_dt, dt recorded by the run"])

prop("C18", "Configuration values are read faithfully and round-trip through saved files",
  "Reading a parameter returns the value given in the file (section and name case-insensitive, surrounding blanks and comments ignored), the default only when it is absent, for every supported type; malformed values are refused rather than replaced. "
  "All processes see the same values, and the configuration written by a run, read again, yields the same value for every parameter that was read.",
  ["inputs", "histories", "programs"],
  "for every configuration file and every sequence of reads",
  "No test covers the configuration reader; round trip through the written file is never tested.",
  ["core/src/utils/config/ConfigMap.h", "core/src/utils/config/named_enum.h", "core/src/utils/config/inih"],
  [("parsing and storage", "core/src/utils/config/ConfigMap.h, inih"),
   ("typed access and defaults", "core/src/utils/config/ConfigMap.h: getValue"),
   ("output", "core/src/utils/config/ConfigMap.h: output")],
  [("section/name -> value", "config map", "core/src/utils/config/ConfigMap.h")],
  ["ConfigMap::getValue/hasValue/output/broadcast_parameters"])

prop("C19", "A simulation does not depend on process count or load balancing",
  "Running the same configuration on any number of processes, with any load-balancing frequency and family-coherence level, or with any number of threads produces the same sequence of meshes and particle sets and the same time steps and cell values up to floating-point summation order. "
  "This holds at every output of the run.",
  ["configurations", "schedules", "histories"],
  "for every configuration, process count, thread count and load-balancing schedule",
  "No test compares runs between decompositions; an error confined to process boundaries leaves single-process tests untouched.",
  ["core/src/DyabloTimeLoop.h", "core/src/hydro", "core/src/mpi", "core/src/amr", "core/src/particles", "core/src/gravity"],
  [("ghost exchange before use", "core/src/DyabloTimeLoop.h: step"),
   ("update kernels", "core/src/hydro/*.cpp, core/src/gravity/*.cpp, core/src/particles/*.cpp")],
  [("solution", "fields and particles per iteration", "core/src/UserData.h")],
  ["outputs and checkpoints of complete runs"])

prop("C20", "A written snapshot describes exactly the mesh and data at that instant",
  "Every output file set contains each cell of the domain exactly once with its true geometry, level, owner and field values, the requested fields only, and every particle with its attributes, regardless of the number of processes writing it. "
  "The recorded time and iteration are those of the state written, and the descriptor refers to existing data of matching sizes.",
  ["inputs", "configurations", "histories"],
  "for every mesh, partition, field selection and particle set",
  "No test reads back the visualisation output; offsets between processes and connectivity depend on the partition.",
  ["core/src/io/IOManager_hdf5.cpp", "core/src/utils/io/HDF5ViewWriter.h"],
  [("parallel writer", "core/src/utils/io/HDF5ViewWriter.h"),
   ("geometry and descriptors", "core/src/io/IOManager_hdf5.cpp")],
  [("snapshot", "h5 datasets + xmf", "core/src/io/IOManager_hdf5.cpp")],
  ["*.h5 and *.xmf written by a run"])

prop("C21", "Hydrodynamics conserves mass, momentum, energy across levels and processes",
  "With periodic boundaries and no source terms, each step of a hydro or MHD update preserves the domain integral of every evolved field (mass, momentum, energy, magnetic field; not the GLM potential) up to rounding. "
  "For the kernels that exchange one flux per face (HydroUpdate/MHDUpdate_hancock_oneneighbor, *_euler, *_RK2, thermal conduction) this holds on any adaptive mesh and partition: what leaves a cell through a face enters its neighbours through that face, also between different levels and processes. "
  "For the others (legacy, hancock, viscosity) it holds on meshes with a single level; viscosity always conserves mass. "
  "Closed reflecting walls let no mass through (no energy either without magnetic field) for the one-flux kernels; thermal conduction conserves energy with any boundary. "
  "A uniform state at rest or in uniform motion in a periodic box stays uniform.",
  ["inputs", "configurations", "histories"],
  "for every initial state, adaptive mesh, partition, block size, Riemann solver, slope limiter and time step",
  "One test checks conservation on one mesh on few ranks for one solver setting; errors in flux matching are confined to specific level jump configurations and directions.",
  ["core/src/hydro", "core/src/DyabloTimeLoop.h", A + "MapUserData_mean.cpp", "core/src/hydro/HydroUpdate_utils.h"],
  [("flux accumulation at level jumps", "core/src/hydro/HydroUpdate_hancock.cpp, HydroUpdate_euler.cpp, HydroUpdate_RK2.cpp, HydroUpdate_legacy.cpp"),
   ("parabolic fluxes", "core/src/parabolic/ParabolicUpdate_explicit.cpp")],
  [("conserved totals", "sum over cells of value times volume", "core/src/hydro")],
  ["cell values before/after HydroUpdate::update / ParabolicUpdate::update"])

prop("C22", "Refinement criteria mark octants by their worst cell, within the level bounds",
  "A refinement criterion asks an octant to be refined when at least one of its cells demands it, to be coarsened only when all of its cells allow it, and to be kept otherwise, according to the configured thresholds. "
  "The request never leads outside the configured minimum and maximum levels, and does not depend on the partition.",
  ["inputs", "configurations"],
  "for every state, threshold set, mesh and partition",
  "No test covers any criterion; an octant whose decisive cell lies at a corner or next to another process is not sampled.",
  ["core/src/refine_condition/RefineCondition_helper.h", "core/src/refine_condition/RefineCondition_pseudo_gradient.cpp", "core/src/refine_condition/RefineCondition_mass.cpp", "core/src/refine_condition/RefineCondition_second_derivative_error.cpp"],
  [("max over cells, clamp to bounds", "core/src/refine_condition/RefineCondition_helper.h"),
   ("criteria", "core/src/refine_condition/*.cpp")],
  [("marker", "requested level change", A + "AMRmesh.h")],
  ["RefineCondition::mark_cells followed by adapt"])

prop("C23", "Particle-to-grid deposits count every particle's mass exactly once",
  "Depositing particles on the grid gives a density whose integral over the domain equals the total deposited mass when no particle's cloud leaves the domain, for any adaptive mesh, partition and particle set. "
  "A nearest-cell deposit puts the whole mass of a particle in the cell that contains it; a cloud deposit (3D) gives each neighbouring region the overlap of a cloud of the size of the particle's cell, split evenly over smaller cells of that region. "
  "Particle motion uses the field of the same cells with the same shares, so that velocities and positions after a step do not depend on the partition or on left-over ghost values.",
  ["inputs", "configurations"],
  "for every particle set, mesh, partition and block size",
  "Tests check few particles on a fixed mesh; contributions crossing level or process boundaries in corner directions are not sampled.",
  ["core/src/particles/ParticleUpdate_NGP_density.cpp", "core/src/particles/ParticleUpdate_CIC_density.cpp", "core/src/particles/ForeachParticle.h", "core/src/mpi/GhostCommunicator_full_blocks.h"],
  [("deposit kernel and ghost reduction", "core/src/particles/ParticleUpdate_*_density.cpp")],
  [("density field", "deposited mass / volume", "core/src/UserData_fields.h")],
  ["ParticleUpdate::update"])

prop("C24", "Modules are selected by name, exactly once, and unknown names are refused",
  "Every selectable module registered under a name is created exactly when that name is configured, 'none' selects nothing where allowed, and an unknown name stops the run with an error before any step. "
  "Two modules never share a name, and the list of available names is exact, whatever the registration order.",
  ["configurations", "histories"],
  "for every registration history and every configured name",
  "The test registers two implementations once; duplicates, order and error paths are not covered for real factories.",
  ["core/src/utils/misc/RegisteringFactory.h", "core/src/DyabloTimeLoop.h"],
  [("registration map", "core/src/utils/misc/RegisteringFactory.h")],
  [("factory map", "name -> constructor", "core/src/utils/misc/RegisteringFactory.h")],
  ["RegisteringFactory::register_instance/make_instance, run start-up"])

prop("C25", "A step commutes with the symmetries of the box",
  "Mirroring the box along any axis, or exchanging axes, together with the mesh, the cell values, vector components and the gravity given, and then taking one step, gives the mirrored/exchanged result of the step: no update kernel prefers a direction or a side. "
  "This holds for every hydro and MHD update (with no gravity, constant scalar gravity or a gravity field), every Riemann solver, viscosity and thermal conduction, and the gravity solvers, on any adaptive mesh that is itself symmetric, with periodic, absorbing or reflecting boundaries, up to rounding. "
  "(The damping of the GLM potential is applied axis by axis and is excluded for exchanged axes.)",
  ["inputs", "configurations"],
  "for every state, symmetric adaptive mesh, gravity type, solver, block shape and partition",
  "Tests run one shock tube or blob per solver along few axes; a wrong component, index or sign in one direction with gravity or at a level jump is not sampled, and there is no other oracle for the numerical values.",
  ["core/src/hydro", "core/src/legacy/MusclBlockGodunovUpdateFunctor.h", "core/src/parabolic", "core/src/gravity"],
  [("directional flux loops", "core/src/hydro/HydroUpdate_*.cpp, core/src/hydro/RiemannSolvers.h"),
   ("boundary conditions", "core/src/boundary_conditions/BoundaryConditions.h"),
   ("gravity source terms", "core/src/hydro/HydroUpdate_utils.h, core/src/legacy/MusclBlockGodunovUpdateFunctor.h")],
  [("conserved variables", "rho, rho_v*, e_tot, B*, psi, gphi, g*", "core/src/UserData_fields.h")],
  ["cell values after HydroUpdate::update, ParabolicUpdate::update, GravitySolver::update_gravity_field"])

prop("C26", "Self gravity solves the Poisson equation of the current density",
  "After the conjugate-gradient gravity solver has run on a 3D mesh, the potential satisfies the discrete Poisson equation for the current density minus its mean (times 4 pi G) in every cell, to the configured tolerance, whatever potential was stored before: "
  "the sum over the faces of a cell of the difference to the neighbouring values (a smaller neighbouring region counts with its mean) divided by the distance of the centres; no difference through an absorbing wall, zero potential beyond other walls. "
  "The acceleration stored is minus the gradient of that potential: the mean over the two sides of the same differences. Both hold on every adaptive mesh, partition and block size.",
  ["inputs", "configurations"],
  "for every density, previous potential, adaptive mesh, periodicity, block size and partition",
  "The test solves one smooth problem on one mesh; level jumps in each direction, partition boundaries, walls and restarted potentials are not sampled.",
  ["core/src/gravity/GravitySolver_cg.cpp"],
  [("matrix-free operator", "core/src/gravity/GravitySolver_cg.cpp: matprod"),
   ("gradient", "core/src/gravity/GravitySolver_cg.cpp: update_gravity_field")],
  [("gphi, gx, gy, gz", "potential and acceleration", "core/src/UserData_fields.h")],
  ["cell values after GravitySolver::update_gravity_field"])

prop("C27", "The time step respects the limits of every cell and particle",
  "Each time step criterion returns its CFL factor over the largest inverse limit among all cells (or particles) of all processes: "
  "for gas the sum over the axes of (sound speed + |velocity|) / cell width; for MHD the largest (|velocity| + fast magnetosonic speed) / width over the axes; "
  "for diffusion the largest (coefficient / width squared); for particles speed over the smallest cell width. Every cell and every particle counts, "
  "whichever process owns it, whatever its level, block size or the resolution of each axis; every process gets the same value.",
  ["inputs", "configurations"],
  "for every state, adaptive mesh, box resolution, particle set and partition",
  "Tests run whole problems with a comfortable CFL factor; an omitted direction, particle, level or process shows only as an occasional instability.",
  ["core/src/compute_dt/Compute_dt_hydro.cpp", "core/src/compute_dt/Compute_dt_parabolic.cpp", "core/src/compute_dt/Compute_dt_particle_velocity.cpp"],
  [("dt kernels", "core/src/compute_dt")],
  [("dt", "time step limit", "core/src/compute_dt/Compute_dt_base.h")],
  ["Compute_dt::compute_dt"])

prop("C28", "The initial mesh, fields and particles are those of the configured problem",
  "For a problem given by formulas, the initial mesh is the one obtained from the coarsest grid by refining, level after level up to the maximum level, every octant with a cell for which the formula asks for refinement (and what the 2:1 balance then requires); "
  "every cell then holds the value of the formula for its own centre and size, each octant has one owner and exactly the fields of the problem exist. "
  "The blast, MHD blast, Sod, implosion and (unperturbed) Rayleigh-Taylor problems give the state described by their parameters, including the configured centres. "
  "The particle problems create exactly the configured particles, each on the process owning its octant, with the configured position, velocity and mass. None of this depends on the number of processes.",
  ["inputs", "configurations"],
  "for every formula, set of parameters, box, block shape, levels and number of processes",
  "The test compares one run's density with itself; parameters other than the default, partitions, other problems' fields and particle sets are not looked at.",
  ["core/src/init/InitialConditions_analytical.h", "core/src/init/InitialConditions_blast.cpp", "core/src/init/InitialConditions_MHD_blast.cpp", "core/src/init/InitialConditions_sod.cpp",
   "core/src/init/InitialConditions_implode.cpp", "core/src/init/InitialConditions_particle_grid.cpp", "core/src/init/InitialConditions_simple_particles.cpp"],
  [("initial mesh and values", "core/src/init/InitialConditions_analytical.h"),
   ("particle sets", "core/src/init/InitialConditions_particle_grid.cpp, core/src/init/InitialConditions_simple_particles.cpp")],
  [("user data", "fields and particles", "core/src/UserData.h")],
  ["InitialConditions::init"])

prop("C29", "Solvers give the exact result on states where it is known",
  "In a supersonic flow every face flux is the flux of the upwind cells, at every level jump and across ranks: first-order updates change every conserved quantity by exactly that, and the second-order Euler and RK2 updates transport a density in a uniform flow by the limited linear reconstruction whose distances are those between the cells' centres and faces. "
  "Gravity, constant or a field, adds to a uniform flow its momentum and the work done, with every hydro update. Thermal conduction is the sum over faces of conductivity times the difference of temperature over the distance, nothing through walls; "
  "boundary cooling changes only the outer rows of cells by the configured flux; the field of a point mass is the softened attraction towards its configured position. The result depends on neither the partition nor the thread count.",
  ["inputs", "configurations"],
  "for every mesh, box, block shape, direction of flow, gravity vector, conductivity profile, point-mass position and number of processes",
  "The tests run two or three fixed problems per solver on one mesh and compare a field's sum, or only check that the code runs; level jumps with other block shapes, directions, walls, partitions and parameters are not sampled.",
  ["core/src/hydro/HydroUpdate_utils.h", "core/src/hydro/HydroUpdate_euler.cpp", "core/src/hydro/HydroUpdate_RK2.cpp", "core/src/hydro/CopyGhostBlockCellData.h", "core/src/parabolic/ParabolicUpdate_explicit.cpp",
   "core/src/parabolic/ParabolicTerm_thermal_conduction.h", "core/src/cooling", "core/src/gravity/GravitySolver_point_mass.cpp"],
  [("face fluxes at level jumps", "core/src/hydro/HydroUpdate_utils.h: euler_update"),
   ("gravity sources", "core/src/hydro/*: apply_gravity_correction"),
   ("heat flux", "core/src/parabolic/ParabolicTerm_thermal_conduction.h")],
  [("user data", "fields", "core/src/UserData.h")],
  ["HydroUpdate::update", "ParabolicUpdate::update", "CoolingUpdate::update", "GravitySolver::update_gravity_field"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
