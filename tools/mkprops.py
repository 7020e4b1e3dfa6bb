#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as source so that wording is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n,m,w in state],
                     mechanism=[dict(name=n, where=w) for n,w in mech],
                     observe_at=list(observe), hook_needed=hook)))

OUT="Exodus output of the Peridigm executable"
prop("C01","Neighbor lists are exactly the points within the horizon on any rank count",
 "For a text-file mesh, the family of every point is exactly the set of other points whose reference distance is not larger than that point's horizon, where the horizon is the one given for its block, either as a constant or as a function evaluated at the point. This holds for any point arrangement, any mixture of block horizons and any number of MPI ranks, so no bond is lost, duplicated or invented at a processor boundary.",
 ["inputs","configurations"],"all point clouds x block/horizon assignments (constant, default, per-point function) x number of ranks",
 "The unit tests search a few fixed lattices with one horizon on 1 or 2 ranks; they do not reach unequal horizons, irregular clouds, ties at exactly the horizon, or clouds smaller than the number of ranks.",
 ["src/io/mesh_input/quick_grid/QuickGrid.cxx","src/io/Peridigm_ProximitySearch.cpp","src/io/pdneigh/NeighborhoodList.cxx","src/core/Peridigm_HorizonManager.cpp","src/io/discretization/Peridigm_TextFileDiscretization.cpp"],
 [("frame set and ghost exchange","NeighborhoodList::createAndAddNeighborhood"),("kd-tree / jacobson search","src/io/utilities"),("horizon per point","HorizonManager::evaluateHorizon")],
 [("neighborhood list","per owned point: count followed by neighbor ids","Discretization::getNeighborhoodData")],[OUT+": Number_Of_Neighbors and Neighborhood_Volume"])
prop("C02","Bond filters remove exactly the bonds that cross them, from both ends",
 "A bond of a text-file mesh is absent if and only if it is cut by one of the requested rectangular planes or disks, or it joins points of different blocks while bonds between blocks are omitted; every other bond is present. Removal is symmetric for equal horizons and does not depend on the order of filters or on the number of MPI ranks.",
 ["inputs","configurations"],"all point clouds x filter placements (cutting, touching, missing, parallel, bounded on every side) x block-omission setting x ranks",
 "Unit tests place one plane through one cube; they do not enumerate bounded planes missed on each of four sides, disks, skewed planes, several filters together, or non-contiguous block numbers.",
 ["src/io/pdneigh/BondFilter.cxx","src/io/discretization/Peridigm_Discretization.cpp","src/io/discretization/Peridigm_TextFileDiscretization.cpp"],
 [("FinitePlane / Disk intersection tests","BondFilter::FinitePlane, BondFilter::Disk"),("omit bonds between blocks","TextFileDiscretization::filterBonds")],
 observe=[OUT+": Number_Of_Neighbors and Neighborhood_Volume"])
prop("C03","A tensor-product grid yields the specified points, volumes and families",
 "A tensor-product grid generates nx*ny*nz points at the cell centres, numbered x fastest, each with the cell volume, and each point's family is exactly the other grid points closer than the horizon (spherical neighborhoods), or, by default, the block of cells within the rounded number of cells the horizon spans. The same points, ids, volumes and families result for every number of MPI ranks.",
 ["inputs","configurations"],"all origins, lengths, cell counts (including 1 in a direction and fewer cells than ranks), horizons, ranks",
 "Fixed small grids are compared on 1, 2 and 4 ranks; uneven cell counts, anisotropic spacing, horizons larger than the body and rank counts that do not divide the grid are not reached.",
 ["src/io/mesh_input/quick_grid/QuickGrid.cxx","src/io/discretization/Peridigm_PdQuickGridDiscretization.cpp"],
 [("per-processor cell iteration and ghost cells","TensorProduct3DMeshGenerator"),("load balance","PDNEIGH / Zoltan RCB")],observe=[OUT])
prop("C04","Simulation results do not depend on the number of MPI ranks",
 "For every input deck the same points, ids, output times and field values (up to floating-point round-off) are written whatever the number of MPI ranks, and every point appears in exactly one rank's file. This includes runs with damage, contact with periodic re-search, several blocks, and ranks that own few or no points of a block.",
 ["configurations","schedules","histories"],"all decks x number of ranks x distribution of points over ranks x contact rebalance times",
 "Regression tests compare each example with one gold file at one or two rank counts and need tools absent here; unit tests do not run the coupled program at several rank counts.",
 ["src/core/Peridigm.cpp","src/core/Peridigm_Block.cpp","src/core/Peridigm_BlockBase.cpp","src/core/Peridigm_DataManager.cpp","src/core/Peridigm_ContactManager.cpp","src/io/Peridigm_OutputManager_ExodusII.cpp"],
 [("import/export between global vectors and blocks","Block::importData/exportData"),("overlap maps","Discretization"),("contact rebalance","ContactManager::rebalance")],observe=[OUT])
prop("C05","Explicit runs follow velocity Verlet at the requested times",
 "An explicit run performs floor((final-initial)/dt) steps of exactly dt (the fixed step, or the stable step, times the safety factor), and its displacement, velocity and current position histories are those of velocity Verlet for the applied initial displacement, initial velocity, force and density of each point. Current position always equals reference position plus displacement.",
 ["histories","inputs","configurations"],"all step counts, dt, start times, initial states, force histories, densities, block layouts and ranks",
 "No unit test runs the time loop; the coupled regression tests compare a few long runs against stored files and would accept a re-baselined error.",
 ["src/core/Peridigm.cpp"],[("velocity Verlet loop","Peridigm::executeExplicit"),("copy to output state","Peridigm::synchDataManagers")],
 [("u, v, y, a","global vectors","Peridigm")],[OUT])
prop("C06","Boundary and initial conditions act on exactly the named points and times",
 "An initial or boundary condition sets exactly the named component, at exactly the points of its node set (1-based list in the deck or in a file, whatever rank owns them), to the value of its expression at that point's reference coordinates and the current time, and leaves every other degree of freedom untouched; points with a prescribed displacement have that displacement at every step after the first. Several conditions on different points or components act together, a later condition overrides an earlier one on the same quantity, and the expression evaluated at one time never influences its value at another.",
 ["inputs","histories","configurations"],"all sets of conditions x node-set notations x expressions of x,y,z,t (also conditional ones) x steps x ranks",
 "Unit tests evaluate only a couple of constant conditions; conditional expressions, overlapping sets, time histories and rank-distributed node sets are not covered.",
 ["src/core/Peridigm_BoundaryAndInitialConditionManager.cpp","src/core/Peridigm_BoundaryCondition.cpp"],
 [("expression evaluation","BoundaryCondition::evaluateParser"),("node set parsing and culling","BoundaryAndInitialConditionManager::initializeNodeSets"),("increment conditions","DirichletIncrementBC::apply")],observe=[OUT])
prop("C07","A bond breaks exactly when it exceeds the critical stretch and never heals",
 "With a critical-stretch damage model a bond is broken from the first step at which its stretch (less the thermal strain of its point, if the damage model has an expansion coefficient) exceeds the critical value in force at that time, and stays broken for the rest of the run; a bond that never exceeded it is intact. The damage reported for a point is the fraction of its bonds that are broken, and blocks without a damage model keep all bonds intact.",
 ["histories","inputs","configurations"],"all motion histories (opening, closing, reversing) x critical values, constant or time-dependent x temperatures x blocks x ranks",
 "Unit tests evaluate the damage model once on a few bonds; irreversibility is a property of histories through the state swap, and of the per-step re-creation of the model.",
 ["src/damage/Peridigm_CriticalStretchDamageModel.cpp","src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp","src/core/Peridigm_ModelEvaluator.cpp","src/core/Peridigm_Block.cpp"],
 [("copy of step N bond damage, then break test","CriticalStretchDamageModel::computeDamage"),("state swap","Block::updateState")],
 [("Bond_Damage","one value per bond, N and NP1","DataManager")],[OUT+": Damage, Number_Of_Neighbors"])
prop("C08","Contact acts exactly between unbonded points closer than the contact radius",
 "With short-range contact, two points repel each other with the specified magnitude along the line between them if and only if they are not bonded to each other, were within the search radius at the last search, and are now closer than the contact radius; the two forces are equal and opposite when weighted by volume. A search takes place at the first step and at every multiple of the search frequency, and each search uses the positions of that time.",
 ["histories","inputs","configurations"],"all point motions x contact radius, search radius and frequency x blocks x ranks",
 "No unit test exercises the contact manager over time; whether a pair is acted upon depends on the history of searches and rebalances.",
 ["src/core/Peridigm_ContactManager.cpp","src/core/Peridigm_ContactBlock.cpp","src/contact/Peridigm_ShortRangeForceContactModel.cpp"],
 [("contact search and rebalance","ContactManager::rebalance"),("removal of bonded neighbors","ContactManager::contactSearch"),("force","ShortRangeForceContactModel::computeForce")],observe=[OUT+": Contact_Force_Density, Velocity, Displacement"])
prop("C09","Internal forces balance, vanish for rigid motion, and obey the material law",
 "For the elastic materials the internal force on each point equals the ordinary state-based (or bond-based) law evaluated over its intact bonds with its own block's moduli, influence function and temperature change; broken bonds contribute nothing. Volume-weighted internal forces of the whole body sum to zero, and they vanish for every rigid translation, whatever the blocks, families and ranks.",
 ["inputs","configurations","histories"],"all small clusters x deformations x moduli x broken-bond patterns x block interfaces x ranks",
 "Unit tests evaluate two- and eight-point cells in one block with a single horizon; interfaces, unsymmetric families, broken-bond patterns and the coupled scatter of reaction forces are not reached.",
 ["src/materials/elastic.cxx","src/materials/elastic_bond_based.cxx","src/materials/material_utilities.cxx","src/core/Peridigm_ModelEvaluator.cpp","src/core/Peridigm_InfluenceFunction.cpp"],
 [("pairwise force with reaction","MATERIAL_EVALUATION::computeInternalForceLinearElastic"),("weighted volume and dilatation","MATERIAL_EVALUATION::computeWeightedVolume/computeDilatation")],observe=[OUT+": Force_Density, Dilatation, Weighted_Volume"])
prop("C10","A restarted run continues exactly as the uninterrupted run would",
 "A run that writes restart files and a second run that reads them and continues produce, from the restart time on, the same output times and field values as one uninterrupted run, including velocities, forces, broken bonds and other state history, with both runs on the same number of ranks, whatever that number is. A restart is taken from the most recently written set of files; a set with a missing file, or a start time that does not match the saved time, is rejected.",
 ["crash_points","histories","configurations"],"all interruption times x models with and without history x ranks x number of successive restarts",
 "No unit test writes or reads a restart; equivalence quantifies over the interruption step.",
 ["src/core/Peridigm.cpp","src/core/Peridigm_Block.cpp","src/core/Peridigm_DataManager.cpp","src/core/Peridigm_State.cpp"],
 [("write/read global vectors and per-block state","Peridigm::writeRestart/readRestart"),("latest directory and naming","Peridigm::InitializeRestart/setRestartNames")],observe=[OUT,"restart-NNNNNN directories"])
prop("C11","Output files hold the requested fields at exactly the requested steps",
 "Each output request writes its own file containing exactly the requested fields at the initial state and at every frequency-th step within its first/last step window, stamped with the simulation time, with each value stored under the correct field name, block, point id and component. Several requests with different frequencies, windows and fields in one deck do not affect each other.",
 ["histories","configurations"],"all sets of output requests x frequencies and step windows x variables x blocks x ranks x step counts",
 "Unit tests cover only construction of the output manager; schedule arithmetic and multi-request interplay depend on run length and combination.",
 ["src/io/Peridigm_OutputManager_ExodusII.cpp","src/io/Peridigm_OutputManagerContainer.hpp"],
 [("write counter and window test","OutputManager_ExodusII::write"),("variable tables","OutputManager_ExodusII::initializeExodusDatabase")],observe=[OUT])
prop("C12","Quasi-static runs visit every load step and only accept converged states",
 "A quasi-static run reaches the requested load times in order, each once, and ends at the final time; if a step does not converge it is retried with halved increments inserted before it, within the stated limits on failures, otherwise the run ends with an error; if the deck asks for all remaining steps to be reduced, the rest of the run uses the reduced increment. At every accepted step prescribed displacements have their prescribed values and the remaining degrees of freedom are in equilibrium to the solver tolerance.",
 ["histories","configurations","inputs"],"all load-step specifications x boundary conditions x convergence failures x ranks",
 "Regression decks converge at first attempt; the retry path depends on which steps fail and how often.",
 ["src/core/Peridigm.cpp"],[("load step list and adaptive halving","Peridigm::executeQuasiStatic"),("line search","Peridigm::quasiStaticsLineSearch"),("residual with reactions zeroed","Peridigm::computeQuasiStaticResidual")],observe=[OUT,"standard output of the Peridigm executable"])
prop("C13","Two-step state: step N holds what step N+1 held before the last update",
 "In a data manager, data written to the new step of a field is returned unchanged until overwritten, becomes the old step after a state update, and never disturbs another field, another block or the other step; stateless fields survive updates. Copying locally owned data between managers or importing/exporting through overlap maps moves exactly the values of the matching global ids.",
 ["histories","configurations"],"all interleavings of write, read, update, import, export, copy over all field kinds (global, node, element, bond; scalar, vector, tensors; one- or two-step)",
 "Unit tests follow one fixed sequence on a few fields.",
 ["src/core/Peridigm_DataManager.cpp","src/core/Peridigm_State.cpp","src/core/Peridigm_BlockBase.cpp"],
 [("swap of the two states","DataManager::updateState"),("allocation by field kind","DataManager::allocateData"),("scatter/gather","DataManager::scatterToGhosts, BlockBase::importData/exportData")],observe=["DataManager API"])
prop("C14","The field registry gives one stable identity to each field name",
 "Requesting a field returns the same id for the same label and specification at any time, distinct ids for distinct labels, and an id that maps back to the same label and specification; a request that reuses a label (in any letter case) with a different specification is refused and leaves the registry unchanged.",
 ["histories"],"all sequences of field requests and look-ups",
 "The unit test makes a short fixed sequence of requests.",
 ["src/core/Peridigm_Field.cpp","src/core/Peridigm_Field.hpp"],[("lookup by label and specification","FieldManager::getFieldId")],observe=["FieldManager API"])
prop("C15","Redistributing points between ranks preserves every point and its data",
 "Load balancing and redistribution of points move each point, together with its id, coordinates, volume, family and field data for both steps, to exactly one rank, losing, duplicating and altering nothing; redistributing back restores the original arrangement.",
 ["configurations","schedules","histories"],"all initial distributions (including empty ranks) x target distributions x families x field kinds x ranks",
 "Unit tests move one fixed arrangement on 2 or 4 ranks.",
 ["src/io/Peridigm_ProximitySearch.cpp","src/io/pdneigh/PdZoltan.cxx","src/core/Peridigm_DataManager.cpp","src/core/Peridigm_ContactManager.cpp"],
 [("packing and unpacking","PDNEIGH::getLoadBalancedDiscretization"),("DataManager rebalance","DataManager::rebalance"),("neighbor list redistribution","ProximitySearch::RebalanceNeighborhoodList")],observe=["DataManager and ProximitySearch API","Peridigm executable on several ranks"])
prop("C16","Inconsistent input is rejected with an error instead of being simulated",
 "A deck that is incomplete or contradictory (unknown material, model, solver or output names, blocks that do not match the mesh, missing horizon, undefined node sets, malformed mesh or node-set data, non-finite boundary values, contradictory step lists) ends with a nonzero exit status and without a completed simulation, on every number of ranks and without hanging. A complete consistent deck is accepted with exit status zero.",
 ["inputs","fault_sequences","configurations"],"all single and combined defects of a deck x rank counts",
 "Unit tests check a handful of rejected parameters in isolation.",
 ["src/core/Peridigm.cpp","src/core/Peridigm_Main.cpp","src/core/Peridigm_Factory.cpp","src/core/Peridigm_HorizonManager.cpp","src/io/discretization/Peridigm_TextFileDiscretization.cpp","src/core/Peridigm_BoundaryAndInitialConditionManager.cpp"],
 [("validation","Peridigm constructor and factories"),("exit status","Peridigm_Main")],observe=["exit status and standard output"])
prop("C17","Computed output quantities equal their definitions over the whole body",
 "Kinetic energy, linear and angular momentum, block and node-set minimum/maximum/sum, nearest-point tracking, neighbor counts and neighborhood volumes written to the output equal their definitions over all points of all blocks on all ranks at that time, for values of any sign and for any distribution of points.",
 ["inputs","configurations","histories"],"all states of the body x blocks and node sets x signs x ranks",
 "Unit tests evaluate each quantity on one positive-valued state in one block.",
 ["src/compute/Peridigm_Compute_Block_Data.cpp","src/compute/Peridigm_Compute_Node_Set_Data.cpp","src/compute/Peridigm_Compute_Nearest_Point_Data.cpp","src/compute/Peridigm_Compute_Kinetic_Energy.cpp","src/compute/Peridigm_Compute_Linear_Momentum.cpp","src/compute/Peridigm_Compute_Angular_Momentum.cpp"],
 [("local reduction then global reduction","Compute_*::compute")],observe=[OUT])
prop("C18","The tangent stiffness is the derivative of the residual, row by row",
 "For every configuration the assembled tangent equals the derivative of the internal force with respect to each displacement component, with each entry in the row and column of its point and component on whichever rank owns it; rows and columns of prescribed components are decoupled from the rest.",
 ["inputs","configurations"],"all point clusters x deformations x prescribed sets x blocks x ranks",
 "Unit tests assemble small matrices with fixed indices; the mapping of entries over ranks is not enumerated.",
 ["src/core/Peridigm_SerialMatrix.cpp","src/core/Peridigm_ModelEvaluator.cpp","src/materials/Peridigm_Material.cpp","src/core/Peridigm_BoundaryAndInitialConditionManager.cpp"],
 [("local to global assembly","SerialMatrix::addValues"),("finite-difference Jacobian","Material::computeFiniteDifferenceJacobian")],observe=["SerialMatrix API","Newton convergence of quasi-static runs"])
prop("C19","Every block uses its own material, damage model and horizon",
 "Each mesh block is simulated with exactly the material, density, damage model and horizon assigned to it by name in the deck, the 'default' entry applying to all and only the blocks not named elsewhere, independent of the order of entries, of block numbering and of which rank holds the block. Points of different blocks within each other's horizon interact.",
 ["configurations","inputs"],"all partitions of a mesh into blocks x all assignment entries and orders x ranks",
 "Unit tests use one block; assignment by name over several blocks with defaults is not covered.",
 ["src/core/Peridigm.cpp","src/core/Peridigm_Block.cpp","src/core/Peridigm_HorizonManager.cpp"],
 [("block parameter expansion","Peridigm::initializeBlocks"),("horizon lookup","HorizonManager::loadHorizonInformationFromBlockParameters")],observe=[OUT])
prop("C20","The stable time step is the smallest bond-stability estimate over all points",
 "The reported stable time step is the minimum over all points of all blocks and ranks of sqrt(2*density / sum over the family of volume*c/bond length), with c = 18 K/(pi h^4) of the point's block, and it is the step used when no fixed step is given, scaled by the safety factor.",
 ["inputs","configurations"],"all point clouds x block properties x ranks",
 "The unit test checks one block of one lattice.",
 ["src/core/Peridigm_CriticalTimeStep.cpp","src/core/Peridigm.cpp"],[("per-block minimum, global minimum","ComputeCriticalTimeStep")],observe=["standard output","output time stamps"])
prop("C21","Several solvers in one deck run one after another on a continuing state",
 "When a deck lists several solvers, each is executed once, in order, starting from the state the previous one left, and the output of the sequence is one continuous history in which state variables, broken bonds and displacements carry over.",
 ["configurations","histories"],"all sequences of solvers x time windows x models",
 "No unit test runs more than one solver.",
 ["src/core/Peridigm.cpp"],[("solver list and dispatch","Peridigm::executeSolvers")],observe=[OUT])
prop("C22","No input makes the program read or write outside its own memory",
 "Whatever the deck, mesh and rank count, the program performs no out-of-bounds access, use of uninitialised data or leak that grows with the number of steps.",
 ["inputs"],"all inputs",
 "Tests only see faults that crash.",
 ["src/io/Peridigm_OutputManager_ExodusII.cpp"],[("fixed-size buffers","OutputManager_ExodusII")],observe=["sanitizers"])
prop("C23","Refining the mesh makes solutions converge to the peridynamic solution",
 "As grid spacing and time step go to zero, computed displacements converge to the solution of the peridynamic equations at the order of the scheme, for all supported materials including plasticity, viscoelasticity and correspondence models.",
 ["inputs"],"all smooth problems",
 "Convergence is a limit statement.",
 ["src/materials/elastic_plastic.cxx","src/materials/correspondence.cxx"],[("constitutive routines","src/materials")],observe=[OUT])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(p)+"\n" for p in P))
