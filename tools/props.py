#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand when the table changes; no check runs it)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from plan import CHECKS

# id, title, statement, over, quantifier text, why tests can't, files, mechanism[(name, where)], observe_at
P = []


def prop(i, title, st, over, q, why, files, mech, obs=(), state=()):
    assert len(title) <= 80, title
    P.append({"id": i, "title": title, "statement": " ".join(st.split()),
              "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": list(obs), "hook_needed": None}})


prop("P01", "Segment-segment and point-segment distances are the true minima",
     """For any two segments (and any point and segment) in space, including parallel, collinear, crossing, touching,
     zero-length and extremely unequal ones, the reported distance is the true minimum distance up to floating point
     rounding. The reported closest points lie on their own segments, realise the reported distance, and swapping the
     two segments swaps the points and keeps the distance.""",
     ["inputs"], "all finite segment pairs", "No test in the repository covers DCPQuery in isolation; the degenerate configurations (zero determinant, corner minimisers) are a measure-zero set that samples miss.",
     ["Collision/DCPQuery.hpp"], [("DCPQuery::operator()", "Collision/DCPQuery.hpp"), ("DistPointSeg", "Collision/DCPQuery.hpp")], ["return value, Ploc, Qloc, s, t"])
prop("P02", "LCP solvers return a solution of the stated LCP or an honest residual",
     """For a linear complementarity problem 0 <= x perpendicular to Ax+b >= 0 with symmetric positive semidefinite A,
     distributed over any number of ranks and from any initial guess, each solver (BBPGD, APGD, minimum-map Newton) ends
     within its iteration limit with finite, non-negative x (to the tolerance), and the residual BBPGD and APGD report is
     that of the x they return (mmNewton reports that of the iterate before its last step). When a solver reports a
     residual below the tolerance, x satisfies the complementarity conditions to that tolerance; on well-conditioned
     problems BBPGD and APGD always get there, mmNewton in all but a few (its line search may stall), and x agrees with
     the unique solution.""",
     ["inputs", "configurations"], "all SPD problems, guesses, tolerances, iteration limits and row distributions",
     "CPSolver_test solves one random matrix per run and prints residuals without asserting anything about the solution.",
     ["Collision/CPSolver.cpp", "Collision/CPSolver.hpp"], [("CPSolver::LCP_BBPGD", "Collision/CPSolver.cpp"), ("CPSolver::LCP_APGD", "Collision/CPSolver.cpp"), ("CPSolver::LCP_mmNewton", "Collision/CPSolver.cpp"), ("CPSolver::checkResiduePhi", "Collision/CPSolver.cpp")], ["xsolRcp", "IteHistory"])
prop("P03", "Bound-constrained QP solvers return the constrained minimum",
     """For min 1/2 x'Ax + b'x with symmetric positive semidefinite A and elementwise bounds lb <= x <= ub (bounds may be
     infinite, equal, or of any magnitude), BBPGD and APGD end within the iteration limit with x inside the bounds, the
     reported residual is that of the returned x, and a reported convergence means the projected gradient vanishes to the
     tolerance. On strictly convex problems x agrees with the unique minimiser, for every distribution over ranks.""",
     ["inputs", "configurations"], "all SPD problems, bound boxes, guesses and row distributions",
     "BCQPSolver_test writes files for a Python script to compare; nothing is asserted and it is not among the running tests.",
     ["Constraint/BCQPSolver.cpp", "Constraint/BCQPSolver.hpp"], [("BCQPSolver::solveBBPGD", "Constraint/BCQPSolver.cpp"), ("BCQPSolver::solveAPGD", "Constraint/BCQPSolver.cpp"), ("BCQPSolver::boundProjection", "Constraint/BCQPSolver.cpp"), ("BCQPSolver::checkProjectionResidual", "Constraint/BCQPSolver.cpp")], ["xsolRcp", "IteHistory"])
prop("P04", "The constraint operator applies D'MD plus inverse stiffness",
     """For any set of unilateral and bilateral constraint blocks and any mobility, applying the constraint operator to any
     vector gives [D'MD + K^-1] x, with K^-1 = 1/kappa on bilateral rows and 0 on unilateral rows, for every alpha and
     beta, any number of columns, any distribution over ranks, and equal to assembling the product explicitly. The operator
     is symmetric and positive semidefinite, and its domain and range maps are the constraint map.""",
     ["inputs", "configurations"], "all block sets, mobilities and vectors", "No test applies ConstraintOperator.",
     ["Constraint/ConstraintOperator.cpp", "Constraint/ConstraintOperator.hpp", "Collision/CPSolver.cpp"], [("ConstraintOperator::apply", "Constraint/ConstraintOperator.cpp"), ("CPMatOp::apply", "Collision/CPSolver.hpp")], ["result multivector"])
prop("P05", "Constraint blocks are assembled and written back exactly once",
     """The collected constraint blocks of all threads and ranks appear exactly once in the global constraint vectors and
     in the D matrix: column j of D' holds, for each of the two particles of block j, the unit force along its normal and
     the torque posI x normI (posJ x normJ), one-sided blocks act on the first particle only, and delta0, the initial
     multiplier, stiffness and bilateral flag stand at the same index. Writing the solution back sets each block's
     multiplier from that same index, and the local stress sums are the sums over the blocks split by kind.""",
     ["inputs", "configurations"], "all numbers of threads, queues (also empty), ranks and block contents", "No test covers ConstraintCollector.",
     ["Constraint/ConstraintCollector.cpp", "Constraint/ConstraintCollector.hpp", "Constraint/ConstraintBlock.hpp"], [("ConstraintCollector::buildConstraintMatrixVector", "Constraint/ConstraintCollector.cpp"), ("ConstraintCollector::writeBackGamma", "Constraint/ConstraintCollector.cpp"), ("ConstraintCollector::sumLocalConstraintStress", "Constraint/ConstraintCollector.cpp")], ["DMatTransRcp, delta0Rcp, invKappaRcp, biFlagRcp, gammaGuessRcp", "ConstraintBlock::gamma, stress"])
prop("P06", "Resolved constraints satisfy non-penetration and the spring law",
     """For collected constraints, mobility, non-constraint velocity and time step, the constraint solver returns gamma
     with gamma >= 0 on unilateral constraints and, to the residual tolerance, complementarity between gamma and the
     predicted gap delta0 + dt*D'(v_nc + M D gamma); on bilateral constraints gamma = -kappa times the predicted
     separation change from rest. The reported unilateral and bilateral forces are D gamma split by kind, the reported
     velocities are M times these forces, and both solver choices agree.""",
     ["inputs", "configurations"], "all block sets, velocities, time steps, solver choices and distributions", "No test covers ConstraintSolver.",
     ["Constraint/ConstraintSolver.cpp", "Constraint/ConstraintSolver.hpp"], [("ConstraintSolver::setup", "Constraint/ConstraintSolver.cpp"), ("ConstraintSolver::solveConstraints", "Constraint/ConstraintSolver.cpp"), ("ConstraintSolver::writebackGamma", "Constraint/ConstraintSolver.cpp")], ["getForceUni/Bi, getVelocityUni/Bi, block gamma"])
prop("P07", "MPI exchange delivers every element exactly once, in order",
     """For any number of ranks, any list of destinations (including none) and any trivially copyable element type, the
     all-to-all exchange delivers to each rank exactly the elements addressed to it, unchanged, each labelled with the
     rank it came from, grouped by source rank and in the order they were given there. Nothing is lost, duplicated or
     misaddressed, leftovers in reused receive buffers do not survive, and the caller's element and destination lists stay
     paired.""",
     ["inputs", "configurations", "schedules"], "all rank counts, destination lists and payload types", "CommMPI_test is not compiled in this build and only prints.",
     ["MPI/CommMPI.hpp", "Util/SortUtil.hpp"], [("CommMPI::exchangeAllToAllV", "MPI/CommMPI.hpp"), ("createMPIStructType", "MPI/CommMPI.hpp")], ["sendData, sendDestRank, recvData, recvSrcRank after the call"])
prop("P08", "Sorting data with tags is a stable permutation ordered by tag",
     """For any vector of tags and any equally long vector of data, the tag/data sort leaves the tags in ascending order,
     keeps every tag with its own data element, and neither loses nor duplicates an element; sizes 0 and 1, duplicated
     and extreme tags included. Elements with equal tags keep their original relative order.""",
     ["inputs"], "all tag/data vectors", "SortUtil_test sorts one random vector.", ["Util/SortUtil.hpp"], [("sortDataWithTag", "Util/SortUtil.hpp")], ["vectors after the call"])
prop("P09", "The distributed directory returns the data registered under each id",
     """After any history of publishing (id, data) pairs from any ranks and building the index, looking up any list of ids
     from any rank (also repeated ids, ids owned by any rank, and empty lists) yields for each position exactly the data
     published under that id, in the order asked. The result is the same for every number of ranks and for a directory
     object reused after being refilled with different ids and data.""",
     ["inputs", "histories", "configurations"], "all id distributions, request lists and rebuild histories", "ZDD_test uses one fixed id layout on the available ranks.",
     ["Trilinos/ZDD.hpp"], [("ZDD::buildIndex", "Trilinos/ZDD.hpp"), ("ZDD::find", "Trilinos/ZDD.hpp")], ["dataToFind"])
prop("P10", "Mixed source-target pair interaction sees every pair within range once",
     """For any source and target particle sets (either may be empty on a rank or globally), search radii, domain boundary
     conditions and decomposition over ranks, the mixed pair interaction presents to each target every source within the
     search distance, including periodic images, exactly once, and stores each target's result in that target's slot. The
     result does not depend on the number of ranks or threads.""",
     ["inputs", "configurations", "schedules"], "all particle clouds, radii, boundary conditions, ranks, threads", "MixPairInteraction_test checks one uniform cloud in one periodic box.",
     ["MPI/MixPairInteraction.hpp", "FDPS/tree_for_force_impl.hpp"], [("MixPairInteraction::updateSystem/updateTree/computeForce", "MPI/MixPairInteraction.hpp")], ["getForce results"])
prop("P11", "Vector/operator utilities keep values, order and distribution",
     """Building a distributed vector or map from local data keeps each rank's values in its own contiguous block in rank
     order; inserting, dumping or combining vectors and matrices yields the mathematically stated result for every
     distribution, including ranks owning no element, and files written for them read back to the same values.""",
     ["inputs", "configurations"], "all local sizes and values on any number of ranks", "TpetraUtil_test and TMAP_test print, on one distribution.",
     ["Trilinos/TpetraUtil.cpp", "Trilinos/TpetraUtil.hpp"], [("getTMAPFromLocalSize, getTVFromVector, getTMAPFromTwoGlobalIndexOnLocal", "Trilinos/TpetraUtil.cpp"), ("dumpTV/dumpTCMAT", "Trilinos/TpetraUtil.cpp")], ["vectors, maps, dumped files"])
prop("P12", "Boundary projection returns the nearest boundary point and side",
     """For a spherical shell, a flat wall and a tube (any centre, axis or normal, size, inside or outside use), projecting
     any query point gives a point on the boundary at the true distance, and the delta vector joins the query and the
     projection: query minus projection on the allowed side, projection minus query on the forbidden side, so it always
     points into the allowed region. Points on the sphere centre or tube axis give a finite, valid nearest point.""",
     ["inputs"], "all boundary shapes and query points", "Boundary_test checks random points by the class's own consistency check.",
     ["Boundary/Boundary.cpp", "Boundary/Boundary.hpp"], [("SphereShell::project, Wall::project, Tube::project", "Boundary/Boundary.cpp"), ("check", "Boundary/Boundary.cpp")], ["project outputs"])
prop("P13", "Rigid-body update moves and rotates each particle as its velocity says",
     """One Euler step moves a particle's centre by velocity*dt and rotates its orientation by the rotation vector
     omega*dt exactly, keeps the orientation quaternion normalised for any angular velocity (zero, tiny or huge) over any
     number of steps, and leaves gid, size and flags unchanged. Random orientations are unit quaternions uniformly
     distributed, and the quaternion/rotation helpers agree with the matrix exponential.""",
     ["inputs", "histories"], "all velocities, step sizes and step counts", "No test exercises Sylinder::stepEuler or EquatnHelper.",
     ["Sylinder/Sylinder.cpp", "Util/EquatnHelper.hpp"], [("Sylinder::stepEuler", "Sylinder/Sylinder.cpp"), ("EquatnHelper::rotateEquatn", "Util/EquatnHelper.hpp")], ["pos, orientation"])
prop("P14", "Drag and mobility are positive, continuous and frame-covariant",
     """For every particle size the three drag coefficients are positive and finite, grow with size and linearly with
     viscosity, follow the slender-body formulae for rods and Stokes' for spheres. The mobility built from them is block
     diagonal, symmetric positive definite, covariant under rotation, with parallel mobility along the particle axis, and
     zero for immovable particles.""",
     ["inputs"], "all lengths, radii, viscosities, orientations", "No test checks drag coefficients or the mobility matrix.",
     ["Sylinder/Sylinder.cpp", "Sylinder/SylinderSystem.cpp"], [("Sylinder::calcDragCoeff", "Sylinder/Sylinder.cpp"), ("SylinderSystem::calcMobMatrix", "Sylinder/SylinderSystem.cpp")], ["drag coefficients", "getMobMatrix"])
prop("P15", "Every near pair gives exactly one collision constraint",
     """For any configuration of rods and spheres, box, periodicity and decomposition over ranks and threads, collision
     collection records exactly one unilateral block for every pair whose surfaces are closer than the collision buffer
     allows (each periodic image of the other particle counted as its own pair) and none for pairs farther apart. A pair is recorded once
     globally, not once per particle or rank.""",
     ["inputs", "configurations", "schedules"], "all configurations, size distributions, boxes, ranks, threads", "SylinderNear_test prints a count for one configuration on the ranks it is given.",
     ["Sylinder/SylinderNear.hpp", "Sylinder/SylinderSystem.cpp", "FDPS/tree_for_force_impl.hpp"], [("CalcSylinderNearForce::operator()", "Sylinder/SylinderNear.hpp"), ("SylinderNearEP::getRSearch", "Sylinder/SylinderNear.hpp"), ("SylinderSystem::collectPairCollision", "Sylinder/SylinderSystem.cpp")], ["constraint pool"])
prop("P16", "Each collision block states the pair's contact geometry and stress",
     """Each collision block carries the signed surface separation of its two particles, the multiplier guess
     max(0,-separation), opposite unit normals along the line joining the closest points (pointing from the other
     particle towards its own), the lever arms from each centre to its closest point, the laboratory positions, and the
     ids and global indices of exactly these two particles. Its stress is the virial of that contact force for rigid
     rods, symmetric under exchange of the particles.""",
     ["inputs"], "all rod/sphere pair configurations", "No test checks the contents of a block.",
     ["Sylinder/SylinderNear.hpp"], [("CalcSylinderNearForce::sp_sp/sp_sy/sy_sy collision", "Sylinder/SylinderNear.hpp"), ("CalcSylinderNearForce::collideStress", "Sylinder/SylinderNear.hpp")], ["constraint pool"])
prop("P17", "Every link gives exactly one bilateral spring with the right ends",
     """Each link in the link table gives exactly one bilateral block per step, on whichever rank the first particle
     lives, between the plus end of the first and the minus end of the second particle, using the periodic image of the
     second nearest to the first. Its separation is the end-to-end distance minus both radii and the link gap, with the
     configured stiffness; particles without links contribute none.""",
     ["inputs", "configurations", "histories"], "all link graphs, configurations, periodic boxes, ranks", "No test collects links.",
     ["Sylinder/SylinderSystem.cpp"], [("SylinderSystem::collectLinkBilateral", "Sylinder/SylinderSystem.cpp"), ("SylinderSystem::addNewLink", "Sylinder/SylinderSystem.cpp"), ("findPBCImage", "Util/GeoUtil.hpp")], ["constraint pool"])
prop("P18", "Every near or crossed boundary gives one-sided contact constraints",
     """For each configured boundary and each rod end (each centre for a sphere), a one-sided unilateral block is recorded
     whenever that end's surface overlaps the boundary or lies within the collision buffer of it (a gap below 2*sylinderColBuf
     times the cap radius), on either side, and none when it is farther inside. The separation is the signed distance of the centre of the end cap from the boundary
     minus the cap radius, and the normal points into the allowed region.""",
     ["inputs", "configurations"], "all boundaries, sizes, positions on both sides", "Test1_Confinement is a manual run; nothing checks the blocks.",
     ["Sylinder/SylinderSystem.cpp", "Boundary/Boundary.cpp"], [("SylinderSystem::collectBoundaryCollision", "Sylinder/SylinderSystem.cpp")], ["constraint pool"])
prop("P19", "Particles, ids and links are conserved through steps and insertions",
     """Through any sequence of steps, domain decompositions, particle exchanges and insertions on any number of ranks, the
     multiset of particles (id, group, size, immovability) is exactly the initial one plus those added; ids stay globally
     unique, every added particle gets a fresh id reported back to the rank that added it, and every rank holds the same
     complete link tables, forward and reverse. In periodic directions particles sit inside the box after each step is
     prepared, moved only by whole box lengths, and global indices number them contiguously.""",
     ["histories", "configurations", "schedules"], "all step/insert histories and rank counts", "The only system tests are manual runs on fixed inputs; the running tests never step a system.",
     ["Sylinder/SylinderSystem.cpp", "FDPS/particle_system.hpp"], [("SylinderSystem::prepareStep/exchangeSylinder/applyBoxBC", "Sylinder/SylinderSystem.cpp"), ("SylinderSystem::addNewSylinder/addNewLink", "Sylinder/SylinderSystem.cpp"), ("updateSylinderMap", "Sylinder/SylinderSystem.cpp")], ["getContainer, getLinkMap, getLinkReverseMap"])
prop("P20", "A converged step leaves no new overlap and no escape from confinement",
     """When the constraint solve of a step converges (the reported residual is below the tolerance), particles do not
     overlap (nor cross a boundary) after the step by more than the residual tolerance times the time step plus the
     curvature error of the step, provided they did not move farther than the collision buffer. Initially overlapping
     particles are separated likewise. Linked ends are then at the separation at which their spring carries the link's
     recorded force. Exempt: pairs whose centre lines cross (no normal) and nearly parallel rods (one contact each).""",
     ["histories", "inputs", "configurations"], "all configurations and driving velocities", "Nothing in the running tests advances a suspension and looks at overlaps.",
     ["Sylinder/SylinderSystem.cpp", "Constraint/ConstraintSolver.cpp", "Sylinder/SylinderNear.hpp"], [("SylinderSystem::resolveConstraints", "Sylinder/SylinderSystem.cpp"), ("ConstraintSolver::solveConstraints", "Constraint/ConstraintSolver.cpp")], ["particle positions before and after the step"])
prop("P21", "Each step adds velocities and forces correctly and honours fixed particles",
     """In each step the total velocity (force) of a particle is the sum of its non-Brownian, Brownian and constraint
     parts, the non-Brownian part is the prescribed velocity plus mobility times the prescribed force of that very
     particle, constraint velocities are mobility times constraint forces, and pair constraint forces and torques sum to
     zero over the system. Immovable particles do not respond to forces, a fixed system does not move, and in monolayer
     mode particles have no out-of-plane velocity and stay in the mid-plane.""",
     ["inputs", "histories", "configurations"], "all prescribed forces/velocities, flags and rank counts", "No running test steps a system.",
     ["Sylinder/SylinderSystem.cpp"], [("calcVelocityNonCon, sumForceVelocity, saveForceVelocityConstraints, stepEuler, prepareStep", "Sylinder/SylinderSystem.cpp")], ["Sylinder members after runStep"])
prop("P22", "Trajectories do not depend on the number of ranks and threads",
     """From the same initial data and prescribed forces, without Brownian motion, the state of each particle id after any
     number of steps is the same on any number of MPI ranks and OpenMP threads, up to the constraint tolerance (and to
     rounding when there is no contact). No schedule of threads or ranks changes which constraints are found.""",
     ["schedules", "configurations", "histories"], "all rank/thread counts and schedules", "The tests run on one rank and never compare runs.",
     ["Sylinder/SylinderSystem.cpp", "MPI/CommMPI.hpp", "Constraint/ConstraintCollector.cpp"], [("decomposition, exchange, collection, solve", "Sylinder/SylinderSystem.cpp")], ["per-id states of runs with different np/threads"])
prop("P23", "Written snapshots reproduce the system state",
     """Each snapshot contains every particle exactly once over all pieces, with its id, geometry, velocities and forces
     equal to those in memory when it was written (to the precision of the format), every link, and every constraint
     block with its values; the parallel headers list exactly the pieces and arrays that were written. Snapshots are
     written at the configured interval, numbered consecutively, in the folder the API reports.""",
     ["inputs", "histories", "configurations"], "all states, rank counts, snapshot intervals", "No test writes or reads a snapshot.",
     ["Sylinder/SylinderSystem.cpp", "Sylinder/Sylinder.hpp", "Constraint/ConstraintCollector.cpp", "Util/IOHelper.hpp"], [("SylinderSystem::writeResult", "Sylinder/SylinderSystem.cpp"), ("Sylinder::writeVTP/writePVTP", "Sylinder/Sylinder.hpp"), ("ConstraintCollector::writeVTP/writePVTP", "Constraint/ConstraintCollector.cpp")], ["files under ./result"])
prop("P24", "Restarting from a snapshot continues the same trajectory",
     """A system restarted from its last snapshot has the same particles (id, group, geometry, velocity, immovability),
     links, step count and snapshot number as the run that wrote it, and without Brownian motion its continuation agrees
     with the uninterrupted run to the precision of the snapshot. The restart may use a different number of ranks, and
     random numbers after a restart do not repeat those of the run before. Read without its Euler step, the system is the
     written state itself.""",
     ["crash_points", "histories", "configurations"], "every snapshot a run can be stopped after, any rank count", "No test restarts.",
     ["Sylinder/SylinderSystem.cpp"], [("SylinderSystem::reinitialize", "Sylinder/SylinderSystem.cpp"), ("writeTimeStepInfo, setInitialFromVTKFile, setLinkMapFromFile", "Sylinder/SylinderSystem.cpp")], ["restarted system state"])
prop("P25", "Configuration files are read as written",
     """Every documented key of the YAML run configuration sets exactly the parameter of that name, optional keys keep
     their documented defaults when absent, and the order of keys does not matter. A missing mandatory key or malformed
     value is reported as an error, never silently replaced, and boundaries are built in the order and with the
     parameters given.""",
     ["inputs", "configurations"], "all configuration files", "The tests never read a YAML file.",
     ["Sylinder/SylinderConfig.cpp", "Boundary/Boundary.cpp", "Util/Logger.hpp"], [("SylinderConfig::SylinderConfig", "Sylinder/SylinderConfig.cpp"), ("Boundary::initialize", "Boundary/Boundary.cpp")], ["SylinderConfig members"])
prop("P26", "Random streams are reproducible and independent per thread and rank",
     """For a given seed, rank count and thread count the random number pool produces the same numbers in every run; the
     streams of different threads and ranks never overlap or repeat one another. Uniform numbers lie in [0,1), and
     uniform, normal and log-normal draws follow their stated distributions, the log-normal one being exp of a normal
     variate with the given parameters mu and sigma.""",
     ["inputs", "configurations", "schedules"], "all seeds, rank and thread counts", "TRNG users are not compiled in this build.",
     ["Util/TRngPool.hpp"], [("TRngPool", "Util/TRngPool.hpp")], ["getU01, getN01, getLN"])
prop("P27", "Brownian velocities satisfy fluctuation-dissipation",
     """Brownian velocities have zero mean and covariance 2 kT M / dt with each particle's own mobility M (parallel,
     perpendicular and rotational parts, no cross-correlation), are independent between particles, threads, ranks and
     steps, vanish at zero temperature and for immovable particles, and stay in the plane in monolayer mode.""",
     ["inputs", "configurations", "schedules"], "all shapes, orientations, temperatures, time steps", "No test computes Brownian velocities.",
     ["Sylinder/SylinderSystem.cpp", "Util/TRngPool.hpp"], [("SylinderSystem::calcVelocityBrown", "Sylinder/SylinderSystem.cpp")], ["getVelocityBrown, sy.velBrown"])
prop("P28", "Binary array encoding for VTK files round-trips every value",
     """Encoding any byte string gives canonical base64 that decodes to the same bytes, for every length; data arrays
     written for VTK carry the true byte count and decode to exactly the values given, for all supported element types,
     any component count and empty arrays. Written XML files are well formed and their parallel headers declare the same
     arrays, types and component counts as the pieces.""",
     ["inputs"], "all byte strings and arrays", "No test covers Base64 or IOHelper.",
     ["Util/Base64.cpp", "Util/IOHelper.hpp"], [("B64Converter", "Util/Base64.cpp"), ("IOHelper::writeDataArrayBase64 and headers", "Util/IOHelper.hpp")], ["strings and files written"])
prop("P29", "Point distributions fill the requested domain without loss",
     """The point generators produce exactly the requested number of points (1, 2 or 4 fixed ones; (n+1)^3 random ones)
     inside the requested box, fills are reproducible from their seed, lie in the stated range and follow the uniform or
     log-normal distribution asked for, and shifting and scaling applies the stated affine map to every point.
     Distributing points from one rank over all ranks, collecting them on one or on all ranks and dumping them to a file
     keeps each point and its values exactly once and in order; the reported errors equal their definitions over the
     values of all ranks.""",
     ["inputs", "configurations"], "all counts, boxes, seeds and rank counts", "PointDistribution.cpp is compiled into no test.",
     ["Util/PointDistribution.cpp", "Util/PointDistribution.hpp"], [("fixedPoints, randomPoints, randomUniformFill, randomLogNormalFill, shiftAndScalePoints", "Util/PointDistribution.cpp"), ("distributePts, collectPts, collectPtsAll, dumpPoints, checkError", "Util/PointDistribution.cpp")], ["point vectors, files and printed errors"])
prop("P30", "Periodic image and random-geometry helpers are exact",
     """Wrapping any coordinate into a periodic box gives the image inside the half-open box at an integer number of box
     lengths; the image nearest a target is at most half a box away and differs by whole box lengths. Random points in
     and on spheres and circles lie where stated and are uniformly distributed.""",
     ["inputs"], "all coordinates, boxes and uniform variates", "GeoUtil_test is not compiled in this build and only prints.",
     ["Util/GeoUtil.hpp"], [("findPBCImage (both forms)", "Util/GeoUtil.hpp"), ("getRandPointOnSphere/InSphere/InCircle", "Util/GeoUtil.hpp")], ["outputs"])
prop("P31", "No memory error or undefined behaviour in any workload",
     """Running geometry queries, solvers, communication, full suspension steps, snapshot writing, restart, configuration
     and helper code on any valid input never reads or writes outside an object, uses freed memory, reads uninitialised
     memory into a result, divides integers by zero, or overflows a signed integer or conversion.""",
     ["inputs", "histories", "configurations"], "all valid inputs and histories", "The tests run without sanitizers on a handful of inputs.",
     ["Sylinder", "Constraint", "Collision", "Boundary", "MPI", "Trilinos", "Util", "FDPS"], [("all", "whole tree")], ["AddressSanitizer, UndefinedBehaviorSanitizer"])
prop("P32", "OpenMP parallel regions are free of data races",
     """With any number of threads and any schedule, no two threads access the same memory location without
     synchronisation, one of them writing, in neighbour search, constraint collection and assembly, sorting, mobility,
     Brownian and update loops; results do not depend on the interleaving.""",
     ["schedules"], "all thread counts and interleavings", "A race rarely changes the result of a short test run.",
     ["Sylinder", "Constraint", "MPI", "Util", "FDPS"], [("omp parallel regions", "whole tree")], ["ThreadSanitizer"])
prop("P33", "Reported diagnostics equal their definitions over all particles",
     """The bounding box is the smallest axis-aligned box holding both ends of every local (global) particle for any
     coordinates, also negative; the maximum id, total volume and volume fraction, polar and nematic order parameters
     and summed constraint stress equal their definitions over all particles of all ranks, whatever the distribution,
     including ranks with no particle.""",
     ["inputs", "configurations"], "all configurations and distributions", "No test calls these.",
     ["Sylinder/SylinderSystem.cpp", "Constraint/ConstraintCollector.cpp"], [("calcBoundingBox, getMaxGid, calcVolFrac, calcOrderParameter, calcConStress", "Sylinder/SylinderSystem.cpp")], ["return values and log records"])
prop("P35", "Initial configurations honour the position file or configuration",
     """Read from a position file, every particle line gives exactly one particle with the stated id, group, radius, ends
     and immovability, and every link line one link; other lines are ignored. Generated from the configuration there are
     exactly the requested number of particles with ids 0..N-1, the configured size (or the length distribution, below
     half the box), centres in the initial box (or its inscribed circle), and the requested orientation.""",
     ["inputs", "configurations"], "all position files and configurations", "No running test initialises a system.",
     ["Sylinder/SylinderSystem.cpp"], [("setInitialFromFile, setLinkMapFromFile, setInitialFromConfig, setInitialCircularCrossSection, getOrient", "Sylinder/SylinderSystem.cpp")], ["getContainer, getLinkMap after initialize"])
prop("P34", "Domain decomposition tiles the root domain and exchange conserves particles",
     """After every decomposition the domains of the ranks are disjoint and together cover the root domain, the same on every
     rank, for every number of particles including none and any distribution of them. After every exchange each particle
     exists exactly once over all ranks with its data unchanged, on the rank whose domain holds its (periodically wrapped)
     position.""",
     ["inputs", "histories", "configurations"], "all particle sets, rank grids and boundary conditions", "Tests use one fixed uniform set.",
     ["FDPS/domain_info.hpp", "FDPS/particle_system.hpp"], [("DomainInfo::decomposeDomainAll", "FDPS/domain_info.hpp"), ("ParticleSystem::exchangeParticle, adjustPositionIntoRootDomain", "FDPS/particle_system.hpp")], ["getPosDomain", "particles of all ranks"])
prop("P36", "Tree searches present every particle in range exactly once",
     """For every target, the gather, scatter and symmetric tree searches present each particle or periodic image within the
     search radius (its own, the other's, or the larger of both) exactly once to the interaction kernel, whatever the ranks,
     threads, leaf and group sizes, also when the interaction list is reused after small moves; results come back in the
     order of the particles. The long-range walk accounts for the mass of every particle exactly once.""",
     ["inputs", "schedules", "configurations"], "all particle sets, radii, rank counts, boundary conditions", "Tests compare one fixed uniform set.",
     ["FDPS/tree_for_force_impl.hpp", "FDPS/tree_walk.hpp", "FDPS/tree_for_force_utils2.hpp"], [("TreeForForce::calcForceAll", "FDPS/tree_for_force_impl_force.hpp"), ("FindScatterParticle, FindExchangeParticleDoubleWalk", "FDPS/tree_for_force_utils2.hpp"), ("MakeListUsingTree*", "FDPS/tree_walk.hpp")], ["interaction kernels", "TreeForForce::getForce"])

prop("P37", "Gauss-Legendre quadrature rules are the exact ones for every number of points",
     """For every number of points from 1 to 128, the nodes and weights handed out are those of the Gauss-Legendre rule on
     [-1, 1] to the precision of the type asked for, so that polynomials up to degree 2n-1 are integrated exactly; what the
     output vectors held before, and in which type they store numbers, makes no difference.""",
     ["inputs"], "every supported number of points, every floating point type", "No test uses the tables.",
     ["Util/Gauss_Legendre_Nodes_and_Weights.hpp"], [("Gauss_Legendre_Nodes_and_Weights", "Util/Gauss_Legendre_Nodes_and_Weights.hpp")], ["Gauss_Legendre_Nodes_and_Weights (return values)"])
prop("P38", "Command line arguments are read as given or refused",
     """Every option given on the command line, under its short or long name and in any order, gets exactly the value written
     there; one not given keeps its default; lists get all their words in order. A line with an unknown name, a missing
     value, a value that is no number of the type, or without a required option is refused, and nothing else is.""",
     ["inputs", "configurations"], "all declarations of options, all command lines", "No test parses a command line.",
     ["Util/cmdparser.hpp"], [("cli::Parser::run, get, set_optional, set_required", "Util/cmdparser.hpp")], ["Parser::run (result)", "Parser::get"])
prop("P39", "Particle files come back as they were written",
     """Particles written by the particle engine to one file or to one file per rank, as text or binary, with or without a
     header and whatever their bytes, are read back exactly once each, unchanged and in order: per rank from its own file,
     over all ranks together from a single file, whatever shares wrote it and also when there are none. Removing
     particles by index leaves exactly the others.""",
     ["inputs", "configurations", "histories"], "all particle sets, shares, formats, rank counts", "No test writes or reads particle files.",
     ["FDPS/particle_system.hpp"], [("ParticleSystem::readParticleImpl, writeParticleImpl, removeParticle", "FDPS/particle_system.hpp")], ["ParticleSystem::operator[]", "getNumberOfParticleLocal"])
prop("P40", "The particle engine's building blocks compute what they name",
     """Vectors, matrices and boxes give the algebraic sums, products, traces, determinants, distances, overlaps and unions of
     their arguments; a space-filling key names at each level the octant holding the point; the radix sort is a stable
     sort on any number of threads; growable arrays keep what was stored in them whatever the others sharing their memory
     pool do; collective reductions and exchanges return to every rank the value computed from all ranks.""",
     ["inputs", "schedules", "histories"], "all arguments, thread and rank counts, histories of array operations", "No test touches them directly.",
     ["FDPS/vector3.hpp", "FDPS/orthotope3.hpp", "FDPS/key.hpp", "FDPS/sort.hpp", "FDPS/reallocatable_array.hpp", "FDPS/memory_pool.hpp", "FDPS/ps_defs.hpp"],
     [("Vector3, Matrix2, MatrixSym3, Orthotope3", "FDPS/vector3.hpp"), ("MortonKey", "FDPS/key.hpp"), ("RadixSort::lsdSort", "FDPS/sort.hpp"), ("ReallocatableArray, MemoryPool", "FDPS/reallocatable_array.hpp"), ("Comm", "FDPS/ps_defs.hpp")], ["return values"])

NA = {}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in CHECKS and i not in NA:
            c = CHECKS[i]
            checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                           "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
        else:
            na.append({"property": i, "reason": NA.get(i, "check not built yet")})
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: every harness observes public API, written files or sanitizer reports. Fixes of genuine defects are separate fix: commits, listed in known_findings.json."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
    print(len(checks), "checks;", "not claimed:", [x["property"] for x in na])


main()
