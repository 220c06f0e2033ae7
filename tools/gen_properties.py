#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only to keep the long lines readable)."""
import json, os
M = "subpackages/mav_trajectory_generation/"
D = "src/dynamic_trajectory.cpp"
DH = "include/dynamic_trajectory_generator/dynamic_trajectory.hpp"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


prop("C01", "No waypoint request is ever lost or stalled",
     "Every request a client makes to the trajectory generator (set the waypoint list, append a waypoint, move a waypoint with or without regeneration) takes effect once the client keeps evaluating and generation goes idle, whatever thread it came from and whatever the background generation was doing at that moment; a set request is the only thing that discards requests made before it. A request made while a trajectory is being computed is not dropped but served by that or a later generation, and a request is never left pending for ever. When the generator reports that nothing is pending or being computed, every regenerating request made so far is in effect.",
     ["schedules"], "All interleavings of two client threads, the background worker and the trajectory computation, up to a deviation bound, with each request kind issued at each point of a generation in flight.",
     "The stable tests drive one schedule of one thread per run and check no outcome at all; losing a request needs an arrival inside a short window of the background generation.",
     [D, DH], [("pending-request lists and the regenerate flag", D + ": setWaypoints/appendWaypoint/modifyWaypoint, generateWaypointsForTheNextTrajectory, todoThreadLoop"), ("swap of a finished trajectory", D + ": checkTrajectoryGenerated")],
     ["getDynamicWaypoints()", "evaluateTrajectory()", "getGenerateNewTraj()"],
     [("pending requests", "set/append/move requests not yet consumed", DH)])

prop("C02", "Waypoint list follows the request history",
     "After any sequence of set, append and move requests and evaluations, the flown waypoint list reported by the generator equals what a simple list model predicts: a set replaces everything, an append adds at the end, a move changes the position of exactly the waypoints with that (non-empty) name, waypoints already passed are not flown again by a later regeneration, and requests are applied in the order made. Waypoints obtained from the generator may be handed back in a set or append and are flown like new ones. Moves of unknown names change nothing, and when every waypoint has been passed a move or an empty request leads to no new trajectory.",
     ["histories"], "All operation sequences up to a bounded depth over a small alphabet of requests, waits and time advances, run on the real generator under virtual time.",
     "The tests issue one or two fixed requests and never look at the waypoint list.",
     [D, DH, "src/dynamic_waypoint.cpp"], [("request consumption", D + ": generateWaypointsForTheNextTrajectory, filterPassedWaypoints, resetWaypointThroughDeque"), ("in-place modification", D + ": applyWaypointModification"), ("stitching", D + ": stitchActualTrajectoryWithNewWaypoints")],
     ["getDynamicWaypoints()"])

prop("C03", "No deadlock, hang, crash or use of destroyed state",
     "No interleaving of client calls with background generation deadlocks, hangs, aborts, throws out of a call or touches freed or destroyed memory; this includes several client threads evaluating and querying at once and destroying the generator at any moment, with requests pending or a trajectory being computed. Destruction always returns with all background activity ended.",
     ["schedules"], "All interleavings up to a deviation bound of harnesses with 1-3 client threads and 1-2 generators, including destruction at every scheduling point of a generation in flight.",
     "Tests run one thread, one schedule, and let the object live until everything has finished.",
     [D, DH, "include/dynamic_trajectory_generator/thread_safe_trajectory.hpp"], [("locking discipline", D), ("shutdown", DH + ": ~DynamicTrajectory"), ("future handling", D + ": checkTrajectoryGenerated, swapTrajectory")],
     ["return of every public call", "destructor"])

prop("C04", "Concurrent use is free of data races and of torn references",
     "Concurrent calls into one generator, the background generation, and several independent generators in one process never make conflicting unsynchronised memory accesses. A single evaluation that runs concurrently with moves of waypoints or with the arrival of a new trajectory returns position, velocity and acceleration that all belong to one and the same trajectory state.",
     ["schedules"], "All interleavings up to a deviation bound of client threads (evaluate, query, set, append, move, position update, speed change) and background activity; happens-before race detection on every execution.",
     "A free-running test only sees a race when it happens to hit it, and the tests use one client thread.",
     [D, DH, "include/dynamic_trajectory_generator/thread_safe_trajectory.hpp", M + "src/timing.cpp"], [("mutexes around shared state", DH), ("pointer hand-over of the trajectory", "include/dynamic_trajectory_generator/thread_safe_trajectory.hpp"), ("timer registry", M + "src/timing.cpp")],
     ["every memory access of the instrumented code", "evaluateTrajectory()"])

prop("C05", "A trajectory starts at rest, visits all waypoints in order, ends at rest",
     "For every vehicle position, waypoint list and speed, the generated reference starts at the vehicle position with zero velocity and acceleration, passes through each waypoint in list order at the time reported for that waypoint (after the reported time compensation), and comes to rest at the last waypoint at the reported end time. Waypoint times are strictly increasing and every velocity or acceleration constraint given with a waypoint is met there (at the last waypoint the rest takes precedence).",
     ["inputs", "configurations"], "All waypoint lists up to four waypoints from a position lattice (including collinear, reversing, vertical, near and far points), several speeds and vehicle positions, with and without velocity constraints.",
     "Tests fly one or two fixed paths and compare nothing with the waypoints.",
     [D, DH, M + "include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h"], [("first vertex from the vehicle position", D + ": appendDronePositionWaypoint"), ("end-of-path constraints", D + ": extractVerticesFromWaypoints"), ("waypoint times", D + ": computeTrajectory")],
     ["evaluateTrajectory()", "getDynamicWaypoints()", "getMaxTime()", "getTimeCompensation()"])

prop("C06", "Velocity and acceleration references are derivatives of the position one",
     "At every evaluation time the velocity and acceleration references equal the first and second time derivative of the position reference, and position, velocity and acceleration are continuous over the whole flight of one trajectory, until it ends. This holds across waypoints and, between requests, also after any number of waypoints have been moved without regeneration, apart from the small documented cut-off at the border of a move's influence.",
     ["inputs", "histories"], "Every trajectory of the input lattice, with every set of up to two waypoint moves, evaluated on a dense time grid against central differences of the reported positions.",
     "Tests never compare the three references with each other.",
     [D, "include/dynamic_trajectory_generator/utils/traj_modifiers.hpp", "src/dynamic_waypoint.cpp"], [("Gaussian bump and its derivatives", "include/dynamic_trajectory_generator/utils/traj_modifiers.hpp: GaussianModifier::operator()"), ("sum of trajectory and modifiers", D + ": evaluateModifiedTrajectory")],
     ["evaluateTrajectory()"])

prop("C07", "Replanning in flight does not make the reference jump",
     "When requests change the path while a trajectory is being flown, the reference position stays continuous across the switch to the new trajectory: the new path starts where the old reference is, with its velocity and acceleration, and the step at the switch is no longer than the distance covered in the evaluation interval plus the time-alignment step. Every remaining waypoint is still visited, in order, and the flight ends at rest at the last one, whenever the request arrives and however long the computation takes. (A move requested shortly before a waypoint bends the flown path in place first and may shift it, near the waypoint, by up to the size of the move.)",
     ["histories", "schedules"], "All arrival times of a request on a grid over the whole flight, for each request kind, several computation durations and several paths.",
     "Tests never compare consecutive references and cover one arrival time.",
     [D, DH], [("stitching from the current reference", D + ": stitchActualTrajectoryWithNewWaypoints"), ("time alignment", D + ": timeFittingWithVehiclePosition")],
     ["evaluateTrajectory()", "getDynamicWaypoints()"])

prop("C08", "Moving a waypoint without regeneration bends the path locally",
     "Moving a named waypoint without asking for regeneration shifts the flown path at that waypoint's unchanged time by exactly the displacement (so that it goes through the new position, unless the bends of other moved waypoints overlap there), by less and less away from it, not at all outside the influence window and by next to nothing at the moment of a request made well ahead. All waypoint times, the other waypoints' reported positions and the start and end of the flight stay, a move of a passed waypoint does not change the reference, successive moves add up (moves below 2 cm per axis wait until they add up to more), and no new trajectory is computed.",
     ["histories", "inputs"], "All sequences of up to three moves over a lattice of displacements, waypoints and request times (before, close to, at and after the waypoint).",
     "Tests apply modifications but do not check where the path goes.",
     [D, "src/dynamic_waypoint.cpp", "include/dynamic_trajectory_generator/utils/traj_modifiers.hpp"], [("modifier creation", "src/dynamic_waypoint.cpp: setCurrentPosition"), ("modifier window", "include/dynamic_trajectory_generator/utils/traj_modifiers.hpp")],
     ["evaluateTrajectory()", "getDynamicWaypoints()"])

prop("C09", "The configured speed governs the flown speed and duration",
     "The configured speed determines how fast a path is flown, for every waypoint list: the flight is neither substantially faster on average than the configured speed nor needlessly slow, the speed along it stays within a bounded factor of the configured one (the limits are soft), and where the legs are long enough to reach the speeds, doubling the speed shortens the flight. The speed in force when a trajectory is generated is the one that applies to it, a later change does not alter the trajectory being flown, and reading the speed back returns the last value set.",
     ["inputs", "configurations"], "The path lattice of C05 crossed with a lattice of speeds, with the speed changed before, during and after generation; maxima taken over a dense time grid.",
     "Tests do not measure speed or acceleration.",
     [D, M + "include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h"], [("magnitude constraints", D + ": computeTrajectory"), ("soft constraints", M + "include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h")],
     ["evaluateTrajectory()", "getMaxTime()", "getSpeed()"])

prop("C10", "Evaluation is total, finite, clamped and side-effect free where promised",
     "Evaluation at any time returns finite references: before the start it gives the start position, after the end it keeps giving the end position at rest, also when the last waypoint has been moved, and repeated evaluation at the same time in the same state gives the same answer. A position-only evaluation gives the same position as a full one, and an evaluation for plotting leaves all later references, waypoint lists, progress reports and regenerations as they would have been without it.",
     ["inputs", "histories"], "Every evaluation time of a grid reaching far outside the trajectory, at every phase of the generator's life, in every evaluation mode; every history up to a bound is run with and without interspersed plotting evaluations and the two are compared.",
     "Tests sample forward in time within the flight and compare nothing.",
     [D, DH], [("clamping", D + ": evaluateModifiedTrajectory"), ("plotting flag", D + ": evaluateTrajectory")],
     ["evaluateTrajectory()", "getNextTrajectoryWaypoints()"])

prop("C11", "Progress and status reports match the flight",
     "The remaining-waypoint list contains exactly the waypoints whose reported time lies after the time of the reference (the last evaluated time plus the reported time compensation), in order; the remaining count never counts internal stitching points at its head and never increases without a new request; the reported minimum and maximum time are those of the first and the last waypoint and waypoint times increase. The trajectory-changed flag is raised exactly when a new trajectory or a moved waypoint takes effect, reading it clears it, a request is reported as pending or being computed until it has taken effect, and the busy and pending indicators are false whenever the generator is idle.",
     ["histories"], "All sequences of requests, evaluations and status queries up to a bounded depth.",
     "Tests do not call the progress reports.",
     [D, DH], [("remaining waypoints", DH + ": getNextTrajectoryWaypoints, getRemainingWaypoints"), ("status flags", D + ": getWasTrajectoryRegenerated, getGenerateNewTraj")],
     ["getNextTrajectoryWaypoints()", "getRemainingWaypoints()", "getWasTrajectoryRegenerated()", "getComputingNewTrajectoryStatus()"])

prop("C12", "The linear optimiser meets every constraint and is optimal",
     "For every combination of position and derivative constraints on the vertices and every choice of positive segment times, the linear solution satisfies all given constraints exactly, is continuous up to half the number of coefficients at interior vertices, and minimises the squared integral of the chosen derivative among all such polynomials. The reported cost equals that integral, and reading back or re-setting the free parameters is consistent with the trajectory. (All up to numerical resolution; optimality for eight and more coefficients is claimed for segment times from 0.4 s.)",
     ["inputs", "configurations"], "All subsets of derivative constraints per vertex for up to three segments, several dimensions, polynomial sizes, optimised derivatives and segment-time ratios.",
     "The existing optimisation tests are not part of the stable suite and sample random vertices.",
     [M + "include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h", M + "include/mav_trajectory_generation/polynomial_optimization_linear.h"], [("constraint reordering", M + "include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h: setupConstraintReorderingMatrix"), ("solve", M + "include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h: solveLinear, updateSegmentsFromCompactConstraints"), ("cost matrix", M + "include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h: computeQuadraticCostJacobian, computeCost")],
     ["getTrajectory()", "computeCost()", "getFreeConstraints()"])

prop("C13", "The nonlinear optimiser keeps constraints and never worsens the result",
     "Whatever time-allocation strategy and limits are used, the optimised trajectory still satisfies every vertex constraint exactly, is continuous at interior vertices, and has positive segment times not below the minimum. With soft or no limits its total cost is not worse than that of its starting point, whatever the optimiser returns; with hard limits on the times alone a feasible start stays feasible (within the configured tolerance) and does not get worse on success; the time-scaling method ends within its limits (solvable segment times, nothing but positions and rest prescribed). Free derivatives at vertices do not exceed a limit on them, or their starting value. The reported cost parts, maxima, stopping reason and total are those of the trajectory handed out, and the same problem gives the same answer.",
     ["inputs", "configurations"], "All time-allocation strategies crossed with soft/hard constraints, penalties, limit values, and a lattice of vertex lists.",
     "Only one configuration is exercised indirectly by the stable tests, without checking its result.",
     [M + "include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h", M + "include/mav_trajectory_generation/polynomial_optimization_nonlinear.h"], [("objective functions", M + "include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h: objectiveFunctionTime, objectiveFunctionTimeAndConstraints"), ("bounds", M + "include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h: setFreeEndpointDerivativeHardConstraints, optimizeTime*"), ("Mellinger outer loop", M + "include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h: optimizeTimeMellingerOuterLoop, scaleSegmentTimesWithViolation")],
     ["optimize()", "getTrajectory()", "getOptimizationInfo()"])

prop("C14", "Polynomial algebra is exact",
     "Coefficients, evaluation at any derivative, sums, products, scalar products, time scaling, offsetting and padding of polynomials agree with exact integer arithmetic for every small integer polynomial, for every supported number of coefficients. The time-basis coefficients and both convolution implementations agree with the definition as well.",
     ["inputs"], "All polynomials with coefficients from a small integer set for each number of coefficients, all derivatives, all small integer times and scales; exact oracle in integers.",
     "No stable test exercises the polynomial class on its own.",
     [M + "include/mav_trajectory_generation/polynomial.h", M + "src/polynomial.cpp", M + "include/mav_trajectory_generation/convolution.h"], [("base coefficients", M + "src/polynomial.cpp: computeBaseCoefficients"), ("Horner evaluation", M + "include/mav_trajectory_generation/polynomial.h: evaluate")],
     ["Polynomial's public methods"])

prop("C15", "Extremum search bounds every value on the interval",
     "For every polynomial, segment and trajectory the reported minimum and maximum (of a derivative, or of the magnitude over chosen dimensions) are attained at the reported time and segment inside the interval and bound every value on it. All real and complex roots reported by the root finder are roots and none is missing, to an accuracy limited by their multiplicity; end points are always considered.",
     ["inputs"], "All polynomials from products of small-integer-root factors (simple, multiple, complex, at the interval ends, leading/trailing zeros), all coefficient lattices up to a degree, and splines between lattice states from 0.05 s to 20 s, on several intervals, for every derivative and dimension subset.",
     "Root finding is only reached through one fixed optimisation in the stable tests.",
     [M + "src/polynomial.cpp", M + "src/segment.cpp", M + "src/trajectory.cpp", M + "src/rpoly/rpoly_ak1.cpp"], [("root finder", M + "src/rpoly/rpoly_ak1.cpp: findRootsJenkinsTraub"), ("candidate selection", M + "src/polynomial.cpp: selectMinMaxCandidatesFromRoots"), ("magnitude extrema", M + "src/segment.cpp: computeMinMaxMagnitudeCandidateTimes")],
     ["computeMinMax()", "computeMinMaxMagnitude()", "computeMaxVelocityAndAcceleration()", "getRoots()"])

prop("C16", "Trajectory transformations preserve the motion they promise to preserve",
     "Evaluating a trajectory picks the right segment at every time including all boundaries; extracting or appending a dimension, concatenating, offsetting, scaling time, scaling to meet limits, and reading vertices give exactly the positions and derivatives the operation promises, with consistent total time. Scaling to meet limits only lengthens the flight, meets the limits when it reports success and keeps the geometric path. Trajectories that compare equal describe the same motion and a copy compares equal.",
     ["inputs", "programs"], "All trajectories from a lattice of segment counts, times and coefficients, all operations and all pairs of operations, compared pointwise with a direct evaluation oracle.",
     "No stable test covers these operations.",
     [M + "src/trajectory.cpp", M + "src/segment.cpp"], [("segment lookup", M + "src/trajectory.cpp: evaluate"), ("transformations", M + "src/trajectory.cpp: getTrajectoryWithSingleDimension, getTrajectoryWithAppendedDimension, addTrajectories, offsetTrajectory, scaleSegmentTimes, scaleSegmentTimesToMeetConstraints, getVertices")],
     ["Trajectory's and Segment's public methods"])

prop("C17", "Sampling returns exactly the requested samples",
     "Sampling a trajectory over a range returns samples at start, start + dt, start + 2 dt, ... up to the end of the range (the end itself within rounding), each with the trajectory's exact values at its own reported time, independent of where segment boundaries fall, and never a sample outside the range. Sampling at a time, over a range, by start and duration and over the whole trajectory agree with each other; requests outside the trajectory are refused; yaw and rotation-vector dimensions become the corresponding orientation, rates and accelerations. Time stamps are within a nanosecond.",
     ["inputs"], "All ranges and sampling intervals from a lattice aligned and unaligned with segment boundaries, for 3-, 4- and 6-dimensional trajectories.",
     "No stable test samples through these functions.",
     [M + "src/trajectory_sampling.cpp", M + "src/trajectory.cpp"], [("range evaluation", M + "src/trajectory.cpp: evaluateRange"), ("flat state sampling", M + "src/trajectory_sampling.cpp: sampleTrajectoryInRange, sampleFlatStateAtTime")],
     ["evaluateRange()", "sample*()"])

prop("C18", "Trajectory files round-trip and damaged files are rejected",
     "A trajectory written to a file or to YAML and read back is the same trajectory (exact coefficients, times to the nanosecond). A file that is missing, cut off at any byte, or structurally malformed is reported as a failure or yields only intact leading segments, and never crashes, throws or yields wrong segments; sampled-state files have one row per sample with the sampled values.",
     ["inputs", "crash_points", "fault_sequences"], "All trajectories from a lattice round-tripped; every truncation point of written files and every single structural mutation of the document tree, through every reading function.",
     "No stable test reads or writes files.",
     [M + "src/io.cpp", M + "include/mav_trajectory_generation/io.h"], [("YAML writers and readers", M + "src/io.cpp"), ("file wrappers", M + "include/mav_trajectory_generation/io.h: trajectoryFromFile")],
     ["*ToYaml/*FromYaml", "*ToFile/*FromFile"])

prop("C19", "Segment time estimates are positive, monotone and consistent",
     "Every segment-time estimate gives one finite, positive time per segment, depending only on that segment's end points and constraints; it does not decrease with longer distance, does not increase with a higher acceleration limit, and never undercuts flying the segment at the speed limit. The trapezoidal estimate is the exact rest-to-rest time of a trapezoidal speed profile, multiplied by the requested factor, and does not increase with higher speed; the default estimate does not either for vertices passed in motion or legs long enough to reach the speed, and is at least 0.1 s.",
     ["inputs"], "All vertex lists up to four vertices from a position lattice, crossed with speed, acceleration and constraint lattices.",
     "Stable tests reach one estimate for one path and do not check it.",
     [M + "src/vertex.cpp"], [("estimates", M + "src/vertex.cpp: estimateSegmentTimesNfabian, estimateSegmentTimesVelocityRamp, computeTimeVelocityRamp")],
     ["estimateSegmentTimes*()"])

prop("C20", "Vertex constraint bookkeeping follows a map",
     "A vertex behaves as a map from derivative order to a constraint vector of its dimension: adding replaces, removing removes exactly that entry, queries report exactly what is stored, sub-dimension extraction and equality with tolerance follow from the stored entries. Helper generators produce the promised number of vertices, constrained at the ends and inside the given bounds, and are reproducible for equal seeds.",
     ["programs", "inputs"], "All sequences of vertex operations up to a bounded depth compared with a reference map after each step.",
     "Stable tests only add position constraints.",
     [M + "src/vertex.cpp", M + "include/mav_trajectory_generation/vertex.h", M + "src/motion_defines.cpp"], [("constraint map", M + "src/vertex.cpp"), ("generators", M + "src/vertex.cpp: createRandomVertices, createSquareVertices")],
     ["Vertex's public methods"])

prop("C21", "Rotation utilities agree with rotation algebra",
     "Conversions between rotation vectors, matrices, quaternions and yaw are mutually consistent over the whole range of angles including zero, small angles (up to the accuracy of the small-angle approximation) and angles at and beyond a half turn, and angular velocity and acceleration derived from rotation-vector derivatives equal the motion of the resulting rotation matrix. Yaw and rotor-independent fields of trajectory points survive conversion and setting yaw changes nothing else.",
     ["inputs"], "A lattice of axes and angles (including 0, tiny, pi, beyond pi) and rates; matrix-exponential and finite-difference oracle.",
     "No stable test covers them.",
     [M + "include/mav_msgs/common.hpp", M + "include/mav_msgs/eigen_mav_msgs.hpp"], [("rotation vector maps", M + "include/mav_msgs/common.hpp"), ("trajectory point", M + "include/mav_msgs/eigen_mav_msgs.hpp")],
     ["mav_msgs functions"])

prop("C22", "Timing statistics equal those of the recorded samples",
     "For every sequence of timed samples the registry reports the exact number, sum, mean, minimum and maximum of the samples and the mean and variance of the most recent window (once there is a sample), separately per tag; handles and tags map one to one and stay stable. A timer that is started, stopped, or goes out of scope adds exactly one sample per completed interval.",
     ["programs"], "All sequences of samples from a small value set up to a depth (and past the window length), and all operation sequences of two timers on two tags under a virtual clock.",
     "No test reads the statistics.",
     [M + "include/mav_trajectory_generation/timing.h", M + "src/timing.cpp"], [("accumulator", M + "include/mav_trajectory_generation/timing.h: Accumulator"), ("registry", M + "src/timing.cpp")],
     ["Timing's static methods", "Accumulator's methods"])

prop("C23", "A waypoint is a value: copies behave identically",
     "A waypoint and any copy of it report the same data and respond identically to every further operation; moving it makes its path correction peak at the waypoint's time with the sum of the requested displacements (moves below 2 cm per axis wait until they add up to more), resetting removes all corrections and leaves the final position as its constraint, and changing its time shifts all corrections with it. Its vertex always carries the current position and all other constraints given to it.",
     ["programs"], "All sequences of waypoint operations up to a bounded depth, with a copy taken at every point and both compared with each other and with a reference model after each step.",
     "Stable tests do not examine waypoints.",
     ["src/dynamic_waypoint.cpp", "include/dynamic_trajectory_generator/dynamic_waypoint.hpp", "include/dynamic_trajectory_generator/utils/traj_modifiers.hpp"], [("copying", "src/dynamic_waypoint.cpp: copy constructor"), ("moves and resets", "src/dynamic_waypoint.cpp: setCurrentPosition; include/dynamic_trajectory_generator/dynamic_waypoint.hpp: resetWaypoint")],
     ["DynamicWaypoint's public methods"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
