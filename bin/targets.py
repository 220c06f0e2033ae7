"""What is built and run for each property."""
TARGETS = {}
CHECKS = {}


def target(name, src, flavour, dyn=False, mcrt=False, extra=(), args=()):
    TARGETS[name] = {"src": [src] if isinstance(src, str) else list(src), "flavour": flavour, "dyn": dyn, "mcrt": mcrt, "extra": list(extra), "args": list(args)}


def check(prop, targets, rule, bounds, technique, note):
    """targets: (name, quick budget s, thorough budget s)"""
    CHECKS[prop] = {"targets": targets, "rule": rule, "bounds": bounds, "technique": technique, "note": note}


ENUM = "exhaustive enumeration of a bounded input and operation-sequence space on the real code against a reference model"
SCHED = "stateless model checking: delay-bounded exhaustive exploration of thread schedules of the real code under a controlled scheduler with virtual time"
HIST = "stateless model checking: exhaustive enumeration of request histories on the real generator under a controlled scheduler with virtual time"
TRUST_ENUM = "Complete within the stated alphabet and bounds; nothing is sampled. Trusts the reference arithmetic in harness/ and the compiler. "

target("c14", "c14.cpp", "asan")
check("C14", [("c14", 0, 0)],
      "one case = one polynomial (or one operation sequence) with all derivatives, times and partners; trivial = the zero polynomial",
      "1..22 coefficients; all integer coefficient vectors over {-2..3} up to 4 coefficients, with a bounded number of non-zero entries above; 11 dyadic times; all operation sequences of length 4 (quick) / 6 (thorough)",
      ENUM, TRUST_ENUM + "Values outside the alphabet are not claimed.")

target("c15", "c15.cpp", "asan")
check("C15", [("c15", 0, 0)],
      "one case = one polynomial, segment or trajectory with all its intervals, derivatives and dimension subsets; trivial = constant motion",
      "polynomials built from products of small-root factors (simple, multiple, complex, at the interval ends) and coefficient lattices; segments and trajectories of 1..3 dimensions and 1..3 segments, and of 5, 9 and 18 segments with the extremum in any of them",
      ENUM, TRUST_ENUM + "Accuracy of roots is claimed only up to the limit set by their multiplicity.")

target("c16", "c16.cpp", "asan")
check("C16", [("c16", 0, 0)],
      "one case = one trajectory (or pair) with one operation or pair of operations and a grid of times; trivial = constant motion",
      "trajectories of 1..3 segments, 1..4 dimensions, 2..12 coefficients from a lattice of times and coefficients; all operations and pairs of operations; trajectories of 5..34 (thorough: ..70) segments; 3..17 trajectories joined at once",
      ENUM, TRUST_ENUM)

target("c17", "c17.cpp", "asan")
check("C17", [("c17", 0, 0)],
      "one case = one trajectory with all ranges and sampling intervals; trivial = an empty range",
      "ranges and sampling intervals from a lattice aligned, unaligned and nearly aligned with segment boundaries; 1-, 3-, 4- and 6-dimensional trajectories, of up to 12 (thorough: 33) segments and 100 (thorough: 1000) s",
      ENUM, TRUST_ENUM)

target("c19", "c19.cpp", "asan")
check("C19", [("c19", 0, 0)],
      "one case = one vertex list with all end constraints and limits; trivial = coinciding points",
      "vertex lists of 2..4 points from a lattice with distances 0..10^4, all combinations of end constraints, limit lattices, time factors; lists of 5..40 vertices against their pairs",
      ENUM, TRUST_ENUM)

target("c20", "c20.cpp", "asan")
check("C20", [("c20", 0, 0)],
      "one case = one operation sequence, state compared with a map after each step; trivial = the empty sequence",
      "all sequences of 11 operations up to depth 4 (quick) / 5 (thorough) in dimensions 1..3, one less in 4 and 7; all sub-dimensions, also into vertices that hold something else; all helper generator arguments of a lattice, up to 30 random and 100 square vertices",
      ENUM, TRUST_ENUM)

target("c21", "c21.cpp", "asan")
check("C21", [("c21", 0, 0)],
      "one case = one rotation (axis, angle, rates) with all conversions; trivial = the identity",
      "lattice of axes, angles (0, tiny, up to and beyond half turns) and rates",
      ENUM, TRUST_ENUM + "Small-angle approximations are accepted to their stated accuracy.")

target("c18", "c18.cpp", "asan")
check("C18", [("c18", 0, 0)],
      "one case = one trajectory round-tripped, one cut, one torn write, one damaged byte with all substitutes, or one mutated node with all replacements; trivial = none",
      "trajectories of 1..3 segments, 1..6 dimensions, 1..12 coefficients and special values, and of up to 34 (thorough: 101) segments and 11 dimensions; every truncation point and every torn-write point of small files, every single byte replaced by 25 substitutes, every node of the document tree with 33 mutations; files whose segments do not have the same size",
      ENUM, TRUST_ENUM + "Trusts yaml-cpp's parser and its notation of numbers.")

target("c22", "c22.cpp", "asan")
check("C22", [("c22", 0, 0)],
      "one case = one sequence of samples or of timer operations under a virtual clock; trivial = the empty sequence",
      "all sample sequences up to length 5 (quick) / 7 (thorough) for windows of 1..5 and past the window of 50, and 255..140000 (thorough: 1.1 million) samples; up to 150 tags; 400 tags registered after a reset with a timer running; all operation sequences of two timers up to depth 5 (quick) / 6 (thorough)",
      ENUM, TRUST_ENUM)

target("c23", "c23.cpp", "asan", dyn=True)
check("C23", [("c23", 0, 0)],
      "one case = one operation sequence with copies taken before every step; trivial = the empty sequence",
      "all sequences of 18 operations up to depth 3 (quick) / 4 (thorough), three ways of copying at every point; every pair of operations alternating 20 (thorough: 40, single ones up to 100) times",
      ENUM, TRUST_ENUM)

target("c12", "c12.cpp", "plain")
check("C12", [("c12", 0, 0)],
      "one case = one choice of constrained derivatives per vertex, segment times, dimension and optimised derivative; heavy cases add re-use of the solver object and every single free parameter; trivial = none",
      "2..12 coefficients, 1..3 segments, 1..4 dimensions; all subsets of constrained derivatives for one segment up to 10 coefficients (thorough: 12) and two segments up to 6 (thorough: 8), representative subsets beyond; 4, 5, 9 and 12 (thorough: up to 20) segments in six (thorough: twelve) patterns; optimality for 8 and more coefficients only for segment times from 0.4 s; one object used again for other problems and for time changes down to 1e-8 s",
      ENUM, TRUST_ENUM)

target("c13", "c13.cpp", "plain")
check("C13", [("c13", 0, 0)],
      "one case = one optimisation problem (vertex list, segment times, limits, method, algorithm, penalty, weights) solved, some twice and continued from the solution; trivial = none",
      "6, 8 and 10 coefficients, 1..3 and 5 and 9 (thorough: 4, 5, 7, 10) segments, 1..3 dimensions, eight vertex lists, five lists of times from 0.1 to 6 s, up to six sets of limits, all five time-allocation methods with BOBYQA, SBPLX, COBYLA (hard limits) and L-BFGS (Mellinger), 7..400 evaluations, one object used again for other problems; the time-scaling method with 8 and more coefficients only from 0.4 s per segment",
      ENUM, TRUST_ENUM)

TRUST_HIST = "Complete within the stated lattice of histories; nothing is sampled. Each history runs on the real generator with its real threads, optimiser and trajectory code; only time, sleeping and scheduling are virtual. "

target("c05", "c05.cpp", "fast", dyn=True, mcrt=True)
check("C05", [("c05", 300, 780)],
      "one case = one execution of a generation of one path (vehicle position, waypoints, constraints, speed) and of a second path from where the first ended; trivial = none",
      "lattice of waypoint lists with 1..3 waypoints (all pairs, thorough: all triples of nine steps incl. collinear, reversing, vertical, 0.4 m and 23 m), longer ones up to 6 with repeated steps, lists of 8, 11 and 18 (thorough: 7..25) waypoints, waypoints 0, 0.02, 0.1 or 0.25 m (thorough: nine distances) from the vehicle or from one another, a vehicle position that changes by ever smaller amounts, six constraint patterns, constraints kept through a replanning in flight, 4 (quick) / 7 (thorough) speeds, three vehicle positions",
      HIST, TRUST_HIST)

target("c06", "c06.cpp", "fast", dyn=True, mcrt=True)
check("C06", [("c06", 300, 780)],
      "one case = one path or one path with up to two (moves) requested in flight, position and velocity changes compared with the integrals of velocity and acceleration on a dense time grid; trivial = none",
      "the path lattice of C05 without moves; all single moves and all pairs of moves over a lattice of waypoints, displacements and request times (quick: every fifth pair); streams of 3 and 9 (thorough: 3..20) moves; streams and a stride of singles and pairs (thorough: all) also after one or two replannings",
      HIST, TRUST_HIST + "The influence of a move is cut off at 3.5 sigma, which is accepted up to its size there.")

target("c09", "c09.cpp", "fast", dyn=True, mcrt=True)
check("C09", [("c09", 300, 780)],
      "one case = one path flown at up to ten speeds, or one path with a speed change at a given stage; trivial = none",
      "the path lattice of C05 and lists of 8 and 13 (thorough: 7..25) waypoints crossed with ten speeds from 0.1 (paths without constraints) to 15 m/s; 8 (thorough: 24) paths with legs over 200 m at nine speeds from 0.3 to 32 m/s; speed changes before, during and after generation and before a replanning, over all ordered pairs of 4 (quick) / 7 (thorough) speeds and five pairs of nearly equal ones",
      HIST, TRUST_HIST + "The limits are soft constraints of the optimiser and saturate on some multi-leg paths: the factors checked are those the design attains (see DESIGN.md).")

target("c10", "c10.cpp", "fast", dyn=True, mcrt=True)
check("C10", [("c10", 300, 780)],
      "one case = one flight probed at every evaluation time of a grid in all its phases, or one request history flown with and without plotting evaluations from the same instant; trivial = none",
      "the path lattice of C05 (quick: the small one); evaluation times up to 1e9 s outside the trajectory, infinities, waypoint times and their neighbours; all non-empty choices of up to three (thorough: five) waypoints moved in place at two (thorough: four) moments; all histories of up to two requests (thorough: three, every seventh) of four kinds at four moments (quick: every fourth pair)",
      HIST, TRUST_HIST)

target("c07", "c07.cpp", "fast", dyn=True, mcrt=True)
check("C07", [("c07", 300, 780)],
      "one case = one flight of one path with one to nine requests (append, move, set, several moves) at given moments and one computation duration, every reference compared with the one before and the start of every stitched trajectory with the references before it; trivial = none",
      "4 (thorough: 5) paths, computations of 10/40/90/200 ms, request times on a grid of 1/24 (thorough: 1/96) of the flight and after its end, for every request kind and waypoint; pairs of requests with gaps from none to 0.3 of the flight; flights with six (thorough: nine) requests in pairs of kinds at three spacings; pairs in which the second request follows as soon as a query between two evaluations has brought in the new trajectory (computations of 40/200/400 ms); evaluation intervals 47 ms (thorough also 12 and 101 ms)",
      HIST, TRUST_HIST + "Moves requested within the security zone of a waypoint bend the old path in place first, which is allowed for up to the size of the move.")

target("c08", "c08.cpp", "fast", dyn=True, mcrt=True)
check("C08", [("c08", 300, 780)],
      "one case = one flight of one path with one to three moves without regeneration, the reference before and after each compared on a grid over the whole flight; trivial = none",
      "4 (thorough: 5) paths incl. repeated and empty names; all single moves over waypoints x request times (at once, 10..90 % of the way, passed) x displacements (incl. below 2 cm per axis); a fixed stride of all pairs (also issued together) and triples; streams of 9..36 (thorough: 5..130) moves in five patterns, one by one and eight at a time; also after one or two replannings",
      HIST, TRUST_HIST)

TRUST_SCHED = "Complete within the stated numbers of deviations (delay-bounded exploration); nothing is sampled. The real code runs with its real threads; scheduling, time and sleeping are virtual and sequentially consistent (weak memory orders are not explored; unsynchronised accesses are reported as races instead). "

target("c01", "c01.cpp", "fast", dyn=True, mcrt=True)
check("C01", [("c01", 300, 780)],
      "one case = one schedule of one to three client threads issuing requests while the reference is evaluated, judged by the set of waypoint lists the interleavings of the requests allow, or one burst of up to 34 requests; trivial = none",
      "five request kinds, alone, in sequence and from two clients at once, in five states of the generator (no trajectory, flying, computing, computed, security zone), computations of 20 and 60 ms; every single deviation from the default schedule at every lock, atomic, future, sleep and thread operation (another thread goes on, the clock jumps to the next timer, the thread is suspended for 130 ms); thorough: all combinations, two deviations for single requests in the flying state; with every waypoint passed, and requests that ask for nothing before the first trajectory; sequences also with 23 ms in between (sets that reuse names, suspension right after a mutex is released); long lists: 17 (thorough: 4..34) requests of twelve mixtures of kinds in flight or while computing (thorough: five moments), default schedule",
      SCHED, TRUST_SCHED)

target("c03", "c03.cpp", "fast", dyn=True, mcrt=True)
target("c03r", "c03.cpp", "race", dyn=True, mcrt=True, args=["race"])
check("C03", [("c03", 300, 560), ("c03r", 200, 200)],
      "one case = one schedule of destruction, of two or three concurrent client calls, or of an unusual request in some state; trivial = none",
      "seven states of the generator; destruction at 20 (thorough: 80) moments of each with one (thorough: up to two) deviations, also with tracking of every freed byte; all ordered pairs of 20 public operations (thorough: with one deviation, some with two), a third (thorough: all) of the triples; twelve unusual requests",
      SCHED, TRUST_SCHED)

target("c04", "c04.cpp", "race", dyn=True, mcrt=True)
target("c04t", "c04t.cpp", "fast", dyn=True, mcrt=True)
check("C04", [("c04", 300, 400), ("c04t", 200, 420)],
      "one case = one schedule of two concurrent calls, two generators or two timer users with every memory access checked for ordering, or of two evaluating threads while the path changes; trivial = none",
      "all ordered pairs of 20 public operations in six states, with the default schedule and (quick: evaluation against six others in three states; thorough: all) every single deviation; all pairs of five activities of two generators; all pairs of seven timer operations with one (thorough: two) deviations; evaluations while one of six changes arrives with one (thorough: for one time and duration two) deviations; two requests 23 ms apart while generation works, with single suspensions",
      SCHED, TRUST_SCHED + "Happens-before races are detected for every access of the instrumented repository code and its header libraries; nlopt's and glog's own internals are not instrumented.")

target("c02", "c02.cpp", "fast", dyn=True, mcrt=True)
check("C02", [("c02", 300, 780)],
      "one case = one history of one to nine (thorough: twelve) requests with none, one evaluation, all evaluations until idle, a flight past the next waypoint or up to its neighbourhood before each; trivial = none",
      "eleven request kinds (two sets, append, moves of the next or last waypoint with and without regeneration, move of several, moves of unknown names, handing back the remaining waypoints) and five gaps: all histories of one and two requests, every seventh (thorough: all) of three, pairs repeated to seven (thorough: ten) requests and triples to nine (thorough: twelve) in a fixed stride (thorough: all pairs), computations of 5/20/60/90/150 ms; lists with repeated and empty names and names that begin another: ten request kinds, three gaps, all histories of one and two requests (quick: a third of the gaps left out), a stride of three (thorough: all); long lists: 2..17 (thorough: 1..33) waypoints and 9..33 (thorough: 3..66) requests of twelve mixtures of kinds at three (thorough: five) moments",
      HIST, TRUST_HIST)

target("c11", "c02.cpp", "fast", dyn=True, mcrt=True, args=["status"])
check("C11", [("c11", 300, 780)],
      "one case = one history of one to nine (thorough: twelve) requests (as for C02) with every report compared at every evaluation of the flight to its end; trivial = none",
      "the histories of C02; every report after every evaluation at 12 or 47 ms",
      HIST, TRUST_HIST)
