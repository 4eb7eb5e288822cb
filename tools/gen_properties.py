#!/usr/bin/python3
"""Writes ../properties.jsonl. Kept as a script so that the statements stay readable and diffable."""
import json
import os

H = "include/arc_utilities/"
S = "src/arc_utilities/"
P = []


def p(id, title, statement, over, quant, why, files, mech, observe=(), state=()):
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(quant.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {"files": files, "mechanism": [{"name": m, "where": w} for m, w in mech],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "observe_at": list(observe), "hook_needed": None},
    })


p("P01", "Binary serialization round-trips, self-delimits and rejects truncation",
  """Serializing plain values, strings, vectors, vector-like containers, maps and pairs (host order and network order, nested in any
  way) appends exactly the reported number of bytes without touching earlier bytes, and deserializing at that
  position yields an equal value and reports exactly that number of bytes, whatever precedes or follows it in the
  buffer. Network-order encodings are big-endian. Deserializing from a buffer that has been cut short inside the value is refused (assertion in a
  debug build) and never returns a value or reads outside the buffer.""",
  ["inputs", "histories"],
  """all nestings of the supported containers up to size 3 over boundary element values, all sequences of up to 3 values
  sharing one buffer, every truncation point""",
  "The only serialization tests are a few ROS messages, which are not built here; nothing checks byte counts, composition in a shared buffer or truncation.",
  [H + "serialization.hpp"],
  [("size headers plus running position", H + "serialization.hpp"),
   ("bounds assertions before each read", H + "serialization.hpp")],
  ["Serialize*/Deserialize* return values", "buffer contents"])

p("P02", "Eigen serialization round-trips every supported type and shape",
  """For fixed vectors (3, 6 and 7 doubles), dynamic vectors and matrices of doubles, dynamic float matrices, 3-row dynamic double and float
  matrices and rigid transforms, serialization appends exactly the predicted and reported number of bytes, and
  deserialization at that offset returns a value with the same shape and bit-identical coefficients and reports the same number of
  bytes, for every shape including empty ones and whatever surrounds it in the buffer. A buffer cut short inside the value is refused.""",
  ["inputs"], "all shapes up to 4x4 (and selected larger ones), every element position distinct, all offsets and every truncation point",
  "No test serializes an Eigen value.",
  [H + "serialization_eigen.hpp"], [("row/column headers only for dynamic dimensions", H + "serialization_eigen.hpp")],
  ["SerializeEigen", "DeserializeEigen", "SerializedSizeEigen"])

p("P03", "Voxel grid behaves as an array of cells with default/out-of-bounds values",
  """After any sequence of reads, writes, whole-value replacements (also with a value the grid itself holds), reinitialisations, copies, serialization round-trips and failed loads, every in-bounds cell of a dense voxel grid holds the last value written to it (or the initial default value), every out-of-bounds read reports not-found together with the out-of-bounds value, and every out-of-bounds write fails and changes nothing. Loading a truncated buffer throws and leaves the grid as it was. Copies are independent of the original.""",
  ["histories", "inputs"], "all operation sequences up to depth 4 on all grid shapes up to 3x2x2 cells, with distinct cell sizes per axis, indices from -2 to size+1",
  "No test exercises the voxel grid.",
  [H + "voxel_grid.hpp"], [("index linearisation by strides", H + "voxel_grid.hpp"), ("bounds check before each access", H + "voxel_grid.hpp")],
  ["GetImmutable/GetMutable/SetValue results", "raw data"],
  [("data_", "cell contents", H + "voxel_grid.hpp"), ("stride1_/stride2_", "linear layout", H + "voxel_grid.hpp")])

p("P04", "Point and index addressing of voxel grids agree, for any origin pose",
  """A point is located in the cell whose half-open box (in the grid frame) contains it and in no cell if no box does, including points just outside the low faces; the reported centre of a cell is inside that cell and maps back to its index. Reading or writing by point (3D or 4D, world frame or grid frame) is the same as by that cell's index. This holds for any rigid origin transform and any cell sizes. A grid given by its lengths has the fewest cells along each axis that cover them.""",
  ["inputs"], "all lattice points at quarter-cell offsets from one cell below to one cell above the grid, for all grid shapes up to 3x2x2, several cell-size combinations and all 24 axis rotations with translations",
  "No test exercises the voxel grid, and the points just below the low faces are a measure-small set.",
  [H + "voxel_grid.hpp"], [("inverse origin transform and cell-size division", H + "voxel_grid.hpp")],
  ["PointToGridIndex", "GridIndexToLocation", "Get/Set by point"])

p("P05", "Dynamic hashed voxel grid equals a two-level map under any history",
  """After any sequence of cell writes, chunk writes, writes through references, default changes and copies, a lookup anywhere in space reports not-found for a never-touched chunk,
  found-in-chunk with the last whole-chunk value when the chunk was last set as a whole, and found-in-cell with the last value written to that cell
  when it is held per cell (cells not written since keep the chunk's previous value, or the default current when the chunk was created), whichever form of the call is used. Writing one
  cell never changes the value seen in any other cell, and neighbouring chunks meet without gap or overlap, including at negative coordinates and for sizes that are inexact in binary.
  A grid that was never initialised says so and refuses every read and write.""",
  ["histories", "inputs"], "all operation sequences up to depth 4 over points in four chunks (either side of the origin on one axis, plus an off-axis one)",
  "No test exercises this container; chunk-versus-cell state transitions only show over several operations.",
  [H + "dynamic_spatial_hashed_voxel_grid.hpp"], [("chunk map keyed by region base", H + "dynamic_spatial_hashed_voxel_grid.hpp"), ("lazy expansion from chunk-filled to cell-filled", H + "dynamic_spatial_hashed_voxel_grid.hpp")],
  ["GetImmutable/GetMutable", "SetCellValue/SetChunkValue"])

p("P06", "Graph construction keeps edges mirrored and values intact",
  """After any sequence of node and edge insertions, every inserted edge appears once, in insertion order, among its source's outgoing edges and once among its target's incoming edges with the same endpoints and weight; an insertion returns the node index or edge it made, node indices are consecutive and nodes keep their values. A rejected insertion (self-edge or out-of-range node) throws and changes nothing, and the linkage check accepts exactly the node sets in which every edge is in range, belongs to the node that holds it, is not a self-edge and has a counterpart at its other end. Serialization round-trips reproduce the graph exactly, and a printed graph names every edge of every node.""",
  ["histories", "inputs"], "all insertion sequences (node, directed edge, edge pair, rejected insertions, edge and value updates, round-trip) up to depth 4 on up to 4 nodes; all single-record corruptions of small graphs for the linkage check",
  "Tests build fixed graphs and inspect search results only.",
  [H + "graph.hpp"], [("paired insertion of out- and in-edge", H + "graph.hpp"), ("linkage check", H + "graph.hpp")],
  ["node and edge accessors", "linkage check result", "serialized bytes"])

p("P07", "Connected components are exactly the reachability classes",
  """For every graph whose edges all run in both directions, two nodes receive the same component number if and only if a path joins them.
  Every node receives a number, and the numbers used are exactly 1 up to the reported component count.""",
  ["inputs"], "every undirected graph on up to 6 nodes",
  "No test computes components; the failure depends on where isolated nodes sit relative to other components.",
  [H + "graph.hpp"], [("breadth-first marking with an early exit once all nodes are marked", H + "graph.hpp")],
  ["component numbers and count"])

p("P08", "Dijkstra distances and predecessor links are shortest paths",
  """For every directed graph with non-negative edge weights, whatever distances its nodes already hold, and every start node, the reported distance of each node is the minimum total weight over all directed paths from that node to the
  start node, and nodes that cannot reach it are reported as infinitely far with no link. Following the predecessor links from any other node leads to the start along existing edges whose weights sum to the
  reported distance. Saving and reloading the result reproduces it.""",
  ["inputs"], "every directed weighted graph on up to 4 nodes with weights from {0,1,2,5}, every start, including parallel edges and different insertion orders",
  "One fixed graph is tested; ties, zero weights, unreachable nodes and disconnected graphs are not.",
  [H + "dijkstras.hpp"], [("priority queue with relaxation on pop", H + "dijkstras.hpp")],
  ["previous-index map and distances"])

p("P09", "A* and lazy A* on graphs return optimal valid paths or report none",
  """For every graph with non-negative edge weights, every admissible heuristic and every set of unusable edges (marked invalid, of infinite weight, or refused by the validity callback), graph A*, lazy A* and generic A* (whatever numbers identify its nodes) return a minimum-cost path from start to goal over usable edges together with its cost, or report an infinite cost and no path if and only if the goal is unreachable; the duplicate-limiting option does not change the cost. The lazy variant asks for the cost only of validated edges, and every step of its path has been validated. A random walk that ends goes from start to goal along existing edges and repeats no node.""",
  ["inputs", "histories"], "every directed graph on up to 4 nodes with small weights, all sets of invalid edges, several admissible heuristics (zero, exact, inconsistent), all start/goal pairs",
  "Tests use one or two fixed grids with a consistent heuristic.",
  [H + "dijkstras.hpp"], [("best-first expansion, re-opening, lazy edge validation", H + "dijkstras.hpp")],
  ["returned path and cost", "sequence of edge validations"])

p("P10", "Generic A* planner is complete, and optimal for consistent heuristics",
  """On every finite search space with non-negative step costs, the planner returns a path that starts at the start state, ends at a goal state, repeats no state and uses only offered transitions, or no path if and only if no goal is reachable.
  With a heuristic that never decreases by more than the step cost and is zero at goals, the path has minimum total cost. No state is expanded twice and the reported explored count is the number of expanded states.""",
  ["inputs"], "all transition systems on up to 3 states, all goal sets, starts and small heuristics; five-state systems with late cheap routes; all 3x4 grids with blocked cells",
  "No test runs this planner.",
  [H + "simple_astar_planner.hpp"], [("open queue with explored-cost map", H + "simple_astar_planner.hpp")],
  ["returned path, statistics"])

p("P11", "First-order deformation finds an alignment whenever one exists",
  """For every pair of path lengths and set of forbidden pairs, the returned alignment starts at the first pair and ends at the last pair, changes each index by at most 1 per step,
  stays inside the grid, never repeats a pair and never moves onto a forbidden pair. If no such alignment exists, an empty result is returned; otherwise the result is not empty.""",
  ["inputs"], "every validity mask of every shape up to 4x4, walled grids with every combination of gaps, snaking corridors with every two pairs flipped",
  "No test runs this search.",
  [S + "first_order_deformation.cpp"], [("bottleneck best-first search over the pair grid", S + "first_order_deformation.cpp")],
  ["returned alignment"])

p("P12", "Base64 round-trips every byte string and stays in bounds on any text",
  """Encoding any byte string gives the standard padded Base64 text for it, and decoding that text, its unpadded form or its URL-safe form ('-' and '_') returns exactly the original bytes. Decoding arbitrary text, including text cut short or
  holding characters outside the alphabet or misplaced padding, never reads or writes outside its tables or the text and never fails to return.""",
  ["inputs"], "every byte string of length 0..3, structured strings up to length 300, every byte value at every position of valid texts up to 64 characters, every truncation",
  "One test string is not enough: the result depends on length modulo 3 and every byte value.",
  [S + "base64_helpers.cpp", H + "base64_helpers.hpp"], [("three-byte grouping with padding", S + "base64_helpers.cpp")],
  ["Encode/Decode"])

p("P13", "Compressed data and files restore exactly or fail loudly",
  """Compressing any byte string and decompressing it, in memory, through a file or through the slices of a split file, returns exactly the original bytes whatever their length and content, also when a path is written again with shorter data. If the
  compressed bytes are cut short or damaged anywhere, decompression either reports an error or returns exactly the original data. Writing to a file either leaves a file from which the data can be
  restored or reports an error, including when the device accepts only part of the data; loading a missing, partly written or unreadable file reports an error.""",
  ["inputs", "fault_sequences", "crash_points"], "structured byte strings of boundary lengths, every truncation point and every single-bit corruption of small streams, every write/read failure point",
  "No test compresses anything or injects faults.",
  [S + "zlib_helpers.cpp", H + "zlib_helpers.hpp"], [("inflate loop until end of stream, stream end check", S + "zlib_helpers.cpp")],
  ["decompressed bytes, exceptions, file contents"])

p("P14", "Dynamic time warping distance is the true minimum over warpings",
  """For every two non-empty sequences and non-negative element distance, the reported distance is the minimum over all monotone
  warpings of the summed element distances; it does not depend on the argument order when the element distance is symmetric. Repeated
  evaluations, in any order and with different sequence lengths on the same evaluator, give the same results as fresh ones.""",
  ["inputs", "histories"], "all sequence pairs up to length 4 over a 3-value alphabet, all distance tables on small alphabets, all evaluation histories of length 2",
  "No test computes a warping distance; ties between predecessors are what matters.",
  [H + "simple_dtw.hpp"], [("dynamic programming table", H + "simple_dtw.hpp")], ["reported distance"])

p("P15", "Distance matrices, nearest neighbours and set distances: exact, threading-blind",
  """Pairwise distance matrices of one data set (symmetric distance) hold exactly the distance of each pair, and those of two data sets have one row per item of the first and
  one column per item of the second. Nearest-neighbour queries return the k items of smallest distance (all items if there are not more than k; items at infinite distance may be left out), each index once with its own distance, and the directed Hausdorff
  distance is the largest, over the first set, of the smallest distance to the second. The multi-threaded variants return the same answer as the serial definition for every assignment of work to threads and every order in which the threads run.""",
  ["inputs", "schedules"], "all data sets up to 4 items over small distance alphabets with ties, all k, all thread counts 1..3 and all schedules up to the preemption bound",
  "Tests run single threaded builds on a handful of inputs.",
  [H + "arc_helpers.hpp", H + "simple_hausdorff_distance.hpp", H + "eigen_helpers.hpp"], [("per-thread partial results merged afterwards", H + "arc_helpers.hpp"), ("parallel row loops", H + "simple_hausdorff_distance.hpp")],
  ["matrices, neighbour lists, distances"])

p("P16", "Hierarchical clustering partitions the data and merges closest first",
  """Clustering by distance limit returns every item in exactly one cluster, clusters are the ones obtained by repeatedly merging the two closest clusters (closest or farthest
  member linkage, ties broken in any way) while their distance does not exceed the limit, and the reported spacing is the distance of the closest pair of clusters that remains (infinite if only one remains).
  The answer is the same for the index-based and value-based entry points and with any number of threads in any order of execution.""",
  ["inputs", "schedules"], "every distance table over a small alphabet up to 4-5 items, 6-7 points on a line, all limits, both linkages; 1..4 threads, all start orders up to the deviation bound and up to 2 pre-emptions",
  "Tests check a few fixed point sets.",
  [H + "simple_hierarchical_clustering.hpp"], [("closest pair search over items and clusters", H + "simple_hierarchical_clustering.hpp")],
  ["clusters and spacing"])

p("P17", "K-means ends at a valid, self-consistent clustering",
  """For every data set and cluster count not larger than the number of items, and every choice of starting centres, clustering terminates with every item labelled with a cluster
  number below the count, and the returned centres are the (weighted, if weights are given) averages of the items of their cluster. When labels no longer change each item is closest to the centre of its own cluster. The averaging function is never asked
  to average an empty cluster, and items and weights handed to it belong together also when a preliminary clustering of a subset comes first. A request for more clusters than there are items is refused.""",
  ["inputs"], "all data sets up to 5 one-dimensional items over a small alphabet, all weights from {1,3}, all initial cluster assignments the random generator can produce",
  "No test runs k-means.",
  [H + "simple_kmeans_clustering.hpp"], [("assignment/average iteration until assignments repeat", H + "simple_kmeans_clustering.hpp")],
  ["labels and convergence flag"])

p("P18", "Probabilistic roadmaps hold only valid edges and answer queries with real paths",
  """Every edge ever placed in a roadmap joins two different states that the (symmetric) edge check accepted, is mirrored at both ends and carries the caller's distance in its own direction as weight. A query (eager, lazy, read-only or for several starts and goals) returns a cheapest path through the roadmap from a start to a different goal using only such edges, or reports failure if there is none; the read-only forms leave the roadmap unchanged, and a random walk follows accepted edges only, also after a refresh. Refreshing the edges after the environment changed makes exactly the edges that are no longer accepted impassable and reweights the others.""",
  ["inputs", "histories"], "all sample sequences on a 4-point state space, all edge-validity relations (symmetric and asymmetric) on it, all k, all start/goal pairs",
  "No test builds a roadmap.",
  [H + "simple_prm_planner.hpp"], [("k-nearest connection in both directions", H + "simple_prm_planner.hpp")],
  ["roadmap graph, query path"])

p("P19", "RRT and bidirectional RRT return only valid tree paths",
  """Every path the planners return starts at the start state (root of the tree), each step is one that the caller's propagation produced from the preceding state, and it ends at a state accepted as goal, or continues through an accepted connection
  into the goal tree and back to its root; one path is returned per goal state or connection found. The search tree always has exactly mirrored parent and child links, trees whose links do not match are refused, and nothing is sampled after the termination condition (or time limit)
  holds or, when one path is asked for, after it was found. Callbacks and statistics report exactly the states and connections added, and goal or tree sampling happens for the requested share of draws.""",
  ["inputs", "histories"], "every search of up to 3 samples (thorough 4) over every nearest neighbour, up to 9 propagation shapes, goal set, accepted connection and random draw, through every entry point; every single-link corruption of trees of 3-4 nodes",
  "No test runs these planners.",
  [H + "simple_rrt_planner.hpp"], [("parent/child index links", H + "simple_rrt_planner.hpp")],
  ["returned paths, statistics, tree"])

p("P20", "Path resampling, upsampling, shortcutting and joining keep endpoints and validity",
  """Resampling keeps the first and last state and every state of the path (or of the sub-range asked for) in order, except immediate repeats, and adds evenly spaced states so that no spacing exceeds the requested one. Upsampling returns exactly the requested number of states
  through every state of the range in order with the smallest possible largest spacing, or just the range if it has that many already. Shortcut smoothing keeps the endpoints, only removes states, replaces removed stretches only by steps the edge check accepted, takes every accepted one, and respects its iteration and failure limits.
  Appending a joint trajectory keeps all points of both in order, shifts the times of the second by the end of the first and refuses different joints.""",
  ["inputs", "histories"], "every path of up to 6-7 states over a small step alphabet, every sub-range, spacing and number of points; every draw, edge validity and limit for shortcuts of paths of up to 6 states; every pair and triple of small trajectories",
  "No test exercises these helpers.",
  [H + "path_utils.hpp", "src/arc_utilities/trajectory_utils.cpp"], [("walk along segments with interpolation", H + "path_utils.hpp")], ["returned path"])

p("P21", "Profiler keeps exact per-name series under any call history",
  """After any sequence of timer starts, recorded timings, values and data, resets, clears and queries, the data reported for each name is exactly the ordered list recorded for that name since it was last reset or everything was cleared, names never influence each other and queries do not change what is recorded.
  A recorded timing is the time since that timer was last started (resetting a name that has timings restarts its timer; clearing everything leaves timers running), and recording a timer that was never started is refused. Printed and written summaries and dumps show exactly those series (count, sum, average, extremes), each name once, for any set of names including none, and are appended to existing files; a file that cannot be opened is refused with an exception.""",
  ["histories"], "every history of up to 4-6 calls over 1-3 names with a clock moved by the harness; all queries, summaries and files checked after each; long series up to 40 values",
  "Timing code has a demo but no assertions.",
  [S + "timing.cpp", H + "timing.hpp"], [("name to preallocated vector map", S + "timing.cpp")], ["getData, getAllNames, summaries"])

p("P22", "A log file holds exactly the messages logged to it, in order",
  """Opening a log starts its file afresh (creating the folder if needed, with a date line first if asked), and after any sequence of opening, logging, copying, assigning, moving and destroying log objects, and with several threads logging at once, each log file contains exactly the messages sent to the objects
  that refer to it, each complete on its own line, once, and in order, as soon as the call returns. A moved-from object writes nowhere, other files are never touched, and a file that cannot be opened is refused with an exception.""",
  ["histories"], "every history of up to 5-6 operations on 2-3 objects and 1-2 files, files read back after each operation; every short message over special characters; 2-3 threads with every schedule up to 2 pre-emptions",
  "No test uses the log class.",
  [H + "log.hpp"], [("owning file stream with copy/move", H + "log.hpp")], ["file contents"])

p("P23", "Random generators are deterministic and seedable, and random values follow their distributions",
  """The pseudo-random generators yield the published SplitMix64, xorshift128+ and xorshift1024* sequence of their seed; re-seeding restarts exactly that sequence whatever was drawn before, discarding n values equals drawing n values and copies continue independently.
Samples of the truncated normal distribution (positive deviation) lie within the given bounds and follow the truncated Gaussian wherever the range lies relative to the mean, a range of a single value included; samples of the multivariate Gaussian have the given mean and covariance, singular ones included; random quaternions have norm one and random quaternions and Euler angles are uniformly distributed rotations.
The Gaussian and truncated Gaussian cumulative, density and integral functions agree with each other and with the error function.""",
  ["histories", "inputs"], "all histories of draws, discards, re-seeds and copies up to depth 4 (thorough 5); 26 truncated ranges with all draw sequences on a grid of up to 6 draws; full 240 x 240 draw grids for the distributions",
  "Tests draw a few values from one fresh generator.",
  [H + "arc_helpers.hpp"], [("explicit generator state with seeding", H + "arc_helpers.hpp")], ["drawn values"],)

p("P24", "Angle wrapping, interpolation and averaging agree with the circle and with geometry",
  """Wrapping any finite angle yields the equivalent angle in (-pi, pi]. The signed distance of two revolute angles is the shortest rotation (at most half a turn) that carries the first onto the second, the distance is its magnitude, adding it leads from the first to the second, and ranges and bounds between two angles are those of the counter-clockwise arc.
Interpolation of revolute angles, numbers, vectors, rotations and transforms reaches both ends and moves along the shortest path in proportion to the ratio, with ratios outside [0, 1] clamped.
Averages of numbers and vectors are the mean weighted by the magnitude of the weights, the average of rotations is the unit quaternion that fits them best (by squared weight), and neither depends on the order or on the sign of quaternions.""",
  ["inputs"], "all pairs of 100 angles (multiples of pi/6 in +-4pi, ulp neighbours of the seams, large values), all pairs of 28 rotations, 9 to 13 ratios each, all value and weight lists up to length 4",
  "Tests sample random angles within the principal interval.",
  [H + "math_helpers.hpp", H + "eigen_helpers.hpp"], [("wrap to principal interval then compare", H + "eigen_helpers.hpp")], ["returned angles"])

p("P25", "Time-optimal parametrization follows the blended path within limits at the optimal time; queries are history-free",
  """The blended path starts and ends at the end waypoints, passes every waypoint within the allowed deviation, is parametrised by arc length with direction and curvature that belong to it, and copies and assignments of it are equal and independent.
For waypoint paths without repeated points or reversals a trajectory is found that starts and ends at rest at the end waypoints, stays on the blended path moving only forwards, keeps the velocity and acceleration limits up to the time step, reports velocities that are the derivative of its positions, and lasts as long as the optimum (within two percent).
Positions and velocities reported for a time within the trajectory depend only on that time, never on previous queries or on the lifetime of the trajectory it was copied from.""",
  ["inputs", "histories"], "all waypoint paths of 2..4 points over 8 directions and two step lengths, four limit sets, four deviations, all query histories up to length 4 with copies, against an independent phase-plane optimum",
  "Tests do not cover this module.",
  [S + "time_optimal_trajectory_parametrization.cpp", H + "time_optimal_trajectory_parametrization.hpp"], [("phase-plane integration with cached segment lookup", S + "time_optimal_trajectory_parametrization.cpp")],
  ["trajectory validity, duration, position, velocity"])

p("P26", "Robot model kinematics follow the configuration history",
  """After any sequence of position changes (including its own position and refused ones), base moves, clones and assignments, every link pose of a linked robot equals the product of the transforms from the root to it,
whatever order its joints are listed in; joint values are clamped to their limits or wrapped, the inverse base is the inverse of the base, and Jacobians are the derivatives of the poses, also for planar and free-flying robots.
Distances (weighted, signed and unsigned), interpolation and serialization of configurations respect joint types; anything but one tree of uniquely named links and unit axes rooted at the first link, and mismatched configurations, are refused;
allowed self-collisions are symmetric and exactly those listed. The fixed-arm functions (iiwa 7 and 14, UR10, IRB1600) give the poses of the arm's published chain of joint frames, by position and by name.""",
  ["inputs", "histories"], "all trees up to 4 links with every joint order and type and operation histories up to 3 (thorough 4); all index assignments for up to 3 joints; all pairs of lattice configurations for planar, free-flying and two-joint robots; every combination of 3 (thorough 4) joint values for the four fixed arms",
  "No test exercises the model.",
  [H + "simple_linked_robot_model.hpp", H + "simple_robot_models.hpp", H + "simple_se2_robot_model.hpp", H + "simple_se3_robot_model.hpp", H + "iiwa_7_fk_fast.hpp", H + "ur_10_fk_fast.hpp"], [("transform update from the root", H + "simple_linked_robot_model.hpp")], ["link transforms, positions"])

p("P27", "C++ topic listener: every read is the latest message, waits and destruction are safe",
  """For every interleaving of message callbacks, readers and control calls, each read returns the latest message processed (nothing before the first one), in an order consistent with real time: some sequential order of the operations explains everything read. Waiting for a new message polls at the requested rate
  and returns only a message that was processed after the wait began; it is interrupted only when ROS goes down. While the listener is stopped or not yet started it processes no message. Destroying the listener at any time leaves no callback running on it and no subscription behind, and no message is freed twice, leaked or returned after it was freed.""",
  ["schedules"], "all schedules of up to three callbacks, two readers and start/stop/destroy with up to 2 (3) preemptions, every history checked for linearizability",
  "No test runs the listener; ROS is not available here and ordinary runs do not choose schedules.",
  [H + "listener.hpp"], [("mutex around the stored pointer", H + "listener.hpp")], ["returned message pointers"])

p("P28", "Python topic listener: reads are fresh, complete and never lost",
  """For every interleaving of message callbacks and readers, each read returns the most recent message (or, without waiting, nothing before the first one), in an order consistent with real time; reads that wait, and a
  construction that waits for data, return only once there is data or when ROS shuts down. The user's callback sees every message exactly once, in order per publisher and never overlapping itself, even for messages that arrive while the listener is being constructed, and it may read the
  listener. Every reader gets a complete private copy: neither other readers nor a callback that keeps editing its message can change what was read.""",
  ["schedules"], "all schedules of a constructor, one or two publishers and up to two readers at line granularity with up to 2 (thorough 3) pre-emptions",
  "No test runs the listener.",
  [S + "listener.py"], [("lock and event around last message", S + "listener.py")], ["get() results, callback calls"])

p("P29", "Transform helpers deliver fresh data in spite of transient failures",
  """A transform lookup asks for exactly the requested frames and time and keeps asking until the transform is available; then it returns that transform, or None when the matrix form hits a lookup, connectivity or extrapolation failure; ROS shutting down ends the wait. Everything sent carries exactly the frames, time stamp, translation and rotation it was given, whatever becomes of the caller's objects afterwards, and each publication of static transforms lists every static child sent so far exactly once with its latest value. A repeated transform is kept published with fresh time stamps: starting it returns only after it was received, in spite of lost publications and transient lookup failures, and once it has been replaced, stopped or closed its old value is never published again.""",
  ["fault_sequences", "inputs"], "all outcome sequences of up to 4 (6) waits, all sequences of up to 3 (4) sends with 8 rotations, all schedules of 7 histories of repeated transforms with up to 1 (2) pre-emptions, one lost publication and one failing lookup",
  "ROS is not available to the tests.",
  [S + "reliable_tf.py", S + "tf2wrapper.py"], [("retry loop around lookup", S + "tf2wrapper.py")], ["requests sent, returned matrices"])

p("P30", "Python iterator and dictionary helpers equal their mathematical definition",
  """Repeating the last element, zipping with repetition, chunking from the front or the back and testing for repetition yield exactly what their definition says for every number and length of inputs, including empty ones, without taking more from their source than needed.
  Nested dictionary update is the deep merge in which the update wins, a dictionary replacing a plain value included; it keeps the order of keys and neither changes the update nor shares its nested dictionaries with it. Rounding a dictionary changes values only in the copy it returns, and a conditional
  call runs the function once, returning its result, the fallback for an exception it was asked to catch, or passing on every other exception.""",
  ["inputs", "histories"], "all lists of up to 3 sequences of length up to 3, chunkings of up to 10 (15) elements, all pairs of nested dictionaries over two keys and two levels, all outcomes of one conditional call",
  "Tests check a few examples.",
  [S + "algorithms.py", S + "dict_tools.py", S + "conditional_try.py"], [("generators and recursion", S + "algorithms.py")], ["yielded values"])

p("P31", "File-system helpers act only on what they are asked to",
  """Recursive removal, by function, after asking, or by script, removes exactly the trees named (all of them, also when they are listed twice or lie within each other, and only after an agreeing answer where it asks) and never anything that links inside them lead to. Sizes, file counts and direct subdirectories are those of the
  tree itself, where a link counts as one entry. Creating a directory never disturbs existing content and reports whether it may be used; a name that avoids overwriting does not exist yet (not even as a dangling link) and is the given name with the smallest free version number before its suffixes; size texts are read exactly.""",
  ["inputs", "histories"], "all trees of up to 2 entries per directory on 2 (3) levels with files, directories and links (dangling, outward and circular), all answers, name shapes and sets of existing versions",
  "Tests cover a couple of trees without links.",
  [S + "filesystem_utils.py", "scripts/remove_small_directories.py", "scripts/remove_directories_with_few_files.py"], [("pathlib operations", S + "filesystem_utils.py")], ["tree before and after"])

p("P32", "Timeout guards interrupt on time and leave no trace",
  """Whatever step of the guarded code the timer lands in, a guarded call returns its own result, passes on its own exception, or reports that it timed out, and afterwards the caller's alarm handler is in place again and no alarm is pending but the one the caller had set, with the time that is left of it: guards nest, and each reports its own time-out. A retried iteration starts over after each time-out, calls the time-out callback once for it, and its last pass delivers all items in order. A skipping iteration delivers each item once, in order, except at most one per time-out.""",
  ["schedules", "fault_sequences"], "the alarm delivered at every point where the interpreter looks for signals, up to 2 (3) time-outs per history, up to 3 items",
  "Tests cannot choose where the alarm lands.",
  [S + "catches.py"], [("alarm signal with handler", S + "catches.py")], ["results, alarm state"])

p("P33", "Python path utilities keep endpoints, order and spacing",
  """Densifying any waypoint path keeps its endpoints and every waypoint in order and places the fewest evenly spaced points on each segment that keep steps within the requested size; path length is the sum of the segment lengths. The closest point of a path is a nearest one, at the reported segment and fraction,
  and travelling along a path from there visits the waypoints in between and ends at the requested distance or the path's end. Reversing a trajectory reverses positions and timing and negates velocities without touching the original; polynomial trajectories
  meet their boundary conditions and report the derivatives of their position.""",
  ["inputs"], "all paths of up to 4 (5) waypoints from 1-, 2- and 3-dimensional lattices, 7 step sizes, 11 distances, up to 5 trajectory points, all small boundary conditions of degree up to 3",
  "Tests cover single examples.",
  [S + "path_utils.py", S + "trajectory_planning.py"], [("per-segment interpolation", S + "path_utils.py")], ["returned arrays"])

p("P34", "Python transform, pose and colour conversions are mutually consistent",
  """Converting poses, transforms, points, quaternions and matrices between their representations and back gives the same rigid transform (quaternions up to sign and length), composition and inversion obey the group laws, rotations from axis and angle and from Denavit-Hartenberg parameters equal the product of elementary rotations and translations, and the angle between two rotations is that of the relative rotation. Colours survive the way through XYZ, Lab and Msh and back, colour maps are continuous, hit their end colours and clamp to their range; the cool-warm map is the published diverging map: linear in Msh, through white between distinct saturated colours, the hue of an unsaturated end turned away from purple.""",
  ["inputs"], "30 rotations (axis rotations, generic ones, both signs) and all pairs of them with lattice translations; all colours with 6 (21) levels per channel, 49 values per colour map; the diverging map between all pairs of 125 colours at 9 ratios",
  "Tests cover a few examples.",
  [S + "transformation_helper.py", S + "conversions.py", S + "numpy_conversions.py", S + "color.py", S + "normalize_point_msg.py", S + "marker_utils.py"], [("matrix/quaternion formulas", S + "transformation_helper.py")], ["returned values"])

p("P35", "Rigid-body, projection and vector helpers satisfy their geometric definitions",
  """Twist exponentials equal the matrix exponential and are inverted by the twist between two poses (turns under half a turn), adjoints compose like transforms and skew matrices act as the cross product; angles extracted from a rotation rebuild it, and distances between rotations are the rotation angle between them.
Projection and rejection of vectors, lines, planes and hyperplanes, distances to a line or plane, closest points of a set, fitted planes, pyramid approximations of cones, pseudo-inverses and (damped, weighted) least-squares solutions satisfy their geometric or algebraic definition for every input, far-from-origin, parallel and rank-deficient ones included.
Distances are symmetric, non-negative and zero for equal arguments; norms, weighted norms, comparisons, elementwise arithmetic and conversions between list and vector types agree with their elementwise definitions (exactly for integers), wrong sizes are refused.""",
  ["inputs"], "lattice vectors over {-2..2}^3 and all their pairs, 37 rotations and their pairs, screw motions over 26 axes, all matrices up to 3x2 over 4 values, planes through all multisets of 3-4 lattice points, 124 cone directions, lines at offsets up to 1e6",
  "Tests cover selected random samples.",
  [H + "eigen_helpers.hpp", H + "vector_math.hpp", H + "eigen_std_conversions.hpp"], [("closed-form formulas", H + "eigen_helpers.hpp")], ["returned values"])

p("P36", "Thin plate splines interpolate their control points exactly",
  """A spline fitted to distinct control points maps each control point to its target, whether or not the points span the space. For points that do, it equals the thin-plate interpolant (r^2 log r in the plane, r in space) everywhere, reproduces affine maps exactly and does not depend on the order of the points.
After any history of setting points and targets, solving, interpolating and copying it answers like a fresh spline on the current points; missing points or unequal numbers are refused.""",
  ["inputs", "histories"], "every subset of 3 to 7 points of a 10-point plane lattice and of 4 to 7 points of a 10-point space lattice with 6 target families, all cyclic orders, every degenerate subset up to 5 points, all histories of 5 operations (thorough: more points, 6 operations)",
  "Tests cover a few point sets.",
  [H + "thin_plate_spline.hpp"], [("linear system with affine constraints", H + "thin_plate_spline.hpp")], ["interpolated points"])

p("P37", "Neighbour enumeration, clamping, hashing, bits, colours and list helpers are exact",
  """Neighbour enumerations return exactly the valid cells at distance one within the inclusive bounds, each once, never the centre. Clamping returns the nearest value of the interval and warns exactly when it changes it, reversed bounds are refused, bit access touches and reads exactly the addressed bit for every word width, equal values hash equal and no component is left out of a hash.
Map lookups with defaults, key and value lists, position search and enumeration return what the standard containers hold; colours stay within [0, 1], survive the byte conversion, interpolate linearly and the numbered colours are distinct; console reads consume exactly their part of the input and messages appear exactly when their level asks for it.""",
  ["inputs"], "all grids up to 4x4 and boxes up to 3x3x3 with every centre, five step kinds and six validity patterns; every bit of every word width; all value/bound combinations of 7 values; all 256 bytes; all small maps and lists; all console sequences of 3 operations",
  "Tests cover single examples.",
  [H + "get_neighbours.hpp", H + "arc_helpers.hpp", H + "hash.hpp", H + "stl_wrappers.hpp", H + "enumerate.h", H + "math_helpers.hpp"], [("loops over bounds", H + "get_neighbours.hpp")], ["returned values"])

p("P38", "Optional value holder tracks its content through any history",
  """After any sequence of construction, assignment, copy, move and destruction, the holder reports a value exactly when it holds one, returns that value, and refuses access otherwise; contained objects are constructed and destroyed exactly once. An assignment that fails because the value cannot be copied leaves the holder as it was. Distinct holders never share a value.""",
  ["histories"], "all operation sequences up to depth 4 (thorough 5) of 13 operations over two holders, with an instance-tracking payload; other payload types",
  "No test uses it.",
  [H + "maybe.hpp"], [("flag plus stored value", H + "maybe.hpp")], ["Valid/Get results"])

p("P39", "Waiting, connecting, joystick and ROS set-up helpers do what they promise",
  """Waiting for a condition ends exactly when it holds or ROS shuts down, and warns exactly when it has waited longer than the limit. A connected publisher is returned only once every subscriber is connected, also when subscribers come and go meanwhile, and refused otherwise; connecting several publishers succeeds exactly when all have a connection and otherwise names those that have none. Joystick messages map every button and axis to its own name, small axis values are zeroed, and waiting for a button returns only when it is pressed and as soon as it is. ROS is set up before and shut down after the work, however the work ends. The speaking node speaks every text once, in order, as it was sent, whatever it begins with.""",
  ["histories", "schedules"], "all histories of answers, connections and clock steps within the polling limits, every button and axis of both drivers, messages arriving at every point of a wait, every way for the work to end",
  "No test uses them: there is no ROS here, and the answers come from outside.",
  [S + "ros_helpers.py", S + "xbox.py", S + "ros_init.py", "scripts/tts_node.py"], [("polling loops", S + "ros_helpers.py")], ["return values, exceptions, warnings"])

p("P40", "Message conversions, builders and message serialization lose nothing",
  """Converting points, vectors, quaternions, poses, transforms and lists of them between Eigen and ROS messages and back returns the same value with every coordinate in its place, nothing lost, added or reordered, for any length of list; converters between messages agree with those through Eigen, headers and frames are kept,
  and moving points by a pose equals rotating and translating them. Serialized messages occupy exactly the reported bytes, are read back equal whatever precedes or follows them, and truncated buffers are refused without reading outside them.""",
  ["inputs", "histories"], "all triples of nine and quadruples of six coordinates, rotations about 33 axes in steps of 15 (5) degrees with both quaternion signs, all lists of up to 3 of 4 motions, all sequences of 2 (3) messages of ten types and every truncation, with both pose types of MoveIt",
  "These headers are not even compiled by the test build here (no ROS).",
  [H + "eigen_ros_conversions.hpp", H + "eigen_helpers_conversions.hpp", H + "geometry_msgs_builders.hpp", H + "eigen_transforms.hpp", H + "serialization_ros.hpp", H + "shape_msgs_builders.hpp", H + "moveit_pose_type.hpp"],
  [("field-by-field copies", H + "eigen_ros_conversions.hpp")], ["returned messages, buffers"])

p("P41", "Parameter lookups, spinning and node initialization follow what is stored and asked for",
  """Reading a parameter returns the stored value whenever one is present under that name and namespace and otherwise the given default, an empty optional, or a refusal naming the parameter, for every type and for vectors of any length; a stored value is never changed and no other is read. Spinning calls the arrivals of every round, in order, until ROS goes down, and then ends.
  Initializing a node passes on its arguments, its log level and every option that was asked for, and shutting down ends it.""",
  ["inputs", "histories"], "all stored values and defaults from a list per type, vectors up to length 3, all histories of up to 4 rounds of spinning, all log levels and option combinations",
  "Not compiled by the test build here (no ROS).",
  [H + "ros_helpers.hpp", "src/roscpp_initializer.cpp"], [("parameter lookup with default", H + "ros_helpers.hpp")], ["returned values, stub node state"])

p("P42", "Fast forward kinematics of the four arms equal their joint chains",
  """For every configuration, the returned link poses are rigid transforms and equal the product of the fixed link offsets and the joint rotations of that arm, one per link, starting at the given base; asking by joint name gives the same as asking by position whatever the order, joints that are not named are at zero, other names change nothing, and configurations of the wrong length are refused.""",
  ["inputs"], "four arms, all configurations with 3 (5) angles per joint, each joint over a whole turn, every subset of names",
  "No test uses them.",
  [H + "abb_irb1600_145_fk_fast.hpp", H + "iiwa_14_fk_fast.hpp", H + "iiwa_7_fk_fast.hpp", H + "ur_10_fk_fast.hpp"], [("unrolled joint transforms", H + "iiwa_7_fk_fast.hpp")], ["link transforms"])

p("P43", "Aligned vectors behave like the three-dimensional vectors they stand for",
  """After any sequence of operations (construction, assignment, element access, arithmetic in place or not, normalization, transforms), an aligned vector holds the same three coordinates as an ordinary vector subjected to the same operations, its size, norms, products and comparisons are those of the three coordinates, and its fourth coefficient keeps its fixed value, so that transforms apply to it as to a point.""",
  ["histories"], "all sequences of 4 (5) of 40 operations on two vectors of doubles and of 3 (4) on vectors of floats",
  "No test uses them.",
  [H + "aligned_eigen_types.hpp"], [("operators on four coefficients", H + "aligned_eigen_types.hpp")], ["coordinates, norms"])

p("P44", "Printing shows every element once, in order",
  """Printing any container, pair, string, boolean, Eigen value or nesting of them yields every element once, in its order, separated by the requested separator and delimited when asked; streams of vectors and collision results name all their parts, report no contacts when there are none and say when there are more than one; each colour selects its own terminal code.""",
  ["inputs"], "thirteen containers of all contents up to 3 (5) values and their nestings, three separators, delimiters on and off, all small vectors and matrices, all collision results of up to two pairs and two contacts",
  "Not covered by tests.",
  [H + "pretty_print.hpp", H + "ostream_operators.hpp", H + "moveit_ostream_operators.hpp", H + "text_color.hpp"], [("element loop with separators", H + "pretty_print.hpp")], ["printed text"])

p("P45", "Creating a directory succeeds or raises truthfully whatever state, failure or rival it meets",
  """Creating a directory creates it and every missing parent, in whatever spelling the path is given, and returns normally exactly when the directory can be and is there afterwards; otherwise (a file or a dangling link in the way, or the system refuses) it raises an exception. What exists already, files and links included, is never changed, and another process creating the same directories at any moment makes no difference to the result.""",
  ["inputs", "fault_sequences", "schedules"], "paths of 1 to 3 (4) components each present, missing, a file, a directory link or a dangling link in seven spellings; a failure of each mkdir with five errors; up to 2 (3) interferences at any system call",
  "Tests cannot place failures and rivals between two system calls.",
  [H + "filesystem.hpp"], [("recursive creation", H + "filesystem.hpp")], ["return value, tree afterwards"])

if __name__ == "__main__":
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(path, "w") as f:
        for q in P:
            f.write(json.dumps(q) + "\n")
