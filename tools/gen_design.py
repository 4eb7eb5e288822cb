#!/usr/bin/python3
"""Writes ../DESIGN.md from the properties, the last evidence of every check and the notes below."""
import glob
import json
import os

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")

HEAD = """# Design

## Approach

`arc_utilities` is a mostly sequential C++ template library with a Python companion and a few concurrent parts. Every
property is decided by **bounded exhaustive exploration of the real code** (stateless model checking): the code under
test is compiled from `/repo`'s current tree (or imported from it), and an explorer runs it once for every leaf of the
tree of nondeterministic decisions. Nothing is sampled, and no model stands between the check and the code, so no
model can drift from it; what the harness supplies is the environment (inputs, call-backs, clocks, schedulers, faults,
the other side of ROS) and the oracle.

* `harness/mc.hpp`: the C++ explorer. A scenario draws every decision (operation, argument, input shape, call-back
  answer, fault, schedule step) from `Run::choose(n)`; `deviate(n, bound)` spends from a budget (pre-emptions, faults,
  interferences). The tree is explored depth first by re-execution, split over 8 worker processes. A crash, a failed
  assertion, an AddressSanitizer report, an exception that escapes or a hang (20 s without progress) is a
  violation of the choice sequence that led to it. Every violation is replayed twice in fresh processes before it is reported; one that depends on what ran before in the same process is reproduced with
  its whole partition; one that was seen and does not come back is an error (exit 2), never silently dropped. A replay
  that diverges is an error too, so hidden nondeterminism cannot pass for coverage.
* `harness/sched.cpp`: the controlled scheduler for C++ threads and OpenMP regions. The code under test is compiled with
  instrumentation of memory accesses; `pthread`, condition variable, OpenMP and atomic entry points are
  replaced, exactly one thread runs at a time, and every shared access and every synchronisation is a point where
  another thread may be chosen, up to a pre-emption bound. A data race shows through its effect in the schedule that
  exposes it: a lost update, a torn or stale read, a freed object.
* `harness/trap.hpp`, `iopoints.cpp`, `fakeclock.hpp`: assertions as observable refusals; every write, flush, open, close
  and short read as a fault point; time moved by the harness.
* `py/mc.py`, `py/sched.py`: the same explorer for Python, and a scheduler that switches threads at every line of the
  code under test and at every operation on locks, events, conditions and clocks. Violations raise a `BaseException`, so
  that code which swallows exceptions cannot swallow them.
* `harness/stub_ros`, `py/stubs`: a small executable world in place of ROS, which is not installed: topics, call-back
  queues, spinners, parameters, transforms, clocks and their failures, every one of them a decision of the explorer.
* Oracle: an independent and deliberately boring reference (a map, a list, brute-force enumeration, a closed form,
  a linearizability search), compared at every step.
* `run.py P` builds the explorers of property `P` in a scratch directory, runs them, replays what they find and writes
  `evidence/P.json`; `checks.py` lists the units of each property. `VERIF_TIER=thorough` raises the bounds. A scenario that reaches
  its time cap is reported as capped and never as exhaustive.

Every number in the evidence is measured: *executions* are complete choice sequences run on the real code, *transitions*
operations performed on it, *states* distinct canonical observations.

A refactoring cannot disturb the checks: they only look at what public operations return, write, call or refuse, and at
memory errors. They compile against the public interface, with whatever headers they need.

## Properties

"""

# what the observation is compared with, and what was learned about the claim while building the check
ORACLE = {
"P01": ("byte-exact reference encoders written from the format (size header, elements in order, big-endian for network order) and a decode of every truncated copy inside a guarded heap block", ""),
"P02": ("bit patterns of the coefficients and the documented size formulas", ""),
"P03": ("a plain array of cells with a default and an out-of-bounds value", ""),
"P04": ("index arithmetic on exact lattice points carried through the rigid transform", ""),
"P05": ("a two-level map: a chunk is absent, uniform or a table of cells", ""),
"P06": ("a list of edges", ""),
"P07": ("the transitive closure of the undirected graph", ""),
"P08": ("Bellman-Ford", ""),
"P09": ("exhaustive shortest paths over the allowed edges; random walks draw from an engine whose numbers are decisions", ""),
"P10": ("exhaustive shortest paths to any goal", ""),
"P11": ("reachability on the grid of pairs for every threshold", "The code never checks the validity of the start pair itself; the property does not claim it."),
"P12": ("an independent bit-string encoder; malformed text must be refused or decoded without touching foreign memory", ""),
"P13": ("equality with the original; streams and files damaged at every byte and bit; every failure of the file system calls", "Splitting of over-long input runs at 1/65536 scale with a stand-in for zlib's size limits (`stub/smallzlib`)."),
"P14": ("explicit enumeration of all warpings", ""),
"P15": ("the definitions; the OpenMP build runs on the controlled scheduler", ""),
"P16": ("the set of all outcomes of \"merge a closest pair while within the limit\", all ties", ""),
"P17": ("nearest-centre and centre-is-average conditions; the header's random engine is replaced by one whose draws are decisions", ""),
"P18": ("edge sets recomputed from the callbacks, exhaustive shortest paths; the parallel build runs on the scheduler", ""),
"P19": ("a tree rebuilt from the sequence of callback answers", ""),
"P20": ("the definitions of spacing, order and validity; optimal placement by enumeration", ""),
"P21": ("plain lists per name, with time moved by the harness", "Files that cannot be opened must be refused with the record intact."),
"P22": ("the sequence of messages per file; concurrent use on the scheduler", ""),
"P23": ("independent implementations of the published generators; distributions against their bounds", "Not claimed: truncated normals whose range lies many deviations away from the mean (NaN)."),
"P24": ("angles as exact multiples of pi/12 on the circle", ""),
"P25": ("limits and deviation checked on a dense grid of times, all query orders against a fresh object", "Not claimed: negative times, times past the end, exact reversals and repeated waypoints, which the algorithm does not support."),
"P26": ("a chain of elementary transforms recomputed from the history; Jacobians against difference quotients; self-collision against all pairs", ""),
"P27": ("a linearizability search over every history, an allocation arena that detects use after free, double free and leaks, and the stub's own view of subscriptions and spinners",
        "Errors of the model found and repaired while building: the stub's book-keeping has to be atomic, a sleeper has to notice what happens between its look and its sleep, the search has to undo operations it sets aside."),
"P28": ("the messages delivered so far, per publisher", ""),
"P29": ("the transforms in the stub's buffer at the time of the query; everything sent, with its time", "The rate of repetition is only claimed for executions without pre-emption."),
"P30": ("the definitions", ""),
"P31": ("the tree before and after, entry by entry",
        "The code under test deletes trees: it runs as an unprivileged user, in a scratch directory, behind an audit hook that stops any call that leaves the directory."),
"P32": ("the history of items, results, exceptions and alarms",
        "The alarm is delivered where the interpreter really looks for signals (after calls, on entry and resumption, on backward jumps); delivery at any opcode was a source of false alarms."),
"P33": ("exact arithmetic on lattice paths", "False alarms removed: with coordinates that are not dyadic, rounding may add one densified point; which of several equally close points is returned is free."),
"P34": ("4x4 matrix products of elementary transforms", "False alarms removed: the hue of nearly grey ends of the cool-warm map is free (tolerance of 3 in 100), angles under about 0.03 rad may be reported as 0."),
"P35": ("matrix series, lattice geometry, Moore-Penrose conditions, elementwise definitions", "False alarm removed: text files of matrices keep six significant digits, and the property now says so."),
"P36": ("the interpolation system solved independently", ""),
"P37": ("enumeration of all cells, bits and bytes", "Not claimed: neighbours when the bounds do not lie on the grid."),
"P38": ("an optional payload that counts its instances", ""),
"P39": ("the history of answers given by the stub", "The stub reads the command line as getopt does, so that a text that begins with a dash must come after `--`. Not claimed: the marker repeater script imports a module that is not part of the repository."),
"P40": ("rotation matrices computed from axis and angle, field-by-field comparison; message bytes against the stub's encoder", "ROS is not installed: `ros/serialization.h` is a stub of the documented layout (wrapped messages start behind their four-byte length). Not claimed: truncated wrapped messages beyond memory safety, affine transforms with scale."),
"P41": ("the stub's parameter server and call-back queue", "The logger may be named after the node or after the default name. `GetParam` with a default that is a non-const variable does not compile and is not claimed."),
"P42": ("a table of link offsets and axes multiplied out", "The ABB arm's offsets leave 4.5 mm of its y axis; the table pins the code's numbers as they are."),
"P43": ("an ordinary vector subjected to the same operations", "Norms and sums are compared relative to the numbers held, so that short vectors count too."),
"P44": ("the list of elements, parsed back from the text", "Not claimed: alignment of Eigen matrices. A container that cannot be printed shows as a failed build of the check, not as a violation."),
"P45": ("the tree before and after; `mkdir` and `statx` are intercepted, before each of them another process may act", ""),
}


def main():
    out = [HEAD]
    for l in open(f"{HERE}/properties.jsonl"):
        q = json.loads(l)
        o, note = ORACLE[q["id"]]
        out.append(f"### {q['id']} {q['title']}\n\n")
        out.append(f"Explored: {q['quantifier']['text']}. Compared with: {o}. Beyond the tests: {q['why_tests_cant']}\n")
        if note:
            out.append(note + "\n")
        try:
            e = json.load(open(f"{HERE}/evidence/{q['id']}.json"))
            sc = e["coverage"]["scenarios"]
            out.append("Scenarios (executions of the quick tier): " + "; ".join(f"`{s['name']}` {s['executions']}" for s in sc) + ".\n")
        except (OSError, KeyError):
            pass
        out.append("\n")
    out.append(open(f"{HERE}/tools/design_tail.md").read())
    out.append("\n| planted bug | property | needs | caught by |\n|---|---|---|---|\n")
    caught = {}
    for l in open(f"{HERE}/tools/seeds/caught.txt"):
        a = l.split(None, 1)
        if len(a) == 2:
            caught[a[0]] = a[1].strip()
    for m in sorted(glob.glob(f"{HERE}/seeded/*/meta.json")):
        j = json.load(open(m))
        n = os.path.basename(os.path.dirname(m))
        out.append(f"| {n} | {j['property']} | {j['needs']} | {caught.get(n, '?')} |\n")
    open(f"{HERE}/DESIGN.md", "w").write("".join(out))


main()
