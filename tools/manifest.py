#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json
A = "seeded search over thread schedules (deterministic simulation, one thread at a time) and faults, results against a reference model"
B = "seeded search over message schedules of a simulated MPI and faults, results of every process against a reference model"
notes = {
"C01": (A, "Real solver, rayon and std under a seeded scheduler that may switch at every memory access; every result against a dynamic-programming optimum. Sequentially consistent interleavings, 2..8 vertices."),
"C02": (B, "Real solver and rsmpi; simulated libmpi picks delivery order, buffering, collective exits. Every process's cost and tour against the optimum. 1..12 processes, 2..7 vertices."),
"C03": (B, "As C02 for the dynamically distributed solver."),
"C04": (A, "Every edge list is checked to be a spanning tree of the included vertices with the weight of a reference minimum spanning tree, up to 24 vertices."),
"C05": (A, "Bound against the definition (maximum over all 1-trees) and against the optimum, up to 16 vertices."),
"C06": (B, "Bound at the root against the definition, 1..12 processes, up to 9 vertices."),
"C07": (A, "Validity, length, greediness and minimality over every start vertex; random starts through the seeded random seam."),
"C08": (B, "As C07 on every process, all processes equal, 1..12 processes."),
"C09": (A, "Validity, length, MST+matching guarantee with the matching recorded from the same run, 1.5-guarantee where the matching is minimal."),
"C10": (A, "Perfectness always, 2-optimality after enough rounds, optimality for four vertices; parallel splitting with >8000 vertices."),
"C11": (B, "Matching perfect on every process, all equal, never worse than any matching a process sent; tours as in C09."),
"C12": ("seeded search over thread schedules with a happens-before (vector clock) race detector in the simulator", "Every memory access of walky, its dependencies and std is instrumented; a race between accesses of walky data is a violation wherever the schedule puts them, as long as both are executed."),
"C13": (A, "Every entry against the distance computed by the driver, symmetry exact, zero diagonal."),
"C14": ("seeded fault injection into file input (errors, short and interrupted reads, damaged content) of simulated runs of the command", "Whole command, every algorithm and parallelism; answers checked against the instance the bytes describe, by an independent reader."),
"C15": ("seeded fault injection into standard output (short, interrupted and failing writes) of simulated runs of the command", "Exit status 0 only with the whole, correct output accepted."),
"C16": ("seeded search over message schedules of a simulated MPI that checks MPI usage", "Deadlock, truncation, type and size mismatch, collective mismatch, lost messages, missing or repeated init and finalize."),
"C17": ("seeded crash injection into processes of a simulated MPI job", "A process dies before a chosen MPI call, its undelivered messages may be lost, the others are killed at a chosen later point; every whole line printed must be correct."),
"C18": ("seeded search over thread and message schedules of whole commands", "All combinations of approximation, lower bound and parallelism: exit status, complete output, both values, bound below weight."),
"C19": ("seeded random streams and output faults for the instance generator in simulation", "The printed document is read by an independent reader: complete, undirected, finite, metric."),
"C20": (A, "2..4 client threads call the library at once on shared and separate instances; every result as in the single checks."),
"C21": ("seeded fault injection into allocation, thread creation and CPU detection of simulated runs of the command", "No hang, no wrong line, no success without the whole answer."),
}
pure = "a pure, single-threaded function of its input without clock, I/O, randomness or other parties: a simulator has no schedule and no fault to choose, so simulation would decide nothing that plain input testing does not"
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "checks": [
  {"property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough",
   "technique": t, "level": "exploration", "level_note": n} for p, (t, n) in notes.items()],
 "not_applicable": [
  {"property": "C30", "reason": "The sequential solvers are " + pure + ". (They do run, as part of whole commands under I/O faults and concurrently with other calls, in C14, C15, C20 and C21.)"},
  {"property": "C31", "reason": "Validation of a document that has been read is " + pure + ". (Damage that happens while reading is C14.)"},
  {"property": "C32", "reason": "The sequential variants are each " + pure + ". (The parallel variant is C04.)"},
  {"property": "C33", "reason": "Each conversion is " + pure + ". (The parallel one is C13.)"},
  {"property": "C34", "reason": "Each iterator is " + pure + "."},
 ],
 "notes": "No hooks in /repo: the seams are the compiler's instrumentation, interposed libc calls and a replaced libmpi. Replay a reported violation with: bash replay.sh replay/<file>.json",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
