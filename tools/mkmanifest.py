"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = {}


def prop(pid, title, statement, over, text, why, files, mech, observe,
         state=()):
    P.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s))
                              for s in state],
                    "mechanism": [dict(zip(("name", "where"), m))
                                  for m in mech],
                    "observe_at": observe, "hook_needed": None}})


prop("C01", "Parallel goos evaluation returns the serial values",
     "Evaluating any set of nodes of a goos problem graph returns, for each "
     "requested node and in the requested order, exactly the value that a "
     "plain sequential evaluation of the same graph with the same variable "
     "values returns, whichever nodes are marked for parallel evaluation and "
     "however the worker threads are scheduled. Each node is computed from "
     "its own inputs, at most once per evaluation, and values handed in by "
     "the caller for a node replace that node's own computation. Repeating "
     "an evaluation gives the same answer and leaves variables unchanged.",
     ["programs", "schedules", "histories"],
     "every acyclic graph, every marking of heavy nodes, every interleaving of "
     "the evaluation threads, every sequence of evaluations, overrides and "
     "variable updates, and several threads evaluating at once",
     "The tests evaluate a few fixed small graphs under whatever schedule the "
     "OS happens to give, and never look at how heavy nodes depend on each "
     "other.",
     ["spins/goos/graph_executor.py", "spins/goos/optplan/optplan.py",
      "spins/goos/math.py", "spins/goos/flows.py", "spins/goos/generic.py"],
     [("topological blocks of heavy and light nodes",
       "spins/goos/graph_executor.py"),
      ("thread pool mapping over one block", "spins/goos/graph_executor.py"),
      ("node value cache of one evaluation", "spins/goos/optplan/optplan.py")],
     ["goos.OptimizationPlan.eval_nodes", "ProblemGraphNode.get",
      "goos.Function.get"])

prop("C02", "Parallel goos gradients equal the serial chain rule",
     "The gradient of a goos function with respect to any list of variables "
     "is exactly what accumulating the chain rule node by node in sequence "
     "gives, whichever nodes are marked for parallel evaluation and however "
     "threads are scheduled. Variables that the function does not depend on "
     "get a zero gradient of their own shape; a scalar that is added to or "
     "multiplied with an array gets the sum over its elements. Nodes see the "
     "same constant and frozen flags of their inputs as in sequence. Computing a "
     "gradient changes no value held by the plan, by a node or by the caller, "
     "so repeating it gives the same answer.",
     ["programs", "schedules", "histories"],
     "every acyclic graph with fan-in and fan-out, every heavy marking, every "
     "interleaving, every order of gradient and value evaluations",
     "Tests differentiate tiny chains once; shared sub-expressions with heavy "
     "nodes, repeated inputs and nodes off the path are not combined with any "
     "schedule.",
     ["spins/goos/graph_executor.py", "spins/goos/optplan/optplan.py",
      "spins/goos/flows.py", "spins/goos/math.py"],
     [("reverse block traversal with per-node gradient accumulation",
       "spins/goos/graph_executor.py"),
      ("gradient flow addition", "spins/goos/flows.py")],
     ["goos.OptimizationPlan.eval_grad", "Function.get_grad"])

prop("C03", "Parallel invdes objectives, constraints and gradients are serial",
     "Values and gradients of an optimization problem's objective and "
     "constraints equal those of a plain sequential evaluation of the same "
     "graph, whether they are evaluated one by one or together, whichever "
     "objectives are marked for parallel execution and however threads are "
     "scheduled. Results come back in the order of the requested functions "
     "and constraints, and evaluating never changes the parametrization "
     "or the graph.",
     ["programs", "schedules", "histories"],
     "every graph of objectives, every marking of parallel objectives, every "
     "set of equality and inequality constraints, every interleaving and "
     "every order of calls",
     "Tests use two or three node graphs, one call and one uncontrolled "
     "schedule.",
     ["spins/invdes/problem/graph_executor.py",
      "spins/invdes/problem/objective.py"],
     [("parallel blocks of heavy nodes", "spins/invdes/problem/graph_executor.py"),
      ("joint evaluation of objective and constraints",
       "spins/invdes/problem/objective.py")],
     ["OptimizationProblem.calculate_objective_function",
      "OptimizationProblem.calculate_constraints",
      "OptimizationFunction.calculate_objective_function"])

prop("C04", "A failing node fails the evaluation promptly and cleanly",
     "When any node raises while a graph is evaluated or differentiated, or a "
     "worker thread cannot be started, the caller gets that error: the "
     "evaluation neither hangs, nor returns a result, nor leaves worker "
     "threads running or locks held. The plan, variables and parametrization "
     "are as before the call, and later evaluations give right answers.",
     ["fault_sequences", "schedules", "programs"],
     "every node and every position at which it fails, several failures at "
     "once, failing thread creation, every interleaving, in both stacks",
     "No test makes a node fail while others run in parallel.",
     ["spins/goos/graph_executor.py", "spins/invdes/problem/graph_executor.py",
      "spins/goos/optplan/optplan.py"],
     [("executor context manager and result collection",
       "spins/goos/graph_executor.py"),
      ("executor context manager and result collection",
       "spins/invdes/problem/graph_executor.py")],
     ["OptimizationPlan.eval_nodes", "OptimizationPlan.eval_grad",
      "OptimizationProblem.calculate_gradient"])

prop("C05", "Cached simulation results are what a fresh solve would return",
     "A forward or adjoint simulation request served through the simulation "
     "caches returns the fields a fresh solve of exactly that structure, "
     "source and other settings would give, also when many threads ask at "
     "once, when the caller later overwrites the arrays it passed in, when "
     "the cache is full, and when solves fail. A failed solve is raised to its caller and is never "
     "cached; the cache never holds more entries than its size, keeps the "
     "most recently used ones and does not solve again what it still holds.",
     ["schedules", "histories", "fault_sequences"],
     "every sequence of requests from several threads, every cache size, "
     "solver failure and interleaving",
     "Tests issue one or two requests from one thread.",
     ["spins/invdes/problem/simulation.py"],
     [("locked least recently used result list",
       "spins/invdes/problem/simulation.py")],
     ["FdfdSimulation.simulate", "AdjointFdfdSimulation.simulate"])

prop("C06", "Simulation nodes always reflect the current structure",
     "The fields, overlaps and gradients that simulation nodes report always belong to the "
     "structure, wavelength and source of the request being served, never to "
     "an earlier one, even when several objectives and constraints share one "
     "simulation, evaluate it in parallel, alternate between structures, or "
     "a solve fails in between. Asking again for an unchanged structure gives "
     "the same result.",
     ["schedules", "histories", "fault_sequences"],
     "every alternation of structures, values and gradients over shared "
     "simulations, with failing solves, under every interleaving",
     "Tests evaluate each simulation node once, alone.",
     ["spins/goos_sim/maxwell/simulate.py",
      "spins/invdes/problem_graph/creator_em.py",
      "spins/invdes/problem/simulation.py"],
     [("last-result cache of a simulation node",
       "spins/goos_sim/maxwell/simulate.py"),
      ("simulation cache shared by objectives",
       "spins/invdes/problem_graph/creator_em.py")],
     ["maxwell.SimulateNode eval and grad", "FdfdSimulation through objectives"])

prop("C07", "Remote Maxwell solves are exact under network faults",
     "A solve on a remote Maxwell server returns the fields that solve "
     "exactly the problem it was given, however many requests are refused, "
     "time out, are reset while sending or receiving, or are cut short. "
     "Connection failures alone never make a solve raise or return anything "
     "else; a server that rejects a request makes it raise.",
     ["fault_sequences", "schedules", "inputs"],
     "every sequence of connection faults at every request and byte, outages "
     "of any length, and every problem",
     "There is no test of the remote solver: it needs a server.",
     ["spins/fdfd_solvers/maxwell.py"],
     [("retry loops around each HTTP request", "spins/fdfd_solvers/maxwell.py"),
      ("polling for the end-of-solve file", "spins/fdfd_solvers/maxwell.py")],
     ["MaxwellSolver.solve"])

prop("C08", "The server is asked to solve only complete, exact inputs",
     "By the time a remote server sees the request to start a simulation, "
     "every input file of that simulation has been stored completely and "
     "holds exactly the caller's problem. No input is uploaded or changed "
     "after the request, and nothing is uploaded under any other "
     "simulation's name.",
     ["fault_sequences", "schedules"],
     "every fault at every upload, including uploads cut short or repeated",
     "There is no test of the remote solver.",
     ["spins/fdfd_solvers/maxwell.py"],
     [("parallel uploads joined before the request is uploaded",
       "spins/fdfd_solvers/maxwell.py")],
     ["the HTTP requests as the server receives them"])

prop("C09", "Remote solves finish once faults stop and do not hammer the server",
     "Once connection faults stop and the server has finished, a remote solve "
     "returns within a bounded time. While faults last it waits at least five "
     "seconds after a failed connection before trying that transfer again, and while the server computes "
     "it polls no more than once a second. A completed solve leaves no "
     "temporary files behind.",
     ["fault_sequences", "schedules"],
     "every outage pattern, server speed and schedule of the transfer threads",
     "There is no test of the remote solver.",
     ["spins/fdfd_solvers/maxwell.py"],
     [("fixed back-off after connection errors", "spins/fdfd_solvers/maxwell.py"),
      ("temporary directory life cycle", "spins/fdfd_solvers/maxwell.py")],
     ["MaxwellSolver.solve", "times of HTTP requests", "temporary directory"])

prop("C10", "Concurrent remote solves never mix their files",
     "Any number of remote solves that run at once, in one process or "
     "started by processes with identical random state, each get the fields "
     "of their own problem. Two solves never share a name on the server or a "
     "local temporary file, also when the clock jumps.",
     ["schedules", "fault_sequences", "histories"],
     "every interleaving of several solves over one or several servers, with "
     "faults, reseeded random generators and clock jumps",
     "There is no test of the remote solver.",
     ["spins/fdfd_solvers/maxwell.py"],
     [("unique simulation name per solve", "spins/fdfd_solvers/maxwell.py"),
      ("temporary directory per solve", "spins/fdfd_solvers/maxwell.py")],
     ["MaxwellSolver.solve", "the HTTP requests as the server receives them"])

prop("C11", "The local solver pool gives every caller its own exact answer",
     "Every solve submitted to the local multi-process solver, by any number "
     "of threads at once, returns the solution of its own problem. A solve "
     "that fails in a worker raises in its own caller only, an interrupt is "
     "raised and never turned into a result, and no more solves than the "
     "configured number of processes run at once.",
     ["schedules", "fault_sequences", "inputs"],
     "every interleaving of callers and workers, every failing task, every "
     "moment of an interrupt",
     "Tests solve one problem at a time on a real pool.",
     ["spins/fdfd_solvers/local_matrix_solvers.py"],
     [("hand-off of problems to the worker pool",
       "spins/fdfd_solvers/local_matrix_solvers.py")],
     ["MultiprocessingSolver.solve"])
exec(open(os.path.join(HERE, "tools", "props2.py")).read())

LEVEL_NOTE = (
    "Seeded search over schedules and fault sequences: each run is one exactly "
    "repeatable execution of the real code under simkit; no claim beyond the "
    "runs made. Trusts simkit's stand-ins for threads, clock, processes, "
    "network and filesystem, and the reference model in the check.")
TECH = "deterministic simulation with fault injection: %s"

claimed = sorted(T)
m = {
    "version": 1,
    "setup_cmd": "PYTHONHASHSEED=0 /opt/venv/bin/python -m "
                 "simkit.selftest",
    "checks": [],
    "not_applicable": [{"property": k, "reason": v}
                       for k, v in sorted(NA.items())],
    "notes": "All checks are simulations run by simkit/runner.py; "
             "VERIF_SEED selects the seed. See DESIGN.md.",
}
for pid in claimed:
    cmd = "PYTHONHASHSEED=0 /opt/venv/bin/python -m simkit.runner %s --tier " \
        % pid
    m["checks"].append({
        "property": pid, "quick_cmd": cmd + "quick",
        "thorough_cmd": cmd + "thorough", "technique": TECH % T[pid],
        "level": "exploration", "level_note": LEVEL_NOTE,
        "evidence_file": "evidence/%s.json" % pid})
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
assert set(ids) == set(claimed) | set(NA), set(ids) ^ (set(claimed) | set(NA))
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        f.write(json.dumps(p) + "\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
