T = {
    "C01": "seeded thread schedules against a sequential reference evaluator",
    "C02": "seeded thread schedules against a sequential chain-rule reference",
    "C03": "seeded thread schedules against a sequential reference evaluator",
    "C04": "injected node and thread-start failures under seeded schedules",
    "C05": "seeded request histories against a linearizable memo model",
    "C06": "seeded histories and solver failures against uncached solves",
    "C07": "simulated server with injected connection faults, local solve as oracle",
    "C08": "simulated server with injected faults, check over the request history",
    "C09": "virtual time, bounded progress after faults stop",
    "C10": "concurrent solves against one simulated server, seeded schedules",
    "C11": "simulated worker pool with injected task failures and interrupts",
}
T.update({
    "C12": "crashes and disk errors at seeded filesystem operations, resume, "
           "final state against a sequential model",
    "C13": "directory invariant at every filesystem operation under seeded "
           "crashes and disk errors, log history against a model",
    "C14": "seeded crashes and resumes, check over the recorded iteration "
           "history",
    "C15": "crashes and disk errors at seeded filesystem operations, load and "
           "resume, final state against a sequential model",
    "C16": "directory invariant at every filesystem operation under seeded "
           "crashes and disk errors, log history against a model",
    "C17": "seeded call histories with failing actions, disk errors and "
           "interrupts against a reference model",
    "C18": "seeded load-extend-save histories with crashes, disk errors and "
           "failing serialization during saves",
    "C19": "readers scheduled between the writer's filesystem operations and "
           "after crashes, bounds from the directory history",
    "C20": "seeded crash and resume of stateful parametrizations, snapshots "
           "compared with the uninterrupted run",
    "C25": "seeded problems optimized by plans that are killed and resumed, "
           "end points against the constraints and a whole-problem solve",
})

RP = ["spins/invdes/problem_graph/solver.py",
      "spins/invdes/problem_graph/workspace.py"]
GP = ["spins/goos/optplan/optplan.py"]

prop("C12", "A killed and resumed optimization ends like an uninterrupted one",
     "However often a run of an optimization plan is killed or stopped by a "
     "disk error and resumed from its save folder, resuming succeeds and the "
     "run ends with the same parametrizations, parameter values and exported "
     "design files as a run that was never interrupted. No transformation that was completed and "
     "recorded is performed again, none is skipped, and each starts from the "
     "state that the ones before it left.",
     ["crash_points", "fault_sequences", "programs"],
     "every filesystem operation at which the process can die or fail, "
     "repeatedly, for every plan of transformations, parameters and "
     "parametrizations",
     "No test kills a run; resume is tested on no plan at all.",
     RP + ["spins/invdes/problem_graph/creator_opt.py"],
     [("choice of the step or checkpoint to resume from",
       "spins/invdes/problem_graph/solver.py"),
      ("checkpoint after every transformation",
       "spins/invdes/problem_graph/solver.py"),
      ("restoring parametrizations and parameters",
       "spins/invdes/problem_graph/solver.py")],
     ["problem_graph.run_plan with resume=True", "checkpoint files"])

prop("C13", "Optimization logs and checkpoints are complete, ordered and kept",
     "At every moment each numbered log file and each checkpoint file in a "
     "plan's save folder is a complete, readable record; log numbers are "
     "contiguous from 1 and a log once written is never changed, overwritten "
     "or lost, also across crashes, disk errors and resumes. Each record "
     "describes one moment: its monitor values, parametrization and parameter "
     "values belong together. A plan that was interrupted and resumed has the "
     "same sequence of records as one that was not.",
     ["crash_points", "fault_sequences", "programs"],
     "every filesystem operation of every run and resume, every torn write and "
     "full disk",
     "Tests read log files of finished runs only.",
     RP, [("log writer", "spins/invdes/problem_graph/workspace.py"),
          ("log numbering on resume", "spins/invdes/problem_graph/solver.py")],
     ["stepN.pkl and checkpoint files in the save folder"])

prop("C14", "Interruptions do not extend or repeat an iteration budget",
     "In either stack an optimization limited to a number of iterations "
     "performs and records at most that many in total, numbered 1, 2, 3 and so "
     "on without gap or repetition, however often it is interrupted and "
     "resumed. Each record holds the point that the optimizer accepted in "
     "that iteration, and a resumed optimization continues from the last one, "
     "recording its start and its end once where it records them. A penalty "
     "method runs its cycles in order with the penalty that its schedule gives "
     "each cycle (its limit counts per cycle and starts over when a cycle is "
     "resumed).",
     ["crash_points", "fault_sequences", "programs"],
     "every crash point during an optimization, several times over, for every "
     "budget",
     "Tests run optimizers once, uninterrupted.",
     ["spins/invdes/problem_graph/creator_opt.py",
      "spins/invdes/optimization/scipy_optimizer.py",
      "spins/invdes/optimization/constrained_optimizer.py",
      "spins/goos/optimize.py"],
     [("iteration offset on resume",
       "spins/invdes/problem_graph/creator_opt.py"),
      ("iteration offset on resume", "spins/goos/optimize.py")],
     ["iterations recorded in the log files", "objective evaluations"])

prop("C15", "A killed and resumed goos plan ends like an uninterrupted one",
     "A goos plan that is killed or stopped by a disk error at any point, "
     "loaded in a new process and resumed from its newest log or checkpoint "
     "file ends with exactly the variable values, bounds and frozen flags of "
     "an uninterrupted run. Completed actions are not repeated and none is "
     "skipped; resuming a finished plan changes nothing.",
     ["crash_points", "fault_sequences", "programs"],
     "every filesystem operation of every plan, several interruptions in a row",
     "Tests checkpoint a two-action plan once, in one process.",
     GP + ["spins/goos/math.py", "spins/goos/optimize.py"],
     [("resume from a checkpoint or event", GP[0]),
      ("checkpoint after every action", GP[0])],
     ["OptimizationPlan.resume", "final variable values"])

prop("C16", "goos logs and checkpoints are complete, ordered and kept",
     "At every moment each numbered log file and each automatic checkpoint of "
     "a goos plan is a complete, readable record; log numbers are contiguous "
     "from 1 and a log once written is never changed, overwritten or lost, "
     "also across crashes, disk errors, loads and resumes. Each record's "
     "monitor values belong to the variable values in it, and an interrupted "
     "and resumed plan has the same sequence of records as an uninterrupted "
     "one.",
     ["crash_points", "fault_sequences", "programs"],
     "every filesystem operation of every run and resume",
     "Tests look at log files of finished runs only.",
     GP, [("event writer", GP[0]), ("checkpoint writer", GP[0])],
     ["stepN.pkl and actionN.chkpt files in the save folder"])

prop("C17", "Only actions change a goos plan, and a failing one leaves it usable",
     "Variable values, frozen flags and bounds of a plan change only while its "
     "actions run: any other attempt is refused and changes nothing, and no "
     "array handed in or out, evaluation or other plan can change them. When "
     "an action fails or is interrupted, at any point, the error reaches the "
     "caller, completed actions stay completed, the plan refuses outside "
     "modification again, and the next run continues with the action that "
     "failed. Reading a checkpoint or log file restores exactly the state that "
     "was written, and resuming from it continues exactly there.",
     ["histories", "fault_sequences", "programs"],
     "every sequence of calls on a plan, with errors, interrupts and disk "
     "errors at every point of an action",
     "Tests run short sequences in which no action fails.",
     GP + ["spins/goos/math.py"],
     [("modification guard around action methods", GP[0]),
      ("frozen check when setting a variable", GP[0])],
     ["public methods of OptimizationPlan and Variable"])

prop("C18", "A saved goos plan is complete at any moment and loads as it was",
     "Once a plan was saved in a folder, the folder holds a complete plan at "
     "every moment, the old or the new one, also when a later save crashes, "
     "meets a disk error or cannot serialize the plan. Loading it in a new "
     "process gives the same nodes under the same names with the same values "
     "and gradients, also if the caller has since reused arrays it passed to "
     "nodes, and running it does what the saved plan would do. A "
     "loaded plan can be extended, saved and loaded again any number of times.",
     ["crash_points", "histories", "programs"],
     "every crash point of every save and every history of loading, extending "
     "and saving in separate processes",
     "Tests save and load a small plan once within one process, so automatic "
     "names never start over.",
     GP + ["spins/goos/optplan/schema.py", "spins/goos/generic.py"],
     [("replacing the plan file", GP[0]), ("automatic node names", GP[0]),
      ("serialization of references", "spins/goos/optplan/schema.py")],
     ["OptimizationPlan.save and load", "optplan.json"])

prop("C19", "Log readers see complete, ordered records at any moment",
     "Loading the logs of a run, or asking for its latest log step or file, "
     "while the run is writing or after it crashed never fails and yields "
     "exactly a contiguous prefix of the records: every record completed "
     "before the call, none twice, each with the content it keeps. The log "
     "table and the monitor series made from them are in the order in which "
     "the records were written.",
     ["schedules", "crash_points", "histories"],
     "every position of the reader between the writer's filesystem operations, "
     "every directory order, every crash point, in both stacks",
     "Tests load hand-made log files.",
     ["spins/invdes/problem_graph/log_tools/loader.py",
      "spins/invdes/problem_graph/workspace.py", GP[0]],
     [("directory scan and sorting by log counter",
       "spins/invdes/problem_graph/log_tools/loader.py"),
      ("latest log step", "spins/invdes/problem_graph/workspace.py")],
     ["log_tools.loader.load_all_logs", "create_log_data_frame",
      "get_latest_log_step"])

prop("C20", "Resuming restores everything that shapes the parametrization",
     "After a crash and resume every parametrization of a plan has the vector, "
     "structure, bounds and shape-controlling settings, such as the "
     "sharpness set by an earlier transformation, that it had at that point "
     "of an uninterrupted run, for every kind of parametrization that can be "
     "saved, so that the rest of the run is the same.",
     ["crash_points", "programs", "fault_sequences"],
     "every kind of parametrization, every sequence of transformations that "
     "change more than its vector, every crash point",
     "Tests serialize single parametrizations, never within an interrupted "
     "plan.",
     ["spins/invdes/parametrization/parametrization.py",
      "spins/invdes/parametrization/grating_parametrization.py",
      "spins/invdes/parametrization/composite_parametrization.py"] + RP,
     [("serialization of a parametrization",
       "spins/invdes/parametrization/parametrization.py"),
      ("restoring parametrizations", "spins/invdes/problem_graph/solver.py")],
     ["run_plan with resume=True", "parametrization.get_structure"])

prop("C25", "Optimizers honour every bound and constraint, also when resumed",
     "A constrained scipy optimization of a plan, in either framework, ends "
     "at a point that satisfies every bound and every equality and inequality "
     "constraint it was given, leaves frozen variables as they were, and is "
     "optimal among such points when the iteration limit does not bind, "
     "whether it ran through or was killed and resumed any number of times. A "
     "penalty method does so approximately, as far as its penalty reaches.",
     ["inputs", "crash_points", "fault_sequences"],
     "every number and mix of constraints and bounds, every crash point",
     "Tests use at most one constraint of a kind, bounds that are the same for "
     "all elements of one variable, and never resume.",
     ["spins/goos/optimize.py",
      "spins/invdes/optimization/scipy_optimizer.py",
      "spins/invdes/problem_graph/creator_opt.py"],
     [("constraint functions handed to scipy", "spins/goos/optimize.py"),
      ("constraint functions handed to scipy",
       "spins/invdes/optimization/scipy_optimizer.py")],
     ["goos.opt.scipy_minimize", "ScipyOptimizerTransformation"])

prop("C21", "Adjoint gradients of simulations match finite differences",
     "The gradient of any objective of simulated fields with respect to the "
     "structure equals the derivative of the objective.",
     ["inputs"], "every structure, source, objective and wavelength",
     "Tests compare a few fixed cases.",
     ["spins/goos_sim/maxwell/simulate.py", "spins/fdfd_tools/operators.py",
      "spins/invdes/problem/simulation.py"],
     [("adjoint solve", "spins/goos_sim/maxwell/simulate.py")],
     ["eval_grad of simulation outputs"])
NA["C21"] = ("Pure numerics of one call: no schedule, time, I/O or fault takes "
             "part, so there is nothing for a simulator to decide. Its "
             "concurrent and caching side is C05 and C06.")
prop("C22", "Rendered permittivity is the area average of the drawn shapes",
     "Rendering a set of polygons or shapes on a grid gives every cell the "
     "volume average of the materials covering it.",
     ["inputs"], "every set of shapes and every grid",
     "Tests render a few shapes.",
     ["spins/gridlock", "spins/goos_sim/maxwell/render.py"],
     [("polygon rasterization", "spins/gridlock")],
     ["Grid.grids"])
NA["C22"] = ("A pure function of its arguments: no concurrency, time, I/O or "
             "multi-party behaviour for a simulation to control.")
prop("C23", "Waveguide modes and sources solve their eigenproblem",
     "A mode source injects a mode that satisfies the discrete waveguide "
     "eigenproblem of the slice it is placed in, in the requested direction "
     "only.",
     ["inputs"], "every slice, wavelength, mode number and axis",
     "Tests use a few slices.",
     ["spins/fdfd_tools/waveguide_mode.py"],
     [("mode solver", "spins/fdfd_tools/waveguide_mode.py")],
     ["waveguide mode sources and overlaps"])
NA["C23"] = ("Numerical property of single calls without schedule, time, I/O "
             "or faults.")
prop("C24", "Schemas round-trip through their serialized form",
     "Every optimization plan schema that validates is the same after "
     "serialization and parsing.",
     ["inputs"], "every plan that can be written down",
     "Tests round-trip a few schemas.",
     ["spins/invdes/problem_graph/optplan", "spins/goos/optplan/schema.py"],
     [("schema parsing", "spins/goos/optplan/schema.py")],
     ["optplan.dumps and loads"])
NA["C24"] = ("A pure function of one value. The part that depends on "
             "processes, crashes and histories of saving and loading is C18.")
