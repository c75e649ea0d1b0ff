"""Writes known_findings.json (run by hand when a fix or finding is added)."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
    ("C12", "use collections.abc.Iterable",
     "a Workspace could not be created at all on Python 3.10+"),
    ("C01 C02 C03", "never run a heavy node in the same parallel block",
     "a heavy node that feeds another heavy node made value evaluation raise "
     "KeyError and silently dropped gradient contributions"),
    ("C02", "build empty gradients from the node's own inputs",
     "a node returning no gradient crashed or got the wrong type of zero"),
    ("C02", "do not accumulate gradients in-place",
     "fan-out with a shared gradient array doubled gradients"),
    ("C02", "let an empty gradient broadcast",
     "adding a gradient to an empty one raised"),
    ("C01", "sum and multiply scalar and array flows",
     "mixing scalar and array flows raised on current numpy"),
    ("C06", "lock the cache of a simulation",
     "parallel constraints sharing a simulation raced on its cache: IndexError "
     "or fields of another structure"),
    ("C05", "cache simulation results under a copy",
     "a caller that overwrote its structure array got stale fields"),
    ("C11", "do not return None from an interrupted solve",
     "an interrupted solve returned None"),
    ("C07 C08", "upload the whole file again",
     "a retried upload sent an empty file"),
    ("C07 C08", "raise when the Maxwell server rejects",
     "an upload or download answered with an HTTP error was taken as success"),
    ("C07 C09", "retry when the connection is lost halfway",
     "a response cut short made the solve raise instead of retrying"),
    ("C12 C13 C19", "never leave a partially written log or checkpoint",
     "a crash or disk error left a torn log or checkpoint file that made the "
     "next resume and every reader fail"),
    ("C12 C13", "restore every parameter when resuming",
     "parameters not set in the resumed step were lost"),
    ("C14", "do not iterate further when resuming",
     "an optimization that had used its budget ran more iterations on resume"),
    ("C15 C16 C18 C19", "partially written plan, log or checkpoint",
     "a crash or disk error left a torn plan, log or checkpoint file"),
    ("C16", "continue numbering log files after reading a checkpoint",
     "logs were overwritten after a checkpoint was read in a new process"),
    ("C15", "resume after, not at, the action",
     "an action whose completion was checkpointed was performed again"),
    ("C17", "close the plan for modification again",
     "after a failing action variables could be modified from outside"),
    ("C14", "count the iterations done before a resume",
     "a resumed goos optimization got its whole iteration budget again"),
    ("C18", "do not reuse the name of a loaded node",
     "a node added to a loaded plan took the name of a loaded node"),
    ("C17", "do not hand out the arrays that hold the state",
     "writing to an array returned by a plan changed the plan"),
    ("C18", "make a plan with a node that was renamed twice loadable",
     "a plan with a node renamed twice could be saved but not loaded"),
    ("C18", "let a renamed variable follow the variable",
     "a renamed variable kept the initial value for ever"),
    ("C18", "do not let a node created during a load take",
     "a constant created while loading took the name of a node of the plan"),
    ("C17", "state dictionaries of a goos plan do not share",
     "writing to the state dictionary of a plan changed the plan"),
    ("C18", "saved goos nodes hold the arrays they were created with",
     "a node was saved with later content of the array it was created from"),
    ("C17", "evaluating a goos constant does not hand out its array",
     "writing to the evaluated value of a constant changed the constant"),
    ("C04", "a node that raises StopIteration fails its evaluation",
     "a node raising StopIteration ended the evaluation with partial results"),
    ("C25", "optimizers apply every constraint, not only the last one",
     "of several constraints of one kind only the last was applied"),
    ("C06", "differentiate simulations with overlaps that are not used",
     "a simulation with an overlap nobody uses could not be differentiated"),
    ("C07", "download the solver information that a remote solve returns",
     "a remote solve asked for solver information raised after solving"),
    ("C07", "adjoint remote solves are exact inside absorbing layers",
     "adjoint remote solves returned wrong fields inside absorbing layers"),
    ("C07", "adjoint remote solves can use symmetries",
     "adjoint remote solves with a symmetry raised after solving"),
    ("C08 C10", "a remote solve with symmetries leaves the caller's pemc alone",
     "a solve with symmetries changed the boundaries of later solves"),
    ("C14", "iteration records hold the point that the optimizer accepted",
     "iteration records of derivative-free optimizers held a trial point"),
    ("C18", "a cast forwards the flags of the node it forwards",
     "renamed shapes and items of shape groups could not be evaluated"),
    ("C18", "nodes keep their own copies of the arrays they are created with",
     "a node changed with the caller's arrays, unlike the plan it was saved in"),
    ("C02", "an omitted gradient is a zero of the shape of the value",
     "a variable that only affects the function through inputs without gradient got a gradient of one element, whatever its shape"),
    ("C03 C05 C06", "callers may modify the results of evaluations",
     "a caller that worked on the arrays it got changed the parametrization and the cached fields"),
    ("C03", "a function times an array is a product",
     "a function multiplied with an array evaluated as their sum"),
    ("C18", "plans that print nodes can be saved, loaded and run",
     "a plan with an action that prints nodes could not be saved and loaded"),
    ("C08", "the Maxwell solver that was chosen is used",
     "a goos simulation asked the server for a solver other than the chosen one"),
    ("C02 C04", "the gradient of a broadcast scalar is a scalar",
     "the gradient through a scalar added to or multiplied with an array was wrong or an error"),
    ("C01", "sums and products of several arrays and scalars",
     "v + s + w of two arrays and a scalar raised, although v + s and the sum of that and w do not"),
]

OPEN = []


def main():
    log = subprocess.check_output(
        ["git", "-C", "/repo", "log", "--format=%h %s"]).decode().splitlines()
    out = list(OPEN)
    for props, subj, what in FIXED:
        hit = [l for l in log if subj in l]
        assert len(hit) == 1, (subj, hit)
        for p in props.split():
            h = hit[0].split()[0]
            out.append({"property": p, "status": "fixed", "commit": h,
                        "what": what, "entry": "fixed: property=%s %s %s" %
                        (p, h, what)})
    with open(os.path.join(HERE, "known_findings.json"), "w") as f:
        json.dump({"findings": out}, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
