#!/usr/bin/env python3
"""The properties, and from them properties.jsonl and MANIFEST.json.

Run after editing: tools/catalogue.py
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(ROOT, "framework"))
import registry  # noqa: E402

IC = "incremental_calibration/"
INC = IC + "include/aslam/calibration/"
CORE = [IC + "src/core/IncrementalOptimizationProblem.cpp", IC + "src/core/OptimizationProblem.cpp"]
EST = [IC + "src/core/IncrementalEstimator.cpp", INC + "core/IncrementalEstimator.h"]

# id, title, statement, over, quantifier text, why tests cannot, files, [(mechanism, where)], technique, level note
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note))


MCT = "explicit-state model checking of the real code: exhaustive breadth/depth-first enumeration of request histories with state matching"
STUBNOTE = ("The sources in /repo are compiled unchanged; the external aslam back end and SVD solver, which are not part of the repository, are replaced by small stand-ins in stubs/ "
            "(trusted). ")

prop("C01", "The incremental problem is exactly the union of its batches",
     "After any history of adding, removing and rearranging batches, the incremental problem exposes each design variable of its present batches exactly once, in the group its batches put it in, and each "
     "error term of its present batches exactly once, in batch order. A variable shared by several batches stays until the last batch containing it leaves, and a group exists exactly as long as it "
     "has a variable. Indexing by position, group contents, group order and dimensions (which count active variables only), membership queries and counts all agree with one another and with that content.",
     ["histories"], "every history of add / remove (by index, position, batch) / rearrange requests over overlapping batches",
     "The existing tests run a handful of fixed sequences and are not even built here; reference counting and group bookkeeping go wrong only in particular add/remove orders.",
     CORE + [INC + "core/IncrementalOptimizationProblem.h"],
     [("reference counts per variable", "IncrementalOptimizationProblem::add/remove"), ("position to group and batch lookup", "getGroupId(idx), getErrorIdx")],
     MCT, STUBNOTE + "Every history of the stated requests over up to four overlapping batches up to the stated depth; after each request all observers are compared with an independent reference model.")
prop("C02", "A refused request leaves a problem exactly as it was",
     "Every invalid request on a batch or on the incremental problem (nothing where something is needed, something already contained, an error term whose variables are missing, a variable put in "
     "contradicting groups, an unknown group, an index out of range, an ordering or permutation that is not one) is refused with an exception. After a refusal every observable of the problem is what it was before.",
     ["histories", "inputs"], "every history of valid and invalid requests up to the depth",
     "Tests check that some requests throw, never what is left behind; half-applied refusals show only in what later requests see.",
     CORE + [INC + "algorithms/permute.tpp"],
     [("argument checks before mutation", "OptimizationProblem::add*, IncrementalOptimizationProblem::add, setGroupsOrdering, permute*")],
     MCT, STUBNOTE + "Every sequence up to the stated depth of valid and invalid requests; all observers compared before and after each refusal.")
prop("C03", "A batch is an ordered, grouped collection of what was put in",
     "A batch exposes exactly the variables and error terms inserted since it was last cleared: variables by group in the chosen order of the groups, and in a group in insertion order as rearranged by the "
     "permutations applied since; error terms likewise. A permutation p moves the element at position p[i] to position i, and changes nothing else. All observers (positions, groups, dimensions counting active "
     "variables, membership, the error terms of a variable) agree with that content.",
     ["histories"], "every history of insertions, permutations, group orderings and clearing",
     "The tests insert a few elements once; they do not combine permutations, reorderings and insertions.",
     [CORE[1], INC + "core/OptimizationProblem.h", INC + "algorithms/permute.tpp"],
     [("grouped storage with explicit group order", "OptimizationProblem"), ("in-place permutation", "permute")],
     MCT, STUBNOTE + "Every history up to the stated depth over four variables, three groups and four error terms, every permutation of every group; all observers compared with a reference model after each request.")
prop("C04", "Restoring puts back exactly what was saved",
     "Restoring design variables sets every variable that was part of the problem at the last save, and still is, to the value it had at that save, and touches no other variable. In particular a variable that left the problem "
     "since, because its batch was removed or the problem was cleared, is never written again.",
     ["histories"], "every history of add / remove / change / save / restore / clear",
     "No test saves or restores after the contents changed; the damage (a write to a variable that is gone) is silent.",
     CORE, [("backup keyed by variable, dropped on removal", "saveDesignVariables/restoreDesignVariables/remove/clear")],
     MCT, STUBNOTE + "Every history up to the stated depth; values and the number of writes of every variable, alive or not, compared with a model.")
prop("E01", "A batch is kept exactly when the acceptance rule says so",
     "A batch is kept if and only if it is forced, or its solution is valid and either its information gain exceeds the threshold strictly or the numerical rank of the calibration parameters rises; a solution is invalid only "
     "if validity checking is on and the optimisation hit its iteration limit or did not lower the cost. The information gain is half the difference between the log-sum of singular values with and "
     "without the batch, and rank and log-sum are those of the system after the last batch kept, removal or reoptimisation. This holds however the estimator was configured.",
     ["histories", "configurations", "inputs"], "every history of requests and every combination of optimiser outcome, rank and information",
     "No test touches the estimator; the interesting cases (equality with the threshold, rank falling, a rejection before the next batch, a removal in between) need particular histories and solver answers.",
     EST, [("acceptance condition", "IncrementalEstimator::addBatch"), ("reference information kept across requests", "_svLog2Sum, _rankTheta")],
     MCT + "; the optimiser and the SVD solver are nondeterministic environments",
     STUBNOTE + "All reachable states of the estimator over three batches, finite answer domains that separate every comparison, both configuration routes; no bound on the number of requests other than state matching.")
prop("E02", "A rejected batch leaves no trace",
     "When a batch is rejected, every design variable has again the value it had before the request, the kept batches, their order, the order of groups and all published figures are unchanged, and the linear solver holds the "
     "Jacobian and the variable layout of the kept batches at those values. An accepted batch is appended to the kept ones and the variables stay where the optimiser left them. Requests that are refused outright change nothing either.",
     ["histories"], "every history of accepted and rejected batches, removals and refusals",
     "No test rejects a batch; residue of a rejection shows only in later requests.",
     EST + [CORE[0]], [("save / restore / remove / restore of the linear solver", "IncrementalEstimator::addBatch, restoreLinearSolver")],
     MCT + "; the optimiser and the SVD solver are nondeterministic environments",
     STUBNOTE + "All reachable states over three batches x three topologies; full snapshot comparison around every rejection and refusal.")
prop("E03", "Published figures stem from the system that is kept",
     "Every figure the estimator publishes (gain, ranks, deficiencies, tolerances, bases, covariances, singular values, scaled variants, costs, memory, flops) is the one the solver computed for the last kept batch, "
     "removal or reoptimisation, and a request returns the figures of its own optimisation. Scaled figures come from the scaled system and are empty without column scaling; the others from the unscaled marginal system. "
     "Once the last batch has been removed the figures are those of a new estimator.",
     ["histories", "configurations"], "every history of requests, with and without column scaling",
     "No test reads these figures; mixing up two of some thirty figures, or those of a rejected batch with those of the kept ones, compiles and passes.",
     EST, [("copying of solver results", "IncrementalEstimator::addBatch, reoptimize")],
     MCT + "; every figure of every optimisation carries a unique value",
     STUBNOTE + "All reachable states over three batches; each figure is unique per optimisation so that any mix-up is visible.")
prop("E04", "The calibration parameters always form the last columns",
     "Whenever the estimator optimises, the variables of the calibration group come last, and the index at which the system is split equals the total active dimension minus the active dimension of that group, "
     "both for solving and for the marginal analysis. This holds whatever groups batches bring, in whatever order, and whichever variables are active.",
     ["histories", "configurations"], "every history of requests and activation changes over three group topologies",
     "No test covers it; a wrong split silently marginalises the wrong parameters.",
     EST, [("reordering of groups", "orderMarginalizedDesignVariables"), ("split index", "setMargStartIndex in addBatch, reoptimize")],
     MCT, STUBNOTE + "All reachable states over three batches x three topologies including toggling variables.")
prop("E05", "A batch whose processing fails leaves the estimator as it was",
     "If adding a batch fails (no batch, already contained, contradicting groups, no calibration group, the optimiser or the solver throwing at any point), the failure is reported by an exception and variables, kept batches, "
     "group order and published figures are as before. Removing a batch that is not contained changes nothing, a bad index is refused, and the last batch can be removed. Later requests behave as if the failed one had not been made.",
     ["histories", "fault_sequences"], "every history of requests with a failure possible in every optimisation at every stage",
     "No test makes the optimiser fail; the consequences only show in later requests.",
     EST, [("rollback on exceptions", "IncrementalEstimator::addBatch"), ("removal", "IncrementalEstimator::removeBatch")],
     MCT + "; failures injected by the environment at every stage",
     STUBNOTE + "All reachable states over three batches; failures at the start, half way and in the marginal analysis of every optimisation.")
prop("E06", "The estimate depends on the batches kept, not on the history",
     "With linear measurements that determine all parameters, the estimate, the ranks, the covariance and the Jacobian after any history of adding, forcing, rejecting, removing and reoptimising equal those of solving the kept "
     "batches from scratch.",
     ["histories"], "every history of requests over four overlapping linear batches",
     "No test runs the estimator at all.",
     EST + CORE + ["aslam_tsvd_solver/src/aslam-tsvd-solver.cc"], [("incremental problem, estimator and solver adapter together", "IncrementalEstimator")],
     MCT, STUBNOTE + "The stand-in optimiser is plain Gauss-Newton and the stand-in SVD solver a dense one; the reference is a direct solution of the normal equations.")
prop("L01", "The solver adapter hands over exactly the optimiser's system",
     "Solving hands the truncated SVD solver the Jacobian and the right hand side last built and evaluated, split at the index set, and returns its step; the marginal analysis likewise uses the Jacobian last built. "
     "A new structure drops the previous results, and nothing is leaked. Every option given in a configuration, and no other, replaces its default, for the solver and for the estimator.",
     ["histories", "configurations"], "every sequence of structure / evaluate / build / solve / analyse; every subset of configuration keys",
     "The adapter has no test and is not built by the existing build.",
     ["aslam_tsvd_solver/src/aslam-tsvd-solver.cc", EST[0]], [("transpose and view", "AslamTruncatedSvdSolver::solveSystem, analyzeMarginal"), ("option parsing", "createTsvdOptionsFromPropertyTree, IncrementalEstimator ctor")],
     MCT, STUBNOTE + "Every sequence up to the stated depth; matrices compared entry by entry with a dense model, memory with the allocator's own count.")

NOT_APPLICABLE = []

exec(open(os.path.join(HERE, "catalogue_more.py")).read()) if os.path.exists(os.path.join(HERE, "catalogue_more.py")) else None


def main():
    claimed = [p for p in P if p["pid"] in registry.PROPERTIES]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["pid"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "./setup.sh",
         "checks": [{"property": p["pid"], "quick_cmd": "./check.py %s" % p["pid"], "thorough_cmd": "./check.py %s --thorough" % p["pid"],
                     "technique": p["technique"], "level": registry.PROPERTIES[p["pid"]]["level"], "level_note": p["note"]} for p in claimed],
         "not_applicable": [{"property": a, "reason": b} for a, b in NOT_APPLICABLE],
         "notes": "No hooks in /repo: the checks compile the sources of /repo as they are. known_findings.json lists defects that are recorded or were repaired."}
    unclaimed = {p["pid"] for p in P} - {p["pid"] for p in claimed} - {a for a, _ in NOT_APPLICABLE}
    if unclaimed:
        print("neither claimed nor not applicable:", sorted(unclaimed))
    missing = set(registry.PROPERTIES) - {p["pid"] for p in P}
    if missing:
        print("no text for:", sorted(missing))
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for p in P:
        assert len(p["title"]) <= 80, p["pid"]
        n = p["statement"].count(". ") + 1
        if n > 3:
            print(p["pid"], n, "sentences")
    try:
        import jsonschema
        jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
        for line in open(os.path.join(ROOT, "properties.jsonl")):
            jsonschema.validate(json.loads(line), json.load(open("/root/.vp/PROPERTIES.schema.json")))
    except ImportError:
        print("jsonschema not available: not validated")


main()
