#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json: one place for what is claimed.  Run it after editing; both files are committed."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def m(*a):
    return [{"name": n, "where": w} for n, w in a]


P = []


def prop(id, title, statement, over, quant, why, files, mech, level_note=None, technique=None, na=None, hook=None):
    P.append({"p": {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
                    "anchors": {"files": files, "mechanism": mech, "hook_needed": hook}}, "note": level_note, "tech": technique, "na": na})


SEED = "Every execution is the real program, compiled from /repo/src with the simulator's seams, driven by one seed; evidence counts the seeds, faults and distinct behaviours."

prop("C01", "Results do not depend on the number of threads or on their interleaving",
     "Run with the same settings, mesh and seed, the program gives the same accepted time steps, magnetizations, evolution rows and saved configurations whatever the "
     "number of threads that share each parallel loop and however these are interleaved. The only difference allowed is that of rounding errors summed in another order.",
     ["schedules", "configurations", "fault_sequences"], "every split of every parallel loop over 2 to 6 threads, every interleaving of the threads' memory accesses, failed solves included",
     "The tests run with whatever the scheduler of the machine does, on one or a few loops, and cannot choose an interleaving; a lost update shows once in many runs.",
     ["src/linear_algebra.cpp", "src/solver.h", "src/mesh.cpp", "src/mesh.h", "src/energy.cpp", "src/algebra/sparseMat.h", "src/algebra/algebra.h", "src/spinAccumulationSolver.cpp"],
     m(("each element writes only its own data in the parallel loops", "src/linear_algebra.cpp, prepareElements"), ("row locks during concurrent assembly", "src/algebra/sparseMat.h"),
       ("reductions instead of shared accumulators", "src/energy.cpp, src/mesh.cpp")),
     "Seeded search over chunkings and, with instrumented memory accesses, over preemptions biased to conflicting accesses. " + SEED,
     "deterministic simulation: seeded thread schedules against the one-thread execution")

prop("C02", "Matrices assembled and applied by several threads are exact under any schedule",
     "A sparse matrix filled by several threads at once holds, for each coefficient, the exact sum of all the contributions, and its products with vectors are exact, whatever the "
     "interleaving. This also holds when the same matrix is cleared, filled again and partly overwritten.",
     ["schedules", "inputs", "histories"], "every interleaving of 2 to 6 threads that add element contributions, including many to the same row; histories of clear, fill, overwrite and multiply",
     "The unit tests fill matrices from one thread, or in parallel without control of the interleaving.",
     ["src/algebra/sparseMat.h", "src/algebra/algebraCore.h"], m(("a lock per row around the search and the addition", "src/algebra/sparseMat.h, add()"), ("products row by row", "src/algebra/sparseMat.h, mult()")),
     "Integer contributions make the oracle exact; preemption may come before any memory access of the header's code. " + SEED,
     "deterministic simulation: seeded preemption at memory accesses, exact reference sums")

prop("C03", "Linear solvers report convergence only for solutions, and always stop",
     "An iterative solve ends within the number of iterations allowed whatever the system, and reports success only if the vector returned is finite, satisfies the system to the tolerance asked, "
     "and holds the prescribed values at the prescribed places. A well-conditioned system is solved, whatever was solved before, and giving up early is never reported as having used up the iterations.",
     ["inputs", "schedules", "fault_sequences"], "systems that are well conditioned, badly scaled, singular, inconsistent, indefinite or contain undefined values; any tolerance, iteration limit, first guess and set of prescribed values; several threads",
     "The unit tests solve a few well-behaved systems.",
     ["src/algebra/bicg.h", "src/algebra/cg.h", "src/algebra/iter.h", "src/algebra/algebra.h"],
     m(("stopping test and status", "src/algebra/iter.h"), ("breakdown tests", "src/algebra/bicg.h, src/algebra/cg.h"), ("masking of the prescribed unknowns", "src/algebra/bicg.h, src/algebra/cg.h")),
     "Systems up to 60 unknowns; residuals recomputed independently. " + SEED, "deterministic simulation: poisoned systems and seeded schedules, independent residual")

prop("C04", "SIGINT or SIGTERM stops the run at a step boundary, last accepted state saved",
     "When SIGINT or SIGTERM arrives during the time integration, at any instant, the program finishes the step under way, attempts no other, saves the last accepted state completely and with its time "
     "(if configurations are to be saved at all), and then dies of that signal. The outputs written before are those of the undisturbed run up to that time, and a signal that comes when nothing is left to do changes nothing.",
     ["schedules", "fault_sequences", "histories"], "every instant of arrival (allocation, file operation, clock reading, solve, rejected attempt), one or two signals, after any sequence of failed and rejected attempts",
     "No test sends a signal.", ["src/time_integration.cpp", "src/main.cpp", "src/save.cpp"],
     m(("flag set by the handler and tested once per step", "src/main.cpp, src/time_integration.cpp"), ("saving of the last accepted state at exit", "src/time_integration.cpp, exit_if_signal_received")),
     "Signals are delivered at simulator events. " + SEED, "deterministic simulation: signals injected at seeded instants, history against the undisturbed execution", hook="accepted states and attempts (FEELLGOOD_SIM)")

prop("C05", "A crash at any instant loses nothing that was due, and the run can be redone",
     "If the process dies at any instant, every evolution row and saved configuration of the output times reached before the last step attempted is complete on disk, and every file left is the beginning of what the undisturbed run writes. "
     "Starting the program again over what is left, any number of times, ends with exactly the outputs of an undisturbed run.",
     ["crash_points", "histories", "fault_sequences"], "death before, after and in the middle of every file operation, or between them; up to three deaths in a row; failed solves before",
     "No test kills the program.", ["src/time_integration.cpp", "src/save.cpp", "src/main.cpp"],
     m(("evolution rows flushed as they are written", "src/save.cpp, saver()"), ("configurations closed before the run goes on", "src/save.cpp, savesol()"), ("existing output directory accepted", "src/main.cpp, create_dir_if_needed")),
     "Process death, not power failure: what was handed to the system survives. " + SEED, "deterministic simulation: crash and restart at seeded points, byte-wise reference", hook="accepted states (FEELLGOOD_SIM)")

prop("C06", "Exit status 0 means that everything asked for is on disk",
     "If any output cannot be written, for want of space, permission, descriptors or memory, or because of an input/output error, reported at once or when the file is closed, the program stops before the next time step with a non-zero status. "
     "Conditions that are no errors (short writes, interrupted writes, a directory that appears meanwhile) change nothing, and what is written before a failure is the beginning of what should be.",
     ["fault_sequences", "configurations"], "every file operation of a run may fail with every error POSIX allows there, once or from then on; allocations may fail; also after a signal",
     "No test makes a file operation fail.", ["src/save.cpp", "src/main.cpp", "src/time_integration.cpp", "src/electrostatSolver.cpp"],
     m(("stream states tested after writing and closing", "src/save.cpp"), ("directory creation tested", "src/main.cpp")),
     "Standard output is not faulted. " + SEED, "deterministic simulation: seeded file-system and allocation faults, byte-wise reference")

prop("C07", "A saved configuration can be started from, and is what the run starts from",
     "A run told to start from a configuration that an earlier run saved, at an output time or when interrupted, starts from exactly the magnetization saved, at the time saved (unless another is given), and goes on as the scheme does from that state. "
     "A configuration file that is cut short, lacks its time, lacks, repeats or misorders nodes, leaves the magnetization of a magnetic node undefined, or cannot be read, is refused before anything is written.",
     ["histories", "crash_points", "fault_sequences", "inputs"], "files saved at any output time or signal, with any metadata, spin columns or not, negative times; cut at any byte; read in any pieces, with read errors",
     "The tests read one configuration file on one mesh and never run the cycle.", ["src/read.cpp", "src/save.cpp", "src/fem.h", "src/settings.cpp", "src/mesh.h"],
     m(("header and row validation", "src/read.cpp, readSol"), ("initial time taken from the file", "src/fem.h")),
     "Altered digits cannot be detected and are not tried. " + SEED, "deterministic simulation: save, interrupt, damage and restart histories against a reference model", hook="initial and accepted states (FEELLGOOD_SIM)")

prop("C08", "Adaptive time stepping keeps its contract whatever solves fail",
     "Every step tried lies between the minimal and maximal time steps and never goes past the next output time; a failed solve is never accepted and is retried with at most half the step, and no accepted step moves the magnetization by more than the limit. "
     "There is exactly one evolution row per output time reached, at that exact time and with that state's numbers, the configurations are saved at the period asked, and the counts of successful and failed steps shown are right. "
     "The run ends with status 0 at the final time, or with status 1 once the failures leave no step above the minimum, never otherwise and never without end.",
     ["fault_sequences", "histories", "configurations"], "any pattern of failed solves (sporadic, in bursts, for ever) mixed with steps rejected by the dynamics; any output step, final time, initial time and limits",
     "The tests of the stepper feed it a few sequences; none runs the integration with failing solves.", ["src/time_integration.cpp", "src/time_integration.h", "src/log-stats.h"],
     m(("the stepper's prediction and retry rules", "src/time_integration.cpp"), ("acceptance test", "src/time_integration.cpp, Fem::time_integration")),
     "Solver failures are injected by overriding the status of the iteration. " + SEED, "deterministic simulation: seeded failure sequences, history checks on every attempt", hook="attempts and accepted states, solver status (FEELLGOOD_SIM)")

prop("C09", "Each accepted step is the scheme's step from the last accepted state",
     "Whatever attempts failed or were rejected before it, each accepted state is the one that the time scheme gives from the last accepted state, with the applied field at that time, the material of each region and the step length used. "
     "The initial state is the one configured.",
     ["histories", "fault_sequences", "configurations", "inputs"], "random meshes, materials (exchange, uniaxial, cubic and surface anisotropy), applied fields of space and time, spin torques, interleaved with any pattern of failed and rejected attempts; the three build options of the scheme",
     "The unit tests compare single element formulas; the tests of the whole need an external library and a few minutes for one problem without failures.",
     ["src/time_integration.cpp", "src/solver.cpp", "src/linear_algebra.cpp", "src/tetra.cpp", "src/triangle.cpp", "src/fem.h", "src/mesh.h", "src/node.h", "src/fmm_demag.h", "src/recentering.cpp"],
     m(("accepted and trial values kept apart in each node", "src/node.h"), ("state advanced only after acceptance", "src/time_integration.cpp"), ("assembly and solution in the tangent plane", "src/solver.cpp, src/tetra.cpp")),
     "The oracle is an independent dense implementation of the scheme; tolerance 3e-6 of the step length. The far-field library is replaced by a direct sum. " + SEED,
     "deterministic simulation: seeded failures, every step against an executable reference model", hook="attempts and accepted states, solver status (FEELLGOOD_SIM)")

prop("C10", "Magnetization keeps unit length on magnetic nodes and exists nowhere else",
     "After every accepted step, recentering, interruption and restart, in memory and in every configuration saved, the magnetization has unit length on each node of a magnetic region and is undefined on every other node.",
     ["histories", "fault_sequences", "inputs"], "long steps, loose solver tolerances, failed solves, recentering, interruption and restart from saved files, regions without magnetization",
     "The tests normalise single vectors.", ["src/node.h", "src/time_integration.cpp", "src/read.cpp", "src/save.cpp", "src/mesh.h", "src/recentering.cpp"],
     m(("normalisation of the new value", "src/node.h, make_evol"), ("undefined values on non-magnetic nodes", "src/mesh.h, src/read.cpp")),
     SEED, "deterministic simulation: invariant on every accepted state over faulty histories", hook="accepted states (FEELLGOOD_SIM)")

prop("C11", "Every value written at an output time is that of the state at that time",
     "Each row of the evolution file gives, in the columns asked for and in their order, the time, step, averages (global or by region), rates, angles, lengths, applied field and energies of the state accepted at that time; each configuration saved holds its magnetization, scalar "
     "potential and spin accumulation, its time, and the header that was configured. This holds after failed and rejected attempts, interruptions and interrupted writes.",
     ["histories", "fault_sequences", "configurations"], "any set of columns and regions, fields of time and space, spin accumulation, build options; failed attempts, signals and short writes in between",
     "The unit tests evaluate some energies of one element or of a fixed mesh; no test reads an evolution row.", ["src/save.cpp", "src/energy.cpp", "src/mesh.cpp", "src/mesh.h", "src/settings.cpp", "src/electrostatSolver.cpp", "src/spinAccumulationSolver.cpp"],
     m(("evaluation of the columns at output times", "src/save.cpp, saver()"), ("headers", "src/settings.cpp, evolMetadata, solMetadata")),
     "Values are compared with an independent model evaluated on the recorded state. " + SEED, "deterministic simulation: outputs of faulty histories against a reference model", hook="accepted states (FEELLGOOD_SIM)")

prop("C12", "The settings, the mesh and the seed decide the results; the environment does not",
     "Two runs with the same settings, mesh, seed and number of threads write the same bytes, dates and host name apart, whatever the contents of fresh memory, the clock and its jumps, the host, the process number, the verbosity, and the time zone. "
     "A run without a seed prints the one it chose, which reproduces it, and another seed changes the results only within the tolerance of the solver.",
     ["configurations", "histories", "fault_sequences"], "fill patterns of heap and stack, clocks that jump or stand still, host names that cannot be had, failed solves",
     "The tests never run the program twice, nor with poisoned memory.", ["src/main.cpp", "src/settings.cpp", "src/solver.cpp", "src/chronometer.cpp", "src/mesh.h", "src/tetra.h", "src/fem.h"],
     m(("one seeded generator", "src/main.cpp"), ("members initialised", "src/settings.cpp, src/fem.h, src/linear_algebra.h")),
     "Addresses are not varied. " + SEED, "deterministic simulation: the same seed in differing simulated environments, byte-wise")

prop("C13", "In a constant field the total energy does not increase",
     "For a body of one magnetic material with uniaxial or surface anisotropy and damping, in an applied field that is constant in time, the total energy written does not increase from one output to a later one beyond half a percent of the energy scale, "
     "whatever failed and rejected attempts the steps went through.",
     ["histories", "fault_sequences", "inputs"], "random meshes, initial states, materials with damping at least 0.1, step limit at most 0.05, uniform fields and fields of space; any pattern of failed solves",
     "One test of the whole needs an external library; none looks at the energy along a run.", ["src/tetra.cpp", "src/triangle.cpp", "src/energy.cpp", "src/solver.cpp", "src/time_integration.cpp", "src/fmm_demag.h"],
     m(("implicit scheme with the same energy terms as those written", "src/tetra.cpp, src/energy.cpp")),
     "Half a percent covers the discrete demagnetizing field; measured over 12000 clean cases. " + SEED, "deterministic simulation: conservation law over faulty histories", hook="solver status (FEELLGOOD_SIM)")

prop("C14", "Spin torque at each step is that of the current magnetization, without memory",
     "With spin accumulation, each accepted step uses the spin accumulation that the diffusion equation gives for the magnetization reached, whatever solves failed before it; a solve that fails leaves no torque for that step, and its effect does not outlast it. "
     "The saved configurations hold that spin accumulation, and if the very first solve fails the program ends with a non-zero status before any step.",
     ["fault_sequences", "histories"], "any pattern of failed spin solves and failed or rejected time steps, interruptions; random conductors, currents and build options",
     "The tests of the spin solver do one solve.", ["src/spinAccumulationSolver.cpp", "src/spinAccumulationSolver.h", "src/electrostatSolver.cpp", "src/time_integration.cpp", "src/solver.h"],
     m(("matrix and right-hand side emptied before each solve", "src/spinAccumulationSolver.cpp"), ("spin accumulation reset on failure", "src/spinAccumulationSolver.cpp, src/time_integration.cpp")),
     "The oracle solves the same equations densely; tolerance 5e-6 of the step. " + SEED, "deterministic simulation: seeded failures of the spin solves against a reference model", hook="solver status, accepted states (FEELLGOOD_SIM)")

prop("C15", "Recentering moves the wall along the axis chosen, exactly when due",
     "When recentering is enabled and the average magnetization along the chosen axis reaches the threshold after an accepted step, the run goes on from the magnetization translated along that axis by the amount that centres the wall, values beyond the end being those at the end. "
     "Below the threshold, on the other axes and when disabled, nothing is moved; if there is no wall when one is needed the program ends with status 1.",
     ["histories", "fault_sequences", "inputs"], "walls across any axis, off-centre meshes, non-magnetic regions, failed attempts around the recentering",
     "No test recentres.", ["src/recentering.cpp", "src/time_integration.cpp", "src/fem.h", "src/mesh.h"],
     m(("search of the nearest node to the translated position", "src/recentering.cpp"), ("call after acceptance", "src/time_integration.cpp")),
     "What the next step starts from is seen through its result, up to max(du) of at most 0.02. " + SEED, "deterministic simulation: history check on every accepted state", hook="accepted states (FEELLGOOD_SIM)")

prop("C16", "No input and no fault makes the program touch memory that is not its own",
     "Whatever the settings, the mesh, the configuration it starts from and the arguments, and whatever fails while it runs (allocations, solves, disk operations, an interruption), "
     "the program never reads or writes outside the objects it has, uses none after its end, and does nothing that C++ leaves undefined: it goes on, or ends saying why.",
     ["inputs", "fault_sequences", "histories"], "altered settings, meshes, configurations and arguments; failing allocations, solves and disk operations; signals; recentering, spin accumulation, space fields",
     "The tests feed well formed inputs and no faults, without instrumentation.", ["src/settings.cpp", "src/read.cpp", "src/save.cpp", "src/mesh.cpp", "src/mesh.h", "src/meshUtils.h", "src/algebra/sparseMat.h", "src/recentering.cpp", "src/main.cpp"],
     m(("validation of settings and meshes", "src/settings.cpp, src/read.cpp, src/meshUtils.h"), ("indexing of nodes, elements and matrix rows", "src/mesh.cpp, src/algebra/sparseMat.h")),
     "The libraries are not instrumented; what goes wrong inside of them is left out. " + SEED, "deterministic simulation: seeded faults and altered inputs on an instrumented build of the whole program (bounds, lifetimes, undefined behaviour as invariants)")

prop("C17", "Settings and mesh are taken as given, whole or not at all, however they arrive",
     "The settings of a run are those of the settings file, completed by the user's defaults file and then by the built-in defaults, the same from a file as from standard input and however their bytes arrive. "
     "If the settings or the mesh cannot be read to the end, or the settings are of the wrong kind or name regions that the mesh does not have, the program ends with a non-zero status before computing or writing anything; the options that only inform write no file.",
     ["fault_sequences", "inputs", "configurations"], "any division of the settings between the two files, with values overridden or not; reads in any pieces, read errors at any of them; meshes cut at any byte",
     "The tests parse fixed strings, in one piece and in one layer.", ["src/settings.cpp", "src/main.cpp", "src/read.cpp"],
     m(("layered reading", "src/settings.cpp, Settings::read"), ("read errors tested", "src/settings.cpp"), ("mesh checks", "src/read.cpp")),
     "Permanent read errors of the mesh are not tried: the mesh library does not return. " + SEED, "deterministic simulation: seeded delivery and read faults, metamorphic comparison of whole runs")

prop("C18", "A run creates and changes its own output files, and nothing else",
     "The only files a run creates or changes are its evolution file and its numbered configurations, in the output directory that it creates when needed, the configuration saved when interrupted, and the "
     "electrostatic potential when asked for. Its inputs and every other file are left as they were, also files with similar names, and nothing is removed, however the run ends; "
     "a run that is refused or only informs writes no result.",
     ["histories", "crash_points", "fault_sequences", "configurations"], "directories of any form, existing or not, base names of any form, files of other runs around; normal end, signals, death, disk errors, failed solves, refused inputs",
     "The tests write in one directory and look at nothing else.", ["src/main.cpp", "src/save.cpp", "src/settings.cpp", "src/time_integration.cpp", "src/electrostatSolver.cpp", "src/spinAccumulationSolver.cpp"],
     m(("output names", "src/save.cpp, src/time_integration.cpp, src/settings.cpp"), ("creation of the directory", "src/main.cpp, create_dir_if_needed")),
     "What is outside the directory of the run is watched through the calls the program makes. " + SEED, "deterministic simulation: seeded ends and faults, comparison of the whole directory before and after")

prop("C19", "The results are those of the body described, not of the way it is described",
     "The same body, with the same materials, initial state and applied field, gives the same run (steps, states, outputs) whatever the numbering of the nodes in the mesh file, the order, orientation and "
     "grouping of the elements, the order of the regions, the unit of length, the place of the body in space, and the names of its axes, in particular after rejected and failed steps.",
     ["inputs", "histories", "fault_sequences", "configurations"], "meshes renumbered, reordered, reoriented, split in entities, moved, turned by a cyclic change of axes, in other units; with rejected steps and failed solves on the way",
     "The tests use one description of each mesh.", ["src/mesh.cpp", "src/read.cpp", "src/triangle.cpp", "src/tetra.cpp", "src/solver.cpp", "src/energy.cpp", "src/save.cpp", "src/node.h"],
     m(("mesh reading and indexing", "src/read.cpp, src/mesh.cpp"), ("time step and energies", "src/linear_algebra.cpp, src/solver.cpp, src/energy.cpp"), ("outputs", "src/save.cpp")),
     "Recentering is left out (nearest nodes at equal distance are a matter of numbering); cubic anisotropy and Thiele_length are left out where axes are turned. " + SEED,
     "deterministic simulation: seeded changes of description and solver faults, comparison of two executions state by state")
prop("C20", "What a run holds does not grow with its length",
     "The memory and the open files that a run holds between two time steps stay bounded however many steps are made, rejected, failed, saved, recentered: a run can be as long as wanted.",
     ["histories", "fault_sequences"], "runs of up to 3000 attempted steps with failed and rejected steps, failed spin solves, saved configurations, recentering",
     "The tests make no run of any length.", ["src/time_integration.cpp", "src/linear_algebra.cpp", "src/solver.cpp", "src/save.cpp", "src/recentering.cpp", "src/expression_parser.cpp", "src/spinAccumulationSolver.cpp", "src/fmm_demag.h"],
     m(("time loop", "src/time_integration.cpp"), ("solvers' matrices and vectors", "src/solver.h, src/linear_algebra.cpp, src/spinAccumulationSolver.cpp"), ("interpreter's stack", "src/expression_parser.cpp"), ("files", "src/save.cpp, src/time_integration.cpp")),
     "ScalFMM is a stub, whose memory is not that of the real one. " + SEED, "deterministic simulation: seeded long runs and solver faults, live memory and descriptors recorded at each step attempted")

prop("C21", "A mesh that is not a body is refused before anything is computed",
     "A mesh whose tetrahedrons are flat, repeat a node, are given twice or meet three at a face, whose named surfaces have triangles given twice, inside of a region or off the body, which contains elements of other kinds, "
     "or whose node numbers have holes, is refused with a non-zero status and a message: no step is attempted and no result is written, wherever in the file the defect is and however the file arrives.",
     ["inputs", "fault_sequences", "configurations"], "one defect of eleven kinds anywhere in meshes of one to five regions, named surfaces and interfaces; the file read whole or in pieces",
     "The tests try a few hand-made meshes.", ["src/read.cpp", "src/mesh.cpp", "src/tetra.cpp", "src/mesh.h"],
     m(("checks of the elements", "src/read.cpp, checkMeshFile, readNodes"), ("checks of the faces", "src/mesh.cpp, controlTriangles, diffTriHandler, assertNoErrInTriangle"), ("flat tetrahedrons", "src/tetra.cpp, orientate")),
     "Meshes have up to about a hundred nodes, one defect each. " + SEED, "deterministic simulation: seeded damage of the mesh on its way in, whole program run under the simulator")

# --- not applicable
NA = "a pure function of its input: no schedule, clock, fault or history enters, so simulation would be input generation under another name"
prop("C31", "Settings printed by the program can be read back as the same settings",
     "Printing the settings in force and reading the text printed gives the same settings.", ["inputs", "configurations"], "every settings file", "Tests print a few settings.",
     ["src/settings.cpp"], m(("printing of every setting", "src/settings.cpp, toYaml")), na=NA)
prop("C32", "Expressions and functions in the settings have their JavaScript meaning",
     "The initial magnetization and applied field evaluate as the JavaScript they are written in, at every point and time.", ["inputs", "programs"], "every expression", "Tests evaluate a few.",
     ["src/expression_parser.cpp"], m(("embedded interpreter", "src/expression_parser.cpp")), na=NA)
prop("C33", "Element integrals are exact for the polynomials of the scheme",
     "The volume and surface integrals of one element equal those of the interpolated fields to rounding.", ["inputs"], "every element shape and nodal value", "Tests sample a few elements.",
     ["src/tetra.cpp", "src/triangle.cpp"], m(("Gauss rules", "src/tetra.h, src/triangle.h")), na=NA + "; their use along a run is part of C09 and C11")
prop("C34", "The far-field library gives the demagnetizing field to its stated accuracy",
     "The potential computed by the fast multipole library differs from the direct sum by less than its stated accuracy, on any number of threads.", ["inputs", "schedules"], "every mesh and magnetization",
     "Needs the library.", ["src/fmm_demag.h"], m(("fast multipole kernel", "src/fmm_demag.h")), na="the library (ScalFMM) is not installed here and cannot be fetched; the simulator has to replace it by the direct sum")
prop("C35", "Companion scripts convert and plot outputs faithfully",
     "The Python tools read every output file the program writes and convert it without loss.", ["inputs"], "every output file", "They have no tests here.",
     ["tools/fg-sol2vtk", "tools/fg-plot", "python-modules/core.py"], m(("parsers of the output formats", "tools/")), na=NA + "; their dependencies are not installed either")

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x["p"]) + "\n")
    man = {"version": 1, "setup_cmd": "python3 vf/build.py plain",
           "hooks": {"guard": "FEELLGOOD_SIM", "enable": "vf/build.py compiles /repo/src with -DFEELLGOOD_SIM (and its own parallel back end) outside /repo",
                     "source_commits": ["2702bfa", "9e38409"]},
           "checks": [{"property": x["p"]["id"], "quick_cmd": "python3 check.py %s" % x["p"]["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % x["p"]["id"],
                       "technique": x["tech"], "level": "exploration", "level_note": x["note"]} for x in P if not x["na"]],
           "not_applicable": [{"property": x["p"]["id"], "reason": x["na"]} for x in P if x["na"]],
           "notes": "See DESIGN.md. Replays: python3 check.py <id> --replay <file>. Seeds: VERIF_SEED or --seed."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
