"""Writes properties.jsonl (kept as a program so that the text is diffable)."""
import json
import os

P = "src/qutip_qtrl/"


def prop(id, title, statement, over, text, why, files, state, mech, observe):
    return {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [P + f for f in files],
            "state": [
                {"name": a, "meaning": b, "where": P + c} for a, b, c in state
            ],
            "mechanism": [{"name": a, "where": P + b} for a, b in mech],
            "observe_at": observe, "hook_needed": None,
        },
    }


PROPS = [
    prop(
        "C01", "Computed values always belong to the pulse that is applied",
        "After any history of pulse updates, queries, failed computations, target, time grid or phase option changes "
        "with re-initialisation, the fidelity error, its gradient and gradient norm, and every generator, propagator "
        "and evolution operator that the dynamics reports (under current or deprecated names) are those of the control amplitudes applied last. "
        "An exception raised inside a computation never leaves a stale or half-updated value behind that a later query returns, "
        "and arrays that the caller changes after handing them over do not change what is applied. "
        "A trace difference error, or an entry of its gradient, that overflows at some pulse is infinite, never not-a-number, and leaves nothing behind.",
        ["histories", "inputs", "configurations", "fault_sequences"],
        "all operation histories over update / query / accessor / re-initialise, all amplitude sequences, all dynamics, propagator, fidelity "
        "and operator-type configurations, with a failure at any linear algebra call",
        "The tests compute each value once on a fresh object; results are cached behind several 'current' flags that only a history of updates, "
        "repeats and failures can desynchronise.",
        ["dynamics.py", "tslotcomp.py", "fidcomp.py", "propcomp.py", "optimizer.py"],
        [("ctrl_amps / evolution current / fidelity current / gradient current", "cache validity flags", "dynamics.py"),
         ("cached qobj lists", "public copies of the operators", "dynamics.py")],
        [("amplitude comparison decides what is recomputed", "tslotcomp.py"), ("clear on change", "fidcomp.py"),
         ("flags for the current evolution", "dynamics.py")],
        ["Dynamics accessors, FidelityComputer.get_fid_err / get_fid_err_gradient, Optimizer wrappers"],
    ),
    prop(
        "C02", "The result object describes the optimisation that ran",
        "However an optimisation ends, its result is consistent: evolving the system under the final amplitudes gives the reported final evolution and "
        "fidelity error, the initial amplitudes likewise, the final pulse is one that the algorithm evaluated or returned, "
        "and the CRAB parameters left in the pulse generators reproduce the final amplitudes. "
        "A result is a snapshot: nothing done afterwards with the same objects changes it.",
        ["inputs", "schedules", "histories", "fault_sequences", "configurations"],
        "all minimiser behaviours (any sequence of evaluations, callbacks, returned point and status), all ways of ending, all problems, all later uses of the objects",
        "The tests look at fid_err of converging runs; the result after a termination by limit, time or a point other than the last evaluated one is never compared with the physics.",
        ["optimizer.py", "optimresult.py", "pulseoptim.py", "pulsegen.py", "dynamics.py"],
        [("OptimResult", "what the user gets", "optimresult.py")],
        [("common result attributes", "optimizer.py"), ("initial values recorded at the start", "optimizer.py")],
        ["attributes of the returned OptimResult"],
    ),
    prop(
        "C03", "Termination conditions are enforced and truthfully reported",
        "An optimisation never continues once an evaluation reached the fidelity target, once a completed iteration found the time limit exceeded, or once the fidelity or gradient-norm limits are hit, and it is never stopped by a condition that was not met. "
        "The result names the condition that really ended it: goal achieved exactly when an evaluation reached the target, time limit flag exactly when the limit was exceeded at an iteration, at most one cause, and a reason text to match. "
        "Iteration and call limits and the options of the method given by the user reach the minimiser that runs, a goal given as fidelity is the target, and limits changed between runs are those of the next run.",
        ["schedules", "inputs", "fault_sequences", "configurations"],
        "all timings of the clock relative to the iterations (stalls, slow computation), all sequences of objective values and minimiser decisions, all settings of the limits",
        "Tests use the real clock and converging problems; which limit trips first depends on time and on the order of evaluations.",
        ["optimizer.py", "termcond.py", "errors.py", "pulseoptim.py"],
        [("termination conditions", "limits in force", "termcond.py"), ("call and iteration counters", "compared with the limits", "optimizer.py")],
        [("exceptions raised in the callbacks unwind the minimiser", "optimizer.py"), ("interpretation of the termination exception", "optimizer.py")],
        ["OptimResult flags and termination_reason"],
    ),
    prop(
        "C04", "Counters and timings are exact",
        "The numbers of iterations, fidelity and gradient calls in the result, and every counter in the statistics, equal the number of such events that happened in this run, "
        "amplitude-change counters equal the element-wise differences of the successive pulses, and means are those quotients. "
        "Every wall time reported equals the time that the clock advanced in that phase, and the phases sum to no more than the time that the call took. The printed report shows the same figures.",
        ["schedules", "histories", "inputs"],
        "all minimiser call sequences, all distributions of time over the phases, all repeats on the same objects",
        "No test checks a statistic; times cannot be asserted against the real clock.",
        ["stats.py", "optimizer.py", "tslotcomp.py", "fidcomp.py"],
        [("Stats", "counters and accumulated times", "stats.py")],
        [("incremented at each event", "optimizer.py"), ("clock read around each phase", "tslotcomp.py"), ("clock read around the gradient", "fidcomp.py")],
        ["OptimResult.stats, num_iter, num_fid_func_calls, wall_time"],
    ),
    prop(
        "C05", "Observing an optimisation does not change it",
        "Collecting statistics, dumping (in memory or to files), any logging level, unitarity checks, reading results or operators between evaluations, and the speed of the clock "
        "do not change the optimisation: the points evaluated, the values returned to the minimiser and the result are identical to those of the same run unobserved.",
        ["configurations", "schedules", "inputs"],
        "all combinations of observers, all points of the run at which they act, all problems and algorithms",
        "Tests never run the same optimisation twice with different observers and compare every evaluation.",
        ["stats.py", "dump.py", "tslotcomp.py", "optimizer.py", "dynamics.py", "logging_utils.py", "fidcomp.py"],
        [("dump / stats objects", "attached observers", "dynamics.py")],
        [("observers guarded by if stats / if dump / if log_level", "tslotcomp.py")],
        ["values crossing the interface to the minimiser; OptimResult"],
    ),
    prop(
        "C06", "Dumps are complete and faithful, in memory and on disk",
        "With dumping on, every evaluation, gradient, iteration and recomputed evolution appears exactly once and in order in the dump with the value it had, with nothing that was not asked for. "
        "When writing to files, whatever was recorded before a crash or a failed write is on disk at that point in the documented file of the configured directory, short writes lose nothing, "
        "and a writeout after the fault has cleared makes the files (or the one file, stream or file of a single record asked for) equal to the records in memory. The log names a dump as saved exactly when it was written out.",
        ["crash_points", "fault_sequences", "histories", "configurations"],
        "all crash points and file system faults during an optimisation, all dump levels and file name and directory settings, all operator types",
        "The dump tests check that files exist after a fault-free run.",
        ["dump.py", "tslotcomp.py", "optimizer.py"],
        [("log lists", "in-memory dump", "dump.py"), ("dump files", "durable copies", "dump.py")],
        [("append then write and close per entry", "dump.py"), ("deep copies", "dump.py")],
        ["dump lists and files"],
    ),
    prop(
        "C07", "Failures of output files do not harm the optimisation",
        "If the amplitude files requested from a pulse optimisation cannot be written, the optimisation still runs to its normal end and returns the same result, and the log reports the failure and names as written only the files that were. "
        "Creating an output directory reports success exactly if a usable directory exists afterwards, also when other processes create a directory or a file of that name at the same time; "
        "if no dump directory can be made (neither the one asked for nor the default one), the dump's file output is suppressed, which is logged, and the run is otherwise unchanged.",
        ["fault_sequences", "schedules", "configurations"],
        "all file system errors at each file operation, all interleavings with another process creating the same path",
        "Tests write to a healthy directory.",
        ["pulseoptim.py", "io.py", "dump.py", "optimizer.py"],
        [("files written", "initial and final amplitudes, dump directory", "pulseoptim.py")],
        [("try/except with log around each write", "pulseoptim.py"), ("create_dir", "io.py")],
        ["OptimResult, log records, directory contents"],
    ),
    prop(
        "C08", "Pulses respect bounds, scaling and the shapes asked for",
        "For every random stream and every behaviour of the minimiser, initial pulses and optimised pulses lie within the amplitude bounds wherever bounds are documented to apply, "
        "scaling and offset are applied as documented, ramping, guess pulses and fixed or random frequencies are used as configured, "
        "and the bounds reach the minimiser one pair per control variable in the order of the variables.",
        ["inputs", "schedules", "configurations"],
        "all values the random generator can return (including the extremes), all minimiser-chosen coefficients, all one- and two-sided, zero, infinite and per-control bounds",
        "Tests sample a few random pulses with symmetric bounds.",
        ["pulsegen.py", "optimizer.py", "pulseoptim.py"],
        [("lbound / ubound / scaling / offset", "pulse generator settings", "pulsegen.py")],
        [("apply bounds and offset", "pulsegen.py"), ("bounds list", "optimizer.py")],
        ["PulseGen.gen_pulse, pulses evaluated, bounds passed to the minimiser"],
    ),
    prop(
        "C09", "Aborted or repeated optimisations leave the objects reusable",
        "An exception raised by the numerical library, memory allocation or the user interrupting an optimisation comes out unchanged and is never turned into a normal result. "
        "Running again afterwards on the same objects, after the usual re-initialisation and with any changed limits, gives exactly what fresh objects give.",
        ["crash_points", "fault_sequences", "histories"],
        "all points of a run at which an exception can arise, all sequences of runs with changed termination conditions, bounds, pulses and method",
        "Tests use each optimiser once.",
        ["optimizer.py", "dynamics.py", "tslotcomp.py", "fidcomp.py", "pulseoptim.py"],
        [("per-run state of the optimiser", "counters, options, limits", "optimizer.py")],
        [("init_optim resets per-run state", "optimizer.py")],
        ["second OptimResult and trajectory compared with fresh objects"],
    ),
    prop(
        "C10", "Concurrent optimisations in one process do not affect each other",
        "Optimisations that run at the same time in different threads, each with its own objects, evaluate the same points and return the same results as when they run one after the other, "
        "for every interleaving of their execution.",
        ["schedules"],
        "all preemptions between lines of the library's code, for problems and algorithms that draw no random numbers during the run",
        "The thread scheduler of a test run is not controlled, and no test uses threads.",
        ["optimizer.py", "dynamics.py", "tslotcomp.py", "fidcomp.py", "propcomp.py", "pulseoptim.py", "pulsegen.py", "stats.py", "dump.py"],
        [("module and class level state", "shared between all instances", "optimizer.py")],
        [("state held per instance", "dynamics.py")],
        ["trajectories and results of each thread"],
    ),
    prop(
        "C11", "Optimisations are reproducible",
        "Given the inputs and the state of numpy's random generator, an optimisation is determined: evaluations, dumps and results repeat bit for bit, whatever ran before in the process (including aborted runs), in any process, at any time, "
        "with any hash seed, directory or environment.",
        ["histories", "schedules", "configurations"],
        "all preceding uses of the library in the process, all clocks, hash seeds and processes, all problems",
        "Tests never repeat a run and compare it exactly.",
        ["pulseoptim.py", "pulsegen.py", "optimizer.py", "optimconfig.py", "dynamics.py"],
        [("numpy global random state", "only source of randomness", "pulsegen.py")],
        [("no other source of randomness or state", "pulsegen.py")],
        ["trajectory, result and random state after the run"],
    ),
    prop(
        "C12", "Arguments of the caller are read, never changed",
        "No optimisation, successful or aborted, changes the operators, arrays, lists or dictionaries that the caller passed in, and calling again with the same objects gives the same result as with fresh copies. "
        "Changing an argument after the objects have been created from it has no effect on amplitudes already handed over.",
        ["inputs", "histories", "fault_sequences", "configurations"],
        "all entry points and their argument combinations, all ends of the run including failures part way",
        "Tests build new arguments for each call.",
        ["pulseoptim.py", "optimizer.py", "dynamics.py", "pulsegen.py"],
        [("parameter dictionaries and operator lists", "owned by the caller", "pulseoptim.py")],
        [("copies made on the way in", "pulseoptim.py")],
        ["deep comparison of the arguments before and after"],
    ),
    prop(
        "C13", "Parameter files apply exactly what they say or fail cleanly",
        "Loading a parameter file sets exactly the attributes named in the section of each object given, to the value written there in the type of the attribute, and nothing else. "
        "An entry that cannot be converted or names no attribute is reported in the log, never applied, and does not affect the other sections. "
        "A missing or unreadable file raises an error and changes nothing, and reads that return their data in pieces make no difference.",
        ["inputs", "fault_sequences"],
        "all file contents within the format, including truncated ones, all read faults, all objects",
        "Tests load one well formed file.",
        ["loadparams.py", "optimconfig.py"],
        [("parameter file", "ini format", "loadparams.py")],
        [("section name to object, typed parse", "loadparams.py")],
        ["attributes of the objects after loading"],
    ),
    prop(
        "C14", "Equivalent descriptions give the same optimisation",
        "An optimisation that is described in different documented ways is the same optimisation: through optimize_pulse, the unitary and CRAB shortcuts, create_pulse_optimizer with the documented steps, or components assembled by hand; "
        "with parameters given as arguments, in dictionaries, as attributes, in a parameter file or through deprecated keywords (which never override an entry of the dictionary that replaces them); with defaults left out or spelled out; with time slots as a number and a duration or as an array, "
        "scalar bounds or lists of equal bounds, constant operators or the same operators for every time slot. It evaluates the same points, stops at the same place for the same reason and returns the same result, also when it is interrupted. "
        "The operator type, the memory and caching options and the choice between exact propagator computers change values at most within rounding.",
        ["configurations", "inputs", "schedules", "fault_sequences"],
        "all pairs of equivalent descriptions, all problems, minimiser behaviours, clocks and failures",
        "Tests exercise each entry point and option by itself, against a convergence threshold; that two routes set up the same run is never compared.",
        ["pulseoptim.py", "dynamics.py", "optimizer.py", "loadparams.py", "pulsegen.py", "propcomp.py", "fidcomp.py"],
        [("arguments of the entry points", "how an optimisation is described", "pulseoptim.py")],
        [("wrappers forward and translate their arguments", "pulseoptim.py"), ("defaults of the components", "dynamics.py"),
         ("operator type and caching options", "dynamics.py")],
        ["calls and values at the minimiser, attributes of the result, amplitude files"],
    ),
    prop(
        "C15", "Objects given a new problem behave as if made for it",
        "When the problem that existing objects describe is changed - the drift or control operators, their number or time dependence, the initial or target operator, their size or tensor structure, the time grid, the propagator or fidelity computer, the phase option or application, "
        "the operator type, the caching options or the statistics - and the controls are initialised again, everything computed and every result is exactly what newly made objects give, "
        "whatever the objects were used for before, including runs and initialisations that failed part way. Nothing cached for the earlier problem is used.",
        ["histories", "configurations", "fault_sequences"],
        "all sequences of uses, failures and changes of the problem, all problems",
        "Tests make new objects for every problem; what is kept from an earlier initialisation shows only in histories with a change in between.",
        ["dynamics.py", "tslotcomp.py", "propcomp.py", "fidcomp.py", "optimizer.py"],
        [("Dynamics, its computers and their caches", "made by initialize_controls, kept between initialisations", "dynamics.py")],
        [("initialize_controls sets everything up again", "dynamics.py"), ("computers take what the dynamics holds", "fidcomp.py")],
        ["calls and values at the minimiser, attributes of the result, operators reported by the dynamics"],
    ),
    prop(
        "C16", "GRAPE runs are exact, self-consistent and isolated",
        "grape_unitary, cy_grape_unitary and grape_unitary_adaptive start from the pulses given (clipped to the limits) and each iteration moves every amplitude by the step size times the first order change of the fidelity, less the penalties, within u_limits; "
        "the adaptive variant undoes steps that lower the overlap, returns the best pulses it found and stops exactly when the overlap passed overlap_terminate. The unitary and the Hamiltonian returned are those of the last pulses returned. "
        "The clock, the progress bar, the log level, calls made in between (from a progress bar, in other threads) and interrupted calls make no difference; an exception comes out unchanged, arguments are not changed, and results are never modified later.",
        ["inputs", "schedules", "fault_sequences", "histories"],
        "all problems and options, all points of failure, nesting and interleaving of calls",
        "Tests run one two-qubit gate to convergence; a wrong step still converges, and interruption, limits, penalties and interleaving are not exercised.",
        ["grape.py", "cy_grape.py"],
        [("u", "control pulses of all iterations", "grape.py")],
        [("update of the pulses", "cy_grape.py"), ("choice of the step in grape_unitary_adaptive", "grape.py")],
        ["GRAPEResult, calls of the progress bar, arguments after the call"],
    ),
    prop(
        "C17", "Calls leave the process as they found it",
        "Whatever sequence of calls is made - optimisations through every entry point, hand assembled runs, parameter files, output directories, pulse generators, GRAPE - and however each ends, "
        "including exceptions of the numerical libraries, of the minimiser or of a callback, interrupts and failing files, afterwards the process is what it was: numpy's error handling and print options, "
        "warnings filters, working directory, environment, umask, signal handlers and timers, garbage collector, threads, open files, the configuration of logging and qutip's settings are unchanged, "
        "nothing was written to the standard streams, no random numbers were drawn by calls that are not random, and objects that the caller dropped are freed. Importing the library changes nothing of this either.",
        ["histories", "fault_sequences", "configurations", "inputs"],
        "all sequences of calls, all points of failure, all states of the process before",
        "Tests look at results; what leaks into the rest of the program, above all from a call that failed part way, is outside what any of them looks at.",
        ["optimizer.py", "dynamics.py", "pulseoptim.py", "io.py", "dump.py", "grape.py", "pulsegen.py", "logging_utils.py", "loadparams.py"],
        [("module level loggers", "the only state the library shares with the process", "logging_utils.py")],
        [("run_optimization and its clean up", "optimizer.py"), ("create_dir", "io.py")],
        ["state of the process before and after each call, weak references to dropped objects"],
    ),
    prop(
        "C18", "What is refused is refused with an error and leaves no trace",
        "A request that cannot be fulfilled - an invalid value for a setting (dumping and its level, file names, phase option, phase application, operator type), a computer that does not fit, a run without goal, conditions, dynamics, "
        "initialised controls or with the wrong pulse generators, an incomplete or ill-typed system, a stream that cannot be written to, bounds or wavelengths that exclude each other, an unknown option of an entry point, a missing parameter file - ends with UsageError, ValueError, TypeError or RuntimeError "
        "at whatever moment it is made, also from inside a running optimisation; no optimisation is started. Once what was taken away is put back, everything goes on as if the request had never been made: same calls of the minimiser, result, statistics, settings and dumps.",
        ["histories", "inputs", "configurations", "fault_sequences"],
        "all sequences of refused requests, all moments, all problems",
        "Tests check that some of these raise, on fresh objects, and look no further; what a refused request has changed shows only in what is done with the same objects afterwards.",
        ["optimizer.py", "dynamics.py", "fidcomp.py", "dump.py", "pulsegen.py", "pulseoptim.py", "tslotcomp.py", "loadparams.py", "grape.py"],
        [("UsageError", "raised by every check of configuration", "errors.py")],
        [("init_optim", "optimizer.py"), ("initialize_controls and _init_evo", "dynamics.py"), ("phase_option", "fidcomp.py"), ("dumping", "dump.py")],
        ["trace of the minimiser, results, settings and dumps with and without the requests"],
    ),
    prop(
        "C19", "What the log reports is what happened",
        "With unitarity checking on, every recomputation of the evolution reports exactly the time slots whose propagator is not unitary within the tolerance in force (and their causes: whether the generator is Hermitian), and nothing is reported otherwise, after any history of pulses, queries, broken off computations and changes of the checking. "
        "Fidelities, errors and gradient norms in the log are those of the pulse applied, and calls and iterations are numbered without gaps. The log level asked for is the one of every component. Settings of a pulse generator that are ignored or not recommended are reported exactly then, and so is a dump configured to record nothing.",
        ["histories", "inputs", "configurations", "fault_sequences"],
        "all histories of pulses, queries, settings and failures; all problems, unitary or not at some amplitudes only",
        "Tests do not look at the log; whether a report is due depends on what was recomputed since, which depends on all earlier calls, and on the amplitudes.",
        ["dynamics.py", "tslotcomp.py", "fidcomp.py", "optimizer.py", "pulsegen.py", "pulseoptim.py"],
        [("unitarity_check_level and unitarity_tol", "checking in force", "dynamics.py"), ("log levels", "one per module", "logging_utils.py")],
        [("check_unitarity after recompute_evolution", "tslotcomp.py"), ("init_guess_pulse and init_coeffs", "pulsegen.py")],
        ["records of the module loggers", "propagators"],
    ),
]

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
