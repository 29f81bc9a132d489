#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that long lines stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": hook}})
S = "src/quanguru/"
prop("C01", "A parallel run returns exactly what the serial run returns",
     "For any simulation and any parameter sweep, running it on a pool of worker processes gives, at every sweep point, the same results, "
     "stored states and calculated quantities as running it serially, for every pool size and every order in which workers are assigned "
     "tasks, execute them and complete them. No point's result is lost, duplicated, merged with or attributed to another point, and the "
     "caller's own objects keep the parameter values they had before a parallel run.",
     ["schedules", "configurations", "inputs"],
     "every pool size >= 1, every task-to-worker assignment, execution order and completion order, every way of asking for the pool "
     "(flag, core count, existing pool, remembered core count), every simulation from the generated family",
     "The tests run serial simulations and a handful of real pools whose schedule nobody controls; completion order, worker reuse and "
     "worker assignment are whatever the machine did that day, and quantities calculated before/after an evolution are never compared.",
     [S+"classes/QSim.py", S+"classes/modularSweep.py", S+"classes/QRes.py", S+"classes/base.py"],
     [("pool creation and choice", "QSim.py:_poolMemory.run"), ("one task per sweep point", "modularSweep.py:paralEvol/parallelTimeEvol"),
      ("collecting worker results", "QRes.py:_copyAllResBlank/_organiseMultiProcRes"), ("pickling of named objects", "base.py:named.__getstate__/__setstate__")],
     [("result dictionaries", "per-object results/states/calculated", "QRes.py"), ("remembered core count", "sticky pool size", "QSim.py:_poolMemory.coreCount")],
     ["Simulation.run return value", "resultsDict", "states", "qRes.calculated"])
prop("C02", "Every sweep point is an independent, correctly indexed simulation",
     "The result stored at a given index of a (multi-parameter, simultaneous, nested) sweep equals what a separate simulation gives when its "
     "parameters are simply set to the values belonging to that index. It does not depend on which other points were computed before it or "
     "in which process, on how often the simulation was run before, or on where the point sits in the sweep; the first sweep is the outermost index and the last one varies fastest.",
     ["histories", "inputs", "schedules"],
     "every combination of swept parameters (frequencies, couplings, dimensions, spin values, angles, operators, step sizes, total times, initial states, auxiliary values), "
     "list/range/logarithmic value lists, repeated values, simultaneous and combinatorial sweeps, re-runs, edits of the sweep between runs, serial and scheduled execution",
     "State carried over from one sweep point to the next (cached matrices, averages, step counters, current states) only shows for particular sequences of values; tests sample three fixed integration scripts.",
     [S+"classes/QSweep.py", S+"classes/modularSweep.py", S+"classes/QRes.py", S+"classes/baseClasses.py"],
     [("index arithmetic", "QSweep.py:Sweep._indicesForSweep/prepare/runSweep"), ("value assignment", "QSweep.py:_sweep._defSweep, baseClasses.py:updateBase._runUpdate"),
      ("per-point reset", "modularSweep.py:_runSweepAndPrep, QRes.py:_resetLast"), ("nesting", "QRes.py:_finalise/_reShape")],
     [("sweep lengths", "one length per combinatorial group", "QSweep.py:Sweep.__inds")],
     ["resultsDict[key][i][j]...", "Simulation.run return value"])
prop("C03", "A failed or interrupted run raises and leaves no trace in later runs",
     "When a run fails part way, whatever the cause (a user callback raising, an interrupt, an allocation failure in a numerical routine, a pool that cannot be created, a failing worker task, "
     "an object that cannot be sent to a worker), the caller gets that error and never a partial result presented as complete. After the cause is removed, running the same objects again gives the same "
     "results as a session in which the failure never happened.",
     ["fault_sequences", "crash_points", "histories"],
     "every failure kind, at every callback, step, sweep point, matrix construction or exponentiation, in the parent or in any worker, one or several failed runs in a row, serial or parallel, followed by a clean re-run",
     "The tests never fail a run in the middle; the interesting states are those left behind by an exception between two lines.",
     [S+"classes/QSim.py", S+"classes/modularSweep.py", S+"classes/QPro.py", S+"classes/QRes.py", S+"classes/baseClasses.py"],
     [("pool life cycle", "QSim.py:_poolMemory.run"), ("result reset", "QSim.py:Simulation.run, QRes.py:_reset/_resetLast"), ("update set-back", "QPro.py:genericProtocol.getUnitary"),
      ("parameter-updated flags", "baseClasses.py:paramBoundBase._paramUpdated")],
     [("parameter-updated flags", "which cached matrices are valid", "baseClasses.py"), ("step index", "position in the evolution", "QSim.py:Simulation.__index")],
     ["exception from run", "results of the next run"])
prop("C04", "Callbacks run exactly once per event, in order, on that instant's state",
     "In every evolution, the preparation callbacks run once before it, the compute callbacks once at time zero and once after each time step, and the finishing callbacks once after it, always in the order "
     "simulation, then each protocol, then each distinct system once. Each compute callback receives the states of exactly that instant, one per protocol in the order the protocols were added, starting from the initial state, "
     "and everything it records is stored in call order under the name it used.",
     ["schedules", "histories", "configurations"],
     "any set of protocols and systems (several protocols per system included), callbacks on any subset of objects, any number of steps, sweep points and re-runs, stored or discarded states, serial or scheduled on workers, after failed runs",
     "Tests use one compute function on one object; repeated, skipped or mis-ordered calls at the first, last or resumed step are not observed.",
     [S+"classes/modularSweep.py", S+"classes/QSim.py", S+"classes/baseClasses.py", S+"classes/QRes.py"],
     [("callback order", "modularSweep.py:_runSweepAndPrep/timeEvolDefault"), ("states passed to compute", "QSim.py:Simulation.__compute"), ("recording", "QRes.py:singleResult/resAverage/resultsMethod")],
     [("current state", "state of each protocol", "QPro.py:genericProtocol.__currentState")],
     ["preCompute/compute/postCompute calls", "resultsDict"])
prop("C05", "Every evolution step sees its own simulated time",
     "During the k-th step of an evolution (k = 1, 2, ...) everything that depends on time sees k times the step size, and before the first step it sees zero, in every sweep point, every re-run and every worker process, also after a run that was cut short. "
     "The evolved state is the product of the per-step evolutions with the parameters at those times, and values given per step through a time-dependency sweep are applied at exactly their step.",
     ["histories", "schedules", "crash_points"],
     "every number of steps, step size, sweep point order, re-run, interruption point, serial or worker execution, time-dependent terms on any system or coupling, per-step parameter lists and functions",
     "The clock is state that survives a sweep point, a run and an exception; tests run a single time-dependent evolution from a fresh object.",
     [S+"classes/QSim.py", S+"classes/modularSweep.py", S+"classes/QSystem.py", S+"classes/QTerms.py", S+"classes/QPro.py"],
     [("clock", "QSim.py:Simulation._currentTime"), ("step loop", "modularSweep.py:timeEvolDefault/timeDependent"), ("passing time down", "QSystem.py:_timeDependency, QTerms.py:_timeDependency")],
     [("step index", "position in the evolution", "QSim.py:Simulation.__index")],
     ["time argument of timeDependency functions", "states", "timeList"])
prop("C06", "No stale matrix: reads after any change equal a fresh build",
     "After any history of changes to systems, terms, couplings, gates and protocols (parameters, operators, dimensions, structure), interleaved with reads, runs and computations that failed part way, every Hamiltonian, evolution operator, Hermitian conjugate and initial state "
     "obtained from the library equals the one a freshly built object with the same final description gives. Setting a value to what it already was never changes a result.",
     ["histories", "fault_sequences"],
     "every sequence of parameter and structure changes, reads, runs, copies, removals and re-additions, with allocation failures injected into matrix construction and exponentiation",
     "Each cache (system, term, protocol, conjugate, composite operator, initial state) is invalidated by its own rule; unit tests change one thing once, whereas a missed invalidation needs a particular read-change-read order across several objects.",
     [S+"classes/QSystem.py", S+"classes/QTerms.py", S+"classes/QPro.py", S+"classes/QGates.py", S+"classes/baseClasses.py", S+"classes/QSimBase.py"],
     [("change propagation", "baseClasses.py:paramBoundBase._paramUpdated"), ("matrix deletion", "baseClasses.py:delMatrices"), ("dimension propagation", "QSystem.py:_updateDimension/_dimsBefore/_dimsAfter"),
      ("conjugate cache", "baseClasses.py:_hc"), ("step flags", "QPro.py:qProtocol._puValues")],
     [("cached matrices and flags", "valid iff flag is down", "baseClasses.py:paramBoundBase")],
     ["totalHamiltonian", "unitary()", "initialState", "dimension"])
prop("C07", "A save that returns has stored every number; otherwise it raises",
     "When saving data or simulation results to CSV returns normally, reading the files back gives every saved number, in the same rows and order, to full precision, with nothing missing, truncated, merged or invented. "
     "If any file operation fails (disk full, I/O error, directory or file that cannot be created), or the data cannot be represented, the caller gets an error instead, and files of earlier completed saves under other names are untouched.",
     ["fault_sequences", "crash_points", "inputs"],
     "all supported data (flat, nested and ragged lists and arrays of real or complex numbers), results of unswept and swept runs, faults (short and interrupted writes, disk full, I/O error at open, write, flush, close or directory creation) at any operation",
     "The CSV functions have no tests at all, and no test makes a file operation fail.",
     [S+"extensions/saveReadCSV.py", S+"extensions/_helpers.py"],
     [("writing", "saveReadCSV.py:saveCSV"), ("reading", "saveReadCSV.py:readCSV"), ("saving results", "saveReadCSV.py:saveQResCSV/_recursiveSaveList")],
     (), ["files on disk", "readCSV", "exceptions"])
prop("C08", "Savers never overwrite each other's automatically named files",
     "Any number of saves that let the library choose the file name, made by one or several processes into the same directory, whether or not it exists yet, under any clock behaviour (coarse, standing still, jumping backwards) and any interleaving of their file operations, all succeed and leave every data set readable. "
     "No save fails or loses data merely because another one is in progress.",
     ["schedules", "fault_sequences"],
     "every interleaving of the file-system operations of concurrent savers, every clock reading sequence",
     "Needs two savers in the same clock tick or between a directory check and its creation; a test would have to win that race.",
     [S+"extensions/saveReadCSV.py", S+"extensions/_helpers.py"],
     [("default file name", "saveReadCSV.py:saveCSV"), ("directory creation", "_helpers.py:makeDir")],
     (), ["directory contents after all savers return"])
prop("C09", "A name or alias always means the same one object",
     "Looking an object up by its name or any of its aliases returns that very object at any time of the session, and inside a worker process it returns the worker's copy that takes part in the running simulation, with the parameter values of the point being computed. "
     "Default names are unique, an alias in use by another object is refused, and the same program gives the same names in every process and run. "
     "Results an object holds are found under its own name or alias, and a dictionary keyed by objects or names treats every name and alias of an object as one key.",
     ["histories", "schedules", "configurations"],
     "every history of object creation, aliasing, copying, deletion and lookup, interleaved with serial and parallel runs, failed runs and every worker assignment",
     "Lookup tables are rewritten while objects are sent to workers; tests look names up in a fresh process only.",
     [S+"classes/base.py", S+"classes/baseClasses.py", S+"classes/QRes.py"],
     [("registry", "base.py:named._allInstacesDict/getByNameOrAlias"), ("pickling of the registry", "base.py:named.__getstate__/__setstate__"), ("alias check", "base.py:named.alias")],
     [("registry of instances", "name/alias to object", "base.py:named._allInstacesDict")],
     ["getByNameOrAlias in parent and in callbacks", "name", "alias"])
prop("C10", "Every run ends, uses the requested workers and releases them",
     "A run, successful or not, ends after finitely many steps whatever the schedule, with every worker process it started shut down and every point of the sweep handed to a worker exactly once. "
     "It starts exactly the number of workers that was asked for (explicitly, through an existing pool, or remembered from the previous parallel run), none when asked to run serially, and leaves an existing pool passed in by the caller usable.",
     ["schedules", "fault_sequences", "configurations"],
     "every pool request, schedule, worker stall, worker failure, task failure and interrupt while waiting",
     "Leaked or never-joined pools, sticky settings and hangs are invisible to assertions on results.",
     [S+"classes/QSim.py", S+"classes/modularSweep.py"],
     [("pool life cycle", "QSim.py:_poolMemory.run"), ("task distribution", "modularSweep.py:paralEvol")],
     [("remembered core count", "sticky pool size", "QSim.py:_poolMemory.coreCount")],
     ["processes alive after run", "pool size", "tasks executed"])
prop("C11", "Results already handed out never change",
     "Lists, dictionaries, states and averages obtained from a finished run keep their contents for good: no later run, parameter change, failed run or save of the same or another simulation alters them. "
     "Results of different simulations, protocols and systems never mix, and discarding states removes only the stored states, never a computed quantity.",
     ["histories", "fault_sequences"],
     "every history of runs of one or several simulations sharing a session, with failures and parameter changes between them",
     "Needs results of an earlier run to be held and compared after later activity; the tests run each simulation once.",
     [S+"classes/QRes.py", S+"classes/QSim.py"],
     [("reset by replacement", "QRes.py:_reset/_resetLast"), ("final reshaping", "QRes.py:_finalise"), ("state storage", "QSim.py:Simulation.__compute")],
     [("result dictionaries", "per-object results/states", "QRes.py")],
     ["objects returned by run, resultsDict and states"])
prop("C12", "A step's temporary updates act only on that step",
     "A parameter update attached to a protocol step is in force while that step's evolution is built and nowhere else: the other steps, the system itself, other protocols and later runs see the parameter's own value, whichever sweeps, repeated steps, conjugated steps or failures occur. "
     "A step's relative duration, fixed flag, repetition and conjugation likewise affect only that step.",
     ["histories", "fault_sequences", "inputs"],
     "every composition of steps (updates on shared parameters, ratios, repeated and conjugated steps, gates, nested protocols), swept base values, failures while a step is being built",
     "The update is real mutation of shared objects followed by a set-back, so it is visible to every other step and survives an exception in between; tests check one fixed protocol without failures.",
     [S+"classes/QPro.py", S+"classes/QGates.py", S+"classes/baseClasses.py"],
     [("set-up and set-back", "QPro.py:Update._setup/_setback, genericProtocol.getUnitary"), ("step flags", "QPro.py:qProtocol._puValues"), ("repeated/conjugated steps", "QPro.py:copyStep")],
     [("memory value", "value to restore", "QPro.py:Update.__memoryValue")],
     ["unitary()", "parameter values after unitary() and run", "states"])
prop("C13", "Evolution stays physical at every step of every run",
     "At every step of every run the state of a closed system stays normalised and that of an open system stays a density matrix (Hermitian, unit trace, positive), and both follow the evolution generated by the current Hamiltonian, gates and dissipation to numerical accuracy. "
     "This holds whatever the history of parameter changes, sweeps, re-runs, failures and scheduling that preceded the step.",
     ["histories", "schedules", "fault_sequences"],
     "every run in the generated family of closed and open simulations, checked at each step as an invariant",
     "Integration tests check final numbers of a few fixed scripts; an invariant over every step of arbitrary histories is not sampled.",
     [S+"classes/modularSweep.py", S+"classes/QPro.py", S+"classes/QGates.py", S+"classes/environment.py", S+"QuantumToolbox/evolution.py"],
     [("step evolution", "modularSweep.py:timeEvolBase"), ("exponentiation", "QPro.py:freeEvolution.matrixExponentiation, evolution.py:LiouvillianExp"), ("gates", "QGates.py")],
     (), ["states at every step"])
prop("C14", "Time and state settings agree between a simulation and its parts",
     "Total time, step size, step count, initial state and the keep-states switch set on a simulation (or on a system or protocol before or after it joins one) are the ones every bound protocol and system uses, until that part is explicitly given its own value, which then stays its own. "
     "Any two of total time, step size and step count determine the third the same way in every order of assignment, sweep point and re-run.",
     ["histories", "configurations"],
     "every order of assigning time parameters and initial states to simulations, systems and protocols, joining them, sweeping them and running, serially or on workers",
     "The settings are linked objects whose links are created and broken by assignment order; tests cover a few orders on bare objects and never through runs.",
     [S+"classes/QSimBase.py", S+"classes/QSimComp.py", S+"classes/QSim.py", S+"classes/QPro.py", S+"classes/QSystem.py"],
     [("bound parameters", "QSimBase.py:_parameter, timeBase._bound"), ("derived third value", "QSimBase.py:timeBase.totalTime/stepSize/stepCount")],
     [("bound", "which simulation provides the value", "QSimBase.py:timeBase.__bound")],
     ["stepSize/totalTime/stepCount/initialState of every part", "number of stored states"])
prop("C15", "A run computes exactly what the simulation currently contains",
     "After systems, protocols and sweeps were added, replaced or removed between runs in any order, a run evolves exactly the protocols the simulation contains, in its order, over exactly the sweeps it has, calls back exactly the owners that take part, and returns states and results for exactly those. "
     "What was removed is neither evolved, swept nor reported and keeps its parameters; what is left behaves as if the removed part had never been there; an edit that cannot be carried out raises and changes nothing.",
     ["histories", "schedules", "fault_sequences", "inputs"],
     "every sequence of addSubSys/addQSystems/addProtocol/removeProtocol/removeSubSys/createSubSys/sweep edits, by object, name or alias, interleaved with serial, parallel and failing runs",
     "The composition is spread over keys that change their type at the first run, per-system default protocols, sweeps and result dictionaries; tests build a simulation once and never take anything out.",
     [S+"classes/QSim.py", S+"classes/QSweep.py", S+"classes/QRes.py", S+"classes/base.py"],
     [("adding and removing", "QSim.py:Simulation.addQSystems/removeQSystems/addProtocol/removeProtocol"), ("sweeps of removed parts", "QSweep.py:Sweep.removeSweep"), ("default protocols", "QSim.py:Simulation._freeEvol")],
     [("subSys", "protocol to system", "QSim.py"), ("sweeps", "swept objects", "QSweep.py")],
     ["simulation.qSystems, protocols, Sweep.sweeps", "states", "results", "callback order"])
prop("N01", "Operator, state and linear-algebra constructors satisfy their definitions",
     "Operators (ladder, Pauli, spin, displacement, squeezing, parity, composite), states (basis, superposition, density, Bell) and linear-algebra helpers (tensor product, partial trace, Hermitian conjugate, inner product) satisfy their defining algebraic identities for every dimension and input, in sparse and dense form.",
     ["inputs"], "every dimension and argument", "Tests sample a few dimensions.",
     [S+"QuantumToolbox/operators.py", S+"QuantumToolbox/states.py", S+"QuantumToolbox/linearAlgebra.py", S+"QuantumToolbox/spinRotations.py"],
     [("pure constructors", "QuantumToolbox/*.py")], (), ["return values"])
prop("N02", "Spectral, delocalisation and quasi-probability analyses are correct",
     "Eigen-decompositions, participation ratios, fidelities, entropies, Wigner and Q functions and random-matrix distributions computed from a given matrix or state equal their mathematical definitions for every valid input.",
     ["inputs"], "every matrix, state and grid", "Tests sample a few inputs.",
     [S+"QuantumToolbox/functions.py", S+"QuantumToolbox/eigenVecVal.py", S+"QuantumToolbox/IPR.py", S+"QuantumToolbox/quasiProbabilities.py", S+"QuantumToolbox/rmtDistributions.py", S+"QuantumToolbox/thermodynamics.py"],
     [("pure functions", "QuantumToolbox/*.py")], (), ["return values"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
