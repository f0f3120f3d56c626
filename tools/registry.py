"""Single source of the property list: writes properties.jsonl and MANIFEST.json (run: python3 tools/registry.py)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    P.append(dict(rec={"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                       "why_tests_cant": why, "anchors": a}, tech=tech, note=note))


prop("C01", "A state reported as solved obeys every circuit law",
     "Whenever a power flow is reported successful, the reported bus voltages satisfy Kirchhoff's laws and every element equation of the supplied network within the tolerance, whatever the network shape, devices and solver settings. The reported residuals are the true mismatch of the reported state, and a network that Newton's method solves easily from the given start is not reported as failed.",
     ["inputs", "configurations"], "all networks composable from the supported components, times all solver settings",
     "The tests compare a few dozen fixed cases with stored voltages; they neither recompute the circuit laws nor combine components systematically.",
     ["src/logic/powerflow.py", "src/logic/nrsolver.py", "src/logic/stamping/matrixstamper.py", "src/models/components"],
     [("Newton solve", "logic/nrsolver.py NRSolver.run_powerflow"), ("entry point", "logic/powerflow.py PowerFlow.execute")],
     "Bounded exhaustive enumeration of networks and settings, each executed end to end on the real solver and checked against an independent circuit-law model (auxiliary unknowns eliminated) and a reference Newton iteration.",
     "Real code on every case of the bounded space; parameter values are representatives.")
prop("C02", "Every component contributes its exact linearised equations",
     "At every operating point and homotopy factor, the linear system assembled for a component equals the first-order expansion of its circuit equations at that point, and its residual equals those equations' mismatch. With infeasibility analysis enabled it equals the gradient and Hessian of the Lagrangian.",
     ["inputs", "configurations"], "all component kinds, terminal connections, parameters, operating points, homotopy factors, with and without infeasibility analysis",
     "Tests look only at converged solutions of fixed cases; a wrong derivative still converges, and homotopy or multiplier terms are invisible at the solution.",
     ["src/models/components", "src/models/optimization/L2infeasibility.py", "src/logic/stamping"],
     [("component equations", "models/components/*"), ("derivation of stamps", "logic/stamping/lagrangesegment.py")],
     "Exhaustive enumeration of component kind x terminal assignment x parameter alphabet x operating-point grid x factor, real stamps compared with hand-written equations and complex-step Jacobians.",
     "Equations are rational functions, so agreement on the generic grid identifies them within the parameter alphabet.")
prop("C03", "Symbolic models turn into exact derivatives for every expression",
     "For every model written as a constrained expression, the evaluated first derivatives, matrix entries and right-hand sides reproduce the expression's gradient and its linearisation at any point. Parts declared linear do not depend on the operating point, and the answer does not depend on which models were defined or evaluated before.",
     ["programs", "histories"], "all expressions of a bounded grammar over constants, primals, duals and the homotopy factor, in every definition order explored",
     "The tests check a handful of hand-picked expressions symbolically, never numerically, and never the caches shared between models.",
     ["src/logic/stamping/lagrangesegment.py", "src/logic/stamping/matrixstamper.py", "src/logic/stamping/lagrangestampdetails.py"],
     [("splitting and linearising", "logic/stamping/lagrangesegment.py split_expr/linearize_expr"), ("expression cache", "logic/stamping/matrixstamper.py")],
     "Exhaustive enumeration of a bounded expression grammar, each program built and stamped by the real engine and compared with independent numeric differentiation.",
     "Bounded grammar; real engine on every program.")
prop("C04", "The sparse builder holds exactly the live stamps",
     "After any sequence of stamping, remembering a fill level, returning to it and clearing, the matrix, its rows, its columns and the fill level represent exactly the entries retained plus those stamped since. In debug mode every malformed entry is rejected.",
     ["histories"], "all operation sequences on one builder",
     "No test exercises the builder on its own; solves only use one fixed pattern of retain and refill.",
     ["src/logic/stamping/matrixbuilder.py"], [("retain and refill", "logic/stamping/matrixbuilder.py MatrixBuilder.stamp/clear/to_matrix")],
     "Exhaustive exploration of all operation sequences to depth 6 (7 thorough) on the real builder against a list model.",
     "Three-by-three cells, five stamps; all sequences to the bound.")
prop("C05", "The assembled system is the sum of its parts and has no memory",
     "The system and residual assembled for a network equal the sum of its elements' contributions whatever the element order, also when elements are identical or share buses and parameters. They depend only on the requested state and homotopy factor, never on earlier evaluations.",
     ["histories", "inputs"], "all small multisets of elements on shared buses and all evaluation histories",
     "Tests evaluate each network along one Newton trajectory; stale inputs and merged duplicates need specific histories or coincidences.",
     ["src/logic/stamping/matrixstamper.py", "src/logic/residualdetails.py"],
     [("shared inputs", "logic/stamping/matrixstamper.py InputBuilder"), ("stamping passes", "logic/stamping/matrixstamper.py MatrixStamper")],
     "Exhaustive enumeration of element multisets x evaluation histories to depth 2 (3 thorough) on the real assembler against summed reference equations.",
     "Pairs (thorough: triples) of 24 elements, histories over 8 operations.")
prop("C06", "Homotopy walks to the true problem and reports what it achieved",
     "The true problem is attempted first; only if that fails and stepping is enabled is it relaxed fully and then restored in small strictly decreasing steps to exactly zero, each started from the previous solution and stopped at the first failure. Success is reported exactly when the unrelaxed problem was solved, with its state, its residual and the factor actually reached.",
     ["fault_sequences", "configurations"], "every possible outcome of every solve in the walk",
     "Tests only see walks that succeed; failures at a particular step and the reported factor are never exercised.",
     ["src/logic/homotopycontroller.py"], [("homotopy loop", "logic/homotopycontroller.py HomotopyController.run_powerflow")],
     "Explicit-state exploration of the real controller under a scripted solver: all failure points x configurations.",
     "All 101 failure points, 3 networks, 2 iteration scripts.")
prop("C07", "The Newton loop succeeds exactly on a converged iterate",
     "The iteration reports success exactly when the mismatch of an iterate is below the tolerance within the iteration budget, and returns that iterate; it gives up early only when the mismatch trend is not decreasing, and never returns a state that is not a number. Every step linearises at the (possibly limited) previous iterate from fresh contributions, and limiting moves each bus voltage component by at most one per unit within plus or minus two and touches nothing else.",
     ["fault_sequences", "histories"], "all mismatch histories, budgets, singular systems and limiter proposals",
     "Tests only follow trajectories that converge within a few steps; budgets, bail-outs, singular systems and limiting are not reached.",
     ["src/logic/nrsolver.py", "src/logic/v_limiting.py"],
     [("Newton loop", "logic/nrsolver.py NRSolver.run_powerflow"), ("limiter", "logic/v_limiting.py PositiveSeqVoltageLimiting")],
     "Exhaustive exploration of scripted mismatch histories through the real loop and of a proposal grid through the real limiter, against a protocol model.",
     "All scripts to length 5 (6 thorough), trend scripts over two 50-iteration blocks, 9^4 limiter inputs.")
prop("C08", "Reported solutions are consistent with automatic devices",
     "A solution is reported only if no capacitor or fuse wants to change at it; every round restarts from the network's initial state, an unsolved round ends the process as a failure, and devices that never settle end in an error within a bounded number of rounds. A blown fuse is never restored, manual devices never move, and with device control off nothing is adjusted.",
     ["histories", "fault_sequences"], "all sequences of solver outcomes and device measurements",
     "Tests contain a few feeders whose devices settle at once; oscillation, failure in a later round and simultaneous changes are not covered.",
     ["src/logic/devicecontroller.py", "src/models/components/capacitor.py", "src/models/components/fuse.py"],
     [("device rounds", "logic/devicecontroller.py DeviceController"), ("capacitor switching", "models/components/capacitor.py try_adjust_device"), ("fuse", "models/components/fuse.py try_adjust_device")],
     "Explicit-state exploration of the real controller and devices under scripted solver answers, plus end-to-end threshold grids against a reference automaton over reference solutions.",
     "All answer sequences to length 4 (5 thorough) over 8 answers, then settling or oscillating tails.")
prop("C09", "Regulator taps stay in range and the equations follow them",
     "Whatever sequence of raise and lower requests is made, the tap stays within its limits, each request reports a change exactly when the tap moved, and the network equations always use the turn ratio belonging to the current tap and regulator type.",
     ["histories"], "all request sequences from all initial taps",
     "Tests load regulators at fixed taps only.",
     ["src/models/components/regulator.py"], [("tap changing", "models/components/regulator.py Regulator.try_increment_tap_position")],
     "Exhaustive exploration of request sequences on the real regulator with the assembled equations compared at every end state.",
     "Depth 4 (5 thorough), 2 limit pairs, 2 types, 2 step sizes.")
prop("C10", "Only connected networks with consistent voltages are accepted",
     "A network is solved only if its in-service connections join all nodes into one island; open switches and equipment out of service do not connect, and bus names shared in a RAW case do not join buses. Nodes of a feeder joined without a transformer or regulator must have the same nominal voltage, otherwise the network is rejected, and well-formed networks are never rejected.",
     ["inputs"], "all small network graphs with all edge kinds, orientations, nominal-voltage assignments and namings",
     "Tests only load well-formed networks.",
     ["src/logic/graphanalyzer.py", "src/logic/powerflow.py"],
     [("graph construction", "logic/graphanalyzer.py GraphAnalyzer"), ("gate", "logic/powerflow.py PowerFlow.execute")],
     "Exhaustive enumeration of all small graphs; the real validator against union-find connectivity and per-region voltage comparison.",
     "All 3-node graphs over 9 edge kinds, all 4-node graphs over 4 kinds, both orientations.")
prop("C11", "Every unknown has one place and its specified start value",
     "Voltages, device currents, reactive powers, multipliers and infeasibility currents each occupy exactly one position of the system, without gaps or sharing, and repeated preparation is stable and follows changes of the network. The start vector holds the network's initial conditions (or the flat start) at exactly those positions, and labels name the right unknowns.",
     ["inputs", "configurations"], "all networks of the families, with and without infeasibility analysis, flat or given start, repeated preparation",
     "A misplaced start value or label does not change converged results, so the tests cannot see it.",
     ["src/logic/network/networkmodel.py", "src/logic/stamping/lagrangestampdetails.py", "src/models/components/bus.py"],
     [("allocation", "logic/network/networkmodel.py assign_matrix"), ("start vector", "logic/network/networkmodel.py generate_v_init")],
     "Exhaustive enumeration of the network families; layout and start vector of the real model against the enumeration of the equations' unknowns.",
     "Families of C01 plus single components.")
prop("C12", "A RAW case is solved as the network its records describe",
     "Reading a RAW case of revision 33 or 34 and solving it yields the voltages of the positive-sequence network described by its in-service loads, shunts, generators, branches, two- and three-winding transformers and switched shunts, in every combination of unit codes, statuses and file syntax. Out-of-service records and their dependants have no effect.",
     ["inputs"], "all combinations of record features in a case file",
     "Tests read a few published cases and compare stored voltages; most unit codes, statuses and combinations of records do not occur in them.",
     ["src/logic/network/parsers/raw"],
     [("record integration", "logic/network/parsers/raw/parser.py"), ("transformer conversion", "logic/network/parsers/raw/parse_transformers.py")],
     "Exhaustive enumeration of all singles and pairs (triples thorough) of 92 record and layout features and of every transformer unit code combination, each file read and solved by the real tool against a reference Newton solution of the records.",
     "4-bus base case; known findings: constant-current loads and SBASE other than 100.")

prop("C13", "A GLM feeder is solved with exactly the loads it describes",
     "Reading a GridLAB-D feeder and solving it yields the node voltages of the network described by its loads: constant power, impedance and current parts, wye and delta, explicit phase pairs, single and split phase, on nodes, meters, triplex nodes and chains of child objects, in every combination, with every load attached at the node and phase it names.",
     ["inputs"], "all combinations of load objects in a feeder file",
     "Tests compare a few published feeders; most kinds of load and their combinations do not occur in them.",
     ["src/ditto/readers/gridlabd/load_parser.py", "src/ditto/readers/gridlabd/read.py", "src/logic/network/parsers/threephase/threephaseparser.py"],
     [("load reading", "ditto/readers/gridlabd/load_parser.py LoadParser"), ("load creation", "logic/network/parsers/threephase/threephaseparser.py create_load")],
     "Exhaustive enumeration of all singles and pairs (triples thorough) of load features, each feeder file read and solved by the real tool against a reference Newton solution.",
     "Base feeder of 3 nodes; one known finding (ZIP fractions).")
prop("C14", "GLM lines have the impedance and charging their data describe",
     "Every overhead, underground and triplex line of a GridLAB-D feeder carries current as its conductors and spacing (or the impedance matrix its configuration gives directly), phases, length and the units of each value prescribe (Carson and Kron reduction, shunt charging when enabled and earth distances are given), whichever phases it has, whichever other lines share its data, and wherever it is connected.",
     ["inputs", "configurations"], "all combinations of line objects in a feeder file, line capacitance on or off",
     "Tests compare voltages of a few feeders to loose tolerances, with few phase subsets, units and shared configurations.",
     ["src/ditto/readers/gridlabd/line_impedance.py", "src/ditto/readers/gridlabd/read.py", "src/models/components/unbalanced_line.py"],
     [("impedance", "ditto/readers/gridlabd/line_impedance.py"), ("line creation", "logic/network/parsers/threephase/threephaseparser.py create_transmission_line")],
     "Exhaustive enumeration of all singles and pairs (triples thorough) of line features and all line-load pairs, real end-to-end solution against a Carson/Kron reference.",
     "Half of the total charging is attached, as the repository's own comparisons pin.")
prop("C15", "GLM transformers, regulators, capacitors and switches act as described",
     "Every transformer (all supported connections, rating and impedance notations, centre-tap), regulator, capacitor, switch, recloser and fuse of a GridLAB-D feeder acts in the solved network as its object and configuration describe, with per-phase and default states, ratings and units, in every combination and position.",
     ["inputs"], "all combinations of device objects in a feeder file",
     "Tests contain few connections, one notation per device and almost no partial switch states.",
     ["src/ditto/readers/gridlabd/read.py", "src/logic/network/parsers/threephase/threephaseparser.py", "src/logic/network/parsers/threephase/transformerparser.py"],
     [("transformers", "logic/network/parsers/threephase/transformerparser.py"), ("devices", "logic/network/parsers/threephase/threephaseparser.py")],
     "Exhaustive enumeration of all singles and pairs (triples thorough) of device features and all device-line pairs, real end-to-end solution against the reference network.",
     "Base feeder of 3 nodes.")
prop("C24", "The layout of a GLM file does not change the network it describes",
     "The order of objects and properties, indentation, line breaks, comments, quoting, number notation, order and separators of phase letters, class numbering, names, included files, directives, unsupported recording objects and nested objects of a GridLAB-D file have no influence on the solved network.",
     ["inputs"], "all layouts of every feeder file",
     "Each test file has one layout.",
     ["src/ditto/readers/gridlabd/read.py"], [("tokenizer", "ditto/readers/gridlabd/read.py read_gld_objects_and_schedules")],
     "Exhaustive enumeration of every feature under every layout and all pairs of layouts; real end-to-end solution against the reference network.",
     "33 layouts; C-style block comments are outside.")
prop("C16", "Each hour of a load file is solved with that hour's loads",
     "A time series run solves every requested hour with the magnitudes the load file gives for it at each load's own power factor, loads without a column unchanged, whatever earlier hours held (zeros, negative values, unsolvable hours); results and files of an hour are those of that hour; and generation adjustment ends with the artificial swing bus idle on a network that is solved with the reported generation.",
     ["histories", "inputs"], "all sequences of hours and load values, all columns and placements of generating loads",
     "Tests run one load file of well-behaved values; histories through zeros, sign changes and failures do not occur.",
     ["src/logic/network/timeseriesprocessor.py"],
     [("hours", "logic/network/timeseriesprocessor.py TimeSeriesProcessor.execute_quasi_time_series"), ("generation adjustment", "logic/network/timeseriesprocessor.py TimeSeriesProcessor.adjust_generator_output")],
     "Exhaustive enumeration of hour sequences (depth 3, thorough 4) over a value alphabet per load kind, of column sets and of generating-load placements; every hour of every history is compared with a reference solution.",
     "Hours outside the file and blank cells are outside the alphabet.")
prop("C17", "Selecting an island keeps that island and nothing else",
     "Selecting the island of an artificial swing bus leaves exactly the buses, sources, loads, lines, transformers, switches, fuses, regulators, capacitors and infeasibility currents of that island; the solution equals that of the island alone, whatever devices are in the other islands and wherever the network is split.",
     ["configurations", "inputs"], "all placements of devices over islands and all choices of the kept island",
     "The tests select one island of one feeder and look at whether it solves.",
     ["src/logic/network/timeseriesprocessor.py", "src/logic/graphanalyzer.py"],
     [("island selection", "logic/network/timeseriesprocessor.py TimeSeriesProcessor.select_island"), ("components", "logic/graphanalyzer.py GraphAnalyzer")],
     "Exhaustive enumeration of island contents and swing buses, with and without infeasibility analysis; each selected network is compared with a reference solution of the island alone.",
     "Feeder files of up to three islands.")
prop("C18", "What is displayed and written is the solution",
     "The result display and the output files hold, for every bus, source, load and infeasibility current, the voltages and powers of the solved state in the stated format and order; a failed power flow is reported as FAILURE and nothing else; reporting in any order and repetition neither changes the results nor leaves stale or stray content.",
     ["configurations", "histories"], "all networks, solved or not, and all sequences of report operations",
     "The tests read results as objects; files and displays are not looked at.",
     ["src/logic/powerflowresults.py"],
     [("reports", "logic/powerflowresults.py PowerFlowResults"), ("hours", "logic/powerflowresults.py QuasiTimeSeriesResults")],
     "Exhaustive enumeration of the network families and of all report operation sequences up to depth 2 (3 on one network; thorough 3); real solve and files against powers computed from reference circuit currents.",
     "Loads are reported by their constant-power part; sources use the load convention.")
prop("C20", "Infeasibility analysis adds the least current, and none if none is needed",
     "A successful infeasibility analysis ends at bus voltages that obey every component's equations up to the reported extra currents, those currents satisfy the optimality conditions of least squares, they vanish when the power flow can be solved from the same start without them, and the reported powers and totals are those of the currents.",
     ["inputs", "configurations"], "all networks and load levels on both sides of the feasibility limit, all solver settings",
     "Tests run two cases and look at the totals.",
     ["src/models/optimization/L2infeasibility.py", "src/logic/stamping/lagrangesegment.py"],
     [("optimisation", "models/optimization/L2infeasibility.py"), ("dual stamps", "logic/stamping/lagrangesegment.py"), ("totals", "logic/powerflowresults.py try_load_infeasibility_data")],
     "Exhaustive enumeration of network families, load scales across the feasibility limit and solver settings; each real solve is checked for first-order optimality with reference derivatives, all multipliers eliminated.",
     "First-order conditions only: the nonconvex problem can have several stationary points.")
prop("C22", "The command line runs the analysis its options ask for",
     "For every combination of options, run_solver performs exactly the requested analysis (load factor, infeasibility, homotopy, load file hours, generation adjustment, island selection) on the case file, displays its outcome and writes exactly the requested result files.",
     ["configurations"], "all combinations of command-line options and case files",
     "The command line is not tested at all.",
     ["src/run_solver.py", "src/logic/network/loadfactor.py", "src/logic/network/timeseriessettings.py"],
     [("options", "run_solver.py main"), ("load factor", "logic/network/loadfactor.py modify_load_factor")],
     "Exhaustive enumeration of option combinations over a set of case files; main is executed for each and its files and display are compared with the scaled reference network and with an independent run of the library.",
     "Load files combined with a load factor are outside the alphabet.")
prop("C19", "The derivative cache never changes the derivatives used",
     "Whatever the on-disk derivative cache holds (missing, complete, cut short or zero-filled entries after a crash, entries written by other processes at the same moment, entries of other expressions), the coefficients used for a Lagrangian are those of its own expression and its own symbols; no interleaving of processes makes one of them fail.",
     ["schedules", "crash points", "inputs"], "all crash points and interleavings of processes sharing the cache, and all expressions sharing it",
     "Tests run one process at a time against a warm cache.",
     ["src/logic/stamping/lagrangepickler.py", "src/logic/stamping/lagrangesegment.py"],
     [("cache files", "logic/stamping/lagrangepickler.py LagrangePickler"), ("key and rebuild", "logic/stamping/lagrangesegment.py LagrangeSegment")],
     "Explicit-state search of all interleavings (with kills) of the recorded system calls of two real writers over a file system model, every distinct final file replayed with real system calls and read by the real reader; every byte prefix of an entry; all symbol partitions and orders of small expressions.",
     "Rename is taken to be atomic, single writes are not torn inside the interleavings.")
prop("C21", "Names, numbers, order, location and history do not change a solution",
     "The solution of a network depends on the network and the settings only: not on the names or numbers of its objects, the order in which elements, buses or records are listed, the place a case file is loaded from, or the runs, failures, analyses, reports and edits performed earlier in the process.",
     ["histories", "inputs"], "all operation histories and all namings, numberings, orders and file locations",
     "Tests solve each case once, as written, in a fresh process.",
     ["src/logic/network/networkmodel.py", "src/logic/network/networkloader.py", "src/logic/stamping/matrixstamper.py", "src/logic/powerflow.py"],
     [("assignment", "logic/network/networkmodel.py NetworkModel.assign_matrix"), ("loading", "logic/network/networkloader.py NetworkLoader.from_file")],
     "Exhaustive exploration of all operation sequences up to depth 3 (thorough 4) on two live networks with a model of their state, plus exhaustive renamings, renumberings and reorderings; each real solution is compared with a reference solution that knows no names, orders or history.",
     "Automatic devices that keep state between runs are manual in the sequences.")
prop("C25", "Equipment rating violations are marked exactly when they occur",
     "In a time series or island run, an hour is marked as violating equipment ratings, in both of its files, exactly when in its solution some line phase carries more than its conductor's emergency rating, some transformer more than its rated power, or some bus is 5 % or more off its nominal voltage.",
     ["inputs", "configurations"], "all networks, ratings, loadings and hours",
     "Ratings are not tested at all.",
     ["src/logic/network/timeseriesprocessor.py", "src/logic/powerflowresults.py", "src/models/components/unbalanced_line.py"],
     [("rating check", "logic/network/timeseriesprocessor.py TimeSeriesProcessor.violates_equipment_ratings"), ("flows", "logic/powerflowresults.py LineResult, TransformerResult, CenterTapTransformerResult")],
     "Exhaustive enumeration of rated equipment, loadings below and above the rating, pairs of equipment and hour sequences; the real files are compared with ratings evaluated on a reference solution.",
     "Unbalanced loading of three-phase transformers, where the reading of the rating is ambiguous, is outside the alphabet.")
prop("C23", "Diagnostics record the systems that were solved and do not influence them",
     "With matrix dumps switched on, the dumped matrices, right-hand sides and solution are (to the printed digits) those of the Newton iterations performed, whatever an earlier run left in the folder; the lookup and the progress lines name each unknown and the place and size of the largest residual correctly; switching dumps on changes no result and nothing is written when they are off.",
     ["inputs", "histories"], "all networks, iteration counts and earlier dumps",
     "No test switches the dumps on or reads the progress lines.",
     ["src/logic/nrsolver.py", "src/logic/network/networkmodel.py", "src/logic/residualdetails.py"],
     [("dumps", "logic/nrsolver.py dump_Y, dump_J, dump_v, dump_matrix_map"), ("progress lines", "logic/nrsolver.py NRSolver.run_powerflow"), ("lookup", "logic/network/networkmodel.py NetworkModel.assign_matrix")],
     "Exhaustive enumeration of networks, analyses, iteration budgets and folder states; the Newton walk is repeated outside the loop and every dumped entry, progress line and label compared.",
     "Numbers in the dumps have five digits; a repeated walk is compared as long as a twin walk with rounding-sized disturbances stays together with it.")

def main():
    d = os.path.join(HERE, "mc", "checks")
    have = {f[:3].upper() for f in os.listdir(d) if f[0] == "c" and f.endswith(".py")}
    P.sort(key=lambda p: p["rec"]["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            if p["rec"]["id"] in have:
                f.write(json.dumps(p["rec"]) + "\n")
    checks = []
    for p in P:
        i = p["rec"]["id"]
        if i not in have:
            print("no check for", i)
            continue
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
                       "technique": p["tech"], "level": "model_checking", "level_note": p["note"]})
    print("unregistered:", have - {p["rec"]["id"] for p in P})
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
         "notes": "No hooks are needed: every check drives the code through its ordinary interfaces."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    for p in P:
        r = p["rec"]
        assert len(r["title"]) <= 80, r["title"]


main()
