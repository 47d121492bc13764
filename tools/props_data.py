P("C01", "A solved RAW case satisfies the power balance of the file itself",
  "For every well-formed transmission case file of revision 30, 32, 33 or 34 on any system base (constant-power and constant-admittance loads, fixed and switched "
  "shunts, machines, lines, two- and three-winding transformers with all unit codes, offline elements), a solve reported successful returns a "
  "voltage for every in-service bus (and none for an isolated one) such that at every load bus the complex power flowing into the network equals what "
  "the file injects there, at every voltage-controlled bus the real power matches and the magnitude equals the scheduled one, and the "
  "slack bus has its scheduled magnitude and angle. A case whose file starts at or near such a healthy solution is reported successful.",
  ["inputs", "configurations"],
  "every case in the supported subset, any bus numbering, any mix of the elements, any starting point in the file, any tolerance, with and "
  "without voltage limiting and homotopy",
  "Tests compare a few published cases with stored voltages to two or three digits; unit codes, off-nominal ratios, phase shifts, "
  "line shunts, parallel circuits and offline elements hardly appear in them.",
  ["src/logic/network/parsers/raw", "src/models/components/line.py", "src/models/components/transformer.py",
   "src/models/components/shunt.py", "src/models/components/load.py", "src/models/components/generator.py"],
  [("RAW parser and component stamps", "src/logic/network/parsers"), ("Newton solver", "src/logic/nrsolver.py")],
  "runtime oracle: generated RAW cases, solved by the real code, monitored against an independent bus-admittance power balance",
  "Every returned solution is checked at every bus by an admittance model written from the PSS/E data format (2e-5 pu, observed "
  "margins ~1e-6). Sampled networks of 3-14 (60 thorough) buses; trusts the harness's file writer and oracle.",
  ["PowerFlow.execute() results: bus_results"])

P("C02", "A solved GridLAB-D feeder satisfies Kirchhoff's laws for the file, phase by phase",
  "For every well-formed feeder file of the supported classes (overhead, underground and triplex lines, wye/delta/single-phase and "
  "centre-tapped transformers, line configurations that state their impedance and capacitance matrices, manual regulators, switches, fuses, capacitors, constant power/impedance/current loads in wye, delta and "
  "line-to-line connection, child meters and loads), a solve reported successful returns a voltage for every phase of every non-child node so that the currents of all attached "
  "elements (including the charging of the lines when it is enabled), computed from the file's data, sum to zero at every node phase, ideal elements hold their voltage ratio, and the swing node has its specified voltages. "
  "A feeder that is lightly loaded is reported successful.",
  ["inputs", "configurations"],
  "every feeder in the supported subset: topology, phases, connection, configuration spelling, units, tap positions, starting voltages "
  "with line charging enabled or not",
  "Tests compare a handful of taxonomy feeders with GridLAB-D voltages at a few percent; wrong neutral reduction, mutual terms, tap "
  "direction or delta rotation on combinations the feeders do not use stay unseen.",
  ["src/logic/network/parsers/threephase", "src/models/components/unbalanced_line.py", "src/models/components/transformer.py",
   "src/models/components/center_tap_transformer.py", "src/models/components/regulator.py", "src/models/components/capacitor.py"],
  [("GLM reader (ditto) and three-phase parser", "src/ditto/readers/gridlabd/read.py"), ("component stamps", "src/models/components")],
  "runtime oracle: generated GLM feeders, solved by the real code, monitored against independent Carson/Kron Kirchhoff equations",
  "Every node phase of every solved feeder is checked (tolerance 3e-4 A + 5e-6 of the largest current). Sampled feeders of 3-12 (40 "
  "thorough) buses; half of them with charging (known to be halved: recorded as a finding); trusts the harness's writer and line constants.",
  ["PowerFlow.execute() results: bus_results"])

P("C03", "The reported verdict and residual tell the truth about the returned voltages",
  "A power flow is reported successful only if the voltages it returns satisfy the network's own equations: then the reported maximum "
  "residual is below the tolerance and an independent evaluation of the file's balance at the returned voltages is below it too. Whatever the "
  "verdict, the reported residual never understates the mismatch at the returned voltages (except when a failed solve ended on a limited "
  "or partially stepped iterate), a load beyond the network's maximum transferable power is never reported successful, and the number "
  "of iterations never exceeds the limit.",
  ["inputs", "configurations"],
  "every network, starting point (including hostile ones), tolerance, iteration limit, loading up to and beyond the solvability limit, "
  "with and without voltage limiting and homotopy",
  "Tests only solve cases that converge; a premature success, a stale residual or a lenient stopping rule still gives the stored voltages there.",
  ["src/logic/nrsolver.py", "src/logic/homotopycontroller.py", "src/logic/powerflow.py", "src/logic/powerflowresults.py",
   "src/logic/stamping/matrixstamper.py"],
  [("Newton loop and stopping rule", "src/logic/nrsolver.py"), ("verdict", "src/logic/powerflow.py")],
  "runtime oracle over reported verdicts, residuals and voltages of stressed, badly started and provably unsolvable networks",
  "Sampled stress cases; two-bus networks have an analytic maximum power, so solvability itself is decided independently there.",
  ["PowerFlow.execute() results: is_success, max_residual, residuals, iterations, bus_results"])

P("C04", "The powers in the report are the powers of the solved network",
  "Every machine, load and transformer power reported with a successful solve equals what the returned voltages imply: the machines of a bus "
  "together supply that bus's load, shunts and outgoing flow (real and reactive, slack bus included), with the machine type (PV, slack) "
  "of the file, the loads reported for a bus together consume what the file says, the feeder source supplies what leaves the swing node, and the reported primary and secondary "
  "apparent powers of transformers and centre-tapped transformers are those of their windings.",
  ["inputs", "configurations"],
  "every supported network and feeder: several machines or loads at a bus, loads at machine buses, phase shifts, any transformer connection",
  "Tests compare bus voltages; powers are compared for two or three published cases only, mostly at unloaded machine buses.",
  ["src/logic/powerflowresults.py", "src/models/components/generator.py", "src/models/components/slack.py", "src/models/components/load.py",
   "src/models/components/transformer.py", "src/models/components/center_tap_transformer.py"],
  [("result objects", "src/logic/powerflowresults.py"), ("element results", "src/models/components")],
  "runtime oracle: reported powers of generated cases compared with independently computed ones",
  "Sampled cases of C01/C02's generators; tolerance 2e-4 pu scaled by what a voltage tolerance allows.",
  ["PowerFlow.execute() results: generator_results, load_results", "element.calculate_... results of transformers"])

P("C05", "Every linear system the solver assembles is the exact Newton linearisation at the current iterate",
  "For every network, at every iterate, the matrix and right-hand side handed to the sparse solver are the first-order Taylor expansion of one "
  "fixed residual function of the network (for a given homotopy fraction): the matrix is that function's derivative at the iterate in every direction, the same iterate gives the same system whatever was solved before, the "
  "feasibility-optimisation system's multiplier block is the symmetric second derivative, the reported residual vector is that function's value, and Newton started near a solution "
  "converges in a handful of iterations.",
  ["inputs", "histories"],
  "every network of either kind, every iterate visited, normal and infeasibility-analysis mode, homotopy on or off",
  "A wrong derivative or stale history term leaves converged voltages unchanged on easy cases; tests see only the final voltages.",
  ["src/logic/stamping/matrixstamper.py", "src/logic/stamping/lagrangestampdetails.py", "src/logic/stamping/lagrangesegment.py", "src/logic/nrsolver.py",
   "src/models/components"],
  [("stamp assembly", "src/logic/stamping/matrixstamper.py"), ("symbolic derivatives", "src/logic/stamping/lagrangesegment.py")],
  "runtime monitor hooked on the linear-solver entry point: recorded systems checked by finite differences along random directions, history replays and symmetry",
  "Every recorded system of sampled networks; finite differences with Richardson-estimated tolerance.",
  ["scipy.sparse.linalg.spsolve as called by logic.nrsolver"])

P("C06", "The on-disk derivative cache never changes a result",
  "A solve gives the same voltages and verdict whatever the state of the derivative cache in the temporary directory: absent, warm, filled by "
  "several processes at once, left by a process killed while writing, holding truncated, empty, foreign or garbage files, or not writable "
  "(permissions, quota, full disk).",
  ["crash_points", "schedules", "faults"],
  "every cache content and every interleaving of concurrent processes sharing one temporary directory, including kills at any write",
  "Tests run one process with whatever cache it finds; damage, concurrency and kills never occur in them.",
  ["src/logic/stamping/lagrangepickler.py", "src/logic/stamping/lagrangesegment.py"],
  [("pickled derivative cache", "src/logic/stamping/lagrangepickler.py")],
  "fault injection around real solver processes (kill, damage, file-size limits, unprivileged user, concurrent processes) with a comparison oracle",
  "Sampled faults per run; a temporary directory that does not exist at all is outside the property.",
  ["files under $TMPDIR/combined-txds-lagrange-pickler", "results of separate solver processes"], level="fault_enumeration")

P("C07", "Homotopy solves the original problem or says it failed",
  "With transmission stepping enabled a network that solves directly gives exactly the result it gives without it; when the direct solve fails, a "
  "success is reported only for the original network (stepping fraction zero, voltages satisfying the unmodified equations), and when the stepped solve "
  "cannot be completed the result is unsuccessful and reports a fraction at which it was still stuck.",
  ["inputs", "faults"],
  "every network, every starting point and every point at which an intermediate solve fails",
  "Tests run homotopy on cases that need no stepping, or compare voltages of one that does; failing steps never happen.",
  ["src/logic/homotopycontroller.py", "src/models/components/line.py", "src/models/components/transformer.py"],
  [("stepping controller", "src/logic/homotopycontroller.py")],
  "runtime oracle with injected failures of the direct and of individual intermediate solves",
  "Sampled networks, injected failure positions drawn at random; power-balance oracles decide the final solution.",
  ["PowerFlow.execute() results: is_success, tx_percent, bus_results"], level="fault_enumeration")

P("C08", "Controlled devices end in a state that agrees with their controls",
  "On a feeder with controlled devices: a successful result never contains a fuse carrying more than its current limit on any phase, a fuse below its limit "
  "on every phase never blows or changes the voltages, and a fuse the file declares blown does not conduct; every voltage-controlled capacitor phase of a "
  "successful result is in one definite state (connected or not) consistent with Kirchhoff's laws, that state follows its own phase's voltage relative to "
  "its own limits, and a capacitor whose voltages are within its limits keeps the state it had; manual capacitors follow only the switch states in the file; capacitor control modes that are "
  "not supported are refused, regulators hold the tap position of the file, and with device control switched off no device changes state.",
  ["inputs", "configurations", "histories"],
  "every feeder, device placement, phase, limit or threshold near the actual value, control mode, and device control on or off",
  "Tests solve feeders whose devices mostly never act; a wrong phase, limit comparison or missed re-solve is invisible there.",
  ["src/logic/devicecontroller.py", "src/models/components/capacitor.py", "src/models/components/fuse.py", "src/models/components/regulator.py",
   "src/logic/powerflow.py"],
  [("device control loop", "src/logic/devicecontroller.py"), ("fuse", "src/models/components/fuse.py"), ("capacitor", "src/models/components/capacitor.py")],
  "runtime oracle: device limits placed just above and below independently computed currents and voltages; capacitor states inferred from Kirchhoff's current law",
  "Sampled feeders and thresholds; the VOLT direction is calibrated because the code works in reverse (known finding).",
  ["PowerFlow.execute() results: is_success, bus_results"])

P("C09", "Split networks and mixed-voltage regions are refused, connected ones are not",
  "A case or feeder whose in-service elements (closed branches, transformers, switches, intact fuses) connect all in-service buses is never refused as split; one they do not "
  "connect is never solved but refused with the right number of islands; and a feeder in which nodes joined without a transformer or regulator have nominal voltages clearly "
  "apart (more than 10 V) is refused, while regions of different voltages separated by transformers or regulators are accepted.",
  ["inputs", "configurations"],
  "every network graph: parallel elements, meshes, elements and buses out of service, three-winding transformers with a winding out, partially open switches, children, any region",
  "Tests use connected published cases and one or two hand-made islands.",
  ["src/logic/graphanalyzer.py", "src/logic/powerflow.py", "src/models/components"],
  [("graph analysis", "src/logic/graphanalyzer.py")],
  "runtime oracle: union-find over the generated file's own elements against the observed acceptance, refusal and count",
  "Sampled cuts and voltage shifts; buses sharing a name are a known finding.",
  ["PowerFlow.execute(): raised errors or results"])

P("C10", "RAW files that say the same thing give the same result",
  "Writing the same transmission case differently never changes verdict, voltages or powers: another supported revision, comma or blank delimiters, "
  "comments, padding, omitted default fields, the order of records within a section, records of equipment that is out of service added or "
  "removed, sections and fields that do not concern power flow, a missing end mark.",
  ["inputs", "configurations"],
  "every case and every combination of the rewritings listed, revisions 30, 32, 33, 34",
  "Tests read a handful of published files in one form each.",
  ["src/logic/network/parsers/raw", "src/logic/network/networkloader.py"],
  [("RAW reader", "src/logic/network/parsers/raw")],
  "runtime oracle: metamorphic pairs of files solved by the real code and compared",
  "Sampled pairs; a wrong reading common to both forms is C01's business.",
  ["PowerFlow.execute() results"])

P("C11", "GLM files that say the same thing give the same result",
  "Writing the same feeder differently never changes verdict, voltages or powers: whitespace, comments, quotes, optional semicolons, the order of "
  "configurations, of objects (parents before children) and of properties, equivalent spellings of phases, units, lengths, tap positions and object classes "
  "(meter/node), unused configurations, and objects that do not take part in power flow.",
  ["inputs", "configurations"],
  "every feeder in the supported subset and every combination of the rewritings listed",
  "Tests read a handful of published feeders in one form each.",
  ["src/logic/network/parsers/threephase", "src/ditto/readers/gridlabd/read.py"],
  [("GLM reader", "src/ditto/readers/gridlabd/read.py"), ("three-phase parser", "src/logic/network/parsers/threephase")],
  "runtime oracle: metamorphic pairs of files solved by the real code and compared",
  "Sampled pairs; a wrong reading common to both forms is C02's business.",
  ["PowerFlow.execute() results"])

P("C12", "Results do not depend on names, numbering, element direction, subdivision or angle reference",
  "Transforming a network without changing its physics transforms the solution accordingly: renumbering or renaming buses, exchanging the ends of "
  "lines, switches, fuses and (with ratio and angle inverted) transformers, rotating three-winding windings, splitting a load, shunt, machine or line into equivalent "
  "parallel or series parts, shifting the angle of the reference and of everything given as a phasor, and relabelling phases A, B, C cyclically.",
  ["inputs"],
  "every case and feeder of the supported subset and every such transformation",
  "No test solves a network twice; an element modelled correctly in one orientation or phase only passes them all.",
  ["src/models/components", "src/logic/network/parsers", "src/logic/powerflowresults.py"],
  [("component stamps", "src/models/components"), ("parsers", "src/logic/network/parsers")],
  "runtime oracle: metamorphic pairs of networks solved by the real code, mapped back and compared",
  "Sampled pairs (1e-6 pu RAW, 2e-6 relative GLM); pairs whose Newton run wandered over 20 iterations are not compared.",
  ["PowerFlow.execute() results"])

P("C13", "A time series is a sequence of independent power flows",
  "Running a feeder over a load file gives, for every hour from the start up to but not including the end and for no other hour, exactly the result an independent power flow gives for "
  "the feeder with the constant-power loads named by the file's columns set to that row's apparent power at each load's own power factor (a load without power gets unit power factor, "
  "zero and negative values included) and every other load as in the feeder, whatever the order of columns, columns that match no load, and the hours solved before; per-hour output files are written for exactly those hours.",
  ["histories", "inputs"],
  "every feeder, load file, hour range and history of earlier hours, successful or not",
  "No test runs a time series.",
  ["src/logic/network/timeseriesprocessor.py", "src/logic/network/timeseriessettings.py", "src/models/components/load.py"],
  [("time series processor", "src/logic/network/timeseriesprocessor.py")],
  "runtime oracle: every hour of a series compared with an independent solve of a rewritten feeder file",
  "Sampled feeders, 3-8 hours each (2e-6 relative); loads that share a column name are left out.",
  ["TimeSeriesProcessor.execute() results", "output files"])

P("C14", "The command line does what its options say",
  "run_solver.py with any combination of --load_factor, --tx_stepping, --infeasibility, --loadfile/--loadstart/--loadend, --outputfile, --verbose and --debug ends normally, "
  "prints the verdict and writes the voltages and powers that the same analysis through the API gives for the file with its constant-power loads multiplied by the load factor and nothing else changed.",
  ["inputs", "configurations"],
  "every combination and order of these options on every supported case and feeder, solvable or not",
  "No test runs the command line; load factors appear in one test.",
  ["src/run_solver.py", "src/logic/network/loadfactor.py", "src/logic/powerflowresults.py"],
  [("command line", "src/run_solver.py"), ("load factor", "src/logic/network/loadfactor.py")],
  "runtime oracle: the real command (in process and as subprocess) against API solves of rewritten files",
  "Sampled option combinations; fixed machines being scaled as loads is a known finding.",
  ["standard output, exit status and output files of run_solver.py"])

P("C15", "What is written and printed is exactly the solution",
  "PowerFlowResults.output(path) creates the directories it needs and writes exactly path_voltage.csv and path_power.csv: one row per in-service bus (node phase for feeders) with the bus's "
  "name and its voltage's magnitude and angle in degrees to three decimals, one row per machine and load with its powers to two decimals, replacing whatever was there before; for a solve that "
  "was not successful both files say FAILURE and no number; the display states the verdict; without a path nothing is written.",
  ["inputs", "configurations"],
  "every network, verdict, bus name and output path",
  "No test writes an output file.",
  ["src/logic/powerflowresults.py"],
  [("results", "src/logic/powerflowresults.py")],
  "runtime oracle: files and console output produced by the real code compared with the returned result object and the case",
  "Sampled networks and paths; the unit named in the header of the power file is not judged.",
  ["output files", "standard output"])

P("C16", "Infeasibility analysis injects nothing into a solvable network and the least that balances an unsolvable one",
  "A successful solve with infeasibility analysis attached injects no current and reports none when started at or near a healthy solution, and returns that solution; otherwise the currents "
  "it injects at the buses (node phases), together with the file's elements, balance every bus, none is injected at the slack bus, controlled buses keep their real power and voltage magnitude, and "
  "the sum of the squared injected currents is stationary: no small change of any free voltage, angle or reactive power reduces it to first order.",
  ["inputs", "configurations"],
  "every case and feeder of the supported subset, loaded beyond what it can carry or not, with and without voltage limiting",
  "Tests look at one small case and check signs only.",
  ["src/models/optimization/L2infeasibility.py", "src/logic/stamping/lagrangesegment.py", "src/models/components", "src/logic/powerflowresults.py"],
  [("L2 infeasibility", "src/models/optimization/L2infeasibility.py"), ("dual stamps", "src/logic/stamping")],
  "runtime oracle: injected currents read from the real solver's solution, checked against an independent admittance model and its numerical gradient",
  "Sampled networks; stationarity only for transmission cases without three-winding transformers; injected powers as displayed are not judged beyond being zero.",
  ["v_final at the optimization's injection variables", "infeasibility_totals", "report_infeasible()"])

P("C17", "Generators relieve an artificial swing bus",
  "Running a feeder with an artificial swing bus and named generators (negative loads on its phases) always ends, and a successful result has that bus supplying together less than 0.1 VA over its phases and is "
  "the result the power flow gives for the feeder with those generators at the powers found and nothing else changed, hour by hour with a load file, on its own island or the whole feeder; it succeeds on "
  "feeders of primary voltage within their rating without a phase-shifting transformer.",
  ["inputs", "histories"],
  "every feeder, island, position and split of the generators over names, starting generation and sequence of hours",
  "No test runs an artificial swing bus; the adjustment is an unbounded loop.",
  ["src/logic/network/timeseriesprocessor.py", "src/logic/powerflowresults.py", "src/models/components/load.py"],
  [("generator adjustment", "src/logic/network/timeseriesprocessor.py")],
  "runtime oracle: result at the generation found compared with an independent solve of a rewritten feeder; time limit on the loop",
  "Sampled feeders with up to 9 (20) elements, one to three generators, up to four hours; whether it settles behind phase-shifting transformers is not judged, only that it ends.",
  ["TimeSeriesProcessor.execute() results", "generator values left in the network"])

P("C18", "Selecting an island leaves exactly that island",
  "With select_island, a feeder cut in two and analysed around one of its swing buses gives the result of the feeder file that contains that bus's island and nothing else: its nodes, loads, capacitors, "
  "transformers, regulators, switches and fuses all kept, everything of other islands gone, and the same for every hour of a load file.",
  ["inputs"],
  "every feeder, place and way it is cut (open switch, blown fuse, missing element), and either side of the cut",
  "No test selects an island.",
  ["src/logic/network/timeseriesprocessor.py", "src/logic/graphanalyzer.py"],
  [("island selection", "src/logic/network/timeseriesprocessor.py"), ("graph", "src/logic/graphanalyzer.py")],
  "runtime oracle: selected island compared with an independent solve of the island's own file",
  "Sampled feeders with one cut; the other island always has a swing bus of its own.",
  ["TimeSeriesProcessor.execute() results"])

P("C19", "Equipment beyond its rating is marked, and nothing else is",
  "A successful result of the time series processor is marked as violating equipment ratings when a node's voltage is 5% or more off its nominal (stated) voltage, a centre-tap transformer delivers more than its "
  "rating, or one phase of another transformer carries more than the transformer's rating, and is not marked when all voltages and loadings are within; the mark is in the hour's output files "
  "exactly when it is on its result; unsuccessful results are not marked.",
  ["inputs"],
  "every feeder, loading, tap position and transformer size",
  "No test looks at ratings.",
  ["src/logic/network/timeseriesprocessor.py", "src/logic/powerflowresults.py"],
  [("rating checks", "src/logic/network/timeseriesprocessor.py"), ("transformer results", "src/logic/powerflowresults.py")],
  "runtime oracle: loadings recomputed from the returned voltages with an independent transformer model",
  "Sampled feeders; line ampacities are not judged (the code computes no line current that could be compared), nor loadings of three-phase transformers between a third of the rating and the rating.",
  ["violates_equipment_ratings", "output files"])

P("C20", "A result depends on the network and the settings only, not on what the process did before",
  "Loading, solving (with or without infeasibility analysis, homotopy or time series), scaling loads, printing or failing on any networks, in any order and interleaving, "
  "changes no other network's results: every solve gives the verdict, voltages, generator and load powers that the same operations on that network alone give in a process which did nothing else, whatever the hash seed; "
  "solving a network without controlled devices again gives the same result, two networks loaded from one file do not influence each other, a result that was returned does not change afterwards, and no input file is modified.",
  ["inputs", "histories"],
  "every sequence of loads, solves, time series, reports and failures on any set of networks in one process, and every hash seed",
  "Each test solves one network once; leaks through module-level caches, class attributes, default arguments or shared settings need a particular history.",
  ["src/logic/stamping/matrixstamper.py", "src/logic/stamping/lagrangesegment.py", "src/logic/stamping/lagrangepickler.py", "src/models/components/bus.py",
   "src/logic/network/networkmodel.py", "src/logic/powerflow.py", "src/logic/network/networkloader.py", "src/logic/network/timeseriesprocessor.py"],
  [("derivative cache", "src/logic/stamping/matrixstamper.py"), ("ground bus and bus counters", "src/models/components/bus.py"), ("parsers", "src/logic/network/parsers")],
  "runtime differential monitor: random operation schedules in one process against the operations on each network object replayed alone in freshly forked processes; some schedules under other hash seeds",
  "Sampled schedules of up to about 15 operations on 2 to 4 networks; no threads (the product makes no promise about them).",
  ["PowerFlow.execute() results", "TimeSeriesProcessor.execute() results", "input file digests"])

P("C21", "Diagnostics and solver aids do not change the solution",
  "Debug mode and matrix dumps leave verdict, iteration count and solution exactly as they are without; the dumped matrices, right-hand sides, solution and lookup are those of the systems solved; "
  "a limit on iterations beyond those used changes nothing and one below turns the success into a failure; a looser tolerance succeeds in no more iterations; voltage limiting lets no bus voltage component move by more than 1 or exceed 2 between iterations and touches nothing within those limits, "
  "and with voltage limiting or a flat start a success is still a solution of the same network; for feeders neither option has an effect; the settings are not modified.",
  ["inputs", "configurations"],
  "every network, with and without infeasibility analysis, and every combination of debug, dump_matrix, max_iters, tolerance, voltage_limiting and flat_start",
  "Tests use one setting each and never compare two.",
  ["src/logic/nrsolver.py", "src/logic/v_limiting.py", "src/logic/stamping/matrixbuilder.py", "src/logic/powerflowsettings.py", "src/logic/network/networkmodel.py"],
  [("Newton loop and dumps", "src/logic/nrsolver.py"), ("limiting", "src/logic/v_limiting.py"), ("debug assertions", "src/logic/stamping/matrixbuilder.py")],
  "runtime differential monitor over settings; systems recorded at scipy's solver entry point compared with the dump files",
  "Sampled networks of up to about 10 elements; dumps are compared to the five digits they have.",
  ["PowerFlow.execute() results", "scipy.sparse.linalg.spsolve calls", "files in ./dumps"])
