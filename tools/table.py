"""property table: the single source of properties.jsonl and MANIFEST.json"""
NOTE = ("Holds for every input of the analysed constructs under the engine's stated semantics of Python and of the modelled numpy/sympy operations; "
        "arithmetic is exact over the reals (no rounding), allocation and I/O failures are out of scope.")
VF = "interprocedural value-flow analysis (gated value numbering) compared in algebraic normal form"
EL = ["src/models/components", "src/logic/stamping/lagrangesegment.py", "src/logic/stamping/lagrangestampdetails.py"]

PROPS = [
 dict(id="C01", title="Every element conserves current",
      statement="For every network element and every admissible set of parameters, the currents it injects into its terminals sum to zero (terminal and neutral conductors together, or transformer windings through their turns ratio), at every homotopy factor. No element injects current at a bus it is not connected to.",
      over=["inputs", "configurations"], q="all element kinds, all parameter values and phases, all bus voltages, all homotopy factors",
      why="Tests solve a few fixed feeders and compare voltages with a tolerance; they cannot quantify over parameter values and never look at the currents of a single element.",
      files=EL, mech=[("element residual stamps", "src/models/components/*.py"), ("line pi model", "src/models/components/line.py")], tech=VF, note=NOTE),
 dict(id="C02", title="Elements obey their electrical laws in the final network",
      statement="With the homotopy factor at zero, the equations contributed by each line, transformer, load, generator, slack, source, capacitor, shunt, switch, fuse, regulator and transmission/distribution coupler are exactly the circuit law that element stands for, in terms of its own parameters. Closed switching elements tie their terminals and open ones carry no current.",
      over=["inputs", "configurations"], q="all element kinds, all parameter values and states, all voltages",
      why="The tests compare a handful of solved cases to stored results; wrong terms that vanish or are small there (off-nominal taps, angles, charging, unusual phases, connection kinds) cannot be seen.",
      files=EL, mech=[("element laws", "src/models/components/*.py"), ("segment definitions", "src/logic/stamping/lagrangesegment.py")], tech=VF, note=NOTE),
 dict(id="C03", title="The homotopy relaxes the network and only the network",
      statement="At factor one every series admittance is scaled up by the published large factor, every shunt and mutual coupling vanishes, and every tap ratio and phase shift is neutral, while loads and generation keep their law. Equations depend on the factor continuously, with no condition on it.",
      over=["inputs", "configurations"], q="all element kinds, all parameter values, all factors",
      why="Tests only observe the end result of a completed homotopy at factor zero; an intermediate or starting network that is wrong still reaches the same answer on easy cases.",
      files=EL, mech=[("Tx scaling", "src/models/components/line.py, transformer.py, shunt.py, regulator.py")], tech=VF, note=NOTE),
 dict(id="C04", title="A reported homotopy success is a solution of the real network",
      statement="A power flow is reported successful only when the last accepted solve succeeded with the homotopy factor at zero, and the voltages returned are those of that solve. Each solve starts from the latest accepted solution, the factor never leaves the interval from one to zero, and it only decreases after a success.",
      over=["inputs", "histories", "configurations"], q="all sequences of solver successes and failures, all starting vectors, stepping on or off",
      why="Whether individual solves fail depends on the case; the tests exercise a couple of success/failure sequences, never the adverse ones.",
      files=["src/logic/homotopycontroller.py"], mech=[("factor schedule", "src/logic/homotopycontroller.py:HomotopyController")], tech=VF + "; composition with an uninterpreted solver", note=NOTE + " Factor histories are unrolled as far as the schedule itself bounds them."),
 dict(id="C05", title="Newton success means the residual is below tolerance",
      statement="An iteration reports success only when the largest absolute mismatch of the returned vector itself is within the configured tolerance, the returned iteration count and vector belong together, and running out of iterations is reported as failure. Every iteration solves the system assembled from that iteration's own voltages, with fresh matrices.",
      over=["inputs", "histories", "configurations"], q="all systems, all starting vectors, all tolerances and iteration limits, with and without limiting",
      why="Test cases converge; wrong bookkeeping around non-convergence, singular systems and limiting is unobservable in them.",
      files=["src/logic/nrsolver.py", "src/logic/residualdetails.py"], mech=[("iteration", "src/logic/nrsolver.py:NRSolver.run_powerflow"), ("maximum residual", "src/logic/residualdetails.py")], tech=VF + "; loop unrolling with an exit-condition argument for every turn", note=NOTE),
 dict(id="C06", title="Assembly adds up exactly the contributions of all elements",
      statement="The assembled matrix, right-hand side and residual vector equal the sum of the contributions of all connected elements at their own indices, evaluated at the supplied voltages, parameters and homotopy factor, in whatever order elements are given. Grounded or absent conductors are left out, repeated entries accumulate, and nothing from a previous assembly survives.",
      over=["inputs", "histories", "configurations"], q="all mixtures and orders of elements, all index assignments, with and without optimisation, any sequence of assemblies",
      why="Batching, key grouping and in-place reuse only go wrong for particular mixtures and call histories; the tests see whichever their cases happen to have.",
      files=["src/logic/stamping/matrixstamper.py", "src/logic/stamping/lagrangestampdetails.py", "src/logic/stamping/matrixbuilder.py"],
      mech=[("stamp collection", "src/logic/stamping/matrixstamper.py"), ("batched evaluation", "src/logic/stamping/matrixstamper.py:StampSet/InputBuilder"), ("triplet accumulation", "src/logic/stamping/matrixbuilder.py")], tech=VF + "; driver composing the stamping pipeline", note=NOTE),
 dict(id="C07", title="The linearisation is the exact first-order expansion",
      statement="For every equation a model may declare, the assembled linear coefficients and constant equal the first-order expansion of that equation at the point supplied: evaluated there it reproduces the equation, and its coefficients are the partial derivatives. Linear terms are never treated as history nor nonlinear ones as constant.",
      over=["inputs", "configurations"], q="all sums of terms of the kinds a model can contain, all variable/parameter splits, all expansion points",
      why="A wrong split of terms between coefficients and history still converges on most cases, just along a different path; tests check a few expressions.",
      files=["src/logic/stamping/lagrangesegment.py"], mech=[("expression splitting", "src/logic/stamping/lagrangesegment.py")], tech=VF + "; symbolic terms enumerated by kind", note=NOTE + " Derivatives follow the table of the modelled symbolic library."),
 dict(id="C08", title="Every unknown has its own index and its own equation",
      statement="In every network the node and multiplier indices of the components are pairwise different, cover 0..n-1 exactly, every row of the assembled system mentions an unknown and every unknown occurs, and the row/column pattern admits a perfect matching, with and without infeasibility variables. Each multiplier pairs with the equation it prices.",
      over=["inputs", "configurations"], q="networks composed of every element kind, all values of the parameters, optimisation off, L1 and L2",
      why="A duplicate, missing or crossed index makes the system singular or silently merges equations only for the component mixture that triggers it.",
      files=["src/models/components", "src/logic/network/networkmodel.py", "src/models/optimization"], mech=[("index assignment", "assign_nodes of every component, src/logic/network/networkmodel.py"), ("stamps", "src/logic/stamping/matrixstamper.py")], tech=VF + "; structural rank of the derived row/column pattern", note=NOTE + " Networks are the compositions enumerated by the check, one per element kind and mixture."),
 dict(id="C09", title="Cached derivatives never stand in for another model's",
      statement="A cached derivation is used only when everything that determines it is the same: the model's declaration, its optimisation setting and the cache version. Every input of the derivation enters the key, different inputs give different keys, and a cache file that cannot be used is replaced by a fresh derivation.",
      over=["inputs", "histories"], q="all pairs of model definitions, all sequences of runs sharing the cache",
      why="The cache of a test run is warm and made by the same code; stale or colliding entries appear only across versions or models.",
      files=["src/logic/stamping/lagrangesegment.py"], mech=[("derivation cache", "src/logic/stamping/lagrangesegment.py")], tech=VF + "; dependence of key and payload on each input", note=NOTE),
 dict(id="C10", title="Invalid networks are refused before solving",
      statement="A power flow is attempted only on a network whose buses form one electrical island through closed branches and whose nominal voltages agree inside every region not separated by a transformer or regulator. Everything else raises before the solver runs; loads, shunts, grounded elements, open switches and blown fuses do not connect buses.",
      over=["inputs", "configurations"], q="every connecting element kind and state, all nominal voltages",
      why="The tests use well formed networks only; a wrong island or voltage verdict needs one particular element kind to be the only link.",
      files=["src/logic/graphanalyzer.py", "src/logic/powerflow.py"], mech=[("graph validation", "src/logic/graphanalyzer.py:GraphAnalyzer"), ("refusal", "src/logic/powerflow.py:PowerFlow.execute")], tech=VF + "; driver composing network, graph and power flow", note=NOTE + " networkx graphs are replaced by a small model of their documented behaviour."),
 dict(id="C11", title="Every element takes part in the network",
      statement="Every element added to a network of either kind is in the list of all elements exactly once, receives its unknowns once per index assignment, and contributes every one of its stamps to the assembled system. Each assignment numbers the unknowns anew without gaps, includes the optimisation model when one is set, and changes the network's matrix version.",
      over=["inputs", "configurations", "histories"], q="every element collection of both network kinds, with and without optimisation, repeated assignments",
      why="The shipped cases do not use every collection; an element kind that is left out of one of the lists silently disappears from the equations.",
      files=["src/logic/network/networkmodel.py", "src/logic/stamping/matrixstamper.py"], mech=[("element list and index assignment", "src/logic/network/networkmodel.py:NetworkModel"), ("assembly", "src/logic/stamping/matrixstamper.py:build_matrix_stamper")], tech=VF, note=NOTE),
 dict(id="C12", title="A RAW record becomes its element in per unit",
      statement="In a network read from a RAW file, every bus, load, generator, swing machine, fixed or switched shunt and branch record in service becomes one element at the bus with the record's number, in per unit and radians. Machines sharing a bus act as one. Records out of service or at isolated buses become nothing. Revisions 30 and 32 to 34 agree.",
      over=["inputs"], q="all field values of the records described, defaults for blank fields, revisions 30, 32, 33 and 34",
      why="Three case files are tested, of two revisions, and only their solutions are compared, with tolerance.",
      files=["src/logic/network/parsers/raw/parser.py", "src/logic/network/parsers/raw/data_classes.py", "src/logic/network/parsers/raw/Data.py", "src/logic/network/networkloader.py"], mech=[("record reading", "src/logic/network/parsers/raw/Data.py"), ("record translation", "src/logic/network/parsers/raw/parser.py:parse_raw")], tech=VF + "; case files with symbolic fields", note=NOTE + " Bound: the shapes of the case files composed (numbers of records per bus and section); their field values are arbitrary. csv.reader is replaced by the rows themselves."),
 dict(id="C13", title="RAW transformers keep their ratio, shift and impedance",
      statement="A two-winding record of a RAW file becomes a transformer with the ratio, phase shift and leakage impedance it gives, in the solver's per unit, for every winding and impedance unit code, system base and nominal voltage. A three-winding record becomes its equivalent star of windings in service, at a bus of its own.",
      over=["inputs", "configurations"], q="all field values, winding codes 1-3, impedance codes 1-3 (two windings) and 1-2 (three windings), two system bases, revisions 30, 32, 33 and 34, all winding states",
      why="The tested cases use one unit convention, and off-nominal transformers change their solutions very little.",
      files=["src/logic/network/parsers/raw/parse_transformers.py", "src/logic/network/parsers/raw/parser.py", "src/logic/network/parsers/raw/data_classes.py", "src/logic/network/parsers/raw/Data.py"], mech=[("two windings", "src/logic/network/parsers/raw/parse_transformers.py:TwoWindingXfmrs"), ("three windings", "src/logic/network/parsers/raw/parse_transformers.py:ThreeWindingXfmrs")], tech=VF + "; case files with symbolic fields", note=NOTE + " Magnetising admittance is not compared (the model does not stamp it); three-winding records of revision 30 are not composed."),
 dict(id="C14", title="A RAW file means the same however it is written",
      statement="The network read from a RAW file does not depend on column header lines, padding or separators, remarks behind bus records, the order of the buses, records of equipment that is not modelled, anything after the end mark, or on files read before. A file may end after any section from the generators on.",
      over=["inputs", "histories"], q="revisions 30, 32, 33 and 34, every section of the format, all field values of the case",
      why="The tested files are written one way each.",
      files=["src/logic/network/parsers/raw/Data.py", "src/logic/network/parsers/raw/parser.py"], mech=[("file reader", "src/logic/network/parsers/raw/Data.py:Raw")], tech=VF + "; variants of a case with symbolic fields", note=NOTE + " Bound: one case per revision with something of everything modelled, and its variants. csv.reader is trusted to split lines as documented; its arguments are checked."),
 dict(id="C15", title="A feeder file's nodes and loads become the network they describe",
      statement="Every node, meter and load of a GridLAB-D file becomes one bus per phase at its nominal voltage, turned by its phase; swing nodes become sources of that voltage and nothing else does. Each load draws, between the conductors it is connected to (phase to ground, phase to phase for delta, leg to leg for triplex), the constant power, constant current and constant impedance given for it (the power_, impedance_ and constant_ values of a connection, in any complex notation), and is known by the number in its name, its connection and its primary phase; children act at their parent's bus. Skipped objects leave no trace, and the layout of the file (comments, blank lines, quotes, order of values) does not matter.",
      over=["inputs"], q="all power, current, impedance, fraction and voltage values; every phase set, connection and way of giving a load of the format that the reader accepts",
      why="The taxonomy feeders use one form of load each and are compared at a few decimals of a reference simulator.",
      files=["src/logic/network/parsers/threephase/threephaseparser.py", "src/ditto/readers/gridlabd/read.py", "src/ditto/readers/gridlabd/load_parser.py"],
      mech=[("buses, sources and loads", "src/logic/network/parsers/threephase/threephaseparser.py:ThreePhaseParser"), ("load reader", "src/ditto/readers/gridlabd/load_parser.py:LoadParser"), ("reader", "src/ditto/readers/gridlabd/read.py:Reader")],
      tech=VF + "; feeder files with symbolic numbers", note=NOTE + " Bound: files of a few objects, one per load form and phase set."),
 dict(id="C16", title="A feeder file's transformers have the impedances and ratios they describe",
      statement="A transformer of a GridLAB-D file connects the buses of its two ends phase by phase (and a center-tapped one the two legs and their neutral), with the ratio of its two voltages, the series impedance given per unit referred to its rating and secondary voltage, and the shift of its connection; every unit the format allows for a value means what it says. Transformers share no state, also when they share a configuration.",
      over=["inputs"], q="all ratings, voltages, resistances, reactances, phase sets and connection types the reader accepts",
      why="The feeders that are tested use few configurations, each with one style of units.",
      files=["src/logic/network/parsers/threephase/transformerparser.py", "src/ditto/readers/gridlabd/read.py"],
      mech=[("transformers", "src/logic/network/parsers/threephase/transformerparser.py:TransformerParser"), ("configurations", "src/ditto/readers/gridlabd/read.py:Reader")], tech=VF + "; feeder files with symbolic numbers", note=NOTE + " Bound: one or two transformers per file, configurations enumerated."),
 dict(id="C17", title="A feeder file's lines have the impedances of their conductors",
      statement="The series impedance matrix of an overhead, underground or triplex line is that of Carson's equations for its own conductors, neutrals reduced away (Kron), times its length: resistances, radii, strands and distances of the line's own configuration and spacing, each in the unit it is given in, for the phases the line has, in their order. Its charging is that of its conductors above ground or of its cables, and absent when turned off. Lines share no state, also when they share a configuration.",
      over=["inputs"], q="all resistances, radii, diameters, distances, heights, lengths and units; conductor sets of one to three phases with and without neutral",
      why="A stored reference solution shows no more than that one feeder's voltages moved by less than the tolerance; the taxonomy feeders use one set of units and of strands.",
      files=["src/ditto/readers/gridlabd/line_impedance.py", "src/ditto/readers/gridlabd/read.py", "src/logic/network/parsers/threephase/threephaseparser.py"],
      mech=[("Carson and Kron", "src/ditto/readers/gridlabd/line_impedance.py:compute_overhead_impedance"), ("cables", "src/ditto/readers/gridlabd/line_impedance.py:compute_underground_impedance"), ("triplex", "src/ditto/readers/gridlabd/line_impedance.py:compute_triplex_impedance"), ("charging", "src/ditto/readers/gridlabd/line_impedance.py:compute_overhead_capacitance")],
      tech=VF + "; feeder files with symbolic numbers, numpy by meaning, matrix inverses uninterpreted", note=NOTE + " Bound: one or two lines per file. Distances in general position: comparisons of lengths are decided at one sample point, as the geometry decides only unused wire positions. Charging is compared with the reader's halved value (known finding)."),
 dict(id="C18", title="A feeder file's switching and control devices are the ones it describes",
      statement="Each switch, recloser, sectionalizer and fuse of a GridLAB-D file connects the phases it names in the state given for the phase, otherwise in its overall state, closed by default. Each capacitor is connected to the phases it names with the susceptance of its rating and the control and thresholds given (manual control when a voltage control lacks a threshold). Each regulator has the taps, steps, limits and control of its configuration on every phase.",
      over=["inputs"], q="all ratings, thresholds, taps and states; phase sets and ways of giving a state the reader accepts",
      why="The tested feeders hold few devices, mostly closed, in one style.",
      files=["src/logic/network/parsers/threephase/threephaseparser.py", "src/ditto/readers/gridlabd/read.py"],
      mech=[("devices", "src/logic/network/parsers/threephase/threephaseparser.py:ThreePhaseParser"), ("reader", "src/ditto/readers/gridlabd/read.py:Reader")], tech=VF + "; feeder files with symbolic numbers", note=NOTE + " Bound: one or two devices per file."),
 dict(id="C21", title="Automatic devices act on their own measurement in the restoring direction",
      statement="A fuse blows exactly when the magnitude of its own measured current exceeds its rating and then stays blown. A capacitor switches on its own measured quantity against its thresholds and in the direction that restores it, and keeps its state inside the band. A device reports a change exactly when its state changed, and its contribution to the equations follows its state. A regulator's tap maps to its effective ratio by its type and is kept inside its limits.",
      over=["inputs", "histories"], q="all measurements, thresholds, device states and modes",
      why="Tests run one or two fixed feeders in which each device trips at most once; the conditions quantify over continuous measurements.",
      files=["src/models/components/capacitor.py", "src/models/components/fuse.py", "src/models/components/regulator.py"], mech=[("capacitor control", "src/models/components/capacitor.py:Capacitor.try_adjust_device"), ("fuse", "src/models/components/fuse.py:Fuse.try_adjust_device"), ("regulator", "src/models/components/regulator.py:Regulator")], tech=VF, note=NOTE),
 dict(id="C22", title="Device control ends in a state its solution was computed for",
      statement="The reported voltages solve the network in the state its devices are left in. After any device changed, the network is re-indexed and solved again before reporting; devices are judged only on a converged solution; the loop stops when no device changed or no solution was found, and with device control off no device is touched. Homotopy runs its schedule down to the unrelaxed network and reports failure if any step fails.",
      over=["histories", "inputs"], q="every sequence of device reactions and solver verdicts up to the explored loop depth, all device kinds",
      why="It needs particular sequences of adjustments and failures that the fixed feeders never produce.",
      files=["src/logic/devicecontroller.py", "src/logic/homotopycontroller.py"], mech=[("device loop", "src/logic/devicecontroller.py:DeviceController"), ("homotopy", "src/logic/homotopycontroller.py:HomotopyController.run_powerflow")], tech=VF + "; unrolled loop with symbolic verdicts", note=NOTE),
 dict(id="C23", title="Voltage limiting bounds bus voltages and touches nothing else",
      statement="With voltage limiting on, every real and imaginary bus voltage component moves by at most the step bound and ends inside the voltage bound, an update inside both bounds is taken unchanged, and every other unknown takes the Newton update unchanged. The limited entries are those of the network version being solved, and limiting is used exactly when it was requested for a network it supports.",
      over=["inputs", "histories"], q="all updates and previous iterates, repeated use across re-indexed networks",
      why="No test checks the limited vector; a wrong entry set only slows or breaks convergence of some networks.",
      files=["src/logic/v_limiting.py", "src/logic/powerflow.py"], mech=[("limiting", "src/logic/v_limiting.py:PositiveSeqVoltageLimiting"), ("wiring", "src/logic/powerflow.py:PowerFlow.execute")], tech=VF + "; piecewise-linear case split", note=NOTE),
 dict(id="C24", title="Reported results are the quantities of the solved network",
      statement="Bus, generator, load, slack and transformer results, residual details, losses and maxima are the values the solved vector and the element parameters define: magnitudes, angles, power in MW/Mvar with the convention's sign, per conductor. Displayed and exported text shows those values under their own labels, and the success flag, iteration count and homotopy use are those of the run.",
      over=["inputs"], q="all solved vectors, parameters, element kinds",
      why="Tests read bus voltages and hardly ever other results; power, loss and file output values are not compared to anything.",
      files=["src/logic/powerflowresults.py", "src/logic/residualdetails.py"], mech=[("results", "src/logic/powerflowresults.py"), ("residual details", "src/logic/residualdetails.py")], tech=VF, note=NOTE),
 dict(id="C25", title="Each hour of a time series is solved with that hour's data",
      statement="In a time series run every requested hour is solved exactly once with every load set to its datum for that hour at its own power factor (loads without data unchanged), the power of the swing bus is moved to the negative loads before solving, results are stored per hour, and equipment ratings are judged on that hour's results.",
      over=["inputs", "histories"], q="all load data, hours, load names and results",
      why="The time series code has no tests.",
      files=["src/logic/network/timeseriesprocessor.py", "src/logic/network/timeseriessettings.py"], mech=[("time series", "src/logic/network/timeseriesprocessor.py:TimeSeriesProcessor")], tech=VF + "; unrolled hours with symbolic data", note=NOTE),
 dict(id="C26", title="Load scaling is exact",
      statement="Scaling the loads multiplies the active power of every load by the active factor and its reactive power by the reactive factor, exactly once, in networks of both kinds; a factor left out means one. Nothing else of the network changes.",
      over=["inputs", "configurations"], q="all factors, loads (signs, zero, constant current and impedance parts) and network kinds",
      why="Tests scale one case by one factor.", files=["src/logic/network/loadfactor.py"], mech=[("scaling", "src/logic/network/loadfactor.py:modify_load_factor")], tech=VF, note=NOTE),
 dict(id="C27", title="Island selection keeps exactly the selected island",
      statement="When the island of the swing bus is selected, the network that remains consists of exactly the buses of that island (internal buses of its devices included) and every element attached to them, grounded loads and capacitors too. Everything energised elsewhere is removed, order is kept, and without the request nothing changes.",
      over=["configurations"], q="three islands holding every element kind, each selected, in several orders, linked by an open switch and a blown fuse",
      why="No test runs it.", files=["src/logic/network/timeseriesprocessor.py", "src/logic/graphanalyzer.py"], mech=[("selection", "src/logic/network/timeseriesprocessor.py:TimeSeriesProcessor.select_island")], tech=VF + "; driver network with every element kind", note=NOTE + " networkx graphs are replaced by a small model of their documented behaviour. Bound: the driver networks."),
 dict(id="C28", title="Infeasibility analysis penalises one current per bus",
      statement="Infeasibility analysis adds, at every bus, virtual ones included, its own current that enters that bus's real and imaginary current balance through that bus's multipliers, with one common sign. All currents are penalised by the same positive quadratic cost; nothing else enters the objective, and the model is refused when the network is not being optimised.",
      over=["inputs", "configurations"], q="all buses and unknowns, both network kinds, repeated assignment; for the L1 variant the balance contribution only",
      why="Two cases are tested for feasibility; wrong pairing or weights still give some solution.", files=["src/models/optimization/L2infeasibility.py", "src/models/optimization/L1infeasibility.py"], mech=[("infeasibility model", "src/models/optimization/L2infeasibility.py")], tech=VF, note=NOTE),
 dict(id="C29", title="Options and files reach their destination",
      statement="Each command line option acts on what it names and nothing else: the case is loaded, loads are scaled once by the given factor, optimisation is set exactly when asked, settings and series options arrive unchanged before solving, results are shown and written as asked. Defaults are neutral; settings objects keep each argument. Each file format is read once by its parser, and unknown files are refused.",
      over=["inputs", "configurations"], q="all option values, every option alone and in combination, both network kinds, series absent, successful or failing",
      why="The command line and the loader's failure paths are not tested.", files=["src/run_solver.py", "src/logic/network/networkloader.py", "src/logic/powerflowsettings.py", "src/logic/network/timeseriessettings.py"], mech=[("entry point", "src/run_solver.py:main"), ("loader", "src/logic/network/networkloader.py:NetworkLoader"), ("settings", "src/logic/powerflowsettings.py")], tech=VF + "; stand-in for the option parser", note=NOTE + " The option parser, file system and download calls are replaced by models of their documented behaviour."),
 dict(id="C30", title="The initial estimate starts each unknown from its own data",
      statement="The initial vector has one entry per unknown. Bus voltages start at their stored phasor (or at one per unit when a flat start is asked for in a transmission network), generator reactive power and slack currents at their own initial values, multipliers at their own start values, and everything else at zero.",
      over=["inputs", "configurations"], q="all initial values, both network kinds, flat or given, with and without optimisation, repeated assignment",
      why="A wrong start usually converges to the same answer, so tests cannot see it.", files=["src/logic/network/networkmodel.py", "src/models/components/bus.py"], mech=[("initial estimate", "src/logic/network/networkmodel.py:TxNetworkModel.generate_v_init")], tech=VF, note=NOTE),
 dict(id="C31", title="A model definition is taken exactly as declared",
      statement="The optimisation function of a model is the sum of each declared equation times its own multiplier (real with real, imaginary with imaginary). A definition whose equations mention a symbol that is neither variable, multiplier nor parameter is rejected.",
      over=["inputs", "configurations"], q="all declarations of equations, variables, multipliers and parameters",
      why="All shipped models are well formed; the rejection path and unusual declarations are never run by the tests.",
      files=["src/logic/stamping/lagrangesegment.py"], mech=[("model definitions", "src/logic/stamping/lagrangesegment.py")], tech=VF, note=NOTE),
]
NA = [
 dict(id="C90", title="Convergence on well-posed networks",
      statement="For a well-posed network the solver converges to the operating point within its iteration limits.",
      over=["inputs"], q="all well-posed networks", why="Tests cover a fixed set of feeders.", files=["src/logic/nrsolver.py"], mech=[("Newton iteration", "src/logic/nrsolver.py")],
      reason="convergence depends on run-time magnitudes (conditioning, basin of attraction); no static argument in reach bounds them"),
 dict(id="C91", title="Agreement with the reference simulator",
      statement="Solved voltages agree with GridLAB-D results for the same model to the published tolerance.",
      over=["inputs"], q="all distribution models", why="Tests compare stored results for a fixed set of feeders.", files=["src/logic/network/parsers/threephase/threephaseparser.py"], mech=[("model translation", "src/logic/network/parsers/threephase")],
      reason="numerical agreement with an external simulator is an empirical relation between two executions; only the element laws behind it (C02, C16-C19) are decidable from the source"),
 dict(id="C92", title="Assembly is fast enough on large networks",
      statement="Assembling and solving scales near-linearly with network size.",
      over=["inputs"], q="all network sizes", why="Not tested.", files=["src/logic/stamping/matrixstamper.py"], mech=[("batched evaluation", "src/logic/stamping/matrixstamper.py")],
      reason="run time is dominated by native sparse linear algebra; a static cost bound of it is out of reach"),
]
