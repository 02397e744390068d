import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,state,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=m,where=', '.join(files[:3])) for m in mech],state=[dict(name=state,meaning='state the property is about',where=files[0])],observe_at=[observe],hook_needed=None)))
p("P01","A model value that is read is never stale",
 "After any history of setting solution values, changing, deleting or recreating models, changing parameters at any scope and changing or solving circuit nodes, every node, edge, element, interface and contact-restricted model that is read has the value of its current defining expression on the current inputs. The value does not depend on which models were read earlier or in which order. A definition that leads back to itself is reported as an error whenever it is read.",
 ["histories"],"all operation histories up to a depth over a small model graph that has chains, a diamond, sub-models, parameters at the three scopes and circuit nodes, with every subset of reads in between",
 "tests evaluate each model once after a fixed set-up; staleness needs a particular order of read, change and read, and the number of orders is exponential",
 ["src/Geometry/Region.cc","src/models/NodeModel.cc","src/models/EdgeModel.cc","src/Geometry/Interface.cc","src/AutoEquation/ModelExprEval.cc","src/Circuit/data/NodeKeeper.cc","src/Data/GlobalData.cc"],
 ["dependency map and signalled invalidation","lazy evaluation with an up-to-date flag","name resolution order in expressions"],"model cache and dependency map of a region and interface","get_node_model_values, get_edge_model_values, get_interface_model_values")
p("P02","Parameters resolve region, then device, then global, and survive nothing",
 "A parameter or material read for a region is the one set last on that region, else the one on its device, else the global one, for every history of setting, overwriting, switching between text and number, and deleting devices. Setting a parameter at one scope or device never changes what another scope or device sees, and deleting a device or resetting the simulator leaves no parameter, circuit, mesh or device behind that a fresh start would not have.",
 ["histories"],"all histories up to a depth of setting values of both types at every scope, materials, deletion and recreation of devices, and a full reset, over two devices with two regions each",
 "tests set each parameter once; shadowing, type switches and leftovers need specific multi-step histories",
 ["src/Data/GlobalData.cc","src/commands/GeometryCommands.cc","src/commands/MaterialCommands.cc","src/pythonapi/PythonCommands.cc"],
 ["three level map lookup","reset of all singletons"],"global, device and region parameter tables","get_parameter, get_parameter_list, get_material, listings")
p("P03","Symbolic derivatives, simplification and expansion preserve meaning",
 "For every expression over the operators and built-in functions the engine differentiates, the symbolic derivative evaluates to the mathematical derivative, and simplification, subexpression sharing, substitution and sign or scale extraction evaluate to the same value as the original, at every point where the original is defined. User-declared functions follow the chain rule with their declared partial derivatives whatever the names of their formal arguments.",
 ["programs","inputs"],"all expression trees up to a depth over the operator, function and leaf alphabet, evaluated at a fixed lattice of points including negative values and zero, plus all user-function declarations up to three formals and all argument permutations",
 "the stable tests compile two fixed model files; rewriting rules interact, so a wrong rule shows only for particular shapes of tree",
 ["src/adiff/EquationObject.cc","src/adiff/EquationObject.hh","src/adiff/mcParser.y","src/adiff/UserFunc.cc","src/adiff/LogicalFunc.cc","src/adiff/mcModelCompiler.cc"],
 ["local rewriting rules for sums, products, powers and if expressions","derivative rules per function","user function table with formal arguments"],"expression graph","evaluation of original against derived expression trees; output of the model compiler")
p("P04","The Newton matrix is the exact derivative of the assembled residual",
 "For every configuration of bulk, contact, interface and circuit-connected equations with node, edge and element models whose derivative models are declared, every entry of the assembled static and dynamic matrices equals the partial derivative of the corresponding residual row with respect to the corresponding unknown, including entries to circuit unknowns, and every other entry is zero.",
 ["configurations","inputs"],"all combinations of equation term kinds at bulk, contact (with and without circuit node) and interface in 1D, 2D and 3D, each with every unknown perturbed; plus the shipped drift-diffusion physics",
 "a wrong or missing derivative term still converges on simple problems, so result comparisons do not see it",
 ["src/Equation/Equation.cc","src/Equation/ContactEquation.cc","src/Equation/InterfaceEquation.cc","src/AutoEquation/ExprEquation.cc","src/AutoEquation/ExprContactEquation.cc","src/AutoEquation/InterfaceExprEquation.cc","src/Circuit/models/ideal/IdealResistor.cc","src/math/Newton.cc"],
 ["assembly of derivative models per node of edge or element","row permutation at contacts and interfaces"],"matrix triplets","get_matrix_and_rhs against differences of its own right hand side")
p("P05","The assembled residual is the documented finite-volume sum",
 "Every bulk residual row is the sum over its node, edges and elements of the equation's model values times the node volume, edge couple or element couple with opposite signs at the two ends of an edge, so that fluxes are conserved; at contacts and interfaces the rows are replaced, added or permuted as documented per equation type, charges and currents reported for contacts are the sums of the same terms, and rows from user-supplied assembly callbacks are added once and only when they lie in range.",
 ["configurations","inputs"],"all combinations of equation term kinds, contact kinds, interface types, shared contact nodes, edit histories of contacts from interfaces and callbacks on small meshes in 1D, 2D and 3D with distinct values at every entity",
 "tests compare a handful of device currents; double counting or dropping at shared nodes needs specific combinations",
 ["src/Equation/Equation.cc","src/Equation/ContactEquation.cc","src/Equation/InterfaceEquation.cc","src/AutoEquation/ExprEquation.cc","src/AutoEquation/ExprContactEquation.cc","src/math/Newton.cc","src/commands/MathCommands.cc"],
 ["finite-volume assembly with couples and volumes","ownership of nodes shared by contacts","contact current and charge integration"],"residual vector, contact currents and charges","get_matrix_and_rhs, get_contact_current, get_contact_charge")
p("P06","A failed or aborted solve leaves the state as it was before the solve",
 "If a solve does not succeed, for whatever reason and in whatever phase it happens (factorization, back substitution, non-finite model values, an exception in a user callback, iteration limit, argument errors), it reports failure, and afterwards all solution values, circuit node values and every model derived from them read as they did before the call; a following solve of the restored problem behaves as if the failed one had never happened.",
 ["fault_sequences","histories"],"every single fault at every point where one can occur during DC, small-signal, noise and transient solves of device, circuit and mixed problems, and all pairs of a failed solve followed by another solve",
 "failures at particular points cannot be provoked by ordinary inputs in a test; they need fault injection at every call",
 ["src/math/Newton.cc","src/math/LinearSolver.cc","src/math/DirectLinearSolver.cc","src/commands/MathCommands.cc","src/Circuit/data/NodeKeeper.cc","src/models/NodeModel.cc"],
 ["backup of solutions and restoration on failure","exception propagation from models and callbacks"],"node solutions, circuit solutions, time-integration history","values read before and after the failing call")
p("P07","Transient steps implement their integration formulas over any history",
 "For every sequence of transient initial-condition, backward-Euler, trapezoidal and second-order backward-difference steps with any step sizes, repeated, failed and retried steps included, the accepted solution of each step satisfies the discrete equation of the scheme with the charges and currents of the latest accepted points, and a step that was rejected or failed contributes nothing to later ones.",
 ["histories","fault_sequences"],"all sequences of step kinds, sizes, step factors and failures up to a depth, on a device problem, a circuit problem and a coupled one, against a reference integrator",
 "tests run one scheme with constant steps; the bookkeeping of the two previous points matters only across mixed and failing sequences",
 ["src/math/Newton.cc","src/math/TimeData.cc","src/math/TimeData.hh","src/commands/MathCommands.cc"],
 ["storage and shifting of previous charges, currents and assembled terms","choice of integration coefficients"],"stored charges and currents of previous time points","solution values after every step")
p("P08","Circuit solutions satisfy the network equations for every topology",
 "For every connected circuit of resistors, capacitors, inductors, current sources and voltage sources, the operating point, the small-signal response at any frequency and the noise transfer from every node equal those of modified nodal analysis, whatever the order and the names in which elements and nodes were created, through node aliases, and after element values are altered.",
 ["configurations","histories","inputs"],"all multigraph topologies up to a size over element kinds, orientations and node names, aliases, alterations and frequencies, against an independently written nodal analysis",
 "tests solve a few fixed circuits; sign, orientation and ground handling depend on topology",
 ["src/Circuit/models/ideal/IdealInductor.cc","src/Circuit/models/ideal/IdealCapacitor.cc","src/Circuit/models/sources/IdealVoltage.cc","src/Circuit/models/sources/IdealCurrent.cc","src/Circuit/data/NodeKeeper.cc","src/Circuit/data/InstanceKeeper.cc","src/commands/CircuitCommands.cc","src/math/Newton.cc"],
 ["element stamps","node numbering, ground and alias handling","small-signal right hand side and transposed noise solve"],"circuit node table and solutions","get_circuit_node_value")
p("P09","The sparse solver session is used correctly and solves the system given",
 "Whatever sequence of entries, repeated positions, clears, structural changes and solves a matrix goes through, its compressed form, products and solutions equal those of a plain dense matrix with the same entries, real or complex, transposed or not; a solver session is analysed before it is factored, factored before it is solved, re-analysed when the structure changed, never used after release and always released. A user-supplied solver is called with exactly the system assembled and its answer is used as is, or its failure is reported. The iterative solver solves a well posed linear problem to the same answer as the direct one, also when its preconditioner is exact and when it has to restart.",
 ["histories","fault_sequences"],"all operation sequences up to a depth on small matrices against a dense reference, and all solve histories with a monitored factorization library and with user-supplied solvers answering correctly, wrongly or not at all",
 "tests see only final results of a well-behaved sequence; structure changes between solves are rare in them",
 ["src/math/CompressedMatrix.cc","src/math/MKLPardisoPreconditioner.cc","src/math/DirectLinearSolver.cc","src/math/ExternalPreconditioner.cc","src/math/Preconditioner.cc","src/math/Newton.cc"],
 ["symbolic pattern caching with out-of-band entries","session state of the direct solver","conversion of buffers to and from the user solver"],"compressed matrix and factorization handles","right hand sides, solutions and calls seen by the monitored library")
p("P10","Equation numbers are a bijection onto rows at all times",
 "After any history of adding, replacing and deleting bulk, contact and interface equations, solution variables and circuit nodes, every pair of node and live equation has exactly one row, rows are consecutive from zero without gaps or overlap between regions, devices and the circuit, and equation lists, equation commands, variable lookups and contact or interface couplings refer to the live equations only.",
 ["histories"],"all histories up to a depth of adding, replacing (same and different variable) and deleting equations over two regions, an interface, two contacts and a circuit node",
 "tests never delete or replace equations in more than one order",
 ["src/Geometry/Region.cc","src/Geometry/Device.cc","src/Geometry/Interface.cc","src/Geometry/Contact.cc","src/commands/EquationCommands.cc","src/math/Newton.cc","src/Circuit/data/NodeKeeper.cc"],
 ["equation index assignment and reuse","maps from name and variable to equation"],"equation maps and numbering","get_equation_numbers, get_circuit_equation_number, get_equation_list, get_equation_command, matrix size")
p("P11","Meshes are complete, consistent and geometrically exact",
 "For every mesh description that is accepted, nodes are exactly the requested grid points without duplicates, every edge, triangle or tetrahedron appears once, contacts and interfaces contain exactly the nodes and elements of the given tags or boxes, and the geometric models satisfy their identities: node volumes sum to the region's size, couples and lengths match the perpendicular-bisector construction, surface areas sum to the boundary areas; descriptions that cannot be meshed are rejected with an error.",
 ["configurations","inputs"],"all 1D line lists, 2D line and box arrangements and small triangle and tetrahedron meshes up to a size, including reversed, duplicated and degenerate input, against a reference construction",
 "tests mesh a few devices and look at simulated currents, which hide small geometric errors",
 ["src/meshing/Mesh1d.cc","src/meshing/Mesh2d.cc","src/meshing/MeshLoaderUtility.cc","src/meshing/GmshLoader.cc","src/meshing/MeshKeeper.cc","src/commands/MeshingCommands.cc","src/GeomModels/EdgeCouple.cc","src/GeomModels/NodeVolume.cc","src/GeomModels/SurfaceArea.cc","src/Geometry/Region.cc"],
 ["merging of coordinates, boxes and tags","finite-volume geometry models"],"mesh and device geometry","node positions, element lists, contact and interface lists, geometric models")
p("P12","Saving and loading a device reproduces it",
 "Any device that was created and modified through the interface and is then written to a device file and loaded into a fresh simulator has the same regions, nodes, elements, contacts, interfaces, materials, models with their values, definitions and display types, equations and equation commands, and, with the same parameters set, assembles the same system; models stay live and follow later changes of their inputs. A file cut short at any point is rejected with an error, a damaged one is read or rejected without a crash, and a rejected file leaves nothing behind and does not affect later loads. A file that cannot be written is reported.",
 ["histories","configurations","crash_points"],"all combinations of the saved features on small 1D, 2D and 3D devices after edit histories, every truncation point of the file, every one-place damage of its lines, and targets that cannot be written",
 "tests round-trip one or two devices with few features; dropped attributes show only in later behaviour",
 ["src/meshing/DevsimWriter.cc","src/meshing/DevsimRestartWriter.cc","src/meshing/DevsimLoader.cc","src/meshing/DevsimParser.y","src/meshing/DevsimScanner.l","src/models/NodeSolution.cc","src/Equation/EquationHolder.cc"],
 ["serialization of every model and equation kind as a replayable command","parser and loader of the text format"],"device file","comparison of all queries and of the assembled system before and after")
p("P13","A command that fails reports it and changes nothing",
 "Every command called with a missing, extra, mistyped or dangling argument, or naming an object that does not exist or already exists, raises the simulator's error and leaves every observable object, model, parameter, equation and circuit node as it was; a command that succeeds returns normally; none of them crashes, hangs or leaks or over-releases the objects passed to it.",
 ["inputs","histories"],"every command with every single-argument and two-argument corruption of a valid call, on populated 1D, 2D, interface and circuit set-ups",
 "tests exercise valid calls almost only; the error paths multiply with commands and arguments",
 ["src/pythonapi/CommandHandler.cc","src/pythonapi/GetArgs.cc","src/pythonapi/ObjectHolder.cc","src/pythonapi/Interpreter.cc","src/commands/ModelCommands.cc","src/commands/EquationCommands.cc","src/commands/GeometryCommands.cc","src/commands/CircuitCommands.cc","src/commands/MeshingCommands.cc","src/commands/Validate.cc"],
 ["option tables and validation helpers before any mutation","conversion and reference counting of python objects"],"the whole simulator state","state snapshot before and after each failing call, reference counts of the arguments")
p("P14","Parallel evaluation equals serial evaluation under every schedule",
 "For every number of worker threads, task size and model length, and for every interleaving of the workers, an evaluation or assembly done in parallel yields bit for bit the values, and the same error or floating point exception reports, as the serial one, without data races, lost or duplicated chunks, or hangs.",
 ["schedules","configurations"],"all lengths, thread counts and task sizes up to a bound, and all interleavings of the workers' shared accesses up to a preemption bound",
 "thread interleavings are not under the control of a test, and tests run with one thread",
 ["src/models/ParallelOpEqual.cc","src/MathEval/MathPacket.cc","src/MathEval/MathEval.cc","src/utility/FPECheck.cc","src/MathEval/MathPacket.hh"],
 ["splitting into chunks over futures","collection of floating point flags per worker"],"shared value vectors and exception flags","results of evaluation with threads_available and threads_task_size")
p("P15","Extended precision never degrades or desynchronizes values",
 "With extended precision switched on for models, equations or the solver in any combination, values set, read back, copied, scaled or partially overwritten are those of double precision to within rounding of the double computation, precise enough to keep differences that double loses, and the double and the extended copy of a model never disagree whatever the sequence of writes and reads in either precision.",
 ["histories","configurations"],"all operation sequences up to a depth on the dual-precision value store against a reference, and all combinations of the precision switches on small problems",
 "the two copies get out of step only after specific alternations of reads and writes",
 ["src/models/ModelDataHolder.cc","src/models/ScalarData.cc","src/math/CompressedMatrix.cc","src/Equation/Equation.cc","src/math/Newton.cc"],
 ["lazy copying between double and extended storage with uniform-value optimization"],"per-model value store","model values, residuals and solutions under the precision switches")
p("P16","Derived edge and element models have the documented values and derivatives",
 "On every mesh, the models derived from other models (edge values from node values, arithmetic, geometric, gradient and negative-gradient averages, element values from edges or nodes, edge pairs, vector components, vector gradients, interface and contact restricted models) equal their defining formulas, and the derivative models created with them equal the derivatives of those formulas. A derived value that cannot be represented is reported as an error every time it is read, never returned.",
 ["configurations","inputs"],"every derived-model kind on every edge and element orientation of small 1D, 2D and 3D meshes with value patterns including equal and opposite values, against reference formulas",
 "tests check a few averages on one mesh; orientation and derivative-index slips cancel on symmetric meshes",
 ["src/models/EdgeFromNodeModel.cc","src/GeomModels/AverageEdgeModel.cc","src/models/TriangleEdgeFromEdgeModel.cc","src/models/TriangleEdgeFromEdgeModelDerivative.cc","src/models/TetrahedronEdgeFromEdgeModel.cc","src/models/TetrahedronEdgeFromEdgeModelDerivative.cc","src/models/VectorTriangleEdgeModel.cc","src/Geometry/TriangleElementField.cc","src/Geometry/TetrahedronElementField.cc","src/GeomModels/VectorGradient.cc","src/GeomModels/InterfaceNormal.cc"],
 ["index mapping between element, edge and node","per-element linear solves for the vector field"],"derived model values","get_edge_model_values, get_element_model_values, get_node_model_values")
p("P17","Exported files carry exactly the simulator's data",
 "For every device, a plot file written in any supported format parses as that format and contains every node, element and displayed model of the selected devices with the values the simulator reports at print precision, each associated with the right entity.",
 ["configurations","inputs"],"all combinations of format, dimension, model kinds, display types, include lists and data sizes modulo the encoding block, including empty regions and extreme values",
 "tests do not read the files back",
 ["src/meshing/VTKWriter.cc","src/meshing/TecplotWriter.cc","src/meshing/DevsimWriter.cc","src/meshing/MeshWriter.cc","src/utility/base64.cc"],
 ["block encoding and compression of arrays","ordering of nodes and elements per region"],"output files","independent parsing of the files against query commands")
p("P18","Built-in math functions are accurate and consistent over their whole range",
 "Every built-in function usable in models returns the mathematical value within a small relative error across all its branch boundaries, underflow and overflow limits, its companion derivative function is its derivative, inverse functions invert, the same value is obtained for scalar, uniform and per-node arguments and in double and extended precision, and undefined arguments raise the floating-point error.",
 ["inputs"],"every function and every argument on a dense lattice that brackets each branch boundary to one unit in the last place and covers all magnitudes and signs, in both precisions and all argument shapes",
 "the unit tests sample two functions at a few points; errors sit at branch switches",
 ["src/MathEval/MathEval.cc","src/MathEval/Bernoulli.cc","src/MathEval/Fermi.cc","src/MathEval/GaussFermi.cc","src/MathEval/MiscMathFunc.cc","src/MathEval/MathWrapper.cc"],
 ["piecewise approximations and series","table of functions by arity"],"none","values of node models and the function registry")
p("P19","Update rules keep variables in their domain",
 "For every Newton update, finite or not, a variable declared positive stays positive, a log-damped variable moves by exactly the damped step in the direction of the update, and a default variable moves by exactly the update, for device and circuit unknowns alike, and the reported absolute and relative errors are the largest over the nodes for the update applied.",
 ["inputs","histories"],"all update values from a lattice (signs, zero, magnitudes around the damping limits, overflow, not-a-number) at every node and all sequences of two updates",
 "ordinary problems converge with small updates, so limiting code is not reached",
 ["src/Equation/Equation.cc","src/Circuit/data/NodeKeeper.cc","src/commands/CircuitCommands.cc","src/commands/EquationCommands.cc"],
 ["step limiting per variable update type","error norms"],"solution values and error records","solution values after an iteration with a prescribed update, convergence report")
p("P20","Convergence is reported exactly when the criteria are met",
 "A solve reports success if and only if within the iteration limit an iteration occurred in which every device, region, equation and the circuit met the relative and absolute limits with finite values, it stops at the first such iteration, and the returned information lists each iteration, device, region, equation and circuit node error as computed; the options that limit divergence, error and iterations act as documented.",
 ["histories","configurations"],"all sequences of update magnitudes per iteration up to a depth for two devices, two equations and a circuit, with all option settings, against a reference verdict automaton",
 "tests see converging runs only",
 ["src/math/Newton.cc","src/commands/MathCommands.cc","src/Equation/Equation.cc","src/Geometry/Device.cc"],
 ["iteration loop with error comparison","collection of convergence information"],"iteration history","return value, exception and info structure of solve")
p("P21","The bias ramp driver reaches its target or stops in a known state",
 "For every pattern of solver outcomes, ramping a contact bias from any start to any target calls the user's callback once for each accepted bias in monotone order, ends exactly at the target when enough steps succeed, halves the step after a failed step and retries from the last accepted bias, and otherwise raises after the minimum step with the bias left at the last accepted value; other errors pass through.",
 ["fault_sequences","inputs"],"all success, convergence-failure and other-error outcome patterns up to a depth for all start, target and step combinations of a lattice",
 "ramps in tests never fail at chosen steps",
 ["python_packages/ramp.py"],["step control loop with bisection"],"bias parameter and step size","bias parameter, callback trace and exception")
p("P22","The shipped physics library assembles the physics it names",
 "In every device configuration set up through the Python physics packages and in every state of potentials, carrier densities, doping and temperature, the models equal the formulas they are named after (Poisson, Scharfetter-Gummel currents, SRH recombination, ohmic and oxide contacts, interface continuity, unified, surface and velocity saturated mobility), the derivative models are their exact derivatives, the assembled residual and matrix are the drift diffusion equations and their Jacobian with each contact's conditions and circuit coupling, and contact currents and charges are the fluxes into the contact; converged bias sequences conserve current, are in equilibrium without bias and do not depend on the path; the helpers create what they need whatever was created before, or say what is missing.",
 ["configurations","inputs","histories"],"all combinations of small devices in one to three dimensions with contact, stage, mobility, doping and temperature, every assignment of a grid of state points to their nodes, all bias histories to a depth, all orders of helper calls",
 "tests run a handful of devices at one operating range; a derivative that is missing or slightly wrong still converges, and states off the solution path are never seen",
 ["python_packages/simple_physics.py","python_packages/simple_dd.py","python_packages/model_create.py","python_packages/Klaassen.py","python_packages/mos_physics.py"],
 ["model and derivative expressions","equation and contact set-up"],"solution variables, models and equations of a device","model values, assembled system, contact currents and charges")
p("P23","Small-signal and noise solutions of devices are the system's linear response",
 "For every configuration of bulk, contact, interface and circuit-connected equations, at every operating point, frequency and source value, an AC analysis gives every device variable and circuit unknown the solution of the static matrix plus j omega times the dynamic matrix with the AC sources on the right hand side, and a noise analysis gives for every circuit unknown and every bulk equation and node the transfer from a unit source in that equation to the chosen output, wherever contacts and interfaces moved the equation, with its gradients; neither analysis changes the operating point or the answers of later analyses; an unknown output is an error.",
 ["configurations","histories"],"all configurations of a lattice of devices, contacts, circuit connections and interfaces times frequencies and outputs, and all histories of analyses, source changes and operating point changes to a depth, against dense complex elimination",
 "tests compare a few AC results with stored text; the permuted and copied rows of contacts and interfaces matter only to the transposed problem",
 ["src/math/Newton.cc","src/Equation/Equation.cc","src/Equation/EquationHolder.cc","src/Geometry/Region.cc","src/math/CompressedMatrix.cc","src/Circuit/data/NodeKeeper.cc"],
 ["assembly of the complex matrix","transposed solve and permuted reading of its solution"],"real and imaginary solutions of devices and circuit","get_node_model_values and get_circuit_node_value after solve")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    import os
    for fn in x['anchors']['files']:
        if not os.path.exists('/repo/'+fn): print(x['id'],'missing',fn)
