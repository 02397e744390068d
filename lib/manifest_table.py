NA = {}
T["P21"] = ("stateless exploration of all solver-outcome sequences against a reference automaton",
            "the real driver on the real parameter store; solve replaced by an outcome oracle; exhaustive to the stated depth over a lattice of configurations")
T["P22"] = ("exhaustive enumeration of configurations, states and bias histories on the implementation against the equations written with dual numbers",
            "the real packages on the real simulator; every configuration of the table times every assignment of the state points within the bound; nothing is abstracted")
T["P01"] = ("explicit-state exploration of operation histories on the implementation, differential oracle against the same base state without history",
            "every history of the stated depth over the operation alphabet of four worlds (1D with interface, contacts and circuit; 1D solving; 2D and 3D elements); nothing is abstracted")
T["P02"] = ("explicit-state exploration of parameter-store histories on the implementation against a reference store",
            "every history of the stated depth over scopes, names, value types, device lifetimes and resets; leftovers after reset compared with a fresh process")
T["P04"] = ("exhaustive enumeration of assembly configurations on the implementation, each matrix column against the exact central difference of the implementation's residual",
            "every configuration of the lattice (dimension, model subsets, contacts, circuit nodes, interfaces, couple models, precision) times every unknown; models are quadratic so the difference is exact")
T["P05"] = ("exhaustive enumeration of assembly configurations on the implementation against a reference finite-volume assembly",
            "every configuration of the lattice, residual rows, permutation, contact currents and charges, custom callback rows")
T["P10"] = ("explicit-state exploration of all equation, contact, interface, device and circuit histories on the implementation against a reference table",
            "every history of the stated depth over 28 operations from three base states; rows, lists, commands and assembled values compared after each")
T["P23"] = ("exhaustive enumeration of assembly configurations and analysis histories on the implementation against dense complex elimination",
            "every configuration of the lattice x frequencies x outputs and sources, every history of analyses, source and operating point changes to the depth; every unknown compared")
T["P08"] = ("exhaustive enumeration of circuit topologies and creation orders on the implementation against exact nodal analysis",
            "every circuit of up to 3 (4) elements over ground and two nodes, every alteration, operating point, small signal and noise; circuits coupled to devices against the assembled matrices")
T["P07"] = ("explicit-state exploration of all transient step histories on the implementation against the discrete equations of the schemes",
            "every history of the stated depth over accepted, rejected, failed and retried steps, source changes and initial conditions, on three systems and two precisions")
T["P06"] = ("exhaustive fault injection on the implementation: every fault kind at every reachable factorization, back substitution, user function and callback call",
            "every solve type from five states in two precisions, state compared before and after and the following solves compared bit for bit with a run without the failed one")
T["P19"] = ("exhaustive enumeration of update sequences fed to the implementation's Newton loop through a scripted solver callback",
            "every old value x first x second update of the lattice at every node for six update rules in two precisions; values, error norms, failure and restoration against the rules")
T["P20"] = ("exhaustive enumeration of update-class sequences fed to the implementation's Newton loop through a scripted solver callback, against a reference verdict automaton",
            "every sequence of update classes for up to three of six equations and circuit nodes under every limit setting; verdict, solves used, records and final values compared")
T["P03"] = ("exhaustive enumeration of expression trees through the implementation's symbolic engine against an independent evaluator with automatic differentiation",
            "every expression of the stated shapes under every transformation at a grid of points; every generated program of the model compiler compiled, run and compared for all grounding patterns")
T["P18"] = ("exhaustive enumeration of a lattice of arguments of every built-in function around all its branch boundaries and limits on the implementation against a high precision reference",
            "every function x lattice point x scalar, uniform and per-node evaluation x double and extended precision; derivatives, inverses and undefined arguments included; bounded by the lattice, not all doubles")
T["P16"] = ("exhaustive enumeration of meshes, numberings and node values on the implementation against the defining formulas",
            "every numbering of the small meshes x every node value assignment of the lattice, basis vectors on larger meshes, both creation orders and precisions; every derived model compared")
T["P12"] = ("exhaustive enumeration of the combinations of saved features and of every truncation point and one-place damage of the file, executed on the implementation in separate writing and loading processes",
            "every base geometry x every subset of features up to the bound: all queries and the assembled system compared before and after, also after later changes; every byte prefix and every line damage of the reference files loaded")
T["P13"] = ("exhaustive enumeration of corrupted calls on the implementation with a complete snapshot before and after and a continuation in forked processes",
            "every command's valid calls x every argument x every corruption of a 32 value alphabet in three histories (quick: shorter alphabets in two of them; thorough: all and every pair of arguments): error type, snapshot, reference counts and continuation compared")
T["P11"] = ("exhaustive enumeration of mesh descriptions on the implementation against an exact reference construction",
            "every 1d line list, 2d line and box arrangement, triangle and tetrahedron mesh up to the bound, with reversed, repeated and degenerate input: nodes, elements, contacts, interfaces and geometric models compared, refusals checked")
T["P15"] = ("exhaustive exploration of operation sequences on the dual precision store against a plain reference, and of solution, derived model and analysis sequences under every switch combination on the implementation",
            "every operation sequence up to the depth on the C++ store and through the commands, every derived model kind in every pair of precisions, every analysis sequence up to the depth with the solver's switch toggled at every position, exact rational reference for the extended values")
T["P17"] = ("exhaustive enumeration of model presence, display, selection, size, name and history combinations; every exported file parsed by independent readers and compared with the query commands",
            "every combination of regions, model kinds, display types, include_test selections, sizes and names up to the bound for every file type: files parsed and compared value by value")
T["P09"] = ("exhaustive exploration of operation sequences on the sparse matrix and the solver session, and exhaustive fault injection into the user-supplied solver and the factorization library, on the implementation",
            "every entry, clear, finalize and solve sequence up to the depth against a dense matrix; every world x analysis x precision x solver against the assembled system; every solver call x every wrong answer; every solve history x every failing library call")
T["P14"] = ("exhaustive exploration of thread schedules of the real evaluation code under a controlled scheduler with race detection, and exhaustive configurations against serial evaluation",
            "every length, thread count and task size; every function x argument pattern; every schedule up to the preemption bound and every failing thread creation; every model kind, assembly and solve under every thread setting, bit for bit against one thread")
