import json,subprocess
log=subprocess.run(["git","-C","/repo","log","--format=%h %s"],stdout=subprocess.PIPE,text=True).stdout.splitlines()
P={ # subject -> property, what failed
"models depending on a replaced":("P01","models that depend on a replaced or deleted and recreated model kept their old values"),
"interface node model reports":("P16","interface_model values were read with length zero when uniform"),
"if() does not overwrite":("P03","if(c, a) overwrote the cached value of the model used as its condition"),
"circuit node aliases":("P08","a circuit node alias used in an element or a solution lookup became a separate node"),
"delete_circuit succeeds":("P13","delete_circuit raised an error although it succeeded; circuit commands went on after a bad argument"),
"circuit_element checks":("P13","a failing circuit_element left circuit nodes behind"),
"add_circuit_node honours":("P19","add_circuit_node ignored variable_update and value"),
"integer arguments":("P13","integer arguments that are not integers were read as zero"),
"replacing an equation moves":("P10","replacing an equation with another variable kept the mapping of the old variable"),
"a contact node is given up":("P05","nodes shared by two contacts lost the equation when only one contact has it"),
"edge_volume_model is assembled":("P05","a contact edge_volume_model was ignored without an edge_model"),
"get_equation_numbers reports":("P13","get_equation_numbers with a variable without an equation crashed"),
"custom_equation rows":("P05","custom_equation rows out of range were written out of bounds"),
"the circuit derivative":("P04","the derivative of a contact current to the circuit node was assembled once per node"),
"writing one value drops":("P15","setting one value kept the stale copy of the other precision"),
"ground nodes without":("P10","a ground node without a circuit broke the numbering"),
"an error during a solve":("P06","an exception during a solve left the solutions of the unfinished iteration"),
"an error while the contact":("P06","an exception while contact currents are updated left changed solutions and currents"),
"an infinite update":("P19","an infinite update of a positive circuit node never ended"),
"the node of the largest":("P19","the node reported for the relative error was that of the absolute error"),
"an update that is not a number is":("P20","an update that is not a number was reported as converged"),
"a circuit value that is not":("P20","a circuit value that is not a number was reported as converged"),
"powers and logarithms of even":("P03","(x^2)^0.5 was simplified to x and log(x^2) to 2*log(x), wrong for negative x"),
"integer constants of a million":("P03","integer constants of a million and more lost digits when an expression was written"),
"generated models declare every":("P03","modelcomp wrote models that do not compile when a node without a charge equation appears in a charge"),
"generated models keep":("P03","modelcomp wrote parameter defaults with six digits"),
"integers too large":("P03","modelcomp read integers that do not fit an int as other numbers"),
"redefining a user function":("P03","modelcomp: derivatives of a redefined or declared user function captured argument names"),
"divergence is counted":("P20","divergence was counted per device against the errors of other devices"),
"coefficients of the Joyce-Dixon":("P18","Fermi and InvFermi used wrong coefficients in their small argument branches"),
"Fermi converges for large":("P18","Fermi did not converge for large arguments and failed for very negative ones"),
"the derivative of the Bernoulli":("P18","dBdx lost all digits near zero"),
"extended precision exponents":("P18","extended precision exponents next to an integer were taken as integers"),
"inverse error functions raise":("P18","erf_inv and erfc_inv outside their domain did not raise the floating point exception"),
"Fermi does not hang":("P18","Fermi never returned for arguments whose square overflows"),
"inverse Gauss-Fermi integral":("P18","igfi did not converge for small arguments"),
"the not equal operator":("P18","!= was accepted in expressions but could not be evaluated"),
"derivatives of the inverse error":("P18","derf_invdx and derfc_invdx outside their domain did not raise"),
"derivative of the geometric average":("P16","the derivative models of a geometric average had the wrong sign for negative values"),
"vector_gradient averages correctly":("P16","vector_gradient averaged wrongly where more than two edges meet in one dimension"),
"vector_gradient uses the z":("P16","vector_gradient used y for z in three dimensions"),
"saved derivative models of element_from":("P12","a saved element_from_edge_model derivative in three dimensions was written as another command"),
"device files hold enough":("P12","device files were written with too few digits"),
"saved cylindrical models":("P12","saved cylindrical models named commands that do not exist"),
"saved element models keep":("P12","saved two dimensional element models lost their display type"),
"create_contact_from_interface works":("P12","create_contact_from_interface crashed in two dimensions"),
"contacts and interfaces keep the nodes":("P12","nodes of contacts and interfaces on no element were lost when saved"),
"interfaces loaded from":("P12","interfaces loaded from a file paired the wrong nodes"),
"a device file that cannot be loaded":("P12","a damaged device file left a half loaded device, ended the process or was accepted when cut short"),
"a device file with a degenerate":("P12","a device file with a degenerate element crashed"),
"write_devices reports":("P12","write_devices reported success for files that could not be written and emptied the file for a wrong device"),
"a gmsh file that cannot":("P12","an unreadable gmsh file left a mesh and a scanner state behind, one cut short was accepted"),
"arguments that cannot be converted":("P13","arguments that are not text or not sequences crashed the commands"),
"commands refuse mesh positions":("P13","a value that is not a number raised an error after it had already taken effect"),
"a gmsh mesh description that is refused":("P13","a refused gmsh mesh description left a broken mesh behind"),
"an option with an empty name":("P13","an option with an empty name was silently ignored"),
"another box for a named item":("P11","a second box for a contact, region or interface name of a 2d mesh replaced the first"),
"the surface area of a 1d region":("P11","surface areas of 1d regions counted contacts and interfaces of other regions"),
"a 1d mesh that was refused":("P11","a refused 1d mesh could never be finalized again; repeated names were accepted"),
"mesh line positions and spacings":("P11","mesh spacings that cannot be meshed hung or ended the process; slivers next to the last interval"),
"a device that cannot be created from its mesh":("P11","a failed create_device left a half made device"),
"elements of a mesh refer":("P11","mesh elements with a coordinate index out of range crashed"),
"an interface from nodes needs":("P11","create_interface_from_nodes replaced an interface of the same name"),
"both sides of an interface within":("P11","surface area of an interface within one region was zero on one side"),
"cylindrical node volume of triangles":("P11","cylindrical node volumes were wrong for triangles with an obtuse angle"),
"CylindricalEdgeNodeVolume@n0 keeps":("P11","CylindricalEdgeNodeVolume@n0 was overwritten"),
"vtk files keep the last block":("P17","vtk data of an exact number of blocks lost its last block"),
"include_test applies to vector":("P17","include_test was ignored for vector and tetrahedron models in vtk files"),
"tecplot files of a device whose regions":("P17","tecplot files of regions that display a model differently had the wrong layout"),
"an include_test that fails":("P17","an include_test that fails was ignored"),
"names are escaped in vtk":("P17","names with special characters made vtk files unreadable"),
"vtk files list the files":("P17","vtk files in another directory listed files that do not exist"),
"a uniform extended value":("P15","an extended value close to zero or one was rounded to it"),
"the extended solver may be switched":("P15","switching the extended solver between time steps crashed or used stale data"),
"floating point exceptions of the gauss fermi":("P14","gfi and its relatives reported a floating point exception the first time only, in each thread"),
"floating point exceptions raised by hand":("P14","the flags of raised floating point exceptions were shared by the worker threads without order"),
"clearing a matrix keeps":("P09","after clearing a matrix with fewer entries than rows a new entry in a later row was stored out of bounds"),
"the transposed product reads":("P09","the transposed product read the wrong pointers and indexes of the matrix"),
"the extended precision values given":("P09","the solver session kept a pointer to the values of an extended precision matrix that had been released"),
"a failure of the direct solver when":("P09","a failure of the direct solver in its solve phase was ignored and the answer used"),
"the block preconditioner keeps":("P09","the block preconditioner read out of bounds for rows that belong to circuit nodes"),
"an answer of the python solver that":("P09","an answer of the python solver to a solve that is not a dictionary was taken as the solution zero"),
"the edge models the current models need":("P22","the helpers of the physics package did not create the edge models they need and raised a TypeError for a missing solution"),
"gmsh files with groups of points":("P11","gmsh files with groups of points could not be read by the python reader"),
"a floating point exception of a derived":("P16","a derived model with a floating point exception was reported once and then read as valid with values that are not finite"),
"floating point exceptions raised before a nested":("P16","floating point exceptions in element models were lost when another model was read during the evaluation"),
"the list of math libraries":("P02","the list of math libraries in the info parameter grew with each reset_devsim"),
"noise solutions follow":("P23","the noise transfer from the second region's side of a hybrid interface missed the row the equation is kept in"),
"the iterative solver does not break down":("P09","the iterative solver gave a zero or not-a-number correction when its preconditioner was exact, and a solve with values zero was reported as converged"),
}
out=[]
for l in reversed(log):
    h,s=l.split(" ",1)
    if not s.startswith("fix: "): continue
    m=[k for k in P if s[5:].startswith(k)]
    if not m: print("no entry",l); continue
    p,w=P[m[0]]
    out.append({"property":p,"key":"fixed:"+h,"status":"fixed","what":w,"text":"fixed: property=%s %s %s"%(p,h,w)})
known=[e for e in json.load(open("/verif/known_findings.json"))["findings"] if e["status"]=="known"]
json.dump({"findings":known+out},open("/verif/known_findings.json","w"),indent=1)
print(len(out))
