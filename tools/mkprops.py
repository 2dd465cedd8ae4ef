"""Writes /verif/properties.jsonl (kept as a script so that the texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)
S="src/magnopy/"
HAM=S+"spinham/hamiltonian.py"; PAR=S+"spinham/parameter.py"; EN=S+"spinham/energy.py"
TXT=S+"io/txt/internal.py"; VER=S+"io/txt/verify.py"; H5=S+"io/hdf5/internal.py"
TB=S+"io/txt/tb2j.py"; VA=S+"io/txt/vampire.py"; IO=S+"io/__init__.py"
MD=S+"magnons/dispersion.py"; DG=S+"magnons/diagonalization.py"; GEO=S+"geometry.py"

p("C01","Changing the notation never changes the energy",
  "Changing any part of an already defined notation (double counting, spin normalisation, exchange factor, on-site factor), one by one or all at once, rescales every stored exchange and on-site parameter by exactly the factor that keeps the energy of every spin configuration the same, for every combination of old and new value. Setting a part of the notation to the value it already has changes no parameter, and no notation change touches a parameter of the kind it does not concern.",
  ["inputs","histories"],"every Hamiltonian (any bonds, spins, on-site terms), every old and new notation, every sequence of changes",
  "The tests change notations on one single-atom model with equal spins; a wrong exponent of one of two different spins, a skipped branch or a term left unscaled is invisible there.",
  [HAM],[("double_counting setter",HAM),("spin_normalized setter",HAM),("exchange_factor setter",HAM),("on_site_factor setter",HAM),("notation setter",HAM)],["SpinHamiltonian parameters after setting a notation attribute"])
p("C02","Notation is refused until defined and recorded, not applied, the first time",
  "Reading a part of the notation that was never set raises the dedicated notation error, and setting it for the first time only records the interpretation: no parameter value changes. The predefined notations are found by name in any letter case with their documented meaning, a custom notation of three elements uses its one factor for both sums, and anything else is rejected with a value error without changing the Hamiltonian.",
  ["inputs","histories"],"every Hamiltonian, every order of adding terms and defining parts of the notation, every argument",
  "Tests define the notation in one order on a few models; each property getter and each predefined entry would have to be read in every state.",
  [HAM,S+"exceptions.py"],[("PREDEFINED_NOTATIONS",HAM),("notation property and its four parts",HAM),("NotationError",S+"exceptions.py")],["exceptions and SpinHamiltonian.notation"])
p("C03","With double counting every bond is paired with its transposed mirror",
  "While double counting is on, adding or overwriting the bond (1, 2, (i,j,k)) also leaves the bond (2, 1, (-i,-j,-k)) in the Hamiltonian with the transposed matrix, removing either of the two removes both, and turning double counting on adds every missing mirror and keeps those that are present. While double counting is off or undefined, adding or removing a bond affects that bond only.",
  ["inputs","histories"],"every sequence of additions, overwrites, removals and notation changes; every pair of atoms and every cell vector",
  "The tests add a handful of bonds once; the pairing must survive overwriting, both directions and asymmetric matrices.",
  [HAM],[("add_exchange / remove_exchange",HAM),("_ensure_double_counting",HAM)],["membership and matrices of the mirrored bond"])
p("C04","Without double counting exactly one bond of each mirrored pair is kept",
  "Turning double counting off leaves, for each pair of mutually mirrored bonds, exactly the one whose cell vector is lexicographically positive (or, inside the same cell, whose first atom has the not larger index); if only the other one was stored, it is replaced by its mirror with the transposed matrix. A bond that is its own mirror is kept.",
  ["inputs","histories"],"every set of bonds, in either or both directions, every cell vector",
  "Tests contain bonds given in both directions only; one-directional and self-mirrored bonds were never tried.",
  [HAM],[("_ensure_no_double_counting",HAM)],["bonds left after double counting is turned off"])
p("C05","Every way of addressing a term reaches the same term",
  "Adding, reading, testing, overwriting and deleting a term gives the same result whether atoms are given as objects or by their names and whether the method or the square-bracket syntax is used; a single atom always addresses its on-site term and a triple (atom 1, atom 2, cell vector) always addresses that exchange bond, in this order. Deleting a term that is not there raises a key error unless the caller asked for silence, and any other form of key raises a key error.",
  ["inputs","histories"],"every term, every form of the key, present or absent",
  "Tests use atom objects almost everywhere, so name-based routes of single methods are never executed.",
  [HAM],[("__contains__, __getitem__, __setitem__, __delitem__",HAM),("add_/remove_ exchange and on_site",HAM)])
p("C06","Removing an atom removes all of its terms and nothing else",
  "Removing an atom, given as an object or by name, in any notation, removes its on-site term and every exchange bond that starts or ends at it, then removes the atom itself; it does not fail and leaves every other term unchanged.",
  ["inputs","histories"],"every Hamiltonian and notation (double counting on, off, undefined), every atom",
  "The tests remove atoms only while the notation is undefined, where no mirrored bonds disappear during the removal.",
  [HAM],[("remove_atom",HAM)])
p("C07","Filtering keeps exactly the terms that satisfy all given conditions",
  "After filtering, an exchange bond remains if and only if its length is not above the maximum, not below the minimum and accepted by the custom filter (each only if given), and an on-site term counts as having zero length; bounds are inclusive. The filtering variant that returns a new Hamiltonian leaves the original untouched.",
  ["inputs"],"every Hamiltonian, every combination of the three conditions including bounds equal to a bond length",
  "Tests use a few distances that never coincide with a bond length and few combinations of conditions.",
  [HAM],[("filter / filtered",HAM)])
p("C08","The combined exchange-like view reproduces the whole Hamiltonian",
  "Iterating over the exchange-like terms yields every exchange bond exactly once with its own parameter and every on-site term exactly once as a bond of the atom with itself in the same cell, rescaled so that the common exchange factor times the view equals the original on-site contribution. Its length is the number of exchange bonds plus the number of on-site terms, and iterating never changes the stored parameters.",
  ["inputs","configurations"],"every Hamiltonian and every pair of exchange and on-site factors",
  "No test reads the view with different exchange and on-site factors.",
  [HAM],[("exchange_like iterator",HAM)])
p("C09","Magnetic atoms are exactly the atoms that carry terms, ordered by index",
  "The list of magnetic atoms contains an atom once if and only if it takes part in at least one exchange bond (on either side) or has an on-site term, sorted by the atom index, and the number of spins is the length of this list. It always reflects the current terms.",
  ["inputs","histories"],"every Hamiltonian after every sequence of additions and removals",
  "Tests look at few models where every atom has both kinds of terms.",
  [HAM],[("magnetic_atoms, I",HAM)])
p("C10","Derived objects are independent of the Hamiltonian they come from",
  "Copying or filtering into a new Hamiltonian, building the energy object and building the magnon dispersion object leave the original Hamiltonian exactly as it was (terms, values, notation), and later changes of the original never change the derived object or the other way round. Adding terms never makes two different terms share one parameter.",
  ["inputs","histories"],"every Hamiltonian, notation and later history of changes of either object",
  "Tests never build an energy or a dispersion object and then look back at the Hamiltonian, and never change a notation after sharing a parameter.",
  [HAM,EN,MD],[("copy/filtered",HAM),("Energy.__init__",EN),("MagnonDispersion.__init__",MD),("storage of parameters",HAM)])
p("C11","A parameter always equals the sum of its isotropic, symmetric and DMI parts",
  "For every 3x3 matrix, the isotropic part (a third of the trace), the traceless symmetric anisotropic part and the antisymmetric part are the unique decomposition: they add up to the matrix, the DMI vector (Dx, Dy, Dz) and its matrix [[0,Dz,-Dy],[-Dz,0,Dx],[Dy,-Dx,0]] describe the same part, and every named component and derived quantity reads the corresponding entry.",
  ["inputs"],"every real 3x3 matrix",
  "Tests evaluate a few matrices; a wrong entry that vanishes for them passes.",
  [PAR],[("MatrixParameter properties",PAR)])
p("C12","Setting one part of a parameter leaves the other parts untouched",
  "Assigning the isotropic value, the DMI vector, the symmetric anisotropy (symmetric and traceless) or one named component replaces exactly that part of the matrix and keeps all others, in the constructor as well as later, whatever the order of assignments. A new parameter without arguments is zero.",
  ["inputs","histories"],"every matrix, every new value, every order of assignments",
  "Tests assign parts to few matrices and do not compare all the other parts.",
  [PAR],[("MatrixParameter setters and constructor",PAR)])
p("C13","Parameter arithmetic is matrix arithmetic on fresh objects",
  "Sum, difference, product, division, floor division, remainder, negation, absolute value, matrix product (on either side), transposition and comparison of parameters equal the same operation on the matrices; the result is a new object and no operand is modified or shared with it. Unsupported operands raise a type error.",
  ["inputs"],"every pair of parameters and every number or matrix operand",
  "Tests check values for few operands and never that the operands stay intact and unshared.",
  [PAR],[("MatrixParameter operators",PAR)])
p("C14","Ill-shaped vectors and matrices are rejected and change nothing",
  "Assigning a value of wrong shape or not convertible to numbers to a parameter part, spiral vector, cone axis or magnetic field raises a value error and leaves the object as it was; an accepted value is stored as an own copy, the cone axis as a unit vector in the same direction.",
  ["inputs"],"every value of every shape and type",
  "Tests try a few wrong shapes on one class only.",
  [PAR,HAM,EN],[("setters with shape checks",PAR+", "+HAM+", "+EN)])
p("C15","The ferromagnetic energy equals the Hamiltonian evaluated at the given spins",
  "For every Hamiltonian and set of spin directions the ferromagnetic energy is the exchange factor times the sum over bonds of S_i S_j e_i J e_j, plus the on-site factor times the sum of S_i^2 e_i A e_i, plus, if a field is set, the Bohr magneton times the sum of g_i S_i h e_i, where e are the normalised directions; it does not depend on whether the Hamiltonian was stored with or without double counting, and the parts of the notation for which the Hamiltonian has no terms need not be defined.",
  ["inputs","configurations"],"every Hamiltonian, notation without spin normalisation, field and spin configuration",
  "The energy test file is empty: no test evaluates an energy.",
  [EN],[("Energy.__init__ and ferro",EN)],["Energy.ferro"])
p("C16","Cone-state energies equal the Hamiltonian averaged over the spiral",
  "For every cone axis n and spiral vector q the antiferromagnetic and spiral energies equal the classical energy per cell of the spin configuration in which spins of the cell at r are rotated about n by q*r (for the antiferromagnetic case with 2q a reciprocal lattice vector), with only the field component along n contributing; only the direction of n matters.",
  ["inputs"],"every Hamiltonian, axis, spiral vector, field and spin configuration",
  "No test evaluates an energy.",
  [EN],[("Energy.antiferro / spiral",EN)],["Energy.antiferro","Energy.spiral"])
p("C17","Energy evaluation and optimisation never modify what the caller passes in",
  "Evaluating an energy, taking a step and starting an optimisation leave every array given by the caller unchanged and reject a wrong number of spins or wrong vector shapes with a value error; for a single spin one flat vector is accepted as well. Making an energy object leaves the Hamiltonian as it was. Starting directions drawn at random have unit length.",
  ["inputs"],"every argument array",
  "No test calls these functions.",
  [EN],[("ferro/antiferro/spiral, starting and update helpers",EN)])
p("C18","Gradients restore their inputs and describe the torques they report",
  "Computing the gradient of any of the three energies leaves the spins, the cone axis and the spiral vector as they were, fills the whole gradient vector and every torque, and the torque of every spin and of the axis is its direction x the derivative of the energy with respect to it. For every search direction the scalar product with the gradient vector is minus the derivative of the energy along the step that the optimiser takes in that direction, so gradient, step and energy agree about which entry belongs to which degree of freedom.",
  ["inputs"],"every number of spins, every case",
  "No test calls the gradients.",
  [EN],[("_ferro_grad/_antiferro_grad/_spiral_grad",EN),("_update_x_*",EN)])
p("C19","Optimisation steps are rotations: spin lengths and the axis length are kept",
  "Every optimisation step turns each spin and the cone axis by a proper rotation about the axis given by its three generators, so their lengths are kept for every search direction and step length; a zero step changes nothing, and the three cases apply the same rotation.",
  ["inputs"],"every configuration, search direction and step length",
  "No test calls the update functions.",
  [EN],[("_update_x_ferro/_antiferro/_spiral",EN)])
p("C20","The optimiser uses the routines of its case and stops only when converged",
  "For each requested ground-state type, by name or number, the optimiser uses the energy, gradient, step, unpacking, torque measure, history writer, tolerance size and gradient size that belong to that type, and rejects any other type with a value error. Unless the iteration limit is reached it stops after the first iteration whose energy change and every torque evaluated in it are within the tolerance, it returns the last configuration it evaluated, and the recorded history holds the starting configuration and every iteration once, in order, however it ends. Both tolerances are 1e-5 unless given.",
  ["inputs","configurations"],"every case, tolerance and number of iterations",
  "No test runs an optimisation.",
  [EN],[("Energy.optimize",EN)])
p("C21","Text model files: every value is converted from the unit the file declares",
  "When a text model file is read, every lattice vector, absolute position and exchange or on-site value is multiplied exactly once by the factor from the declared (or default) unit to the internal one, for every unit the documentation lists, with cell scale factors applied to the cell and to absolute positions only. The spiral vector is stored in relative coordinates and the cone axis as an absolute unit vector, whichever form the file uses.",
  ["inputs"],"every file and every declared unit of every section",
  "The reader tests are not part of the stable suite and exercise default units only.",
  [TXT,S+"units/inside.py",S+"units/si.py"],[("_read_cell, _read_atoms, _read_exchange, _read_bond, _read_on_site, _read_cone_axis, _read_spiral_vector",TXT)])
p("C22","HDF5 model files: every value is converted from the unit the file declares",
  "When an HDF5 model file is read, cell, exchange and on-site values are multiplied exactly once by the factor from the declared unit to the internal one for every documented unit, and an unknown unit is rejected instead of being guessed. Positions are taken as relative, the spiral vector is stored in relative and the cone axis in absolute coordinates whichever form the file uses.",
  ["inputs"],"every file and every declared unit",
  "No test reads an HDF5 file with non-default units.",
  [H5],[("load_spinham_hdf5",H5)])
p("C23","HDF5 export followed by import returns the same Hamiltonian",
  "For every Hamiltonian whose data the format can hold, exporting to HDF5 and loading it back gives the same cell, atoms in the same order with the same name, position, spin, g-factor and charge, the same notation, bonds, matrices, cone axis and spiral vector, up to floating-point rounding. Every dataset the importer requires is written and everything that is written is read back into the same place.",
  ["inputs"],"every Hamiltonian, any number of atoms and terms",
  "No test performs the round trip.",
  [H5],[("dump_spinham_hdf5 / load_spinham_hdf5",H5)])
p("C24","Text export followed by import returns the same Hamiltonian",
  "For every Hamiltonian whose data the format can hold, exporting to text (with matrices) and loading it back gives the same cell, atoms in the same order with the same name, position and spin, the same notation, bonds and matrices (symmetric on-site matrices), cone axis and spiral vector, up to the printed precision, which is at least four decimals. Whatever the exporter writes passes the verification.",
  ["inputs","configurations"],"every Hamiltonian and every combination of the exporter's options",
  "No stable test performs the round trip.",
  [TXT,VER],[("dump_spinham_txt / load_spinham_txt",TXT)])
p("C25","Verification of a text model file never loses an error",
  "Every format violation that any part of the verification detects makes the verification of the whole file fail with the dedicated exception (unless the caller asked not to raise), no matter in which section it is, how many others there are and in which order they are found; an error once found is never forgotten.",
  ["inputs"],"every text file",
  "The verification tests are not in the stable suite and plant one error at a time.",
  [VER],[("_verify_* and _verify_model_file",VER)])
p("C26","A text file that passes verification is readable",
  "Every form that the verification accepts (section, unit keyword, header keyword, number of values, missing-data mark, optional line) is handled by the reader with a defined meaning, so loading a verified file never ends in an internal error, and a file with exchange or on-site terms but without the notation section is rejected by the verification.",
  ["inputs"],"every accepted combination of keywords and optional parts",
  "Acceptance and reading live in different modules and are only tested separately on samples.",
  [VER,TXT],[("unit and section tables of verifier and reader",VER+", "+TXT)])
p("C27","The generic loader reads each file with the reader of its format",
  "An explicitly given format (any letter case) selects the reader of that format regardless of the file name; without it names ending in .hdf5 are read as HDF5, names ending in exchange.out as TB2J output and everything else as text; any other format is rejected with a value error. All further arguments reach the reader.",
  ["inputs","configurations"],"every file name and format argument",
  "No stable test calls the generic loader.",
  [IO],[("load_spinham",IO)])
p("C28","Exporters never change the Hamiltonian",
  "Exporting a Hamiltonian to any format leaves its cell, atoms, terms, parameter values and notation as they were, both when the export succeeds and when it fails with an exception, and overwriting an existing HDF5 group happens only on request.",
  ["inputs","fault_sequences"],"every Hamiltonian, exporter, option and failure point during the export",
  "No test exports a Hamiltonian and compares it afterwards, let alone after a failure.",
  [VA,TXT,H5],[("dump_ucf notation switch and restore",VA),("dump_spinham_txt",TXT),("dump_spinham_hdf5",H5)])
p("C29","The Vampire unit-cell file states the Hamiltonian in Vampire's convention",
  "The exported file lists every magnetic atom once in the order of its index and every exchange-like term once as: running number, indices of the two atoms in that list, cell vector, and the nine matrix components row by row in Joule for the Vampire notation; options that drop DMI or anisotropy remove exactly that part. Matrix components are in scientific notation with at least the requested decimals. The announced numbers of atoms, materials and interactions equal the numbers of lines written. The material file has one block per material, with the name and unit spin direction of the first atom of that material, and announces as many materials as it has blocks when the materials are numbered without gaps.",
  ["inputs","configurations"],"every Hamiltonian, notation and option",
  "No test reads the exported file.",
  [VA],[("dump_ucf",VA)])
p("C30","TB2J output is read field by field into the right place",
  "Reading a TB2J file takes the cell, each atom's name, absolute position, charge and magnetic moment, and for each bond the two atoms, the cell vector, isotropic, symmetric anisotropic and DMI values from their own fields, never carries a value over from one bond to the next, and interprets everything in the TB2J notation. A bond length that differs by more than 0.001 from the one computed from the positions is reported unless the caller asks for silence.",
  ["inputs"],"every well-formed TB2J file, with or without optional fields",
  "TB2J reader tests are not in the stable suite.",
  [TB],[("load_tb2j",TB)])
p("C31","The magnon matrix is assembled from the right blocks for every wave vector",
  "For every wave vector the 2N x 2N matrix has the blocks [[2A(k)-2C, 2B(k)],[2B(k)^+, 2A(-k)^*-2C]] with A and B built from sqrt(S_i S_j)/2 times u_i J_ij(-k) u_j^* and u_i J_ij(-k) u_j, C diagonal from S_j v_i J_ij(0) v_j, where J(k) sums exp(-i k d) times each exchange-like matrix exactly once; asking for one wave vector never changes the result for another.",
  ["inputs","histories"],"every Hamiltonian, wave vector and order of calls",
  "No test computes a dispersion.",
  [MD],[("J, A, B, C, h",MD)])
p("C32","Diagonalisation failures are contained and always yield a full result",
  "If the magnon matrix is not positive definite, the diagonalisation reports it with the dedicated exception and nothing else, the dispersion then tries the shifted, negated and negated shifted matrix in turn with consistent sign of the result, and if all fail returns zeros or undefined values of the same shape as a successful result. Every combination of the output options returns without an internal error.",
  ["inputs","configurations"],"every matrix and every combination of options",
  "No test calls the dispersion.",
  [MD,DG],[("omega fallback chain",MD),("solve_via_colpa",DG)])
p("C33","Every command-line option reaches the routine it controls",
  "For each command-line script, every option it accepts is a parameter of the routine behind it and every parameter can be set by an option, defaults agree, and the routine passes it on to the place it documents; accepted choices are exactly those the routine handles and an unknown one is refused. Every documented option name is accepted and has its documented effect, and the results of an earlier run into the same place are replaced.",
  ["configurations"],"every combination of options of every script",
  "No test runs a script.",
  [S+"score/minimize_energy.py",S+"score/magnon_dispersion.py",S+"score/convert_tb2j.py"],[("create_parser / manager",S+"score")])
p("C34","No reachable path fails on an undefined name, attribute or argument",
  "No function of the package, on any path including error and rarely used branches, refers to a name, module attribute, own attribute or local variable that is not defined at that point or calls a function of the package with arguments it does not accept.",
  ["inputs","configurations"],"every function and every path",
  "Most error paths and whole modules are not executed by any test.",
  [S],[("all modules",S)])
p("C35","Internal units and physical constants are consistent everywhere",
  "Every module that converts units uses the same internal units of length and energy, the constants have their CODATA values in SI, derived ones (Rydberg energy) follow from them, and the names written into files denote exactly the units the values are in and are recognised by the readers.",
  ["configurations"],"every constant and every place that uses it",
  "No test checks a constant or its use.",
  [S+"units/si.py",S+"units/inside.py",TXT,H5,VA,EN],[("si and inside constants",S+"units")])
p("C36","Files opened by the package are closed on every exit",
  "Every file that a reader, writer or script opens is closed when the operation ends, whether it ends normally or with an exception, so a file can be written, read or replaced right after.",
  ["inputs","fault_sequences"],"every operation and every exit path",
  "Tests rely on garbage collection and never look at the exceptional exits.",
  [H5,TB,TXT,VA,S+"score/minimize_energy.py"],[("open / h5py.File call sites",S)])
p("C37","Spherical angles of a vector describe that same vector",
  "Converting a vector to modulus, polar and azimuthal angle and back, in degrees or radians, returns the same vector for every non-zero vector, including those in every quadrant and along the z axis.",
  ["inputs"],"every non-zero vector",
  "No test calls the conversion.",
  [GEO],[("vector_to_angles",GEO)])
p("C38","The minimiser converges to a local minimum of the energy",
  "For every Hamiltonian the minimiser ends in a configuration whose energy is not higher than that of the starting configuration and is a local minimum within the tolerance.",
  ["inputs"],"every Hamiltonian and starting configuration",
  "Needs numerical convergence over all inputs.",
  [EN],[("optimize, _lambda, _compute_search_direction",EN)])
p("C39","The diagonalisation returns bosonic modes of the magnon matrix",
  "For every positive definite matrix D of even size 2N, including those with degenerate energies, the energies E are real and positive, the first N in descending and the last N in ascending order, and the transformation G returned with them satisfies G^+ diag(E) G = D and G g G^+ = g with the bosonic metric g = diag(1,..,1,-1,..,-1), up to rounding; the caller's matrix is left as it was.",
  ["inputs"],"every positive definite matrix, every multiplicity of its energies",
  "No stable test calls the diagonalisation; degenerate matrices are special inputs.",
  [DG],[("solve_via_colpa",DG)])
p("C40","Printed precision is sufficient for every stored value",
  "Values written to text formats keep enough digits that reading them back reproduces physical results within the documented precision, for every magnitude.",
  ["inputs"],"every magnitude of every stored value",
  "Depends on the magnitudes of runtime values.",
  [TXT,VA],[("format specifications",TXT)])
p("C41","Standardization of the cell keeps the Hamiltonian",
  "Standardizing the cell of a Hamiltonian changes only how the content is expressed: absolute positions of the atoms, the absolute vector and the matrix of every bond, on-site terms, spins, notation, cone axis and the absolute spiral vector stay the same, cell vectors of the bonds stay whole numbers, and with single counting the kept one of two mirrored bonds is the one chosen for the new cell. A standardized lattice in which some bond does not connect two unit cells is refused with a value error that changes nothing.",
  ["inputs"],"every Hamiltonian and every transformation to the standardized cell",
  "No stable test standardizes a Hamiltonian.",
  [HAM,S+"score/magnon_dispersion.py"],[("SpinHamiltonian.standardize",HAM)])
p("C42","The optimiser moves along the L-BFGS direction of the last m steps",
  "The search direction of every iteration is the limited-memory BFGS inverse, built from the last m pairs of steps and gradient changes since the last restart and scaled by s.y/y.y of the newest pair, applied to the descent gradient; a step with negative curvature restarts the memory and gives steepest descent; so the direction is always a descent direction, for every size of the memory and in every case. A size of the memory that is not a number is refused.",
  ["inputs","histories"],"every sequence of gradients, step lengths and curvature signs, every memory size",
  "No test runs the optimiser; the direction depends on the whole history of the run.",
  [EN],[("_compute_search_direction, optimize",EN)])
p("C43","The line search accepts only steps that satisfy both Wolfe conditions",
  "A step length returned by the line search satisfies both documented Wolfe conditions with the constants wolfe_c1 and wolfe_c2 the user has set: the energy is below the starting energy by at least c1 times the step times the initial slope, and the slope is at most c2 of the initial one in size. If no tried step satisfies them the search fails with an error instead of returning one. The constants default to the documented values and anything but a number is refused.",
  ["inputs"],"every energy landscape along every descent direction, every pair of constants",
  "No test runs the line search; the conditions must hold at every accepted step.",
  [EN],[("_lambda, wolfe_c1, wolfe_c2",EN)])
p("C44","Readers leave the files they read untouched",
  "Reading a model file with any reader (text, HDF5, TB2J, or the generic loader) opens it for reading only and creates, changes or removes no file, whether or not the file can be read; a file that does not exist is an OSError and is not created. The only exception is the filtered copy asked for with save_filtered: it is written next to the original under its name with the prefix filtered_, holds no comments and reads as the same model.",
  ["inputs"],"every file name, content and reader, including files that cannot be read",
  "Tests look at what a reader returns, never at the files afterwards.",
  [S+"io/__init__.py",TXT,S+"io/txt/tb2j.py",H5],[("load_spinham",S+"io/__init__.py"),("_filter_txt_file",TXT)])
p("C45","Evaluations do not depend on what was done before",
  "For one energy object, every energy and every optimisation from a given start gives the values a newly made object with the same settings gives, whatever was evaluated, optimised (with another kind of state, memory size or number of iterations), refused with an error, or set and set back before, and whatever was done with other energy objects; new spins, g-factors or magnetic field set after evaluations take effect exactly as if they had been set first; results handed out earlier are not changed by later calls.",
  ["inputs","histories"],"every sequence of evaluations, optimisations, refused calls and changes of settings",
  "Tests evaluate each object once; left-over state shows only in a second call.",
  [EN],[("Energy: energies, gradients, optimize, settings",EN)])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
