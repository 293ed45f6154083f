import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if obs: a["observe_at"]=[obs] if isinstance(obs,str) else obs
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("C01","Wave function files read back exactly what was written",
"A wave function of any kind (Cartesian grid of any dimension, level, multistate of these) written to disk in either file format, uncompressed, reads back with bit-identical amplitudes and identical metadata (class, grid sizes, grid bounds, number of states), both when the object is created from the file and when it is read into an existing object; the storage format is recognised on reading. With lossy compression (zlib or bzip2) every amplitude read back differs from the written one by no more than what the tolerance allows, amplitudes of either sign and phase being treated alike, whatever the compressibility of the data. A numbered sequence of files reads back in order, element by element, and the read past its end reports an error instead of inventing data.",
["inputs","configurations","histories"],"every wave function kind/shape/content, format, compression method and tolerance, and sequence of writes and reads",
"Tests read and write fixed reference files with one format; round trips over shapes, formats, compression and sequences are unbounded.",
["src/tools/FileSingle.h","src/qdlib/FileWF.cpp","src/qdlib/WFGridSystem.cpp","src/qdlib/WFLevel.cpp","src/qdlib/WFMultistate.cpp","src/qdlib/GridSystem.cpp","src/tools/ZCopyStream.cpp"],
[("FileSingle read/write raw and stream paths","src/tools/FileSingle.h"),("FileWF Load/Read/WriteWaveFunction","src/qdlib/FileWF.cpp"),("Reduce/Restore lossy packing","src/qdlib/WFGridSystem.cpp, src/qdlib/WFLevel.cpp")])

p("C02","Operator and laser data files read back exactly",
"Potentials, matrices and laser fields written to disk in either format (and compressed losslessly where offered) read back bit-identical with the same shape metadata (grid, matrix size, time step, number of points). Metadata numbers keep their full double precision in the file.",
["inputs","configurations"],"every grid, matrix and laser content and shape, and every storage format",
"Tests only read a few fixed operator files; nothing writes one and reads it back.",
["src/tools/FileSingle.h","src/qdlib/OGridsystem.cpp","src/qdlib/OHermitianMatrix.cpp","src/qdlib/Laser.cpp"],
[("Serialize/DeSerialize of grid operators, matrices and lasers","src/qdlib/OGridsystem.cpp, OHermitianMatrix.cpp, Laser.cpp"),("raw and stream file paths","src/tools/FileSingle.h")])

p("C03","Damaged data files are rejected, never accepted or fatal",
"Reading a truncated or corrupted wave function, operator or laser file either reports an error or yields a complete object whose values are those present in the file (the formats carry no checksum, so a changed amplitude cannot be noticed): it never crashes, never reads or writes outside its memory, never hangs or allocates without bound. A file that ends before all announced amplitudes are present is always reported as an error.",
["inputs","fault_sequences"],"every byte-level truncation or mutation of a data file or its metadata, in both formats, with and without compression",
"No test reads a damaged file; the space of damaged files is unbounded.",
["src/tools/FileSingle.h","src/qdlib/FileWF.cpp","src/qdlib/WFGridSystem.cpp","src/qdlib/WFLevel.cpp","src/qdlib/OGridsystem.cpp","src/qdlib/OHermitianMatrix.cpp","src/qdlib/Laser.cpp"],
[("CheckIntroFromStream, ReadMetaFromStream, ReadDataFromStream, ReadDataFromRaw","src/tools/FileSingle.h"),("DeSerialize","src/qdlib/*.cpp")])

p("C04","The wave function buffer behaves like an array at any memory limit",
"Whatever sequence of stores, appends, reads, resizes and locks is made, the wave function buffer returns at each position the wave function last stored there, bit for bit, whether or not it had to be spilled to disk because of the configured memory limit, for every kind of wave function. Wave functions handed out and still protected by the automatic lock stay valid and unchanged; temporary files are removed when the buffer is cleared; when the limit cannot be respected the operation reports an error and does not lose data. Saving the buffer to a file series and loading it back preserves all entries and their order.",
["histories","configurations"],"every sequence of buffer operations, every memory limit, every wave function kind",
"Unit tests exercise one short scripted sequence with one limit.",
["src/qdlib/WFBuffer.cpp","src/qdlib/WFBuffer.h"],
[("Get/Set/_MoveToDisk/_MoveToMem eviction","src/qdlib/WFBuffer.cpp")],[("_buf, _LastAccess","which entries are in memory, on disk or locked")])

p("C05","Parameter containers keep every key and value",
"A parameter container behaves as a map from names to values: whatever was stored last under a name (text, integer, floating point, boolean, vector) is returned unchanged when asked for in that type, floating point values with full double precision; merging lets the right-hand side win and leaves other keys alone. Writing a container as text (with or without types) and parsing it back gives an equal container; malformed lines are reported or ignored, they never hang, crash or alter other keys.",
["inputs","histories"],"every sequence of sets, merges, writes and parses; every key, value and text input",
"Unit tests check a few literal keys and values.",
["src/tools/ParamContainer.cpp","src/tools/ParamContainer.h","src/tools/helpers.cpp"],
[("SetValue/GetValue/Parse/Write","src/tools/ParamContainer.cpp")])

p("C06","Memory accounting is exact and the limit is enforced",
"The memory manager's used, available and peak figures equal what a reference accounting of the same sequence of requests and releases gives, and everything is back to zero when all is released. A request that would exceed the configured maximum is refused with an error and leaves the accounting and existing blocks intact; memory handed out is aligned, writable over its full size and disjoint from all other live blocks. Sizes given as text with units are parsed to the number of bytes they denote.",
["histories","configurations"],"every sequence of allocations, re-allocations and releases, and every configured limit",
"The unit test performs a handful of allocations with one limit.",
["src/tools/Memory.cpp","src/tools/Memory.h","src/math/Vector.h"],
[("Align/Free/Reconfigure/ReadFromString/Format","src/tools/Memory.cpp"),("vector storage retire/reacquire","src/math/Vector.h")])

p("C07","The compression tool preserves wave functions and info reports metadata",
"Compressing a wave function file or a numbered series with qdz and decompressing it again yields files holding the original amplitudes within the requested tolerance and identical grid metadata, for each method and level; every member of a series is converted and none is dropped, renumbered or overwritten by another. qdinfo prints the class and grid metadata stored in a stream file. Invalid options or files end with a failure status.",
["inputs","configurations"],"every wave function, series length, method, level and tolerance",
"No test runs either tool.",
["src/qdz.cpp","src/qdng_info.cpp","src/qdlib/FileWF.cpp"],
[("Compress/DeCompress","src/qdz.cpp"),("main","src/qdng_info.cpp")])

p("C08","Wave function arithmetic is exact vector-space arithmetic",
"For every kind, shape and size of wave function: addition, subtraction, scaling by real and complex numbers, scalar product, norm, normalisation, element-wise products with and without conjugation, real and imaginary parts, assignment and copies give what the element-wise definition gives (the scalar product is conjugate-linear in the bra and sums over all states of a multistate function), to rounding, and leave their operands unchanged. Incompatible operands are refused.",
["inputs","histories"],"every wave function kind, shape, content and sequence of operations",
"Unit tests use a few fixed vectors of one size.",
["src/qdlib/WaveFunction.h","src/qdlib/WFGridCartesian.cpp","src/qdlib/WFLevel.cpp","src/qdlib/WFMultistate.cpp","src/math/VectorPrimitives.h","src/math/Vector.h","src/math/dcomplex.h"],
[("element-wise primitives","src/math/VectorPrimitives.h, src/math/codelets"),("scalar products","src/qdlib/WF*.cpp")])

p("C09","Linear algebra helpers agree with their mathematical definition",
"Vectors, matrices, views of a multi-dimensional array along one dimension, matrix-vector and matrix-matrix products, transposes and adjoints, and the eigenvalue solvers (real symmetric, Hermitian, tridiagonal, general) return what their definition says for every size and content: eigenpairs satisfy the eigenvalue equation, are ordered and orthonormal where promised, a view addresses exactly the elements of its line, also after switching between dimensions. Complex functions and special functions used by the propagators (powers, exponentials, Bessel functions) agree with reference values over their whole domain.",
["inputs"],"every matrix, vector, grid shape and argument",
"Unit tests use fixed small matrices.",
["src/math/Matrix.h","src/math/VectorView.h","src/math/Vector.h","src/linalg/LapackDiag.cpp","src/linalg/Bessel.cpp","src/math/dcomplex.cpp","src/math/math_functions.cpp"],
[("diagonalisation wrappers","src/linalg/LapackDiag.cpp"),("views","src/math/VectorView.h"),("Bessel","src/linalg/Bessel.cpp")])

p("C10","Basis transforms are inverse to each other and match the DFT",
"For every grid shape (any number of dimensions, even and odd sizes) and multistate composition the forward Fourier transform of a wave function equals the unnormalised discrete Fourier transform over all dimensions, and backward after forward returns the original times the number of points; switching a wave function between its real-space and momentum-space representation never loses or mixes data. Momentum grids associate each DFT bin with its wave number, and matrix-based transforms are unitary and undone by their inverse.",
["inputs","configurations"],"every grid shape and content",
"Unit tests transform a few fixed sizes.",
["src/fft/fft.cpp","src/qdlib/TransformFFT.cpp","src/qdlib/TransformMat.cpp","src/qdlib/TransformMSD.cpp","src/qdlib/Kspace.cpp","src/qdlib/WaveFunction.h"],
[("TransformFFT","src/qdlib/TransformFFT.cpp"),("Kspace tables","src/qdlib/Kspace.cpp"),("IsKspace buffer switching","src/qdlib/WaveFunction.h")])

p("C11","All ways of applying one operator agree",
"For every operator that can be configured, on every compatible wave function: in-place application, application into a separate wave function, add-application, matrix element and expectation value all describe one and the same linear map; the source is left unchanged and the result does not depend on what the destination held before, on earlier applications, or on re-initialisation. Incompatible wave functions are refused.",
["configurations","inputs","histories"],"every operator configuration, wave function and order of calls",
"Tests apply a few operators once with one calling form.",
["src/qdlib/Operator.h","src/qdlib/OSum.cpp","src/qdlib/OProduct.cpp","src/qdlib/OMultistate.cpp","src/qdlib/OGridNablaSq.cpp","src/qdlib/OGridPotential.cpp","src/qdlib/OGridGMat.cpp","src/qdlib/OGridNAC.cpp","src/qdlib/OGridHOFD.cpp","src/qdlib/OGridPML.cpp","src/qdlib/OHermitianMatrix.cpp","src/qdlib/OFlux.cpp","src/qdlib/OProjection.cpp"],
[("default Apply/ApplyAdd/MatrixElement/Expec","src/qdlib/Operator.h"),("overrides","src/qdlib/O*.cpp")])

p("C12","Operators declared Hermitian are Hermitian within declared bounds",
"Kinetic, potential, matrix, G-matrix, coupling and multistate operators built from real potentials and Hermitian data satisfy <a|O b> = conj(<b|O a>) for all wave functions, expectation values are real, and an operator that is not Hermitian reports so. The eigenvalue range an operator announces (used to scale the Chebyshev expansion) encloses its whole spectrum for kinetic, potential, matrix and summed operators.",
["configurations","inputs"],"every operator configuration and pair of wave functions",
"Tests fix one Hamiltonian each and look at a propagation result only.",
["src/qdlib/OGridNablaSq.cpp","src/qdlib/OGridPotential.cpp","src/qdlib/OGridGMat.cpp","src/qdlib/OGridNAC.cpp","src/qdlib/OMultistate.cpp","src/qdlib/OSum.cpp","src/qdlib/OHermitianMatrix.cpp","src/qdlib/OGridDipole.cpp"],
[("Emax/Emin/Hermitian","src/qdlib/O*.cpp")])

p("C13","Differential operators are the exact derivatives on the grid",
"The kinetic energy, momentum, gradient, G-matrix and non-adiabatic coupling operators evaluate derivatives spectrally: on every periodic grid of any dimension, size, spacing and mass (including per-dimension masses and switched-off dimensions) they agree with the exact trigonometric derivative to rounding, coupled dimensions and coordinate dependent coefficients included. The finite-difference variants differentiate polynomials of their order exactly away from the boundary, wrap around on periodic grids, and act along every requested dimension and only along those. The perfectly matched layer kinetic operator equals the ordinary one outside the absorbing layer.",
["inputs","configurations"],"every grid, mass, order, dimension selection and wave function",
"Tests propagate a few fixed one and two dimensional systems.",
["src/qdlib/OGridNablaSq.cpp","src/qdlib/OGridNabla.cpp","src/qdlib/OGridGMat.cpp","src/qdlib/OGridNAC.cpp","src/qdlib/OGridHOFD.cpp","src/qdlib/OGridPML.cpp","src/qdlib/PML.cpp","src/qdlib/Diff.cpp","src/qdlib/Kspace.cpp","src/qdlib/HOFD.cpp","src/qdlib/HOFD.h"],
[("Kspace tables","src/qdlib/Kspace.cpp"),("derivative engines","src/qdlib/Diff.cpp, src/qdlib/HOFD.h")])

p("C14","Local operators multiply by the documented function",
"Potential, position, dipole, Raman, momentum kick, flux, absorber, scalar, normalisation and projection operators act on every wave function as documented: the potential after setting its minimum to zero, then offset, then scaling; the position, its scaling and offset along the requested dimension; the absorber with its documented window and order on the requested sides; the projector onto (or away from) the given states; identically for every grid shape and for every state of a multistate function they are used in.",
["inputs","configurations"],"every grid, parameter combination and wave function",
"Tests use one parameter set for a few of these operators.",
["src/qdlib/OGridPotential.cpp","src/qdlib/OGridPosition.cpp","src/qdlib/OGridDipole.cpp","src/qdlib/OGridRaman.cpp","src/qdlib/OGridKick.cpp","src/qdlib/OFlux.cpp","src/qdlib/OGobbler.cpp","src/qdlib/OScalar.cpp","src/qdlib/OProjection.cpp","src/qdlib/ONormalize.cpp","src/qdlib/OJump.cpp","src/qdlib/OHermitianMatrix.cpp"],
[("Init(params)/Init(Psi)/Apply","src/qdlib/O*.cpp")])

p("C15","Composed operators equal the algebra of their parts",
"A sum acts as the sum of its members, a product as their composition with the last listed applied first, a matrix of operators (full, diagonal, with or without Hermitian fill-in and unit diagonal) as the block matrix of its elements on a multistate wave function, and a grid sum as the pointwise sum, for any number, kind, order and nesting of members. Referring to a member by key, or sharing one operator in several places, gives the same operator as writing it out.",
["configurations","inputs","programs"],"every operator tree and wave function",
"Tests use a handful of fixed Hamiltonians.",
["src/qdlib/OSum.cpp","src/qdlib/OProduct.cpp","src/qdlib/OList.cpp","src/qdlib/OMultistate.cpp","src/qdlib/ODMultistate.cpp","src/qdlib/OGridSum.cpp","src/ChainLoader.cpp","src/GlobalOpList.cpp"],
[("LoadOperatorChain","src/ChainLoader.cpp"),("Apply/ApplyAdd","src/qdlib/OSum.cpp, OProduct.cpp, OMultistate.cpp")])

p("C16","Time dependent operators follow the clock and the laser field",
"At every clock step, in any order of visiting steps, a field-coupled operator acts with the field value(s) of exactly that step times its documented coupling factor (-mu E, the Raman product of two fields, the matrix dipole), alone or as part of sums, products and multistate operators. Generated pulses equal their documented formula at every step; field files must match the clock and are refused otherwise; pulse energy, spectrum and the inverse transform are consistent with the samples.",
["inputs","histories","configurations"],"every field, clock setting, visiting order and operator context",
"Tests use two fixed pulses inside a full propagation.",
["src/qdlib/Laser.cpp","src/qdlib/OLaser.cpp","src/qdlib/OGridDipole.cpp","src/qdlib/OGridRaman.cpp","src/qdlib/OMatDipole.cpp","src/tools/QDClock.cpp"],
[("Laser Get/Set/Init","src/qdlib/Laser.cpp"),("UpdateTime and Apply of laser operators","src/qdlib/OLaser.cpp, OGridDipole.cpp, OGridRaman.cpp, OMatDipole.cpp")])

p("C17","Every propagator reproduces the exact time evolution",
"For every Hamiltonian a propagator supports and every time step within its validity, one or many steps of the Chebyshev, short iterative Lanczos, Arnoldi, Runge-Kutta and split-operator propagators agree with exp(-i H dt) applied to the same wave function within the requested precision (for the split operator and Runge-Kutta: with an error that shrinks with the time step at their order), so that all propagators agree with each other. For a Hermitian Hamiltonian norm, energy and scalar products are conserved to that precision.",
["inputs","configurations"],"every Hamiltonian, initial state, time step, expansion order and number of steps",
"Tests compare a few systems with stored logs to a few digits.",
["src/qdlib/OCheby.cpp","src/qdlib/OSIL.cpp","src/qdlib/OArnoldi.cpp","src/qdlib/ORK4.cpp","src/qdlib/OGSPO.cpp","src/qdlib/OPropagator.h","src/linalg/Bessel.cpp"],
[("Init/Apply of each propagator","src/qdlib/OCheby.cpp, OSIL.cpp, OArnoldi.cpp, ORK4.cpp, OGSPO.cpp")])

p("C18","Backward and imaginary time propagation undo and relax",
"For a Hermitian Hamiltonian, including one with time dependent fields, propagating forward and then backward through the same clock steps returns the initial wave function with every propagator (within its documented accuracy). Switching direction at any point, and between real and imaginary time (for the Chebychev propagator before it is initialised), takes effect at the next step as if the propagator had been set up that way from the start: backward applies exp(+i H+ dt) with H+ the adjoint of the Hamiltonian, which the Hamiltonian inside the propagator then acts as, and forward restores H. Backward in imaginary time gives exp(-H dt), with the Chebychev propagator up to a positive factor, and lowers the energy of any state. With an absorbing Hamiltonian (imaginary potentials) the norm never grows, in either direction.",
["inputs","histories","configurations"],"every Hamiltonian, propagator, time step and sequence of direction and mode switches",
"Tests only run forward, and imaginary time through one program.",
["src/qdlib/OPropagator.h","src/qdlib/OCheby.cpp","src/qdlib/OSIL.cpp","src/qdlib/OArnoldi.cpp","src/qdlib/ORK4.cpp","src/qdlib/OGSPO.cpp"],
[("Forward/Backward/ImaginaryTime/RealTime/Exponent","src/qdlib/OPropagator.h")])

p("C19","A propagation run writes the trajectory it reports",
"A propagation program writes, for every step count, write cycle, direction and time step, exactly the wave functions of the trajectory: file 0 is the initial state, file k the state after k write cycles, the metadata file states the matching number, time step and cycle; and the norm, energy, projection, spectrum and autocorrelation figures it reports belong to those states. Filters given for before and after the propagation step act exactly there, restarting from a stored state continues the same trajectory, and the result does not depend on the chosen reporting or write cycle.",
["configurations","inputs","histories"],"every propagation set-up",
"Tests compare log columns of fixed runs; files and restart are not looked at.",
["src/ProgPropa.cpp","src/Reporter.cpp","src/FiltersList.cpp","src/Autokorr.cpp","src/qdng.cpp","src/ChainLoader.cpp"],
[("Run","src/ProgPropa.cpp"),("Report/Finalize","src/Reporter.cpp")])

p("C20","The eigen program returns true eigenpairs",
"Imaginary time relaxation, the Lanczos method and the autocorrelation method return eigenvalues and eigenfunctions of the given Hamiltonian: every returned pair satisfies the eigenvalue equation within the requested convergence and its energy agrees with direct diagonalisation, eigenfunctions are normalised and mutually orthogonal, energies are in ascending order wherever they come from a diagonalisation or from the relaxation, and the energies written and printed belong to the files written in the same order. Invalid requests are refused.",
["inputs","configurations"],"every bounded Hamiltonian, number of states, starting state and method option",
"Tests compare printed energies of fixed systems.",
["src/ProgEigen.cpp","src/linalg/LapackDiag.cpp"],
[("Run and method implementations","src/ProgEigen.cpp")])

p("C21","The filter program evaluates operators on stored wave functions",
"For every stored series, expectation values written by the filter program equal the matrix elements of the given operator with the stored wave functions, in the requested form (real, imaginary, modulus, complex, renormalised, integrated, per state), one line per file in order and at the right time, and filters that apply their operator hand exactly the operator applied to the wave function on to the filters listed below them. A chain given in a propagation run (before or after the propagation steps) gives the same values as running the same chain afterwards on the written files with the same renormalisation. Invalid chains are refused.",
["inputs","configurations","programs"],"every series, filter chain and option",
"Tests use filters in one fixed run.",
["src/ProgFilter.cpp","src/FiltersList.cpp"],
[("FiltersList::Apply","src/FiltersList.cpp"),("Run","src/ProgFilter.cpp")])

p("C22","Correlation functions are the stated overlap of propagated states",
"The correlation function program writes, for every set-up of bra, ket, operators, time steps and nested propagation, the overlaps <bra|ket(t)> that the definition gives for those propagations, in the documented binary layout, independent of the memory limit, of the write cycle up to its resolution, and of whether the baseline propagation is computed or read from a stored one; elements of a two-point function beyond the stated number of steps are zero. Invalid set-ups are refused.",
["inputs","configurations"],"every set-up of bra, ket, operator and steps",
"No test runs the program.",
["src/ProgCfun.cpp","src/qdlib/WFBuffer.cpp"],
[("Run","src/ProgCfun.cpp")])

p("C23","Optimal control iterations improve and report the true objective",
"Each iteration of an optimal control run (Krotov, Rabitz, Rabitz with feedback, frequency restricted Krotov; overlap, phase sensitive, moving and operator targets, one or several at once) gives the field the method's equations define from the previous field; in the Krotov and Rabitz methods the target yield gains at least what the theory guarantees for the change of the field (up to the time discretisation), so that the objective never decreases. The yield, norms, phases and pulse energy reported for an iteration are those of a propagation with the field of that iteration, and the field written at the end is the field of the last reported iteration: propagating the initial state with it reproduces the reported yield. Krotov fields stay unchanged where the shape function is zero; the iteration ends at the requested convergence or number of iterations. Invalid set-ups are refused.",
["inputs","configurations"],"every control set-up: system, target, guess field, shape, penalty, number of iterations",
"No test runs the program in the reliable set.",
["src/ProgOCT.cpp","src/qdlib/Laser.cpp","src/ChainLoader.h"],
[("Iterate/CalcLaserField/Report","src/ProgOCT.cpp")])

p("C24","Initial states are built as declared",
"A wave function described in the input (a file, a linear combination with coefficients, squared coefficients or phases, a multistate composition, a map of states, with or without normalisation, nested) is the described combination of the stored files, with norm one exactly when normalisation is requested; missing states are zero and contradictory descriptions are refused.",
["inputs","programs"],"every wave function description",
"Tests use single files and one multistate composition.",
["src/ChainLoader.cpp","src/GlobalWFList.cpp","src/qdlib/WFMultistate.cpp"],
[("LoadWaveFunctionChain and helpers","src/ChainLoader.cpp")])

p("C25","Equivalent input descriptions mean the same calculation",
"The short input language translates to the XML document its rules define: nested blocks to elements, attributes with concatenated strings, variables and number formats, counted loops with any start, end and step, comments ignored, special characters escaped; any XML input and its short form, and inputs using variables from the command line, run the same calculation. A syntax error is reported with failure instead of running something else.",
["programs","inputs"],"every input program of the language and every variable assignment",
"Tests run fixed XML inputs only.",
["src/simpleXml/grammar.yy","src/simpleXml/simpleXml.ll","src/simpleXml/SyntacticTreeModel.h","src/simpleXml/Simple2Xml.cpp","src/qdng.cpp"],
[("grammar and tree execution","src/simpleXml"),("CheckInput and variable passing","src/qdng.cpp")])

p("C26","Invalid input ends in an error message and failure status",
"Whatever the input file or command line contains (missing or unknown operators, methods, parameters, files, incompatible grids, out-of-range values, damaged XML or damaged files), the program either carries out a calculation and exits with success, or prints what is wrong and ends with a failure status: it never crashes, reads or writes memory it does not own, hangs, or exits with success after an error.",
["inputs","programs"],"every mutation of a valid input",
"No test gives an invalid input.",
["src/qdng.cpp","src/CmdHandler.cpp","src/ChainLoader.cpp","src/ProgPropa.cpp","src/ProgEigen.cpp","src/ProgFilter.cpp","src/ProgCfun.cpp","src/ProgOCT.cpp"],
[("main try/catch and RunXML","src/qdng.cpp, src/CmdHandler.cpp")])

p("C27","Results do not depend on threads, repetition or history",
"Running the same calculation again, with another number of threads, or after other calculations in the same process or the same directory (FFT plan cache included) gives the same wave functions to rounding of the floating point sums; independent program blocks in one input give the results of separate runs.",
["schedules","histories","configurations"],"every calculation, thread count and preceding work",
"Tests run single-threaded, one program per process.",
["src/qdng.cpp","src/CmdHandler.cpp","src/GlobalOpList.cpp","src/fft/FFTGlobal.cpp","src/math/VectorPrimitives.h"],
[("RunXML program loop","src/CmdHandler.cpp"),("OpenMP loops","src/math, src/qdlib")])

p("C28","Interactive commands act like the same calls in a program",
"In interactive command mode every well-formed sequence of commands (set/get parameters, store/load wave functions and operators, load operators and propagators, apply, expectation values, matrix elements, run programs, clear, quit) is answered, in order and in the documented framing, with the values the corresponding calculation gives; an error in one command is answered with an error message.",
["histories","inputs"],"every sequence of commands",
"No test uses interactive mode.",
["src/CmdHandler.cpp","src/IACmds.proto","src/qdng.cpp","src/tools/FIFO.cpp"],
[("RunInteractive","src/CmdHandler.cpp")])

for q in P:
    assert len(q["title"])<=80,(q["id"],len(q["title"]))
    import re
open("/verif/properties.jsonl","w").write("".join(json.dumps(q)+"\n" for q in P))
