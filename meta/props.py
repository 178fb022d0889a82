PROPS = []


def P(id, title, statement, over, q, why, files, mech, tech=None, note=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, tech=tech, note=note, na=na))


CFG = "src/config/ecf"

P("K01", "Every configuration keyword sets exactly the parameter it names",
  """Each keyword a user can write in a configuration file is bound to the one setting of that name: no two
  keywords of one section write the same setting, no keyword is registered twice, and every user-facing setting
  of every section can be reached by its keyword.""",
  ["inputs", "configurations"], "All keywords of all sections of the configuration, for every configuration file.",
  "There are several hundred keywords and the example files use a fraction of them; a keyword bound to a neighbouring setting only shows when that keyword is used with a value that changes the result.",
  ["src/config/ecf", "src/config/description.cpp", "src/config/configuration.h", "src/config/configuration.hpp"],
  [("parameter registration", "REGISTER / ECFDescription::registerParameter calls in src/config/ecf/**"),
   ("lookup by name", "src/config/configuration.cpp ECFObject::_getNamedParameter")],
  "registry extraction from the type-checked AST (keyword literal -> bound member) and comparison with the members of every configuration class",
  "Exhaustive over all registrations in the source; the reviewed alias and exempt lists are in rules/k01.py.")

P("K02", "An option name selects the behaviour of that name",
  """For every setting with a list of named options, writing an option name selects the alternative of that name and
  nothing else (position in the list and internal value agree, also for flag sets), reading the setting back yields the same
  name, and a number given instead of a name is accepted only if it denotes one of the listed options.""",
  ["inputs", "configurations"], "All enumerated settings, all their options, all texts a user can write as the value.",
  "The option is stored by its position in the list; a swapped pair compiles, and only a run that uses exactly the swapped options and knows the expected physics would notice.",
  ["src/config/ecf", "src/config/holders/valueholder.h"],
  [("option lists", "addoption() chains in src/config/ecf/**"), ("option holders", "src/config/holders/valueholder.h ECFEnumHolder, ECFEnumFlagsHolder")],
  "table comparison (option list vs. enumerators of the bound enum type) plus dataflow over the option holders",
  "Exhaustive over all option lists. One genuine defect is recorded as known finding (RESULTS_STORE_FREQUENCY = DEBUG).")

P("K03", "A setting absent from the configuration file has a defined default",
  """Every scalar, boolean or enumerated setting that the configuration file does not mention has a value defined by the program
  on every path, never whatever happened to be in memory; hence two runs with the same file behave the same.""",
  ["inputs", "configurations", "histories"], "All numeric, boolean and enumerated settings of all sections, for every file that omits them.",
  "An uninitialised setting usually reads as zero in a test and differs only with the history of the heap or stack.",
  ["src/config/ecf"], [("constructors of configuration sections", "src/config/ecf/**/*.cpp")],
  "definite-assignment dataflow over the constructors of all configuration classes",
  "Exhaustive over registered scalar members; helpers in the same file are inlined.")

P("K04", "Configuration text that cannot be understood stops the run with an error",
  """A value that is not completely consumed by its conversion, an unknown keyword or option, an unbalanced region, a missing
  command-line argument or an unterminated construct in the configuration file ends the run with an error report; it is never
  silently ignored, truncated to a prefix or read past the end of the file.""",
  ["inputs"], "All configuration texts and command lines.",
  "Tests use valid files; the space of malformed files is unbounded and a prefix accepted as a value produces a plausible but wrong run.",
  ["src/config/reader", "src/config/holders/valueholder.h"],
  [("conversions", "src/config/holders/valueholder.h"), ("reader", "src/config/reader/reader.cpp"), ("tokenizer", "src/config/reader/tokenizer.cpp")],
  "path-sensitive dataflow (typestate of extraction streams, lookup results and token kinds) over holders, reader and tokenizer",
  "All paths of the reader/tokenizer/holders; standard stream semantics assumed.")

P("S01", "Packed data is read back exactly as it was written",
  """Whenever an object, vector or string is packed into a byte buffer (to be sent to other processes or stored), the reader
  consumes exactly the items the writer produced, in the same order, with the same types and into the same members, and the
  announced size is never smaller than what is written; every member meant to travel does travel.""",
  ["inputs", "configurations", "schedules"], "All serialisable classes and helper overloads, all contents, all process counts.",
  "With one process or with empty vectors an inconsistent protocol is invisible; with several, a wrong field shows as corrupted mesh data far away.",
  ["src/basis/utilities/packing.h", "src/basis/containers/serializededata.h", "src/mesh/store", "src/mesh/preprocessing"],
  [("packing helpers", "src/basis/utilities/packing.h utils::pack/unpack/packedSize"), ("mesh stores", "packedFullSize/packFull/unpackFull in src/mesh/store/*.cpp")],
  "protocol extraction (size/writer/reader reduced to item sequences) and comparison of the three sequences",
  "All protocols in the source; loops/conditions compared structurally after inlining of helpers.")

P("E01", "Element tables describe closed, consistently oriented elements",
  """For every supported element type the tables of its corners, edges, faces, surface triangles and boundary polygon describe one and the same
  shape: node indices in range, every edge of every face shared by exactly two consistently oriented faces, mid-side nodes
  on the right edge, triangulations and polygons covering the face exactly once, and each type registered with its own table.""",
  ["inputs"], "All 15 element types and all rows of all tables.",
  "A wrong node in one face row affects only meshes with that element type whose that face is a boundary, a surface or a neighbour across processes.",
  ["src/mesh/element.cpp", "src/mesh/element.h", "src/mesh/mesh.cpp"],
  [("element tables", "src/mesh/element.cpp Element::init<CODE>"), ("registration", "src/mesh/mesh.cpp Mesh::init")],
  "constant propagation over table initialisers, then a combinatorial check of the extracted tables against the shape",
  "Exhaustive over all tables.")

P("F01", "Shape functions, derivatives and quadrature describe the element exactly",
  """For every element type and integration rule used by the physics, the shape functions sum to one everywhere, the stored derivatives are
  the derivatives of those functions in all directions, the nodal evaluation visits every node exactly once, the Jacobian of a well-shaped
  element in the program's node numbering is positive, and the rule integrates volume and low-order moments of the shape exactly.""",
  ["inputs", "configurations"], "All (element type, quadrature) pairs instantiated by the heat transfer and structural mechanics kernels, all points of the element.",
  "Tests compare a few norms on regular meshes with loose tolerances; symmetric meshes cancel many errors and several tables are only used by output or by distorted elements.",
  ["src/analysis/assembler/general/basefunctions.h", "src/analysis/assembler/heattransfer/element.h", "src/analysis/assembler/structuralmechanics/element.h"],
  [("basis functions", "src/analysis/assembler/general/basefunctions.h BaseFunctions::set/simd")],
  "polynomial constant propagation over the AST of the basis functions; algebraic identities on the extracted polynomials",
  "All instantiated pairs; identities are exact (rational arithmetic), moments within 1e-9 because quadrature tables are decimal literals.")

P("E02", "Element types in mesh and result files mean what the format defines",
  """For every supported file format (VTK legacy, XDMF, EnSight, Gmsh/Neper, ANSYS CDB, Abaqus) the element type, number of nodes and dimension
  read for each element type of the format, and the type written for each element of the program, are those the format defines, and every
  mid-side node stays on its edge. Omitting mid-side nodes turns every element into the linear type of its shape without disturbing other elements;
  a type the Gmsh/Neper, VTK and ANSYS readers do not know ends the run with an error.""",
  ["inputs"], "All 15 element types in all format tables, both directions, all collapsed forms of ANSYS elements.",
  "Tests use generated meshes of a few types; file formats with quadratic prisms or pyramids are practically never exercised.",
  ["src/input/parsers", "src/input/meshbuilder.cpp", "src/output/visualization/writer"],
  [("writer tables", "src/output/visualization/writer/*.h"), ("reader tables", "src/input/parsers/**"), ("mid-side nodes", "src/input/meshbuilder.cpp MeshBuilder::build")],
  "constant propagation through every translation table for every domain value; comparison with the embedded format specification",
  "Exhaustive over tables; readers that need libraries absent here (gmsh, nglib) are compiled out and not analysed.")

P("E03", "Every element is assembled by the kernel of its own type",
  """In heat transfer and structural mechanics, for every element, boundary-face and node type, in every phase (preprocess, assemble, reassemble,
  iteration, solution) and for both mesh dimensions, exactly one kernel is run: the one for that element type, its number of nodes, its dimension and the
  dimension of the mesh. Preprocessing and computation of a type use the same integration rule, and each kernel descriptor describes the interval it stands for.""",
  ["inputs", "configurations"], "All (physics, entity type, phase, mesh dimension) combinations.",
  "The dispatch has hundreds of hand-written combinations; tests run a fraction (few element types and no mixed phases).",
  ["src/analysis/assembler/heattransfer.cpp", "src/analysis/assembler/structuralmechanics.cpp", "src/analysis/assembler/heattransfer", "src/analysis/assembler/structuralmechanics"],
  [("dispatch", "HeatTransfer/StructuralMechanics::elements, boundary, nodes"), ("kernel selection", "runElement/runBoundary/runNode specialisations in kernel.*.cpp")],
  "selector constant propagation through the dispatch (explicit specialisations inlined) to the kernel template arguments",
  "Exhaustive over all combinations; kernels are identified by their template signature.")

OPF = ["src/math/operations", "src/gpu/operations", "src/wrappers"]
P("P01", "Linear-algebra operations report a missing input or step instead of crashing",
  """Every linear-algebra operation object (math and gpu operations and their library wrappers) reports an error when a method needs an input matrix, vector, handle or
  configuration that was not set, or a step (setup, preprocess, ...) that was not performed; it never dereferences an input not known
  to be set. Destroying an operation on which no step was performed is harmless.""",
  ["histories", "programs"], "All public methods of all operation classes, all orders in which set/setup/preprocess/perform calls can be made.",
  "The solvers call the operations in one order with all inputs; misuse by a new caller shows as a crash or silent garbage in a production run.",
  OPF, [("operation classes", "src/math/operations/*.cpp, src/gpu/operations/*.cpp, src/wrappers/*/operations/*.cpp")],
  "typestate analysis: all paths of all public methods (virtual calls resolved per concrete class, helpers inlined) with null/flag facts and flag implications",
  "All classes, all paths; GPU wrappers are parsed against stub headers as the SDKs are absent.")

P("P02", "Linear-algebra operations refuse incompatible matrices",
  """No linear-algebra operation completes on operands whose sizes, layout (row/column major), stored triangle, symmetry or memory (cpu/gpu) do not fit the operation:
  the mismatch is reported as an error on every path, before a result is delivered.""",
  ["inputs", "programs"], "All operation classes and public methods, all operand sizes, orders, triangles and allocators.",
  "The solvers only pass matching operands; without the refusal a mismatch reads or writes out of bounds and only some sizes crash.",
  OPF, [("refusals", "if(...) eslog::error(...) at the head of setup/preprocess/perform methods"), ("frozen table", "data/preconditions.json in the verification directory")],
  "precondition extraction by path-sensitive dataflow (relations closed under equality and linear arithmetic) compared with a reviewed table of required relations",
  "1075 required relations of 210 methods; a relation may be established anywhere on the path, by helper, lambda or local names.")

P("D01", "A chosen option runs the implementation of that name or is refused",
  """For every combination of the enumerated settings that select a physics, loader, generator, decomposer, feti method, dual operator, preconditioner, projector,
  iterative solver, schur-complement or triangular-solve algorithm, or result format, the implementation (and its layout/strategy parameters) designated by the chosen
  options is created or called, or an error is reported; the choice never leads to another implementation, another parameter value or silently to nothing.""",
  ["inputs", "configurations"], "All combinations of options of all selecting functions (124 dispatchers).",
  "The test configurations use a handful of combinations; a wrong branch computes similar results by another method, or silently nothing.",
  ["src/analysis/analysis.cpp", "src/feti", "src/math/operations", "src/gpu/operations", "src/mesh", "src/output/output.cpp", "src/input/parsers/meshgenerator", "src/autoopt", "src/wrappers/metis"],
  [("factories", "*::create / setup_config functions in src/feti, src/math/operations, src/gpu/operations"), ("output", "src/output/output.cpp Output::Output"), ("decomposers", "src/mesh/preprocessing/decomposition.cpp")],
  "path-sensitive constant propagation of configuration enums to object creations, worker calls and assigned parameters; compared with a reviewed option table",
  "124 dispatchers, 604 option combinations; helpers, lambdas and if-chains are followed; choices behind AUTO are free.")

P("T01", "Threads never write the same memory without protection",
  """In every parallel region, also through the functions called from it, a thread writes only its own variables or positions of shared data selected by its iteration;
  a shared scalar, container or static/global variable is modified only under atomic, critical, reduction or by a single thread, and contributions of several
  domains to a common dual or coarse vector or matrix are accumulated atomically. Hence the result does not depend on the scheduling of the threads.""",
  ["schedules", "inputs"], "All parallel regions (364), all functions reachable from them, all thread counts and schedules.",
  "A race shows only with certain thread counts and timings; the tests run few threads on tiny problems.",
  ["src/mesh", "src/feti", "src/input", "src/analysis", "src/math", "src/basis", "src/morphing"],
  [("parallel regions", "#pragma omp parallel (for) in src/**"), ("thread-shared accumulation", "src/feti/common/applyB.h, src/feti/dualoperator/*.cpp (D2C, F0), src/feti/feti.cpp (kkt)")],
  "abstract interpretation of all OpenMP regions (iteration-dependence of values and locations, sharedness, interprocedural with memoised contexts)",
  "All regions; positions depending on the iteration are assumed disjoint (listed in evidence), except maps known to be shared between domains.")

P("M01", "A message between processes carries exactly the data that was sent",
  """In every data transfer between processes the datatype and unit of the count are those of the elements of the buffer, a probed message is received from the probed source,
  tag and communicator with the probed length into a buffer of that length, send and receive sides of an exchange use the same tag and mirrored partners, and every started
  transfer is completed before the function returns. Messages of one exchange cannot be taken by another one, and no type with pointers or containers is sent as raw bytes.""",
  ["inputs", "schedules", "programs"], "All MPI calls and all uses of the communication wrappers with all element types they are instantiated for; all paths of the functions with messages.",
  "Nearly all tests run a single process; wrong types, lost requests or stolen messages show only with several processes, large messages or unlucky timing.",
  ["src/wrappers/mpi", "src/mesh", "src/input", "src/output", "src/feti", "src/analysis", "src/basis"],
  [("communication wrappers", "src/wrappers/mpi/communication.hpp, communication.cpp"), ("datatype table", "MPITools::getType"), ("callers", "Communication::allReduce/broadcast/reduce/exscan in src/**")],
  "type-checked argument analysis of all MPI calls (buffer element type, datatype, unit of count), protocol rules and completion typestate on all paths",
  "All instantiated code; lengths computed by other functions are not compared (counted as undecided in evidence).")

P("M02", "All processes of a communicator enter every collective operation",
  """Whether a process enters a collective operation (also indirectly through the functions, virtual methods and loops leading to it) never depends on its rank, on
  the sizes or contents of its part of the mesh, matrices or neighbours, or on anything computed from them, unless the condition was first made common
  by a reduction or broadcast or selects exactly the members of the communicator. It is not entered by several threads of a parallel region, nor once per
  local item. Hence no distribution of the data can make a run hang.""",
  ["inputs", "schedules", "configurations"], "All call sites of collective operations (379) and all conditions, loop bounds and early exits they depend on.",
  "A process without elements, neighbours or constraints occurs only for particular meshes and process counts; nearly all tests run a single process.",
  ["src/wrappers/mpi", "src/mesh", "src/input", "src/output", "src/feti", "src/analysis", "src/basis"],
  [("reset of projectors", "src/feti/projector/*.cpp update()"), ("mesh preprocessing", "src/mesh/preprocessing/*.cpp"), ("readers and writers", "src/basis/io, src/input/parsers, src/output")],
  "interprocedural control- and data-dependence analysis classifying every condition of a collective as uniform, process-local or not known",
  "All functions reaching a collective; conditions of unknown origin are accepted (counted in evidence).")

P("O01", "A result file does not depend on the number of processes",
  """Every text written to a result file by one process on behalf of all (headers, counts, separators) contains only values common to all processes (totals, configuration,
  step), it precedes or follows the data of all processes as the format requires, i.e. never lands between or is merged into them, and a value common to all
  processes is written once, not once per process; the buffered pieces of one file are closed (grouped) before the file is committed.""",
  ["configurations", "inputs", "schedules"], "All writers of result files (VTK, EnSight, STL, CSV and debug formats), all meshes, data and process counts.",
  "The tests write no visualisation files and run one process, where the local value equals the total and the order of the pieces cannot differ.",
  ["src/output/visualization"],
  [("parallel writer", "src/output/visualization/writer/*.h OutputWriter, storeHeader/storeFormat/groupData/commitFile"), ("formats", "src/output/visualization/{vtklegacy,ensightgold,stl,...}.cpp")],
  "typestate of the output buffers along all paths plus classification of every written value as common or process-local (shared with M02)",
  "All writer methods that reach the parallel writer; values of unknown origin are accepted (counted in evidence).")

P("A01", "Heat transfer kernels assemble the finite element terms of the model",
  """For every element type, material model (isotropic to anisotropic, rotated or in a local coordinate system) and for constant as well as coordinate- or temperature-dependent expressions,
  the element matrices (conductivity, advection with and without stabilization, mass), right-hand sides (heat source, heat flow, heat flux, convection), prescribed and initial temperatures,
  thickness, volumes, gradients and fluxes equal the finite element formula: each coefficient is evaluated at its own Gauss point or node and enters exactly its own term, in 2D multiplied by the thickness.
  Elements of full and partial SIMD chunks are treated alike, and no other memory is written.""",
  ["inputs", "configurations"], "All element and boundary types, material models, coordinate systems, constant and variable expressions; all values of coordinates, coefficients and temperatures.",
  "The tests compare the solution norm of a few configurations on regular meshes with constants; a wrong index or a coefficient taken from another place often changes nothing there.",
  ["src/analysis/assembler/heattransfer", "src/analysis/assembler/general"],
  [("kernels", "src/analysis/assembler/heattransfer/kernel.h setElementKernel, runElementKernel, runBoundaryKernel, runNodeKernel"), ("operators", "src/analysis/assembler/heattransfer/op.*.h, src/analysis/assembler/general/op.*.h"), ("fillers", "src/analysis/assembler/general/filler.h")],
  "abstract interpretation of the typed syntax tree of all kernels in the domain of value numbers of rational functions (random interpretation); every output compared with the formula's value number",
  "Equality of rational functions up to a collision probability of 2^-50; the set-up by the driver (analyze) is checked by the rule of A03, which runs here as well; spherical systems are undecided.")

P("A02", "Structural mechanics kernels assemble the finite element terms",
  """For every element type, plane or volume behaviour (plane strain, plane stress, axisymmetric, 3D), linear and non-linear elasticity (Kirchhoff and compressible Neo-Hookean materials) and for constant as well as coordinate-dependent expressions,
  the stiffness and mass matrices, internal forces, acceleration and angular velocity loads, pressures, nodal and harmonic forces (both parts), prescribed displacements, stresses and strains equal the finite element formula:
  the tangent matrix is the exact derivative of the internal forces, stress comes from the strain energy of the material, every plane term of an element contains its thickness and every axisymmetric term its circumference.
  Elements of full and partial SIMD chunks are treated alike, and no other memory is written.""",
  ["inputs", "configurations"], "All element and boundary types, behaviours, both material models, constant and variable expressions; all values of coordinates, displacements and coefficients.",
  "The tests compare solution norms of a few meshes with unit thickness, axis-parallel rotation and Kirchhoff materials; a swapped shear component or a lost factor changes nothing there.",
  ["src/analysis/assembler/structuralmechanics", "src/analysis/assembler/general"],
  [("kernels", "src/analysis/assembler/structuralmechanics/kernel.h setElementKernel, runElementKernel, runBoundaryKernel, runNodeKernel"), ("materials", "src/analysis/assembler/structuralmechanics/op.material.h"), ("operators", "src/analysis/assembler/structuralmechanics/op.*.h, src/analysis/assembler/general/op.*.h")],
  "abstract interpretation of the typed syntax tree of all kernels in the domain of value numbers of rational functions and their dual numbers (random interpretation); every output compared with the formula's value number",
  "Equality of rational functions up to a collision probability of 2^-50; the set-up by the driver (analyze) is checked by the rule of A03, which runs here as well; corotation and Bonet-Wood plasticity are undecided.")

P("A03", "Settings of the user reach the operators they belong to",
  """Each load, boundary condition, material, initial value and requested result of the configuration reaches the operator of the same name, with the elements, nodes and data of its own interval or region, for each dimension, type of analysis, linearity, material model and coordinate system.
  The values an expression depends on (coordinates, temperature, current time, substep, frequency) are provided before it is evaluated, in all threads.
  Each matrix and vector is filled in the rows of its own interval, is cleared before and completed after its assembly, and is assembled again exactly when something it depends on can change.""",
  ["configurations", "inputs", "histories"], "All combinations of dimension, analysis, mode, model or behaviour, coordinate system and requested results; all intervals, regions, threads; all sequences of time steps.",
  "Tests run a few configurations; a load connected to a wrong region, a constant flag that ignores one list of expressions, or a missing time changes nothing for loads that are zero or constant.",
  ["src/analysis/assembler/heattransfer.cpp", "src/analysis/assembler/structuralmechanics.cpp", "src/analysis/assembler/assembler.cpp", "src/analysis/assembler/assembler.h", "src/config/ecf/material"],
  [("set-up", "src/analysis/assembler/heattransfer.cpp and structuralmechanics.cpp: constructors, analyze, connect, evaluate, updateSolution, nextIteration"), ("schedule of intervals", "src/analysis/assembler/assembler.cpp Assembler::assemble"),
   ("state of matrices", "src/analysis/assembler/assembler.h isactive, reset, update"), ("predicates of materials", "src/config/ecf/material/coordinatesystem.cpp isRotated, isConst; thermalconductivity.cpp, elasticityproperties.cpp needCoordinates, needTemperature")],
  "symbolic execution of the drivers over the typed syntax tree in enumerated settings; every event (activation, connection, set of a parameter, visit of an interval) compared with the specification of its operator",
  "Loops are executed once with a symbolic index (bounds are checked); forces read from external data and BEM are not covered.")

P("R01", "Time, frequency and Newton schemes solve the systems they prescribe",
  """Each load step of heat transfer and structural mechanics hands to the linear solver exactly the systems of its scheme (trapezoidal rule with the alpha of the chosen method, Newmark with ALPHA as beta and DELTA as gamma, generalized-alpha with Rayleigh damping, Newton with residual and Dirichlet increment, harmonic K-w^2*M), with matrices and loads assembled at the time and state of that step and never stale ones.
  A load step starts from the solution, velocity, acceleration and end time of the previous one (or from the initial values), covers its duration, and stops when the solver fails or when the requested Newton criteria hold.
  Each step passes its own time, solution, velocity and acceleration to the assembler and to the output.""",
  ["configurations", "inputs", "histories"], "All methods and parameters of the schemes, numbers of steps and iterations, constant or changing matrices, sequences of load steps, failures of the solver.",
  "The tests compare a few monitored values at default parameters; a wrong coefficient changes nothing for a zero state, a stale matrix nothing for constant materials, and Newton iterations repair a wrong predictor.",
  ["src/analysis/physics/heat.transient.linear.cpp", "src/analysis/physics/heat.steadystate.nonlinear.cpp", "src/analysis/physics/structuralmechanics.transient.linear.cpp", "src/analysis/physics/structuralmechanics.transient.nonlinear.cpp",
   "src/analysis/physics/structuralmechanics.steadystate.nonlinear.cpp", "src/analysis/physics/structuralmechanics.harmonic.real.linear.cpp"],
  [("time integration", "src/analysis/physics/*.transient.*.cpp run"), ("Newton iterations", "src/analysis/physics/*.nonlinear.cpp run, checkTemp, checkDisplacement, checkStress"), ("frequencies", "src/analysis/physics/structuralmechanics.harmonic.real.linear.cpp run")],
  "abstract interpretation (random interpretation) of the drivers over linear combinations of symbolic vectors; systems, times and stored results of each step compared with the scheme",
  "The first three steps (substeps, samples) and up to five Newton iterations of each scenario; acoustics and damping of the harmonic analysis are not covered.")

P("N01", "Iterative solvers converge to the requested precision",
  "Each FETI iterative solver (PCG, MPRGP, SMALSE and their projectors and preconditioners) ends with a solution whose residual is below the requested precision, or reports that it did not.",
  ["inputs"], "All systems.", "Tests solve a few well-conditioned systems.",
  ["src/feti/iterativesolver"], [("iterations", "src/feti/iterativesolver")],
  na="the guarantee is about floating point values of iterates: convergence depends on the spectrum of the preconditioned operator, which no static argument in reach bounds")

P("N02", "Results do not depend on the number of processes, domains and threads",
  "The same problem solved with another number of processes, domains or threads gives the same result up to the precision of the solver.",
  ["configurations", "schedules"], "All decompositions.", "Tests use a few decompositions.",
  ["src/mesh/preprocessing", "src/feti"], [("decomposition", "src/mesh/preprocessing"), ("gluing", "src/feti")],
  na="the relation between two runs on different decompositions is numerical and passes through METIS/ParMETIS and external solvers; its structural parts are decided by P01, P02, S01 and T01")

P("N03", "The solution converges to the exact one under refinement",
  "With finer meshes and shorter time steps the computed fields approach the solution of the differential equation with the order of the elements and of the scheme.",
  ["inputs"], "All geometries and data.", "Tests use one mesh per case.",
  ["src/analysis/assembler", "src/analysis/physics"], [("discretization", "src/analysis/assembler")],
  na="approximation error is a limit over runs and has no witness in the source; consistency of elements, operators and schemes is decided by E01-E03, A01-A03 and R01")

P("N04", "Speed and memory scale with the number of processes",
  "Adding processes and threads reduces the time and the memory per process as documented.",
  ["configurations"], "All sizes and machines.", "Tests do not measure.",
  ["src/feti", "src/basis/sfc"], [("parallel algorithms", "src/feti")],
  na="a quantitative property of executions on hardware")
