"""The properties, and what MANIFEST.json says about their checks."""

def P(id, title, statement, over, text, why, files, mechanism, technique, note, observe=()):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mechanism=mechanism, technique=technique, note=note, observe=list(observe))

PROPERTIES = [
P("C01", "Dense linear algebra obeys its definitions",
  "For all small, middle-size and arbitrary-size matrices and vectors, real or complex, sums, products, transposes, "
  "concatenations, determinants, inverses, LU and least-squares solves return what their mathematical definition says, to rounding, "
  "for every shape and every regular operand including those that need pivoting. Operands that are not the target of an operation are unchanged.",
  ["inputs"], "all shapes (incl. 0 and non-square), all entries, all well-conditioned systems, both scalar types",
  "The existing tests use one or two hard-coded matrices per operation; storage order, strides and pivoting only matter for other shapes and entries.",
  ["kernel/LinearAlgebra"], [("MiddleSizeMatrix, SmallMatrix, SmallVector, MiddleSizeVector operators and LAPACK calls", "kernel/LinearAlgebra")],
  "property-based testing against naive reference algebra", "Random search up to 40 rows with rounding-error bounds as tolerance; trusts LAPACK and the own naive loops."),
P("C02", "Quadrature rules integrate exactly up to their announced order",
  "Every quadrature rule integrates every polynomial of total degree up to its announced order over its reference shape exactly to rounding, with all "
  "points inside the shape; the rule a shape hands out for a requested order has at least that order, and weighted sums of any function computed through the rule use each point with its own weight.",
  ["inputs", "configurations"], "all shapes, all rules, all requested orders the library offers, all polynomials up to the order",
  "The tests integrate a few fixed monomials or basis functions; one wrong digit in a point of a high-order rule only shows on particular monomials.",
  ["kernel/Integration/QuadratureRules", "kernel/Geometry/ReferenceGeometry.cpp"], [("point and weight tables", "kernel/Integration/QuadratureRules"), ("order selection", "kernel/Integration/QuadratureRules/AllGaussQuadratureRules.cpp")],
  "property-based testing against closed-form integrals", "All rules, random polynomials in random affine frames plus every monomial; closed-form integrals are the oracle."),
P("C03", "Basis function sets: derivatives, curls and polynomial completeness",
  "For every basis function set the library can create, the gradient, curl and divergence a function reports are the derivatives of the value it reports at every point, "
  "the functions are linearly independent, and together they span all polynomials of the order the set was created with.",
  ["inputs", "configurations"], "all set families, shapes and orders, all evaluation points",
  "The tests compare derivatives by finite differences at a few points for low orders with a loose tolerance and never check the span.",
  ["kernel/FE"], [("value and derivative formulas of each function", "kernel/FE/BasisFunctions*.cpp"), ("Lobatto and Legendre polynomials", "kernel/FE/helperFunctions.cpp")],
  "property-based testing: numerical differentiation and span membership by least squares", "Random points and polynomials; complex-step-free high-order differences give the derivative oracle, QR solves give the span oracle."),
P("C05", "Reference elements: numbering and maps agree with the geometry",
  "For every reference shape the local numbering of corners, edges and faces, the inside test, the maps from a face or edge onto the element boundary and the maps of a shape onto itself "
  "describe one and the same geometry: the map of face i sends the corners of the face shape to the corners listed for face i, with outward orientation, and the self-map chosen for two corner lists sends the one to the other.",
  ["inputs", "configurations"], "all shapes, faces, edges, all symmetric renumberings and all points",
  "The tests check each table against a copy of itself at corner points only, in places against a wrong copy.",
  ["kernel/Geometry"], [("local index tables", "kernel/Geometry/Reference*.cpp"), ("codimension maps", "kernel/Geometry/Mappings")],
  "property-based testing against independently written shape tables", "All shapes up to 4D, all faces, random points; the own tables of shapes.h are the oracle. Two known findings are listed."),
P("C04", "Conforming basis functions give globally continuous functions",
  "On every mesh of mixed shapes and every numbering of the nodes, when the conforming basis functions of any order are used and every function of a face, edge, node or element interior gets one "
  "coefficient, the resulting function has the same value from both sides in every point of every face, periodic ones included. Every function of an element belongs to exactly one of its parts.",
  ["inputs", "configurations"], "all meshes, node numberings, shapes, orders, coefficients and points",
  "The tests use one structured mesh per shape, with one orientation of each face; sign and orientation errors of odd face and edge functions only show on other numberings.",
  ["kernel/Base", "kernel/FE"], [("assignment of oriented sets to faces, edges and nodes", "kernel/Base/MeshManipulator_Impl.h"), ("offsets of the functions of a part", "kernel/Base/ElementBasisFunctions.cpp"), ("oriented face and edge functions", "kernel/FE")],
  "property-based testing on generated meshes: jumps over faces of random functions", "Generated meshes of up to 14 elements, orders up to 5; the matching point on the other side comes from the own geometry."),
P("C06", "Element maps, their Jacobians and inverses describe one geometry",
  "For every straight or curved element, the map from the reference element interpolates the coordinates of its nodes, its Jacobian is the derivative of the map, and the inverse map undoes it inside the element; "
  "a mesh finds the element and local point for every physical point that lies in it. After the mesh was moved all of these hold for the new coordinates.",
  ["inputs", "histories"], "all shapes, node positions (incl. reflections and strong shears), points, sequences of moves",
  "The tests check the maps at corner points of a few fixed elements.",
  ["kernel/Geometry", "kernel/Base/MeshManipulator_Impl.h", "kernel/Base/ElementFactory.cpp"], [("maps and Newton inversion", "kernel/Geometry/Mappings"), ("finding a point", "kernel/Base/MeshManipulator_Impl.h"), ("moving", "kernel/Base/MeshMoverBase.h")],
  "property-based testing against independently written shape functions", "Own shape functions and their derivatives are the oracle; found points are judged by where they lie, not by which element is named."),
P("C07", "The two sides of a face describe the same points, outward normals",
  "For every face of every mesh, a point of the reference face is the same physical point seen from the left and from the right element, up to the shift of a periodic face; "
  "the normal vector is orthogonal to the face, points out of the left element and has the ratio of physical to reference surface as its length.",
  ["inputs", "configurations"], "all meshes, shapes on both sides, relative orientations, periodic faces, points",
  "Only few of the relative orientations of two neighbours occur on structured meshes, and a wrong map exchanges points without changing integrals of symmetric functions.",
  ["kernel/Geometry/FaceGeometry.cpp", "kernel/Base/Face.cpp", "kernel/Geometry/Mappings"], [("face to face map index", "kernel/Geometry/FaceGeometry.cpp"), ("normal vectors", "kernel/Geometry/FaceGeometry_Impl.h")],
  "property-based testing against independently computed geometry", "Meshes with random local numberings of all shapes; positions and normals from the own geometry are the oracle."),
P("C08", "Element and face integrals are exact and conservative",
  "Integrating over an element or face gives the weighted sum over the points of the rule in use, for numbers, vectors, matrices and pairs and with or without a given rule; with the rule the library chooses, products of two basis "
  "functions are integrated exactly on straight elements and faces. The flux of a field through the faces of an element equals its divergence inside.",
  ["inputs", "histories"], "all meshes, orders per unknown, orders raised later, integrands, given rules, call sequences on one integrator",
  "Tests integrate fixed functions on one mesh; state kept between calls and the choice of the order for neighbours, faces and later changes are not sampled.",
  ["kernel/Integration", "kernel/Base/Element.cpp", "kernel/Base/Face.cpp"], [("sums over rules", "kernel/Integration"), ("choice of the rule", "kernel/Base/Element.cpp"), ("face rules", "kernel/Base/Face.cpp")],
  "property-based testing: own quadrature sums, own high-order rules, divergence theorem", "Own tensor Gauss rules of higher order are the oracle for exactness."),
P("C09", "Reading a mesh file gives exactly the mesh it describes",
  "For every well-formed mesh file, decimal or hexadecimal, the mesh in memory has exactly its elements with their shapes, zones, node coordinates (bit for bit) and topological nodes, exactly its faces and edges with the right elements on their sides, "
  "and marks a face as periodic exactly when its sides use different coordinates. Nodes, edges and faces list exactly the elements that contain them.",
  ["inputs"], "all mesh files: shapes, dimensions, curved elements, periodic connections, zones, numberings",
  "Tests read a handful of files made by one generator and compare counts.",
  ["kernel/Base/MeshManipulator_Impl.h", "kernel/Base/ElementFactory.cpp", "kernel/Base/FaceFactory.cpp"], [("reading", "kernel/Base/MeshManipulator_Impl.h"), ("creating the parts", "kernel/Base/ElementFactory.cpp")],
  "property-based testing: round trip through generated mesh files", "Own mesh model written as a file, read by the library, compared entity by entity."),
P("C10", "Physical elements and faces evaluate functions in the right place",
  "At every point of every element and face, the values, gradients, curls, divergences, solutions, normals and transformed vector functions that the physical element and face hand to an integrand are those of the basis functions mapped with the "
  "transformation in use, for every unknown, side and order of calls. Nothing remembered from an earlier point, element or face leaks into a later one.",
  ["inputs", "histories"], "all meshes, unknowns with own basis functions, points, transforms and histories of one reused object",
  "The tests use one mesh and one point order; stale caches only show when a reused object goes through particular sequences.",
  ["kernel/Base/PhysicalElement.h", "kernel/Base/PhysicalFace.h", "kernel/Base/CoordinateTransformation.h"], [("cached quantities", "kernel/Base/PhysicalElement_Impl.h"), ("transformations", "kernel/Base/H1ConformingTransformation.h"), ("solutions", "kernel/Base/Element_Impl.h")],
  "stateful property-based testing against direct evaluation", "Random histories of setPoint/setElement/queries on one object; values computed from scratch with own Jacobians are the oracle."),
P("C11", "Degrees of freedom are numbered without gaps or overlaps",
  "For every mesh, set of unknowns and choice of basis functions per unknown, the global numbering gives every function of every unknown on an element, face, edge or node exactly one number, uses every number once, starts "
  "at zero and leaves no gaps, whatever the layout and whichever unknowns are included; the numbers of an element are those of its own functions and of its faces, edges and nodes, in the order of its local functions. "
  "The sparsity estimate is never smaller than the number of neighbours a row really has.",
  ["inputs", "configurations", "histories"], "all meshes, unknowns with discontinuous or conforming functions, layouts, subsets of unknowns, renumberings in one object",
  "The tests number a few meshes with one kind of basis functions for all unknowns.",
  ["kernel/Utilities/GlobalIndexing.cpp", "kernel/Utilities/SparsityEstimator.cpp"], [("numbering", "kernel/Utilities/GlobalIndexing.cpp"), ("counts per row", "kernel/Utilities/SparsityEstimator.cpp"), ("functions per part", "kernel/Base/ElementBasisFunctions.cpp")],
  "property-based testing of numberings of generated meshes against the definition", "Generated meshes of up to 14 elements, one process; the own count of parts and functions and the own dense coupling pattern are the oracle."),
P("C12", "Assembled matrices and vectors are the sums of their local parts",
  "A global matrix is exactly the sum of the element and face matrices it is assembled from, and a global vector that of the element and face vectors, each at the numbers of its functions, also after reassembling and renumbering; "
  "moving coefficients between elements and a global vector, in total or per unknown, changes nothing but the coefficients asked for and loses none.",
  ["inputs", "histories"], "all meshes, unknowns with their own basis functions, local matrices and vectors, histories of assembling, renumbering and moving coefficients",
  "The tests solve one linear system on a few structured meshes, with one unknown or equal unknowns.",
  ["kernel/Utilities/GlobalMatrix.cpp", "kernel/Utilities/GlobalVector.cpp"], [("sums over elements and faces", "kernel/Utilities/GlobalMatrix.cpp"), ("coefficients to and from vectors", "kernel/Utilities/GlobalVector.cpp")],
  "stateful property-based testing against a dense reference sum", "Local entries are dyadic numbers so that sums are exact; one process, PETSc storage is trusted."),
P("C13", "Runge-Kutta methods have the order and properties they announce",
  "Every Runge-Kutta method is explicit, is consistent in its stage times and reaches the order it announces for every smooth system of differential equations, autonomous or not; its embedded error estimate has one order less and is an estimate of the error; "
  "methods announced as total variation diminishing never increase the total variation of upwind steps within their stability bound.",
  ["inputs", "configurations"], "all methods, all smooth right-hand sides, all initial values",
  "The tests integrate one autonomous equation with a fixed step.",
  ["kernel/Base/TimeIntegration"], [("Butcher tableaus", "kernel/Base/TimeIntegration"), ("selection", "kernel/Base/TimeIntegration/AllTimeIntegrators.cpp")],
  "property-based testing: Taylor expansion of random polynomial systems, total variation of random data", "Exact series arithmetic of random polynomial systems is the oracle for the order, so no step-size limit is involved."),
P("C14", "The solver classes perform the discretisation the user supplied",
  "For all element and face terms a user supplies, the simplified, linear and steady-state solver classes compute exactly the right-hand sides, mass matrices, projections, norms and errors that these terms define and advance the coefficients with exactly the chosen time integration; "
  "a run covers exactly the requested time span with steps no longer than asked and writes exactly the frames asked for. Solutions in the discrete space are reproduced exactly by advection and Poisson discretisations.",
  ["inputs", "histories"], "all meshes, orders, numbers of unknowns, integrators, couplings, step sizes, sequences of operations",
  "The tests run a handful of applications and compare norms of errors with recorded numbers.",
  ["kernel/Base/HpgemAPIBase.h", "kernel/Base/HpgemAPISimplified_Impl.h", "kernel/Base/HpgemAPILinear_Impl.h", "kernel/Base/HpgemAPILinearSteadyState_Impl.h"], [("right-hand sides and time steps", "kernel/Base/HpgemAPISimplified_Impl.h"), ("stored matrices", "kernel/Base/HpgemAPILinear_Impl.h"), ("steady state", "kernel/Base/HpgemAPILinearSteadyState_Impl.h")],
  "stateful property-based testing against an own dense reference solver", "Random linear couplings on generated meshes of up to 10 elements; the own dense arithmetic is the oracle, with rounding tolerances."),
P("C15", "Output files describe exactly the mesh and the values",
  "For every mesh, plotting order and sequence of written quantities, the VTK, Tecplot and GNUPlot files contain exactly the cells of the mesh, with the nodes in the order that the format prescribes for the shape of the cell, and at every point exactly the values of the function evaluated there, "
  "with the names, kinds (scalar, vector, tensor), zones, frames and times that were asked for; binary data can be decoded to the numbers that were written.",
  ["inputs", "histories"], "all meshes, shapes, orders, functions, numbers of processes' pieces, frames",
  "Tests compare a few small files byte by byte with recorded ones, in one order and for few shapes.",
  ["kernel/Output"], [("VTK", "kernel/Output/VTKSpecificTimeWriter_Impl.h"), ("Tecplot", "kernel/Output/TecplotDiscontinuousSolutionWriter_Impl.h"), ("frames", "kernel/Output/VTKTimeDependentWriter_Impl.h"), ("base64", "kernel/Output/base64.cpp")],
  "property-based testing: written files are parsed by an own reader and compared with the mesh and functions", "Meshes of up to 8 elements, orders up to 9; independent parsers and node orderings are the oracle."),
P("C16", "The preprocessor writes exactly the mesh that was described",
  "Every structured, native, gmsh 2.2 or Centaur description of a mesh, with its zones, periodic connections and translations and for every number of partitions, is written as a mesh file with exactly the described elements, coordinates and zones; "
  "nodes, edges and faces are shared by exactly the elements where they coincide or are periodic images of each other, are numbered locally as the kernel numbers them, and every element belongs to one partition while partitions see exactly the neighbouring elements and the nodes of both. "
  "The surface extracted at an axis-aligned plane of a structured mesh, periodic or not, is the mesh of exactly the faces in that plane with their coordinates, connections and the partition of an adjacent element; positions that are not understood are refused.",
  ["inputs", "configurations"], "all meshes, shapes, orders, zones, numberings of nodes, periodic directions, partitions, planes",
  "The tests convert a few meshes and run applications on them, without looking at the connectivity.",
  ["applications/Preprocessor"], [("structured meshes", "applications/Preprocessor/lib/MeshSource.h"), ("gmsh files", "applications/Preprocessor/lib/gmsh.cpp"), ("Centaur files", "applications/Preprocessor/lib/centaur.cpp"), ("connections", "applications/Preprocessor/lib/mesh/Mesh.h"), ("output", "applications/Preprocessor/lib/output.h"), ("surfaces", "applications/Preprocessor/extractSurface.cpp")],
  "property-based testing of the real programs: generated inputs, its output parsed by an own reader and compared with the generating model", "Meshes of up to about 60 elements; 1 to 4 partitions; the generating model is the oracle and holds for every partition METIS may choose."),
P("C17", "Results do not depend on the number of processes",
  "However a mesh is distributed over processes, together they own every element, face, edge and node exactly once and each knows exactly the neighbours of what it owns; identifiers, numbers of functions, assembled matrices and vectors, time steps, norms, errors and exchanged data are the same on all processes and the same as those of the undistributed mesh, "
  "and every message arrives once, complete and at the process it was sent to.",
  ["inputs", "configurations", "histories"], "all meshes, distributions, numbers of processes, basis functions, equations, histories of steps and messages",
  "The tests run a few applications on one process, or two with one partitioned mesh.",
  ["kernel/Base/MpiContainer.h", "kernel/Base/Submesh.h", "kernel/Base/MeshManipulator_Impl.h", "kernel/Utilities/GlobalIndexing.cpp", "kernel/Utilities/GlobalMatrix.cpp", "kernel/Utilities/GlobalVector.cpp", "kernel/Base/HpgemAPISimplified_Impl.h"],
  [("mesh parts", "kernel/Base/MeshManipulator_Impl.h"), ("messages", "kernel/Base/MpiContainer.h"), ("numbering", "kernel/Utilities/GlobalIndexing.cpp"), ("synchronisation", "kernel/Base/HpgemAPISimplified_Impl.h")],
  "property-based testing on real groups of MPI processes, against the undistributed model", "2 to 4 processes and meshes of up to 16 elements; the schedule of messages is the one the MPI library produces, not enumerated."),
P("C18", "DG-Max finds every time-harmonic Maxwell solution it can represent",
  "Whenever the exact solution of a time-harmonic Maxwell problem lies in the discrete space, the harmonic solver of DG-Max returns it: for both discretizations, every order, every choice and strength of the stabilisation for which the method is defined, "
  "every mesh of simplices (periodic or not), piecewise constant permittivity and permeability, every frequency that is not an eigenvalue, every source and every mix of Dirichlet, Neumann and Silver-Mueller boundaries. Fields, curls, L2 errors, face integrals and energy fluxes (total, incident and interference, per face and per facet of two zones) are those of that solution, "
  "and when a series of problems is solved the results do not depend on what was solved before.",
  ["inputs", "configurations", "histories"], "all simplicial meshes, materials, orders, fluxes, frequencies, sources, boundary conditions and series of problems",
  "The tests measure the L2 error of one field on a few cube meshes with one material and one boundary type.",
  ["applications/DG-Max/Algorithms", "applications/DG-Max/ProblemTypes", "applications/DG-Max/Utils/FluxFacets.cpp", "applications/DG-Max/ElementInfos.cpp"],
  [("bilinear forms and boundary terms", "applications/DG-Max/Algorithms/DGMaxDiscretization.cpp"), ("bilinear forms with potential", "applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp"), ("what is reassembled between problems", "applications/DG-Max/Algorithms/HarmonicSolver.cpp")],
  "property-based testing: manufactured solutions inside the discrete space, arbitrary problem series against fresh solves", "2D and 3D meshes of up to 36 elements, orders 1 to 4 (2D) and 1 to 3 (3D); relative tolerance 2e-7 on fields."),
P("C19", "DG-Max band structures: eigenvalues and modes of every Bloch problem",
  "For every simplicial mesh (periodic in any directions or none), piecewise constant materials, order, penalty and path of wave vectors, the frequencies the two eigenvalue solvers return at each wave vector are square roots of eigenvalues of the discrete Maxwell operator with Bloch-periodic boundary conditions of that wave vector, whatever was solved before; "
  "the hermitian and the inverted-mass form, phase shifts of the basis and the projector do not change the spectrum. The modes written for them satisfy the eigenvalue equation, written fields and energies are those of the mode, and the overlap of modes with those of the previous wave vector is their inner product weighted with the permittivity. Lists of eigenpairs keep every value with its vector through loading, reordering and moving.",
  ["inputs", "configurations", "histories"], "all simplicial meshes, materials, orders, penalties, solver options and paths of wave vectors",
  "The tests compare the lowest frequencies on one cube mesh with those of vacuum.",
  ["applications/DG-Max/Algorithms/DGMaxEigenvalue.cpp", "applications/DG-Max/Algorithms/DivDGMaxEigenvalue.cpp", "applications/DG-Max/Utils", "kernel/Utilities/Eigenpairs.cpp"],
  [("phase factors of periodic faces", "applications/DG-Max/Utils/FaceKPhaseShiftBuilder.cpp"), ("phase factors of the projector", "applications/DG-Max/Utils/CGDGMatrixKPhaseShiftBuilder.cpp"), ("eigenvalue problem and modes", "applications/DG-Max/Algorithms/DGMaxEigenvalue.cpp")],
  "property-based testing against an own dense assembly of the Bloch problem and LAPACK", "Up to 260 (rarely 1000) unknowns, full spectra by LAPACK, partial ones by the iterative solver; the local matrices themselves are the subject of C18. One known finding is listed."),
P("C20", "DG-Max descriptions and reference solutions mean what they say",
  "A description of a path through wave vectors, of a structure by zone names or by a predefined structure, and of absorbing layers gives, for every valid input, exactly the points, the material of every element and the layers it describes; absorbing layers start at the inner side of exactly the named zones, grow in the given direction and attenuate as requested, everything else keeps its material. "
  "The analytic solutions used for verification are right for all parameters: the spectra and band structure lines of a homogeneous medium (any lattice) and of a Bragg stack list every mode below the given frequency as often as it occurs and no other, and the analytic fields (plane waves, interfaces, sources, samples) satisfy Maxwell's equations, the interface conditions and their own boundary values, with consistent curls and fluxes.",
  ["inputs", "configurations"], "all texts of paths and structures, meshes with zones, lattices, stacks, wave vectors, materials, frequencies and points",
  "The tests parse two paths and compare a few frequencies and fields at fixed points.",
  ["applications/DG-Max/Utils", "applications/DG-Max/DGMaxProgramUtils.cpp", "applications/DG-Max/PMLElementInfos.h", "applications/DG-Max/ProblemTypes/Harmonic"],
  [("paths", "applications/DG-Max/Utils/KSpacePath.cpp"), ("band structures", "applications/DG-Max/Utils/BraggStackBandstructure.cpp"), ("zones and absorbing layers", "applications/DG-Max/DGMaxProgramUtils.cpp"), ("analytic fields", "applications/DG-Max/ProblemTypes/Harmonic")],
  "property-based testing against own parsers, Sturm oscillation counts, lattice sums and numerical derivatives", "Bragg stacks with dielectric constants between 1 and 13 (the documented root finder samples 201 points); roots that nearly touch are located within 1e-3. Predefined structures 4 and 5 are not in the oracle."),
P("C21", "Refinement trees and division maps describe one hierarchy",
  "A tree of mesh entities reports, after every sequence of adding roots and children, filling levels, erasing children and clearing, the right levels, parents, siblings and children; walking it level by level, "
  "on one level, in pre-order or in post-order, forward and backward, visits exactly the entries in question in that order. A division of a reference element has sub-elements with their corners at the listed nodes, "
  "which fill the element exactly once; its matrices are the derivative of the map and the inverse of that, and its tables of new faces name corners that coincide.",
  ["histories", "inputs"], "all sequences of tree operations, all shapes of forests, all division maps and sub-elements, all points",
  "The tests build one small balanced tree and check the map of a division at a few corners; a branch of another length or an erased child takes other paths, and the volume filled is never looked at.",
  ["kernel/Base/LevelTree.h", "kernel/Base/TreeIterator.h", "kernel/Base/TreeEntry.h", "kernel/Geometry/Mappings", "kernel/Geometry"], [("tree and its iterators", "kernel/Base/LevelTree_Impl.h"), ("iteration order", "kernel/Base/TreeIterator.h"), ("division maps", "kernel/Geometry/Mappings/RefinementMapping.h")],
  "stateful model-based testing of trees; property-based testing of divisions against own geometry", "Random histories of up to 40 operations against an own tree model. Entries on several levels only in trees filled to the last level, pre- and post-order only when the leaves lie on one level. 22 known findings name division maps whose tables are inconsistent."),
P("C22", "Data stored on elements and faces comes back, for its unknown and side",
  "After every sequence of storing operations, coefficients of time levels and time integration vectors (whole, per unknown or one by one), matrices, vectors, user data, zones and residues of elements and faces are returned exactly as last stored, "
  "nothing else is changed, and matrices of faces consist of the blocks of the two sides. After a change of the basis functions all sizes follow. Element and Face evaluate the functions, derivatives and curls of the named unknown and side - "
  "in any point and, through the values a quadrature rule remembers, in its points - and the solution built from them.",
  ["histories", "inputs"], "all sequences of storing, resizing, changing basis functions and evaluating, all numbers of unknowns and functions",
  "The tests store with one unknown and equal numbers of functions on both sides, so that mixed up offsets, unknowns or sides and stale remembered values go unnoticed.",
  ["kernel/Base/ElementData.cpp", "kernel/Base/FaceData.cpp", "kernel/Base/FaceMatrix.cpp", "kernel/Base/Element.h", "kernel/Base/Face.h", "kernel/Integration/QuadratureRules/GaussQuadratureRule.h"],
  [("coefficients", "kernel/Base/ElementData.cpp"), ("face matrices", "kernel/Base/FaceMatrix.cpp"), ("evaluation on both sides", "kernel/Base/Face.h"), ("remembered values", "kernel/Integration/QuadratureRules/GaussQuadratureRule.cpp")],
  "stateful model-based testing", "Histories of up to 25 operations on meshes of up to 5 elements against a model of plain arrays; coefficients after a change of the basis are unspecified until stored again. Values of discontinuous functions are compared with sets made apart from the mesh."),
P("C23", "The gas and sound applications discretise their conservation laws",
  "In the Euler application the numerical flux through a face is, for all admissible states, normals and dimensions, Roe's: consistent with the physical flux, the same whichever side is called left, proportional to the length of the normal and upwind; mass, momentum and energy that leave an element through a face enter its neighbour, "
  "no mass or energy passes a wall and the wall resists the motion; the element terms are the physical flux and the source for which the exact solution the program compares with solves the equations. "
  "In both acoustic wave programs, the one by right-hand sides and the one by matrices, element, face, mass and initial terms are those of the wave equations for every material, agree with each other and conserve the energy; the exact solution satisfies the equations and the error is measured in the energy.",
  ["inputs", "configurations"], "all pairs of states and normals; all meshes in one to three dimensions, orders, times, materials and coefficients",
  "No test runs these applications: a wrong flux still gives plausible pictures.",
  ["applications/Euler", "applications/ExampleMultipleVariableProblem"],
  [("numerical flux, walls and source", "applications/Euler/Euler_Impl.h"), ("acoustic waves", "applications/ExampleMultipleVariableProblem/AcousticWave_Impl.h"), ("the same by matrices", "applications/ExampleMultipleVariableProblem/AcousticWaveLinear_Impl.h")],
  "property-based testing against an own wave-by-wave Roe flux, an own assembly and numerical derivatives", "The size of the entropy fix is not prescribed below speeds of 0.01; states with positive pressure only. The time stepping of these programs is the subject of C13 and C14."),
P("C26", "The granular flow application discretises the shallow layer equations",
  "For the models of the granular flow program (one-dimensional, two sorts of grains, width averaged in two formulations, a chute in the plane): element terms are the physical flux of mass, momentum and small grains plus gravity along the slope and the friction law that opposes the motion, whichever way the material flows; "
  "through every face between elements, however the face is oriented, goes the flux of Harten, Lax and van Leer of the two states, and what leaves one element enters the other; walls let nothing through; inflow and outflow boundaries use the given state and the outgoing invariant for all variables. The source of the test in the plane makes its exact solution one. "
  "A time step moves every element by exactly these terms; limiting heights keeps the mass of every element, leaves deep enough flow alone and never leaves a depth below the layer that the mean allows. The contraction of the mesh narrows the domain linearly.",
  ["inputs", "configurations", "histories"], "all meshes in one and two dimensions, orders, slopes, depths from dry to deep, velocities in both directions and coefficients",
  "No test runs this application.",
  ["applications/SavageHutter"],
  [("terms in one dimension", "applications/SavageHutter/SavageHutter1DBase.cpp"), ("terms in the plane", "applications/SavageHutter/SavageHutter2DBase.cpp"), ("time step", "applications/SavageHutter/SavageHutterBase_Impl.h"), ("height limiter", "applications/SavageHutter/HeightLimiters/PositiveLayerLimiter_Impl.h"), ("two sorts of grains", "applications/SavageHutter/SavageHutter1DBidispersed.cpp")],
  "property-based testing against own formulas of fluxes, friction and limiting and an own assembly", "Depths near the dry limit are generated only as dry elements. The boundary states of the width averaged models and the slope limiters, which document no contract, are not judged."),
P("C27", "The tutorial programs assemble advection and the Poisson equation",
  "The four example programs users start from (AdvectionTest, TutorialAdvection, PoissonTest, TutorialPoisson) build, on every mesh and for every order, the matrices of what they document: advection with the flow taken from upstream at faces and outflow boundaries and nothing entering from outside; "
  "the symmetric interior penalty method, with fixed boundaries at x=0 and x=1 and free ones elsewhere, one penalty for all inner faces that is large enough for n elements per direction. Their sources and exact solutions belong together: the exact solution moves with the flow, respectively its Laplacian is the source.",
  ["inputs", "configurations"], "all meshes, orders, penalty parameters, points and times",
  "No test runs these programs, although they are what new programs are copied from.",
  ["applications/AdvectionTest", "applications/TutorialAdvection", "applications/PoissonTest", "applications/TutorialPoisson"],
  [("upwind advection", "applications/TutorialAdvection/main.cpp"), ("advection", "applications/AdvectionTest/main.cpp"), ("interior penalty", "applications/TutorialPoisson/main.cpp"), ("interior penalty with conforming functions", "applications/PoissonTest/main.cpp")],
  "property-based testing against an own assembly", "Faces along which the flow is almost, but not exactly, parallel are not judged. The programs are compiled into the check without their options and main function; solving is the subject of C14."),
P("C24", "Programs get exactly the values that the command line gives",
  "For every set of registered options (flags, integers, reals, texts, required or with a default) and every list of arguments: a program that goes on has for each option exactly the value given last on the command line by its short or long name, also in clusters of flags and for values that look like options, or the default, "
  "and knows which were used; what follows -- reaches the linked libraries and nothing else does. A program stops with a message and a failure status, and never goes on with a made-up value, when an option is unknown, a value is missing, is not a number of the option's type (empty, incomplete, with trailing characters, out of range, negative for an unsigned option), or a required option is absent; help lists all options. "
  "Texts of points give their coordinates and where they end. Messages show their arguments in the places of the format, exactly once, by the channel of their level; failed assertions always report; warnings stop the program exactly when asked for.",
  ["inputs", "configurations"], "all option sets, argument lists, numbers and texts",
  "The tests parse two points and otherwise only use well-formed arguments; what happens to malformed ones is seen by users only.",
  ["kernel/Base/CommandLineOptions.h", "kernel/Base/CommandLineOptions.cpp", "kernel/Base/CommandLineHelpers.h", "kernel/Logger.h"],
  [("conversion of values", "kernel/Base/CommandLineOptions.h"), ("words, clusters, required options and help", "kernel/Base/CommandLineOptions.cpp"), ("points", "kernel/Base/CommandLineHelpers.h"), ("messages and assertions", "kernel/Logger.h")],
  "property-based testing: each command line is parsed in a process of its own and compared with an own model of the documented rules", "Values with leading blanks, hexadecimal numbers and escaped signs behind the last argument of a message are not judged."),
P("C25", "DG-Max integrates the time dependent Maxwell equations",
  "For every mesh of triangles or tetrahedra, order, permittivity, (for the second order method) conductivity, initial field, source and boundary values that are functions of space times functions of time, the time dependent solver of DG-Max converges to the solution of the equations it states when the step is halved, with the order two or four of the chosen method; "
  "the initial field is reproduced, the fields of all requested steps and of the last step are stored with their times, and the reported errors are the distances between the stored and the given fields. The sample problems satisfy their equations, initial and boundary conditions everywhere; the automatic choice of steps reaches the end time and no further than one step.",
  ["inputs", "configurations"], "all meshes of simplices, orders, materials, smooth data, both methods, strides and numbers of steps",
  "No test runs the time dependent solver.",
  ["applications/DG-Max/Algorithms/DGMaxTimeIntegration.cpp", "applications/DG-Max/ProblemTypes/Time", "applications/DG-Max/ProblemTypes/TimeIntegrationProblem.h"],
  [("the two methods and the snapshots", "applications/DG-Max/Algorithms/DGMaxTimeIntegration.cpp"), ("step size and number of snapshots", "applications/DG-Max/Algorithms/DGMaxTimeIntegration.h"), ("sample problems", "applications/DG-Max/ProblemTypes/Time/SampleTestProblems.cpp")],
  "property-based testing: polynomial fields with known evolution, error reduction under step halving, numerical derivatives of the sample problems", "Time steps well below the stability limit, which is computed from the assembled matrices; conductivity only with unit permittivity, as the program documents. The DG norm of errors and the Tecplot output of this solver are not judged."),
]
