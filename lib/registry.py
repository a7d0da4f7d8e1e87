KERNEL = ["kernel/**/*.cpp", "!kernel/Geometry/Mappings/MappingReferenceToPhysical.cpp"]
LINALG = ["kernel/LinearAlgebra/*.cpp", "kernel/Logger.cpp"]

DGMAX = KERNEL + ["applications/DG-Max/**/*.cpp", "!applications/DG-Max/DG-Max.cpp", "!applications/DG-Max/Programs/*.cpp"]

CHECKS = {
    "C01": dict(
        runs=[dict(name="complex", config="complex", sources=LINALG, harness=["harness/c01_linalg.cpp"]),
              dict(name="real", config="real", sources=LINALG, harness=["harness/c01_linalg.cpp"])],
        rule="Random matrices and vectors of random shapes (up to 40 rows) with integer and real entries, "
             "regular matrices that need pivoting and span decades, rank deficient ones for least squares. "
             "Non-trivial: more than one row (and a non-square shape for the matrix algebra). Distinct: "
             "different choice sequences.",
    ),
    "C03": dict(
        runs=[dict(name="real", config="real", sources=KERNEL, harness=["harness/c03_basis.cpp"])],
        rule="A random set family, shape and order (all the library offers), then random points, directions and "
             "target polynomials. Non-trivial: order above one. Distinct: different choice sequences.",
    ),
    "C02": dict(
        runs=[dict(name="real", config="real", sources=KERNEL, harness=["harness/c02_quadrature.cpp"])],
        rule="A random rule or requested order and a random polynomial of at most the announced degree (a monomial, or a "
             "power of a random linear form). Non-trivial: degree above one. Distinct: different choice sequences.",
    ),
    "C05": dict(
        runs=[dict(name="real", config="real", sources=KERNEL, harness=["harness/c05_reference.cpp"])],
        rule="A random shape, one of its faces, edges or symmetries, and random points. Non-trivial: more than one "
             "dimension and, for maps, not the identity. Distinct: different choice sequences.",
    ),
    "C09": dict(
        runs=[dict(name="real", config="real", sources=KERNEL, harness=["harness/c09_meshfile.cpp"])],
        rule="A generated mesh of up to 24 elements is written as a file and read. Non-trivial: more than one element. Distinct: different choice sequences.",
    ),
    "C07": dict(
        runs=[dict(name="real", config="real", sources=KERNEL, harness=["harness/c07_faces.cpp"])],
        rule="A generated mesh; a random point on every face. Non-trivial: at least one face between two elements. Distinct: different choice sequences.",
    ),
    "C04": dict(
        runs=[dict(name="real", config="real", sources=KERNEL, harness=["harness/c04_conforming.cpp"])],
        rule="A generated mesh, orders and random coefficients; a random point on every face. Non-trivial: at least one face between two elements. Distinct: different choice sequences.",
    ),
    "C06": dict(
        runs=[dict(name="real", config="real", sources=KERNEL, harness=["harness/c06_mappings.cpp"])],
        rule="A generated mesh (all shapes, straight and curved, jittered and sheared, some periodic), a point in every element, points to be found, "
             "one to three moves of the mesh. Non-trivial: more than one dimension. Distinct: different choice sequences.",
    ),
    "C10": dict(
        runs=[dict(name="real", config="real", sources=KERNEL, harness=["harness/c10_physical.cpp"])],
        rule="A generated mesh and a history of points, elements, transforms and queries on one reused object. Non-trivial: at least two steps of the history or more than one dimension, as stated in the harness. Distinct: different choice sequences.",
    ),
    "C08": dict(
        runs=[dict(name="real", config="real", sources=KERNEL, harness=["harness/c08_integrals.cpp"])],
        rule="A generated mesh, integrands and a history of integrals with one integrator. Non-trivial: more than one step, an order above one, or more than one dimension. Distinct: different choice sequences.",
    ),
    "C11": dict(
        runs=[dict(name="real", config="real", sources=KERNEL, harness=["harness/c11_numbering.cpp"])],
        rule="A generated mesh with one to three unknowns, each with its own basis functions, and one to three numberings in one object. Non-trivial: more than one element and more than one unknown or conforming functions. Distinct: different choice sequences.",
    ),
    "C12": dict(
        runs=[dict(name="real", config="real", sources=KERNEL, harness=["harness/c12_assembly.cpp"])],
        rule="A generated mesh, one to three unknowns with their own basis functions, local matrices and vectors of random dyadic numbers and a history of reassembling, renumbering and moving coefficients. Non-trivial: more than one element. Distinct: different choice sequences.",
    ),
    "C13": dict(
        runs=[dict(name="real", config="real", sources=["kernel/Base/TimeIntegration/*.cpp", "kernel/Logger.cpp"], harness=["harness/c13_timeint.cpp"])],
        rule="A Runge-Kutta method and a random system of up to three polynomial, non-autonomous equations; random data on a ring of cells for the total variation. Non-trivial: a method of order above one (and more than one step for the total variation). Distinct: different choice sequences.",
    ),
    "C14": dict(
        runs=[dict(name="real", config="real", sources=KERNEL, harness=["harness/c14_solver.cpp"])],
        rule="A generated mesh, an order, one to three unknowns, a Runge-Kutta method and a random linear system of equations on the mesh or an advection or Poisson problem with a random polynomial solution; a history of steps, derivatives, scalings and copies. Non-trivial: more than one element and an order above zero or more than one step. Distinct: different choice sequences.",
    ),
    "C15": dict(
        runs=[dict(name="real", config="real", sources=KERNEL, harness=["harness/c15_output.cpp"])],
        rule="A generated mesh of up to 8 elements, a plotting order up to 9 and a history of scalars, vectors and tensors written to VTK, Tecplot or GNUPlot files, which are parsed by an own reader. Non-trivial: more than one element, zone or frame. Distinct: different choice sequences.",
    ),
    "C16": dict(
        runs=[dict(name="serial", config="real", sources=KERNEL, harness=["harness/c16_preprocessor.cpp"],
                   programs=[dict(name="preprocessor", config="metis",
                                  sources=["applications/Preprocessor/lib/**/*.cpp", "applications/Preprocessor/main.cpp", "kernel/Base/CommandLineOptions.cpp",
                                           "kernel/Base/MpiContainer.cpp", "kernel/Logger.cpp", "kernel/LinearAlgebra/*.cpp"],
                                  extra=["-I@REPO@/applications/Preprocessor/lib"]),
                             dict(name="surface", config="metis",
                                  sources=["applications/Preprocessor/lib/**/*.cpp", "applications/Preprocessor/extractSurface.cpp", "kernel/Base/CommandLineOptions.cpp",
                                           "kernel/Base/MpiContainer.cpp", "kernel/Logger.cpp", "kernel/LinearAlgebra/*.cpp"],
                                  extra=["-I@REPO@/applications/Preprocessor/lib"])])],
        rule="A parametrised structured mesh, or a generated mesh written as a native, gmsh or Centaur file with its zones, periodicity, node numbers and element order, and options for translations and partitions. Non-trivial: more than one element (and dimension for structured meshes). Distinct: different choice sequences.",
    ),
    "C17": dict(
        runs=[dict(name="mpi", config="real", sources=KERNEL, harness=["harness/c17_parallel.cpp"], shards=4)],
        rule="A generated mesh distributed at random over two to four MPI processes that are really started, with basis functions, layouts, matrices, equations and histories of steps or messages. Non-trivial: at least two processes own elements. Distinct: different choice sequences.",
    ),
    "C18": dict(
        runs=[dict(name="complex", config="complex", sources=DGMAX, harness=["harness/c18_harmonic.cpp"], extra=["-I@REPO@/applications/DG-Max"])],
        rule="A generated mesh of triangles or tetrahedra, materials, one of the two discretizations with random fluxes and penalties, and a history of problems with a known polynomial or layered solution, or arbitrary data and absorbing layers. Non-trivial: an order above one or several problems or layers. Distinct: different choice sequences.",
    ),
    "C19": dict(
        runs=[dict(name="complex", config="complex", sources=DGMAX, harness=["harness/c19_eigen.cpp"], extra=["-I@REPO@/applications/DG-Max"])],
        rule="A generated mesh of triangles or tetrahedra, periodic or not, materials by element, one of the two eigenvalue solvers with random options, and a path of wave vectors. Non-trivial: a periodic mesh and more than one wave vector. Distinct: different choice sequences.",
    ),
    "C20": dict(
        runs=[dict(name="complex", config="complex", sources=DGMAX, harness=["harness/c20_descriptions.cpp"], extra=["-I@REPO@/applications/DG-Max"])],
        rule="Texts of paths, structures and absorbing layers with generated numbers and names, generated meshes with zones, random wave vectors, materials, lattices, stacks and points. Non-trivial: more than one point, zone or mode, as stated in the harness. Distinct: different choice sequences.",
    ),
    "C21": dict(
        runs=[dict(name="real", config="real", sources=KERNEL, harness=["harness/c21_trees.cpp"])],
        rule="Sequences of changes to a forest, walks of iterators over it, and one refinement map with a random sub-element and points. Non-trivial: at least three levels that grew in more than one step, several roots, or more than one sub-element. Distinct: different choice sequences.",
    ),
    "C22": dict(
        runs=[dict(name="real", config="real", sources=KERNEL, harness=["harness/c22_data.cpp"])],
        rule="A generated mesh of up to 5 elements with one to three unknowns, time levels, matrices and vectors, and a history of up to 25 operations that store data on elements and faces, change the basis functions or evaluate functions. Non-trivial: more than 5 operations. Distinct: different choice sequences.",
    ),
    "C23": dict(
        runs=[dict(name="real", config="real", sources=KERNEL, harness=["harness/c23_applications.cpp"], extra=["-I@REPO@"])],
        rule="Pairs of gas states and a normal, or a generated mesh with an order, a time and random coefficients of gas or sound around a random state. Non-trivial: different states, or more than one element. Distinct: different choice sequences.",
    ),
    "C26": dict(
        runs=[dict(name="real", config="real", sources=KERNEL + ["applications/SavageHutter/HelperFunctions.cpp", "applications/SavageHutter/SavageHutter*.cpp", "applications/SavageHutter/*/*.cpp"],
                   harness=["harness/c26_granular.cpp"], extra=["-I@REPO@", "-fno-access-control"])],
        rule="A generated mesh, an order, a slope and aspect ratio, coefficients of a flow around a random depth and velocity in either direction, with dry elements or uniform; polynomials with too low values for the limiters; contractions and points. Non-trivial: more than one element and order above zero, more than one basis function, or a point inside the contraction. Distinct: different choice sequences.",
    ),
    "C27": dict(
        runs=[dict(name="real", config="real", sources=KERNEL, harness=["harness/c27_tutorials.cpp"], extra=["-I@REPO@", "-fno-access-control"])],
        rule="A generated mesh with an order, a penalty parameter, a point and a time. Non-trivial: more than one element and order above zero. Distinct: different choice sequences.",
    ),
    "C24": dict(
        runs=[dict(name="real", config="real", sources=KERNEL, harness=["harness/c24_commandline.cpp"])],
        rule="A set of registered options of all types and a command line for it, with correct or broken words, run in a process of its own; texts of points; message formats with arguments. Non-trivial: more than one word on the command line, more than one coordinate, or at least one argument of a message. Distinct: different choice sequences.",
    ),
    "C25": dict(
        runs=[dict(name="complex", config="complex", sources=DGMAX, harness=["harness/c25_timedomain.cpp"], extra=["-I@REPO@/applications/DG-Max"])],
        rule="A generated mesh of simplices, a polynomial field of the discrete space, a function of time, a method, a material and a number of steps, integrated with full, half and quarter steps; points of the sample problems; automatic step sizes. Non-trivial: more than one step. Distinct: different choice sequences.",
    ),
}
