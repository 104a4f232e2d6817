SUITES = {
    "la_small": {"sources": ["la_small.cpp"], "config": "real"},
    "la_dyn": {"sources": ["la_dyn.cpp"], "config": "real"},
    "la_dynz": {"sources": ["la_dyn.cpp"], "config": "complex"},
    "data": {"sources": ["data.cpp"], "config": "real"},
    "dataz": {"sources": ["data.cpp"], "config": "complex"},
    "geom_ref": {"sources": ["geom_ref.cpp"], "config": "real"},
    "geom_phys": {"sources": ["geom_phys.cpp"], "config": "real"},
    "fe_basis": {"sources": ["fe_basis.cpp"], "config": "real"},
    "fe_conf": {"sources": ["fe_conf.cpp"], "config": "real"},
    "quad": {"sources": ["quad.cpp"], "config": "real"},
    "coordtrans": {"sources": ["coordtrans.cpp"], "config": "real"},
    "physelem": {"sources": ["physelem.cpp"], "config": "real"},
    "integrals": {"sources": ["integrals.cpp"], "config": "real"},
    "timeint": {"sources": ["timeint.cpp"], "config": "real"},
    "mesh": {"sources": ["mesh.cpp"], "config": "real"},
    "indexing": {"sources": ["indexing.cpp"], "config": "real"},
    "assembly": {"sources": ["assembly.cpp", "petsc_contract.cpp"], "config": "real", "flags": ["-DHPGEM_USE_ANY_PETSC", "-DHPGEM_USE_PETSC", "-I/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include"], "repo_sources": ["kernel/Utilities/GlobalMatrix.cpp", "kernel/Utilities/GlobalVector.cpp"]},
    "output": {"sources": ["output.cpp"], "config": "real"},
    "preproc": {"sources": ["preproc.cpp"], "config": "real", "flags": ["-I{repo}/applications/Preprocessor/lib", "-I{repo}/applications/Preprocessor"], "repo_sources": ["applications/Preprocessor/lib/" + f for f in ("centaur.cpp", "hpgem.cpp", "gmsh.cpp", "ElementReorder.cpp", "FortranUnformattedFile.cpp", "mesh/ElementShapes.cpp", "utils/SparseUnionFind.cpp")]},
    "cmdline": {"sources": ["cmdline.cpp"], "config": "real"},
    "tree": {"sources": ["tree.cpp"], "config": "real"},
    "dgmax": {"sources": ["dgmax.cpp"], "config": "complex", "flags": ["-I{repo}/applications/DG-Max", "-DHPGEM_USE_ANY_PETSC"], "repo_sources": ["applications/DG-Max/Algorithms/DGMaxDiscretization.cpp", "applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp", "applications/DG-Max/ElementInfos.cpp"]},
    "bloch": {"sources": ["bloch.cpp", "petsc_contract.cpp"], "config": "complex", "flags": ["-DHPGEM_USE_ANY_PETSC", "-I{repo}/applications/DG-Max", "-I/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-complex/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include"], "repo_sources": ["kernel/Utilities/GlobalMatrix.cpp", "applications/DG-Max/Utils/KPhaseShift.cpp", "applications/DG-Max/Utils/MatrixBlocks.cpp", "applications/DG-Max/Utils/FaceKPhaseShiftBuilder.cpp", "applications/DG-Max/Utils/CGDGMatrixKPhaseShiftBuilder.cpp"]},
    "dgfields": {"sources": ["dgfields.cpp"], "config": "complex", "flags": ["-I{repo}/applications/DG-Max", "-DHPGEM_USE_ANY_PETSC"], "repo_sources": ["applications/DG-Max/ElementInfos.cpp", "applications/DG-Max/ProblemTypes/Harmonic/InterfaceReflectionField.cpp", "applications/DG-Max/ProblemTypes/Harmonic/SampleHarmonicProblems.cpp", "applications/DG-Max/ProblemTypes/Harmonic/TrenchReflectionProblem.cpp", "applications/DG-Max/ProblemTypes/Time/SampleTestProblems.cpp"]},
    "physface": {"sources": ["physface.cpp"], "config": "real"},
    "dist": {"sources": ["dist.cpp", "mpi/mpi_contract.cpp"], "config": "mpi"},
}
PROPERTIES = {
    "P01": {"suites": ["la_small"],
            "note": "proved for all entry values at dimensions 1..4 (the dimensions the library instantiates); real arithmetic instead of IEEE doubles; LAPACK/BLAS kernels by assumed contract"},
    "P02": {"suites": ["la_dyn", "la_dynz", "data", "dataz"], "level": "exploration", "note": "bounded: sizes, numbers of unknowns and functions enumerated; entries symbolic, real and complex configuration; LAPACK/BLAS by assumed contract (engine/blas_contract.cpp)"},
    "P03": {"suites": ["geom_ref"], "cases": "(shape|inside|face|edge)_", "note": "for all points; shapes, faces and edges are finite enumerations; real arithmetic"},
    "P04": {"suites": ["geom_phys"], "cases": "phys_", "note": "for all node coordinates and points; hypercube for parallelotopes only; inverse maps within the code's Newton tolerance where not affine"},
    "P05": {"suites": ["geom_ref", "geom_phys"], "cases": "(orient|selfmap|concat|trace)_", "note": "for all points, coordinates and orientations; two known findings (quarter-turned quadrilaterals)"},
    "P06": {"suites": ["fe_basis"], "cases": "(deriv|curl|poly)_", "note": "for all points; every set the factories produce for orders 1..5 (vector valued 1..4)"},
    "P07": {"suites": ["fe_basis"], "cases": "span_", "note": "span proved by exhibiting coefficients (solved numerically) and proving the identity for all points to 1e-6 relative; orders 1..5"},
    "P15": {"suites": ["fe_conf"], "cases": "(support|conf)_", "note": "for all points of the face, all orientations; one known finding (quarter-turned quadrilaterals, order >= 3)"},
    "P08": {"suites": ["quad"], "note": "exactness: every monomial up to the advertised order (linearity gives all polynomials), to 1e-12; cached evaluation for arbitrary (uninterpreted) basis functions and the histories first use/other set/other map/recycled address"},
    "P09": {"suites": ["coordtrans"], "note": "for all Jacobians, arbitrary (uninterpreted) physical fields, affine and quadratic maps; dimensions 1..3"},
    "P11": {"suites": ["physface"], "note": "arbitrary (uninterpreted) basis functions, arbitrary transformations and solution data; 1D and triangle: all coordinates and points, others one distorted configuration each; boundary, internal, shifted and rotated periodic faces; induction over the mutating operations; numbers of functions enumerated"},
    "P12": {"suites": ["integrals"], "note": "arbitrary integrands, basis functions and transformations; all rules requested, elements of all shapes (affine ones with all coordinates), sequences of integrations"},
    "P10": {"suites": ["physelem"], "note": "for all points, coordinates (3D non-affine shapes: one distorted element), arbitrary basis functions and transformations; induction over the mutating operations; numbers of unknowns and functions enumerated"},
    "P13": {"suites": ["timeint"], "note": "tableaux: all order conditions; steps: arbitrary (uninterpreted) right-hand sides, mass solves and values; meshes, numbers of unknowns and functions enumerated (bounded)"},
    "P16": {"suites": ["indexing"], "level": "exploration", "note": "bounded: enumerated meshes (17, all shapes, permuted local numberings), four assignments of functions to three unknowns, all layouts, subsets of unknowns and histories; exhaustive within those, not proved for all meshes"},
    "P18": {"suites": ["assembly"], "level": "exploration", "note": "bounded: enumerated meshes, assignments and subsets of unknowns; all matrix and vector entries symbolic. PETSc by assumed contract (contracts/petsc_contract.cpp, compiled against the real PETSc headers)"},
    "P17": {"level": "exploration", "suites": ["mesh"], "cases": "(mesh|conforming|dg_|mixedfamily)", "note": "mesh connectivity enumerated (bounded): 17 meshes of all shapes with rotated and renumbered elements; points, moved coordinates symbolic"},
    "P20": {"suites": ["dgmax"], "level": "exploration", "note": "bounded: enumerated meshes (2D, 3D, periodic, permuted numberings), orders 1..2, fluxes and boundary conditions; materials, sources, boundary data and coefficients symbolic (complex); absorbing layers for all points. Quadrature rules and basis functions of the real library"},
    "P21": {"suites": ["output"], "level": "exploration", "note": "bounded: enumerated meshes (all shapes), orders and sequences of writes; files of the real writers read back"},
    "P22": {"suites": ["tree"], "level": "exploration", "note": "bounded: all ordered forests with up to six entries (entries on several levels: up to five), every operation applied to each"},
    "P23": {"suites": ["preproc"], "level": "exploration", "note": "bounded: enumerated meshes (all shapes, periodic, sheared, second order, permuted numberings), file formats and distributions over 1..4 partitions; files read by the real readers, written by the real writer and parsed here"},
    "P24": {"suites": ["cmdline"], "level": "exploration", "note": "bounded: all subsets, orders and forms of four options, enumerated values and malformed lines"},
    "P26": {"suites": ["bloch"], "level": "exploration", "note": "bounded: enumerated periodic meshes (2D, 3D, simplices and boxes, shuffled numberings, at least three elements per period), orders, layouts; matrix entries symbolic for fixed wave vectors, wave vectors symbolic (cos of the phases not zero) for fixed entries. PETSc by assumed contract"},
    "P25": {"suites": ["dgfields"], "note": "for all points, times, frequencies, positive materials, complex amplitudes; normals of interfaces, wave counts and meshes for boundary conditions enumerated"},
    "P14": {"suites": ["geom_phys"], "cases": "(normal|fdiam|ediam)_", "note": "normals proved for all coordinates; diameters proved in 1D/2D, 3D and curved diameters sampled (bounded, not counted as proved)"},
    "P27": {"suites": ["dist"], "level": "exploration", "note": "bounded: enumerated meshes, distributions over 1..4 processes and schedules; concrete values; MPI by assumed executable contract (contracts/mpi/mpi_contract.cpp): ranks are processes of their own"},
}
