G = "kernel/Geometry/"
F = "kernel/FE/"
prop("P03", "Reference shapes and their faces and edges fit together",
     "For every reference shape (point, line, triangle, square, tetrahedron, cube, prism, pyramid, hypercube) and every point: isInternalPoint accepts exactly the points of the shape, the centre lies inside, every face and edge mapping sends the reference face/edge onto the face/edge of the shape whose nodes the shape reports for it (nodes to nodes, in order), transformed points of the reference face satisfy the equation of the face, the Jacobian of every face/edge mapping is the derivative of the mapping, and the node, edge and face tables are consistent with each other. Out-of-range indices are rejected.",
     ["inputs"], "all points of the reference space, all shapes, all faces and edges",
     "tests evaluate the mappings in a few points; a wrong table entry for one face of one shape only shows up for meshes that use that face",
     [G + "ReferenceGeometry.h", G + "ReferenceCube.cpp", G + "ReferencePyramid.cpp", G + "ReferenceTriangularPrism.cpp", G + "ReferenceTetrahedron.cpp", G + "Mappings/"],
     [("isInternalPoint / getCodim{1,2,3}EntityLocalIndices / getCodim1MappingPtr", G + "Reference*.cpp"), ("transform / calcJacobian of MappingTo*", G + "Mappings/*.cpp")])
prop("P04", "Reference-to-physical maps interpolate the nodes, with exact Jacobian",
     "For every shape and every choice of physical node coordinates, the reference-to-physical mapping of an element interpolates the nodes (node i of the reference shape goes to node i of the element, straight edges and faces stay straight, the isoparametric shape functions are used in between), calcJacobian is the exact derivative of transform in every point, also after the nodes move and reinit is called, and the inverse map (physical to reference) returns the reference point it came from. Hypercube elements are restricted to parallelotopes, as documented.",
     ["inputs", "history"], "all node coordinates, all reference points, every shape and physical dimension, before and after nodes move",
     "tests check a few fixed elements; curved (non-affine) elements, stale coefficients after moving nodes and single wrong entries of a Jacobian need symbolic coordinates",
     [G + "Mappings/MappingToPhys*.h", G + "ElementGeometry.h", G + "PhysicalGeometry_Impl.h"],
     [("transform / calcJacobian / reinit / inverseTransform", G + "Mappings/MappingToPhys*_Impl.h"), ("referenceToPhysical / calcJacobian / physicalToReference", G + "ElementGeometry.cpp")])
prop("P05", "Both sides of a face see the same physical point for all orientations",
     "For every pair of adjacent elements, every pair of local faces and every relative orientation of the shared face: the orientation index determined from the node numbers selects the self-mapping of the reference face that matches the nodes, that self-mapping has the right Jacobian and is a bijection of the reference face, and mapping a point of the reference face to the left and to the right element and then to physical space gives one and the same physical point (traces of both elements are evaluated in the same place). Concatenated mappings are the composition of their parts, with the chain-rule Jacobian.",
     ["inputs", "configurations"], "all points of the face, all pairs of shapes and local faces, all relative orientations, all node coordinates",
     "orientation cases depend on the mesh generator; the meshes in the tests realise only a few of the 8 square and 6 triangle orientations",
     [G + "FaceGeometry.cpp", G + "FaceGeometry.h", G + "ReferenceSquare.cpp", G + "ReferenceTriangle.cpp", G + "Mappings/"],
     [("FaceGeometry::initialiseFaceToFaceMapIndex, mapRefFaceToRefElemL/R, refFaceToRefFace", G + "FaceGeometry.cpp"), ("getCodim0MappingIndex / getCodim0MappingPtr", G + "Reference*.cpp"), ("ConcatenatedMapping", G + "Mappings/ConcatenatedMapping.h")])
prop("P06", "Basis functions' derivatives, gradients and curls are the true ones",
     "For every basis function set the library can create (H1 DG, conforming, Nedelec, Ainsworth-Coyle; every shape and order), every function and every point of the reference element: evalDeriv0/1/2 and evalDeriv are the partial derivatives of eval, evalCurl is the curl of the vector-valued eval, and the one-dimensional Legendre/Lobatto polynomials are the polynomials they are named after with their exact derivative. Set sizes and index checks are consistent.",
     ["inputs"], "all points of the reference element, all functions of all sets (shapes x orders 1..5)",
     "tests compare a finite difference in a few points with loose tolerance; errors of high-order functions or of one orientation stay below it or are not sampled",
     [F + "BasisFunctions*.cpp", F + "BasisFunctionSet.h", F + "BasisFunctions3DNedelec.cpp", F + "BasisFunctions3DAinsworthCoyle.cpp", F + "helperFunctions.cpp"],
     [("eval / evalDeriv / evalCurl of each basis function class", F + "BasisFunctions*.cpp"), ("LegendrePolynomial, LobattoPolynomial", F + "helperFunctions.cpp")])
prop("P07", "Basis function sets of order p span the polynomials of degree p",
     "Every H1 basis set of order p (DG and the union of the conforming interior, face, edge and vertex functions) has the dimension of, and spans, the full polynomial space of its shape (P_p on lines, triangles, tetrahedra; Q_p on squares and cubes; P_p x P_p on prisms; P_1 for the order-1 pyramid); the Nedelec set of order p contains all vector polynomials of degree p-1 and the Ainsworth-Coyle set those of degree p. So every polynomial of that degree is represented exactly and the functions are linearly independent.",
     ["inputs", "configurations"], "every monomial of the space, every shape, every order 1..5 (vector-valued 1..4), all points",
     "a missing or duplicated function only lowers the convergence order; the tests check no completeness",
     [F + "BasisFunctions*.cpp", F + "BasisFunctionSet.h"],
     [("createDGBasisFunctionSet*, create*BasisFunctionSet*", F + "BasisFunctions*.cpp")])
prop("P14", "Face normals and diameters are geometrically correct",
     "For every element shape and all node coordinates, getNormalVector of a face is orthogonal to the face's tangents, points out of the left element and has length equal to the surface measure of the face map; getDiameter of an element is the largest distance between points of the element and that of a face the largest distance within the face, also for the degenerate one-dimensional case.",
     ["inputs"], "all node coordinates (simplices, quadrilaterals; 3D and curved diameters: sampled, labelled bounded), all faces",
     "tests use axis-aligned unit shapes where sign and scaling errors cancel",
     [G + "FaceGeometry.h", G + "ElementGeometry.h", G + "FaceGeometry.cpp"],
     [("FaceGeometry::getNormalVector / getDiameter", G + "FaceGeometry.cpp"), ("ElementGeometry::getDiameter", G + "ElementGeometry.cpp")])
prop("P15", "Conforming functions are continuous across shared faces, any orientation",
     "For two elements of the same or different shape sharing a face in any relative orientation, the conforming sets selected by the orientation index give matching functions: vertex, edge and face functions of both elements coincide in every point of the shared face (same number, same order, same sign), interior functions vanish on the boundary, face functions on the other faces, edge functions on faces without the edge, vertex functions are nodal, and every entity carries the number of functions its order prescribes.",
     ["inputs", "configurations"], "all points of the face, all shapes, local faces, relative orientations and orders 1..5",
     "a sign or ordering error only appears for an orientation and an order >= 3 that the test meshes do not produce",
     [F + "BasisFunctions2DH1Conforming*.cpp", F + "BasisFunctions3DH1Conforming*.cpp", F + "OrientedBasisFunctionSet.h"],
     [("create{Interior,Vertex,Edge,Face}BasisFunctionSet*", F + "BasisFunctions*Conforming*.cpp"), ("OrientedBasisFunctionSet::checkOrientation", F + "OrientedBasisFunctionSet.h")])

I = "kernel/Integration/"
prop("P08", "Quadrature rules are as exact as advertised; cached evaluations are fresh",
     "For every reference shape and every order p with a rule, AllGaussQuadratureRules::getRule returns a rule that belongs to that shape and has at least the requested order (the cheapest registered one), whose points lie in the shape, whose weights and points integrate every polynomial up to the advertised order exactly (per-coordinate degree for line, square, cube and hypercube, total degree otherwise); orders without a rule are rejected; curved elements get at least order p+1. The values, gradients, curls and divergences of basis functions that a rule caches (on the element and through a face mapping) equal the function's own value in that quadrature point, for every basis function set, every face mapping and every history of earlier requests, also after a set has been destroyed and another one lives at its address.",
     ["inputs", "history"], "every shape, every order, every monomial up to the order; arbitrary (uninterpreted) basis functions, all faces and orientations, first use / other set / recycled set",
     "tests integrate a few basis functions with loose tolerance; one wrong digit of one weight or a stale cache entry only degrades accuracy",
     ["kernel/Integration/QuadratureRules/"],
     [("AllGaussQuadratureRules::getRule/addRule", "kernel/Integration/QuadratureRules/AllGaussQuadratureRules.cpp"), ("getPoint / weight / order of each rule", "kernel/Integration/QuadratureRules/GaussQuadratureRulesFor*.cpp"), ("GaussQuadratureRule::eval / evalGrad / evalCurl / evalDiv", "kernel/Integration/QuadratureRules/GaussQuadratureRule.cpp")])
B = "kernel/Base/"
prop("P09", "Coordinate transformations carry values and derivatives to physical space",
     "For every nonsingular Jacobian, affine or curved, the function transformations turn reference data into that of the same physical function: the H1 transformation keeps values and turns the reference gradient into the physical gradient; the H(curl) transformation recovers a vector field and its curl from the covariantly pulled-back field; the H(div) transformation recovers a vector field and its divergence from the contravariantly pulled-back field; the identity transformation returns its input. Operations a transformation does not define are rejected; the transformation data keep Jacobian, transpose and determinant consistent.",
     ["inputs"], "all nonsingular Jacobians, arbitrary (uninterpreted) physical functions, affine and quadratic coordinate maps, dimensions 1..3",
     "tests solve problems on axis-aligned meshes, where transposed, inverted or missing determinant factors of the Jacobian cancel",
     [B + "H1ConformingTransformation.h", B + "HCurlConformingTransformation.h", B + "HDivConformingTransformation.h", B + "IdentityTransformation.h", B + "CoordinateTransformationData.h"],
     [("transform / transformDeriv / transformCurl / transformDiv", B + "*Transformation.h"), ("ValueCoordinateTransformationData::setJacobian", B + "CoordinateTransformationData.h")])
prop("P10", "A physical element always shows its current element, point and transform",
     "After any sequence of setElement, setPointReference, setQuadratureRule, setQuadraturePointIndex, setTransformation and changes of the solution data, every getter of PhysicalElement (basis functions, gradients, curls, divergences, solution and its gradient, Jacobian, inverse transpose, determinant, physical and reference point, result matrix/vector) returns the value of the current element, unknown, point and transformation, independent of which getters were called earlier and in which order. Each unknown uses its own basis functions and transformation; the solution is the expansion in them; results handed out for accumulation start from zero.",
     ["history", "inputs"], "every preceding state (induction over operations), all points and coordinates, arbitrary basis functions and transformations, one and two unknowns with equal or different sizes",
     "the object caches everything lazily; a missing invalidation shows only for a particular order of calls",
     [B + "PhysicalElement.h", B + "PhysicalElement_Impl.h", B + "Element.cpp", "kernel/Base/LazyCached.h"],
     [("PhysicalElement::basisFunction*, getSolution*, get*", B + "PhysicalElement_Impl.h"), ("LazyCached / LazyVectorCached", "kernel/Base/LazyCached.h")])
prop("P11", "A physical face shows both traces, normals and signs of its current face",
     "After any sequence of setFace, setPointReference, setQuadratureRule, setQuadraturePointIndex, setTransform and changes of the solution data, every getter of PhysicalFace returns what the current face prescribes: traces of the left functions first and of the right functions after them, evaluated in the same face point from both elements; the normal is outward for the left element, its product with a function changes sign on the right; unit normals have length one; on rotated periodic faces vectors of the right element are rotated to the left; solution traces belong to the requested side; combined indices and sides agree with Face; accumulated results start from zero. This holds for boundary, internal, shifted and rotated periodic faces and for unknowns with different numbers of functions.",
     ["history", "inputs", "configurations"], "every preceding state (induction over operations), face kinds, faces of lines, triangles, quadrilaterals, tetrahedra, cubes and prisms, arbitrary basis functions and transformations",
     "left/right and unknown bookkeeping is symmetric in the one-unknown conforming test meshes, so a mixed-up index or stale cache is invisible there",
     [B + "PhysicalFace.h", B + "PhysicalFace_Impl.h", B + "Face.cpp", B + "Face.h"],
     [("PhysicalFace::basisFunction*, getSolution*, get*Normal*", B + "PhysicalFace_Impl.h"), ("Face::convertToSingleIndex / getSide / getElementBasisFunctionId", B + "Face.cpp")])
prop("P12", "Element and face integrals are quadrature sums with the right measure",
     "For every integrand and rule, ElementIntegral::integrate returns the sum over the quadrature points of weight times |det J| times the integrand in that point, and FaceIntegral::integrate (and integratePair) the sum of weight times the length of the normal times the integrand, for all result types (scalars, vectors, matrices, face matrices), for one evaluator used for many elements, faces and rules in any order, with old and new style integrands. Rules chosen by default integrate products of the basis functions of the adjacent elements exactly, also after the basis of one element is changed.",
     ["inputs", "history"], "arbitrary integrands, basis functions and transformations, all shapes, rules of orders 1.., sequences of integrations",
     "tests integrate few functions on regular meshes; weights or Jacobians applied twice, skipped points or a stale rule only change accuracy there",
     ["kernel/Integration/ElementIntegral.h", "kernel/Integration/ElementIntegral_Impl.h", "kernel/Integration/FaceIntegral_Impl.h", B + "Element.cpp", B + "Face.cpp"],
     [("ElementIntegral::integrate", "kernel/Integration/ElementIntegral_Impl.h"), ("FaceIntegral::integrate / integratePair", "kernel/Integration/FaceIntegral_Impl.h"), ("default rules", B + "Element.cpp, " + B + "Face.cpp")])
prop("P13", "Time integration: tableaux of their order, steps and time loop as specified",
     "Every Runge-Kutta tableau satisfies all order conditions of its advertised order, stage times are the row sums, embedded error coefficients are the difference with a method of one order less, and TVD methods are convex combinations of forward Euler steps; getRule returns the method asked for or rejects the request. For every right-hand side, mass solve, solution and step size, one step of the simplified (and linear) interface is exactly that Runge-Kutta step of the semi-discrete system: the right-hand side of an element is its element term plus the terms of its faces, each evaluated once with the traces of both sides, the stage values and the stage times; all other vectors stay unchanged. Adaptive steps redo a rejected step from the old solution, never exceed the maximum and advance the time by the accepted step. The initial solution is the L2 projection; total and maximum errors are those norms. solve covers exactly [initial time, final time] with steps of at most dt and writes the requested, equidistant frames.",
     ["inputs", "history"], "arbitrary (uninterpreted) right-hand sides, matrices and values, all seven methods; meshes with internal, boundary and periodic faces, numbers of unknowns and functions enumerated (bounded)",
     "tests integrate smooth linear problems on fine meshes with loose error bounds: a wrong stage time or coefficient of an autonomous problem, a stale stage or an overshoot of the final time does not show",
     [B + "TimeIntegration/", B + "HpgemAPISimplified_Impl.h", B + "HpgemAPILinear_Impl.h", B + "HpgemAPIBase_Impl.h"],
     [("getA / getB / getC / getErrorCoefficient", B + "TimeIntegration/*.cpp"), ("computeOneTimeStep, computeRightHandSide, computeTimeDerivative, setInitialSolution, computeTotalError, solve", B + "HpgemAPISimplified_Impl.h"), ("multiplyStiffnessMatrices, addSourceTerm, createStiffnessMatrices", B + "HpgemAPILinear_Impl.h")])
M = "kernel/Base/"
prop("P17", "Mesh files and basis assignments give one consistent, conforming mesh",
     "Reading a mesh file gives exactly the mesh it describes: every element has the nodes, coordinates and shape of the file, in the file's order; every pair of elements sharing a codimension-1 entity shares exactly one Face object (the unpaired sides are boundary faces), edges and nodes are unique and their incidence lists are complete and mutually inverse, local numbers point at the entity they claim, the right element of a face sees the same physical points as the left one and normals point outward, periodic entities are identified. This holds for every admissible local node numbering (rotated and mirrored copies), mixed shapes, 1D-3D. MeshMover moves every node once. Malformed files and impossible requests are rejected. After any assignment of default DG, conforming, Nedelec, Ainsworth-Coyle or monomial functions (each unknown its own, repeatedly), the counts of local basis functions on elements, faces, edges and nodes agree, all functions of a conforming space are globally continuous, the numbers match the dimension of the space, and the default quadrature rules of elements and faces integrate the products of all functions on them.",
     ["inputs", "configurations", "history"], "arbitrary node coordinates where the file allows, enumerated meshes of all shapes with permuted local numberings, orders 1..3 and sequences of assignments (bounded)",
     "the test meshes come from one generator with one local numbering; topology, orientation and count errors need other numberings, mixed shapes or a second assignment",
     [M + "MeshManipulator_Impl.h", M + "MeshManipulatorBase.h", M + "Mesh_Impl.h", M + "Element.cpp", M + "Face.cpp", M + "Edge.cpp", M + "Node.cpp", M + "MeshFileInformation.h"],
     [("readMesh / faceFactory / edgeFactory / useDefault*BasisFunctions / move", M + "MeshManipulator_Impl.h"), ("setQuadratureRulesWithOrder, basis function bookkeeping", M + "Element.cpp, " + M + "ElementBasisFunctions.cpp")])
U = "kernel/Utilities/"
prop("P16", "Degrees of freedom are numbered without gaps, overlaps or stale entries",
     "For every mesh, assignment of basis functions, subset of unknowns and layout, GlobalIndexing numbers the basis functions on elements, faces, edges and nodes by a bijection to [0, n) that follows the layout (sequential per entity, or blocked per unknown); the index lists of elements and faces contain the functions in exactly the order of the element's (left then right element's) basis functions, also when the vectors handed in were used before; the global-to-local map is its inverse; and the index after reset equals that of a fresh object, whatever mesh, layout, subset or basis it served before (reset to no mesh empties it). Element- and face-local indexing place every included unknown contiguously, report excluded ones as absent, and after any sequence of changes of element, face or unknowns equal a fresh object. The sparsity estimate of every row is exactly the number of columns its element and (selected) face couplings can touch. Impossible requests are rejected.",
     ["inputs", "configurations", "history"], "enumerated meshes (1D-3D, mixed shapes, periodic, permuted numberings), assignments, subsets of three unknowns, layouts and sequences of changes (bounded)",
     "tests look at one mesh, one layout and fresh objects; duplicates or stale offsets only corrupt runs that reset, use subsets or mix conforming and discontinuous unknowns",
     [U + "GlobalIndexing.h", U + "GlobalIndexing.cpp", U + "ElementLocalIndexing.cpp", U + "FaceLocalIndexing.cpp", U + "FaceLocalIndexing.h", U + "SparsityEstimator.cpp", U + "Table2D.h"],
     [("GlobalIndexing::reset / getGlobalIndex / getGlobalIndices / globalToProcessorLocalIndex", U + "GlobalIndexing.cpp"), ("ElementLocalIndexing::reinit", U + "ElementLocalIndexing.cpp"), ("FaceLocalIndexing::reinit", U + "FaceLocalIndexing.cpp"), ("SparsityEstimator::computeSparsityEstimate", U + "SparsityEstimator.cpp")])
prop("P18", "Global matrices and vectors are the sum of element and face contributions",
     "For every mesh, basis assignment, layout and (different) row and column subsets of unknowns, each entry of an assembled GlobalPetscMatrix equals the sum of the element and face matrix entries of exactly the basis functions the row and column index stand for, each contribution counted once; nothing else is nonzero, and the reserved space suffices for every entry, also with a given face coupling. The same holds for GlobalPetscVector. Assembling again, or reinit after the index, the basis or the mesh changed (or disappeared), gives the matrix and vector of the current state; all PETSc objects are released. Collecting a vector from the time integration vectors of the elements and writing it back transfer every coefficient to its own place, for all or one unknown, and leave the rest unchanged. getMatrixBCEntries lists the functions on a face, its edges and nodes. The steady state solver hands the negated stiffness matrix and the source terms to the linear solver and returns its solution to the elements.",
     ["inputs", "configurations", "history"], "arbitrary (symbolic) matrix and vector entries; enumerated meshes, assignments, subsets, layouts and histories (bounded)",
     "tests solve one-unknown problems on one mesh; mixed-up rows and columns, double-counted faces or stale entries cancel or vanish there by symmetry",
     [U + "GlobalMatrix.cpp", U + "GlobalMatrix.h", U + "GlobalVector.cpp", U + "GlobalVector.h", B + "HpgemAPILinearSteadyState_Impl.h", B + "FaceMatrix.cpp"],
     [("GlobalPetscMatrix::assemble / reinit, GlobalMatrix::getMatrixBCEntries", U + "GlobalMatrix.cpp"), ("GlobalPetscVector::assemble / constructFromTimeIntegrationVector / writeTimeIntegrationVector", U + "GlobalVector.cpp"), ("solveSteadyStateWithPetsc", B + "HpgemAPILinearSteadyState_Impl.h")])
L = "kernel/LinearAlgebra/"
prop("P02", "Dense matrices, vectors and stored element/face data behave exactly",
     "In the real and the complex configuration, MiddleSizeVector and MiddleSizeMatrix compute what their operations denote for all entries (sums, products with the right transposition and without conjugation, column-major access, concatenation, resize, norms, strict total order, isHermitian, wedge product orthogonal to the columns with Gram length; solve, pseudoSolve, inverse, LU, Cholesky and triangular solves on either side with any transposition satisfy their defining equations) and leave their operands unchanged. The data stored on elements and faces behaves as independent cells: a value written for one time level, time-integration vector, unknown, basis function, matrix or vector id is read back unchanged through every accessor (by datum, per unknown, whole vector, matrix block or entire face matrix), no other cell changes, copies are independent, and sizes follow the number of basis functions; the functions of an element are numbered place by place.",
     ["inputs", "configurations", "history"], "arbitrary (symbolic) real and complex entries; sizes 0..4 (numeric solves up to 7), unknowns with different numbers of functions, every mutating operation applied to an arbitrary filled state (bounded sizes)",
     "tests use square 2x2 matrices, one unknown and equal numbers of functions, where transposition, stride, conjugation and offset errors cancel",
     [L + "MiddleSizeMatrix.cpp", L + "MiddleSizeVector.cpp", B + "ElementData.cpp", B + "FaceData.cpp", B + "FaceMatrix.cpp", B + "ElementBasisFunctions.cpp"],
     [("MiddleSizeVector / MiddleSizeMatrix operators, solve, inverse, cholesky, solveLowerTriangular, pseudoSolve", L + "MiddleSizeMatrix.cpp"), ("ElementData::set*/get*, convertToSingleIndex", B + "ElementData.cpp"), ("FaceMatrix, FaceData", B + "FaceMatrix.cpp"), ("ElementBasisFunctions::getBasisFunctionSetAndIndex / getBasisFunctionOffset", B + "ElementBasisFunctions.cpp")])
A = "applications/DG-Max/"
prop("P20", "DG-Max assembles its weak formulations and evaluates the discrete fields",
     "For arbitrary complex, anisotropic and varying materials, sources, boundary data and boundary conditions, DGMaxDiscretization and DivDGMaxDiscretization compute, on every element, internal, boundary and periodic face, exactly the matrices and vectors of their weak formulations: mass, curl-curl stiffness, divergence coupling, consistency and penalty terms (interior penalty or lifted, per flux), impedance terms, projection, source and boundary vectors; vectors without data are zero, and rescaling with the inverse mass matrix or its Cholesky factor is the same problem in other coefficients. From the coefficients they evaluate field, curl, material, potential, energy flux and energy through each side of a face, field integrals, and L2 and H(curl) errors as the norms they denote; the files written show the fields of the coefficients asked for. The absorbing layers (PMLElementInfos) are the complex coordinate stretching they are documented to be.",
     ["inputs", "configurations"], "arbitrary (symbolic) complex materials, sources, data and coefficients, all layer directions and points; enumerated meshes in 2D and 3D with permuted numberings, orders 1 and 2, flux choices and boundary conditions (bounded). The lifted normal penalty for Hermitian materials",
     "the tests compare a few eigenvalues and convergence rates with real scalar materials, where conjugation, anisotropy, side and offset errors cancel",
     [A + "Algorithms/DGMaxDiscretization.cpp", A + "Algorithms/DivDGMaxDiscretization.cpp", A + "ElementInfos.cpp", A + "PMLElementInfos.h", A + "Material.h"],
     [("computeElementIntegrals / computeFaceIntegrals, faceMatrix, faceVector, computeFields, computeEnergyFluxes, computeFieldL2Integral, computeError", A + "Algorithms/DGMaxDiscretization.cpp"), ("the same, lifted fluxes", A + "Algorithms/DivDGMaxDiscretization.cpp"), ("PMLElementInfos", A + "PMLElementInfos.h")])
O = "kernel/Output/"
prop("P21", "Output files describe exactly the mesh and the data they were given",
     "For every mesh and order, the files of the VTK writers (binary .vtu, .pvtu, .pvd) are well formed and, read back by the VTK conventions, contain every element once with its shape, its points in VTK's (Lagrange) order at their physical coordinates, and for every scalar, vector and tensor given the value of the function in that point of that element, with the declared number of components and offsets; time dependent output lists every time once with its own file. The Tecplot and GNUPlot writers write every element as the brick, quadrilateral or segment of its nodes with the data of that node, in the order the format prescribes. The base64 encoding decodes to the bytes it was given for every length.",
     ["inputs", "configurations", "history"], "enumerated meshes of all shapes with permuted numberings, orders 1..9 (1..6 in 3D), sequences of writes, all pairs of adjacent bytes (bounded)",
     "tests at most compare output with a stored file of a low order on one mesh; a permuted point or wrong offset only shows in a viewer",
     [O + "VTKSpecificTimeWriter_Impl.h", O + "VTKTimeDependentWriter_Impl.h", O + "VTKLagrangeTriangle.cpp", O + "VTKLagrangeTetrahedron.cpp", O + "VTKLagrangeQuadrilateral.cpp", O + "VTKLagrangeHexahedron.cpp", O + "VTKStandardElements.cpp", O + "TecplotDiscontinuousSolutionWriter_Impl.h", O + "TecplotPhysicalGeometryIterator.cpp", O + "GNUPlotDiscontinuousSolutionWriter_Impl.h", O + "base64.cpp"],
     [("VTKSpecificTimeWriter::write*", O + "VTKSpecificTimeWriter_Impl.h"), ("VTKTimeDependentWriter", O + "VTKTimeDependentWriter_Impl.h"), ("VTKElement orderings", O + "VTK*.cpp"), ("TecplotPhysicalGeometryIterator, write", O + "TecplotDiscontinuousSolutionWriter_Impl.h"), ("toBase64", O + "base64.cpp")])
prop("P22", "The element hierarchy is traversed completely, once and in its order",
     "For every forest that is built in any order of additions, erasures and refills, LevelTree reports the entries' level, parent, siblings and children, its size and number of levels; the pre-order, post-order and all-level traversals visit every entry exactly once in that order, a single-level traversal visits exactly the entries present on that level (also entries that extend over several levels), forward, backward and through const access; a step back undoes a step, also past the end, the traversal begins where begin* says, and changing the traversal method of an iterator continues from the same entry (or the end).",
     ["inputs", "history"], "all ordered forests with up to six entries, erasure and addition at every entry, filling to every level (bounded)",
     "tests walk one regular tree; forests of uneven depth or traversal past the end of a short branch do not occur there",
     [B + "LevelTree.h", B + "LevelTree_Impl.h", B + "TreeIterator.h", B + "TreeEntry.h"],
     [("LevelTree::begin / end / addChild / eraseChilds / fillToLevel", B + "LevelTree_Impl.h"), ("TreeIterator::operator++ / operator--", B + "TreeIterator.h")])
R = "applications/Preprocessor/lib/"
prop("P23", "The preprocessor writes exactly the mesh that was described to it",
     "For every mesh described in a Gmsh file (any dense or sparse, ordered or unordered node tags, with or without tags and physical names, linear and second order elements, periodic sections), a Centaur file (all element types, linear and second order, with and without zones), a structured description (rectangular or triangular, any combination of periodic directions, at least three cells in a periodic one) or an hpGEM mesh file, the preprocessor builds and writes the same mesh: every element once with its shape, its nodes in hpGEM's local numbering at the given coordinates and its zone name; every node, edge and face once, with exactly the elements that contain it and its local number in each; coordinates of entities that are periodic images (equal up to the translation, also in sheared domains) belong to one node, and faces and edges are merged accordingly, others never. Incidence lists between entities of any two dimensions are complete and mutually inverse, copies of a mesh are equal and independent, merging nodes gives the quotient mesh. For every distribution of the elements over partitions, each partition is listed with exactly its own elements and the shadow elements sharing a node with them, and entities on several partitions name each. ExtractSurface writes the side of a mesh at a given position as the mesh of its faces. Files that do not follow the format are refused.",
     ["inputs", "configurations"], "enumerated meshes of all shapes (1D-3D, mixed, periodic, sheared, second order) with permuted local and global numberings, formats and options, distributions over 1..4 partitions (bounded)",
     "the tests read a handful of well ordered files; sparse or unordered tags, later element types with zones, permuted corners, partition boundaries and periodic corners do not occur in them",
     [R + "gmsh.cpp", R + "gmsh.h", R + "centaur.cpp", R + "hpgem.cpp", R + "MeshFactory.h", R + "ElementReorder.cpp", R + "TransformationConnector.h", R + "MergePlan.h", R + "output_impl.h", R + "mesh/MeshImpl/Mesh_Impl.h", R + "mesh/MeshImpl/Element_Impl.h", R + "mesh/MeshImpl/MeshEntity_Impl.h", R + "mesh/elementShape_impl.h", R + "mesh/ElementShapes.cpp", R + "utils/SparseUnionFind.cpp"],
     [("GmshReader", R + "gmsh.cpp"), ("CentaurReader", R + "centaur.cpp"), ("HpgemReader", R + "hpgem.cpp"), ("fromMeshSource", R + "MeshFactory.h"), ("translationConnect", R + "TransformationConnector.h"), ("MergePlan", R + "MergePlan.h"), ("Mesh / MeshEntity / Element", R + "mesh/MeshImpl/"), ("ElementShape", R + "mesh/elementShape_impl.h"), ("outputMesh", R + "output_impl.h")])
prop("P24", "Command line options get exactly the values given, or the line is refused",
     "For every set of registered options and every command line, in any order and in long, short and combined form, each option has the value of its last occurrence (converted exactly, negative numbers and values that look like options included) or else its default, and isUsed tells which; the first registration of a name is the one that is served. Everything after a lone -- is left to the libraries, preceded by the program name. Unknown or stray arguments, missing values, text that is not entirely a number of the option's type and range, and missing required options end the program; help names every option. parsePoint reads exactly the comma separated coordinates and returns the position after them, or refuses.",
     ["inputs", "configurations"], "all subsets, orders and forms of four options of different types, enumerated values and malformed lines (bounded)",
     "the tests parse one line; wrong orders, combinations, out-of-range or empty numbers and leftovers do not occur in it",
     [B + "CommandLineOptions.h", B + "CommandLineOptions.cpp", B + "CommandLineHelpers.h"],
     [("parse_options, CLOParser::go", B + "CommandLineOptions.cpp"), ("register_argument, parse_argument", B + "CommandLineOptions.h"), ("parsePoint", B + "CommandLineHelpers.h")])
DG = "applications/DG-Max/"
prop("P25", "DG-Max reference solutions solve the equations they stand for",
     "For every point, time, frequency, positive material and complex amplitude: the curl and the double curl (with scalar or diagonal permeability) of every field pattern (plane wave, constant, reflection at an interface) are those of its field; waves on the dispersion relation, both sides of an interface and the trench modes (also inside the absorbing layer, in the stretched coordinate) satisfy Maxwell's equations; tangential E and mu^-1 curl E are continuous across the interface, the reflected wave travels back and the transmitted one on. Sources of the harmonic, scattering and time dependent problems are the residuals of their exact (incident) fields (none in absorbing layers); boundary values (Dirichlet n x E, Neumann mu^-1 curl E, Silver-Mueller mu^-1 curl E + i omega Z E x n) are those the exact solution has on every side, so a wave leaving through a face needs no boundary source; the exact trench solution meets the conditions at both ends and the walls; initial values and derivatives are those of the exact solution; energy fluxes are Im(E x conj(mu^-1 curl E)) / omega; material index and impedance are sqrt(eps mu), sqrt(eps/mu).",
     ["inputs", "configurations"], "all points, times, frequencies, materials, amplitudes; interface normals and wave counts 1..2 enumerated",
     "the self tests compare discrete solutions of one configuration with a tolerance of the discretization error; a wrong source or boundary term for another material, frequency or side is invisible there",
     [DG + "ProblemTypes/", DG + "Utils/PlaneWave.h", DG + "Material.h", DG + "MaterialTensor.h"],
     [("PlaneWave, ConstantField, InterfaceReflectionField", DG + "ProblemTypes/Harmonic"), ("ExactHarmonicProblem::boundaryCondition", DG + "ProblemTypes/HarmonicProblem.h"), ("ExactFieldHarmonicProblem, SarmanyHarmonicProblem, ScatteringProblem, TrenchReflectionProblem", DG + "ProblemTypes/Harmonic"), ("SampleTestProblems", DG + "ProblemTypes/Time"), ("FieldPattern::localFlux", DG + "ProblemTypes/FieldPattern.h")])
prop("P26", "Bloch-periodic matrices carry the phase of every periodic coupling",
     "For every periodic mesh with at least three elements per period, every set of face and element blocks, every wave vector k and every additional shift: after KPhaseShifts::apply(k) the global matrix built by FaceMatrixKPhaseShiftBuilder has, for each periodic face whose two sides see it displaced by a = x_left - x_right, the left-right block times e^{ik(a+b)} and the right-left block times e^{-ik(a+b)}, and that of CGDGMatrixKPhaseShiftBuilder has in each row of a conforming function and each column of an element the factor e^{ik(a-b)} of the displacement a between the element that owns the function's node, edge or face and this element. All other entries are those of the periodic problem; the matrix depends on the last k only, k = 0 and reciprocal lattice vectors give the periodic one, Hermitian matrices stay Hermitian, and a process changes only the rows of its own elements. Blocks of the wrong size and periodic faces not marked as such are refused.",
     ["inputs", "configurations", "history"], "arbitrary (symbolic) blocks for fixed k, arbitrary k for fixed blocks; enumerated periodic meshes (1..3 directions, simplices and boxes, permuted numberings), orders, layouts, sequences of wave vectors, distributions of elements over processes (bounded)",
     "the tests compute a few eigenvalues of symmetric unit cells, where a conjugated or swapped phase gives the same spectrum",
     [DG + "Utils/KPhaseShift.cpp", DG + "Utils/KPhaseShift.h", DG + "Utils/MatrixBlocks.cpp", DG + "Utils/MatrixBlocks.h", DG + "Utils/KPhaseShiftHelpers.h", DG + "Utils/FaceKPhaseShiftBuilder.cpp", DG + "Utils/CGDGMatrixKPhaseShiftBuilder.cpp"],
     [("KPhaseShifts::apply, KPhaseShiftBlock::apply", DG + "Utils/KPhaseShift.cpp"), ("MatrixBlocks::loadBlocks / insertBlocks", DG + "Utils/MatrixBlocks.h"), ("FaceMatrixKPhaseShiftBuilder::build", DG + "Utils/FaceKPhaseShiftBuilder.cpp"), ("CGDGMatrixKPhaseShiftBuilder::build", DG + "Utils/CGDGMatrixKPhaseShiftBuilder.cpp"), ("boundaryFaceShift, getCoordinate", DG + "Utils/KPhaseShiftHelpers.h")])
prop("P27", "A mesh distributed over processes behaves like the whole mesh",
     "For every mesh file, number of processes and distribution of the elements over them, and every order in which messages arrive: each process has exactly its own elements and the shadow elements that share a node with them; processes agree on identifiers; every element, face, edge and node is owned by exactly one process that has it; internal, periodic, wall, subdomain and partial faces are those of the whole mesh; the elements a process sends to another are the shadow elements the other receives. GlobalIndexing numbers the functions of all (or a subset of) unknowns alike on all processes, without gaps or duplicates, in the ranges of its layout; local indices and lists match, and the estimated numbers of own and foreign columns of every row are exact (or a coupling is refused as unsupported). Initial solution, right hand sides, Runge-Kutta steps, synchronized shadow data, total and maximal errors and error estimates are those of one process. No communication is left over or waits for ever.",
     ["configurations", "schedules", "inputs"], "enumerated meshes (1D-3D, boxes and simplices, periodic), 1..4 processes, distributions (blocks, interleaved, processes without elements), schedules of the messages (late, reordered, slow processes), layouts, subsets (bounded)",
     "tests run on one process; ghost layers, message orders, ownership of shared entities and offsets between processes never occur in them",
     [B + "MeshManipulator_Impl.h", B + "Submesh.cpp", B + "MpiContainer.h", B + "MpiContainer.cpp", B + "HpgemAPIBase_Impl.h", B + "HpgemAPISimplified_Impl.h", U + "GlobalIndexing.cpp", U + "SparsityEstimator.cpp"],
     [("MeshManipulator::readMesh, Submesh", B + "MeshManipulator_Impl.h"), ("GlobalIndexing::reset and accessors", U + "GlobalIndexing.cpp"), ("SparsityEstimator::computeSparsityEstimate", U + "SparsityEstimator.cpp"), ("HpgemAPIBase::synchronize", B + "HpgemAPIBase_Impl.h"), ("HpgemAPISimplified: computeRightHandSide, computeOneTimeStep, computeTotalError, computeMaxError", B + "HpgemAPISimplified_Impl.h"), ("MPIContainer", B + "MpiContainer.h")])
