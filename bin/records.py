RECORDS = [
{"id": "C01", "how": 'the rule is asked for through the reference shape, and sum_w p(x) - I(p) is built with symbolic polynomial coefficients; the solver decides |difference|<=tol for all coefficients; points in the shape likewise', "oracle": 'closed-form monomial integrals over the shapes (factorials / products), written independently in harness/quad.cpp', "title": "Quadrature rules integrate exactly up to their declared order",
 "statement": "For every reference shape and every order for which a rule is offered, asking the shape for a quadrature rule of that order returns a rule for that shape, of at least that order, whose points lie in the closed shape and whose weighted sum equals the integral over the shape of every polynomial of total degree up to the order the rule declares (to the precision of the published tables).",
 "quant": "all reference shapes, all offered orders, all real polynomial coefficients",
 "why": "The unit tests integrate a handful of basis functions per rule; exactness is a statement about the whole polynomial space of the declared degree.",
 "files": ["kernel/Integration/QuadratureRules/*.cpp", "kernel/Geometry/ReferenceGeometry.cpp"], "mech": [("rule tables", "kernel/Integration/QuadratureRules/GaussQuadratureRulesFor*.cpp"), ("rule selection by order", "kernel/Integration/QuadratureRules/AllGaussQuadratureRules.cpp")],
 "bounds": "all rules selectable for point, line, triangle, square, tetrahedron, pyramid, cube, prism, hypercube (orders 0..11/11/11/10/7/11/7/3); all polynomial coefficients in [-1,1]; tolerance 1e-11 (1e-6 for tetrahedron orders 7 and 9, 5e-9 for pyramid and prism, the precision of those tables)."},
{"id": "C02", "how": 'each function is evaluated at a symbolic point and its value differentiated symbolically by the engine; difference to the reported derivative is a polynomial that must vanish on the shape', "oracle": 'exact differentiation of the executed value expression', "title": "Basis-function derivatives and curls are those of their values",
 "statement": "For every basis function offered, the partial derivatives, gradient, curl and divergence it reports at any point of the reference shape are those of the function whose values it reports.",
 "quant": "every function of every family and order in the bounds, every point of the reference shape",
 "why": "Tests compare against finite differences at sample points for selected orders; agreement at all points is a polynomial identity.",
 "files": ["kernel/FE/*.cpp", "kernel/FE/*.h"], "mech": [("hand-written derivative formulas", "kernel/FE/BasisFunctions*.cpp"), ("helper polynomials", "kernel/FE/HelperFunctions.cpp")],
 "bounds": "scalar families order 0..5 on line/triangle/square/tetrahedron/prism, 0..4 on cube (5 thorough), 0..1 pyramid; monomials up to order 8/6/5/3 in 1..4 dimensions; Nedelec and Ainsworth-Coyle order 1..4; all points of the closed shape."},
{"id": "C03", "how": 'traces are evaluated at symbolic face points from both sides for every orientation (symbolic choice), boundary values at symbolic boundary points; independence by a symbolic combination that vanishes at unisolvent points implying zero coefficients', "oracle": 'the definition of conformity, dimension formulas', "title": "Basis families are complete, independent and conforming",
 "statement": "The DG basis of order p on each shape spans all polynomials of degree p with as many, linearly independent, functions as the space has dimensions. In the conforming families interior functions vanish on the element boundary, face/edge/vertex functions vanish on the parts not touching their face/edge/vertex, vertex functions sum to one, and the functions attached to a shared entity have equal values from both neighbouring elements for every relative orientation.",
 "quant": "every family, order and orientation in the bounds, every point",
 "why": "No test evaluates traces from two elements for all orientations, and completeness is a statement about a whole function space.",
 "files": ["kernel/FE/BasisFunctions*H1Conforming*.cpp", "kernel/FE/*.cpp"], "mech": [("families of vertex/edge/face/interior functions", "kernel/FE/BasisFunctions*H1Conforming*.cpp")],
 "bounds": "orders 1..5 (4 on cubes, 1 on pyramids), all orientations, all points; completeness orders 0..4 (line 6, square 3, cube 2, prism 2, pyramid 1)."},
{"id": "C04", "how": 'mapping and Jacobian executed with symbolic corner coordinates and symbolic reference point; Jacobian compared with the symbolic derivative of the executed mapping', "oracle": 'corner coordinates; exact differentiation', "title": "Reference-to-physical mappings: nodes, Jacobian, inverse",
 "statement": "The mapping of an element sends the nodes of its reference shape to its physical nodes, its Jacobian is the derivative of the mapping at every point (also after the nodes are moved and the mapping is reinitialised), and the inverse mapping returns the reference point of a physical point of an affine element.",
 "quant": "all node coordinates in the bounds, all points of the reference shape",
 "why": "Tests use a few fixed elements and sample points.",
 "files": ["kernel/Geometry/Mappings/*.cpp", "kernel/Geometry/ElementGeometry.h"], "mech": [("mapping classes", "kernel/Geometry/Mappings/MappingToPhys*.cpp")],
 "bounds": "all element types; node coordinates in [-10,10]; inverse: affine elements (scaled and sheared reference elements), all points."},
{"id": "C05", "how": 'membership test executed on a symbolic point and compared with the half-space description; face/edge maps executed on symbolic points; symmetry group elements by symbolic choice', "oracle": 'half-space descriptions and node tables written in harness/shapes.h', "title": "Reference shapes: domain, faces, edges and symmetries fit together",
 "statement": "For every reference shape, the point-membership test, measure, nodes, faces, edges and the mappings from faces and edges into the shape describe one and the same polytope: face and edge mappings take nodes to the listed nodes and stay on the boundary, faces cover the boundary, and each edge lies on exactly two faces. The symmetry chosen for two numberings of the same face takes each node to the place of the same node in the other numbering, and exchanging the numberings gives the inverse.",
 "quant": "all shapes, all points, all faces/edges, all numberings related by a symmetry",
 "why": "Tests probe sample points and selected index tables.",
 "files": ["kernel/Geometry/Reference*.cpp", "kernel/Geometry/Mappings/MappingTo*.cpp"], "mech": [("index tables and face maps", "kernel/Geometry/Reference*.cpp")],
 "bounds": "line, triangle, square, tetrahedron, pyramid, cube, prism, hypercube; points with coordinates in [-2,2]; all node numberings of a face related by a symmetry."},
{"id": "C06", "how": "two elements glued along a face in a symbolically chosen orientation with symbolic corners; both sides' maps executed at a symbolic face point; normal against edges and outward direction", "oracle": 'geometry of the corner coordinates (cross products, distances)', "title": "Faces: both sides agree on positions; normals are outward and true to size",
 "statement": "For a face between two elements, in whatever relative orientation and node numbering they share it (also across a periodic boundary), a point of the reference face is mapped into both elements at the same physical position (up to the periodic shift). The normal vector of a face is orthogonal to it, points out of the left element whatever the handedness of its node numbering, and its length is the area element; the face diameter is the largest node distance.",
 "over": ["inputs", "configurations"], "quant": "all pairs of shapes, faces and orientations, all node coordinates in the bounds, all face points",
 "why": "Tests build a few fixed meshes; transposed square faces and mixed shapes never occur in them.",
 "files": ["kernel/Geometry/FaceGeometry.cpp", "kernel/Geometry/FaceGeometry.h", "kernel/Base/Face.cpp", "kernel/Geometry/Mappings/ConcatenatedMapping.cpp", "kernel/Geometry/Jacobian_Impl.h"], "mech": [("face-to-face map index", "FaceGeometry::initialiseFaceToFaceMapIndex"), ("normal", "FaceGeometry::getNormalVector"), ("wedge product", "kernel/Geometry/Jacobian_Impl.h")],
 "bounds": "all pairs of line/triangle/square/tetrahedron/prism/cube and tetrahedron-pyramid, cube-pyramid; node coordinates in [-3,3]; determinants away from zero (|det|>=0.05); diameter with up to two free node coordinates."},
{"id": "C07", "how": 'evaluators are driven through a symbolically chosen history, then every reported quantity at a symbolic point of an element with symbolic corners is compared with an equation it must satisfy (J^T grad = reference grad, etc.)', "oracle": 'the transformation laws multiplied out, so that no inverse is needed in the oracle', "title": "Evaluation on physical elements and faces follows the chain rule, never stale",
 "statement": "At any point of a physical element or face, every quantity the evaluator reports is that of the current element/face and point, for each unknown with its own basis, whatever elements, faces and points the evaluator was used on before: scalar values equal the reference values, gradients times the Jacobian equal the reference gradients, the covariant transformation keeps circulations and the contravariant one fluxes, curls transform accordingly, solutions and their derivatives are the combinations of the coefficients with the basis, and on faces the functions of each side come with that side's outward normal (right-side gradients turned to the left frame on rotated periodic faces).",
 "over": ["inputs", "histories"], "quant": "all node coordinates, coefficients, points in the bounds, all re-use histories of length two",
 "why": "Tests use one fixed element, one unknown and a fresh evaluator; caches, second unknowns and differing numbers of functions are not met.",
 "files": ["kernel/Base/PhysicalElement.h", "kernel/Base/PhysicalElement_Impl.h", "kernel/Base/PhysicalFace.h", "kernel/Base/*Transformation.h", "kernel/Base/Element.cpp"], "mech": [("lazily cached evaluation", "PhysicalElement / PhysicalFace"), ("coordinate transformations", "kernel/Base/{H1,HCurl,HDiv}ConformingTransformation.h")],
 "bounds": "one to three dimensional affine simplices and squares with symbolic corners (|det|>=0.02..0.05), two unknowns with bases of order 1 and 2, histories: fresh, other point, other element/face; all face pairs and orientations in 2D (tetrahedra in the thorough tier), periodic shift and rotations; vector-valued functions with their traces, curls and divergences, points of a quadrature rule as well as arbitrary points, boundary faces, and the scratch matrices and vectors handed out per element and side."},
{"id": "C08", "how": 'integrators executed on elements with symbolic corners for polynomials with symbolic coefficients; divergence theorem compared face sum with volume integral', "oracle": 'closed-form integrals on affine images, divergence theorem', "title": "Element and face integrals are exact and obey the divergence theorem",
 "statement": "Integrating over an element gives the exact integral over the physical element of polynomials the rule is exact for, whatever its position, size, shape and handedness and whatever the integrator was used on before; the default rules of elements and faces are exact for products of two basis functions of the adjacent elements, also when bases change later. The outward flux of a polynomial field through all faces of an element equals the integral of its divergence; integrals over an internal face of products of traces take each function from its own side at the same physical point; switching off the scaling leaves out exactly the volume/area element, and integrating a pair integrates both members.",
 "over": ["inputs", "histories"], "quant": "all element shapes, corner coordinates in the bounds, polynomials up to the tested degree, face pairs and orientations",
 "why": "Tests integrate a few functions on fixed meshes; the identities hold for every geometry.",
 "files": ["kernel/Integration/ElementIntegral_Impl.h", "kernel/Integration/FaceIntegral_Impl.h", "kernel/Integration/QuadratureRules/GaussQuadratureRule.h", "kernel/Base/Element.cpp", "kernel/Base/Face.cpp"], "mech": [("integration loops", "ElementIntegral::integrate, FaceIntegral::integrate/integratePair"), ("choice of default rules", "Element::setQuadratureRulesWithOrder, Face::createQuadratureRules")],
 "bounds": "line, triangle, square, tetrahedron, cube, prism, pyramid; affine elements with 1..4 symbolic matrix entries plus position, squares/cubes/prisms with independently moved corners; polynomials of degree <= 2 (1 in 3D fluxes); traces on all face pairs/orientations of triangles and squares, tetrahedron pairs with one orientation per pair (all in thorough)."},
{"id": "C09", "how": 'all operations executed on matrices with symbolic entries (real and complex configuration), results substituted into the defining equations', "oracle": 'defining equations of each operation', "title": "Dense linear algebra computes what its operations name",
 "statement": "Sums, products, scalings, transposes, conjugates, norms, element access, block insertion and concatenation of small and middle-size vectors and matrices give the mathematical result for every entry value and shape, without changing their operands (in-place forms change only their target). Determinants are the signed volume, the wedge product is orthogonal to the columns with their volume as length, and solving, inverting, least-squares solving, Cholesky factorising and triangular solving return results that satisfy the original system; both in real and in complex builds.",
 "quant": "all entry values and all shapes in the bounds", "why": "Tests use a few matrices of one or two sizes with selected values.",
 "files": ["kernel/LinearAlgebra/*.cpp", "kernel/LinearAlgebra/*.h"], "mech": [("calls to BLAS/LAPACK with layout, leading dimension and transposition arguments", "kernel/LinearAlgebra/MiddleSizeMatrix.cpp"), ("fixed-size formulas", "kernel/LinearAlgebra/SmallMatrix_Impl.h")],
 "bounds": "entries in [-4,4] (real) or with both parts there (complex); sizes 1..4 for vectors, up to 3x3 (4x4 determinants) for matrices, rectangular shapes included; solves away from singularity; BLAS/LAPACK routines are replaced by models of their documented interface."},
{"id": "C10", "how": 'symbolic writes at symbolically chosen places, then all reads compared with a shadow model; histories of (re)initialisation by symbolic choice', "oracle": 'shadow maps keyed by (level, unknown, function)', "title": "Coefficients, matrices and their numbering on elements and faces are consistent",
 "statement": "A coefficient, matrix or vector stored on an element or face for a time level, unknown and basis function (or identifier) is read back by every accessor, and a write changes nothing else. Numbers of functions are those of the sets attached to interior, faces and vertices in that order, per unknown; on a face the functions of the left element come first, then all of the right, and index, side and number within the element convert into each other. Face matrices agree in their whole, per-side and per-entry views, and the local indexings of a subset of unknowns give each included unknown its own consecutive rows, whatever they were initialised for before; tables and lazily cached values return what was last stored or computed since the last reset.",
 "over": ["inputs", "histories"], "quant": "all values, all combinations of bases per side and unknown, all histories of up to three (re)initialisations in the bounds",
 "why": "Tests use one unknown or equal bases; mixtures of sizes, conforming bases and re-initialisation histories are not met.",
 "files": ["kernel/Base/FaceMatrix.cpp", "kernel/Base/ElementData.cpp", "kernel/Base/FaceData.cpp", "kernel/Base/Face.cpp", "kernel/Base/ElementBasisFunctions.*", "kernel/Base/LazyCached.h", "kernel/Utilities/ElementLocalIndexing.*", "kernel/Utilities/FaceLocalIndexing.*", "kernel/Utilities/Table2D.h"], "mech": [("single-index conversion", "ElementData::convertToSingleIndex, Face::convertToSingleIndex"), ("local indexing", "kernel/Utilities/*LocalIndexing.*")],
 "bounds": "two unknowns with 1..6 functions each, two triangles and a boundary face, face matrices up to 3+3, all values real in [-5,5], two time levels and three integration vectors; one write (two in the thorough tier); indexing histories of three steps."},
{"id": "C11", "how": 'the real time step is executed on power series in the step size stored in the coefficients, with symbolic right-hand-side coefficients; series compared term by term with that of the exact solution; adaptive steps with symbolic slopes', "oracle": 'Taylor series of the exact solution by repeated substitution; convexity bounds for TVD methods', "title": "Runge-Kutta time integration has its declared order",
 "statement": "For each time integrator offered, one time step of size h of an initial value problem u'=f(u,t) leaves in the first time level a solution whose expansion in h agrees with the exact one up to and including the order the integrator declares, also when the right-hand side depends on time and for systems, and for nonlinear right-hand sides; for pairs with an error estimate the embedded solution has its declared order too. Asking for an integrator by order and number of stages returns one with that order, number of stages and total-variation-diminishing property; the stage times are the row sums of the coefficients, and methods declared TVD are convex combinations of forward Euler steps.",
 "quant": "all coefficients of the right-hand side and all initial values in the bounds",
 "why": "Tests solve selected autonomous problems or compare fixed tables; the order conditions for time-dependent right-hand sides are not met by them.",
 "files": ["kernel/Base/TimeIntegration/*.cpp", "kernel/Base/TimeIntegration/*.h", "kernel/Base/HpgemAPISimplified_Impl.h"], "mech": [("Butcher tableaux", "kernel/Base/TimeIntegration/AllTimeIntegrators.cpp"), ("one time step", "HpgemAPISimplified::computeOneTimeStep")],
 "bounds": "all seven integrators; right-hand side polynomial in u and t with symbolic coefficients (scalar with time, and a coupled system of two); expansion in the step size up to the order of the method (power series arithmetic)."},
{"id": "C12", "how": 'user callbacks return symbolic multiples of what they are given; the real assembly runs on meshes read from generated files for every partition (symbolic owners); ranks are played in turn and messages delivered by the harness', "oracle": 'sum over elements and faces of the mesh specification the file was written from; 5-point Gauss integration of the harness for errors and sources', "title": "Global assembly, projection and errors are right on every partition",
 "statement": "The right-hand side the framework computes for an element is the sum of the contributions of the element itself and of each of its faces, each evaluated with the coefficients of the element and its neighbour (or combination of vectors) at the given time, for both ways of supplying face contributions, for boundary and periodic faces (also when two elements share several faces); with stored matrices it is the product with the element and face matrices plus the source terms. The result is the same on every partition of the elements over processes: each element belongs to one process, every message sent is received with the same size, and copies of elements hold the owner's values afterwards. Vector operations change the vector named and no other; the initial solution of a polynomial in the space is that polynomial; total and maximum errors are the L2 norm and the largest difference over all processes.",
 "over": ["inputs", "configurations"], "quant": "all coefficients, contributions, matrices and node positions in the bounds, all partitions over two processes",
 "why": "Tests run complete applications on one process with fixed fluxes and compare an error to a stored number; no test runs a partitioned mesh.",
 "files": ["kernel/Base/HpgemAPISimplified_Impl.h", "kernel/Base/HpgemAPILinear_Impl.h", "kernel/Base/HpgemAPIBase_Impl.h", "kernel/Base/MpiContainer.*", "kernel/Base/MeshManipulator_Impl.h", "kernel/Base/Submesh.*"], "mech": [("assembly of right-hand sides", "HpgemAPISimplified::computeRightHandSide, HpgemAPILinear::multiplyStiffnessMatrices"), ("exchange of shadow elements", "HpgemAPIBase::synchronize"), ("partitioned mesh reading", "MeshManipulator::readMesh")],
 "bounds": "lines and periodic lines of 2..4 elements, two triangles, two squares; up to two unknowns, order 0/1 (projection 0..2, 3 in thorough); all symbolic contributions; one process and all assignments of elements to two processes (three in thorough); MPI calls answered by a model in which ranks run one after another; errors: two parameters free at a time."},
{"id": "C13", "how": 'the real mesh reader, basis assignment, numbering, sparsity estimate and assembly run for every choice of owners, bases, subsets of unknowns and layouts; ranks run as coroutines over a model of MPI and PETSc that keeps symbolic entries', "oracle": 'degrees of freedom named by the entity of the mesh file they live on; dense sums of the symbolic local matrices and vectors over those names', "title": "Global numbering is a bijection and global matrices are sums of local ones",
 "statement": "For every layout, subset of unknowns, mix of conforming and discontinuous bases and distribution of the elements over processes, each degree of freedom has one global number whichever process or element it is looked up from, the numbers are 0 to N-1 without holes or repetitions in the block order of the layout, each belongs to one process, and the process-local numbers run from zero in the same order. The assembled global matrix and vector are exactly the sums of the element and face matrices and vectors at those numbers (also when rows and columns use different unknowns, and when assembled again), and the space reserved per row, split in own and foreign columns, is exactly the number of coupled degrees of freedom. Copying coefficients from elements to a global vector and back, for all unknowns or for one of them, reproduces them and touches nothing else; the entries reported for a boundary face are those of the face, its edges and its nodes.",
 "over": ["inputs", "configurations"], "quant": "all entries of the local matrices and vectors, all assignments of elements to two processes, all orders in which the processes proceed",
 "why": "Tests check numbering on one process for a few meshes and never check assembled values or space estimates on partitioned meshes.",
 "files": ["kernel/Utilities/GlobalIndexing.*", "kernel/Utilities/GlobalMatrix.*", "kernel/Utilities/GlobalVector.*", "kernel/Utilities/SparsityEstimator.*", "kernel/Base/MeshManipulator_Impl.h"], "mech": [("numbering", "GlobalIndexing::reset"), ("exchange of numbers of shadow elements", "GlobalIndexing::communicatePushPullElements"), ("assembly", "GlobalPetscMatrix::assemble, GlobalPetscVector::assemble"), ("row sizes", "SparsityEstimator::computeSparsityEstimate")],
 "bounds": "lines of 2..4 elements, periodic line and strip of three, two triangles, squares, tetrahedra; two unknowns with six combinations of bases up to order 3; one and two processes (three in thorough); face matrices for rows with shared degrees of freedom only on one process, as documented; PETSc and MPI are replaced by models in the harness."},
{"id": "C14", "how": 'the real mesh reader runs on every process for every distribution of the elements (symbolic owners and zones) over mesh files written by the harness; the positions are then arbitrary; additional requests run on all processes as coroutines over a model of MPI',
 "oracle": 'the specification the mesh file was written from: who shares a node with whom, sides of faces, corners, zones',
 "title": 'Reading a mesh gives every process its part, consistent with all others',
 "statement": 'For every distribution of the elements of a mesh file over processes, each process holds exactly its own elements and the shadow elements around them with the corners, owner and zone of the file; nodes, edges and faces know exactly the elements around them with their local numbers (and the elements know them), all processes use the same number for the same element, face, edge or node, and each of these is owned by exactly one process. A face reports whether it is a wall, periodic, between two parts or cut off at the outside of the shadow layer, all processes agree on its left and right side, and its two sides are the same points (up to the period) wherever the nodes are. For every pair of processes the elements one sends are the elements the other expects, in the same order, also after further elements were asked for.',
 "over": ['inputs', 'configurations'], "quant": 'all assignments of elements to two or three processes, all positions of the nodes and points on faces, all sets of additional requests',
 "why": 'Existing tests read meshes on one process; they never compare what several processes hold.',
 "files": ['kernel/Base/MeshManipulator_Impl.h', 'kernel/Base/Mesh_Impl.h', 'kernel/Base/Submesh.*', 'kernel/Base/MeshFileInformation.*', 'kernel/Base/Face.cpp', 'kernel/Base/Edge.cpp', 'kernel/Base/Node.cpp', 'kernel/Geometry/FaceGeometry.*'],
 "mech": [('reader', 'MeshManipulator::readMesh'), ('numbers reserved for other processes', 'GlobalUniqueIndex'), ('exchange lists', 'Submesh::addPush, addPull, processPullRequests'), ('periodic and partition faces', 'Face::Face, readMesh')],
 "bounds": 'lines and rings of 3..4 elements, fans of triangles with any starting corner, grids of up to 3x3 squares periodic in none, one or both directions, tetrahedra, cubes, cube with pyramid and prism; one to three processes; mesh file versions 1 and 2, decimal and hexadecimal numbers; parsing of the text itself runs in the C++ library on concrete text.'},
{"id": 'C15',
 "how": "the real preprocessor builds meshes from descriptions with symbolic extents, symbolic identifications of nodes, zones and owners, writes the distributed file, and the kernel's reader reads it on every process; sets, orders and translations run on symbolic indices and coordinates",
 "oracle": 'a plain grid and relabelling of equivalence classes in the harness; faces and edges identified by the coordinates that an identification maps onto each other',
 "title": 'The preprocessor turns a mesh description into the distributed mesh it describes',
 "statement": 'For every structured description (number of cells, extent, rectangular or triangular, periodic directions), and for every source of coordinates, elements, zones and identifications of coordinates, the mesh consists of exactly the described cells at their positions with their zones, nodes are one if and only if they are the same point or were identified (directly, through a chain, or by a translation that takes one onto the other), faces and edges are one exactly when an identification maps all their corners, and simplices fill the box and meet face to face. Written for any assignment of the elements to processes and read back, every process gets its part of that mesh, and a copied mesh writes the same file. Reordering of nodes accepts exactly permutations, and converting to and from the order of hpGEM are inverse to each other.',
 "over": ['inputs', 'configurations', 'histories'],
 "quant": 'all extents of the box, all sets of identified pairs, zones and owners, all sequences of joins, all translations and positions in the bounds',
 "why": 'Tests run the preprocessor on a few complete files on one process and compare counts; partial identifications, chains, owners and copies are not met.',
 "files": ['applications/Preprocessor/lib/hpgem.cpp', 'applications/Preprocessor/lib/MeshFactory.h', 'applications/Preprocessor/lib/MergePlan.h', 'applications/Preprocessor/lib/TransformationConnector.h', 'applications/Preprocessor/lib/output_impl.h', 'applications/Preprocessor/lib/ElementReorder.*', 'applications/Preprocessor/lib/utils/SparseUnionFind.*', 'applications/Preprocessor/lib/mesh/**'],
 "mech": [('structured meshes', 'StructuredReader'), ('identification of entities', 'MergePlan::computeMergePlan'), ('distributed file', 'outputMesh'), ('sets', 'SparseUnionFind')],
 "bounds": 'structured: lines of 4, up to 3x3 (3x4 triangular) in 2D, up to 3x3x3 cubes and 4x1x2 in five tetrahedra in 3D, at least 3 cells in a periodic direction (4 if triangular in 3D); extents anywhere within 0.1 of the unit grid (positions exact to 1e-9); identifications: all subsets of the pairs of two opposite sides of 2- or 3-cell wide meshes, both directions, second direction complete; translations with perturbations up to 1e-9 (identified) and from 1e-6 (kept apart); four joins of four sets members, two joins of arbitrary members; one to three processes, up to four elements with free owner.'},
{"id": 'C16',
 "how": 'the real reader of Gmsh files runs on generated files with symbolic positions, numbering, order of nodes, names, tags and periodic pairs',
 "oracle": 'the description the file was written from, with the edges of each shape in the numbering of the Gmsh manual',
 "title": 'A Gmsh file is read as the mesh it describes',
 "statement": 'For every numbering and order of the nodes in a Gmsh 2.2 text file, the reader returns its nodes with their positions, its elements of the highest dimension in file order with the corners of the file in an order in which the edges of the shape are edges (for triangles, squares, tetrahedra, cubes, prisms, pyramids and second-order triangles and tetrahedra), and its periodic pairs. The zone of an element is the name of its physical group, its number where there is no name, the element data where there are no names at all, and the default where nothing is given; sections it does not know, line ends and numbers of tags make no difference.',
 "over": ['inputs', 'configurations'],
 "quant": 'all positions of the free nodes and all combinations of the ways to write the file in the bounds',
 "why": 'The tests read one or two files with consecutive numbers and a single kind of element.',
 "files": ['applications/Preprocessor/lib/gmsh.*', 'applications/Preprocessor/lib/ElementReorder.*', 'applications/Preprocessor/lib/MeshFactory.h'],
 "mech": [('sections', 'GmshReader::readNodes, readElements, readElementData, readPBCs'), ('order of corners', 'ElementReorder::reorderToHpGem'), ('zones', 'GmshReader::convertRawElements')],
 "bounds": 'one flat mesh of a square and three triangles, one solid mesh of a cube, pyramid, prism and two tetrahedra, with lower-dimensional elements in between; nodes numbered forwards, shifted or backwards with gaps 0..2, two orders in the file; 0, 1, 2 or 4 tags; names for all dimensions, only for boundaries, with negative numbers, or none; positions within 1/16; the text itself is parsed by the C++ library on concrete text (numbers marked in it become symbolic).'},
{"id": 'C17',
 "how": 'the real writers run on meshes with symbolic node positions, symbolic field values, time and process; the written text is read back by the harness, symbolic numbers travel as marked values; the encoder of binary data runs on symbolic bytes (table look-ups as chains of conditions)',
 "oracle": 'a reader of the three formats in the harness, with the point order of high-order cells built from the definition of the format; the standard of base-64 for the encoder',
 "title": 'Output files describe the mesh and the fields the user wrote',
 "statement": "For every mesh, order of output, field and process, a VTK data set contains one cell per owned element with the type and the number of points of its shape and order, with points at the images of the equidistant points of the shape in the order the format prescribes, and scalar, vector and tensor data that are the values of the user's function at those points, with the right number of components; the main file refers to exactly the files of all processes with the same arrays, and a series lists each time with its file. The Tecplot and Gnuplot writers list the points, values and connectivity of the same mesh, zone by zone. Binary data are encoded so that decoding gives back the bytes for every length.",
 "over": ['inputs', 'configurations', 'histories'],
 "quant": 'all positions of the nodes, all values of the fields, all bytes encoded, for all shapes, orders, processes and sequences of times in the bounds',
 "why": 'Tests only check that writing does not fail, or compare one file of a fixed mesh; wrong orders of points or components look plausible in a picture.',
 "files": ['kernel/Output/VTK*', 'kernel/Output/base64.*', 'kernel/Output/Tecplot*', 'kernel/Output/Gnuplot*', 'kernel/Output/VTKTimeDependentWriter*'],
 "mech": [('high-order cells', 'VTKElementOrdering'), ('data sets', 'VTKSpecificTimeWriter'), ('series', 'VTKTimeDependentWriter'), ('plain formats', 'TecplotDiscontinuousSolutionWriter, GNUPlotDiscontinuousSolutionWriter'), ('binary data', 'toBase64')],
 "bounds": 'lines to order 6, squares and triangles to 6 (thorough 9), tetrahedra to 5 (8), cubes to 3 (4), prisms and pyramids order 1; up to three processes; series of up to three times; base-64 of up to 7 bytes and of arrays of integers and reals; positions within 1/16 of a base mesh, values in [-8,8]; text formatting itself is done by the C++ library.'},
{"id": 'C18',
 "how": 'the real discretisation computes its local matrices and vectors on meshes with symbolic materials, penalty, sources, boundary data and coefficients; each entry is compared with the form evaluated by quadrature in the harness',
 "oracle": "the stated weak forms, with functions of the element evaluated by the harness's own maps and quadrature",
 "title": 'The curl-curl DG method assembles the stated forms for every material and source',
 "statement": "For every material (scalar or complex tensor), penalty, boundary condition and mesh in the bounds, the element and face matrices and vectors of the interior-penalty discretisation of Maxwell's equations are the stated forms: mass, curl-curl, average and jump terms with the penalty, and boundary terms for each kind of condition, whether the mass matrix is kept, inverted or made the identity by a change of basis. Sources and boundary data of every value (none means zero) give the stated vectors, and the fields, errors, norms and energy fluxes computed from arbitrary coefficients are those of the represented field in every handling of the mass matrix.",
 "over": ['inputs', 'configurations'],
 "quant": 'all materials, penalties, sources, boundary data and coefficients, with the three kinds of boundary conditions on each face',
 "why": 'Convergence tests use one real scalar material and tolerate errors in penalty, boundary and post-processing terms.',
 "files": ['applications/DG-Max/Algorithms/DGMaxDiscretization.*', 'applications/DG-Max/Algorithms/AbstractDiscretization.*', 'applications/DG-Max/MaterialTensor.h', 'applications/DG-Max/Material.h', 'applications/DG-Max/ElementInfos.*'],
 "mech": [('matrices', 'DGMaxDiscretization::computeElementIntegrals, computeFaceIntegrals'), ('mass matrix', 'DGMaxDiscretization::postProcessFaceMatrix and element counterpart'), ('fields and fluxes', 'computeFields, computeEnergyFluxes, computeFieldL2Integral')],
 "bounds": 'two triangles (orders 1 and 2) and two tetrahedra (order 1, thorough 2) of fixed geometry, materials real in [1/2,4] or complex 3x3 tensors with entries within 1/8 of a base tensor, everything else in [-2,2]; entries equal up to 1e-6 relative.'},
{"id": 'C19',
 "how": 'as for C18: every entry of the mixed discretisation with symbolic materials, penalties, sources and coefficients is compared with the form in the harness, for each combination of interior-penalty and lifting fluxes',
 "oracle": 'the stated weak forms; lifting operators built from their definition in the harness',
 "title": 'The mixed (field and potential) DG method assembles the stated forms',
 "statement": "For every material, penalty, boundary condition and choice of the fluxes for the tangential field, normal field and potential (interior penalty or lifting), the element and face matrices and vectors of the divergence-free discretisation of Maxwell's equations are the stated forms in field and potential. Sources and boundary data of every value (none means zero) give the stated vectors, and fields, potential, errors, norms and energy fluxes computed from arbitrary coefficients are those of the represented field.",
 "over": ['inputs', 'configurations'],
 "quant": 'all materials, penalties, sources, boundary data and coefficients for the fluxes and boundary conditions in the bounds',
 "why": 'Convergence tests use real scalar materials and default fluxes; wrong conjugates, offsets and materials at the second side of a face do not show.',
 "files": ['applications/DG-Max/Algorithms/DivDGMaxDiscretization.*', 'applications/DG-Max/Algorithms/AbstractDiscretization.*', 'applications/DG-Max/MaterialTensor.h'],
 "mech": [('matrices', 'DivDGMaxDiscretization::computeElementIntegrals, computeFaceIntegrals'), ('lifting', 'brezziFluxBilinearTerm, compute*LiftProjector'), ('fields', 'computeFields, computeEnergyFluxes, computeFieldL2Integral')],
 "bounds": 'two triangles (orders 1 and 2) and two tetrahedra (order 1, thorough 2) of fixed geometry; lifting fluxes with real scalar materials only, and in 2D not for the tangential field; materials, sources and coefficients as in C18; entries equal up to 1e-6 relative.'},
{"id": 'C20',
 "how": 'the maps, their matrices and tables run symbolically at an arbitrary point of each child (and face), for each of the 35 refinement maps',
 "oracle": '(multi)linear interpolation between the nodes that the tables name, half spaces of the convex hulls of the children, and the face maps of the reference shapes',
 "title": 'Refinement maps split a shape into children that tile it and fit at its faces',
 "statement": 'For every refinement of a line, triangle, square, tetrahedron, pyramid, prism or cube and every point of it, the point belongs to a child and to the interior of at most one, each child is the image of its reference shape under the map with corners at the nodes listed for it, and the matrices given for the map are its Jacobian and the inverse of that at every point. Every face of the parent is split by the refinement named for it into faces of the children named for its parts, with the same nodes and the same positions.',
 "over": ['inputs', 'configurations'],
 "quant": 'all points of the parent, of each child and of each part of each face, for all refinement maps of the library',
 "why": 'Tests compare the matrices with numeric differences at sample points, and do not connect maps, node lists and face tables.',
 "files": ['kernel/Geometry/Mappings/RefinementMap*.h'],
 "mech": [('maps', 'RefinementMapping::refinementTransform, getRefinementMappingMatrixL, getRefinementMappingMatrixR'), ('tables', 'getSubElementLocalNodeIndices, getCodim1LocalNodeIndices, getSubElementAndLocalFaceIndex')],
 "bounds": 'all 35 maps with more than a point, all children, faces and parts; points anywhere in the reference shapes; maps are compared up to 1e-9, order of the corners of a part is free.'},
{"id": 'C21',
 "how": 'the real builders and eigenvalue solvers run on periodic meshes with symbolic wave vectors; the matrices and shells that reach the eigenvalue solver (answered by a stand-in) are compared entry by entry with the phased sums over the mesh, phases being functions of the exact exponent',
 "oracle": 'sums over elements and faces of the stored local matrices times exp(i k·jump), with the jump of the position taken from the description of the mesh',
 "title": 'Band structures: at each wave vector the Bloch-periodic problem is solved',
 "statement": 'For every sequence of wave vectors, the eigenvalue problem handed to the solver at each of them is the discretised Maxwell problem on the periodic mesh in which every coupling across the periodic boundary carries the phase of the wave vector times the jump in position, in the direction from row to column, on any number of processes and whatever was solved before; this holds for couplings over faces and for those of continuous functions at nodes, edges and faces, with and without projection to divergence-free fields. Each wave vector is solved and handed to the user once, with frequencies that are the roots of the eigenvalues in order, its wave vector, and overlaps with the fields of the previous wave vector in the norm of the problem.',
 "over": ['inputs', 'configurations', 'histories'],
 "quant": 'all wave vectors of a sequence, all local matrices of the builders, all distributions of the elements in the bounds',
 "why": 'Tests compare a few eigenvalues at a few wave vectors on one mesh; phases that are wrong for other directions, for the second wave vector or on other processes do not show.',
 "files": ['applications/DG-Max/Utils/*KPhaseShift*', 'applications/DG-Max/Utils/MatrixBlocks.*', 'applications/DG-Max/Algorithms/DGMaxEigenvalue.*', 'applications/DG-Max/Algorithms/DivDGMaxEigenvalue.*'],
 "mech": [('phases over faces', 'FaceMatrixKPhaseShiftBuilder, KPhaseShifts::apply'), ('phases of continuous functions', 'CGDGMatrixKPhaseShiftBuilder'), ('operators', 'DGMaxEigenvalue::SolverWorkspace, ProjectorWorkspace, DivDGMaxEigenvalue'), ('results', 'getFrequencies, computeFieldOverlap')],
 "bounds": '2x2 skew cells of triangles periodic in both directions, rings of three squares, cubes or cells of tetrahedra; one or two processes (thorough three); sequences of two wave vectors (thorough three) with components in [-3,3]; order 1 (projection: thorough 2); materials fixed; exponents compared as exact expressions; the iterative solvers themselves are replaced by a stand-in with arbitrary fixed answers.'},
{"id": 'C22',
 "how": 'the real solvers run on symbolic frequencies, sources, boundary data, initial fields, conductivity and (one step) step size; the linear solver is a stand-in, at which the matrix and load are compared with those of a fresh discretisation of the current problem on a mesh of its own; time steps are compared with the schemes written out',
 "oracle": 'sums over the local matrices and vectors of a second mesh for the current problem alone; the leap-frog scheme and the composition of first-order steps written out in the harness',
 "title": 'Harmonic, time-dependent and steady solvers solve the problem at hand',
 "statement": 'For every sequence of harmonic problems and every truthful report of what changed between them (frequency, source, kind or value of boundary data), also with materials that depend on the frequency, the system that is solved is stiffness plus frequency times impedance minus squared frequency times mass, with the source and boundary data of the current problem, and its solution gives the fields handed to the user, once per problem. In time, for all initial fields, sources, boundary data and conductivity, each step is the stated leap-frog or fourth-order step, and snapshots are taken at the stated steps with their times. A steady problem is solved for minus the stored matrices with element and face sources.',
 "over": ['inputs', 'configurations', 'histories'],
 "quant": 'all frequencies, data and changes for sequences of problems; all initial data, sources and conductivities for numbers of steps and strides in the bounds',
 "why": 'Tests run one problem with everything marked as changed and one scheme without sources; stale matrices and loads need a particular pair of problems.',
 "files": ['applications/DG-Max/Algorithms/HarmonicSolver.*', 'applications/DG-Max/Algorithms/DGMaxTimeIntegration.*', 'applications/DG-Max/Utils/Dispersive.h', 'kernel/Base/HpgemAPILinearSteadyState*'],
 "mech": [('what is recomputed', 'HarmonicSolver::Workspace::computeIntegrals, assembleSolverMatrix'), ('schemes and snapshots', 'DGMaxTimeIntegration::solve, getCoeffCO4'), ('steady problems', 'HpgemAPILinearSteadyState::createSourceTerms, solveSteadyStateWithPetsc')],
 "bounds": 'two triangles or two tetrahedra, order 1 (thorough 2); two problems with all sixteen combinations of changes or three with one or all changed, frequencies in [1/2,2]; up to three leap-frog (thorough eight) and two fourth-order steps, without conductivity for the latter as documented; steady problems on three lines (open and periodic) and two triangles with up to two variables (thorough three); one process; the linear solver is a stand-in.'},
]
