TEST = "The unit tests look at one hand-made two-cell 3D mesh, one small 2D file and one 4D hypercube; "
MESHES = "every valid 2D/3D/4D conforming mesh (polygonal, polyhedral, non-convex, disconnected), every numbering of its elements and every orientation of edges and faces, both for fixed and dynamic sub-element storage and several index/real types"
RULE = "random conforming 2D/3D/4D meshes (merged polygons/polyhedra, dropped cells, fans), renumbered and reoriented at random; a case is distinct by the hash of its complete incidence table and coordinates"
NOTE = "Randomised runtime monitoring under ASan+UBSan with an independent reference model; no guarantee beyond the executions observed. Trusts the mesh generator and reference of harness/meshgen.h, g++ and its sanitizers."
RM = "runtime monitoring: reference-model oracle over generated workloads, ASan+UBSan"

prop("C08", "Mesh traversal and connections report exactly the incident elements",
     "For every pair of element dimensions, traversing a mesh from one dimension to another visits exactly the incident (origin, element) pairs and no other pair, whether started from one element or from all. The connection lists built on it contain each incident element exactly once, ascending, or in order of first visit when the original order is requested.",
     ["inputs"], MESHES, TEST + "the property quantifies over all topologies, all dimension pairs and all numberings.",
     [MF + "MeshApply.h", MF + "MeshConnections.h"], [("recursive descent/ascent of MeshApply", MF + "MeshApply.h"), ("MeshConnections::connections, ORDER_ASCEND/ORDER_ORIGINAL", MF + "MeshConnections.h")], ["callback of UnstructuredMesh::apply", "result of UnstructuredMesh::connections"])
check("C08", RM, NOTE, RULE, {"visits": 1000})
prop("C09", "Mesh neighborhood lists exactly the elements sharing a connecting element",
     "For every choice of start, connecting and connected dimension the neighborhood of an element holds exactly the elements that share at least one connecting element with it, each once, never the element itself. The lists are ascending or in first-visit order as requested, and neighborhood between equal dimensions is symmetric.",
     ["inputs"], MESHES + ", and all triples of dimensions", TEST + "only a few neighborhoods are compared there.",
     [MF + "MeshNeighborhood.h", MF + "MeshConnections.h"], [("MeshNeighborhood::neighbors", MF + "MeshNeighborhood.h")], ["result of UnstructuredMesh::neighborhood"])
check("C09", RM, NOTE, RULE)
prop("C10", "Mesh colouring is proper and complete for both methods and every seed",
     "Colouring the elements of one dimension over a connecting dimension gives every element a colour so that two distinct elements sharing a connecting element never have the same one. It holds for the greedy and the random method, for every seed, and the greedy colouring never uses more colours than the largest number of conflicting neighbours plus one; the same input and seed give the same colouring.",
     ["inputs", "configurations"], MESHES + ", all dimension pairs, both methods, all seeds, including meshes without elements", TEST + "two colourings are compared with fixed expectations.",
     [MF + "MeshColoring.h"], [("greedy first-free colour", MF + "MeshColoring.h"), ("random reselection", MF + "MeshColoring.h")], ["result of UnstructuredMesh::coloring"])
check("C10", RM, NOTE, RULE)
prop("C11", "Computed element centers are the centers of the elements",
     "The center of an edge is its midpoint, and the default center of every higher element is the average of the centers of its sub-elements (in 2D of the cell's edges); tessellated 3D face centers are area-weighted. Centers do not depend on numbering or orientation, always lie inside convex elements, commute with translation and scaling, and are stored unchanged by initializeCenters.",
     ["inputs", "configurations"], MESHES + ", both computation methods", TEST + "centers of a single mesh are checked.",
     [MF + "ComputeCenters.h", UM + "UnstructuredMesh.h"], [("computeCenters", MF + "ComputeCenters.h"), ("initializeCenters", UM + "UnstructuredMesh.h")], ["computeElementCenters", "getCenter of faces and cells"])
check("C11", RM, NOTE, RULE)
prop("C12", "Computed element measures equal the geometric measures and add up",
     "Edge lengths, face areas and cell volumes computed for a mesh equal the true lengths, areas and volumes (default method for planar faces and star-shaped cells, tessellated method for the tetrahedral decomposition), are positive, and cell measures add up to the measure of the meshed domain. They do not depend on numbering and scale with the proper power of length.",
     ["inputs", "configurations"], MESHES + " with cells star-shaped with respect to their centers, both computation methods", TEST + "measures of one prism pair, one hypercube and one 2D file are checked.",
     [MF + "ComputeMeasures.h", "src/GTMesh/NumericStaticArray/GramSchmidt.h"], [("computeMeasures, METHOD_DEFAULT and METHOD_TESSELLATED", MF + "ComputeMeasures.h")], ["computeElementMeasures"])
check("C12", RM, NOTE, RULE, assumptions=["cells are star-shaped with respect to the computed centers; planar faces for the default method"])
prop("C13", "Face normals are unit, orthogonal to the face and consistently oriented",
     "Every computed face normal has unit length and is orthogonal to its (planar) face; in 2D it is the edge vector rotated clockwise, in 3D it points from the left to the right cell. Consequently the area-weighted outward normals of every closed cell sum to zero.",
     ["inputs", "configurations"], MESHES + " with planar faces, both methods, faces with or without boundary cells", TEST + "a handful of normals of one mesh are compared.",
     [MF + "ComputeNormals.h"], [("_ComputeNormals for 2D, 3D, nD and tessellated 3D", MF + "ComputeNormals.h")], ["computeFaceNormals"])
check("C13", RM, NOTE, RULE, assumptions=["in four and more dimensions the orientation pinned by the existing test (towards the left cell) is taken as intended"])
prop("C14", "Cell distances and center differences match the cell centers across each face",
     "For every inner face the cells-distance is the Euclidean distance of the two cell centers and the center difference is the right minus the left center; at a boundary face the face center stands for the missing cell, or the boundary cell's center once boundary cells are set up. Distances are positive and do not depend on which side is left.",
     ["inputs", "histories"], MESHES + ", before and after the set-up of boundary cells", TEST + "distances of one mesh are compared.",
     [MF + "CellsDistance.h", MF + "ComputeCellsCenterDifference.h"], [("computeCellsDistance", MF + "CellsDistance.h"), ("computeCellsCenterDifference", MF + "ComputeCellsCenterDifference.h")], ["results of the two functions"])
check("C14", RM, NOTE, RULE)
prop("C15", "Edge orientation of faces matches the traversal around the face",
     "An edge is reported left of a face exactly when its direction from the first to the second vertex runs counter-clockwise around the face center: in 2D around the cell's center, in 3D as seen against the face normal. Hence the oriented edges of a face close into one loop, reversing an edge reverses exactly its own flags, and all overloads agree.",
     ["inputs"], MESHES + " (3D)", TEST + "one mesh is looked at.",
     [MF + "EdgesOrientation.h"], [("edgesOrientation / edgeIsLeft", MF + "EdgesOrientation.h")], ["result of edgesOrientation"])
check("C15", RM, NOTE, RULE)
prop("C16", "Face-cell linkage and boundary cells stay consistent over any operation history",
     "A face remembers at most two cells, answers queries about the other cell and the next boundary element by cell, and rejects queries about foreign or invalid cells, after any history of its operations; swapping its sides changes no per-cell answer. Setting up boundary cells gives every missing side of a face its own boundary cell that refers back to the face and sits at its center, touches nothing else, is idempotent, and is undone by clearing the mesh.",
     ["histories", "inputs"], "all operation sequences on a face connection, all index types; " + MESHES, TEST + "no test calls the linkage operations in other than construction order.",
     [UM + "MeshElements/CellConnection.h", UM + "MeshElements/CellBoundaryConnection.h", UM + "MeshElements/MeshElements.h", UM + "UnstructuredMeshDefine.h"],
     [("CellBoundaryConnection::setNextBElem/getNextBElem", UM + "MeshElements/CellBoundaryConnection.h"), ("setupBoundaryCells", UM + "MeshElements/MeshElements.h")], ["getters of faces and boundary cells"])
check("C16", "runtime monitoring: state-machine model checked after every operation, ASan+UBSan", NOTE, "random operation histories (3..30 operations) on a face connection for four index types, and " + RULE, {"answered_queries": 1000, "rejected_queries": 1000, "boundary_slots": 500})
prop("C17", "Sub-element containers and element storage behave as bounded sequences",
     "A sub-element container, fixed or dynamic, holds exactly the indexes added and not removed, in order, for every sequence of operations; adding beyond a fixed capacity or removing a missing position is rejected and changes nothing. Typed element indexes address the element of that dimension and position, and copies of a mesh are independent of the original.",
     ["histories", "inputs"], "all operation sequences, capacities below and above 255, index types; meshes with fixed and dynamic storage", "No test removes a sub-element, reaches the capacity or copies a mesh.",
     [UM + "MeshElements/MeshElement.h", UM + "MeshElements/ElementIndex.hpp", UM + "MeshElements/MeshElements.h"], [("SubelementContainer", UM + "MeshElements/MeshElement.h"), ("ElementIndex, MeshElements::getElement", UM + "MeshElements/MeshElements.h")], ["container iteration", "element addresses"])
check("C17", "runtime monitoring: sequence model checked after every operation, ASan+UBSan", NOTE, "random add/remove/set/copy histories on containers of capacity 0(dynamic),1,4,8,20,300; random meshes in both storages", {"removed": 200, "rejected": 100, "added": 1000})
prop("C18", "Mesh data containers match the mesh in size and address exactly one element",
     "A container allocated for a mesh (or after another container) has in each mapped dimension exactly one value per element, initialised as requested, and every way of addressing (element, typed index, dimension, position) reaches the same, distinct value; checked access beyond the end throws. Copies are deep, moves keep the values, and reallocation keeps existing values, for containers with one type and with a type per dimension.",
     ["inputs", "configurations"], MESHES + ", all mapped dimension lists in any order, one or several data types", "The tests use one mesh and few dimension lists.",
     [UM + "MeshDataContainer/MeshDataContainer.h"], [("allocateMemory recursion", UM + "MeshDataContainer/MeshDataContainer.h"), ("dimensionIndex / DimensionPos", UM + "MeshDataContainer/MeshDataContainer.h")], ["addresses and values of the container"])
check("C18", RM, NOTE, RULE, {"addressed": 1000, "rejected": 100})
NUM = "src/GTMesh/NumericStaticArray/"
prop("C20", "Vector algebra is exact component-wise arithmetic for every dimension and type",
     "Addition, subtraction, scaling, division, scalar and cross products, norms, comparison and list assignment of fixed-size vectors equal the component-wise mathematical definition within rounding of the element type, in the copying and in-place forms alike, also when operands alias or the scalar has another arithmetic type. Missing list items become zero.",
     ["inputs", "configurations"], "all component values (zeros, huge, tiny, special), dimensions 1-7, float/double/long double/int/int64 components", "The tests use few vectors of one type.",
     [NUM + "Vertex.h", NUM + "InlineArrayOperations.h", NUM + "Vector.h"], [("recursive inline array operations", NUM + "InlineArrayOperations.h"), ("Vertex operators", NUM + "Vertex.h")], ["operator results"])
check("C20", RM, "Randomised differential monitoring against long double/int128 references under ASan+UBSan; nothing beyond the observed operands.", "random component values of mixed magnitude and sign; distinct by operand bits", {"components": 10000, "products": 1000, "aliased": 1000})
prop("C21", "Gram-Schmidt yields the orthogonal basis and norms of its input",
     "For linearly independent input vectors, orthogonalization returns the residual of each vector against the preceding ones, normalised in the overloads with norms, whose norms are returned exactly; all four overloads (array or dynamic, with or without normalisation) agree. The span is preserved and the product of the norms is the volume spanned.",
     ["inputs"], "all well-conditioned sets of n vectors in dimension d >= n, several real types", "The tests run a single example.",
     [NUM + "GramSchmidt.h"], [("gramSchmidt overloads", NUM + "GramSchmidt.h")], ["output vectors and norms"])
check("C21", RM, "Differential monitoring against an iterated modified Gram-Schmidt in long double; inputs are limited to condition about 1e1 so that classical Gram-Schmidt is expected to be accurate.", "random vector sets of n<=4, d<=5 with residual ratio above 0.15; distinct by text of the vectors", {"vectors": 1000})
