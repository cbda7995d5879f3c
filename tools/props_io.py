IO = UM + "MeshIO/"
RD, WR = IO + "MeshReader/", IO + "MeshWriter/"
DIO = UM + "MeshDataContainer/MeshDataIO/"
IONOTE = "Randomised runtime monitoring under ASan+UBSan against an independent VTK/FPMA writer and strict parser (harness/io.h); no guarantee beyond the executions observed. Trusts that text tool, the mesh generator, g++ and its sanitizers."
IOTEST = "The unit tests load and store two or three fixed files; "
prop("C01", "VTK import reproduces exactly the mesh described by the file",
     "Loading an ASCII legacy VTK unstructured grid (2D: triangles, quads, polygons; 3D: tetrahedra, hexahedra, wedges, pyramids) gives a mesh with the file's vertices and cells in file order, every edge and face exactly once, and faces linked to exactly the cells that contain them. The boundary of each cell is one closed ring over its own faces, and the reader reports the type of every cell, for any formatting and any object loaded into.",
     ["inputs", "histories"], "all conforming 2D/3D meshes of the supported cell types, any numbering, number formatting, line ends and title, index/real types, fresh and used meshes", IOTEST + "the property quantifies over all meshes, numberings and formattings.",
     [RD + "VTKMeshReader.h", UM + "UnstructuredMesh.h"], [("edge and face recognition by vertex keys", RD + "VTKMeshReader.h"), ("UnstructuredMesh::load", UM + "UnstructuredMesh.h")], ["mesh after loadFromStream/load", "getCellTypes"])
check("C01", RM, IONOTE, "random conforming meshes of standard cells written by the monitor in varied formatting; a case is distinct by the hash of the file text", {"cells compared": 3000, "types compared": 1000})
prop("C02", "VTK export is a valid file describing exactly the same mesh",
     "Exporting a 2D mesh, or a 3D mesh of standard cells, writes a syntactically valid legacy VTK file whose points, cells and cell types are those of the mesh, with vertex orders that describe exactly the faces of each cell and are not inside out. Importing the file gives back the same mesh and cell types, and exporting that again gives the same file content.",
     ["inputs"], "all conforming 2D meshes and 3D meshes of tetrahedra, hexahedra, wedges and pyramids, for every numbering, edge and face orientation and start of the boundary rings", IOTEST + "orientation-dependent branches of the writer are reached by few numberings only.",
     [WR + "VTKMeshWriter.h", UM + "UnstructuredMesh.h"], [("indexCell / indexFace / indexPyramid / indexLinearObject", WR + "VTKMeshWriter.h"), ("UnstructuredMesh::write", UM + "UnstructuredMesh.h")], ["text of the written file", "re-imported mesh"])
check("C02", RM, IONOTE, "random conforming meshes with arbitrary numbering and orientation; a case is distinct by the hash of its incidence table and coordinates", {"exported cells": 3000, "round trips": 300}, assumptions=["3D cells have initialised centers", "wedges may be written in either of the two orientations in use, but all wedges of a file in the same one"])
prop("C03", "Polyhedral VTK export tessellates each polyhedron exactly and traceably",
     "A polyhedral cell is exported as one tetrahedron per (face, edge) pair made of the edge, the face center and the cell center, and every other cell as itself; the tetrahedra cover each pair once, fill the volume of a convex cell, and use no unused points. The backward mapping sends each exported tetrahedron, and nothing else, to its original cell, and the reported cell count is the number of exported cells.",
     ["inputs", "configurations"], "all 3D meshes of arbitrary polyhedra and every assignment of polyhedral/standard types to the cells, at any scale", IOTEST + "one mesh is exported with tessellation.",
     [WR + "VTKMeshWriter.h"], [("indexMesh, splitting into tetrahedra", WR + "VTKMeshWriter.h"), ("backwardCellIndexMapping", WR + "VTKMeshWriter.h")], ["text of the written file", "backwardCellIndexMapping, getNumberOfCells"])
check("C03", RM, IONOTE, "random polyhedral and mixed meshes at scales 1e-7..1e6; a case is distinct by the hash of its incidence table, coordinates and type choice", {"tetrahedra": 20000, "untouched cells": 200})
prop("C04", "FPMA files are imported and exported without loss",
     "Loading an FPMA file gives a mesh with the file's vertices, faces and cells in file order, correctly linked, with every cell reported as polyhedron. Exporting any 3D mesh writes each face as its vertex loop and each cell as the list of its faces, and the import of the export is the same mesh; the file format follows the last extension of the path.",
     ["inputs", "histories"], "all 3D meshes of arbitrary polyhedra, numberings and orientations; all formattings; fixed and dynamic storage", "No test writes an FPMA file; one is read.",
     [RD + "FPMAMeshReader.h", WR + "FPMAMeshWriter.h", UM + "UnstructuredMesh.h"], [("loadFaces/loadCells", RD + "FPMAMeshReader.h"), ("indexFace", WR + "FPMAMeshWriter.h")], ["loaded mesh", "written text"])
check("C04", RM, IONOTE, "random polyhedral meshes; a case is distinct by the hash of the file text or incidence table", {"imports": 300, "round trips": 150, "exported faces": 3000})
prop("C05", "Mesh data written to VTK belong to the right cells and are read back",
     "Exporting data mapped to cells writes every traited quantity once, as a scalar, vector or tensor with one complete value for each exported cell, equal to the value of the original cell (also of a tessellated one), and skips containers without traits. Importing reads exactly these values back through the traits (default or bound), whatever the order and layout of the quantities in the file, touches nothing else, and reports missing, truncated or invalid quantities by an exception.",
     ["inputs", "configurations"], "all meshes and type assignments as in C02 and C03, values of all magnitudes, scalar/vector/tensor quantities in 2D and 3D, member, getter/setter, default and bound traits, one or several containers", IOTEST + "the mapping of values to partly tessellated meshes and the other layouts are not tested.",
     [DIO + "VTKMeshDataWriter.h", DIO + "VTKMeshDataReader.h", "src/GTMesh/Traits/TraitsBind/TraitsBind.h"], [("writeColumn with backwardCellIndexMapping", DIO + "VTKMeshDataWriter.h"), ("indexData / readColumn", DIO + "VTKMeshDataReader.h")], ["text of the written data", "imported containers"])
check("C05", RM, IONOTE, "random meshes with random type choice and random values, seven container/traits variants; monitor-written data files; a case is distinct by the hash of mesh and types or of the file text", {"exported values": 50000, "imported cells": 5000, "rejected files": 100}, assumptions=["meshes with at least one cell; quantity names without white space; numbers as read by operator>>"])
prop("C06", "Reused readers, writers and meshes behave like fresh ones",
     "Whatever was exported before, a VTK or FPMA writer exports the current state of the mesh it is given, with the current cell types, exactly as a new writer would, including the cell count and tessellation map used for data. Loading into a used mesh or with a used reader, even after a failed load, gives what a fresh one gives; any change that alters the export alters the mesh signature.",
     ["histories"], "all sequences of mesh changes (coordinates, orientation, side, numbering, ring order, centers, types, whole mesh), exports, failed and successful loads of both formats", "No test changes a mesh between two exports with one writer.",
     [WR + "VTKMeshWriter.h", WR + "FPMAMeshWriter.h", UM + "MeshElements/MeshElements.h", RD + "VTKMeshReader.h", RD + "FPMAMeshReader.h"], [("lastHash/computeHash caching", WR + "MeshWriter.h"), ("updateSignature", UM + "MeshElements/MeshElements.h")], ["text written by reused and fresh writers", "meshes loaded into used and fresh objects"],
     [("lastHash, cellVert, backwardCellIndexMapping", "cached index of the last exported mesh", WR + "VTKMeshWriter.h"), ("meshSignature", "hash of the mesh", UM + "MeshElements/MeshElements.h")])
check("C06", "runtime monitoring: differential oracle (used against fresh object) after every step of random histories, ASan+UBSan", IONOTE, "random histories of 8..12 changes and exports/loads over two alternating meshes; a case is distinct by the hash of the meshes or files involved", {"re-exports": 3000, "reloads": 500, "rejected files": 100, "fresh writers": 1000}, flags=["-fno-lifetime-dse"], assumptions=["equal signatures of equal meshes are not required (the hash covers padding bytes)"])
prop("C07", "Truncated or malformed mesh files are rejected, never half loaded",
     "A VTK or FPMA file cut anywhere before its last needed value, with a wrong keyword, an unsupported cell type, a wrong number of types, or an index of a missing vertex or face is rejected by a std::exception, without leaking memory. Any other damage is either rejected or yields a mesh whose references all stay inside it; no input makes the reader access invalid memory or hang.",
     ["inputs", "faults"], "all prefixes of files and all token- and byte-level damages of valid files, for 2D and 3D VTK and FPMA, several index types and storage capacities", "No test loads a damaged file.",
     [RD + "VTKMeshReader.h", RD + "FPMAMeshReader.h", RD + "MeshReader.h"], [("readValue/readIndex", RD + "MeshReader.h"), ("keyword and count checks", RD + "VTKMeshReader.h")], ["exceptions of loadFromStream/load", "element references of an accepted mesh", "ASan/UBSan reports"])
check("C07", "runtime monitoring: fault injection into input files (truncation, mutation) under ASan+UBSan with acceptance oracle", IONOTE, "every prefix of small files, sampled prefixes of larger ones, 1..2 random token/byte mutations, targeted damages; a case is distinct by the hash of the undamaged file", {"truncations": 5000, "mutations": 3000, "malformed files": 200, "failed loads": 50}, assumptions=["allocation requests above 64 MB fail with bad_alloc in the driver"])
