#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a program so that the statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": hook}})
R = "src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/"
W = "src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/"
D = "src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/"
UM = "src/GTMesh/UnstructuredMesh/UnstructuredMesh.h"
ME = "src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h"
BS = "src/GTMesh/BinarySerializer/BinarySerializer.h"
DBG = "src/GTMesh/Debug/"
MF = "src/GTMesh/UnstructuredMesh/MeshFunctions/"

p("C01", "An incomplete or failing mesh input never loads as a mesh",
  "Loading a mesh (VTK 2D, VTK 3D, FPMA; from a stream by a reader or from a file by the mesh) whose input ends early, cannot be opened or fails while it is read either throws an exception or gives exactly the mesh and cell types of the complete file. It never returns normally with missing, additional or garbage vertices, edges, faces, cells or cell types, and a valid complete input never makes it throw. A file that could not be opened always makes the load throw.",
  ["inputs", "crash_points", "fault_sequences"], "every valid mesh file, every cut position, every position and kind of read, open or seek failure, every way the bytes are delivered, fresh and already used mesh objects",
  "The existing tests load one or two complete files from a healthy disk; no test cuts a file or fails a read.",
  [R + "VTKMeshReader.h", R + "FPMAMeshReader.h", R + "MeshReader.h", UM], [("checks of the stream after each section", R + "MeshReader.h"), ("UnstructuredMesh::load", UM)], ["exception or contents of the mesh after load"])
p("C02", "A loaded mesh is exactly what the file describes",
  "After a successful load of a well-formed mesh file (VTK 2D polygons; VTK 3D tetrahedra, hexahedra, wedges and pyramids; FPMA polyhedra) the mesh has the file's vertices in order with their coordinates, one cell per file cell in order with its type, and each distinct edge and face exactly once, shared by precisely the cells that touch it. Walking the boundary of every cell visits each of its faces once; every face names the right neighbouring cells, faces on the border of the domain are marked as boundary and no others, and element indexes equal positions. This does not depend on how the input bytes are delivered, nor, for files opened by the mesh, on the global locale.",
  ["inputs", "schedules"], "every well-formed mesh file, index type and reserved face capacity, every division of the input into chunks",
  "The tests check counts and a few connections of one or two tiny meshes.",
  [R + "VTKMeshReader.h", R + "FPMAMeshReader.h", ME, "src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h"], [("map of edges and faces by vertex indexes", R + "VTKMeshReader.h"), ("boundary ring through getNextBElem", ME)], ["mesh elements after load"])
p("C03", "What a load gives does not depend on history",
  "Loading a file into a mesh object, with a reader object, that were both used before (other meshes loaded, loads that failed half way, cleared, modified, written) gives the same mesh and the same cell types as loading it into a fresh mesh with a fresh reader. After a failed load the objects stay usable. Clearing a mesh leaves it with no element of any kind, including boundary cells.",
  ["histories", "fault_sequences"], "every sequence of loads, failed loads, clears and writes on the same objects",
  "Each test uses a fresh mesh and a fresh reader.",
  [R + "VTKMeshReader.h", R + "FPMAMeshReader.h", ME, UM], [("clear at the beginning of a load", R), ("MeshElements::clear", ME)], ["mesh and cell types after each load"])
p("C04", "VTK export and import preserve the mesh",
  "Writing a mesh as VTK and loading the file gives the same cells: the same vertices (to the printed precision), the same sets of faces and edges of each cell, the same cell order and the same cell types. A polyhedron is exported either as an exact standard cell or as tetrahedra which use its vertices and its centre (and face centres if needed), and together fill exactly that polyhedron, with neighbouring cells staying conforming. The written file is well-formed, and with initialised centres its cells are not turned inside out and have together the volume of the mesh.",
  ["inputs", "configurations"], "every 2D and 3D mesh with cell types matching the shapes of the cells, every mixture of native and split cells, every delivery of bytes",
  "The tests write a file for visual inspection and check nothing in it.",
  [W + "VTKMeshWriter.h", R + "VTKMeshReader.h"], [("indexMesh and the tessellation", W + "VTKMeshWriter.h")], ["bytes of the file", "mesh loaded from the file"])
p("C05", "FPMA export and import preserve the mesh",
  "Writing a 3D mesh as FPMA and loading the file gives the same mesh: the same vertices in order (to the printed precision), the same faces in order with the same edges, and the same faces of each cell in the same cell order. The file is well-formed: the vertices of every face are listed along its boundary and all counts agree with the contents, whatever the global locale is.",
  ["inputs", "configurations"], "every 3D mesh (polyhedra, native cells), every delivery of bytes",
  "No existing test checks the FPMA writer's output.",
  [W + "FPMAMeshWriter.h", R + "FPMAMeshReader.h"], [("indexMesh, vertices of faces by ring order", W + "FPMAMeshWriter.h")], ["bytes of the file", "mesh loaded from the file"])
p("C06", "A mesh file write that returns normally has stored the file",
  "When writing a mesh to a file returns without an exception, the file contains completely what was to be written, whatever the disk did (full disk, failing open, write or close, interrupted and partial writes) and whatever the global locale is. Otherwise it throws; and no healthy disk makes it throw. After a failed write the same objects write the complete file once the disk works again.",
  ["fault_sequences", "crash_points"], "every mesh, writer history, kind and position of a disk fault",
  "The tests write to a healthy disk and do not look at failures.",
  [UM, W + "VTKMeshWriter.h", W + "FPMAMeshWriter.h"], [("state of the stream checked after close", UM)], ["exception and bytes of the file"])
p("C07", "A reused writer writes what a fresh one writes",
  "A mesh writer (VTK 2D, VTK 3D, FPMA) that was used before with any sequence of meshes and cell types, including writes that failed, writes for a given mesh the same file as a fresh writer. This holds also after the mesh was changed, reloaded or replaced by another one in the same object, or its cell types were changed.",
  ["histories", "fault_sequences"], "every sequence of writes, reloads, changes of types and failed writes with the same writer",
  "Each test writes once with a fresh writer.",
  [W + "VTKMeshWriter.h", W + "FPMAMeshWriter.h", W + "MeshWriter.h", ME], [("lastHash compared with the signature of the mesh", W + "VTKMeshWriter.h"), ("updateSignature", ME)], ["bytes written"])
p("C08", "Cell data stay with their cells through export and import",
  "Cell data exported with a mesh to VTK appear in the file once per file cell, under their names and as the right kind (scalar, vector, tensor), with the value of the mesh cell the file cell comes from, also when cells are split into tetrahedra on export. Reading the data back gives every cell of the loaded mesh these values (to the printed precision), for default and for bound traits and for one or more arrays of data.",
  ["inputs", "configurations"], "every mesh, split pattern, data values and delivery of bytes",
  "The tests export one mesh and compare a few values.",
  [D + "VTKMeshDataWriter.h", D + "VTKMeshDataReader.h", W + "VTKMeshWriter.h"], [("backwardCellIndexMapping", W + "VTKMeshWriter.h"), ("indexData positions of columns", D + "VTKMeshDataReader.h")], ["bytes written", "values read back"])
p("C09", "Missing or incomplete cell data are reported",
  "Reading cell data from a VTK file that lacks a requested column, ends early, holds a word where a value should be or fails while it is read throws an exception, or gives exactly the stored values; values are never silently left unset, zero or taken from another column. The order of the columns in the file and other columns between them do not matter.",
  ["inputs", "crash_points", "fault_sequences"], "every data file, order of columns, cut position and read failure",
  "No test reads an incomplete data file.",
  [D + "VTKMeshDataReader.h"], [("seekColumn and checkColumn", D + "VTKMeshDataReader.h")], ["exception or values"])
p("C10", "The binary serializer gives back what was written, in order",
  "Values written to a binary serializer (arithmetic types, strings, vectors of any nesting, maps, sets, structures with traits) are read back equal and in the order of writing, however writes, reads, copies of the serializer and position resets are interleaved. Reading into a container replaces its previous contents. Reading a value leaves the following ones in place; after the last value reading starts again at the first, and clear leaves an empty serializer.",
  ["histories", "inputs"], "every sequence of writes and reads of values of all types",
  "The tests write a fixed handful of values and read them once.",
  [BS, "src/GTMesh/BinarySerializer/Serializers/"], [("mReadPosition and tagged sizes", BS)], ["values read"])
p("C11", "A saved serializer is complete or the save throws; a load never lies",
  "When saving a serializer to a file returns without an exception, loading that file gives a serializer with the same contents; if the disk fails in any way saving throws. Loading a file that is missing or fails while it is read throws and leaves the serializer with its previous contents. A successful load starts reading at the first value.",
  ["fault_sequences", "crash_points", "histories"], "every content, kind and position of a disk fault",
  "The test saves and loads once on a healthy disk.",
  [BS], [("saveToFile and loadFromFile", BS)], ["exception, bytes of the file, values read"])
p("C12", "Serializer operations that fail leave the stored data intact",
  "When writing a value to a serializer throws (out of memory or an exception of the written type), the serializer keeps exactly the values written before, in order, and can be used further. A read that throws leaves the stored data and the read position, so that the same value can be read again.",
  ["fault_sequences", "crash_points"], "every sequence of writes and every allocation that fails in it",
  "No test makes an operation fail.",
  [BS], [("a write that throws removes its partial record", BS)], ["values read afterwards"])
p("C13", "The JSON log is well-formed and complete",
  "A finished JSON debug log is a syntactically valid JSON document with one entry per logged call, in order, with the given source line, file, expression texts and values (for numbers, nested vectors of numbers and text without quotes or control characters). Opening, closing and reopening logs in any order loses no entry of the log file of the last opening, and the global locale changes nothing in it.",
  ["histories", "inputs"], "every sequence of create, log and destroy calls with every mix of argument kinds",
  "The tests write a log and look at it by eye.",
  [DBG + "JSONLogger.h", DBG + "VariableExport.h"], [("separators between entries; footer in destroy", DBG + "JSONLogger.h")], ["bytes of the log file"])
p("C14", "The HTML log is complete and closed",
  "A finished HTML debug log is a complete document (opened and closed elements match) with one record per logged call, in order, with the given source line, file, expression text and value. Opening, closing and reopening logs in any order loses no record of the log file of the last opening, and the global locale changes nothing in it.",
  ["histories", "inputs"], "every sequence of create, log and destroy calls",
  "No test checks the HTML log.",
  [DBG + "HTMLLogger.h", DBG + "VariableExport.h"], [("footer in destroy", DBG + "HTMLLogger.h")], ["bytes of the log file"])
p("C15", "Printed variables show the value, on any stream",
  "Exporting a variable to a stream prints every element of it in order, correctly nested and separated (numbers, booleans, text, pairs, containers, maps, nested combinations, structures with traits, data of a mesh under the names of their dimensions); containers of equal content print equally. The format settings of the stream are the same afterwards. When the stream fails after n bytes, what arrived is a prefix of the full text and the program goes on.",
  ["inputs", "fault_sequences"], "every value of the supported kinds, every failure position of the stream",
  "The tests print some values without checking the text on failing streams.",
  [DBG + "VariableExport.h", DBG + "Printers/"], [("printer selected by the type", DBG + "VariableExport.h")], ["bytes printed"])
p("C16", "A singleton is created once for all threads",
  "However many threads ask for the instance of a singleton at the same time for the first time, exactly one instance is constructed, and every thread gets that one, fully constructed. This holds also when the construction throws on first attempts: a later call constructs it.",
  ["schedules", "fault_sequences"], "every interleaving of first accesses",
  "The tests are single-threaded.",
  ["src/GTMesh/Singleton/Singleton.h", DBG + "Debug.h"], [("function-local static", "src/GTMesh/Singleton/Singleton.h")], ["constructor calls and addresses"])
p("C17", "Concurrent reading of one mesh is safe",
  "Any number of threads may query the same constant mesh at the same time (iterate over elements, apply functions over connections, compute connections, neighbourhoods, colourings, centres, measures and normals, create data containers over it, copy it and write the copy with an own writer): each gets the result it would get alone. No data race happens and the mesh is unchanged. (The mesh writers take the mesh as not constant and refresh its signature; writing one and the same mesh object from two threads is not part of this.)",
  ["schedules"], "every interleaving of the read-only operations of several threads on one mesh",
  "The tests are single-threaded.",
  [MF, UM, ME], [("no hidden shared mutable state in const operations", MF)], ["results of the threads"])
p("C18", "Independent objects do not influence each other across threads",
  "Threads that work with separate objects (each with its own meshes, readers, writers, serializers, loggers, data containers) may run concurrently: each gets exactly the results it would get running alone, and there is no data race.",
  ["schedules"], "every interleaving of threads that use the library on separate objects",
  "The tests are single-threaded.",
  [R, W, BS, D, MF, "src/GTMesh/Traits/"], [("no shared mutable static state", "src/GTMesh/")], ["results of the threads"])
p("C19", "Running out of memory ends in an exception, without leaks",
  "When an allocation fails inside any library operation (load, write, compute, serialise, colour, copy), the operation throws an exception to the caller; the process is not ended, no memory or file stays held, and no object is left in a state where destroying it or using it again is unsafe. Repeating the operation with memory available gives the same result as if it had not failed.",
  ["fault_sequences", "crash_points"], "every operation and every allocation within it",
  "No test makes an allocation fail.",
  [UM, R, W, BS, MF], [("containers as owners", "src/GTMesh/")], ["exception, live blocks, result of the repetition"])
p("C20", "Exceptions of user callbacks reach the caller",
  "When a function given to a mesh iteration (apply over elements, generic apply, apply over connections) throws at any call, the exception reaches the caller unchanged and the calls made until then are exactly the first ones of the full sequence of calls. The full sequence visits every element of the wanted dimension connected with the start element exactly as the mesh topology says. The mesh is unchanged and further operations work.",
  ["fault_sequences", "crash_points"], "every mesh, pair of dimensions, start and call which throws",
  "The tests use callbacks that do not throw.",
  [MF + "MeshApply.h", UM], [("MeshApply recursion", MF + "MeshApply.h")], ["calls and exception"])
p("C21", "Connections and colourings match the topology for every seed",
  "The computed connections between elements of any two dimensions list for each element exactly the elements connected with it by the topology, each once, and sorted when the sorted order is asked for; the neighbourhood through elements of a dimension lists exactly the elements that share one of them, without the element itself. A colouring (greedy or random, any seed and number of colours it starts with) gives no two elements sharing an element of the given dimension the same colour; the random colouring is the same again for the same seed.",
  ["inputs", "configurations"], "every mesh, dimensions, order, method and seed",
  "The tests check one tiny mesh with the default seed.",
  [MF + "MeshConnections.h", MF + "MeshNeighborhood.h", MF + "MeshColoring.h"], [("MeshApply with sets", MF + "MeshConnections.h"), ("ColorMesh", MF + "MeshColoring.h")], ["connections, neighbours, colours"])
p("C22", "A damaged mesh file never breaks the program",
  "Loading a mesh file or cell data with any damaged contents (changed bytes, numbers, keywords, missing, duplicated or swapped lines, cuts) either throws an exception or returns: no access to memory outside of objects, no endless loop, no end of the process. Afterwards the mesh object can be destroyed, cleared and used to load a good file.",
  ["inputs", "fault_sequences"], "every damage of a mesh file",
  "The tests load good files only.",
  [R + "VTKMeshReader.h", R + "FPMAMeshReader.h", D + "VTKMeshDataReader.h"], [("checks of the stream and of the declared numbers", R)], ["exception or return"])
p("C23", "Computed geometry follows the mesh through any history",
  "Whatever happened to a mesh object before (loads, moved vertices, centres initialised by either method, boundary cells set up, faces turned, copies) and whatever fresh memory contains, the computed geometry is that of the mesh as it is: computed and initialised centres are those of the present vertices (mean of the centres of the boundary elements; a tessellated face centre is the centroid of the triangles around that mean). With stored centres of the present vertices, lengths, areas and volumes of planar-faced convex cells are exact by either method, with faces that are not planar the tessellated ones are the sums over the triangles and tetrahedra around the stored centres, so that the cells add up to their domain. Normals of planar faces have unit length, are perpendicular and point from the left cell to the right one (2D: for counter-clockwise cells); distances and differences over a face are those of the centres of its left and right cell (on the border, of the cell and the face); orientations of edges agree with the normals.",
  ["histories", "inputs"], "every history of a mesh of convex cells, contents of fresh memory, index and real type",
  "The tests compare a few values of one mesh computed once.",
  [MF + "ComputeCenters.h", MF + "ComputeMeasures.h", MF + "ComputeNormals.h", MF + "CellsDistance.h", MF + "ComputeCellsCenterDifference.h", MF + "EdgesOrientation.h", UM], [("formulas per dimension", MF), ("centres stored in the elements", UM)], ["returned values", "centres of elements"])
p("C24", "Operations on structures with traits act component by component",
  "Arithmetic, comparison of maxima and mathematical functions applied to structures with arithmetic traits act on every described member and only on those, as the same operation on the members would.",
  ["inputs", "programs"], "every structure with traits and every value",
  "The tests use a few structures and values.",
  ["src/GTMesh/Traits/TraitsAlgorithm/"], [("recursion over the members", "src/GTMesh/Traits/TraitsAlgorithm/")], ["returned values"])
p("C25", "Traits read and write exactly the named member",
  "Traits of a structure list its members in the declared order with their names; getting a member (by index, in apply, by a path of indices) gives its current value and setting it changes that member of that object only, whether it is described by a member pointer, member functions, functions, functors, std::function or std::bind, through any history of using, copying, moving and binding traits. Each access calls the access function of that member once, on that object, and no other. An access function that throws, or memory that runs out, is reported to the caller and no other member changes.",
  ["programs", "histories", "fault_sequences"], "every declaration of traits, history of accesses, failing access function or allocation", "The tests use a few structures, one access each and no failing functions.",
  ["src/GTMesh/Traits/Traits.h", "src/GTMesh/Traits/MemberAccess/", "src/GTMesh/Traits/TraitsBind/"], [("MemberAccess", "src/GTMesh/Traits/MemberAccess/MemberAccess.h"), ("GetAccess and SetAccess", "src/GTMesh/Traits/MemberAccess/GetSetAccess.h"), ("apply and get", "src/GTMesh/Traits/Traits.h"), ("SelectTraits", "src/GTMesh/Traits/TraitsBind/TraitsBind.h")], ["returned values", "members", "calls of access functions"])
p("C26", "Fixed-size vectors obey vector algebra",
  "Vectors and vertices of a fixed dimension add, scale, compare, index and compute norms and scalar products component by component.",
  ["inputs"], "every dimension and value", "The tests use a few values.",
  ["src/GTMesh/NumericStaticArray/"], [("InlineArrayOperations", "src/GTMesh/NumericStaticArray/InlineArrayOperations.h")], ["returned values"])
p("C27", "A data container keeps one value per element through any history",
  "A data container has, for each of its dimensions, exactly one value per element of the mesh (or per value of the container) it was last allocated for; indexing it by an element, an index or a position gives the value of that element and no other, through any history of allocating for other meshes or like other containers, with or without an initial value, copying, moving and assigning. A copy has the values of its original and is independent of it, values stored before stay when a container is allocated again for the same or a larger mesh, new elements get the initial value. An operation which runs out of memory, or whose values throw while they are copied, reports that and neither mixes nor loses the values of other containers, and the container can be used again.",
  ["histories", "fault_sequences"], "every history of containers and meshes, list of dimensions and types, every failing allocation or copy", "The tests use one mesh and no failing allocation.",
  ["src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h"], [("DataContainer by position", "src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h"), ("allocateData", "src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h")], ["sizes and values"])

p("C28", "Debug macros record what they are given and leave the program alone",
  "A debug macro evaluates each of its expressions and conditions exactly once, evaluates and records the variables of a conditional form only when its condition holds, and changes nothing else of the program around it, whatever statement it stands in; with UNDEBUG defined the macros do nothing at all and the code given to DBGTRY runs as it stands. Every executed macro gives one record, in order, with its line, file, expression texts and values, on the console and in the HTML and JSON log alike, and the logs are complete documents when the program ends by returning, by exit or by DBGTRY. When the program ends at any other point, the logs hold a prefix of what had been recorded.",
  ["programs", "histories", "crash_points"], "every program using the macros, values it computes, way and point at which it ends",
  "The existing tests call the macros once each and look at nothing they record.",
  [DBG + "Debug.h", DBG + "ConsoleLogger.h", DBG + "HTMLLogger.h", DBG + "JSONLogger.h"], [("macros", DBG + "Debug.h"), ("loggers as singletons", DBG + "Debug.h")], ["console output", "log files", "values of the program"])

p("C29", "Meshes of four and five dimensions keep their topology and geometry",
  "For every mesh of four or five dimensions with convex cells, iterations, connections, neighbourhoods and colourings between any two dimensions follow exactly the incidence of its elements, an exception of the called function reaches the caller after exactly the calls before it, and a seed gives the same colouring again. Centres, measures, unit normals (which point towards the left cell of a face, or out of the right one if there is no left cell) and the distances over the faces are those of the present vertices and cells, whatever was built, moved, turned, copied, cleared or asked before and whatever fresh memory contains. Every side of a face without a cell gets one boundary cell of its own, a copy is equal to the mesh and independent of it, and a changed mesh has another signature.",
  ["histories", "inputs", "fault_sequences"], "every mesh of dimension 4 and 5, every history of changes and questions, every call at which the function throws",
  "The existing tests build one hypercube of dimension 4.",
  ["src/GTMesh/UnstructuredMesh/MeshElements/", "src/GTMesh/UnstructuredMesh/MeshFunctions/", "src/GTMesh/NumericStaticArray/GramSchmidt.h"], [("getCenters", "src/GTMesh/UnstructuredMesh/MeshFunctions/GetCenters.h"), ("gramSchmidt", "src/GTMesh/NumericStaticArray/GramSchmidt.h"), ("MeshApply", "src/GTMesh/UnstructuredMesh/MeshFunctions/MeshApply.h")], ["visits", "lists", "colours", "geometry"])

if __name__ == "__main__":
    v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(v, "properties.jsonl"), "w") as f:
        for q in P:
            assert len(q["title"]) <= 80, q["title"]
            for x in q["anchors"]["files"] + [m["where"] for m in q["anchors"]["mechanism"]]:
                assert os.path.exists(os.path.join("/repo", x)), x
            f.write(json.dumps(q) + "\n")
