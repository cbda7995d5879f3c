BS = "src/GTMesh/BinarySerializer/"
BZ = BS + "Serializers/"
TR = "src/GTMesh/Traits/"
DB = "src/GTMesh/Debug/"
RM2 = "runtime monitoring: randomised driver with reference oracle, ASan+UBSan+libstdc++ assertions"
NOTE2 = "Randomised runtime monitoring of the real headers under ASan+UBSan; no guarantee beyond the executions observed. Trusts the driver's reference model, g++ and its sanitizers."
BTEST = "The unit tests serialize five fixed values; "
prop("C25", "Every serialized value is read back equal, consuming exactly its bytes",
     "Writing any supported value (numbers, enums, strings, sequences, fixed-size arrays, sets, maps, pairs, tuples, mesh vectors, mesh data containers, traited, custom and bound classes, nested at will) appends to the data, and reading it back gives an equal value. The target's previous content is replaced and exactly the bytes written are consumed. Bound traits, primary and secondary, decide which members are stored at every level, and members they leave out stay untouched.",
     ["inputs"], "all values of all supported types, targets of any previous content, data before and after the value", BTEST + "the property quantifies over all types and values.",
     [BS + "BinarySerializer.h", BZ + "SerializeCompactContainer.h", BZ + "SerializeIterable.h", BZ + "SerializeIndexable.h", BZ + "SerializeTraitedClass.h", BZ + "SerializeTuple.h", BZ + "SerializeSimple.h", BZ + "SerializeCustom.h"], [("serializer selection", BS + "BinarySerializer.h"), ("element-wise and compact serialization", BZ)], ["values read", "iterator after reading", "getData"])
check("C25", RM2, NOTE2, "random values of 62 types plus bound traits; a case is distinct by type and hash of the serialized bytes", {"values": 10000, "bound objects": 5000, "bytes": 100000}, assumptions=["std::vector<bool> can only be written, forward_list not at all (they do not compile)", "getter/setter members without a reference getter are not serializable (they do not compile)", "data are exchanged on one platform"])
prop("C26", "The binary serializer reads values in the order they were written",
     "Reading returns the written values one after another in the order of writing, regardless of writes between the reads, of resetting, copying, moving or clearing the serializer, and of what is done with its copies. After the last value, reading starts again from the first one, isIteratorValid tells whether a value remains, and neither reading nor resetting changes the data.",
     ["histories"], "all sequences of write, read, resetIterator, clear, copy, assignment and reads/writes of copies", "The unit tests write everything first and read it once.",
     [BS + "BinarySerializer.h"], [("read position", BS + "BinarySerializer.h")], ["values read", "isIteratorValid", "getData"], [("mPosition", "position of the next value", BS + "BinarySerializer.h")])
check("C26", "runtime monitoring: model-based random histories against a sequence model, ASan+UBSan", NOTE2, "random histories of 10..130 operations over 62 value types; a case is distinct by its history and final bytes", {"reads": 20000, "writes": 20000, "wraps": 500, "copies": 1000})
prop("C27", "Serializer files hold exactly the data, and failures are reported",
     "saveToFile writes exactly the serialized bytes, replacing an older file, and loadFromFile replaces the data of any used serializer by the file's content and reads it from its beginning. A file that cannot be opened, read or completely written is reported by a std::exception, and neither saving nor a failed operation changes the serializer's data or read position.",
     ["inputs", "histories", "faults"], "all data, all histories of writes, reads, saves and loads over several serializers and files, missing files and directories, unwritable paths, full devices", BTEST + "one dump of one vector is loaded once.",
     [BS + "BinarySerializer.h"], [("saveToFile/loadFromFile", BS + "BinarySerializer.h")], ["bytes of the file", "getData and values read after loading", "exceptions"])
check("C27", "runtime monitoring: model-based histories over files and fault injection (missing, unwritable, full), ASan+UBSan", NOTE2, "random data and histories; a case is distinct by the hash of data or history", {"dumps": 3000, "failures": 500, "loads": 3000})
prop("C28", "Truncated or damaged binary data are rejected, never overrun memory",
     "Reading a value from a serializer whose data end too early, or storing a container into a fixed-size one of another size, or a bool byte other than 0 and 1, is rejected by a std::exception after all complete values before it were read. Damaged data, including absurd element counts, are rejected or give some valid value, but never access memory outside of the data and the target, and leave the serializer and the target usable.",
     ["inputs", "faults"], "all truncations of all values, all byte damages, all stored sizes", "No test reads damaged data.",
     [BS + "BinarySerializer.h", BZ + "SerializeSimple.h", BZ + "SerializeCompactContainer.h", BZ + "SerializeIndexable.h"], [("checkAvailable", BS + "BinarySerializer.h"), ("size check of fixed-size containers", BZ + "SerializeCompactContainer.h"), ("bool validation", BZ + "SerializeSimple.h")], ["exceptions of read", "ASan/UBSan reports", "memory around the target"])
check("C28", "runtime monitoring: fault injection into serialized data under ASan+UBSan with acceptance oracle", NOTE2, "every truncation of small values, sampled ones of large values, random byte damages, all sizes 0..11 into fixed-size targets; a case is distinct by type and hash of the bytes", {"truncated": 10000, "rejected": 5000, "accepted": 5000}, assumptions=["reading through the serializer (the static readNext knows no end of the data)", "allocation requests above 64 MB fail with bad_alloc in the driver", "element counts of std::list/deque and std::valarray are not damaged (node-wise allocation; libstdc++ valarray is left dangling by a failed resize)"])
prop("C22", "Class traits read and write exactly the described members",
     "For every way a member can be described (member pointer, reference/const/value getters, getter and setter pairs, free functions, functors, lambdas, std::bind/function, objects and pointers to them, the trait macros and hand-written traits), setValue writes exactly that attribute and getValue and getAttr return it. No other attribute changes, and every access reports its capabilities correctly. apply visits all attributes once in the declared order with their names, also nested ones, and traits of mesh data containers describe exactly the containers' data.",
     ["inputs", "configurations"], "all objects, values and kinds of accessors, all numbers and types of attributes", "The unit tests access a few attributes of two classes.",
     [TR + "Traits.h", TR + "MemberAccess/GetSetAccess.h", TR + "MemberAccess/MemberAccess.h", TR + "MemberAccess/AccessType.h", TR + "FunctionTraits.h", TR + "CustomTypeTraits.h", UM + "MeshDataContainer/MeshDataContainer.h"], [("accessors", TR + "MemberAccess/"), ("Traits, apply, default traits macros", TR + "Traits.h")], ["values of all members before and after the access", "names and order of visited attributes", "capability constants"])
check("C22", RM2, NOTE2, "kinds of accessors times value types times random values; every member of the object compared after every access", {"set": 10000, "get": 100000, "applied": 10000, "names": 1000}, assumptions=["getters taking the object by value are not accessible through const objects", "a pair of two data-member pointers, and a reference returning std::bind used as setter, do not compile"])
prop("C23", "Bound traits replace the default ones consistently at every level",
     "For every class, the first of the bound traits describing it is selected (the bound instance itself), wherever it stands among the others, and only otherwise its default IO or arithmetic traits, or none. Exporting a bound object to a stream or the standard output uses this selection at every level of members, containers, pairs and tuples. The binder refers to the bound object, const or not, without copying or changing it.",
     ["inputs", "configurations"], "all objects, all lists of bound traits of any classes, lengths and orders, all nestings", "The unit tests bind one list of traits to one object.",
     [TR + "TraitsBind/TraitsBind.h", DB + "Printers/PrintTraitedClass.h", DB + "VariableExport.h"], [("SelectTraits", TR + "TraitsBind/TraitsBind.h"), ("print with a tuple of traits", DB + "Printers/")], ["exported text", "address of the selected traits"])
check("C23", RM2, NOTE2, "random nested objects times lists of bound traits; a case is distinct by list and expected text", {"printed": 3000, "selected": 100, "defaults": 20}, assumptions=["the printers accept tuples of constant references as built by bindTraits, not std::tie", "bound serialization and VTK data are decided by C25 and C05"])
prop("C24", "Arithmetic of traited classes is member-wise arithmetic in every form",
     "Sums, differences, element-wise products, scaling, division by a number, powers, negation, absolute values and elementary functions of traited objects equal those of each described member, also nested, whatever mixture of constant, named and temporary operands is used. Operands that are not assigned to stay unchanged, results outlive temporary operands, and an object may be combined with itself or scaled by its own member. The maximum, minimum and sum are those of all described members, including arrays.",
     ["inputs"], "all objects of all traited classes, numbers and operand categories", "The unit tests compare a handful of values of two classes.",
     [TR + "TraitsAlgorithm/TraitsAlgorithm.h"], [("operators and functions", TR + "TraitsAlgorithm/TraitsAlgorithm.h")], ["members of results and operands"])
check("C24", RM2, NOTE2, "random members of 15 classes times operand categories, in two include orders; a case is distinct by the bits of its operands", {"members": 100000, "binary": 10000, "functions": 5000, "aggregates": 5000, "aliased": 1000}, assumptions=["products and negation of vector members do not exist (dot product, no unary minus)", "integer results are exact, floating ones within a few units in the last place", "no overflow, arguments inside the domain of the functions", "pow(number, object) raises the object to the number; not claimed"])
prop("C29", "Variables are exported as text telling their whole value",
     "Exporting any variable (numbers, booleans, texts, enums, pointers, containers, indexable types, mesh vectors, pairs, tuples, traited classes and types with a user's PrintTo or output operator, nested at will) writes every element and member exactly once, in order and with its name, and quotes and escapes texts. Numbers obey the stream's format, while the stream's state and the variable stay unchanged. The export to the standard output writes the same text.",
     ["inputs"], "all values of all exportable types, all texts, any stream and its format", "The unit tests compare the text of about ten fixed values.",
     [DB + "VariableExport.h", DB + "Printers/PrintText.h", DB + "Printers/PrintIterable.h", DB + "Printers/PrintIndexable.h", DB + "Printers/PrintTuple.h", DB + "Printers/PrintTraitedClass.h", DB + "Printers/PrintExportable.h", DB + "Printers/PrintAny.h", DB + "Printers/PrintCustom.h", TR + "CustomTypeTraits.h", TR + "Interfaces/InterfaceIndexable.h", UM + "MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h", UM + "MeshDataContainer/MeshDataContainerTraits/MeshDataContainerIOTraits.h"], [("selection of the printer", DB + "VariableExport.h"), ("printers", DB + "Printers/")], ["text in the stream", "text on the standard output", "stream state"])
check("C29", RM2, NOTE2, "random values of about 70 types to string, file and derived streams of random formats and to the standard output; a case is distinct by type and expected text", {"stream": 5000, "stdio": 1000}, assumptions=["signed and unsigned char are exported as characters to streams and numbers by stdio; not claimed", "types known only by a user's output operator, smart pointers and unknown types have no export to the standard output claimed", "function pointers are not claimed"])
prop("C30", "JSON logs are valid JSON and hold exactly the recorded variables",
     "A completed JSON log (destroyed, reopened elsewhere or left by its logger) is a valid JSON document with one record per recorded variable, in order, whose file, line, expression and data decode to exactly those recorded, whatever characters they contain. Variables recorded by one call share a group, later calls have greater groups. Reopening completes the previous file, writing after destroying starts the file again, destroying twice changes nothing, and a logger that recorded nothing creates no file.",
     ["inputs", "histories"], "all values of all types with a JSON form, all expressions and file names, all histories of create, write, destroy and destruction", "The unit test compares the log of one call.",
     [DB + "JSONLogger.h", DB + "Debug.h", DB + "Printers/PrintText.h", DB + "VariableExport.h"], [("records", DB + "JSONLogger.h"), ("quoting", DB + "Printers/PrintText.h")], ["content of the log files"], [("logFile, firstWrite, groupIndex", "open file and position in it", DB + "JSONLogger.h")])
check("C30", "runtime monitoring: random histories against a model, offline strict JSON checker over the log files, ASan+UBSan", NOTE2, "random histories of 1..14 operations over 3 files and 32 type combinations; a case is distinct by its history, names and values", {"records": 10000, "logs": 4000, "unused logs": 100, "macro records": 50}, assumptions=["numbers are written with the stream's six digits", "values without a JSON form (non-text keys, nan and inf, pointers, unknown types) are known findings", "the last call's records may be incomplete until the log is destroyed"])
prop("C31", "Console logs and debug macros print every variable once with its place",
     "The console logger and the debug macros print every variable or message once, in order, with its expression, value, file, line and, if enabled, function to the promised channel, according to the settings in force, which printing never changes and reset restores. Colours only add the colour codes. Conditional macros print and evaluate their arguments exactly if the condition holds and are single statements, DBGTRY reports an exception and exits with 1, and with UNDEBUG all macros do nothing except running the code of DBGTRY.",
     ["inputs", "configurations", "histories"], "all variables, places, settings, numbers of arguments up to 40 and sequences of macros", "The unit tests print without checking most of the output.",
     [DB + "ConsoleLogger.h", DB + "Debug.h", "src/GTMesh/Macros/MacroForEach.h", DB + "VariableExport.h"], [("console logger", DB + "ConsoleLogger.h"), ("macros", DB + "Debug.h"), ("FOR_EACH", "src/GTMesh/Macros/MacroForEach.h")], ["text on the standard error and output", "exit status", "number of evaluations"], [("settings of the logger", "colour, file name, function, aggregation, identation", DB + "ConsoleLogger.h")])
check("C31", RM2, NOTE2, "random settings, places, values and sequences of macros in two units (and one with UNDEBUG); a case is distinct by the expected output", {"outputs": 4000, "stdio outputs": 4000, "macros": 3000, "undebug": 50, "failures": 20}, assumptions=["the exact layout of the lines is the one of the code (layout is compared exactly)", "DBGVAR_CSV refers to a logger that does not exist and is not claimed", "DBGTRY is not a single statement"])
prop("C33", "HTML logs are complete pages holding exactly the recorded variables",
     "A completed HTML log (destroyed, reopened elsewhere or left by its logger) is a complete page whose data have one row per recorded variable, in order, with the group, line, file, expression and value exactly as recorded, whatever characters they contain, and nothing recorded can end the page's script. Variables recorded by one call share a group, later calls have greater groups. Reopening completes the previous file, destroying twice changes nothing, and a logger that recorded nothing creates no file.",
     ["inputs", "histories"], "all values with a JavaScript form, all expressions and file names, all histories of create, write, destroy and destruction", "No unit test reads a HTML log.",
     [DB + "HTMLLogger.h", DB + "Debug.h", DB + "Printers/PrintText.h", DB + "VariableExport.h"], [("rows and escaping", DB + "HTMLLogger.h")], ["content of the log files"], [("logFile, groupIndex", "open file and position in it", DB + "HTMLLogger.h")])
check("C33", "runtime monitoring: random histories against a model, offline checker parsing the log files, ASan+UBSan", NOTE2, "random histories of 1..14 operations over 3 files and 32 type combinations; a case is distinct by its history, names and values", {"records": 10000, "logs": 4000, "unused logs": 100, "macro records": 50}, assumptions=["the name-only form of writeVar writes no row and is not claimed", "nan, inf and unknown types are known findings", "the browser's display of the data is not run"])
prop("C32", "Concurrent reads of shared objects and use of independent ones are safe",
     "Any number of threads may at the same time query one mesh, read the same containers, serializer and traits, or each build, load, write, colour, serialize and log objects of their own: there is no data race, and every operation gives the result it gives alone. A singleton is constructed exactly once and all threads get the same complete instance, whichever asks first.",
     ["schedules", "inputs"], "all interleavings of all read-only operations on shared objects and all operations on independent ones", "The unit tests are sequential.",
     [UM + "UnstructuredMesh.h", UM + "MeshFunctions/MeshFunctions.h", UM + "MeshElements/MeshElements.h", BS + "BinarySerializer.h", "src/GTMesh/Singleton/Singleton.h", TR + "Traits.h", DB + "VariableExport.h"], [("Singleton", "src/GTMesh/Singleton/Singleton.h"), ("reads through a guard of the current thread", BS + "BinarySerializer.h"), ("mesh functions", UM + "MeshFunctions/")], ["ThreadSanitizer reports", "results of the operations", "number of constructions"], [("function-local and global statics", "instances, tables and caches shared by threads", "src/GTMesh/")])
check("C32", "runtime monitoring: ThreadSanitizer (happens-before race detection) over random concurrent workloads with a sequential oracle", "Randomised concurrent executions of the real headers under ThreadSanitizer; finds races of the executed operation pairs whatever their timing, but only of those executed. Trusts the TSan runtime and the sequential result.", "2..8 threads, each 4..14 random operations with random yields; a case is distinct by the observed order in which operations of the threads finished", {"concurrent operations": 2000, "concurrent runs": 100, "shared meshes": 100, "singletons": 100}, assumptions=["the standard error and output shared by console loggers, the macros' common loggers, and writing to one object from several threads are not claimed"], runs=[{"flavour": "tsan"}], libs=["-pthread"])
MA = "src/GTMesh/Macros/MacroForEach.h"; UT = "src/GTMesh/Utils/"
prop("C19", "Iteration macros, trait macros and compile-time loops cover every item once",
     "For every number of arguments up to 40, the FOR_EACH macros apply the given macro to every promised argument (all, odd, even, pairs, pairs with a constant) exactly once and in order, and all eighteen kinds of trait macros describe exactly the listed members of classes and templates, in order and with their names. Compile-time loops and sequences visit exactly the promised range. Class selection picks the first class fulfilling the condition, otherwise the last one, and function and type traits tell the signature and abilities of every type.",
     ["inputs", "configurations"], "all numbers of arguments 1..40, all ranges and steps, all lists of candidates, all signatures, all members and values", "The unit tests use a few of the numbers of arguments.",
     [MA, TR + "Traits.h", UT + "ConstexprFor.h", UT + "ClassSelector.h", TR + "FunctionTraits.h", TR + "CustomTypeTraits.h", UM + "MeshFunctions/MeshFunctionsDefine.h"], [("FOR_EACH families", MA), ("trait macros", TR + "Traits.h"), ("loops and selection", UT)], ["sequence of evaluated arguments", "members accessed by the traits", "types selected at compile time"])
check("C19", "runtime monitoring: recorded sequence of evaluated arguments and accessed members compared with the listed ones, ASan+UBSan", NOTE2, "every number of arguments times random values; generated trait macro invocations (1..20 attributes, 3 kinds, 3 families, classes and templates); random ranges, candidate lists and signatures fixed by the generator; a case is distinct by its values", {"iterations": 1000, "arguments": 20000, "traits": 1000, "attributes": 5000, "loops": 500, "selections": 500, "signatures": 500, "sequences": 500, "abilities": 15}, assumptions=["FOR_EACH_ODD gets an odd number of arguments, FOR_EACH_EVEN and the pairs an even one", "at least one argument", "the MSVC branch of the macros is not compiled here", "descending compile-time loops step by one"])
prop("C34", "The page of an HTML log shows the recorded variables and filters them",
     "Opened in a browser, a completed HTML log shows a table with one row per recorded variable, in order, with the group, line, file and name as text and the value as its JSON text, whatever characters they contain. 'filter' shows, once each and in order, exactly the rows of the selected line (of all lines if it is negative) whose name and value match a filter, or whole groups of such rows if the first matching filter selects groups, and all such rows if no filter was added. 'show all data' shows every row again, and adding a filter keeps the filters entered before.",
     ["inputs", "histories"], "all recorded rows, numbers of groups, selected lines, filters and sequences of clicks", "No unit test reads a HTML log or runs its script.",
     [DB + "HTMLLogger.h"], [("showData, filterData, checkData, addFilter", DB + "HTMLLogger.h")], ["table of the page after every click"], [("dataToShow, numberOfSelectors, apliedRule", "what the page shows and how it chooses", DB + "HTMLLogger.h")])
check("C34", "runtime monitoring: the scripts of written pages run in node on a minimal document, random clicks against a model of the table", "Exploration of generated pages and click sequences; the document is a minimal stand-in of a browser (parser, fields with entered values, innerHTML), so behaviour that depends on more of a browser is not seen.", "pages of 0..200 records with 5 kinds of values, 1..14 actions with up to 12 filters; a case is distinct by its rows and actions", {"pages": 300, "shown rows": 5000, "filters": 300, "hidden rows": 1000}, assumptions=["names are not empty, filters are applied to numeric values, texts are ASCII", "node executes the scripts as a browser does"])
