#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here because long JSON lines are unpleasant to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, **kw):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    anchors.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": anchors})

prop("C01", "Serialisation buffer is an exact FIFO byte stream with seek",
     "Whatever interleaving of typed writes, raw writes, reads, rewinds, relative seeks, clears, enlargements, swaps and moves is applied to in-memory serialisation buffers, every read returns exactly the bytes last written at that position, in order and exactly once. Size, read position and the 'data left' test always equal the number of bytes written, the number read, and whether unread bytes remain. Swapping or moving buffers transfers the complete stream state and leaves other buffers untouched.",
     ["histories", "inputs"],
     "all sequences of buffer operations over several buffers, all item types and sizes, including zero-length raw data",
     "Tests serialise a fixed object once and read it back; they never interleave reads and writes on one buffer, seek, move or swap buffers in mid-stream.",
     ["pack_base.h", "Realloc.h", "pack_stream.h"],
     [("append/popoff and packraw/unpackraw", "pack_base.h class pack_t"), ("reseti/reseto/seeki/seeko/clear/resize", "pack_base.h class pack_t"), ("swap_base, move constructor and assignment", "pack_base.h class pack_t")],
     observe_at="public API of the buffer: size(), pos(), bool conversion, values read, exceptions")

prop("C02", "Reading past or corrupting a stream is always reported, never misread",
     "A read that needs more bytes than remain in a buffer raises an exception, transfers nothing and leaves the buffer's position unchanged, so that reading can continue once more data is supplied. Decoding any object from a stream that has been cut off at an arbitrary byte, or whose length fields are corrupted, raises an exception and never touches memory outside the buffer or the target.",
     ["inputs", "crash_points", "fault_sequences"],
     "every truncation point of every serialised object, every requested length up to the largest representable one, corrupted element counts",
     "Existing tests only decode complete streams; the error paths are not executed by any of them.",
     ["pack_base.h", "pack_stl.h", "pack_graph.h"],
     [("bounds checks", "pack_base.h pack_t::popoff, pack_t::unpackraw"), ("string/container length decoding", "pack_base.h, pack_stl.h"), ("vector fast path", "pack_stl.h BinStream >> vector")])

prop("C03", "File-backed streams behave like in-memory ones",
     "Objects and raw bytes written to a file-backed buffer are read back from that file in the same order with the same values, and the file holds exactly the bytes an in-memory buffer of the same kind would hold after the same writes. Rewinding or seeking before reading starts or continues at the corresponding byte. Reading beyond the end of the file raises an exception.",
     ["histories", "inputs"],
     "all sequences of writes followed by reads, rewinds and seeks on native and machine-independent file buffers",
     "One test packs one object to a file and reads it once; seeks, end of file and equality with the memory image are not exercised.",
     ["pack_base.h", "xdr_pack.cc"],
     [("file branches of append/popoff/packraw/unpackraw/seek", "pack_base.h"), ("stdio XDR streams", "xdr_pack.cc")])

prop("C04", "Machine-independent buffers: any volume, canonical bytes, safe end",
     "A machine-independent buffer returns every value and raw byte string written to it, in order, for any total volume and any interleaving of writes, reads, rewinds, moves and swaps. The bytes it holds are the canonical big-endian encoding, each item padded to a multiple of four bytes, independent of how the writes were grouped. Reading beyond what was written raises an exception.",
     ["histories", "inputs"],
     "all operation sequences and total sizes, in particular crossing internal chunk boundaries",
     "Tests pack one small object (well below one internal chunk) into a machine-independent buffer.",
     ["xdr_pack.cc", "pack_base.h"],
     [("chunked encoder", "xdr_pack.cc append/packraw"), ("decoder", "xdr_pack.cc popoff/unpackraw"), ("filters per type", "xdr_pack.cc XDR_filter")])

prop("C05", "Serialising then deserialising an object reproduces it exactly",
     "For every object built from fundamental types, enums, strings, fixed arrays (including multidimensional), standard sequences, sets, maps and multi-containers, pairs, smart pointers, nested and derived classes and their private members, decoding its serialised form yields an equal object whatever the target held before. Decoding consumes exactly the bytes the object produced, so several objects written one after another are read back one after another. Encoding never changes the object.",
     ["inputs", "programs", "histories"],
     "all object values of all composite types, all prior contents of the target, all sequences of objects in one buffer",
     "Tests round-trip a handful of literal objects into freshly constructed targets.",
     ["pack_base.h", "pack_stl.h", "pack_stream.h", "object.h", "multiArray.h", "classdesc.cc"],
     [("container descriptors", "pack_stl.h"), ("array, string and pointer descriptors", "pack_base.h"), ("generated member traversal", "classdesc.cc emitted *.cd")])

prop("C06", "Serialising a graph of references preserves its exact shape",
     "For every finite graph of nodes of one type, linked by reference-counted references or by pointers marked as graph nodes (held as members, in arrays, sequences or as mapped values) and reached from the link that is written - with sharing, cycles, self loops and null links - decoding the serialised form yields an isomorphic graph: the same node values, the same null links, and two links share a target exactly when they did before. This holds for every recursion limit, and for several graphs written to the same buffer. Encoding leaves the source graph unchanged.",
     ["inputs", "configurations", "histories"],
     "all rooted directed graphs with labelled nodes up to isomorphism, all recursion limits, several graphs per buffer",
     "Tests serialise one or two fixed graphs with the default recursion limit.",
     ["pack_graph.h", "pack_base.h", "ref.h"],
     [("pack_graph / unpack_graph", "pack_graph.h"), ("recursion limiting restart", "pack_graph.h"), ("node identification", "pack_graph.h")])

prop("C07", "Tree pointers round-trip and decoded memory is owned by the buffer",
     "Serialising pointers marked as tree nodes reproduces the same tree, with null pointers decoded as null. Objects allocated while decoding raw pointers live exactly as long as the buffer or some copy of its allocation list holds them, and are then destroyed exactly once.",
     ["inputs", "histories"],
     "all finite trees and all sequences of decoding, copying, assigning, erasing and clearing the allocation list and destroying buffers",
     "Tests decode one small tree once and never look at object lifetimes.",
     ["pack_graph.h", "pack_base.h"],
     [("treenode pack/unpack", "pack_graph.h"), ("PtrStoreRef reference counting", "pack_base.h"), ("alloced vector", "pack_base.h pack_t")])

prop("C08", "Reference-counted references keep targets alive exactly as long as needed",
     "After any sequence of constructing, copying, assigning (from references, from values, from its own target or from a reference stored inside its own target), nullifying and destroying reference-counted references, an object exists exactly while at least one reference refers to it and is destroyed exactly once. Copying a reference aliases the same object, assigning a value affects exactly the references documented to share it, and the reported use count, null tests and comparisons agree with the aliasing.",
     ["histories"],
     "all operation sequences over several references and (possibly nested) targets that do not create reference cycles",
     "No test observes destruction of targets or aliasing; references are only used as links in one serialised graph.",
     ["ref.h"],
     [("RefCount pointer operations", "ref.h class ref")])

prop("C09", "Buffer comparison is a consistent total order; deep equality is exact",
     "Comparing two serialisation buffers yields a total order: exactly one of less, equal and greater holds for any pair, it is antisymmetric and transitive, and equality holds exactly when the contents are identical. The comparison operators agree with the three-way result, and deep comparison of two objects reports equality exactly when their serialised contents are equal.",
     ["inputs"],
     "all pairs and triples of buffer contents of equal and different length, all pairs of objects",
     "One test sorts buffers that differ only in the way one libc happens to report; the operators are correct only for results of exactly -1 and 1.",
     ["pack_base.h"],
     [("pack_t::cmp and relational operators", "pack_base.h"), ("deepCmp, deepEq", "pack_base.h")])

prop("C10", "XML output decodes back to the object, for any member values",
     "Every object made of fundamental types (written with enough precision), characters and UTF-8 strings that XML can represent, enums, sequences, sets, maps, pairs, smart pointers as members, nested and derived classes is reproduced when its XML form is decoded into another object, whatever that object contained before. Indentation settings and the means of reading (stream or file, reader used before or not) do not alter the decoded result.",
     ["inputs", "programs"],
     "all object values (markup characters, control characters, non-ASCII text, empty strings and containers, extreme numbers) and all prior targets",
     "Tests round-trip one fixed object without special characters.",
     ["xml_pack_base.h", "xml_unpack_base.h", "xml_common.h", "xml_pack_epilogue.h"],
     [("xml_quote and tag writing", "xml_pack_base.h"), ("tokeniser and tag map", "xml_unpack_base.h")])

prop("C11", "XML output is well formed and mirrors the object structure",
     "The XML form of any object is a well-formed document: one root element, balanced and correctly nested tags, valid names, and quoted text. The element tree mirrors the object: one element per serialised public member in declaration order nested as the classes nest, base-class members included (inside an element for the base where bases are distinguished), sequence and set elements each in an element named after their type, map entries as pairs, and no element for excluded members.",
     ["inputs", "programs"],
     "all objects of all composite types, pretty-printed or not",
     "Tests compare one fixed document; structure for other types and values is not checked.",
     ["xml_pack_base.h", "xml_common.h", "xml_pack_epilogue.h", "classdesc.cc"],
     [("xml_pack_t tag writers", "xml_pack_base.h"), ("container xml_pack", "xml_pack_base.h")])

prop("C12", "XML reading extracts exactly the document's content by path",
     "For any well-formed document, with attributes, empty elements, comments, processing instructions, CDATA sections, character and named entities, repeated and unknown elements in any order, decoding assigns each member the text (entity-decoded, once) of the first element at its path, and the n-th container entry the n-th element; attributes, comments and unknown elements make no difference. Members absent from the document keep their value (smart pointers become null), unless the reader was asked to raise an exception for missing data, which it then does. Mismatched or unterminated markup raises an exception.",
     ["inputs"],
     "all small documents over these constructs, and all their truncations and tag mismatches",
     "Tests read only documents produced by the library's own writer.",
     ["xml_unpack_base.h"],
     [("XMLtoken, parse", "xml_unpack_base.h"), ("contentMap/count lookup", "xml_unpack_base.h xml_unpack_t")])

prop("C13", "Generated XML schema is complete, unambiguous and accepts the output",
     "The XML schema generated for any class defines every type it refers to exactly once (whatever the nesting, repetition or optionality of members) and declares members as the XML form spells them. Every XML document the library writes for an object of that class is valid against the schema.",
     ["programs", "inputs"],
     "all class structures over members, bases, containers, enums and optional pointers; all object values",
     "One fixed class is compared with a stored schema or validated once.",
     ["xsd_generate_base.h", "xml_pack_base.h"],
     [("xsd_generate_t type and member registration", "xsd_generate_base.h")])

prop("C14", "The processor describes every member of every class exactly once",
     "For every set of class definitions - nested, templated, in namespaces, derived from several bases, with data members declared singly or in lists, arrays, const, static, mutable, methods, operators, constructors, friends, typedefs, comments and initialisers in any order - the generated descriptor visits each base class and each data member exactly once, in declaration order, bound to that member and named by the dotted path, each method that is not overloaded once as a method, and nothing else. The output compiles together with the input. (Private member classes, and classes inside templates or specialisations, get no descriptor of their own; bit-fields, decltype members and arrays of function pointers are not supported input.)",
     ["programs"],
     "all syntactically valid class definitions built from the supported constructs",
     "About thirty fixed headers are processed; combinations of constructs are not.",
     ["classdesc.cc", "tokeninput.h"],
     [("tokeniser", "tokeninput.h"), ("parse_class", "classdesc.cc"), ("emit", "classdesc.cc")])

prop("C15", "Access control: private members are visited exactly when requested",
     "Without the private-respecting option descriptors visit private and protected members as well; with it they visit exactly the public members and public bases, across every sequence of access labels, the class/struct default and nested classes. The friend-inserting tool adds to each class that needs it the access declaration that makes the descriptors compile, and changes nothing else.",
     ["programs"],
     "all interleavings of access labels and member kinds in classes and structs, nested and templated",
     "A few fixed headers; no combination of label changes with nesting is tested.",
     ["classdesc.cc", "insert-friend.cc", "classdesc_access.h"],
     [("is_private tracking", "classdesc.cc parse_class"), ("friend insertion", "insert-friend.cc")])

prop("C16", "Enumerations map between symbols and values exactly as declared",
     "For every processed enum (public, outside templates, with values that fit an int), looking up any enumerator's name yields its declared value and looking up the value yields a name with that value; enumeration of the table yields each distinct value once. Assignment from symbol or integer through the enum wrapper sets exactly that value, and text serialisation writes the symbol and reads it back; values without a symbol survive a round trip through binary and text, and an object's enum members are read and set as declared whatever their underlying type.",
     ["programs", "inputs"],
     "all enum definitions (implicit, explicit, negative, duplicate values, nested, namespaced) and all values",
     "Tests look at one enum with consecutive values.",
     ["classdesc.h", "classdesc.cc", "typeName_epilogue.h"],
     [("EnumKeys", "classdesc.h"), ("Enum_handle", "classdesc.h"), ("enum emission", "classdesc.cc")])

prop("C17", "Type names are the qualified C++ names, built compositionally",
     "The reflected name of any type is its fully qualified C++ name (blanks that separate nothing apart), and for compound types is composed from the names of its parts: const, pointers, references, arrays, containers, pairs, smart pointers and template arguments, whether types or values. Different types have different names. (Function types are all named alike, and allocators, comparators and hash functions are not part of the name.)",
     ["programs", "inputs"],
     "all types built from fundamental, user-defined, namespaced, nested and templated types by the supported constructors",
     "A few names are compared literally.",
     ["classdesc.h", "typeName_epilogue.h", "classdesc.cc"],
     [("tn<T> specialisations", "classdesc.h"), ("generated typeName", "classdesc.cc -typeName")])

prop("C18", "Polymorphic pointers keep their dynamic type and full content",
     "Serialising any structure of polymorphic smart pointers (binary or XML) and decoding it yields objects of the same dynamic types with equal content, nulls as nulls, whatever the target held before; a type identity nothing is registered for is an error. Cloning yields an object of the same dynamic type as the class's copy constructor makes it. (Pointers own their targets: objects shared by several pointers are written once for each. XML leaves out null pointers that are elements of containers.)",
     ["inputs", "histories"],
     "all sequences of pointers to any class of a registered hierarchy, prior targets of a different dynamic type, nulls",
     "Tests serialise one list with one object per class.",
     ["poly.h", "polyBase.h", "polyPackBase.h", "polyXMLBase.h", "polyAccessPack.h", "object.h", "pack_stl.h"],
     [("PolyPack/PolyAccessPack", "polyPackBase.h polyAccessPack.h"), ("object pack/unpack of shared_ptr", "object.h")])

prop("C19", "Factories create exactly the registered type or report an error",
     "After any sequence of registrations a factory creates, for each registered name, a fresh default-constructed object of the class first registered under that name (later registrations of the name change nothing), lists exactly the registered names where names are strings, and throws for every other name. Copies of a factory are independent of it.",
     ["histories"],
     "all registration orders, repeated registrations, explicit and derived names, interleaved creation",
     "One fixed registration sequence is used.",
     ["factory.h"],
     [("Factory registry", "factory.h")])

prop("C20", "Excluded members are invisible to every descriptor",
     "Values of excluded members are never written by binary or XML output, and decoding never modifies them, wherever they occur (members, bases' members, inside containers' element classes). In every other respect an excluded member behaves like the wrapped type, including assignment, copying and conversion.",
     ["inputs", "programs"],
     "all objects with excluded members of fundamental, class, container and pointer type",
     "One test excludes one member.",
     ["classdesc.h", "pack_base.h", "xml_pack_base.h", "xml_unpack_base.h", "dump_base.h", "random_init_base.h"],
     [("Exclude<T> and is_excluded overloads", "classdesc.h and *_base.h")])

prop("C21", "Message buffers deliver each message exactly once, whole, to its addressee",
     "Under every delivery schedule, data sent synchronously, asynchronously, by send-receive or broadcast arrives exactly once at the addressed process as one message with the sender's values, source and tag recorded, and selective receives take only matching messages in order per sender. Gathering concatenates all processes' data in rank order on the root and scattering gives each process exactly its marked part, on every use of a buffer including repeated ones and with fixed-length mode (all contributions of one length) on or off. A copied buffer holds the same data and settings, and buffer arrays report exactly the completed asynchronous operations. (A buffer being sent asynchronously is not used until waited for.)",
     ["schedules", "histories"],
     "all programs of message operations over a few processes, all message sizes and all delivery orders",
     "Two example programs run with one fixed pattern and whatever schedule MPI happens to produce.",
     ["classdescMP.h"],
     [("send/isend/get/send_recv/bcast/gather/scatter/mark", "classdescMP.h MPIbuf"), ("asynchronous completion sets", "classdescMP.h MPIbuf_array")])

prop("C22", "Master-slave dispatch runs every job once and collects every result",
     "For every number of slaves, every job sequence and every completion order, each job dispatched by the master runs exactly once on exactly one slave (a broadcast one once on each), its result is returned to the master exactly once together with the slave's rank, a slave is listed idle exactly when it has no outstanding job, and shutting down terminates every slave. (The master collects all results before shutting down, and sends or broadcasts other jobs, which return nothing, only to slaves that are idle.)",
     ["schedules", "histories"],
     "all interleavings of dispatch, collection, waiting, broadcast and shutdown for a few slaves and jobs",
     "The example program is run once with the schedule MPI happens to produce.",
     ["classdescMP.h"],
     [("exec/get_returnv/wait_all_idle/slave loop", "classdescMP.h MPIslave")])

prop("C23", "Plain-data streaming is a faithful FIFO for any supported type",
     "Values of plain types (no pointers, virtual functions or constants), arrays, structs of such and standard containers of such, nested ones included, written through the binary streaming adaptor are read back equal and in order, mixed with other writes to the same underlying buffer or file; what is read replaces what a container held. Reading more than was written raises an exception.",
     ["histories", "inputs"],
     "all sequences of streamed values, containers of all sizes, native and machine-independent underlying buffers",
     "One test streams one vector.",
     ["pack_base.h", "pack_stl.h"],
     [("BinStream operators", "pack_base.h, pack_stl.h")])

prop("C24", "Functional reflection calls the right function with the right arguments",
     "Binding an object and a method, or applying a function to an array of arguments, calls exactly that function on exactly that object once, with each argument in its position, and yields its return value; argument count, argument types, return type, and whether something is a method, a constant method or a function are reported as declared. Packing the call's arguments into a buffer and calling from it has the same effect and result. Methods that may change an object are not callable on constant ones. (Arguments are values, references to constants or, where bound directly, references; a buffer holds the arguments the function takes.)",
     ["programs", "inputs"],
     "all arities, member/non-member, const, void and reference-returning signatures",
     "Tests call a few low-arity functions.",
     ["function.h", "functiondb.sh"],
     [("Arity/Arg/Return/bound_method/apply", "functiondb*.h (generated)"), ("PackFunctor, callOnBuffer", "function.h")])

prop("C25", "Multidimensional arrays address every element exactly once",
     "A multidimensional array is a view of memory its user owns, in which the first dimension varies fastest and the first index is of the last dimension. For every rank and shape (sizes of zero included), and however the dimensions are passed to it, indexing - constant or not, whole or in part - reaches each element by its coordinates, no two coordinates share an element, and nothing outside the memory is reached; the sizes and strides of the array and of its sub-arrays are those of the shape; and iteration in either direction, by whichever increments, visits each element once and in order.",
     ["inputs", "histories"],
     "all ranks and shapes up to a bound, all coordinates, all sequences of writes and iterator movements",
     "No test uses multidimensional arrays of rank above two.",
     ["multiArray.h"],
     [("index strides, iterators", "multiArray.h")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
