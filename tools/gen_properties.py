#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth is the table below)."""
import json, os
M, C, K, A, Q, P, J = ("py/docria/model.py", "py/docria/codec.py", "py/docria/collection.py",
                    "py/docria/algorithm.py", "py/docria/query.py", "py/docria/printout.py", "java/core/src/main/java/se/lth/cs/docria")
R = []


def p(id, title, statement, over, quant, why, files, mech, observe=(), state=()):
    R.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})


p("C01", "Binary layout: decoders consume exactly what the encoder writes",
  "The binary document format has one layout: magic, length-prefixed properties, list of layers, per-layer schema, length-prefixed texts, then one length-prefixed data block per layer with one column per schema field in schema order. "
  "The full decoder and the partial-access reader consume exactly that item sequence for every document, every declared length covers exactly the bytes that follow it, and skipping an unwanted part consumes as many items as reading it.",
  ["inputs", "programs"], "all documents, all subsets requested through partial access",
  "Tests decode three small documents with one full decoder; partial access, field skipping and layers with options are never exercised together.",
  [C], [("MsgpackCodec.encode", C), ("MsgpackCodec.decode / decode_*", C), ("MsgpackDocument._parse_state", C)],
  ["MsgpackCodec.encode output", "MsgpackDocument.properties/schema/texts/document"])
p("C02", "Every declared field type survives encoding and decoding",
  "For each declarable field type the value a node holds is written by the codec and rebuilt by the binary and the JSON decoder as the same value: scalars, text and bytes keep their kind, references point to the node at the same position of the target layer, node spans keep both ends, and an unset field stays unset. "
  "Each node contributes exactly the number of column slots the decoders read per node. (A reference list that is empty is stored as unset.)",
  ["inputs", "programs"], "all field types x all values accepted by validation",
  "Tests round-trip only string and span fields; bool, float, binary, references, reference lists and extension values are never round-tripped.",
  [C, M], [("Codec.encoders / Codec.encode", C), ("MsgpackCodec.decode_layer", C), ("JsonCodec.decode_object", C), ("Codec.commit_layers", C)],
  ["field values after decode"])
p("C03", "Decoded documents keep their full typed schema",
  "A decoded document has the same layers in the same order with the same field names, types and type options (default value, target layer, text context) as the encoded one, through both the binary and JSON codecs. "
  "Fields of a decoded document are validated by the same rule as fields of the same type declared in a fresh document.",
  ["inputs", "programs", "histories"], "all schemas; all decode-edit-encode histories",
  "Tests never inspect the schema of a decoded document nor edit a decoded document with a wrong value.",
  [C, M], [("DataType.encode", M), ("MsgpackCodec.decode_schema", C), ("JsonCodec.decode_object", C), ("String2DataType", M)],
  ["doc.layer[..].schema after decode"])
p("C04", "Only valid documents are encoded",
  "With default options every codec refuses to produce output for a document in which some node has a value not valid for its declared type, a node carries an undeclared field, a field refers to a layer or text that is not in the document, or a value refers to another document's nodes or text. "
  "The options that permit undeclared fields or switch off type checking each relax only their own check and are honoured by every codec that accepts them.",
  ["inputs", "histories"], "all documents, all placements of the invalid value, all option combinations",
  "One test checks one undeclared field on one node with default options.",
  [M, C], [("Document.compile", M), ("NodeLayerCollection.validate", M), ("Codec.encode", C), ("XmlCodec.encode_intermediate", C)],
  ["exception raised by encode"])
p("C05", "Type validation accepts exactly the declared type",
  "Validation accepts a value for a field only if it is of the field's declared kind: booleans, integers within the signed 32/64-bit range, floats, strings, bytes, spans of the named text, or attached nodes / node lists / ordered node spans of the named layer. "
  "Validating a node never reports success when some set field holds an unacceptable value, whichever field it is. (A Python bool counts as an integer, as Python defines it.)",
  ["inputs"], "all values x all declared types x all positions of the offending field",
  "test_typing is empty; no test feeds an out-of-range, wrong-kind, detached or wrong-layer value.",
  [M], [("DataType*.is_valid", M), ("NodeLayerCollection.validate", M), ("NodeCollection.validate", M), ("Node.is_valid", M)],
  ["Node.is_valid()", "layer.validate(node)"])
p("C06", "Layer bookkeeping is consistent after every edit history",
  "After any sequence of adding, removing, retaining, sorting, compacting and decoding, a layer's length equals the number of nodes it contains, each contained node reports that layer as its collection and its own index in it, relative order is preserved (except by sort), and each removed node reports no collection. "
  "This holds also after an edit that raised.",
  ["histories", "inputs"], "all sequences of layer edits, including edits that raise",
  "Tests run one remove and one retain sequence on a fresh 8-node layer, below the compaction threshold.",
  [M, C], [("NodeLayerCollection.add/add_many/remove/retain/sort/compact", M), ("Codec.commit_layers", C)],
  ["len(layer)", "list(layer)", "node.i", "node.collection"],
  [("_nodes", "slots, None marks a gap", "NodeLayerCollection"), ("num", "live nodes", "NodeLayerCollection"), ("_id", "slot index", "Node"), ("collection", "owner", "Node")])
p("C07", "A rejected edit leaves the document unchanged",
  "When adding a single node with invalid values or an already attached node, adding an existing field, removing a layer that is still referenced, retaining or removing a node of another layer, replacing the main text, or writing an unencodable document to a collection raises, then the layer, document or pending output is left exactly as before the call. (Removing several nodes given as an iterable is progressive: those before the refused one are gone.)",
  ["inputs", "histories"], "all rejected calls at every point of a history",
  "No test inspects state after a failed call.",
  [M, K], [("NodeLayerCollection.add/add_field/retain/remove", M), ("Document.remove_layer/maintext", M), ("MsgpackDocumentWriter.write", K), ("TarMsgpackWriter.write", K)],
  ["state after the exception"])
p("C08", "Removed nodes never reappear",
  "After nodes have been removed from a layer, iteration, first/last, left/right neighbours, node spans, slices, queries, retain, sort, pandas export and encoding see only the remaining nodes: they never yield or fail on a placeholder of a removed node.",
  ["histories"], "all removal histories followed by any read or edit",
  "Tests iterate after a few removals; neighbours, spans, slices, retain, sort and export after a removal are untested.",
  [M], [("NodeLayerCollection.__iter__/first/last/left/right/iter_nodespan/__getitem__/retain/sort/compact/to_pandas", M)],
  ["results of layer reads"])
p("C09", "Queries select exactly the nodes that satisfy the predicate",
  "A query returns, in layer order, exactly the nodes for which its predicate holds: each comparison of a field applies that same comparison to the node's field value and the operand, is_none / has_value / is_any test absence, presence and equality with one of the operands, and &, | and ~ combine predicates as and, or and not. "
  "A query result can be queried and field-indexed again whatever kind of collection it came from.",
  ["inputs", "programs"], "all predicates, operands and node values",
  "Only covered_by is exercised by a test.",
  [Q, M], [("NodePredicate*", Q), ("NodeFieldCollection operators", M), ("NodeCollectionQuery", M)],
  ["layer[predicate]"])
p("C10", "Span relations agree with interval semantics everywhere",
  "For every pair of ranges, 'covered by' holds exactly when the first lies within the second, and 'intersected by' exactly when each range starts before the other ends; the answer is the same whether the other range is given as a span or as a (start, stop) pair, through a field query, or through the algorithm helper.",
  ["inputs"], "all orderings of the four end points",
  "Tests try one range; boundary-touching and empty ranges are not covered.",
  [M, A], [("TextSpan.covered_by/intersected_by", M), ("is_covered_by", A), ("NodeFieldCollection.covered_by/intersected_by", M)],
  ["boolean result"])
p("C11", "Text and span slicing never yields an out-of-bounds or inverted span",
  "Slicing or indexing a text, by slice or by (start, stop) pair, either raises or yields a span with 0 <= start <= stop <= text length, and slicing or indexing a span by slice or position is relative to that span and never reaches text outside it. "
  "The string of a span is exactly the text between its current start and stop.",
  ["inputs"], "all integer slices, pairs and indices, negative and out-of-range included",
  "Tests use a dozen well-formed slices; inverted, out-of-range and negative pairs are untested.",
  [M], [("Text.__getitem__", M), ("TextSpan.__getitem__", M), ("TextSpan.__init__", M), ("TextSpan.__str__/text_to/span_to", M)],
  ["span.start/stop, str(span)"])
p("C12", "Trimming removes exactly the surrounding whitespace",
  "Trimming a span only ever moves its start forward and its stop backward, past whitespace only, on both ends, and stops at the first non-whitespace character; a span that is all whitespace becomes empty. "
  "The in-place and the copying variant give the same range, and the copying variant leaves the original span untouched.",
  ["inputs"], "all texts and spans", "trim is not called by any test.",
  [M], [("TextSpan._trim_offsets/trim/trim_", M)], ["span.start/stop"])
p("C13", "Span offsets are stored and restored against their own text",
  "When a document is encoded, the start and stop of every span field value is registered among the segment boundaries of the text that field is declared on, together with the text's beginning and end, boundaries are stored in increasing order, and each stored offset refers to that same text. "
  "Decoding turns each stored boundary index back into the cumulative length of the segments before it, for that text, and the joined segments are the original text.",
  ["inputs"], "all texts, contexts and spans",
  "Tests use one text per document, so mixing up contexts cannot be noticed.",
  [M, C], [("Document.compile", M), ("Text.compile", M), ("_codec_encode_span", C), ("MsgpackCodec.compute_text_offsets", C), ("JsonCodec.decode_object", C)],
  ["spans after decode"])
p("C14", "JSON form is self-consistent",
  "Everything the JSON encoder emits is JSON-representable for every field type, and the JSON decoder reads every section the encoder writes under the same name: properties, texts, node counts, layer data and schema. "
  "A JSON text that is not an object or lacks the format marker is rejected with an error instead of being decoded.",
  ["inputs"], "all documents", "Tests round-trip one document with string and span fields.",
  [C], [("JsonCodec.encode_object/decode/decode_object", C)], ["JsonCodec.encode/decode"])
p("C15", "Collection files: the reader consumes the header and blocks the writer emits",
  "A collection file starts with the magic, codec name, documents-per-block and advanced flag, followed by blocks each holding the compressed concatenation of the packed documents, in writing order; the reader consumes exactly this sequence, rejects a wrong magic or unknown codec or advanced mode, and decompresses with the codec named in the header.",
  ["inputs", "histories"], "all document sequences, block sizes, codecs",
  "One test writes a single document with the default codec.",
  [K], [("MsgpackDocumentWriter", K), ("MsgpackDocumentReader", K), ("MsgpackDocumentBlock", K)],
  ["documents read back"])
p("C16", "No written document is lost or duplicated",
  "Every document accepted by a collection writer is stored exactly once: a block is written out when it is full, closing (explicitly or by leaving the with-block, with or without an exception) writes out the remaining documents before closing the file, the buffer is emptied only after it was written out, and an empty buffer writes nothing. "
  "A MsgpackDocumentWriter given a path refuses by default to overwrite an existing file (the deprecated DocumentIO.write is documented to replace it).",
  ["histories", "fault_sequences"], "all interleavings of write, flush, close, exceptions in the with-body",
  "Only one write followed by a normal exit is tested.",
  [K], [("MsgpackDocumentWriter.write/flush/close/__exit__", K), ("TarMsgpackWriter", K)],
  ["file contents after close"],
  [("currentblock/current_block_count", "pending documents", "MsgpackDocumentWriter")])
p("C17", "Document references address the document they came with",
  "The reference attached to every document that is read (by iteration, by block, through the index) consists of the file position of the block that contains it and the position of the document inside that block, so that fetching that reference later from any reader of the file returns the same document, whatever mix of iteration, block reading, seeking and fetching happened before.",
  ["histories"], "all interleavings of next, blocks, get, seek on one reader",
  "No test uses refs, blocks, get or seek.",
  [K], [("MsgpackDocumentReader.__next__/readblock/get/seek", K), ("MsgpackDocumentBlock.__next__/tell/seek", K), ("DocumentFileIndex.build/search", K)],
  ["MsgpackDocument.ref, reader.get(ref)"])
p("C18", "Compression codecs are lossless and resolvable",
  "For every registered compression codec, decompressing what it compressed gives the original bytes, and the codec name written to the file header names a registered codec whose decompression inverts it. "
  "Registering a name twice and requesting an unknown name both raise.",
  ["inputs", "configurations"], "all registered codecs x all block contents",
  "Tests use the default codec only.",
  [K], [("register_codec table", K), ("get_codec", K), ("MsgpackDocumentWriter.__init__", K)], ["codec.compress/decompress"])
p("C19", "Boundary stream position accounting",
  "The boundary writer's position always equals the number of bytes it has emitted, it emits a marker whenever and only when the position is at a multiple of the configured block size and data follows, and no data run crosses such a multiple without a marker. "
  "Reader and writer agree on marker width and on the accepted range of block sizes (2^12 to 2^30, anything else is refused). A marker records the distance back to the last split point, which never lies ahead of the marker, and can be written however far back that is.",
  ["inputs", "histories"], "all write size sequences and block sizes",
  "The one test writes less than one block, so no marker is ever emitted.",
  [K], [("_BoundaryWriter.write/_write_boundary/split", K), ("_BoundaryReader", K)], ["bytes written"])
p("C20", "Document content is always escaped in HTML output",
  "No text, layer name, field name, field value or text name from a document reaches the HTML representation of any object without HTML escaping, including inside link targets.",
  ["inputs"], "all strings in documents",
  "HTML rendering is not tested.",
  [P, M], [("Table.render_html/format_html", P), ("Text._repr_html_", M), ("urn_link_*", P)], ["_repr_html_ output"])
p("C21", "Reading, querying, printing and encoding do not change the document",
  "Encoding, querying, iterating, validating, printing, exporting and graph traversal leave every field value, schema, text, property, layer membership and node order of the document as they were; at most the internal indices of nodes are renumbered to close gaps.",
  ["histories", "programs"], "all read operations on all documents",
  "Tests never compare a document before and after a read.",
  [M, C, Q, P, A], [("Document.compile", M), ("Codec.encode", C), ("XmlCodec", C), ("repr/str/html", P)], ["document state after the call"])
p("C22", "Graph traversals visit each reachable node once, in order",
  "Breadth-first and depth-first traversals terminate on any graph, consider each node reachable through the given children function exactly once, yield exactly those accepted by the optional filter, breadth-first in non-decreasing and correct depth, depth-first in pre-order with children in their given order, and the leaves variant yields exactly nodes without children. "
  "The children of a node over several fields are the children over each field of that same node.",
  ["inputs"], "all graphs including cycles, self loops and shared children",
  "test_graph is empty.",
  [A], [("bfs/dfs/dfs_leaves", A), ("children_of", A)], ["yielded nodes"])
p("C23", "Pickling preserves documents",
  "A pickled and unpickled document has the same texts, layers and properties, and a pickled and unpickled encoded document held in memory has the same bytes and reference and is usable for every kind of access from its start.",
  ["inputs", "histories"], "all documents, at any point of partial access",
  "Pickling is not tested.",
  [M, C], [("Document.__getstate__/__setstate__", M), ("MsgpackDocument.__getstate__/__setstate__", C)], ["pickle.loads(pickle.dumps(x))"])
p("C24", "Index search returns exactly the matching documents",
  "Searching an index with at least one condition returns every indexed document whose properties equal all given conditions and no other, each once, both lazily and fully decoded, with no hit when a condition's property or value is not in the index. "
  "Files are located relative to the base directory of the index, independent of the current directory.",
  ["inputs", "configurations"], "all property values, conditions, base paths, working directories",
  "Indexes are not tested.",
  [K], [("DocumentFileIndex.build/search", K), ("DocumentIndex.add/search", K)], ["search results"])
p("C25", "Readers and writers release their files",
  "Leaving a reader's or writer's with-block, normally or by an exception, or calling its close, closes the underlying file; files the library opens for its own use while indexing or searching are closed on every exit, including when processing fails or the consumer stops early. (A constructor that refuses the file it was given a path of is not covered.)",
  ["fault_sequences", "histories"], "all exits including exceptions",
  "Tests only leave with-blocks normally.",
  [K], [("*.__exit__/close", K), ("DocumentFileIndex.build/search", K), ("DocumentIndex.save/load", K)], ["underlying file closed"])
p("C26", "XML export handles every type and stays well-formed",
  "Every field type that can hold a value is represented in the XML export in both the compact and the verbose modes, without failing, and no text, property or string value can put a character that XML forbids into the output; characters that XML permits are kept. (Names of layers and fields are chosen by the program and not covered.)",
  ["inputs"], "all field types x all strings x all option combinations",
  "XML export is not tested.",
  [C], [("XmlCodec.encoders/encode_intermediate/encode_tree", C)], ["XmlCodec.encode_utf8string"])
p("C27", "Type declarations honour the requested default",
  "Declaring a field type with a default value yields a type of the requested kind that validates its values, carries exactly that default, and whose default (built-in or requested) is itself a valid value; nodes created without the field get that default, and a default of None means no default.",
  ["inputs"], "all factories x all defaults", "Tests declare types with built-in defaults for int, string and bool only.",
  [M], [("DataTypes factories", M), ("NodeLayerCollection.add/_update_default_values/add_field", M)], ["node values after add()"])
p("C28", "Merged node lists expose the widest common field type",
  "When nodes from different layers are collected in one list, each field present is typed with a type able to represent all of its values: merging is commutative in outcome, BOOL < I32 < I64 < F64 for numbers, identical kinds stay, and anything else is refused with an error; no field is dropped. "
  "The type inferred for a Python value is the declared type of that kind.",
  ["inputs"], "all pairs of field types and orders of merging", "Node lists in tests come from one layer.",
  [M], [("DataType.cast_up/cast_up_possible", M), ("NodeList.__init__", M), ("DataTypes.typeof", M)], ["NodeList.fieldtypes"])
p("C29", "Every kind of reference is treated as a reference everywhere",
  "Single references, reference lists and node spans are all checked for a missing target layer at encoding, all resolved to nodes at decoding, and all considered when a layer is removed: removal is refused while a field of another layer refers to it, or, when cascading, removes exactly those fields, and reports whether the layer existed.",
  ["inputs", "histories"], "all reference kinds x all schema graphs", "Layer removal is not tested; only node spans are resolved in a test.",
  [M, C], [("Document.remove_layer", M), ("Document.compile", M), ("Codec.commit_layers", C), ("JsonCodec.decode_object", C)], ["remove_layer result", "decoded values"])
p("C30", "Partial access returns exactly what was asked for",
  "Asking an encoded document for some properties, texts or layers returns precisely the requested ones that exist, with the same content full decoding gives, and asking for none returns all; references from a requested layer are resolved, for which the layers they lead to are included, in document order. Repeated and interleaved partial accesses give the same answers.",
  ["inputs", "histories"], "all subsets, all sequences of accesses on one encoded document", "Partial access is not tested.",
  [C], [("MsgpackDocument.properties/texts/document", C), ("MsgpackCodec.decode_property/decode_texts", C)], ["returned dictionaries"])
p("C31", "Output is deterministic",
  "For the same document and arguments, encoding, grouping, traversal, merging of field types and rendering give the same result in every process: no result depends on hash order or object identity. (The order of entries in a file index and tar time stamps are not covered.)",
  ["programs", "configurations"], "all documents x all hash seeds / allocation orders",
  "Tests run with a fixed hash seed and compare as sets.",
  [A, M, C, P], [("group_by_span", A), ("NodeList.__init__", M), ("get_representation", P), ("Document.compile", M)], ["results across processes"])
p("C32", "Presentation limits are honoured and reversible",
  "Each presentation setting, an integer or None, reads back the value that was set, rejects values below its minimum without changing, and None disables that limit without breaking rendering; a table longer than the row limit shows the same number of its first and last rows with their true indices and marks the omission.",
  ["configurations", "inputs"], "all option values x all table sizes", "Printing is not tested.",
  [P], [("PrintOptions", P), ("truncate", P), ("Table._compile_text/_compile_html", P)], ["options.*", "rendered text"])
p("C33", "Equality is consistent with hashing for model objects",
  "Two nodes are equal only if they are the same node, text spans with equal ranges and equal data types hash equally, so all can be used in sets and as dictionary keys; no comparison of nodes, spans or types changes them.",
  ["inputs"], "all pairs", "Not tested.",
  [M], [("Node.__eq__/__hash__", M), ("TextSpan.__eq__/__hash__", M), ("DataType.__eq__/__hash__", M)], ["a == b, hash(a)"])
p("C34", "Grouping by span assigns exactly the overlapping nodes",
  "Grouping assigns to each group node every layer node whose span intersects it, or with the cover resolution every one of these it fully covers, each once, for any overlap, nesting, touching or empty spans (an empty span stands for its position, so one at the end of a group lies outside it), reading each layer's configured span field; nodes without the span field are ignored and empty groups are kept or dropped as requested.",
  ["inputs"], "all orderings of group and layer span end points", "One test with one fixed set of spans.",
  [A], [("group_by_span", A), ("is_covered_by", A)], ["returned groups"])
p("C35", "Python and Java agree on the format vocabulary",
  "The type names, document magic, collection magic and order of document sections used by the Python and the Java implementation are the same, and spans, references and node spans are laid out in columns in the same way.",
  ["programs"], "all documents exchanged between implementations", "One test decodes one small Java-made document; the Java sources are not built here.",
  [M, C, K, J + "/DataTypeName.java", J + "/MsgpackCodec.java"], [("DataType2String", M), ("DataTypeName", J), ("MsgpackCodec", J)], ["encoded bytes"])
p("C36", "Full round trip is the identity",
  "Decoding an encoded document yields a document indistinguishable from the original through the public API, for every document and codec.",
  ["inputs", "histories"], "all documents", "Tests round-trip three small documents.",
  [C, M], [("MsgpackCodec", C), ("JsonCodec", C)], ["decoded document"])
p("C37", "Boundary reader returns exactly the bytes written",
  "Reading a boundary-framed stream in any chunk sizes, from the start or after seeking, yields exactly the bytes given to the boundary writer.",
  ["inputs", "histories"], "all chunkings and block sizes", "The test never crosses a boundary.",
  [K], [("_BoundaryReader.read/_to_absolute/seek", K)], ["bytes read"])
p("C38", "Dominant-right resolution keeps the longest, rightmost segments",
  "The result of dominant-right resolution contains no two overlapping segments, and each kept segment is at least as long as the overlapping segments it displaced.",
  ["inputs"], "all segment sets", "One test with ten segments.",
  [A], [("dominant_right", A)], ["returned data"])
p("C39", "Token alignment and span translation are position-faithful",
  "Aligning a token sequence to a text yields one span per token, in order and non-overlapping, equal to the token where it is found; translating non-empty spans between texts preserves relative position within the mapped interval, and a span outside the mapping is refused.",
  ["inputs"], "all token sequences, texts and mappings", "Five fixed examples.",
  [A], [("sequence_to_textspans", A), ("span_translate", A)], ["returned spans"])
p("C40", "Truncated collections and documents are detected",
  "A collection file that ends inside its header or inside a block, and an encoded document that ends inside one of its parts, are never taken for complete: reading past that point raises an error, and never the StopIteration that an iteration takes for its end. "
  "The same holds for a block whose data the codec refuses. The documents before that point are handed out unchanged, and a file that ends between two blocks is a complete file.",
  ["crash_points", "fault_sequences"], "all truncation points of all collections and documents, iterated by document or by block",
  "Tests only read complete files back; none of the points a file can end at is tried.",
  [K, C], [("MsgpackDocumentReader.readblock", K), ("MsgpackDocumentReader.blocks / __next__", K), ("DocumentReader.__next__", K), ("MsgpackCodec.decode", C)], ["exception or documents"])
p("C41", "Corrupted bytes are detected",
  "Reading a collection file in which bytes were altered raises an error rather than returning different documents.",
  ["fault_sequences"], "all alterations of a file", "Not tested.",
  [K], [("MsgpackDocumentReader.readblock", K), ("zlib / lzma / msgpack", "third party")], ["exception or documents"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for r in R:
            f.write(json.dumps(r) + "\n")
    print(len(R), "properties")
