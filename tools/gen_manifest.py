#!/usr/bin/env python3
"""Writes MANIFEST.json from the rule modules present and the reasons below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C05": "path-sensitive dataflow summaries of the validators, decided against a table of value kinds (finite-domain abstract evaluation of the extracted guards), and composed on an abstract machine over documents built through the public interface",
    "C10": "extraction of the comparison formulas by dataflow, decided on all weak orderings of the four interval end points",
    "C11": "dataflow summaries of slicing, offset formulas decided on a partition of index forms; summaries composed over histories of reading, trimming and slicing",
    "C09": "dataflow summaries of the predicate and query classes, decided as truth tables of the extracted formulas; collection-kind coverage of the query entry points; composition of the query summaries over abstract collections",
    "C20": "taint analysis from document content to HTML output over path summaries, with context-sensitive sanitiser recognition",
    "C21": "interprocedural effect analysis: access paths of every write to a pre-existing object reachable from the read-only entry points",
    "C27": "dataflow summaries of type constructors and node creation, decided by finite-domain abstract evaluation of the extracted formulas",
    "C28": "dataflow summaries of type merging decided on the complete table of type-kind pairs (finite-domain abstract evaluation) and composed over abstract node lists",
    "C32": "dataflow summaries of the setters and rendering limits decided on a partition of setting values and table lengths",
    "C33": "dataflow summaries of equality and hash, decided on a finite abstract domain; effect analysis of comparisons",
    "C26": "taint analysis from document content to XML text and attributes, monomorphised per field type; decoding of the filter's character class against XML 1.0",
    "C06": "ledger typing of the layer state: paired effects (list, count, index, collection) on every path and loop round, moves and renumbering decided per class of list slot; summaries composed over all edit histories to a bound",
    "C07": "effect-order (typestate) analysis: no persistent write may precede an explicit rejection or a call that may reject, on any path; summaries composed over histories with refused edits",
    "C08": "path summaries of every accessor evaluated over all slot patterns (nodes and gaps, up to 4 slots), plus null-flow of slot entries and compact-before-use ordering; summaries composed over removal histories",
    "C29": "per-kind specialisation of the path summaries: each reference kind must take the search, the missing-target test and the resolution; refusal guards evaluated for 0, 1 and 2 found fields",
    "C04": "decision formulas of the compilation (with its reference checks inlined) evaluated over all combinations of options and faults per field kind, plus call-graph reachability and option pass-through of every encoder",
    "C13": "path summaries of the compilation, both encoders and both decoders evaluated on a finite family of boundary layouts; container-content provenance for ordering",
    "C02": "per-kind specialisation of encoder, decoders and reference resolution; the extracted column-writing and column-reading formulas composed over a finite set of value classes per kind (zero/empty/unset/first/last/repeated)",
    "C03": "path summaries of type writing/rebuilding per kind and option set; ordered-sequence provenance of layers, fields and types through encoders, both schema readers and layer declaration on a model schema no sorting reproduces",
    "C16": "composition of the writers' path summaries over an abstract stream, codec and packer, to a fixpoint of the reached states, with exceptional paths (typestate of the output stream)",
    "C17": "composition of the readers' path summaries over an abstract block stream whose positions are distinct per document (reference algebra)",
    "C15": "composition of the writer's and the readers' path summaries over an abstract stream, codec and packer (grammar agreement)",
    "C18": "dataflow terms of the registered compression pairs reduced by an inverse-pair algebra; path summaries of the registry functions composed on an abstract table",
    "C24": "path summaries of index building and searching composed on an abstract collection (files, blocks, properties, current directory), compared with the relation of documents meeting the conditions",
    "C22": "path summaries of the traversals composed on a family of abstract graphs and compared with the recursive definition; closure capture analysis of children_of",
    "C34": "path summaries of the grouping sweep (sorting key, sweep, filters) evaluated over all relative positions of the end points of groups and nodes, compared with the interval definition",
    "C38": "path summaries of the resolution evaluated over all relative positions of up to three segments, compared with the definition of dominance",
    "C39": "path summaries of the alignment evaluated over all short texts and token sequences of a small alphabet, of the translation over arrangements of mapped intervals and spans, compared with the definition",
    "C19": "composition of the writer's path summaries over an abstract output (data runs, markers) for histories of writes and splits around the multiples of the block size, compared with the layout; the reader's over streams of that layout",
    "C37": "composition of the boundary writer's and the boundary reader's path summaries: the abstract stream the one leaves is what the other reads",
    "C01": "composition of the codec's path summaries over an abstract stream of items with widths: the encoder's output compared with the layout item by item, both decoders and the skipping paths evaluated on streams of that layout",
    "C30": "composition of the partial reader's path summaries over abstract streams of the layout, for all requests and pairs of requests, compared with the content and the closure of the layer references",
    "C14": "composition of the JSON codec's path summaries (encoder, real compile, decoder) over abstract documents of every declared type with a model of the JSON and base64 library; kind analysis of everything emitted; rejection of every non-document value",
    "C23": "typestate of pickling: state method summaries composed with every access summary over abstract documents and histories of use; attribute-completeness of restored objects",
    "C36": "composition of the path summaries of both codecs and of the partial reader end to end over a finite family of abstract documents covering every declared type, reference order and boundary layout, compared item by item with the specification",
    "C25": "resource typestate over all paths (exceptional and early-stop exits included) of the functions opening files for own use; the owners' closing methods composed over an abstract file",
    "C31": "interprocedural dataflow of unordered and identity-dependent values (set iteration, hash, id, clock, random) to returned, yielded, printed, written and stored values",
    "C35": "facts of the Java codec (type table, magics, section order, linear forms of the offsets and references it writes and reads) extracted from its syntax trees, composed with the path summaries of the Python encoder and decoders over an abstract stream, both ways",
    "C40": "summaries of the reader and the decoders composed over an abstract file and abstract encoded documents cut before and inside every part, with the failures of the readers they use",
    "C12": "loop-shape typing of the trimming scans plus offset formulas decided on a partition of word shapes",
}
NA = {
    "C41": "the format carries no checksum of its own: whether an alteration is noticed depends on the run-time bytes and on what zlib, lzma and msgpack accept, which no argument over this source can bound",
}
DEFAULT_NA = "no sound static rule has been built for it yet"


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "rules", i.lower() + ".py")):
            checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                           "evidence_file": "evidence/%s.json" % i, "technique": "static analysis: " + TECH.get(i, "path-sensitive dataflow summaries and rules over them"),
                           "level": "other",
                           "level_note": "Static analysis of the current source on every run; nothing of docria is executed. Each rule instance is discharged, violated or undecided; "
                                         "only positive evidence of a violation is reported, an undecided instance (code outside the analysed subset) is listed in the evidence and is neither a pass nor a finding. "
                                         "Assumes built-ins, io streams and msgpack behave as documented and that user code stays out of private attributes."})
        else:
            na.append({"property": i, "reason": NA.get(i, DEFAULT_NA)})
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na},
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks", len(na), "n/a")


main()
