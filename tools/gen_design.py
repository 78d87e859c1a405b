#!/usr/bin/env python3
"""Writes DESIGN.md: the prose below, and per property its rules (from rules/), its anchors (properties.jsonl), the last
evidence and the planted changes (seeded/)."""
import ast, glob, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))

# property -> (oracle, bounds, what it cannot see / notes)
P = {
 "C01": ("the layout written down in rules/c01.py as a sequence of items (magic, section lengths, property map, text segments, schema, columns); both decoders and the partial reader are run on a stream built from that layout, not from the encoder's output, so a change on both sides that keeps them agreeing is still seen",
         "one model document per shape (with/without properties incl. false values, texts without layers, layers without nodes, null columns, span and reference columns), every split of wanted/unwanted parts for the skipping rule; item widths are distinct so that any misread length lands elsewhere",
         "field kinds of columns: C02; block boundaries at run-time sizes of real msgpack numbers are abstracted to item widths"),
 "C02": ("the identity: value read = value held, per declarable kind",
         "13 kinds x value classes (unset, null, zero, empty, first, last, repeated, negative, large, nested) x neighbours with/without the field; both decoders",
         "values inside a class are interchangeable for the extracted formulas (no formula looks into them); `int` magnitudes are those of the type's range"),
 "C03": ("the declared schema itself, on a model schema whose layer and field orders no sorting reproduces", "all kinds x option sets (none, empty, defaults that are falsy, nested options)", ""),
 "C04": ("a truth table: extra fields x wrong types x foreign/removed/dangling references x missing target layers x option switches", "complete over the table, per field kind; every public encoder found through the call graph must reach the compilation with its options unchanged", "fail_on_extra_fields semantics are taken as documented: undeclared fields refused unless allowed"),
 "C05": ("the accepted kinds written in the property, as a table kind x region of values (type, range boundary, membership of the layer, order of span ends, text of the span)", "complete over kinds x regions for the extracted is_valid formulas; in addition real documents built on the machine: kind x value x position in the layer x way of asking (validate, Node.is_valid, add, add_many, compile)", ""),
 "C06": ("paired effects: (slot list, count, index, collection) change together; for histories an independent model of the layer as a plain list", "per-path and per-round ledger on every edit operation (unbounded histories by induction over operations); histories of up to 2 (quick) / 3 (thorough) edits over a 4-node layer with ~30 edits each, and an 18-node layer driven across the automatic compaction", "the ledger rule gives 'undecided' on code it cannot type; the histories then decide within their bound"),
 "C07": ("the observable state before the refused edit (layers, nodes, values, texts, schema, field types, defaults)", "order of checks and writes on every path of every editing entry; histories as for C06, comparing everything observable", "add_many, sort and bulk removal are not in the statement: they may be half done when a callback or element fails"),
 "C08": ("the list of remaining nodes", "all slot patterns up to 4 (accessors) and every removal pattern of a real layer left by each removal operation x ~25 ways of reading", ""),
 "C09": ("truth tables of the six comparisons, the tests, and/or/not; selected nodes = those for which the predicate is true, in collection order", "complete over the three orderings of (value, operand) and absence; queries over each collection kind with mixed values", "covered_by/intersected_by on nodes without the span are not in the statement"),
 "C10": ("interval semantics on half-open intervals", "all 75 weak orderings of the four end points x accepted forms of the other range (span, tuple, node span, node) - complete, because the formulas are comparisons of end points only, which the check verifies", ""),
 "C11": ("Python's slice semantics relative to the span", "partition of index forms (absent, negative, zero, inside, end, beyond) complete for the extracted offset formulas; histories of reading, trimming in place and slicing on real texts", ""),
 "C12": ("the span without its surrounding whitespace (str.isspace)", "loop shape proves the scan for every length; the range formulas over all shapes of leading/trailing whitespace", ""),
 "C13": ("the set of boundaries written in the property", "finite family of boundary layouts (touching, nested, equal, empty, whole text, several texts); ordering established by provenance of the container (sorted) rather than by example", ""),
 "C14": ("json and base64 as documented (model library)", "every declarable kind x set/unset/null; every JSON value kind at top level for the rejection", "non-finite floats: json's own NaN extension is accepted on both sides"),
 "C15": ("the file grammar written in rules/c15.py", "every registered codec (and one registered under a second name) x several block sizes x five documents, one of them already encoded; the codec is an uninterpreted pair of functions", ""),
 "C16": ("the sequence of accepted documents", "histories of write/flush/failing write/close over four documents with several block sizes, with a failure of the stream operations on the way; the abstract states of the writer are explored with memory, so longer histories repeat them", ""),
 "C17": ("positions of an abstract stream that are distinct per document", "all abstract states of the reader and of a block, to a fixpoint, under next, readblock, seek to each block and get of each document, over three blocks with two, two and one documents - histories of any length", ""),
 "C18": ("algebra of inverse pairs of the libraries (zlib, gzip, bz2, lzma, zstd if registered, identity)", "every registered codec found in the source", "that zlib/lzma are lossless is assumed"),
 "C19": ("the layout of the boundary stream", "histories of writes and splits with lengths around 0, 1, one less/equal/more than the distance to the next marker, several markers at once; block sizes at the limits of 12..30", ""),
 "C20": ("taint: document content (any text, name, field, value, property) to HTML text or attribute", "all paths of all HTML-producing functions; context (text, attribute, tag) determined from the literal parts around the hole", "CSS/JS contexts do not occur"),
 "C21": ("no write reaches an object that existed before the call, outside compaction's renumbering and reader caches", "all call-graph paths from the read-only entry points listed in rules/c21.py (about 170) and what they call", "calls through unknown user callables are excluded"),
 "C22": ("the recursive definitions of BFS, DFS and leaves", "216 child assignments over three nodes (none, one, two in either order) plus chosen larger ones with cycles, loops, shared and repeated children; filters", ""),
 "C23": ("the document before pickling", "every attribute a constructor sets is restored; histories of up to 2 accesses before and after pickling of an encoded document", "pickle itself (object graph identity) is assumed"),
 "C24": ("the relation 'document meets all conditions'", "several files of several blocks, documents with present, absent and repeated property values, repeated and mixed searches, a base directory different from the current one, and a current directory that changes in between", ""),
 "C25": ("typestate open -> closed", "all paths, including an exception at each operation and the consumer stopping after each yield", "a failing constructor of MsgpackDocumentReader(path) leaves its own file to the garbage collector (not in the statement)"),
 "C26": ("XML 1.0 Char production; taint of content to tree text and attributes", "every declarable type x value class x mode of the exporter", ""),
 "C27": ("the requested default and the built-in default table", "all factories x default classes (none, falsy, negative, proper)", ""),
 "C28": ("lattice BOOL<INT32<INT64<FLOAT64, other kinds only with themselves", "complete table of pairs; all sequences up to length 3; real node lists from layers in every order", ""),
 "C29": ("the list of reference kinds found in the type enumeration", "per kind, complete over (found fields 0, 1, 2) x cascade", ""),
 "C30": ("the content written and the closure of layer references", "all requests (subsets, missing names, none, all) and ordered pairs of requests followed by the first again (quick: a subset of pairs; thorough: all) over documents with chains and cycles of references", ""),
 "C31": ("provenance: set iteration, hash, id, clock, random", "all functions reachable from the public interface", "sorting by a key that has ties over an unordered input counts as unordered"),
 "C32": ("the settings' documented minimum; first and last rows shown", "settings None, -3..39, 100 and 1000; tables of 0..8 (thorough 0..13) rows x limits up to 7 (13); text widths around the column limits", ""),
 "C33": ("equality and hash formulas compared on an abstract domain", "complete over equal/unequal of each part the formulas read; Node identity including the inherited dict operations", ""),
 "C34": ("interval intersection / containment", "all pairs of spans over four positions (empty ones included) and groups and nodes drawn from them, plus shared names, empty groups and missing fields", "an empty node lying exactly at the end of a group is outside it (documented in the statement)"),
 "C35": ("the Java sources' own facts, read from their syntax trees (lib/java.py)", "both directions over the model documents of C01/C02 restricted to what both implement", "Java defects outside the statement: see below"),
 "C36": ("the specification document, compared item by item", "a family of documents covering every type, falsy values, reference order (forward, backward, self, cyclic), boundary layouts and empty parts; three decoders", ""),
 "C37": ("the bytes written", "as C19, reading in chunks of every size up to the stream, seeking to every offset, twice", ""),
 "C38": ("pairwise dominance", "all pairs of segments over five positions, empty ones included, all triples of nonempty ones in two orders, and chosen larger chains", "for chains of more than three mutually overlapping segments only the local rules 'apart' and 'dominant' are claimed"),
 "C39": ("left-to-right search of tokens; translation keeps the distance to the interval start", "all texts up to three characters over two letters and chosen longer ones, all sequences of up to two tokens (up to three for texts made of them); translation over all spans within mapped intervals on nine positions", ""),
 "C40": ("an error other than StopIteration", "cuts before and inside every item of the layout", "that msgpack reports a cut item is assumed; a cut that removes whole blocks is a shorter valid collection (documented in the statement)"),
}

PROSE = """# Static verification of docria

Generated by `tools/gen_design.py` from the rules, the properties, the last evidence and the planted changes.

## What is decided, and by what

All checks are **static analysis**: on every run `check.py Cxx` parses `/repo/py/docria/*.py` (and, for C35, the Java
sources under `/repo/java`), and decides its rules over a representation computed from these sources. Nothing of docria is
imported or executed, no input is generated for it, and no solver is called. A verdict names a construct (function, path,
call site, field kind, layout item) with its location in the source.

1. **Program model** (`lib/program.py`, `lib/names.py`): modules, classes with their MRO (built-in bases included),
   imports, properties, setters, dispatch tables, enumerations, and the names a rule anchors on. A rule finds its anchor by
   role where it can (for example "the function that every encoder calls first") and by public name otherwise. Private
   helpers never matter: they are inlined.
2. **Normalisation** (`lib/desugar.py`): equivalent spellings are brought to one form before analysis (loops over
   indices, `zip`, `enumerate`, `iter`/`next`, comprehensions, `map`/`filter`, keyword arguments, walrus, `match`,
   context managers, guard clauses, lambdas and local functions, aliases of `self`, unpacking, ...).
3. **Path summaries** (`lib/psi.py`): path-sensitive forward dataflow. Each function becomes a finite set of paths; a path
   is (guards, events, outcome), where values are provenance terms over the entry state and containers carry versions.
   Callees that resolve are inlined; a loop is one generic round with its updates, its exits and what may raise in it;
   handlers, `finally` and generators have their own paths.
4. **Deciders**
   * *finite-domain / region evaluation* of extracted formulas (`lib/decide.py`): guards and results are evaluated on
     every element of a finite partition (weak orderings of end points, kinds of value, patterns of gaps, truth tables).
     When the formula only compares what the partition separates, this is complete, not a sample.
   * *effects, ledgers, typestate, taint, null flow, order and provenance* (`lib/effects.py`, `lib/order.py`, rule
     modules) directly on the events of all paths.
   * *composition on an abstract machine* (`lib/machine.py`, `rules/store.py`, `rules/docs.py`, `rules/world.py`): path
     summaries are applied one after another to an abstract store, with abstract models of the libraries (streams,
     msgpack packer and unpacker, json, compression, files, directories, pickling). This is an abstract interpreter over
     the *summaries*: at each step it chooses the path whose guards hold, and it refuses ("undecided") whenever a guard,
     a value or a library operation is not determined. It is how two-sided properties (encoder against decoder, writer
     against reader, a history of edits) are decided without running docria.
   * *Java facts* (`lib/java.py`): a tokenizer and a syntax-tree reader for the Java codec.
5. **Verdicts** (`lib/report.py`, `check.py`). Each rule instance (an *obligation*) is discharged, violated or undecided.
   Only positive evidence is a violation: a path or value that does the wrong thing. Code outside the analysed subset
   makes the obligation undecided, which is quiet and listed in the evidence; if an anchor disappears or nothing at all
   is decided, the check answers "no answer" (exit 2) instead of passing. On the current tree no obligation is undecided.
   `lib/sensitivity.py` removes from consideration what cannot influence the obligation (comments, unused statements).

Exit 0 = held on everything analysed; exit 1 with `VIOLATION property=.. replay=..` otherwise; the replay file holds
the rule, the construct and the path.

### Why this reaches what the tests cannot

The 20 tests run a few documents through a few calls. The properties quantify over all documents, histories, orders,
relative positions, cut points and failures. A path summary covers every input that takes the path; a partition covers
every value the formula cannot tell apart; histories are covered either by induction (each operation keeps the ledger) or
to a stated depth. Where an argument is bounded (lengths, number of nodes, depth of a history), the bound is given with
the property below, and it is a bound of the abstract family, not a random sample.

### Assumptions

Built-ins, `io` streams, `msgpack`, `json`, `zlib`/`lzma`/`bz2`, `pickle`, `xml.sax`/ElementTree and the file system behave
as documented. User code stays out of private attributes. One thread. User callables (predicates, keys) may do
anything but change the document, unless the property speaks of them.

### Limits

* **C41 (corrupted bytes are detected) is not applicable.** {na}
* C40 covers truncation, not corruption, for the same reason.
* Memory, time and the quality of compression are not considered.
* Where code is changed beyond what the engine understands, an obligation becomes undecided: a violation could hide there.
  This is the price for quietness on refactorings, and it is visible in the evidence (`undecided`).

### Quietness on refactorings

The checks judge what the code does. `tools/refactor.py` rewrites every function of docria by one of ~60
behaviour-preserving transformations (flip a condition, extract a helper, loop to comprehension and back, index loops,
`while` for `for`, guard clauses, De Morgan, temporaries, keyword arguments, reordering of independent statements,
`iter`/`next`, local functions, literals to constants, f-strings to format calls, ...). Every check runs on each rewritten
tree: a non-zero exit there is a false alarm and was fixed in the engine; an undecided obligation was made decidable where
possible. Hand-written restructurings (about 150) supplement this. `tools/mutate.py` and hand-written changes (several
hundred, each reviewed by property) drive the opposite direction.

False alarms met on the way, and corrected in the machinery: references into a container evaluated in a later version than
the one the term was formed in; a key that reads the container it indexes; a validation inside a `try` that is taken back
by its handler; positional against keyword arguments in model calls; values that are false but present.

"""

FINDINGS = """## Findings

{n} genuine defects of docria were found and repaired by `fix:` commits in /repo; `known_findings.txt` lists each with its
property and commit (`fixed:` entries suppress nothing: the check reports the violation again if it returns). There is no
recorded-but-unrepaired finding, so no check prints KNOWN-FINDING on the current tree.

{table}

### Observed, outside every statement, not repaired

* `_table_repr_("Layer '%s' with %%d nodes." % name)` fails for a layer name containing `%`.
* `MsgpackDocumentReader(path)` with a bad magic leaves its own file to the garbage collector.
* `DocumentFileIndex.build` raises TypeError for unhashable property values.
* `span_translate` on empty spans fails with AssertionError.
* `float64(default=-0.0)` gives 0.0.
* Field `covered_by`/`intersected_by` predicates raise AttributeError on nodes without the span.
* An empty `NodeList` without explicit types has no fields.
* `sort` with a failing key compacts first (node indices may change; order and content do not).
* A NODEREF_MANY field accepts a `NodeSpan` of the layer.
* Decoding a truncated document directly through `MsgpackCodec.decode` raises StopIteration (an error; inside a reader it is
  converted, C40).
* Java: `decodeLayer` reads BINARY values with `unpackArrayHeader` although they are written with a binary header;
  `decodeProperties` falls through from EXTENSION to the default case and throws. Java cannot be built here, and both are
  outside C35's statement (what Java writes and Python reads, vocabulary, layout).

"""


def rules_of(i):
    m = ast.parse(open(os.path.join(HERE, "rules", i.lower() + ".py")).read())
    out = []
    for n in ast.walk(m):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "rule" and isinstance(n.func.value, ast.Name) and n.func.value.id == "R":
            try:
                out.append((n.lineno, ast.literal_eval(n.args[0]), ast.literal_eval(n.args[1])))
            except ValueError:
                pass
    return [x[1:] for x in sorted(out)]


def main():
    src = open(os.path.join(HERE, "tools", "gen_manifest.py")).read()
    env = {}
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and n.targets[0].id in ("TECH", "NA"):
            env[n.targets[0].id] = ast.literal_eval(n.value)
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    seeds = {}
    for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        m = json.load(open(f))
        seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
    out = [PROSE.replace("{na}", env["NA"]["C41"][0].upper() + env["NA"]["C41"][1:] + "."), "## Properties\n"]
    for p in props:
        i = p["id"]
        out.append("### %s %s\n" % (i, p["title"]))
        out.append("%s\n" % p["statement"])
        if i not in P:
            out.append("Not applicable: %s.\n" % env["NA"].get(i, ""))
            continue
        oracle, bounds, notes = P[i]
        out.append("* **Method**: %s." % env["TECH"].get(i, ""))
        out.append("* **Rules**:")
        for n, t in rules_of(i):
            out.append("  * `%s`: %s" % (n, t))
        out.append("* **Oracle**: %s." % oracle)
        out.append("* **Bounds**: %s." % bounds)
        if notes:
            out.append("* **Notes**: %s." % notes)
        ev = os.path.join(HERE, "evidence", i + ".json")
        if os.path.exists(ev):
            c = json.load(open(ev))["coverage"]
            out.append("* **Analysed** (quick): %d functions, %d obligations." % (c.get("functions_analysed", 0), c.get("obligations", 0)))
        an = p["anchors"]
        out.append("* **Anchors**: %s." % "; ".join("%s: %s" % (k, ", ".join(map(str, v)) if isinstance(v, list) else v) for k, v in an.items() if k in ("files", "observe_at") and v))
        for s, m in seeds.get(i, []):
            out.append("* **Planted** `%s` (caught): %s Needs: %s" % (s, m["what_it_breaks"], m["needs"]))
        out.append("")
    k = [l.rstrip("\n") for l in open(os.path.join(HERE, "known_findings.txt")) if l.startswith("fixed:")]
    rows = ["| property | commit | what failed |", "|---|---|---|"]
    for l in k:
        _, pr, c, what = l.split(" ", 3)
        rows.append("| %s | %s | %s |" % (pr.split("=")[1], c, what.replace("|", "\\|")))
    out.append(FINDINGS.replace("{n}", str(len(k))).replace("{table}", "\n".join(rows)))
    out.append(open(os.path.join(HERE, "tools", "design_tail.md")).read())
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))
    print(len("\n".join(out).splitlines()), "lines")


main()
