"""C21: reading, querying, printing and encoding do not change the document (effect analysis)."""
import ast
from rules.common import *
from effects import persistent, path_root, events, cache_attr, attr_of
from program import Class

MODEL = ("Node", "NodeLayerCollection", "NodeLayerSchema", "Document", "Text", "TextSpan", "NodeSpan", "NodeList", "DataType", "NodeCollection", "ExtData")

# read operations of the public interface (constructors of results, encoders, traversals, queries, printing, validation, export)
READS = """
Node.i Node.fld Node.is_dangling Node.is_valid Node._ipython_key_completions_ Node.__hash__ Node.__eq__ Node.__ne__ Node.__str__ Node.left Node.right
Node.iter_span Node._table_repr_ Node._repr_html_ Node.__repr__
NodeCollection._table_repr_ NodeCollection.to_list NodeCollection.validate NodeCollection.first NodeCollection.last NodeCollection._repr_html_
NodeCollection.__contains__ NodeCollection.__iter__ NodeCollection.__len__ NodeCollection.__getitem__
NodeFieldCollection.__init__ NodeFieldCollection.dtype NodeFieldCollection.__len__ NodeFieldCollection.__iter__ NodeFieldCollection.__getitem__
NodeFieldCollection.to_list NodeFieldCollection.filter NodeFieldCollection.is_none NodeFieldCollection.has_value NodeFieldCollection.is_any
NodeFieldCollection.covered_by NodeFieldCollection.intersected_by NodeFieldCollection.__gt__ NodeFieldCollection.__le__ NodeFieldCollection.__lt__
NodeFieldCollection.__ge__ NodeFieldCollection.__ne__ NodeFieldCollection.__eq__ NodeFieldCollection._table_repr_ NodeFieldCollection._repr_html_
NodeFieldCollection.__repr__ NodeFieldCollection.__str__
NodeSpan.__init__ NodeSpan.__iter__ NodeSpan.text NodeSpan.textspan NodeSpan.first NodeSpan.last NodeSpan._repr_html_ NodeSpan.__len__ NodeSpan.__repr__ NodeSpan.__str__
NodeList.__init__ NodeList.__iter__ NodeList.__getitem__ NodeList.first NodeList.last NodeList.__repr__ NodeList._repr_html_ NodeList.__str__
TextSpan.start TextSpan.stop TextSpan.__len__ TextSpan.__hash__ TextSpan.__eq__ TextSpan.__getitem__ TextSpan.text_to TextSpan.span_to TextSpan.covered_by
TextSpan.intersected_by TextSpan.trim TextSpan.__repr__ TextSpan.__iter__ TextSpan.__str__
Text.__str__ Text.__len__ Text.__iter__ Text._repr_html_ Text.compile Text.offset Text.__getitem__
DataType.default DataType.encode DataType.cast_up_possible DataType.cast_up DataType.is_valid DataType.__repr__ DataType.__hash__ DataType.__eq__
DataTypeBool.is_valid DataTypeInt32.is_valid DataTypeInt64.is_valid DataTypeFloat.is_valid DataTypeString.is_valid DataTypeBinary.is_valid
DataTypeNodespan.is_valid DataTypeTextspan.is_valid DataTypeNoderef.is_valid DataTypeNoderefList.is_valid DataTypes.typeof DataTypes.matches
NodeCollectionQuery.__init__ NodeCollectionQuery.__iter__ NodeCollectionQuery.__len__ NodeCollectionQuery.update NodeCollectionQuery.__repr__
NodeCollectionQuery._repr_html_ NodeCollectionQuery.__str__
NodeLayerCollection.schema NodeLayerCollection.name NodeLayerCollection.validate NodeLayerCollection.filter NodeLayerCollection.left
NodeLayerCollection.right NodeLayerCollection.iter_nodespan NodeLayerCollection.__iter__ NodeLayerCollection.__repr__ NodeLayerCollection._repr_html_
NodeLayerCollection.__str__ NodeLayerCollection.__len__ NodeLayerCollection.__getitem__ NodeLayerCollection._ipython_key_completions_
NodeLayerCollection.first NodeLayerCollection.last NodeLayerCollection.to_pandas NodeLayerCollection.__contains__
Document.text Document.texts Document.layer Document.layers Document.maintext Document.__repr__ Document.__str__ Document.printschema
Document.__getstate__ Document.__getitem__ Document._ipython_key_completions_ Document.__contains__ Document._verify_references Document.compile
Codec.encode JsonCodec.encode JsonCodec.encode_object MsgpackCodec.encode XmlCodec.encode_intermediate XmlCodec.encode_utf8string XmlCodec.encode_tree
MsgpackDocument.__init__ MsgpackDocumentExt.encode MsgpackDocumentWriter.write TarMsgpackWriter.write
get_prop chain children_of bfs dfs dfs_leaves is_covered_by group_by_span dominant_right dominant_right_span sequence_to_textspans
get_representation Table.set_header Table.add_body Table.set_footer Table.format_text Table.format_html Table.render_text Table.render_html
EdgeIndex.build_index EdgeIndex.sources EdgeIndex.targets
NodeLambdaPredicate.__call__ NodePredicateOr.__call__ NodePredicateAnd.__call__ NodePredicateInvert.__call__ NodeFieldPredicateContains.__call__
NodeFieldPredicateEq.__call__ NodeFieldPredicateNeq.__call__ NodeFieldPredicateLe.__call__ NodeFieldPredicateLt.__call__ NodeFieldPredicateGe.__call__
NodeFieldPredicateGt.__call__ NodeFieldPredicateLambda.__call__
""".split()
TYPES = {"doc": "Document", "n": "Node", "node": "Node"}
NOIN = ("Table.render_text", "Table.render_html", "Codec.encode", "MsgpackCodec.encode", "XmlCodec.encode_tree", "Document.compile", "NodeList.__init__",
        "NodeCollection._table_repr_", "Node._table_repr_", "NodeFieldCollection._table_repr_")
EDITS = {"add_field", "remove_field", "detach", "trim_", "add_text", "add_layer", "remove_layer", "with_id", "unsafe_initialize", "add_many", "retain",
         "_update_default_values"}
RENUMBER = {"_id"}


def check(R):
    R.rule("effects", "every write a read operation (transitively) performs on an object it did not create is outside the document model, or renumbers / "
                      "closes the gaps of a node list with its own nodes")
    prog = R.prog
    model = {c for n in MODEL if n in prog.classes for c in [prog.classes[n]]}
    attrs = {}
    for c in prog.classes.values():
        if any(getattr(k, "name", k) in MODEL for k in c.mro()):
            for m in c.methods.values():
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
                        attrs.setdefault(n.attr, set()).add(c.name)
    closed = set(READS)
    todo = list(READS)
    def is_model(en, t):
        c = en.tclass(en.tstr(t))
        if isinstance(c, Class):
            return c in model or c.derives(prog.cls("DataType"))
        return None if c is None else False

    def judge(en, e, b, root, acc, p):
        if root.op == "call" and root.a[0].op == "sym":
            if e.kind in ("mut", "setitem", "delitem"):
                return "changes the collection returned by the caller's function"
            return None
        if root.op != "sym":
            return None
        if isinstance(root.a[0], str) and root.a[0].startswith("*"):
            return None
        im = is_model(en, b)
        if e.kind in ("setattr", "delattr"):
            n = e.a[1]
            if n in RENUMBER or im is False:
                return None
            if im or (n in attrs and acc):
                if same_nodes(e.a[2] if e.kind == "setattr" else None, mk("attr", b, n, 0), p, en):
                    return None
                return "%s attribute %s" % ("assigns" if e.kind == "setattr" else "deletes", n)
            return None
        # container writes
        if e.kind == "mut" and b.op == "sym" and not acc:
            k, _ = en._tparse(en.tstr(b))
            if im or k in ("list", "dict", "set", "Iterator"):
                return "%s() on an argument" % e.a[1]
            return None
        if im:
            return "changes an item of a %s" % en.tstr(b)
        if b.op == "attr" and b.a[1] in attrs and is_model(en, b.a[0]) is not False:
            if e.kind == "setitem":
                v = path_root(e.a[2])
                if v[0] is root and v[1].startswith(acc):
                    return None
            if e.kind == "delitem" and e.a[1].op == "slice" and e.a[1].a[0].op in ("lout", "len", "lin") and e.a[1].a[1] is NONE:
                return None
            return "changes %s" % b.a[1]
        if b.op in ("item", "dget", "elem") and (is_model(en, b.a[0]) or b.a[0].op == "attr" and b.a[0].a[1] in attrs and is_model(en, b.a[0].a[0]) is not False):
            if e.kind == "setitem" and im is None and b.op == "item" or e.kind in ("mut", "delitem", "setitem"):
                return "changes the value %s" % show(b)[:80]
        return None

    def same_nodes(v, target, p, en):
        if v is None:
            return False
        fz = contents(en, p.st, v)
        r0, a0 = path_root(target)

        def from_same(x):
            r, a = path_root(x)
            return r is r0 and a.startswith(a0) or a0.startswith(a) and False
        if fz.op == "list" and all(z.op == "for" for z in fz.a[0]):
            return all(from_same(z.a[1]) for z in fz.a[0])
        return from_same(fz)

    for q in todo:
        try:
            f = prog.func(q)
        except Exception:
            R.unknown("effects", q, "no such operation")
            continue

        def go(f=f, q=q):
            en = R.engine(no_inline=tuple(x for x in NOIN if x != q), max_paths=6000)
            args = {}
            for i, (n, k, d) in enumerate(en._params(f.node)):
                if i == 0 and f.cls is not None and not f.static:
                    continue
                if k == "pos" and en._ann_of(f, n, k) is None and n in TYPES:
                    args[n] = sym(n, TYPES[n])
            en, ps = R.paths(f, args=args, engine=en)
            cl = []
            for p in ps:
                if p.returns and isinstance(p.outcome[1], T) and p.outcome[1].op == "clo":
                    try:
                        for s, v in en.call(p.outcome[1], [sym("n", "Node")], {}, p.st, ctx_of(f), f.node):
                            cl.append(Path(s, v if isinstance(v, tuple) else ("ret", v)))
                    except (AttributeError, TypeError, KeyError, ValueError):
                        pass
            ctor = f.node.name == "__init__"
            me = en._params(f.node)[0][0] if f.cls is not None and not f.static else None
            nw = 0
            allp = list(ps) + cl
            for e, b, p in persistent(en, allp):
                root, acc = path_root(b)
                if ctor and root.op == "sym" and root.a[0] == me and not acc:
                    continue        # the object under construction
                nw += 1
                m = judge(en, e, b, root, acc, p)
                if m and cache_attr(prog, attr_of(e, b)):
                    return R.unknown("effects", q, "writes %s, which may be a memo" % attr_of(e, b), e.loc)
                if m:
                    return R.bad("effects", q, "%s (%s of %s)" % (m, e.kind, show(b)[:160]), e.loc, trace=trace(p))
            # operations that could not be followed
            for p in allp:
                for e, nst in events(p.events):
                    if e.kind != "call":
                        continue
                    t = e.a[0]
                    g = None
                    if t.op in ("func", "bound"):
                        ft = t if t.op == "func" else next((x for x in t.a if isinstance(x, T) and x.op == "func"), None)
                        try:
                            g = en.func_of(ft) if ft is not None else None
                        except Exception:
                            g = None
                    if g is not None and g.qual not in closed and not g.node.name.startswith("decode"):
                        closed.add(g.qual)
                        todo.append(g.qual)
                    if t.op == "meth" and t.a[1] in EDITS:
                        r, acc = path_root(t.a[0])
                        if r.op == "sym" and not (isinstance(en.tclass(en.tstr(t.a[0])), Class) and en.tclass(en.tstr(t.a[0])) not in model):
                            return R.bad("effects", q, "calls the edit %s on %s" % (t.a[1], show(t.a[0])[:120]), e.loc, trace=trace(p))
            R.good("effects", q, "%d paths, %d writes to existing objects, all allowed" % (len(allp), nw), f.loc)
        R.guarded("effects", q, go)
