From 3aadb35a048a7f2e71433efafb6fe091d42b289a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:25 +0000
Subject: [PATCH 01/42] fix: encode and decode extension fields

Codec.encode looked up an encoder that does not exist for EXT (KeyError),
appended two column values per node, could not re-encode embedded documents
that decode returns, and decode_layer expected an ExtType although the
encoder stores plain binary.
---
 py/docria/codec.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 5293445..dd0071f 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -80,7 +80,6 @@ class Codec:
                 typeschema[field] = fieldtype.encode()
 
                 propvalues = []
-                encoder = Codec.encoders[fieldtype.typename]
                 if fieldtype.typename == DataTypeEnum.EXT:
                     for n in v:
                         extv = node_getter(n, field, None)
@@ -89,17 +88,18 @@ class Codec:
                                 propvalues.append(extv)
                             elif isinstance(extv, ExtData):
                                 propvalues.append(extv.encode())
+                            elif isinstance(extv, Document):
+                                propvalues.append(MsgpackCodec.encode(extv))
                             else:
                                 raise ValueError("Incorrect value.")
                         else:
                             propvalues.append(None)
-
-                        propvalues.append(None if extv is None else extv.encode())
                 elif fieldtype.typename == DataTypeEnum.SPAN:
-                    encoder = encoder(offset_mapping[fieldtype.options["context"]][0])
+                    encoder = Codec.encoders[fieldtype.typename](offset_mapping[fieldtype.options["context"]][0])
                     for n in v:
                         encoder(propvalues, node_getter(n, field, None))
                 else:
+                    encoder = Codec.encoders[fieldtype.typename]
                     for n in v:
                         encoder(propvalues, node_getter(n, field, None))
 
@@ -789,7 +789,7 @@ class MsgpackCodec:
 
                     for n, v in zip(nodes, data):
                         if v is not None:
-                            n[col] = extdata(v.data)
+                            n[col] = extdata(v.data if isinstance(v, msgpack.ExtType) else v)
 
                 def span_field(text, offsets):
                     nonlocal nodes
-- 
2.43.0


From 18fba5fd536e4f3a26972bbe5a708ad6fbbf10b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:25 +0000
Subject: [PATCH 02/42] fix: make binary and extension fields JSON
 representable

json.dumps raised TypeError on bytes values, and the decoder of extension
fields called a string.
---
 py/docria/codec.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index dd0071f..4846244 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -182,6 +182,14 @@ class JsonCodec:
     @staticmethod
     def encode_object(doc: "Document"):
         texts, types, types_num_nodes, schema = Codec.encode(doc, doc_encoder=JsonCodec.encode_object)
+
+        # JSON has no binary type, store as base64
+        for typename, layer in doc.layers.items():
+            for field, fieldtype in layer.schema.fields.items():
+                if fieldtype.typename in {DataTypeEnum.BINARY, DataTypeEnum.EXT}:
+                    types[typename][field] = [None if v is None else standard_b64encode(v).decode("ascii")
+                                              for v in types[typename][field]]
+
         return {
             "DM10": {
                 "props": doc.props,
@@ -275,23 +283,33 @@ class JsonCodec:
 
                     return decoder
 
+                def binary_field(data):
+                    nonlocal nodes
+
+                    for n, v in zip(nodes, data):
+                        if v is not None:
+                            n[col] = standard_b64decode(v)
+
                 def ext_field(data):
                     nonlocal nodes
 
-                    typename = typedef.options["type"]
-                    if typename == "doc":
-                        extdata = MsgpackDocumentExt
+                    exttype = typedef.options["type"]
+                    if exttype == "doc":
+                        extdata = MsgpackCodec.decode
                     else:
-                        extdata = lambda v: ExtData(typename, v)
+                        extdata = lambda v: ExtData(exttype, v)
 
                     for n, v in zip(nodes, data):
                         if v is not None:
-                            n[col] = typename(standard_b64decode(data))
+                            n[col] = extdata(standard_b64decode(v))
 
                 decoder = simple_field
                 if typedef.typename == DataTypeEnum.SPAN:
                     decoder = span_field(doc.texts[typedef.options["context"]], text2offsets[typedef.options["context"]])
 
+                if typedef.typename == DataTypeEnum.BINARY:
+                    decoder = binary_field
+
                 if typedef.typename == DataTypeEnum.EXT:
                     decoder = ext_field
 
-- 
2.43.0


From ec727b2ea07182a24351f9d13b5fade733745276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:26 +0000
Subject: [PATCH 03/42] fix: keep the requested float64 default and make the
 built-in one valid

The built-in default was the int 0, which float validation rejects, so adding
a node without the field failed; a requested default was replaced by 0.0.
---
 py/docria/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index b1bb0af..8b5aa74 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -990,6 +990,9 @@ class DataTypeFloat(DataType):
     """64 bit floating point (double) field type"""
 
     def __init__(self, typename: DataTypeEnum, **kwargs):
+        if kwargs.get("default") is not None:
+            kwargs["default"] = float(kwargs["default"])
+
         super().__init__(typename, **kwargs)
 
     def is_valid(self, value) -> bool:
@@ -1105,7 +1108,7 @@ class DataTypes:
         elif default is None:
             return DataTypes._float64_raw
         else:
-            return DataTypeFloat(DataTypeEnum.F64, default=0.0)
+            return DataTypeFloat(DataTypeEnum.F64, default=default)
 
     @staticmethod
     def string(default: Optional[str] = ""):
-- 
2.43.0


From 015e06053ca2faf0c24ebb24859b8891068ff3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:26 +0000
Subject: [PATCH 04/42] fix: bool and string types with a default validate
 their values

The factories returned the untyped base class, which accepts any value.
---
 py/docria/model.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 8b5aa74..a5b8341 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1117,16 +1117,16 @@ class DataTypes:
         elif default is None:
             return DataTypes._string_raw
         else:
-            return DataType(DataTypeEnum.STRING, default=default)
+            return DataTypeString(DataTypeEnum.STRING, default=default)
 
     @staticmethod
     def bool(default: Optional[bool] = False):
-        if default == "":
-            return DataTypes._string
-        elif default is None:
+        if default is None:
             return DataTypes._bool_raw
+        elif not default:
+            return DataTypes._bool
         else:
-            return DataType(DataTypeEnum.BOOL, default=default)
+            return DataTypeBool(DataTypeEnum.BOOL, default=default)
 
     boolean = bool
 
-- 
2.43.0


From ca4c903c90177da2a732f33a763db897fb6a1dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:27 +0000
Subject: [PATCH 05/42] fix: infer the bool type for bool values

bool is a subclass of int, so the bool branch of typeof was unreachable.
---
 py/docria/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index a5b8341..ee8c093 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1180,6 +1180,8 @@ class DataTypes:
     def typeof(o, comparetype: "DataType" = None) -> DataType:
         if isinstance(o, str):
             return DataTypes.string()
+        elif isinstance(o, bool):
+            return DataTypes.bool()
         elif isinstance(o, int):
             if comparetype is not None and comparetype.typename == DataTypeEnum.I32:
                 if -0x80000000 <= o <= 0x7FFFFFFF:
@@ -1190,8 +1192,6 @@ class DataTypes:
                 return DataTypes.int64()
         elif isinstance(o, float):
             return DataTypes.float64()
-        elif isinstance(o, bool):
-            return DataTypes.bool()
         elif isinstance(o, bytes):
             return DataTypes.binary
         elif isinstance(o, TextSpan):
-- 
2.43.0


From 107ab5ba2b03599a49057b4fe7d41be244dfed3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:12 +0000
Subject: [PATCH 06/42] fix: decode field types to the classes that validate
 them

---
 py/docria/codec.py | 10 +++++-----
 py/docria/model.py | 19 +++++++++++++++++++
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 4846244..e032eb0 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -15,7 +15,7 @@
 # limitations under the License.
 #
 """Codecs, encoding/decoding documents to/from binary or text representations"""
-from docria.model import TextSpan, Document, DataTypeEnum, NodeLayerSchema, String2DataType, DataType, Node, ExtData, NodeSpan
+from docria.model import TextSpan, Document, DataTypeEnum, NodeLayerSchema, String2DataType, DataType, DataTypes, Node, ExtData, NodeSpan
 import msgpack
 import json
 import logging
@@ -229,10 +229,10 @@ class JsonCodec:
                 if isinstance(typedef, dict): # Advanced type
                     ttype = String2DataType[typedef["type"]]
                     args = typedef["args"]
-                    fields.append((fieldname, DataType(ttype, **args)))
+                    fields.append((fieldname, DataTypes.create(ttype, **args)))
                 elif isinstance(typedef, str): # Simple type
                     ttype = String2DataType[typedef]
-                    fields.append((fieldname, DataType(ttype)))
+                    fields.append((fieldname, DataTypes.create(ttype)))
                 else:
                     raise DataError("Could not decode layer %s field types, " \
                                     "failed on field %s. Got data: %s" % (typename, fieldname, repr(typedef)))
@@ -723,9 +723,9 @@ class MsgpackCodec:
 
                 if has_args:
                     fieldargs = next(unpacker)
-                    fields.append((fieldname, DataType(ttype, **fieldargs)))
+                    fields.append((fieldname, DataTypes.create(ttype, **fieldargs)))
                 else:
-                    fields.append((fieldname, DataType(ttype)))
+                    fields.append((fieldname, DataTypes.create(ttype)))
 
                 nl.add(fieldname, fields[-1][1])
 
diff --git a/py/docria/model.py b/py/docria/model.py
index ee8c093..7ba8e00 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1069,6 +1069,20 @@ class DataTypeNoderefList(DataType):
                all(map(lambda n: n.collection is not None and n.collection.name == target_layer, value))
 
 
+_type2class = {
+    DataTypeEnum.I32: DataTypeInt32,
+    DataTypeEnum.I64: DataTypeInt64,
+    DataTypeEnum.F64: DataTypeFloat,
+    DataTypeEnum.BOOL: DataTypeBool,
+    DataTypeEnum.STRING: DataTypeString,
+    DataTypeEnum.BINARY: DataTypeBinary,
+    DataTypeEnum.NODEREF: DataTypeNoderef,
+    DataTypeEnum.NODEREF_MANY: DataTypeNoderefList,
+    DataTypeEnum.SPAN: DataTypeTextspan,
+    DataTypeEnum.NODEREF_SPAN: DataTypeNodespan
+}
+
+
 class DataTypes:
     """Layer field type factory"""
     _float64 = DataTypeFloat(DataTypeEnum.F64, default=0)
@@ -1168,6 +1182,11 @@ class DataTypes:
         else:
             raise ValueError(layer)
 
+    @staticmethod
+    def create(typename: DataTypeEnum, **options) -> DataType:
+        """Create the field type with given type name and options, used by codecs"""
+        return _type2class.get(typename, DataType)(typename, **options)
+
     @staticmethod
     def ext(typename):
         return DataType(DataTypeEnum.EXT, type=typename)
-- 
2.43.0


From 830d8b1bdb113f58bbb157b314a3e6b6bcb62f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:13 +0000
Subject: [PATCH 07/42] fix: keep bytes in document properties decodable

---
 py/docria/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index e032eb0..f2fc913 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -628,7 +628,7 @@ class MsgpackCodec:
         out_props = BytesIO()
 
         # TODO: Implement extension handling!
-        msgpack.pack(doc.props, out_props)
+        msgpack.pack(doc.props, out_props, use_bin_type=True)
 
         msgpack.pack(out_props.tell(), output)
         output.write(out_props.getbuffer()[0:out_props.tell()])
-- 
2.43.0


From 5ece5530bb0fec819a956047a93d3c5c9e0ae25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:13 +0000
Subject: [PATCH 08/42] fix: trim both ends of a span

---
 py/docria/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 7ba8e00..78b4921 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -685,9 +685,10 @@ class TextSpan:
                     break
 
                 new_start += 1
-        elif str.isspace(self.text.text[self.stop - 1]):
+
+        if str.isspace(self.text.text[self.stop - 1]):
             # move backward
-            for i in range(len(self) - 1, -1, -1):
+            for i in range(self.stop - new_start):
                 if not str.isspace(self.text.text[new_stop - 1]):
                     break
 
@@ -714,6 +715,7 @@ class TextSpan:
         offs = self._trim_offsets()
         if offs is not None:
             self._start, self._stop = offs
+            self.start_offset, self.stop_offset = offs
 
         return self
 
-- 
2.43.0


From 6a3c8d21f3e28820267c496746b6e92e4dee6596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:14 +0000
Subject: [PATCH 09/42] fix: retain handles gaps and leaves the layer unchanged
 when it fails

---
 py/docria/model.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 78b4921..c6a6a8b 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1614,22 +1614,28 @@ class NodeLayerCollection(NodeCollection):
         """Retain all nodes in the given list nodes, remove everything else."""
 
         try:
-            for n in iter(nodes):
-                # Mark the nodes to retain
-                if n.collection is not self:
-                    raise ValueError("Node %s is not in this node collection '%s'" % (repr(n), self.name))
-
-                # Guards against more than one reference to a node in nodes
-                if n._id >= 0:
-                    n._id = -(n._id + 1)  # add 1, otherwise zero fails.
-
+            nodes = list(iter(nodes))
         except TypeError:
             raise ValueError("Given nodes is not iterable.")
 
+        # Verify all before changing anything
+        for n in nodes:
+            if n.collection is not self:
+                raise ValueError("Node %s is not in this node collection '%s'" % (repr(n), self.name))
+
+        for n in nodes:
+            # Mark the nodes to retain
+            # Guards against more than one reference to a node in nodes
+            if n._id >= 0:
+                n._id = -(n._id + 1)  # add 1, otherwise zero fails.
+
         # Compact and remove unmarked nodes
         k = 0
         for i in range(len(self._nodes)):
             n = self._nodes[i]
+            if n is None:
+                continue
+
             if n._id >= 0:
                 n.collection = None
                 self.num -= 1
-- 
2.43.0


From 6fa659bfb501bdc2b0f30fb46cd2caa396510228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:14 +0000
Subject: [PATCH 10/42] fix: return the requested texts of an encoded document

---
 py/docria/codec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index f2fc913..17b353f 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -738,7 +738,7 @@ class MsgpackCodec:
         if len(texts) == 0:
             return next(unpacker)
         else:
-            texts = {}
+            output = {}
 
             prop_keys = set(texts)
             num_entries = unpacker.read_map_header()
@@ -746,11 +746,11 @@ class MsgpackCodec:
                 k = next(unpacker)
                 if k in prop_keys:
                     v = next(unpacker)
-                    texts[k] = v
+                    output[k] = v
                 else:
                     unpacker.skip()
 
-            return texts
+            return output
 
     @staticmethod
     def compute_text_offsets(doc, texts):
-- 
2.43.0


From 726fbc457ac301aa6a96e8a09b8fea53790074cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:14 +0000
Subject: [PATCH 11/42] fix: decode a selection of layers together with the
 layers they refer to

---
 py/docria/codec.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 17b353f..3616adb 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -504,7 +504,7 @@ class MsgpackDocument:
         text2offsets = MsgpackCodec.compute_text_offsets(doc, texts)
 
         # -- Parse layers
-        layer_set = types if len(layers) == 0 else list(layers)
+        layer_set = types if len(layers) == 0 else self._with_referenced_layers(types, schema, layers)
         all_nodes = {}
         for typename in layer_set:
             self.rawdata.seek(self._layers[typename][0])
@@ -515,9 +515,23 @@ class MsgpackDocument:
             layerschema = schema[typename]
             all_nodes[typename] = MsgpackCodec.decode_layer(unpacker, doc, typename, text2offsets, layerschema, **kwargs)
 
-        Codec.commit_layers(doc, types, schema, all_nodes)
+        Codec.commit_layers(doc, layer_set, schema, all_nodes)
         return doc
 
+    @staticmethod
+    def _with_referenced_layers(types, schema, layers):
+        """Requested layers and all layers their references lead to, in document order"""
+        selected = set()
+        pending = [typename for typename in types if typename in layers]
+        while pending:
+            typename = pending.pop()
+            if typename not in selected:
+                selected.add(typename)
+                pending.extend(typedef.options["layer"] for _, typedef in schema[typename]
+                               if "layer" in typedef.options)
+
+        return [typename for typename in types if typename in selected]
+
 
 class MsgpackDocumentExt(ExtData):
     """Embeddable document as a extended type"""
-- 
2.43.0


From cf9bdaaf267a9c34d7583a7aaa1a59ce4b5d7fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:15 +0000
Subject: [PATCH 12/42] fix: restore the reference of a pickled encoded
 document

---
 py/docria/codec.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 3616adb..ccc1595 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -416,6 +416,7 @@ class MsgpackDocument:
         return {"doc": self.rawdata.getvalue(), "ref": self.ref}
 
     def __setstate__(self, state):
+        self.ref = state["ref"]
         self.rawdata = BytesIO(state["doc"])
         if self.rawdata.read(4) != b"DM_1":
             raise ValueError("Magic bytes is not DM_1")
-- 
2.43.0


From 0b9eb173f5132f1bb6e2d0e9e6a82697786af899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:15 +0000
Subject: [PATCH 13/42] fix: export binary, extension and span values to XML

---
 py/docria/codec.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index ccc1595..2e77d94 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -920,7 +920,7 @@ class MsgpackCodec:
 
 class XmlCodec:
     """XML Codec, only encoding support"""
-    _string_pattern = re.compile(r"[^\u0009\u000A\u000D\u0020-\uD7FF\uE000-\uFFFD\u10000-\u10FFFF]", re.UNICODE)
+    _string_pattern = re.compile(r"[^\u0009\u000A\u000D\u0020-\uD7FF\uE000-\uFFFD\U00010000-\U0010FFFF]", re.UNICODE)
 
     @staticmethod
     def _string_encoder(s, repl=" "):
@@ -935,7 +935,7 @@ class XmlCodec:
         DataTypeEnum.F64: lambda v: str(float(v)),
         DataTypeEnum.BOOL: lambda v: str(bool(v)),
         DataTypeEnum.STRING: lambda v: XmlCodec._string_encoder(v),
-        DataTypeEnum.BINARY: lambda v: standard_b64encode(bytes(v)),
+        DataTypeEnum.BINARY: lambda v: standard_b64encode(bytes(v)).decode("ascii"),
         DataTypeEnum.NODEREF: lambda v: str(v._id),
         DataTypeEnum.NODEREF_MANY: lambda v: [str(n._id) for n in v],
         DataTypeEnum.NODEREF_SPAN: lambda v: v
@@ -946,11 +946,15 @@ class XmlCodec:
         extv = value
         if extv is not None:
             if isinstance(extv, bytes):
-                return extv
+                data = extv
             elif isinstance(extv, ExtData):
-                return extv.encode()
+                data = extv.encode()
+            elif isinstance(extv, Document):
+                data = MsgpackCodec.encode(extv)
             else:
                 raise ValueError("Incorrect value.")
+
+            return standard_b64encode(data).decode("ascii")
         else:
             return None
 
@@ -1104,7 +1108,7 @@ class XmlCodec:
                                           })
                         )
                         if verbose_node_spans:
-                            text_entries[fk] = XmlCodec._string_encoder(fv)
+                            text_entries[fk] = XmlCodec._string_encoder(str(span))
                     elif isinstance(fv, NodeSpan):
                         embedded_entries.append(
                             ET.Element("d",
-- 
2.43.0


From b09c671f140a6a1813898384997defdeff8b3d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:16 +0000
Subject: [PATCH 14/42] fix: keep characters XML forbids in texts and
 properties out of the XML export

---
 py/docria/codec.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 2e77d94..e697883 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -1058,7 +1058,8 @@ class XmlCodec:
 
         prop_node = ET.SubElement(document_node, "props")
         for k, v in doc.props.items():
-            ET.SubElement(prop_node, "prop", {"key": k, "value": str(v)})
+            ET.SubElement(prop_node, "prop", {"key": XmlCodec._string_encoder(str(k)),
+                                              "value": XmlCodec._string_encoder(str(v))})
 
         schema_node = ET.SubElement(document_node, "schema")
         for layer, schemadef in schema.items():
@@ -1067,7 +1068,7 @@ class XmlCodec:
                 if isinstance(fielddef, dict):
                     field_node = ET.SubElement(layer_schema_node, "field", {"name": field, "type": fielddef["type"]})
                     for argk, argv in fielddef["args"].items():
-                        ET.SubElement(field_node, "arg", {"key": argk, "value": str(argv)})
+                        ET.SubElement(field_node, "arg", {"key": argk, "value": XmlCodec._string_encoder(str(argv))})
                 else:
                     ET.SubElement(layer_schema_node, "field", {"name": field, "type": fielddef})
 
@@ -1079,14 +1080,14 @@ class XmlCodec:
                 pos = 0
                 i = 0
                 for entry in textv:
-                    ET.SubElement(seps_node, "s", {"v": entry, "id": str(i), "start": str(pos), "stop": str(pos + len(entry))})
+                    ET.SubElement(seps_node, "s", {"v": XmlCodec._string_encoder(entry), "id": str(i), "start": str(pos), "stop": str(pos + len(entry))})
                     pos += len(entry)
                     i += 1
 
-                ET.SubElement(text_node, "raw", {"value": "".join(textv)})
+                ET.SubElement(text_node, "raw", {"value": XmlCodec._string_encoder("".join(textv))})
             else:
                 for entry in textv:
-                    ET.SubElement(seps_node, "s", {"v": entry})
+                    ET.SubElement(seps_node, "s", {"v": XmlCodec._string_encoder(entry)})
 
         layers_node = ET.SubElement(document_node, "layers")
         for layerk, layerv in layers.items():
-- 
2.43.0


From daca336649e78bef99deb2ab9c2454ba77bd536d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:14 +0000
Subject: [PATCH 15/42] fix: keep fields with merged types in node lists

---
 py/docria/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/docria/model.py b/py/docria/model.py
index c6a6a8b..7614187 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -503,6 +503,8 @@ class NodeList(list, NodeCollection):
                                                  (repr(resolved_type), repr(el), fld, repr(self)))
                             else:
                                 resolved_type = resolved_type.cast_up(el)
+
+                        output_types[fld] = resolved_type
                 else:
                     output_types[fld] = next(iter(dtypes))
 
-- 
2.43.0


From 233f920d88002b31507353ec6bc62a4bb081476f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:14 +0000
Subject: [PATCH 16/42] fix: keep results independent of hash order

---
 py/docria/algorithm.py |  6 +++---
 py/docria/model.py     | 18 +++++++++---------
 py/docria/printout.py  |  2 +-
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/py/docria/algorithm.py b/py/docria/algorithm.py
index a9e1a36..3563e37 100644
--- a/py/docria/algorithm.py
+++ b/py/docria/algorithm.py
@@ -363,7 +363,7 @@ def group_by_span(group_nodes: List[Node],
     # 3. Run sweep, and assign all groups relevant nodes
     groups = dict()  # type: Dict[Node, Dict[str, List[Node]]]
     group_list = list()  # type: List[Tuple[Node, Dict[str, List[Node]]]]
-    open_nodes = set()
+    open_nodes = dict()  # used as an ordered set, the order inside a group must not depend on hash order
     open_groups = set()
 
     k = 0
@@ -373,7 +373,7 @@ def group_by_span(group_nodes: List[Node],
             # Group start
             for _, (layer, node) in nodes:
                 if layer is not None:
-                    open_nodes.add((layer, node))
+                    open_nodes[(layer, node)] = None
                     for open_group in open_groups:
                         groups[open_group][layer].append(node)
                 else:
@@ -388,7 +388,7 @@ def group_by_span(group_nodes: List[Node],
             # Group stop
             for _, (layer, node) in nodes:
                 if layer is not None:
-                    open_nodes.remove((layer, node))
+                    del open_nodes[(layer, node)]
                 else:
                     open_groups.remove(node)
 
diff --git a/py/docria/model.py b/py/docria/model.py
index 7614187..8b98dc0 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -474,17 +474,17 @@ class NodeList(list, NodeCollection):
 
         if fieldtypes is None:
             fields = {}
-            node_collections = set()
+            node_collections = {}  # used as an ordered set, the outcome must not depend on hash order
             for n in self:
                 if n.collection is None:
                     for fld, value in n.items():
-                        fields.setdefault(fld, set()).add(DataTypes.typeof(value))
+                        fields.setdefault(fld, {})[DataTypes.typeof(value)] = None
                 else:
-                    node_collections.add(n.collection)
+                    node_collections[n.collection] = None
 
             for nc in node_collections:
                 for fld, dtype in nc.fieldtypes.items():
-                    fields.setdefault(fld, set()).add(dtype)
+                    fields.setdefault(fld, {})[dtype] = None
 
             output_types = {}
             for fld, dtypes in fields.items():
@@ -1979,14 +1979,14 @@ class Document:
         """
 
         # Extract layer and text references
-        referenced_layers = set()
-        referenced_texts = set()
+        referenced_layers = []
+        referenced_texts = []
         for layer in self.layers.values():
             for field, fieldtype in layer.schema.fields.items():
                 if fieldtype.typename in {DataTypeEnum.NODEREF, DataTypeEnum.NODEREF_MANY, DataTypeEnum.NODEREF_SPAN}:
-                    referenced_layers.add((fieldtype.options["layer"], (layer.name, field)))
+                    referenced_layers.append((fieldtype.options["layer"], (layer.name, field)))
                 elif fieldtype.typename == DataTypeEnum.SPAN:
-                    referenced_texts.add((fieldtype.options["context"], (layer.name, field)))
+                    referenced_texts.append((fieldtype.options["context"], (layer.name, field)))
 
         # Verify referenced layers
         for layer, (src_layer, src_field) in referenced_layers:
@@ -2021,7 +2021,7 @@ class Document:
                     if not extra_fields_ok and len(set(n.keys()).difference(fieldkeys)) > 0:
                         raise SchemaValidationError(
                             "Extra fields not declared in schema was found for layer %s, fields: %s" % (
-                                k, ", ".join(set(n.keys()).difference(fieldkeys))), set(n.keys())
+                                k, ", ".join(f for f in n.keys() if f not in fieldkeys)), set(n.keys())
                         )
 
             # Collect span offsets
diff --git a/py/docria/printout.py b/py/docria/printout.py
index 9b5e048..31d7cc0 100644
--- a/py/docria/printout.py
+++ b/py/docria/printout.py
@@ -386,7 +386,7 @@ def get_representation(value):
                     break
 
             if all_nodes:
-                return "[%d nodes from layer: %s]" % (len(value), ", ".join(nodetypes))
+                return "[%d nodes from layer: %s]" % (len(value), ", ".join(sorted(nodetypes)))
             else:
                 return "[%d nodes from %d layers]" % (len(value), len(nodetypes))
         else:
-- 
2.43.0


From 810a9307f0b7ae45ec6ecfef16dff71fb4433ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 17/42] fix: index query results of any kind of node collection

---
 py/docria/model.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 8b98dc0..24511f1 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1289,18 +1289,11 @@ class NodeCollectionQuery(NodeCollection):
     def __len__(self):
         return len(self.result)
 
-    def __getitem__(self, item):
-        if isinstance(item, str):
-            if item in self.collection.schema.fields:
-                return NodeFieldCollection(self, item)
-        else:
-            return super().__getitem__(item)
-
     def update(self):
         self.result = [n for n in self.collection if self.predicate(n)]
 
     def __repr__(self):
-        return "NodeCollectionQuery(collection=%s, N=%d)" % (self.collection.name, len(self))
+        return "NodeCollectionQuery(collection=%s, N=%d)" % (repr(self.collection), len(self))
 
     def _repr_html_(self):
         return self._table_repr_("Query with %d nodes.").render_html()
-- 
2.43.0


From d1394a4a70c779a3202209e2e2b58c3587edc242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 18/42] fix: compare is_any operands by equality

---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 24511f1..56771f5 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -323,7 +323,7 @@ class NodeFieldCollection(Sized):
         :param item: the items to verify against
         :return: is any predicate
         """
-        return NodeFieldPredicateContains(self, set(item))
+        return NodeFieldPredicateContains(self, item)
 
     def covered_by(self, *range):
         """
-- 
2.43.0


From 4d70635425bc178b0361eb45e338e4e774a12953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:16 +0000
Subject: [PATCH 19/42] fix: equal text spans hash equally

---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 56771f5..0c235f8 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -603,7 +603,7 @@ class TextSpan:
         return self._stop - self._start
 
     def __hash__(self):
-        return hash((id(self.text), self._start, self._stop))
+        return hash((self._start, self._stop))
 
     def __eq__(self, textrange: Union["TextSpan", str]):
         if isinstance(textrange, TextSpan):
-- 
2.43.0


From b81466c548f305f600dfd68c352dd84d318c882d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:16 +0000
Subject: [PATCH 20/42] fix: indexing a span never reaches text outside it

---
 py/docria/model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 0c235f8..04f9e7a 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -619,10 +619,13 @@ class TextSpan:
             start, stop, step = indx.indices(len(self))
             return self.text[start + self.start:stop + self.start]
         elif isinstance(indx, tuple) and len(indx) == 2:
-            return self.text[indx[0] + self.start:indx[1] + self.start]
+            start, stop = int(indx[0]), int(indx[1])
+            if start < 0 or start > stop or stop > len(self):
+                raise DataValidationError("Out of bounds: [%d, %d), span length: %d" % (start, stop, len(self)))
+
+            return self.text[start + self.start:stop + self.start]
         elif isinstance(indx, int):
-            start, stop, step = slice(indx, indx + 1).indices(len(self))
-            return self.text.text[start + self.start]
+            return str(self)[indx]
         else:
             raise ValueError("Unsupported input indx: %s" % repr(indx))
 
-- 
2.43.0


From 4b46ce182dd0f16075ad329a1097053ea2cfe278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 21/42] fix: removing a layer considers node spans, cascades
 and reports success

---
 py/docria/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 04f9e7a..dc621b6 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1878,7 +1878,7 @@ class Document:
         for k, v in self.layers.items():
             if k != name:
                 for fk, fv in v.schema.fields.items():
-                    if fv.typename == DataTypeEnum.NODEREF or fv.typename == DataTypeEnum.NODEREF_MANY:
+                    if fv.typename in {DataTypeEnum.NODEREF, DataTypeEnum.NODEREF_MANY, DataTypeEnum.NODEREF_SPAN}:
                         if fv.options["layer"] == name:
                             referencing_layer_field.setdefault(k, []).append(fk)
 
@@ -1891,7 +1891,12 @@ class Document:
             raise DataValidationError("Attempting to remove layer %s, but is referenced from layer(s)+field(s): %s"
                                       % (name, layer_field_names))
 
+        for k, fields in referencing_layer_field.items():
+            for field in fields:
+                self.layers[k].remove_field(field)
+
         del self.layers[name]
+        return True
 
     def __repr__(self):
         return "Document(%d layers, %d texts%s)" % (
-- 
2.43.0


From 02597dcd16f1af48bc6322c1d3e201ce9bbc6d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 22/42] fix: add a field declared by a type factory

---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index dc621b6..28d63db 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1352,7 +1352,7 @@ class NodeLayerCollection(NodeCollection):
 
         if init_with_default:
             # Set all current values to the default
-            defaultvalue = dtype.default()
+            defaultvalue = self._schema.fields[name].default()
             if defaultvalue is not None:
                 for n in self:
                     n[name] = defaultvalue
-- 
2.43.0


From 40665478274fea9657637df85cb138b00bb53991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:18 +0000
Subject: [PATCH 23/42] fix: refuse to add a node which is already in a layer

---
 py/docria/model.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 28d63db..92dfc7e 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1480,14 +1480,22 @@ class NodeLayerCollection(NodeCollection):
         >>> layer.add(*nodes)
         """
         if len(args) > 0:
+            # Verify all before changing anything
+            added = set()
             for n in args:
-                if isinstance(n, Node):
-                    n._id = len(self._nodes)
-                    n.collection = self
-                    self._nodes.append(n)
-                    self.num += 1
-                else:
+                if not isinstance(n, Node):
                     raise ValueError(n)
+
+                if n.collection is not None or n in added:
+                    raise ValueError("Node is already bound to a collection: %s" % repr(n))
+
+                added.add(n)
+
+            for n in args:
+                n._id = len(self._nodes)
+                n.collection = self
+                self._nodes.append(n)
+                self.num += 1
         else:
             node = Node(self._default_values)
             node.update(**kwargs)
-- 
2.43.0


From a961eb3ebf075d2ce61832d66b77787f8c8a6247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:18 +0000
Subject: [PATCH 24/42] fix: validate nodes added from an iterator

---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 92dfc7e..6677d49 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1530,7 +1530,7 @@ class NodeLayerCollection(NodeCollection):
             self.num += 1
 
         if full_validation:
-            for node in nodes:
+            for node in self._nodes[start_pos:]:
                 assert self.validate(node), "Node not valid"
 
         if default_fill and len(self._default_values) > 0:
-- 
2.43.0


From 653d1400ee20ba1a8d9fb9bd7394f7b240b75972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:19 +0000
Subject: [PATCH 25/42] fix: permitting extra fields keeps type validation on

---
 py/docria/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 6677d49..b7eedc4 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -2023,9 +2023,11 @@ class Document:
             validate_fn = v.validate
 
             # Validate nodes
-            if type_validation and not extra_fields_ok:
+            if type_validation or not extra_fields_ok:
                 for n in v:
-                    validate_fn(n)
+                    if type_validation and not validate_fn(n):
+                        raise SchemaValidationError(
+                            "Invalid value in a field of node %d in layer %s" % (n.i, k), set(n.keys()))
 
                     if not extra_fields_ok and len(set(n.keys()).difference(fieldkeys)) > 0:
                         raise SchemaValidationError(
-- 
2.43.0


From e553cd9b2b00e71ebeddef60a9f0ab0618f06f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:19 +0000
Subject: [PATCH 26/42] fix: reference the block a document was read from

---
 py/docria/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index e30fe31..f8a3cec 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -398,7 +398,7 @@ class MsgpackDocumentReader:
             if doc is None:
                 self.block = None
             else:
-                return MsgpackDocument(doc, ref=(self._lastblockpos, start))
+                return MsgpackDocument(doc, ref=(self.block.position, start))
 
         while self.block is None:
             datablock = self.readblock()
@@ -411,7 +411,7 @@ class MsgpackDocumentReader:
             if doc is None:
                 self.block = None
             else:
-                return MsgpackDocument(doc, ref=(self._lastblockpos, start))
+                return MsgpackDocument(doc, ref=(self.block.position, start))
 
     def close(self):
         self.inputio.close()
-- 
2.43.0


From 8bc604cf8b1df09f9b6bbd3e7f46297757d467d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:20 +0000
Subject: [PATCH 27/42] fix: locate indexed files relative to the base path of
 the index

---
 py/docria/collection.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index f8a3cec..6492f4e 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -705,7 +705,7 @@ class DocumentFileIndex:
 
         return DocumentFileIndex(source_filepath, property2docis, docs)
 
-    def search(self, conds, lazy=False):
+    def search(self, conds, lazy=False, basepath=None):
         if len(conds) == 0:
             return
 
@@ -720,7 +720,8 @@ class DocumentFileIndex:
         from docria.codec import MsgpackCodec
 
         if len(results) > 0:
-            reader = MsgpackDocumentIO.read(self.filepath)
+            reader = MsgpackDocumentIO.read(self.filepath if basepath is None
+                                            else os.path.join(basepath, self.filepath))
             lastblk = None
 
             # Optimized reading if multiple hits exist within a block sequentially
@@ -756,7 +757,7 @@ class DocumentIndex:
 
     def search(self, conds, lazy=False):
         for indx in self.index.values():
-            for doc in indx.search(conds, lazy=lazy):
+            for doc in indx.search(conds, lazy=lazy, basepath=self.basepath):
                 yield doc
 
     def save(self, path):
-- 
2.43.0


From c13b0a5318af2820a0f0b33ca46073a737c795b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:59 +0000
Subject: [PATCH 28/42] fix: close files opened for indexing and searching

---
 py/docria/collection.py | 62 ++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 32 deletions(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index 6492f4e..d80cfb0 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -690,18 +690,16 @@ class DocumentFileIndex:
 
     @staticmethod
     def build(source_filepath, *properties, **kwargs):
-        reader = MsgpackDocumentIO.read(source_filepath, **kwargs)
         property2docis = {prop: {} for prop in properties}
         docs = []
 
-        for docid, doc in enumerate(doc for block in reader.blocks() for doc in block):
-            docs.append(doc.ref)
-            props = doc.properties()
-            for prop in properties:
-                if prop in props:
-                    property2docis[prop].setdefault(props[prop], []).append(docid)
-
-        reader.close()
+        with MsgpackDocumentIO.read(source_filepath, **kwargs) as reader:
+            for docid, doc in enumerate(doc for block in reader.blocks() for doc in block):
+                docs.append(doc.ref)
+                props = doc.properties()
+                for prop in properties:
+                    if prop in props:
+                        property2docis[prop].setdefault(props[prop], []).append(docid)
 
         return DocumentFileIndex(source_filepath, property2docis, docs)
 
@@ -720,29 +718,29 @@ class DocumentFileIndex:
         from docria.codec import MsgpackCodec
 
         if len(results) > 0:
-            reader = MsgpackDocumentIO.read(self.filepath if basepath is None
-                                            else os.path.join(basepath, self.filepath))
-            lastblk = None
-
-            # Optimized reading if multiple hits exist within a block sequentially
-            for docid in sorted(results):
-                ref = self.docrefs[docid]
-                try:
-                    if lastblk is None:
-                        reader.seek(ref[0])
-                        lastblk = reader.readblock()
-                    elif lastblk.position != ref[0]:
-                        reader.seek(ref[0])
-                        lastblk = reader.readblock()
-
-                    lastblk.seek(ref[1])
-                    if lazy:
-                        yield next(lastblk)
-                    else:
-                        yield MsgpackCodec.decode(next(lastblk._unpacker))
-                except Exception as e:
-                    raise IOError("Failed to read document in %s "
-                                  "for ref %d, %d" % (self.filepath, ref[0], ref[1])) from e
+            filepath = self.filepath if basepath is None else os.path.join(basepath, self.filepath)
+            with MsgpackDocumentIO.read(filepath) as reader:
+                lastblk = None
+
+                # Optimized reading if multiple hits exist within a block sequentially
+                for docid in sorted(results):
+                    ref = self.docrefs[docid]
+                    try:
+                        if lastblk is None:
+                            reader.seek(ref[0])
+                            lastblk = reader.readblock()
+                        elif lastblk.position != ref[0]:
+                            reader.seek(ref[0])
+                            lastblk = reader.readblock()
+
+                        lastblk.seek(ref[1])
+                        if lazy:
+                            yield next(lastblk)
+                        else:
+                            yield MsgpackCodec.decode(next(lastblk._unpacker))
+                    except Exception as e:
+                        raise IOError("Failed to read document in %s "
+                                      "for ref %d, %d" % (self.filepath, ref[0], ref[1])) from e
 
 
 class DocumentIndex:
-- 
2.43.0


From 5c1f4809fd0ccc6f30912fe38d55b03de28cce25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:00 +0000
Subject: [PATCH 29/42] fix: compose children of several fields of the same
 node

---
 py/docria/algorithm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/algorithm.py b/py/docria/algorithm.py
index 3563e37..8c8dd7c 100644
--- a/py/docria/algorithm.py
+++ b/py/docria/algorithm.py
@@ -62,8 +62,8 @@ def children_of(layer: NodeLayerCollection, *props):
     def compose(yielders):
         def yielder(n: Node):
             for yielder in yielders:
-                for n in yielder(n):
-                    yield n
+                for child in yielder(n):
+                    yield child
 
         return yielder
 
-- 
2.43.0


From 2c13f47e485584a1929e88fe9f653a183032ebe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:00 +0000
Subject: [PATCH 30/42] fix: only nodes without children are leaves

---
 py/docria/algorithm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/algorithm.py b/py/docria/algorithm.py
index 8c8dd7c..5c175c7 100644
--- a/py/docria/algorithm.py
+++ b/py/docria/algorithm.py
@@ -183,7 +183,7 @@ def dfs_leaves(start: Node,
 
         visited.add(current)
 
-        child_nodes = [ch for ch in children(current) if ch not in visited]
+        child_nodes = list(children(current))
         child_nodes.reverse()
 
         if not child_nodes and is_result and is_result(current):
@@ -191,7 +191,7 @@ def dfs_leaves(start: Node,
         elif not child_nodes and not is_result:
             yield current
 
-        stack.extend(child_nodes)
+        stack.extend(ch for ch in child_nodes if ch not in visited)
 
 
 def span_translate(doc: Document,
-- 
2.43.0


From 809573c2c7f876c285a3b3d85634745c6ea54ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:01 +0000
Subject: [PATCH 31/42] fix: escape the text name in HTML

---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index b7eedc4..d5208cb 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -771,7 +771,7 @@ class Text:
 
     def _repr_html_(self):
         from html import escape
-        return "<h3>Text: {0}</h3><pre>{1}</pre>".format(self.name, escape(self.text))
+        return "<h3>Text: {0}</h3><pre>{1}</pre>".format(escape(self.name), escape(self.text))
 
     def compile(self, offsets: List[int]):
         """
-- 
2.43.0


From 76301096b2dbed70e7cbc780e9077a6097ed2f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:01 +0000
Subject: [PATCH 32/42] fix: presentation limits can be read back and disabled

---
 py/docria/printout.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/py/docria/printout.py b/py/docria/printout.py
index 31d7cc0..9d0a5d2 100644
--- a/py/docria/printout.py
+++ b/py/docria/printout.py
@@ -53,7 +53,7 @@ class PrintOptions:
     @property
     def max_columns(self):
         """Max number of columns to display"""
-        return self._max_rows
+        return self._max_columns
 
     @max_columns.setter
     def max_columns(self, max_columns):
@@ -113,7 +113,10 @@ def truncate(text):
     if options.max_column_width is None:
         return text
     else:
-        min_sz = min(options._max_display_width-5, options.max_column_width-5)
+        min_sz = options.max_column_width-5
+        if options.max_display_width is not None:
+            min_sz = min(options.max_display_width-5, min_sz)
+
         if len(text) > min_sz:
             part = min_sz >> 1
             return "%s ... %s" % (text[0:part], text[-part:])
-- 
2.43.0


From dbc254f8f0e05170e23c5a7c062f8c46bdb0c460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:02 +0000
Subject: [PATCH 33/42] fix: render wikipedia references without a language

---
 py/docria/printout.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/docria/printout.py b/py/docria/printout.py
index 9d0a5d2..e7363fd 100644
--- a/py/docria/printout.py
+++ b/py/docria/printout.py
@@ -152,6 +152,9 @@ def urn_link_wikidata(partial):
 
 def urn_link_wikipedia(partial):
     parts = partial.split(":", 1)
+    if len(parts) < 2:
+        parts.insert(0, "www")
+
     return "https://{0}.wikipedia.org/wiki/{1}".format(escape(parts[0]), escape(parts[1]))
 
 
-- 
2.43.0


From 3ac15b3d718eeb3ab67709e7d6c358295146721a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:09 +0000
Subject: [PATCH 34/42] fix: read boundary streams longer than one segment

---
 py/docria/collection.py | 60 +++++++++++++++--------------------------
 1 file changed, 21 insertions(+), 39 deletions(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index d80cfb0..88f86c4 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -64,59 +64,41 @@ class _BoundaryReader(RawIOBase):
             upper = offset - boundary_val + 1
             return (upper // (boundary_val-4))*4 + boundary_val + 4 + upper
 
+    def _position(self, offset):
+        """Position in the underlying stream right after the byte preceding offset"""
+        return 1 if offset == 0 else self._to_absolute(offset - 1) + 1
+
     def seek(self, offset: int, whence: int = SEEK_SET) -> int:
         if whence != SEEK_SET:
             raise NotImplementedError()
 
         self.offset = offset
-        abs_start_position = self._to_absolute(offset)
+        abs_start_position = self._position(offset)
         pos = self.inputio.seek(abs_start_position, SEEK_SET)
         assert pos == abs_start_position
         return offset
 
     def read(self, n=-1):
-        abs_start_position = ((self.offset + 1) >> self.boundary)*4+(self.offset + 1)
-        if n == -1:
-            alldata = self.inputio.read(n)
-            abs_stop_position = abs_start_position + len(alldata)
-        else:
-            abs_stop_position = ((self.offset + n + 1) >> self.boundary)*4+(self.offset + n + 1)
-            alldata = self.inputio.read(abs_stop_position-abs_start_position)
-            abs_stop_position = abs_start_position + len(alldata)
-
-        if len(alldata) == 0:
-            return alldata
-
-        if (abs_start_position >> self.boundary) << self.boundary == abs_start_position:
-            abs_start_position += 4
-
-        num_boundaries = (abs_stop_position >> self.boundary) - (abs_start_position >> self.boundary)
-        real_length = abs_stop_position-abs_start_position-num_boundaries*4
-
-        if (abs_stop_position >> self.boundary) << self.boundary == abs_stop_position:
-            real_length -= 4
-
-        output = bytearray(real_length)
-
-        output_position = 0
-        rel_position = 0
-        current_position = abs_start_position
-
-        while current_position < abs_stop_position:
-            max_read = min(((current_position >> self.boundary) + 1) << self.boundary, abs_stop_position)-current_position
-
-            output[output_position:output_position+max_read] = alldata[rel_position:rel_position+max_read]
-            rel_position += 4 + max_read
-            current_position += max_read + 4
-            output_position += max_read
-
-        assert output_position == real_length
-        self.offset += real_length
+        output = bytearray()
+        while n < 0 or len(output) < n:
+            position = self._position(self.offset)
+            if position % (1 << self.boundary) == 0:
+                # Skip the boundary marker
+                self.inputio.read(4)
+                position += 4
+
+            left = (1 << self.boundary) - position % (1 << self.boundary)
+            data = self.inputio.read(left if n < 0 else min(left, n - len(output)))
+            if len(data) == 0:
+                break
+
+            output.extend(data)
+            self.offset += len(data)
 
         return bytes(output)
 
     def tell(self):
-        return self.inputio.tell()-(self.inputio.tell() >> self.boundary)*4-1
+        return self.offset
 
     def readable(self):
         return True
-- 
2.43.0


From 07b5ca06b322dfae6b03b5d0e0e1a5df358a9500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:10 +0000
Subject: [PATCH 35/42] fix: close files when opening a collection or writing
 the last block fails

---
 py/docria/collection.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index 88f86c4..706815b 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -507,8 +507,10 @@ class MsgpackDocumentWriter:
 
     def close(self):
         """Flush data and close the underlying storage"""
-        self.flush()
-        self.outputio.close()
+        try:
+            self.flush()
+        finally:
+            self.outputio.close()
 
 
 class TarMsgpackReader:
@@ -641,7 +643,12 @@ class MsgpackDocumentIO:
         :param kwargs: arguments for reading
         :return: reader for collection
         """
-        return MsgpackDocumentIO.readfile(open(filepath, "rb"))
+        filelike = open(filepath, "rb")
+        try:
+            return MsgpackDocumentIO.readfile(filelike)
+        except BaseException:
+            filelike.close()
+            raise
 
     @staticmethod
     def readfile(filelike, **kwargs)->MsgpackDocumentReader:
-- 
2.43.0


From de80696aff04fb1084305230fa8cb1c05f1a0ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:10 +0000
Subject: [PATCH 36/42] fix: apply the stop offset of a token search once

---
 py/docria/algorithm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/algorithm.py b/py/docria/algorithm.py
index 5c175c7..dc97b5b 100644
--- a/py/docria/algorithm.py
+++ b/py/docria/algorithm.py
@@ -488,7 +488,7 @@ def sequence_to_textspans(token_sequence: List[str],
     i = 0
 
     while i < len(token_sequence):
-        location = raw_text.find(token_sequence[i], pos, stop_offset)
+        location = raw_text.find(token_sequence[i], pos)
         if location == -1:
             # Zero length mapping
             output.append(text[start_offset+pos:start_offset+pos])
@@ -496,7 +496,7 @@ def sequence_to_textspans(token_sequence: List[str],
             # Verify forward that none of the k forward can be found before (not <=, just <) this match
             found_closer = False
             for j in range(1, min(k+1, len(token_sequence)-i)):
-                cand_location = raw_text.find(token_sequence[i+j], pos, stop_offset)
+                cand_location = raw_text.find(token_sequence[i+j], pos)
                 if cand_location != -1 and cand_location < location:
                     # Found something closer: Add zero length mappings for words in between.
                     for ic in range(i, i+j):
-- 
2.43.0


From 62c4493600f47b7e785cc78883ec713fb7fa06c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:13 +0000
Subject: [PATCH 37/42] fix: refuse to encode references to other documents

---
 py/docria/model.py | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index d5208cb..f74cb1c 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1975,6 +1975,28 @@ class Document:
     def __contains__(self, item):
         return item in self._layers
 
+    def _verify_references(self, layer, node):
+        """Verify that the values of a node only refer to nodes and texts of this document"""
+        for field, fieldtype in layer.schema.fields.items():
+            if field not in node:
+                continue
+
+            value = node[field]
+            if fieldtype.typename == DataTypeEnum.SPAN:
+                foreign = value.text is not self.texts[fieldtype.options["context"]]
+            elif fieldtype.typename == DataTypeEnum.NODEREF:
+                foreign = value.collection is not self.layers[fieldtype.options["layer"]]
+            elif fieldtype.typename == DataTypeEnum.NODEREF_MANY:
+                foreign = any(n.collection is not self.layers[fieldtype.options["layer"]] for n in value)
+            elif fieldtype.typename == DataTypeEnum.NODEREF_SPAN:
+                foreign = value.left.collection is not self.layers[fieldtype.options["layer"]]
+            else:
+                foreign = False
+
+            if foreign:
+                raise DataValidationError("Field '%s' of node %d in layer '%s' refers to another document"
+                                          % (field, node.i, layer.name))
+
     def compile(self, extra_fields_ok=False, type_validation=True, **kwargs) -> \
             Dict[str, Tuple[Dict[int, int], List[int]]]:
         """Compile the document, validates and assigns compacted ids to nodes (internal use)
@@ -2025,9 +2047,12 @@ class Document:
             # Validate nodes
             if type_validation or not extra_fields_ok:
                 for n in v:
-                    if type_validation and not validate_fn(n):
-                        raise SchemaValidationError(
-                            "Invalid value in a field of node %d in layer %s" % (n.i, k), set(n.keys()))
+                    if type_validation:
+                        if not validate_fn(n):
+                            raise SchemaValidationError(
+                                "Invalid value in a field of node %d in layer %s" % (n.i, k), set(n.keys()))
+
+                        self._verify_references(v, n)
 
                     if not extra_fields_ok and len(set(n.keys()).difference(fieldkeys)) > 0:
                         raise SchemaValidationError(
-- 
2.43.0


From 408ce97f40535e28ac1f2f854715d91ff98e5038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:14 +0000
Subject: [PATCH 38/42] fix: a sort that fails leaves the layer unchanged

---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index f74cb1c..2d230c2 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1575,7 +1575,7 @@ class NodeLayerCollection(NodeCollection):
         :param keyfn: a function (input: Node) -> value to sort by.
         """
         self.compact()
-        self._nodes.sort(key=keyfn)
+        self._nodes = sorted(self._nodes, key=keyfn)
         for i, n in zip(range(len(self)), self):
             n._id = i
 
-- 
2.43.0


From 9bccf5a2aff8a3143398121c079911b1fdd87621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:15 +0000
Subject: [PATCH 39/42] fix: distinct nodes with the same fields are unequal

---
 py/docria/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/docria/model.py b/py/docria/model.py
index 2d230c2..e527bdf 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -147,6 +147,9 @@ class Node(dict):
     def __eq__(self, other):
         return self is other
 
+    def __ne__(self, other):
+        return self is not other
+
     def __str__(self):
         tbl = self._table_repr_()
         return tbl.render_text()
-- 
2.43.0


From cb373224e7d8461a4cc967220fb160d875b49a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:52 +0000
Subject: [PATCH 40/42] fix: fill in default values in field order, not in hash
 order

add_many walked a set of field names, so the order of a node's fields (and
with it its rendering) differed from process to process.
---
 py/docria/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index e527bdf..d77050d 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1537,10 +1537,10 @@ class NodeLayerCollection(NodeCollection):
                 assert self.validate(node), "Node not valid"
 
         if default_fill and len(self._default_values) > 0:
-            keys = set(self._default_values.keys())
             for n in self._nodes[start_pos:]:
-                for missing_key in keys.difference(n.keys()):
-                    n[missing_key] = self._default_values[missing_key]
+                for key, default_value in self._default_values.items():
+                    if key not in n:
+                        n[key] = default_value
 
     def compact(self):
         """
-- 
2.43.0


From 2bbe017172bbffc80f002fef770ea6de5809954d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:50 +0000
Subject: [PATCH 41/42] fix: a collection that ends inside its header or a
 block is an error

---
 py/docria/collection.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index 706815b..b9a70e1 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -294,18 +294,18 @@ class MsgpackDocumentReader:
             inputio = open(inputio, mode="rb")
 
         self.inputio = inputio
-        self.dataread = 4
         header = self.inputio.read(4)
+        self.dataread = self.inputio.tell()
         if header != b"Dmf1":
             raise IOError("Header does not match expected format 'Dmf1', found: %s" % header.decode("latin1"))
 
         self.unpacker = Unpacker(self.inputio, raw=False)
 
-        codecname = next(self.unpacker)
+        codecname = self.unpacker.unpack()
         self.codec = get_codec(codecname).decompress
 
-        self.num_doc_per_block = next(self.unpacker)
-        self.advanced = next(self.unpacker)
+        self.num_doc_per_block = self.unpacker.unpack()
+        self.advanced = self.unpacker.unpack()
         if self.advanced:
             raise NotImplementedError("Advanced mode not implemented.")
 
@@ -367,6 +367,9 @@ class MsgpackDocumentReader:
         self._lastblockpos = self.unpacker.tell() + self.dataread
         data = next(self.unpacker, None)
         if data is None:
+            if self.inputio.tell() > self._lastblockpos:
+                raise IOError("Truncated file, the last block is incomplete")
+
             return None
         else:
             buf = self.codec(data)
-- 
2.43.0


From 6b697ecdb3c125ad67b790c13645e932fd4e1823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:50 +0000
Subject: [PATCH 42/42] fix: a truncated document does not end the iteration
 over a collection

---
 py/docria/collection.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index b9a70e1..068c72e 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -421,7 +421,11 @@ class DocumentReader:
         if doc is None:
             raise StopIteration()
 
-        return doc.document()
+        try:
+            return doc.document()
+        except StopIteration:
+            # Would otherwise be mistaken for the end of the collection
+            raise IOError("Truncated document")
 
 
 class MsgpackDocumentWriter:
-- 
2.43.0

