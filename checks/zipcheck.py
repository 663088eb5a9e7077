"""Walks archives: well-formedness and a form without ids (executed symbolically and in the replay)."""
import io
import json
import zipfile

import direct
import objs

NODEKEYS = ("__class__", "__module__", "__loader__", "__id__")


class Walk:
    def __init__(self, ctx, data):
        self.ctx = ctx
        self.zip = zipfile.ZipFile(io.BytesIO(data))
        self.files = []
        self.ids = []
        self.nodes = 0

    def must(self, cond, msg):
        if cond is not True:
            self.ctx.check(cond, msg)

    def wellformed(self, protocol, version, loaders):
        names = self.zip.namelist()
        self.must(self.zip.testzip() is None, "a member is corrupt")
        self.must(len(set(names)) == len(names), "two members have the same name")
        for n in names:
            self.must(n != "" and "/" not in n and "\\" not in n and n not in (".", "..") and ":" not in n, "a member name is not flat")
        self.must("schema.json" in names, "there is no schema.json")
        schema = json.loads(self.zip.read("schema.json"))
        self.must(schema["protocol"] == protocol, "the schema has another protocol")
        self.must(schema["_skops_version"] == version, "the schema has another version of skops")
        self.loaders = loaders
        self.protocol = protocol
        self.node(schema)
        for f in self.files:
            self.must(f in names, "a node refers to a missing member")
        self.must(len(set(self.files)) == len(names) - 1, "a member is not referred to by any node")

    def node(self, st):
        self.must(isinstance(st, dict), "a node is not an object")
        for k in NODEKEYS:
            self.must(k in st, "a node lacks its " + k.strip("_"))
        self.must(isinstance(st["__loader__"], str), "the loader of a node is not a string")
        self.must((st["__loader__"], self.protocol) in self.loaders, "the loader of a node is unknown")
        self.must(isinstance(st["__class__"], str) and st["__class__"] != "", "the class of a node is not a name")
        self.must(isinstance(st["__module__"], str) and st["__module__"] != "", "the module of a node is not a name")
        self.must(type(st["__id__"]) is int, "the id of a node is not a number")
        self.nodes += 1
        loader = st["__loader__"]
        for k, v in st.items():
            if k in NODEKEYS or k in ("protocol", "_skops_version"):
                continue
            if k == "file" and isinstance(v, str):
                self.files.append(v)
            elif k == "content" and loader in ("ListNode", "TupleNode", "SetNode"):
                for x in v:
                    self.node(x)
            elif k == "content" and loader in ("DictNode", "DefaultDictNode") and "main" not in v:
                for x in v.values():
                    self.node(x)
            elif k == "content" and loader == "JsonNode":
                self.must(isinstance(v, str), "the content of a JsonNode is not a text")
            else:
                self.part(v)

    def part(self, v):
        if isinstance(v, dict):
            if any(k in v and not isinstance(v[k], dict) for k in NODEKEYS):
                self.node(v)
            else:
                for x in v.values():
                    self.part(x)
        elif isinstance(v, list):
            for x in v:
                self.part(x)
        elif isinstance(v, float):
            self.must(v == v and abs(v) != float("inf"), "a number of the schema is not valid JSON")

    # ------------------------------------------------------------- normal form
    def normal(self):
        return self.norm(json.loads(self.zip.read("schema.json")))

    def norm(self, v):
        if isinstance(v, dict):
            out = []
            for k, x in v.items():
                if k == "__id__" and type(x) is int:
                    if x not in self.ids:
                        self.ids.append(x)
                    x = self.ids.index(x)
                elif k == "file" and isinstance(x, str):
                    if x not in self.files:
                        self.files.append(x)
                    x = [self.files.index(x), x.rpartition(".")[2], self.zip.read(x)]
                else:
                    x = self.norm(x)
                out.append([k, x])
            return out
        if isinstance(v, list):
            return [self.norm(x) for x in v]
        return v


def same_archives(a, b, ctx):
    x, y = Walk(ctx, a), Walk(ctx, b)
    nx, ny = x.normal(), y.normal()
    if len(x.zip.namelist()) != len(y.zip.namelist()):
        return False
    r = direct.equal(nx, ny)
    return objs.same(nx, ny) if r is None else r
