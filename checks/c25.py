"""The JSON of a value says exactly what the value is, and the value of a JSON text is what the text says."""
from vcommon import *
from c24 import stripped
from facts import _walk, strip_targs, AnalysisBroken

SRC = "src/JSONResponse.cpp"
G = "graphql::response::"
H = G + "ResponseHandler::"
V = G + "Value::"
STR = "std::basic_string<char"
CONTENT = {"Map": "std::vector<std::pair<", "List": "std::vector<graphql::response::Value", "String": STR, "EnumValue": STR, "Boolean": "bool", "Int": "int", "Float": "double", "Scalar": "graphql::response::Value"}
KINDS = ("Map", "List", "String", "Null", "Boolean", "Int", "Float", "EnumValue", "Scalar")


def where(f):
    return "%s:%s" % (f["file"], f["l"])


def isvar(t, f, i):
    return t is not None and t[0] == "v" and len(f["p"]) > i and t[1] == f["p"][i]["n"]


def kind(t):
    """'the value is of this type'"""
    if t[0] == "eq":
        for a, b in ((t[1], t[2]), (t[2], t[1])):
            if b[0] == "enum" and a[0] == "call" and a[1] == V + "type" and a[3] is not None and a[3][0] == "v":
                return b[1].split("::")[-1]
    return None


def content(t, name):
    """the content of the value written, as that type"""
    t = stripped(t)
    return t[0] == "call" and t[1] in (V + "get", V + "release") and t[3] is not None and t[3][0] == "v" and bool(t[2]) and t[2][0].replace("const ", "").startswith(CONTENT[name])


def text_of(args, p):
    """the characters and the length of a string"""
    if len(args) >= 1 and p(stripped(args[0])):
        return True
    if len(args) < 2:
        return False
    a, n = args[0], args[1]
    chars = a[0] == "call" and a[1].split("::")[-1] in ("c_str", "data") and a[3] is not None and p(a[3])
    return chars and n[0] == "call" and n[1].split("::")[-1] in ("size", "length") and n[3] is not None and p(n[3])


def each(t, name, *fields):
    """a part of the element of the content that is being written"""
    for x in reversed(fields):
        if t[0] != "f" or t[2] not in x:
            return False
        t = t[1]
    return t[0] == "elem" and (content(t[1], name) or name == "Map" and t[1][0] == "v")


class WD(Decision):
    """decisions about writing: what is handed to the writer"""

    def __init__(self, f, **kw):
        self.f = f
        atoms = {k: (lambda k: lambda t: kind(t) == k)(k) for k in KINDS}
        atoms["finite"] = lambda t: t[0] == "call" and t[1].split("::")[-1] in ("isfinite", "__builtin_isfinite") and len(t[4]) == 1 and content(t[4][0], "Float")
        atoms["nan"] = lambda t: t[0] == "call" and t[1].split("::")[-1] in ("isnan", "__builtin_isnan") and len(t[4]) == 1 and content(t[4][0], "Float")
        atoms["inf"] = lambda t: t[0] == "call" and t[1].split("::")[-1] in ("isinf", "__builtin_isinf") and len(t[4]) == 1 and content(t[4][0], "Float")
        super().__init__(atoms, {}, value=False, **kw)
        self.opaque = self.opaque + ("graphql::rapidjson::",)

    def on_call(self, ctx, st, c):
        a = c.args
        if c.nq == self.f["nq"]:
            who = a[1] if len(a) > 1 else None
            s = "value" if who is not None and each(who, "Map", ("second",)) else "element" if who is not None and each(who, "List") else \
                "scalar" if who is not None and content(who, "Scalar") else "other"
            return ("opaque", self.add(st, "write:" + s, ctx, c.node))
        if c.nq.startswith("graphql::rapidjson::Writer::") or c.nq.startswith("graphql::rapidjson::PrettyWriter::"):
            n = c.name
            ok = True
            if n == "Key" or n == "String" and len(a) >= 1 and text_of(a, lambda t: each(t, "Map", ("first",))):
                n = "Key"
                ok = text_of(a, lambda t: each(t, "Map", ("first",)))
            elif n == "String":
                ok = text_of(a, lambda t: content(t, "String"))
            elif n in ("Bool", "Int", "Double"):
                ok = len(a) == 1 and content(a[0], {"Bool": "Boolean", "Int": "Int", "Double": "Float"}[n])
            elif n in ("Int64", "Int") and len(a) == 1:
                n, ok = "Int", content(a[0], "Int")
            return ("opaque", self.add(st, n + ("" if ok else ":other"), ctx, c.node))
        return super().on_call(ctx, st, c)


WRITES = {"Null": ("Null",), "Boolean": ("Bool",), "Int": ("Int",), "String": ("String",), "EnumValue": ("String",), "Scalar": ("write:scalar",)}


def of(r, k):
    return r.has(k) and not any(r.has(x) for x in KINDS if x != k)


def writing(ck, tu):
    fs = [f for f in tu.find(G + "writeResponse") if not f.get("dep")]
    ck.need(len(fs) == 1, "the function that writes a value")
    f = fs[0]
    rows = ck.table(tu, f, WD(f))
    tu_kinds = [e[0] for e in tu.enum(G + "Type")["c"]]
    for k in KINDS:
        mine = [r for r in rows if r.has(k)]
        if not mine:
            # the default: the kinds it stands for are those that no condition asks about
            mine = [r for r in rows if not any(r.has(x) for x in KINDS)]
        ck.ob("written/%s/decided" % k, bool(mine), where(f), "values of type %s are written" % k)
        for r in mine:
            ev = tuple(e for e in r.events if not e.startswith("loop"))
            if k in WRITES:
                ok = ev == WRITES[k]
            elif k == "Float":
                ok = (ev == ("Double",) and (r.has("finite") or r.has("nan", False) and r.has("inf", False))) \
                    or (ev == ("Null",) and (r.has("finite", False) or r.has("nan") or r.has("inf")))
            elif k == "Map":
                ok = ev[:1] == ("StartObject",) and ev[-1:] == ("EndObject",) and not len(ev[1:-1]) % 2 and all(x == ("Key", "write:value")[i % 2] for i, x in enumerate(ev[1:-1]))
            else:
                ok = ev[:1] == ("StartArray",) and ev[-1:] == ("EndArray",) and all(x == "write:element" for x in ev[1:-1])
            ck.ob("written/%s" % k, ok and r.end == "ret", where(f), "a value of type %s is written as what it is%s" % (k, "" if ok else "; offending path: %s" % r))
    for k, want in (("Map", ("Key", "write:value")), ("List", ("write:element",))):
        d = WD(f, unit=lambda ctx, rng, node, k=k: content(rng, k) or k == "Map" and rng[0] == "v" and rng[1] == f["p"][1]["n"])
        rs = [r for r in ck.table(tu, f, d) if r.loop]
        ck.ob("written/%s/every" % k, bool(rs), where(f), "what the value holds is written one by one")
        for r in rs:
            ok = r.end == "iter" and r.events == want
            ck.ob("written/%s/each" % k, ok, r.where, "every %s is written, in order%s" % ("entry" if k == "Map" else "element", "" if ok else "; offending path: %s" % r))
    for g in tu.find(G + "toJSON"):
        d = Decision({}, {"write": lambda c: c.nq == f["nq"] and len(c.args) == 2 and isvar(c.args[1], g, 0) and mentions("buffer")(c.args[0]) | any(x[0] == "new" and "Writer" in x[1] for x in subterms(c.args[0]))}, value=True)
        d.opaque += ("graphql::rapidjson::",)
        for r in ck.table(tu, g, d):
            v = r.value
            ok = r.events == ("write",) and v is not None and any(x[0] == "call" and x[1].endswith("GenericStringBuffer::GetString") for x in subterms(v))
            ck.ob("text", ok and r.end == "ret", where(g), "the text is what was written for the value%s" % ("" if ok else "; offending path: %s" % r))


def top(t, field):
    return t is not None and t[0] == "call" and t[1].split("::")[-1] == "back" and t[3] is not None and fieldname(t[3]) == field


class PD(Decision):
    """decisions of a callback of the parser: which value is put where"""

    def __init__(self, f, **kw):
        self.f = f
        super().__init__(kw.pop("atoms", {}), {}, value=True, **kw)
        self.opaque = tuple(o for o in self.opaque) + (H + "setValue", H + "getResponse")
        self.bounds = set()

    def on_call(self, ctx, st, c):
        a = c.args
        if c.nq == H + "setValue":
            return ("opaque", self.add(st, "put:" + (self.made(a[0]) if a else "?"), ctx, c.node))
        if c.nq == H + "Int" and self.f["nq"] != H + "Int":
            return ("opaque", self.add(st, "Int" if len(a) == 1 and isvar(a[0], self.f, 0) else "Int:other", ctx, c.node), ("c", True))
        if c.nq == V + "set" and c.obj is not None and c.obj[0] == "new" and len(a) == 1:
            t = (c.ta or ["?"])[0]
            ok = isvar(a[0], self.f, 0) or text(a[0], self.f)
            return ("opaque", self.add(st, "set:%s%s" % (t.split("<")[0], "" if ok else ":other"), ctx, c.node))
        if c.nq == V + "from_json":
            return ("opaque", self.add(st, "json", ctx, c.node))
        if c.nq == H + "getResponse":
            return ("opaque", self.add(st, "pop", ctx, c.node))
        if c.obj is not None and fieldname(c.obj) in ("_responseStack", "_keyStack"):
            w = fieldname(c.obj)[1:4]
            if c.name in ("push_back", "emplace_back", "push"):
                x = a[0] if len(a) == 1 else ("new", "", tuple(a))
                s = "text" if text(x, self.f) else self.made(x)
                return ("opaque", self.add(st, "push:%s:%s" % (w, s), ctx, c.node))
            if c.name in ("pop_back", "pop"):
                return ("opaque", self.add(st, "pop:" + w, ctx, c.node))
            if c.name in ("clear", "erase", "resize"):
                return ("opaque", self.add(st, "drop:" + w, ctx, c.node))
        if c.name == "max" and "numeric_limits<int>" in (c.node.get("f") or ""):
            self.bounds.add(c.node.get("l"))
        return super().on_call(ctx, st, c)

    def made(self, t):
        """which value a term makes"""
        f = self.f
        if t[0] == "call" and t[1] == V + "from_json":
            return self.made(t[3]) + "+json"
        if t[0] == "call" and t[1] == H + "getResponse":
            return "done"
        if t[0] == "new" and (t[1] in ("", "graphql::response::Value") or t[1].endswith("::Value")):
            a = t[2]
            if not a:
                return "null"
            if a[0][0] == "enum":
                return "type:" + a[0][1].split("::")[-1] if len(a) == 1 else "?"
            if len(a) == 1 and isvar(a[0], f, 0) and f["p"][0]["t"] in ("bool", "int", "double"):
                return f["p"][0]["t"]
            if text(a[0], f) and len(a) == 1 or text(t, f):
                return "text"
        if t[0] == "new" and len(t[2]) == 1 and t[2][0][0] == "enum":
            return "type:" + t[2][0][1].split("::")[-1]
        return "?"


def text(t, f):
    """the string of the characters and the length the callback is given"""
    while t[0] == "new" and len(t[2]) == 1 and t[2][0][0] == "new":
        t = t[2][0]
    if len(f["p"]) < 2:
        return False
    if t[0] == "new" and len(t[2]) >= 2 and isvar(t[2][0], f, 0) and isvar(t[2][1], f, 1) and len(t[2]) == 2:
        return True
    return False


CALLBACKS = {
    "Null": (("put:null",), ("put:type:Null",)),
    "Bool": (("put:bool",), ("set:bool", "put:type:Boolean")),
    "Int": (("put:int",), ("set:int", "put:type:Int")),
    "Double": (("put:double",), ("set:double", "put:type:Float")),
    "String": (("json", "put:text+json"), ("json", "put:text")),
    "StartObject": (("push:res:type:Map",),),
    "StartArray": (("push:res:type:List",),),
    "Key": (("push:key:text",),),
    "EndObject": (("pop", "put:done"),),
    "EndArray": (("pop", "put:done"),),
}


def reading(ck, tu):
    fns = {f["nq"].split("::")[-1]: f for f in tu.functions if f["nq"].startswith(H) and not f.get("dep")}
    for n in tuple(CALLBACKS) + ("Uint", "Int64", "Uint64", "setValue", "getResponse"):
        ck.ob("callback/%s/present" % n, n in fns, SRC, "the handler takes what the parser reports (%s)" % n)
    for n, forms in CALLBACKS.items():
        if n not in fns:
            continue
        f = fns[n]
        for r in ck.table(tu, f, PD(f)):
            ok = r.end == "ret" and r.events in forms and r.value == ("c", True)
            ck.ob("callback/%s" % n, ok, where(f), "what is read becomes the value it denotes%s" % ("" if ok else "; offending path: %s" % r))
    for n in ("Int64", "Uint64"):
        if n in fns:
            for r in ck.table(tu, fns[n], PD(fns[n])):
                ck.ob("callback/%s" % n, r.end == "throw" and not any(e.startswith(("put", "push")) for e in r.events), where(fns[n]), "a number that does not fit an Int is refused%s" % ("" if r.end == "throw" else "; offending path: %s" % r))
    if "Uint" in fns:
        f = fns["Uint"]

        def bound(t):
            return t[0] == "c" and t[1] == 2147483647 or t[0] == "call" and t[1].startswith("std::numeric_limits") and t[1].endswith("max")
        past = lambda t: t[0] == "lt" and (bound(t[1]) and isvar(t[2], f, 0))
        d = PD(f, atoms={"past": past, "within": lambda t: t[0] == "lt" and isvar(t[1], f, 0) and t[2] == ("c", 2147483648)})
        rows = ck.table(tu, f, d)
        for r in rows:
            over = True if r.has("past") or r.has("within", False) else False if r.has("past", False) or r.has("within") else None
            ok = over is not None and (over and r.end == "throw" or not over and r.end == "ret" and r.events == ("Int",) and r.value == ("c", True) or
                                       not over and r.end == "ret" and r.events in CALLBACKS["Int"] and r.value == ("c", True))
            ck.ob("callback/Uint", ok, where(f), "a number that fits an Int is one, and a greater one is refused%s" % ("" if ok else "; offending path: %s" % r))
        uses = []
        _walk(f["body"], lambda n: uses.append(n) if n.get("k") == "call" and strip_targs(n.get("f") or "").startswith("std::numeric_limits") else None)
        ck.ob("callback/Uint/bound", all("numeric_limits<int>" in n["f"] for n in uses), where(f), "the bound is that of an Int")
    if "setValue" in fns:
        f = fns["setValue"]
        asked = lambda k: lambda t: t[0] == "eq" and any(b[0] == "enum" and b[1].endswith("Type::" + k) and a[0] == "call" and a[1] == V + "type" and top(a[3], "_responseStack") for a, b in ((t[1], t[2]), (t[2], t[1])))

        class S(Decision):
            def on_call(self, ctx, st, c):
                a = c.args
                if c.nq == V + "emplace_back" and top(c.obj, "_responseStack"):
                    ok = len(a) == 2 and top(a[0], "_keyStack") and isvar(a[1], f, 0)
                    return ("opaque", self.add(st, "entry" if ok else "element" if len(a) == 1 and isvar(a[0], f, 0) else "other", ctx, c.node))
                if c.obj is not None and fieldname(c.obj) in ("_keyStack", "_responseStack") and c.name != "back":
                    return ("opaque", self.add(st, "%s:%s" % (c.name, fieldname(c.obj)), ctx, c.node))
                if c.name == "back" and c.obj is not None and fieldname(c.obj) == "_keyStack":
                    return ("opaque", self.add(st, "key", ctx, c.node))
                return super().on_call(ctx, st, c)

            def on_write(self, ctx, st, l, r, op, node):
                if top(l, "_responseStack"):
                    return self.add(st, "root" if op == "=" and isvar(r, f, 0) else "other", ctx, node)
                return super().on_write(ctx, st, l, r, op, node)
        for r in ck.table(tu, f, S({"Map": asked("Map"), "List": asked("List")}, {})):
            if r.has("Map"):
                ok = r.events in (("key", "entry", "pop_back:_keyStack"), ("key", "pop_back:_keyStack", "entry"))
            elif r.has("List"):
                ok = r.events == ("element",)
            else:
                ok = r.has("Map", False) and r.has("List", False) and r.events == ("root",)
            ck.ob("nesting", ok, where(f), "a value goes into the object (under the last key), the array or the place of the root that is open%s" % ("" if ok else "; offending path: %s" % r))
    if "getResponse" in fns:
        f = fns["getResponse"]
        for r in ck.table(tu, f, PD(f)):
            ok = r.end == "ret" and r.events == ("pop:res",) and r.value is not None and top(r.value, "_responseStack")
            ck.ob("done", ok, where(f), "a finished value is taken off once%s" % ("" if ok else "; offending path: %s" % r))
    ctor = [f for f in tu.functions if f["nq"] == H + "ResponseHandler" and not f["p"] and not f.get("dep")]
    ck.ob("root/present", bool(ctor), SRC, "the handler starts with the place of the root")
    for f in ctor:
        for r in ck.table(tu, f, PD(f)):
            ev = tuple(e for e in r.events if not e.startswith("loop"))
            ck.ob("root", ev in (("push:res:null",), ("push:res:type:Null",)), where(f), "the handler starts with the place of the root%s" % ("" if ev == ("push:res:null",) else "; offending path: %s" % r))
    for f in tu.find(G + "parseJSON"):
        class D(Decision):
            def on_call(self, ctx, st, c):
                if c.nq.startswith("graphql::rapidjson::GenericReader::"):
                    flags = [x.rstrip("UL") for x in (c.ta or []) if x.rstrip("UL").isdigit()]
                    stream = c.args[0] if c.args else None
                    ok = c.name == "Parse" and (not flags or not int(flags[0]) & ~(2 | 4 | 16)) and stream is not None and any(isvar(x, f, 0) for x in subterms(stream))
                    return ("opaque", self.add(st, "parse" if ok else "parse:other", ctx, c.node))
                if c.nq == H + "getResponse":
                    return ("opaque", self.add(st, "result", ctx, c.node))
                return super().on_call(ctx, st, c)
        d = D({}, {}, value=True)
        d.opaque += ("graphql::rapidjson::",)
        for r in ck.table(tu, f, d):
            v = r.value
            ok = r.end == "throw" or r.events == ("parse", "result") and v is not None and v[0] == "call" and v[1] == H + "getResponse"
            ck.ob("parsed", ok, where(f), "the value is that of the whole text%s" % ("" if ok else "; offending path: %s" % r))


def run(ck):
    tu = ck.load(SRC)
    writing(ck, tu)
    reading(ck, tu)
