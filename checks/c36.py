"""The clients which clientgen writes: for the probe requests and the samples, the code it generates (read with the compiler's own front end) has the
types of the schema, sends every variable under its name and puts every field of the response into the member made for it."""
import os
import gen, sdl
from gencommon import bare, safe, cap, introspection_document
from xcommon import *
from facts import REPO

GSRC, RSRC = "src/ClientGenerator.cpp", "src/RequestLoader.cpp"
C = "graphql::client::"
V = "graphql::response::Value"
SCALAR = {"Int": "int", "Float": "double", "String": "std::string", "Boolean": "bool", "ID": "std::vector<unsigned char>"}


def runs():
    probe = lambda n: os.path.join(VERIF, "probe", n + ".graphql")
    sample = lambda n: os.path.join(REPO, "samples", n + ".graphql")
    S, T = probe("client"), sample("schema.today")
    return [("variables of every kind", S, probe("client.query"), "Everything", ("--operation=Everything",)),
            ("variables of every kind --no-introspection", S, probe("client.query"), "Everything", ("--operation=Everything", "--no-introspection")),
            ("the first operation", S, probe("client.query"), "Other", ()),
            ("a mutation", S, probe("client.mutation"), "Save", ()),
            ("a subscription without a name", S, probe("client.watch"), "", ()),
            ("a query without a name", S, probe("client.plain"), "", ()),
            ("samples/query", T, sample("query.today"), None, ()),
            ("samples/mutate", T, sample("mutate.today"), None, ()),
            ("samples/subscribe", T, sample("subscribe.today"), None, ()),
            ("samples/benchmark", T, sample("client.benchmark.today"), None, ())]


def modifiers(t):
    """the modifiers and the name of a type of the schema"""
    out = []
    while True:
        if t[0] == "nonnull":
            t = t[1]
        else:
            out.append("Nullable")
        if t[0] == "name":
            return tuple(out), t[1]
        out.append("List")
        t = t[1]


def cpp(mods, name):
    for m in reversed(mods):
        name = "std::%s<%s>" % ({"Nullable": "optional", "List": "vector"}[m], name)
    return name


class Client:
    """what the generated code has to be"""
    def __init__(self, schema, ops, frags, name):
        self.s, self.frags = schema, frags
        self.op = [o for o in ops if name is None or o["name"] == name][0]
        self.enums, self.inputs = [], []
        self.vars = [(v["name"], modifiers(v["type"])) for v in self.op["vars"]]
        for _, (m, n) in self.vars:
            self.input(n)
        self.root = self.s.roots[self.op["type"]]
        self.fields = self.collect(self.op["sel"], self.root, {})
        self.ns = self.op["type"] + "::" + (safe(self.op["name"]) if self.op["name"] else self.op["type"].capitalize())

    def input(self, n):
        k = self.s.kind(n)
        if k == "enum" and n not in self.enums:
            self.enums.append(n)
        if k == "input" and n not in self.inputs:
            self.inputs.append(n)
            for f in self.s.types[n]["inputs"]:
                self.input(modifiers(f["type"])[1])

    def collect(self, sel, on, seen):
        for x in sel:
            if x["kind"] == "field":
                if x["alias"] in seen:
                    continue
                f = {"name": x["alias"], "member": safe(x["alias"]), "sel": {}}
                if x["name"] == "__typename":
                    t = ("nonnull", ("name", "String"))
                elif x["name"] == "__schema":
                    t, f["may"] = ("nonnull", ("name", "__Schema")), True
                elif x["name"] == "__type":
                    t = ("name", "__Type")
                else:
                    own = [y for y in self.s.types[on]["fields"] if y["name"] == x["name"]]
                    t = own[0]["type"]
                f["mods"], f["type"] = modifiers(t)
                seen[x["alias"]] = f
                k = self.s.kind(f["type"])
                if k == "enum" and f["type"] not in self.enums:
                    self.enums.append(f["type"])
                if k in ("type", "interface", "union"):
                    f["struct"] = safe(f["member"] + "_" + f["type"])
                    self.collect(x["sel"], f["type"], f["sel"])
            elif x["kind"] == "spread":
                g = self.frags[x["name"]]
                self.collect(g["sel"], g["on"], seen)
            else:
                self.collect(x["sel"], x["on"] or on, seen)
        return seen


class Event(str):
    """what happened, and its parts"""
    parts = ()

    def __new__(cls, *parts):
        e = str.__new__(cls, "%s(%s as %s%s, %s)" % (parts[0], parts[1], parts[2], "<%s>" % ", ".join(parts[3]) if parts[3] else "", parts[4]))
        e.parts = parts
        return e


class Reads(Decision):
    """assignments of parsed entries to members, and entries which are added to a map"""
    member = None
    key = staticmethod(lambda k: False)

    def on_write(self, ctx, st, l, r, op, node):
        if l[0] == "f" and op == "=" and l[2] == self.member:
            for x in unwrap(r):
                if x[0] == "call" and x[1].endswith("::parse") and "ModifiedResponse" in x[1]:
                    src = "value" if any(y[0] == "f" and y[2] == "second" and y[1][0] == "elem" for y in subterms(x[4][0])) else "other"
                    st = self.add(st, Event("set", l[2], targ(x[1]), mods(x[2]), src), ctx, node)
                    break
            else:
                st = self.add(st, Event("set", l[2], "?", (), "other"), ctx, node)
        return super().on_write(ctx, st, l, r, op, node)

    def on_call(self, ctx, st, c):
        if c.name in ("parse", "serialize") and c.cls and str(c.cls).startswith(C + "Modified"):
            return ("opaque", st, ("call", str(c.cls) + "::" + c.name, tuple(c.node.get("ta") or ()), None, tuple(c.args)))
        if c.name == "emplace_back" and c.obj is not None and len(c.args) == 2 and str(c.cls or "").endswith("response::Value"):
            k = [x[1] for x in unwrap(c.args[0]) if x[0] == "c"]
            for x in unwrap(c.args[1]):
                if x[0] == "call" and x[1].endswith("::serialize") and "ModifiedVariable" in x[1]:
                    m = [y[2] for y in subterms(x[4][0]) if y[0] == "f"]
                    e = Event("add", k[0] if k else None, targ(x[1]), mods(x[2]), m[0] if m else None)
                    break
            else:
                e = Event("add", k[0] if k else None, "?", (), None)
            return ("opaque", self.add(st, e, ctx, c.node) if self.key(e.parts[1]) else st)
        return super().on_call(ctx, st, c)


def targ(q):
    """T of ModifiedVariable<T>::serialize"""
    q = q.rsplit("::", 1)[0]
    return bare(q[q.index("<") + 1:-1])


def mods(ta):
    return tuple(str(x).split("::")[-1] for x in (ta or ()) if "TypeModifier" in str(x) and not str(x).endswith("::None"))


class Check:
    def __init__(self, ck, label, schema, text, name, tu, opts):
        self.ck, self.label, self.tu = ck, label, tu
        ops, frags = sdl.request(text)
        self.text = text
        self.c = Client(schema, ops, frags, name)
        self.fns = tu.functions

    def ob(self, key, ok, where_, msg):
        return self.ck.ob("%s/%s" % (self.label, key), ok, where_, msg)

    def at(self, x, src=GSRC):
        return "%s:%s (generated by %s: %s)" % (x.get("file", self.tu.src), x.get("l", "?"), src, self.label)

    def scalar(self, n, scope):
        k = self.c.s.kind(n)
        if n in SCALAR:
            return SCALAR[n]
        if k == "enum":
            return self.ns + safe(n)
        if k == "input":
            return self.ns + "Variables::" + safe(n)
        return V

    def record(self, q):
        r = [x for x in self.tu.records if x["q"] == q]
        return r[0] if r else None

    def method(self, cls, t, name):
        r = [f for f in self.fns if f["n"] == name and f.get("body") and f.get("clsq") == C + cls and bare(f["cls"])[len(C + cls) + 1:-1] == t]
        return r[0] if len(r) == 1 else None

    def members(self, key, q, want, loose=()):
        r = self.record(q)
        if not self.ob(key + "/struct", r is not None, GSRC, "%s is declared" % q):
            return
        got = [(f["n"], bare(f["t"])) for f in r["fields"]]
        strip = lambda n, t: t[len("std::optional<"):-1] if n in loose and t.startswith("std::optional<") else t
        self.ob(key + "/members", [(n, strip(n, t)) for n, t in got] == [(n, strip(n, t)) for n, t in want], self.at(r), "the members of %s are those of the schema: %s, declared %s" % (q[len(C):], [x for x in want if x not in got] or want, [x for x in got if x not in want] or got))

    def run(self):
        ck, c = self.ck, self.c
        last = [f for f in self.fns if f["n"] == "parseResponse" and f.get("body")]
        if not self.ob("operation", len(last) == 1 and last[0]["q"] == C + c.ns + "::parseResponse", RSRC, "the client is that of the operation %s: %s" % (c.ns, [f["q"] for f in last])):
            return
        self.ns = C + c.ns + "::"
        for e in c.enums:
            self.enum(e)
        if c.vars:
            for n in c.inputs:
                self.input(n)
            self.members("variables", self.ns + "Variables", [(safe(n), cpp(m, self.scalar(t, ""))) for n, (m, t) in c.vars])
            f = [f for f in self.fns if f["q"] == self.ns + "serializeVariables" and f.get("body")]
            if self.ob("variables/serialized", len(f) == 1, GSRC, "the variables can be serialized"):
                self.adds("variables", f[0], [(n, safe(n), m, t) for n, (m, t) in c.vars])
        self.response("response", self.ns + "Response", c.fields, last[0])
        self.request()

    def adds(self, key, f, want):
        self.ck.functions[f["q"]] = self.at(f)
        w = [("add", n, self.scalar(t, ""), m, member) for n, member, m, t in want]
        for x in w:
            d = Reads({})
            d.key = lambda k, x=x: k == x[1]
            for r in self.ck.table(self.tu, f, d, partial=True):
                mine = [e.parts for e in r.events]
                self.ob("%s/sends/%s" % (key, x[1]), mine == [x], self.at(f), "%s is sent once, from its member, as %s: %s" % (x[1], x[2:], mine or "never"))
        d = Reads({})
        d.key = lambda k: k not in [x[1] for x in w]
        for r in self.ck.table(self.tu, f, d, partial=True):
            self.ob(key + "/sends-only", not r.events, self.at(f), "nothing else is sent: %s" % (r.events,))
            self.ob(key + "/sends-all", r.end == "ret", self.at(f), "the variables are sent on every path")
            self.ob(key + "/map", is_map(r.value), self.at(f), "what is sent is the object it was put into")

    def input(self, n):
        fs = self.c.s.types[n]["inputs"]
        t = self.ns + "Variables::" + safe(n)
        self.members("input/" + n, t, [(safe(f["name"]), cpp(modifiers(f["type"])[0], self.scalar(modifiers(f["type"])[1], ""))) for f in fs])
        f = self.method("ModifiedVariable", t, "serialize")
        if self.ob("input/%s/serialized" % n, f is not None, GSRC, "%s can be serialized" % n):
            self.adds("input/" + n, f, [(x["name"], safe(x["name"]), *modifiers(x["type"])) for x in fs])

    def enum(self, n):
        ck, tu = self.ck, self.tu
        names = [v["name"] for v in self.c.s.types[n]["values"]]
        q, key = self.ns + safe(n), "enum/" + n
        e = [x for x in tu.enums if x["q"] == q]
        if not self.ob(key, len(e) == 1, GSRC, "%s is declared" % n):
            return
        self.ob(key + "/constants", e[0]["c"] == [[safe(v), i] for i, v in enumerate(names)], self.at(e[0]), "the constants of %s are its values, counted from 0: %s" % (n, e[0]["c"]))
        tables = {}
        for v in tu.vars:
            if v.get("i") is not None and "string_view" in v.get("t", "") and "array" in v["t"]:
                tables[v["q"]] = [x["v"] for x in sub(v["i"]) if x.get("k") == "str"]
        fs = {"parse": self.method("ModifiedResponse", q, "parse")}
        if self.c.vars:
            fs["serialize"] = self.method("ModifiedVariable", q, "serialize")
        for what, f in fs.items():
            if not self.ob("%s/%s" % (key, what), f is not None, GSRC, "there is %s for %s" % (what, n)):
                continue
            self.ck.functions[f["q"]] = self.at(f)
            used = {x["q"] for x in sub(f["body"]) if x.get("k") == "ref" and x.get("q") in tables}
            self.ob("%s/%s/table" % (key, what), used and all(tables[t] == names for t in used), self.at(f), "the names of %s are those of its values, in their order: %s" % (n, [tables[t] for t in used]))
            if what == "parse":
                d = Decision({"enum": lambda t: t[0] == "call" and t[1] == V + "::maybe_enum",
                              "known": lambda t: t[0] == "found" and any(y[0] == "g" and y[1] in used for y in subterms(t[1])) and any(y[0] == "v" and y[1] == f["p"][0]["n"] for y in subterms(t[2]))}, may_throw=False)
                rows = ck.table(tu, f, d, partial=True)
                for r in rows:
                    if r.end == "ret":
                        self.ob(key + "/parse/known", r.has("enum") and r.has("known"), self.at(f), "only the value of an enum which is one of the names is taken: %s" % (r,))
                        self.ob(key + "/parse/value", position(r.value), self.at(f), "the constant is that of the position of the name: %s" % (r.value,))
                    if r.has("enum") and r.has("known"):
                        self.ob(key + "/parse/taken", r.end == "ret", self.at(f), "every name is taken: %s" % (r,))
            else:
                rows = ck.table(tu, f, Kind({}), partial=True)
                for r in rows:
                    self.ob(key + "/serialize/kind", r.end == "ret" and tuple(r.events) == ("named",), self.at(f), "a constant becomes an enum value with the name at its position: %s" % (r,))

    def response(self, key, q, fields, f):
        ck, tu = self.ck, self.tu
        fs = list(fields.values())
        t = lambda x: q + "::" + x["struct"] if "struct" in x else self.scalar(x["type"], q)
        self.members(key, q, [(x["member"], cpp(x["mods"], t(x))) for x in fs], [x["member"] for x in fs if x.get("may")])
        if f is None:
            f = self.method("ModifiedResponse", q, "parse")
        if not self.ob(key + "/parsed", f is not None, GSRC, "%s can be parsed" % q[len(C):]):
            return
        self.ck.functions[f["q"]] = self.at(f)
        ismap = lambda t: t[0] == "eq" and ("enum", "graphql::response::Type::Map") in t
        for x in fs:
            d = Reads({"map": ismap, "key": lambda t, x=x: t[0] == "eq" and ("c", x["name"]) in t and any(y[0] == "f" and y[2] == "first" and y[1][0] == "elem" for y in t[1:])}, {},
                      unit=lambda ctx, rng, node: True)
            d.member = x["member"]
            rows = ck.table(tu, f, d, partial=True)
            units = [r for r in rows if r.loop]
            mine = [r for r in units if r.has("key")]
            k = "%s/%s" % (key, x["name"])
            if not self.ob(k + "/asked", mine, self.at(f), "the entry %s is looked for" % x["name"]):
                continue
            want = [("set", x["member"], t(x), x["mods"], "value")]
            if x.get("may"):
                want.append(("set", x["member"], t(x), ("Nullable",) + x["mods"], "value"))
            for r in mine:
                got = [e.parts for e in r.events if isinstance(e, Event) and e.parts[:2] == ("set", x["member"])]
                self.ob(k, len(got) == 1 and got[0] in want, self.at(f), "the entry %s becomes the member %s as %s: %s" % (x["name"], x["member"], want[0][2:], got or "never"))
                self.ob(k + "/goes-on", r.end in ("iter", "continue"), self.at(f), "the entries after %s are read as well: %s" % (x["name"], r))
            for r in units:
                if not r.has("key"):
                    self.ob(k + "/only", not any(isinstance(e, Event) and e.parts[:2] == ("set", x["member"]) for e in r.events), self.at(f), "only the entry %s becomes the member %s: %s" % (x["name"], x["member"], r))
            if "struct" in x:
                self.response(k, t(x), x["sel"], None)
        if fs:
            whole = ck.table(tu, f, Reads({"map": ismap}, {}, loops={"members": lambda rng: True}), partial=True)
            for r in whole:
                if r.has("map") and r.end == "ret":
                    self.ob(key + "/all", any("members" in str(e) for e in r.events), self.at(f), "every entry of an object is read: %s" % (r,))
                self.ob(key + "/returns", r.loop or r.end == "ret" and bare(str(f["ret"])) == q, self.at(f), "parsing is total: %s" % (r,))

    def request(self):
        fs = {n: [f for f in self.fns if f["q"] == self.ns + n and f.get("body")] for n in ("GetRequestText", "GetRequestObject")}
        for n, f in fs.items():
            if not self.ob("request/" + n, len(f) == 1, GSRC, n + " is defined"):
                return
            self.ck.functions[f[0]["q"]] = self.at(f[0])
        f = fs["GetRequestText"][0]
        text = [x["v"] for x in sub(f["body"]) if x.get("k") == "str"]
        try:
            same = len(text) == 1 and [t[:2] for t in sdl.tokens(text[0])] == [t[:2] for t in sdl.tokens(self.text)]
        except sdl.Bad:
            same = False
        self.ob("request/text", same, self.at(f), "the text of the request is the document: %s" % (text[0][:200] if text else None))
        f = fs["GetRequestObject"][0]
        calls = [x for x in sub(f["body"]) if x.get("k") == "call" and x["n"] in ("parseString", "parseFile", "parseSchemaString")]
        self.ob("request/parsed", [x["n"] for x in calls] == ["parseString"] and any(y.get("n") == "GetRequestText" for y in sub(calls[0])), self.at(f), "the request object is the parsed text of the request")
        marks = [x["b"].get("v") for x in sub(f["body"]) if x.get("k") == "assign" and x["a"].get("n") == "validated"]
        self.ob("request/validated", marks == [True], self.at(f), "the request is known to be valid: %s" % (marks,))


class Kind(Decision):
    """an enum value and its name"""
    def on_call(self, ctx, st, c):
        if c.name == "set" and c.obj is not None and str(c.cls or "").endswith("response::Value"):
            kind = [x[2][0] for x in unwrap(c.obj) if x[0] == "new" and len(x[2]) == 1]
            named = [x for x in unwrap(c.args[0]) if x[0] == "idx" and x[1][0] == "g" and any(y[0] == "v" for y in unwrap(x[2]))]
            return ("opaque", self.add(st, "named" if named and kind == [("enum", "graphql::response::Type::EnumValue")] else "other", ctx, c.node))
        return super().on_call(ctx, st, c)


def sub(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from sub(v)
    elif isinstance(n, list):
        for v in n:
            yield from sub(v)


def position(t):
    """the distance from the start of a table to what was found in it"""
    for x in unwrap(t):
        if x[0] == "bin" and x[1] == "-":
            l, r = x[2], x[3]
        elif x[0] == "call" and x[1] == "std::distance":
            r, l = x[4][0], x[4][1]
        else:
            continue
        tables = {y[1] for z in (l, r) for y in subterms(z) if y[0] == "g"}
        if l[0] == "call" and l[1] == "std::find" and r[0] == "call" and r[1].split("::")[-1] in ("begin", "cbegin") and l[4][0][1:] and l[4][0][1].split("::")[-1] in ("begin", "cbegin") and len(tables) == 1:
            return True
    return False


def is_map(t):
    return any(x[0] == "new" and x[1] == V and ("enum", "graphql::response::Type::Map") in x[2] for x in unwrap(t))


def rejects(ck):
    """a request which is not valid, or not there, has no client"""
    tu = ck.load(RSRC)
    R = "graphql::generator::RequestLoader::"
    f = [g for g in tu.functions if g["nq"] == R + "RequestLoader" and g.get("body")][0]
    d = Decision({"none": lambda t: t[0] == "empty" and any(x[0] == "call" and x[1].endswith("getStructuredErrors") for x in subterms(t))},
                 {"visit": lambda c: c.name == "visit" and str(c.cls or "").endswith("ValidateExecutableVisitor"), "operation": lambda c: c.name in ("findOperation", "collectFragments", "collectVariables")},
                 opaque=[R + n for n in ("findOperation", "collectFragments", "collectVariables", "collectEnums", "collectInputTypes", "reorderInputTypeDependencies", "buildSchema")])
    rows = ck.table(tu, f, d, partial=True)
    ck.must("valid/visited", [r for r in rows if r.end == "ret"], [], lambda r: r.did("visit") and r.has("none"), "a request is validated against the schema, and refused if there is an error")
    ck.must("valid/first", [r for r in rows if r.did("operation")], [], lambda r: r.did("visit") and r.has("none") and r.index("visit") == 0, "a request is validated before anything is taken from it")
    f = tu.one(R + "findOperation")
    d = Decision({"there": lambda t: t[0] == "f" and t[2] == "_operation"}, {})
    rows = ck.table(tu, f, d, partial=True)
    ck.must("operation/there", [r for r in rows if r.end == "ret" and not r.loop], [], lambda r: r.has("there"), "without the operation there is no client")


def run(ck):
    rejects(ck)
    rs = runs()
    got = gen.generate_all([("clientgen", "--schema=" + s, "--request=" + r, "--prefix=Probe", "--namespace=probe") + o for _, s, r, _, o in rs])
    failed = gen.preload([(d, f) for code, text, d, files in got if code == 0 for f in files if f.endswith(".cpp")])
    for (label, s, r, name, opts), (code, text, d, files) in zip(rs, got):
        if not ck.ob("generated/" + label, code == 0 and files, GSRC, "clientgen accepts the request and writes its client: %s" % text.strip()[:200]):
            continue
        bad = [failed[(d, f)] for f in files if (d, f) in failed]
        if not ck.ob("compiles/" + label, not bad, "ProbeClient.cpp (generated by %s: %s)" % (GSRC, label), "the generated client is C++: %s" % "".join(bad)[:300]):
            continue
        with open(s) as f:
            schema = sdl.Schema(f.read())
        meta = sdl.Schema(introspection_document())
        if "--no-introspection" not in opts:
            for n, t in meta.types.items():
                schema.types.setdefault(n, t)
        with open(r) as f:
            Check(ck, label, schema, f.read(), name, gen.load(d, "ProbeClient.cpp"), opts).run()
