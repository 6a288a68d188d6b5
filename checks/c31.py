"""The type system of a generated service is the one of its schema document: every type, field, argument, default, value, member, description and deprecation, under the name it has there, and nothing else."""
from gencommon import *

KIND = {"scalar": "ScalarType", "enum": "EnumType", "input": "InputObjectType", "union": "UnionType", "interface": "InterfaceType", "type": "ObjectType"}


def items(v):
    while isinstance(v, tuple) and v[0] == "list" and len(v[1]) == 1 and isinstance(v[1][0], tuple) and v[1][0][0] == "list" and v[1][0][1] and isinstance(v[1][0][1][0], (Obj, tuple)) and False:
        v = v[1][0]
    return list(v[1]) if isinstance(v, tuple) and v[0] == "list" else None if v is not None else []


class Compare:
    def __init__(self, ck, o, tu, f):
        self.ck, self.o, self.where = ck, o, o.at(tu, f)
        self.described = o.introspection

    def ob(self, key, ok, text):
        return self.ck.ob("%s/%s" % (self.o.label, key), ok, self.where, text)

    def description(self, key, got, want):
        self.ob(key + "/description", got == (want if self.described else "") or self.described is False and want == got, "the description is %r, not %r" % (str(want), got))

    def type(self, key, got, want):
        self.ob(key + "/type", typed(got) == want, "the type is %s, not %s" % (shown(want), shown(typed(got))))

    def reason(self, key, got, dirs):
        want = sdl.deprecated(dirs)
        self.ob(key + "/deprecated", got == want if want is not None else got is None, "deprecation: %r, not %r" % (want, got))

    def names(self, key, got, want, what):
        return self.ob(key, got == want, "%s are %s, not %s" % (what, want, got))

    def inputs(self, key, got, want, what):
        got = items(got) if got is not None else []
        if not self.ob(key, got is not None and all(isinstance(x, Obj) and x.cls == "InputValue" and len(x.args) == 4 for x in got), "%s are input values" % what):
            return
        self.names(key + "/names", [x.args[0] for x in got], [x["name"] for x in want], what)
        for x in want:
            for g in got:
                if g.args[0] == x["name"]:
                    k = "%s/%s" % (key, x["name"])
                    self.description(k, g.args[1], x["desc"])
                    self.type(k, g.args[2], x["type"])
                    d = g.args[3]
                    if not x["has"]:
                        self.ob(k + "/default", d in ("", None), "there is no default, not %r" % (d,))
                    else:
                        try:
                            same = literal(sdl.Parser(d).value()) == literal(x["default"])
                        except (sdl.Bad, TypeError):
                            same = False
                        self.ob(k + "/default", same, "the default is %s, not %s" % (x["text"], d))

    def fields(self, key, adds, want):
        got = self.added(key, adds, "AddFields", want)
        if got is None:
            return
        if not self.ob(key + "/fields", all(isinstance(x, Obj) and x.cls == "Field" and len(x.args) in (4, 5) for x in got), "what is added are fields"):
            return
        self.names(key + "/fields/names", [x.args[0] for x in got], [x["name"] for x in want], "the fields")
        for x in want:
            for g in got:
                if g.args[0] == x["name"]:
                    k = "%s/%s" % (key, x["name"])
                    self.description(k, g.args[1], x["desc"])
                    self.reason(k, g.args[2], x["dirs"])
                    self.type(k, g.args[3], x["type"])
                    self.inputs(k + "/arguments", g.args[4] if len(g.args) > 4 else ("list", []), x["args"], "the arguments")

    def added(self, key, adds, name, want):
        """the one list which is added by a call, None if it cannot be read"""
        cs = [a for n, a in adds if n == name]
        if not want and not cs:
            return []
        ok = self.ob("%s/%s" % (key, name), len(cs) == 1 and len(cs[0]) == 1 and items(cs[0][0]) is not None, "%s() is called once" % name)
        return items(cs[0][0]) if ok else None

    def one(self, n, t, obj):
        key = n
        self.ob(key + "/kind", obj.cls == KIND[t["kind"]], "%s is a %s, not %s" % (n, t["kind"], obj.cls))
        self.ob(key + "/name", bool(obj.args) and obj.args[0] == n, "the type is called %s, not %s" % (n, obj.args[:1]))
        self.description(key, obj.args[1] if len(obj.args) > 1 else None, t["desc"])
        if t["kind"] in ("type", "interface"):
            self.fields(key, obj.adds, t["fields"])
        if t["kind"] == "type":
            got = self.added(key, obj.adds, "AddInterfaces", t["interfaces"])
            if got is not None:
                self.names(key + "/interfaces", [typed(x)[1] for x in got], t["interfaces"], "the interfaces")
        if t["kind"] == "union":
            got = self.added(key, obj.adds, "AddPossibleTypes", t["members"])
            if got is not None:
                self.names(key + "/members", [typed(x)[1] for x in got], t["members"], "the members")
        if t["kind"] == "input":
            got = self.added(key, obj.adds, "AddInputValues", t["inputs"])
            if got is not None:
                self.inputs(key, ("list", got), t["inputs"], "the input fields")
        if t["kind"] == "enum":
            got = self.added(key, obj.adds, "AddEnumValues", t["values"])
            if got is not None:
                ok = self.ob(key + "/values", all(isinstance(x, tuple) and x[0] == "list" and len(x[1]) == 3 for x in got), "values have a name, a description and a deprecation")
                if ok:
                    name = lambda v: v[3] if isinstance(v, tuple) and v[0] == "named" else v
                    self.names(key + "/values/names", [name(x[1][0]) for x in got], [x["name"] for x in t["values"]], "the values")
                    for x in t["values"]:
                        for g in got:
                            if name(g[1][0]) == x["name"]:
                                self.description("%s/%s" % (key, x["name"]), g[1][1], x["desc"])
                                self.reason("%s/%s" % (key, x["name"]), g[1][2], x["dirs"])


def literal(v):
    if isinstance(v, sdl.Enum):
        return ("enum", str(v))
    if isinstance(v, list):
        return tuple(literal(x) for x in v)
    if isinstance(v, dict):
        return ("map",) + tuple((k, literal(x)) for k, x in v.items())
    if isinstance(v, str):
        return ("str", str.__str__(v))
    return (type(v).__name__, v)


def shown(t):
    if not isinstance(t, tuple):
        return str(t)
    return {"name": lambda: str(t[1]), "list": lambda: "[%s]" % shown(t[1]), "nonnull": lambda: shown(t[1]) + "!"}.get(t[0], lambda: str(t))()


def tables(ck, o):
    """AddTypesToSchema"""
    r = Reader(o.tus)
    q = G + o.ns + "::AddTypesToSchema"
    tu, f = r.function(q)
    if not ck.ob(o.label + "/AddTypesToSchema", f is not None, "src/SchemaGenerator.cpp", "the generated code defines AddTypesToSchema"):
        return
    ck.saw(f)
    r.tu = tu
    schema = ("schema",)
    try:
        r.run(f["body"], {f["p"][0]["d"]: schema})
    except Unread as e:
        ck.ob(o.label + "/read", False, o.at(tu, e.node), "the generated code is straight-line: %s" % e)
        return
    c = Compare(ck, o, tu, f)
    s = o.schema
    got = {}
    for t, n, name, cls, obj, a in r.trace:
        if obj != schema:
            continue
        if name == "AddType":
            ok = c.ob("AddType", len(a) == 2 and isinstance(a[0], str) and isinstance(a[1], Obj) and a[0] not in got, "types are added once, under a name: %s" % (a[:1],))
            if ok:
                got[a[0]] = a[1]
    want = dict(s.types)
    extra = [n for n in got if n not in want and not (o.builtin and n in sdl.BUILTIN)]
    c.ob("types/only", not extra, "only types of the document are added, not %s" % extra)
    for n, t in want.items():
        if c.ob(n + "/added", n in got, "the type %s of the document is added" % n):
            c.one(n, t, got[n])
    if o.builtin:
        for n in sdl.BUILTIN:
            if c.ob(n + "/added", n in got, "the built-in type %s is added" % n):
                c.ob(n + "/kind", got[n].cls == "ScalarType" and got[n].args[0] == n, "%s is a scalar" % n)
    # wrappers and lookups only make sense for types which exist
    dirs = [a[0] for t, n, name, cls, obj, a in r.trace if obj == schema and name == "AddDirective"]
    if c.ob("directives/read", all(isinstance(d, Obj) and d.cls == "Directive" and len(d.args) in (3, 4) for d in dirs), "what is added are directives"):
        c.names("directives", sorted(d.args[0] for d in dirs), sorted(s.directives), "the directives")
        for d in dirs:
            w = s.directives.get(d.args[0])
            if w is None:
                continue
            k = "@" + d.args[0]
            c.description(k, d.args[1], w["desc"])
            locs = [x[1].split("::")[-1] if isinstance(x, tuple) and x[0] == "enum" else x for x in items(d.args[2]) or []]
            c.names(k + "/locations", locs, w["on"], "the locations")
            c.inputs(k + "/arguments", d.args[3] if len(d.args) > 3 else ("list", []), w["args"], "the arguments")
    for op, name in (("query", "AddQueryType"), ("mutation", "AddMutationType"), ("subscription", "AddSubscriptionType")):
        roots = [a[0].args[0] if a and isinstance(a[0], Obj) else a for t, n, nm, cls, obj, a in r.trace if obj == schema and nm == name]
        c.names("root/" + op, roots, [s.roots[op]] if op in s.roots else [], "the %s types" % op)


def whole(ck, o):
    """GetSchema puts the introspection types and those of the service into one schema"""
    if o.builtin:
        return
    r = Reader(o.tus)
    tu, f = r.function(G + o.ns + "::GetSchema")
    if not ck.ob(o.label + "/GetSchema", f is not None, "src/SchemaGenerator.cpp", "the generated code defines GetSchema"):
        return
    ck.saw(f)
    made, calls = [], []

    def fn(n):
        if n.get("k") == "call":
            q = strip_targs(n["f"])
            if q == "std::make_shared" and any("schema::Schema" in t for t in n.get("ta", [])):
                made.append(n)
            if q.endswith("::AddTypesToSchema"):
                calls.append((n.get("l", 0), q))
    facts._walk(f["body"], fn)
    w = o.at(tu, f)
    ck.ob(o.label + "/GetSchema/one", len(made) == 1, w, "one schema is made")
    for m in made:
        v = Reader(o.tus).values(m["a"], {})
        ck.ob(o.label + "/GetSchema/introspection", v == [not o.introspection] or o.introspection and v == [], w, "the schema knows whether it supports introspection: %s" % v)
    ck.ob(o.label + "/GetSchema/types", [q for l, q in sorted(calls)] == [G + "introspection::AddTypesToSchema", G + o.ns + "::AddTypesToSchema"], w, "the introspection types are added before those of the service")


def run(ck):
    outs = outputs(ck)
    for o in outs:
        tables(ck, o)
        whole(ck, o)
    ck.need(len(ck.obligations) > 1000 or any(not x[1] for x in ck.obligations), "generated types")
