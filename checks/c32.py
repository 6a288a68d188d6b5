"""What a generated service does with a field, an argument, an input object, an enum value or a type condition is what its schema document says: each field has its resolver, each resolver calls the getter of its field with the field's arguments as their types, in order and with their defaults, and converts the result as the field's type."""
from gencommon import *
from xcommon import *

SV = G + "service::"
SCALARS = {"Int": "int", "Float": "double", "String": "std::string", "Boolean": "bool", "ID": "std::vector<unsigned char>"}
MODIFIER = SV + "TypeModifier::"


class Names:
    """the C++ types of a schema's types"""
    def __init__(self, o):
        self.o, self.ns, self.s = o, G + o.ns + "::", o.schema

    def kind(self, n):
        return "builtin" if n in SCALARS else self.s.types[n]["kind"]

    def base(self, n):
        k = self.kind(n)
        if k == "builtin":
            return SCALARS[n]
        return {"scalar": G + "response::Value", "enum": self.ns + safe(n), "input": self.ns + safe(n), "type": self.ns + "object::" + safe(n)}.get(k, SV + "Object")

    def type(self, t, nullable=True):
        if t[0] == "nonnull":
            return self.type(t[1], False)
        if t[0] == "list":
            r = "std::vector<%s>" % self.type(t[1])
        else:
            k = self.kind(t[1])
            r = self.base(t[1])
            if k in ("type", "interface", "union"):
                return "std::shared_ptr<%s>" % r
        return "std::optional<%s>" % r if nullable else r

    def modifiers(self, t, nullable=True):
        if t[0] == "nonnull":
            return self.modifiers(t[1], False)
        own = [MODIFIER + "Nullable"] if nullable else []
        if t[0] == "list":
            return own + [MODIFIER + "List"] + self.modifiers(t[1])
        return own


def plain(v):
    """a term without what the optional conversion of it to its own type leaves"""
    if isinstance(v, tuple) and v and v[0] == "new" and len(v[2]) == 1 and bare(str(v[1])) in ("std::string", "std::shared_ptr<graphql::service::Object>"):
        return plain(v[2][0])
    return v


class Service:
    def __init__(self, ck, o):
        self.ck, self.o, self.n = ck, o, Names(o)
        self.r = Reader(o.tus)
        self.records = {}
        for tu in o.tus:
            for r in (tu.records.values() if isinstance(tu.records, dict) else tu.records):
                if r["q"] not in self.records or len(r["methods"]) > len(self.records[r["q"]][1]["methods"]):
                    self.records[r["q"]] = (tu, r)
        self.functions = {}
        for tu in o.tus:
            for f in tu.functions:
                if f.get("body"):
                    self.functions.setdefault(f["q"], []).append((tu, f))

    def ob(self, key, ok, where, text):
        return self.ck.ob("%s/%s" % (self.o.label, key), ok, where, text)

    def function(self, key, q, what):
        fs = self.functions.get(q, [])
        if not self.ob(key, len(fs) >= 1, "src/SchemaGenerator.cpp", "%s is generated once: %s" % (what, q)):
            return None, None
        self.ck.saw(fs[0][1])
        return fs[0]

    def read(self, key, tu, f, env=None):
        env = dict(env or {})
        for p in f["p"]:
            env.setdefault(p["d"], ("var", p["n"] or "params", p["d"]))
        self.r.tu = tu
        try:
            v = self.r.run(f["body"], env)
        except Unread as e:
            self.ob(key + "/read", False, self.o.at(tu, e.node), "the generated code is straight-line: %s" % e)
            return None
        return v

    def inits(self, key, tu, f):
        out = {}
        for i in f.get("inits") or []:
            try:
                out[i.get("m") or i.get("base")] = self.r.val(i["e"], {p["d"]: ("var", p["n"], p["d"]) for p in f["p"]})
            except Unread as e:
                self.ob(key + "/read", False, self.o.at(tu, e.node), "the generated code is straight-line: %s" % e)
        return out

    # --- arguments and input fields

    def argument(self, key, term, x, source, where):
        """a term which takes the value called x["name"] out of source as x["type"]"""
        t = x["type"]
        want = (self.n.base(named(t)), tuple(self.n.modifiers(t)))

        def call(v, name, src):
            return (isinstance(v, tuple) and v[0] == "call" and v[1] == SV + "ModifiedArgument::" + name and v[4] is None and len(v[5]) == 2
                    and src(v[5][1]) and v[5][0] == x["name"])

        def as_type(v):
            got = (bare(v[2])[len(SV + "ModifiedArgument<"):-1].strip(), tuple(v[3]))
            return self.ob(key + "/as", got == want, where, "%s is taken as %s, not %s" % (x["name"], spelled(want), spelled(got)))
        term = plain(term)
        d = x["default"] if x["has"] else None
        if d is None:
            if self.ob(key + "/required", call(term, "require", lambda s: s == source), where, "%s is what the request gives for %s, %s: %s" % (key, x["name"], "without a default", short(term))):
                as_type(term)
            return
        # what the request gives where it names it, the default otherwise: a null or an unfit value is no reason to take the default
        choice, calls = term, [term]
        if call(term, "require", lambda s: True):
            choice = plain(term[5][1])
        ok = isinstance(choice, tuple) and choice[0] == "cond"
        if ok:
            c, a, b = (plain(y) for y in choice[1:])
            if choice is term:
                calls = [a, b]
                ok = call(a, "require", lambda s: True) and call(b, "require", lambda s: True)
                a, b = (plain(y[5][1]) for y in calls) if ok else (a, b)
            there = self.present(c, x["name"], source)
            if there is False:
                a, b = b, a
            ok = ok and there is not None and a == source
        if not self.ob(key + "/given", ok, where, "%s is what the request gives for %s where it gives one, its default otherwise: %s" % (key, x["name"], short(term))):
            return
        for v in calls:
            as_type(v)
        if self.ob(key + "/default", isinstance(b, RV) and b.kind == "Map", where, "%s has its default otherwise: %s" % (key, short(b))):
            got = [v for k, v in b.v if k == x["name"]]
            self.ob(key + "/default/value", len(got) == 1 and got[0].same(d, named(t)), where, "the default of %s is %s, not %s" % (x["name"], x["text"], got))

    def present(self, c, name, source):
        """True/False: the condition holds where source has (not) a member of the name"""
        on = lambda v, names: isinstance(v, tuple) and v[0] == "call" and v[1].rsplit("::", 1)[-1] in names and plain(v[4])
        c, yes = plain(c), True
        while isinstance(c, tuple) and c[:2] in (("un", "!"), ("op", "!")):
            c, yes = plain(c[2] if c[0] == "un" else c[2][0]), not yes
        if not (isinstance(c, tuple) and c[0] in ("op", "bin") and c[1] in ("==", "!=")):
            return None
        a, b = (plain(v) for v in (c[2] if c[0] == "op" else c[2:4]))
        if on(a, ("end", "cend")):
            a, b = b, a
        if not (on(a, ("find",)) == source and a[5] == [name] and on(b, ("end", "cend"))):
            return None
        at = on(b, ("end", "cend"))
        if on(at, ("get",)):
            at = on(at, ("get",))
        return yes == (c[1] == "!=") if at == source else None

    # --- objects

    def getter(self, t, field):
        return ("apply" if t["name"] == self.o.schema.roots.get("mutation") else "get") + cap(field["name"])

    def signature(self, field):
        return (SV + "FieldResult<%s>" % self.n.type(field["type"]), [SV + "FieldParams"] + [self.n.type(x["type"]) for x in field["args"]])

    def declared(self, key, cls, t, pure, fields):
        tu, r = self.records[cls]
        w = self.o.at(tu, r)
        for field in fields:
            g = self.getter(t, field)
            ms = [m for m in r["methods"] if m["n"] == g]
            k = "%s/%s" % (key, field["name"])
            if not ms and pure and cls != self.n.ns + safe(t["name"]):
                # the interface leaves it to the service already
                ms = [m for i in t["interfaces"] if any(x["name"] == field["name"] for x in self.o.schema.types[i]["fields"]) for m in self.records[self.n.ns + safe(i)][1]["methods"] if m["n"] == g][:1]
            if not self.ob(k + "/declared", len(ms) == 1, w, "%s declares %s() for the field %s" % (cls, g, field["name"])):
                continue
            m = ms[0]
            ret, params = signature(m["t"])
            wr, wp = self.signature(field)
            self.ob(k + "/type", bare(ret) == wr, w, "%s() gives %s, not %s" % (g, wr, bare(ret)))
            self.ob(k + "/parameters", [bare(p) for p in params] == wp, w, "%s() takes %s, not %s" % (g, wp, [bare(p) for p in params]))
            self.ob(k + "/virtual", bool(m.get("virt")) and m.get("acc") == "public", w, "%s() can be implemented by the service" % g)
            self.ob(k + "/pure", bool(m.get("pure")) == pure, w, "%s() is %s" % (g, "left to the service" if pure else "a stub"))

    def interface(self, t):
        key, cls = t["name"], self.n.ns + safe(t["name"])
        if self.ob(key + "/struct", cls in self.records, "src/SchemaGenerator.cpp", "there is a struct for the interface %s" % t["name"]):
            self.declared(key, cls, t, True, t["fields"])

    def object(self, t):
        name, key = t["name"], t["name"]
        cls = self.n.base(name)
        if not self.ob(key + "/class", cls in self.records, "src/SchemaGenerator.cpp", "there is a class for the type %s" % name):
            return
        tu, rec = self.records[cls]
        stubs = "--no-stubs" not in self.o.opts and not self.o.builtin
        self.declared(key, cls, t, not stubs, t["fields"])
        self.ob(key + "/bases", rec["bases"] == [SV + "Object"] + [self.n.ns + safe(i) for i in t["interfaces"]] or sorted(rec["bases"]) == sorted([SV + "Object"] + [self.n.ns + safe(i) for i in t["interfaces"]]),
                self.o.at(tu, rec), "%s is an object and its interfaces %s, not %s" % (name, t["interfaces"], rec["bases"]))
        tu, f = self.function(key + "/constructor", cls + "::" + cls.split("::")[-1], "the constructor of %s" % name)
        if f is None:
            return
        w = self.o.at(tu, f)
        base = self.inits(key, tu, f).get(SV + "Object")
        ok = isinstance(base, tuple) and base[0] == "new" and len(base[2]) == 2 and all(isinstance(x, tuple) and x[0] == "list" for x in base[2])
        if not self.ob(key + "/object", ok, w, "the constructor names its types and its resolvers"):
            return
        s = self.o.schema
        want = {name} | set(t["interfaces"]) | {u["name"] for u in s.types.values() if u["kind"] == "union" and name in u["members"]}
        types = [plain(x) for x in base[2][0][1]]
        self.ob(key + "/types", sorted(map(str, types)) == sorted(want), w, "type conditions which apply to %s are on %s, not %s" % (name, sorted(want), types))
        root = name == s.roots.get("query") and self.o.introspection and not self.o.builtin
        fields = {x["name"]: "resolve" + cap(x["name"]) for x in t["fields"]}
        special = {"__typename": "resolve_typename"}
        if root:
            special.update(__schema="resolve_schema", __type="resolve_type")
        got = {}
        for x in base[2][1][1]:
            ok = isinstance(x, tuple) and x[0] == "new" and len(x[2]) == 2 and isinstance(x[2][0], str) and isinstance(x[2][1], tuple) and x[2][1][0] == "lambda" and x[2][0] not in got
            if self.ob(key + "/resolvers/read", ok, w, "a resolver has a name and a function"):
                got[x[2][0]] = x[2][1]
        self.ob(key + "/resolvers", sorted(got) == sorted(list(fields) + list(special)), w, "the fields of %s are %s, not %s" % (name, sorted(list(fields) + list(special)), sorted(got)))
        for n, lam in got.items():
            k = "%s/%s" % (key, n)
            env = dict(lam[2])
            for p in lam[1]["p"]:
                env[p["d"]] = ("var", "params", p["d"])
            try:
                v = self.r.run(lam[1]["body"], env)
            except Unread as e:
                v = None
            wanted = fields.get(n) or special.get(n)
            ok = isinstance(v, tuple) and v[0] == "call" and v[1] == cls + "::" + str(wanted) and v[4] == ("this",) and len(v[5]) == 1 and v[5][0][:2] == ("var", "params")
            self.ob(k + "/resolver", ok, w, "the field %s is resolved by %s(), not %s" % (n, wanted, short(v)))
        for field in t["fields"]:
            self.resolver(t, cls, field)
        self.typename(t, cls)
        if root:
            self.introspect(cls, key)

    def resolver(self, t, cls, field):
        key = "%s/%s" % (t["name"], field["name"])
        tu, f = self.function(key + "/resolve", cls + "::resolve" + cap(field["name"]), "the resolver of %s" % key)
        if f is None:
            return
        w = self.o.at(tu, f)
        params = ("var", f["p"][0]["n"] or "params", f["p"][0]["d"])
        v = self.read(key, tu, f)
        base, mods = self.n.base(named(field["type"])), tuple(self.n.modifiers(field["type"]))
        ok = isinstance(v, tuple) and v[0] == "call" and v[1] == SV + "ModifiedResult::convert" and len(v[5]) == 2 and v[5][1] == params
        if not self.ob(key + "/result", ok, w, "what the getter gives is converted with the parameters of the field: %s" % short(v)):
            return
        got = (bare(v[2])[len(SV + "ModifiedResult<"):-1].strip(), tuple(m for m in v[3] if m not in ("None", MODIFIER + "None")))
        self.ob(key + "/converted", got == (base, mods), w, "the result is converted as %s, not %s" % (spelled((base, mods)), spelled(got)))
        g = plain(v[5][0])
        name = self.getter(t, field)
        if not self.ob(key + "/getter", isinstance(g, tuple) and g[0] == "call" and g[1] in [c + "::" + name for c in [cls] + [self.n.ns + safe(i) for i in t["interfaces"]]] and g[4] == ("this",), w, "the value of %s comes from %s() of the object: %s" % (key, name, short(g))):
            return
        args = g[5]
        fp = args[0] if args else None
        self.ob(key + "/params", isinstance(fp, tuple) and fp[0] == "new" and fp[1] == SV + "FieldParams" and list(fp[2]) == [params, ("mem", params, "fieldDirectives")], w,
                "the getter is given the parameters and the directives of the field: %s" % short(fp))
        if self.ob(key + "/arguments", len(args) == 1 + len(field["args"]), w, "the getter takes %d arguments, not %d" % (len(field["args"]), len(args) - 1)):
            for x, a in zip(field["args"], args[1:]):
                self.argument("%s(%s)" % (key, x["name"]), a, x, ("mem", params, "arguments"), w)

    def typename(self, t, cls):
        key = t["name"] + "/__typename"
        tu, f = self.function(key + "/resolve", cls + "::resolve_typename", "the resolver of " + key)
        if f is None:
            return
        v = self.read(key, tu, f)
        ok = isinstance(v, tuple) and v[0] == "call" and v[1] == SV + "ModifiedResult::convert" and bare(v[2]) == SV + "ModifiedResult<std::string>" and not v[3] and plain(v[5][0]) == t["name"]
        self.ob(key, ok, self.o.at(tu, f), "%s is called %s: %s" % (cls, t["name"], short(v)))

    def introspect(self, cls, key):
        tu, f = self.function(key + "/__schema/resolve", cls + "::resolve_schema", "the resolver of __schema")
        own = ("mem", ("this",), "_schema")
        if f is not None:
            v = self.read(key + "/__schema", tu, f)
            ok = isinstance(v, tuple) and v[0] == "call" and v[1] == SV + "ModifiedResult::convert" and not v[3] and plain(v[5][0])[:2] == ("call", "std::make_shared") and list(v[5][0][5]) == [own]
            self.ob(key + "/__schema", ok, self.o.at(tu, f), "__schema is the schema of the service: %s" % short(v))
        tu, f = self.function(key + "/__type/resolve", cls + "::resolve_type", "the resolver of __type")
        if f is not None:
            params = ("var", f["p"][0]["n"], f["p"][0]["d"])
            v = self.read(key + "/__type", tu, f)
            ok = isinstance(v, tuple) and v[0] == "call" and v[1] == SV + "ModifiedResult::convert" and tuple(v[3]) == (MODIFIER + "Nullable",)
            looked = []

            def look(x):
                if isinstance(x, tuple):
                    if x[:2] == ("call", G + "schema::Schema::LookupType"):
                        looked.append(x)
                    for y in x:
                        look(y)
                elif isinstance(x, list):
                    for y in x:
                        look(y)
            look(v)
            ask = lambda a: isinstance(a, tuple) and (a[1] == SV + "ModifiedArgument::require" and a[5][0] == "name" and a[5][1] == ("mem", params, "arguments") or len(a) > 4 and a[4] is not None and ask(a[4]))
            self.ob(key + "/__type", ok and looked and all(x[4] == own and len(x[5]) == 1 and ask(x[5][0]) for x in looked), self.o.at(tu, f), "__type is the type of the schema which the argument names: %s" % short(v))

    # --- input objects and enums

    def input(self, t):
        key = t["name"]
        cls = self.n.base(key)
        if not self.ob(key + "/struct", cls in self.records, "src/SchemaGenerator.cpp", "there is a struct for the input type %s" % key):
            return
        tu, rec = self.records[cls]
        w = self.o.at(tu, rec)
        names = [x["n"] for x in rec["fields"]]
        want = [safe(x["name"]) for x in t["inputs"]]
        self.ob(key + "/fields", sorted(names) == sorted(want), w, "the fields of %s are %s, not %s" % (cls, want, names))
        for x in t["inputs"]:
            for m in rec["fields"]:
                if m["n"] == safe(x["name"]):
                    self.ob("%s/%s/type" % (key, x["name"]), bare(m["t"]) == self.n.type(x["type"]), w, "%s::%s is %s, not %s" % (cls, m["n"], self.n.type(x["type"]), bare(m["t"])))
        fs = [(tu, f) for q, l in self.functions.items() for tu, f in l if q == SV + "ModifiedArgument<%s>::convert" % cls]
        if not self.ob(key + "/convert", len(fs) == 1, w, "there is a conversion to %s" % cls):
            return
        tu, f = fs[0]
        self.ck.saw(f)
        w = self.o.at(tu, f)
        v = self.read(key, tu, f)
        while isinstance(v, tuple) and v[0] in ("list", "new") and len(v[-1]) == 1 and len(names) != 1 and isinstance(v[-1][0], tuple):
            v = v[-1][0]
        parts = list(v[-1]) if isinstance(v, tuple) and v[0] in ("list", "new") else None
        if len(names) == 1 and isinstance(v, tuple) and v[0] in ("call", "cond"):
            parts = [v]
        if not self.ob(key + "/converted", parts is not None and len(parts) == len(names), w, "each field of %s has its value: %s" % (cls, short(v))):
            return
        source = ("var", f["p"][0]["n"], f["p"][0]["d"])
        for x in t["inputs"]:
            if safe(x["name"]) in names:
                self.argument("%s/%s" % (key, x["name"]), parts[names.index(safe(x["name"]))], x, source, w)

    def enum(self, t):
        key = t["name"]
        q = self.n.base(key)
        enums = [(tu, e) for tu in self.o.tus for e in (tu.enums.values() if isinstance(tu.enums, dict) else tu.enums) if e["q"] == q]
        if self.ob(key + "/enum", len(enums) >= 1, "src/SchemaGenerator.cpp", "there is an enum for %s" % key):
            tu, e = enums[0]
            self.ob(key + "/enumerators", [c[0] for c in e["c"]] == [safe(x["name"]) for x in t["values"]] and [c[1] for c in e["c"]] == list(range(len(t["values"]))), self.o.at(tu, e),
                    "the enumerators of %s are %s: %s" % (q, [x["name"] for x in t["values"]], e["c"]))
        self.to_enum(t, key, q)
        self.from_enum(t, key, q)

    def table(self, key, g, t, where, what):
        """g names the values of the enum in their order"""
        ok = g is not None and g[0] == "g" and g[1] in self.r.tables
        names = None
        if ok:
            try:
                names = self.r.names(g[1])
            except (Unread, TypeError):
                pass
        self.ob(key, names == [x["name"] for x in t["values"]], where, "%s uses the names of %s: %s" % (what, t["name"], names if names is not None else g))

    def to_enum(self, t, key, q):
        fs = self.functions.get(SV + "ModifiedArgument<%s>::convert" % q, [])
        if not self.ob(key + "/argument", len(fs) == 1, "src/SchemaGenerator.cpp", "there is a conversion of values to %s" % q):
            return
        tu, f = fs[0]
        self.ck.saw(f)
        w = self.o.at(tu, f)
        value = ("v", f["p"][0]["n"], f["p"][0]["d"])
        tables = set()

        def find(x):
            """the table and the text which are searched"""
            if x[0] == "call" and x[1] == "std::find" and len(x[4]) == 3:
                b, e, what = x[4]
                rng = lambda y, n: y[3] if y[0] == "call" and strip_targs(y[1]).split("::")[-1] in n else None
                if rng(b, ("cbegin", "begin")) is not None and rng(b, ("cbegin", "begin")) == rng(e, ("cend", "end")) and what[0] == "call" and what[1].endswith("Value::get") and what[3] == value:
                    tables.add(rng(b, ("cbegin", "begin")))
                    return rng(b, ("cbegin", "begin"))
            return None

        def known(x):
            ok = x[0] == "found" and len(x) > 2 and x[2][0] == "call" and x[2][1].endswith("Value::get") and x[2][3] == value
            if ok:
                tables.add(x[1])
            return ok
        atoms = {"is an enum": lambda x: x[0] == "call" and x[1] == G + "response::Value::maybe_enum" and x[3] == value, "known": known}
        d = Decision(atoms, {}, value=True)
        rows = d.run(tu, f)

        def index(x):
            if x[0] == "bin" and x[1] == "-":
                return find(x[2]) is not None and x[3][0] == "call" and strip_targs(x[3][1]).split("::")[-1] in ("cbegin", "begin") and x[3][3] == find(x[2])
            if x[0] == "call" and x[1] == "std::distance":
                return find(x[4][1]) is not None and x[4][0][3] == find(x[4][1])
            return False
        good = [r for r in rows if r.end == "ret"]
        self.ob(key + "/argument/index", bool(good) and all(r.value is not None and index(r.value) for r in good), w, "a value becomes the enumerator of its name: %s" % [short(r.value) for r in good])
        self.ob(key + "/argument/refused", all(r.end == "throw" for r in rows if not r.has("is an enum") or not r.has("known")) and {(r.has("is an enum", False), r.has("known", False)) for r in rows if r.end == "throw"} >= {(True, False), (False, True)}, w, "what is no enum value, or none of %s, is refused" % key)
        self.ob(key + "/argument/one", len(tables) == 1, w, "one table is searched")
        for g in tables:
            self.table(key + "/argument/table", g, t, w, "the conversion to %s" % q)

    def from_enum(self, t, key, q):
        fs = self.functions.get(SV + "ModifiedResult<%s>::convert" % q, [])
        if not self.ob(key + "/result", len(fs) == 1, "src/SchemaGenerator.cpp", "there is a conversion of %s to values" % q):
            return
        tu, f = fs[0]
        self.ck.saw(f)
        w = self.o.at(tu, f)
        lams = []
        facts._walk(f["body"], lambda n: lams.append(n) if n.get("k") == "lambda" else None)
        if not self.ob(key + "/result/converter", len(lams) == 1 and len(lams[0]["p"]) >= 1, w, "a function converts each enumerator"):
            return
        lam = lams[0]
        par = lam["p"][0]
        g = dict(lam, nq="lambda", q="lambda", n="lambda", file=f["file"], cls=None, id=lam["fid"])
        tables = []

        d = Decision({}, {"set": lambda c: c.nq == G + "response::Value::set"}, value=True)
        rows = d.run(tu, g)
        kinds = []
        facts._walk(lam["body"], lambda n: kinds.append(n["q"]) if n.get("dk") == "enum" else None)
        self.ob(key + "/result/kind", kinds == [G + "response::Type::EnumValue"] and all(r.end == "ret" and r.count("set") == 1 for r in rows), w, "an enumerator becomes one enum value: %s" % kinds)
        refs = set()
        facts._walk(lam["body"], lambda n: refs.add(n["q"]) if n.get("dk") == "global" and n.get("q") in self.r.tables else None)
        idx = []

        def at(n):
            if n.get("k") == "op" and n.get("op") == "[]" or n.get("k") == "mcall" and n.get("n") == "at":
                a = n["a"] if n["k"] == "op" else [n["o"]] + n["a"]
                i = a[1]
                while i.get("k") in ("cast", "paren"):
                    i = i["e"]
                idx.append(i.get("d"))
        facts._walk(lam["body"], at)
        self.ob(key + "/result/index", idx == [par["d"]], w, "the name of an enumerator is the entry at its value")
        self.ob(key + "/result/one", len(refs) == 1, w, "the names come from one table")
        for x in refs:
            self.table(key + "/result/table", ("g", x), t, w, "the conversion of %s" % q)

    # --- the whole

    def operations(self):
        s, o = self.o.schema, self.o
        if o.builtin:
            return
        cls = self.n.ns + "Operations"
        if not self.ob("Operations/class", cls in self.records, "src/SchemaGenerator.cpp", "there is a class for the operations"):
            return
        tu, f = self.function("Operations/constructor", cls + "::Operations", "the constructor of the operations")
        if f is None:
            return
        w = o.at(tu, f)
        want = {op: "std::shared_ptr<%s>" % self.n.base(n) for op, n in s.roots.items()}
        self.ob("Operations/parameters", {p["n"]: bare(p["t"]) for p in f["p"]} == want and len(f["p"]) == len(want), w, "the operations are made of %s, not %s" % (want, {p["n"]: bare(p["t"]) for p in f["p"]}))
        base = self.inits("Operations", tu, f).get(SV + "Request")
        ok = isinstance(base, tuple) and base[0] == "new" and len(base[2]) == 2
        if not self.ob("Operations/request", ok, w, "the operations are a request: %s" % short(base)):
            return
        types = {bare(p["t"]): p["d"] for p in f["p"]}
        m, schema = base[2]
        m = m if isinstance(m, tuple) else ("?",)
        while m[0] in ("list", "new") and len(m[-1]) == 1 and isinstance(m[-1][0], tuple) and m[-1][0][0] == "list":
            m = m[-1][0]
        got = {}
        for x in m[-1] if m[0] == "list" else [m]:
            if self.ob("Operations/read", isinstance(x, tuple) and x[0] in ("new", "list") and len(x[-1]) == 2 and isinstance(x[-1][0], str) and isinstance(x[-1][1], tuple), w, "an operation has a name and an object: %s" % short(x)):
                got[x[-1][0]] = x[-1][1][-1]
        self.ob("Operations/map", got == {op: types.get(want[op]) for op in want}, w, "each operation is carried out by the object of its root type: %s" % got)
        self.ob("Operations/schema", isinstance(schema, tuple) and schema[0] == "call" and schema[1] == self.n.ns + "GetSchema", w, "requests are validated against the schema of the service: %s" % short(schema))

    def run(self):
        for t in self.o.schema.types.values():
            t.setdefault("name", None)
            k = t["kind"]
            {"type": self.object, "interface": self.interface, "input": self.input, "enum": self.enum}.get(k, lambda t: None)(t)
        self.operations()


def signature(t):
    """return type and parameter types of a function type"""
    t = re.sub(r"\)\s*const.*$", ")", t)
    depth = 0
    for i in range(len(t) - 1, -1, -1):
        depth += t[i] == ")"
        depth -= t[i] == "("
        if depth == 0 and t[i] == "(":
            break
    ret, ps = t[:i].strip(), t[i + 1:-1]
    out, depth, cur = [], 0, ""
    for c in ps:
        depth += c in "<(" 
        depth -= c in ">)"
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return ret, out


def spelled(x):
    return "%s %s" % (x[0].replace(G, ""), [m.split("::")[-1] for m in x[1]])


def short(v):
    s = str(v)
    return s if len(s) < 300 else s[:300] + "..."


def named(t):
    return sdl.named(t)


def run(ck):
    for o in outputs(ck):
        for n, t in o.schema.types.items():
            t["name"] = n
        Service(ck, o).run()
    ck.need(len(ck.obligations) > 1000 or any(not x[1] for x in ck.obligations), "generated services")
