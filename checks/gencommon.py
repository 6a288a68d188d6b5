"""What a generated source says: a reader of the straight-line code which the generators write. It folds constants over the syntax tree; nothing is compiled or run."""
import copy, os, re
import facts, gen, sdl
from facts import strip_targs, REPO, VERIF

G = "graphql::"
PROBES = ("schema", "small", "late")


def bare(t):
    """a type without allocators, references and spelling differences"""
    t = t.replace("std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "std::string").replace("std::basic_string<char>", "std::string")
    while True:
        at = t.find(", std::allocator<")
        if at < 0:
            break
        end, depth = at + len(", std::allocator<"), 1
        while depth and end < len(t):
            depth += {"<": 1, ">": -1}.get(t[end], 0)
            end += 1
        t = t[:at] + t[end:]
    return re.sub(r"\s*&&?$", "", t.replace("const ", "")).strip()


class RV:
    """a response::Value while it is being put together"""
    def __init__(self, kind, v=None):
        self.kind, self.v = kind, v
        if v is None and kind in ("Map", "List"):
            self.v = []

    def __repr__(self):
        return "%s(%r)" % (self.kind, self.v)

    def same(self, lit, t=None):
        if isinstance(lit, sdl.Enum):
            return self.kind == "EnumValue" and self.v == str(lit)
        if isinstance(lit, bool):
            return self.kind == "Boolean" and self.v is lit
        if isinstance(lit, str):
            return self.kind == "String" and lit == self.v
        if isinstance(lit, int):
            return self.kind == "Int" and self.v == lit or self.kind == "Float" and t == "Float" and self.v == lit
        if isinstance(lit, float):
            return self.kind == "Float" and self.v == lit
        if lit is None:
            return self.kind == "Null"
        if isinstance(lit, list):
            return self.kind == "List" and len(self.v) == len(lit) and all(a.same(b, t) for a, b in zip(self.v, lit))
        if isinstance(lit, dict):
            return self.kind == "Map" and [k for k, _ in self.v] == list(lit) and all(v.same(lit[k], "Float") for k, v in self.v)
        return False


class Obj:
    """what a Make() returns"""
    def __init__(self, cls, args):
        self.cls, self.args, self.adds = cls, args, []

    def __repr__(self):
        return "%s(%s)" % (self.cls, self.args)


class Unread(Exception):
    def __init__(self, node, what):
        super().__init__(what)
        self.node = node


class Reader:
    def __init__(self, tus):
        self.tus = tus
        self.trace = []         # (tu, node, name, class, object, arguments) of the calls that are statements of their own
        self.tables = {v["q"]: (tu, v) for tu in tus for v in tu.vars if "i" in v}
        self.tu = None
        self.depth = 0

    def function(self, q):
        for tu in self.tus:
            for f in tu.functions:
                if f["q"] == q and f.get("body"):
                    return tu, f
        return None, None

    def values(self, ns, env):
        return [self.val(n, env) for n in ns if n.get("k") != "defarg"]

    def val(self, n, env):
        k = n.get("k")
        if k == "str":
            return n["v"]
        if k in ("int", "flt"):
            return n["v"] if k == "int" else float(n["v"])
        if k == "bool":
            return bool(n["v"])
        if k in ("null", "nullptr"):
            return None
        if k == "this":
            return ("this",)
        if k == "paren":
            return self.val(n["e"], env)
        if k == "cast":
            v = self.val(n["e"], env)
            if isinstance(v, int) and not isinstance(v, bool) and n.get("t") in ("double", "float"):
                return float(v)
            return v
        if k == "un":
            v = self.val(n["e"], env)
            if n.get("op") == "-" and isinstance(v, (int, float)):
                return -v
            if n.get("op") == "*":
                return v
            return ("un", n.get("op"), v)
        if k == "defarg":
            return self.val(n["e"], env)
        if k == "ref":
            if n.get("dk") == "enum":
                return ("enum", n["q"], n.get("v"))
            if n.get("q") == "std::nullopt":
                return None
            if n["d"] in env:
                return env[n["d"]]
            if n.get("q") in self.tables:
                return ("table", n["q"])
            return ("var", n["n"], n["d"])
        if k == "mem":
            return ("mem", self.val(n["b"], env), n["n"])
        if k == "init":
            return ("list", self.values(n.get("a", []), env))
        if k == "lambda":
            return ("lambda", n, env)
        if k == "cond":
            return ("cond", self.val(n["c"], env), self.val(n["a"], env), self.val(n["b"], env))
        if k == "op":
            a = self.values(n["a"], env)
            if n["op"] == "->":
                return a[0]
            if n["op"] == "*" and len(a) == 1:
                return a[0]
            if n["op"] == "[]" and isinstance(a[0], tuple) and a[0][0] == "table":
                return self.entry(a[0][1], a[1], n)
            if n["op"] == "()" and isinstance(a[0], tuple) and a[0][0] == "lambda":
                return self.run(a[0][1]["body"], dict(a[0][2]))
            if n["op"] == "=":
                return self.assign(n, n["a"][0], a[1], env)
            return ("op", n["op"], a)
        if k == "asg":
            return self.assign(n, n["l"], self.val(n["r"], env), env)
        if k in ("bin", "binop"):
            return ("op", n.get("op"), [self.val(n["l"], env), self.val(n["r"], env)])
        if k == "ctor":
            a = self.values(n.get("a", []), env)
            return self.made(n, a)
        if k == "call":
            return self.call(n, env)
        if k == "mcall":
            return self.mcall(n, env)
        if k in ("new", "scalar", "zero", "implicit"):
            return ("new", n.get("t"), self.values(n.get("a", []), env))
        raise Unread(n, "an expression of kind %r" % k)

    def entry(self, q, i, n):
        tu, v = self.tables[q]
        names = self.names(q)
        if isinstance(i, tuple) and i[0] == "enum" and isinstance(i[2], int):
            return ("named", "::".join(i[1].split("::")[:-1]), i[1].split("::")[-1], names[i[2]] if i[2] < len(names) else None)
        raise Unread(n, "an entry of %s" % q)

    def names(self, q):
        tu, v = self.tables[q]
        r = self.val(v["i"], {})
        while isinstance(r, tuple) and r[0] == "list" and len(r[1]) == 1 and isinstance(r[1][0], tuple):
            r = r[1][0]
        return r[1]

    def made(self, n, a):
        t = strip_targs(n.get("t", "")).replace("const ", "").strip()
        if t == G + "response::Value":
            if len(a) == 1:
                return self.value(a[0], n)
            if not a:
                return RV("Null")
        if len(a) == 1:
            if n.get("t", "").startswith("std::vector<") and not (isinstance(a[0], tuple) and a[0][0] == "list"):
                return a[0]
            return a[0]
        return ("new", n.get("t"), a)

    def value(self, v, n):
        if isinstance(v, RV):
            return v
        if isinstance(v, bool):
            return RV("Boolean", v)
        if isinstance(v, int):
            return RV("Int", v)
        if isinstance(v, float):
            return RV("Float", v)
        if isinstance(v, str):
            return RV("String", v)
        if isinstance(v, tuple) and v[0] == "enum" and v[1].startswith(G + "response::Type::"):
            return RV(v[1].split("::")[-1])
        if isinstance(v, tuple) and v[0] in ("mem", "call", "cond", "var"):
            return v
        raise Unread(n, "a response::Value of %r" % (v,))

    def assign(self, n, l, v, env):
        if l.get("k") == "ref":
            env[l["d"]] = copy.deepcopy(v) if isinstance(v, RV) else v
            return v
        raise Unread(n, "an assignment")

    def call(self, n, env):
        f = strip_targs(n["f"])
        if f in ("std::move", "std::forward", "std::make_optional", "std::static_pointer_cast", "std::dynamic_pointer_cast"):
            return self.val(n["a"][0], env)
        a = self.values(n.get("a", []), env)
        if f.startswith(G + "schema::") and n["n"] == "Make":
            return Obj(f.split("::")[-2], a)
        tu, g = self.function(n["f"])
        if g is not None and g["ret"] == "void":
            return self.inline(tu, g, a)
        return ("call", f, n.get("cls") or "", tuple(n.get("ta") or ()), None, a)

    def inline(self, tu, g, a):
        if self.depth > 6:
            raise Unread(g["body"], "a recursion")
        self.depth += 1
        was, self.tu = self.tu, tu
        r = self.run(g["body"], {p["d"]: x for p, x in zip(g["p"], a)})
        self.tu = was
        self.depth -= 1
        return r

    def mcall(self, n, env):
        o = self.val(n["o"], env) if n.get("o") else ("this",)
        a = self.values(n.get("a", []), env)
        name = n["n"]
        if isinstance(o, RV):
            if name == "emplace_back":
                v = [self.value(x, n) if i == len(a) - 1 else x for i, x in enumerate(a)]
                o.v.append(copy.deepcopy(v[0]) if o.kind == "List" else (v[0], copy.deepcopy(v[1])))
                for x in n["a"]:
                    if x.get("k") == "call" and x.get("f") == "std::move" and x["a"][0].get("k") == "ref" and isinstance(env.get(x["a"][0]["d"]), RV):
                        env[x["a"][0]["d"]] = RV("Null")
                return None
            if name == "set":
                o.v = a[0]
                if isinstance(o.v, RV):
                    o.v = o.v
                return None
            raise Unread(n, "%s() of a value" % name)
        if name == "LookupType" and len(a) == 1 and isinstance(a[0], str):
            return ("name", a[0])
        if name == "WrapType" and len(a) == 2:
            k = a[0][1].split("::")[-1] if isinstance(a[0], tuple) and a[0][0] == "enum" else "?"
            return ({"LIST": "list", "NON_NULL": "nonnull"}.get(k, "?"), typed(a[1]))
        if isinstance(o, Obj):
            o.adds.append((name, a))
        self.trace.append((self.tu, n, name, n.get("cls"), o, a))
        tu, g = self.function(n["f"])
        if isinstance(o, tuple) and o[0] == "this" and g is not None and not n.get("virt") and name.startswith("resolve") is False:
            pass
        return ("call", strip_targs(n["f"]), n.get("cls") or "", tuple(n.get("ta") or ()), o, a)

    def run(self, s, env):
        """the value of a return statement, None otherwise"""
        k = s.get("s")
        if k == "block":
            for x in s["b"]:
                r = self.run(x, env)
                if r is not None:
                    return r
            return None
        if k == "decl":
            for v in s["v"]:
                if v.get("i") is not None:
                    x = self.val(v["i"], env)
                    t = strip_targs(v.get("t", ""))
                    env[v["d"]] = copy.deepcopy(x) if isinstance(x, RV) else x
            return None
        if k == "expr":
            v = self.val(s["e"], env)
            if isinstance(v, tuple) and v[0] == "call" and v[4] is None:
                self.trace.append((self.tu, s["e"], s["e"].get("n"), v[2], None, v[5]))
            return None
        if k == "ret":
            return self.val(s["e"], env) if s.get("e") else ("void",)
        if k in ("null", "empty"):
            return None
        if k == "if":
            self.val(s["c"], env)
            self.run(s["a"] if "a" in s else s["t"], env)
            if s.get("e") or s.get("b"):
                raise Unread(s, "an else")
            return None
        raise Unread(s, "a statement of kind %r" % k)


def typed(v):
    """a type of the schema"""
    if isinstance(v, Obj):
        return ("name", v.args[0])
    return v


def safe(name):
    """the C++ name of a name: without what C++ reserves"""
    return re.sub(r"^_([A-Z])", r"\1", re.sub(r"_{2,}", "_", name))


def cap(name):
    n = safe(name)
    return n[0].upper() + n[1:]


class Output:
    """one run of schemagen"""
    def __init__(self, label, schema, ns, args, tus, directory, text, builtin=False, opts=()):
        self.label, self.schema, self.ns, self.tus, self.directory, self.text, self.builtin, self.opts = label, schema, ns, tus, directory, text, builtin, opts
        self.reader = Reader(tus)

    def at(self, tu, node):
        return "%s:%s" % (tu.src if tu is not None else "?", (node or {}).get("l", "?")) + " (generated by src/SchemaGenerator.cpp: %s)" % self.label

    @property
    def introspection(self):
        return "--no-introspection" not in self.opts


def introspection_document():
    """the document of the introspection schema is a literal of SchemaLoader.cpp"""
    with open(os.path.join(REPO, "src/SchemaLoader.cpp")) as f:
        text = f.read()
    for m in re.finditer(r'R"(\w*)\((.*?)\)\1"', text, re.S):
        if "__Schema" in m.group(2) and "type" in m.group(2):
            return m.group(2)
    raise facts.AnalysisBroken("the introspection document")


def runs(which=None):
    """label, document, name prefix, namespace, options"""
    probe = lambda n: os.path.join(VERIF, "probe", n + ".graphql")
    sample = lambda n: os.path.join(REPO, "samples", n + ".graphql")
    all_ = [
        ("probe/schema", probe("schema"), "Probe", "probe", ()),
        ("probe/schema --no-introspection", probe("schema"), "Probe", "probe", ("--no-introspection",)),
        ("probe/schema --separate-files --no-stubs", probe("schema"), "Probe", "probe", ("--separate-files", "--no-stubs")),
        ("probe/small", probe("small"), "Small", "small", ("--no-stubs",)),
        ("probe/late", probe("late"), "Late", "late", ()),
        ("probe/late --separate-files --no-introspection", probe("late"), "Late", "late", ("--separate-files", "--no-introspection")),
        ("probe/matrix", probe("matrix"), "Matrix", "matrix", ()),
        ("probe/xirtam --separate-files", probe("xirtam"), "Xirtam", "xirtam", ("--separate-files",)),
        ("samples/schema.today", sample("schema.today"), "Today", "today", ()),
        ("samples/schema.validation", sample("schema.validation"), "Validation", "validation", ()),
        ("--introspection", None, None, None, ("--introspection",)),
    ]
    return [r for r in all_ if which is None or which(r)]


def outputs(ck, which=None):
    rs = runs(which)
    jobs = []
    for label, doc, prefix, ns, opts in rs:
        jobs.append(("schemagen",) + (("--schema=" + doc, "--prefix=" + prefix, "--namespace=" + ns) if doc else ()) + opts)
    got = gen.generate_all(jobs)
    todo = []
    for r, (code, text, d, files) in zip(rs, got):
        if ck.ob("generated/" + r[0], code == 0 and files, "src/SchemaGenerator.cpp", "schemagen accepts the schema and writes its service: %s" % text.strip()[:200]):
            todo += [(d, f) for f in files if f.endswith(".cpp")]
    failed = gen.preload(todo)
    out = []
    for (label, doc, prefix, ns, opts), (code, text, d, files) in zip(rs, got):
        if code or not files:
            continue
        ok = True
        for f in files:
            if f.endswith(".cpp"):
                e = failed.get((d, f))
                ok &= ck.ob("compiles/%s/%s" % (label, f), e is None, "%s (generated by src/SchemaGenerator.cpp: %s)" % (f, label), "the generated code is C++: %s" % (e or "")[:300])
        if not ok:
            continue
        if doc:
            with open(doc) as f:
                schema = sdl.Schema(f.read())
        else:
            schema, ns = sdl.Schema(introspection_document()), "introspection"
        out.append(Output(label, schema, ns, None, [gen.load(d, f) for f in files if f.endswith(".cpp")], d, text, builtin=doc is None, opts=opts))
    return out
