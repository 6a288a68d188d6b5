"""Introspection tells exactly what the schema was built with: every accessor of the schema returns what its definition was given, every resolver of the introspection types answers with it."""
from xcommon import *
from facts import _walk

SSRC, ISRC = "src/Schema.cpp", "src/Introspection.cpp"
SC, IN = "graphql::schema::", "graphql::introspection::"
KINDS = {"ScalarType": "SCALAR", "ObjectType": "OBJECT", "InterfaceType": "INTERFACE", "UnionType": "UNION", "EnumType": "ENUM", "InputObjectType": "INPUT_OBJECT"}
# what is given where: the position of the parameter of Make
GIVEN = {
    "Field": ("name", "description", "deprecationReason", "type", "args"),
    "InputValue": ("name", "description", "type", "defaultValue"),
    "EnumValue": ("name", "description", "deprecationReason"),
    "Directive": ("name", "description", "locations", "args"),
    "WrapperType": ("kind", "ofType"),
}
for _k in KINDS:
    GIVEN[_k] = ("name", "description")
# what is added later: accessor -> function that adds it
ADDED = {
    "ObjectType": {"fields": "AddFields", "interfaces": "AddInterfaces"},
    "InterfaceType": {"fields": "AddFields", "possibleTypes": "AddPossibleType"},
    "UnionType": {"possibleTypes": "AddPossibleTypes"},
    "EnumType": {"enumValues": "AddEnumValues"},
    "InputObjectType": {"inputFields": "AddInputValues"},
}
BASE = ("name", "description", "kind", "fields", "interfaces", "possibleTypes", "enumValues", "inputFields", "ofType")
FIELDISH = lambda t: t[0] == "f" and t[1] == THIS


def one(tu, q):
    return tu.one(q)


def param(f, i):
    return ("v", f["p"][i]["n"], f["p"][i]["d"])


def result(ck, tu, f, **kw):
    d = Decision(value=True, **kw)
    rows = ck.table(tu, f, d)
    return [r for r in rows if r.end == "ret" and r.value is not None], rows


def members(ck, tu, cls):
    """member or base parameter -> position of the parameter of Make it holds"""
    mk = one(tu, SC + cls + "::Make")
    made, writes = [], {}

    class M(Decision):
        def on_write(self, ctx, st, l, r, op, node):
            if l[0] == "f" and l[1][0] in ("v", "new"):
                writes[l[2]] = r
            return super().on_write(ctx, st, l, r, op, node)
    d = M(value=True)
    rows = ck.table(tu, mk, d)
    vals = [x for r in rows if r.end == "ret" for x in unwrap(r.value)]
    ck.ob("made/" + cls, bool(vals) and all(v[0] == "new" and v[1] == SC + cls and len(v[2]) == 1 for v in vals) and all(r.end == "ret" for r in rows), where(mk), "Make makes a new definition of its own kind on every path")
    if not vals or vals[0][0] != "new" or len(vals[0][2]) != 1:
        return {}, {}
    order = [x["n"] for x in tu.record(SC + cls + "::init")["fields"]]
    arg = vals[0][2][0]
    given = {}
    if arg[0] == "new":
        given = dict(zip(order, arg[2]))
    given.update({k: v for k, v in writes.items() if k in order})
    pos = {}
    for n, v in given.items():
        for i, p in enumerate(mk["p"]):
            if v == param(mk, i):
                pos[n] = i
    ctor = [g for g in tu.find(SC + cls + "::" + cls) if len(g["p"]) == 1 and "init" in g["p"][0]["t"]]
    ck.need(len(ctor) == 1, "constructor of " + cls)
    src, base = {}, []

    class K(Decision):
        def on_write(self, ctx, st, l, r, op, node):
            if FIELDISH(l):
                src[l[2]] = r
            return super().on_write(ctx, st, l, r, op, node)

        def on_new(self, ctx, st, t, args, node):
            if t == SC + "BaseType":
                base.append(args)
            return super().on_new(ctx, st, t, args, node)
    k = K()
    ck.table(tu, ctor[0], k)
    pp = ctor[0]["p"][0]["n"]

    def at(t):
        return pos.get(t[2]) if t[0] == "f" and t[1][0] == "v" and t[1][1] == pp else None
    return {m: at(t) for m, t in src.items()}, [(at(t), t) for t in base[0]] if base else []


def holds(ck, tu, cls, acc, defined=True):
    """the members an accessor may return"""
    f = tu.find(SC + cls + "::" + acc)
    if len(f) != 1:
        return None
    rets, rows = result(ck, tu, f[0])
    if len(rets) != len(rows) or not rets:
        return {None}
    return {x[2] if FIELDISH(x) else None for r in rets for x in unwrap(r.value)}


def constant(ck, tu, acc):
    """an accessor of the base class which returns nothing"""
    f = one(tu, SC + "BaseType::" + acc)
    rets, rows = result(ck, tu, f)
    static = {}

    def look(n):
        if n.get("s") == "decl":
            for v in n["v"]:
                static[v["n"]] = v
    _walk(f["body"], look)
    empty = lambda e: e is None or (isinstance(e, dict) and ((e.get("k") in ("ctor", "initlist", "init") and all(empty(a) for a in e.get("a", e.get("e", [])) or [])) or (e.get("k") == "str" and e.get("v", "x") == "")))
    ok = bool(rets) and len(rets) == len(rows)
    for r in rets:
        for x in unwrap(r.value):
            if x[0] == "v" and x[1] in static:
                ok = ok and empty(static[x[1]].get("i"))
            elif x[0] == "new":
                ok = ok and not x[2]
            elif x[0] == "c":
                ok = ok and x[1] in ("", None)
            else:
                ok = False
    ck.ob("absent/" + acc, ok, where(f), "a type which has no %s says so: nothing" % acc)


def definitions(ck, tu):
    done = 0
    for cls, names in GIVEN.items():
        m, base = members(ck, tu, cls)
        mk = one(tu, SC + cls + "::Make")
        typed = cls in KINDS or cls == "WrapperType"
        for i, n in enumerate(names):
            done += 1
            if typed and n in ("description", "kind"):
                ok = len(base) == 2 and base[1 if n == "description" else 0][0] == i
            else:
                h = holds(ck, tu, cls, n)
                ok = h is not None and all(x is not None and m.get(x) == i for x in h)
            ck.ob("given/%s/%s" % (cls, n), ok, where(mk), "%s() of a %s returns what Make was given for it" % (n, cls))
        if cls in KINDS:
            ck.ob("kind/" + cls, len(base) == 2 and base[0][1][0] == "enum" and base[0][1][1].endswith("TypeKind::" + KINDS[cls]), where(mk), "a %s is of kind %s" % (cls, KINDS[cls]))
        if cls == "WrapperType":
            ck.ob("given/WrapperType/description", len(base) == 2 and base[1][1] in (("c", ""),) or base[1][1][0] == "new" and not base[1][1][2], where(mk), "a wrapper has no description")
        if typed:
            own = set(names) | set(ADDED.get(cls, ()))
            for acc in BASE:
                if acc not in own and acc not in ("description", "kind"):
                    ck.ob("absent/%s/%s" % (cls, acc), not tu.find(SC + cls + "::" + acc), where(mk), "a %s has no %s of its own" % (cls, acc))
    # the base class
    f = [g for g in tu.find(SC + "BaseType::BaseType") if len(g["p"]) == 2]
    ck.need(len(f) == 1, "constructor of BaseType")
    src = {}

    class B(Decision):
        def on_write(self, ctx, st, l, r, op, node):
            if FIELDISH(l):
                src[l[2]] = r
            return super().on_write(ctx, st, l, r, op, node)
    ck.table(tu, f[0], B())
    for i, n in enumerate(("kind", "description")):
        h = holds(ck, tu, "BaseType", n)
        ck.ob("given/BaseType/" + n, h is not None and all(x is not None and src.get(x) == param(f[0], i) for x in h), where(f[0]), "%s() of a type returns what it was made with" % n)
    for acc in BASE:
        if acc not in ("kind", "description"):
            constant(ck, tu, acc)
    ck.need(done == sum(len(x) for x in GIVEN.values()), "definitions")


def additions(ck, tu):
    for cls, accs in ADDED.items():
        for acc, add in accs.items():
            f = one(tu, SC + cls + "::" + add)
            h = holds(ck, tu, cls, acc)
            mem = next(iter(h)) if h and len(h) == 1 else None
            ck.ob("added/%s/%s/returned" % (cls, acc), mem is not None, where(f), "%s() of a %s returns the member it keeps them in" % (acc, cls))
            if mem is None:
                continue
            p = param(f, 0)
            whole = cls != "EnumType" and acc != "possibleTypes" or cls == "UnionType"
            kept(ck, tu, f, "%s/%s" % (cls, acc), mem, p, single=(add == "AddPossibleType"), build=enum_value(tu) if cls == "EnumType" else None)
    # interfaces know the objects that implement them
    f = one(tu, SC + "ObjectType::AddInterfaces")
    mem = next(iter(holds(ck, tu, "ObjectType", "interfaces")))
    p = param(f, 0)
    got = []
    mine = lambda t: any(x == THIS for x in subterms(t))
    rngs = {"param": lambda t: t == p, "member": lambda t: t == ("f", THIS, mem)}

    class A(Decision):
        def on_call(self, ctx, st, c):
            if c.nq == SC + "InterfaceType::AddPossibleType":
                got.append((ctx.where(c.node), c.obj, c.args))
                return ("opaque", self.add(st, "possible", ctx, c.node))
            return super().on_call(ctx, st, c)
    ev = {"assign": lambda l, r, op: l == ("f", THIS, mem)}
    a = A({}, {}, ev, unit=lambda e, rng, node: any(k(rng) for k in rngs.values()))
    rows = ck.table(tu, f, a)
    iters = [r for r in rows if r.loop]
    ck.ob("possible/every", bool(iters) and all(r.count("possible") == 1 for r in iters), where(f), "every interface an object implements gets to know it, once")
    for w, o, args in got:
        ck.ob("possible/self", o is not None and o[0] == "elem" and any(k(o[1]) for k in rngs.values()) and len(args) == 1 and mine(args[0]), w, "the interface gets to know the object which implements it")
    b = A({}, {}, ev, loops=rngs)
    rows = ck.table(tu, f, b)
    ck.must("possible/moved", rows, [], lambda r: (r.did("loop:param") and (r.index("assign") < 0 or r.index("loop:param") < r.index("assign"))) or (r.did("loop:member") and 0 <= r.index("assign") < r.index("loop:member")), "the interfaces that are told are those given")


def enum_value(tu):
    return lambda t, e: t[0] == "call" and t[1] == SC + "EnumValue::Make" and len(t[4]) == 3 and all(a == ("f", e, n) for a, n in zip(t[4], ("value", "description", "deprecationReason")))


GROW = ("push_back", "emplace_back", "put")


def kept(ck, tu, f, label, mem, p, single=False, build=None):
    """what the function is given is kept in the member, on every path, once and in order"""
    field = ("f", THIS, mem)
    puts, sizes = [], []

    class A(Decision):
        def on_call(self, ctx, st, c):
            if c.obj == field and c.nq.startswith("std::"):
                if c.name in GROW:
                    puts.append((ctx.where(c.node), c.name, c.args))
                    return ("opaque", self.add(st, c.name, ctx, c.node))
                if c.name == "resize":
                    sizes.append(c.args[0])
                    return ("opaque", self.add(st, "resize", ctx, c.node))
                if c.name == "clear" and not any(e in GROW for e in st.ts[2]):
                    return ("opaque", st)
                if c.name in ("reserve", "size", "begin", "end", "cbegin", "cend", "capacity", "empty"):
                    return super().on_call(ctx, st, c)
                if c.name == "swap" and c.args and c.args[0] == p:
                    return ("opaque", self.add(st, "assign", ctx, c.node))
                if not c.const:
                    return ("opaque", self.add(st, "other:" + c.name, ctx, c.node))
            return super().on_call(ctx, st, c)

        def on_write(self, ctx, st, l, r, op, node):
            if l == field:
                return self.add(st, "assign" if op == "=" and r == p else "other:write", ctx, node)
            return super().on_write(ctx, st, l, r, op, node)
    nm = f["nq"].split("::")[-1]
    each = lambda e, rng, node: rng == p
    a = A({}, {})
    rows = ck.table(tu, f, a)
    calm = lambda r: r.end in ("ret", "end", None) or r.end == "ret"
    if single:
        ck.must("kept/" + label, rows, [], lambda r: r.end != "throw" and sum(r.count(g) for g in GROW[:2]) == 1 and not any(e.startswith("other") or e in ("assign", "put") for e in r.events), nm + " keeps what it is given, next to what is there")
        for w, n, args in puts:
            ck.ob("kept/%s/same" % label, len(args) == 1 and args[0] == p, w, nm + " keeps exactly what it is given")
        return
    if build is None and not puts:
        ck.must("kept/" + label, rows, [], lambda r: r.end != "throw" and r.count("assign") == 1 and not any(e.startswith("other") for e in r.events), nm + " keeps all it is given, on every path")
        return
    b = A({}, {}, unit=each)
    iters = [r for r in ck.table(tu, f, b) if r.loop]
    ck.ob("kept/" + label, bool(iters) and all(sum(r.count(g) for g in GROW) == 1 for r in iters) and not any(e.startswith("other") for r in rows for e in r.events), where(f), nm + " keeps every element it is given, once")
    for w, n, args in puts:
        es = [x for x in subterms(args[0]) if x[0] == "elem" and x[1] == p] if args else []
        ck.ob("kept/%s/same" % label, bool(es) and (build(args[0], es[0]) if build else args[0] == es[0]), w, nm + " keeps each element as it is given")
        if n == "put":
            ck.ob("kept/%s/room" % label, bool(sizes) and all(x[0] == "call" and x[1].endswith("::size") and x[3] == p for x in sizes) and all(r.index("resize") == 0 for r in rows if r.did("put")), w, "there is room for exactly the elements given")


def registry(ck, tu):
    S_ = SC + "Schema::"
    # types by name
    f = one(tu, S_ + "AddType")
    h = holds(ck, tu, "Schema", "types")
    mem = next(iter(h)) if h and len(h) == 1 else None
    ck.need(mem, "types of the schema")
    vec = ("f", THIS, mem)
    n, t = param(f, 0), param(f, 1)
    ev = []

    class T(Decision):
        def on_call(self, ctx, st, c):
            if c.obj == vec and c.name in GROW:
                a = c.args
                pr = a[0] if len(a) == 1 else ("new", "pair", tuple(a))
                ck.ob("types/entry", pr[0] == "new" and tuple(pr[2]) == (n, t), ctx.where(c.node), "the type is kept under its name")
                st = self.add(st, "push", ctx, c.node)      # sizes taken before are those of before
                return ("opaque", State({k: ("old", v) if not isinstance(k, tuple) and isinstance(v, tuple) and size(v) else v for k, v in st.env.items()}, st.facts, st.ts))
            if c.name in ("emplace", "insert", "insert_or_assign") and c.obj is not None and c.obj[0] == "f" and c.obj != vec:
                ck.ob("types/index", len(c.args) == 2 and c.args[0] == n and last(c.args[1], st), ctx.where(c.node), "the name leads to the entry of the type")
                return ("opaque", self.add(st, "index:once", ctx, c.node))
            return super().on_call(ctx, st, c)

        def on_write(self, ctx, st, l, r, op, node):
            if l[0] == "idx" and l[2] == n:
                ck.ob("types/index", last(r, st), ctx.where(node), "the name leads to the entry of the type")
                return self.add(st, "index", ctx, node)
            return super().on_write(ctx, st, l, r, op, node)

    size = lambda x: x[0] == "call" and x[1].endswith("::size") and x[3] == vec

    def last(r, st):
        if r[0] == "old":       # taken before the entry was added
            return "push" in st.ts[2] and size(r[1])
        if "push" in st.ts[2]:
            return r[0] == "bin" and r[1] == "-" and size(r[2]) and r[3] == ("c", 1)
        return size(r)
    rows = ck.table(tu, f, T())
    ck.must("types/added", rows, [], lambda r: r.count("push") == 1 and r.count("index") + r.count("index:once") == 1 and r.end != "throw", "a type is added once, and found by its name")
    f = one(tu, S_ + "LookupType")
    n = param(f, 0)
    d = Decision({"found": lambda x: x[0] == "found" and x[2] == n and FIELDISH(x[1])}, value=True)
    rows = ck.table(tu, f, d)
    at = lambda v: v[0] == "f" and v[2] == "second" and any(x == vec for x in subterms(v[1])) and v[1][0] in ("idx", "call") and any(
        x[0] == "f" and x[2] == "second" and any(y == n for y in subterms(x[1])) for x in subterms(v[1]))
    ck.must("types/found", rows, [("found", True)], lambda r: r.end == "ret" and all(at(x) for x in unwrap(r.value)), "a name that was added finds its type")
    ck.must("types/missing", rows, [("found", False)], lambda r: r.end == "throw", "any other name is an error")
    ck.must("types/asked", rows, [], lambda r: r.seen("found"), "a type is looked up by its name")
    # root types and directives
    for acc, add in (("queryType", "AddQueryType"), ("mutationType", "AddMutationType"), ("subscriptionType", "AddSubscriptionType")):
        f = one(tu, S_ + add)
        h = holds(ck, tu, "Schema", acc)
        mem = next(iter(h)) if h and len(h) == 1 else None
        ck.ob("root/%s/returned" % acc, mem is not None, where(f), acc + "() returns what was added")
        if mem:
            w = []

            class W(Decision):
                def on_write(self, ctx, st, l, r, op, node):
                    if FIELDISH(l):
                        return self.add(st, "set" if l[2] == mem and r == param(f, 0) else "other", ctx, node)
                    return super().on_write(ctx, st, l, r, op, node)
            rows = ck.table(tu, f, W())
            ck.must("root/" + acc, rows, [], lambda r: r.count("set") == 1 and not r.did("other"), "%s sets exactly what %s returns" % (add, acc))
    f = one(tu, S_ + "AddDirective")
    h = holds(ck, tu, "Schema", "directives")
    mem = next(iter(h)) if h and len(h) == 1 else None
    ck.ob("directives/returned", mem is not None, where(f), "directives() returns what was added")
    if mem:
        kept(ck, tu, f, "Schema/directives", mem, param(f, 0), single=True)
    g = [x for x in tu.find(S_ + "Schema") if len(x["p"]) == 1 and x["p"][0]["t"] == "bool"]
    ck.need(len(g) == 1, "constructor of Schema")
    src = {}

    class B(Decision):
        def on_write(self, ctx, st, l, r, op, node):
            if FIELDISH(l):
                src[l[2]] = r
            return super().on_write(ctx, st, l, r, op, node)
    ck.table(tu, g[0], B())
    f = one(tu, S_ + "supportsIntrospection")
    d = Decision({"no": lambda t: FIELDISH(t) and src.get(t[2]) == param(g[0], 0)}, value=True, verdict=True)
    rows = ck.table(tu, f, d)
    ck.must("supports", rows, [], lambda r: r.end == "ret" and r.seen("no") and r.value == ("c", not r.has("no")), "a schema supports introspection unless it was made without")


# ---------------------------------------------------------------- resolvers of the introspection types
OPT, NAME, REF, LIST, REASON, DEPRECATED, PLAIN = "opt", "name", "ref", "list", "reason", "deprecated", "plain"
RES = {
    "Schema": {"getTypes": (LIST, "types", "Type", None), "getQueryType": (REF, "queryType"), "getMutationType": (REF, "mutationType"),
               "getSubscriptionType": (REF, "subscriptionType"), "getDirectives": (LIST, "directives", "Directive", None)},
    "Type": {"getKind": (PLAIN, "kind"), "getName": (OPT, "name"), "getDescription": (OPT, "description"),
             "getFields": (LIST, "fields", "Field", ("OBJECT", "INTERFACE")), "getInterfaces": (LIST, "interfaces", "Type", ("OBJECT",)),
             "getPossibleTypes": (LIST, "possibleTypes", "Type", ("INTERFACE", "UNION")), "getEnumValues": (LIST, "enumValues", "EnumValue", ("ENUM",)),
             "getInputFields": (LIST, "inputFields", "InputValue", ("INPUT_OBJECT",)), "getOfType": (REF, "ofType", ("LIST", "NON_NULL"))},
    "Field": {"getName": (PLAIN, "name"), "getDescription": (OPT, "description"), "getArgs": (LIST, "args", "InputValue", None), "getType": (REF, "type"),
              "getIsDeprecated": (DEPRECATED, "deprecationReason"), "getDeprecationReason": (REASON, "deprecationReason")},
    "InputValue": {"getName": (PLAIN, "name"), "getDescription": (OPT, "description"), "getType": (REF, "type"), "getDefaultValue": (OPT, "defaultValue")},
    "EnumValue": {"getName": (PLAIN, "name"), "getDescription": (OPT, "description"), "getIsDeprecated": (DEPRECATED, "deprecationReason"), "getDeprecationReason": (REASON, "deprecationReason")},
    "Directive": {"getName": (PLAIN, "name"), "getDescription": (OPT, "description"), "getLocations": (PLAIN, "locations"), "getArgs": (LIST, "args", "InputValue", None)},
}
ALLKINDS = ("SCALAR", "OBJECT", "INTERFACE", "UNION", "ENUM", "INPUT_OBJECT", "LIST", "NON_NULL")


def bare(v):
    """the value inside of results, optionals and strings"""
    while v is not None:
        if v[0] == "new" and len(v[2]) == 1 and (v[1].startswith(("graphql::service::FieldResult", "std::optional", "std::basic_string"))):
            v = v[2][0]
        elif v[0] == "some":
            v = v[1]
        elif v[0] == "new" and v[1].startswith("std::basic_string") and len(v[2]) == 2 and all(x[0] == "call" and x[3] is not None and not x[4] for x in v[2]) \
                and v[2][0][1].split("::")[-1] == "data" and v[2][1][1].split("::")[-1] in ("size", "length") and v[2][0][3] == v[2][1][3]:
            v = v[2][0][3]
        else:
            return v


ABSENT = (("g", "std::nullopt"), ("none",))


def absent(t, source):
    """whether it is asked if there is nothing"""
    return t[0] == "eq" and any(x in ABSENT for x in t[1:]) and any(source(x) for x in t[1:])


def nothing(v):
    v = bare(v)
    return v is not None and (v in (("g", "std::nullopt"), NULL, ("none",)) or (v[0] == "new" and not v[2]))


def resolvers(ck, tu):
    n = 0
    for cls, accs in RES.items():
        I = IN + cls + "::"
        ctor = [g for g in tu.find(I + cls) if len(g["p"]) == 1 and "shared_ptr<" in g["p"][0]["t"]]
        ck.need(len(ctor) == 1, "constructor of introspection::" + cls)
        src = {}

        class B(Decision):
            def on_write(self, ctx, st, l, r, op, node):
                if FIELDISH(l):
                    src[l[2]] = r
                return super().on_write(ctx, st, l, r, op, node)
        ck.table(tu, ctor[0], B())
        mems = [m for m, t in src.items() if t == param(ctor[0], 0)]
        ck.ob("resolver/%s/kept" % cls, len(mems) >= 1, where(ctor[0]), "it is about the definition it was made for")
        me = [("f", THIS, m) for m in mems]

        def of(t, acc):
            return t[0] == "call" and t[1].startswith(SC) and t[1].split("::")[-1] == acc and t[3] in me

        def kindatom(t, me=me, of=of):
            if t[0] == "eq":
                a, b = t[1:]
                if b[0] != "enum":
                    a, b = b, a
                return b[1].split("::")[-1] if b[0] == "enum" and of(a, "kind") else None
        for name, spec in accs.items():
            f = one(tu, I + name)
            n += 1
            label = "resolver/%s/%s" % (cls, name)
            what, acc = spec[:2]
            kinds = spec[3] if what == LIST else spec[2] if len(spec) > 2 else None
            is_kind = {"kind:" + k: (lambda t, k=k: kindatom(t) == k) for k in ALLKINDS}
            source = lambda t, acc=acc: of(t, acc)
            right = lambda r: [k for k in ALLKINDS if r.has("kind:" + k)]

            def applies(r):
                """whether this path is for a type that has it: True, False, or not asked"""
                k = right(r)
                if k:
                    return k[0] in kinds
                if all(r.has("kind:" + x, False) for x in kinds):
                    return False
                left = [x for x in ALLKINDS if not r.has("kind:" + x, False)]
                return True if all(x in kinds for x in left) else None
            if what == PLAIN:
                rets, rows = result(ck, tu, f)
                ck.ob(label, bool(rets) and len(rets) == len(rows) and all(source(bare(x)) for r in rets for x in unwrap(r.value)), where(f), "the answer is what the definition says")
            elif what == OPT:
                d = Decision({"empty": lambda t: t[0] == "empty" and source(t[1]) or (t[0] == "eq" and any(source(x) for x in t[1:]) and ("c", "") in t[1:])}, value=True)
                rows = ck.table(tu, f, d)
                ck.must(label + "/none", rows, [("empty", True)], lambda r: r.end == "ret" and nothing(r.value), "without it the answer is null")
                ck.must(label + "/some", rows, [("empty", False)], lambda r: r.end == "ret" and source(bare(r.value)), "the answer is what the definition says")
                ck.must(label + "/asked", rows, [], lambda r: r.seen("empty"), "whether the definition has it is asked")
            elif what == REASON:
                d = Decision({"has": lambda t: source(t) or t[0] == "engaged" and source(t[1])}, value=True)
                rows = ck.table(tu, f, d)
                if not any(r.seen("has") for r in rows) and all(r.end == "ret" and source(bare(r.value)) for r in rows):
                    ck.ob(label + "/some", True, where(f), "the answer is what the definition says")
                    continue
                ck.must(label + "/none", rows, [("has", False)], lambda r: r.end == "ret" and (nothing(r.value) or source(bare(r.value))), "without a reason the answer is null")
                ck.must(label + "/some", rows, [("has", True)], lambda r: r.end == "ret" and source(bare(r.value)), "the answer is the reason given")
                ck.must(label + "/asked", rows, [], lambda r: r.seen("has"), "whether there is a reason is asked")
            elif what == DEPRECATED:
                d = Decision({"has": lambda t: source(t) or t[0] == "engaged" and source(t[1])}, value=True)
                rows = ck.table(tu, f, d)

                def truth(r):
                    if r.value is not None and r.end == "ret":
                        b = bare(r.value)
                        if b[0] == "not" and absent(b[1], source):
                            return "as"
                    v = bare(r.value)
                    if v is None:
                        return None
                    if source(v) or v[0] == "engaged" and source(v[1]) or v[0] == "call" and v[1].endswith("::has_value") and source(v[3]):
                        return "as"
                    return v[1] if v[0] == "c" else None
                ck.must(label, rows, [], lambda r: r.end == "ret" and (truth(r) == "as" or (r.seen("has") and truth(r) is r.has("has"))), "it is deprecated exactly if it has a reason")
            elif what == REF:
                tgt = lambda t: source(t) or (t[0] == "call" and t[1].endswith("::lock") and source(t[3]))
                made = lambda v: v is not None and v[0] == "new" and v[1] == IN + "Type" and len(v[2]) == 1 and tgt(v[2][0])
                at = {"some": lambda t: tgt(t) or (t[0] == "engaged" and tgt(t[1]))}
                if kinds:
                    at.update(is_kind)
                d = Decision(at, value=True)
                rows = ck.table(tu, f, d)
                yes = [r for r in rows if not kinds or applies(r) is not False]
                no = [r for r in rows if kinds and applies(r) is False]
                ck.must(label + "/some", [r for r in yes if r.has("some")], [], lambda r: r.end == "ret" and made(bare(r.value)), "the answer is that type")
                ck.must(label + "/none", [r for r in yes if r.has("some", False)], [], lambda r: r.end == "ret" and nothing(r.value), "without one the answer is null")
                ck.must(label + "/asked", yes, [], lambda r: r.seen("some"), "whether there is one is asked")
                if kinds:
                    ck.ob(label + "/kinds", all(r.end == "ret" and nothing(r.value) for r in no) and not any(r.seen("kind:" + k) and applies(r) is None for r in rows for k in ALLKINDS), where(f), "only types of kind %s have one" % " and ".join(kinds))
            elif what == LIST:
                lists(ck, tu, f, label, source, IN + spec[2], kinds, is_kind, applies, acc)
    ck.need(n == sum(len(x) for x in RES.values()), "resolvers of the introspection types")


def lists(ck, tu, f, label, source, elem, kinds, is_kind, applies, acc):
    puts, sizes = [], []
    rngok = lambda rng: source(rng)

    class L(Decision):
        def on_call(self, ctx, st, c):
            if c.nq.startswith("std::") and c.name in GROW and c.obj is not None and c.args:
                puts.append((ctx.where(c.node), c.name, c.obj, c.args))
                return ("opaque", self.add(st, "put", ctx, c.node))
            if c.nq.startswith("std::vector") and c.name == "resize" and c.args:
                sizes.append((c.obj, c.args[0]))
                return ("opaque", self.add(st, "resize", ctx, c.node))
            if c.nq.startswith("std::vector") and c.name == "clear" and "put" not in st.ts[2]:
                return ("opaque", st)
            if c.nq.startswith("std::vector") and c.name in ("clear", "erase", "pop_back", "insert", "swap") and not source(c.obj):
                return ("opaque", self.add(st, "other", ctx, c.node))
            return super().on_call(ctx, st, c)
    arg = f["p"][1]["n"] if len(f["p"]) > 1 else None
    A = {}
    isarg = lambda t: t[0] == "v" and t[1] == arg
    filtered = arg is not None
    if filtered:
        A["given"] = lambda t: t[0] == "engaged" and isarg(t[1])
        A["all"] = lambda t: isarg(t) or (t[0] == "call" and t[1].endswith("::value_or") and isarg(t[3]) and t[4] == (FALSE,)) or (t[0] == "eq" and any(isarg(x) for x in t[1:]) and TRUE in t[1:])
        A["reason"] = lambda t: (lambda x: x[0] == "call" and x[1].endswith("::deprecationReason") and x[3][0] == "elem" and rngok(x[3][1]))(t[1] if t[0] == "engaged" else t)
    # each element
    d = L(dict(A), {}, unit=lambda e, rng, node: rngok(rng))
    iters = [r for r in ck.table(tu, f, d) if r.loop]
    ck.ob(label + "/loop", bool(iters), where(f), "the answer is made from the %s of the definition" % acc)
    show = lambda r: not filtered or (r.has("all") and (r.has("given") or not r.has("given", False))) or r.has("reason", False)
    ck.must(label + "/every", iters, [], lambda r: r.count("put") == (1 if show(r) else 0), "every one is in the answer once" + (", a deprecated one only if that was asked for" if filtered else ""))
    if filtered:
        ck.ob(label + "/deprecated", any(r.has("reason") for r in iters) and any(r.has("all") for r in iters), where(f), "whether one is deprecated, and whether those were asked for, is told apart")
    item = lambda t: t[0] == "elem" and rngok(t[1]) or (t[0] == "f" and t[2] == "second" and item(t[1])) or (t[0] == "call" and t[1].endswith("::lock") and item(t[3]))
    for w, n, o, args in puts:
        ck.ob(label + "/element", len(args) == 1 and args[0][0] == "new" and args[0][1] == elem and len(args[0][2]) == 1 and item(args[0][2][0]), w, "each one is described by its own definition: " + short(args[0]))
    # the whole answer
    e = L(dict(is_kind) if kinds else {}, {}, value=True)
    rows = ck.table(tu, f, e)
    objs = {o for w, n, o, a in puts}
    yes = [r for r in rows if not kinds or applies(r) is not False]
    no = [r for r in rows if kinds and applies(r) is False]
    ck.ob(label + "/answer", bool(yes) and all(r.end == "ret" and bare(r.value) in {bare(o) for o in objs} and not r.did("other") for r in yes), where(f), "they are the answer")
    if kinds:
        ck.ob(label + "/kinds", bool(no) and all(r.end == "ret" and nothing(r.value) and not r.did("put") for r in no) and not any(r.seen("kind:" + k) and applies(r) is None for r in rows for k in ALLKINDS), where(f), "only types of kind %s have them" % " and ".join(kinds))
        ck.ob(label + "/kinds-asked", all(applies(r) is not None for r in rows), where(f), "the kind of the type is asked")
    size = lambda x: x[0] == "call" and x[1].endswith("::size") and x[3] is not None and source(x[3])
    for w, n, o, args in puts:
        b = bare(o)
        made = [x for x in (b,) if size(x)] or [x for x in (b[2] if b[0] == "new" else ()) if size(x)] or [x for oo, x in sizes if oo == o and size(x)]
        if n == "put":
            ck.ob(label + "/room", bool(made), w, "the answer has room for exactly those elements")
        else:
            ck.ob(label + "/room", not made, w, "the answer starts empty")


def run(ck):
    ts, ti = ck.load(SSRC, ISRC)
    definitions(ck, ts)
    additions(ck, ts)
    registry(ck, ts)
    resolvers(ck, ti)
