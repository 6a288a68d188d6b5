"""A schema document is refused if a type it refers to is not there, or is of a kind that may not be there: in fields, arguments, input fields, directives, interfaces, unions and root operations."""
from xcommon import *
from c23 import callees

SRC = "src/SchemaLoader.cpp"
L = "graphql::generator::SchemaLoader::"
INPUTS = ("Scalar", "Enum", "Input")
OUTPUTS = ("Scalar", "Enum", "Union", "Interface", "Object")
ALL = ("Scalar", "Enum", "Input", "Union", "Interface", "Object")


def lookup(t, container, key, ask=None):
    """whether a condition asks if the key is in the container: True or False (then it asks if it is not), None if it asks something else"""
    if t[0] == "found":
        return True if t[1] == container and key(t[2]) else None
    if t[0] == "eq":
        for a, b in (t[1:], t[1:][::-1]):
            if a[0] == "call" and a[1].split("::")[-1] in ("end", "cend") and a[3] == container and any(x[0] == "call" and x[1].split("::")[-1] == "find" and x[3] == container and len(x[4]) == 1 and key(x[4][0]) for x in subterms(b)):
                return False
            if b == ("c", 0) and a[0] == "call" and a[1].split("::")[-1] == "count" and a[3] == container and len(a[4]) == 1 and key(a[4][0]):
                return False
    if t[0] == "call" and t[1].split("::")[-1] in ("count", "contains") and t[3] == container and len(t[4]) == 1 and key(t[4][0]):
        return True
    return None


class Asked:
    """a condition that may be asked in two ways"""
    def __init__(self, name, container, key):
        self.name, self.container, self.key = name, container, key

    def atoms(self):
        return {self.name: lambda t: lookup(t, self.container, self.key) is True, "no " + self.name: lambda t: lookup(t, self.container, self.key) is False}

    def of(self, r):
        if r.has(self.name) or r.has("no " + self.name, False):
            return True
        if r.has(self.name, False) or r.has("no " + self.name):
            return False
        return None


def member(ck, tu, accessor):
    """the member an accessor returns or looks its argument up in"""
    f = tu.find(L + accessor)
    ck.need(len(f) == 1, accessor)
    d = Decision(value=True)
    rows = ck.table(tu, f[0], d)
    r = {x for row in rows if row.end == "ret" and row.value is not None for x in subterms(row.value) if x[0] == "f" and x[1] == ("this",) or x[0] == "g" and x[1].startswith(L)}
    ck.need(len(r) == 1, "the member of " + accessor)
    return r.pop()


def parameter(f, i=0):
    return ("v", f["p"][i]["n"], f["p"][i]["d"])


def field_list(ck, tu, f, what, kinds, builtin, types, inputs, other):
    """each field of a list: its type is built in, or known and of the right kind"""
    R = parameter(f)
    e = ("elem", R)
    mine = lambda t: t == ("f", e, "type")
    b, k = Asked("builtin", builtin, mine), Asked("known", types, mine)
    at = {}
    at.update(b.atoms())
    at.update(k.atoms())
    kind = lambda t: t[0] in ("f", "call", "idx") and any(x == ("f", e, "type") for x in subterms(t)) and any(x == types for x in subterms(t))
    for n in ALL:
        at["kind:" + n] = lambda t, n=n: t[0] == "eq" and any(x[0] == "enum" and x[1] == "graphql::generator::SchemaType::" + n for x in t[1:]) and any(kind(x) for x in t[1:])
    at["nested"] = lambda t: any(x[0] == "elem" and x[1] == ("f", e, "arguments") for x in subterms(t))
    ev = {"arguments": lambda c: c.nq in inputs and c.args and c.args[0] == ("f", e, "arguments")}
    w = {"typed:" + n: (lambda n: lambda l, r, op: l == ("f", e, "fieldType") and r[0] == "enum" and r[1].split("::")[-1] == n)(n) for n in ALL + ("Builtin",)}
    w["typed:?"] = lambda l, r, op: l == ("f", e, "fieldType")
    d = Decision(at, ev, writes=w, unit=lambda c, rng, node: rng == R, opaque=inputs | other)
    rows = [r for r in ck.table(tu, f, d, partial=True) if (r.loop or r.end == "throw") and not r.seen("nested")]
    ck.ob("%s/each" % what, any(r.loop for r in rows) and not d.parts, where(f), "the type of every %s is checked" % what)
    typed = lambda r: [x[6:] for x in r.events if x.startswith("typed:")]
    which = lambda r: [n for n in ALL if r.has("kind:" + n)]
    ck.must("%s/builtin" % what, rows, [lambda r: b.of(r) is True], lambda r: r.end == "iter" and typed(r) in ([], ["Builtin"]), "a type which is built in is one")
    ck.must("%s/asked" % what, rows, [], lambda r: b.of(r) is not None and (b.of(r) or k.of(r) is not None), "it is asked whether the type is built in or known")
    ck.must("%s/unknown" % what, rows, [lambda r: b.of(r) is False and k.of(r) is False], lambda r: r.end == "throw", "an unknown type of a %s is an error" % what)
    for n in kinds:
        those = [r for r in rows if b.of(r) is not True and k.of(r) is True and which(r) == [n]]
        ck.ob("%s/%s/known" % (what, n), bool(those), where(f), "the type of a %s may be of kind %s" % (what, n))
        ck.must("%s/%s" % (what, n), those, [], lambda r: r.end == "iter" and typed(r) == [n], "a %s of kind %s is taken as one" % (what, n))
    rest = [r for r in rows if b.of(r) is False and k.of(r) is True and not set(which(r)) & set(kinds)]
    ck.ob("%s/kind/asked" % what, bool(rest), where(f), "the kind of the type is asked")
    ck.must("%s/kind" % what, rest, [], lambda r: r.end == "throw", "a type of any other kind is an error of the %s" % what)
    return rows


def whole(ck, tu, validate, visit):
    """every definition is visited once, then everything is checked"""
    callers = [c for c in tu.functions if not c.get("dep") and (c.get("cls") or "") + "::" == L and c.get("body") is not None and validate["id"] in callees(c)]
    ck.need(len(callers) == 1, "the function that checks the whole document")
    f = callers[0]
    hide = {validate["nq"], visit["nq"]}
    names, root = {}, lambda r: r[0] == "f" and r[2] == "children" and r[1][0] == "f" and r[1][2] == "root"

    def isa(t):
        if t[0] == "is_type" and t[1][0] == "elem" and root(t[1][1]):
            names.setdefault(t[2], lambda t, k=t[2]: t[0] == "is_type" and t[1][0] == "elem" and root(t[1][1]) and t[2] == k)
        return False
    ck.table(tu, f, Decision({"-": isa}, {}, opaque=hide))
    ev = {"visit": lambda c: c.nq == visit["nq"] and c.args and c.args[0][0] == "elem" and root(c.args[0][1]), "validate": lambda c: c.nq == validate["nq"]}
    keep = lambda c: c.nq.split("::")[-1] in ("push_back", "emplace_back", "push", "emplace", "insert") and any(x[0] == "elem" and root(x[1]) for a in c.args for x in subterms(a))
    d = Decision(dict(names), dict(ev, kept=keep), unit=lambda c, r, n: root(r), opaque=hide)
    rows = [r for r in ck.table(tu, f, d, partial=True) if r.loop]
    loops = {}
    for r in rows:
        loops.setdefault(r.loop, []).append(r)
    ck.must("all/rest", rows, [], lambda r: r.end == "iter", "no definition keeps those after it from being visited")
    ck.ob("all/parts", not d.parts, where(f), "all definitions are visited")
    for k in list(names) + [None]:
        fits = lambda r: not any(r.has(o) for o in names if o != k) and not (k and r.has(k, False))
        least = most = 0
        for rs in loops.values():
            v = {r.count("visit") for r in rs if fits(r)} or {0}
            least, most = least + min(v), most + (1 if any(r.did("kept") for r in rs if fits(r)) else max(v))
        ck.ob("all/visited/%s" % (k or "other"), least <= 1 <= most, where(f), "a definition of any kind is visited once")
    rows = ck.table(tu, f, Decision({}, ev, opaque=hide))
    ck.must("all/validated", [r for r in rows if r.end != "throw"], [], lambda r: r.count("validate") == 1 and r.events[-1] == "validate", "a document is used only after everything was checked")


def run(ck):
    tu = ck.load(SRC)
    builtin, types = member(ck, tu, "getBuiltinTypes"), member(ck, tu, "getSchemaType")
    M = {n: member(ck, tu, "get" + n) for n in ("InputTypes", "InterfaceTypes", "ObjectTypes", "UnionTypes", "Directives", "OperationTypes", "ObjectIndex", "InterfaceIndex")}
    own = [g for g in tu.functions if not g.get("dep") and (g.get("cls") or "") + "::" == L and g.get("body") is not None and g["p"]]
    first = lambda g, t: ("vector<graphql::generator::" + t in g["p"][0]["t"] or t + "List" in g["p"][0]["t"]) and not g["p"][0]["t"].startswith("const")
    inputs, outputs = [g for g in own if first(g, "InputField")], [g for g in own if first(g, "OutputField")]
    ck.need(len(inputs) == 1 and len(outputs) == 1, "the functions that check lists of fields")
    INS, OUTS = {inputs[0]["nq"]}, {outputs[0]["nq"]}
    field_list(ck, tu, inputs[0], "argument", INPUTS, builtin, types, set(), set())
    rows = field_list(ck, tu, outputs[0], "field", OUTPUTS, builtin, types, INS, set())
    ck.must("field/arguments", [r for r in rows if r.loop], [], lambda r: r.count("arguments") == 1, "the arguments of every field are checked")
    # --- the whole document
    f = tu.one(L + "validateSchema")
    other = {g["nq"] for g in tu.functions if (g.get("cls") or "") + "::" == L and not g["p"] and g["nq"] != f["nq"] and any(x in g["nq"].split("::")[-1] for x in ("reorder",))}
    hide = INS | OUTS | other

    def each(rng, at=None, ev=None):
        d = Decision(at or {}, ev or {}, unit=lambda c, r, node: r == rng, opaque=hide)
        rows = ck.table(tu, f, d, partial=True)
        return [r for r in rows if r.loop or r.end == "throw"], d

    for n, member_, fs, what in (("InputTypes", "fields", INS, "fields of every input type"), ("Directives", "arguments", INS, "arguments of every directive"),
                                 ("InterfaceTypes", "fields", OUTS, "fields of every interface"), ("ObjectTypes", "fields", OUTS, "fields of every object type")):
        rng = M[n]
        done = lambda c: c.nq in fs and c.args and c.args[0] == ("f", ("elem", rng), member_)
        rows, d = each(rng, {}, {"checked": done})
        loops = {}
        for r in rows:
            if r.loop:
                loops.setdefault(r.loop, []).append(r)
        good = [l for l, rs in loops.items() if all(r.count("checked") == 1 and r.end == "iter" for r in rs)]
        ck.ob("all/" + n, bool(good) and not d.parts, where(f), "the %s are checked" % what)
    # names of built in types
    b = Asked("builtin", builtin, lambda t: t == ("f", ("elem", types), "first"))
    rows, d = each(types, b.atoms())
    ck.ob("builtin/all", any(r.loop for r in rows) and not d.parts, where(f), "every type is compared with those built in")
    ck.must("builtin/asked", rows, [], lambda r: b.of(r) is not None, "it is asked whether a type of the document is built in")
    ck.must("builtin/overridden", rows, [], lambda r: r.end == ("throw" if b.of(r) is True else "iter"), "a type with the name of a built in one is an error, no other")
    # interfaces of objects, members of unions, root operations
    for key, owner, rng, container, text in (
            ("interface", M["ObjectTypes"], ("f", ("elem", M["ObjectTypes"]), "interfaces"), M["InterfaceIndex"], "an interface a type implements"),
            ("union", M["UnionTypes"], ("f", ("elem", M["UnionTypes"]), "options"), M["ObjectIndex"], "a member of a union"),
            ("operation", None, M["OperationTypes"], M["ObjectIndex"], "the type of a root operation")):
        e = ("elem", rng)
        a = Asked("known", container, (lambda t: t == ("f", e, "type")) if owner is None else (lambda t: t == e))
        rows, d = each(rng, a.atoms())
        at = {}
        for r in rows:
            if r.loop:
                at.setdefault(r.loop, []).append(r)
        # a loop that asks for it and does not go on with an unknown one
        strict = [l for l, rs in at.items() if all(a.of(r) is True and r.end == "iter" for r in rs)]
        ck.ob(key + "/unknown", bool(strict) and not d.parts, where(f), "%s which is not defined is an error" % text)
        ck.must(key + "/refused", [r for r in rows if r.end == "throw"], [], lambda r: a.of(r) is False, "%s is refused only if it is not defined" % text)
        ck.ob(key + "/checked", any(r.end == "throw" for r in rows), where(f), "it is an error if %s is not defined" % text)
    # definitions which are none
    g = tu.one(L + "visitDefinition")
    node = parameter(g)
    kinds = set()

    def isa(t):
        if t[0] == "is_type" and t[1] == node:
            kinds.add(t[2])
        return False
    visit = lambda c: c.nq.startswith(L) and c.args and c.args[0] == node
    ck.table(tu, g, Decision({"-": isa}, {"visit": visit}))
    at = {k: (lambda k: lambda t: t[0] == "is_type" and t[1] == node and t[2] == k)(k) for k in kinds}
    rows = ck.table(tu, g, Decision(at, {"visit": visit}, opaque={x["nq"] for x in own if x is not g}))
    ck.must("definition/known", rows, [lambda r: any(r.has(k) for k in kinds)], lambda r: r.count("visit") == 1 and r.end == "ret", "a definition is visited")
    ck.must("definition/none", rows, [lambda r: not any(r.has(k) for k in kinds)], lambda r: r.end == "throw" and not r.did("visit"), "anything else is an error")
    whole(ck, tu, f, g)
    # a service has a query type
    ops, intro, objects = M["OperationTypes"], member(ck, tu, "isIntrospection"), M["ObjectIndex"]
    isquery = lambda t: t[0] == "eq" and ("f", ("elem", ops), "operation") in t[1:] and any(x[0] == "g" and x[1].split("::")[-1] == "strQuery" or x == ("c", "query") for x in t[1:])
    default = Asked("default", objects, lambda t: t == ("c", "Query"))

    class Q(Decision):
        def on_write(self, ctx, st, l, r, op, node):
            if l[0] == "v" and r == ("c", True) and any(v and isquery(a) for a, v in st.facts.items()) and "query" not in st.ts[2]:
                st = self.add(st, "query", ctx, node)
            return super().on_write(ctx, st, l, r, op, node)
    at = {"introspection": lambda t: t == intro, "none": lambda t: t == ("empty", ops), "query": isquery}
    at.update(default.atoms())
    rows = ck.table(tu, f, Q(at, {}, opaque=hide | {L + "getSafeCppName"}))
    served = [r for r in rows if r.end == "ret" and r.has("introspection", False)]
    ck.ob("query/asked", bool(served), where(f), "a service is told apart from the introspection schema")
    ck.must("query/named", [r for r in served if r.has("none", False)], [], lambda r: r.did("query") or r.has("query"), "a schema which names its root operations names the query type")
    ck.must("query/default", [r for r in served if r.has("none")], [], lambda r: default.of(r) is True, "a schema which does not name its root operations has a type Query")
    ck.must("query/either", served, [], lambda r: r.seen("none"), "it is asked whether root operations are named")
    ck.must("query/introspection", [r for r in rows if r.has("introspection") and r.has("none", False)], [], lambda r: r.end == "throw", "the introspection schema has no root operations")
    # null is no default of what is not nullable
    h = tu.one(L + "getInputFields")
    R = parameter(h)
    fld = lambda t, n: t[0] == "f" and t[2] == n and t[1][0] == "v"
    mods = lambda t: fld(t, "modifiers") or t[0] == "f" and t[2] == "second" and any(x[0] == "call" and x[1].endswith("::getType") for x in subterms(t))
    at = {"ungiven": lambda t: t[0] == "empty" and fld(t[1], "defaultValueString"),
          "null": lambda t: t[0] == "eq" and any(x[0] == "enum" and x[1].endswith("Type::Null") for x in t[1:]) and any(x[0] == "call" and x[1].endswith("Value::type") for x in t[1:]),
          "bare": lambda t: t[0] == "empty" and mods(t[1]),
          "nullable": lambda t: t[0] == "eq" and any(x[0] == "enum" and x[1].endswith("TypeModifier::Nullable") for x in t[1:]) and any((x[0] == "call" and x[1].split("::")[-1] in ("front", "at", "operator[]") or x[0] == "idx") and any(mods(y) for y in subterms(x)) for x in t[1:])}
    d = Decision(at, {}, unit=lambda c, r, n: r == R, opaque={L + "getSafeCppName", "graphql::generator::TypeVisitor::visit", "graphql::generator::DefaultValueVisitor::visit"})
    rows = [r for r in ck.table(tu, h, d, partial=True) if r.loop or r.end == "throw"]
    wrong = lambda r: r.has("null") and not r.has("ungiven") and (r.has("bare") or r.has("nullable", False))
    ck.ob("default/asked", any(wrong(r) for r in rows) and any(r.has("nullable") for r in rows) and any(r.has("bare") for r in rows), where(h), "the default of an input value is compared with its type")
    ck.must("default/null", rows, [wrong], lambda r: r.end == "throw", "null is no default of a type which is not nullable")
    ck.must("default/else", rows, [lambda r: r.has("nullable") or r.has("ungiven") or r.has("null", False)], lambda r: r.end == "iter", "null is the default of a nullable type, any other value of any")
    ck.must("default/seen", rows, [lambda r: not r.has("ungiven") and not r.has("nullable")], lambda r: r.seen("null"), "every default is looked at")
