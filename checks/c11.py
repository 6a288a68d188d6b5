"""Arguments and variables: a value is what the document says, a variable is what the request or its default value says."""
from xcommon import *
from c05 import glob

KINDS = ("variable_value", "integer_value", "float_value", "string_value", "true_keyword", "false_keyword", "null_keyword", "enum_value", "list_value", "object_value")
CONV = {"integer_value": ("atoi", "atol", "atoll", "stoi", "stol", "stoll", "strtol", "strtoll", "from_chars"), "float_value": ("atof", "stod", "stof", "strtod", "from_chars")}


def kinds_of(r):
    return [k for k in KINDS if r.has(k, True)]


def text(t, node):
    """the text of the node"""
    return any(x[0] == "call" and x[1].split("::")[-1] in ("string", "string_view") and x[3] is not None and node(x[3]) for x in subterms(t))


def run(ck):
    tu = ck.load(XSRC)
    f = tu.one(VV + "visit")
    p0 = f["p"][0]["d"]
    node = lambda t: t[0] == "v" and t[-1] == p0
    inner = lambda t: any(term_call(x, VV + "getValue") or x[0] == "f" and x[2] == "_value" and x[1][0] != "this" for x in subterms(t))

    dest = lambda t: fieldname(t) == "_value" or (t[0] == "new" and t[1].endswith("response::Value") or t[0] == "v")      # the value, or what becomes the value

    class L(Decision):
        """what becomes of the value"""
        def on_write(self, ctx, st, l, r, op, n):
            if fieldname(l) == "_value" and l[1][0] == "this" and r is not None:
                return self.add(st, "=" + self.kind(r), ctx, n)
            return st

        def kind(self, r):
            r = unwrap(r)
            if len(r) != 1:
                return "?"
            r = r[0]
            if r[0] == "new" and r[1].endswith("response::Value"):
                a = r[2]
                if not a:
                    return "null"
                if len(a) > 1:
                    return "?"
                r = a[0]
                if r[0] == "enum":
                    return {"Null": "null"}.get(r[1].split("::")[-1], "type:" + r[1].split("::")[-1])
            if r[0] == "f" and r[2] == "second" and r[1][0] == "call" and r[1][1].endswith("::find") and fieldname(r[1][3]) == "_variables":
                k = r[1][4][0]
                return "variable" if any(x[0] == "call" and x[1].endswith("::substr") and x[4] and x[4][0] == ("c", 1) for x in subterms(k)) and text(k, node) else "?"
            for k, names in CONV.items():
                if any(x[0] == "call" and x[1].split("::")[-1] in names and any(text(y, node) for y in x[4]) for x in subterms(r)):
                    return k
            if any(x[0] == "call" and x[1].endswith("::unescaped_view") and node(x[3]) for x in subterms(r)):
                return "string_value"
            if r[0] == "is_type" and node(r[1]):
                return "bool:" + r[2]
            if r[0] == "c" and isinstance(r[1], bool):
                return "bool:" + str(r[1])
            return "?"

        def on_call(self, ctx, st, c):
            if c.name == "set" and dest(c.obj) and len(c.args) == 1:
                return ("opaque", self.add(st, "set:" + ("text" if text(c.args[0], node) else "?"), ctx, c.node))
            if c.name == "emplace_back" and dest(c.obj):
                ok = inner(c.args[-1])
                named = len(c.args) == 2 and any(x[0] == "elem" for x in subterms(c.args[0])) and any(x[0] == "call" and x[1].endswith("::front") or x[0] == "idx" or x[0] == "elem" and len(x) == 3 and x[2] == "argument_name" for x in subterms(c.args[0]))
                return ("opaque", self.add(st, ("add:item" if len(c.args) == 1 else "add:field" if named else "add:?") if ok else "add:?", ctx, c.node))
            return super().on_call(ctx, st, c)
    at = {k: (lambda k: lambda t: t[0] == "is_type" and node(t[1]) and t[2] == k)(k) for k in KINDS}
    at["known"] = lambda t: t[0] == "found" and fieldname(t[1]) == "_variables"
    ev = {"eval": lambda c: c.nq == VV + "visit" and any(x[0] == "elem" for x in subterms(c.args[0]))}
    d = L(at, ev, loops={"children": lambda r: r[0] == "f" and r[2] == "children" and node(r[1])}, opaque=())
    rows = ck.table(tu, f, d)
    ck.need(all(any(r.has(k, True) for r in rows) for k in KINDS), "the kinds of values")
    sets = lambda r: [e for e in r.events if e[0] == "=" or e.startswith("set:")]
    for k in ("integer_value", "float_value", "string_value"):
        ck.must("literal/" + k, rows, [(k, True), lambda r: r.end == "ret"], lambda r: sets(r)[-1:] == ["=" + k], "a literal becomes the value it is written as")
    ck.must("literal/null", rows, [("null_keyword", True)], lambda r: sets(r)[-1:] == ["=null"], "null becomes null")
    for k, o in (("true_keyword", "True"), ("false_keyword", "False")):
        other = {"bool:true_keyword": k == "true_keyword", "bool:" + o: True}
        ck.must("literal/" + k, rows, [(k, True), lambda r: not r.has("true_keyword" if k == "false_keyword" else "false_keyword", True)],
                lambda r: bool(sets(r)) and other.get(sets(r)[-1][1:], False) or sets(r)[-1:] == ["=bool:true_keyword"] or sets(r)[-1:] == ["=bool:" + o], "true and false become the Boolean values")
    ck.must("literal/enum", rows, [("enum_value", True)], lambda r: sorted(sets(r)) == ["=type:EnumValue", "set:text"], "an enum literal becomes an enum value of its name")
    ck.must("literal/list", rows, [("list_value", True)], lambda r: sets(r)[:1] == ["=type:List"] and len(sets(r)) == 1 and r.did("loop:children"), "a list literal becomes a list")
    ck.must("literal/object", rows, [("object_value", True)], lambda r: sets(r)[:1] == ["=type:Map"] and len(sets(r)) == 1 and r.did("loop:children"), "an object literal becomes a map")
    ck.must("variable/value", rows, [("variable_value", True), ("known", True)], lambda r: sets(r) == ["=variable"], "a variable becomes its value")
    ck.must("variable/unknown", rows, [("variable_value", True), ("known", False)], lambda r: r.end == "throw" and not sets(r), "an unknown variable is an error")
    for q, add, kind in (("visitListValue", "add:item", "list"), ("visitObjectValue", "add:field", "object")):
        k = kind + "_value"
        rows = [r for r in ck.table(tu, f, L(at, ev, unit=lambda ctx, rng, n: rng[0] == "f" and rng[2] == "children" and node(rng[1]))) if r.loop]
        rows = [r for r in rows if any(e.startswith("add:") for e in r.events) and (r.has(k, True) or not kinds_of(r))]
        mine = [r for r in rows if r.has(k, True)] or [r for r in rows if r.did(add)]
        ck.need(mine, "the elements of a " + kind)
        ck.must("elements/" + kind, mine, [], lambda r: r.events.count(add) == 1 and r.index("eval") < r.index(add) and r.count("eval") == 1 and not r.did("add:?") and r.end in ("iter", "continue"),
                "every element of a %s becomes one element of the value" % kind)
    # what is evaluated
    f2 = [g for g in tu.functions if g["nq"].startswith(VV)]
    # --- the variables of an operation
    for what, q in (("operation", OD + "visit"), ("subscription", SD + "visit")):
        f = tu.one(q)
        reqs = lambda t: fieldname(t) == "variables" and t[0] == "f"
        var = lambda t: any(x[0] == "elem" and x[2:] == ("variable_name",) and any(y[0] == "elem" and y[2:] == ("variable",) for y in subterms(x[1])) for x in subterms(t))
        stripped = lambda t: any(x[0] == "call" and x[1].endswith("::substr") and x[4][0] == ("c", 1) for x in subterms(t))
        opname = f["p"][-1]["d"]

        class V(Decision):
            def on_call(self, ctx, st, c):
                if c.name == "emplace_back" and len(c.args) == 2 and var(c.args[0]):
                    v = c.args[1]
                    kinds = set()
                    for x in unwrap(v):
                        if x[0] == "new" and x[1].endswith("response::Value") and len(x[2]) == 1:
                            x = x[2][0]
                        if x[0] == "f" and x[2] == "second" and any(y[0] == "call" and y[1].endswith("::find") and reqs(y[3]) and var(y[4][0]) and stripped(y[4][0]) for y in subterms(x)):
                            kinds.add("given")
                        elif value_of_visitor(x):
                            kinds.add("default")
                        elif x[0] == "new" and not x[2]:
                            kinds.add("null")
                        elif x[0] == "v":
                            kinds.add("null")
                        else:
                            kinds.add("?")
                    ok = stripped(c.args[0])
                    return ("opaque", self.add(st, "keep:%s%s" % ("|".join(sorted(kinds)), "" if ok else ":badname"), ctx, c.node))
                return super().on_call(ctx, st, c)
        d = V({"given": lambda t: t[0] == "found" and reqs(t[1]) and var(t[2]), "hasdefault": lambda t: t[0] == "is_type" and t[2] == "default_value"},
              {"eval": lambda c: c.nq == VV + "visit" and any(x[0] == "elem" and x[2:] == ("default_value",) for x in subterms(c.args[0]))},
              unit=lambda ctx, rng, n: rng[0] == "f" and rng[2] == "children" and rng[1][0] == "v" and rng[1][-1] == opname, opaque=(VV + "visit", DV + "visit", S + "Object::resolve", SD + "visitSelection"))
        rows = [r for r in ck.table(tu, f, d, partial=True) if r.loop]
        keep = lambda r: [e for e in r.events if e.startswith("keep:")]
        rows = [r for r in rows if keep(r) or r.seen("given")]
        ck.need(rows and any(r.has("given", False) for r in rows), "the variables of an " + what)
        ck.must("variables/%s/each" % what, rows, [], lambda r: len(keep(r)) == 1 and r.end in ("iter", "continue"), "every declared variable has one value")
        ck.must("variables/%s/given" % what, rows, [("given", True)], lambda r: keep(r) == ["keep:given"], "a variable has the value of the request")
        ck.must("variables/%s/default" % what, rows, [("given", False), ("hasdefault", True)], lambda r: r.did("eval") and len(keep(r)) == 1 and "keep:default" in keep(r)[0] and "given" not in keep(r)[0] and "?" not in keep(r)[0], "a variable without a value has its default value")
        ck.must("variables/%s/none" % what, rows, [("given", False), lambda r: not r.has("hasdefault", True)], lambda r: keep(r) == ["keep:null"], "a variable without any value is null")
        ck.must("variables/%s/asked" % what, rows, [], lambda r: r.seen("given"), "the values of the request come first")
        # they are what everything below sees
        own = []
        d = Decision({}, {"directives": lambda c: c.nq == DV + "visit", "use": lambda c: c.nq in (S + "Object::resolve", SD + "visitSelection") or c.name == "async"},
                     {"vars": lambda l, r, op: fieldname(l) == "variables" and r is not None and "Map" in str(short(r))}, opaque=(VV + "visit", DV + "visit", S + "Object::resolve", SD + "visitSelection"))
        rows = [r for r in ck.table(tu, f, d) if r.end == "ret"]
        ck.need(any(r.did("use") for r in rows), "the selections of an " + what)
        ck.must("variables/%s/before" % what, rows, [], lambda r: r.count("vars") == 1 and order(r, "vars", "directives") and order(r, "vars", "use"), "the declared variables, and only those, are what the selections and directives see")
    # --- the arguments of a field
    f = tu.one(SV + "visitField")
    d = Decision({}, {"eval": lambda c: c.nq == VV + "visit" and any(x[0] == "call" and x[1].endswith("::back") or x[0] == "idx" for x in subterms(c.args[0])) and any(x[0] == "elem" for x in subterms(c.args[0])),
                      "arg": lambda c: c.name == "emplace_back" and len(c.args) == 2 and value_of_visitor(c.args[1]) and any(x[0] == "call" and x[1].endswith("::front") or x[0] == "elem" and x[2:] == ("argument_name",) for x in subterms(c.args[0]))},
                 unit=lambda ctx, rng, n: mentions("arguments", "children")(rng), opaque=(VV + "visit", DV + "visit", DV + "shouldSkip", S + "buildErrorPath"))
    rows = [r for r in ck.table(tu, f, d) if r.loop]
    ck.need(rows, "the arguments of a field")
    ck.must("arguments/each", rows, [], lambda r: r.count("arg") == 1 and order(r, "eval", "arg") and r.count("eval") == 1, "every argument has its own value")
    got = []

    class P(Decision):
        def on_new(self, ctx, st, ctype, args, n):
            if ctype.endswith("service::ResolverParams") and len(args) >= 8:
                got.append((ctx.where(n), args))
            return super().on_new(ctx, st, ctype, args, n)

        def on_call(self, ctx, st, c):
            if c.name == "emplace_back" and len(c.args) == 2 and value_of_visitor(c.args[1]):
                dest.add(c.obj)
            return super().on_call(ctx, st, c)
    dest = set()
    P({}, {}, opaque=(VV + "visit", DV + "visit", DV + "shouldSkip", S + "buildErrorPath")).run(tu, f)
    ck.need(got and dest, "the parameters of a resolver")
    ck.ob("params/selection-used", any(y[0] == "elem" and y[2:] == ("selection_set",) for _, a in got for y in subterms(a[5])), got[0][0], "the resolver gets the selection set of a field which has one")
    for w, a in got:
        els = {x[2] for x in subterms(a[2]) if x[0] == "elem" and len(x) == 3}
        ck.ob("params/name", not els - {"alias_name", "field_name"} and els, w, "the resolver gets the response name of the field")
        ck.ob("params/field", a[1][0] == "v" and a[1][-1] == f["p"][0]["d"], w, "the resolver gets the node of the field")
        ck.ob("params/arguments", any(x in dest for x in unwrap(a[3])) or any(x in dest for x in subterms(a[3])), w, "the resolver gets the arguments of the field")
        ck.ob("params/directives", mentions("_directives")(a[4]), w, "the resolver gets the directives of the field")
        ck.ob("params/selection", all(x == ("c", None) or any(y[0] == "elem" and y[2:] == ("selection_set",) for y in subterms(x)) or x[0] == "v" for x in unwrap(a[5])), w, "the resolver gets the selection set of the field")
        ck.ob("params/fragments", fieldname(a[6]) == "_fragments", w, "the resolver gets the fragments of the document")
        ck.ob("params/variables", fieldname(a[7]) == "_variables", w, "the resolver gets the variables of the operation")
    for rec, ctor in (("ResolverParams", S + "ResolverParams::ResolverParams"),):
        for g in tu.find(ctor):
            if len(g["p"]) < 8:
                continue
            pn = {p["n"]: p["d"] for p in g["p"]}
            for i in g["inits"] or []:
                m = i.get("m") or i.get("n")
                if m in pn:
                    ds = set()
                    from facts import _walk
                    _walk(i, lambda x: ds.add(x.get("d")) if x.get("k") == "ref" else None)
                    ck.ob("kept/" + m, pn[m] in ds, where(g), "the parameters of a resolver are kept as given")
