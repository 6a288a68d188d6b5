"""The client library: what a response of a service says ends up in the ServiceResponse, and the variables and results of a request are
converted between the types of C++ and the response values, modifier by modifier."""
from xcommon import *
from facts import AnalysisBroken
import os

CSRC = "src/GraphQLClient.cpp"
CPROBE = os.path.join(VERIF, "probe", "client.cpp")
CBOOL = os.path.join(VERIF, "probe", "booleans.cpp")
C = "graphql::client::"
RT = "graphql::response::Type::"
RV_ = "graphql::response::Value"
INT, STRT = ("int",), ("string", "basic_string")
# the type of the service -> (kinds of response values it takes, what identifies the C++ type)
SCALARS = {"Int": ({"Int"}, lambda t: t == "int"), "Float": ({"Int", "Float"}, lambda t: t == "double"), "String": ({"String"}, lambda t: t.startswith("std::basic_string<")),
           "Boolean": ({"Boolean"}, lambda t: t == "bool"), "ID": ({"String"}, lambda t: t.startswith("std::vector<unsigned char")), "Value": (None, lambda t: t == RV_)}
KINDS = ("Map", "List", "String", "Boolean", "Int", "Float", "EnumValue", "Scalar", "Null", "ID")


def place(t, root):
    """the place in the response a term is: '' the response, '*' its members, '*v' the value of a member, '*v[]' an element, ..."""
    if t[0] == "v":
        return "" if t[1] == root else None
    if t[0] == "elem":
        r = t[1]
        if r[0] == "call" and r[1].startswith(RV_ + "::") and r[1].split("::")[-1] in ("get", "release") and r[3] is not None:
            p = place(r[3], root)
            return None if p is None else p + ("*" if "std::pair<" in str(r[2]) else "[]")
        return None
    if t[0] == "f" and t[2] == "second":
        p = place(t[1], root)
        return p + "v" if p is not None and p.endswith("*") else None
    if t[0] == "call" and t[1].startswith(RV_ + "::") and t[1].split("::")[-1] in ("get", "release") and "graphql::response" not in str(t[2]) and t[3] is not None:
        p = place(t[3], root)
        return None if p is None else p + "=" + ("string" if "basic_string" in str(t[2]) else t[2][0] if t[2] else "?")
    if t[0] == "new" and len(t[2]) == 1 or t[0] == "call" and t[1].startswith("static_cast"):
        return place((t[2] if t[0] == "new" else t[4])[0], root)
    return None


def run(ck):
    tu, tt = ck.load(CSRC, CPROBE)
    try:
        tb = ck.load(CBOOL)
        ck.ob("compiles/list of booleans", True)
    except AnalysisBroken as x:
        tb = None
        ck.ob("compiles/list of booleans", False, "include/graphqlservice/GraphQLClient.h", "lists of every type can be variables and results; lists of booleans do not compile: " + str(x)[-300:])
    f = tu.one(C + "parseServiceResponse")
    root = f["p"][0]["n"]
    PL = lambda t: place(t, root)

    def isty(path, kind):
        return lambda t: t[0] == "eq" and ("enum", RT + kind) in t and any(x[0] == "call" and x[1] == RV_ + "::type" and PL(x[3]) == path for x in t[1:])

    def key(path, name):
        return lambda t: t[0] == "eq" and ("c", name) in t and any(x[0] == "f" and x[2] == "first" and PL(x[1]) == path for x in t[1:])
    paths = {"response": "*", "error": "*v[]*", "location": "*v[]*v[]*"}
    keys = {"response": ("data", "errors"), "error": ("message", "locations", "path"), "location": ("line", "column")}
    atoms = {"map": isty("", "Map"), "error-map": isty("*v[]", "Map"), "location-map": isty("*v[]*v[]", "Map")}
    for lv, ks in keys.items():
        for k in ks:
            atoms["%s=%s" % (lv, k)] = key(paths[lv], k)
    for what, p, ts in (("errors", "*v", ("List",)), ("message", "*v[]*v", ("String", "List")), ("line", "*v[]*v[]*v", ("Int",)), ("segment", "*v[]*v[]", ("Int", "String"))):
        for k in ts:
            atoms["%s is %s" % (what, k)] = isty(p, k)
    pick = lambda *names: {n: p for n, p in atoms.items() if any(n == x or n.startswith(x) and x.endswith(("=", "is ")) for x in names)}
    AT = {"*": pick("map", "response=", "errors is "), "*v[]": pick("response=", "errors is ", "error-map"), "*v[]*": pick("error-map", "error=", "message is "),
          "*v[]*v[]": pick("error=", "message is List", "location-map", "segment is "), "*v[]*v[]*": pick("error=locations", "location=", "line is ")}
    listed = {"errors": "errors", "locations": "locations", "path": "path"}

    EV = {"*": ("data",), "*v[]": ("errors",), "*v[]*": ("message",), "*v[]*v[]": ("locations", "path", "errors"), "*v[]*v[]*": ("line", "column")}

    class D(Decision):
        watch = ()

        def on_write(self, ctx, st, l, r, op, node):
            n = fieldname(l)
            if n not in self.watch:
                pass
            elif n in ("data", "message", "line", "column") and op == "=":
                st = self.add(st, "%s<-%s" % (n, "|".join(sorted({str(PL(x)) for x in unwrap(r)}))), ctx, node)
            elif n in listed:
                st = self.add(st, "%s:overwritten" % n, ctx, node)
            return super().on_write(ctx, st, l, r, op, node)

        def on_call(self, ctx, st, c):
            n = fieldname(c.obj) if c.obj is not None else None
            if n in listed and n in self.watch and c.name in ("push_back", "emplace_back", "insert", "emplace", "push_front", "clear", "pop_back", "resize", "erase", "swap", "assign"):
                good = c.name in ("push_back", "emplace_back")
                what = ""
                if good and n == "path":
                    what = "<-" + "|".join(sorted({str(PL(x)) for x in unwrap(c.args[0])} - {"None"})) if c.args else "<-nothing"
                return ("opaque", self.add(st, n + what if good else "%s:%s" % (n, c.name), ctx, c.node))
            return super().on_call(ctx, st, c)
    def at(path, **kw):
        d = D(AT[path], {}, unit=lambda ctx, rng, node: PL(("elem", rng)) == path, **kw)
        d.watch = EV[path]
        return d
    ends = lambda p: (lambda ctx, rng, node: PL(("elem", rng)) == p)
    # what a row knows about the loops around it
    inside = lambda lv, k: "%s=%s" % (lv, k)
    others = lambda lv, k: [inside(lv, x) for x in keys[lv] if x != k]
    d = at("*", loops={"every-error": lambda rng: PL(("elem", rng)) == "*v[]"})
    rows = ck.table(tu, f, d)
    units = [r for r in rows if r.loop]
    ck.need(units, "the members of a response")
    data = lambda r: [e for e in r.events if e.startswith("data<-")]
    ck.must("response/data", units, [(inside("response", "data"), True)], lambda r: data(r) == ["data<-*v"], "the data of the response is the data of the result")
    ck.never("response/data-only", units, [lambda r: not r.has(inside("response", "data"))], lambda r: bool(data(r)), "only the data entry is the data of the result")
    # --- the errors, their members and the lists in them: one unit each
    for what, path, lv, k in (("errors", "*v[]", "response", "errors"), ("locations", "*v[]*v[]", "error", "locations"), ("path", "*v[]*v[]", "error", "path")):
        d = at(path)
        rows = ck.table(tu, f, d)
        mine = [r for r in rows if r.loop and r.has(inside(lv, k))]
        if not mine:
            ck.ob("list/%s/asked" % what, False, where(f), "the entry %s is looked at" % k)
            continue
        ev = lambda r: [e for e in r.events if e.split("<-")[0].split(":")[0] in listed and (e.startswith(what))]
        ck.must("list/%s/appended" % what, mine, [], lambda r: len(ev(r)) == 1 and ":" not in ev(r)[0] and r.events[-1] == ev(r)[0], "every element of %s is appended once, in order" % what)
        ck.must("list/%s/entry" % what, mine, [], lambda r: not any(r.has(o) for o in others(lv, k)), "%s is read from the entry of that name" % what)
        for o in listed:
            if o != what and not (what == "errors" and o in ("locations", "path")):
                ck.never("list/%s/no-%s" % (what, o), mine, [], lambda r: any(e.split("<-")[0].split(":")[0] == o for e in r.events), "the elements of %s are not those of %s" % (what, o))
        if what == "path":
            for kind, acc in (("Int", "*v[]*v[]=int"), ("String", "*v[]*v[]=string")):
                ck.ob("list/path/%s-asked" % kind, any(r.has("segment is " + kind) for r in mine), where(f), "path segments which are %ss are told apart" % kind)
                ck.must("list/path/" + kind, mine, [("segment is " + kind, True)], lambda r: ev(r) == ["path<-" + acc], "a path segment that is a %s is kept as one" % kind)
    for lv, unit, fields in (("error", "*v[]*", {"message": ("String", "*v[]*v=string", "message is String")}),
                             ("location", "*v[]*v[]*", {"line": ("Int", "*v[]*v[]*v=int", "line is Int"), "column": ("Int", "*v[]*v[]*v=int", "line is Int")})):
        d = at(unit)
        rows = [r for r in ck.table(tu, f, d) if r.loop]
        ck.need(rows, "the members of an " + lv)
        for n, (kind, acc, atom) in fields.items():
            sets = lambda r: [e for e in r.events if e.startswith(n + "<-")]
            ck.ob("%s/%s-asked" % (lv, n), any(r.has(inside(lv, n)) and r.has(atom) for r in rows), where(f), "the entry %s of an %s is looked at, if it is of type %s" % (n, lv, kind))
            ck.must("%s/%s" % (lv, n), rows, [(inside(lv, n), True), (atom, True)], lambda r: sets(r) == [n + "<-" + acc], "the %s of an %s is the entry of that name" % (n, lv))
            ck.never("%s/%s-only" % (lv, n), rows, [lambda r: not (r.has(inside(lv, n)) and r.has(atom))], lambda r: bool(sets(r)), "the %s of an %s is only read from the entry of that name, if it has the right type" % (n, lv))
    # --- nothing is skipped for other reasons than the names and types above
    d = D(pick("map"), {}, loops={"m1": lambda rng: PL(("elem", rng)) == "*"})
    rows = ck.table(tu, f, d, partial=True)
    ck.must("response/read", rows, [("map", True)], lambda r: any("m1" in e for e in r.events), "the members of the response are read")
    for lv, unit, loop, atom in (("error", "*v[]", "m2", "error-map"), ("location", "*v[]*v[]", "m3", "location-map")):
        d = at(unit, loops={loop: lambda rng, loop=loop: PL(("elem", rng)) == paths[lv]})
        rows = [r for r in ck.table(tu, f, d, partial=True) if r.loop and (lv != "location" or r.has(inside("error", "locations")))]
        ck.must("%s/read" % lv, rows, [(atom, True)], lambda r: any(loop in e for e in r.events), "the members of every %s are read" % lv)
    d = at("*", loops={"list": lambda rng: PL(("elem", rng)) == "*v[]"})
    rows = [r for r in ck.table(tu, f, d, partial=True) if r.loop]
    ck.must("errors/read", rows, [(inside("response", "errors"), True), ("errors is List", True)], lambda r: any("list" in e for e in r.events), "the errors of the response are read")
    ck.never("errors/other", rows, [lambda r: r.did("loop:list")], lambda r: not (r.has(inside("response", "errors")) and r.has("errors is List")), "errors are only read from the entry of that name, if it is a list")
    d = at("*v[]*", loops={"list": lambda rng: PL(("elem", rng)) == "*v[]*v[]"})
    rows = [r for r in ck.table(tu, f, d, partial=True) if r.loop]
    for k in ("locations", "path"):
        ck.must("%s/read" % k, rows, [(inside("error", k), True), ("message is List", True)], lambda r: any("list" in e for e in r.events), "the %s of an error are read" % k)
    ck.never("lists/other", rows, [lambda r: r.did("loop:list")], lambda r: not (r.has("message is List") and (r.has(inside("error", "locations")) or r.has(inside("error", "path")))), "locations and paths are only read from lists")
    # --- the builtin types
    cls = lambda g: (g.get("cls") or g["q"].rsplit("::", 1)[0]).split("<", 1)[-1].rsplit(">", 1)[0]
    for g in tu.find(C + "ModifiedVariable::serialize") + tu.find(C + "ModifiedResponse::parse"):
        if g.get("dep") or g.get("ta"):
            continue
        name = [n for n, (_, p) in SCALARS.items() if p(cls(g))]
        ck.need(len(name) == 1, "the type " + cls(g))
        name = name[0]
        kinds = SCALARS[name][0]
        p = g["p"][0]["n"]
        if g["n"] == "serialize":
            rows = ck.table(tu, g, Decision({}, {}, value=True))
            same = lambda t: t[0] == "v" and t[1] == p or t[0] == "new" and len(t[2]) == 1 and same(t[2][0])
            ck.must("serialize/" + name, rows, [], lambda r: r.end == "ret" and r.value is not None and same(r.value) and (name == "Value" or any(x[0] == "new" for x in subterms(r.value))), "a variable of type %s is its value" % name)
            continue
        ats = {k: (lambda t, k=k: t[0] == "eq" and ("enum", RT + k) in t and any(x[0] == "call" and x[1] == RV_ + "::type" and x[3][0] == "v" and x[3][1] == p for x in t[1:])) for k in KINDS}
        got = lambda t: t[0] == "v" and t[1] == p or t[0] == "new" and len(t[2]) == 1 and got(t[2][0]) or \
            t[0] == "call" and t[1] in (RV_ + "::get", RV_ + "::release") and t[3][0] == "v" and t[3][1] == p and len(t[2]) == 1 and SCALARS[name][1](t[2][0])
        d = Decision(ats, {}, value=True)
        every = ck.table(tu, g, d, partial=True)
        for k in KINDS:
            rows = [r for r in every if not any(r.has(x, x != k) for x in KINDS)]
            ck.need(rows, "the result of type %s of a %s" % (name, k))
            ck.must("parse/%s/%s" % (name, k), rows, [], lambda r: (r.end == "ret" and r.value is not None and got(r.value)) if kinds is None or k in kinds else r.end == "throw",
                    "a result of type %s is %s" % (name, "the value of the response" if kinds is None or k in kinds else "not read from a %s" % k))
    # --- the modifiers
    seen = set()
    tail = lambda ta: [x.split("::")[-1] for x in ta or ()]
    for fam, kind in (("ModifiedVariable::serialize", "serialize"), ("ModifiedResponse::parse", "parse")):
        for tx, g in [(x, g) for x in (tt, tb) if x is not None for g in x.find(C + fam)]:
            if g.get("dep") or not g.get("ta"):
                continue
            mods = tail(g["ta"])
            who = [n for n, (_, p) in SCALARS.items() if p(cls(g))][0]
            label = "%s/%s/%s" % (kind, "+".join(mods), who)
            p = g["p"][0]["n"]
            isp = lambda t: t[0] == "v" and t[1] == p
            seen.add((kind, mods[0]))
            below = (mods[1:] or ["None"])

            def rest(c):
                ta = tail((c.fn or {}).get("ta") or c.ta)
                return c.nq == C + fam and (ta == below if mods != ["None"] else not ta)

            class M(Decision):
                def on_call(self, ctx, st, c):
                    if c.nq == C + fam:
                        a = c.args[0] if c.args else None
                        ok = rest(c) and a is not None and (isp(a) or mods[0] == "List" and a[0] == "elem")
                        return ("opaque", self.add(st, "rest" if ok else "rest:other", ctx, c.node))
                    if c.name in ("push_back", "emplace_back"):
                        a = c.args[0] if c.args else ("c", None)
                        ok = all(x[0] == "call" and x[1] == C + fam or x[0] == "new" and len(x[2]) == 1 and x[2][0][0] == "call" and x[2][0][1] == C + fam for x in unwrap(a))
                        return ("opaque", self.add(st, "append" if ok else "append:other", ctx, c.node))
                    return super().on_call(ctx, st, c)
            sub = lambda t: t is not None and any(x[0] == "call" and x[1] == C + fam for x in subterms(t))
            opq = (C + fam,)
            if mods[0] == "None":
                rows = ck.table(tx, g, M({}, {}, value=True, opaque=opq))
                ck.must(label, rows, [], lambda r: r.events.count("rest") == 1 and r.end == "ret" and sub(r.value), "without modifiers the value is converted by its type")
            elif mods[0] == "Nullable":
                has = (lambda t: isp(t)) if kind == "serialize" else (lambda t: t[0] == "not" and isnull(t[1]))
                isnull = lambda t: t[0] == "eq" and ("enum", RT + "Null") in t and any(x[0] == "call" and x[1] == RV_ + "::type" and isp(x[3]) for x in t[1:])
                ats = {"some": has} if kind == "serialize" else {"null": isnull}
                rows = ck.table(tx, g, M(ats, {}, value=True, opaque=opq))
                yes, no = (("some", True), ("some", False)) if kind == "serialize" else (("null", False), ("null", True))
                ck.need(any(r.has(*yes) for r in rows) and any(r.has(*no) for r in rows), "the cases of " + label)
                ck.must(label + "/value", rows, [yes], lambda r: list(r.events) == ["rest"] and r.end == "ret" and all(sub(x) for x in unwrap(r.value)), "a value that is there is converted with the remaining modifiers")
                ck.must(label + "/null", rows, [no], lambda r: not r.events and r.end == "ret" and not sub(r.value), "a missing value is null")
            else:
                inner = lambda ctx, rng, node: isp(rng) or any(isp(x) for x in subterms(rng))
                ats = {} if kind == "serialize" else {"list": lambda t: t[0] == "eq" and ("enum", RT + "List") in t and any(x[0] == "call" and x[1] == RV_ + "::type" and isp(x[3]) for x in t[1:])}
                d = M(ats, {}, value=True, opaque=opq, unit=inner)
                rows = ck.table(tx, g, d)
                units = [r for r in rows if r.loop]
                ck.need(units, "the elements of " + label)
                ck.must(label + "/elements", units, [], lambda r: list(r.events) == ["rest", "append"], "every element is converted with the remaining modifiers and appended, in order")
                d = M(ats, {}, value=True, opaque=opq, loops={"each": lambda rng: inner(None, rng, None)})
                rows = ck.table(tx, g, d, partial=True)
                full = [r for r in rows if not r.loop and r.end == "ret"]
                ck.must(label + "/list", full, [] if kind == "serialize" else [("list", True)], lambda r: any("each" in e for e in r.events), "the elements of the list are converted")
                if kind == "serialize":
                    ck.must(label + "/kind", full, [], lambda r: r.value is not None and r.value[0] == "new" and ("enum", RT + "List") in r.value[2], "a list is a list, also if it has no elements")
    ck.need(seen == {(k, m) for k in ("serialize", "parse") for m in ("None", "Nullable", "List")}, "the modifiers")
