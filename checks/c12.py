"""Arguments arrive with the declared type: each kind is read only from what it accepts, null and absent are empty, lists keep every element."""
from xcommon import *

MA = S + "ModifiedArgument::"
GET = "graphql::response::Value::get"
KINDS = {"int": ("Int",), "double": ("Float", "Int"), "bool": ("Boolean",), "std::basic_string": ("String",), "std::vector<unsigned char": ("String",), "graphql::response::Value": None}
ALL = ("Map", "List", "String", "Null", "Boolean", "Int", "Float", "EnumValue", "Scalar")
TEXT = ("operator<<", "operator+", "operator+=", "append", "push_back", "insert", "str", "assign", "write")


def of_type(kind):
    return lambda t: t[0] == "eq" and any(x[0] == "enum" and x[1].endswith("Type::" + kind) for x in t[1:]) and any(term_call(x, "graphql::response::Value::type") and x[3] is not None and x[3][0] == "v" for x in t[1:])


def conversions(ck, tu):
    """the leaf types: from which kinds of values each one is read"""
    fs = [f for f in tu.find(MA + "convert") if not f.get("dep")]
    seen = set()
    for f in fs:
        cls = f["cls"].split("ModifiedArgument<", 1)[-1]
        kind = [k for k in KINDS if cls.startswith(k)]
        if not kind:
            continue
        kind, takes = kind[0], KINDS[kind[0]]
        seen.add(kind)
        label = {"std::basic_string": "String", "std::vector<unsigned char": "ID", "int": "Int", "double": "Float", "bool": "Boolean", "graphql::response::Value": "scalar"}[kind]
        d = Decision({k: of_type(k) for k in ALL}, {}, value=True, may_throw=lambda c: ("std::logic_error",) if c.nq == GET else ())
        rows = ck.table(tu, f, d)
        ok = [r for r in rows if r.end == "ret"]
        ck.need(ok, "a value of " + label)
        if takes is None:
            ck.must("convert/%s/unchanged" % label, rows, [], lambda r: r.end == "ret" and r.value[0] == "v" and r.value[1] == f["p"][0]["n"] and not r.atoms, "a custom scalar is passed as it is")
            continue
        yes = lambda r: any(r.has(k, True) for k in takes)
        ck.must("convert/%s/accepts" % label, ok, [], yes, "%s is only read from %s" % (label, " or ".join(takes)))
        ck.never("convert/%s/rejects" % label, rows, [yes], lambda r: r.end == "throw" and "logic_error" not in str(r.value) and not (label == "ID" and r.count("throw") > 1), "%s accepts every %s" % (label, " and ".join(takes)))
        for k in takes:
            ck.ob("convert/%s/from-%s" % (label, k), any(r.has(k, True) and r.end == "ret" for r in rows), where(f), "%s accepts %s" % (label, k))
        ck.never("convert/%s/error" % label, rows, [lambda r: not yes(r)], lambda r: r.end != "throw" or "schema_exception" not in str(r.value), "anything else is an error of the argument")

        def read(r):
            got = [x for y in unwrap(r.value) for x in [x for x in subterms(y) if term_call(x, GET)]]
            return len(got) == 1 and got[0][3] is not None and got[0][3][:2] == ("v", f["p"][0]["n"]) and not any(x[0] in ("not", "sum", "bin") for x in subterms(r.value)) and not any(x[0] == "c" for x in subterms(r.value))
        ck.must("convert/%s/value" % label, ok, [], read, "the argument has the value given")
        if label == "ID":
            ck.never("convert/ID/malformed", rows, [], lambda r: r.end == "throw" and "schema_exception" not in str(r.value), "an ID that cannot be decoded is an error of the argument")
    ck.ob("convert/every-type", seen == set(KINDS), "src/GraphQLService.cpp", "every built-in type is converted: " + ", ".join(sorted(seen)))


def run(ck):
    tu, tt = ck.load(XSRC, PROBE)
    conversions(ck, tu)
    req = [f for f in tt.find(MA + "require") if not f.get("dep")]
    find = [f for f in tt.find(MA + "find") if not f.get("dep")]
    mods = lambda f: tuple(x.split("::")[-1] for x in (f.get("ta") or ()))
    label = lambda m: "".join(x[0] for x in m) or "plain"
    opq = (MA + "require", MA + "convert", S + "schema_exception::getStructuredErrors")
    inner = lambda c: c.nq in (MA + "require", MA + "convert")
    boom = lambda c: (S + "schema_exception", "std::logic_error") if inner(c) else ()
    trim = lambda t: t[:-1] if t and t[-1] == "None" else t
    callmods = lambda c: trim(tuple(str(x).split("::")[-1] for x in (c.ta or ())))
    isname = lambda t: t[0] == "v" and t[1] == "name"
    isargs = lambda t: t[0] == "v" and t[1] == "arguments"
    seen = {}
    for f in req:
        m = mods(f)
        rest = trim(m[1:])
        lab = label(m)
        pn, pa = f["p"][0]["n"], f["p"][1]["n"]
        isname, isargs = (lambda pn: lambda t: t[0] == "v" and t[1] == pn)(pn), (lambda pa: lambda t: t[0] == "v" and t[1] == pa)(pa)
        mine = lambda t: (t[0] == "idx" and isargs(t[1]) and isname(t[2])) or (t[0] == "f" and t[2] == "second" and mentions("find")(t) and any(isargs(x) for x in subterms(t)) and any(isname(x) for x in subterms(t)))
        peel = lambda c: c.nq == MA + "require" and callmods(c) == rest and len(c.args) == 2
        seen[lab] = seen.get(lab, 0) + 1
        if not m:
            calls = []

            class C(Decision):
                def on_call(self, ctx, st, c):
                    if inner(c):
                        calls.append((ctx.where(c.node), c))
                    return super().on_call(ctx, st, c)
            elem = lambda t: any(x[0] == "elem" and mentions("getStructuredErrors")(x[1]) for x in subterms(t))
            text = lambda c: c.name in TEXT or c.nq.startswith("std::")
            ev = {"read": inner, "named": lambda c: text(c) and any(isname(a) for a in c.args), "told": lambda c: text(c) and any(a[0] == "f" and a[2] == "message" and elem(a) for a in c.args)}
            wr = {"message": lambda l, r, op: l[0] == "f" and l[2] == "message" and elem(l)}
            d = C({}, ev, wr, value=True, opaque=opq, may_throw=boom, loops={"errors": lambda r: mentions("getStructuredErrors")(r)})
            rows = ck.table(tt, f, d)
            for w, c in calls:
                ck.ob("plain/own", c.nq == MA + "convert" and len(c.args) == 1 and mine(c.args[0]), w, "the argument of that name is converted")
            ck.must("plain/value", [r for r in rows if r.end == "ret"], [], lambda r: term_call(r.value, MA + "convert") and not r.did("throw") and r.count("read") == 1, "the converted value is the result")
            bad = [r for r in rows if r.end == "throw" and "schema_exception" in str(r.value)]
            ck.need(bad, "errors of conversions")
            ck.must("plain/errors-kept", bad, [], lambda r: r.did("loop:errors") or not r.did("throw"), "the errors of the conversion are reported")
            d = C({}, ev, wr, value=True, opaque=opq, may_throw=boom, unit=lambda ctx, rng, node: mentions("getStructuredErrors")(rng))
            rows = [r for r in ck.table(tt, f, d, partial=True) if r.loop]
            ck.need(rows, "the errors of a conversion")
            ck.must("plain/named", rows, [], lambda r: r.did("named") and r.did("told") and (r.did("message")) and r.end in ("iter", "continue"), "every error names the argument and keeps its message")
            thrown = []

            class T(Decision):
                def on_throw(self, ctx, st, etype, term, node):
                    if term is not None and term[0] == "new":
                        thrown.append((ctx.where(node), term))
                    return super().on_throw(ctx, st, etype, term, node)
            T({}, {}, opaque=opq, may_throw=boom).run(tt, f)
            for w, t in thrown:
                ck.ob("plain/rethrown", t[1] == S + "schema_exception" and mentions("getStructuredErrors")(t), w, "the errors thrown are those of the conversion")
        elif m[0] == "None":
            rows = ck.table(tt, f, Decision({}, {"read": inner}, value=True, opaque=opq, may_throw=boom))
            ck.must("%s/%d/value" % (lab, seen[lab]), [r for r in rows if r.end == "ret"], [], lambda r: inner_term(r.value) and not r.did("throw") and isname(r.value[4][0]) and isargs(r.value[4][1]), "without modifiers the argument itself is the result")
            ck.never("%s/%d/no-swallow" % (lab, seen[lab]), rows, [], lambda r: r.did("throw") and r.end == "ret", "an error stays an error")
        elif m[0] == "Nullable":
            at = {"found": lambda t: t[0] == "found" and isargs(t[1]) and isname(t[2]), "null": lambda t: of_null(t) and any(mine(x) for x in subterms(t))}
            key = "%s/%d" % (lab, seen[lab])
            args = []

            class N(Decision):
                def on_call(self, ctx, st, c):
                    if inner(c):
                        args.append((ctx.where(c.node), c))
                    return super().on_call(ctx, st, c)
            d = N(at, {"read": inner}, value=True, opaque=opq, may_throw=boom)
            rows = ck.table(tt, f, d)
            nothing = lambda v: v == ("g", "std::nullopt") or v[0] == "none" or (v[0] == "new" and "optional" in v[1] and not v[2])
            ck.need(any(nothing(r.value) for r in rows if r.end == "ret") and args, "nullable arguments")
            empty = lambda r: r.has("found", False) or r.has("null", True)
            ck.must(key + "/absent", rows, [empty], lambda r: r.end == "ret" and nothing(r.value) and not r.did("read"), "a nullable argument that is absent or null is empty")
            ck.must(key + "/present", rows, [lambda r: not empty(r)], lambda r: r.has("found", True) and r.has("null", False) and r.count("read") == 1 and (r.end == "throw" or not nothing(r.value) and any(inner_term(x) for x in subterms(r.value))), "any other value is read, and its errors are errors")
            for w, c in args:
                ck.ob(key + "/rest", peel(c) and isname(c.args[0]) and isargs(c.args[1]), w, "the value is read with the rest of the modifiers")
        else:
            key = "%s/%d" % (lab, seen[lab])
            args, puts = [], []

            class L(Decision):
                def on_call(self, ctx, st, c):
                    if inner(c):
                        args.append((ctx.where(c.node), c))
                    elif c.obj is not None and c.name in ("put", "push_back", "emplace_back", "insert", "emplace") and any(inner_term(x) for a in c.args for x in subterms(a)):
                        puts.append((ctx.where(c.node), c.obj))
                        return ("opaque", self.add(st, "put", ctx, c.node))
                    elif c.nq.startswith("graphql::response::Value::emplace_back") and len(c.args) == 2:
                        ok = c.obj is not None and c.obj[0] == "new" and isname(c.args[0]) and element(c.args[1])
                        return ("opaque", self.add(st, "single" if ok else "other", ctx, c.node))
                    return super().on_call(ctx, st, c)

                def on_write(self, ctx, st, l, r, op, node):
                    if r is not None and any(inner_term(x) for x in subterms(r)) and (l[0] in ("idx", "deref", "elem") or l[0] == "call"):
                        puts.append((ctx.where(node), l[1] if l[0] == "idx" else l))
                        return self.add(st, "put", ctx, node)
                    return super().on_write(ctx, st, l, r, op, node)
            lst = lambda t: t[0] == "call" and t[1] == GET and t[3] is not None and mine(t[3])
            element = lambda t: (t[0] == "elem" and lst(t[1])) or (t[0] == "idx" and (lst(t[1]) or mine(t[1])) and not isname(t[2]))
            unit = lambda ctx, rng, node: lst(rng) or (rng[0] in ("idx", "upto", "count") and mine(rng))
            d = L({}, {"read": inner}, opaque=opq, may_throw=boom, unit=lambda ctx, rng, node: lst(rng))
            rows = [r for r in ck.table(tt, f, d) if r.loop]
            ck.need(rows and args and puts, "the elements of a list argument")
            ck.must(key + "/element", rows, [lambda r: r.end in ("iter", "continue")], lambda r: r.count("read") == 1 and r.count("put") == 1 and r.count("single") == 1 and not r.did("other"), "every element is converted and becomes one element")
            for w, c in args:
                ck.ob(key + "/rest", peel(c) and isname(c.args[0]) and c.args[1][0] == "new", w, "elements are read with the rest of the modifiers, under the name of the argument")
            rows = ck.table(tt, f, L({}, {}, value=True, opaque=opq, may_throw=boom), partial=True)
            ck.must(key + "/value", [r for r in rows if r.end == "ret"], [], lambda r: all(r.value == o or o[0] == "v" for _, o in puts) and not any(x[0] == "c" for x in subterms(r.value)), "the list of the converted elements is the result")
            sized = lambda v: v[0] != "new" or not v[2] or any(mine(x) for x in subterms(v))
            ck.must(key + "/size", [r for r in rows if r.end == "ret"], [], lambda r: sized(r.value), "the list is as long as the list given")
    for want in ("plain", "N", "L", "NL", "LNL"):
        ck.ob("modifiers/" + want, seen.get("N" if want == "None" else want), "include/graphqlservice/GraphQLService.h", "modifiers are handled: %s" % sorted(seen))
    for i, f in enumerate(find):
        m = mods(f)
        rows = ck.table(tt, f, Decision({}, {"read": inner}, value=True, opaque=opq, may_throw=boom))
        key = "find/%s/%d" % (label(m), i)
        same = lambda v: v[0] == "new" and len(v[2]) == 2 and inner_term(v[2][0]) and v[2][0][1] == MA + "require" and v[2][1] == ("c", True)
        dflt = lambda v: v[0] == "new" and len(v[2]) == 2 and v[2][0][0] == "new" and not v[2][0][2] and v[2][1] == ("c", False) or (v[0] == "new" and v[2] and v[2][-1] == ("c", False))
        ck.must(key + "/found", [r for r in rows if not r.did("throw")], [], lambda r: r.end == "ret" and same(r.value), "what require reads is found")
        ck.must(key + "/failed", [r for r in rows if r.did("throw")], [], lambda r: r.end == "ret" and dflt(r.value), "what require refuses is not found, and no exception leaves")
        targs = {x[2] for r in rows if r.end == "ret" for x in subterms(r.value) if inner_term(x)}
        ck.ob(key + "/same-modifiers", all(tuple(str(y).split("::")[-1] for y in x) == m for x in targs) and targs, where(f), "find and require agree about the modifiers")


def inner_term(t):
    return isinstance(t, tuple) and len(t) > 1 and t[0] == "call" and t[1] in (MA + "require", MA + "convert")


def of_null(t):
    return t[0] == "eq" and any(x[0] == "enum" and x[1].endswith("Type::Null") for x in t[1:])
