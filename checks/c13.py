"""Results become response values of the declared type: leaves unchanged, null for nothing, objects by their own selection, lists as lists."""
from xcommon import *
from c04 import EX, future_get, is_null

MR = S + "ModifiedResult::"
RR = S + "ResolverResult"
trim = lambda t: t[:-1] if t and t[-1] == "None" else t
mods = lambda ta: trim(tuple(str(x).split("::")[-1] for x in (ta or ())))
LEAF = {"int": "Int", "double": "Float", "bool": "Boolean", "std::basic_string": "String", "std::vector<unsigned char": "ID", "graphql::response::Value": "scalar"}


def taken(t, p):
    """the value of that result, now or later"""
    return t[0] == "call" and (t[1] == S + "FieldResult::get" or t[1] == "std::future::get") and t[3] is not None and any(x[0] == "v" and x[1] == p for x in subterms(t[3])) \
        and not any(x[0] == "call" and x is not t[3] for x in subterms(t[3]))


def selected(t):
    return t[0] == "f" and t[2] == "selection" and t[1][0] == "v"


def nothing(t):
    """a result without data and errors"""
    return t is not None and t[0] == "new" and t[1] == RR and (not t[2] or all(is_null(x) or (x[0] == "new" and not x[2]) for x in t[2]))


class Sub(Decision):
    """what a promise is given counts as the value of the path"""
    def __init__(self, judge, *a, **kw):
        self.judge = judge
        super().__init__(*a, **kw)

    def on_call(self, ctx, st, c):
        if c.nq == "std::promise::set_value" and len(c.args) == 1:
            for k in self.judge(pristine(st, c.args[0])):
                st = self.add(st, "gives:" + k, ctx, c.node)
            return ("opaque", st)
        return super().on_call(ctx, st, c)


def gives(r, judge):
    """what a path ends with: what it returns, or what the promise it returns was given"""
    k = [e[6:] for e in r.events if e.startswith("gives:")]
    return set(k) if k else set(judge(r.value)) if r.end == "ret" and r.value is not None else set()


def run(ck):
    tu, tt = ck.load(XSRC, PROBE)
    conv = [f for f in tu.find(MR + "convert") if not f.get("dep")]
    seen = set()
    for f in conv:
        cls = f["cls"].split("ModifiedResult<", 1)[-1]
        kind = [v for k, v in LEAF.items() if cls.startswith(k)]
        if kind:
            kind = kind[0]
            seen.add(kind)
            p = f["p"][0]["n"]
            vals = []

            class D(Decision):
                def on_write(self, ctx, st, l, r, op, node):
                    if fieldname(l) == "data":
                        vals.append((ctx.where(node), r))
                    return super().on_write(ctx, st, l, r, op, node)
            d = D({"sel": selected}, {"take": future_get, "res": lambda c: False}, {"data": wrote("data")}, opaque=(S + "buildErrorPath",))
            rows = ck.table(tu, f, d)
            ck.need(any(r.has("sel") for r in rows) and vals, "leaf " + kind)
            work = lambda r: r.did("take") or r.did("data")
            ck.must("leaf/%s/no-selection" % kind, rows, [("sel", True)], lambda r: r.end == "throw" and "schema_exception" in str(r.value) and not work(r), "a leaf with a selection is an error and is not resolved")
            ck.must("leaf/%s/checked" % kind, rows + d.async_rows, [], lambda r: r.seen("sel"), "whether the leaf has a selection is checked first")
            ck.must("leaf/%s/result" % kind, rows, [("sel", False)], lambda r: r.end == "ret", "a leaf without a selection is resolved")
            for w, v in vals:
                ok = all((x[0] == "new" and x[1] == "graphql::response::Value" and len(x[2]) == 1 and all(taken(y, p) for y in unwrap(x[2][0]))) or (kind == "scalar" and taken(x, p)) for x in unwrap(v))
                ck.ob("leaf/%s/value" % kind, ok, w, "the response has the value the resolver returned: " + short(v))
        elif "service::Object" in cls:
            seen.add("Object")
            objects(ck, tu, f)
    ck.ob("leaf/every-type", seen == set(LEAF.values()) | {"Object"}, XSRC, "every built-in type is converted: " + ", ".join(sorted(seen)))
    # --- the value of a field, given or promised
    n = 0
    for t, f in [(t, f) for t in (tt, tu) for f in t.find(S + "FieldResult::get") if not f.get("dep")]:
        n += 1
        d = Decision({"later": lambda t: t[0] == "is_alt" and t[2].startswith("std::future<")}, {}, value=True)
        rows = ck.table(t, f, d)
        alt = lambda t, fut: any(x[0] == "f" and str(x[2]).startswith("as:") and str(x[2]).startswith("as:std::future<") == fut for x in subterms(t))
        ck.must("field-result/later/%d" % n, rows, [("later", True)], lambda r: r.end == "ret" and r.value[0] == "call" and r.value[1] == "std::future::get" and alt(r.value, True), "a promised value is waited for")
        ck.must("field-result/now/%d" % n, rows, [("later", False)], lambda r: r.end == "ret" and alt(r.value, False), "a given value is used as it is")
        ck.must("field-result/asked/%d" % n, rows, [], lambda r: r.seen("later"), "both ways to answer are told apart")
    ck.need(n, "FieldResult::get")
    # --- optional values and objects that may be missing
    for what in ("optional", "pointer"):
        for g, label in converts(tt, what):
            m = mods(g.get("ta"))
            p, pp = g["p"][0]["n"], g["p"][1]["n"]
            if not m:
                plain(ck, tt, g, label, p, pp)
                continue
            rest = trim(m[1:])
            convs = []

            def judge(v):
                for x in unwrap(v):
                    if nothing(x):
                        yield "nothing"
                    elif any(term_call(y, MR + "convert") for y in subterms(x)):
                        yield "converted"
                    elif not (x[0] == "call" and x[1].endswith("get_future")):
                        yield "other"

            class N(Sub):
                def on_call(self, ctx, st, c):
                    if c.nq == "std::promise::set_value" and len(c.args) == 1 and all(taken(x, p) for x in unwrap(c.args[0])):
                        return ("opaque", self.add(st, "passed", ctx, c.node))
                    if c.nq == MR + "convert":
                        convs.append((ctx.where(c.node), c))
                        direct = any(taken(y, p) for y in subterms(c.args[0]))
                        st = self.add(st, "conv:" + ("direct" if direct else "promise"), ctx, c.node)
                        return ("opaque", st)
                    return super().on_call(ctx, st, c)
            d = N(judge, {"some": lambda t: all(taken(x, p) for x in unwrap(t)) or (t[0] == "engaged" and any(taken(x, p) for x in subterms(t)))}, {}, value=True, opaque=(S + "FieldResult::get",))
            rows = ck.table(tt, g, d)
            work = [r for r in rows + d.async_rows if r.seen("some")]
            ck.need(work and convs, "missing values of " + label)
            ck.must("nullable/%s/nothing" % label, work, [("some", False)], lambda r: gives(r, judge) == {"nothing"} and not any(e.startswith("conv:") for e in r.events), "nothing becomes null, without errors")
            ck.must("nullable/%s/something" % label, work, [("some", True)], lambda r: gives(r, judge) == {"converted"} and sum(e.startswith("conv:") for e in r.events) == 1 and (r.did("conv:direct") or r.did("passed") and r.index("passed") < r.index("conv:promise")), "anything else is converted")
            ck.must("nullable/%s/asked" % label, [r for r in rows + d.async_rows if any(e.startswith("conv:") for e in r.events)], [], lambda r: r.has("some", True), "only values that are there are converted")
            for w, c in convs:
                ck.ob("nullable/%s/rest" % label, mods(c.ta) == rest and c.cls == g["cls"] and len(c.args) == 2 and c.args[1][0] == "v" and c.args[1][1] == pp, w, "the value is converted with the rest of the modifiers, for the same field")
    for g, label in converts(tt, "list"):
        m = mods(g.get("ta"))
        if not m:
            continue
        rest = trim(m[1:])
        convs, docs = [], []

        class L(Decision):
            def on_call(self, ctx, st, c):
                if c.nq == MR + "convert":
                    convs.append((ctx.where(c.node), c))
                    return ("opaque", st)
                return super().on_call(ctx, st, c)
        d = L({}, {}, value=True, opaque=(S + "FieldResult::get",))
        rows = ck.table(tt, g, d)
        ck.need(convs, "the elements of " + label)
        own = lambda t: any(x[0] == "elem" and any(taken(y, g["p"][0]["n"]) for y in subterms(x)) for x in subterms(t))
        for w, c in convs:
            ck.ob("list/%s/rest" % label, mods(c.ta) == rest and c.cls == g["cls"] and own(c.args[0]) and any(x[0] == "v" and x[1] == g["p"][1]["n"] for x in subterms(c.args[1])), w, "the elements are converted with the rest of the modifiers, for the same field")
        ends = [r for r in d.async_rows if r.end == "ret"]
        ck.need(ends, "the list of " + label)
        ck.must("list/%s/list" % label, ends, [], lambda r: r.value[0] == "v" or any(x[0] == "new" and x[1] == "graphql::response::Value" and x[2] and mentions("List")(x[2][0]) for x in subterms(r.value)), "a list is a list, also when it is empty")
    for g, label in converts(tt, "leaf"):
        if "pointer" not in label:
            plain(ck, tt, g, label, g["p"][0]["n"], g["p"][1]["n"])


def plain(ck, tt, g, label, p, pp):
    """without modifiers the value is converted by its own type"""
    convs, casts = [], []
    derived = "Object>" not in g["cls"] and "pointer" in label

    class P(Decision):
        def on_call(self, ctx, st, c):
            if c.nq == MR + "convert":
                convs.append((ctx.where(c.node), c))
                return ("opaque", self.add(st, "conv", ctx, c.node))
            return super().on_call(ctx, st, c)
    d = P({}, {}, value=True, opaque=(S + "FieldResult::get",))
    rows = ck.table(tt, g, d)
    ck.must("plain/%s/once" % label, rows, [], lambda r: r.count("conv") == 1 and r.end == "ret" and term_call(r.value, MR + "convert"), "a value without modifiers is converted by its type")
    for w, c in convs:
        cls = "graphql::service::ModifiedResult<graphql::service::Object>" if derived else g["cls"]
        ck.ob("plain/%s/type" % label, c.cls == cls and not mods(c.ta) and len(c.args) == 2 and c.args[1][0] == "v" and c.args[1][1] == pp, w, "it is converted by its own type, for the same field")
        ck.ob("plain/%s/same" % label, any(x[0] == "v" and x[1] == p for x in subterms(c.args[0])), w, "the value that is converted is the one given")
    for r in d.async_rows:
        ck.ob("plain/%s/later" % label, r.end == "ret" and any(taken(x, p) for x in subterms(r.value)), r.where, "the object is the one the resolver returned")


def objects(ck, tu, f):
    p, pp = f["p"][0]["n"], f["p"][1]["n"]
    calls = []

    def judge(v):
        for x in unwrap(v):
            if nothing(x):
                yield "nothing"
            elif any(term_call(y, S + "Object::resolve") for y in subterms(x)):
                yield "resolved"
            elif not (x[0] == "call" and (x[1].endswith("get_future") or x[1] == "std::async")):
                yield "other"

    class O(Sub):
        def on_call(self, ctx, st, c):
            if c.nq == S + "Object::resolve":
                calls.append((ctx.where(c.node), c))
                return ("opaque", self.add(st, "resolve", ctx, c.node))
            return super().on_call(ctx, st, c)
    d = O(judge, {"sel": selected, "some": lambda t: all(taken(x, p) for x in unwrap(t))}, {}, value=True, opaque=(S + "FieldResult::get", S + "buildErrorPath"))
    rows = ck.table(tu, f, d)
    work = [r for r in rows + d.async_rows if r.seen("some")]
    ck.need(calls and work and any(r.has("sel") for r in rows), "objects")
    ck.must("object/selection", rows, [("sel", False)], lambda r: r.end == "throw" and "schema_exception" in str(r.value) and not r.did("resolve"), "an object without a selection is an error")
    ck.must("object/checked", rows + d.async_rows, [], lambda r: r.seen("sel"), "whether an object has a selection is checked first")
    ck.must("object/result", rows, [("sel", True)], lambda r: r.end == "ret", "an object with a selection is resolved")
    ck.must("object/nothing", work, [("some", False)], lambda r: gives(r, judge) == {"nothing"} and not r.did("resolve"), "a missing object is null, without errors")
    ck.must("object/something", work, [("some", True)], lambda r: gives(r, judge) == {"resolved"} and r.count("resolve") == 1, "an object is resolved once and its fields are the result")
    ck.must("object/asked", [r for r in rows + d.async_rows if r.did("resolve")], [], lambda r: r.has("some", True), "only objects that are there are resolved")
    mine = lambda t, n: any(x[0] == "f" and x[2] == n and x[1][0] == "v" and x[1][1] == pp for x in subterms(t))
    for w, c in calls:
        ok = len(c.args) == 4 and c.args[0][0] == "v" and c.args[0][1] == pp and mine(c.args[1], "selection") and mine(c.args[2], "fragments") and mine(c.args[3], "variables")
        ck.ob("object/own-selection", ok, w, "the fields are those of the selection of this field, with its fragments and variables")
        ck.ob("object/own", c.obj is not None and any(taken(x, p) for x in subterms(c.obj)), w, "the object is the one the resolver returned")
