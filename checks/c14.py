"""Operation rules of validation: unique operation names, lone anonymous operation, only executable definitions,
supported operation type, single root field of a subscription.  Decision tables of the document and operation visitors
(every path, helpers expanded) are compared with the rule: violation condition on the path => error recorded, and error
recorded => a violation condition on the path."""
from vcommon import *


def run(ck):
    tu = ck.load(SRC)
    f = fn(tu, "visit")
    # ---- per definition
    d = Decision(atoms=dict(isop=isty("operation_definition"), isfrag=isty("fragment_definition"),
                            **uniq("op", "_operationDefinitions", "operation_name")),
                 events=dict(error=is_err, vop=calls("visitOperationDefinition"), vfrag=calls("visitFragmentDefinition")),
                 unit=children_of("root"),
                 opaque=BOUND)
    rows = ck.table(tu, f, d)
    g = groups(rows)
    reg = [x for x in g.values() if any(tested("op")(r) for r in x)]
    ck.ob("unique-operation-name/registered", len(reg) == 1, f["file"], "every operation definition is entered under its name into the table of operations")
    for x in reg:
        ck.evaluated("unique-operation-name/all", [r for r in x if r.has("isop")], "op:ins", [tested("op")], "each operation definition's name is tested for uniqueness")
        ck.must("unique-operation-name/error", x, [dup("op")], "error", "a repeated operation name is an error")
    main = [x for x in g.values() if any(r.did("vop") for r in x)]
    ck.ob("dispatch/operations-visited", len(main) == 1, f["file"], "operation definitions are visited")
    for x in main:
        ck.must("dispatch/operation", x, [("isop", True)], "vop", "every operation definition is validated")
        ck.must("dispatch/fragment", x, [("isfrag", True)], "vfrag", "every fragment definition is validated")
        ck.must("executable-definitions", x, [lambda r: not r.has("isop") and not r.has("isfrag")], "error", "any other definition is an error")
        ck.never("executable-definitions/quiet", x, [lambda r: r.has("isop") or r.has("isfrag")], "error", "executable definitions are not errors by themselves")
        ck.ob("dispatch/kinds", any(r.has("isop") for r in x) and any(r.has("isfrag") for r in x) and any(not r.has("isop") and not r.has("isfrag") for r in x), f["file"], "all three kinds of definition are distinguished")

    # ---- lone anonymous operation
    many = lambda t: t[0] in ("lt", "le") and any(is_size(x) and fieldname(x[3]) == "_operationDefinitions" for x in t[1:]) \
        and t == ("lt", ("c", 1), next(x for x in t[1:] if is_size(x)))
    anon = lambda t: (t[0] == "empty" and mentions("_operationDefinitions")(t) and t[1][0] == "f" and t[1][2] == "first") \
        or (t[0] == "found" and fieldname(t[1]) == "_operationDefinitions" and len(t) == 3 and (t[2] == ("c", "") or t[2][0] == "new" and "basic_string_view" in t[2][1] and not t[2][2]))
    # only errors raised before the definitions are visited matter here: errors of other rules are not tracked
    class D(Decision):
        def on_call(self, ctx, st, call):
            if is_err(call):
                on, at, evs = st.ts
                if ("many", True) in at and ("anon", True) in at:
                    return self._err(ctx, st, call)
                return ("opaque", st)
            return super().on_call(ctx, st, call)

        def _err(self, ctx, st, call):
            return ("opaque", self.add(st, "error", ctx, call.node))
    d = D(atoms=dict(many=many, anon=anon), events={}, loops=dict(ops=lambda r: fieldname(r) == "_operationDefinitions"), opaque=BOUND, ordered=False)
    rows = ck.table(tu, f, d)
    ck.evaluated("lone-anonymous/counted", rows, "many", [], "the number of operations is examined")
    ck.must("lone-anonymous/searched", rows, [("many", True)], lambda r: r.did("loop:ops") or r.seen("anon"), "with several operations the anonymous one is searched for")
    hit = [r for r in rows if r.has("many") and r.has("anon")]
    ck.ob("lone-anonymous/decided", bool(hit), f["file"], "an anonymous operation among several is recognised")
    ck.must("lone-anonymous/error", hit, [], "error", "an anonymous operation that is not alone is an error")

    # ---- one operation definition
    f = fn(tu, "visitOperationDefinition")
    issub = lambda t: t[0] == "eq" and mentions("strSubscription")(t) and mentions("operation_type")(t)
    multi = lambda t: t == ("lt", ("c", 1), ("f", THIS, "_fieldCount"))
    d = Decision(atoms=dict(sup=found_in("_operationTypes", "operation_type"), issub=issub, multi=multi),
                 events=dict(error=is_err, select=calls("visitSelection")),
                 writes=dict(zero=lambda l, r, op: fieldname(l) == "_fieldCount" and r == ("c", 0),
                             count=lambda l, r, op: fieldname(l) == "_fieldCount",
                             scope=lambda l, r, op: fieldname(l) == "_scopedType" and mentions("_operationTypes")(r or ())),
                 opaque=BOUND)

    class Op(Decision):
        pass
    rows = ck.table(tu, f, d)
    ck.evaluated("operation-type/looked-up", rows, "sup", [], "the operation's type is looked up among the supported ones")
    ck.must("operation-type/error", rows, [("sup", False)], "error", "an unsupported operation type is an error")
    ck.never("operation-type/stop", rows, [("sup", False)], "select", "an unsupported operation is not visited")
    ck.must("operation-type/visit", rows, [("sup", True)], lambda r: r.did("select") and r.did("scope") and r.index("scope") < r.index("select"), "the selection of a supported operation is validated against that operation's root type")
    ck.must("single-root-field/reset", rows, [("sup", True)], lambda r: r.did("zero") and r.index("zero") < r.index("select"), "root fields are counted from zero for each operation")

    class Sub(Decision):
        """after the selection was visited: errors before it are not of interest"""
        def on_call(self, ctx, st, call):
            if call.nq == V + "visitSelection":
                on, at, evs = st.ts
                return ("opaque", st.with_ts((on, frozenset(x for x in at if x[0] != "multi"), ("select",))))
            if is_err(call):
                on, at, evs = st.ts
                if "select" not in evs or any("unused" in e for e in evs):
                    return ("opaque", st)
            return super().on_call(ctx, st, call)

        def on_loop(self, ctx, st, rng, node):
            on, at, evs = st.ts
            if "select" in evs and fieldname(rng) == "_variableDefinitions" and "unused" not in evs:
                return st.with_ts((on, at, evs + ("unused",)))
            return st
    d = Sub(atoms=dict(issub=issub, multi=multi), events=dict(error=is_err), opaque=BOUND)
    rows = [r for r in ck.table(tu, f, d) if r.did("select")]
    ck.need(rows, "visitOperationDefinition never visits the selection")
    ck.must("single-root-field/checked", rows, [], lambda r: r.has("issub", False) or r.has("multi", False) or r.did("error"), "a subscription with more than one root field is an error")
    ck.only("single-root-field/quiet", rows, "error", [[("issub", True), ("multi", True)]], "only a subscription with more than one root field is rejected by this rule")

    # ---- counting of fields
    f = fn(tu, "visitField")
    inc = lambda l, r, op: fieldname(l) == "_fieldCount" and (op == "++" or (r and r[0] == "bin" and r[1] == "+" and r[3] == ("c", 1)) or (op == "+=" and r == ("c", 1)))
    d = Decision(events=dict(error=is_err, select=calls("visitSelection")),
                 atoms=dict(known=lambda t: t[0] == "eq" and mentions("_selectionFields", "find")(t)),
                 writes=dict(inc=inc, zero=lambda l, r, op: fieldname(l) == "_fieldCount" and r == ("c", 0),
                             restore=lambda l, r, op: fieldname(l) == "_fieldCount" and r == ("old", ("f", THIS, "_fieldCount")),
                             other=lambda l, r, op: fieldname(l) == "_fieldCount"), opaque=BOUND)
    rows = ck.table(tu, f, d)
    ck.never("field-count/kept", rows, [], "other", "the count of root fields only changes by counting a field, or by saving and restoring it around a nested selection")
    ck.must("field-count/accepted", rows, [lambda r: r.end == "ret" and not r.did("error")], lambda r: r.count("inc") == 1 or r.has("known"), "an accepted field is counted once")
    ck.must("field-count/nested", rows, [lambda r: r.did("select")], lambda r: "zero" in r.events[:r.index("select")] and "restore" in r.events[r.index("select"):], "nested fields are not counted as root fields")
    for other in ("visitFragmentSpread", "visitInlineFragment"):
        f = fn(tu, other)
        d = Decision(writes=dict(count=wrote("_fieldCount")), opaque=BOUND)
        ck.never("field-count/" + other, ck.table(tu, f, d), [], "count", "fields selected through fragments count as root fields")
    # ---- the operation types of the schema
    f = tu.one(V + "ValidateExecutableVisitor")
    ops = {"strQuery": "queryType", "strMutation": "mutationType", "strSubscription": "subscriptionType"}
    calls_ = lambda t, n: any(x[0] == "call" and x[1].endswith("::" + n) for x in subterms(t))
    into = {k: (lambda k: lambda t: any(x[0] == "g" and str(x[1]).endswith(k) for x in subterms(t)))(k) for k in ops}

    class T(Decision):
        def on_write(self, ctx, st, l, r, op, node):
            if l[0] == "idx" and fieldname(l[1]) == "_operationTypes":
                for k, n in ops.items():
                    if into[k](l[2]):
                        return self.add(st, k if calls_(r, n) and not any(calls_(r, o) for o in ops.values() if o != n) else k + ":other", ctx, node)
                return self.add(st, "?", ctx, node)
            return super().on_write(ctx, st, l, r, op, node)

        def on_call(self, ctx, st, c):
            if grows(c) and c.obj is not None and fieldname(c.obj) == "_operationTypes" and c.args:
                for k, n in ops.items():
                    if any(into[k](a) for a in c.args):
                        return ("opaque", self.add(st, k if any(calls_(a, n) for a in c.args) else k + ":other", ctx, c.node))
                return ("opaque", self.add(st, "?", ctx, c.node))
            return super().on_call(ctx, st, c)
    d = T(atoms={k: (lambda n: lambda t: t[0] == "call" and t[1].endswith("::" + n))(n) for k, n in ops.items()}, opaque=BOUND)
    rows = [r for r in ck.table(tu, f, d) if r.end == "ret"]
    for k, n in ops.items():
        ck.must("root/" + n, rows, [lambda r: not r.has(k, False)], lambda r: r.count(k) == 1, "an operation type of the schema is known under its keyword")
    ck.must("root/only", rows, [], lambda r: not any(e.endswith(":other") or e == "?" for e in r.events), "nothing else is known as an operation type")
