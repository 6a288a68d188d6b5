"""Only documents the validator has accepted are executed or subscribed to."""
from xcommon import *
from facts import _walk, strip_targs

ALL = ["src/GraphQLService.cpp", "src/Validation.cpp", "src/SyntaxTree.cpp", "src/Introspection.cpp", "src/GraphQLResponse.cpp", "src/Schema.cpp"]


def run(ck):
    tus = ck.load(*ALL)
    tu = tus[0]
    EXEC = (OD + "visit", SD + "visit")
    ok = lambda t: t[0] == "empty" and mentions("validate")(t)
    acts = {"exec": call_is(*EXEC), "register": lambda c: grows(c) and fieldname(c.obj) == "_subscriptions", "validate": call_is(R + "validate"),
            "report": lambda c: c.nq == S + "schema_exception::getErrors"}
    entries = [("resolve", overload(tu, "resolve", LAUNCH, STATE, AST, STR, VARS), "exec"), ("subscribe", overload(tu, "subscribe", PARAMS, CB), "exec"),
               ("find", overload(tu, "findOperationDefinition", AST, "string_view"), "find")]
    base = acts
    for name, f, act in entries:
        acts = dict(base, find=lambda c: c.nq.startswith("graphql::peg::") and any(x[0] == "f" and x[2] in ("root", "children") for a in (c.obj,) + tuple(c.args) if a for x in subterms(a))) if name == "find" else base
        rows = ck.table(tu, f, Decision({"ok": ok}, acts, opaque=EXEC + (VV + "visit", DV + "visit"), value=True))
        ck.need(any(r.did(act) for r in rows), "the effect of Request::" + name)
        for a in [act] + (["register"] if name == "subscribe" else []):
            ck.must("validated/%s/%s" % (name, a), rows, [lambda r: r.did(a)], lambda r: order(r, "validate", a) and r.has("ok") and not r.has("ok", False),
                    "nothing is looked up, executed or registered before the document was validated without errors")
        ck.must("refused/" + name, rows, [("ok", False)], lambda r: not r.did(act) and ("throw" in r.events), "a document with errors is refused")
        if name == "resolve":
            ck.must("reported/" + name, rows, [("ok", False)], lambda r: r.did("report") and r.end == "ret", "the errors of the validation are the response")
        else:
            ck.must("reported/" + name, rows, [("ok", False)], lambda r: r.end == "throw" and "schema_exception" in str(r.value), "the errors of the validation are thrown")
    # the errors that are thrown are the validator's
    hits = []

    class Thrown(Decision):
        def on_throw(self, ctx, st, etype, term, node):
            if st.ts[1] and ("ok", False) in st.ts[1]:
                hits.append(term is not None and mentions("validate")(term))
            return super().on_throw(ctx, st, etype, term, node)
    for name, f, act in entries:
        hits.clear()
        ck.table(tu, f, Thrown({"ok": ok}, acts, opaque=EXEC + (VV + "visit", DV + "visit")))
        ck.ob("own-errors/" + name, hits and all(hits), where(f), "what is reported are the errors the validation returned")
    # --- the convenience overloads lead there
    f = overload(tu, "resolve", STATE, AST, STR, VARS)
    target = overload(tu, "resolve", LAUNCH, STATE, AST, STR, VARS)
    rows = ck.table(tu, f, Decision({}, dict(base, fwd=lambda c: c.nq == R + "resolve" and c.fn is not None and c.fn["id"] == target["id"]),
                                    opaque=(R + "resolve",) + EXEC))
    ck.must("overload/resolve", rows, [], lambda r: r.did("fwd") or r.did("validate"), "the overload without a launch policy validates as well")
    f = overload(tu, "subscribe", LAUNCH, PARAMS, CB)
    d = Decision({}, dict(base, sub=lambda c: c.nq == R + "subscribe" and len(c.args) == 2, note=call_is(S + "Object::resolve"), key=named("at")),
                 opaque=(R + "subscribe", S + "Object::resolve", R + "unsubscribe"))
    rows = ck.table(tu, f, d)
    rows = rows + d.async_rows
    ck.need(any(r.did("sub") for r in rows), "the asynchronous subscribe subscribes")
    ck.must("overload/subscribe", rows, [lambda r: r.did("note")], lambda r: order(r, "sub", "note"), "the asynchronous overload subscribes (and so validates) before it notifies")
    # --- who may start an execution at all
    callers = call_graph(tus)
    allowed = {OD + "visit": {R + "resolve", R + "resolveUnvalidated"}, SD + "visit": {R + "subscribe"}, R + "resolveUnvalidated": {R + "resolve"}}
    for q, who in allowed.items():
        ck.need(q in callers or q.endswith("Unvalidated"), "callers of " + q)
        for w in sorted(callers.get(q, ())):
            ck.ob("who/%s/%s" % (q.split("::", 2)[-1], w.split("::")[-1]), only_from(callers, w, who), "",
                  "%s is only reached through the entry points that validate (or the deprecated ones that say they do not)" % q)
    for g in tu.find(R + "resolve"):
        calls_it = []
        _walk(g["body"], lambda n: calls_it.append(1) if n.get("k") in ("call", "mcall") and n.get("f") and strip_targs(n["f"]) == R + "resolveUnvalidated" else None)
        if calls_it:
            ck.ob("unvalidated/%d" % len(g["p"]), any("ast_node" in p["t"] for p in g["p"]), where(g), "only the deprecated overloads for a bare syntax tree skip the validation")
    # --- validate() itself
    f = overload(tu, "validate", AST)
    visit = "graphql::service::ValidateExecutableVisitor::visit"
    take = "graphql::service::ValidateExecutableVisitor::getStructuredErrors"
    marks = []

    class Val(Decision):
        def on_write(self, ctx, st, l, r, op, node):
            if fieldname(l) == "validated":
                for a in map(norm_bool, unwrap(r)):
                    marks.append((a[0] == "empty" and mentions("getStructuredErrors")(a)) or a == ("c", False)
                                 or (a == ("c", True) and ("clean", True) in st.ts[1]))
            return super().on_write(ctx, st, l, r, op, node)
    rows = ck.table(tu, f, Val({"validated": lambda t: fieldname(t) == "validated" and t[0] == "f", "clean": lambda t: t[0] == "empty" and mentions("getStructuredErrors")(t)},
                               {"visit": lambda c: c.nq == visit and c.args and mentions("root")(c.args[0]), "take": call_is(take)},
                               {"mark": lambda l, r, op: fieldname(l) == "validated"}, value=True))
    ck.need(any(r.has("validated") for r in rows), "the validated flag")
    ck.must("judged", rows, [("validated", False)], lambda r: order(r, "visit", "take"), "a document that was not accepted before is judged")
    ck.must("verdict", rows, [lambda r: r.did("take")], lambda r: r.end == "ret" and mentions("getStructuredErrors")(r.value), "the verdict is what the visit found")
    ck.must("marked", rows, [lambda r: r.did("mark")], lambda r: order(r, "take", "mark"), "the document is only marked with the verdict")
    ck.ob("mark-is-verdict", marks and all(marks), where(f), "a document counts as validated exactly if there were no errors")
    # nobody else marks documents
    n = 0
    for t in tus:
        for g in t.functions:
            def look(e, g=g, t=t):
                nonlocal n
                tgt = e.get("a") if e.get("k") == "assign" else None
                if isinstance(tgt, dict) and tgt.get("k") == "mem" and tgt.get("n") == "validated":
                    n += 1
                    ck.ob("who-marks/" + g["nq"].split("::")[-1], g["nq"] == R + "validate", where(g), "only Request::validate marks a document as validated")
            _walk(g.get("body"), look)
    rec = tu.record("graphql::peg::ast")
    ck.need(any(x["n"] == "validated" for x in rec["fields"]), "peg::ast::validated")
    init = [x for x in rec["fields"] if x["n"] == "validated"][0]
    ck.extra["validated_field"] = init
