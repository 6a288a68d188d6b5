"""A failing field stays a failing field: every field of a selection set and every element of a list ends up as exactly one
entry of the result (its value, or null together with its errors), whatever the resolvers and their futures do."""
from xcommon import *

EX = (S + "schema_exception", "std::exception")
NULL = ("new", "graphql::response::Value", ())
future_get = lambda c: c.name == "get" and c.nq.startswith("std::future") or (c.name == "get" and "FieldResult" in c.nq)


def is_null(t):
    return t is not None and (t == NULL or t == ("c", None) or (t[0] == "new" and t[1].endswith("response::Value") and (not t[2] or (len(t[2]) == 1 and t[2][0][0] == "enum" and t[2][0][1].endswith("Type::Null")))))


def nocaught(t):
    return t[0] == "empty" and (mentions("_structuredErrors")(t) or mentions("getStructuredErrors")(t))


def errors_grow(c):
    if fieldname(c.obj) == "errors" and c.name in ("push_back", "emplace_back", "splice", "insert", "push_front", "emplace_front", "merge"):
        return True
    return c.nq in ("std::copy", "std::move", "std::transform") and len(c.args) > 2 and any(mentions("back_inserter")(a) and any(fieldname(x) == "errors" for x in subterms(a)) for a in c.args)


caught_list = lambda rng: any(term_call(x, S + "schema_exception::getStructuredErrors") or x[0] == "f" and x[2] == "_structuredErrors" for x in subterms(rng))


def caught_loops(ck, tu, f, what, may_throw):
    """where the caught errors are moved one by one, none of them is left out"""
    d = Decision({}, {"err": errors_grow}, unit=lambda ctx, rng, node: caught_list(rng), may_throw=may_throw, opaque=(SV + "visit",))
    rows = [r for r in ck.table(tu, f, d, partial=True) if r.loop]
    if rows:
        ck.must("each-caught/" + what, rows, [], lambda r: r.count("err") == 1 and r.end in ("iter", "continue"), "every caught error is reported")


def collector(ck, tu, f, what, unit, keyed):
    """the loop that takes the results of the children"""
    kid = lambda t: any(x[0] == "elem" for x in subterms(t))
    got = lambda t: any(x[0] == "f" and x[2] == "data" and x[1][0] == "call" and x[1][1].endswith("::get") and kid(x[1]) for x in subterms(t))
    data = lambda c: c.name in ("emplace_back", "push_back") and fieldname(c.obj) == "data"
    raised = []

    class D(Decision):
        def on_call(self, ctx, st, c):
            if data(c):
                ok = len(c.args) == (2 if keyed else 1) and (not keyed or any(x[0] == "f" and x[2] == "first" and kid(x) for x in subterms(c.args[0])))
                v = c.args[-1] if c.args else None
                ev = "data:null" if not c.args or is_null(v) else "data:value" if got(v) else "data:other"
                return ("opaque", self.add(st, ev if ok else "data:bad", ctx, c.node))
            if errors_grow(c):
                src = [a for a in c.args if any(x[0] == "call" and x[1].endswith("::get") or x[0] == "exc" for x in subterms(a))]
                ev = "err:kid" if any(mentions("get")(a) or kid(a) for a in src) else "err:caught" if src else "err:new"
                return ("opaque", self.add(st, ev, ctx, c.node))
            return super().on_call(ctx, st, c)

    def mt(c):
        return EX if future_get(c) and c.obj is not None and kid(c.obj) else ()
    d = D({"noerrs": lambda t: t[0] == "empty" and mentions("errors", "get")(t) and kid(t), "nocaught": nocaught,
           "twice": lambda t: term_call(t, "graphql::response::Value::emplace_back")},
          {"get": lambda c: future_get(c) and c.obj is not None and kid(c.obj)}, unit=unit, may_throw=mt, opaque=(SV + "visit",), loops={"caught": caught_list})
    rows = [r for r in ck.table(tu, f, d) if r.loop]
    ck.need(any(r.did("get") for r in rows), "the loop over the results of " + what)
    n = lambda r, p: sum(1 for e in r.events if e.startswith(p))
    ck.must("one-entry/" + what, rows, [], lambda r: n(r, "data:") == 1 and not r.did("data:bad") and not r.did("data:other") and r.end in ("iter", "continue"),
            "every child becomes exactly one entry, under its own name and in its turn, however it ends")
    ck.must("value/" + what, rows, [lambda r: not r.did("throw")], lambda r: r.did("get") and r.did("data:value"), "a child which succeeded becomes its data")
    ck.must("null/" + what, rows, [lambda r: r.did("throw")], lambda r: r.did("data:null") or (r.did("data:value") and r.index("data:value") < r.index("throw")), "a child which failed becomes null")
    ck.must("reported/" + what, rows, [lambda r: r.did("throw")], lambda r: n(r, "err:") >= 1 or r.has("nocaught") or r.did("loop:caught"), "a child which failed is reported")
    caught_loops(ck, tu, f, what, mt)
    ck.must("kept-errors/" + what, rows, [lambda r: not r.did("throw"), lambda r: not r.has("noerrs", True)], lambda r: r.did("err:kid"), "the errors below a child are kept")
    # nothing escapes the loop
    return d


def run(ck):
    tu, tt = ck.load(XSRC, PROBE)
    # --- a field is resolved into exactly one future
    f = tu.one(SV + "visitField")
    setexc = lambda c: c.name in ("set_exception",) and c.nq.startswith("std::promise")

    class F(Decision):
        def on_call(self, ctx, st, c):
            if grows(c) and fieldname(c.obj) == "_values":
                ev = "push"
                a = c.args[0] if len(c.args) == 1 and c.args[0][0] in ("new", "call") else None
                parts = (a[2] if a and a[0] == "new" else c.args) if len(c.args) <= 2 else c.args
                key, fut = (parts[0], parts[1]) if len(parts) == 2 else (None, None)
                ev += ":result" if fut is not None and any(x[0] == "call" and x[1].startswith("std::function") and mentions("_resolvers")(x) for x in subterms(fut)) else ":promise" if fut is not None and mentions("get_future")(fut) else ":other"
                if key is not None:
                    els = {x[2] for x in subterms(key) if x[0] == "elem" and len(x) == 3}
                    if not els or els - {"alias_name", "field_name"}:
                        ev += ":badkey"
                return ("opaque", self.add(st, ev, ctx, c.node))
            return super().on_call(ctx, st, c)
    rows = ck.table(tu, f, F({"new": lambda t: t[0] == "inserted" and fieldname(t[1]) == "_names", "skip": lambda t: term_call(t, DV + "shouldSkip"),
                              "known": lambda t: t[0] == "found" and fieldname(t[1]) == "_resolvers"},
                             {"resolve": resolver_call, "exc": setexc}, may_throw=lambda c: EX if resolver_call(c) else (),
                             opaque=(VV + "visit", DV + "visit", DV + "shouldSkip", S + "buildErrorPath")))
    n = lambda r, p: sum(1 for e in r.events if e.startswith(p))
    ck.need(any(r.did("resolve") for r in rows) and any(r.has("known", False) for r in rows), "resolving a field")
    live = [r for r in rows if r.has("new", True) and not r.has("skip", True)]
    ck.must("field/one-result", live, [lambda r: r.end == "ret"], lambda r: n(r, "push:") == 1, "every field that is not skipped gets exactly one result")
    ck.must("field/no-result", rows, [lambda r: r.has("new", False) or r.has("skip", True)], lambda r: n(r, "push:") == 0, "a skipped field has no result")
    ck.must("field/no-escape", rows, [lambda r: r.did("resolve")], lambda r: r.end == "ret", "an exception of a resolver does not leave the field")
    ck.must("field/unknown", rows, [("known", False)], lambda r: r.end == "ret" and n(r, "push:promise") == 1 and r.did("exc"), "a field without a resolver fails alone")
    failed = lambda r: r.did("resolve") and r.index("throw") > r.index("resolve")
    ck.must("field/failure", rows, [failed], lambda r: n(r, "push:promise") == 1 and r.did("exc"), "the failure of a resolver becomes the failed result of its field")
    ck.must("field/success", rows, [lambda r: r.did("resolve") and not failed(r)], lambda r: n(r, "push:result") == 1, "the result of the resolver is the result of the field")
    ck.never("field/key", rows, [], lambda r: any("badkey" in e or e.startswith("push:other") for e in r.events), "the result is stored under the response name of the field")
    ck.must("field/known-first", rows, [lambda r: r.did("resolve")], lambda r: r.has("known", True), "only resolvers that exist are called")

    class N(Decision):
        """which name the field is known by"""
        def on_call(self, ctx, st, c):
            if grows(c) and fieldname(c.obj) in ("_values", "_names") and c.args:
                a = c.args[0]
                key = a[2][0] if a[0] == "new" and len(a[2]) == 2 else a
                els = sorted({x[2] for x in subterms(key) if x[0] == "elem" and len(x) == 3})
                st = self.add(st, "known-by:" + "+".join(els), ctx, c.node)
                return ("opaque", st)
            return super().on_call(ctx, st, c)
    noalias = lambda t: (t[0] == "empty" and any(x[0] == "elem" and x[2:] == ("alias_name",) for x in subterms(t)))
    rows = ck.table(tu, f, N({"noalias": noalias, "hasalias": own_has("alias_name")}, {}, opaque=(VV + "visit", DV + "visit", DV + "shouldSkip", S + "buildErrorPath"), ordered=False))
    keys = lambda r: {e[9:] for e in r.events if e.startswith("known-by:")}
    ck.need(any(r.has("noalias", False) for r in rows), "fields with an alias")
    ck.must("name/alias", rows, [("noalias", False), lambda r: keys(r)], lambda r: keys(r) == {"alias_name"}, "a field with an alias is known by its alias")
    ck.must("name/plain", rows, [("noalias", True), lambda r: keys(r)], lambda r: keys(r) == {"field_name"}, "a field without an alias is known by its name")
    # --- every selection is visited
    for q, name, unit in ((S + "Object::resolve", "selection", lambda ctx, rng, node: rng[0] == "f" and rng[2] == "children" and rng[1][0] == "v"),
                          (SV + "visitFragmentSpread", "spread", lambda ctx, rng, node: mentions("children")(rng) and mentions("_fragments")(rng)),
                          (SV + "visitInlineFragment", "inline", lambda ctx, rng, node: mentions("children", "selection_set")(rng))):
        rows = [r for r in ck.table(tu, tu.one(q), Decision({}, {"visit": lambda c: c.nq == SV + "visit" and c.args and any(x[0] == "elem" for x in subterms(c.args[0]))}, unit=unit, opaque=(SV + "visit", VV + "visit", DV + "visit", DV + "shouldSkip"))) if r.loop]
        ck.need(rows, "the loop over the selections of " + q)
        ck.must("all-visited/" + name, rows, [], lambda r: r.count("visit") == 1 and r.end in ("iter", "continue"), "every selection is visited once, in the order of the document")
    f = tu.one(SV + "visit")
    rows = ck.table(tu, f, Decision({k: (lambda k: lambda t: t[0] == "is_type" and t[2] == k)(k) for k in ("field", "fragment_spread", "inline_fragment")},
                                    {"f": call_is(SV + "visitField"), "s": call_is(SV + "visitFragmentSpread"), "i": call_is(SV + "visitInlineFragment")}, opaque=(SV + "visitField", SV + "visitFragmentSpread", SV + "visitInlineFragment")))
    for k, e in (("field", "f"), ("fragment_spread", "s"), ("inline_fragment", "i")):
        fits = [r for r in rows if not r.has(k, False) and not any(r.has(o) for o in ("field", "fragment_spread", "inline_fragment") if o != k)]
        ck.need(fits, k)
        ck.must("dispatch/" + k, fits, [], lambda r: r.count(e) == 1 and len(r.events) == 1, "a selection is resolved according to its kind")
    # --- fragments apply to matching types only
    for q, name, term in ((SV + "visitFragmentSpread", "spread", "getType"), (SV + "visitInlineFragment", "inline", "type_condition")):
        m = lambda t: t[0] == "found" and fieldname(t[1]) == "_typeNames"
        rows = ck.table(tu, tu.one(q), Decision({"match": m, "cond": own_has("type_condition"), "known": lambda t: t[0] == "found" and fieldname(t[1]) == "_fragments"}, {"visit": call_is(SV + "visit")},
                                                opaque=(SV + "visit", VV + "visit", DV + "visit", DV + "shouldSkip")))
        ck.need(any(r.has("match") for r in rows), "type condition of " + q)
        ck.never("type/%s/other" % name, rows, [("match", False)], "visit", "a fragment on another type does not apply")
        ck.must("type/%s/tested" % name, rows, [lambda r: r.did("visit")], lambda r: r.has("match", True) or (name == "inline" and not r.has("cond", True)), "a fragment only applies to the types it names")
        if name == "spread":
            ck.must("type/spread/undefined", rows, [("known", False)], lambda r: r.end == "throw", "an unknown fragment is an error")
    # --- the collectors
    f = tu.one(S + "Object::resolve")
    d = collector(ck, tu, f, "object", lambda ctx, rng, node: mentions("_values")(rng) or mentions("getValues")(rng), True)
    for g, what in converts(tt, "list"):
        collector(ck, tt, g, what, lambda ctx, rng, node: mentions("children")(rng) and rng[0] == "v", False)
        rows = [r for r in ck.table(tt, g, Decision({}, {"conv": lambda c: c.name == "convert" and "ModifiedResult" in c.nq and any(x[0] == "elem" for a in c.args for x in subterms(a)),
                                                         "keep": lambda c: grows(c) and c.obj is not None and c.obj[0] == "v" and mentions("children")(c.obj) and any(term_call(x, S + "ModifiedResult::convert") for a in c.args for x in subterms(a))},
                                                    {"next": lambda l, r, op: op == "++" and mentions("errorPath", "segment")(l)},
                                                    unit=lambda ctx, rng, node: not (mentions("children")(rng)) and (mentions("get")(rng) or mentions("wrappedResult")(rng)), opaque=(S + "ModifiedResult::convert",))) if r.loop]
        ck.need(rows, "the loop over the elements of a list")
        ck.must("elements/" + what, rows, [], lambda r: r.count("conv") == 1 and r.did("keep") and r.end in ("iter", "continue"), "every element of a list is converted, in order")
        ck.must("index/" + what, rows, [], lambda r: r.count("next") == 1 and r.index("conv") < r.index("next"), "every element is converted under its own index")
    # --- leaf results: whatever the conversion of a value throws is an error of this field
    for g in tu.find(S + "ModifiedResult::resolve")[:1]:
        bad = []

        class L(Decision):
            def on_async(self, ctx, st, how, value, node):
                bad.append(how == "ret")
                super().on_async(ctx, st, how, value, node)
        get = lambda c: future_get(c) or (c.name == "operator()" and c.nq.startswith("std::function"))
        d = L({"nocaught": nocaught}, {"take": get, "err": errors_grow}, {"data": wrote("data")}, may_throw=lambda c: EX if get(c) else (), loops={"caught": caught_list})
        rows = ck.table(tu, g, d)
        ck.need(d.async_rows and rows and any(r.did("take") for r in rows), "both ways to resolve a leaf")
        caught_loops(ck, tu, g, "leaf", lambda c: EX if get(c) else ())
        for what, rs in (("now", rows), ("later", d.async_rows)):
            rs = [r for r in rs if r.did("take")]
            ck.must("leaf/%s/no-escape" % what, rs, [], lambda r: r.end == "ret", "a failing leaf does not throw")
            ck.must("leaf/%s/reported" % what, rs, [lambda r: r.did("throw")], lambda r: r.did("err") or r.has("nocaught") or r.did("loop:caught"), "a failing leaf is reported")
            ck.must("leaf/%s/value" % what, rs, [lambda r: not r.did("throw")], lambda r: r.did("data") and not r.did("err"), "a leaf which succeeds is its value")

