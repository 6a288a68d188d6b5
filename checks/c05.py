"""Which operation is executed, against which root object, in which context and under which launch policy."""
from xcommon import *

CTX = S + "ResolverContext::"


def enum_is(name):
    return lambda t: t[0] == "enum" and t[1].split("::")[-1] == name


def glob(t):
    return {x[1].split("::")[-1] for x in subterms(t) if x[0] == "g"}


def run(ck):
    tu = ck.load(XSRC)
    # --- the operation that is found
    finders = [("findOperationDefinition", overload(tu, "findOperationDefinition", AST, "string_view")), ("findUnvalidatedOperationDefinition", tu.one(R + "findUnvalidatedOperationDefinition"))]
    opdef = lambda t: any(x[0] == "elem" and x[2:] == ("operation_definition",) and mentions("children")(x[1]) for x in subterms(t))
    for what, f in finders:
        got = []

        class F(Decision):
            def note(self, ctx, st, k, n, node):
                if k is not None:
                    src = {"default" if glob(x) == {"strQuery"} else "written" if any(y[0] == "elem" and y[2:] == ("operation_type",) for y in subterms(x)) else "other" for x in unwrap(k)}
                    st = self.add(st, "found:" + "+".join(sorted(src)), ctx, node)
                if n is not None:
                    st = self.add(st, "node" if n[0] == "elem" and n[2:] == ("operation_definition",) else "badnode", ctx, node)
                return st

            def on_write(self, ctx, st, l, r, op, node):
                if l and r and (l[0] == "v" and l[1] == "result" or r[0] == "new" and "pair" in r[1] and opdef(r)) and r[0] == "new" and len(r[2]) == 2:
                    st = self.note(ctx, st, r[2][0], r[2][1], node)
                elif l and r and l[0] == "f" and l[1][0] == "v" and l[2] in ("first", "second"):
                    st = self.note(ctx, st, r if l[2] == "first" else None, r if l[2] == "second" else None, node)
                return st
        d = F({"any": lambda t: t[0] == "empty" and mentions("operationName")(t), "named": same_name,
               "byname": lambda t: same_name(t) and any(x[0] == "elem" and x[2:] == ("operation_name",) for x in subterms(t)),
               "hasname": lambda t: t[0] == "is_type" and t[2] == "operation_name", "hastype": lambda t: t[0] == "is_type" and t[2] == "operation_type",
               "isop": lambda t: t[0] == "is_type" and t[2] == "operation_definition"},
              unit=lambda ctx, rng, node: mentions("children")(rng) and not opdef(rng), opaque=(R + "validate",))
        rows = [r for r in ck.table(tu, f, d, partial=True) if r.loop]
        found = [r for r in rows if any(e.startswith("found:") for e in r.events)]
        ck.need(found, "the operation that " + what + " finds")
        src = lambda r: {e[6:] for e in r.events if e.startswith("found:")}
        ck.never("find/%s/other" % what, found, [], lambda r: any("other" in s for s in src(r)) or r.count("node") != 1 or r.did("badnode"), "the operation that is found comes with its own type")
        ck.must("find/%s/asked" % what, found, [], lambda r: r.has("any") or (r.has("named") and (r.has("byname") or not r.has("hasname"))), "only the operation of the requested name is found, or any if no name is requested")
        ck.must("find/%s/default" % what, found, [], lambda r: (src(r) == {"default"}) if not r.has("hastype", True) else (src(r) == {"written"}), "an operation without a type is a query, others are of the type that is written")
        ck.must("find/%s/first" % what, found, [], lambda r: r.end in ("ret", "break"), "the first match is final")
        ck.never("find/%s/missed" % what, rows, [lambda r: r not in found, lambda r: r.has("isop", True)], lambda r: r.has("any", True) or (r.has("named", True) and not r.has("named", False)), "no matching operation is passed over")
        ck.must("find/%s/goes-on" % what, rows, [lambda r: r not in found], lambda r: r.end in ("iter", "continue"), "the search goes on until a match")
    # --- what resolve does with it
    ends = [("resolve", overload(tu, "resolve", LAUNCH, STATE, AST, STR, VARS), R + "findOperationDefinition"), ("resolveUnvalidated", tu.one(R + "resolveUnvalidated"), R + "findUnvalidatedOperationDefinition")]
    for what, f, finder in ends:
        made = []

        class X(Decision):
            def on_call(self, ctx, st, c):
                if c.nq == OD + "visit":
                    o = c.obj
                    a = o[2] if o is not None and o[0] == "new" else ()
                    good = len(c.args) == 2 and all(any(term_call(x, finder) for x in subterms(y)) for y in c.args) and fieldname(c.args[0]) == "first" and fieldname(c.args[1]) == "second"
                    kinds = []
                    if len(a) == 6:
                        kinds = ["Mutation" if enum_is("Mutation")(x) else "Query" if enum_is("Query")(x) else "?" for x in unwrap(a[0])]
                        ln = ["deferred" if x[0] == "enum" and x[1].endswith("deferred") else "launch" if x[0] == "v" and x[2] == launch_d else "?" for x in unwrap(a[1])]
                        good = good and mentions("_operations")(a[3]) and a[2][0] == "v" and a[4][0] == "v"
                        st = self.add(st, "exec:%s:%s%s" % ("|".join(kinds), "|".join(ln), "" if good else ":bad"), ctx, c.node)
                    else:
                        st = self.add(st, "exec:?", ctx, c.node)
                    return ("opaque", st)
                return super().on_call(ctx, st, c)
        launch_d = [p for p in f["p"] if LAUNCH in p["t"]][0]["d"]
        typ = lambda k: lambda t: t[0] == "eq" and k in glob(t) and any(term_call(x, finder) for x in subterms(t))
        d = X({"none": lambda t: t[0] in ("f", "call") and t[-1] == "second" and any(term_call(x, finder) for x in subterms(t)), "mut": typ("strMutation"), "sub": typ("strSubscription")},
              {}, opaque=(OD + "visit", finder, R + "validate", S + "buildErrorValues"), callterm=None)
        rows = ck.table(tu, f, d)
        ex = lambda r: [e for e in r.events if e.startswith("exec:")]
        ran = [r for r in rows if ex(r)]
        ck.ob("%s/executed" % what, any(r.has("mut", True) for r in ran) and any(r.has("mut", False) for r in ran), where(f), "mutations and queries are executed, it is asked which of them")
        ck.must("%s/mutation" % what, ran, [("mut", True)], lambda r: ex(r) == ["exec:Mutation:deferred"], "mutations are executed serially, in the context of mutations")
        ck.must("%s/query" % what, ran, [("mut", False)], lambda r: ex(r) == ["exec:Query:launch"], "queries are executed in the context of queries, under the requested launch policy")
        ck.must("%s/known" % what, ran, [], lambda r: r.seen("mut") and r.has("none", True) and r.has("sub", False), "only operations that exist and are no subscriptions are executed")
        ck.must("%s/missing" % what, rows, [("none", False)], lambda r: r.did("throw") and not ex(r), "a missing operation is an error")
        ck.must("%s/subscription" % what, rows, [("sub", True)], lambda r: r.did("throw") and not ex(r), "a subscription is not executed")
    # --- subscribe takes subscriptions only
    f = overload(tu, "subscribe", PARAMS, CB)
    fd = R + "findOperationDefinition"
    isfd = lambda t: any(term_call(x, fd) for x in subterms(t))
    d = Decision({"none": lambda t: t[0] == "f" and t[2] == "second" and isfd(t), "sub": lambda t: t[0] == "eq" and "strSubscription" in glob(t) and isfd(t)},
                 {"visit": lambda c: c.nq == SD + "visit" and len(c.args) == 1 and fieldname(c.args[0]) == "second" and isfd(c.args[0]), "register": lambda c: grows(c) and fieldname(c.obj) == "_subscriptions"},
                 opaque=(SD + "visit", fd, R + "validate"))
    rows = ck.table(tu, f, d)
    ck.need(any(r.did("register") for r in rows), "the registration")
    ck.must("subscribe/selected", rows, [lambda r: r.did("register")], lambda r: order(r, "visit", "register") and r.has("none", True) and r.has("sub", True), "only the selected operation is subscribed to, if it is a subscription")
    ck.must("subscribe/refused", rows, [lambda r: r.has("none", False) or r.has("sub", False)], lambda r: r.end == "throw" and not r.did("register"), "anything but a subscription is refused")
    # --- the root object and the context travel unchanged
    sets = []

    class N(Decision):
        def on_new(self, ctx, st, ctype, args, node):
            if ctype.endswith("SelectionSetParams") and len(args) >= 7:
                sets.append((ctx.where(node), args))
            return super().on_new(ctx, st, ctype, args, node)

        def on_call(self, ctx, st, c):
            if c.nq == S + "Object::resolve":
                calls.append((ctx.where(c.node), c.obj, c.args))
                return ("opaque", st)
            return super().on_call(ctx, st, c)
    dl = [g for g in tu.find(R + "deliver") if len(g["p"]) == 5 and all("function" in g["p"][i]["t"] or "SubscriptionFilterCallback" in g["p"][i]["t"] for i in (2, 3))]
    ck.need(len(dl) == 1, "Request::deliver with filters")
    plan = [("operation", tu.one(OD + "visit"), None, "_launch"), ("notify-subscribe", overload(tu, "subscribe", LAUNCH, PARAMS, CB), "NotifySubscribe", "launch"),
            ("notify-unsubscribe", overload(tu, "unsubscribe", LAUNCH, KEY), "NotifyUnsubscribe", "launch"), ("deliver", dl[0], "Subscription", "launch"), ("field", tu.one(SV + "visitField"), None, "_launch")]
    isempty = lambda t: t[0] == "new" and t[1].endswith("response::Value") and len(t[2]) == 1 and enum_is("Map")(t[2][0])
    for what, f, context, launch in plan:
        sets, calls = [], []
        ck.table(tu, f, N({}, {}, opaque=(R + "subscribe", R + "unsubscribe", S + "Object::resolve", VV + "visit", DV + "visit", DV + "shouldSkip", S + "buildErrorPath")))
        ck.need(sets, "selection set parameters of " + what)
        for w, a in sets:
            c = [x for x in unwrap(a[0])]
            ok = all(enum_is(context)(x) for x in c) if context else all(fieldname(x) == "_resolverContext" for x in c)
            ck.ob("context/" + what, ok, w, "the selection set is resolved in the context of its operation")
            ls = unwrap(a[7]) if len(a) > 7 else []
            ck.ob("launch/" + what, ls and all((fieldname(x) == launch) or (x[0] == "v" and x[1] == launch) for x in ls), w, "the selection set is resolved under the launch policy of its operation")
            if what != "field":
                ck.ob("state/" + what, fieldname(a[1]) == "state", w, "the state of the request is handed to the resolvers")
                ck.ob("directives/" + what, fieldname(a[2]) == "directives", w, "the directives of the operation are handed to the resolvers")
                ck.ob("no-fragment/" + what, all(isempty(x) for x in a[3:6]), w, "the root selection set is in no fragment")
                ck.ob("root-path/" + what, any(n in str(a[6]) for n in ("nullopt", "optional")) and not mentions("errorPath")(a[6]), w, "the path of the root selection set is empty")
            else:
                ck.ob("state/field", fieldname(a[1]) == "_state", w, "the state of the request is handed to the resolvers")
                ck.ob("directives/field", fieldname(a[2]) == "_operationDirectives", w, "the directives of the operation are handed to the resolvers")
                ck.ob("fragment-directives/field", [fieldname(x) for x in a[3:6]] == ["fragmentDefinitionDirectives", "fragmentSpreadDirectives", "inlineFragmentDirectives"] and all(mentions("_fragmentDirectives", "back")(x) for x in a[3:6]), w,
                      "the directives of the innermost fragment are handed to the resolvers")
        if what == "field":
            continue
        ck.need(calls, "the root object of " + what)
        for w, o, a in calls:
            alts = unwrap(o)
            if what == "operation":
                p0 = f["p"][0]["d"]
                ok = all(fieldname(x) == "second" and mentions("_operations", "find")(x) and any(y[0] == "v" and y[-1] == p0 for y in subterms(x)) for x in alts)
                back = a[1][0] == "call" and a[1][1].endswith("::back") and mentions("children")(a[1]) or (a[1][0] == "elem" and a[1][2:] == ("selection_set",))
                ck.ob("selection/" + what, back and any(y[0] == "v" and y[-1] == f["p"][1]["d"] for y in subterms(a[1])), w, "the selection of the operation is resolved")
            else:
                ok = all((fieldname(x) == "second" and mentions("_operations")(x) and "strSubscription" in glob(x)) or (what == "deliver" and x[0] == "v" and x[1] == "subscriptionObject") for x in alts)
                ck.ob("selection/" + what, fieldname(a[1]) == "selection", w, "the selection of the subscription is resolved")
            ck.ob("root/" + what, ok, w, "the selection is resolved against the root object of its operation type")
            ck.ob("scope/" + what, fieldname(a[2]) == "fragments" and fieldname(a[3]) == "variables", w, "the selection is resolved with the fragments and variables of its own document")
    # --- the visitor and the resolver parameters take over what they are given
    for rec, ctor, skip in ((S + "SelectionVisitor", SV + "SelectionVisitor", ()),):
        g = tu.one(ctor)
        want = {"_resolverContext": "resolverContext", "_state": "state", "_operationDirectives": "operationDirectives", "_launch": "launch", "_fragments": "fragments", "_variables": "variables", "_typeNames": "typeNames", "_resolvers": "resolvers"}
        for m, src in want.items():
            i = [x for x in g["inits"] or [] if x.get("m") == m or x.get("n") == m]
            ck.ob("visitor/" + m, bool(i) and names_in(i[0]) & {src}, where(g), "the visitor takes over %s" % src)
    # --- the fragments around a field: every fragment puts its directives on top of a stack and takes them away again
    fd = lambda c: c.obj is not None and fieldname(c.obj) == "_fragmentDirectives" and c.name not in ("back", "size", "empty", "begin", "end", "cbegin", "cend", "reserve", "front", "capacity", "rbegin", "crbegin")
    for q in ("visitFragmentSpread", "visitInlineFragment"):
        class K(Decision):
            def on_call(self, ctx, st, c):
                if fd(c):
                    top = c.name in ("push_back", "emplace_back", "push_front", "emplace_front", "push", "emplace", "pop_back", "pop_front", "pop")
                    return ("opaque", self.add(st, ("push" if "push" in c.name or "emplace" in c.name else "pop" if "pop" in c.name else "other") + c.name[-6:] * (not top), ctx, c.node))
                if c.name == "splice" and len(c.args) > 1 and fieldname(c.args[1]) == "_fragmentDirectives":
                    # the top is moved to where it stays alive: only the last node may go
                    return ("opaque", self.add(st, "pop" if len(c.args) == 3 and last_node(c.args[2]) else "other-splice", ctx, c.node))
                return super().on_call(ctx, st, c)
        d = K({}, {"visit": call_is(SV + "visit")}, opaque=(SV + "visit", VV + "visit", DV + "visit", DV + "shouldSkip"), loops={"fields": lambda r: mentions("children")(r)})
        rows = [r for r in ck.table(tu, tu.one(SV + q), d) if r.end == "ret"]
        ck.need(any(r.did("visit") for r in rows), "the selections of " + q)
        ck.must("fragments/%s/balanced" % q, rows, [], lambda r: r.count("push") == r.count("pop") and not any(e.startswith("other") for e in r.events), "the directives of a fragment end with the fragment")
        ck.must("fragments/%s/around" % q, rows, [lambda r: r.did("visit")], lambda r: r.count("push") == 1 and r.index("push") < r.index("visit") and max(i for i, e in enumerate(r.events) if e == "visit") < r.index("pop"), "the directives of a fragment are those of its fields")
    # --- order of a selection set: begin, the fields in order, end
    f = tu.one(S + "Object::resolve")
    d = Decision({}, {"begin": call_is(S + "Object::beginSelectionSet"), "end": call_is(S + "Object::endSelectionSet"), "visit": call_is(SV + "visit"), "take": call_is(SV + "getValues"), "async": named("async")},
                 loops={"fields": lambda r: r[0] == "f" and r[2] == "children"}, opaque=(SV + "visit", SV + "getValues", S + "Object::beginSelectionSet", S + "Object::endSelectionSet"))
    rows = ck.table(tu, f, d)
    done = [r for r in rows if r.end == "ret"]
    ck.need(any(r.did("visit") for r in done), "the fields of a selection set")
    ck.must("hooks/once", done, [], lambda r: r.count("begin") == 1 and r.count("end") == 1, "a selection set begins once and ends once")
    ck.must("hooks/order", done, [], lambda r: r.index("begin") < r.index("loop:fields") < r.index("end") and all(r.index("begin") < i < r.index("end") for i, e in enumerate(r.events) if e == "visit"), "the fields are visited after the beginning and before the end")


def same_name(t):
    """a comparison of the whole requested name with a whole other name"""
    if t[0] != "eq":
        return False
    sides = [whole(x) for x in t[1:]]
    if ("c", 0) in t[1:]:
        o = [x for x in t[1:] if x != ("c", 0)][0]
        if o[0] == "call" and o[1].endswith("::compare") and len(o[4]) == 1:
            sides = [whole(o[3]), whole(o[4][0])]
    return any(x[0] == "v" and x[1] == "operationName" for x in sides) and all(x[0] != "call" or x[1].endswith("::string_view") or x[1].endswith("::string") for x in sides)


def last_node(t):
    """std::prev(c.end())"""
    while t[0] == "new" and len(t[2]) == 1:
        t = t[2][0]
    return t[0] == "call" and t[1] == "std::prev" and t[4][1:] in ((), (("c", 1),)) and t[4][0][0] == "call" and t[4][0][1].split("::")[-1] in ("end", "cend")


def whole(t):
    while t[0] == "new" and "basic_string" in t[1] and len(t[2]) == 1:
        t = t[2][0]
    return t


def names_in(n):
    from facts import _walk
    out = set()
    _walk(n, lambda x: out.add(x.get("n")))
    return out
