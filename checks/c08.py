"""An event reaches exactly the subscriptions of its field whose arguments and directives all match, each once."""
from xcommon import *
from c04 import EX, future_get
from c05 import glob

FIL, ARGS, OBJ, NAME = "std::function<bool", "std::map<", "std::shared_ptr<graphql::service::Object>", "basic_string"
CALLBACK = lambda c: c.nq.startswith("std::function") and c.name == "operator()" and c.obj is not None and fieldname(c.obj) == "callback"


def elem_of(t, field):
    """an element of that member of the registration of a listener of the event"""
    return t[0] == "elem" and any(x[0] == "f" and x[2] == field and mentions("_subscriptions", "_listeners")(x) for x in subterms(t[1]))


def asks(t, fn, field):
    """the filter is asked about one of the entries"""
    return t[0] == "call" and t[1].startswith("std::function") and t[3] is not None and t[3][0] == "v" and t[3][1] == fn and len(t[4]) == 1 and elem_of(t[4][0], field)


def run(ck):
    tu = ck.load(XSRC)
    main = overload(tu, "deliver", LAUNCH, NAME, FIL, FIL, OBJ)
    values = overload(tu, "deliver", LAUNCH, NAME, ARGS, ARGS, OBJ)
    opq = (S + "Object::resolve", S + "buildErrorValues")
    listeners = lambda ctx, rng, node: mentions("_listeners")(rng) and not mentions("_subscriptions")(rng)
    sched = lambda c: (grows(c) and len(c.args) == 1 and any(term_call(x, "std::async") for x in subterms(c.args[0])) and c.obj is not None and c.obj[0] == "v")
    # --- the filters, as callbacks and as values
    kinds = {"argument": ("applyArguments", "arguments"), "directive": ("applyDirectives", "fieldDirectives")}
    at = {k: (lambda fn, fld: lambda t: asks(t, fn, fld))(*v) for k, v in kinds.items()}
    vals = {"argument": ("arguments", "arguments"), "directive": ("directives", "fieldDirectives")}

    def first(fld):
        return lambda t: t[0] == "f" and t[2] == "first" and elem_of(t[1], fld)
    atv = {}
    for k, (var, fld) in vals.items():
        atv[k + ":found"] = (lambda var, fld: lambda t: t[0] == "found" and t[1][0] == "v" and t[1][1] == var and first(fld)(t[2]))(var, fld)
        atv[k + ":equal"] = (lambda var, fld: lambda t: t[0] == "eq" and any(x[0] == "f" and x[2] == "second" and elem_of(x[1], fld) for x in t[1:])
                             and any(x[0] == "f" and x[2] == "second" and mentions(var)(x) and any(first(fld)(y) for y in subterms(x)) and not elem_of(x[1], fld) for x in t[1:]))(var, fld)
    for what, f, atoms, yes, no in (("filter", main, at, lambda k: lambda r: r.has(k, True), lambda k: lambda r: r.has(k, False)),
                                    ("values", values, atv, lambda k: lambda r: r.has(k + ":found", True) and r.has(k + ":equal", True), lambda k: lambda r: r.has(k + ":found", False) or r.has(k + ":equal", False))):
        for k, (var, fld) in kinds.items():
            mine = (lambda fld: lambda ctx, rng, node: rng[0] == "f" and rng[2] == fld and mentions("_subscriptions")(rng))(fld)
            rows = [r for r in ck.table(tu, f, Decision(atoms, {}, unit=mine, opaque=opq), partial=True) if r.loop]
            ck.ob("%s/%s/any" % (what, k), bool(rows), where(f), "the %ss of a subscription are compared with the event" % k)
            ck.must("%s/%s/asked" % (what, k), rows, [], lambda r: yes(k)(r) or no(k)(r), "every %s of the subscription is compared with the event" % k)
            ck.must("%s/%s/next" % (what, k), rows, [lambda r: yes(k)(r) and not no(k)(r)], lambda r: r.end in ("iter", "continue"), "a matching %s does not decide about the others" % k)
        d = Decision(atoms, {"sched": sched, "direct": CALLBACK}, unit=listeners, opaque=opq, may_throw=lambda c: (S + "schema_exception",) if c.nq == S + "Object::resolve" else (),
                     loops={"arguments": lambda r: r[0] == "f" and r[2] == "arguments", "directives": lambda r: r[0] == "f" and r[2] == "fieldDirectives"})
        rows = [r for r in ck.table(tu, f, d) if r.loop]
        reach = lambda r: r.count("sched") + r.count("direct")
        ck.ob(what + "/any", any(reach(r) for r in rows), where(f), "a subscription gets the event")
        for k in kinds:
            ck.never("%s/mismatch/%s" % (what, k), rows, [no(k)], reach, "a subscription with a %s that does not match is left out" % k)
        ck.must(what + "/match", rows, [lambda r: not any(no(k)(r) for k in kinds)], lambda r: reach(r) == 1, "a subscription that matches gets the event exactly once, even if its fields fail")
        ck.must(what + "/looked", rows, [reach], lambda r: r.did("loop:arguments") and r.did("loop:directives"), "the arguments and directives of a subscription are compared before it gets the event")
        ck.must(what + "/goes-on", rows, [], lambda r: r.end in ("iter", "continue"), "one subscription does not keep the event from the others")
        later = [r for r in d.async_rows if r.did("direct")]
        if any(r.did("sched") for r in rows):
            ck.need(later, "the call of the callback")
            ck.must(what + "/called", later, [], lambda r: r.count("direct") == 1, "the callback is called exactly once")
    # --- whose callback, with what
    calls = []

    class C(Decision):
        def on_call(self, ctx, st, c):
            if CALLBACK(c):
                calls.append((ctx.where(c.node), c.obj, c.args))
            return super().on_call(ctx, st, c)
    isreg = lambda t: t[0] == "f" and t[2] == "second" and mentions("_subscriptions", "find")(t) or term_call(t, "graphql::internal::sorted_map::at")
    C({}, {}, opaque=opq, may_throw=lambda c: (S + "schema_exception",) if c.nq == S + "Object::resolve" else ()).run(tu, main)
    ck.need(calls, "the callback of a subscription")
    for w, o, a in calls:
        ck.ob("own-callback", o[0] == "f" and mentions("_subscriptions")(o) and any(x[0] == "elem" and mentions("_listeners")(x) for x in subterms(o)), w, "the callback is that of the subscription")
        alts = [y for x in a for y in unwrap(x)]
        ck.ob("own-result", len(a) == 1 and all(any(term_call(x, S + "Object::resolve") or x[0] == "call" and x[1].endswith("::get_future") or (x[0] == "v" and x[1] == "promise") for x in subterms(y)) for y in alts), w, "the callback gets the response of the subscription")
    # --- when there is nothing to deliver to
    at = {"supported": lambda t: t[0] == "found" and fieldname(t[1]) == "_operations" and "strSubscription" in glob(t[2]), "merged": lambda t: t[0] == "phi" and mentions("subscriptionObject")(t), "given": lambda t: t[0] == "v" and t[1] == "subscriptionObject",
          "default": lambda t: t[0] == "f" and t[2] == "second" and mentions("_operations")(t), "listeners": lambda t: t[0] == "found" and fieldname(t[1]) == "_listeners"}
    thrown = []

    class T(Decision):
        def on_throw(self, ctx, st, etype, term, node):
            return self.add(st, "throw:" + str(etype).replace("class ", "").split("::")[-1], ctx, node)
    d = T(at, {"resolve": call_is(S + "Object::resolve"), "sched": sched, "direct": CALLBACK}, opaque=opq, loops={"listeners": lambda r: listeners(None, r, None), "await": lambda r: r[0] == "v" and "future" in str(r) or r[0] == "v" and r[1] == "callbacks"})
    rows = ck.table(tu, main, d)
    ck.need(any(r.has("supported", False) for r in rows) and any(r.has("listeners", False) for r in rows), "the conditions of deliver")
    ck.must("unsupported", rows, [("supported", False)], lambda r: r.end == "throw" and r.did("throw:logic_error") and not r.did("sched"), "delivering without subscriptions is an error")
    ck.must("no-object", rows, [("supported", True), lambda r: r.has("merged", False) or r.has("given", False) and r.has("default", False)], lambda r: r.end == "throw" and r.did("throw:invalid_argument"), "delivering without an object is an error")
    ck.must("object-enough", rows, [("supported", True), lambda r: r.end == "throw" and r.did("throw:invalid_argument")], lambda r: r.has("given", False) or r.has("merged", False), "an object for the event is enough, there does not have to be a default")
    ck.must("object-checked", rows, [lambda r: r.did("resolve") or r.did("loop:listeners")], lambda r: r.has("supported", True) and (r.has("given", True) or r.has("merged", True) or r.has("default", True)), "nothing is delivered without an object")
    ck.must("no-listeners", rows, [("listeners", False)], lambda r: r.end == "ret" and not r.did("sched") and not r.did("loop:listeners"), "an event nobody listens to is no error")
    ck.must("delivered", rows, [("listeners", True), lambda r: r.end == "ret"], lambda r: r.did("loop:listeners"), "an event is delivered to the listeners of its field")
    used = []

    class L(Decision):
        def on_branch(self, ctx, st, atom, val):
            if atom[0] == "found" and fieldname(atom[1]) == "_listeners":
                used.append(atom)
            return super().on_branch(ctx, st, atom, val)

        def on_call(self, ctx, st, c):
            if c.nq == S + "Object::resolve":
                given = at["given"]
                v = [v for a, v in st.facts.items() if given(a)]
                roots.append((ctx.where(c.node), c.obj, v))
                return ("opaque", st)
            return super().on_call(ctx, st, c)
    roots = []
    dd = L({"given": at["given"]}, {}, opaque=opq)
    dd.run(tu, main)
    ck.ob("own-listeners", used and all(x[2][0] == "v" and x[2][-1] == main["p"][1]["d"] for x in used), where(main), "the listeners are those of the field of the event")
    for w, o, v in roots:
        o = [x for x in unwrap(o)]
        if v == [True]:
            ck.ob("root/given", all(x[0] == "v" and x[1] == "subscriptionObject" for x in o), w, "the object passed for the event is resolved")
        elif v == [False]:
            ck.ob("root/default", all(x[0] == "f" and x[2] == "second" and "strSubscription" in glob(x) for x in o), w, "without an object for the event the default is resolved")
    ck.need(any(v for _, _, v in roots), "the root object of an event")
    # --- all callbacks have returned when deliver returns
    if any(r.did("sched") for r in rows):
        futs = lambda ctx, rng, node: rng[0] == "v" and rng[1] != "this" and not mentions("_listeners")(rng)
        rows2 = [r for r in ck.table(tu, main, Decision({}, {"wait": lambda c: c.name in ("get", "wait") and c.nq.startswith("std::future") and c.obj is not None and c.obj[0] == "elem"}, unit=futs, opaque=opq)) if r.loop]
        ck.need(rows2, "waiting for the callbacks")
        ck.must("awaited", rows2, [], lambda r: r.count("wait") == 1 and r.end in ("iter", "continue"), "deliver returns after every callback has returned")
        ck.must("await-reached", rows, [lambda r: r.did("loop:listeners") and r.end == "ret"], lambda r: r.did("loop:await") and r.index("loop:await") > r.index("loop:listeners"), "deliver waits for the callbacks it started")
    # --- the overloads mean the same
    n = 0
    for f in tu.find(R + "deliver"):
        if f is main:
            continue
        n += 1
        what = ",".join("L" if LAUNCH in p["t"] else "F" if FIL in p["t"] else "A" if ARGS in p["t"] else "O" if OBJ in p["t"] else "N" for p in f["p"])
        fwd = []

        class Fw(Decision):
            def on_call(self, ctx, st, c):
                if c.nq == R + "deliver":
                    if c.fn is not None and c.fn["id"] != main["id"]:
                        return None
                    fwd.append((ctx.where(c.node), c.args))
                    return ("opaque", self.add(st, "fwd", ctx, c.node))
                return super().on_call(ctx, st, c)
        rows = ck.table(tu, f, Fw({}, {}))
        ck.must("overload/%s/once" % what, rows, [], lambda r: r.end == "ret" and r.count("fwd") == 1, "every overload delivers the event once")
        ps = f["p"]

        def par(t, frag, nth=0):
            c = [p for p in ps if frag in p["t"]]
            return len(c) > nth and t[0] == "v" and t[-1] == c[nth]["d"]
        for w, a in fwd:
            ck.ob("overload/%s/name" % what, len(a) == 5 and par(a[1], NAME + "<char, std::char_traits<char>, std::allocator<char>> &"), w, "every overload delivers to the listeners of its field")
            ck.ob("overload/%s/object" % what, par(a[4], OBJ), w, "every overload resolves the object it is given")
            ck.ob("overload/%s/launch" % what, par(a[0], LAUNCH) if any(LAUNCH in p["t"] for p in ps) else a[0][0] == "enum" and a[0][1].endswith("deferred"), w, "every overload uses the launch policy it is given, or none")
            nf = sum(1 for p in ps if FIL in p["t"])
            if nf:
                ck.ob("overload/%s/filters" % what, par(a[2], FIL, 0) and (nf == 1 or par(a[3], FIL, 1)), w, "every overload applies the filters it is given")
        # what the filters made by the overload say
        have = sum(1 for p in ps if ARGS in p["t"])
        nf = sum(1 for p in ps if FIL in p["t"])
        if nf == 2:
            continue
        names = [p["n"] for p in ps if ARGS in p["t"]]
        for k, fld in (("argument", "arguments"), ("directive", "fieldDirectives")):
            if nf == 1 and k == "argument":
                continue
            want = names[0] if k == "argument" and have else names[1] if k == "directive" and have == 2 else None
            fnd = (lambda want, fld: lambda t: t[0] == "found" and first(fld)(t[2]) and (t[1][0] == "v" and t[1][1] == want if want else t[1][0] == "new" and not t[1][2]))(want, fld)
            eq = (lambda fld: lambda t: t[0] == "eq" and any(x[0] == "f" and x[2] == "second" and elem_of(x[1], fld) for x in t[1:]) and any(x[0] == "f" and x[2] == "second" and any(first(fld)(y) for y in subterms(x)) and not elem_of(x[1], fld) for x in t[1:]))(fld)
            mine = (lambda fld: lambda ctx, rng, node: rng[0] == "f" and rng[2] == fld and mentions("_subscriptions")(rng))(fld)
            d = Decision({"found": fnd, "equal": eq}, {"sched": sched, "direct": CALLBACK}, unit=listeners, opaque=opq)
            rows = [r for r in ck.table(tu, f, d, partial=True) if r.loop]
            if not want:
                inner = [r for r in ck.table(tu, f, Decision({}, {}, unit=mine, opaque=opq), partial=True) if r.loop]
                ck.must("overload/%s/any-%s" % (what, k), inner, [], lambda r: r.end in ("iter", "continue"), "what the event does not say anything about does not decide")
                continue
            inner = [r for r in ck.table(tu, f, Decision({"found": fnd, "equal": eq}, {}, unit=mine, opaque=opq), partial=True) if r.loop]
            ck.ob("overload/%s/%s-any" % (what, k), bool(inner), where(f), "the %ss of a subscription are compared with those given" % k)
            ck.must("overload/%s/%s-compared" % (what, k), inner, [], lambda r: r.has("found", False) or (r.has("found", True) and r.seen("equal")), "every %s is looked up and compared" % k)
            ck.never("overload/%s/%s-differs" % (what, k), rows, [lambda r: r.has("found", False) or r.has("equal", False)], lambda r: r.did("sched") or r.did("direct"), "a subscription with another %s is left out" % k)
    ck.need(n >= 1, "the overloads of deliver")
