"""The registry of subscriptions: every successful subscribe adds exactly one entry under a fresh key, unsubscribe removes exactly that one."""
from xcommon import *
from c04 import EX, future_get
from c05 import glob
from facts import _walk

REG = ("_subscriptions", "_listeners", "_nextKey")
READS = ("find", "at", "begin", "end", "cbegin", "cend", "rbegin", "crbegin", "rend", "crend", "empty", "size", "count", "contains", "lower_bound", "upper_bound", "equal_range", "back", "front")


def under(field):
    """the container held by that member, or one of its values"""
    def p(t):
        while t is not None:
            if fieldname(t) == field:
                return True
            if t[0] in ("old", "f"):
                t = t[1]
            elif t[0] == "call" and t[1].split("::")[-1] in ("at", "find", "operator[]", "emplace", "try_emplace", "insert") and t[3] is not None:
                t = t[3]
            elif t[0] == "idx":
                t = t[1]
            elif t[0] == "f" and t[2] in ("first", "second"):
                t = t[1]
            else:
                return False
        return False
    return p


def strip(t):
    while t[0] in ("old",) or (t[0] == "new" and "basic_string" in t[1] and len(t[2]) == 1):
        t = t[1] if t[0] == "old" else t[2][0]
    return t


class Reg(Decision):
    """effects on the registry, with their keys"""
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.keys = {}

    def note(self, st, ev, ctx, node, key=None):
        self.keys.setdefault(ev, []).append((ctx.where(node), key))
        return self.add(st, ev, ctx, node)

    def on_call(self, ctx, st, c):
        if c.obj is not None and c.name not in READS:
            subs, lis = under("_subscriptions")(c.obj), under("_listeners")(c.obj)
            direct = fieldname(c.obj)
            if subs and direct == "_subscriptions":
                if grows(c) and len(c.args) == 2:
                    return ("opaque", self.note(st, "sub+", ctx, c.node, c.args))
                if c.name == "erase" and len(c.args) == 1:
                    return ("opaque", self.note(st, "sub-", ctx, c.node, c.args))
                return ("opaque", self.note(st, "sub?", ctx, c.node))
            if lis and direct == "_listeners" and c.name == "operator[]":
                return ("opaque", st)
            if lis and direct == "_listeners" and c.name == "erase" and len(c.args) == 1:
                ok = any(a[0] == "empty" and v and under("_listeners")(a[1]) and fieldname(a[1]) != "_listeners" for a, v in st.facts.items())
                return ("opaque", self.note(st, "list-" + ("" if ok else ":nonempty"), ctx, c.node, c.args))
            if lis and direct != "_listeners":
                if grows(c) and len(c.args) == 1:
                    return ("opaque", self.note(st, "key+", ctx, c.node, (c.obj, c.args[0])))
                if c.name == "erase" and len(c.args) == 1:
                    return ("opaque", self.note(st, "key-", ctx, c.node, (c.obj, c.args[0])))
            if lis:
                return ("opaque", self.note(st, "list?", ctx, c.node))
        return super().on_call(ctx, st, c)

    def on_write(self, ctx, st, l, r, op, node):
        if fieldname(l) == "_nextKey":
            if op in ("++",):
                return self.note(st, "next++", ctx, node)
            last = lambda t: t[0] == "f" and t[2] == "first" and t[1][0] == "call" and t[1][1].split("::")[-1] in ("rbegin", "crbegin", "back") and mentions("_subscriptions")(t)
            plus = r is not None and r[0] not in ("c",) and any(last(x) for x in subterms(r)) and ("c", 1) in list(subterms(r)) and "+" in str(short(r))
            if r == ("c", 0):
                none = any(a[0] == "empty" and fieldname(a[1]) == "_subscriptions" and v for a, v in st.facts.items())
                return self.note(st, "next=0" + ("" if none else ":used"), ctx, node)
            return self.note(st, "next=last+1" if plus else "next=other", ctx, node)
        if fieldname(l) in REG:
            return self.note(st, "assign:" + fieldname(l), ctx, node)
        return super().on_write(ctx, st, l, r, op, node)


def run(ck):
    tu = ck.load(XSRC)
    sub, unsub = overload(tu, "subscribe", PARAMS, CB), overload(tu, "unsubscribe", KEY)
    asub, aunsub = overload(tu, "subscribe", LAUNCH, PARAMS, CB), overload(tu, "unsubscribe", LAUNCH, KEY)
    fd = R + "findOperationDefinition"
    # --- subscribe
    d = Reg({}, {}, opaque=(SD + "visit", fd, R + "validate"), value=True)
    rows = ck.table(tu, sub, d)
    done = [r for r in rows if r.end == "ret"]
    ck.need(done, "the registration of a subscription")
    n = lambda r, p: sum(1 for e in r.events if e.startswith(p))
    ck.must("subscribe/once", done, [], lambda r: n(r, "sub") == 1 and r.count("sub+") == 1 and n(r, "key") == 1 and r.count("key+") == 1 and n(r, "list") == 0, "a successful subscribe adds exactly one subscription and one listener")
    ck.must("subscribe/fresh", done, [], lambda r: r.count("next++") == 1 and n(r, "next") == 1 and n(r, "assign") == 0, "a successful subscribe moves on to a key that was never given to a subscription that still exists")
    ck.never("subscribe/failed", rows, [lambda r: r.end == "throw"], lambda r: any(e.split(":")[0] in ("sub+", "key+", "sub-", "key-", "sub?", "list?", "list-") for e in r.events), "a subscribe that fails leaves the registry as it was")
    keys = {"sub+": [k[0] for _, k in d.keys.get("sub+", [])], "key+": [k[1] for _, k in d.keys.get("key+", [])], "ret": [r.value for r in done]}
    allk = [strip(x) for v in keys.values() for x in v]
    ck.ob("subscribe/same-key", len(set(map(str, allk))) == 1 and allk and all(mentions("_nextKey")(x) for x in allk), where(sub), "the subscription, its listener and the caller get the same fresh key")
    isreg = lambda t: any(term_call(x, SD + "getRegistration") or x[0] == "f" and x[2] == "_result" for x in subterms(t))
    ck.ob("subscribe/registration", all(isreg(k[1]) for _, k in d.keys.get("sub+", [])), where(sub), "what is registered is the registration of this subscription")
    fieldkey = lambda o: any(x[0] == "f" and x[2] == "field" and isreg(x) for x in subterms(o))
    ck.ob("subscribe/field", all(fieldkey(k[0]) for _, k in d.keys.get("key+", [])), where(sub), "the listener is listed under the field the subscription selects")
    # --- unsubscribe
    d = Reg({"known": lambda t: t[0] == "found" and fieldname(t[1]) == "_subscriptions"}, {}, value=True)
    rows = ck.table(tu, unsub, d)
    ck.need(any(r.has("known", True) for r in rows) and any(r.has("known", False) for r in rows), "the lookup of the key")
    ck.must("unsubscribe/unknown", rows, [("known", False)], lambda r: not [e for e in r.events if e != "throw"], "a key that is not registered changes nothing")
    known = [r for r in rows if r.has("known", True)]
    ck.must("unsubscribe/removed", known, [], lambda r: r.count("sub-") == 1 and n(r, "sub") == 1 and r.count("key-") == 1 and n(r, "key") == 1 and r.end == "ret", "the subscription and its listener are removed, nothing else")
    ck.must("unsubscribe/order", known, [lambda r: n(r, "list-")], lambda r: r.index("key-") < min(i for i, e in enumerate(r.events) if e.startswith("list-")), "the listeners of a field are dropped after the key")
    ck.never("unsubscribe/others", rows, [], lambda r: any(e in ("list-:nonempty", "list?", "sub?") or e.startswith("assign") for e in r.events), "the other listeners of the field stay")
    ck.must("unsubscribe/alive", known, [lambda r: r.did("sub-")], lambda r: all(r.index("sub-") > i for i, e in enumerate(r.events) if e.startswith(("key-", "list-"))),
            "the registration lives until its listener is gone, since the name of its field is still used")
    ck.never("unsubscribe/next", rows, [], lambda r: any(e in ("next=0:used", "next=other", "next++") for e in r.events), "the next key stays above all keys in use")
    ck.must("unsubscribe/next-after", known, [lambda r: n(r, "next")], lambda r: r.index("sub-") < min(i for i, e in enumerate(r.events) if e.startswith("next")), "the next key follows from the subscriptions that are left")
    p0 = unsub["p"][0]["d"]
    iskey = lambda t: any(x[0] == "v" and x[-1] == p0 for x in subterms(t))
    for ev in ("sub-", "key-", "list-"):
        for w, k in d.keys.get(ev, []):
            if ev == "sub-":
                ok = iskey(k[0])
            elif ev == "key-":
                ok = strip(k[1]) [0] == "v" and iskey(k[1]) and own_field(k[0], iskey)
            else:
                ok = own_field(k[0], iskey)
            ck.ob("unsubscribe/own/" + ev, ok, w, "what is removed belongs to the key")
    # --- subscribe with notification
    opq = (R + "subscribe", R + "unsubscribe", S + "Object::resolve")
    issub = lambda c: c.nq == R + "subscribe" and len(c.args) == 2
    notify = lambda c: c.nq == S + "Object::resolve" or (future_get(c) and mentions("resolve")(c.obj or ()))
    d = Reg({}, {"subscribe": issub, "undo": lambda c: c.nq == R + "unsubscribe" and len(c.args) == 1 and term_call(strip(c.args[0]), R + "subscribe"), "undo?": call_is(R + "unsubscribe"),
                 "notify": notify}, may_throw=lambda c: EX if notify(c) else (), opaque=opq, value=True)
    d.run(tu, asub)
    ck.table(tu, asub, d)
    rows = d.async_rows
    ck.need(any(r.did("notify") for r in rows) and any(r.did("throw") for r in rows), "the notification of the Subscription object")
    ck.must("async-subscribe/once", rows, [], lambda r: r.count("subscribe") == 1, "it subscribes exactly once")
    ck.must("async-subscribe/undone", rows, [lambda r: r.end == "throw" and r.did("notify")], lambda r: r.did("undo") and not r.did("undo?") and r.index("notify") < r.index("undo"), "a failed notification does not leave the subscription behind")
    ck.must("async-subscribe/reported", rows, [lambda r: r.did("notify") and r.did("throw")], lambda r: r.end == "throw", "a failed notification is reported to the caller")
    ck.must("async-subscribe/kept", rows, [lambda r: r.end == "ret"], lambda r: not r.did("undo") and not r.did("undo?") and term_call(strip(r.value), R + "subscribe"), "the caller gets the key of the subscription, which stays")
    ck.never("async-subscribe/else", rows, [], lambda r: any(e[:4] in ("sub+", "sub-", "key+", "key-", "list") or e.startswith(("next", "assign")) for e in r.events), "it changes the registry through subscribe and unsubscribe only")
    # a base class copy is not rethrown
    sliced = []
    for f in (asub, aunsub):
        def look(x):
            if x.get("k") == "catch":
                v = x.get("v") or {}
                def thr(y, v=v):
                    if y.get("k") == "throw" and y.get("e") and mentions_decl(y["e"], v.get("d")):
                        sliced.append(y)
                _walk(x, thr)
        _walk(f["body"], look)
    ck.ob("rethrown-as-is", not sliced, where(asub), "the exception of a failed notification is rethrown as it is, not as a copy of its base class")
    # --- unsubscribe with notification
    d = Reg({}, {"remove": lambda c: c.nq == R + "unsubscribe" and len(c.args) == 1 and strip(c.args[0])[0] == "v" and strip(c.args[0])[1] == "key", "notify": notify},
            may_throw=lambda c: EX if notify(c) else (), opaque=opq)
    ck.table(tu, aunsub, d)
    rows = d.async_rows
    ck.need(any(r.did("notify") for r in rows), "the notification of the Subscription object")
    ck.must("async-unsubscribe/removed", rows, [lambda r: r.end == "ret"], lambda r: r.count("remove") == 1, "it removes the subscription once")
    ck.must("async-unsubscribe/before", rows, [lambda r: r.did("notify") and r.did("remove")], lambda r: max(i for i, e in enumerate(r.events) if e == "notify") < r.index("remove"), "the Subscription object is notified while the subscription still exists")
    ck.never("async-unsubscribe/else", rows, [], lambda r: any(e[:4] in ("sub+", "sub-", "key+", "key-", "list") or e.startswith(("next", "assign")) for e in r.events), "it changes the registry through unsubscribe only")
    # --- whose subscription is it that is notified
    for f, what in ((asub, "subscribe"), (aunsub, "unsubscribe")):
        own = []

        class O(Decision):
            def on_call(self, ctx, st, c):
                if c.nq == S + "Object::resolve":
                    for a in list(c.args[1:]) + list(c.args[0][2][1:3] if c.args[0][0] == "new" else []):
                        own.append((ctx.where(c.node), a))
                    return ("opaque", st)
                return super().on_call(ctx, st, c)
        O({}, {}, opaque=opq).run(tu, f)
        ck.need(own, "the notification in " + what)
        isk = (lambda t: any(term_call(x, R + "subscribe") for x in subterms(t))) if what == "subscribe" else (lambda t: any(x[0] == "v" and x[1] == "key" for x in subterms(t)))
        ck.ob("own-registration/" + what, all(mentions("_subscriptions")(a) and isk(a) for _, a in own), own[0][0], "the Subscription object is notified about the subscription of this key")
    # --- nobody else changes the registry
    callers = call_graph([tu])
    allowed = {R + "subscribe", R + "unsubscribe", R + "Request", R + "~Request"}
    n = 0
    for g in tu.functions:
        hits = []
        _walk(g.get("body"), lambda x: hits.append(x) if x.get("k") == "mem" and x.get("n") in REG else None)
        if not hits or g["nq"] in allowed:
            continue
        n += 1
        if only_from(callers, g["nq"], allowed):
            continue
        e = Reg({}, {})
        rows = e.run(tu, g)
        evs = {x for r in rows + e.async_rows for x in r.events if x[:4] in ("sub+", "sub-", "sub?", "key+", "key-", "list", "next", "assi")} | set(e.keys)
        ck.saw(g)
        ck.ob("who-writes/" + g["nq"].split("::")[-1], not evs, where(g), "only subscribe and unsubscribe change the registry")
    ck.need(n, "readers of the registry")
    # --- the registration is made of the parts of this subscription
    made = []

    class M(Decision):
        def on_new(self, ctx, st, ctype, args, node):
            if ctype.endswith("service::SubscriptionData") and len(args) == 8:
                made.append((ctx.where(node), args))
            return super().on_new(ctx, st, ctype, args, node)
    v = tu.one(SD + "visit")
    M({}, {}, opaque=(VV + "visit", DV + "visit", SD + "visitSelection")).run(tu, v)
    ck.need(made, "the registration of a subscription")
    for w, a in made:
        ck.ob("parts/data", a[0][0] == "new" and len(a[0][2]) == 4 and fieldname(a[0][2][0]) == "state" and fieldname(a[0][2][1]) == "variables" and fieldname(a[0][2][3]) == "_fragments", w, "the subscription keeps its state, variables and fragments")
        for i, m in ((1, "_field"), (2, "_arguments"), (3, "_fieldDirectives"), (4, "query"), (5, "operationName"), (6, "_callback")):
            ck.ob("parts/" + m.strip("_"), fieldname(strip(a[i])) == m, w, "the subscription keeps its own " + m.strip("_"))
        sel = any(x[0] == "call" and x[1].endswith("::back") and mentions("children")(x) or (x[0] == "elem" and x[2:] == ("selection_set",)) for x in subterms(a[7]))
        ck.ob("parts/selection", sel and any(x[0] == "v" and x[-1] == v["p"][0]["d"] for x in subterms(a[7])), w, "the subscription keeps its own selection")
    for rec in ("SubscriptionData", "OperationData"):
        g = tu.one(S + rec + "::" + rec)
        for i in g["inits"] or []:
            m = i.get("m") or i.get("n")
            if m in {p["n"] for p in g["p"]}:
                ds = set()
                _walk(i, lambda x: ds.add(x.get("d")) if x.get("k") == "ref" else None)
                ck.ob("kept/%s/%s" % (rec, m), {p["d"] for p in g["p"] if p["n"] == m} & ds, where(g), "the data of an operation is kept as given")
    # the field that is found is recorded with its own arguments and directives
    f = tu.one(SD + "visitField")
    d = Decision({"skip": lambda t: term_call(t, DV + "shouldSkip"), "first": lambda t: t[0] == "empty" and fieldname(t[1]) == "_field"},
                 {}, {"field": lambda l, r, op: fieldname(l) == "_field" and r is not None and any(x[0] == "elem" and x[2:] == ("field_name",) for x in subterms(r)), "field?": wrote("_field"),
                      "args": lambda l, r, op: fieldname(l) == "_arguments", "dirs": lambda l, r, op: fieldname(l) == "_fieldDirectives" and r is not None and mentions("_directives")(r)}, opaque=(VV + "visit", DV + "visit", DV + "shouldSkip"))
    rows = ck.table(tu, f, d)
    ck.must("field/recorded", rows, [("skip", False), lambda r: r.end == "ret"], lambda r: all(r.did(e) for e in ("field", "args", "dirs")), "the field of the subscription is recorded with its arguments and directives")
    ck.must("field/single", rows, [lambda r: r.did("field") or r.did("field?")], lambda r: r.has("first", True), "a second field does not replace the first")
    ck.must("field/extra", rows, [("first", False)], lambda r: r.end == "throw", "a second field is an error")
    rows = [r for r in ck.table(tu, f, Decision({}, {"eval": call_is(VV + "visit"), "arg": lambda c: c.name == "emplace_back" and len(c.args) == 2 and value_of_visitor(c.args[1]) and mentions("front")(c.args[0])},
                                                unit=lambda ctx, rng, node: mentions("arguments", "children")(rng), opaque=(VV + "visit", DV + "visit", DV + "shouldSkip"))) if r.loop]
    ck.need(rows, "the arguments of the field of a subscription")
    ck.must("field/arguments", rows, [], lambda r: order(r, "eval", "arg") and r.count("arg") == 1, "every argument is recorded with its own value")
    # the field is searched wherever it can be: in every selection, in fragments that apply
    for q, unit in ((SD + "visit", lambda ctx, rng, node: mentions("children", "back")(rng) or mentions("selection_set")(rng)), (SD + "visitFragmentSpread", lambda ctx, rng, node: mentions("_fragments", "children")(rng)),
                    (SD + "visitInlineFragment", lambda ctx, rng, node: mentions("selection_set", "children")(rng))):
        rows = [r for r in ck.table(tu, tu.one(q), Decision({}, {"visit": lambda c: c.nq == SD + "visitSelection" and any(x[0] == "elem" for x in subterms(c.args[0]))}, unit=unit, opaque=(SD + "visitSelection", VV + "visit", DV + "visit", DV + "shouldSkip"))) if r.loop]
        ck.need(rows, "the loop over the selections of " + q)
        ck.must("searched/" + q.split("::")[-1], rows, [], lambda r: r.count("visit") == 1 and r.end in ("iter", "continue"), "every selection is searched")
    f = tu.one(SD + "visitSelection")
    sub = ("visitField", "visitFragmentSpread", "visitInlineFragment")
    rows = ck.table(tu, f, Decision({k: (lambda k: lambda t: t[0] == "is_type" and t[2] == k)(k) for k in ("field", "fragment_spread", "inline_fragment")}, {x: call_is(SD + x) for x in sub}, opaque=tuple(SD + x for x in sub)))
    for k, e in zip(("field", "fragment_spread", "inline_fragment"), sub):
        fits = [r for r in rows if not r.has(k, False) and not any(r.has(o) for o in ("field", "fragment_spread", "inline_fragment") if o != k)]
        ck.need(fits, k)
        ck.must("dispatch/" + k, fits, [], lambda r: r.count(e) == 1, "a selection is searched according to its kind")
    for q in ("visitFragmentSpread", "visitInlineFragment"):
        rows = ck.table(tu, tu.one(SD + q), Decision({"match": lambda t: term_call(t, SD + "matchesType"), "skip": lambda t: term_call(t, DV + "shouldSkip"), "cond": own_has("type_condition")},
                                                     {"visit": call_is(SD + "visitSelection")}, opaque=(SD + "visitSelection", SD + "matchesType", VV + "visit", DV + "visit", DV + "shouldSkip")))
        ck.need(any(r.has("match", False) for r in rows), "type condition of " + q)
        ck.never("fragment/%s/other" % q, rows, [("match", False)], "visit", "a fragment on another type does not apply")
    # --- the Subscription object knows its types
    f = tu.one(S + "Object::matchesType")
    rows = ck.table(tu, f, Decision({"known": lambda t: t[0] == "found" and fieldname(t[1]) == "_typeNames" and t[2][0] == "v" and t[2][-1] == f["p"][0]["d"]}, {}, value=True))
    ck.must("type/object", rows, [], lambda r: (r.value is not None and r.value[0] == "found") or r.has("known") and r.value == ("c", True) or r.has("known", False) and r.value == ("c", False), "an object is of the types it has the names of")
    f = tu.one(SD + "matchesType")
    rows = ck.table(tu, f, Decision({"obj": lambda t: fieldname(t) == "_subscriptionObject", "match": lambda t: term_call(t, S + "Object::matchesType")}, {}, value=True, opaque=(S + "Object::matchesType",)))
    says = lambda r, v: r.has("match", v) or (r.value is not None and term_call(r.value, S + "Object::matchesType"))
    ck.must("matches/yes", rows, [("obj", True), lambda r: r.value != ("c", False)], lambda r: says(r, True), "a fragment only applies if the Subscription object says so")
    ck.must("matches/no", rows, [lambda r: r.value != ("c", True)], lambda r: r.has("obj", True) and says(r, False), "a fragment is only left out if the Subscription object says so")


def own_field(t, iskey):
    """mentions the field of the registration that was looked up with the key"""
    return any(x[0] == "f" and x[2] == "field" and mentions("_subscriptions")(x) and iskey(x) for x in subterms(t))


def mentions_decl(e, d):
    hit = []
    _walk(e, lambda x: hit.append(1) if x.get("k") == "ref" and x.get("d") == d and d is not None else None)
    return bool(hit)
