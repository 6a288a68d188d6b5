"""The response document: data exactly once, errors exactly if there are any, and every error with its message, location and path."""
from xcommon import *
from c04 import errors_grow, nocaught, future_get, is_null, EX
from c05 import glob


def run(ck):
    tu, tt = ck.load(XSRC, PROBE)
    dl = [g for g in tu.find(R + "deliver") if len(g["p"]) == 5 and all("function" in g["p"][i]["t"] for i in (2, 3))]
    ck.need(len(dl) == 1, "Request::deliver with filters")
    isget = lambda t: t[0] == "call" and t[1].endswith("future::get")

    class Doc(Decision):
        def on_call(self, ctx, st, c):
            if c.name == "emplace_back" and len(c.args) == 2:
                k = glob(c.args[0])
                v = c.args[1]
                vs = unwrap(v)
                if k == {"strData"}:
                    ok = all(fieldname(x) == "data" and isget(x[1]) for x in vs if not is_null(x))
                    st = self.add(st, "data:" + ("null" if all(is_null(x) or (fieldname(x) == "data" and x[1][0] == "v") for x in vs) else "result" if ok else "other"), ctx, c.node)
                    return ("opaque", st)
                if k == {"strErrors"}:
                    built = all(any(term_call(x, S + "buildErrorValues") and any(fieldname(y) == "errors" or mentions("getStructuredErrors")(y) or mentions("_structuredErrors")(y) for y in x[4]) for x in subterms(w))
                                or (w[0] == "call" and w[1] == S + "schema_exception::getErrors") for w in vs)
                    st = self.add(st, "errors:" + ("ok" if built else "other"), ctx, c.node)
                    return ("opaque", st)
            return super().on_call(ctx, st, c)

        def on_catch(self, ctx, st, etype, node):
            return self.add(st, "caught", ctx, node)
    opq = (OD + "visit", R + "findOperationDefinition", R + "findUnvalidatedOperationDefinition", S + "buildErrorValues", S + "Object::resolve", S + "schema_exception::getErrors", S + "schema_exception::getStructuredErrors")
    noerr = lambda t: t[0] == "empty" and (fieldname(t[1]) == "errors" or mentions("getStructuredErrors")(t) or (t[1][0] == "phi" and any(fieldname(x) == "errors" for x in unwrap(t[1]))))
    for what, f in (("resolve", overload(tu, "resolve", LAUNCH, STATE, AST, STR, VARS)), ("resolveUnvalidated", tu.one(R + "resolveUnvalidated")), ("deliver", dl[0])):
        d = Doc({"noerr": noerr}, {}, may_throw=lambda c: (S + "schema_exception",) if isget_call(c) else (), opaque=opq)
        rows = ck.table(tu, f, d)
        n = lambda r, p: sum(1 for e in r.events if e.startswith(p))
        docs = [r for r in d.async_rows if n(r, "data:")]
        ck.need(docs and any(n(r, "errors:") for r in docs), "the document of " + what)
        ck.must("document/%s/data" % what, docs, [], lambda r: n(r, "data:") == 1 and (r.did("data:result") or (r.did("throw") and r.did("data:null"))), "the document has the data of the result exactly once")
        ck.must("document/%s/errors" % what, docs, [("noerr", False)], lambda r: r.did("errors:ok") and n(r, "errors:") == 1, "the errors of the result are reported")
        ck.must("document/%s/no-errors" % what, docs, [("noerr", True), lambda r: not r.has("noerr", False)], lambda r: n(r, "errors:") == 0, "a document without errors does not have the errors entry")
        ck.must("document/%s/decided" % what, docs, [lambda r: n(r, "errors:")], lambda r: r.has("noerr", False) and r.did("errors:ok"), "errors are only reported if there are any")
        ck.must("document/%s/first" % what, docs, [lambda r: n(r, "errors:")], lambda r: min(i for i, e in enumerate(r.events) if e.startswith("data:")) < r.index("errors:ok"), "the data comes first")
        if what != "deliver":
            asyncs = [r for r in d.async_rows if n(r, "data:") or r.end == "throw"]
            ck.never("document/%s/no-escape" % what, asyncs, [], lambda r: r.end == "throw", "schema errors of the operation end up in the document")
            ck.must("document/%s/failed" % what, rows, [lambda r: r.did("caught")], lambda r: n(r, "data:") == 1 and r.did("data:null") and r.did("errors:ok") and r.end == "ret", "a failed request is a document with null data and the errors")
    # --- one entry per error
    f = tu.one(S + "buildErrorValues")
    each = lambda t, name: any(x[0] == "f" and x[2] == name and x[1][0] == "elem" for x in subterms(t))
    err = {"message": "strMessage", "line": "strLine", "column": "strColumn", "locations": "strLocations", "path": "strPath"}

    class E(Decision):
        def on_call(self, ctx, st, c):
            if c.name == "emplace_back" and len(c.args) == 2:
                for k, g in err.items():
                    if glob(c.args[0]) == {g}:
                        v = c.args[1]
                        ok = {"message": each(v, "message"), "line": fieldname(v[2][0] if v[0] == "new" and v[2] else v) == "line" and each(v, "location"),
                              "column": fieldname(v[2][0] if v[0] == "new" and v[2] else v) == "column" and each(v, "location"), "locations": v[0] == "new", "path": v[0] == "new"}[k]
                        return ("opaque", self.add(st, k + ("" if ok else ":bad"), ctx, c.node))
            elif c.name == "emplace_back" and len(c.args) == 1:
                a = c.args[0]
                if c.obj is not None and c.obj[0] == "new" and "List" in short(c.obj):
                    return ("opaque", self.add(st, "append:" + ("segment" if any(x[0] == "f" and str(x[2]).startswith("as:") for x in subterms(a)) else "map"), ctx, c.node))
            return super().on_call(ctx, st, c)
    at = {"noloc": lambda t: t[0] == "eq" and ("c", 0) in t and any(fieldname(x) == "line" for x in t[1:]), "nopath": lambda t: t[0] == "empty" and each(t, "path")}
    top = lambda ctx, rng, node: not mentions("path")(rng)
    rows = [r for r in ck.table(tu, f, E(at, {}, unit=top)) if r.loop]
    ck.need(rows and any(r.has("noloc", False) for r in rows) and any(r.has("nopath", False) for r in rows), "the errors of a document")
    ck.must("entry/message", rows, [], lambda r: r.count("message") == 1, "every error has its message")
    ck.must("entry/location", rows, [("noloc", False)], lambda r: r.count("line") == 1 and r.count("column") == 1 and r.count("locations") == 1, "an error with a location reports its line and column")
    ck.must("entry/location-kept", rows, [("noloc", False)], lambda r: r.count("append:map") >= 2, "the line and column of an error are in its list of locations")
    ck.must("entry/no-location", rows, [("noloc", True)], lambda r: not (r.did("line") or r.did("column") or r.did("locations")), "an error without a location does not report one")
    ck.must("entry/path", rows, [("nopath", False)], lambda r: r.count("path") == 1, "an error with a path reports it")
    ck.must("entry/no-path", rows, [("nopath", True)], lambda r: not r.did("path"), "an error without a path does not report one")
    ck.never("entry/values", rows, [], lambda r: any(e.endswith(":bad") for e in r.events), "the entries of an error are those of the error")
    ck.must("entry/appended", rows, [], lambda r: r.events and r.events[-1] == "append:map", "every error is appended to the errors of the document")
    d = E({"name": lambda t: t[0] == "is_alt" and "basic_string_view" in str(t[2]), "index": lambda t: t[0] == "is_alt" and "unsigned long" in str(t[2])}, {},
          unit=lambda ctx, rng, node: fieldname(rng) == "path" or mentions("path")(rng))
    rows = [r for r in ck.table(tu, f, d) if r.loop]
    ck.need(rows, "the segments of a path")
    none = lambda r: r.has("name", False) and r.has("index", False)
    ck.must("path/segment", rows, [lambda r: not none(r)], lambda r: r.count("append:segment") == 1, "every segment of a path is reported, in order")
    for k in ("name", "index"):
        o = "index" if k == "name" else "name"
        ck.must("path/kind/" + k, rows, [lambda r: not r.did("append:segment")], lambda r: r.has(k, False), "a segment is only left out if it is neither a name nor an index")
    # --- paths start at the root
    f = tu.one(S + "buildErrorPath")
    d = Decision({}, {"front": lambda c: c.name in ("push_front", "emplace_front") and mentions("segment")(c.args[0]), "back": lambda c: c.name in ("push_back", "emplace_back") and mentions("segment")(c.args[0]) and not any(x[0] == "elem" for x in subterms(c.args[0])),
                      "begin": lambda c: c.name == "insert" and len(c.args) == 2 and mentions("begin")(c.args[0]), "turn": lambda c: c.name in ("reverse", "rbegin", "crbegin")}, {"up": lambda l, r, op: r is not None and mentions("parent")(r)})
    rows = ck.table(tu, f, d)
    up = [r for r in rows if r.did("up")]
    ck.need(up, "the walk to the root of a path")
    ck.must("path/root-first", up, [], lambda r: (r.did("front") or r.did("begin")) and not r.did("back") and not r.did("turn") or (r.did("back") and r.did("turn")), "the path of an error starts at the root")
    # --- exceptions keep their errors
    f = tu.one(S + "schema_exception::convertMessages")
    rows = [r for r in ck.table(tu, f, Decision({}, {"keep": lambda c: grows(c) and any(x[0] == "new" and x[1].endswith("schema_error") and x[2] and x[2][0][0] == "elem" for a in c.args for x in subterms(a))}, unit=lambda ctx, rng, node: True)) if r.loop]
    ck.need(rows, "the messages of an exception")
    ck.must("messages", rows, [], lambda r: r.count("keep") == 1, "every message of an exception is an error")
    f = tu.one(S + "schema_exception::getStructuredErrors")
    rows = ck.table(tu, f, Decision({}, {}, value=True))
    ck.ob("structured", all(fieldname(r.value) == "_structuredErrors" for r in rows), where(f), "the errors of an exception are those it was thrown with")
    f = tu.one(S + "schema_exception::getErrors")
    rows = ck.table(tu, f, Decision({}, {}, value=True, opaque=(S + "buildErrorValues",)))
    ck.ob("values", all(term_call(r.value, S + "buildErrorValues") and mentions("_structuredErrors")(r.value[4][0]) for r in rows), where(f), "the errors of an exception are those it was thrown with")
    # --- errors of fields know where they come from
    pos = lambda t: (t[0] == "new" and t[1].endswith("schema_location") and len(t[2]) == 2 and fieldname(t[2][0]) == "line" and fieldname(t[2][1]) == "column" and all(mentions("begin")(x) for x in t[2])) or (t[0] == "call" and t[1].endswith("::getLocation"))
    path = lambda t: (term_call(t, S + "buildErrorPath") or (t[0] == "v" and t[1] == "result"))
    sites = {}

    class At(Decision):
        def on_new(self, ctx, st, ctype, args, node):
            if ctype.endswith("::schema_error") and args:
                l = args[1] if len(args) > 1 else None
                p = args[2] if len(args) > 2 else None
                good = l is not None and pos(l) and p is not None and path(p)
                st = self.add(st, "made:" + ("full" if good else "bare"), ctx, node)
            return super().on_new(ctx, st, ctype, args, node)

        def on_catch(self, ctx, st, etype, node):
            return self.add(st, "caught:" + ("schema" if "schema_exception" in str(etype) else "other"), ctx, node)

        def on_write(self, ctx, st, l, r, op, node):
            if fieldname(l) == "location" and r is not None:
                st = self.add(st, "fill:location" if pos(r) else "fill:bad", ctx, node)
            elif fieldname(l) == "path" and r is not None and "errorPath" not in str(l):
                st = self.add(st, "fill:path" if path(r) else "fill:bad", ctx, node)
            return st
    noline = lambda t: t[0] == "eq" and ("c", 0) in t and any(fieldname(x) == "line" for x in t[1:])
    nopath = lambda t: t[0] == "empty" and fieldname(t[1]) == "path"
    # while a field is resolved
    f = tu.one(SV + "visitField")
    opq = (VV + "visit", DV + "visit", DV + "shouldSkip", S + "buildErrorPath", S + "ResolverParams::getLocation")
    d = At({"noline": noline, "nopath": nopath}, {}, may_throw=lambda c: EX if resolver_call(c) else (), opaque=opq, unit=lambda ctx, rng, node: mentions("getStructuredErrors")(rng) or mentions("_structuredErrors")(rng), outer=True)
    rows = [r for r in ck.table(tu, f, d) if r.loop]
    ck.need(rows and any(r.has("noline", True) for r in rows), "errors thrown by a resolver")
    ck.must("field/location", rows, [("noline", True)], lambda r: r.did("fill:location"), "an error without a location gets that of its field")
    ck.must("field/path", rows, [("nopath", True)], lambda r: r.did("fill:path"), "an error without a path gets that of its field")
    for a in ("noline", "nopath"):
        ck.must("field/asked-" + a, rows, [lambda r: r.end in ("iter", "continue")], lambda r: r.seen(a), "every error of a resolver is completed, whatever it brings itself")
    ck.must("field/kept-location", rows, [("noline", False)], lambda r: not r.did("fill:location") and not r.did("fill:bad"), "an error with a location keeps it")
    ck.must("field/kept-path", rows, [("nopath", False)], lambda r: not r.did("fill:path") and not r.did("fill:bad"), "an error with a path keeps it")
    for what, q in (("field", SV + "visitField"), ("spread", SV + "visitFragmentSpread"), ("no-selection", S + "requireSubFields"), ("selection", S + "blockSubFields")):
        rows = ck.table(tu, tu.one(q), At({}, {}, may_throw=lambda c: EX if resolver_call(c) else (), opaque=opq + (SV + "visit",)))
        ck.need(any(r.did("made") or any(e.startswith("made:") for e in r.events) for r in rows), "errors of " + q)
        ck.never("made/" + what, rows, [], lambda r: r.did("made:bare"), "an error of a field knows its location and path")
    # where results are collected
    leaf = tu.find(S + "ModifiedResult::resolve")[0]
    sites = [("object", tu, tu.one(S + "Object::resolve"), lambda ctx, rng, node: mentions("_values")(rng) or mentions("getValues")(rng), lambda c: future_get(c) and c.obj is not None and any(x[0] == "elem" for x in subterms(c.obj))),
             ("leaf", tu, leaf, None, lambda c: future_get(c) or (c.name == "operator()" and c.nq.startswith("std::function")))]
    sites += [("list", tt, g, lambda ctx, rng, node: mentions("children")(rng) and rng[0] == "v", lambda c: future_get(c) and c.obj is not None and any(x[0] == "elem" for x in subterms(c.obj))) for g, w in converts(tt, "list")[:1]]
    for what, t, g, unit, getter in sites:
        d = At({"nocaught": nocaught}, {"err": errors_grow}, unit=unit, may_throw=lambda c: EX if getter(c) else (), opaque=(SV + "visit", S + "buildErrorPath", S + "ResolverParams::getLocation"))
        rows = ck.table(t, g, d, partial=True)
        rows = [r for r in rows if r.loop] if unit else rows + d.async_rows
        ck.need(any(r.did("caught:schema") for r in rows) and any(r.did("caught:other") for r in rows), "failures collected by " + what)
        ck.must("located/%s/schema" % what, rows, [lambda r: r.did("caught:schema"), lambda r: r.did("err")], lambda r: r.did("fill:location") and r.did("fill:path"), "errors thrown later than the call of the resolver get the location and path of their field")
        ck.must("located/%s/other" % what, rows, [lambda r: r.did("caught:other")], lambda r: r.did("made:full") and not r.did("made:bare"), "an exception thrown later than the call of the resolver is reported with the location and path of its field")
    # --- the path of a field is that of its selection set and its response name; that of an element its list's and its index
    paths = []

    class P(Decision):
        def on_new(self, ctx, st, ctype, args, node):
            if ctype.endswith("::field_path") and len(args) == 2:
                paths.append((ctx.where(node), args))
            return super().on_new(ctx, st, ctype, args, node)
    ck.table(tu, tu.one(SV + "visitField"), P({}, {}, opaque=opq))
    ck.need(paths, "the path of a field")
    for w, a in paths:
        els = {x[2] for x in subterms(a[1]) if x[0] == "elem" and len(x) == 3}
        ck.ob("field-path", fieldname(a[0]) == "_path" and els == {"alias_name", "field_name"}, w, "the path of a field ends in its response name")
    for g, what in converts(tt, "list"):
        paths = []
        d = P({}, {"conv": lambda c: c.name == "convert" and c.nq == S + "ModifiedResult::convert" and any(x[0] == "elem" for a in c.args for x in subterms(a)), "take": lambda c: future_get(c) and c.obj is not None and any(x[0] == "elem" for x in subterms(c.obj))},
              {"path": lambda l, r, op: fieldname(l) == "errorPath", "zero": lambda l, r, op: op == "=" and r == ("c", 0)}, opaque=(S + "ModifiedResult::convert",))
        rows = ck.table(tt, g, d)
        rows = rows + d.async_rows
        ck.need(paths, "the path of an element")
        ck.ob("element-parent/" + what, any(mentions("errorPath")(a[0]) for w, a in paths), paths[0][0], "the path of an element starts with that of its list")
        for w, a in paths:
            ck.ob("element-path/" + what, (mentions("errorPath")(a[0]) or "nullopt" in str(a[0])) and a[1] == ("c", 0), w, "the path of an element is that of its list and its index, from zero")
        ck.must("element-path-set/" + what, rows, [lambda r: r.did("conv")], lambda r: order(r, "path", "conv"), "elements are converted under a path of their own")
        # where the results of the elements are taken
        d = Decision({}, {"take": lambda c: future_get(c) and c.obj is not None and any(x[0] == "elem" for x in subterms(c.obj))},
                     {"next": lambda l, r, op: op in ("++", "+=", "=") and mentions("errorPath", "segment")(l)},
                     unit=lambda ctx, rng, node: mentions("children")(rng) and rng[0] == "v", may_throw=lambda c: EX if future_get(c) else ())
        rows = [r for r in ck.table(tt, g, d, partial=True) if r.loop]
        ck.need(rows and any(r.did("throw") for r in rows), "the elements of a list that fail")
        ck.must("element-next/" + what, rows, [], lambda r: r.count("next") == 1 and r.end in ("iter", "continue"), "every element, failed or not, moves the index on")
    # --- a location is line and column
    g = tu.one(S + "ResolverParams::getLocation")
    rows = ck.table(tu, g, Decision({}, {}, value=True))
    ck.ob("location", rows and all(pos(r.value) for r in rows), where(g), "the location of a field is where it begins")


def isget_call(c):
    return c.nq.endswith("future::get") and "ResolverResult" in str(c.node.get("f"))
