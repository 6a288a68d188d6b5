"""Directive rules of validation: directives are unique at each place, defined, and used where their definition allows;
every place that may carry directives is examined under its own location."""
from vcommon import *

LOC = "graphql::introspection::DirectiveLocation::"


def isdirkids(rng, node=None):
    return rng[0] == "f" and rng[2] == "children" and rng[1][0] == "v"


def run(ck):
    tu = ck.load(SRC)
    f = fn(tu, "visitDirectives")
    loc = ("v", f["p"][0]["n"], f["p"][0]["d"])
    name = lambda k: k[0] == "v" or mentions("directive_name", "string_view")(k)
    d = Decision(atoms={"u:ins": lambda t: t[0] == "inserted" and name(t[2]), "u:fnd": lambda t: t[0] == "found" and t[1][0] == "v" and name(t[2]) and not mentions("arguments")(t[2]),
                        "defd": lambda t: t[0] == "found" and fieldname(t[1]) == "_directives" and name(t[2]),
                        "loc": lambda t: t[0] == "found" and fieldname(t[1]) == "locations" and mentions("_directives", "find")(t[1]) and t[2] == loc,
                        "hasname": isty("directive_name")},
                 events=dict(error=is_err), unit=lambda ctx, rng, node: isdirkids(rng), opaque=BOUND, outer=False, ordered=False,
                 loops=dict(args=lambda r: mentions("arguments")(r)))
    rows = ck.table(tu, f, d)
    ck.need(rows, "visitDirectives has no loop over the directives")
    first = lambda r: not r.did("loop:args")
    ck.evaluated("unique/tested", rows, "u:ins", [tested("u")], "each directive is tested for uniqueness")
    ck.must("unique/error", rows, [dup("u")], "error", "a directive given twice at one place is an error")
    ck.evaluated("defined/tested", rows, "defd", [dup("u")], "each directive is looked up")
    ck.must("defined/error", rows, [("defd", False)], "error", "an undefined directive is an error")
    ck.evaluated("location/tested", rows, "loc", [dup("u"), ("defd", False)], "the place of each directive is compared with the places its definition allows")
    ck.must("location/error", rows, [("loc", False)], "error", "a directive in a place it does not allow is an error")
    ck.ob("quiet", any(r.has("loc", True) and r.has("defd", True) and not r.did("error") for r in rows), f["file"], "a defined directive in an allowed place is accepted")
    # uniqueness is per list of directives: the set is fresh for each call
    sets = {x[1] for d_ in [d] for a in d.memo for x in [a] if d.memo[a] and a[0] in ("inserted", "found") and "u:ins" in d.memo[a] + ("",) or False}
    ck.ob("unique/per-place", all(s[0] == "v" for s in sets), f["file"], "directives are only compared with the others of the same place")

    # ---- every place passes its own location
    class Places(Decision):
        def on_call(self, ctx, st, call):
            if call.nq == V + "visitDirectives":
                a = call.args[0]
                n = a[1].split("::")[-1] if a[0] == "enum" else "|".join(sorted({x[1].split("::")[-1] for x in phi_alts(a) if x[0] == "enum"})) or short(a)
                return ("opaque", self.add(st, "dir:" + n, ctx, call.node))
            return super().on_call(ctx, st, call)

    def typeis(s):
        return lambda t: t[0] == "eq" and mentions("str" + s)(t) and mentions("operation_type")(t)
    for vis, want in (("visitField", "FIELD"), ("visitFragmentSpread", "FRAGMENT_SPREAD"), ("visitInlineFragment", "INLINE_FRAGMENT"), ("visitFragmentDefinition", "FRAGMENT_DEFINITION"), ("visitOperationDefinition", None)):
        f = fn(tu, vis)
        node = ("v", f["p"][-1]["n"], f["p"][-1]["d"])
        d = Places(atoms=dict(isdir=lambda t: is_type(t, "directives") and t[1][0] == "elem" and t[1][1] == ("f", node, "children"), mut=typeis("Mutation"), sub=typeis("Subscription"), qry=typeis("Query")), opaque=BOUND, ordered=False,
                   nonempty=lambda r: r == ("f", node, "children"))
        rows = [r for r in ck.table(tu, f, d) if sum(r.has(x, True) for x in ("mut", "sub", "qry")) <= 1]
        ck.evaluated("place/%s/searched" % vis, rows, "isdir", [], "every %s is searched for directives" % vis[5:])
        ck.must("place/%s/visited" % vis, rows, [("isdir", True)], lambda r: any(e.startswith("dir:") for e in r.events), "the directives found there are validated")
        if want:
            ck.never("place/%s/location" % vis, rows, [], lambda r: any(e.startswith("dir:") and e != "dir:" + want for e in r.events), "they are validated as directives on a %s" % want)
        else:
            for key, w in (("mut", "MUTATION"), ("sub", "SUBSCRIPTION")):
                ck.must("place/%s/%s" % (vis, w), rows, [("isdir", True), (key, True)], lambda r, w=w: {e for e in r.events if e.startswith("dir:")} == {"dir:" + w}, "directives of a %s are validated as such" % w.lower())
                ck.ob("place/%s/%s-told" % (vis, w), any(r.has(key, True) for r in rows), f["file"], "%s operations are told from others" % w.lower())
            ck.must("place/%s/QUERY" % vis, rows, [("isdir", True), lambda r: not r.has("mut", True) and not r.has("sub", True)], lambda r: {e for e in r.events if e.startswith("dir:")} == {"dir:QUERY"}, "directives of a query are validated as such")

    # ---- the constructor registers each directive with all its locations and arguments
    f = [x for x in tu.find(V + "ValidateExecutableVisitor") if not x.get("dep") and len(x["p"]) == 1 and x.get("body")]
    ck.need(f, "the visitor's constructor")
    f = f[0]
    own = lambda t: any(x[0] == "elem" and mentions("directives")(x[1]) for x in subterms(t))
    d = Decision(events=dict(loc=lambda c: grows(c) and fieldname(c.obj) == "locations" and bool(c.args) and c.args[0][0] == "elem" and mentions("locations")(c.args[0])),
                 loops=dict(locs=lambda r: mentions("locations")(r) and own(r)),
                 writes=dict(args=lambda l, r, op: fieldname(l) == "arguments" and any(x[0] == "call" and x[1] == V + "getArguments" and own(x) for x in subterms(r or ())),
                             reg=lambda l, r, op: l[0] == "idx" and fieldname(l[1]) == "_directives" and mentions("name")(l[2]) and own(l[2]),
                             locs=lambda l, r, op: fieldname(l) == "locations" and own(r or ())),
                 unit=lambda ctx, rng, node: mentions("directives")(rng) and not mentions("locations")(rng) and not mentions("args")(rng), opaque=BOUND, nonempty=lambda r: mentions("locations")(r))
    rows = ck.table(tu, f, d)
    ck.ob("registered/all", bool(rows), f["file"], "the schema's directives are registered")
    reg = lambda r: r.did("reg") or any(e.startswith("reg") for e in r.events)
    ck.must("registered/name", rows, [], reg, "each directive is registered under its name")
    ck.must("registered/locations", rows, [], lambda r: r.did("loc") or r.did("locs"), "each directive is registered with all its locations")
    ck.must("registered/arguments", rows, [], "args", "each directive is registered with its arguments")
