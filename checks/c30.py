"""State that several threads share is only touched under its lock: the cache of wrapped types finds or adds one wrapper per type, resolvers call the getter of their object while they hold its lock and let go of it before they convert the result."""
from xcommon import *
from facts import _walk
from gencommon import outputs

SSRC = "src/Schema.cpp"
SC = "graphql::schema::"
GROWS = ("emplace", "insert", "try_emplace")
READS = ("find", "at", "begin", "end", "cbegin", "cend", "size", "empty", "lower_bound", "equal_range", "count")
LOCKS = {"std::shared_lock": "shared", "std::unique_lock": "unique", "std::lock_guard": "unique", "std::scoped_lock": "unique"}


class Locked(Decision):
    """keeps track of which local locks hold which mutex; on:<mutex>:<kind>:<declaration> and off:<declaration> are its events"""
    watch = staticmethod(lambda t: False)       # what may only be touched under a lock

    def __init__(self, *a, **kw):
        self.found = []         # (where, what, the locks held there)
        self.mutexes = {}
        self.locals = {}        # the locks and their mutex
        super().__init__(*a, **kw)

    def held(self, st):
        r = {}
        for e in st.ts[2]:
            if e.startswith("on:"):
                _, m, k, d = e.split(":")
                r[d] = (m, k)
            elif e.startswith("off:"):
                r.pop(e.split(":")[1], None)
        return frozenset(r.values())

    def note(self, ctx, st, what, node, extra=None):
        self.found.append((ctx.where(node), what, self.held(st), extra))

    def lock(self, ctx, st, m, kind, d, node):
        key = str(self.mutexes.setdefault(m, len(self.mutexes)))
        return self.add(st, "on:%s:%s:%s" % (key, kind, d), ctx, node)

    def on_decl(self, ctx, st, v, val):
        t = strip_targs(v["t"]).strip()
        kind = LOCKS.get(t[6:] if t.startswith("const ") else t)
        if kind is None:
            if not v["t"].rstrip().endswith(("&", "*")) and val is not None and self.watch(val):
                self.note(ctx, st, "copy", v, val)
            return st
        args = val[2] if val is not None and val[0] == "new" else ()
        self.locals[v["d"]] = (args[0] if args else UNKNOWN, kind)
        if not args or any(a == ("g", "std::defer_lock") or a[0] == "new" and "defer_lock" in a[1] for a in args[1:]):
            return st
        return self.lock(ctx, st, args[0], kind, v["d"], v)

    def on_scope(self, ctx, st, decls, kind, value):
        if kind == "ret" and "judged" not in st.ts[2] and value is not None and self.watch(value):
            st = self.add(st, "judged", ctx, ctx.cur or {})
            self.returned(ctx, st, value)
        for d in decls:
            if d in self.locals:
                st = self.add(st, "off:%s" % d, ctx, ctx.cur or {})
        return st

    def returned(self, ctx, st, value):
        if ctx.cur is not None and ctx.cur.get("s") == "ret":
            e = ctx.cur.get("e") or {}
            while e.get("k") in ("ctor", "cast", "paren") and (e.get("a") or e.get("e")):
                e = e["a"][0] if e.get("a") else e["e"]
            if not (e.get("k") == "ref" and e.get("dk") in ("local", "param")):
                self.note(ctx, st, "read", ctx.cur, value)

    def on_write(self, ctx, st, l, r, op, node):
        if r is not None and self.watch(r):
            self.note(ctx, st, "copy", node, r)
        return super().on_write(ctx, st, l, r, op, node)

    def on_call(self, ctx, st, c):
        o = (c.node.get("o") or {}) if c.kind == "mcall" else {}
        if o.get("d") in self.locals and c.nq.split("::")[-2:-1] and "::".join(c.nq.split("::")[:-1]) in LOCKS:
            m, kind = self.locals[o["d"]]
            if c.name == "lock":
                return ("opaque", self.lock(ctx, st, m, kind, o["d"], c.node))
            if c.name in ("unlock", "release"):
                return ("opaque", self.add(st, "off:%s" % o["d"], ctx, c.node))
        return super().on_call(ctx, st, c)


def iterated(t, container):
    """what an iterator into the container leads to"""
    return t[0] == "f" and t[2] in ("second", "first") and any(x[0] == "call" and x[3] is not None and container(x[3]) for x in subterms(t[1]))


def cache(ck, tu):
    f = tu.one(SC + "Schema::WrapType")
    rec = tu.record(SC + "Schema")
    maps = {x["n"] for x in rec["fields"] if "sorted_map" in x["t"] or "std::map" in x["t"] or "unordered_map" in x["t"]}
    kind, of = ("v", f["p"][0]["n"], f["p"][0]["d"]), ("v", f["p"][1]["n"], f["p"][1]["d"])
    is_map = lambda t: t[0] == "f" and t[1] == THIS and t[2] in maps

    class W(Locked):
        watch = staticmethod(lambda t: iterated(t, is_map))

        def on_call(self, ctx, st, c):
            if c.obj is not None and is_map(c.obj):
                self.note(ctx, st, c.name, c.node, c)
                name = "grow" if c.name in GROWS else "read" if c.name in READS else "other"
                return ("opaque", self.add(st, name, ctx, c.node))
            return super().on_call(ctx, st, c)
    asked = lambda t: t[0] == "eq" and kind in t[1:] and any(x[0] == "enum" and x[1].endswith("TypeKind::LIST") for x in t[1:])
    nonnull = lambda t: t[0] == "eq" and kind in t[1:] and any(x[0] == "enum" and x[1].endswith("TypeKind::NON_NULL") for x in t[1:])
    first = Decision({"list": asked, "nonnull": nonnull})
    ck.table(tu, f, first)
    atoms = {t: n for n in ("list", "nonnull") for t in [x for x in first.memo if n in first.memo[x]]}
    ck.need(atoms, "the kind of wrapper")
    used, touched = {}, {}
    for which in ("list", "nonnull"):
        facts = {t: (n == which) for t, n in atoms.items()}
        d = W({"found": lambda t: t[0] == "found" and is_map(t[1]) and len(t) > 2 and t[2] == of}, {}, value=True, cap=40)
        rows = ck.table(tu, f, d, facts=facts)
        label = "wrapper/" + which
        cs = {e.obj for w, n, h, e in d.found if hasattr(e, "obj")}
        ck.ob(label + "/one-cache", len(cs) == 1, where(f), "wrappers of one kind are in one cache")
        if not cs:
            continue
        used[which] = cs
        names = {v: k for k, v in d.mutexes.items()}
        for w, n, h, e in d.found:
            c = next(iter(cs))
            ms = {names[int(m)]: k for m, k in h}
            touched.setdefault(c, []).append((w, n, ms))
            if n in GROWS or n not in READS + ("copy", "read"):
                ck.ob(label + "/alone", "unique" in ms.values(), w, "the cache is only changed while no other thread reads it (%s)" % n)
            else:
                ck.ob(label + "/locked", bool(ms), w, "the cache is only read under its lock (%s)" % n)
            if n in GROWS:
                mk = e.args[1] if len(e.args) > 1 else UNKNOWN
                ck.ob(label + "/made", len(e.args) == 2 and e.args[0] == of and mk[0] == "call" and mk[1] == SC + "WrapperType::Make" and mk[4] == (kind, of), w, "what is added is the wrapper of that kind of that type")
        ck.never(label + "/kept", rows, [], "other", "a wrapper that was given out is never replaced or removed")
        ck.must(label + "/asked", rows, [], lambda r: r.end == "ret" and (r.seen("found") or r.did("grow")), "the cache is asked for the type")
        ck.must(label + "/again", rows, [("found", True)], lambda r: r.did("grow") or all(iterated(x, is_map) for x in unwrap(r.value)), "the wrapper of a type is the same each time")
        ck.must(label + "/new", [r for r in rows if r.did("grow") or not r.has("found")], [], lambda r: r.count("grow") == 1 and all(iterated(x, is_map) and any(y[0] == "call" and y[1].split("::")[-1] in GROWS for y in subterms(x)) for x in unwrap(r.value)),
                "a new wrapper is added once, and the one in the cache is the answer: another thread may have been faster")
    ck.ob("wrapper/separate", len(used) == 2 and not (used["list"] & used["nonnull"]), where(f), "lists and non-null types have a cache each")
    # everybody else
    caches = set().union(*used.values()) if used else set()
    for g in tu.functions:
        if g.get("dep") or g is f or not (g.get("cls") or "").startswith(SC + "Schema") or g["nq"].endswith("::Schema"):
            continue
        hit = []

        def look(n):
            if n.get("k") == "mem" and ("f", THIS, n.get("n")) in caches:
                hit.append(n)
        _walk(g.get("body"), look)
        if hit:
            d = W({}, {}, cap=40)
            ck.table(tu, g, d)
            names = {v: k for k, v in d.mutexes.items()}
            for w, n, h, e in d.found:
                c = e.obj if hasattr(e, "obj") else None
                if c in caches:
                    touched.setdefault(c, []).append((w, n, {names[int(m)]: k for m, k in h}))
                    ck.ob("wrapper/elsewhere", bool(h), w, "the cache is only touched under its lock")
    for c, ts in touched.items():
        same = set.intersection(*[set(ms) for w, n, ms in ts])
        ck.ob("wrapper/lock/" + c[2], bool(same), ts[0][0], "one mutex guards the cache wherever it is touched")
    return len(touched)


VISITOR = ("ValidateExecutableVisitor", "ValidateVariableTypeVisitor")
RQ, QSRC = "graphql::service::Request", "src/GraphQLService.cpp"


def validator(ck, tu):
    """the one visitor which validates every request of a service"""
    rec = tu.record(RQ)
    own = {x["n"] for x in rec["fields"] if any(v in x["t"] for v in VISITOR)}
    ck.need(own, "the visitor which validates requests")
    is_visitor = lambda t: t is not None and any(x[0] == "f" and x[1] == THIS and x[2] in own for x in subterms(t))
    found = []
    for g in tu.functions:
        if g.get("dep") or (g.get("cls") or "") != RQ or g["nq"].split("::")[-1] in ("Request", "~Request"):
            continue
        hit = []
        _walk(g.get("body"), lambda n: hit.append(n) if n.get("k") == "mem" and n.get("n") in own else None)
        if not hit:
            continue

        class V(Locked):
            watch = staticmethod(lambda t: False)

            def on_call(self, ctx, st, c):
                if c.kind == "mcall" and is_visitor(c.obj) and not c.nq.startswith("std::"):
                    self.note(ctx, st, c.name, c.node, c)
                    return ("opaque", self.add(st, "use", ctx, c.node))
                for a in c.args:
                    if is_visitor(a):
                        self.note(ctx, st, "pass", c.node, c)
                return super().on_call(ctx, st, c)
        d = V({}, {}, cap=40)
        ck.table(tu, g, d)
        names = {v: k for k, v in d.mutexes.items()}
        for w, n, h, e in d.found:
            ms = {names[int(m)] for m, k in h if k == "unique"}
            found.append((w, n, ms))
            ck.ob("validator/locked/%s/%s" % (g["nq"].split("::")[-1], n), any(m[0] == "f" and m[1] == THIS for m in ms), w,
                  "the state of the visitor that validates requests is only used under its lock: two requests may be resolved at the same time")
    ck.ob("validator/used", len(found) >= 2, where(tu.one(RQ + "::validate")), "requests are validated by the visitor")
    if found:
        ck.ob("validator/lock", bool(set.intersection(*[m for w, n, m in found])), found[0][0], "one mutex guards the visitor wherever it is used")


def resolvers(ck, tu, prefix=""):
    """generated: the getter runs under the lock of the object, the conversion does not"""
    n = 0
    for g in tu.functions:
        nm = g["nq"].split("::")[-1]
        if g.get("dep") or not nm.startswith("resolve") or not (g.get("cls") or "").split("<")[0].split("::")[-2:-1] or "ResolverParams" not in " ".join(p["t"] for p in g["p"]):
            continue
        cls = g["cls"]

        class R(Locked):
            def on_call(self, ctx, st, c):
                if c.obj == THIS and c.kind == "mcall" and (c.cls == cls or c.nq.split("::")[:2] == cls.split("::")[:2] and c.cls != "graphql::service::Object"):
                    self.note(ctx, st, "get", c.node, c)
                    return ("opaque", self.add(st, "get", ctx, c.node))
                if c.nq.startswith("graphql::service::ModifiedResult::") or c.nq.startswith("graphql::service::ModifiedResult<"):
                    self.note(ctx, st, "convert", c.node, c)
                    return ("opaque", self.add(st, "convert", ctx, c.node))
                return super().on_call(ctx, st, c)
        d = R({}, {}, cap=30)
        rows = ck.table(tu, g, d)
        gets = [x for x in d.found if x[1] == "get"]
        if not gets:
            continue
        n += 1
        label = "%sresolver/%s/%s" % (prefix, cls.split("::")[-1], nm)
        names = {v: k for k, v in d.mutexes.items()}
        own = lambda m: names[int(m)][0] == "f" and names[int(m)][1] == THIS
        for w, _, h, c in gets:
            ck.ob(label + "/locked", any(own(m) and k == "unique" for m, k in h), w, "the getter of an object is called while its lock is held: two getters never run at once")
        for w, _, h, c in [x for x in d.found if x[1] == "convert"]:
            ck.ob(label + "/released", not h, w, "the lock is released before the result is converted: fields of the result may be resolved by the same object")
        ck.must(label + "/order", rows, [], lambda r: r.count("get") <= 1, "the getter is called once")
    return n


GENERATED = ("src/IntrospectionSchema.cpp", "samples/unified/TodaySchema.cpp", "samples/unified_nointrospection/TodaySchema.cpp", "samples/validation/ValidationSchema.cpp")


def run(ck):
    tus = ck.load(SSRC, QSRC, *GENERATED)
    ck.need(cache(ck, tus[0]) >= 1, "caches of wrapped types")
    validator(ck, tus[1])
    for t, src in zip(tus[2:], GENERATED):
        n = resolvers(ck, t)
        ck.need(n >= 20, "resolvers of " + src)
    for o in outputs(ck, lambda r: r[0] in ("probe/schema", "probe/schema --separate-files --no-stubs", "--introspection")):
        n = sum(resolvers(ck, t, o.label + "/") for t in o.tus)
        ck.need(n >= 20, "resolvers of " + o.label)
