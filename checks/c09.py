"""What deferred work refers to stays alive: no closure that outlives its creator borrows from it, and what selections borrow is owned by the operation."""
from xcommon import *
from facts import _walk, strip_targs

ASYNC = ("std::async", "std::thread::thread", "std::packaged_task::packaged_task", "std::thread", "std::packaged_task")
THROUGH = ("move", "forward", "as_const", "ref", "cref")
STORES = ("make_shared", "make_unique", "bind", "bind_front", "push_back", "emplace_back", "emplace", "insert", "push_front", "emplace_front", "insert_or_assign",
          "try_emplace", "assign", "push", "allocate_shared", "make_pair", "make_tuple", "make_optional", "swap", "exchange")
NODE_T = "graphql::peg::ast_node"
FIELD_OWNERS = {"OperationData": (), "SubscriptionData": (NODE_T,), "SubscriptionParams": (), "FragmentDirectives": (), "ResolverResult": ()}


def bare(t):
    return (t or "").replace("const ", "").strip()


def borrowed(t):
    """a type whose values borrow something else than a node of the document"""
    b = bare(t)
    if b.endswith("&"):
        b = b.rstrip("& ").strip()
    if b.endswith("*"):
        return bare(b.rstrip("* ")) != NODE_T
    if b.startswith("std::reference_wrapper<"):
        return bare(b[len("std::reference_wrapper<"):-1]) != NODE_T
    if b.startswith(("std::basic_string_view<", "std::span<", "std::weak_ptr<", "std::initializer_list<")) or "iterator" in b.split("<")[0]:
        return True
    if b.startswith(("std::optional<", "std::vector<", "std::unique_ptr<", "std::shared_ptr<", "std::list<")):
        inner = b.split("<", 1)[1]
        return inner.startswith(("std::reference_wrapper<", "const std::reference_wrapper<")) and NODE_T not in inner.split(">")[0]
    return False


class Escapes:
    """which values handed to a function outlive its call: they reach std::async, a member, a container or the result"""

    def __init__(self, tu):
        self.tu = tu
        self.memo = {}

    def parents(self, root):
        par = {}

        def down(n, up):
            if isinstance(n, dict):
                if "k" in n or "caps" in n or "d" in n:
                    par[id(n)] = up
                    for key, v in n.items():
                        down(v, (n, key))
                else:
                    for key, v in n.items():
                        down(v, up)
            elif isinstance(n, list):
                for i, v in enumerate(n):
                    down(v, (up[0], up[1], i) if up else None)
        down(root, None)
        return par

    def body(self, f):
        if "_par" not in f:
            f["_par"] = self.parents({"k": "root", "body": f.get("body"), "inits": f.get("inits")})
        return f["_par"]

    def param(self, fid, i):
        """parameter i of that function escapes"""
        key = (fid, i)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        g = self.tu.byid.get(fid)
        if g is None or i >= len(g["p"]):
            return None
        r = self.decl(g, g["p"][i]["d"])
        self.memo[key] = r
        return r

    def decl(self, f, d):
        """a use of this variable lets its value escape: 'file:line how'"""
        found = []

        def look(n):
            if found:
                return
            if n.get("k") == "ref" and n.get("d") == d:
                w = self.value(f, n)
                if w:
                    found.append(w)
            elif n.get("k") == "lambda":
                for c in n.get("caps", ()):
                    if c.get("d") == d and not c.get("init") and not c.get("byref"):
                        w = self.value(f, n)
                        if w:
                            found.append(w)
        _walk(f.get("body"), look)
        _walk(f.get("inits"), look)
        return found[0] if found else None

    def value(self, f, n):
        par = self.body(f)
        at = "%s:%s" % (f["file"], n.get("l", f["l"]))
        up = par.get(id(n))
        while up is not None:
            p, key = up[0], up[1]
            idx = up[2] if len(up) > 2 else None
            k = p.get("k")
            if k in ("call", "ctor", "mcall", "new", "op") and key == "a":
                name, nq = p.get("n", ""), strip_targs(p.get("f", "") or bare(p.get("t", "")))
                if nq in ASYNC or name == "async" and nq.startswith("std::"):
                    return self.awaited(f, p) or at + " given to " + nq
                if k == "ctor":
                    if bare(p.get("t", "")).startswith("std::"):
                        pass                     # wrapped: std::function, std::optional, a copy ...
                    else:
                        w = self.param(p.get("fid"), idx)
                        if w:
                            return w
                        # a record which keeps it: follow the record
                elif p.get("fid") in self.tu.byid and not nq.startswith("std::"):
                    return self.param(p.get("fid"), idx)
                elif name in THROUGH:
                    pass
                elif name in STORES:
                    return at + " stored by " + nq
                elif k == "op" and p.get("op") == "=" and idx == 1:
                    t = p["a"][0]
                    return at + " assigned" if t.get("k") == "mem" else self.target(f, t)
                else:
                    return None
            elif k == "op" and p.get("op") == "=":
                t = p.get("o") or (p.get("a") or [{}])[0]
                if t is not n and key != "o":
                    return at + " assigned" if t.get("k") == "mem" else self.target(f, t)
                return None
            elif k in ("mcall", "op", "call") and key in ("o", "c", "fn"):
                return None                      # called
            elif k in ("mem", "idx", "bin", "un", "tobool"):
                return None
            elif k in ("cast", "init", "cond", "other", "defarg"):
                pass
            elif k == "assign":
                return at + " assigned"
            elif k == "ret":
                return at + " returned"
            elif k == "lambda":
                return None                      # part of its body
            elif k == "decl" or (k is None and "d" in p and key == "i"):
                v = p
                return self.decl(f, v["d"]) if "d" in v else None
            elif key == "i" and "d" in p:
                return self.decl(f, p["d"])
            elif key == "e" and "byref" in p:
                lam = par.get(id(p))
                lam = lam[0] if lam else None
                if lam is None or p.get("byref"):
                    return None
                n2 = lam
                return self.value(f, n2)
            elif k == "root" or "m" in p:
                return at + " kept in a member" if "m" in p else None
            else:
                if k in ("expr", "block", "if", "for", "while", "rfor", "try", "switch", "do", "throw"):
                    return None
            up = par.get(id(p))
        return None

    def target(self, f, t):
        return self.decl(f, t["d"]) if t.get("k") == "ref" and t.get("d") is not None else None

    def awaited(self, f, call):
        """std::async(...).get() in one expression: the closure has run when the statement ends"""
        up = self.body(f).get(id(call))
        while up is not None and up[0].get("k") in ("cast", "other", "ctor") and up[1] != "o":
            up = self.body(f).get(id(up[0]))
        return "" if up is not None and up[0].get("k") == "mcall" and up[1] == "o" and up[0].get("n") in ("get", "wait") else None


def async_calls(f):
    r = []
    _walk(f.get("body"), lambda n: r.append(n) if n.get("k") == "call" and (n.get("f") or "").startswith("std::async") else None)
    return r


def calls_of(n, *nqs):
    r = []
    _walk(n, lambda x: r.append(x) if x.get("k") in ("call", "mcall", "op", "ctor") and strip_targs(x.get("f") or "") in nqs else None)
    return r


def run(ck):
    tu, tt = ck.load(XSRC, PROBE)
    n_async = n_lam = 0
    # ---- 1. closures and arguments of everything that runs later
    for t in (tu, tt):
        esc = Escapes(t)
        for f in t.functions:
            if f.get("dep") or not f.get("body") or f["file"].startswith("/"):
                continue
            lams, seen = [], set()
            _walk(f["body"], lambda n: lams.append(n) if n.get("k") == "lambda" else None)
            _walk(f.get("inits"), lambda n: lams.append(n) if n.get("k") == "lambda" else None)
            for lam in sorted(lams, key=lambda n: n["l"]):
                bad = [c for c in lam.get("caps", ()) if (c.get("byref") and bare(c.get("t")) != NODE_T + " &") or c.get("this") or borrowed(c.get("t"))]
                n_lam += 1
                if not bad:
                    continue
                w = esc.value(f, lam)
                names = ", ".join(c.get("n") or "this" for c in bad)
                ck.ob("closure/%s/%s" % (f["nq"].replace(S, ""), names), not w, "%s:%s" % (lam.get("file", f["file"]), lam["l"]),
                      "a closure that outlives the call owns what it uses" + ("; it borrows %s and escapes: %s" % (names, w) if w else ""))
            for i, a in enumerate(sorted(async_calls(f), key=lambda n: n["l"])):
                n_async += 1
                ck.saw(f)
                bad = [x for x in (a.get("ta") or ()) if borrowed(x) and x != "(lambda)" and not isinstance(x, dict)]
                ck.ob("args/%s/%d" % (f["nq"].replace(S, ""), i), not bad or esc.awaited(f, a) == "", "%s:%s" % (f["file"], a["l"]),
                      "deferred work is given values, not references" + ("; it is given %s" % bad[0] if bad else ""))
    ck.need(n_async >= 10, "the asynchronous calls of the service (%d)" % n_async)
    ck.extra["asynchronous_calls"], ck.extra["closures"] = n_async, n_lam
    # ---- 2. what an operation or subscription needs is a part of its shared data
    for rec, allowed in FIELD_OWNERS.items():
        r = tu.record(S + rec)
        for m in r["fields"]:
            t = m["t"]
            bad = (m.get("ref") or t.rstrip().endswith(("&", "*")) or borrowed(t)) and bare(t).rstrip("&* ") not in allowed
            ck.ob("owned/%s/%s" % (rec, m["n"]), not bad, "%s:%s" % (r["file"], r["l"]), "what later steps need is owned by the data of the operation")
        if NODE_T in allowed:
            ck.ob("owned/%s/document" % rec, any(bare(m["t"]) == "graphql::peg::ast" for m in r["fields"]), "%s:%s" % (r["file"], r["l"]),
                  "a subscription owns the document its selection is a part of")
    # ---- 3. a selection is resolved with references into data that is owned until the result is there
    sites = 0
    for f in tu.functions:
        if f.get("dep") or not f.get("body") or f["file"].startswith("/"):
            continue
        for scope, ret in scopes(tu, f):
            for i, c in enumerate(own_calls(scope, S + "Object::resolve")):
                sites += 1
                key = "%s/%s" % (f["nq"].replace(S, ""), i)
                at = "%s:%s" % (f["file"], c["l"])
                locs = locals_of(scope)
                lent = [path_of(x, locs) for x in c["a"][1:]]
                sets = c["a"][0]
                d = locs.get(sets.get("d")) if sets.get("k") == "ref" else None
                kept = [path_of(x, locs) for x in (d or {}).get("args", ())]
                later = "std::future" in (ret or "") and not waits(scope, c)
                ck.ob("lent/%s/returns" % key, not later, at, "the references a selection is resolved with stay valid until it has its result")
                for what, (root, shared) in zip(("selection", "fragments", "variables"), lent):
                    if what != "selection" and root is not None:
                        ck.ob("lent/%s/%s" % (key, what), shared or waits(scope, c), at, "the %s of an operation are owned by its shared data" % what)
                for what, (root, shared) in zip(("context", "state", "directives"), kept):
                    if what != "context" and root is not None:
                        ck.ob("lent/%s/%s" % (key, what), shared or waits(scope, c), at, "the %s of an operation is owned by its shared data" % what)
                # without waiting, the shared data is a part of the closure that takes the result
                if not waits(scope, c):
                    roots = {r for r, s in lent[1:] + kept[1:3] if r is not None and s}
                    lams = []
                    _walk(scope, lambda n: lams.append(n) if n.get("k") == "lambda" else None)
                    for r in sorted(roots):
                        held = any(cap.get("d") == r and not cap.get("byref") for x in lams for cap in x.get("caps", ())) or \
                            any(not cap.get("byref") and cap.get("e") and any_ref(cap["e"], r) for x in lams for cap in x.get("caps", ()))
                        ck.ob("lent/%s/held" % key, held, at, "the closure that takes the result owns the data the selection was resolved with")
    ck.need(sites >= 4, "places which resolve a selection")
    # ---- 4. the directives of fragments are lent to the fields, so the pending fields own them
    f = tu.one(S + "Object::resolve")
    rec = tu.record(S + "SelectionVisitor")
    g = tu.one(SV + "visitField")
    lists = lent_members(tu, g)
    ck.need(lists is not None, "the parameters of a field")
    member = {m["n"]: m for m in rec["fields"]}
    glocs = locals_of(g["body"])
    for i, a in enumerate(field_args(g)):
        bad = temporary(a, glocs)
        ck.ob("directives/lent/%d" % i, not bad, "%s:%s" % (g["file"], a.get("l", g["l"])), "a pending field is given references to what outlives the visit" + ("; this is " + bad if bad else ""))
    moved_to = {}
    for m in sorted(lists):
        t = bare(member[m]["t"])
        if member[m].get("ref") or "shared_ptr" in t:
            continue
        ck.ob("directives/%s/stable" % m, t.startswith(("std::list<", "std::forward_list<", "std::map<")), where(g), "what fields refer to does not move when a fragment is entered")
    lost, seen = [], set()
    work = list(lists)
    while work:
        m = work.pop()
        if m in seen or member[m].get("ref") or "shared_ptr" in member[m]["t"]:
            continue
        seen.add(m)
        for h in tu.functions:
            if h.get("cls") != S + "SelectionVisitor" and not h["nq"].startswith(SV):
                continue

            def look(n, h=h, m=m):
                if n.get("k") == "mcall" and n.get("o", {}).get("k") == "mem" and n["o"].get("n") == m:
                    if n["n"] in ("pop_back", "pop_front", "clear", "erase", "resize", "remove", "remove_if", "assign", "unique", "pop", "swap", "extract"):
                        lost.append(("%s:%s" % (h["file"], n["l"]), m, n["n"]))
                if n.get("k") == "mcall" and n.get("n") in ("splice", "merge", "splice_after") and any(a.get("k") == "mem" and a.get("n") == m or any_mem(a, m) and i == 1 for i, a in enumerate(n["a"])):
                    o = n.get("o", {})
                    if o.get("k") == "mem":
                        moved_to.setdefault(m, set()).add(o["n"])
                        work.append(o["n"])
            _walk(h.get("body"), look)
    ck.ob("directives/kept", not lost, lost[0][0] if lost else where(g), "the directives of a fragment stay alive after it was left" + ("; %s.%s destroys what fields refer to" % lost[0][1:] if lost else ""))
    for m in sorted(seen):
        ck.ob("directives/%s/owned" % m, handed(tu, f, m), where(f), "the pending fields own the directives they were given, even after the selection was visited")
    # ---- 5. error paths point to their parents: whoever lends one waits for the result
    n = 0
    for t in (tu, tt):
        for f in t.functions:
            if f.get("dep") or not f.get("body") or f["file"].startswith("/"):
                continue
            for scope, ret in scopes(t, f):
                locs = locals_of(scope)
                for c in own_calls(scope, "std::cref", "std::ref"):
                    if "field_path" not in (c.get("t") or ""):
                        continue
                    root, shared = path_of(c["a"][0], locs)
                    if root is None:
                        continue
                    n += 1
                    ck.ob("paths/%s" % f["nq"].replace(S, ""), "std::future" not in (ret or ""), "%s:%s" % (f["file"], c["l"]), "a path is lent only to work that is awaited before the path is gone")
    ck.need(n >= 1, "paths lent to elements of a list")
    # ---- 6. names of pending fields are parts of the document
    for q in ("visitField",):
        g = tu.one(SV + q)
        d = Names()
        ck.table(tu, g, d, partial=True)
        ck.need(d.pending, "the names of pending fields")
        views = {k for k, v in locals_of(g["body"]).items() if bare(v["t"]).startswith("std::basic_string_view")}
        bad = [x for x in d.pending if not all(y[0] in ("c",) or y[0] == "v" and y[2] in views or y[0] == "call" and y[1].endswith("ast_node::string_view") or y[0] == "new" and not y[2] for y in flat(x[0]))]
        ck.ob("names/" + q, not bad, bad[0][1] if bad else where(g), "the name a pending field is reported under is a part of the document")


def flat(t):
    r = []
    for x in unwrap(t):
        while x[0] == "new" and len(x[2]) == 1:
            x = x[2][0]
        r.append(x) if x[0] != "phi" else r.extend(flat(x))
    return r


class Names(Decision):
    def __init__(self):
        self.pending = []
        super().__init__({}, {}, opaque=(VV + "visit", DV + "visit", DV + "shouldSkip"))

    def on_call(self, ctx, st, c):
        if c.obj is not None and fieldname(c.obj) == "_values" and c.name in ("push_back", "emplace_back") and c.args:
            a = c.args[0]
            while a[0] == "new" and len(a[2]) == 1:
                a = a[2][0]
            x = a[2][0] if a[0] == "new" and len(a[2]) == 2 and c.name == "push_back" else a
            self.pending.append((x, ctx.where(c.node) if hasattr(ctx, "where") else ""))
            return ("opaque", st)
        return super().on_call(ctx, st, c)


def scopes(tu, f):
    """the bodies a function consists of (its own, and every closure's) with the type each returns"""
    out = [(f["body"], f.get("ret"))]
    lams = []
    _walk(f["body"], lambda n: lams.append(n) if n.get("k") == "lambda" else None)
    for x in lams:
        out.append((x["body"], x.get("ret")))
    return out


def walk_own(n, fn):
    """without the bodies of closures"""
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            fn(x)
            for k, v in x.items():
                if not (x.get("k") == "lambda" and k == "body"):
                    stack.append(v)
        elif isinstance(x, list):
            stack.extend(x)


def own_calls(scope, *nqs):
    r = []
    walk_own(scope, lambda x: r.append(x) if x.get("k") in ("call", "mcall") and strip_targs(x.get("f") or "") in nqs else None)
    return sorted(r, key=lambda x: x["l"])


def waits(scope, call):
    """the result of this call is taken in the same expression"""
    hit = []

    def look(n):
        if n.get("k") == "mcall" and n.get("n") in ("get", "wait"):
            o = n.get("o")
            while isinstance(o, dict) and o is not call and o.get("k") in ("cast", "other", "ctor"):
                o = (o.get("a") or [o.get("e")])[0] if o.get("k") != "cast" else o.get("e") or (o.get("a") or [None])[0]
            if o is call:
                hit.append(n)
    walk_own(scope, look)
    if hit:
        return True
    # or: the local future it initialises is awaited in this scope
    var = []

    def decl(n):
        if "d" in n and isinstance(n.get("i"), dict):
            x = n["i"]
            while isinstance(x, dict) and x is not call and x.get("k") in ("cast", "ctor", "init") and len(x.get("a") or [x.get("e")]) == 1:
                x = (x.get("a") or [x.get("e")])[0]
            if x is call:
                var.append(n["d"])
    walk_own(scope, decl)

    def got(n):
        if n.get("k") == "mcall" and n.get("n") in ("get", "wait") and n.get("o", {}).get("d") in var and var:
            hit.append(n)
    walk_own(scope, got)
    return bool(hit)


def locals_of(scope):
    """local variables of a body: declaration -> its type and the parts it is made of"""
    r = {}

    def look(n):
        if "d" in n and "t" in n and "n" in n and n.get("k") in (None, "decl", "var") and "byref" not in n:
            i = n.get("i")
            while isinstance(i, dict) and i.get("k") in ("cast",):
                i = i.get("e")
            r[n["d"]] = {"t": n["t"], "i": i, "args": (i.get("a") or []) if isinstance(i, dict) and i.get("k") in ("init", "ctor") else []}
    walk_own(scope, look)
    return r


def path_of(e, locs, depth=0):
    """(declaration the expression is a part of, if that is no mere reference; whether a shared pointer in between owns it)"""
    shared = False
    while isinstance(e, dict) and depth < 30:
        depth += 1
        k = e.get("k")
        if k == "mem":
            e = e.get("b")
        elif k == "op" and e.get("op") in ("->", "*") or k == "mcall" and e.get("n") in ("get", "value"):
            shared = shared or "shared_ptr" in str(e.get("cls") or "")
            e = e.get("o") or (e.get("a") or [None])[0]
        elif k in ("cast", "other") or k == "un":
            e = e.get("e") or (e.get("a") or [None])[0]
        elif k == "ref":
            d = locs.get(e.get("d"))
            if d is None:
                return (None if not shared else e.get("d")), shared
            if d["t"].rstrip().endswith("&") and d["i"] is not None:
                e = d["i"]
                continue
            return e.get("d"), shared
        elif k in ("call", "mcall", "op"):
            return None, shared
        else:
            return None, shared
    return None, shared


def any_ref(n, d):
    r = []
    _walk(n, lambda x: r.append(x) if x.get("k") == "ref" and x.get("d") == d else None)
    return bool(r)


def any_mem(n, name):
    r = []
    _walk(n, lambda x: r.append(x) if x.get("k") == "mem" and x.get("n") == name else None)
    return bool(r)


def temporary(e, locs):
    while isinstance(e, dict):
        k = e.get("k")
        if k in ("ctor", "init", "new"):
            return "a temporary"
        if k == "mem":
            e = e.get("b")
        elif k in ("mcall", "op"):
            if "shared_ptr" in str(e.get("cls") or ""):
                return None
            e = e.get("o") or (e.get("a") or [None])[0]
        elif k in ("cast", "other", "un"):
            e = e.get("e") or (e.get("a") or [None])[0]
        elif k == "cond":
            return None
        elif k == "ref":
            d = locs.get(e.get("d"))
            if d is None:
                return None
            if d["t"].rstrip().endswith("&") and d["i"] is not None:
                e = d["i"]
                continue
            return "the local " + e.get("n", "")
        else:
            return None
    return None


def field_args(g):
    """the references the parameters of a field consist of"""
    out = []

    def look(n):
        i = n.get("i")
        while isinstance(i, dict) and i.get("k") == "cast":
            i = i.get("e")
        if "d" in n and "SelectionSetParams" in (n.get("t") or "") and isinstance(i, dict) and len(i.get("a") or ()) >= 6:
            out.extend(i["a"][1:6])
    _walk(g["body"], look)
    return out


def lent_members(tu, g):
    """the value members of the visitor that the parameters of a field refer to"""
    out = None
    decls = []
    _walk(g["body"], lambda n: decls.append(n) if "d" in n and "SelectionSetParams" in (n.get("t") or "") and isinstance(n.get("i"), dict) else None)
    _walk(g["body"], lambda n: decls.append({"i": n}) if n.get("k") in ("init", "ctor") and "SelectionSetParams" in (n.get("t") or "") and len(n.get("a") or ()) > 3 else None)
    for n in decls:
        i = n["i"]
        while i.get("k") == "cast":
            i = i["e"]
        args = i.get("a") or []
        if len(args) < 6:
            continue
        out = set() if out is None else out
        for a in args[1:6]:
            _walk(a, lambda x: out.add(x["n"]) if x.get("k") == "mem" and x.get("n", "").startswith("_") and x.get("b", {}).get("k") == "this" else None)
    return out


def handed(tu, f, m):
    """the closure that collects the fields is given this member (directly or by an accessor which moves it out)"""
    for a in async_calls(f):
        for x in a["a"][2:]:
            if any_mem(x, m):
                return True
            for c in calls_in(x):
                h = tu.byid.get(c.get("fid"))
                if h is not None and h.get("body") and any_mem(h["body"], m) and "&" not in str(h.get("ret") or ""):
                    return True
        for y in a["a"][1:2]:
            for cap in y.get("caps", ()) if y.get("k") == "lambda" else ():
                if cap.get("e") is not None and not cap.get("byref"):
                    if any_mem(cap["e"], m):
                        return True
                    for c in calls_in(cap["e"]):
                        h = tu.byid.get(c.get("fid"))
                        if h is not None and h.get("body") and any_mem(h["body"], m):
                            return True
    return False


def calls_in(n):
    r = []
    _walk(n, lambda x: r.append(x) if x.get("k") in ("call", "mcall") else None)
    return r
