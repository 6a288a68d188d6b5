"""A map value holds every name once, in order of insertion, and finds exactly the names it holds."""
from c23 import *
from facts import _walk, strip_targs, AnalysisBroken
from c23 import callees, VD, V, VALUE, SELF, holds, data, where

BEGIN, END = ("begin", "cbegin"), ("end", "cend")
ENTRIES = lambda t, who=SELF: holds(t, "Map", "map", who=who)
INDEX = lambda t, who=SELF: holds(t, "Map", "members", who=who)


def edge(t, names, cont):
    """the begin or end of the entries or of the index"""
    return t[0] == "call" and t[1].split("::")[-1] in names and (t[3] is not None and cont(t[3]) or t[3] is None and len(t[4]) == 1 and cont(t[4][0]))


def whole(args, cont):
    return len(args) >= 2 and edge(args[0], BEGIN, cont) and edge(args[1], END, cont)


SORTED = ("std::equal_range", "std::lower_bound", "std::ranges::lower_bound")
LINEAR = ("std::find_if", "std::any_of", "std::none_of", "std::find_if_not")


class Search:
    """how a function looks a name up: a search of the sorted index, or of the entries one by one"""

    def __init__(self, f, pname):
        self.pname = pname

    def sorted(self, t):
        return t[0] == "call" and t[1] in SORTED and whole(t[4], INDEX)

    def name(self, t):
        return t[0] == "v" and t[1] == self.pname

    def first(self, t):
        """the position the search found"""
        if t[0] == "f" and t[2] in ("first", "#0") and self.sorted(t[1]) and t[1][1].endswith("equal_range"):
            return True
        return self.sorted(t) and t[1].endswith("lower_bound")

    def second(self, t):
        return t[0] == "f" and t[2] in ("second", "#1") and self.sorted(t[1]) and t[1][1].endswith("equal_range")

    def absent(self, t):
        """'the search found nothing', as a condition"""
        if t[0] == "eq":
            a, b = t[1:]
            for x, y in ((a, b), (b, a)):
                if self.first(x) and self.second(y):
                    return True
                if t[1] != t[2] and self.first(x) and edge(y, END, INDEX) and x[0] == "call":
                    return True         # (lower_bound only; see 'differs')
        if t[0] == "elem":
            return False
        return False

    def same(self, t):
        """'the name found is the name looked for'"""
        def at(x):
            return x[0] == "f" and x[2] == "first" and x[1][0] in ("idx", "elem") and ENTRIES(x[1][1])
        return t[0] == "eq" and any(at(x) and self.name(y) for x, y in ((t[1], t[2]), (t[2], t[1])))


def comparator(ck, tu, f, key, name):
    """the order in which the index is searched is that of the names"""
    out = []
    for g in reached(tu, f):
        out += [(g, lam) for lam in searches(g)]
    for f, lam in out:
        compares(ck, tu, f, lam, key, name)
    return bool(out)


def reached(tu, f):
    """the function and the helpers it calls"""
    r, todo = [], [f]
    while todo:
        g = todo.pop()
        if g in r:
            continue
        r.append(g)
        todo += [tu.byid[i] for i in callees(g) if i in tu.byid and not tu.byid[i]["nq"].startswith(V)]
    return r


def searches(f):
    lams = []

    def look(n):
        if n.get("k") == "lambda":
            lams.append(n)
    _walk(f["body"], look)
    sorted_calls = []
    _walk(f["body"], lambda n: sorted_calls.append(n) if n.get("k") == "call" and strip_targs(n.get("f", "")) in SORTED else None)
    out = []
    for c in sorted_calls:
        mine = [a for a in c["a"] if isinstance(a, dict) and contains_lambda(a)]
        for a in mine:
            for lam in [x for x in lams if inside(a, x)]:
                out.append(lam)
    return out


def compares(ck, tu, f, lam, key, name):
    fn = dict(lam, nq="lambda", q="lambda", n="lambda", file=f["file"], cls=None, id=lam.get("fid"))
    ps = lam["p"]
    names = {name} | {c.get("n") for c in lam.get("caps") or () if "basic_string" in (c.get("t") or "")}
    if len(ps) != 2:
        ck.ob(key + "/order", False, "%s:%s" % (f["file"], lam["l"]), "the index is searched in the order of the names")
        return
    par = lambda t, i: t[0] == "v" and len(t) == 3 and t[2] == ps[i]["d"]
    opt = ["optional" in p["t"] for p in ps]
    isname = ["basic_string" in p["t"] for p in ps]
    none = lambda i: lambda t: t[0] == "eq" and any(par(x, i) or x[0] == "some" and par(x[1], i) for x in t[1:]) and any(x == ("g", "std::nullopt") or x == ("none",) for x in t[1:])
    has = lambda i: lambda t: par(t, i) or t[0] == "engaged" and par(t[1], i) or t[0] == "call" and t[1].endswith("has_value") and t[3] is not None and par(t[3], i)
    at = {"none0": none(0), "none1": none(1), "has0": has(0), "has1": has(1)}
    asked = {}

    class D(Decision):
        def on_branch(self, ctx, st, atom, val):
            for k in self.names(atom):
                asked[atom] = k
            return super().on_branch(ctx, st, atom, val)
    D(at, {}, value=True).run(tu, fn)

    def named(t, i, null):
        if t[0] == "v" and t[1] in names and not par(t, 0) and not par(t, 1):
            return opt[i] and null[i]
        if isname[i]:
            return par(t, i)
        return not null[i] and t[0] == "f" and t[2] == "first" and t[1][0] in ("idx", "elem") and len(t[1]) == 3 and fieldname(t[1][1]) in ("map", None) and par(t[1][2][1] if t[1][2][0] == "some" else t[1][2], i)
    for null in [(a, b) for a in (False, True) for b in (False, True) if (opt[0] or not a) and (opt[1] or not b) and not (a and b)]:
        rows = ck.table(tu, fn, Decision({}, {}, value=True), facts={t: null[int(k[-1])] == (k[:4] == "none") for t, k in asked.items()})
        for r in rows:
            ok = r.value is not None
            for x in (phi_alts(r.value) if ok and r.value[0] == "phi" else [r.value] if ok else []):
                x = three_way(x)
                ok = ok and x[0] == "lt" and named(stripped(x[1]), 0, null) and named(stripped(x[2]), 1, null)
            ck.ob(key + "/order", ok, "%s:%s" % (f["file"], lam["l"]), "the index is searched in the order of the names%s" % ("" if ok else "; offending path: %s" % r))


def stripped(t):
    while t[0] == "new" and len(t[2]) == 1:
        t = t[2][0]
    return t


def contains_lambda(a):
    r = []
    _walk(a, lambda n: r.append(n) if n.get("k") == "lambda" else None)
    return bool(r)


def inside(a, lam):
    r = []
    _walk(a, lambda n: r.append(n) if n is lam else None)
    return bool(r)


def run(ck):
    tu = ck.load(SRC)
    F = [g for g in tu.find(V + "find") if len(g["p"]) == 1][0]
    E = [g for g in tu.find(V + "emplace_back") if len(g["p"]) == 2][0]
    # --- reading
    for n, names in (("begin", BEGIN), ("end", END)):
        f = tu.one(V + n)
        rows = ck.table(tu, f, VD({}))
        ck.must(n, rows, [lambda r: r.end == "ret"], lambda r: r.has("Map") and r.value is not None and edge(r.value, names, ENTRIES), "iterating a map visits its entries, all of them in order")
        ck.must(n + "/refused", rows, [lambda r: r.end != "ret"], lambda r: r.end == "throw" and r.has("Map", False), "only maps have entries")
    # --- looking up
    helpers = (V + "size", V + "type")
    for f, key in ((F, "find"), (E, "add")):
        s = Search(f, f["p"][0]["n"])
        isfound = lambda t: t[0] == "found" and (SELF(t[1]) or ENTRIES(t[1])) and any(s.name(x) for x in t[2:])
        at = {"absent": s.absent, "same": s.same, "found": isfound}
        ev = {"search": lambda c: c.nq in SORTED + LINEAR or c.nq == V + "find" and c.obj is not None and SELF(c.obj),
              "entry": lambda c: c.name in ("emplace_back", "push_back") and c.obj is not None and ENTRIES(c.obj),
              "misplaced": lambda c: c.name in ("insert", "emplace", "insert_or_assign") and c.obj is not None and ENTRIES(c.obj),
              "index": lambda c: c.name in ("insert", "emplace", "push_back", "emplace_back") and c.obj is not None and INDEX(c.obj),
              "removed": lambda c: c.name in ("erase", "clear", "pop_back", "resize", "swap", "assign") and c.obj is not None and (ENTRIES(c.obj) or INDEX(c.obj))}
        log = []

        class L(VD):
            def on_call(self, ctx, st, c):
                for k in ("entry", "index", "search"):
                    if ev[k](c):
                        log.append((k, c, ctx.where(c.node)))
                return super().on_call(ctx, st, c)
        d = L(at, ev)
        d.opaque = tuple(o for o in d.opaque) + ((V + "find", V + "end", V + "begin") if key == "add" else ())
        rows = ck.table(tu, f, d)
        ok = lambda r: r.end == "ret"
        absent = lambda r: r.has("absent") or r.has("same", False) or r.has("found", False)
        present = lambda r: r.has("absent", False) and not r.has("same", False) or r.has("same") or r.has("found")
        lower = any(c.nq.endswith("lower_bound") for k, c, w in log if k == "search")
        if lower:
            present = lambda r: r.has("same") and r.has("absent", False) or r.has("found")
        ck.must(key + "/refused", rows, [lambda r: not ok(r)], lambda r: r.end == "throw" and r.has("Map", False), "only maps have names, and every map can be asked for any name")
        ck.must(key + "/map", rows, [ok], lambda r: r.has("Map"), "only maps have names")
        ck.must(key + "/looked", rows, [ok], lambda r: absent(r) or present(r), "whether the name exists is found out")
        used = comparator(ck, tu, f, key, f["p"][0]["n"])
        by_index = [c for k, c, w in log if k == "search" and c.nq in SORTED]
        for k, c, w in log:
            if k == "search" and c.nq in SORTED:
                ck.ob(key + "/searched", whole(tuple(c.args), INDEX), w, "the whole index is searched")
            if k == "search" and c.nq in LINEAR:
                ck.ob(key + "/searched", whole(tuple(c.args), ENTRIES) or whole(tuple(c.args), INDEX), w, "all entries are searched")
        ck.need(not by_index or used or key == "add", "the order of the index in " + key)
        if key == "find":
            atpos = lambda v: v is not None and (v[0] == "call" and v[1].endswith("operator+") and edge(v[3] if v[3] is not None else v[4][0], BEGIN, ENTRIES) and any(s.first(a) for a in v[4])
                                                 or v[0] == "bin" and v[1] == "+" and any(edge(x, BEGIN, ENTRIES) for x in v[2:]) and any(s.first(x) for x in v[2:])
                                                 or v[0] == "call" and v[1] in ("std::next",) and edge(v[4][0], BEGIN, ENTRIES) and s.first(v[4][1])
                                                 or v[0] == "elem" and ENTRIES(v[1]))
            ck.must("find/absent", rows, [ok, absent], lambda r: edge(r.value, END, ENTRIES), "a name the map does not hold is not found")
            ck.must("find/present", rows, [ok, present, lambda r: not absent(r)], lambda r: atpos(r.value), "a name the map holds yields its entry")
            ck.never("find/pure", rows, [], lambda r: any(e.startswith(("put:", "in:", "entry", "index", "removed", "misplaced")) for e in r.events), "looking a name up changes nothing")
        else:
            ck.must("add/once", rows, [ok, present, lambda r: not absent(r)], lambda r: r.value == ("c", False) and not any(r.did(e) for e in ("entry", "index", "misplaced", "removed")), "a name the map holds already is refused, nothing changes")
            ck.must("add/new", rows, [ok, absent], lambda r: r.value == ("c", True) and r.count("entry") == 1 and r.count("index") == 1, "a new name is added to the entries and to the index")
            ck.never("add/last", rows, [], lambda r: r.did("misplaced") or r.did("removed") or any(e.startswith(("put:", "in:")) for e in r.events), "a new entry comes last and the others stay")
            pn, pv = f["p"][0]["n"], f["p"][1]["n"]
            for k, c, w in log:
                a = tuple(c.args)
                if k == "entry":
                    x = a[0] if len(a) == 1 else ("new", "", a)
                    while x[0] == "new" and len(x[2]) == 1:
                        x = x[2][0]
                    l = x[4] if x[0] == "call" else x[2] if x[0] == "new" else ()
                    ck.ob("add/entry", len(l) == 2 and any(y[0] == "v" and y[1] == pn for y in subterms(l[0])) and any(y[0] == "v" and y[1] == pv for y in subterms(l[1])), w, "the entry has the name and the value that were given")
                if k == "index":
                    i = a[-1]
                    n = [y for y in subterms(i) if y[0] == "call" and y[1].split("::")[-1] == "size" and y[3] is not None and (INDEX(y[3]) or ENTRIES(y[3]))]
                    ck.ob("add/position", len(a) == 2 and (s.first(a[0]) or s.second(a[0])), w, "the index stays sorted")
                    late = [r for r in rows if r.did("entry") and r.did("index") and r.index("entry") < r.index("index")]
                    if n and n[0][0] == "call" and ENTRIES(n[0][3]):
                        minus = i[0] == "bin" and i[1] == "-" and i[3] == ("c", 1)
                        ck.ob("add/number", minus if late else i == n[0], w, "the index refers to the new entry")
                    else:
                        ck.ob("add/number", bool(n) and i == n[0], w, "the index refers to the new entry")
            stale = [r for r in rows if r.did("entry") and r.index("search") > r.index("entry") >= 0]
            ck.ob("add/before", not stale, where(f), "whether the name exists is found out before it is added")
    f = [g for g in tu.find(V + "operator[]") if "basic_string_view" in g["p"][0]["t"]][0]
    at = {"found": lambda t: t[0] == "found" and SELF(t[1]) or t[0] == "eq" and any(x[0] == "call" and x[1] == V + "find" for x in t[1:])}
    d = VD(at)
    d.opaque += (V + "find", V + "end", V + "begin")
    rows = ck.table(tu, f, d)
    pn = f["p"][0]["n"]
    ck.must("member", rows, [lambda r: r.end == "ret"], lambda r: r.has("found") and r.value is not None and r.value[0] == "f" and r.value[2] == "second" and any(x[0] == "call" and x[1] == V + "find" and any(y[0] == "v" and y[1] == pn for y in x[4]) for x in subterms(r.value)),
            "a name yields the value of its entry")
    ck.must("member/missing", rows, [lambda r: r.end != "ret"], lambda r: r.end == "throw" and r.has("found", False), "a name the map does not hold is an error")
    ck.need(any(r.end == "ret" for r in rows), "looking up a member")
    # --- a map that gave its entries away is empty
    f = spec(tu, "release", 0)["Map"]
    cleared = lambda c: c.obj is not None and INDEX(c.obj) and c.name in ("clear", "swap", "assign", "operator=") or c.name in ("swap", "exchange", "move") and any(a is not None and INDEX(a) for a in c.args)

    class Rel(VD):
        def on_write(self, ctx, st, l, r, op, node):
            if INDEX(l) and op == "=":
                st = self.add(st, "cleared", ctx, node)
            return super().on_write(ctx, st, l, r, op, node)
    rows = ck.table(tu, f, Rel({}, {"cleared": cleared}))
    ck.must("released/index", rows, [lambda r: r.end == "ret"], lambda r: r.did("cleared") or any(e.startswith("put:") for e in r.events) or moves_whole(tu, f), "a map that gave its entries away does not refer to them any more")
    # --- the index of a copy
    f = [g for g in tu.find(V + "Value") if [p["t"] for p in g["p"]] == ["const %s &" % VALUE]][0]
    other = lambda t: t[0] == "v" and t[1] == f["p"][0]["n"]
    log = []
    writes = []
    numbered = {}

    class Cp(VD):
        def on_call(self, ctx, st, c):
            if c.obj is not None and grows(c):
                log.append((c.obj, c, ctx.where(c.node), st))
            return super().on_call(ctx, st, c)

        def on_write(self, ctx, st, l, r, op, node):
            writes.append((l, r, op, ctx.where(node)))
            return super().on_write(ctx, st, l, r, op, node)
    d = Cp({}, {}, who=other)
    d.opaque += (V + "size", V + "begin", V + "end", V + "operator[]", V + "find", V + "type", V + "maybe_enum", V + "emplace_back")
    ck.table(tu, f, d)
    isindex = lambda t: t[0] == "f" and t[2] == "members"
    fills = [(o, c, w) for o, c, w, st in log if isindex(o)]
    taken = [(l, r, w) for l, r, op, w in writes if isindex(l) and r is not None and op == "="]
    direct_new = [x for l, r, op, w in writes for x in (subterms(r) if r is not None else ()) if x[0] == "new" and x[1] == V + "MapData" and len(x[2]) == 2 and holds(x[2][1], "Map", "members", who=other)]
    through = [c for o, c, w, st in log if c.nq == V + "emplace_back"]
    copied_whole = [l for l, r, op, w in writes if r is not None and any(holds(x, "Map", who=other) for x in ([r] if r[0] != "alt" else [r[2]]))]
    n = 0
    for l, r, w in taken:
        n += 1
        ck.ob("copy/index", holds(r, "Map", "members", who=other), w, "the index of a copy is that of the original")
    for o, c, w in fills:
        n += 1
        v = c.args[-1] if c.args else None
        ok = False
        if v is not None and v[0] == "f" and v[2] in ("second", "#1") and v[1][0] == "elem":
            m = v[1][1]
            # an ordered map from the names of the entries to their numbers
            puts = [(l, r, w2) for l, r, op, w2 in writes if l[0] == "idx" and l[1] == m] + [(("idx", m, cc.args[0]), cc.args[-1], w2) for oo, cc, w2, st in log if oo == m and len(cc.args) == 2]
            for l, r, w2 in puts:
                key = l[2]
                ent = key[0] == "f" and key[2] == "first" and key[1][0] == "elem" and (fieldname(key[1][1]) == "map" or any(other(x) for x in subterms(key[1][1])))
                cnt = r is not None and (r[0] == "call" and r[1].split("::")[-1] == "size" and r[3] == m or r[0] == "iter" or r[0] == "v" and r[1] == "loopvar")
                ck.ob("copy/index/numbers", ent and cnt, w2, "the index of a copy numbers its entries by their names")
                ok = True
            kinds = [x for x in local_types(f, m)]
            ck.ob("copy/index/sorted", not kinds or all(by_name(t) for t in kinds), w, "the index of a copy is sorted by name")
        elif v is not None and v[0] == "elem" and (isindex(v[1]) and any(other(x) for x in subterms(v[1]))):
            ok = True
        ck.ob("copy/index", ok, w, "the index of a copy covers its entries in the order of their names")
    ck.ob("copy/indexed", n or direct_new or through or copied_whole, where(f), "the copy of a map can be searched")


def moves_whole(tu, f):
    """the entries and the index are moved together"""
    r = []
    for g in reached(tu, f):
        _walk(g["body"], lambda n: r.append(n) if n.get("k") == "call" and n.get("f") in ("std::move", "std::exchange") and n["a"] and isinstance(n["a"][0], dict) and bare(n["a"][0].get("t")) == V + "MapData" else None)
    return bool(r)


def by_name(t):
    """an ordered map with the order of its keys"""
    t = t.replace("const ", "").strip()
    if not t.startswith(("std::map<", "graphql::internal::sorted_map<")):
        return False
    depth, parts = 0, [""]
    for c in t[t.index("<") + 1:t.rindex(">")]:
        depth += (c == "<") - (c == ">")
        if c == "," and depth == 0:
            parts.append("")
        else:
            parts[-1] += c
    return len(parts) < 3 or parts[2].strip().startswith("std::less<")


def local_types(f, m):
    r = []

    def look(n):
        if n.get("s") == "decl":
            for v in n.get("v") or ():
                if isinstance(v, dict) and m[0] == "v" and v.get("d") == m[2]:
                    r.append((v.get("t") or "").replace("const ", ""))
    _walk(f["body"], look)
    return r
