"""The sorted containers hold every key once, in order, and find exactly the keys they hold."""
from vcommon import *
from c24 import stripped
from facts import _walk, strip_targs, AnalysisBroken, VERIF
import os

SRC = os.path.join(VERIF, "probe", "sorted.cpp")
N = "graphql::internal::"
BEGIN, END = ("begin", "cbegin"), ("end", "cend")
RANGE, LOWER, UPPER = ("std::equal_range", "std::ranges::equal_range"), ("std::lower_bound", "std::ranges::lower_bound"), ("std::upper_bound", "std::ranges::upper_bound")
SEARCH = RANGE + LOWER + UPPER + ("std::binary_search",)
SORT = ("std::sort", "std::stable_sort", "std::ranges::sort", "std::ranges::stable_sort")


def self_data(t):
    """the elements of the container itself"""
    while t[0] in ("old",):
        t = t[1]
    return t[0] == "f" and t[2] == "_data" and t[1] == ("this",)


def edge(t, names):
    return t[0] == "call" and t[1].split("::")[-1] in names and (t[3] is not None and self_data(t[3]) or t[3] is None and len(t[4]) == 1 and self_data(t[4][0]))


def whole(args):
    return len(args) >= 2 and edge(args[0], BEGIN) and edge(args[1], END) or len(args) >= 1 and self_data(args[0])


def key_arg(args):
    """the key of a search, the comparator of a search"""
    rest = args[1:] if args and self_data(args[0]) else args[2:]
    return (rest[0] if rest else None), (rest[1] if len(rest) > 1 else None)


class Members:
    """the members of one instance of a container"""

    def __init__(self, ck, tu, cls, kind, order):
        self.ck, self.tu, self.cls, self.kind, self.order = ck, tu, cls, kind, order
        self.fns = [f for f in tu.functions if f.get("cls") == cls and not f.get("dep")]
        self.checked = {}

    def named(self, name):
        return [f for f in self.fns if f["nq"].split("::")[-1] == name]

    def where(self, f):
        return "%s:%s" % (f["file"], f["l"])

    def search(self, t, *alg):
        return t[0] == "call" and t[1] in alg and whole(t[4])

    def first(self, t):
        if t[0] == "f" and t[2] in ("first", "#0") and self.search(t[1], *RANGE):
            return True
        if t[0] == "call" and t[1].endswith("::begin") and t[4] and self.search(t[4][0], *RANGE):
            return True
        return self.search(t, *LOWER)

    def second(self, t):
        return t[0] == "f" and t[2] in ("second", "#1") and self.search(t[1], *RANGE)

    def at_first(self, t):
        """(the key of) the element the search has led to"""
        if self.kind == "map":
            if t[0] != "f" or t[2] != "first":
                return False
            t = t[1]
            if t[0] in ("idx", "elem") or t[0] == "f" and self.search(t, *LOWER):
                pass
        return self.first(t)

    def eq_absent(self, t):
        """equal exactly when no such key is held (a search for both ends)"""
        return t[0] == "eq" and any(self.first(x) and self.second(y) for x, y in ((t[1], t[2]), (t[2], t[1])))

    def at_end(self, t):
        """the search led to the end"""
        return t[0] == "eq" and any(self.search(x, *LOWER) and edge(y, END) for x, y in ((t[1], t[2]), (t[2], t[1])))

    def less(self, t):
        """the order of the container, applied"""
        if t[0] == "call" and t[1] == self.order + "::operator()" and len(t[4]) == 2:
            return t[4]
        if t[0] == "lt" and self.order == "std::less":
            return t[1], t[2]
        return None

    def after(self, t, f):
        """the key comes before the element that was found"""
        a = self.less(t)
        return bool(a) and self.key(a[0], f) and self.at_first(a[1])

    def key(self, t, f):
        """the key the function was given"""
        t = stripped(t)
        return t[0] == "v" and t[1] == f["p"][0]["n"]

    def decision(self, f, events=None, **kw):
        m = self

        class D(Decision):
            def on_call(self, ctx, st, c):
                if c.nq in SEARCH or c.nq in SORT:
                    m.algorithm(f, ctx, c)
                if c.obj is not None and self_data(c.obj):
                    # what the function does to the elements
                    if c.name in ("emplace", "insert"):
                        ev = "add" if m.added(c, f) else "add:other"
                        return ("opaque", self.add(st, ev, ctx, c.node))
                    if c.name in ("erase",):
                        ev = "erase" if len(c.args) == 1 and (m.first(c.args[0]) or c.args[0][0] == "v") else "erase:other"
                        return ("opaque", self.add(st, ev, ctx, c.node))
                    if c.name in ("clear", "swap", "resize", "push_back", "emplace_back", "pop_back", "assign", "operator=", "insert_or_assign"):
                        return ("opaque", self.add(st, c.name, ctx, c.node))
                return super().on_call(ctx, st, c)

            def on_write(self, ctx, st, l, r, op, node):
                if any(self_data(x) for x in subterms(l)) and op != "init":
                    return self.add(st, "write", ctx, node)
                return super().on_write(ctx, st, l, r, op, node)
        d = D({"absent": m.eq_absent, "end": m.at_end, "after": lambda t: m.after(t, f)}, dict(events or {}), value=True, **kw)
        d.opaque = (N + "shorter_or_less::", "std::less::")
        return d

    def added(self, c, f):
        """the pair of key and value is put where the search ended"""
        a = list(c.args)
        if not a or not (self.first(a[0]) or self.second(a[0])):
            return False
        rest = a[1:]
        if len(rest) == 1 and rest[0][0] == "new" and "pair" in rest[0][1] and self.kind == "map":
            rest = list(rest[0][2])
        if len(rest) == 1 and rest[0][0] == "call" and rest[0][1] == "std::make_pair" and self.kind == "map":
            rest = list(rest[0][4])
        if rest and rest[0] == ("g", "std::piecewise_construct"):
            return False
        if self.kind == "set":
            return len(rest) == 1 and self.key(rest[0], f)
        if len(rest) != 2 or not self.key(rest[0], f):
            return False
        given = [p["n"] for p in f["p"][1:]]
        return all(mentions(x)(rest[1]) for x in given) and (bool(given) or rest[1][0] == "new" and not rest[1][2])

    # ---------------------------------------------------------------- the algorithm calls
    def algorithm(self, f, ctx, c):
        key = "%s/%s" % (self.cls_name(), f["nq"].split("::")[-1])
        w = ctx.where(c.node)
        sort = c.nq in SORT
        if not whole(c.args):
            if not any(self_data(x) for a in c.args for x in subterms(a)):
                return
            self.once(key + "/whole", w, False, "all elements are %s" % ("sorted" if sort else "searched"))
            return
        self.once(key + "/whole", w, True, "all elements are %s" % ("sorted" if sort else "searched"))
        rest = c.args[1:] if self_data(c.args[0]) else c.args[2:]
        cmp = rest[0] if sort and rest else rest[1] if len(rest) > 1 else None
        if not sort:
            self.once(key + "/key", w, bool(rest) and self.key(rest[0], f), "the key given is the one searched for")
        self.comparator(key, w, cmp)

    def once(self, key, w, ok, text):
        k = (key, w)
        if self.checked.get(k) is not ok:
            self.checked[k] = ok
            self.ck.ob(key, ok, w, text)

    def comparator(self, key, w, cmp):
        text = "the elements are compared in the order of the container"
        if cmp is None:
            # the default order of the algorithm is that of the keys only for a set ordered by std::less
            self.once(key + "/order", w, self.kind == "set" and self.order == "std::less", text)
            return
        if cmp[0] == "new":
            n = strip_targs(cmp[1])
            if n == self.order:
                self.once(key + "/order", w, self.kind == "set", text)
                return
            g = [g for g in self.tu.functions if g["nq"] == n + "::operator()" and not g.get("dep") and len(g["p"]) == 2]
            g = [x for x in g if x["cls"] == cmp[1]] or g
        elif cmp[0] == "lam":
            g = self.lambdas(cmp[1])
        elif cmp[0] == "fn":
            g = [self.tu.byid[cmp[2]]] if len(cmp) > 2 and cmp[2] in self.tu.byid else []
        else:
            g = []
        if not g:
            self.once(key + "/order", w, False, text)
        for x in g:
            self.compares(key, w, x)

    def lambdas(self, fid):
        out = []

        def look(n):
            if n.get("k") == "lambda" and n.get("fid") == fid:
                out.append(n)
        for f in self.fns:
            _walk(f.get("body"), look)
            _walk(f.get("inits"), look)
        return [dict(x, nq="lambda", q="lambda", n="lambda", file="include/graphqlservice/internal/SortedMap.h", cls=None, id=x.get("fid")) for x in out[:1]]

    def compares(self, key, w, fn):
        if (key, w, fn.get("id")) in self.checked:
            return
        self.checked[(key, w, fn.get("id"))] = True
        ps = fn["p"]
        d = Decision({}, {}, value=True)
        d.opaque = (N + "shorter_or_less::", "std::less::")

        def operand(t, i):
            """the key of the i-th argument"""
            t = stripped(t)
            if t[0] == "f" and t[2] in ("key", "first"):
                t = t[1]
            return t[0] == "v" and len(t) == 3 and (t[2] == ps[i]["d"] or t[1] == ps[i]["n"])
        for r in self.ck.table(self.tu, fn, d):
            alts = phi_alts(r.value) if r.value is not None and r.value[0] == "phi" else [r.value]
            ok = all(x is not None and self.less(x) and operand(self.less(x)[0], 0) and operand(self.less(x)[1], 1) for x in alts)
            self.ck.ob(key + "/order", ok, w, "the elements are compared in the order of the container%s" % ("" if ok else "; offending path: %s" % r))

    def cls_name(self):
        return "%s<%s>" % ("sorted_" + self.kind, "shorter" if self.order != "std::less" else "less")

    # ---------------------------------------------------------------- the rules
    def held(self, r):
        """True / False: the path is one on which the key is held / not held; None: it does not know"""
        if r.has("absent") or r.has("end") or r.has("after"):
            return False
        if r.has("absent", False) or r.has("after", False):
            return True
        return None

    def known(self, t, r):
        """a Boolean value, as far as the path decides it"""
        if t[0] == "not":
            v = self.known(t[1], r)
            return None if v is None else not v
        if t[0] == "c":
            return t[1]
        if self.eq_absent(t) or self.at_end(t):
            return None if self.held(r) is None else not self.held(r)
        return None

    def ask(self, f, rows, what):
        ok = all(self.held(r) is not None for r in rows)
        self.ck.ob("%s/%s/asks" % (self.cls_name(), what), ok, self.where(f), "whether the key is held decides")

    def must(self, f, rows, what, text, p):
        for r in rows:
            ok = p(r)
            self.ck.ob("%s/%s" % (self.cls_name(), what), ok, self.where(f), text + ("" if ok else "; offending path: %s" % r))

    def forwards(self, f, name):
        """the overload that converts its argument to a key calls the one that takes a key"""
        rows = self.rows(f, {name: lambda c: c.nq == N + "sorted_" + self.kind + "::" + name and len(c.args) == 1 and self.key(c.args[0], f)})
        if not any(r.did(name) for r in rows):
            return False
        self.must(f, rows, name + "/converted", "the converted key is the one looked up",
                  lambda r: r.end != "ret" or r.value is not None and r.value[0] == "call" and r.value[1].endswith("::" + name) and r.events == (name,) and len(r.value[4]) == 1 and self.key(r.value[4][0], f))
        return True

    def rows(self, f, events=None, **kw):
        return self.ck.table(self.tu, f, self.decision(f, events, **kw))

    def quiet(self, r):
        return not any(e.startswith(("add", "erase", "write")) or e in ("clear", "swap", "resize", "push_back", "emplace_back", "pop_back", "assign", "operator=") for e in r.events)

    def run(self):
        ck, name = self.ck, self.cls_name()
        isend = lambda t: edge(t, END)
        for f in self.named("find"):
            if f.get("ta") and self.forwards(f, "find"):
                continue
            rows = self.rows(f)
            self.ask(f, rows, "find")
            self.must(f, rows, "find/found", "find gives the element with the key", lambda r: self.held(r) is not True or r.value is not None and self.first(r.value))
            self.must(f, rows, "find/missing", "find gives the end if there is no such key", lambda r: self.held(r) is not False or r.value is not None and isend(r.value))
            self.must(f, rows, "find/const", "find changes nothing", self.quiet)
        for f in self.named("emplace"):
            rows = self.rows(f)
            self.ask(f, rows, "emplace")

            def result(r, what, val):
                v = r.value
                if v is not None and v[0] == "call" and v[1] == "std::make_pair" and len(v[4]) == 2:
                    v = ("new", "std::pair", v[4])
                return v is not None and (v[0] == "new" and len(v[2]) == 2 and what(v[2][0]) and self.known(v[2][1], r) is val)
            self.must(f, rows, "emplace/present", "a key that is already held is not added again, and its value stays",
                      lambda r: self.held(r) is not True or self.quiet(r) and result(r, self.first, False))
            self.must(f, rows, "emplace/new", "a new key is added once, with its value, where it belongs",
                      lambda r: self.held(r) is not False or [e for e in r.events if not e.startswith("loop")] == ["add"]
                      and result(r, lambda t: t[0] == "call" and t[1].split("::")[-1] in ("emplace", "insert") and t[3] is not None and self_data(t[3]), True))
        for f in self.named("erase"):
            if f.get("ta") and self.forwards(f, "erase"):
                continue
            if "iterator" in f["p"][0]["t"] and "std::basic_string" not in f["p"][0]["t"].split("iterator")[0]:
                self.must(f, self.rows(f), "erase/at", "the element at the position is erased", lambda r: r.events == ("erase",))
                continue
            rows = self.rows(f)
            self.ask(f, rows, "erase")
            self.must(f, rows, "erase/present", "the element with the key is erased", lambda r: self.held(r) is not True or r.events == ("erase",) and self.first_erased(f, r))
            self.must(f, rows, "erase/missing", "nothing is erased if there is no such key", lambda r: self.held(r) is not False or self.quiet(r) and r.value is not None and isend(r.value))
        for f in self.named("operator[]"):
            rows = self.rows(f)
            self.ask(f, rows, "index")
            val = lambda t, p: t is not None and t[0] == "f" and t[2] == "second" and p(t[1])
            self.must(f, rows, "index/present", "the value of the key is given", lambda r: self.held(r) is not True or self.quiet(r) and val(r.value, self.first))
            self.must(f, rows, "index/new", "a new key is added once, with an empty value, where it belongs",
                      lambda r: self.held(r) is not False or r.events == ("add",) and val(r.value, lambda t: t[0] == "call" and t[1].split("::")[-1] in ("emplace", "insert")))
        for f in self.named("at"):
            rows = self.rows(f)
            self.ask(f, rows, "at")
            self.must(f, rows, "at/present", "the value of the key is given",
                      lambda r: self.held(r) is not True or r.end == "ret" and self.quiet(r) and r.value is not None and r.value[0] == "f" and r.value[2] == "second" and self.first(r.value[1]))
            self.must(f, rows, "at/missing", "asking for the value of a key that is not held is refused", lambda r: self.held(r) is not False or r.end == "throw")
        for n, names in (("begin", BEGIN), ("end", END), ("rbegin", ("rbegin", "crbegin")), ("rend", ("rend", "crend")), ("size", ("size",)), ("empty", ("empty",))):
            for f in self.named(n):
                def same(t):
                    if n == "empty" and (t[0] == "empty" and self_data(t[1]) or t[0] == "eq" and any(edge(x, ("size",)) and y == ("c", 0) or edge(x, BEGIN) and edge(y, END) for x, y in ((t[1], t[2]), (t[2], t[1])))):
                        return True
                    return edge(t, names)
                self.must(f, self.rows(f), n, "%s is that of the elements" % n, lambda r: r.value is not None and same(r.value) and self.quiet(r))
        for f in self.named("clear"):
            self.must(f, self.rows(f), "clear", "clear drops all elements", lambda r: r.events in (("clear",), ("write",), ("erase:all",)))
        for f in self.named("reserve") + self.named("capacity"):
            self.must(f, self.rows(f), f["nq"].split("::")[-1], "the elements stay", self.quiet)
        for f in self.named("operator=="):
            both = lambda t: t[0] == "eq" and any(self_data(x) and y[0] == "f" and y[2] == "_data" and y[1][0] == "v" for x, y in ((t[1], t[2]), (t[2], t[1])))
            self.must(f, self.rows(f), "equal", "containers are equal exactly if their elements are", lambda r: r.value is not None and both(r.value))
        inits = [f for f in self.fns if f.get("kind") == "ctor" or f["nq"].split("::")[-1] == "sorted_" + self.kind]
        inits = [f for f in self.fns if len(f["p"]) == 1 and "initializer_list" in f["p"][0]["t"]]
        ck.need(inits, "constructor of " + name)
        for f in inits:
            self.initial(f)

    def first_erased(self, f, r):
        return r.value is not None and r.value[0] == "call" and r.value[1].endswith("::erase") and len(r.value[4]) == 1 and self.first(r.value[4][0])

    def initial(self, f):
        """the elements a container is made of are all put in, and sorted"""
        m = self
        given = lambda t: t[0] == "v" and t[1] == f["p"][0]["n"]

        class D(Decision):
            def on_call(self, ctx, st, c):
                if c.nq in SORT:
                    m.algorithm(f, ctx, c)
                    if whole(c.args):
                        return ("opaque", self.add(st, "sort", ctx, c.node))
                if c.nq == N + "sorted_" + m.kind + "::emplace":
                    return ("opaque", self.add(st, "emplace", ctx, c.node))
                if c.obj is not None and self_data(c.obj) and c.name in ("assign", "insert", "operator=", "append_range"):
                    return ("opaque", self.add(st, "fill" if any(given(x) for a in c.args for x in subterms(a)) else "other", ctx, c.node))
                return super().on_call(ctx, st, c)

            def on_write(self, ctx, st, l, r, op, node):
                if self_data(l) and r is not None and any(given(x) for x in subterms(r)):
                    return self.add(st, "fill", ctx, node)
                return super().on_write(ctx, st, l, r, op, node)

            def on_iter(self, ctx, st, when, rng, node):
                if when == "begin" and given(rng) and not node.get("_part"):
                    st = self.add(st, "each", ctx, node)
                return super().on_iter(ctx, st, when, rng, node)
        d = D({}, {}, value=True)
        rows = self.ck.table(self.tu, f, d)
        self.must(f, rows, "initial", "all the elements given are put in and sorted", lambda r: r.end != "ret" or r.events in (("fill", "sort"),) or "emplace" in r.events or (r.events == () and any(x.did("emplace") for x in rows)))


def order(ck, tu):
    """the order by length and content is a strict weak order in which only equal strings are equivalent"""
    fs = [f for f in tu.functions if f["nq"] == N + "shorter_or_less::operator()" and not f.get("dep")]
    ck.need(fs, "the order of names")
    for f in fs:
        ps = f["p"]
        par = lambda t: next((i for i in (0, 1) if t[0] == "v" and (t[1] == ps[i]["n"])), None)

        def sign(t):
            """(what is compared, index of the left operand, relation)"""
            t = three_way(t)
            if t[0] == "not":
                x = sign(t[1])
                return x and x[:2] + ({"lt": "ge", "eq": "ne"}[x[2]],)
            if t[0] not in ("lt", "eq"):
                return None
            a, b = t[1], t[2]
            size = lambda x: x[0] == "call" and x[1].split("::")[-1] in ("size", "length") and x[3] is not None
            if size(a) and size(b) and None not in (par(a[3]), par(b[3])) and par(a[3]) != par(b[3]):
                return "size", par(a[3]), t[0]
            if None not in (par(a), par(b)) and par(a) != par(b):
                return "text", par(a), t[0]
            return None
        asked = set()

        class D(Decision):
            def on_branch(self, ctx, st, atom, val):
                if sign(atom):
                    asked.add(atom)
                return super().on_branch(ctx, st, atom, val)
        D({"any": lambda t: bool(sign(t))}, {}, verdict=True).run(tu, f)
        result, ok = {}, True
        for s in (-1, 0, 1):
            for c in (-1, 0, 1):
                if s and not c:
                    continue
                facts = {}

                def truth(a):
                    what, left, rel = sign(a)
                    x = s if what == "size" else c
                    v = x == 0 if rel in ("eq", "ne") else (x < 0 if left == 0 else x > 0)
                    return v if rel in ("eq", "lt") else not v
                for a in asked:
                    facts[a] = truth(a)
                out = set()
                for r in ck.table(tu, f, Decision({}, {}, value=True), facts=facts):
                    for v in (phi_alts(r.value) if r.value is not None and r.value[0] == "phi" else [r.value]):
                        out.add(v[1] if v is not None and v[0] == "c" else truth(v) if v is not None and sign(v) else None)
                result[s, c] = out.pop() if len(out) == 1 else None
        ok = None not in result.values()
        ok = ok and result[0, 0] is False and all(result[k] is not result[-k[0], -k[1]] for k in result if k != (0, 0))
        # lexicographic by size and then by text, or by text alone
        ok = ok and (result[-1, -1] is result[-1, 1] or result[-1, -1] is result[0, -1])
        ck.ob("order/strict", ok, "%s:%s" % (f["file"], f["l"]), "names are ordered strictly, and only equal names are equivalent%s" % ("" if ok else "; decided: %s" % sorted(result.items())))


def private(ck, tu):
    """nobody else can put the elements out of order: the positions given out do not allow to change them"""
    for cls in sorted({f["cls"] for f in tu.functions if f.get("cls", None) and strip_targs(f["cls"]) in (N + "sorted_map", N + "sorted_set") and not f.get("dep")}):
        for f in [f for f in tu.functions if f.get("cls") == cls and not f.get("dep")]:
            n = f["nq"].split("::")[-1]
            if n in ("begin", "end", "find", "rbegin", "rend"):
                ret = f.get("ret", "")
                ok = "__normal_iterator<const " in ret or "const_iterator" in ret or "const_reverse_iterator" in ret
                ck.ob("read-only/%s" % n, ok, "%s:%s" % (f["file"], f["l"]), "the positions given out do not allow to change the keys")


def run(ck):
    tu = ck.load(SRC)
    classes = sorted({f["cls"] for f in tu.functions if f.get("cls") and strip_targs(f["cls"]) in (N + "sorted_map", N + "sorted_set") and not f.get("dep")
                      and f["file"].endswith("SortedMap.h")})
    classes = [c for c in classes if any(f.get("cls") == c and f["nq"].endswith("::find") and not f.get("dep") for f in tu.functions) and "type-parameter" not in c]
    ck.need(len(classes) >= 4, "instances of the sorted containers")
    for c in classes:
        kind = "map" if strip_targs(c) == N + "sorted_map" else "set"
        Members(ck, tu, c, kind, N + "shorter_or_less" if "shorter_or_less" in c else "std::less").run()
    order(ck, tu)
    private(ck, tu)
