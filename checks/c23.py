"""A response value keeps its type, takes and gives only what fits its type, and copies and compares by content."""
from vcommon import *
from facts import _walk, strip_targs, AnalysisBroken

SRC = "src/GraphQLResponse.cpp"
V = "graphql::response::Value::"
STRING, VALUE = "std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "graphql::response::Value"
BYTES = "std::vector<unsigned char, std::allocator<unsigned char>>"
LISTOF = "std::vector<graphql::response::Value, std::allocator<graphql::response::Value>>"
ALT = {V + "MapData": "Map", LISTOF: "List", V + "StringData": "String", V + "NullData": "Null", "bool": "Boolean", "int": "Int", "double": "Float", STRING: "EnumValue", V + "ScalarData": "Scalar"}
TYPE = {n: t for t, n in ALT.items()}
ORDER = ["Map", "List", "String", "Null", "Boolean", "Int", "Float", "EnumValue", "Scalar"]
OF = {STRING: "String", "bool": "Boolean", "int": "Int", "double": "Float", VALUE: "Scalar", BYTES: "ID", LISTOF: "List",
      "std::vector<std::pair<%s, graphql::response::Value>, std::allocator<std::pair<%s, graphql::response::Value>>>" % (STRING, STRING): "Map"}
SELF = lambda t: t[0] == "this" or t[0] == "v" and t[1] == "this"


def data(t, who=SELF):
    """the variant of a value"""
    return t[0] == "f" and t[2] == "_data" and who(t[1])


def alt(t, who=SELF):
    """which alternative of the value a term says it holds"""
    if t[0] == "is_alt" and data(t[1], who):
        return ALT.get(t[2], t[2])
    if t[0] == "eq":
        for a, b in ((t[1], t[2]), (t[2], t[1])):
            if b[0] == "enum" and (a[0] == "call" and a[1] == V + "type" and a[3] is not None and who(a[3]) or term_index(a, who)):
                return b[1].split("::")[-1]
            if b[0] == "c" and type(b[1]) is int and term_index(a, who) and 0 <= b[1] < len(ORDER):
                return ORDER[b[1]]
    return None


def term_index(t, who=SELF):
    return t[0] == "call" and t[1].endswith("variant::index") and t[3] is not None and data(t[3], who)


def holds(t, name, *fields, who=SELF):
    """the content of the alternative"""
    for f in reversed(fields):
        if t[0] != "f" or t[2] != f:
            return False
        t = t[1]
    return t[0] == "f" and t[2] == "as:" + TYPE[name] and data(t[1], who)


ALTS = {n: (lambda n: lambda t: alt(t) == n)(n) for n in ORDER}


class VD(Decision):
    """decisions about a value: which alternative it holds, what is stored in it"""
    variants = True

    def __init__(self, atoms=None, events=None, good=None, who=SELF, also=None, **kw):
        super().__init__(dict({n: (lambda n: lambda t: alt(t, who) == n)(n) for n in ORDER}, **(atoms or {})), events or {}, value=True, **kw)
        self.opaque = tuple(o for o in self.opaque if o != V) + (V + "Value", V + "get", V + "set", V + "release", V + "operator==", V + "operator!=", V + "operator=")
        self.good = good or (lambda name, v: True)

    def json(self, ctx, st, v, node):
        """whether a string may be an enum value"""

    def put(self, ctx, st, name, v, node):
        name = ALT.get(name, name)
        if name == "String" and v is not None and v[0] == "new" and v[2]:
            if len(v[2]) > 1:
                self.json(ctx, st, v[2][1], node)
            v = v[2][0]
        if name == "Scalar" and v is not None and v[0] == "new" and v[1] == V + "ScalarData" and len(v[2]) == 1:
            v = v[2][0]
        return self.add(st, "put:%s%s" % (name, "" if self.good(name, v) else ":other"), ctx, node)

    def on_write(self, ctx, st, l, r, op, node):
        if op in ("=", "init") and data(l) and r is not None:
            for x in phi_alts(r) if r[0] == "phi" else [r]:
                if x[0] == "alt":
                    st = self.put(ctx, st, x[1], x[2], node)
                elif x[0] == "new" and strip_targs(x[1]) == "std::variant" and not x[2]:
                    st = st if op == "init" else self.put(ctx, st, "Map", None, node)
                elif x[0] == "f" and x[2] == "_data":
                    st = self.add(st, "put:all", ctx, node)
                else:
                    st = self.put(ctx, st, direct(node) or "?", x, node)
            return st
        a = next((x for x in subterms(l) if x[0] == "f" and x[2].startswith("as:") and data(x[1])), None)
        if a is not None and op == "=":
            name = ALT.get(a[2][3:], a[2][3:])
            fields = []
            t = l
            while t != a and t[0] == "f":
                fields.append(t[2])
                t = t[1]
            st = self.add(st, "in:%s%s%s" % (name, "".join("." + x for x in reversed(fields)), "" if r is not None and self.good(name, r) else ":other"), ctx, node)
        return super().on_write(ctx, st, l, r, op, node)

    def on_call(self, ctx, st, c):
        if c.obj is not None and data(c.obj) and c.nq.startswith("std::variant") and c.name == "emplace":
            return ("opaque", self.put(ctx, st, bare((c.ta or ["?"])[0]), c.args[0] if len(c.args) == 1 else ("new", "", tuple(c.args)), c.node))
        if c.name == "swap" and any(x is not None and data(x) for x in [c.obj] + list(c.args)) and any(x is not None and x[0] == "f" and x[2] == "_data" and not data(x) for x in [c.obj] + list(c.args)):
            return ("opaque", self.add(st, "put:all", ctx, c.node))
        return super().on_call(ctx, st, c)


def bare(t):
    return (t or "").replace("const ", "").rstrip("& ").strip()


def direct(node):
    """the alternative an assignment of something else than a variant selects"""
    a = node.get("a") if isinstance(node, dict) else None
    if isinstance(a, list) and len(a) == 2 and isinstance(a[1], dict):
        return bare(a[1].get("t"))
    return None


def spec(tu, name, n):
    """the specialization for that type"""
    r = {OF.get(f["ta"][0], f["ta"][0]): f for f in tu.find(V + name) if f.get("ta") and len(f["p"]) == n}
    if not r:
        raise AnalysisBroken("no specialization of Value::" + name)
    return r


def narrows(f):
    """conversions of a number through a type that does not hold all of it"""
    bad = []
    w = {"float", "short", "char", "signed char", "unsigned char", "unsigned short", "unsigned int", "unsigned long"}
    w |= {"int", "bool"} if "double" in f.get("ta", ()) or any(p["t"] == "double" for p in f["p"]) else {"bool"} if "int" in f.get("ta", ()) or any(p["t"] == "int" for p in f["p"]) else set()

    def look(n):
        if n.get("k") == "cast" and bare(n.get("t")) in w and isinstance(n.get("e"), dict) and n["e"].get("k") not in ("int", "num", "char", "bool"):
            bad.append(n)
    _walk(f["body"], look)
    return bad


def run(ck):
    tu = ck.load(SRC)
    # --- the type of a value is the alternative it holds
    rec = tu.record(VALUE)
    member = next((m for m in rec["fields"] if m["n"] == "_data"), None)
    ck.need(member, "the content of a value")
    enum = [c[0] if isinstance(c, list) else c["n"] if isinstance(c, dict) else c for c in tu.enum("graphql::response::Type")["c"]]
    f = tu.one(V + "type")
    rows = ck.table(tu, f, VD({}, opaque=()))
    at = where(f)
    inside = bare(member["t"])
    inside = inside[inside.index("<") + 1:-1] if inside.startswith("std::variant<") else ""
    alts, depth, cur = [], 0, ""
    for ch in inside:
        depth += ch in "<(["
        depth -= ch in ">)]"
        if ch == "," and not depth:
            alts.append(cur.strip())
            cur = ""
        else:
            cur += ch
    alts = [ALT.get(x, x) for x in alts + [cur.strip()]]
    by_index = any(r.end == "ret" and r.value is not None and term_index(r.value) for r in rows)
    for r in rows:
        if r.value is not None and r.value[0] == "enum":
            ck.ob("type/%s" % r.value[1].split("::")[-1], r.has(r.value[1].split("::")[-1]), r.where, "the type of a value is that of its content")
        else:
            ck.ob("type", r.value is not None and term_index(r.value), r.where, "the type of a value is that of its content")
    if by_index:
        for i, n in enumerate(enum):
            ck.ob("type/order/" + n, i < len(alts) and alts[i] == n, "%s:%s" % (rec["file"], rec["l"]), "the kinds of content are in the order of the types")
    ck.ob("type/all", set(alts) == set(enum) == set(ORDER), "%s:%s" % (rec["file"], rec["l"]), "every type has its own content")
    # --- get
    one = lambda n, *fl: (n, lambda v: holds(v, n, *fl))
    coded = lambda q: lambda v: v[0] == "call" and v[1].endswith("Base64::" + q)
    GET = {"Map": [one("Map", "map")], "List": [one("List")], "String": [one("EnumValue"), one("String", "string")], "Boolean": [one("Boolean")], "Int": [one("Int")],
           "Float": [one("Int"), one("Float")], "Scalar": [one("Scalar", "scalar")],
           "ID": [("String", lambda v: coded("fromBase64")(v) and len(v[4]) >= 1 and holds(v[4][0], "String", "string"))]}
    scalar = {"engaged": lambda t: holds(t, "Scalar", "scalar") or t[0] == "engaged" and holds(t[1], "Scalar", "scalar")}
    for name, n in (("get", 0), ("release", 0)):
        sp = spec(tu, name, n)
        want = GET if name == "get" else {k: v for k, v in GET.items() if k in ("Map", "List", "String", "Scalar", "ID")}
        for k, ok in want.items():
            ck.need(k in sp, "Value::%s<%s>" % (name, k))
            f = sp[k]
            d = VD(scalar, {"cleared": lambda c: c.name == "clear" and c.obj is not None and holds(c.obj, "Map", "members")})
            rows = ck.table(tu, f, d)
            what = "%s/%s" % (name, k)
            ck.must(what + "/fits", rows, [lambda r: r.end == "ret"], lambda r: r.value is not None and any(r.has(a) and all(p(v) for v in (phi_alts(r.value) if r.value[0] == "phi" else [r.value])) for a, p in ok),
                    "a value only yields what it holds, as it is")
            ck.must(what + "/refused", rows, [lambda r: r.end != "ret"], lambda r: r.end == "throw" and (all(r.has(a, False) for a, _ in ok) or k == "Scalar" and r.has("engaged", False)),
                    "a value that holds what was asked for yields it, anything else is an error")
            if k == "Scalar":
                ck.must(what + "/engaged", rows, [lambda r: r.end == "ret"], lambda r: r.has("engaged"), "a scalar without content yields nothing")
            if name == "get":
                ck.never(what + "/pure", rows, [], lambda r: any(e.startswith(("put:", "in:")) for e in r.events), "reading a value does not change it")
            elif k == "Map":
                ck.must(what + "/index", rows, [lambda r: r.end == "ret"], lambda r: r.did("cleared") or r.did("in:Map.members") or r.did("in:Map") or r.did("put:Map") or r.did("put:Map:other"), "the index of a map is emptied along with it")
                moved = []
                for g in tu.functions:
                    if g is f or g["nq"].startswith("graphql::response::") and g["id"] in callees(f):
                        _walk(g["body"], lambda m: moved.append(m) if m.get("k") in ("call", "mcall", "op") and (m.get("n") in ("move", "exchange", "swap", "clear")) and ends_in(m, "map") else None)
                ck.ob(what + "/emptied", moved, where(f), "the map is emptied along with its index")
            ck.ob(what + "/whole", not narrows(f), where(f), "numbers are not cut")
    # --- set
    par = lambda t, f: t is not None and t[0] == "v" and t[1] == f["p"][0]["n"]
    SET = {"String": {"EnumValue": ("", par), "String": (".string", par)}, "Boolean": {"Boolean": ("", par)}, "Int": {"Int": ("", par), "Float": ("", par)}, "Float": {"Float": ("", par)},
           "Scalar": {"Scalar": (".scalar", lambda t, f: t is not None and (par(t, f) or t[0] == "new" and len(t[2]) == 1 and par(t[2][0], f)))},
           "ID": {"String": (".string", lambda t, f: t is not None and coded("toBase64")(t) and par(t[4][0], f))}}
    sp = spec(tu, "set", 1)
    for k, to in SET.items():
        ck.need(k in sp, "Value::set<%s>" % k)
        f = sp[k]
        rows = ck.table(tu, f, VD(scalar, good=lambda name, v: name in to and to[name][1](v, f)))
        what = "set/" + k
        stored = lambda r: [e for e in r.events if e.startswith(("put:", "in:"))]
        ck.must(what + "/stored", rows, [lambda r: r.end == "ret"], lambda r: len(stored(r)) == 1 and any(r.has(a) and stored(r)[0] in ("put:" + a, "in:" + a + fl, "in:" + a) for a, (fl, _) in to.items()),
                "a value is set to what was given and keeps its type")
        ck.must(what + "/refused", rows, [lambda r: r.end != "ret"], lambda r: r.end == "throw" and not stored(r) and all(r.has(a, False) for a in to), "a value of another type is left alone and the caller told")
        ck.ob(what + "/whole", not narrows(f), where(f), "numbers are not cut")
    # --- constructors
    ctors = {tuple(p["t"] for p in f["p"]): f for f in tu.find(V + "Value")}
    kinds = {"const char *": "String", STRING + " &&": "String", "bool": "Boolean", "int": "Int", "double": "Float", "const " + BYTES + " &": "String"}
    for t, k in kinds.items():
        f = ctors.get((t,))
        ck.need(f, "the constructor of a value from %s" % t)
        ok = (lambda n, v: coded("toBase64")(v) and par(v[4][0], f)) if "unsigned char" in t else lambda n, v: par(v, f)
        rows = ck.table(tu, f, VD(scalar, good=ok))
        ck.must("made/%s" % k + ("/ID" if "unsigned char" in t else ""), rows, [], lambda r: r.end == "ret" and [e for e in r.events if e[:4] == "put:"][-1:] == ["put:" + k], "a value made of something holds just that")
        ck.ob("made/%s/whole" % k, not narrows(f), where(f), "numbers are not cut")
    f = ctors.get(("graphql::response::Type",))
    ck.need(f, "the constructor of a value of a type")
    tp = lambda n: lambda t: t[0] == "eq" and any(x[0] == "enum" and x[1].endswith("::" + n) for x in t[1:]) and any(x[0] == "v" and x[1] == f["p"][0]["n"] for x in t[1:])

    def empty(name, v):
        if v is None:
            return True
        if name in ("Boolean", "Int", "Float"):
            return v[0] == "c" and not v[1] or v[0] == "new" and not v[2]
        return not [x for x in subterms(v) if x[0] == "v" or x[0] == "c" and x[1] not in (False, "", None)]
    rows = ck.table(tu, f, VD({"T:" + n: tp(n) for n in ORDER}, good=empty))
    for n in ORDER:
        mine = [r for r in rows if r.has("T:" + n)]
        ck.need(mine, "a value of type " + n)
        last = lambda r: ([e for e in r.events if e[:4] == "put:"] or ["put:Map"])[-1]
        ck.must("made/of/" + n, mine, [], lambda r: r.end == "ret" and last(r) == "put:" + n, "a value made of a type has this type and no content")
    # --- moving and copying
    f = ctors.get((VALUE + " &&",))
    ck.need(f, "moving a value")
    rows = ck.table(tu, f, VD({}))
    ck.must("moved", rows, [], lambda r: r.end == "ret" and r.did("put:all"), "moving a value moves its content")
    f = [g for g in tu.find(V + "operator=") if len(g["p"]) == 1][0]
    same = {"same": lambda t: t[0] == "eq" and any(SELF(x) or x[0] == "addr" and SELF(x[1]) for x in t[1:]) and any(any(y[0] == "v" and y[1] == f["p"][0]["n"] for y in subterms(x)) for x in t[1:])}
    rows = ck.table(tu, f, VD(same))
    ck.must("assigned", rows, [lambda r: not r.has("same")], lambda r: r.end == "ret" and r.count("put:all") == 1, "assigning a value assigns its content")
    ck.must("assigned/self", rows, [lambda r: r.did("put:all")], lambda r: r.has("same", False), "a value assigned to itself keeps its content")
    # --- copying
    f = ctors.get(("const %s &" % VALUE,))
    ck.need(f, "copying a value")
    other = lambda t: t[0] == "v" and t[1] == f["p"][0]["n"]
    got = lambda t, k: t[0] == "call" and t[1] == V + "get" and t[3] is not None and other(t[3]) and OF.get((list(t[2] or ()) or ["?"])[0], "?") in (k, "?")
    from_other = lambda v, n, *fl: holds(v, n, *fl, who=other)

    def copied(name, v):
        if v is None:
            return name in ("Null",)
        if name in ("Boolean", "Int", "Float"):
            return from_other(v, name) or v[0] == "call" and v[1] == V + "get" and v[3] is not None and other(v[3]) and targ(v) == name
        if name == "EnumValue":
            return from_other(v, name) or v[0] == "call" and v[1] == V + "get" and other(v[3]) or v[0] == "new" and len(v[2]) == 1 and copied(name, v[2][0])
        if name == "String":
            return from_other(v, name, "string") or from_other(v, name) or v[0] == "call" and v[1] == V + "get" and other(v[3])
        if name == "Null":
            return v[0] == "new" and not v[2] or from_other(v, "Null")
        if name == "Scalar" and v[0] == "phi":
            return all(copied(name, x) for x in phi_alts(v))
        if name == "Scalar" and v[0] == "new" and strip_targs(v[1]) == V + "ScalarData" and len(v[2]) == 1:
            return copied(name, v[2][0])
        if name == "Scalar":
            if v == ("c", None) or v == NULL:
                return True
            inner = v[2][0] if v[0] == "new" and len(v[2]) == 1 else v
            inner = inner[2][0] if inner[0] == "new" and len(inner[2]) == 1 else inner
            return from_other(inner, "Scalar", "scalar") or inner[0] == "call" and inner[1] == V + "get" and other(inner[3]) or v[0] == "new" and not v[2]
        return True

    def targ(v):
        return OF.get((list(v[2]) or ["?"])[0], None)
    puts = {}
    jsons = []

    class C(VD):
        def json(self, ctx, st, v, node):
            jsons.append(v)
            ck.ob("copy/String/enum", from_other(v, "String", "from_json") or any(x[0] == "call" and x[1] == V + "maybe_enum" and x[3] is not None and other(x[3]) for x in subterms(v)), ctx.where(node), "the copy of a string may be an enum value exactly if the string may")

        def put(self, ctx, st, name, v, node):
            puts.setdefault(ALT.get(name, name), []).append((v, ctx.where(node)))
            return super().put(ctx, st, name, v, node)
    grown = []

    class G(C):
        def on_call(self, ctx, st, c):
            if grows(c) and c.obj is not None:
                grown.append((c.obj, tuple(c.args), ctx.where(c.node)))
            return super().on_call(ctx, st, c)
    full = {"engaged": lambda t: from_other(t, "Scalar", "scalar") or t[0] == "engaged" and from_other(t[1], "Scalar", "scalar")}
    rows = ck.table(tu, f, G(full, {"flag": lambda c: c.nq == V + "from_json", "asked": lambda c: c.nq == V + "get" and c.obj is not None and other(c.obj) and targ(("", "", c.ta or ())) == "Scalar"}, good=copied, who=other, opaque=(V + "size", V + "begin", V + "end", V + "operator[]", V + "find", V + "type", V + "maybe_enum", V + "emplace_back")))
    for n in ORDER:
        mine = [r for r in rows if r.has(n)]
        ck.need(mine, "the copy of a value of type " + n)
        if n == "Scalar":
            ck.must("copy/Scalar/empty", mine, [lambda r: r.did("asked")], lambda r: r.has("engaged"), "a scalar without content can be copied")
        ck.must("copy/" + n, [r for r in mine if r.end != "throw"], [], lambda r: ([e for e in r.events if e[:4] == "put:"] or ["put:Map"])[-1] in (("put:" + n,) + (("put:all",) if False else ())), "the copy of a value has its type and content")
        if n == "String":
            same = [v for v, _ in puts.get("String", ()) if v is not None and from_other(v, "String")]
            ck.must("copy/String/enum", [r for r in mine if r.end != "throw"], [], lambda r: bool(jsons or same) or r.did("put:all") or r.did("in:String.from_json") or r.did("flag"), "the copy of a string may be an enum value exactly if the string may")
        # an entry or element each
    entry = lambda x: x[0] == "elem" and (any(other(y) for y in subterms(x[1])))
    for n in ("Map", "List"):
        unit = lambda ctx, rng, node: any(other(y) for y in subterms(rng))

        def into(c):
            return grows(c) and c.obj is not None and c.args and any(entry(y) for a in c.args for y in subterms(a))
        d = VD({}, {"copied": into}, who=other, unit=unit, opaque=(V + "size", V + "begin", V + "end", V + "operator[]", V + "find", V + "type", V + "maybe_enum"))
        it = [r for r in ck.table(tu, f, d, partial=True) if r.loop and r.has(n)]
        whole = [v for v, _ in puts.get(n, ()) if v is not None and (from_other(v, n) or from_other(v, n, "map"))]
        if not it and whole:
            continue
        ck.need(it, "the copies of the elements of a %s" % n)
        ck.must("copy/%s/each" % n, it, [], lambda r: r.count("copied") == 1 and r.end in ("iter", "continue"), "every element of a value is copied once, in order")
    for obj, args, w in grown:
        el = [y for a in args for y in subterms(a) if entry(y)]
        if not el:
            continue
        key = obj[2] if obj[0] == "f" else ""
        if any(x[0] == "f" and x[1] in el for a in args for x in subterms(a)) or key == "map":
            firsts = [x for a in args for x in subterms(a) if x[0] == "f" and x[2] == "first" and x[1] in el]
            seconds = [x for a in args for x in subterms(a) if x[0] == "f" and x[2] == "second" and x[1] in el]
            if not firsts and not seconds:      # the pair as a whole
                firsts = seconds = el
            ck.ob("copy/Map/entry", firsts and seconds, w, "an entry is copied with its name and its value")
            ck.ob("copy/Map/kept", any(v is not None and (obj == v or obj[0] == "f" and obj[1] == v) for v, _ in puts.get("Map", ())) or any(SELF(x) for x in subterms(obj)), w, "the copied entries are those of the copy")
        else:
            ck.ob("copy/List/element", len(args) == 1 and (args[0] in el or args[0][0] == "new" and args[0][2] and args[0][2][0] in el), w, "an element is copied as it is")
            ck.ob("copy/List/kept", any(v == obj for v, _ in puts.get("List", ())) or any(SELF(x) for x in subterms(obj)), w, "the copied elements are those of the copy")
    # --- comparing
    f = [g for g in tu.find(V + "operator==") if g.get("cls") == VALUE][0]
    ck.ob("equal", [r for r in ck.table(tu, f, VD({})) if r.value is not None and r.value[0] == "eq" and all(x[0] == "f" and x[2] == "_data" for x in r.value[1:]) and {SELF(x[1]) for x in r.value[1:]} == {True, False}], where(f),
          "values are equal if they have the same type and content")
    for g in tu.find(V + "operator!="):
        d = VD({"equal": lambda t: t[0] == "eq" or t[0] == "call" and t[1] == V + "operator=="}, verdict=True)
        for r in ck.table(tu, g, d):
            ck.ob("unequal", r.value is not None and r.value[0] == "c" and r.has("equal", not r.value[1]), r.where, "unequal is the opposite of equal")
    parts = {"MapData": ("map",), "StringData": ("string",), "NullData": (), "ScalarData": ("scalar",)}
    for cls, fl in parts.items():
        fs = tu.find(V + cls + "::operator==")
        ck.need(fs, "comparing " + cls)
        g = fs[0]
        p = lambda t: t[0] == "v" and t[1] == g["p"][0]["n"]
        inside = lambda x, m: any(y[0] == "f" and y[2] == m for y in subterms(x))
        mem = lambda x, m, who: x[0] == "f" and x[2] == m and who(x[1])
        both = lambda m: lambda t: (t[0] == "eq" and any(mem(a, m, SELF) and mem(b, m, p) for a, b in ((t[1], t[2]), (t[2], t[1])))
                                    or t[0] == "call" and t[1] == "std::equal" and len(t[4]) >= 4 and all(inside(x, m) for x in t[4][:4]))
        null = lambda who: lambda t: t[0] == "f" and t[2] == "scalar" and who(t[1])
        d = VD(dict({m: both(m) for m in fl}, mine=null(SELF), theirs=null(p)), verdict=True)
        rows = ck.table(tu, g, d)
        for r in rows:
            if r.value is None or r.value[0] != "c":
                ck.ob("equal/%s/decided" % cls, False, r.where, "the contents are compared")
            elif r.value[1]:
                ck.ob("equal/%s/same" % cls, all(r.has(m) for m in fl) or cls == "ScalarData" and r.has("mine", False) and r.has("theirs", False), r.where, "equal values have equal contents")
            elif cls in ("MapData", "NullData", "ScalarData"):
                ck.ob("equal/%s/different" % cls, any(r.has(m, False) for m in fl) or cls == "ScalarData" and (r.has("mine", False) and not r.has("theirs", False) or r.has("theirs", False) and not r.has("mine", False)), r.where, "values with equal contents are equal")
    # --- JSON strings may be enum values
    f = tu.one(V + "from_json")
    rows = ck.table(tu, f, VD({}))
    mark = lambda r: r.did("in:String.from_json") or r.did("in:String.from_json:other")
    ck.must("json/string", rows, [lambda r: r.has("String")], mark, "a string from JSON can be an enum value")
    ck.never("json/other", rows, [lambda r: not r.has("String")], lambda r: any(e.startswith(("put:", "in:")) for e in r.events), "anything else from JSON is what it is")
    ck.must("json/only", rows, [], lambda r: r.end == "ret" and not any(e.startswith("put:") or e.startswith("in:") and ".from_json" not in e for e in r.events), "the content stays the same")
    f = tu.one(V + "maybe_enum")
    at = {"marked": lambda t: holds(t, "String", "from_json")}
    rows = ck.table(tu, f, VD(at, verdict=True))
    for r in rows:
        yes = r.has("EnumValue") or r.has("String") and r.has("marked")
        no = (r.has("EnumValue", False) or r.has("String")) and (r.has("String", False) or r.has("marked", False))
        ck.ob("json/candidate", r.value is not None and r.value[0] == "c" and (yes if r.value[1] else no), r.where, "enum values and strings from JSON can be enum values, nothing else")
    # --- lists
    f = [g for g in tu.find(V + "emplace_back") if len(g["p"]) == 1][0]
    rows = ck.table(tu, f, VD({}, {"grow": lambda c: c.name in ("emplace_back", "push_back") and c.obj is not None and holds(c.obj, "List") and len(c.args) == 1 and par(c.args[0], f), "other": lambda c: c.nq.startswith("std::") and c.obj is not None and not c.const and mentions("_data")(c.obj) and c.name not in ("reserve", "emplace_back", "push_back", "index", "back", "end", "begin")}))
    ck.must("list/append", rows, [lambda r: r.end == "ret"], lambda r: r.has("List") and r.count("grow") == 1 and not r.did("other"), "an element is appended once")
    ck.must("list/refused", rows, [lambda r: r.end != "ret"], lambda r: r.has("List", False) and not r.did("grow"), "only a list takes elements")
    f = [g for g in tu.find(V + "operator[]") if "basic_string_view" not in g["p"][0]["t"]][0]
    checked = {"inside": lambda t: t[0] == "lt" and par(t[1], f) and any(holds(x, "List") for x in subterms(t[2]))}
    d = VD(checked, {"at": lambda c: c.name == "at" and c.obj is not None and holds(c.obj, "List")})
    rows = ck.table(tu, f, d)
    ck.must("list/element", rows, [lambda r: r.end == "ret"], lambda r: r.has("List") and r.value is not None and any(holds(x, "List") for x in subterms(r.value)) and any(par(x, f) for x in subterms(r.value)) and (r.did("at") or r.has("inside")),
            "an index yields the element of the list at that position, and only if there is one")
    ck.must("list/element/refused", rows, [lambda r: r.end != "ret"], lambda r: r.end == "throw" and (r.has("List", False) or r.has("inside", False)), "only lists have elements")
    f = tu.one(V + "size")
    rows = ck.table(tu, f, VD({}, opaque=(V + "type",)))
    size = lambda v, n, *fl: v is not None and v[0] == "call" and v[1].split("::")[-1] == "size" and v[3] is not None and holds(v[3], n, *fl)
    ck.must("size", rows, [lambda r: r.end == "ret"], lambda r: r.has("Map") and (size(r.value, "Map", "map") or size(r.value, "Map", "members")) or r.has("List") and size(r.value, "List"), "the size is the number of elements or entries")
    ck.must("size/refused", rows, [lambda r: r.end != "ret"], lambda r: r.has("Map", False) and r.has("List", False), "lists and maps have a size")


def grows(c):
    return c.name in ("push_back", "emplace_back", "emplace", "insert", "push_front", "emplace_front", "put") and (c.nq.startswith("std::") or c.nq == V + "emplace_back")


def where(fn):
    return "%s:%s" % (fn["file"], fn["l"])


def ends_in(call, name):
    r = []
    _walk([call.get("a"), call.get("o")], lambda m: r.append(m) if m.get("k") == "mem" and m.get("n") == name else None)
    return bool(r)


def callees(f):
    r = set()
    _walk(f["body"], lambda m: r.add(m["fid"]) if m.get("fid") is not None else None)
    return r
