"""Argument and input value rules of validation: literals are turned into argument values of the right kind, every
value is checked against the declared type, arguments are unique, known, of a compatible type and present when
required, both on fields and on directives."""
from vcommon import *

A = "graphql::service::ValidateArgument"
ALT = {"variable": A + "Variable", "int": "int", "float": "double", "string": "std::basic_string_view", "boolean": "bool",
       "enum": A + "EnumValue", "list": A + "List", "map": A + "Map"}


def altname(t):
    t = t.replace("const ", "").rstrip("& ").strip()
    for n, x in ALT.items():
        if t == x or (n == "string" and (t.startswith(x) or t == "std::string_view")):
            return n
    return t


def node_argtype(node):
    if node.get("k") == "ctor" and node.get("pt"):
        a = node["a"][0] if node.get("a") else {}
        return altname(node["pt"][0])
    a = node.get("a") or []
    return altname(a[0].get("t", "")) if a else None


def elem_of(rng_pred):
    return lambda t: any(x[0] == "elem" and rng_pred(x[1]) for x in subterms(t))


def literal_rules(ck, tu):
    """syntax node -> argument value"""
    f = tu.one(AV + "visit")
    MAP = dict(variable_value="variable", integer_value="int", float_value="float", string_value="string", true_keyword="boolean",
               false_keyword="boolean", null_keyword=None, enum_value="enum", list_value="list", object_value="map")

    class Lit(Decision):
        def on_new(self, ctx, st, ctype, args, node):
            if strip_targs(ctype).endswith("::ValidateArgumentValue") and args:
                kind = node_argtype(node)
                st = self.add(st, "make:%s" % kind, ctx, node)
                v = args[0]
                if kind == "string" and not mentions("unescaped_view")(v):
                    st = self.add(st, "raw-string", ctx, node)
                if kind == "enum" and not mentions("string_view")(v):
                    st = self.add(st, "bad-enum", ctx, node)
                if kind == "variable" and not any(x[0] == "call" and x[1].endswith("substr") and x[4] and x[4][0] == ("c", 1) for x in subterms(v)):
                    st = self.add(st, "bad-variable", ctx, node)
                if kind == "boolean":
                    st = self.add(st, "value:%s" % ("true" if v == TRUE else "false" if v == FALSE else short(v)), ctx, node)
            return st
    B = tuple(b for b in BOUND if not b.startswith(AV))
    for kind, want in MAP.items():
        d = Lit(atoms={k: isty(k) for k in MAP}, opaque=B, ordered=False,
                writes=dict(put=lambda l, r, op: fieldname(l) == "value" and fieldname(l[1]) == "_argumentValue" and r and r[0] == "new"))
        v = ("v", f["p"][0]["n"], f["p"][0]["d"])
        facts = {("is_type", v, k): k == kind for k in MAP}
        rows = ck.table(tu, f, d, facts=facts)
        rows = [r for r in rows if not any(r.has(k) for k in MAP if k != kind)]
        made = {e for r in rows for e in r.events if e.startswith("make:")}
        if want is None:
            ck.ob("literal/" + kind, bool(rows) and not made, f["file"], "a null literal has no value (made %s)" % sorted(made))
        else:
            ck.ob("literal/" + kind, bool(rows) and made == {"make:" + want} and all(r.did("make:" + want) for r in rows), f["file"], "a %s becomes a %s argument (made %s)" % (kind, want, sorted(made)))
            ck.must("literal/%s-stored" % kind, rows, [], "put", "the value of a %s is stored" % kind)
        for bad, what in (("raw-string", "string literals are unescaped"), ("bad-enum", "enum literals keep their name"), ("bad-variable", "variables are known by their name without the dollar sign")):
            ck.never("literal/%s/%s" % (kind, bad), rows, [], bad, what)
        if want == "boolean":
            ck.never("literal/%s-value" % kind, rows, [], lambda r: any(e.startswith("value:") and e != "value:" + ("true" if kind == "true_keyword" else "false") and "is_type" not in e for e in r.events), "true is true and false is false")
            ck.never("literal/%s-expr" % kind, rows, [], lambda r: any("is_type" in e and not (e.startswith("value:is_type(") and "true_keyword" in e or e.startswith("value:!") and "false_keyword" in e) for e in r.events), "true is true and false is false")

    f = tu.one(AV + "visitListValue") if tu.find(AV + "visitListValue") else tu.one(AV + "visit")
    d = Decision(events=dict(push=lambda c: grows(c) and fieldname(c.obj) == "values", sub=lambda c: c.nq == AV + "visit" and bool(c.args) and c.args[0][0] == "elem"),
                 unit=lambda ctx, rng, node: rng[0] == "f" and rng[2] == "children" and rng[1][0] == "v", opaque=BOUND)
    rows = [r for r in ck.table(tu, f, d) if r.did("push") or True]
    ck.ob("literal/list-elements", bool(rows), f["file"], "list literals are walked")
    ck.must("literal/list-element", rows, [], lambda r: r.did("sub") and r.did("push") and r.index("sub") < r.index("push"), "every element of a list literal becomes an element of the argument value")
    f = tu.one(AV + "visitObjectValue") if tu.find(AV + "visitObjectValue") else tu.one(AV + "visit")
    keyk = mentions("front", "string_view")
    d = Decision(atoms={"f:fnd": lambda t: t[0] == "found" and fieldname(t[1]) == "values" and keyk(t[2]), "f:ins": lambda t: t[0] == "inserted" and fieldname(t[1]) == "values" and keyk(t[2])},
                 events=dict(error=is_err, sub=lambda c: c.nq == AV + "visit" and bool(c.args) and mentions("back")(c.args[0])),
                 writes=dict(put=lambda l, r, op: any(x[0] == "call" and fieldname(x[3]) == "values" for x in subterms(l)) or (l and l[0] in ("idx", "at") and fieldname(l[1]) == "values")),
                 unit=lambda ctx, rng, node: rng[0] == "f" and rng[2] == "children" and rng[1][0] == "v", opaque=BOUND)
    rows = ck.table(tu, f, d)
    ck.evaluated("literal/object-unique-tested", rows, "f:fnd", [tested("f")], "the fields of an object literal are tested for uniqueness")
    ck.must("literal/object-duplicate", rows, [dup("f")], "error", "an input field given twice is an error")
    ck.never("literal/object-quiet", rows, [fresh("f")], "error", "an input field given once is accepted")
    ck.must("literal/object-field", rows, [fresh("f")], "sub", "the value of every input field is understood")


def value_rules(ck, tu):
    f = fn(tu, "validateInputValue")
    n = [p["n"] for p in f["p"]]
    P = {p["n"]: ("v", p["n"], p["d"]) for p in f["p"]}
    dfl, arg, typ = (P[x] for x in n)
    KINDS = ("NON_NULL", "LIST", "INPUT_OBJECT", "ENUM", "SCALAR")
    SC = ("Int", "Float", "String", "ID", "Boolean")
    REC = V + "validateInputValue"
    ofT = lambda t: any(x[0] == "call" and x[1].endswith("::ofType") and x[3] == typ for x in subterms(t))

    def kindof(k):
        def p(t):
            if t[0] != "eq":
                return False
            a, b = t[1], t[2]
            if b[0] != "enum":
                a, b = b, a
            return b[0] == "enum" and b[1].endswith("TypeKind::" + k) and a[0] == "call" and a[1].endswith("::kind") and a[3] == typ
        return p

    def nameis(s):
        def p(t):
            if t[0] != "eq":
                return False
            a, b = t[1], t[2]
            if b[0] != "c":
                a, b = b, a
            return b == ("c", s) and a[0] == "call" and a[1].endswith("::name") and a[3] == typ
        return p
    isname = lambda x: x[0] == "call" and x[1].endswith("::name") and x[3] == typ
    atoms = {"type": lambda t: t == typ, "dfl": lambda t: t == dfl,
             "val": lambda t: t == ("f", arg, "value"),
             "oft": lambda t: t[0] != "eq" and t[0] == "call" and ofT(t) and t[1].split("::")[-1] != "validateInputValue",
             "noname": lambda t: t[0] == "empty" and isname(t[1]),
             "nofields": lambda t: t[0] == "eq" and mentions("getInputTypeFields")(t) and not mentions("first")(t),
             "enums": lambda t: t[0] == "found" and fieldname(t[1]) == "_enumValues" and isname(t[2]),
             "enumv": lambda t: t[0] == "found" and mentions("_enumValues", "find")(t[1]) and mentions("value")(t[2]),
             "scalar": lambda t: t[0] == "found" and fieldname(t[1]) == "_scalarTypes" and isname(t[2])}
    for k in KINDS:
        atoms[k] = kindof(k)
    for s in SC:
        atoms[s] = nameis(s)
    for a, ty in ALT.items():
        atoms["a:" + a] = (lambda a: lambda t: t[0] == "is_alt" and altname(t[2]) == a and mentions(n[1])(t[1]))(a)
    d = Decision(atoms=atoms, events=dict(error=is_err, decode=lambda c: c.nq.endswith("Base64::fromBase64") and bool(c.args) and mentions(n[1])(c.args[0])),
                 loops=dict(list=lambda r: mentions(n[1], "values")(r) and altname("x") and any(x[0] == "f" and x[2] == "as:" + ALT["list"] for x in subterms(r)),
                            map=lambda r: any(x[0] == "f" and x[2] == "as:" + ALT["map"] for x in subterms(r)),
                            fields=lambda r: mentions("getInputTypeFields")(r)),
                 may_throw=lambda c: ("std::logic_error",) if c.nq.endswith("Base64::fromBase64") else (), value=True, opaque=BOUND, throws=False)
    rows = ck.table(tu, f, d)
    isrec = lambda r: isinstance(r.value, tuple) and r.value[0] == "call" and r.value[1] == REC
    rej = lambda r: r.value == FALSE
    rejerr = lambda r: r.value == FALSE and r.did("error")
    ck.must("value/unknown-type", rows, [("type", False)], rejerr, "a value for an unknown type is rejected")
    lit = [r for r in rows if not r.has("a:variable") and r.has("type")]
    ck.need(lit, "literal values are not distinguished from variables")
    nul = [r for r in lit if r.has("val", False)]
    ck.must("value/null", nul, [("NON_NULL", True)], lambda r: r.has("dfl", True) or rejerr(r), "null is not accepted for a non-null type without a default")
    ck.must("value/null-nullable", nul, [("NON_NULL", False)], lambda r: r.value == TRUE and not r.did("error"), "null is accepted for every nullable type")
    ck.evaluated("value/null-tested", nul, "NON_NULL", [], "null is compared with the nullability of the type")
    v = [r for r in lit if r.has("val", True)]
    rec1 = lambda r: isrec(r) and r.value[4][1] == arg and ofT(r.value[4][2])
    ck.must("value/non-null", v, [("NON_NULL", True)], lambda r: rec1(r) or (rejerr(r) and r.has("oft", False)), "a value for a non-null type is checked against the underlying type")
    ck.must("value/list-literal", v, [("LIST", True), lambda r: r.value != FALSE], ("a:list", True) and (lambda r: r.has("a:list") and r.did("loop:list")), "a list type takes list literals, whose elements are checked")
    ck.must("value/list-rejected", v, [("LIST", True), ("a:list", False)], rejerr, "anything else is rejected for a list type")
    ck.must("value/object-literal", v, [("INPUT_OBJECT", True), lambda r: r.value != FALSE], lambda r: r.has("a:map") and r.did("loop:map") and r.did("loop:fields") and r.index("loop:map") < len(r.events), "an input object takes object literals, whose given and required fields are checked")
    ck.must("value/object-rejected", v, [("INPUT_OBJECT", True), ("a:map", False)], rejerr, "anything else is rejected for an input object")
    ck.must("value/enum-accepted", v, [("ENUM", True), lambda r: r.value != FALSE], lambda r: r.has("a:enum") and r.has("enums") and r.has("enumv"), "an enum type takes only its own values")
    for a in ("a:enum", "enums", "enumv"):
        ck.must("value/enum-rejected-" + a[-5:], v, [("ENUM", True), (a, False)], rejerr, "a value that is not one of the enum's is rejected")
    ok = {"Int": ("int",), "Float": ("float", "int"), "String": ("string",), "ID": ("string",), "Boolean": ("boolean",)}
    for s in SC:
        rs = [r for r in v if r.has("SCALAR") and r.has(s)]
        ck.ob("value/scalar-%s" % s, any(r.value == TRUE for r in rs) and any(rejerr(r) for r in rs), f["file"], "%s literals are told from others" % s)
        ck.must("value/scalar-%s-accepted" % s, rs, [lambda r: r.value != FALSE], lambda r: r.value == TRUE and any(r.has("a:" + a) for a in ok[s]), "%s accepts only %s literals" % (s, " or ".join(ok[s])))
        for a in ok[s]:
            ck.must("value/scalar-%s-%s" % (s, a), rs, [("a:" + a, True), ("scalar", True)], lambda r: r.value == TRUE and not r.did("error"), "%s accepts %s literals" % (s, a))
    ck.must("value/id-decodes", v, [("SCALAR", True), ("ID", True), lambda r: r.value == TRUE], "decode", "an ID literal has to decode")
    ck.ob("value/id-undecodable", any(r.has("ID") and r.has("a:string") and r.did("decode") and rejerr(r) for r in v), f["file"], "an ID literal that does not decode is rejected, not thrown")
    ck.must("value/unknown-scalar", v, [("SCALAR", True), ("scalar", False)], rejerr, "an undefined scalar accepts nothing")
    cust = [r for r in v if r.has("SCALAR") and not any(r.has(s) for s in SC)]
    ck.must("value/custom-scalar", cust, [("scalar", True)], lambda r: r.value == TRUE, "a custom scalar accepts any literal")
    ck.must("value/other-kind", v, [lambda r: not any(r.has(k) for k in KINDS)], rejerr, "a type of any other kind accepts no value")
    ck.must("value/reported", [r for r in rows if not isrec(r)], [rej], lambda r: r.did("error") or r.did("loop:list") or r.did("loop:map"), "every rejection is reported")
    ck.must("value/verdict", rows, [lambda r: r.did("error")], rej, "a reported value is not accepted")

    # elements of lists
    lst = lambda rng: any(x[0] == "f" and x[2] == "as:" + ALT["list"] for x in subterms(rng))
    mp = lambda rng: any(x[0] == "f" and x[2] == "as:" + ALT["map"] for x in subterms(rng))
    okrec = lambda t: t[0] == "call" and t[1] == REC
    d = Decision(atoms=dict(ok=lambda t: okrec(t) and t[4][0] == FALSE and elem_of(lst)(t[4][1]) and ofT(t[4][2])), unit=lambda ctx, rng, node: lst(rng), value=True, opaque=BOUND, outer=False)
    rows = ck.table(tu, f, d, partial=True)
    ck.evaluated("list-element/checked", rows, "ok", [], "every element of a list literal is checked against the element type")
    ck.must("list-element/bad", rows, [("ok", False)], lambda r: r.end in ("ret", "break"), "a list with a bad element is rejected")
    d2 = Decision(atoms=d.atoms, value=True, opaque=BOUND)
    ck.must("list-element/rejected", ck.table(tu, f, d2), [("ok", False)], rej, "a list with a bad element is rejected")
    ck.must("list-element/good", rows, [("ok", True)], lambda r: r.end == "iter", "a good element does not end the check of the others")
    # given fields of an input object
    ent = elem_of(mp)
    decl = lambda t: mentions("getInputTypeFields", "find")(t) and ent(t)
    d = Decision(atoms=dict(known=lambda t: t[0] == "found" and mentions("getInputTypeFields")(t[1]) and ent(t[2]),
                            val=lambda t: fieldname(t) == "value" and ent(t), dfl=lambda t: fieldname(t) == "defaultValue" and decl(t),
                            ok=lambda t: okrec(t) and fieldname(t[4][0]) == "nonNullDefaultValue" and decl(t[4][0]) and ent(t[4][1]) and fieldname(t[4][2]) == "type" and decl(t[4][2])),
                 events=dict(error=is_err, given=lambda c: grows(c) and bool(c.args) and fieldname(c.args[0]) == "first" and ent(c.args[0])), unit=lambda ctx, rng, node: mp(rng), opaque=BOUND, outer=False)
    rows = ck.table(tu, f, d, partial=True)
    ck.evaluated("object-field/known-tested", rows, "known", [], "every given field is looked up among the input object's")
    ck.must("object-field/unknown", rows, [("known", False)], lambda r: r.did("error") and r.end == "ret", "a field the input object does not have is an error")
    ck.evaluated("object-field/checked", rows, "ok", [("known", False), [("val", False), ("dfl", True)] and (lambda r: r.has("val", False) and r.has("dfl", True))], "every given field is checked against its type")
    ck.must("object-field/bad", rows, [("ok", False)], lambda r: r.end == "ret", "an input object with a bad field is rejected")
    ck.never("object-field/quiet", rows, [("known", True)], "error", "a known field is not an error by itself")
    ck.must("object-field/continues", rows, [("ok", True)], lambda r: r.end == "iter", "a good field does not end the check of the others")
    # required fields
    isf = lambda rng: mentions("getInputTypeFields")(rng) and rng[0] == "f"
    fe = elem_of(isf)
    d = Decision(atoms=dict(dfl=lambda t: fieldname(t) == "defaultValue" and fe(t), type=lambda t: fieldname(t) == "type" and fe(t),
                            given=lambda t: t[0] == "found" and fe(t[2]) and not mentions("getInputTypeFields")(t[1]),
                            nn=lambda t: t[0] == "eq" and any(x[0] == "enum" and x[1].endswith("::NON_NULL") for x in t[1:]) and fe(t)),
                 events=dict(error=is_err), unit=lambda ctx, rng, node: isf(rng), opaque=BOUND, outer=False)
    rows = ck.table(tu, f, d, partial=True)
    required_rules(ck, "object-required", rows, lambda r: r.has("given"), "given", lambda r: r.did("error") and r.end == "ret")


def required_rules(ck, key, rows, supplied, atom, err):
    ck.need(rows, key + ": no loop over the declared inputs")
    free = [r for r in rows if not supplied(r) and not r.has("dfl", True)]
    ck.must(key + "/missing", free, [("nn", True)], err, "a required input that is missing is an error")
    ck.evaluated(key + "/nullability", [r for r in free], "nn", [("type", False)], "an input without a value or default is tested for being required")
    ck.ob(key + "/required-exists", any(r.has("nn", True) for r in free), "", "required inputs are recognised")
    ck.never(key + "/default", [r for r in rows if r.has("dfl", True) and not r.has("ok", False)], [], "error", "an input with a default may be left out")


def argument_rules(ck, tu, who, visitor, source):
    """field and directive arguments"""
    f = fn(tu, visitor)
    argkids = lambda rng: rng[0] == "f" and rng[2] == "children" and any(x[0] == "elem" and len(x) == 3 and x[2] == "arguments" for x in subterms(rng))
    declared = lambda t: any(x[0] == "f" and x[2] == "arguments" and mentions(source)(x[1]) and not any(y[0] == "new" for y in subterms(x[1])) for x in subterms(t)) 
    isdecl = lambda rng: rng[0] == "f" and rng[2] == "arguments" and mentions(source, "find")(rng)
    name = mentions("front", "string_view")
    d = Decision(atoms={"a:fnd": lambda t: t[0] == "found" and name(t[2]) and not isdecl(t[1]) and elem_of(argkids)(t[2]), "a:ins": lambda t: t[0] == "inserted" and name(t[2]) and elem_of(argkids)(t[2])},
                 events=dict(error=is_err, value=lambda c: c.nq == AV + "visit" and bool(c.args) and mentions("back")(c.args[0]) and elem_of(argkids)(c.args[0])),
                 unit=lambda ctx, rng, node: argkids(rng), opaque=BOUND, outer=False)
    rows = ck.table(tu, f, d)
    col = [x for x in groups(rows).values() if any(r.did("value") for r in x)]
    ck.ob(who + "/collected", len(col) == 1, f["file"], "the given arguments are collected")
    for x in col:
        ck.evaluated(who + "/unique-tested", x, "a:fnd", [tested("a")], "each given argument is tested for uniqueness")
        ck.must(who + "/duplicate", x, [dup("a")], "error", "an argument given twice is an error")
        ck.must(who + "/value", x, [fresh("a")], "value", "the value of every argument is understood")
        ck.never(who + "/unique-quiet", x, [fresh("a")], lambda r: r.did("error") and not r.seen("known"), "an argument given once is accepted")
    # known
    known = lambda t: t[0] == "found" and isdecl(t[1]) and any(x[0] == "elem" for x in subterms(t[2]))
    d = Decision(atoms=dict(known=known), events=dict(error=is_err), unit=lambda ctx, rng, node: not isdecl(rng) and not mentions("selection_set")(rng), opaque=BOUND, outer=False)
    rows = ck.table(tu, f, d)
    g = [x for x in groups(rows).values() if any(r.seen("known") for r in x)]
    ck.ob(who + "/known-tested", bool(g), f["file"], "every given argument is looked up among the declared ones")
    for x in g:
        ck.evaluated(who + "/known-all", x, "known", [lambda r: r.did("error")], "every given argument is looked up among the declared ones")
        ck.must(who + "/unknown", x, [("known", False)], "error", "an argument that is not declared is an error")
        ck.never(who + "/known-quiet", x, [("known", True)], "error", "a declared argument is not an error by itself")
    # declared arguments
    el = elem_of(isdecl)
    own = lambda t: any(x[0] == "elem" and isdecl(x[1]) for x in subterms(t))
    iselem = lambda t, fld: fieldname(t) == fld and t[0] == "f" and t[1][0] == "f" and t[1][2] == "second" and t[1][1][0] == "elem" and isdecl(t[1][1][1])
    d = Decision(atoms=dict(given=lambda t: t[0] == "found" and fieldname(t[2]) == "first" and own(t[2]) and not isdecl(t[1]),
                            val=lambda t: fieldname(t) == "value" and own(t) and mentions("find")(t),
                            dfl=lambda t: iselem(t, "defaultValue"), type=lambda t: iselem(t, "type"),
                            nn=lambda t: t[0] == "eq" and any(x[0] == "enum" and x[1].endswith("::NON_NULL") for x in t[1:]) and own(t),
                            ok=lambda t: t[0] == "call" and t[1] == V + "validateInputValue" and iselem(t[4][0], "nonNullDefaultValue") and iselem(t[4][2], "type") and own(t[4][1])),
                 events=dict(error=is_err), unit=lambda ctx, rng, node: isdecl(rng), opaque=BOUND, outer=False)
    rows = ck.table(tu, f, d)
    sup = lambda r: r.has("given", True) and r.has("val", True)
    required_rules(ck, who + "/required", rows, sup, "given", "error")
    ck.evaluated(who + "/type-tested", [r for r in rows if sup(r)], "ok", [], "every given, non-null argument is checked against its declared type")
    ck.must(who + "/type-error", rows, [("ok", False)], "error", "an argument of the wrong type is an error")
    ck.evaluated(who + "/given-tested", rows, "given", [("dfl", True)], "every declared argument is looked for among the given ones")
    ck.only(who + "/quiet", rows, "error", [("ok", False), lambda r: not sup(r) and not r.has("dfl", True) and r.has("nn", True)], "only wrong types and missing required arguments are errors")
    return isdecl


def run(ck):
    tu = ck.load(SRC)
    literal_rules(ck, tu)
    value_rules(ck, tu)
    isdecl = argument_rules(ck, tu, "field-arguments", "visitField", "getScopedTypeFields")
    f = fn(tu, "visitField")
    # the loop over the declared arguments is reached for every field that is not rejected or a repetition
    rep = lambda t: t[0] == "eq" and mentions("_selectionFields", "find")(t)
    d = Decision(atoms=dict(same=rep, known=lambda t: t[0] == "found" and mentions("getScopedTypeFields")(t[1]) and not isdecl(t[1]) and t[1][0] == "f"),
                 events=dict(select=calls("visitSelection")), loops=dict(decl=isdecl), opaque=BOUND,
                 writes=dict(count=lambda l, r, op: fieldname(l) == "_fieldCount" and op == "++"))
    rows = ck.table(tu, f, d)
    ck.must("field-arguments/reached", rows, [lambda r: r.did("count") and not r.has("same", True) and not r.has("known", False)], "loop:decl", "the declared arguments of every field are examined")
    isdecl = argument_rules(ck, tu, "directive-arguments", "visitDirectives", "_directives")
    f = fn(tu, "visitDirectives")
    d = Decision(atoms=dict(defd=found_in("_directives")), events=dict(error=is_err), loops=dict(decl=isdecl),
                 unit=lambda ctx, rng, node: rng[0] == "f" and rng[2] == "children" and rng[1][0] == "v", opaque=BOUND, ordered=False)
    rows = ck.table(tu, f, d)
    ck.must("directive-arguments/reached", rows, [("defd", True), lambda r: not r.did("error")], "loop:decl", "the declared arguments of every directive are examined, also when it is given none")

    # flags of the declared arguments
    f = fn(tu, "getArguments")
    d = Decision(atoms=dict(nodef=lambda t: t[0] == "empty" and mentions("defaultValue")(t), isnull=lambda t: t[0] == "eq" and ("c", "null") in t and mentions("defaultValue")(t),
                            hasdef=lambda t: fieldname(t) == "defaultValue" and t[0] == "f" and t[1][0] == "v", arg=lambda t: t[0] == "elem"),
                 unit=lambda ctx, rng, node: rng[0] == "v",
                 opaque=[b for b in BOUND if not b.endswith("getArguments")])

    class Flags(Decision):
        def on_write(self, ctx, st, l, r, op, node):
            for n in ("defaultValue", "nonNullDefaultValue", "type"):
                if fieldname(l) == n:
                    st = self.add(st, "%s=%s" % (n, short(r)), ctx, node)
            return st
    d = Flags(atoms=d.atoms, unit=d.unit, opaque=d.opaque)
    rows = [r for r in ck.table(tu, f, d) if not r.has("arg", False)]
    ck.need(rows, "getArguments has no loop over its arguments")

    def flag(r, n):
        x = [e.split("=", 1)[1] for e in r.events if e.startswith(n + "=")]
        return x[-1] if x else None
    T, F = "True", "False"
    ok_def = lambda r: flag(r, "defaultValue") is not None and ("empty(" in flag(r, "defaultValue") and flag(r, "defaultValue").startswith(("!", "not")) or
                                                              (flag(r, "defaultValue") == T and r.has("nodef", False)) or (flag(r, "defaultValue") == F and r.has("nodef", True)) or "size" in flag(r, "defaultValue"))
    ck.must("declared/default", rows, [], ok_def, "an argument has a default exactly when the schema gives it one")
    nn = lambda r: flag(r, "nonNullDefaultValue")
    nodef = lambda r: r.has("nodef", True) or r.has("hasdef", False)
    ck.must("declared/non-null-default", rows, [], lambda r: nn(r) is not None and ((nodef(r) or r.has("isnull", True) or r.has("isnull", False)) or "null" in nn(r)), "the null default is told from others")
    ck.never("declared/null-default", rows, [("isnull", True)], lambda r: nn(r) == T, "a null default is not a non-null default")
    ck.never("declared/no-default", rows, [nodef], lambda r: nn(r) == T, "no default is not a non-null default")
    ck.never("declared/some-default", rows, [("isnull", False), lambda r: not nodef(r)], lambda r: nn(r) == F, "any other default is a non-null default")
    ck.must("declared/type", rows, [], lambda r: flag(r, "type") is not None and "type()" in flag(r, "type"), "an argument has the type the schema gives it")

    # ---- what is known about the types of the schema
    f = tu.one(V + "ValidateExecutableVisitor")
    here = lambda ctx, rng, node: mentions("types")(rng) and not mentions("possibleTypes")(rng) and not mentions("enumValues")(rng)
    name = lambda t: t[0] == "f" and t[2] == "first" and mentions("types")(t) or mentions("types", "name")(t)
    into = lambda m: lambda l, r, op: l[0] == "idx" and mentions(m)(l[1]) and name(l[2])
    puts = lambda m: lambda c: grows(c) and c.obj is not None and fieldname(c.obj) == m and bool(c.args) and name(c.args[0])
    d = Decision(atoms=dict(leaf=lambda t: t[0] == "call" and t[1] == V + "isScalarType" and mentions("types", "kind")(t), enum=kind_eq("ENUM", "types"), scalar=kind_eq("SCALAR", "types"),
                            none=lambda t: t[0] == "empty" and mentions("enumValues")(t)),
                 writes=dict(type=into("_types"), values=into("_enumValues")), events=dict(sc=puts("_scalarTypes"), type=puts("_types"), values=puts("_enumValues")),
                 loops=dict(values=lambda r: mentions("enumValues")(r)), unit=here, opaque=BOUND)
    rows = ck.table(tu, f, d)
    ck.must("known/type", rows, [], lambda r: r.did("type"), "every type of the schema is known by its name")
    enum = lambda r: r.has("leaf") and not r.has("enum", False) and not r.has("scalar")
    ck.must("known/enum", rows, [enum, lambda r: not r.has("none")], lambda r: r.did("loop:values") and (r.did("values") or alias(f, "_enumValues")), "the values of every enum are known")
    ck.must("known/scalar", rows, [("leaf", True), lambda r: not r.has("enum") and not r.has("scalar", False)], lambda r: r.did("sc"), "every scalar type is known")
    ck.must("known/scalar-only", rows, [lambda r: r.did("sc")], lambda r: r.has("scalar"), "nothing else is a scalar type")
    d = Decision(atoms=dict(live=lambda t: t[0] == "elem" and mentions("enumValues")(t)), events=dict(add=lambda c: grows(c) and bool(c.args) and mentions("enumValues", "name")(c.args[0])),
                 unit=lambda ctx, rng, node: mentions("enumValues")(rng), opaque=BOUND)
    rows = ck.table(tu, f, d)
    ck.must("known/enum-value", rows, [lambda r: not r.has("live", False)], "add", "every value of an enum is known by its name")
