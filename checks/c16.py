"""Variable rules of validation: unique variables, input types only, well-typed defaults, every use is declared, every
declaration is used, and every use is in a position its type allows."""
from vcommon import *

OPV, DEFS, REFS_ = "_operationVariables", "_variableDefinitions", "_referencedVariables"


def run(ck):
    tu = ck.load(SRC)
    f = fn(tu, "visitOperationDefinition")
    vname = lambda k: mentions("variable_name", "substr")(k) or k[0] == "v"
    isname, isdef = isty("variable_name"), isty("default_value")
    istype = isty("named_type", "list_type", "nonnull_type")
    d = Decision(atoms={"isvar": isty("variable"), "isname": isname, "isdef": isdef, "isnamed": isty("named_type"), "islist": isty("list_type"), "isnn": isty("nonnull_type"),
                        "v:fnd": lambda t: t[0] == "found" and fieldname(t[1]) in (OPV, DEFS) and vname(t[2]),
                        "v:ins": lambda t: t[0] == "inserted" and fieldname(t[1]) in (OPV, DEFS) and vname(t[2]),
                        "input": lambda t: t[0] == "call" and t[1] == VT + "isInputType",
                        "okdef": lambda t: t[0] == "call" and t[1] == V + "validateInputValue" and mentions("getArgumentValue")(t)},
                 events=dict(error=is_err, regdef=grow(DEFS), regop=grow(OPV)),
                 writes=dict(settype=lambda l, r, op: fieldname(l) == "type" and mentions("getType")(r or ()),
                             setdef=lambda l, r, op: fieldname(l) == "defaultValue" and r == TRUE,
                             setnn=lambda l, r, op: fieldname(l) == "nonNullDefaultValue" and mentions("getArgumentValue", "value")(r or ())),
                 unit=lambda ctx, rng, node: rng[0] == "f" and rng[2] == "children" and rng[1][0] == "elem" and rng[1][2:] == ("variable",),
                 opaque=BOUND, outer=False)
    # one row per child of a variable definition (the inner loop)
    rows = ck.table(tu, f, d, partial=True)
    ck.need(rows, "no loop over the parts of a variable definition")
    ck.evaluated("unique-variable/tested", [r for r in rows if r.has("isname")], "v:fnd", [tested("v")], "the name of each variable is tested for uniqueness")
    ck.must("unique-variable/error", rows, [dup("v")], "error", "a variable declared twice is an error")
    ty = lambda r: r.has("isnamed") or r.has("islist") or r.has("isnn")
    for k in ("isnamed", "islist", "isnn"):
        ck.ob("input-type/kind-" + k, any(r.has(k) for r in rows), f["file"], "variable types of every shape are validated")
    ck.evaluated("input-type/tested", [r for r in rows if ty(r)], "input", [], "the type of each variable is tested for being an input type")
    ck.must("input-type/error", rows, [("input", False)], "error", "a variable whose type is not an input type is an error")
    ck.must("input-type/recorded", rows, [("input", True)], "settype", "the declared type of the variable is recorded")
    ck.evaluated("default/tested", [r for r in rows if r.has("isdef")], "okdef", [], "each default value is validated against the variable's type")
    ck.must("default/error", rows, [("okdef", False)], "error", "a default value that does not fit the variable's type is an error")
    ck.must("default/recorded", rows, [("okdef", True)], lambda r: r.did("setdef") and r.did("setnn"), "the presence and nullness of a default value are recorded")
    ck.only("declaration/quiet", rows, "error", [dup("v"), ("input", False), ("okdef", False)], "a well-formed variable declaration is accepted")

    # the variable as a whole
    d2 = Decision(atoms={"isvar": isty("variable")},
                  events=dict(error=is_err, regdef=lambda c: grow(DEFS)(c) and vname(c.args[0]), regop=lambda c: grow(OPV)(c) and vname(c.args[0])),
                  unit=children_of("op"), opaque=BOUND)
    rows = [r for r in ck.table(tu, f, d2) if r.has("isvar")]
    ck.need(any(r.did("regop") for r in rows), "no loop over the variables of an operation")
    g = [x for x in groups(rows).values() if any(r.did("regop") for r in x)]
    for x in g:
        ck.must("declaration/registered", x, [lambda r: not r.did("error")], lambda r: r.did("regdef") and r.did("regop"), "every accepted declaration is known to the operation")

    # the validator of the default: which arguments
    class Args(Decision):
        def on_call(self, ctx, st, call):
            if call.nq == V + "validateInputValue":
                ok = len(call.args) == 3 and call.args[0] == FALSE and fieldname(call.args[2]) == "type"
                return ("opaque", self.add(st, "default:ok" if ok else "default:bad", ctx, call.node))
            return super().on_call(ctx, st, call)
    d3 = Args(opaque=BOUND, ordered=False)
    rows = ck.table(tu, f, d3)
    ck.ob("default/arguments", any(r.did("default:ok") for r in rows) and not any(r.did("default:bad") for r in rows), f["file"], "a default value is validated against the declared type, null only where the type is nullable")

    # ---- unused variables
    used = lambda t: t[0] == "found" and fieldname(t[1]) == REFS_ and mentions(DEFS, "first")(t[2])
    d = Decision(atoms=dict(used=used), events=dict(error=is_err), unit=lambda ctx, rng, node: fieldname(rng) == DEFS, opaque=BOUND)
    rows = ck.table(tu, f, d)
    ck.ob("unused-variable/examined", bool(rows), f["file"], "the declared variables are examined for use")
    ck.evaluated("unused-variable/tested", rows, "used", [], "each declared variable is tested for use")
    ck.must("unused-variable/error", rows, [("used", False)], "error", "a declared variable that is never used is an error")
    ck.never("unused-variable/quiet", rows, [("used", True)], "error", "a variable that is used is not reported")
    d = Decision(atoms=dict(sup=found_in("_operationTypes")), events=dict(select=calls("visitSelection")),
                 loops=dict(unused=lambda r: fieldname(r) == DEFS), opaque=BOUND)
    rows = ck.table(tu, f, d)
    d2 = Decision(atoms=dict(sup=found_in("_operationTypes")), events=dict(select=calls("visitSelection"), vars=lambda c: c.name == "emplace" and c.obj is not None and c.obj == ("f", THIS, OPV) and not c.args, none=lambda c: c.name == "reset" and c.obj == ("f", THIS, OPV)),
                  writes=dict(vars=lambda l, r, op: l == ("f", THIS, OPV) and r is not None and "nullopt" not in short(r), none=lambda l, r, op: l == ("f", THIS, OPV) and r is not None and "nullopt" in short(r)), opaque=BOUND)
    def judged(r):
        before = [e for e in r.events[:r.index("select")] if e in ("vars", "none")]
        return bool(before) and before[-1] == "vars"
    ck.must("uses/known", ck.table(tu, f, d2), [lambda r: r.did("select")], judged, "the uses of variables are judged by the declarations of their operation, also where it declares none")
    ck.must("unused-variable/reached", rows, [("sup", True)], lambda r: r.did("select") and "loop:unused" in r.events[r.index("select"):], "unused variables are searched for after the operation's selection was validated")

    # ---- uses
    f = fn(tu, "validateInputValue")
    A = "graphql::service::ValidateArgumentVariable"
    pv = {p["n"]: ("v", p["n"], p["d"]) for p in f["p"]}
    names = [p["n"] for p in f["p"]]
    isvar = lambda t: t[0] == "is_alt" and t[2] == A
    key = lambda k: mentions("as:" + A)(k)
    d = Decision(atoms={"type": lambda t: t == pv[names[2]], "isvar": isvar, "inop": lambda t: fieldname(t) == OPV,
                        "declared": lambda t: t[0] == "found" and fieldname(t[1]) == OPV and key(t[2]),
                        "hasnn": lambda t: t == pv[names[0]], "vnn": lambda t: fieldname(t) == "nonNullDefaultValue" and mentions(OPV)(t)},
                 events=dict(error=is_err, ref=lambda c: grow(REFS_)(c) and key(c.args[0])), value=True, opaque=BOUND)
    rows = [r for r in ck.table(tu, f, d) if r.has("isvar")]
    ck.need(rows, "variables are not recognised as argument values")
    ck.evaluated("use/in-operation", rows, "inop", [], "a variable is only typed while an operation is being validated")
    inop = [r for r in rows if r.has("inop", True)]
    ck.evaluated("use/declared", inop, "declared", [], "each variable that is used is looked up among the operation's variables")
    ck.must("use/undeclared", inop, [("declared", False)], lambda r: r.did("error") and r.value == FALSE, "using an undeclared variable is an error")
    ck.must("use/marked", inop, [("declared", True)], "ref", "a variable that is used counts as used")
    okv = [r for r in inop if r.has("declared", True)]

    def typed(r):
        v = r.value
        return isinstance(v, tuple) and v[0] == "call" and v[1] == V + "validateVariableType" and len(v[4]) == 4 \
            and fieldname(v[4][1]) == "type" and mentions(OPV)(v[4][1]) and v[4][3] == pv[names[2]]
    ck.must("use/typed", okv, [], typed, "a variable's declared type is compared with the type of the position it is used in")
    ck.must("use/default-counts", okv, [typed, lambda r: r.has("hasnn", True) or r.has("vnn", True)], lambda r: r.value[4][0] == TRUE, "a non-null default of the variable or of the position allows a nullable variable in a non-null position")
    ck.must("use/no-default", okv, [typed, ("hasnn", False), ("vnn", False)], lambda r: r.value[4][0] == FALSE, "without such a default a nullable variable is not allowed in a non-null position")
    ck.must("use/no-default-decided", okv, [typed], lambda r: r.has("hasnn", True) or r.has("vnn", True) or (r.has("hasnn", False) and r.has("vnn", False))
            or (isinstance(r.value[4][0], tuple) and mentions("nonNullDefaultValue", names[0])(r.value[4][0])), "both defaults are considered")
    ck.must("use/in-fragment", rows, [("inop", False)], lambda r: r.value == TRUE and not r.did("error"), "outside an operation a variable may have any type")
    ck.only("use/quiet", rows, "error", [("declared", False), ("type", False)], "a declared variable is not an error by itself")

    # ---- is a variable of this type allowed in a position of that type
    f = fn(tu, "validateVariableType")
    n = [p["n"] for p in f["p"]]
    P = {p["n"]: ("v", p["n"], p["d"]) for p in f["p"]}
    nn, vt, pos, it = (P[x] for x in n)
    KINDS = ("NON_NULL", "LIST", "INPUT_OBJECT", "ENUM", "SCALAR")
    K = "graphql::schema::BaseType::kind"

    def kindof(x, k):
        def p(t):
            if t[0] != "eq":
                return False
            a, b = t[1], t[2]
            if b[0] != "enum":
                a, b = b, a
            return b[0] == "enum" and b[1].endswith("TypeKind::" + k) and a[0] == "call" and a[1].endswith("::kind") and a[3] == x
        return p

    def samekind(t):
        return t[0] == "eq" and all(x[0] == "call" and x[1].endswith("::kind") for x in t[1:]) and {x[3] for x in t[1:]} == {vt, it}

    def samename(t):
        return t[0] == "eq" and all(x[0] == "call" and x[1].endswith("::name") for x in t[1:]) and {x[3] for x in t[1:]} == {vt, it}

    of = lambda x: lambda t: t[0] == "call" and t[1].endswith("::lock") and t[3][0] == "call" and t[3][1].endswith("::ofType") and t[3][3] == x
    atoms = {"vt": lambda t: t == vt, "it": lambda t: t == it, "nn": lambda t: t == nn, "samekind": samekind, "samename": samename,
             "vof": of(vt), "iof": of(it),
             "vnoname": lambda t: t[0] == "empty" and t[1][0] == "call" and t[1][1].endswith("::name") and t[1][3] == vt,
             "inoname": lambda t: t[0] == "empty" and t[1][0] == "call" and t[1][1].endswith("::name") and t[1][3] == it}
    for k in KINDS:
        atoms["v" + k] = kindof(vt, k)
        atoms["i" + k] = kindof(it, k)
    d = Decision(atoms=atoms, events=dict(error=is_err), value=True, opaque=BOUND)
    rows = ck.table(tu, f, d)

    def rec(r, a0, a1, a3):
        v = r.value
        return isinstance(v, tuple) and v[0] == "call" and v[1] == V + "validateVariableType" and v[4][0] == a0 and a1(v[4][1]) and a3(v[4][3])
    isrec = lambda r: isinstance(r.value, tuple) and r.value[0] == "call" and r.value[1] == V + "validateVariableType"
    same = lambda x: lambda t: t == x
    unw = lambda x: lambda t: of(x)(t) or (t[0] == "phi" and any(of(x)(a) for a in t[2:]))
    ck.must("usage/unknown-variable-type", rows, [("vt", False)], lambda r: r.did("error") and r.value == FALSE, "a variable of unknown type is rejected")
    ck.must("usage/nonnull-variable", rows, [("vNON_NULL", True)], lambda r: rec(r, TRUE, unw(vt), same(it)) or (r.did("error") and r.has("vof", False)), "a non-null variable is allowed wherever its nullable type is, and also where a non-null value is expected")
    rest = [r for r in rows if r.has("vt", True) and r.has("vNON_NULL", False) and r.has("it", True)]
    ck.ob("type/nullable-decided", bool(rest), f["file"], "nullable variables are told apart")
    ck.evaluated("usage/nonnull-tested", [r for r in rows if r.has("vt", True)], "vNON_NULL", [], "non-null variables are recognised")
    ck.must("usage/nonnull-position", rest, [("iNON_NULL", True)], lambda r: (r.has("nn", False) and r.did("error") and r.value == FALSE) or (r.has("nn", True) and (rec(r, FALSE, same(vt), unw(it)) or r.has("iof", False))),
            "a nullable variable is not allowed in a non-null position, unless a default makes up for it")
    ck.must("usage/list", rest, [("iLIST", True)], lambda r: (r.has("samekind", False) or r.has("vLIST", False)) and r.did("error") and r.value == FALSE or
            ((r.has("samekind", True) or r.has("vLIST", True)) and (rec(r, FALSE, unw(vt), unw(it)) or r.has("vof", False) or r.has("iof", False))), "a list position takes a list variable whose element type is allowed for the list's elements")
    for k in ("INPUT_OBJECT", "ENUM", "SCALAR"):
        ck.must("usage/%s-kind" % k.lower(), rest, [("i" + k, True)], lambda r, k=k: not r.has("samekind", False) and not r.has("v" + k, False) or (r.did("error") and r.value == FALSE), "a variable used for a %s must be of that kind" % k)
    ck.must("usage/other-kind", rest, [lambda r: all(not r.has("i" + k) for k in KINDS)], lambda r: r.did("error") and r.value == FALSE, "a position of any other kind takes no variable")
    named = [r for r in rest if any(r.has("i" + k) for k in KINDS[2:]) and not r.did("error")]
    ck.ob("usage/accepting", bool(named), f["file"], "some variable is accepted")
    ck.must("usage/same-name", named, [], lambda r: r.has("samename", True) and r.value == TRUE, "a variable of a named type is only allowed where exactly that type is expected")
    ck.must("usage/name-differs", rows, [("samename", False)], lambda r: r.did("error") and r.value == FALSE, "a differently named type is rejected")
    ck.must("usage/verdict", rows, [lambda r: r.did("error")], lambda r: r.value == FALSE, "an error means the value is not accepted")
    ck.must("usage/verdict-false", rows, [lambda r: not r.did("error") and not isrec(r)], lambda r: r.value == TRUE, "a rejected usage is always reported")
    ck.must("usage/accept-only", rows, [lambda r: r.value == TRUE], lambda r: r.has("samename", True) and (r.has("samekind", True) or any(r.has("v" + k) for k in KINDS[2:])), "only variables of the same kind and name are accepted")
    ck.only("usage/quiet", rows, "error", [("vt", False), ("it", False), ("vof", False), ("iof", False), [("iNON_NULL", True), ("nn", False)], ("samekind", False), lambda r: any(r.has("i" + k) and r.has("v" + k, False) for k in KINDS),
            ("samename", False), ("vnoname", True), ("inoname", True), lambda r: all(not r.has("i" + k) for k in KINDS)], "allowed usages are not errors")

    # ---- declared type
    f = tu.one(VT + "visit")
    d = Decision(atoms=dict(nn=isty("nonnull_type"), li=isty("list_type"), na=isty("named_type")),
                 events=dict(vnn=lambda c: c.nq == VT + "visitNonNullType", vli=lambda c: c.nq == VT + "visitListType", vna=lambda c: c.nq == VT + "visitNamedType"),
                 opaque=tuple(b for b in BOUND if not b.startswith(VT)) + (VT + "visitNamedType", VT + "visitNonNullType", VT + "visitListType"))
    rows = ck.table(tu, f, d)
    for a, e in (("nn", "vnn"), ("li", "vli"), ("na", "vna")):
        ck.must("declared-type/" + a, rows, [(a, True)], e, "every shape of type is understood")
    f = tu.one(VT + "visitNamedType")
    atoms = {"known": lambda t: t[0] == "found" and fieldname(t[1]) == "_types"}
    kinds = [c[0] for c in tu.enum("graphql::introspection::TypeKind")["c"]]
    for k in kinds:
        atoms[k] = kind_eq(k, "_types")
    W = dict(inp=lambda l, r, op: fieldname(l) == "_isInputType" and r == TRUE, noinp=lambda l, r, op: fieldname(l) == "_isInputType" and r == FALSE,
             typ=lambda l, r, op: fieldname(l) == "_variableType" and (mentions("LookupType")(r or ()) or mentions("_types", "find")(r or ())))
    B2 = tuple(b for b in BOUND if not b.startswith(VT))
    d = Decision(atoms=atoms, writes=W, opaque=B2)
    rows = ck.table(tu, f, d)
    ins = lambda r: any(r.has(k) for k in ("SCALAR", "ENUM", "INPUT_OBJECT"))
    ck.must("declared-type/input", rows, [ins], lambda r: r.did("inp") and r.did("typ"), "scalars, enums and input objects are input types")
    ck.never("declared-type/output", rows, [lambda r: not ins(r)], "inp", "no other type is an input type")
    for k in ("SCALAR", "ENUM", "INPUT_OBJECT"):
        ck.ob("declared-type/input-" + k, any(r.has(k) and r.did("inp") for r in rows), f["file"], "%s is an input type" % k)
    for name, kind in (("visitListType", "LIST"), ("visitNonNullType", "NON_NULL")):
        f = tu.one(VT + name)
        wrap = lambda l, r, op, kind=kind: fieldname(l) == "_variableType" and any(x[0] == "call" and x[1].endswith("::WrapType") and x[4][0] == ("enum", "graphql::introspection::TypeKind::" + kind) and mentions("getType")(x[4][1]) for x in subterms(r or ()))
        d = Decision(writes=dict(wrap=wrap, inp=lambda l, r, op: fieldname(l) == "_isInputType" and mentions("isInputType")(r or ())),
                     events=dict(inner=lambda c: c.nq == VT + "visit" and bool(c.args) and mentions("front")(c.args[0])), opaque=BOUND[:-3] + (VT + "visit", VT + "isInputType", VT + "getType"))
        rows = ck.table(tu, f, d)
        ck.must("declared-type/wrap-" + kind, rows, [], lambda r: r.did("inner") and r.did("wrap") and r.did("inp") and r.index("inner") < r.index("wrap"), "a %s type wraps its inner type and is an input type exactly when the inner type is" % kind)
