"""Shared vocabulary of the validation checks (Validation.cpp)."""
from engine import *
from decide import *
from facts import AnalysisBroken, _walk

SRC = "src/Validation.cpp"
V = "graphql::service::ValidateExecutableVisitor::"
AV = "graphql::service::ValidateArgumentValueVisitor::"
VT = "graphql::service::ValidateVariableTypeVisitor::"
BOUND = tuple(V + x for x in (
    "visit", "visitDirectives", "visitField", "visitFragmentDefinition", "visitFragmentSpread", "visitInlineFragment", "visitOperationDefinition",
    "visitSelection", "getScopedTypeFields", "getInputTypeFields", "getArguments", "isScalarType", "matchesScopedType", "getFieldType",
    "getWrappedFieldType", "validateInputValue", "validateVariableType")) + tuple(AV + "visit" + x for x in (
        "", "BooleanValue", "EnumValue", "FloatValue", "IntValue", "ListValue", "NullValue", "ObjectValue", "StringValue", "Variable")) + (
    AV + "getArgumentValue",) + tuple(VT + x for x in ("visit", "visitListType", "visitNamedType", "visitNonNullType", "isInputType", "getType")) + (
    "graphql::service::ValidateField::", "graphql::service::operator==")
STRUCT_ERROR = "graphql::service::schema_error"


def grows(call):
    return call.name.startswith(("push_", "emplace_", "emplace", "insert", "splice", "append"))


def is_err(call):
    return grows(call) and fieldname(call.obj) == "_errors"


def calls(*names):
    full = {n if "::" in n else V + n for n in names}
    return lambda c: c.nq in full


def grow(field):
    return lambda c: grows(c) and fieldname(c.obj) == field


def put(field):
    """insertion by emplace/insert or through operator[]"""
    return lambda c: (grows(c) or c.name == "operator[]") and fieldname(c.obj) == field


def wrote(field):
    return lambda l, r, op: fieldname(l) == field


def key_has(t, *what):
    return all(mentions(w)(t) for w in what)


def keyok(k, keys):
    """the key derives from the named parts (or is the still empty local that will hold them)"""
    return all(mentions(x)(k) for x in keys) or (bool(keys) and k[0] == "v") or k in (("c", ""),)


def children_of(param):
    """loops over the children of the named kind of parameter: the function's own syntax node"""
    return lambda ctx, rng, node: rng[0] == "f" and rng[2] == "children" and rng[1][0] == "v"


def found_in(field, *keys):
    """membership test in container `field` whose key mentions every given name"""
    def p(t):
        return t[0] == "found" and fieldname(t[1]) == field and len(t) > 2 and keyok(t[2], keys)
    return p


def inserted_in(field, *keys):
    def p(t):
        return t[0] == "inserted" and fieldname(t[1]) == field and len(t) > 2 and keyok(t[2], keys)
    return p


def is_type(t, *kinds):
    return t[0] == "is_type" and t[2] in kinds


def isty(*kinds):
    return lambda t: is_type(t, *kinds)


def kind_eq(enum, *ctx):
    """x.kind() == TypeKind::enum"""
    def p(t):
        if t[0] != "eq":
            return False
        a, b = t[1], t[2]
        if b[0] != "enum":
            a, b = b, a
        return b[0] == "enum" and b[1].split("::")[-1] == enum and a[0] == "call" and a[1].endswith("::kind") \
            and all(mentions(c)(a) for c in ctx)
    return p


def enum_eq(enum):
    def p(t):
        return t[0] == "eq" and any(x[0] == "enum" and x[1].split("::")[-1] == enum for x in t[1:])
    return p


def alias(f, member):
    """the function has a local reference to an element of the member"""
    hit = []

    def deep(x):
        if isinstance(x, dict):
            return x.get("n") == member or any(deep(y) for y in x.values())
        return isinstance(x, list) and any(deep(y) for y in x)

    def decl(x):
        if isinstance(x.get("i"), dict) and "d" in x and str(x.get("t", "")).rstrip().endswith("&") and "const" not in str(x["t"]).split("<")[0] and deep(x["i"]):
            hit.append(x)
    _walk(f["body"], decl)
    return bool(hit)


def fn(tu, name):
    return tu.one(name if "::" in name else V + name)


def groups(rows):
    g = {}
    for r in rows:
        g.setdefault(r.loop, []).append(r)
    return g


def dup(name):
    """conditions 'this key was seen before' for a pair of atoms <name>:ins / <name>:fnd"""
    return lambda r: r.has(name + ":ins", False) or r.has(name + ":fnd", True)


def fresh(name):
    return lambda r: r.has(name + ":ins", True) or r.has(name + ":fnd", False)


def tested(name):
    return lambda r: r.seen(name + ":ins") or r.seen(name + ":fnd")


def uniq(name, field, *keys):
    return {name + ":ins": inserted_in(field, *keys), name + ":fnd": found_in(field, *keys)}


def three_way(t):
    """a condition over the sign of a.compare(b), as one over a and b"""
    if t[0] == "not":
        x = three_way(t[1])
        return x[1] if x[0] == "not" else ("not", x)
    if t[0] in ("lt", "eq"):
        cmp = lambda x: x[0] == "call" and x[1].endswith("::compare") and x[3] is not None and len(x[4]) == 1
        l, r = t[1], t[2]
        if cmp(r) and l[0] == "c":
            a, b, n = r[3], r[4][0], l[1]
            if t[0] == "eq" and n == 0:
                return ("eq", a, b)
            if t[0] == "lt" and n in (-1, 0):
                return ("lt", b, a) if n == 0 else ("not", ("lt", a, b))
        if cmp(l) and r[0] == "c":
            a, b, n = l[3], l[4][0], r[1]
            if t[0] == "eq" and n == 0:
                return ("eq", a, b)
            if t[0] == "lt" and n in (0, 1):
                return ("lt", a, b) if n == 0 else ("not", ("lt", b, a))
    return t
