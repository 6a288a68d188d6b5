"""Shared vocabulary of the execution checks (GraphQLService.cpp)."""
from vcommon import *
import os
from facts import _walk, strip_targs, VERIF, AnalysisBroken

XSRC = "src/GraphQLService.cpp"
S = "graphql::service::"
SV = S + "SelectionVisitor::"
SD = S + "SubscriptionDefinitionVisitor::"
OD = S + "OperationDefinitionVisitor::"
DV = S + "DirectiveVisitor::"
VV = S + "ValueVisitor::"


def call_is(*nqs):
    return lambda c: c.nq in nqs


def term_call(t, *nqs):
    return t[0] == "call" and t[1] in nqs


def named(*names):
    return lambda c: c.name in names


def resolver_call(c):
    """the resolver functor found in the map of resolvers is called"""
    return c.nq.startswith("std::function") and c.name == "operator()" and c.obj is not None and mentions("_resolvers")(c.obj)


def own(kind, *param):
    """the first child of that kind of the node the function was given"""
    def p(t):
        return any(x[0] == "elem" and len(x) == 3 and x[2] == kind and x[1][0] == "f" and x[1][2] == "children" and x[1][1][0] == "v"
                   for x in subterms(t))
    return p


def own_has(kind):
    """'this child of the node the function was given is of the kind'"""
    def p(t):
        return t[0] == "is_type" and t[2] == kind and t[1][0] == "elem" and t[1][1][0] == "f" and t[1][1][2] == "children" and t[1][1][1][0] == "v"
    return p


def xfn(tu, name):
    return tu.one(S + name)


def order(row, a, b):
    """event a happened, and before the first b"""
    i, j = row.index(a), row.index(b)
    return i >= 0 and (j < 0 or i < j)


def where(fn):
    return "%s:%s" % (fn["file"], fn["l"])


def value_of_visitor(t):
    """what a ValueVisitor has read"""
    return mentions("getValue")(t) or any(x[0] == "f" and x[2] == "_value" for x in subterms(t))


R = S + "Request::"


def overload(tu, name, *types):
    """the overload of a member of Request whose parameter types contain the given fragments, in order"""
    r = [f for f in tu.find(R + name) if len(f["p"]) == len(types) and all(t in p["t"] for t, p in zip(types, f["p"]))]
    if len(r) != 1:
        raise AnalysisBroken("overload of Request::%s(%s): %d" % (name, ", ".join(types), len(r)))
    return r[0]


AST, NODE, LAUNCH, STATE, STR, VARS, PARAMS, CB, KEY = ("peg::ast &", "peg::ast_node &", "std::launch", "RequestState", "basic_string",
                                                      "response::Value &&", "SubscriptionParams &&", "std::function", "unsigned long")


def unwrap(t):
    """the alternatives of a term that joins several paths"""
    return phi_alts(t) if t[0] == "phi" else [t]


def call_graph(tus):
    """callee -> functions whose body (lambdas included) calls it"""
    callers = {}
    for t in tus:
        for g in t.functions:
            def look(n, g=g):
                if n.get("k") in ("call", "mcall", "op", "ctor") and n.get("f"):
                    callers.setdefault(strip_targs(n["f"]), set()).add(g["nq"])
            _walk(g.get("body"), look)
            _walk(g.get("inits"), look)
    return callers


def only_from(callers, w, allowed, seen=()):
    """w is one of the allowed functions, or a helper that is only called from them"""
    if w in allowed:
        return True
    if w in seen:
        return True
    up = callers.get(w, ())
    return bool(up) and all(only_from(callers, u, allowed, seen + (w,)) for u in up)


PROBE = os.path.join(VERIF, "probe", "modified.cpp")


def converts(tt, kind):
    """the instances of ModifiedResult::convert in the probe that handle lists, optionals, pointers, ..."""
    r = []
    for g in tt.find(S + "ModifiedResult::convert"):
        t = g["p"][0]["t"].replace("const ", "")
        a = t.split("FieldResult<", 1)[-1]
        k = "list" if a.startswith("std::vector<") else "optional" if a.startswith("std::optional<") else "pointer" if a.startswith("std::shared_ptr<") else "leaf"
        if k == kind:
            cls = g["q"].split("ModifiedResult<", 1)[1].split(">")[0].split("::")[-1]
            r.append((g, "%s<%s>/%d" % (kind, cls, sum(1 for x in r if x[1].startswith("%s<%s>" % (kind, cls))))))
    if not r:
        raise AnalysisBroken("no instance of ModifiedResult::convert for " + kind)
    return r
