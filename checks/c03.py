"""@skip and @include: the verdict of shouldSkip as a truth table, and every kind of selection asks for it before anything happens."""
from xcommon import *


def run(ck):
    tu = ck.load(XSRC)
    # --- the verdict
    atoms = {}
    for n in ("skip", "include"):
        atoms.update({
            n + ":found": (lambda n: lambda t: t[0] == "found" and fieldname(t[1]) == "_directives" and ("c", n) in t[2:])(n),
            n + ":val": (lambda n: lambda t: term_call(t, "graphql::response::Value::get") and mentions(n)(t))(n),
            n + ":if": (lambda n: lambda t: t[0] == "eq" and mentions("if", n)(t))(n),
            n + ":bool": (lambda n: lambda t: t[0] == "eq" and mentions("Boolean", n)(t))(n),
        })
    f = tu.one(DV + "shouldSkip")
    rows = ck.table(tu, f, Decision(atoms, verdict=True))
    rets = [r for r in rows if r.end == "ret"]
    yes = [r for r in rets if r.value == ("c", True)]
    no = [r for r in rets if r.value == ("c", False)]
    ck.need(yes and no and len(yes) + len(no) == len(rets), "shouldSkip returns constants on every path")
    off = {"skip": True, "include": False}
    for n, v in off.items():
        o = "include" if n == "skip" else "skip"
        ck.must("skipped-if/" + n, rets, [(n + ":found", True), (n + ":val", v)], lambda r: r.value == ("c", True),
                "a selection with @%s(if: %s) is skipped" % (n, str(v).lower()))
        ck.evaluated("looked-for/" + n, no, n + ":found", [], "no selection is kept without looking for @" + n)
        ck.must("kept-knowing/" + n, no, [(n + ":found", True)], lambda r: r.has(n + ":val", not v), "a selection with @%s is only kept if its condition says so" % n)
        ck.must("needs-if/" + n, rets, [(n + ":val", v)], lambda r: r.has(n + ":if") and r.has(n + ":bool"), "only a Boolean argument named 'if' decides @" + n)
        ck.must("refused/" + n, rows, [(n + ":found", True), lambda r: r.has(n + ":if", False) or r.has(n + ":bool", False)],
                lambda r: r.end == "throw", "@%s without a Boolean condition is an error" % n)
    ck.must("skipped-only-if", rets, [lambda r: r.value == ("c", True)],
            lambda r: (r.has("skip:found") and r.has("skip:val")) or (r.has("include:found") and r.has("include:val", False)),
            "a selection is only skipped by @skip(if: true) or @include(if: false)")
    # --- every selection asks before anything happens
    kinds = {
        SV + "visitField": {"resolve": resolver_call},
        SV + "visitFragmentSpread": {"recurse": call_is(SV + "visit")},
        SV + "visitInlineFragment": {"recurse": call_is(SV + "visit")},
        SD + "visitField": {},
        SD + "visitFragmentSpread": {"recurse": lambda c: c.nq.startswith(SD + "visit") and c.nq != SD + "visitFragmentSpread"},
        SD + "visitInlineFragment": {"recurse": lambda c: c.nq.startswith(SD + "visit") and c.nq != SD + "visitInlineFragment"},
    }
    for q, evs in kinds.items():
        f = tu.one(q)
        what = q.split("::")[-2] + "/" + q.split("::")[-1]
        d = Decision(
            atoms={"skip": lambda t: term_call(t, DV + "shouldSkip"), "has": own_has("directives")},
            events=dict(evs, ask=call_is(DV + "shouldSkip"),
                        read=lambda c: c.nq == DV + "visit" and c.args and own("directives")(c.args[0]),
                        names=lambda c: fieldname(c.obj) == "_names" and c.name in ("emplace", "insert"),
                        unname=lambda c: fieldname(c.obj) == "_names" and c.name == "erase"),
            writes={"field": lambda l, r, op: fieldname(l) in ("_field", "_arguments", "_fieldDirectives")},
            opaque=(VV + "visit", DV + "shouldSkip", DV + "visit", SV + "visit", SD + "visitSelection", S + "buildErrorPath"))
        rows = ck.table(tu, f, d)
        acts = list(evs) + (["field"] if q == SD + "visitField" else [])
        ck.need(any(r.did(a) for r in rows for a in acts), "the effect of " + q)
        for a in acts:
            ck.must("asked/%s/%s" % (what, a), rows, [a_did(a)], lambda r: order(r, "ask", a) and r.has("skip", False),
                    "a selection is only executed after its directives said not to skip it")
            ck.never("skipped/%s/%s" % (what, a), rows, [("skip", True)], a, "a skipped selection is not executed")
        ck.must("read/" + what, rows, [a_did("ask"), ("has", True)], lambda r: order(r, "read", "ask"),
                "the directives written on the selection itself are what is asked")
        ck.need(any(r.has("has") for r in rows), "directives of " + q)
        if q == SV + "visitField":
            ck.must("no-trace/" + what, rows, [("skip", True), a_did("names")], lambda r: r.index("unname") > r.index("names"),
                    "a skipped field does not occupy its response name")
            ck.must("kept-name/" + what, rows, [a_did("resolve")], lambda r: r.did("names") and not r.did("unname"),
                    "a resolved field occupies its response name")
    # --- what is asked is made of all the directives of the node
    f = tu.one(DV + "visit")
    d = Decision(atoms={"named": lambda t: t[0] == "empty" and mentions("directive_name")(t), "args": lambda t: t[0] == "is_type" and t[2] == "arguments"},
                 events={"keep": lambda c: c.name == "emplace_back" and len(c.args) == 2 and mentions("directive_name")(c.args[0]),
                         "eval": lambda c: c.nq == VV + "visit" and mentions("arguments", "back")(c.args[0])},
                 unit=children_of("directives"), opaque=(VV + "visit",))
    rows = ck.table(tu, f, d)
    ck.must("collected", rows, [("named", False)], "keep", "every directive of the node is collected")
    ck.need(any(r.did("eval") for r in rows), "arguments of directives")
    d = Decision(events={"eval": call_is(VV + "visit"), "arg": lambda c: c.name == "emplace_back" and len(c.args) == 2 and value_of_visitor(c.args[1])
                         and mentions("front")(c.args[0])},
                 unit=lambda ctx, rng, node: mentions("arguments", "children")(rng) and rng[1][0] == "elem", opaque=(VV + "visit",))
    rows = ck.table(tu, f, d)
    ck.need(rows, "the loop over the arguments of a directive")
    ck.must("argument-value", rows, [], lambda r: order(r, "eval", "arg") and r.did("arg"), "every argument of a directive is kept with its own value")
    d = Decision(writes={"set": wrote("_directives")})
    rows = ck.table(tu, f, d)
    ck.must("handed-over", rows, [lambda r: r.end != "throw"], "set", "the collected directives are what shouldSkip sees")


def a_did(e):
    return lambda r: r.did(e)
