"""Fragment rules of validation: unique names, every defined fragment is used, spread targets exist, no cycles, type
conditions name composite types, and a fragment is only spread where its type can apply."""
from vcommon import *

SCOPE = ("f", THIS, "_scopedType")
FDEF = "_fragmentDefinitions"


def scope_rules(ck, key, rows, target):
    """a nested selection is validated in the scope of the fragment's type and the enclosing scope is restored"""
    ck.must(key + "/scope", rows, [lambda r: r.did("select")],
            lambda r: any(e.startswith("scope") for e in r.events[:r.index("select")]), "a fragment's selection is validated against %s" % target)


def run(ck):
    tu = ck.load(SRC)
    f = fn(tu, "visit")
    d = Decision(atoms=dict(isfrag=isty("fragment_definition"),
                            **{"fr:ins": lambda t: t[0] == "inserted" and fieldname(t[1]) == FDEF and mentions("front", "children")(t[2]),
                               "fr:fnd": lambda t: t[0] == "found" and fieldname(t[1]) == FDEF and mentions("front", "children")(t[2])}),
                 events=dict(error=is_err), unit=children_of("root"), opaque=BOUND)
    rows = ck.table(tu, f, d)
    reg = [x for x in groups(rows).values() if any(tested("fr")(r) for r in x)]
    ck.ob("unique-fragment-name/registered", len(reg) == 1, f["file"], "every fragment definition is entered under its name into the table of fragments")
    for x in reg:
        ck.evaluated("unique-fragment-name/all", [r for r in x if r.has("isfrag")], "fr:ins", [tested("fr")], "each fragment definition's name is tested for uniqueness")
        ck.must("unique-fragment-name/error", x, [dup("fr")], "error", "a repeated fragment name is an error")
        ck.never("unique-fragment-name/quiet", x, [fresh("fr")], "error", "a fragment with a new name is not an error")

    # ---- unused fragments
    used = found_in("_referencedFragments", "first")
    d = Decision(atoms=dict(used=used), events=dict(error=is_err), unit=lambda ctx, rng, node: fieldname(rng) == FDEF, opaque=BOUND)
    rows = ck.table(tu, f, d)
    ck.ob("unused-fragment/examined", bool(rows), f["file"], "the defined fragments are examined for use")
    if any(r.seen("used") for r in rows):
        ck.must("unused-fragment/error", rows, [("used", False)], "error", "a fragment that is never spread is an error")
        ck.never("unused-fragment/quiet", rows, [("used", True)], "error", "a fragment that is spread is not reported as unused")
        ck.evaluated("unused-fragment/all", rows, "used", [], "each fragment is tested for use")
    else:
        ck.must("unused-fragment/error", rows, [], "error", "a fragment that is never spread is an error")
        e = Decision(events=dict(erase=lambda c: c.name == "erase" and fieldname(c.obj) == FDEF and any(a and mentions("_referencedFragments")(a) for a in c.args)),
                     unit=lambda ctx, rng, node: fieldname(rng) == "_referencedFragments", opaque=BOUND)
        er = ck.table(tu, f, e)
        ck.ob("unused-fragment/used-removed", bool(er) and all(r.did("erase") for r in er), f["file"], "fragments that are spread are not reported as unused")
    d = Decision(atoms=dict(none=lambda t: t[0] == "empty" and fieldname(t[1]) == FDEF), events=dict(vfrag=calls("visitFragmentDefinition"), vop=calls("visitOperationDefinition")),
                 loops=dict(unused=lambda r: fieldname(r) == FDEF), opaque=BOUND, ordered=False)
    rows = ck.table(tu, f, d)
    ck.must("unused-fragment/reached", rows, [lambda r: not r.has("none")], "loop:unused", "the check for unused fragments runs for every document that defines one")

    # ---- fragment definition
    f = fn(tu, "visitFragmentDefinition")
    cond = mentions("front", "children")
    ntype = lambda t: t[0] == "found" and fieldname(t[1]) == "_types" and cond(t[2])
    isleaf = lambda t: t[0] == "call" and t[1] == V + "isScalarType" and mentions("_types", "kind")(t)
    d = Decision(atoms=dict(known=ntype, leaf=isleaf), events=dict(error=is_err, select=calls("visitSelection"),
                 push=lambda c: grows(c) and fieldname(c.obj) == "_fragmentStack" and bool(c.args) and mentions("front", "string_view")(c.args[0]),
                 pop=lambda c: c.name in ("clear", "erase") and fieldname(c.obj) == "_fragmentStack"),
                 writes=dict(scope=lambda l, r, op: fieldname(l) == "_scopedType" and mentions("_types", "find")(r or ())), opaque=BOUND)
    rows = ck.table(tu, f, d)
    ck.evaluated("fragment-type/looked-up", rows, "known", [], "the type condition of a fragment definition is looked up")
    ck.evaluated("fragment-type/composite-tested", rows, "leaf", [("known", False)], "the type condition is tested for being composite")
    ck.must("fragment-type/undefined", rows, [("known", False)], "error", "an undefined type condition is an error")
    ck.must("fragment-type/leaf", rows, [("leaf", True)], "error", "a type condition on a leaf type is an error")
    ck.only("fragment-type/quiet", rows, "error", [("known", False), ("leaf", True)], "a composite, defined type condition is accepted")
    ok = [("known", True), ("leaf", False)]
    ck.must("fragment-body/visited", rows, ok, "select", "the selection of a well-typed fragment definition is validated")
    ck.must("fragment-body/on-stack", rows, ok, lambda r: "push" in r.events[:r.index("select")] if r.did("select") else False, "a fragment being validated counts as entered, so that it cannot spread itself")
    ck.must("fragment-body/off-stack", rows, [lambda r: r.did("select")], lambda r: "pop" in r.events[r.index("select"):], "a fragment is left again after its validation")
    ck.must("fragment-body/scope", rows, [lambda r: r.did("select")], lambda r: "scope" in r.events[:r.index("select")], "a fragment's selection is validated against its type condition")

    # ---- fragment spread
    f = fn(tu, "visitFragmentSpread")
    name = mentions("fragmentSpread", "front", "string_view")
    name = lambda k: mentions("front", "string_view")(k) and not mentions(FDEF)(k)
    d = Decision(atoms={"defd": lambda t: t[0] == "found" and fieldname(t[1]) == FDEF and name(t[2]),
                        "instack": lambda t: t[0] == "found" and fieldname(t[1]) == "_fragmentStack" and name(t[2]),
                        "cyc": lambda t: t[0] == "inserted" and fieldname(t[1]) in ("_fragmentCycles", "_fragmentStack") and name(t[2]),
                        "cycf": lambda t: t[0] == "found" and fieldname(t[1]) == "_fragmentCycles" and name(t[2]),
                        "type": lambda t: t[0] == "found" and fieldname(t[1]) == "_types" and mentions(FDEF, "children")(t[2]),
                        "match": lambda t: t[0] == "call" and t[1] == V + "matchesScopedType" and mentions(FDEF, "children")(t[4][0])},
                 events=dict(error=is_err, select=calls("visitSelection"),
                             push=lambda c: grows(c) and fieldname(c.obj) == "_fragmentStack" and bool(c.args) and name(c.args[0]),
                             pop=lambda c: c.name == "erase" and fieldname(c.obj) == "_fragmentStack" and bool(c.args) and name(c.args[0]),
                             ref=lambda c: grows(c) and fieldname(c.obj) == "_referencedFragments" and bool(c.args) and name(c.args[0])),
                 writes=dict(restore=lambda l, r, op: l == SCOPE and r == ("old", SCOPE),
                             scope=lambda l, r, op: l == SCOPE and mentions("_types", "find")(r or ())), opaque=BOUND)
    rows = ck.table(tu, f, d)
    ck.evaluated("spread-target/looked-up", rows, "defd", [], "the target of a spread is looked up")
    ck.must("spread-target/undefined", rows, [("defd", False)], "error", "spreading an undefined fragment is an error")
    ck.evaluated("cycle/tested", rows, "instack", [("defd", False)], "each spread is tested for closing a cycle")
    ck.must("cycle/error", rows, [("instack", True)], lambda r: r.did("error") or r.has("cyc", False) or r.has("cycf", True), "a cycle of spreads is an error (reported once per fragment)")
    ck.never("cycle/stop", rows, [("instack", True)], "select", "a cycle of spreads is not followed")
    ck.evaluated("spread-type/exists", rows, "type", [("defd", False), ("instack", True)], "the spread fragment's type condition is looked up")
    ck.evaluated("spread-type/applies", rows, "match", [("defd", False), ("instack", True), ("type", False)], "the spread fragment's type is compared with the enclosing type")
    ck.must("spread-type/impossible", rows, [("match", False)], "error", "a fragment that can never apply is an error")
    ck.must("spread-type/undefined", rows, [("type", False)], "error", "a spread of a fragment on an undefined type is an error")
    ck.never("spread-type/stop", rows, [lambda r: r.has("match", False) or r.has("type", False)], "select", "an inapplicable fragment is not entered")
    ck.only("spread/quiet", rows, "error", [("defd", False), ("instack", True), ("type", False), ("match", False)], "a defined, acyclic, applicable spread is accepted")
    good = [("defd", True), ("instack", False), ("match", True), ("type", True)]
    ck.must("spread-body/visited", rows, good, "select", "the selection of the spread fragment is validated in place")
    sel = [r for r in rows if r.did("select")]
    ck.ob("spread-body/reached", bool(sel), f["file"], "spread fragments are entered")
    ck.must("spread-body/on-stack", sel, [], lambda r: "push" in r.events[:r.index("select")], "the spread fragment counts as entered while its selection is validated")
    ck.must("spread-body/off-stack", sel, [], lambda r: "pop" in r.events[r.index("select"):], "the spread fragment is left after its selection was validated")
    ck.must("spread-body/used", sel, [], "ref", "a spread fragment counts as used")
    ck.must("spread-body/scope", sel, [], lambda r: "scope" in r.events[:r.index("select")], "the spread's selection is validated against the fragment's type")
    ck.must("spread-body/scope-restored", sel, [], lambda r: "restore" in r.events[r.index("select"):], "the enclosing type is restored after a spread")

    # ---- inline fragment
    f = fn(tu, "visitInlineFragment")
    cond = mentions("type_condition", "front", "string_view")
    d = Decision(atoms={"hascond": isty("type_condition"), "nocond": lambda t: t[0] == "empty" and (cond(t[1]) or t[1][0] == "v"),
                        "hasbody": isty("selection_set"),
                        "known": lambda t: t[0] == "found" and fieldname(t[1]) == "_types" and (cond(t[2]) or t[2][0] == "v"),
                        "leaf": lambda t: t[0] == "call" and t[1] == V + "isScalarType" and mentions("_types", "kind")(t),
                        "match": lambda t: t[0] == "call" and t[1] == V + "matchesScopedType" and (cond(t[4][0]) or t[4][0][0] == "v")},
                 events=dict(error=is_err, select=calls("visitSelection")),
                 writes=dict(restore=lambda l, r, op: l == SCOPE and r == ("old", SCOPE),
                             scope=lambda l, r, op: l == SCOPE), opaque=BOUND,
                 nonempty=lambda r: r[0] == "f" and r[2] == "children")
    rows = ck.table(tu, f, d)
    none = lambda r: r.has("nocond", True) or (not r.has("hascond", True) and r.has("nocond", True))
    ck.evaluated("inline-type/looked-up", rows, "known", [none], "the type condition of an inline fragment is looked up")
    ck.must("inline-type/undefined", rows, [("known", False)], "error", "an inline fragment on an undefined type is an error")
    ck.evaluated("inline-type/composite-tested", rows, "leaf", [none, ("known", False)], "the type condition of an inline fragment is tested for being composite")
    ck.must("inline-type/leaf", rows, [("leaf", True)], "error", "an inline fragment on a leaf type is an error")
    ck.evaluated("inline-type/applies", rows, "match", [none, ("known", False), ("leaf", True)], "the inline fragment's type is compared with the enclosing type")
    ck.must("inline-type/impossible", rows, [("match", False)], "error", "an inline fragment that can never apply is an error")
    ck.only("inline/quiet", rows, "error", [("known", False), ("leaf", True), ("match", False)], "an applicable inline fragment is accepted")
    ck.never("inline/stop", rows, [lambda r: r.did("error")], "select", "an inapplicable inline fragment is not entered")
    ck.must("inline/visited", rows, [("hasbody", True)], "select", "the selection of an inline fragment is validated")
    ck.evaluated("inline/body", rows, "hasbody", ["error"], "the selection of an inline fragment is visited")
    sel = [r for r in rows if r.did("select")]
    ck.ob("inline/reached", bool(sel), f["file"], "inline fragments are entered")
    ck.must("inline/scope-restored", sel, [], lambda r: "restore" in r.events[r.index("select"):], "the enclosing type is restored after an inline fragment")
    ck.must("inline/scope", sel, [lambda r: not none(r)], lambda r: "scope" in r.events[:r.index("select")], "the inline fragment's selection is validated against its type condition")

    # ---- dispatch of selections
    f = fn(tu, "visitSelection")
    d = Decision(atoms=dict(field=isty("field"), spread=isty("fragment_spread"), inline=isty("inline_fragment")),
                 events=dict(vfield=calls("visitField"), vspread=calls("visitFragmentSpread"), vinline=calls("visitInlineFragment")),
                 unit=children_of("selection"), opaque=BOUND)
    rows = ck.table(tu, f, d)
    for a, e in (("field", "vfield"), ("spread", "vspread"), ("inline", "vinline")):
        ck.must("selection/" + a, rows, [(a, True)], e, "every %s of a selection is validated" % a)
        ck.ob("selection/%s-handled" % a, any(r.did(e) for r in rows), f["file"], "the %s case exists" % a)
    ck.never("selection/once", rows, [], lambda r: len(r.events) > 1, "a selection is validated by exactly one visitor")

    # ---- which kinds are composite
    f = fn(tu, "isScalarType")
    kinds = [c[0] for c in tu.enum("graphql::introspection::TypeKind")["c"]]
    for k in kinds:
        q = "graphql::introspection::TypeKind::" + k
        eng = Engine(tu, Rule())
        outs = eng.run_function(f, bind={f["p"][0]["d"]: ("enum", q)})
        vals = {v for _, _, v in outs}
        ck.ob("composite-kinds/" + k, vals == {("c", k not in ("OBJECT", "INTERFACE", "UNION"))}, "%s:%s" % (f["file"], f["l"]),
              "object, interface and union types are composite, all others are leaves (%s -> %s)" % (k, [short(v) for v in vals]))
    ck.saw(f)

    # ---- when can a fragment apply
    f = fn(tu, "matchesScopedType")
    p = f["p"][0]["n"]
    d = Decision(atoms={"same": lambda t: t[0] == "eq" and mentions("_scopedType", "name")(t) and ("v", p, f["p"][0]["d"]) in t[1:],
                        "has": lambda t: t[0] == "found" and fieldname(t[1]) == "_matchingTypes",
                        "member": lambda t: t[0] == "found" and t[1][0] == "f" and t[1][2] == "second" and mentions("_matchingTypes")(t[1]) and t[2][0] == "elem" and mentions("_matchingTypes")(t[2])
                        and (mentions("_scopedType")(t[1]) != mentions("_scopedType")(t[2]))},
                 value=True, opaque=tuple(b for b in BOUND if not b.endswith("matchesScopedType")))
    rows = ck.table(tu, f, d)
    ck.must("applies/same-type", rows, [("same", True)], lambda r: r.value == TRUE, "a fragment on the enclosing type itself applies")
    ck.must("applies/common-type", rows, [("member", True)], lambda r: r.value == TRUE, "a fragment applies if the two types share a possible object type")
    ck.must("applies/only", rows, [lambda r: not r.has("same", True) and not r.has("member", True)], lambda r: r.value == FALSE, "a fragment whose type shares no possible object type with the enclosing type does not apply")
    ck.ob("applies/decided", any(r.has("member", True) for r in rows) and any(r.has("same", True) for r in rows), f["file"], "both ways of applying are decided")

    # ---- possible types of the schema
    f = tu.one("graphql::service::ValidateExecutableVisitor::ValidateExecutableVisitor")
    elem_is = lambda w: lambda t: mentions(w)(t)
    d = Decision(atoms=dict(leaf=lambda t: t[0] == "call" and t[1] == V + "isScalarType" and mentions("types", "kind")(t),
                            obj=kind_eq("OBJECT", "types")),
                 events=dict(selfname=lambda c: grows(c) and bool(c.args) and c.args[0][0] == "f" and c.args[0][2] == "first" and mentions("types")(c.args[0]) and (mentions("_matchingTypes")(c.obj) or c.obj[0] in ("v", "idx", "new")) and fieldname(c.obj) != "_scalarTypes"),
                 loops=dict(possible=lambda r: mentions("possibleTypes")(r)),
                 unit=lambda ctx, rng, node: mentions("types")(rng) and not mentions("possibleTypes")(rng) and not mentions("enumValues")(rng), opaque=BOUND)
    rows = ck.table(tu, f, d)
    ck.ob("possible-types/collected", bool(rows), f["file"], "the possible types of every schema type are collected")
    ck.must("possible-types/object", rows, [("leaf", False), ("obj", True)], "selfname", "an object type is its own possible type")
    ck.must("possible-types/abstract", rows, [("leaf", False), ("obj", False)], "loop:possible", "the possible types of an interface or union are those the schema lists")
    d = Decision(atoms=dict(leaf=lambda t: t[0] == "call" and t[1] == V + "isScalarType" and mentions("types", "kind")(t), none=lambda t: t[0] == "empty"),
                 writes=dict(kept=lambda l, r, op: mentions("_matchingTypes")(l)),
                 unit=lambda ctx, rng, node: mentions("types")(rng) and not mentions("possibleTypes")(rng) and not mentions("enumValues")(rng), opaque=BOUND)
    ck.must("possible-types/kept", ck.table(tu, f, d), [("leaf", False), lambda r: not r.has("none", True)], lambda r: r.did("kept") or alias(f, "_matchingTypes"), "the possible types are recorded under the name of the type")
    d = Decision(atoms=dict(live=lambda t: t[0] == "call" and t[1].endswith("::lock") and mentions("possibleTypes")(t)),
                 events=dict(add=lambda c: grows(c) and bool(c.args) and mentions("possibleTypes", "name")(c.args[0])),
                 unit=lambda ctx, rng, node: mentions("possibleTypes")(rng), opaque=BOUND)
    rows = ck.table(tu, f, d)
    ck.must("possible-types/each", rows, [lambda r: not r.has("live", False)], "add", "each possible type of an abstract type is recorded by name")
