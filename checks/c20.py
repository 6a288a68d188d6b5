"""A document is accepted exactly if the grammar of the specification derives it.

The rules of the grammar are read from the types they are made of; the language they define, as PEGTL reads them, is compared with the language of the
grammar of the specification by a product of automata: documents of any length, their nesting bounded."""
import concurrent.futures, sys
import facts, gql, peg
from vcommon import *

SRC = "src/SyntaxTree.cpp"
P = "graphql::peg::"
PARSE = "tao::graphqlpeg::parse_tree::parse"
ENTRIES = {P + "parseString": "executable", P + "parseFile": "executable", 'graphql::operator""_graphql': "executable", P + "parseSchemaString": "schema", P + "parseSchemaFile": "schema"}
DEPTH = {"quick": {"executable": 4, "schema": 2, "mixed": 2}, "thorough": {"executable": 5, "schema": 3, "mixed": 3}}
# where the grammar is known to differ: what a document shows, whether the specification has it, the reading of the specification that goes along
KNOWN = {"constant-values": ("query($A:A=$A){A}", False, "constant"), "space-after-dollar": ("query($ A:A){A}", True, "dollar")}


def language(bases, doc, lenient, depth):
    """in a process of its own: the shortest document on which the two differ, and the rules which were read there"""
    sys.setrecursionlimit(200000)
    m = peg.Machine()
    e = peg.Pegtl(m, bases.get).rule(P + doc + "_document")
    spec = gql.Spec(m, lenient).documents[doc]
    m.close()
    (found, states) = peg.compare(m, e, spec, depth)
    at = ()
    if found and found[0] != "?":
        at = peg.trace(m, e, found[0])[3]
    return found, states, len(m.classes), [n for n in m.rules if n.startswith("graphql::")], at


def run(ck):
    tu = ck.load(SRC)
    sys.setrecursionlimit(200000)
    # --- the rules, and the deviations that are known
    m = peg.Machine()

    def base(n):
        r = tu.record(n)
        b = r.get("bases") if r else None
        return b[0] if b and len(b) == 1 else None
    g = peg.Pegtl(m, base)
    try:
        roots = {d: g.rule(P + d + "_document") for d in ("executable", "schema", "mixed")}
    except (KeyError, ValueError) as x:
        ck.need(False, "rules which are made of those of PEGTL (%s)" % x)
    gql.Spec(m, ())
    m.close()
    bases, at = {}, {}
    for n in m.rules:
        if n.startswith("graphql::"):
            r = tu.record(n)
            bases[n], at[n] = r["bases"][0], "%s:%s" % (r["file"], r["l"])
    ck.functions.update(at)
    lenient = ["white"]
    for key, (text, right, flag) in KNOWN.items():
        r, _, far, stack = peg.trace(m, roots["executable"], text)
        ok = (r is not None) == right
        name = P + "default_value" if key == "constant-values" else next((n for n in reversed(stack) if n in at), P + "executable_document")
        ck.ob("known/" + key, ok, at[name], "%r is %s" % (text, "a document" if right else "no document"))
        if not ok:
            lenient.append(flag)
    # --- the languages
    depth = DEPTH[ck.tier]
    with concurrent.futures.ProcessPoolExecutor(3) as pool:
        jobs = {d: pool.submit(language, bases, d, lenient, depth[d]) for d in roots}
        for d, j in jobs.items():
            found, states, classes, rules, stack = j.result()
            where = at[P + d + "_document"]
            msg = "documents (%s) are those of the specification" % d
            if found:
                ck.need(found[0] != "?", "a product of automata of reasonable size")
                name = next((n for n in reversed(stack) if n in at), None)
                if name:
                    where = at[name]
                msg += ": %r is %s the grammar and %s the specification (rule %s)" % (found[0], "derived by" if found[1] else "rejected by", "derived by" if found[2] else "not derived by", (name or "?").split("::")[-1])
            ck.ob("language/" + d, not found, where, msg)
            ck.notes.append("%s documents: %d rules, %d classes of characters, %d pairs of states, nesting up to %d" % (d, len(rules), classes, states, depth[d]))
    # --- what is parsed by which grammar
    for q, d in ENTRIES.items():
        short = q.split("::")[-1].replace('operator""', "")
        fs = tu.find(q)
        ck.need(len(fs) == 1, q)
        f = fs[0]
        ck.saw(f)
        calls = []

        class E(Decision):
            def on_call(self, ctx, st, c):
                if c.nq == PARSE:
                    calls.append((ctx.where(c.node), c.ta[0], c.ta[2]))
                return super().on_call(ctx, st, c)
        docs = {x: (lambda x: lambda c: c.nq == PARSE and c.ta[0] == P + x + "_document")(x) for x in ("executable", "schema", "mixed")}
        rows = ck.table(tu, f, E({}, docs, value=True, may_throw=lambda c: ("tao::graphqlpeg::parse_error",) if c.nq == PARSE else ()))
        ck.need(calls, "the grammar that is used by " + short)
        parsed = lambda r: [x for x in ("executable", "schema", "mixed") for _ in range(r.count(x))]
        ck.must("entry/%s/first" % short, rows, [], lambda r: r.did(d), "the grammar of %s documents comes first" % d)
        ck.must("entry/%s/mixed" % short, rows, [lambda r: r.end == "throw"], lambda r: r.count("mixed") == 1 and r.did(d), "what is no %s document may still be a mixed one" % d)
        ck.must("entry/%s/once" % short, rows, [], lambda r: r.count(d) == 1 and r.count("mixed") <= 1 and len(parsed(r)) == 1 + r.count("mixed"), "nothing else is tried")
        for w, doc, sel in calls:
            ck.ob("entry/%s/nodes" % short, sel == P + d + "_selector", w, "the tree has the nodes of %s documents" % d)
