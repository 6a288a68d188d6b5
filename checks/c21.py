"""The syntax tree of a document has exactly the nodes of its derivation, each with the text it stands for.

As for C20, with symbols in the text for where a node begins and ends: every tree which the grammar builds is one that the specification's grammar has for the text."""
import concurrent.futures, re, sys
import facts, gql, peg
from vcommon import *
from xcommon import unwrap
from c20 import P, SRC

DEPTH = {"quick": {"executable": 2, "schema": 1}, "thorough": {"executable": 3, "schema": 2}}
TRUE_TYPE = "std::integral_constant<bool, true>"
FOLD = "tao::graphqlpeg::parse_tree::fold_one"
N = P + "ast_node::"


def tree(bases, doc, nodes, depth):
    sys.setrecursionlimit(200000)
    m = peg.Machine()
    e = peg.Pegtl(m, bases.get, lambda n: n.split("::")[-1] in nodes).rule(P + doc + "_document")
    spec = gql.Spec(m, ["white", "constant", "dollar"], gql.NODES[doc]).documents[doc]
    m.close()
    found, states = peg.compare(m, e, spec, depth, within=True)
    return found, states, len(m.classes), len(m.marks), peg.blame(m, spec) if found else None


def run(ck):
    tu = ck.load(SRC)
    sys.setrecursionlimit(200000)

    def base(n):
        r = tu.record(n)
        b = r.get("bases") if r else None
        return b[0] if b and len(b) == 1 else None
    m = peg.Machine()
    g = peg.Pegtl(m, base)
    try:
        for d in ("executable", "schema"):
            g.rule(P + d + "_document")
    except (KeyError, ValueError) as x:
        ck.need(False, "rules which are made of those of PEGTL (%s)" % x)
    bases, at = {}, {}
    for n in m.rules:
        r = tu.record(n)
        bases[n], at[n] = r["bases"][0], "%s:%s" % (r["file"], r["l"])
    ck.functions.update(at)
    # --- which rules make a node
    chosen = {"executable": {}, "schema": {}}
    for r in tu.records:
        for k in ("ast", "executable", "schema"):
            if r["nq"] == P + k + "_selector" and r.get("spec") and r.get("ta"):
                for d in (chosen if k == "ast" else (k,)):
                    if k != "ast" or r["ta"][0] not in chosen[d]:
                        chosen[d][r["ta"][0]] = (r["bases"], "%s:%s" % (r["file"], r["l"]))
    for d, rules in chosen.items():
        ck.need(rules, "the nodes of %s documents" % d)
        for n, (b, w) in sorted(rules.items()):
            if b == [FOLD]:
                inner = below(m, m.rules.get(n)) & set(rules)
                ck.ob("stored/%s/%s" % (d, n.split("::")[-1]), len(inner) == 1, w, "a node which is folded has one child")
            else:
                ck.ob("stored/%s/%s" % (d, n.split("::")[-1]), b == [TRUE_TYPE], w, "the node is stored with its text")
    # --- the trees
    with concurrent.futures.ProcessPoolExecutor(2) as pool:
        depth = DEPTH[ck.tier]
        jobs = {d: pool.submit(tree, bases, d, sorted(n.split("::")[-1] for n, (b, _) in chosen[d].items() if b == [TRUE_TYPE]), depth[d]) for d in chosen}
        for d, j in jobs.items():
            found, states, classes, marks, rule = j.result()
            msg = "the trees of %s documents are those of the specification" % d
            where = at[P + d + "_document"]
            if found:
                ck.need(found[0] != "?", "a product of automata of reasonable size")
                where = at.get(P + rule, where) if rule else where
                msg += ": not so %s (node %s)" % (found[0], rule)
            ck.ob("tree/" + d, not found, where, msg)
            ck.notes.append("%s documents: %d kinds of nodes, %d classes of characters, %d pairs of states, nesting up to %d" % (d, marks // 2, classes, states, depth[d]))
    # --- what a node says about itself
    THIS = ("this",)
    field = lambda n: ("f", THIS, n)
    seen = {}

    class W(Decision):
        def on_write(self, ctx, st, lhs, rhs, op, node):
            if lhs[0] == "f" and lhs[1] == THIS:
                self.got.append((lhs[2], rhs))
            return super().on_write(ctx, st, lhs, rhs, op, node)
    for f in tu.functions:
        if f.get("dep") or f["nq"] not in (N + "start", N + "success"):
            continue
        d = W({}, {}, writes={n: (lambda n: lambda l, r, op: l == field(n))(n) for n in ("_begin", "_type", "_type_hash", "_content")})
        d.got = []
        rows = ck.table(tu, f, d)
        where = "%s:%s" % (f["file"], f["l"])
        rule, here = f["ta"][0], ("v", f["p"][0]["n"], f["p"][0]["d"]) if f["p"] else None
        last = dict(d.got)
        now = lambda t: t is not None and t[0] == "call" and t[1].split("::")[-1] == "iterator" and t[3] == here
        if f["n"] == "start":
            ok = now(last.get("_begin")) and all(r.did("_begin") for r in rows)
            seen.setdefault("begin", []).append((ok, where, rule))
        else:
            b = ("f", field("_begin"), "data")
            t = last.get("_content")
            ok = t is not None and t[0] == "new" and len(t[2]) == 2 and t[2][0] == b and t[2][1][0] == "bin" and t[2][1][1] == "-" and t[2][1][3] == b and t[2][1][2][0] == "f" and t[2][1][2][2] == "data" and now(t[2][1][2][1])
            seen.setdefault("text", []).append((ok and all(r.did("_content") for r in rows) and "_begin" not in last, where, rule))
            for k, n in (("_type", "type_name"), ("_type_hash", "type_hash")):
                t = last.get(k)
                seen.setdefault(k[1:], []).append((t is not None and t[0] == "call" and t[1] == N + n and list(t[2]) == [rule] and all(r.did(k) for r in rows), where, rule))
    for k, what in (("begin", "a node begins where its rule is tried"), ("text", "the text of a node is what its rule matched"), ("type", "the type of a node is its rule"), ("type_hash", "the hash of the type of a node is that of its rule")):
        ck.need(seen.get(k), "nodes which know their " + k)
        for ok, w, rule in seen[k]:
            ck.ob("node/" + k, ok, w, "%s (%s)" % (what, rule.split("::")[-1]))
    # children are kept in order, the accessors say what was stored
    f = [f for f in tu.functions if f["nq"] == N + "emplace_back" and not f.get("dep")]
    ck.need(f, "how a node gets its children")
    for g in f:
        p = ("v", g["p"][0]["n"], g["p"][0]["d"])
        put = lambda c: c.nq in ("std::vector::emplace_back", "std::vector::push_back") and c.obj == field("children") and list(c.args) == [p]
        rows = ck.table(tu, g, Decision({}, {"put": put}))
        ck.must("node/children", rows, [], lambda r: r.count("put") == 1, "a child is appended to the children")
    text = lambda t: t == field("_content") or t[0] == "call" and t[1] == N + "string_view" and t[3] == THIS
    for n, want in (("string_view", lambda t: t == field("_content")), ("begin", lambda t: t[0] == "new" and t[2][:2] == (field("_begin"), field("_source"))),
                    ("string", lambda t: any(text(x) for x in subterms(t))), ("has_content", None)):
        for g in tu.find(N + n):
            if g["p"] or g.get("dep"):
                continue
            if n == "has_content":
                d = Decision({"content": lambda t: t[0] == "empty" and text(t[1])}, {}, value=True, verdict=True)
                rows = ck.table(tu, g, d)
                ck.must("node/" + n, rows, [], lambda r: r.value == ("c", r.has("content", False)), "a node has content if its text is not empty")
            else:
                rows = ck.table(tu, g, Decision({}, {}, value=True))
                ck.must("node/" + n, rows, [], lambda r: r.value is not None and all(want(x) for x in unwrap(r.value)), "%s is what was stored" % n)
    # is_type: the types are compared by name
    for g in tu.functions:
        if g["nq"] == N + "is_type" and not g.get("dep"):
            u = lambda t: t[0] == "call" and t[1] == N + "type_name" and list(t[2]) == list(g["ta"])
            h = lambda t: t[0] == "call" and t[1] == N + "type_hash" and list(t[2]) == list(g["ta"])
            pair = lambda t, a, b: t[0] == "eq" and (a(t[1]) and b(t[2]) or a(t[2]) and b(t[1]))
            part = lambda f, q: lambda t: t[0] == "call" and t[1].split("::")[-1] == f and t[3] is not None and q(t[3])
            mine = lambda t: t == field("_type")
            d = Decision({"name": lambda t: pair(t, mine, u), "data": lambda t: pair(t, part("data", mine), part("data", u)), "size": lambda t: pair(t, part("size", mine), part("size", u)),
                          "hash": lambda t: pair(t, lambda x: x == field("_type_hash"), h)}, {}, value=True, verdict=True, opaque=(N + "type_name", N + "type_hash"))
            rows = ck.table(tu, g, d)
            yes = lambda r: r.value == ("c", True)
            ck.must("node/is-type", rows, [yes], lambda r: r.has("name") or r.has("data") and r.has("size"), "a node is of a type only if the names are equal")
            ck.must("node/is-type/all", rows, [lambda r: not yes(r)], lambda r: r.has("name", False) or r.has("size", False) or r.has("hash", False), "a node is of every type with its name")


def below(m, e, seen=None):
    """the rules an expression is made of"""
    out, todo, done = set(), [e], set()
    while todo:
        x = todo.pop()
        if x is None or x in done:
            continue
        done.add(x)
        t = m.exprs[x]
        if t[0] == "rule":
            out.add(t[1])
            todo.append(m.rules[t[1]])
        elif t[0] in ("seq", "sor"):
            todo += t[1:]
        elif t[0] in ("star", "opt", "must", "not", "at"):
            todo.append(t[1])
    return out
