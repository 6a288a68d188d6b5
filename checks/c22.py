"""The value of a string literal is what its characters and escape sequences stand for."""
from vcommon import *
from xcommon import unwrap
from c20 import P, SRC

N = P + "ast_node::"
ESCAPES = {'"': '"', "\\": "\\", "/": "/", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t"}
SELECTORS = tuple(P + k + "_selector" for k in ("ast", "executable", "schema"))
DECODE = "tao::graphqlpeg::unescape::unescape_j::apply"
THIS = ("this",)
STORED = ("f", THIS, "_unescaped")
CHILDREN = ("f", THIS, "children")


def param(f, i=0):
    return ("v", f["p"][i]["n"], f["p"][i]["d"])


def run(ck):
    tu = ck.load(SRC)
    hooks = {}
    for f in tu.functions:
        if f["n"] == "transform" and not f.get("dep") and f.get("cls", "").split("<")[0] in SELECTORS:
            ck.need(len(f["p"]) == 1, "transform functions of one node")
            hooks[f["cls"].split("<", 1)[1][:-1].split("::")[-1]] = f
    view = lambda f: (lambda t: t[0] == "call" and t[1] == N + "string_view" and t[3] == param(f))
    # an escape sequence is found by its one character
    for need in ("escaped_char", "string_quote_character", "block_escape_sequence", "block_quote_character"):
        ck.ob("set/" + need, need in hooks, "" if need in hooks else SRC, "the value of %s is set where it is parsed" % need)
    for name, f in sorted(hooks.items()):
        text = view(f)
        where = "%s:%s" % (f["file"], f["l"])
        first = lambda t: t[0] == "call" and t[1].split("::")[-1] in ("front", "at", "operator[]") and t[3] is not None and text(t[3]) and all(a == ("c", 0) for a in t[4]) or t[0] == "idx" and text(t[1]) and t[2] == ("c", 0)

        def char(ch):
            def atom(t):
                return t[0] == "eq" and (first(t[1]) and t[2] == ("c", ord(ch)) or first(t[2]) and t[1] == ("c", ord(ch)) or text(t[1]) and t[2] == ("c", ch) or text(t[2]) and t[1] == ("c", ch))
            return atom
        setter = lambda c: c.nq == N + "unescaped_view" and c.obj == param(f) and len(c.args) == 1
        atoms = {"content": lambda t: t[0] == "call" and t[1] == N + "has_content" and t[3] == param(f)}
        atoms.update({ch: char(ch) for ch in ESCAPES})
        lead = lambda t: text(t) or t[0] == "call" and t[1].split("::")[-1] == "substr" and t[3] is not None and text(t[3]) and t[4] == (("c", 0), ("c", 1))
        events = {"set:text": lambda c: setter(c) and text(c.args[0]), "set:itself": lambda c: setter(c) and not text(c.args[0]) and lead(c.args[0]), 'set:"""': lambda c: setter(c) and c.args[0] == ("c", '"""'),
                  "eager": lambda c: c.nq == N + "unescaped_view" and c.obj == param(f) and not c.args,
                  "drop": lambda c: c.obj == param(f) and c.name in ("reset", "release", "swap") or c.nq == N + "remove_content"}
        events.update({"set:" + v: (lambda v: lambda c: setter(c) and c.args[0] == ("c", v))(v) for v in ESCAPES.values()})
        events["set"] = setter
        sets = lambda r: sum(r.count(e) for e in events if e[:3] == "set")
        d = Decision(atoms, events, writes={"replaced": lambda l, r, op: l == param(f) or l[0] == "f" and l[1] == param(f)}, value=False)
        rows = ck.table(tu, f, d)
        ck.never("kept/" + name, rows, [], lambda r: r.did("replaced") or r.did("drop"), "the node and its text stay as they were parsed")
        if name == "escaped_char":
            for ch, v in ESCAPES.items():
                those = [r for r in rows if r.has(ch)]
                ck.ob("escape/%s/known" % ch, bool(those), where, "the escape sequence \\%s is known" % ch)
                ck.must("escape/" + ch, those, [], lambda r: r.has("content", False) or r.end != "throw" and sets(r) == 1 and (r.did("set:" + v) or ch == v and (r.did("set:text") or r.did("set:itself"))), "\\%s stands for U+%04X" % (ch, ord(v)))
            ck.must("escape/other", rows, [lambda r: not any(r.has(ch) for ch in ESCAPES)], lambda r: not sets(r), "nothing else is an escape sequence of one character")
        elif name in ("string_quote_character", "block_quote_character"):
            ck.must("plain/" + name, rows, [], lambda r: sets(r) == 1 and r.did("set:text") and r.end != "throw", "characters stand for themselves")
        elif name == "block_escape_sequence":
            ck.must("plain/" + name, rows, [], lambda r: sets(r) == 1 and r.did('set:"""') and r.end != "throw", "\\\"\"\" stands for three quotation marks")
        else:
            ck.never("value/" + name, rows, [], sets, "the value of any other node is what its children stand for")
        if name == "escaped_unicode":
            ck.must("unicode/parse", rows, [], "eager", "a code point which does not exist fails the parsing")
    ck.ob("unicode/when-parsed", "escaped_unicode" in hooks, SRC, "an escape sequence of a code point which does not exist is an error of the parsing")
    # --- the value of a node
    for f in tu.find(N + "unescaped_view"):
        if len(f["p"]) == 1:
            w = {"set": lambda l, r, op: l == STORED and any(x == param(f) for x in subterms(r)), "other": lambda l, r, op: l != STORED or not any(x == param(f) for x in subterms(r))}
            rows = ck.table(tu, f, Decision({}, {}, writes=w))
            ck.must("setter", rows, [], lambda r: r.count("set") == 1 and not r.did("other"), "the value that is set is kept")
            continue
        mine = lambda t, o: t is not None and t[0] == "call" and t[1] == N + "unescaped_view" and t[3] == o and not t[4]
        each = ("elem", CHILDREN)
        content = lambda t: t[0] == "call" and t[1] == N + "string_view" and t[3] == THIS or t == ("f", THIS, "_content")
        size = lambda t: t[0] == "call" and t[1] == "std::vector::size" and t[3] == CHILDREN
        atoms = {"known": lambda t: t == STORED, "many": lambda t: t[0] == "lt" and t[1] == ("c", 1) and size(t[2]) or t[0] == "lt" and t[1] == ("c", 2) and False, "empty": lambda t: t == ("empty", CHILDREN),
                 "one": lambda t: t[0] == "eq" and (size(t[1]) and t[2] == ("c", 1) or size(t[2]) and t[1] == ("c", 1)), "unicode": lambda t: t[0] == "is_type" and t[1] == THIS and t[2] == "escaped_unicode",
                 "content": lambda t: t[0] == "call" and t[1] == N + "has_content" and t[3] == THIS or t[0] == "empty" and content(t[1])}
        target = set()

        def appends(c):
            if c.nq in ("std::basic_string::append", "std::basic_string::operator+=") and len(c.args) == 1 and len(c.args[0]) == 5 and mine(c.args[0], c.args[0][3]) and c.args[0][3][:2] == each[:2] and c.args[0][3][0] == "elem":
                target.add(c.obj)
                return True
            return False
        def added(l, r, op):
            return op == "+=" and l[0] == "v" and len(r) == 5 and r[0] == "call" and mine(r, r[3]) and r[3][:2] == each[:2] and r[3][0] == "elem"

        def strange(l, r, op):
            return op == "+=" and l[0] == "v" and not added(l, r, op) and (r[0] == "c" and isinstance(r[1], str) or r[0] == "call" and r[1] == N + "unescaped_view" or r[0] in ("new", "bin") and any(mine(x, x[3]) for x in subterms(r) if x[0] == "call" and len(x) == 5 and x[3] is not None))
        foreign = lambda c: c.obj is not None and c.obj[0] == "v" and c.nq.startswith("std::basic_string::") and c.name in ("append", "operator+=", "push_back", "insert", "assign", "erase", "clear", "resize", "pop_back", "replace", "operator=") and not appends(c)

        def decodes(c):
            return c.nq == DECODE and len(c.args) == 2 and c.args[0][0] == "new" and any(t[0] == "call" and t[1].split("::")[-1] == "data" and content(t[3]) for t in subterms(c.args[0])) and any(
                t[0] == "call" and t[1].split("::")[-1] in ("size", "length") and content(t[3]) for t in subterms(c.args[0]))
        events = {"append": appends, "foreign": foreign, "decode": decodes, "decode-other": lambda c: c.nq == DECODE and not decodes(c)}

        def value(p):
            return lambda l, r, op: l == STORED and p(r)
        inner = lambda r: r[2][0] if r[0] == "new" and len(r[2]) == 1 else None
        joined = lambda r: inner(r) is not None and inner(r)[0] == "v"
        single = lambda r: inner(r) is not None and any(mine(x, x[3]) and (x[3] == each or x[3][0] == "call" and x[3][1].split("::")[-1] in ("front", "back", "at") and x[3][3] == CHILDREN or x[3][0] == "idx" and x[3][1] == CHILDREN and x[3][2] == ("c", 0))
                                                       for x in subterms(inner(r)) if x[0] == "call" and len(x) == 5 and x[3] is not None)
        nothing = lambda r: inner(r) is not None and inner(r) in (("c", ""), ("new", "std::basic_string_view<char, std::char_traits<char>>", ()))
        writes = {"append": added, "foreign": strange, "joined": value(joined), "single": value(single), "nothing": value(nothing), "otherwise": value(lambda r: not (joined(r) or single(r) or nothing(r)))}
        d = Decision(atoms, events, writes=writes, value=True)
        rows = ck.table(tu, f, d)
        known = lambda r: r.has("known")
        several = lambda r: r.has("many")
        oneof = lambda r: r.has("one") or r.has("many", False) and r.has("empty", False)
        leaf = lambda r: r.has("empty") and not known(r)
        wrote = lambda r: sum(r.count(x) for x in ("joined", "single", "nothing", "otherwise"))
        ck.must("value/known", rows, [known], lambda r: not wrote(r), "a value that is known is kept")
        ck.must("value/found", rows, [lambda r: not known(r)], lambda r: wrote(r) == 1 and not r.did("otherwise"), "a value that is not known is found")
        ck.must("value/children", rows, [several], lambda r: r.did("joined") and not r.did("foreign") and not r.did("decode"), "the value of several children is that of each of them, in order")
        ck.must("value/child", rows, [oneof, lambda r: not several(r)], lambda r: (r.did("single") or r.did("joined")) and not r.did("foreign") and not r.did("decode"), "the value of one child is that of the child")
        code = lambda r: r.has("unicode") and leaf(r)
        ck.must("value/unicode", rows, [code, lambda r: not r.has("content", False) or True], lambda r: r.did("decode") and r.did("joined") and not r.did("decode-other") and not r.did("foreign"), "an escape sequence of code points is decoded")
        ck.must("value/leaf", rows, [leaf, lambda r: not r.has("unicode")], lambda r: r.did("nothing") and not r.did("decode"), "a node without children whose value was not set stands for nothing")
        ck.need(any(code(r) for r in rows), "escape sequences of code points")
        ck.need(any(several(r) for r in rows) or any(r.did("joined") for r in rows), "several children")
        # the loop over the children appends each
        loops = ck.table(tu, f, Decision({}, events, writes=writes, unit=lambda ctx, rng, node: rng == CHILDREN), partial=True)
        loops = [r for r in loops if r.loop]
        grown = [r for r in loops if r.did("append")]
        ck.ob("value/each", bool(grown) and all(r.count("append") <= 1 for r in grown), "%s:%s" % (f["file"], f["l"]), "each child is appended once")
        visible = lambda t: t is not None and any(x == STORED for x in subterms(t))
        ck.must("value/returned", rows, [], lambda r: visible(r.value), "what is known is returned")
