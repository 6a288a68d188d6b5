"""Languages of parsing expression grammars and of context-free ones, compared exactly.

A parsing expression is read as the set of inputs on which it succeeds with a rest of which a continuation holds, and the set on which it fails; both are
Boolean combinations of the same for its parts (an alternating automaton), so that a deterministic automaton is found by derivatives. `must` makes a failure final.
A context-free grammar in the same terms leaves choices open instead (`alt`, `many`, `maybe`). Two of them are compared on all inputs whose nesting in
the context-free one (`nest`) is bounded, of any length."""
import re
from collections import deque

EOF = -1
MAX = 0x10FFFF
TOP, FALSE, TRUE = 0, 0, 1


class Machine:
    """expressions and continuations are numbers; sets of characters are sorted lists of ranges until close() numbers the classes"""

    def __init__(self):
        self.exprs, self.enum = [], {}
        self.ks, self.knum, self.kdepth = [None], {None: 0}, [0]
        self.rules, self.memo, self.classes = {}, {}, None
        self.failmemo = {}
        self.stored, self.marks = set(), []     # rules that make a node; the symbols for where a node begins and ends
        # positive Boolean formulas over continuations, as decision diagrams: (variable, false branch, true branch)
        self.nodes, self.nnum = [(1 << 60, 0, 0), (1 << 60, 1, 1)], {}
        self.ands, self.ors, self.deep, self.steps = {}, {}, {}, {}
        self.supports, self.groups, self.krows = {}, {}, {}

    def node(self, v, lo, hi):
        if lo == hi:
            return lo
        t = (v, lo, hi)
        i = self.nnum.get(t)
        if i is None:
            i = self.nnum[t] = len(self.nodes)
            self.nodes.append(t)
        return i

    def both(self, a, b):
        if a == b or b == TRUE:
            return a
        if a == TRUE:
            return b
        if a == FALSE or b == FALSE:
            return FALSE
        if a > b:
            a, b = b, a
        r = self.ands.get((a, b))
        if r is None:
            (x, l1, h1), (y, l2, h2) = self.nodes[a], self.nodes[b]
            if x == y:
                r = self.node(x, self.both(l1, l2), self.both(h1, h2))
            elif x < y:
                r = self.node(x, self.both(l1, b), self.both(h1, b))
            else:
                r = self.node(y, self.both(a, l2), self.both(a, h2))
            self.ands[a, b] = r
        return r

    def either(self, a, b):
        if a == b or b == FALSE:
            return a
        if a == FALSE:
            return b
        if a == TRUE or b == TRUE:
            return TRUE
        if a > b:
            a, b = b, a
        r = self.ors.get((a, b))
        if r is None:
            (x, l1, h1), (y, l2, h2) = self.nodes[a], self.nodes[b]
            if x == y:
                r = self.node(x, self.either(l1, l2), self.either(h1, h2))
            elif x < y:
                r = self.node(x, self.either(l1, b), self.either(h1, b))
            else:
                r = self.node(y, self.either(a, l2), self.either(a, h2))
            self.ors[a, b] = r
        return r

    # --- expressions
    def e(self, *t):
        i = self.enum.get(t)
        if i is None:
            i = self.enum[t] = len(self.exprs)
            self.exprs.append(t)
        return i

    def chars(self, ranges):
        return self.e("set", tuple(sorted(ranges)))

    def seq(self, *es):
        if not es:
            return self.e("ok")
        r = es[-1]
        for x in reversed(es[:-1]):
            r = self.e("seq", x, r)
        return r

    def sor(self, *es):
        r = es[-1]
        for x in reversed(es[:-1]):
            r = self.e("sor", x, r)
        return r

    def alt(self, *es):
        r = es[-1]
        for x in reversed(es[:-1]):
            r = self.e("alt", x, r)
        return r

    def text(self, s):
        return self.seq(*[self.chars([(ord(c), ord(c))]) for c in s])

    def rule(self, name):
        return self.e("rule", name)

    def close(self):
        """cut the characters into classes which no set tells apart"""
        cuts = {0, MAX + 1}
        for t in self.exprs:
            if t[0] in ("set", "peeknot"):
                for a, b in t[1]:
                    cuts |= {a, b + 1}
        cuts = sorted(c for c in cuts if c <= MAX + 1)
        atoms = [(a, b - 1) for a, b in zip(cuts, cuts[1:])]
        sets = [t[1] for t in self.exprs if t[0] in ("set", "peeknot")]
        sig = {}
        for a, b in atoms:
            k = tuple(any(x <= a <= y for x, y in s) for s in sets)
            sig.setdefault(k, []).append((a, b))
        # the nicest character stands for its class
        self.classes = [min((x for a, b in rs for x in (a, b, min(max(a, 0x61), b), min(max(a, 0x41), b))), key=lambda c: (not 0x61 <= c <= 0x7a, not 0x21 <= c < 0x7f, c)) for rs in sig.values()]
        self.classof = [(rs, i) for i, rs in enumerate(sig.values())]
        self.marks = sorted({t[1] for t in self.exprs if t[0] == "mark"})
        self.first = len(self.classes)
        self.markid = {x: self.first + i for i, x in enumerate(self.marks)}
        self.look = "B" if self.marks else "A"
        self.member = {s: frozenset(i for i, c in enumerate(self.classes) if any(x <= c <= y for x, y in s)) for s in set(sets)}

    def cls(self, ch):
        o = ord(ch)
        return next(i for rs, i in self.classof if any(a <= o <= b for a, b in rs))

    def symbols(self):
        return len(self.classes) + len(self.marks)

    def show(self, c):
        return chr(self.classes[c]) if c < self.first else "\u00ab%s:" % self.marks[c - self.first][1:] if self.marks[c - self.first][0] == "<" else "\u00bb"

    # --- continuations: A succeeds and makes nodes, B succeeds and F fails without a look at the nodes
    def k(self, kind, e, k=0):
        t = (kind, e, k)
        i = self.knum.get(t)
        if i is None:
            i = self.knum[t] = len(self.ks)
            self.ks.append(t)
            self.kdepth.append(self.kdepth[k] + (self.exprs[e][0] == "nestend"))
        return i

    def expand(self, k, c):
        """what must hold after the character c (EOF: whether it holds at the end) where continuation k must hold before it"""
        if k == TOP:
            return TRUE
        key = (k, c)
        r = self.memo.get(key)
        if r is None:
            kind, e, k2 = self.ks[k]
            if c >= self.first and kind != "A":
                r = self.node(k, FALSE, TRUE)
            else:
                r = self.acc(e, k2, c, kind) if kind != "F" else self.fail(e, c)
            self.memo[key] = r
        return r

    def acc(self, e, k, c, kind):
        if c >= self.first and kind != "A":
            return self.node(self.k(kind, e, k), FALSE, TRUE)
        t = self.exprs[e]
        o = t[0]
        if o == "set":
            if c in self.member[t[1]]:
                return TRUE if k == TOP else self.node(k, FALSE, TRUE)
            return FALSE
        if o == "seq":
            return self.acc(t[1], self.k(kind, t[2], k), c, kind)
        if o == "rule":
            if kind == "A" and t[1] in self.stored:
                n = t[1].split("::")[-1]
                return self.acc(self.e("mark", "<" + n), self.k("A", self.rules[t[1]], self.k("A", self.e("mark", ">" + n), k)), c, kind)
            return self.acc(self.rules[t[1]], k, c, kind)
        if o == "sor":
            a = self.acc(t[1], k, c, kind)
            f = self.fail(t[1], c)
            if not f:
                return a
            return self.either(a, self.both(f, self.acc(t[2], k, c, kind)))
        if o == "alt":
            return self.either(self.acc(t[1], k, c, kind), self.acc(t[2], k, c, kind))
        if o == "star":
            f = self.fail(t[1], c)
            a = self.acc(t[1], self.k(kind, e, k), c, kind)
            return self.either(a, self.both(f, self.expand(k, c))) if f else a
        if o == "opt":
            f = self.fail(t[1], c)
            a = self.acc(t[1], k, c, kind)
            return self.either(a, self.both(f, self.expand(k, c))) if f else a
        if o == "many":
            return self.either(self.acc(t[1], self.k(kind, e, k), c, kind), self.expand(k, c))
        if o == "maybe":
            return self.either(self.acc(t[1], k, c, kind), self.expand(k, c))
        if o == "must":
            return self.acc(t[1], k, c, kind)
        if o == "not":
            f = self.fail(t[1], c)
            return self.both(f, self.expand(k, c)) if f else FALSE
        if o == "at":
            a = self.acc(t[1], TOP, c, self.look)
            return self.both(a, self.expand(k, c)) if a else FALSE
        if o in ("ok", "nestend"):
            return self.expand(k, c)
        if o == "no":
            return FALSE
        if o == "eof":
            return self.expand(k, c) if c == EOF else FALSE
        if o == "mark":
            return self.expand(k, c) if kind == "B" else (self.node(k, FALSE, TRUE) if k != TOP else TRUE) if c == self.markid[t[1]] else FALSE
        if o == "peeknot":
            if c >= self.first:
                return self.both(self.node(self.k("F", self.e("set", t[1])), FALSE, TRUE), self.expand(k, c))
            return FALSE if c in self.member[t[1]] else self.expand(k, c)
        if o == "nest":
            return self.acc(t[1], self.k(kind, self.e("nestend"), k), c, kind)
        raise ValueError(o)

    def fail(self, e, c):
        key = (e, c)
        if c >= self.first:
            return self.node(self.k("F", e), FALSE, TRUE)
        r = self.failmemo.get(key)
        if r is None:
            r = self.failmemo[key] = self.fail_(e, c)
        return r

    def fail_(self, e, c):
        t = self.exprs[e]
        o = t[0]
        if o == "set":
            return FALSE if c in self.member[t[1]] else TRUE
        if o == "seq":
            f = self.fail(t[1], c)
            if f == TRUE:
                return f
            return self.either(f, self.acc(t[1], self.k("F", t[2]), c, self.look))
        if o == "rule":
            return self.fail(self.rules[t[1]], c)
        if o == "sor":
            f = self.fail(t[1], c)
            return self.both(f, self.fail(t[2], c)) if f else f
        if o in ("star", "opt", "must", "ok", "nestend"):
            return FALSE
        if o == "not":
            return self.acc(t[1], TOP, c, self.look)
        if o == "at":
            return self.fail(t[1], c)
        if o == "no":
            return TRUE
        if o == "eof":
            return FALSE if c == EOF else TRUE
        raise ValueError(o)

    # --- automata
    def start(self, e):
        return self.node(self.k("A", e, TOP), FALSE, TRUE)

    def step(self, s, c):
        if s < 2:
            return s
        key = (s, c)
        r = self.steps.get(key)
        if r is None:
            v, lo, hi = self.nodes[s]
            r = self.steps[key] = self.either(self.both(self.expand(v, c), self.step(hi, c)), self.step(lo, c))
        return r

    def support(self, s):
        if s < 2:
            return frozenset()
        r = self.supports.get(s)
        if r is None:
            v, lo, hi = self.nodes[s]
            r = self.supports[s] = self.support(lo) | self.support(hi) | {v}
        return r

    def row(self, s):
        """the steps for all symbols; those which none of the continuations tells apart are stepped once"""
        ks = self.support(s)
        gs = self.groups.get(ks)
        if gs is None:
            rows = []
            for k in ks:
                r = self.krows.get(k)
                if r is None:
                    r = self.krows[k] = [self.expand(k, c) for c in range(self.symbols())]
                rows.append(r)
            num, gs = {}, []
            for i, t in enumerate(zip(*rows) if rows else [()] * self.symbols()):
                gs.append(num.setdefault(t, i))
            self.groups[ks] = gs
        out = []
        for i, g in enumerate(gs):
            out.append(self.step(s, i) if g == i else out[g])
        return out

    def ends(self, s):
        return self.step(s, EOF) == TRUE

    def depth(self, s):
        if s < 2:
            return 0
        r = self.deep.get(s)
        if r is None:
            v, lo, hi = self.nodes[s]
            r = self.deep[s] = max(self.kdepth[v], self.depth(lo), self.depth(hi))
        return r


def compare(m, peg, cfg, depth, limit=10**7, tell=None, within=False):
    """(None or (input, accepted by the first, by the second), number of states): on inputs whose nesting in the second is at most depth;
    within: the second may accept more"""
    first = (m.start(peg), m.start(cfg))
    seen, back, todo = {first: 0}, [(None, None)], deque([first])
    steps = {0: {}, 1: {}}
    n = m.symbols()

    def text(i):
        out = []
        while back[i][0] is not None:
            out.append(back[i][1])
            i = back[i][0]
        m.last = out[::-1]
        return "".join(show(m.last))

    def show(cs):
        return [m.show(c) for c in cs]
    while todo:
        p = todo.popleft()
        i = seen[p]
        a, b = m.ends(p[0]), m.ends(p[1])
        if a and not b if within else a != b:
            return (text(i), a, b), len(seen)
        if tell and i % 50000 == 0:
            tell(len(seen), len(todo))
        rows = []
        for which in (0, 1):
            r = steps[which].get(p[which])
            if r is None:
                r = steps[which][p[which]] = m.row(p[which])
            rows.append(r)
        for c in range(n):
            a = rows[0][c]
            if within and not a:
                continue
            q = (a, rows[1][c])
            if q in seen or not q[0] and (within or not q[1]) or m.depth(q[1]) > depth:
                continue
            seen[q] = len(back)
            back.append((i, c))
            todo.append(q)
            if len(back) > limit:
                return ("?", None, None), len(seen)
    return None, len(seen)


def blame(m, cfg):
    """the node that is being read where the last text that was found leaves the second language"""
    s, stack = m.start(cfg), []
    for c in m.last:
        name = m.marks[c - m.first] if c >= m.first else None
        s = m.step(s, c)
        if not s:
            return name[1:] if name else (stack[-1] if stack else None)
        if name:
            if name[0] == "<":
                stack.append(name[1:])
            elif stack:
                stack.pop()
    return stack[-1] if stack else None


# --- type expressions of C++

def parse_type(t):
    """a type as (name, [arguments]); arguments are types, numbers or characters"""
    tok = re.findall(r"U?L?u?8?'(?:\\.[^']*|[^'\\])'|[A-Za-z_~][\w]*(?:::[A-Za-z_~]\w*)*|-?\d+|[<>,]|\S", t)
    pos = [0]

    def one():
        x = tok[pos[0]]
        pos[0] += 1
        m = re.fullmatch(r"(?:U|L|u8?)?'(.*)'", x, re.S)
        if m:
            return char(m.group(1))
        if re.fullmatch(r"-?\d+", x):
            while pos[0] < len(tok) and tok[pos[0]] in ("U", "u", "L", "UL"):
                pos[0] += 1
            return int(x)
        args = None
        if pos[0] < len(tok) and tok[pos[0]] == "<":
            pos[0] += 1
            args = []
            while tok[pos[0]] != ">":
                args.append(one())
                if tok[pos[0]] == ",":
                    pos[0] += 1
            pos[0] += 1
        return (x, args or [])
    r = one()
    if pos[0] != len(tok):
        raise ValueError("not a type: %s" % t)
    return r


def char(s):
    simple = {"n": 10, "t": 9, "r": 13, "v": 11, "f": 12, "a": 7, "b": 8, "0": 0, "\\": 92, "'": 39, '"': 34, "?": 63, "e": 27}
    if s[0] != "\\":
        return ord(s)
    if s[1] in "xuU" and len(s) > 2:
        return int(s[2:].strip("{}"), 16)
    if s[1] in "01234567" and len(s) > 2:
        return int(s[1:], 8)
    return simple[s[1]]


class Pegtl:
    """the rules of a grammar that is written with PEGTL, with the meaning its documentation gives them"""
    LIB = "tao::graphqlpeg::"
    FIRST = [(0x41, 0x5A), (0x5F, 0x5F), (0x61, 0x7A)]
    OTHER = [(0x30, 0x39)] + FIRST
    SETS = {
        "alnum": [(0x30, 0x39), (0x41, 0x5A), (0x61, 0x7A)], "alpha": [(0x41, 0x5A), (0x61, 0x7A)], "any": [(0, MAX)], "blank": [(9, 9), (32, 32)], "digit": [(0x30, 0x39)],
        "identifier_first": FIRST, "identifier_other": OTHER, "lower": [(0x61, 0x7A)], "upper": [(0x41, 0x5A)], "nul": [(0, 0)], "odigit": [(0x30, 0x37)], "print": [(32, 126)],
        "seven": [(0, 127)], "space": [(9, 13), (32, 32)], "xdigit": [(0x30, 0x39), (0x41, 0x46), (0x61, 0x66)],
    }

    def __init__(self, machine, base_of, stored=None):
        self.m, self.base_of, self.stored = machine, base_of, stored      # base_of(name): the type a rule is derived from, or None; stored(name): it makes a node
        self.where = {}

    def rule(self, name):
        if name not in self.m.rules:
            self.m.rules[name] = None
            b = self.base_of(name)
            if b is None:
                raise KeyError(name)
            if self.stored and self.stored(name):
                self.m.stored.add(name)
                for x in "<>":
                    self.m.e("mark", x + name.split("::")[-1])
            self.m.rules[name] = self.expr(parse_type(b))
        return self.m.rule(name)

    def not_in(self, ranges):
        out, at = [], 0
        for a, b in sorted(ranges):
            if a > at:
                out.append((at, a - 1))
            at = max(at, b + 1)
        if at <= MAX:
            out.append((at, MAX))
        return self.m.chars(out)

    def expr(self, t):
        if isinstance(t, int):
            raise ValueError(t)
        m = self.m
        name, args = t
        if not name.startswith("tao::"):
            return self.rule(name)
        n = name[len(self.LIB):]
        for p in ("ascii::", "utf8::", "internal::"):
            if n.startswith(p):
                n = n[len(p):]
        x = self.expr
        S = lambda a: m.seq(*[x(y) for y in a])
        if n == "seq":
            return S(args)
        if n == "sor":
            return m.sor(*[x(y) for y in args]) if args else m.e("no")
        if n == "opt":
            return m.e("opt", S(args))
        if n == "star":
            return m.e("star", S(args))
        if n == "plus":
            return m.seq(S(args), m.e("star", S(args)))
        if n == "not_at":
            return m.e("not", S(args))
        if n == "at":
            return m.e("at", S(args))
        if n == "must":
            return m.seq(*[m.e("must", x(y)) for y in args])
        if n == "if_must":
            return m.seq(x(args[0]), *[m.e("must", x(y)) for y in args[1:]])
        if n == "opt_must":
            return m.e("opt", m.seq(x(args[0]), *[m.e("must", x(y)) for y in args[1:]]))
        if n == "star_must":
            return m.e("star", m.seq(x(args[0]), *[m.e("must", x(y)) for y in args[1:]]))
        if n == "if_then_else":
            return m.sor(m.seq(x(args[0]), x(args[1])), m.seq(m.e("not", x(args[0])), x(args[2])))
        if n in ("list", "list_must", "list_tail"):
            pad = [] if len(args) < 3 or args[2] == ("void", []) else [m.e("star", x(args[2]))]
            sep = m.seq(*(pad + [x(args[1])] + pad))
            item = x(args[0])
            if n == "list_tail":
                return m.seq(item, m.e("star", m.seq(sep, item)), m.e("opt", m.seq(*(pad + [x(args[1])]))))
            return m.seq(item, m.e("star", m.seq(sep, m.e("must", item) if n == "list_must" else item)))
        if n == "pad":
            a, b = x(args[1]), x(args[2] if len(args) > 2 else args[1])
            return m.seq(m.e("star", a), x(args[0]), m.e("star", b))
        if n == "pad_opt":
            return m.seq(m.e("star", x(args[1])), m.e("opt", m.seq(x(args[0]), m.e("star", x(args[1])))))
        if n == "rep":
            return m.seq(*[S(args[1:])] * args[0])
        if n == "rep_min":
            return m.seq(*([S(args[1:])] * args[0] + [m.e("star", S(args[1:]))]))
        if n in ("rep_max", "rep_opt"):
            return self.upto(args[0], S(args[1:])) if n == "rep_opt" else m.seq(self.upto(args[0], S(args[1:])), m.e("not", S(args[1:])))
        if n == "rep_min_max":
            return m.seq(*([S(args[2:])] * args[0] + [self.upto(args[1] - args[0], S(args[2:])), m.e("not", S(args[2:]))]))
        if n == "until":
            body = S(args[1:]) if len(args) > 1 else m.chars([(0, MAX)])
            return m.seq(m.e("star", m.seq(m.e("not", x(args[0])), body)), x(args[0]))
        if n == "minus":
            return m.e("minus", x(args[0]), x(args[1]))
        if n in ("one", "ranges", "range", "not_one", "not_range"):
            if n in ("one", "not_one"):
                rs = [(a, a) for a in args]
            else:
                rs = list(zip(args[::2], args[1::2])) + ([(args[-1], args[-1])] if len(args) % 2 else [])
            return self.not_in(rs) if n.startswith("not_") else m.chars(rs)
        if n in ("string", "istring"):
            return m.seq(*[m.chars({(a, a)} | ({(ord(chr(a).swapcase()),) * 2} if n == "istring" else set())) for a in args])
        if n in ("two", "three"):
            return m.seq(*[m.chars([(args[0], args[0])])] * (2 if n == "two" else 3))
        if n == "keyword":
            return m.seq(*([m.chars([(a, a)]) for a in args] + [m.e("not", m.chars(self.OTHER))]))
        if n == "identifier":
            return m.seq(m.chars(self.FIRST), m.e("star", m.chars(self.OTHER)))
        if n == "ellipsis":
            return m.text("...")
        if n == "bom":
            return m.chars([(0xFEFF, 0xFEFF)])
        if n == "eol":
            return m.sor(m.text("\n"), m.text("\r\n"))
        if n == "eolf":
            return m.sor(m.e("eof"), m.text("\n"), m.text("\r\n"))
        if n == "eof":
            return m.e("eof")
        if n in ("bof", "success", "discard"):
            return m.e("ok")
        if n == "failure":
            return m.e("no")
        if n in ("enable", "disable"):
            return S(args)
        if n in self.SETS:
            return m.chars(self.SETS[n])
        raise KeyError(name)

    def upto(self, k, e):
        r = self.m.e("ok")
        for _ in range(k):
            r = self.m.e("opt", self.m.seq(e, r))
        return r


def trace(m, e, text, names=True):
    """run the expression over the text: (end or None, is the failure final, the furthest position, the rules that were being read there)"""
    far = [0, ()]
    end = len(text)
    ok = [m.cls(c) for c in text]

    class Final(Exception):
        pass

    def run(e, i, stack):
        t = m.exprs[e]
        o = t[0]
        if o in ("set", "eof") and i >= far[0]:
            far[0], far[1] = i, stack
        if o == "set":
            return i + 1 if i < end and ok[i] in m.member[t[1]] else None
        if o == "seq":
            i = run(t[1], i, stack)
            return None if i is None else run(t[2], i, stack)
        if o == "rule":
            return run(m.rules[t[1]], i, stack + (t[1],))
        if o == "sor":
            r = run(t[1], i, stack)
            return r if r is not None else run(t[2], i, stack)
        if o == "star":
            while True:
                r = run(t[1], i, stack)
                if r is None:
                    return i
                i = r
        if o == "opt":
            r = run(t[1], i, stack)
            return i if r is None else r
        if o == "must":
            r = run(t[1], i, stack)
            if r is None:
                raise Final()
            return r
        if o in ("not", "at"):
            keep = list(far)
            r = run(t[1], i, stack)
            far[0], far[1] = keep
            return i if (r is None) == (o == "not") else None
        if o == "ok":
            return i
        if o == "no":
            return None
        if o == "eof":
            return i if i == end else None
        raise ValueError(o)
    try:
        r = run(e, 0, ())
        final = False
    except Final:
        r, final = None, True
    return r, final, far[0], far[1]
