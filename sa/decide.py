"""Decision tables: for one unit of work (a function body, or one iteration of a loop inside it) enumerate the
abstract paths as rows  (tracked conditions with their outcome, ordered effects, how the unit ended)  and check
obligations on every row.  Rows come from the path-sensitive dataflow engine; conditions that no matcher tracks are
merged, so a row quantifies over all their outcomes."""
from engine import *
from facts import AnalysisBroken


class Row:
    __slots__ = ("atoms", "events", "end", "value", "where", "loop")

    def __init__(self, atoms, events, end, value, where, loop=None):
        self.atoms, self.events, self.end, self.value, self.where, self.loop = atoms, events, end, value, where, loop

    def has(self, name, val=True):
        return (name, val) in self.atoms

    def seen(self, name):
        return (name, True) in self.atoms or (name, False) in self.atoms

    def did(self, ev):
        return any(e == ev or e.startswith(ev + "@") for e in self.events)

    def count(self, ev):
        return sum(1 for e in self.events if e == ev)

    def index(self, ev):
        for i, e in enumerate(self.events):
            if e == ev:
                return i
        return -1

    def __str__(self):
        a = ", ".join("%s%s" % ("" if v else "!", n) for n, v in sorted(self.atoms))
        return "[%s] -> %s (%s%s) %s" % (a, " ".join(self.events) or "-", self.end,
                                         " " + short(self.value) if self.value is not None else "", self.where)


def holds(p, *args):
    """a predicate that looks for parts the term or call does not have does not hold for it"""
    try:
        return p(*args)
    except (IndexError, TypeError, AttributeError, KeyError):
        return False


class Decision(Rule):
    """atoms: {name: pred(term)}; events: {name: pred(call)}; writes: {name: pred(lhs, rhs, op)};
    news: {name: pred(type, args)}; unit: pred(engine, rng, node) selecting the loop whose iteration is the unit;
    within: optional pred(fn) – the unit is the body of that (inlined) function or lambda."""

    def __init__(self, atoms=None, events=None, writes=None, news=None, unit=None, throws=True, opaque=(), transparent=(),
                 expand=None, may_throw=None, ordered=True, cap=12, value=False, verdict=False, init_atoms=(), loops=None, callterm=None, nonempty=None, outer=True):
        self.outer = outer
        self.atoms = atoms or {}
        self.evs = events or {}
        self.writes = writes or {}
        self.news = news or {}
        self.unit = unit
        self.opaque = Rule.opaque + tuple(opaque)
        self.transparent = tuple(transparent)
        self._expand = expand
        self._mt = may_throw
        self.rows = []
        self.async_rows = []       # how the functions handed to std::async end, with the path that led there
        self.memo = {}
        self.ordered = ordered
        self.cap = cap
        self.value = value or verdict
        self.verdict = verdict     # split paths that return an undecided Boolean
        self.units = 0
        self.parts = set()         # loops of the unit that do not visit all elements in order
        self.eventsites = set()
        self.atomsites = set()
        self.throwname = "throw" if throws else None
        self.init_atoms = frozenset(init_atoms)
        self.callterm = callterm
        self.loops = loops or {}
        self._nonempty = nonempty

    def names(self, atom):
        r = self.memo.get(atom)
        if r is None:
            r = tuple(n for n, p in self.atoms.items() if holds(p, atom))
            self.memo[atom] = r
        return r

    def init(self):
        return (self.unit is None, self.init_atoms, ())

    def tracks(self, atom, st):
        if not self.outer and self.unit is not None and not st.ts[0]:
            return False
        return bool(self.names(atom))

    def track(self, atom):
        return bool(self.names(atom))

    def add(self, st, ev, ctx, node):
        on, at, evs = st.ts
        self.eventsites.add((ev, ctx.where(node)))
        if not on:
            return st
        if not self.ordered:
            evs = tuple(sorted(set(evs) | {ev}))
        elif evs.count(ev) >= 2 and len(evs) >= self.cap:
            return st
        elif len(evs) < self.cap:
            if not (len(evs) >= 2 and evs[-1] == ev and evs[-2] == ev):
                evs = evs + (ev,)
        return st.with_ts((on, at, evs))

    def on_branch(self, ctx, st, atom, val):
        ns = self.names(atom)
        if ns:
            on, at, evs = st.ts
            for n in ns:
                self.atomsites.add((n, ctx.where()))
            if on:
                st = st.with_ts((on, at | {(n, val) for n in ns}, evs))
        return st

    def on_call(self, ctx, st, call):
        for n, p in self.evs.items():
            if holds(p, call):
                st = self.add(st, n, ctx, call.node)
                return self.after(ctx, st, call, n)
        if self.callterm:
            t = self.callterm(ctx, st, call)
            if t is not None:
                return t
        return None

    def after(self, ctx, st, call, name):
        return ("opaque", st)

    def on_write(self, ctx, st, lhs, rhs, op, node):
        for n, p in self.writes.items():
            if holds(p, lhs, rhs, op):
                return self.add(st, n, ctx, node)
        return st

    def on_new(self, ctx, st, ctype, args, node):
        for n, p in self.news.items():
            if holds(p, ctype, args):
                st = self.add(st, n, ctx, node)
        return st

    def on_throw(self, ctx, st, etype, term, node):
        if self.throwname:
            st = self.add(st, self.throwname, ctx, node)
        return st

    def may_throw(self, ctx, st, call):
        return self._mt(call) if self._mt else ()

    def expand(self, ctx, call, fn):
        return self._expand(call) if self._expand else True

    def nonempty(self, ctx, rng):
        return bool(self._nonempty and self._nonempty(rng))

    def on_async(self, ctx, st, how, value, node):
        if st.ts[0]:
            self.async_rows.append(Row(st.ts[1], st.ts[2], how, value, ctx.where(node), node.get("l")))

    def on_loop(self, ctx, st, rng, node):
        for n, p in self.loops.items():
            if holds(p, rng) and node.get("_part", "backwards") == "backwards":
                st = self.add(st, "loop:" + n, ctx, node)
        return st

    def on_iter(self, ctx, st, when, rng, node):
        if self.unit is None or not self.unit(ctx, rng, node):
            return st
        if when == "begin":
            self.units += 1
            if node.get("_part"):
                self.parts.add((ctx.where(node), node["_part"]))
            at = frozenset((n, v) for a, v in st.facts.items() for n in self.names(a)
                           if not any(x[0] == "elem" and x[1] == rng for x in subterms(a)))
            return st.with_ts((True, at, ()))
        on, at, evs = st.ts
        if not on:
            return st
        loop = (id(node),) + tuple(id(c) for c in ctx.callsites[-2:])
        self.rows.append(Row(at, evs, {"end": "iter"}.get(when, when), None, ctx.where(node), loop))
        return st.with_ts((False, frozenset(), ()))

    def run(self, tu, fn, facts=None, bind=None, limit=1500000):
        eng = Engine(tu, self, limit)
        outs = eng.run_function(fn, facts=facts, bind=bind)
        self.engine = eng
        if self.verdict:
            outs = [o for kind, st, v in outs for o in ([("ret", x, ("c", b)) for x, b in eng.split(st, v)] if kind == "ret" and v is not None else [(kind, st, v)])]
        for kind, st, v in outs:
            if st.ts[0]:
                self.rows.append(Row(st.ts[1], st.ts[2], kind, pristine(st, v) if kind == "ret" else (v[0] if v else None), "%s:%s" % (fn["file"], fn["l"])))
        # de-duplicate
        seen, rows = set(), []
        for r in self.rows:
            k = (r.atoms, r.events, r.end, r.value if self.value else None, r.loop)
            if k not in seen:
                seen.add(k)
                rows.append(r)
        self.rows = rows
        return rows


# ---------------------------------------------------------------- matchers over terms
def has(pred):
    return lambda t: any(pred(x) for x in subterms(t))


def fieldname(t):
    while isinstance(t, tuple) and t and t[0] == "old":
        t = t[1]
    if isinstance(t, tuple) and t and t[0] == "phi" and len(t) > 2:
        r = {fieldname(x) for x in t[2:]}
        return r.pop() if len(r) == 1 else None
    return t[2] if isinstance(t, tuple) and t and t[0] == "f" else None


def mentions(*names):
    """Every one of the given field / callee / variable names occurs in the term."""
    def f(t):
        left = set(names)
        for x in subterms(t):
            if not x:
                continue
            if x[0] == "f":
                left.discard(x[2])
            elif x[0] == "call":
                left.discard(x[1].split("::")[-1])
            elif x[0] == "v":
                left.discard(x[1])
            elif x[0] == "enum":
                left.discard(x[1].split("::")[-1])
            elif x[0] == "g":
                left.discard(x[1].split("::")[-1])
            elif x[0] == "elem" and len(x) == 3:
                left.discard(x[2])
            elif x[0] == "c" and isinstance(x[1], str):
                left.discard(x[1])
            if not left:
                return True
        return not left
    return f


def is_found(container):
    """Membership test in the container held by the named field."""
    return lambda t: t[0] in ("found", "inserted", "found_if") and fieldname(t[1]) == container
