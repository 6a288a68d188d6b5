"""Path-sensitive interprocedural dataflow over the resolved syntax produced by factgen.

The analysis is a property simulation: the abstract state is (rule typestate, set of branch facts, aliases of
local variables).  States that agree on the typestate and on the tracked facts are merged, loops are iterated to
a fixpoint of that finite state space, calls to repository functions and lambdas are expanded at the call site
(bounded depth; recursion is opaque).  No value is computed beyond constants and aliasing, nothing is executed
and no constraint solver is involved: a branch condition is only compared syntactically (after normalisation)
with the facts already known on the path.
"""
from facts import AnalysisBroken, strip_targs, _walk

# ---------------------------------------------------------------- terms
THIS = ("this",)
TRUE = ("c", True)
FALSE = ("c", False)
NULL = ("c", None)
UNKNOWN = ("?",)

IDENTITY_CALLS = {"std::move", "std::forward", "std::as_const", "std::ref", "std::cref", "std::addressof",
                  "std::static_pointer_cast", "std::dynamic_pointer_cast", "std::make_optional",
                  "std::const_pointer_cast", "std::make_move_iterator"}
DEREF_METHODS = {"get"}  # only on smart pointers / optionals
READ_METHODS = {"find", "begin", "end", "cbegin", "cend", "rbegin", "rend", "crbegin", "crend", "front", "back",
                "at", "lock", "operator[]", "operator*", "operator->", "get", "second", "first", "data",
                "equal_range", "lower_bound", "upper_bound", "c_str", "value", "root", "size", "empty", "str"}
END_METHODS = {"end", "cend", "rend", "crend"}
BEGIN_METHODS = {"begin", "cbegin", "rbegin", "crbegin"}
STRINGY = ("std::basic_string", "std::basic_string_view")
INT_TYPES = {"int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "char", "signed char",
             "unsigned char", "bool", "double", "float", "unsigned long long", "long long"}


FRESH = {}  # type of locals that were made without arguments
LREFS = set()  # references that may be assigned through
REFS = set()   # declarations of reference type (they alias, they do not copy)


def is_sub(needle, hay):
    if needle == hay:
        return True
    if isinstance(hay, tuple):
        for x in hay:
            if isinstance(x, tuple) and is_sub(needle, x):
                return True
    return False


def has_elem(rng, hay, typed=True):
    """an element of the range occurs in the term (typed: also one known to be of a certain kind)"""
    if isinstance(hay, tuple):
        if len(hay) >= 2 and hay[0] in ("elem", "iter") and hay[1] == rng and (typed or len(hay) == 2):
            return True
        if len(hay) == 5 and hay[0] == "call" and isinstance(hay[3], tuple) and hay[3][:1] == ("new",):
            return True     # a method of a temporary: made anew in each iteration
        for x in hay:
            if isinstance(x, tuple) and has_elem(rng, x, typed):
                return True
    return False


def subterms(t):
    if isinstance(t, tuple) and t:
        if isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def short(t, depth=0):
    """Human-readable rendering of a term."""
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == "c":
        return repr(t[1])
    if k == "this":
        return "this"
    if k == "v":
        return t[1]
    if k == "enum":
        return t[1].split("::")[-1]
    if k == "f":
        b = short(t[1])
        return t[2] if b == "this" else b + "." + t[2]
    if k == "call":
        n = t[1].split("::")[-1]
        ta = "<%s>" % ",".join(x.split("::")[-1] for x in t[2] if "<" not in x) if t[2] and "<" not in t[2][0] else ""
        o = short(t[3]) + "." if t[3] else ""
        return "%s%s%s(%s)" % (o, n, ta, ", ".join(short(a) for a in t[4]))
    if k == "elem":
        return "each(%s%s)" % (short(t[1]), ":" + t[2] if len(t) > 2 else "")
    if k == "not":
        return "!" + short(t[1])
    if k in ("eq", "lt", "le"):
        return "(%s %s %s)" % (short(t[1]), {"eq": "==", "lt": "<", "le": "<="}[k], short(t[2]))
    if k == "bin":
        return "(%s %s %s)" % (short(t[2]), t[1], short(t[3]))
    if k == "new":
        return "%s{%s}" % (strip_targs(t[1]).split("::")[-1], ", ".join(short(a) for a in t[2]))
    if k == "lam":
        return "<lambda>"
    if k in ("found", "inserted", "empty"):
        return "%s(%s)" % (k, ", ".join(short(a) for a in t[1:]))
    return "%s(%s)" % (k, ", ".join(short(a) for a in t[1:]))


def term_size(t, cap=400):
    n = 0
    stack = [t]
    while stack:
        x = stack.pop()
        n += 1
        if n > cap:
            return n
        if isinstance(x, tuple):
            stack.extend(x)
    return n


def mk_phi(n, *vals):
    alts = set()
    for v in vals:
        if isinstance(v, tuple) and v and v[0] == "phi":
            alts.update(v[2:])
            if len(v) == 2:
                return ("phi", n)
        else:
            alts.add(v)
    if len(alts) > 4 or sum(term_size(a, 80) for a in alts) > 160 or any(is_sub(("phi", n), a) for a in alts if isinstance(a, tuple)):
        return ("phi", n)
    return ("phi", n) + tuple(sorted(alts, key=repr))


def phi_alts(t):
    """The alternatives of a merged value (the value itself if it is not one)."""
    if isinstance(t, tuple) and t and t[0] == "phi":
        return t[2:]
    return (t,)


def subst(t, a, b):
    if t == a:
        return b
    if not isinstance(t, tuple):
        return t
    ch = False
    r = []
    for x in t:
        y = subst(x, a, b) if isinstance(x, tuple) else x
        ch = ch or (y is not x)
        r.append(y)
    return tuple(r) if ch else t


class State:
    __slots__ = ("env", "facts", "ts")

    def __init__(self, env, facts, ts):
        self.env, self.facts, self.ts = env, facts, ts

    def set(self, k, v):
        e = dict(self.env)
        e[k] = v
        return State(e, self.facts, self.ts)

    def fact(self, atom, val):
        f = dict(self.facts)
        f[atom] = val
        return State(self.env, f, self.ts)

    def with_ts(self, ts):
        return State(self.env, self.facts, ts)

    def kill(self, term):
        """Forget facts and heap bindings that mention `term` (it was mutated)."""
        root = term
        while isinstance(root, tuple) and len(root) > 1 and root[0] in ("f", "idx", "elem", "found") and isinstance(root[1], tuple):
            root = root[1]
        f = {a: v for a, v in self.facts.items() if not is_sub(term, a) and a != ("fresh", root)}
        e = self.env
        if isinstance(term, tuple) and term[0] == "f":
            cp = [k for k, v in e.items() if v == term and not isinstance(k, tuple) and k not in REFS and k != "this"]
            if cp:
                e = dict(e)
                for k in cp:
                    e[k] = ("old", term)
        dead = [k for k in e if isinstance(k, tuple) and k[0] == "h" and is_sub(term, k[1])]
        if dead:
            e = {k: v for k, v in e.items() if k not in dead}
        if len(f) == len(self.facts) and e is self.env:
            return self
        return State(e, f, self.ts)


def pristine(st, v):
    """a local nothing was done to since it was made without arguments is just that"""
    if isinstance(v, tuple) and v and v[0] == "v" and v[2] in FRESH and st.facts.get(("fresh", v)):
        return ("new", FRESH[v[2]], ())
    return v


class Call:
    """A call site as seen by a rule."""
    __slots__ = ("node", "nq", "name", "ta", "obj", "args", "fid", "fn", "cls", "kind", "raw", "const", "pm", "virt")

    def __init__(self, **kw):
        for s in self.__slots__:
            setattr(self, s, kw.get(s))

    @property
    def line(self):
        return self.node.get("l", 0)

    def term(self):
        return ("call", self.nq or "?", tuple(self.ta or ()), self.obj, tuple(self.args))

    def __str__(self):
        return short(self.term())


class Rule:
    """Base class of all rules.  Override hooks."""
    max_depth = 14
    # primitives whose meaning the rules know by name: never expanded
    opaque = ("graphql::peg::ast_node::", "graphql::internal::sorted_map::", "graphql::internal::sorted_set::",
              "graphql::response::Value::", "graphql::internal::Base64::", "graphql::schema::")
    transparent = ()
    variants = False            # whether the alternative a variant is made of is part of its term
    identity = ("graphql::service::getValidateType", "graphql::service::getSharedType")

    def init(self):
        return ()

    def on_call(self, ctx, st, call):
        """None: default treatment.  ('opaque', st[, term]): do not expand.  list of (st, term): result."""
        return None

    def on_write(self, ctx, st, lhs, rhs, op, node):
        return st

    def on_branch(self, ctx, st, atom, val):
        return st

    def on_new(self, ctx, st, ctype, args, node):
        return st

    def on_iter(self, ctx, st, when, rng, node):
        return st

    def on_loop(self, ctx, st, rng, node):
        return st

    def nonempty(self, ctx, rng):
        """the range of a loop is known to have elements"""
        return False

    def on_throw(self, ctx, st, etype, term, node):
        return st

    def on_enter(self, ctx, st, fn):
        return st

    def on_leave(self, ctx, st, fn, how):
        return st

    def on_catch(self, ctx, st, etype, node):
        return st

    def may_throw(self, ctx, st, call):
        """Exception type names an opaque call may raise."""
        return ()

    def tracks(self, atom, st):
        return self.track(atom)

    def track(self, atom):
        """Keep states apart that differ in this fact."""
        return False

    def expand(self, ctx, call, fn):
        return True

    def on_async(self, ctx, st, how, value, node):
        """a function handed to std::async ended ('ret' or 'throw')"""

    def deferred(self, ctx, call, idx, lam):
        """How a lambda handed to an unknown callee runs: 'inline' (0 or 1 times), 'async' or None (ignored)."""
        return "inline"


ALGO_LOOP = {"for_each"}
ALGO_PRED = {"find_if", "find_if_not", "any_of", "all_of", "none_of", "count_if", "remove_if", "stable_partition",
             "partition", "copy_if", "generate", "generate_n", "transform", "accumulate", "sort", "stable_sort",
             "equal", "mismatch", "max_element", "min_element", "unique", "lower_bound", "upper_bound", "replace_if"}

BASES = {
    "graphql::service::schema_exception": ["std::exception"],
    "std::runtime_error": ["std::exception"], "std::logic_error": ["std::exception"],
    "std::invalid_argument": ["std::logic_error", "std::exception"],
    "std::out_of_range": ["std::logic_error", "std::exception"],
    "graphql::service::unimplemented_method": ["std::runtime_error", "std::exception"],
}


def clean_type(t):
    t = (t or "").replace("const ", "").replace(" &", "").replace(" *", "").replace("&", "").strip()
    return t


def catches(handler, etype):
    """True: caught, False: not, None: maybe."""
    if handler is None:
        return True
    h = clean_type(handler)
    e = clean_type(etype)
    if h == e:
        return True
    if h in BASES.get(e, []):
        return True
    if e == "?":
        return None
    if e == "std::exception":
        return None if h in BASES else False
    return False


class Engine:
    def __init__(self, tu, rule, limit=1500000):
        self.tu = tu
        self.rule = rule
        self.limit = limit
        self.steps = 0
        self.stack = []           # (fn-or-lambda record)
        self.callsites = []       # call-site nodes of the expanded calls
        self.exc = [[]]
        self.try_depth = 0
        self.async_depth = 0
        self.handlers = []        # enclosing catch clauses, innermost last (list of types)
        self.analysed = set()
        self.ncalls = 0
        self.loops = []
        self.cur = None

    # ------------------------------------------------------------ reporting helpers
    def where(self, node=None):
        fn = None
        for f in reversed(self.stack):
            if f.get("file"):
                fn = f
                break
        file = fn["file"] if fn else self.tu.src
        return "%s:%s" % (file, (node or {}).get("l") or (self.cur or {}).get("l") or (fn or {}).get("l", 0))

    def chain(self):
        return " > ".join(f.get("nq", "lambda").split("::")[-1] for f in self.stack if not f.get("lambda"))

    def tick(self):
        self.steps += 1
        if self.steps > self.limit:
            raise AnalysisBroken("state space limit reached in " + self.chain())

    # ------------------------------------------------------------ merging
    def key(self, st):
        fk = frozenset((a, v) for a, v in st.facts.items() if (a[0] == "eq" and is_end(a[2])) or self.rule.tracks(a, st))
        ck = frozenset((k, v) for k, v in st.env.items()
                       if isinstance(v, tuple) and v and v[0] in ("c", "enum") and not (v[0] == "c" and isinstance(v[1], (str, float)))) | \
            frozenset((k, v[0]) for k, v in st.env.items() if isinstance(v, tuple) and v and v[0] in ("some", "none"))
        return (st.ts, fk, ck)

    def merge(self, states):
        out = {}
        for st in states:
            k = self.key(st)
            if k not in out:
                out[k] = st
                continue
            o = out[k]
            if o is st:
                continue
            facts = {a: v for a, v in o.facts.items() if st.facts.get(a) == v}
            if o.env is st.env or o.env == st.env:
                env = o.env
            else:
                env = {}
                for n in set(o.env) | set(st.env):
                    a, b = o.env.get(n), st.env.get(n)
                    if a == b:
                        env[n] = a
                    elif isinstance(n, tuple) and n[0] == "h":
                        continue
                    elif a is None or b is None:
                        env[n] = a if b is None else b
                    else:
                        env[n] = mk_phi(n, a, b) if not (isinstance(a, tuple) and a[0] == "ref") else a
            out[k] = State(env, facts, st.ts)
        return list(out.values())

    def merge_out(self, outs):
        groups = {}
        for (kind, st, val) in outs:
            vk = val if kind in ("throw",) else None
            if kind == "ret" and isinstance(val, tuple) and val:
                vk = val if val[0] in ("c", "enum", "lam", "new", "call", "f", "v", "found", "some", "none") else None
            groups.setdefault((kind, vk), []).append((st, val))
        res = []
        for (kind, vk), l in groups.items():
            if len(l) == 1:
                res.append((kind, l[0][0], l[0][1]))
                continue
            vals = {v for _, v in l}
            v = l[0][1] if len(vals) == 1 else mk_phi(kind, *vals)
            for st in self.merge([s for s, _ in l]):
                res.append((kind, st, v))
        return res

    # ------------------------------------------------------------ entry points
    def run_function(self, fn, ts=None, bind=None, this=THIS, facts=None):
        """Analyse a function from its entry; returns outcomes [(kind, state, value)]."""
        # a lambda on its own may call those its function has given names
        env = dict(named_lambdas(self.tu)) if fn.get("nq") == "lambda" else {}
        if bind:
            env.update(bind)
        st = State(env, dict(facts or {}), self.rule.init() if ts is None else ts)
        for p in fn["p"]:
            if p["d"] not in env:
                st = st.set(p["d"], ("v", p["n"], p["d"]))
        return self.run_body(fn, st, this)

    def run_body(self, fn, st, this):
        self.stack.append(fn)
        self.analysed.add((fn.get("nq", "lambda"), fn.get("file", ""), fn.get("l", 0)))
        saved = st.env.get("this")
        st = st.set("this", this)
        st = self.rule.on_enter(self, st, fn)
        self.exc.append([])
        outs = []
        states = [st]
        for i in fn.get("inits", []):
            nxt = []
            for s in states:
                for s2, v in self.ev(i["e"], s):
                    if i.get("m"):
                        s2 = self.rule.on_write(self, s2, ("f", this, i["m"]), v, "init", i["e"] or {})
                    nxt.append(s2)
            states = self.merge(nxt)
        for s in states:
            outs.extend(self.ex(fn.get("body"), s))
        for (s, t, term) in self.exc.pop():
            outs.append(("throw", s, (t, term)))
        res = []
        for kind, s, v in outs:
            if kind == "next":
                kind, v = "ret", None
            s2 = self.rule.on_leave(self, s, fn, kind)
            if s2 is None:
                continue
            e = dict(s2.env)
            if saved is None:
                e.pop("this", None)
            else:
                e["this"] = saved
            res.append((kind, State(e, s2.facts, s2.ts), v))
        self.stack.pop()
        return self.merge_out(res)

    # ------------------------------------------------------------ statements
    def seq(self, stmts, states):
        outs = []
        cur = list(states)
        for s in stmts:
            if not cur:
                break
            nxt = []
            for st in cur:
                for (kind, st2, v) in self.ex(s, st):
                    if kind == "next":
                        nxt.append(st2)
                    else:
                        outs.append((kind, st2, v))
            cur = self.merge(nxt)
        return [("next", st, None) for st in cur] + self.merge_out(outs)

    def ex(self, s, st):
        if s is None:
            return [("next", st, None)]
        self.tick()
        self.cur = s
        k = s.get("s")
        if k == "block":
            outs = self.seq(s["b"], [st])
            f = getattr(self.rule, "on_scope", None)
            if f:
                outs = [(kind, y, v) for kind, x, v in outs for y in (f(self, x, own_decls(s), kind, v),) if y is not None]
            return self.leave(outs, own_decls(s))
        if k == "decl":
            states = [st]
            for v in s["v"]:
                nxt = []
                for x in states:
                    nxt.extend(self.decl(v, x))
                states = nxt
            return [("next", x, None) for x in self.merge(states)]
        if k == "expr":
            return [("next", x, None) for x in self.merge([x for x, _ in self.ev(s["e"], st)])]
        if k == "ret":
            if "e" not in s:
                return [("ret", st, None)]
            return self.merge_out([("ret", x, self.settle(x, pristine(x, v))) for x, v in self.ev(s["e"], st)])
        if k == "if":
            return self.ex_if(s, st)
        if k in ("for", "while", "do", "rfor"):
            return self.ex_loop(s, st)
        if k == "switch":
            return self.ex_switch(s, st)
        if k == "break":
            return [("break", st, None)]
        if k == "cont":
            return [("continue", st, None)]
        if k == "try":
            return self.ex_try(s, st)
        if k in ("case", "default"):
            return self.ex(s["b"], st)
        return [("next", st, None)]

    def decl(self, v, st):
        if "i" not in v or v["i"] is None:
            t = v["t"]
            if t.rstrip().endswith("*"):
                return [st.set(v["d"], ("v", v["n"], v["d"]))]
            if clean_type(t) == OPT_BOOL:
                return [st.set(v["d"], NONE)]
            return [self.rule.on_new(self, st.set(v["d"], ("new", clean_type(t), ())), clean_type(t), (), v)]
        out = []
        if v["t"].endswith(("&", "*")):
            REFS.add(v["d"])
            for b in v.get("bind") or ():
                REFS.add(b["d"])
        isref = v["t"].endswith("&") and not v["t"].endswith("&&") and not v["t"].startswith("const ")
        if isref and not v.get("bind"):
            LREFS.add(v["d"])
        src = v["i"]
        if isref and src and src.get("k") == "ref" and src.get("dk") in ("local", "param"):
            return [st.set(v["d"], ("ref", src["d"]))]
        for st2, val in self.ev(v["i"], st):
            if v.get("bind"):
                for i, b in enumerate(v["bind"]):
                    st2 = st2.set(b["d"], bound(val, b, i))
                st2 = st2.set(v["d"], val)
            else:
                if val is not None and val[0] == "new" and not val[2] and not v.get("static"):
                    # a fresh object: give it an identity of its own
                    if not is_fundamental(val[1]):
                        FRESH[v["d"]] = val[1]
                        val = ("v", v["n"], v["d"])
                        st2 = st2.kill(val).fact(("fresh", val), True)
                if val is None:
                    val = ("v", v["n"], v["d"])
                st2 = st2.set(v["d"], val)
                st2 = self.rule_decl(st2, v, val)
            out.append(st2)
        return out

    def rule_decl(self, st, v, val):
        f = getattr(self.rule, "on_decl", None)
        return f(self, st, v, val) if f else st

    def settle(self, st, v):
        """A boolean result whose truth is already decided on this path."""
        if isinstance(v, tuple) and v and v[0] in ("eq", "lt", "not", "found", "inserted", "empty", "is_type", "is_alt", "call"):
            t, neg_ = v, False
            while t[0] == "not":
                t, neg_ = t[1], not neg_
            k = st.facts.get(t)
            if k is not None and (t[0] != "call" or v[0] == "not"):
                return ("c", k != neg_)
        return v

    def leave(self, outs, gone):
        """locals that go out of scope no longer tell paths apart"""
        gone = gone - self.captured()
        if not gone:
            return outs
        res, n = [], 0
        for kind, st, v in outs:
            dead = [d for d in gone if isinstance(st.env.get(d), tuple) and st.env[d] and st.env[d][0] in ("c", "enum", "some", "none")]
            if dead and kind in ("next", "break", "continue"):
                st = State({k: x for k, x in st.env.items() if k not in dead}, st.facts, st.ts)
                n += 1
            res.append((kind, st, v))
        if not n:
            return outs
        nxt = [st for kind, st, v in res if kind == "next"]
        return [("next", st, None) for st in self.merge(nxt)] + self.merge_out([o for o in res if o[0] != "next"])

    def captured(self):
        r = getattr(self.tu, "_captured", None)
        if r is None:
            r = self.tu._captured = set()
            for f in list(self.tu.functions) + list(self.tu.lambdas.values()):
                captures(f.get("body"), r)
        return r

    def ex_if(self, s, st):
        if s.get("init") or s.get("cv"):
            gone = own_decls({"b": [s["init"]] if s.get("init") else []}) | ({s["cv"]["d"]} if s.get("cv") else set())
            return self.leave(self.ex_if2(s, st), gone)
        return self.ex_if2(s, st)

    def ex_if2(self, s, st):
        states = [st]
        outs = []
        if s.get("init"):
            nxt = []
            for kind, x, v in self.ex(s["init"], st):
                if kind == "next":
                    nxt.append(x)
                else:
                    outs.append((kind, x, v))
            states = nxt
        if s.get("cv"):
            states = [y for x in states for y in self.decl(s["cv"], x)]
        if s.get("cexpr") and "cval" in s:
            br = s["t"] if s["cval"] else s.get("e")
            for x in states:
                outs.extend(self.ex(br, x))
            return self.merge_out(outs)
        tstates, fstates = [], []
        for x in states:
            for y, b in self.cond(s["c"], x):
                (tstates if b else fstates).append(y)
        for x in self.merge(tstates):
            outs.extend(self.ex(s["t"], x))
        for x in self.merge(fstates):
            outs.extend(self.ex(s.get("e"), x))
        return self.merge_out(outs)

    def loop_fix(self, heads, body, node, rng=None, once=False):
        """heads: entry states; body(state) -> (exits, outs).  Iterates to a fixpoint over merge keys."""
        seen = {}
        work = list(heads)
        exits, outs = [], []
        rounds = 0
        skip = rng is not None and self.rule.nonempty(self, rng)
        while work:
            rounds += 1
            nxt = []
            for st in self.merge(work):
                k = self.key(st)
                if k in seen:
                    o = seen[k]
                    facts = {a: v for a, v in o.facts.items() if st.facts.get(a) == v}
                    if len(facts) == len(o.facts) and rounds > 1:
                        continue
                    st = State(self.merge([State(o.env, facts, o.ts), State(st.env, facts, st.ts)])[0].env, facts, st.ts)
                seen[k] = st
                ex, ou, back = body(st)
                if rounds == 1 and skip:
                    ex = [x for x in ex if x is not st]
                exits.extend(ex)
                outs.extend(ou)
                nxt.extend(back)
            work = nxt if rounds < 5 else []
        return self.merge(exits), self.merge_out(outs)

    def ex_loop(self, s, st):
        k = s["s"]
        outs0 = []
        if k == "rfor":
            states = [st]
            if s.get("init"):
                states = [x for kind, x, v in self.ex(s["init"], st) if kind == "next"]
            heads = []
            for x in states:
                for y, rng in self.ev(s["r"], x):
                    y = self.rule.on_loop(self, y, rng, s)
                    if y is not None:
                        heads.append((y, rng))
            allout = []
            for y, rng in heads:
                elem = ("elem", rng)
                lv = s.get("v", {})
                el = const_elems(rng)
                if el and not lv.get("bind"):
                    cur, ex, outs = [y], [], []
                    for e in el:
                        nxt = []
                        for h in self.merge(cur):
                            if "d" in lv:
                                h = h.set(lv["d"], e)
                            for kind, x, v in self.ex(s["b"], h):
                                if kind in ("next", "continue"):
                                    nxt.append(x)
                                elif kind == "break":
                                    ex.append(x)
                                else:
                                    outs.append((kind, x, v))
                        cur = nxt
                    allout.extend([("next", e, None) for e in self.merge(cur + ex)])
                    allout.extend(outs)
                    continue

                def body(h, rng=rng, elem=elem):
                    ex = [h]
                    b = State(h.env, {a: v for a, v in h.facts.items() if not has_elem(elem[1], a, False)}, h.ts)
                    if lv.get("bind"):
                        for i, bd in enumerate(lv["bind"]):
                            b = b.set(bd["d"], bound(elem, bd, i))
                    if "d" in lv:
                        b = b.set(lv["d"], elem)
                    b = self.rule.on_iter(self, b, "begin", rng, s)
                    return self.split_body(s["b"], b, rng, s, ex)
                exits, outs = self.loop_fix([y], body, s, rng)
                allout.extend([("next", e, None) for e in exits])
                allout.extend(outs)
            return self.merge_out(allout)
        states = [st]
        if k == "for" and s.get("i"):
            states = [x for kind, x, v in self.ex(s["i"], st) if kind == "next"]
        rng = ("loop", s.get("l", 0))
        ivars = {}
        if k == "for" and s.get("i") and s["i"].get("s") == "decl":
            ivars = {v["d"]: v["n"] for v in s["i"]["v"]}
        c = s.get("c")
        cvars = set()
        sizeof = None
        bounds = {}
        stack = [c] if k != "do" else []
        while stack:
            n = stack.pop()
            if not isinstance(n, dict):
                continue
            if n.get("k") in ("bin", "op") and n.get("op") in ("&&", "||"):
                stack.extend([n.get("a"), n.get("b")] if n["k"] == "bin" else n["a"])
            elif n.get("k") in ("bin", "op") and n.get("op") in ("!=", "<"):
                l, r = (n["a"], n["b"]) if n["k"] == "bin" else n["a"][:2]
                while isinstance(l, dict) and l.get("k") in ("cast", "other", "ctor") and (l.get("e") or l.get("a")):
                    l = l.get("e") or (l["a"][0] if len(l["a"]) == 1 else None)
                if isinstance(l, dict) and l.get("k") == "ref" and l.get("dk") == "local":
                    cvars.add(l["d"])
                    while isinstance(r, dict) and r.get("k") in ("cast",):
                        r = r.get("e")
                    if isinstance(r, dict) and r.get("k") == "mcall" and strip_targs(r.get("f", "")).split("::")[-1] in ("size", "length"):
                        sizeof = (l["d"], r["o"])
                    bounds[l["d"]] = r
        ns = []
        inc = s.get("n") if k == "for" else None
        for x in states:
            for d in set(ivars) | cvars:
                t = x.env.get(d)
                if isinstance(t, tuple) and t[0] == "call" and t[1].split("::")[-1] in BEGIN_METHODS:
                    rng = t[3] if t[3] else (t[4][0] if t[4] else UNKNOWN)
                    end = self.ev(bounds[d], x)[0][1] if isinstance(bounds.get(d), dict) else None
                    if end is not None and end[0] == "call" and not (is_end(end) and end[3] == rng) and not (end[1] in ("std::end", "std::cend") and end[4] and end[4][0] == rng):
                        s["_part"] = "its end"
                    elif t[1].split("::")[-1] in ("rbegin", "crbegin"):
                        s["_part"] = "backwards"
                    elif inc is not None and steps(inc, d) is False:
                        s["_part"] = "steps"
                    x = x.set(d, ("elem", rng))
                elif isinstance(t, tuple) and t[0] == "c" and sizeof and sizeof[0] == d:
                    rng = self.ev(sizeof[1], x)[0][1]
                    if t[1] != 0:
                        s["_part"] = "its start"
                    elif inc is not None and steps(inc, d) is False:
                        s["_part"] = "steps"
                    x = x.set(d, ("iter", rng))
                elif isinstance(t, tuple) and t[0] == "c" and d in ivars:
                    x = x.set(d, ("v", ivars[d], d))
            x = self.rule.on_loop(self, x, rng, s)
            if x is not None:
                ns.append(x)
        states = ns
        elem = ("elem", rng)

        assigned = loop_assigned(s)

        def havoc(h):
            e = dict(h.env)
            ch = False
            for d in assigned:
                if d in e and isinstance(e[d], tuple) and e[d][0] == "c" and not isinstance(e[d][1], bool) \
                        and e[d][1] is not None:
                    e[d] = ("v", "loopvar", d)
                    ch = True
            return State(e, h.facts, h.ts) if ch else h

        def body(h):
            h = havoc(h)
            ex = []
            ins = []
            if k == "do":
                ins = [h]
            else:
                hs = [h]
                if s.get("cv"):
                    hs = self.decl(s["cv"], h)
                for hh in hs:
                    if s.get("c") is None:
                        ins.append(hh)
                        continue
                    # element-dependent facts are per iteration
                    for y, b in self.cond(s["c"], hh, loop=True):
                        (ins if b else ex).append(y)
            outs, back = [], []
            for b in self.merge(ins):
                if rng[0] != "loop":
                    b = State(b.env, {a: v for a, v in b.facts.items() if not has_elem(elem[1], a, False)}, b.ts)
                b = self.rule.on_iter(self, b, "begin", rng, s)
                e2, o2, b2 = self.split_body(s["b"], b, rng, s, [])
                ex.extend(e2)
                outs.extend(o2)
                for y in b2:
                    if k == "for" and s.get("n"):
                        back.extend(z for z, _ in self.ev(s["n"], y))
                    elif k == "do":
                        for z, bb in self.cond(s["c"], y, loop=True):
                            (back if bb else ex).append(z)
                    else:
                        back.append(y)
            return ex, outs, back
        exits, outs = self.loop_fix(states, body, s)
        return self.merge_out([("next", e, None) for e in exits] + outs + outs0)

    def split_body(self, bodystmt, b, rng, node, ex):
        outs, back = [], []
        ex = list(ex)
        for kind, x, v in self.ex(bodystmt, b):
            if kind in ("next", "continue"):
                x = self.rule.on_iter(self, x, "end", rng, node)
                if x is not None:
                    own = loop_declared(bodystmt)
                    facts = {a: v for a, v in x.facts.items() if not (rng[0] != "loop" and a not in b.facts and has_elem(rng, a))
                             and not (own and any(y[0] == "v" and len(y) == 3 and y[2] in own for y in subterms(a)))}
                    if len(facts) != len(x.facts):
                        x = State(x.env, facts, x.ts)
                if x is not None:
                    back.append(x)
            elif kind == "break":
                x = self.rule.on_iter(self, x, "break", rng, node)
                if x is not None:
                    ex.append(x)
            else:
                x = self.rule.on_iter(self, x, kind, rng, node)
                if x is not None:
                    outs.append((kind, x, v))
        return ex, outs, back

    def ex_switch(self, s, st):
        states = [st]
        if s.get("init"):
            states = [x for kind, x, v in self.ex(s["init"], st) if kind == "next"]
        if s.get("cv"):
            states = [y for x in states for y in self.decl(s["cv"], x)]
        body = s["b"]["b"] if s["b"] and s["b"].get("s") == "block" else [s["b"]]
        # flatten nested case labels
        flat = []
        for x in body:
            labels = []
            while x and x.get("s") in ("case", "default"):
                labels.append(x)
                x = x["b"]
            flat.append((labels, x))
        outs = []
        for x in states:
            for y, t in self.ev(s["c"], x):
                hasdef = False
                caseval = []
                for i, (labels, _) in enumerate(flat):
                    for lab in labels:
                        if lab["s"] == "default":
                            hasdef = True
                        else:
                            cv = self.ev(lab["v"], y)[0][1]
                            caseval.append((cv, i))
                entries = []
                known = t if isinstance(t, tuple) and t[0] in ("c", "enum") else None
                for cv, i in caseval:
                    if known is not None and cv[0] == known[0] and cv[1] != known[1]:
                        continue
                    atom = ("eq",) + tuple(sorted((t, cv), key=repr))
                    atom = norm_eq(t, cv)
                    z = self.assume(y, atom, True)
                    if z is not None:
                        entries.append((z, i))
                # default / fallthrough of the whole switch
                z = y
                if known is not None and any(cv == known for cv, _ in caseval):
                    z = None
                for cv, i in caseval:
                    if z is None:
                        break
                    z = self.assume(z, norm_eq(t, cv), False)
                if z is not None:
                    di = [i for i, (labels, _) in enumerate(flat) if any(l["s"] == "default" for l in labels)]
                    if di:
                        entries.append((z, di[0]))
                    else:
                        outs.append(("next", z, None))
                for z, i in entries:
                    cur = [z]
                    for (_, stm) in flat[i:]:
                        nxt = []
                        for c in cur:
                            for kind, c2, v in self.ex(stm, c):
                                if kind == "next":
                                    nxt.append(c2)
                                elif kind == "break":
                                    outs.append(("next", c2, None))
                                else:
                                    outs.append((kind, c2, v))
                        cur = self.merge(nxt)
                        if not cur:
                            break
                    outs.extend(("next", c, None) for c in cur)
        return self.merge_out(outs)

    def ex_try(self, s, st):
        self.exc.append([])
        self.try_depth += 1
        self.handlers.append([h.get("t") for h in s["h"]])
        outs0 = self.ex(s["b"], st)
        self.handlers.pop()
        self.try_depth -= 1
        thrown = self.exc.pop()
        outs = []
        for kind, x, v in outs0:
            if kind == "throw":
                thrown.append((x, v[0], v[1]))
            else:
                outs.append((kind, x, v))
        # merge identical throws
        groups = {}
        for x, t, term in thrown:
            groups.setdefault((t, term), []).append(x)
        for (t, term), xs in groups.items():
            for x in self.merge(xs):
                live = True
                for h in s["h"]:
                    c = catches(h.get("t"), t)
                    if c is False:
                        continue
                    y = x
                    if "d" in h:
                        y = y.set(h["d"], ("exc", h.get("t"), term))
                    y = self.rule.on_catch(self, y, h.get("t"), h)
                    prev = getattr(self, "cur_exc", None)
                    self.cur_exc = (t, term)
                    outs.extend(self.ex(h["b"], y))
                    self.cur_exc = prev
                    if c is True:
                        live = False
                        break
                if live:
                    self.exc[-1].append((x, t, term))
        return self.merge_out(outs)

    # ------------------------------------------------------------ conditions
    def assume(self, st, atom, val):
        if isinstance(atom, tuple) and atom[0] == "not":
            return self.assume(st, atom[1], not val)
        if isinstance(atom, tuple) and atom[0] == "c":
            return st if bool(atom[1]) == val else None
        if isinstance(atom, tuple) and atom[0] == "elem" and len(atom) == 3 and isinstance(atom[2], str):
            return st if val else None
        if isinstance(atom, tuple) and atom[0] == "new" and not atom[2] and "ptr" in atom[1]:
            return st if not val else None
        if isinstance(atom, tuple) and atom[0] == "eq":
            a, b = atom[1], atom[2]
            if a[0] in ("c", "enum") and b[0] in ("c", "enum"):
                return st if (a == b) == val else None
            # equality with another constant refutes this one
            if b[0] in ("c", "enum") and val:
                for f, v in st.facts.items():
                    if v and f[0] == "eq" and f[1] == a and f[2][0] == b[0] and f[2] != b:
                        return None
            if b[0] in ("c", "enum") and not val is None:
                for f, v in st.facts.items():
                    if v and f[0] == "eq" and f[1] == a and f[2][0] == b[0] and f[2] != b and not val:
                        return st
        if isinstance(atom, tuple) and atom[0] == "is_type" and isinstance(atom[1], tuple) \
                and atom[1][0] == "elem" and len(atom[1]) == 3:
            if atom[1][2] == atom[2]:
                return st if val else None
            return None if val else st
        known = st.facts.get(atom)
        if known is not None:
            return st if known == val else None
        if atom[0] == "is_type" and val:
            for f, v in st.facts.items():
                if v and f[0] == "is_type" and f[1] == atom[1] and f[2] != atom[2]:
                    return None
        if atom[0] == "eq" and not val and all(x[0] in ("c", "enum") for x in atom[1:]):
            return st
        if atom[0] == "is_type" and val and atom[1][0] == "elem" and len(atom[1]) == 2:
            old = atom[1]
            new = ("elem", old[1], atom[2])
            st2 = self.rule.on_branch(self, st, ("is_type", new, atom[2]), True)
            if st2 is None:
                return None
            facts = {}
            for f, v in st2.facts.items():
                if is_sub(new, f):
                    continue
                facts[subst(f, old, new)] = v
            env = {}
            for k, v in st2.env.items():
                env[k] = subst(v, old, new) if isinstance(v, tuple) else v
            return State(env, facts, st2.ts)
        st2 = self.rule.on_branch(self, st, atom, val)
        if st2 is None:
            return None
        return st2.fact(atom, val)

    def cond(self, e, st, loop=False):
        """Evaluate a condition: [(state, bool)]."""
        if e is None:
            return [(st, True)]
        k = e.get("k")
        if k == "tobool":
            return self.cond(e["e"], st, loop)
        if k == "un" and e["op"] == "!":
            return [(x, not b) for x, b in self.cond(e["e"], st, loop)]
        if k == "bin" and e["op"] == "&&":
            out = []
            for x, b in self.cond(e["a"], st, loop):
                out.extend(self.cond(e["b"], x, loop) if b else [(x, False)])
            return self.merge_bool(out)
        if k == "bin" and e["op"] == "||":
            out = []
            for x, b in self.cond(e["a"], st, loop):
                out.extend([(x, True)] if b else self.cond(e["b"], x, loop))
            return self.merge_bool(out)
        if k == "cond":
            out = []
            for x, b in self.cond(e["c"], st, loop):
                out.extend(self.cond(e["a"] if b else e["b"], x, loop))
            return self.merge_bool(out)
        if k == "cast" and e.get("t") == "bool":
            return self.cond(e["e"], st, loop)
        if k == "other" and len(e.get("a", [])) == 1:
            return self.cond(e["a"][0], st, loop)
        out = []
        for x, t in self.ev(e, st):
            out.extend(self.split(x, t, loop))
        return self.merge_bool(out)

    def merge_bool(self, l):
        r = []
        for b in (True, False):
            r.extend((s, b) for s in self.merge([x for x, y in l if y == b]))
        return r

    def split(self, x, t, loop=False):
        t = norm_bool(t)
        neg = False
        while isinstance(t, tuple) and t[0] == "not":
            t, neg = t[1], not neg
        if isinstance(t, tuple) and t[0] == "c":
            return [(x, bool(t[1]) != neg)]
        if isinstance(t, tuple) and t[0] == "and":
            out = []
            for y, b in self.split(x, t[1]):
                out.extend(self.split(y, t[2]) if b else [(y, False)])
            return [(y, b != neg) for y, b in out]
        if isinstance(t, tuple) and t[0] == "or":
            out = []
            for y, b in self.split(x, t[1]):
                out.extend([(y, True)] if b else self.split(y, t[2]))
            return [(y, b != neg) for y, b in out]
        if loop and isinstance(t, tuple):
            # loop conditions are re-evaluated: forget the previous verdict
            if t in x.facts:
                x = State(x.env, {a: v for a, v in x.facts.items() if a != t}, x.ts)
            if t[0] == "eq" and any(u[0] == "elem" for u in t[1:]):
                return [(x.fact(t, True), not neg), (x.fact(t, False), neg)]
        out = []
        for b in (True, False):
            y = self.assume(x, t, b)
            if y is not None:
                out.append((y, b != neg))
        return out

    # ------------------------------------------------------------ expressions
    def ev_list(self, es, st):
        res = [(st, [])]
        for e in es:
            nxt = []
            for x, vals in res:
                for y, v in self.ev(e, x):
                    nxt.append((y, vals + [v]))
            res = nxt
        return res

    def lookup(self, st, d, name):
        v = st.env.get(d)
        n = 0
        while isinstance(v, tuple) and v and v[0] == "ref" and n < 10:
            v = st.env.get(v[1])
            n += 1
        return v

    def ev(self, e, st):
        """[(state, term)]; exceptions are queued on self.exc."""
        if e is None:
            return [(st, None)]
        self.tick()
        k = e["k"]
        if k == "str":
            return [(st, ("c", e["v"]))]
        if k in ("int", "chr", "flt"):
            return [(st, ("c", e["v"]))]
        if k == "bool":
            return [(st, ("c", bool(e["v"])))]
        if k == "null":
            return [(st, NULL)]
        if k == "sizeof":
            return [(st, ("c", e.get("v", 0)))]
        if k == "this":
            return [(st, st.env.get("this", THIS))]
        if k == "ref":
            v = self.ev_ref(e, st)
            return [(st, self.read(st, v) if e.get("d") in LREFS and v is not None else v)]
        if k == "mem":
            return self.ev_mem(e, st)
        if k == "defarg":
            return self.ev(e["e"], st)
        if k == "tobool":
            return [(x, norm_bool(v)) for x, v in self.ev(e["e"], st)]
        if k == "cast":
            return self.ev_cast(e, st)
        if k == "un":
            return self.ev_un(e, st)
        if k == "bin":
            return self.ev_bin(e, st)
        if k == "assign":
            return self.ev_assign(e["a"], e["b"], e["op"], st, e)
        if k == "cond":
            out = []
            for x, b in self.cond(e["c"], st):
                out.extend(self.ev(e["a"] if b else e["b"], x))
            return out
        if k == "lambda":
            st2 = st
            caps = []
            for c in e.get("caps", []):
                if c.get("init"):
                    r = self.ev(c["e"], st2)
                    st2, v = r[0]
                    if v is not None and v[0] == "new" and not v[2]:
                        v = ("v", c["n"], c["d"])
                    st2 = st2.set(c["d"], v)
            self.rule_lambda(st2, e)
            return [(st2, ("lam", e["fid"]))]
        if k == "throw":
            return self.ev_throw(e, st)
        if k == "idx":
            return [(x, mk_idx(v[0], v[1])) for x, v in self.ev_list([e["a"], e["b"]], st)]
        if k == "init":
            out = []
            for x, v in self.ev_list(e["a"], st):
                if len(v) == 1 and v[0] is not None and "initializer_list" not in e["t"] and not is_aggregate(e):
                    out.append((x, v[0]))
                else:
                    x = self.rule.on_new(self, x, clean_type(e["t"]), tuple(v), e)
                    out.append((x, ("new", clean_type(e["t"]), tuple(v))))
            return out
        if k == "ctor":
            return self.ev_ctor(e, st)
        if k == "new":
            if e.get("e"):
                return self.ev(e["e"], st)
            return [(st, ("new", e["t"], ()))]
        if k in ("call", "mcall", "op"):
            return self.ev_call(e, st)
        if k == "typeid":
            return [(st, ("typeid", e.get("t")))]
        if k == "other":
            res = self.ev_list(e.get("a", []), st)
            return [(x, v[0] if len(v) == 1 else ("other", e["cls"]) + tuple(v)) for x, v in res]
        return [(st, UNKNOWN)]

    def rule_lambda(self, st, e):
        f = getattr(self.rule, "on_lambda", None)
        if f:
            f(self, st, e)

    def ev_ref(self, e, st):
        if e["dk"] == "enum":
            return ("enum", e["q"])
        if e["dk"] == "func":
            return ("fn", strip_targs(e["f"]), e["fid"])
        v = self.lookup(st, e["d"], e["n"])
        if v is not None:
            return v
        if e["dk"] in ("global",):
            return ("g", e["q"])
        if e.get("static"):
            return ("sv", e["n"])
        return ("v", e["n"], e["d"])

    def ev_mem(self, e, st):
        out = []
        for x, b in self.ev(e["b"], st):
            t = mem_term(pointee(b), e["n"])
            out.append((x, self.read(x, t)))
        return out

    def read(self, st, t):
        v = st.env.get(("h", t))
        return v if v is not None else t

    def ev_cast(self, e, st):
        out = []
        for x, v in self.ev(e["e"], st):
            out.append((x, v))
        return out

    def ev_un(self, e, st):
        op = e["op"]
        if op == "!":
            out = []
            for x, v in self.ev(e["e"], st):
                out.append((x, neg(norm_bool(v))))
            return out
        if op == "*":
            return [(x, pointee(v)) for x, v in self.ev(e["e"], st)]
        if op == "&":
            return self.ev(e["e"], st)
        if op in ("++", "--"):
            out = []
            for x, v in self.ev(e["e"], st):
                x = self.rule.on_write(self, x, v, ("bin", op[0], v, ("c", 1)), op, e)
                tgt = e["e"]
                if isinstance(v, tuple) and v[0] in ("elem", "iter"):
                    out.append((x, v))
                    continue
                if tgt.get("k") == "ref" and tgt.get("dk") in ("local", "param"):
                    if isinstance(v, tuple) and v[0] == "c":
                        x = x.set(self.target(x, tgt["d"]), ("v", tgt["n"], tgt["d"]))
                    else:
                        x = x.kill(v)
                elif v is not None:
                    x = x.kill(v)
                out.append((x, v))
            return out
        return [(x, ("un", op, v)) for x, v in self.ev(e["e"], st)]

    def ev_bin(self, e, st):
        op = e["op"]
        if op in ("&&", "||"):
            # value context: keep as a symbolic conjunction/disjunction, but evaluate for effects
            out = []
            for x, b in self.cond(e, st):
                out.append((x, ("c", b)))
            return out
        if op == ",":
            out = []
            for x, _ in self.ev(e["a"], st):
                out.extend(self.ev(e["b"], x))
            return out
        out = []
        for x, (a, b) in self.ev_list([e["a"], e["b"]], st):
            out.append((x, norm_cmp(op, a, b)))
        return out

    def target(self, st, d):
        n = 0
        while isinstance(st.env.get(d), tuple) and st.env[d][0] == "ref" and n < 10:
            d = st.env[d][1]
            n += 1
        return d

    def ev_assign(self, lhs, rhs, op, st, node):
        out = []
        for x, rv in self.ev(rhs, st):
            out.extend(self.assign_to(lhs, rv, op, x, node))
        return out

    def assign_to(self, lhs, rv, op, x, node):
        out = []
        if lhs.get("k") == "ref" and lhs.get("dk") in ("local", "param", "binding") and not lhs.get("static"):
            d = self.target(x, lhs["d"])
            old = self.lookup(x, lhs["d"], lhs["n"])
            # a reference local bound to a field/element writes through
            cur = old
            isref = d in LREFS and isinstance(cur, tuple) and cur[0] in ("f", "elem", "idx", "call")
            x = self.rule.on_write(self, x, cur if isref else ("v", lhs["n"], d), rv, op, node)
            if x is None:
                return out
            if isref:
                x = x.kill(cur)
                if rv is not None and op == "=" and rv[0] in ("c", "enum", "lam"):
                    x = x.set(("h", cur), rv)
                out.append((x, rv))
                return out
            if op != "=":
                rv = ("bin", op[:-1], old, rv) if old is not None else UNKNOWN
            x = x.kill(("v", lhs["n"], d))
            if rv is not None and rv[0] == "new" and not rv[2] and not is_fundamental(rv[1]):
                pass
            out.append((x.set(d, rv), rv))
            return out
        if lhs.get("k") == "mem":
            base = lhs["b"]
            if lhs["n"] in ("first", "second") and op == "=" and base.get("k") == "ref" and base.get("dk") in ("local", "param") and not base.get("static"):
                # one component of a local pair
                d = self.target(x, base["d"])
                old = self.lookup(x, base["d"], base["n"])
                alts = phi_alts(old)
                if old is not None and alts and all(isinstance(a, tuple) and a[0] == "new" and "pair" in a[1] and len(a[2]) in (0, 2) for a in alts):
                    v = ("v", base["n"], d)
                    x = self.rule.on_write(self, x, ("f", v, lhs["n"]), rv, op, node)
                    if x is None:
                        return out
                    x = x.kill(v)
                    comp = [mk_phi(old[1], *[a[2][i] if a[2] else ("new", "", ()) for a in alts]) if old[0] == "phi" else alts[0][2][i] if alts[0][2] else ("new", "", ()) for i in (0, 1)]
                    comp[0 if lhs["n"] == "first" else 1] = rv
                    return [(x.set(d, ("new", alts[0][1], tuple(comp))), rv)]
            for y, b in self.ev(base, x):
                t = mem_term(pointee(b), lhs["n"])
                y = self.rule.on_write(self, y, t, rv, op, node)
                if y is None:
                    continue
                y = y.kill(t)
                if rv is not None and op == "=" and rv[0] in ("c", "enum", "lam"):
                    y = y.set(("h", t), rv)
                out.append((y, rv))
            return out
        for y, t in self.ev(lhs, x):
            y = self.rule.on_write(self, y, t, rv, op, node)
            if y is None:
                continue
            if t is not None:
                y = y.kill(t)
            out.append((y, rv))
        return out

    def ev_throw(self, e, st):
        if "e" not in e or e["e"] is None:
            cur = getattr(self, "cur_exc", None) or ("?", None)
            st = self.rule.on_throw(self, st, cur[0], cur[1], e)
            if st is not None:
                self.exc[-1].append((st, cur[0], cur[1]))
            return []
        for x, v in self.ev(e["e"], st):
            t = clean_type(e.get("t"))
            x = self.rule.on_throw(self, x, t, v, e)
            if x is not None:
                self.exc[-1].append((x, t, v))
        return []

    def ev_ctor(self, e, st):
        t = clean_type(e["t"])
        args = [a for a in e["a"]]
        real = [a for a in args if a and a.get("k") != "defarg"]
        if (e.get("copy") or e.get("move")) and len(real) == 1:
            return self.ev(real[0], st)
        out = []
        st0 = strip_targs(t)
        for x, vals in self.ev_list(args, st):
            n = len(real)
            v0 = vals[0] if vals else None
            if t == OPT_BOOL and n < 2:
                out.append((x, NONE if n == 0 or v0 == ("g", "std::nullopt") else v0 if v0[0] in ("some", "none") else ("some", v0)))
                continue
            if n == 1 and st0 == "std::variant" and self.rule.variants and v0 is not None and v0[0] != "alt" and e.get("pt") and strip_targs(bare_type(e["pt"][0])) != "std::variant":
                out.append((x, ("alt", bare_type(e["pt"][0]), v0)))
                continue
            if n == 1 and v0 is not None and (st0.startswith(STRINGY) or is_conv_ctor(st0, e)):
                out.append((x, v0))
                continue
            if n == 1 and v0 is not None and v0[0] == "lam" and st0 == "std::function":
                out.append((x, v0))
                continue
            vals = vals[:n] if n < len(vals) else vals
            x = self.rule.on_new(self, x, t, tuple(vals), e)
            if x is None:
                continue
            f = self.tu.byid.get(e.get("fid"))
            if f is not None and self.rule_expand_ctor(f, e):
                for y, v in self.inline(f, x, list(vals), ("new", t, tuple(vals)), e, args):
                    out.append((y, ("new", t, tuple(vals))))
            else:
                out.append((x, ("new", t, tuple(vals))))
        return out

    def rule_expand_ctor(self, f, e):
        g = getattr(self.rule, "expand_ctor", None)
        return bool(g and g(self, f, e))

    # ------------------------------------------------------------ calls
    def ev_call(self, e, st):
        k = e["k"]
        nq = strip_targs(e.get("f", "")) if e.get("f") else ""
        name = nq.split("::")[-1] if nq else (e.get("n") or "")
        # user-defined conversions and dereferences are transparent
        if k == "mcall" and e.get("conv"):
            out = []
            for x, o in self.ev(e["o"], st):
                if e.get("cls") == OPT_BOOL:
                    out.append((x, engaged(o)))
                elif e.get("t") == "bool":
                    out.append((x, norm_bool(o)))
                else:
                    fn = self.tu.byid.get(e.get("fid"))
                    out.append((x, o))
            return out
        if k == "op":
            return self.ev_op(e, st, nq, name)
        if k == "mcall":
            out = []
            for x, o in self.ev(e["o"], st):
                for y, args in self.ev_list(e["a"], x):
                    out.extend(self.do_call(e, y, nq, name, o, args))
            return out
        # free function / unresolved callee
        out = []
        if not nq and e.get("c"):
            for x, c in self.ev(e["c"], st):
                for y, args in self.ev_list(e["a"], x):
                    if isinstance(c, tuple) and c[0] == "lam":
                        out.extend(self.call_lambda(c, y, args, e))
                    elif isinstance(c, tuple) and c[0] == "fn":
                        out.extend(self.call_fn(c, y, args, e))
                    else:
                        out.extend(self.do_call(e, y, "?indirect", "?indirect", c, args))
            return out
        if (nq in IDENTITY_CALLS or nq in self.rule.identity) and e["a"]:
            r = self.ev(e["a"][0], st)
            f = getattr(self.rule, "on_move", None)
            if f and nq == "std::move":
                r = [(f(self, x, v, e), v) for x, v in r]
            return r
        if nq in ("std::make_shared", "std::make_unique"):
            t = (e.get("ta") or ["?"])[0]
            out = []
            for x, args in self.ev_list(e["a"], st):
                x = self.rule.on_new(self, x, clean_type(t), tuple(args), e)
                if x is not None:
                    out.append((x, ("new", clean_type(t), tuple(args))))
            return out
        if nq == "std::holds_alternative":
            return [(x, ("is_alt", v[0], (e.get("ta") or ["?"])[0]) if v[0][0] != "alt" else ("c", v[0][1] == (e.get("ta") or ["?"])[0])) for x, v in self.ev_list(e["a"], st)]
        if nq == "std::get":
            return [(x, ("f", v[0], "as:" + (e.get("ta") or ["?"])[0]) if v[0][0] != "alt" else v[0][2]) for x, v in self.ev_list(e["a"], st)]
        if nq == "std::get_if":
            return [(x, ("altptr", v[0], (e.get("ta") or ["?"])[0])) for x, v in self.ev_list(e["a"], st)]
        if nq.startswith("std::literals") or nq.startswith("std::operator\"\""):
            return self.ev(e["a"][0], st)
        if nq in ("std::begin", "std::end", "std::cbegin", "std::cend", "std::size", "std::empty"):
            return [(x, mk_call(nq, (), v[0], ())) for x, v in self.ev_list(e["a"], st)]
        if nq == "std::swap" and len(e["a"]) == 2:
            out = []
            for x, (va, vb) in self.ev_list(e["a"], st):
                va, vb = (("new", "", ()) if x.facts.get(("fresh", v)) else v for v in (va, vb))
                for y, _ in self.assign_to(e["a"][0], vb, "=", x, e):
                    out.extend((z, None) for z, _ in self.assign_to(e["a"][1], va, "=", y, e))
            return out
        if nq == "std::exchange":
            out = []
            for x, v in self.ev(e["a"][0], st):
                for y, rv in self.ev(e["a"][1], x):
                    for z, _ in self.assign_to(e["a"][0], rv, "=", y, e):
                        out.append((z, ("old", v)))
            return out
        for x, args in self.ev_list(e["a"], st):
            out.extend(self.do_call(e, x, nq, name, None, args))
        return out

    def ev_op(self, e, st, nq, name):
        op = e["op"]
        a = e["a"]
        if op == "=":
            out = []
            tied = a[0].get("a") if a[0].get("k") == "call" and a[0].get("f") == "std::tie" else None
            for x, rv in self.ev(a[1], st):
                if tied and rv is not None:
                    cur = [x]
                    for i, t in enumerate(tied):
                        if t.get("q") == "std::ignore":
                            continue
                        part = rv[2][i] if rv[0] == "new" and len(rv[2]) == len(tied) else bound(rv, {}, i)
                        cur = [z for y in cur for z, _ in self.assign_to(t, part, "=", y, e)]
                    out.extend((y, None) for y in cur)
                    continue
                out.extend(self.assign_to(a[0], rv, "=", x, e))
            return out
        if op in ("+=", "-=", "|=") and len(a) == 2:
            out = []
            for x, rv in self.ev(a[1], st):
                for y, lv in self.ev(a[0], x):
                    y = self.rule.on_write(self, y, lv, rv, op, e)
                    if y is not None:
                        out.append((y, lv))
            return out
        if op in ("==", "!=", "<", ">", "<=", ">="):
            out = []
            for x, v in self.ev_list(a, st):
                f = self.tu.byid.get(e.get("fid"))
                if op == "==" or op == "!=" or f is None:
                    out.append((x, norm_cmp(op, v[0], v[1])))
                else:
                    out.append((x, norm_cmp(op, v[0], v[1])))
            return out
        if op in ("*", "->") and len(a) == 1:
            return [(x, unopt(v)) for x, v in self.ev(a[0], st)] if e.get("cls") == OPT_BOOL else self.ev(a[0], st)
        if op == "!" and len(a) == 1:
            return [(x, neg(norm_bool(v))) for x, v in self.ev(a[0], st)]
        if op in ("++", "--"):
            out = []
            for x, v in self.ev(a[0], st):
                if v is not None and v[0] not in ("elem", "iter"):
                    x = x.kill(v)
                out.append((x, v))
            return out
        if op == "[]":
            out = []
            for x, v in self.ev_list(a, st):
                call = self.mkcall(e, nq, name, v[0], v[1:])
                r = self.rule.on_call(self, x, call)
                if r is not None:
                    if isinstance(r, list):
                        out.extend(r)
                        continue
                    x = r[1]
                    if x is None:
                        continue
                out.append((x, mk_idx(v[0], v[1])))
            return out
        if op == "()":
            out = []
            for x, v in self.ev_list(a, st):
                c = v[0]
                if isinstance(c, tuple) and c[0] == "lam":
                    out.extend(self.call_lambda(c, x, v[1:], e))
                elif isinstance(c, tuple) and c[0] == "fn":
                    out.extend(self.call_fn(c, x, v[1:], e))
                else:
                    out.extend(self.do_call(e, x, nq, name, c, v[1:]))
            return out
        out = []
        for x, v in self.ev_list(a, st):
            if e.get("cls"):
                out.extend(self.do_call(e, x, nq, name, v[0], v[1:]))
            else:
                out.extend(self.do_call(e, x, nq, name, None, v))
        return out

    def mkcall(self, e, nq, name, obj, args):
        return Call(node=e, nq=nq, name=name, ta=e.get("ta"), obj=obj, args=list(args), fid=e.get("fid"),
                    fn=self.tu.byid.get(e.get("fid")), cls=e.get("cls"), kind=e["k"], const=e.get("cm", False),
                    pm=e.get("pm", ""), virt=e.get("virt", False))

    def do_call(self, e, st, nq, name, obj, args):
        self.ncalls += 1
        call = self.mkcall(e, nq, name, obj, args)
        r = self.rule.on_call(self, st, call)
        if r is not None:
            if isinstance(r, list):
                return r
            st = r[1]
            if st is None:
                return []
            term = r[2] if len(r) > 2 else self.default_term(call, st)
            return self.opaque_effects(st, call, term)
        fn = call.fn
        if e["k"] == "mcall" and call.cls == OPT_BOOL and fn is None:
            if name == "has_value":
                return [(st, engaged(obj))]
            if name == "value" or (name == "value_or" and obj[0] == "some"):
                return [(st, unopt(obj))]
            if name == "value_or":
                if obj == NONE:
                    return [(st, args[0])]
                out = []
                for x, b in self.split(st, engaged(obj)):
                    out.append((x, unopt(obj) if b else args[0]))
                return out
        # smart-pointer / optional accessors are transparent
        if e["k"] == "mcall" and name in ("get", "value") and not args and fn is None and is_handle(call.cls):
            return [(st, obj)]
        if e["k"] == "mcall" and name == "has_value" and not args:
            return [(st, norm_bool(obj))]
        if name == "is_type" and nq.endswith("ast_node::is_type") and call.ta:
            return [(st, ("is_type", obj, call.ta[0].split("::")[-1]))]
        if fn is not None and fn.get("body") is not None and not self.is_opaque(nq) \
                and len(self.stack) < self.rule.max_depth \
                and not any(f is fn for f in self.stack) and not (call.virt and not e.get("qual") and not self.devirt(call)) \
                and self.rule.expand(self, call, fn):
            return self.inline(fn, st, args, obj, e, e["a"][1:] if e["k"] == "op" else e["a"])
        # known algorithms with a lambda
        if nq.startswith("std::") and name in (ALGO_LOOP | ALGO_PRED):
            return self.algorithm(e, st, call)
        # lambdas handed to unknown callees
        states = [st]
        for i, a in enumerate(args):
            if isinstance(a, tuple) and a[0] == "fn" and nq == "std::async" and i < 2:
                nxt = []
                for s in states:
                    self.async_depth += 1
                    self.exc.append([])
                    sh, self.handlers = self.handlers, []
                    for x, v in self.call_fn(a, s, list(args[i + 1:]), e):
                        self.rule.on_async(self, x, "ret", v, e)
                    for x, t, term in self.exc.pop():
                        self.rule.on_async(self, x, "throw", t, e)
                    self.handlers = sh
                    self.async_depth -= 1
                    nxt.append(s)
                states = self.merge(nxt)
                break
            if isinstance(a, tuple) and a[0] == "lam":
                mode = self.rule.deferred(self, call, i, a)
                if mode in ("inline", "async"):
                    nxt = []
                    for s in states:
                        lam = self.tu.lambdas.get(a[1])
                        pv = [("v", p["n"], p["d"]) for p in (lam or {}).get("p", [])]
                        if nq == "std::async":
                            # runs later, on its own: its exceptions end up in the future
                            pv = [x for x in args[i + 1:]] + pv[len(args) - i - 1:]
                            self.async_depth += 1
                            self.exc.append([])
                            sh, self.handlers = self.handlers, []
                            for x, v in self.call_lambda(a, s, pv, e):
                                self.rule.on_async(self, x, "ret", v, e)
                            for x, t, term in self.exc.pop():
                                self.rule.on_async(self, x, "throw", t, e)
                            self.handlers = sh
                            self.async_depth -= 1
                            nxt.append(s)
                            continue
                        if mode == "async":
                            self.async_depth += 1
                            self.exc.append([])
                            sh = self.handlers
                            self.handlers = []
                            self.call_lambda(a, s, pv, e)
                            self.handlers = sh
                            self.exc.pop()
                            self.async_depth -= 1
                            nxt.append(s)
                        else:
                            nxt.append(s)
                            nxt.extend(x for x, _ in self.call_lambda(a, s, pv, e))
                    states = self.merge(nxt)
        out = []
        for s in states:
            out.extend(self.opaque_effects(s, call, self.default_term(call, s)))
        return out

    def is_opaque(self, nq):
        # an entry ending in '::' names a class or namespace, any other one function
        return in_list(nq, self.rule.opaque) and not in_list(nq, self.rule.transparent)

    def devirt(self, call):
        f = getattr(self.rule, "devirt", None)
        return bool(f and f(self, call))

    def default_term(self, call, st):
        if call.kind == "mcall":
            return mk_call(call.nq, tuple(call.ta or ()), call.obj, tuple(call.args))
        return ("call", call.nq or "?", tuple(call.ta or ()), call.obj, tuple(call.args))

    def opaque_effects(self, st, call, term):
        for t in self.rule.may_throw(self, st, call):
            x = self.rule.on_throw(self, st, t, term, call.node)
            if x is not None:
                self.exc[-1].append((x, t, None))
        if call.kind in ("mcall", "op") and not call.const and call.obj is not None \
                and call.name not in READ_METHODS and call.kind == "mcall":
            st = st.kill(call.obj)
        # by-reference arguments may be written
        fwd = (call.nq.startswith("std::") or "::sorted_map::" in call.nq or "::sorted_set::" in call.nq) and \
            call.name.startswith(("emplace", "push_", "insert", "make_", "ref", "cref", "operator<<", "find", "lower_bound", "get", "async", "visit"))
        if call.pm and not fwd:
            args_nodes = call.node["a"]
            off = len(args_nodes) - len(call.args)
            for i, a in enumerate(call.args):
                j = i
                if j < len(call.pm) and call.pm[j] == "r":
                    n = args_nodes[i + off] if i + off < len(args_nodes) else None
                    if n and n.get("k") == "ref" and n.get("dk") in ("local", "param"):
                        d = self.target(st, n["d"])
                        cur = st.env.get(d)
                        if isinstance(cur, tuple) and cur[0] in ("c", "call", "bin", "phi", "eq", "not"):
                            st = st.set(d, ("v", n["n"], d))
                            continue
                    if isinstance(a, tuple) and a[0] not in ("c", "lam", "enum", "fn"):
                        st = st.kill(a)
        return [(st, term)]

    def inline(self, fn, st, args, obj, node, argnodes):
        env0 = st.env
        s = st
        ps = fn["p"]
        for i, p in enumerate(ps):
            if i < len(args):
                an = argnodes[i] if i < len(argnodes) else None
                v = args[i]
                if p["t"].endswith("&") and not p["t"].startswith("const ") and an and an.get("k") == "ref" \
                        and an.get("dk") in ("local", "param") and an["d"] != p["d"]:
                    s = s.set(p["d"], ("ref", self.target(s, an["d"])))
                else:
                    if p["t"].endswith("&") and not p["t"].endswith("&&") and not p["t"].startswith("const ") and an and an.get("k") == "mem":
                        # a member given to a reference parameter is written through, whatever its value is now
                        base = self.ev(an["b"], s)
                        if len(base) == 1 and base[0][1] is not None:
                            v = mem_term(pointee(base[0][1]), an["n"])
                        LREFS.add(p["d"])
                    s = s.set(p["d"], v if v is not None else UNKNOWN)
            else:
                s = s.set(p["d"], ("v", p["n"], p["d"]))
        self.callsites.append(node)
        outs = self.run_body(fn, s, obj if obj is not None else st.env.get("this", THIS))
        self.callsites.pop()
        res = []
        for kind, x, v in outs:
            env = {k: x.env[k] for k in x.env if k in env0 or (isinstance(k, tuple) and k[0] == "h")
                   or (isinstance(v, tuple) and v[0] == "lam")}
            x = State(env, x.facts, x.ts)
            if kind == "throw":
                self.exc[-1].append((x, v[0], v[1]))
            else:
                if isinstance(v, tuple) and v[0] == "phi" and len(v) == 2:
                    v = ("call", fn["nq"], tuple(node.get("ta") or ()), obj, tuple(args))
                res.append((x, v))
        return res

    def call_fn(self, ref, st, args, node):
        """a function called through a pointer or reference that is known to denote it"""
        fn = self.tu.byid.get(ref[2])
        obj = None
        if fn is not None and fn.get("cls") and not fn.get("static") and len(args) == len(fn["p"]) + 1:
            obj, args = args[0], args[1:]
        call = Call(node=node, nq=ref[1], name=ref[1].split("::")[-1], ta=(), obj=obj, args=list(args), fid=ref[2], fn=fn, cls=None,
                    kind="mcall" if obj is not None else "call", const=False, pm="", virt=False)
        r = self.rule.on_call(self, st, call)
        if r is not None:
            if isinstance(r, list):
                return r
            if r[1] is None:
                return []
            return [(r[1], r[2] if len(r) > 2 else self.default_term(call, r[1]))]
        if fn is not None and fn.get("body") is not None and not self.is_opaque(ref[1]) and len(self.stack) < self.rule.max_depth \
                and not any(f is fn for f in self.stack) and self.rule.expand(self, call, fn):
            return self.inline(fn, st, args, obj, node, [])
        return [(st, self.default_term(call, st))]

    def call_lambda(self, lam, st, args, node):
        l = self.tu.lambdas.get(lam[1])
        if l is None:
            return [(st, UNKNOWN)]
        if any(f is l for f in self.stack) or len(self.stack) > self.rule.max_depth + 4:
            return [(st, UNKNOWN)]
        f = l
        if "lambda" not in l:
            l["lambda"] = True
            l["nq"] = "lambda"
        if f is not l:
            f["lambda"] = True
        env0 = st.env
        s = st
        for i, p in enumerate(f["p"]):
            an = None
            if i < len(args):
                s = s.set(p["d"], args[i] if args[i] is not None else UNKNOWN)
        rec = f
        self.callsites.append(node)
        outs = self.run_body(rec, s, st.env.get("this", THIS))
        self.callsites.pop()
        res = []
        drop = {p["d"] for p in f["p"]}
        for kind, x, v in outs:
            env = {k: x.env[k] for k in x.env if k not in drop or k in env0}
            x = State(env, x.facts, x.ts)
            if kind == "throw":
                self.exc[-1].append((x, v[0], v[1]))
            else:
                res.append((x, v))
        return res

    def algorithm(self, e, st, call):
        args = call.args
        lams = [(i, a) for i, a in enumerate(args) if isinstance(a, tuple) and a[0] == "lam"]
        rng = None
        if args and isinstance(args[0], tuple):
            a0 = args[0]
            first = a0
            while first[0] == "call" and (first[1] in ("std::next", "std::prev") and first[4] or first[1].split("::")[-1] in ("operator+", "operator-", "operator++") and first[3] is not None) \
                    or first[0] == "bin" and isinstance(first[2], tuple):
                first = (first[3] if first[3] is not None else first[4][0]) if first[0] == "call" else first[2]
            if first[0] == "call" and first[1].split("::")[-1] in BEGIN_METHODS:
                rng = first[3] if first[3] is not None else first[4][0] if first[4] else first
                if call.name in ("for_each", "transform", "copy_if"):
                    last = args[1] if len(args) > 2 else None
                    # the part of the range the algorithm goes through, if it is not all of it in order
                    if first is not a0:
                        e["_part"] = "its start"
                    elif isinstance(last, tuple) and last[0] in ("call", "bin") and not (is_end(last) and last[3] == rng) and \
                            not (last[0] == "call" and last[1].split("::")[-1] in ("end", "cend", "rend", "crend") and rng in last[4] + (last[3],)):
                        e["_part"] = "its end"
                    elif first[1].split("::")[-1] in ("rbegin", "crbegin"):
                        e["_part"] = "backwards"
            else:
                rng = a0
        term = ("call", call.nq, (), None, tuple(args))
        if call.name in ("find_if", "find_if_not", "find") and rng is not None:
            term = ("call", call.nq, (), rng, tuple(args[2:]))
        if not lams:
            if call.name == "find":
                pass
            return self.opaque_effects(st, call, term)
        elem = ("elem", rng if rng is not None else UNKNOWN)
        lam = lams[-1][1]
        l = self.tu.lambdas.get(lam[1])
        np = len(l["p"]) if l else 1
        pv = [elem] * np if np else []

        st = self.rule.on_loop(self, st, rng, e)
        if st is None:
            return []
        hits = []
        stop = {"find_if": True, "any_of": True, "none_of": True, "all_of": False, "find_if_not": False}.get(call.name)
        inserter = output = None
        if call.name == "transform" and len(args) > 3:
            output = args[-2]          # written through an iterator, one element per element read
            while isinstance(output, tuple) and output[0] == "call" and output[3] is not None and output[1].split("::")[-1] in ("begin", "data", "rbegin", "end", "cbegin"):
                output = output[3]
        if call.name in ("transform", "copy_if"):
            for a in args:
                if isinstance(a, tuple) and a[0] == "call" and a[1].split("::")[-1] in ("back_inserter", "inserter", "front_inserter"):
                    inserter, output = a[4][0], None

        def body(h):
            ex = [h]
            b = State(h.env, {a: v for a, v in h.facts.items() if not has_elem(elem[1], a, False)}, h.ts)
            b = self.rule.on_iter(self, b, "begin", rng, e)
            back = []
            for x, v in self.call_lambda(lam, b, pv, self.lambda_node(e, lam)):
                if stop is not None:
                    for y, t in self.split(x, v):
                        if t == stop:
                            y = self.rule.on_iter(self, y, "break", rng, e)
                            if y is not None:
                                hits.append(y)
                        else:
                            y = self.rule.on_iter(self, y, "end", rng, e)
                            if y is not None:
                                back.append(y)
                    continue
                if inserter is not None or output is not None:
                    put = ("std::back_inserter::push_back", "push_back") if inserter is not None else ("std::transform::put", "put")
                    c = Call(node=e, nq=put[0], name=put[1], ta=(), obj=inserter or output,
                             args=[v if call.name == "transform" else elem], kind="mcall", const=False, pm="", cls=None)
                    r = self.rule.on_call(self, x, c)
                    if isinstance(r, list):
                        r = ("opaque", r[0][0]) if r else None
                    x = (r[1] if r else x)
                    if x is None:
                        continue
                    x = x.kill(inserter or output)
                x = self.rule.on_iter(self, x, "end", rng, e)
                if x is not None:
                    back.append(x)
            return ex, [], back
        exits, _ = self.loop_fix([st], body, e)
        out = []
        if stop is not None:
            for y in self.merge(hits):
                if call.name.startswith("find"):
                    end = ("call", "end", (), rng, ())
                    out.append((y.fact(("eq", elem, end), False), elem))
                else:
                    out.append((y, TRUE if call.name == "any_of" else FALSE))
            for x in exits:
                if call.name.startswith("find"):
                    end = ("call", "end", (), rng, ())
                    out.append((x.fact(("eq", elem, end), True), end))
                else:
                    out.append((x, FALSE if call.name == "any_of" else TRUE))
            return out
        for x in exits:
            out.append((x, term))
        return out

    def lambda_node(self, e, lam):
        return e


# ---------------------------------------------------------------- normalisation
OPT_BOOL = "std::optional<bool>"
NONE = ("none",)


def named_lambdas(tu):
    """the local variables that are lambdas (their closures cannot be assigned)"""
    r = getattr(tu, "named_lambdas", None)
    if r is None:
        r = tu.named_lambdas = {}

        def look(n):
            i = n.get("i")
            if isinstance(i, dict) and "d" in n:
                while i.get("k") == "ctor" and len(i.get("a") or ()) == 1 and isinstance(i["a"][0], dict):
                    i = i["a"][0]
                if i.get("k") == "lambda" and not (n.get("t") or "").startswith("std::"):
                    r[n["d"]] = ("lam", i["fid"])
        for f in tu.functions:
            if f.get("body") is not None:
                _walk(f["body"], look)
    return r


def pointee(t):
    """what a pointer to a variant's alternative points to"""
    return ("f", t[1], "as:" + t[2]) if isinstance(t, tuple) and t and t[0] == "altptr" else t


def engaged(t):
    """whether an optional Boolean holds a value (its truth is another matter)"""
    r = {{"some": TRUE, "none": FALSE}.get(x[0], ("engaged", x)) for x in (phi_alts(t) if t[0] == "phi" else [t])}
    return r.pop() if len(r) == 1 else ("engaged", t)


def unopt(t):
    """the value in an optional Boolean"""
    if t[0] == "some":
        return t[1]
    if t[0] == "phi":
        l = [x[1] if x[0] == "some" else x for x in phi_alts(t) if x != NONE]
        if l:
            return l[0] if len(set(l)) == 1 else mk_phi(t[1], *l)
    return t


def in_list(nq, names):
    return any(nq == n or (n.endswith("::") and nq.startswith(n)) for n in names)


def mk_idx(a, b):
    if isinstance(b, tuple) and b[0] == "iter" and b[1] == a:
        return ("elem", a)
    return ("idx", a, b)


def is_fundamental(t):
    return t in INT_TYPES or t.endswith("*")


def is_handle(cls):
    c = strip_targs(cls or "")
    return c in ("std::shared_ptr", "std::unique_ptr", "std::__shared_ptr", "std::optional", "std::weak_ptr",
                 "std::__shared_ptr_access", "std::reference_wrapper")


def bare_type(t):
    return (t or "").replace("const ", "").rstrip("& ").strip()


def is_conv_ctor(t, e):
    """Single-argument constructors that only re-wrap their argument."""
    return t in ("std::shared_ptr", "std::unique_ptr", "std::optional", "std::weak_ptr", "std::function",
                 "std::__cxx11::basic_string", "std::variant", "__gnu_cxx::__normal_iterator",
                 "std::reference_wrapper", "std::move_iterator")


def is_aggregate(e):
    return bool(e.get("fn"))


def mem_term(b, name):
    # pair decomposition
    if name in ("first", "second") and isinstance(b, tuple) and b:
        a = b[4] if b[0] == "call" and b[1] == "std::make_pair" else b[2] if b[0] == "new" and b[1].startswith("std::pair<") else ()
        if len(a) == 2:
            return a[0 if name == "first" else 1]
    return ("f", b, name)


def bound(val, b, i):
    """what a structured binding stands for"""
    if val is None:
        return ("v", b["n"], b["d"])
    return mem_term(val, b.get("m") or (("first", "second")[i] if i < 2 else "#%d" % i))


def const_elems(rng):
    """the elements of a sequence that is spelled out in the source: loops over it are unrolled"""
    t = rng
    while isinstance(t, tuple) and len(t) == 3 and t[0] == "new" and len(t[2]) == 1 and isinstance(t[2][0], tuple) and t[2][0][:1] == ("new",) \
            and not t[1].startswith("std::pair<"):
        t = t[2][0]
    if not (isinstance(t, tuple) and len(t) == 3 and t[0] == "new" and 1 <= len(t[2]) <= 8
            and (t[1].endswith("]") or t[1].startswith(("std::array<", "std::initializer_list<", "std::vector<")))):
        return None

    def const(x):
        if not isinstance(x, tuple) or not x:
            return False
        if x[0] in ("c", "enum", "g"):
            return True
        if x[0] == "call" and x[1] == "std::make_pair":
            return all(const(y) for y in x[4])
        return x[0] == "new" and bool(x[2]) and all(const(y) for y in x[2])
    return list(t[2]) if all(const(x) for x in t[2]) else None


def mk_call(nq, ta, obj, args):
    return ("call", nq, ta, obj, args)


def neg(t):
    if isinstance(t, tuple) and t[0] == "not":
        return t[1]
    if isinstance(t, tuple) and t[0] == "c":
        return ("c", not t[1])
    return ("not", t)


def is_end(t):
    return isinstance(t, tuple) and t[0] == "call" and t[1].split("::")[-1] in END_METHODS and not t[4]


def cont_of(t):
    c = t[3]
    if isinstance(c, tuple) and c[0] == "call" and c[1] == "graphql::response::Value::get" and not c[4]:
        return c[3]         # the members of a map value
    return c


def norm_eq(a, b):
    if a is None or b is None:
        return UNKNOWN
    if b == NULL:
        return neg(norm_bool(a))
    if a == NULL:
        return neg(norm_bool(b))
    for x, y in ((a, b), (b, a)):
        if is_end(y):
            c = cont_of(y)
            if isinstance(x, tuple) and x[0] == "call":
                n = x[1].split("::")[-1]
                if n == "find" and x[3] == c:
                    return neg(("found", c) + tuple(x[4]))
                if n == "find" and x[1] == "std::find" and len(x[4]) == 3:
                    return neg(("found", c, x[4][2]))
                if n in ("find_if", "find_if_not") and x[3] == c:
                    return neg(("found_if", c) + tuple(x[4]))
                if n in BEGIN_METHODS and x[3] == c:
                    return ("empty", c)
            if is_end(x) and cont_of(x) == c:
                return TRUE
            if isinstance(x, tuple) and x[0] == "elem" and x[1] == c:
                return ("eq", x, ("call", "end", (), c, ()))
    if isinstance(b, tuple) and b[0] == "c" and isinstance(b[1], bool):
        return norm_bool(a) if b[1] else neg(norm_bool(a))
    if isinstance(a, tuple) and a[0] == "c" and isinstance(a[1], bool):
        return norm_bool(b) if a[1] else neg(norm_bool(b))
    if b == ("c", 0) and is_size(a):
        return ("empty", a[3])
    if a == ("c", 0) and is_size(b):
        return ("empty", b[3])
    if b == ("c", 0) and is_count(a):
        return neg(("found", a[3]) + tuple(a[4]))
    if b == ("c", 1) and is_count(a):
        return ("found", a[3]) + tuple(a[4])
    if b == ("c", ""):
        return ("empty", a)
    if a == ("c", ""):
        return ("empty", b)
    if a[0] in ("c", "enum") and b[0] in ("c", "enum"):
        return ("c", a == b) if a[0] == b[0] else ("eq", a, b)
    if a[0] in ("c", "enum") or (b[0] not in ("c", "enum") and repr(a) > repr(b)):
        a, b = b, a
    if a == b:
        return TRUE
    return ("eq", a, b)


def is_size(t):
    return isinstance(t, tuple) and t[0] == "call" and t[1].split("::")[-1] in ("size", "length") and not t[4]


def is_count(t):
    return isinstance(t, tuple) and t[0] == "call" and t[1].split("::")[-1] == "count" and len(t[4]) == 1


def norm_cmp(op, a, b):
    if a is None or b is None:
        return UNKNOWN
    if op == "==":
        return norm_eq(a, b)
    if op == "!=":
        return neg(norm_eq(a, b))
    if op in (">", ">="):
        a, b = b, a
        op = {"<": "<", ">": "<", ">=": "<="}[op]
    if op == "<=":
        # n <= b  ==  n - 1 < b for integers
        if a[0] == "c" and type(a[1]) is int and b[0] != "c":
            return norm_cmp("<", ("c", a[1] - 1), b)
        if b[0] == "c" and type(b[1]) is int and a[0] != "c":
            return norm_cmp("<", a, ("c", b[1] + 1))
        # a <= b  ==  !(b < a)
        return neg(norm_cmp("<", b, a))
    if op == "<":
        if a == ("c", 0) and is_size(b):
            return neg(("empty", b[3]))
        if b == ("c", 1) and is_size(a):
            return ("empty", a[3])
        if a == ("c", 0) and is_count(b):
            return ("found", b[3]) + tuple(b[4])
        if a[0] == "c" and b[0] == "c" and type(a[1]) in (int, float) and type(b[1]) in (int, float):
            return ("c", a[1] < b[1])
        if b[0] == "c" and type(b[1]) is int:
            return neg(("lt", ("c", b[1] - 1), a))
        return ("lt", a, b)
    if op in ("+", "-", "*") and a[0] == "c" and b[0] == "c" and type(a[1]) is int and type(b[1]) is int:
        return ("c", {"+": a[1] + b[1], "-": a[1] - b[1], "*": a[1] * b[1]}[op])
    return ("bin", op, a, b)


def norm_bool(t):
    if t is None:
        return UNKNOWN
    if t[0] == "c":
        return ("c", bool(t[1])) if not isinstance(t[1], str) else TRUE
    if t[0] == "altptr":
        return ("is_alt",) + t[1:]
    if t[0] == "call":
        n = t[1].split("::")[-1]
        if n == "empty" and not t[4] and t[3] is not None:
            return ("empty", t[3])
        if n == "empty" and t[1] == "std::empty":
            return ("empty", t[3])
        if n == "has_value" and not t[4]:
            return norm_bool(t[3])
        if n == "count" and len(t[4]) == 1:
            return ("found", t[3]) + tuple(t[4])
        if is_size(t):
            return neg(("empty", t[3]))
    if t[0] == "phi" and len(t) > 2:
        bs = {norm_bool(x) for x in t[2:]}
        if len(bs) == 1:
            return bs.pop()
    if t[0] == "f" and t[2] == "second" and isinstance(t[1], tuple) and t[1][0] == "call" \
            and t[1][1].split("::")[-1] in ("emplace", "insert", "try_emplace"):
        c = t[1]
        return ("inserted", c[3]) + tuple(c[4])
    if t[0] == "f" and t[2] == "#1" and isinstance(t[1], tuple) and t[1][0] == "call" \
            and t[1][1].split("::")[-1] in ("emplace", "insert", "try_emplace"):
        c = t[1]
        return ("inserted", c[3]) + tuple(c[4])
    return t


def steps(n, d):
    """whether the increment of a loop moves a variable to the next element; None if it does not move it"""
    r = None
    stack = [n]
    while stack:
        m = stack.pop()
        if not isinstance(m, dict):
            continue
        if m.get("k") == "bin" and m.get("op") == ",":
            stack.extend([m["a"], m["b"]])
            continue
        if m.get("k") in ("cast", "paren"):
            stack.append(m.get("e"))
            continue
        t = m.get("e") if m.get("k") == "un" else (m.get("a") or [None])[0] if m.get("k") == "op" else m.get("a") if m.get("k") == "assign" else None
        if isinstance(t, dict) and t.get("k") == "ref" and t.get("d") == d:
            r = m.get("op") == "++"
            if m.get("op") == "+=":
                v = m.get("b") if m.get("k") == "assign" else (m.get("a") or [0, 0])[-1]
                r = isinstance(v, dict) and v.get("v") == 1
    return r


def loop_assigned(s):
    """Declaration ids assigned anywhere in a loop."""
    r = s.get("_assigned")
    if r is None:
        r = set()
        stack = [s]
        while stack:
            n = stack.pop()
            if isinstance(n, dict):
                k = n.get("k")
                if k == "assign" and isinstance(n.get("a"), dict) and n["a"].get("k") == "ref":
                    r.add(n["a"]["d"])
                elif k == "un" and n.get("op") in ("++", "--") and n["e"] and n["e"].get("k") == "ref":
                    r.add(n["e"]["d"])
                elif k == "op" and n.get("op") in ("=", "+=", "++", "--", "-=") and n["a"] and n["a"][0].get("k") == "ref":
                    r.add(n["a"][0]["d"])
                for kk, v in n.items():
                    if kk != "_assigned":
                        stack.append(v)
            elif isinstance(n, list):
                stack.extend(n)
        s["_assigned"] = r
    return r


def own_decls(s):
    """the locals a block declares itself"""
    r = s.get("_own")
    if r is None:
        r = set()
        for n in s.get("b") or ():
            if isinstance(n, dict) and n.get("s") == "decl":
                r.update(v["d"] for v in n.get("v") or () if isinstance(v, dict) and "d" in v)
        s["_own"] = r
    return r


def captures(n, r):
    """the locals that some lambda captures"""
    stack = [n]
    while stack:
        n = stack.pop()
        if isinstance(n, dict):
            if n.get("k") == "lambda":
                r.update(c["d"] for c in n.get("caps") or () if "d" in c)
                for c in n.get("caps") or ():
                    if isinstance(c.get("e"), dict) and c["e"].get("d"):
                        r.add(c["e"]["d"])
            stack.extend(v for k, v in n.items() if not k.startswith("_"))
        elif isinstance(n, list):
            stack.extend(n)


def loop_declared(s):
    """Declaration ids of the locals declared in a loop body: each iteration has its own."""
    r = s.get("_declared") if isinstance(s, dict) else None
    if r is None:
        r = set()
        stack = [s]
        while stack:
            n = stack.pop()
            if isinstance(n, dict):
                if n.get("s") == "decl":
                    r.update(v["d"] for v in n.get("v") or () if isinstance(v, dict) and "d" in v)
                for kk, v in n.items():
                    if not kk.startswith("_"):
                        stack.append(v)
            elif isinstance(n, list):
                stack.extend(n)
        if isinstance(s, dict):
            s["_declared"] = r
    return r
