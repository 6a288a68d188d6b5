"""Independence of validations: everything the validator learns from one document, operation or fragment is forgotten
before the next one is judged; what it keeps are facts about the schema only."""
from vcommon import *
from facts import _walk

READ = {"find", "end", "begin", "cbegin", "cend", "size", "empty", "count", "has_value", "value", "get", "at", "front", "back",
        "operator*", "operator->", "operator bool", "operator==", "operator!=", "lower_bound", "equal_range"}
CLEAN = {"clear", "reset"}
CLS = "graphql::service::ValidateExecutableVisitor"


def this_member(e):
    """name of the visitor member an lvalue expression is, looking through casts"""
    while isinstance(e, dict) and e.get("k") in ("cast", "paren", "icast"):
        e = e.get("e")
    if isinstance(e, dict) and e.get("k") == "mem":
        b = e.get("b") or e.get("e")
        if isinstance(b, dict) and b.get("k") == "this":
            return e.get("n")
    return None


class Eff(Rule):
    """ts: frozenset of dirty members, plus ('zero', m) for members overwritten with a constant"""
    opaque = Rule.opaque

    def __init__(self, fields, mut, opaque):
        self.fields, self.mut = fields, mut
        self.opaque = Rule.opaque + tuple(opaque)
        self.transparent = ()
        self.stale = set()          # (member, callee): called a method that uses the member without resetting it before
        self.keys = {}

    def init(self):
        return frozenset()

    def tracks(self, atom, st):
        return atom[0] == "f" and atom[1] == THIS and atom[2] in self.fields

    def track(self, atom):
        return self.tracks(atom, None)

    def dirty(self, st, m):
        return st.with_ts((st.ts - {("clean", m)}) | {m})

    def clean(self, st, m):
        return st.with_ts((st.ts - {m}) | {("clean", m)})

    def member(self, t):
        while isinstance(t, tuple) and t and t[0] in ("f", "idx", "found", "call") and not (t[0] == "f" and t[1] == THIS):
            nxt = t[1] if t[0] != "call" else t[3]
            if not isinstance(nxt, tuple):
                return None
            t = nxt
        return t[2] if isinstance(t, tuple) and t and t[0] == "f" and t[1] == THIS and t[2] in self.fields else None

    def on_call(self, ctx, st, call):
        if call.nq in self.mut:
            for m in self.mut[call.nq]:
                if ("clean", m) not in st.ts:
                    self.stale.add((m, call.nq, ctx.where(call.node)))
                st = self.dirty(st, m)
            return ("opaque", st)
        m = self.member(call.obj) if call.obj else None
        if m:
            if fieldname(call.obj) == m and call.name in CLEAN:
                return ("opaque", self.clean(st, m))
            if call.name not in READ and not getattr(call, "const", False):
                st = self.dirty(st, m)
                self.keys.setdefault(m, set()).add((call.args[0] if call.args else None, ctx.where(call.node)))
        return None

    def on_move(self, ctx, st, v, node):
        m = self.member(v)
        return self.clean(st, m) if m and fieldname(v) == m else st

    def on_write(self, ctx, st, l, r, op, node):
        m = self.member(l)
        if not m:
            return st
        if fieldname(l) == m and op == "=" and (r is None or r[0] == "c" or (r[0] == "new" and not r[2])):
            return self.clean(st, m)
        if l[0] == "idx" or fieldname(l) != m:
            self.keys.setdefault(m, set()).add((next((x[2] for x in subterms(l) if x[0] == "idx"), None), ctx.where(node)))
        else:
            self.keys.setdefault(m, set()).add((None, ctx.where(node)))
        return self.dirty(st, m)


def run(ck):
    tu = ck.load(SRC)
    fields = [f["n"] for f in tu.record(CLS)["fields"] if not f.get("const")]
    ck.need(len(fields) > 8, "the members of the validator")
    roots = ["visit", "visitFragmentDefinition", "visitOperationDefinition"]
    methods = {f["nq"]: f for f in tu.functions if f["nq"].startswith(CLS + "::") and not f.get("dep") and f.get("body") is not None
               and not f["nq"].endswith("::ValidateExecutableVisitor")}
    # what each method may change, from its own paths (the others opaque), closed over calls
    direct, callees, keys, guards, sites = {}, {}, {}, {}, {}
    for q, f in methods.items():
        class Scan(Eff):
            def on_call(self, ctx, st, call):
                if call.nq in methods and call.nq != q:
                    callees.setdefault(q, set()).add(call.nq)
                    sites.setdefault(call.nq, set()).add((q, tuple(call.args)))
                    return ("opaque", st)
                return super().on_call(ctx, st, call)

            def dirty(self, st, m):
                direct.setdefault(q, set()).add(m)
                g = {a[2] for a, v in st.facts.items() if v and a[0] == "f" and a[1] == THIS and a[2] != m}
                guards[m] = guards[m] & g if m in guards else g
                return st

            def clean(self, st, m):
                direct.setdefault(q, set()).add(m)
                return st
        r = Scan(set(fields), {}, ())
        eng = Engine(tu, r, 1500000)
        eng.run_function(f)
        ck.saw(f)
        ck.steps += eng.steps
        ck.callsites += eng.ncalls
        for m, ks in r.keys.items():
            keys.setdefault(m, set()).update((q, k, w) for k, w in ks)
    may = {q: set(direct.get(q, ())) for q in methods}
    changed = True
    while changed:
        changed = False
        for q in methods:
            n = set(may[q])
            for c in callees.get(q, ()):
                n |= may[c]
            if n != may[q]:
                may[q], changed = n, True
    V_, OP, FR, GE = V + "visit", V + "visitOperationDefinition", V + "visitFragmentDefinition", V + "getStructuredErrors"
    for q in (V_, OP, FR, GE):
        ck.need(q in methods, q)

    def exits(q):
        """(dirty at some exit, clean at every exit, used without reset)"""
        r = Eff(set(fields), {c: may[c] for c in methods if c != q and may[c]}, ())
        eng = Engine(tu, r, 1500000)
        outs = eng.run_function(methods[q])
        ck.need(outs, "paths of " + q)
        ck.steps += eng.steps
        d = set().union(*[{x for x in s.ts if isinstance(x, str)} for _, s, _ in outs])
        c = set.intersection(*[{x[1] for x in s.ts if isinstance(x, tuple)} for _, s, _ in outs])
        return d, c, r.stale

    od, _, ostale = exits(OP)
    fd, _, fstale = exits(FR)
    # what only changes while an operation's own state is present does not change in a fragment definition
    for m in list(fd):
        if any(g not in od and g not in fd and g not in may[FR] for g in guards.get(m, ())):
            fd = fd - {m}

    def schema_key(q, k, depth=0):
        """the key is a name the schema gives, or a constant"""
        if k is None:
            return False
        if k[0] in ("c", "g"):
            return True
        if k[0] == "v":
            ps = [i for i, p in enumerate(methods[q]["p"]) if p["d"] == k[2]]
            return bool(ps) and depth < 4 and bool(sites.get(q)) and all(len(a) > ps[0] and schema_key(c, a[ps[0]], depth + 1) for c, a in sites[q])
        return any(x[0] == "call" and x[1].split("::")[-1] == "name" for x in subterms(k)) and not any(
            x[0] == "elem" or (x[0] == "call" and x[1].split("::")[-1] in ("string_view", "unescaped_view", "string")) for x in subterms(k))
    # visit(): its own changes, with the per-definition visitors summarised by what they leave behind
    class Own(Eff):
        def on_call(self, ctx, st, call):
            if call.nq in (OP, FR):
                return ("opaque", st)
            return super().on_call(ctx, st, call)
    r = Own(set(fields), {c: may[c] for c in methods if c != V_ and may[c]}, ())
    outs = Engine(tu, r, 1500000).run_function(methods[V_])
    vd = set(direct.get(V_, ()))
    _, gclean, _ = exits(GE)
    changed = set().union(*may.values())
    ck.need({"_errors"} <= changed and len(changed) >= 8, "the validator's state")
    ck.extra["members"] = {}
    for m in sorted(changed):
        if m in gclean:
            why = "forgotten when the errors are taken"
            ok = True
        elif m not in od and m not in fd and m not in vd:
            why, ok = "forgotten at the end of every operation and fragment", True
        else:
            ks = keys.get(m, ())
            schema = ks and all(schema_key(q, k) for q, k, w in ks)
            zero = m not in {x for x, c, w in ostale if c == V + "visitSelection"} and m not in vd
            ok = schema or zero
            why = "about the schema only" if schema else "set anew before every operation"
            if not ok:
                why = "outlives the %s it was learned from" % ("operation or fragment" if m in od | fd else "document")
        ck.ob("forgotten/" + m, ok, methods[V_]["file"], "validator state %s: %s" % (m, why))
        ck.extra["members"][m] = why
    # what one operation learns is not left for the next, on any path
    per_op = {"variables of the operation": ("_operationVariables", "_variableDefinitions", "_referencedVariables"),
              "place in the document": ("_scopedType", "_fragmentStack", "_selectionFields")}
    for what, ms in per_op.items():
        for m in ms:
            if m in fields:
                ck.ob("operation-state/" + m, m not in od and m not in fd, methods[OP]["file"], "the %s are forgotten on every path out of an operation or fragment" % what)
    # the errors handed out are those of this document, and the order: taken after the visit
    ck.ob("errors-taken", "_errors" in gclean, methods[GE]["file"], "the errors of a document are handed out once")
    # introspective data is only filled while constructing
    ctor = [f for f in tu.functions if f["nq"] == CLS + "::ValidateExecutableVisitor" and not f.get("dep")]
    ck.need(ctor, "constructor of the validator")
    for m in fields:
        if m not in changed:
            ck.ob("constant/" + m, True, ctor[0]["file"], "never changed after construction")
