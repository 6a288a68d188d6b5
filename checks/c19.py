"""Field and selection rules of validation: selected fields exist on the enclosing type, composite fields have a
selection and leaf fields have none, and selections with the same response name can be merged."""
from vcommon import *

SCOPE = ("f", THIS, "_scopedType")


def run(ck):
    tu = ck.load(SRC)
    KINDS = [c[0] for c in tu.enum("graphql::introspection::TypeKind")["c"]]
    # ---- leaf kinds
    f = fn(tu, "isScalarType")
    for k in KINDS:
        d = Decision(value=True)
        rows = ck.table(tu, f, d, bind={f["p"][0]["d"]: ("enum", "graphql::introspection::TypeKind::" + k)})
        want = k not in ("OBJECT", "INTERFACE", "UNION")
        vals = {r.value for r in rows}
        ck.ob("leaf-kind/" + k, vals == {TRUE if want else FALSE}, f["file"], "%s is %s leaf kind" % (k, "a" if want else "not a"))

    # ---- dispatch of selections
    f = fn(tu, "visitSelection")
    d = Decision(atoms=dict(f=isty("field"), s=isty("fragment_spread"), i=isty("inline_fragment")),
                 events=dict(vf=calls("visitField"), vs=calls("visitFragmentSpread"), vi=calls("visitInlineFragment")), unit=lambda ctx, rng, node: rng[0] == "f" and rng[2] == "children", opaque=BOUND)
    rows = ck.table(tu, f, d)
    for a, e, w in (("f", "vf", "field"), ("s", "vs", "fragment spread"), ("i", "vi", "inline fragment")):
        ck.must("dispatch/" + w.replace(" ", "-"), rows, [(a, True)], e, "every %s of a selection is validated" % w)
        ck.ob("dispatch/%s-told" % w.replace(" ", "-"), any(r.has(a) for r in rows), f["file"], "%ss are recognised" % w)

    # ---- one field
    f = fn(tu, "visitField")
    node = ("v", f["p"][0]["n"], f["p"][0]["d"])
    fname = lambda t: any(x[0] == "elem" and x[2:] == ("field_name",) for x in subterms(t)) or t[0] == "v"
    GT = V + "getScopedTypeFields"
    ftype = lambda t: any(x[0] == "call" and x[1].split("::")[-1] in ("getFieldType", "getWrappedFieldType") and mentions("getScopedTypeFields")(x) for x in subterms(t))
    inner = lambda t: any(x[0] == "call" and x[1].split("::")[-1] == "getFieldType" for x in phi_alts(t))
    scope_kind = lambda k: lambda t: t[0] == "eq" and any(x[0] == "enum" and x[1].endswith("TypeKind::" + k) for x in t[1:]) and any(x[0] == "call" and x[1].endswith("::kind") and x[3] == SCOPE for x in t[1:])
    found_alias = lambda t: t[0] == "found" and fieldname(t[1]) == "_selectionFields" and any(x[0] == "elem" and x[2:] == ("alias_name",) for x in subterms(t[2]))
    same = lambda t: t[0] == "eq" and mentions("_selectionFields", "find")(t)
    atoms = dict(nofields=lambda t: t[0] == "eq" and mentions("_typeFields", "getScopedTypeFields")(t) and not mentions("second")(t),
                 obj=scope_kind("OBJECT"), itf=scope_kind("INTERFACE"), uni=scope_kind("UNION"),
                 typename=lambda t: t[0] == "eq" and ("c", "__typename") in t and any(fname(x) for x in t[1:]),
                 inner=lambda t: (inner(t) and t[0] in ("phi", "call")) or (t[0] == "v" and t != node),
                 dupname=found_alias, same=same,
                 hassel=lambda t: is_type(t, "selection_set"),
                 leaf=lambda t: t[0] == "call" and t[1] == V + "isScalarType" and (inner_kind(t) if t[4] else False),
                 sub0=lambda t: t[0] == "eq" and ("c", 0) in t and any(fieldname(x) == "_fieldCount" or (x[0] == "phi") for x in t[1:]))

    def inner_kind(t):
        return t[4][0][0] == "call" and t[4][0][1].endswith("::kind")

    # errors of arguments and directives are other rules': they are not recorded here
    argrelated = lambda ctx: any(mentions("arguments")(l) for l in ())

    class F(Decision):
        def on_loop(self, ctx, st, rng, node_):
            return st
    d = F(atoms={k: atoms[k] for k in ("nofields", "obj", "itf", "uni", "typename", "inner")},
          events=dict(error=is_err, select=calls("visitSelection"), register=lambda c: grows(c) and fieldname(c.obj) == "_selectionFields"),
          writes=dict(count=lambda l, r, op: fieldname(l) == "_fieldCount" and op == "++"), opaque=BOUND, ordered=False)
    rows = ck.table(tu, f, d)
    ck.evaluated("field/fields-tested", rows, "nofields", [], "the fields of the enclosing type are looked up")
    ck.must("field/on-leaf", rows, [("nofields", True)], lambda r: r.did("error") and not r.did("count") and not r.did("select"), "selecting a field on a leaf type is an error")
    ck.must("field/on-union", rows, [("uni", True), ("typename", False)], lambda r: r.did("error") and not r.did("count") and not r.did("select"), "a union only has the type name field")
    ck.evaluated("field/union-tested", [r for r in rows if r.has("uni", True)], "typename", [], "a union only has the type name field")
    ck.must("field/undefined", rows, [("inner", False)], lambda r: r.did("error") and not r.did("count") and not r.did("select"), "selecting an undefined field is an error")
    ck.evaluated("field/defined-tested", [r for r in rows if r.has("obj") or r.has("itf")], "inner", [lambda r: r.did("error") and not r.did("count")], "every selected field is looked up in the enclosing type")
    ck.must("field/accepted", rows, [lambda r: r.did("count") or r.did("select")], lambda r: r.has("inner", True) or r.has("typename", True), "only defined fields are accepted")

    # where the field's type comes from
    class T(Decision):
        def on_write(self, ctx, st, l, r, op, node_):
            if l and l[0] == "v" and r and r[0] == "call" and r[1].split("::")[-1] in ("getFieldType", "getWrappedFieldType"):
                ok = len(r[4]) == 2 and mentions("getScopedTypeFields", "second")(r[4][0]) and fname(r[4][1])
                st = self.add(st, "%s:%s" % (r[1].split("::")[-1], "ok" if ok else "bad"), ctx, node_)
            return st
    d = T(opaque=BOUND, ordered=False)
    rows = ck.table(tu, f, d)
    ck.ob("field/type-source", any(r.did("getFieldType:ok") for r in rows) and not any(r.did("getFieldType:bad") or r.did("getWrappedFieldType:bad") for r in rows), f["file"], "the type of a field is that of the field of this name on the enclosing type")

    # ---- merging
    class M(Decision):
        """errors directly after the comparison; argument rules are not of interest"""
        def on_call(self, ctx, st, call):
            on, at, evs = st.ts
            if is_err(call):
                return ("opaque", self.add(st, "conflict", ctx, call.node)) if ("same", False) in at and "conflict" not in evs and "after" not in evs else ("opaque", st)
            return super().on_call(ctx, st, call)
    d = M(atoms=dict(inner=atoms["inner"], dupname=found_alias, same=same), events=dict(register=lambda c: grows(c) and fieldname(c.obj) == "_selectionFields", select=calls("visitSelection")),
          loops=dict(after=lambda r: mentions("getScopedTypeFields", "arguments")(r)), writes=dict(count=lambda l, r, op: fieldname(l) == "_fieldCount" and op == "++"), opaque=BOUND)
    rows = ck.table(tu, f, d)
    acc = [r for r in rows if r.did("count")]
    ck.evaluated("merge/tested", acc, "dupname", [], "every accepted field is compared with the earlier one of the same response name")
    ck.evaluated("merge/compared", [r for r in rows if r.has("dupname", True)], "same", [], "fields with the same response name are compared")
    ck.must("merge/conflict", rows, [("same", False)], "conflict", "fields with the same response name that differ are an error")
    ck.must("merge/registered", acc, [lambda r: not r.has("dupname", True)], "register", "every accepted field is remembered under its response name")
    # what is compared
    class R(Decision):
        def on_call(self, ctx, st, call):
            if grows(call) and fieldname(call.obj) == "_selectionFields":
                k = call.args[0]
                al = {x[2] for x in subterms(k) if x[0] == "elem" and len(x) == 3}
                st = self.add(st, "key:" + "+".join(sorted(al)), ctx, call.node)
                return ("opaque", st)
            return super().on_call(ctx, st, call)

        def on_new(self, ctx, st, ctype, args, node_):
            if strip_targs(ctype).endswith("::ValidateField") and len(args) == 4:
                ok = any(x[0] == "call" and x[1].endswith("getWrappedFieldType") for x in phi_alts(args[0]) for x in subterms(x)) and fname(args[2])
                scoped = [x for x in phi_alts(args[1]) if x == SCOPE or fieldname(x) == "_scopedType"]
                st = self.add(st, "made:%s" % ("ok" if ok and scoped else "bad"), ctx, node_)
            return st
    class K(R):
        """the key of every lookup and insertion of a response name"""
        def on_branch(self, ctx, st, atom, val):
            if atom[0] == "found" and fieldname(atom[1]) == "_selectionFields":
                st = self.add(st, "key:" + "+".join(sorted({x[2] for x in subterms(atom[2]) if x[0] == "elem" and len(x) == 3})), ctx, {})
            return super().on_branch(ctx, st, atom, val)
    noalias = lambda t: t[0] == "empty" and any(x[0] == "elem" and x[2:] == ("alias_name",) for x in subterms(t)) or t == ("elem", ("f", node, "children"), "alias_name")
    d = K(atoms=dict(noalias=noalias, hasalias=lambda t: is_type(t, "alias_name")), opaque=BOUND, ordered=False, loops={})
    rows = ck.table(tu, f, d)
    keyed = [r for r in rows if any(e.startswith("key:") for e in r.events)]
    ks = lambda r: {p for e in r.events if e.startswith("key:") for p in e[4:].split("+")}
    ck.must("merge/alias-used", keyed, [("noalias", False)], lambda r: "alias_name" in ks(r) and "field_name" not in ks(r), "a field with an alias is known by its alias")
    ck.must("merge/name-used", keyed, [("noalias", True)], lambda r: "field_name" in ks(r) and "alias_name" not in ks(r), "a field without an alias is known by its name")
    ck.ob("merge/alias-tested", any(r.has("noalias", False) for r in keyed) and any(r.has("noalias", True) for r in keyed), f["file"], "fields with an alias are told from those without")

    d = R(opaque=BOUND, ordered=False)
    rows = ck.table(tu, f, d)
    ck.ob("merge/key", {e for r in rows for e in r.events if e.startswith("key:")} == {"key:alias_name+field_name"}, f["file"], "the response name of a field is its alias or else its name")
    ck.ob("merge/signature", {e for r in rows for e in r.events if e.startswith("made:")} == {"made:ok"}, f["file"], "a field is compared by its type, enclosing object type, name and arguments")

    g = [x for x in tu.find("graphql::service::ValidateField::operator==")]
    if g:
        g = g[0]
        o = ("v", g["p"][0]["n"], g["p"][0]["d"])
        both = lambda n: lambda t: t[0] == "eq" and {t[1], t[2]} == {("f", THIS, n), ("f", o, n)}
        d = Decision(atoms=dict(ret=both("returnType"), sameobj=both("objectType"), mine=lambda t: t == ("f", THIS, "objectType"), theirs=lambda t: t == ("f", o, "objectType"), name=both("fieldName"), args=both("arguments")), value=True)
        rows = ck.table(tu, g, d)
        T = [r for r in rows if r.value == TRUE]
        F = [r for r in rows if r.value == FALSE]
        ck.ob("mergeable/decided", T and F and len(T) + len(F) == len(rows), g["file"], "mergeability is decided on every path")
        differ = lambda r: r.has("mine", True) and r.has("theirs", True) and r.has("sameobj", False)
        ck.must("mergeable/type", T, [], lambda r: r.has("ret", True), "mergeable fields have the same type")
        ck.must("mergeable/name", T, [], lambda r: differ(r) or (r.has("name", True) and r.has("args", True)), "mergeable fields have the same name and arguments, unless they belong to different object types")
        ck.must("conflicting", F, [], lambda r: r.has("ret", False) or (not differ(r) and (r.has("name", False) or r.has("args", False))), "fields only conflict when their types, names or arguments differ")
    else:
        ck.need(False, "ValidateField::operator==")
    for cls, part in (("ValidateArgumentVariable", "name"), ("ValidateArgumentEnumValue", "value"), ("ValidateArgumentList", "values"), ("ValidateArgumentMap", "values")):
        h = tu.find("graphql::service::%s::operator==" % cls)
        ck.need(h, cls + "::operator==")
        h = h[0]
        o = ("v", h["p"][0]["n"], h["p"][0]["d"])
        d = Decision(value=True, atoms=dict(eq=lambda t: t[0] == "eq" and {t[1], t[2]} == {("f", THIS, part), ("f", o, part)}))
        rows = ck.table(tu, h, d)
        iseq = lambda v: isinstance(v, tuple) and v[0] == "eq" and {v[1], v[2]} == {("f", THIS, part), ("f", o, part)}
        ck.ob("argument-equality/" + cls, rows and all(iseq(r.value) or (r.value == TRUE and r.has("eq", True)) or (r.value == FALSE and r.has("eq", False)) for r in rows), h["file"], "equal arguments have equal values")
    h = tu.find("graphql::service::ValidateArgumentValuePtr::operator==")
    ck.need(h, "ValidateArgumentValuePtr::operator==")
    h = h[0]
    o = ("v", h["p"][0]["n"], h["p"][0]["d"])
    data = lambda t: t[0] == "eq" and all(fieldname(x) == "data" for x in t[1:]) and {x[1] for x in t[1:]} == {("f", THIS, "value"), ("f", o, "value")}
    d = Decision(value=True, atoms=dict(mine=lambda t: t == ("f", THIS, "value"), theirs=lambda t: t == ("f", o, "value"), data=data))
    rows = ck.table(tu, h, d)
    ck.must("argument-equality/null", [r for r in rows if r.value == TRUE], [], lambda r: (r.has("mine", False) and r.has("theirs", False)) or (r.has("data", True)), "null only equals null, and values equal when their contents do")
    ck.must("argument-equality/differs", [r for r in rows if r.value == FALSE], [], lambda r: (r.seen("mine") and r.seen("theirs") and r.has("mine", True) != r.has("theirs", True)) or r.has("data", False), "equal values are not told apart")

    # ---- sub-selections
    d = Decision(atoms=dict(hassel=lambda t: is_type(t, "selection_set") and t[1][0] == "elem" and t[1][1] == ("f", node, "children"), leaf=atoms["leaf"], inner=atoms["inner"], same=same, sub0=atoms["sub0"], nofields=atoms["nofields"]),
                 events=dict(select=lambda c: c.nq == V + "visitSelection", clear=lambda c: c.name == "clear" and fieldname(c.obj) == "_selectionFields"),
                 writes=dict(scopein=lambda l, r, op: l == SCOPE and r and any(x[0] == "call" and x[1].endswith("getFieldType") for x in subterms(r)),
                             scopeout=lambda l, r, op: l == SCOPE and r == ("old", SCOPE),
                             scopebad=lambda l, r, op: l == SCOPE,
                             fieldsout=lambda l, r, op: fieldname(l) == "_selectionFields" and r and r[0] == "old" and fieldname(r) == "_selectionFields",
                             clear2=lambda l, r, op: fieldname(l) == "_selectionFields",
                             zero=lambda l, r, op: fieldname(l) == "_fieldCount" and r == ("c", 0),
                             restore=lambda l, r, op: fieldname(l) == "_fieldCount" and r == ("old", ("f", THIS, "_fieldCount")),
                             count=lambda l, r, op: fieldname(l) == "_fieldCount" and op == "++"),
                 nonempty=lambda r: r == ("f", node, "children"), opaque=BOUND)
    rows = ck.table(tu, f, d)
    acc = [r for r in rows if r.has("inner", True) and not r.has("same", True)]
    ck.evaluated("selection/searched", acc, "hassel", [], "every field is searched for a selection")
    ck.must("selection/visited", acc, [("hassel", True)], "select", "the selection of a field is validated")
    s = [r for r in rows if r.did("select")]
    before = lambda r, *e: any(x in r.events[:r.index("select")] for x in e)
    after = lambda r, *e: any(x in r.events[r.index("select"):] for x in e)
    ck.must("selection/scope", s, [], lambda r: before(r, "scopein") and not r.did("scopebad"), "it is validated against the type of the field")
    ck.must("selection/scope-restored", s, [], lambda r: after(r, "scopeout"), "the enclosing type is in effect again afterwards")
    ck.must("selection/own-names", s, [], lambda r: before(r, "clear", "clear2"), "response names are compared within one selection only")
    ck.must("selection/names-restored", s, [], lambda r: after(r, "fieldsout"), "the response names of the enclosing selection are remembered")
    ck.must("selection/counted", s, [], lambda r: before(r, "zero") and after(r, "restore"), "the fields of the selection are counted on their own")

    class L(Decision):
        """leaf rule: last part of the function"""
        def on_call(self, ctx, st, call):
            if is_err(call):
                on, at, evs = st.ts
                return ("opaque", self.add(st, "error", ctx, call.node)) if ("sub0", True) in at or ("leaf", False) in at else ("opaque", st)
            return super().on_call(ctx, st, call)
    d = L(atoms=dict(leaf=lambda t: t[0] == "call" and t[1] == V + "isScalarType", sub0=atoms["sub0"], inner=atoms["inner"], same=same, hassel=lambda t: is_type(t, "selection_set") and t[1][0] == "elem" and t[1][1] == ("f", node, "children")),
          events=dict(select=calls("visitSelection")), writes=dict(count=lambda l, r, op: fieldname(l) == "_fieldCount" and op == "++"), opaque=BOUND, ordered=False)
    rows = [r for r in ck.table(tu, f, d) if r.has("inner", True) and not r.has("same", True)]
    ck.must("leaf/missing-selection", rows, [lambda r: not r.did("select"), ("leaf", False)], lambda r: r.did("error") and not r.did("count"), "a composite field without a selection is an error")
    ck.must("leaf/empty-selection", rows, [("sub0", True), ("leaf", False)], lambda r: r.did("error") and not r.did("count"), "a composite field none of whose selections is valid is an error")
    ck.evaluated("leaf/tested", [r for r in rows if not r.did("select")], "leaf", [], "a field without a selection is tested for being a leaf")
    ck.must("leaf/quiet", rows, [lambda r: r.has("leaf", True) or r.has("sub0", False)], lambda r: r.did("count"), "leaf fields and composite fields with a selection are accepted")

    # ---- the fields of a type
    f = fn(tu, "getScopedTypeFields")
    B = tuple(b for b in BOUND if b != GT) + (V + "isScalarType", V + "getArguments")
    key = lambda c: lambda l, r, op: l and l[0] == "idx" and l[2] == ("c", c)
    d = Decision(atoms=dict(cached=lambda t: t[0] == "found" and fieldname(t[1]) == "_typeFields", leaf=lambda t: t[0] == "call" and t[1] == V + "isScalarType",
                            intro=lambda t: t[0] == "call" and t[1].endswith("::supportsIntrospection"),
                            root=lambda t: t[0] == "eq" and SCOPE in t and any(x[0] == "idx" and fieldname(x[1]) == "_operationTypes" and mentions("strQuery")(x[2]) for x in t[1:])),
                 writes=dict(typename=key("__typename"), schema=key("__schema"), type=key("__type")),
                 events=dict(store=lambda c: grows(c) and fieldname(c.obj) == "_typeFields" and any(x[0] == "call" and x[1].endswith("::name") and x[3] == SCOPE for x in subterms(c.args[0]))),
                 loops=dict(fields=lambda r: r[0] == "call" and r[1].endswith("::fields") and r[3] == SCOPE), opaque=B)
    rows = ck.table(tu, f, d)
    made = [r for r in rows if r.has("cached", False) and r.has("leaf", False)]
    ck.need(made, "getScopedTypeFields never builds the fields of a composite type")
    ck.must("fields/built", made, [], lambda r: r.did("store") and r.did("loop:fields") and r.did("typename"), "the fields of a composite type are those the schema gives it and the type name field")
    ck.never("fields/leaf", rows, [("leaf", True)], "store", "a leaf type has no fields")
    ck.must("fields/introspection", made, [("intro", True), ("root", True)], lambda r: r.did("schema") and r.did("type"), "the root query type of a schema with introspection has the schema and type fields")
    for k in ("intro", "root"):
        ck.never("fields/no-introspection-" + k, made, [(k, False)], lambda r: r.did("schema") or r.did("type"), "no other type has the schema and type fields")
        ck.ob("fields/introspection-" + k, any(r.has(k, False) for r in made), f["file"], "introspection fields depend on the schema and the type")
    el = lambda t: any(x[0] == "elem" for x in subterms(t))
    d = Decision(atoms=dict(entry=lambda t: t[0] == "elem", noname=lambda t: t[0] == "empty" and el(t), type=lambda t: fieldname(t) == "returnType" or (t[0] == "call" and el(t) and t[1].endswith("::lock"))),
                 writes=dict(put=lambda l, r, op: l[0] == "idx" and any(x[0] == "call" and x[1].endswith("::name") for x in subterms(l[2])) and el(l[2]),
                             type=lambda l, r, op: fieldname(l) == "returnType" and mentions("type")(r) and el(r), args=lambda l, r, op: fieldname(l) == "arguments" and mentions("getArguments", "args")(r) and el(r)),
                 unit=lambda ctx, rng, node: rng[0] == "call" and rng[1].endswith("::fields"), opaque=B)
    rows = ck.table(tu, f, d)
    ck.must("fields/each", rows, [lambda r: not r.has("entry", False) and not r.has("noname", True) and not r.has("type", False)], lambda r: r.did("put") and r.did("type") and r.did("args") and r.index("type") < r.index("put") and r.index("args") < r.index("put"),
            "each field of the type is known by its name, with its type and arguments")

    # unwrapping of wrapper types
    for x in [y for y in tu.find(V + "getFieldType") if not y.get("dep")]:
        d = Decision(atoms=dict(found=lambda t: t[0] == "found", noname=lambda t: t[0] == "empty" and mentions("name")(t)), events={}, value=True, opaque=[b for b in BOUND if "FieldType" not in b])
        rows = ck.table(tu, x, d)
        ck.must("unwrap/undefined", rows, [("found", False)], lambda r: r.value is not None and r.value[0] == "new" or r.value in (("c", None),) , "an undefined field has no type")
            # lists and non-null wrappers are unwrapped down to the named type
    for x in [y for y in tu.find(V + "getWrappedFieldType") if not y.get("dep")]:
        d = Decision(atoms=dict(found=lambda t: t[0] == "found"), events={}, value=True, opaque=[b for b in BOUND if "FieldType" not in b])
        rows = ck.table(tu, x, d)
        ck.must("wrapped/undefined", rows, [], lambda r: r.seen("found"), "it is asked whether the field is defined")
        ck.must("wrapped/type", rows, [("found", True)], lambda r: any(fieldname(y) in ("returnType", "type") for y in subterms(r.value or ())), "a field has the type it is defined with, wrappers included")
    src = [y for y in tu.find(V + "getFieldType") if not y.get("dep")]
    ck.need(src, "getFieldType")

    class U(Decision):
        def on_call(self, ctx, st, call):
            if call.name == "ofType":
                st = self.add(st, "oftype", ctx, call.node)
                return ("opaque", st)
            return super().on_call(ctx, st, call)
    for x in src[:1]:
        d = U(atoms=dict(some=lambda t: fieldname(t) in ("returnType", "type") and t[0] != "found", found=lambda t: t[0] == "found", noname=lambda t: t[0] == "empty" and mentions("name")(t)), opaque=[b for b in BOUND if "FieldType" not in b], value=True)
        rows = ck.table(tu, x, d)
        ck.evaluated("unwrap/tested", [r for r in rows if r.has("found", True)], "noname", [("some", False)], "the type of a field is tested for being a wrapper")
        ck.ob("unwrap/stepped", any(r.did("oftype") and r.has("noname", True) for r in rows), x["file"], "wrapper types are unwrapped")
