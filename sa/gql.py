"""The grammar of GraphQL documents (June 2018), as the specification gives it: tokens with ignored characters between them; and the nodes a tree has for it."""
from peg import Machine, MAX

FIRST = [(0x41, 0x5A), (0x5F, 0x5F), (0x61, 0x7A)]
DIGIT = [(0x30, 0x39)]
OTHER = DIGIT + FIRST
EXECUTABLE_LOCATIONS = ("QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT")
TYPE_SYSTEM_LOCATIONS = ("SCHEMA", "SCALAR", "OBJECT", "FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INTERFACE", "UNION", "ENUM", "ENUM_VALUE", "INPUT_OBJECT", "INPUT_FIELD_DEFINITION")
# the nodes of trees of documents: those of both kinds, those of executable and of type system documents only
BOTH = set("""operation_type list_value object_field_name object_field object_value variable_value integer_value float_value escaped_unicode escaped_char string_quote_character
 block_escape_sequence block_quote_character string_value true_keyword false_keyword null_keyword enum_value field_name argument_name argument arguments directive_name directive directives
 variable scalar_name named_type list_type nonnull_type default_value operation_definition fragment_definition schema_definition scalar_type_definition object_type_definition
 interface_type_definition union_type_definition enum_type_definition input_object_type_definition directive_definition schema_extension scalar_type_extension object_type_extension
 interface_type_extension union_type_extension enum_type_extension input_object_type_extension""".split())
NODES = {
    "executable": BOTH | set("variable_name alias_name operation_name fragment_name field fragment_spread inline_fragment selection_set type_condition".split()),
    "schema": BOTH | set("""description object_name interface_name union_name enum_name root_operation_definition interface_type input_field_definition input_fields_definition
 arguments_definition field_definition fields_definition union_type enum_value_definition directive_location operation_type_definition""".split()),
}


class Item:
    """something that begins with a token: `at(lead)` is the expression with `lead` before that token; `empty` is what holds where it is left out (None: it cannot be)"""

    def __init__(self, at, empty=None):
        self.at, self.empty = at, empty


class Spec:
    """`lenient`: the deviations which are let through; `nodes`: the kinds of nodes whose begin and end are marked in the text (inner nodes may begin
    or end with ignored characters)"""

    def __init__(self, m, lenient=(), nodes=()):
        self.m, self.lenient, self.nodes = m, set(lenient), set(nodes)
        M = m
        self.ok = M.e("ok")
        c = lambda s: M.chars([(ord(x), ord(x)) for x in s])
        self.not_ = lambda e: M.e("not", e)
        peeknot = lambda rs: M.e("peeknot", tuple(sorted(rs)))
        rseq, ralt, rmany = M.seq, M.alt, (lambda e: M.e("many", e))
        rmaybe = lambda e: M.e("maybe", e)
        source = [(9, 9), (10, 10), (13, 13), (32, 0xFFFF)]
        cut = lambda *xs: self.without(source, [ord(x) for x in xs])
        white = " \t\n\r," + ("\v\f" if "white" in self.lenient else "")
        inline = self.without([(0, MAX)], [10, 13])
        self.define("Ignored", rmany(ralt(c(white), rseq(c("#"), rmany(M.chars(inline)), peeknot(inline)))))
        self.ig = self.r("Ignored")
        ahead = M.e("star", M.sor(c(white), rseq(c("#"), M.e("star", M.chars(inline)))))
        seq, alt, many, plus, maybe, node = self.seq, self.alt, self.many, self.plus, self.maybe, self.node
        tok = self.tok
        p = lambda s: tok(M.text(s))
        word = lambda s, kind=None: tok(rseq(M.text(s), peeknot(OTHER)), kind)
        raw = rseq(M.chars(FIRST), rmany(M.chars(OTHER)), peeknot(OTHER))
        self.define("Name", raw)
        name = lambda *kinds: tok(self.r("Name"), *kinds)

        def other(*words):
            """a name which is none of these words"""
            first = {}
            for w in words:
                first.setdefault(w[:1], []).append(w[1:])

            def rest(ws):
                heads = {}
                for w in ws:
                    if w:
                        heads.setdefault(w[0], []).append(w[1:])
                parts = [] if "" in ws else [peeknot(OTHER)]
                for h, tails in heads.items():
                    parts.append(rseq(c(h), rest(tails)))
                parts.append(rseq(M.chars(self.without(OTHER, [ord(h) for h in heads])), rmany(M.chars(OTHER)), peeknot(OTHER)))
                return ralt(*parts)
            return ralt(rseq(M.chars(self.without(FIRST, [ord(h) for h in first])), rmany(M.chars(OTHER)), peeknot(OTHER)), *[rseq(c(h), rest(ts)) for h, ts in first.items()])
        self.define("FragmentName", other("on"))
        self.define("EnumValue", other("true", "false", "null"))
        fragment_name, enum_value = tok(self.r("FragmentName"), "fragment_name"), tok(self.r("EnumValue"), "enum_value")
        # numbers end where no letter, digit or point follows
        integer = rseq(rmaybe(c("-")), ralt(c("0"), rseq(M.chars([(0x31, 0x39)]), rmany(M.chars(DIGIT)))))
        digits = rseq(M.chars(DIGIT), rmany(M.chars(DIGIT)))
        stop = peeknot(OTHER + [(0x2E, 0x2E)])
        fraction, exponent = rseq(c("."), digits), rseq(c("eE"), rmaybe(c("+-")), digits)
        self.define("Int", rseq(integer, stop))
        self.define("Float", rseq(integer, ralt(rseq(fraction, rmaybe(exponent)), exponent), stop))
        # strings: runs of characters and escape sequences
        mark = self.mark
        hex4 = rseq(*[M.chars([(0x30, 0x39), (0x41, 0x46), (0x61, 0x66)])] * 4)
        some = lambda e: rseq(e, rmany(e))
        if "escaped_unicode" in self.nodes:
            unicode = rseq(c("\\"), mark("escaped_unicode", rseq(c("u"), hex4, rmany(rseq(M.text("\\u"), hex4)))), self.not_(M.text("\\u")))
        else:
            unicode = rseq(M.text("\\u"), hex4)
        plain = M.chars(cut('"', "\\", "\n", "\r"))
        chunk = ralt(mark("string_quote_character", some(plain) if "string_quote_character" in self.nodes else plain), rseq(c("\\"), mark("escaped_char", c('"\\/bfnrt'))), unicode)
        empty = rseq(M.text('""'), self.not_(c('"')))
        quoted = ralt(empty, rseq(c('"'), some(chunk), c('"')))
        three, escaped = M.text('"""'), M.text('\\"""')
        blockchar = rseq(self.not_(three), self.not_(escaped), M.chars(source))
        block = rseq(three, rmany(ralt(mark("block_quote_character", some(blockchar) if "block_quote_character" in self.nodes else blockchar), mark("block_escape_sequence", escaped))), three)
        self.define("String", mark("string_value", ralt(quoted, block)))
        string = tok(self.r("String"))
        dollar = seq(p("$"), name()) if "dollar" not in self.lenient else tok(rseq(c("$"), self.r("Name")))
        variable = node("variable_name", dollar)
        R = self.item
        for const in (False, True):
            s = "Const" if const else ""
            value = R("Value" + s)
            options = [tok(self.r("Int"), "integer_value"), tok(self.r("Float"), "float_value"), string, word("true", "true_keyword"), word("false", "false_keyword"),
                       word("null", "null_keyword"), enum_value, self.nest(node("list_value", seq(p("["), many(value), p("]")))),
                       self.nest(node("object_value", seq(p("{"), many(node("object_field", seq(name("object_field_name"), p(":"), value))), p("}"))))]
            if not const or "constant" in self.lenient:
                options.append(node("variable_value", variable))
            self.add("Value" + s, alt(*options))
            self.add("Arguments" + s, node("arguments", seq(p("("), plus(node("argument", seq(name("argument_name"), p(":"), value))), p(")"))))
            self.add("Directives" + s, node("directives", plus(node("directive", seq(p("@"), name("directive_name"), maybe(R("Arguments" + s)))))))
        listtype = self.nest(node("list_type", seq(p("["), R("Type"), p("]"))))
        self.add("Type", alt(name("named_type"), listtype, node("nonnull_type", seq(alt(name("named_type"), listtype), p("!")))))
        dirs, cdirs = maybe(R("Directives")), maybe(R("DirectivesConst"))
        default = node("default_value", seq(p("="), R("ValueConst")))
        # executable
        field = node("field", seq(maybe(seq(name("alias_name"), p(":"))), name("field_name"), maybe(R("Arguments")), dirs, maybe(R("SelectionSet"))))
        condition = node("type_condition", seq(word("on"), name("named_type")))
        spread = node("fragment_spread", seq(fragment_name, dirs))
        inlined = node("inline_fragment", seq(maybe(condition), dirs, R("SelectionSet")))
        self.add("SelectionSet", self.nest(node("selection_set", seq(p("{"), plus(alt(field, seq(p("..."), alt(spread, inlined)))), p("}")))))
        variables = seq(p("("), plus(node("variable", seq(variable, p(":"), R("Type"), maybe(default)))), p(")"))
        operations = alt(*[word(w, "operation_type") for w in ("query", "mutation", "subscription")])
        operation = node("operation_definition", alt(R("SelectionSet"), seq(operations, maybe(name("operation_name")), maybe(variables), dirs, R("SelectionSet"))))
        fragment = node("fragment_definition", seq(word("fragment"), fragment_name, condition, dirs, R("SelectionSet")))
        self.add("Executable", alt(operation, fragment))
        # type system
        described = maybe(node("description", string))
        root = node("root_operation_definition", seq(operations, p(":"), name("named_type")))
        inputvalue = node("input_field_definition", seq(described, name("argument_name"), p(":"), R("Type"), maybe(default), cdirs))
        self.add("ArgumentsDefinition", node("arguments_definition", seq(p("("), plus(inputvalue), p(")"))))
        argdefs = maybe(R("ArgumentsDefinition"))
        self.add("FieldsDefinition", node("fields_definition", seq(p("{"), plus(node("field_definition", seq(described, name("field_name"), argdefs, p(":"), R("Type"), cdirs))), p("}"))))
        fields = R("FieldsDefinition")
        interface = name("interface_type", "named_type")
        implements = seq(word("implements"), maybe(p("&")), interface, many(seq(p("&"), interface)))
        member = name("union_type", "named_type")
        members = seq(p("="), maybe(p("|")), member, many(seq(p("|"), member)))
        values = seq(p("{"), plus(node("enum_value_definition", seq(described, enum_value, cdirs))), p("}"))
        inputs = node("input_fields_definition", seq(p("{"), plus(inputvalue), p("}")))
        location = alt(*[word(w, "directive_location") for w in EXECUTABLE_LOCATIONS + TYPE_SYSTEM_LOCATIONS])
        directive = node("directive_definition", seq(described, word("directive"), p("@"), name("directive_name"), argdefs, word("on"), maybe(p("|")), location, many(seq(p("|"), location))))
        # a { after a definition belongs to it, it is not the selection set of a query which follows
        bodiless = Item(lambda lead: M.e("no"), self.not_(rseq(ahead, c("{"))))
        body = lambda e: alt(e, bodiless)
        one = lambda kind, kw, n, *rest: node(kind, seq(described, word(kw), name(n), *rest))
        types = alt(one("scalar_type_definition", "scalar", "scalar_name", cdirs), one("object_type_definition", "type", "object_name", maybe(implements), cdirs, body(fields)),
                    one("interface_type_definition", "interface", "interface_name", cdirs, body(fields)), one("union_type_definition", "union", "union_name", cdirs, maybe(members)),
                    one("enum_type_definition", "enum", "enum_name", cdirs, body(values)), one("input_object_type_definition", "input", "object_name", cdirs, body(inputs)))
        D = R("DirectivesConst")
        more = lambda kind, kw, n, *rest: node(kind, seq(word("extend"), word(kw), *([name(n)] if n else []), *rest))
        ends = lambda e: alt(seq(D, bodiless), seq(cdirs, e))
        extends = alt(more("schema_extension", "schema", None, ends(seq(p("{"), plus(node("operation_type_definition", root)), p("}")))),
                      more("scalar_type_extension", "scalar", "scalar_name", D),
                      more("object_type_extension", "type", "object_name", alt(seq(implements, bodiless), seq(maybe(implements), D, bodiless), seq(maybe(implements), cdirs, fields))),
                      more("interface_type_extension", "interface", "interface_name", ends(fields)), more("union_type_extension", "union", "union_name", alt(D, seq(cdirs, members))),
                      more("enum_type_extension", "enum", "enum_name", ends(values)), more("input_object_type_extension", "input", "object_name", ends(inputs)))
        schema = node("schema_definition", seq(word("schema"), cdirs, p("{"), plus(root), p("}")))
        self.add("TypeSystem", alt(schema, types, directive, extends))
        bom = rmaybe(M.chars([(0xFEFF, 0xFEFF)]))
        doc = lambda *ds: rseq(bom, plus(alt(*[R(d) for d in ds])).at(self.ig), self.ig, M.e("eof"))
        self.documents = {"executable": doc("Executable"), "schema": doc("TypeSystem"), "mixed": doc("Executable", "TypeSystem")}

    # --- items
    def mark(self, kind, e):
        return self.m.seq(self.m.e("mark", "<" + kind), e, self.m.e("mark", ">" + kind)) if kind in self.nodes else e

    def tok(self, e, *kinds):
        for k in reversed(kinds):
            if k:
                e = self.mark(k, e)
        return Item(lambda lead: self.m.seq(lead, e) if lead != self.ok else e)

    def node(self, kind, item):
        if kind not in self.nodes:
            return item
        seq = self.m.seq
        mark = lambda b: seq(self.m.e("mark", "<" + kind), b, self.ig, self.m.e("mark", ">" + kind))

        def at(lead):
            if lead == self.ok:
                return mark(item.at(lead))
            return self.m.alt(seq(lead, mark(item.at(self.ok))), mark(item.at(lead)))
        return Item(at)

    def nest(self, item):
        return Item(lambda lead: self.m.seq(lead, self.m.e("nest", item.at(self.ok))) if lead != self.ok else self.m.e("nest", item.at(lead)))

    def maybe(self, item):
        return Item(item.at, self.ok)

    def many(self, item):
        return Item(self.plus(item).at, self.ok)

    def plus(self, item):
        return Item(lambda lead: self.m.seq(item.at(lead), self.m.e("many", item.at(self.ig))))

    def alt(self, *items):
        empty = [i.empty for i in items if i.empty is not None]
        return Item(lambda lead: self.m.alt(*[i.at(lead) for i in items]), self.m.alt(*empty) if empty else None)

    def seq(self, *items):
        m = self.m

        def full(k, lead):
            """all from the k-th on"""
            if k == len(items):
                return self.ok
            i = items[k]
            there = m.seq(i.at(lead), full(k + 1, self.ig))
            return there if i.empty is None else m.alt(there, m.seq(i.empty, full(k + 1, lead)))

        def at(k, lead):
            """the same where not all of it is left out"""
            if k == len(items):
                return m.e("no")
            i = items[k]
            there = m.seq(i.at(lead), full(k + 1, self.ig))
            return there if i.empty is None else m.alt(there, m.seq(i.empty, at(k + 1, lead)))
        empty = None if any(i.empty is None for i in items) else m.seq(*[i.empty for i in items])
        return Item(lambda lead: at(0, lead), empty)

    def add(self, name, item):
        """recursive: its expression does not hold what may stand before it"""
        self.define(name, item.at(self.ok))

    def item(self, name):
        return Item(lambda lead: self.m.seq(lead, self.r(name)) if lead != self.ok else self.r(name))

    def without(self, ranges, points):
        out = []
        for a, b in ranges:
            for x in sorted(points):
                if a <= x <= b:
                    if x > a:
                        out.append((a, x - 1))
                    a = x + 1
            if a <= b:
                out.append((a, b))
        return out

    def define(self, name, e):
        self.m.rules["spec " + name] = e

    def r(self, name):
        return self.m.rule("spec " + name)
