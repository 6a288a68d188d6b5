"""The schema language, read independently of the repository: a document becomes plain dictionaries (June 2018 edition)."""
import re

TOKEN = re.compile(r'''(?P<skip>[\s,\ufeff]+|\#[^\n\r]*)|(?P<block>"""(?:\\"""|(?!""").)*""")|(?P<str>"(?:\\.|[^"\\\n])*")|(?P<float>-?(?:0|[1-9]\d*)(?:\.\d+(?:[eE][+-]?\d+)?|[eE][+-]?\d+))|(?P<int>-?(?:0|[1-9]\d*))|(?P<name>[_A-Za-z]\w*)|(?P<punct>\.\.\.|[!$&()\[\]{}:=@|])''', re.S)
ESC = {'"': '"', "\\": "\\", "/": "/", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t"}


class Bad(Exception):
    pass


def tokens(text):
    out, i = [], 0
    while i < len(text):
        m = TOKEN.match(text, i)
        if not m:
            raise Bad("at %r" % text[i:i + 20])
        if m.lastgroup != "skip":
            out.append((m.lastgroup, m.group(), i, m.end()))
        i = m.end()
    return out + [("end", "", len(text), len(text))]


def unescape(s):
    return re.sub(r'\\(?:u([0-9A-Fa-f]{4})|(.))', lambda m: chr(int(m.group(1), 16)) if m.group(1) else ESC[m.group(2)], s)


def block_value(raw):
    """BlockStringValue() of the specification"""
    lines = re.split("\r\n|\n|\r", raw)
    indent = None
    for l in lines[1:]:
        n = len(l) - len(l.lstrip(" \t"))
        if n < len(l) and (indent is None or n < indent):
            indent = n
    if indent:
        lines = lines[:1] + [l[indent:] for l in lines[1:]]
    while lines and not lines[0].strip(" \t"):
        lines.pop(0)
    while lines and not lines[-1].strip(" \t"):
        lines.pop()
    return "\n".join(lines)


class Text(str):
    """a string value; as a block string it is also known as it was written"""
    raw = None

    def __eq__(self, other):
        return str.__eq__(self, other) or (self.raw is not None and str.__eq__(self.raw, str(other)))

    def __ne__(self, other):
        return not self == other
    __hash__ = str.__hash__


def string(kind, tok):
    if kind == "str":
        return Text(unescape(tok[1:-1]))
    raw = tok[3:-3].replace('\\"""', '"""')
    t = Text(block_value(raw))
    t.raw = raw
    return t


class Enum(str):
    pass


class Var(str):
    pass


class Parser:
    def __init__(self, text):
        self.text, self.t, self.i = text, tokens(text), 0

    @property
    def k(self):
        return self.t[self.i][0]

    @property
    def v(self):
        return self.t[self.i][1]

    def next(self):
        self.i += 1
        return self.t[self.i - 1][1]

    def eat(self, v):
        if self.v == v and self.k in ("punct", "name"):
            return self.next()
        return None

    def need(self, v):
        if not self.eat(v):
            raise Bad("%r expected, %r found" % (v, self.v))

    def name(self):
        if self.k != "name":
            raise Bad("name expected, %r found" % self.v)
        return self.next()

    def value(self):
        k, v = self.k, self.v
        if k in ("str", "block"):
            self.next()
            return string(k, v)
        if k == "int":
            self.next()
            return int(v)
        if k == "float":
            self.next()
            return float(v)
        if k == "name":
            self.next()
            return {"true": True, "false": False, "null": None}.get(v, Enum(v)) if v in ("true", "false", "null") else Enum(v)
        if self.eat("$"):
            return Var(self.name())
        if self.eat("["):
            r = []
            while not self.eat("]"):
                r.append(self.value())
            return r
        if self.eat("{"):
            r = {}
            while not self.eat("}"):
                n = self.name()
                self.need(":")
                r[n] = self.value()
            return r
        raise Bad("value expected, %r found" % v)

    def type(self):
        if self.eat("["):
            t = ("list", self.type())
            self.need("]")
        else:
            t = ("name", self.name())
        return ("nonnull", t) if self.eat("!") else t

    def description(self):
        if self.k in ("str", "block"):
            k = self.k
            return string(k, self.next())
        return Text("")

    def arguments(self):
        r = {}
        if self.eat("("):
            while not self.eat(")"):
                n = self.name()
                self.need(":")
                r[n] = self.value()
        return r

    def directives(self):
        r = []
        while self.eat("@"):
            n = self.name()
            r.append((n, self.arguments()))
        return r

    def inputs(self, end):
        r = []
        while not self.eat(end):
            d = self.description()
            n = self.name()
            self.need(":")
            t = self.type()
            x = {"name": n, "desc": d, "type": t, "has": False}
            if self.eat("="):
                b = self.t[self.i][2]
                x["default"] = self.value()
                x["has"] = True
                x["text"] = self.text[b:self.t[self.i - 1][3]]
            x["dirs"] = self.directives()
            r.append(x)
        return r

    def fields(self):
        r = []
        while not self.eat("}"):
            d = self.description()
            n = self.name()
            args = self.inputs(")") if self.eat("(") else []
            self.need(":")
            t = self.type()
            r.append({"name": n, "desc": d, "args": args, "type": t, "dirs": self.directives()})
        return r

    def values(self):
        r = []
        while not self.eat("}"):
            d = self.description()
            r.append({"name": self.name(), "desc": d, "dirs": self.directives()})
        return r

    # executable documents
    def selections(self):
        r = []
        while not self.eat("}"):
            if self.eat("..."):
                if self.k == "name" and self.v != "on":
                    r.append({"kind": "spread", "name": self.name(), "dirs": self.directives()})
                    continue
                on = self.name() if self.eat("on") else None
                dirs = self.directives()
                self.need("{")
                r.append({"kind": "inline", "on": on, "dirs": dirs, "sel": self.selections()})
                continue
            n = self.name()
            alias = None
            if self.eat(":"):
                alias, n = n, self.name()
            x = {"kind": "field", "name": n, "alias": alias or n, "args": self.arguments(), "dirs": self.directives(), "sel": []}
            if self.eat("{"):
                x["sel"] = self.selections()
            r.append(x)
        return r


def request(text):
    p = Parser(text)
    ops, frags = [], {}
    while p.k != "end":
        if p.eat("{"):
            ops.append({"type": "query", "name": "", "vars": [], "dirs": [], "sel": p.selections()})
        elif p.eat("fragment"):
            n = p.name()
            p.need("on")
            on = p.name()
            d = p.directives()
            p.need("{")
            frags[n] = {"on": on, "dirs": d, "sel": p.selections()}
        else:
            t = p.name()
            n = p.name() if p.k == "name" else ""
            vs = []
            if p.eat("("):
                while not p.eat(")"):
                    p.need("$")
                    v = {"name": p.name()}
                    p.need(":")
                    v["type"] = p.type()
                    v["has"] = bool(p.eat("="))
                    if v["has"]:
                        v["default"] = p.value()
                    vs.append(v)
            d = p.directives()
            p.need("{")
            ops.append({"type": t, "name": n, "vars": vs, "dirs": d, "sel": p.selections()})
    return ops, frags


BUILTIN = ("Int", "Float", "String", "Boolean", "ID")


class Schema:
    def __init__(self, text):
        self.types, self.directives, self.roots = {}, {}, {}
        p, late = Parser(text), []
        while p.k != "end":
            d = p.description()
            ext = bool(p.eat("extend"))
            w = p.name()
            if w == "schema":
                p.directives()
                p.need("{")
                while not p.eat("}"):
                    o = p.name()
                    p.need(":")
                    self.roots[o] = p.name()
                continue
            if w == "directive":
                p.need("@")
                n = p.name()
                args = p.inputs(")") if p.eat("(") else []
                p.need("on")
                p.eat("|")
                on = [p.name()]
                while p.eat("|"):
                    on.append(p.name())
                self.directives[n] = {"desc": d, "args": args, "on": on}
                continue
            n = p.name()
            if ext and n not in self.types:
                self.types[n] = {"kind": w, "name": n, "desc": Text(""), "fields": [], "interfaces": [], "values": [], "members": [], "inputs": [], "late": True}
            if not ext and n in self.types and self.types[n].pop("late", None):
                late.append(dict(self.types[n]))
                del self.types[n]
            if not ext:
                self.types[n] = {"kind": w, "name": n, "desc": d, "fields": [], "interfaces": [], "values": [], "members": [], "inputs": []}
            t = self.types[n]
            if p.eat("implements"):
                p.eat("&")
                t["interfaces"].append(p.name())
                while p.eat("&"):
                    t["interfaces"].append(p.name())
            p.directives()
            if w == "union":
                if p.eat("="):
                    p.eat("|")
                    t["members"].append(p.name())
                    while p.eat("|"):
                        t["members"].append(p.name())
            elif p.eat("{"):
                if w in ("type", "interface"):
                    t["fields"] += p.fields()
                elif w == "enum":
                    t["values"] += p.values()
                elif w == "input":
                    t["inputs"] += p.inputs("}")
        for t in late:
            for k in ("fields", "interfaces", "values", "members", "inputs"):
                self.types[t["name"]][k] += t[k]
        if not self.roots:
            for o, n in (("query", "Query"), ("mutation", "Mutation"), ("subscription", "Subscription")):
                if n in self.types and self.types[n]["kind"] == "type":
                    self.roots[o] = n

    def kind(self, n):
        return "scalar" if n in BUILTIN else self.types[n]["kind"] if n in self.types else None


def deprecated(dirs):
    """None, or the reason"""
    for n, a in dirs:
        if n == "deprecated":
            return a.get("reason", Text("No longer supported"))
    return None


def named(t):
    while t[0] != "name":
        t = t[1]
    return t[1]
