"""writes probe/matrix.graphql: the features of fields, arguments, inputs, enums and memberships in all pairs (and more) of their values"""
import itertools, os, sys

LEAVES = ["Int", "Float", "String", "Boolean", "ID", "Hue", "Stamp"]
OUT = LEAVES + ["Plain", "Shape", "Any"]
IN = LEAVES + ["Spec"]
MODS = ["%s", "%s!", "[%s]", "[%s!]", "[%s]!", "[%s!]!", "[[%s]]", "[[%s!]!]!", "[[[%s!]]!]", "[[[[%s]!]!]!]!"]
VALUE = {
    "Int": ["0", "-7", "2147483647"], "Float": ["0.5", "-1.25e-3", "3.0"], "String": ['""', '"two\\nlines \\"quoted\\""', '"plain"'], "Boolean": ["true", "false"],
    "ID": ['"aWQ="', '""'], "Hue": ["RED", "dark_BLUE"], "Stamp": ['"now"', '"later"'], "Spec": ["{}", "{size: 3, hues: [RED]}", '{label: "x", inner: {size: 1, hues: []}}'],
}
DEPRECATED = ["", " @deprecated", ' @deprecated(reason: "gone, \\"really\\"")']


class Wheel:
    """turns at a different rate for each use so that values meet in all pairs"""
    def __init__(self):
        self.at = {}

    def next(self, key, values):
        i = self.at.get(key, 0)
        self.at[key] = i + 1
        return values[i % len(values)]


def wrapped(mod, base, w):
    """a default for a list type: empty, one or two elements, alternating per level"""
    def at(t):
        t = t.rstrip("!")
        if not t.startswith("["):
            return w.next(("value", base), VALUE[base])
        inner = t[1:-1]
        n = w.next(("length", base), [0, 1, 2])
        return "[%s]" % ", ".join(at(inner) for _ in range(n))
    return at(mod % base)


def document():
    w = Wheel()
    counter = itertools.count()
    pairs = [(t, m) for m in MODS for t in IN]
    turn = itertools.cycle(pairs)

    def argument(name, given):
        t, m = next(turn)
        k = next(counter)
        text = ('"the %s of %d" ' % (name, k) if k % 3 == 0 else "") + "%s: %s" % (name, m % t)
        if given == 1:
            text += " = " + wrapped(m, t, w)
        elif given == 2 and not m.endswith("!"):
            text += " = null"
        return text

    outs = itertools.cycle([(t, m) for m in MODS for t in OUT])

    def fields(prefix):
        lines = []
        for i, (described, deprecated, args) in enumerate(itertools.product((False, True), DEPRECATED, (0, 1, 3))):
            if described:
                lines.append('  "%s number %d"' % (prefix, i))
            names = ["only"] if args == 1 else ["first", "second", "third"][:args]
            given = {0: [], 1: [[0, 1, 2][i // 3 % 3]], 3: [[1, 0, 2], [0, 1, 1], [2, 1, 0]][i // 3 % 3]}[args]
            t, m = next(outs)
            lines.append("  %s%d%s: %s%s" % (prefix, i, "(%s)" % ", ".join(argument(n, g) for n, g in zip(names, given)) if args else "", m % t, deprecated))
        return lines

    def every(prefix):
        return ["  %s%d: %s" % (prefix, i, m % t) for i, (t, m) in enumerate((t, m) for t in OUT for m in MODS)]

    def taken(prefix):
        lines = []
        for i, (t, m) in enumerate((t, m) for t in IN for m in MODS):
            lines.append("  %s%d(%s): Int" % (prefix, i, "v: " + m % t + (" = " + wrapped(m, t, w) if i % 2 else "")))
        return lines

    shape, tall = fields("shape"), fields("tall")
    blocks = []
    add = lambda head, lines: blocks.append(head + " {\n" + "\n".join(lines) + "\n}" if lines else head)
    add("schema", ["  query: Query", "  mutation: Mutation", "  subscription: Subscription"])
    add("scalar Stamp", [])
    hues = []
    for i, (described, deprecated) in enumerate(itertools.product((False, True), DEPRECATED)):
        if described:
            hues.append('  "hue %d"' % i)
        hues.append("  %s%s" % (["RED", "dark_BLUE", "green", "Blue", "A", "z"][i], deprecated))
    add("enum Hue", hues)
    add('"with a description" interface Shape', shape)
    add("interface Tall", tall)
    add("interface Empty", ["  id: ID!"])
    add("type Plain", ["  id: ID!"])
    add("type Square implements Shape", shape)
    add("type Tower implements Tall & Shape & Empty", tall + shape + ["  id: ID!"])
    add("type Point implements Empty", ["  id: ID!"])
    for i, members in enumerate((["Plain"], ["Plain", "Square"], ["Square", "Plain", "Tower"], ["Tower", "Point", "Square", "Plain"], ["Point"], ["Point", "Plain"])):
        add("union %s = %s" % (["Any", "Both", "Three", "Four", "Last", "More"][i], " | ".join(members)), [])
    add("type Query", every("every") + taken("taken") + fields("asked"))
    add("type Mutation", fields("made"))
    add("type Subscription", fields("seen"))
    inputs = []
    for i, (t, m) in enumerate((t, m) for t in LEAVES for m in MODS):
        k = i % 3
        inputs.append(('  "input %d"\n' % i if i % 4 == 0 else "") + "  in%d: %s%s" % (i, m % t, " = " + wrapped(m, t, w) if k == 1 else " = null" if k == 2 and not m.endswith("!") else ""))
    add("input Spec", ["  size: Int", "  label: String = \"none\"", "  hues: [Hue!]! = [green]", "  inner: Spec2"])
    add("input Spec2", ["  size: Int! = 9", "  hues: [Hue]"])
    add("input Wide", inputs)
    add("directive @matrix(%s) on FIELD | OBJECT" % ", ".join(argument("d%d" % i, i % 3) for i in range(12)), [])
    add("directive @once on FIELD_DEFINITION", [])
    return blocks


if __name__ == "__main__":
    at = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "probe")
    blocks = document()
    for name, bs in (("matrix", blocks), ("xirtam", blocks[::-1])):
        with open(os.path.join(at, name + ".graphql"), "w") as f:
            f.write("# written by meta/matrix.py\n" + "\n\n".join(bs) + "\n")
