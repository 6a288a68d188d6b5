"""Fact base: runs the clang-based extractor over /repo's current sources and loads the result."""
import hashlib, json, os, re, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
FLAGS = ["-std=gnu++17", "-O2", "-DNDEBUG", "-resource-dir=/usr/lib/llvm-18/lib/clang/18",
         "-Wno-everything"]


class AnalysisBroken(Exception):
    """An anchor vanished, a TU does not parse, or a rule has too few instances."""


def strip_targs(q):
    """graphql::x<y<z>>::f -> graphql::x::f (template arguments removed)."""
    if "<" not in q:
        return q
    out, depth, i = [], 0, 0
    while i < len(q):
        c = q[i]
        if c == "<" and not q[:i].endswith("operator") and not q[:i].endswith("operator<"):
            depth += 1
        elif c == ">" and depth and q[i - 1:i] != "-":
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return "".join(out)


def ensure_tool():
    r = subprocess.run(["bash", os.path.join(VERIF, "tool", "build.sh")], capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisBroken("cannot build factgen: " + r.stderr[-2000:])
    return os.path.join(CACHE, "bin", "factgen")


_tree_hash = None


def tree_hash():
    """Content hash of every C++ file a TU of the repository can include."""
    global _tree_hash
    if _tree_hash is None:
        h = hashlib.sha256()
        with open(os.path.join(VERIF, "tool", "factgen.cpp"), "rb") as f:
            h.update(f.read())
        h.update(" ".join(FLAGS).encode())
        h.update(REPO.encode())
        for top in ("include", "src", "samples"):
            for root, dirs, files in os.walk(os.path.join(REPO, top)):
                dirs.sort()
                for fn in sorted(files):
                    if fn.endswith((".h", ".cpp", ".inl", ".hpp", ".graphql")):
                        p = os.path.join(root, fn)
                        h.update(p.encode())
                        with open(p, "rb") as f:
                            h.update(hashlib.sha256(f.read()).digest())
        _tree_hash = h.hexdigest()
    return _tree_hash


def _walk(node, fn):
    stack = [node]
    while stack:
        n = stack.pop()
        if isinstance(n, dict):
            fn(n)
            stack.extend(n.values())
        elif isinstance(n, list):
            stack.extend(n)


class TU:
    def __init__(self, src, data):
        self.src = src
        self.functions = data["functions"]
        self.records = data["records"]
        self.enums = data["enums"]
        self.vars = data["vars"]
        self.typedefs = data["typedefs"]
        for f in self.functions:
            f["nq"] = strip_targs(f["q"])
            f["tu"] = self
        for r in self.records:
            r["nq"] = strip_targs(r["q"])
        self.byid = {f["id"]: f for f in self.functions}
        self.varbyd = {v["d"]: v for v in self.vars}
        self._lam = None

    @property
    def lambdas(self):
        if self._lam is None:
            self._lam = {}

            def fn(n):
                if n.get("k") == "lambda":
                    self._lam[n["fid"]] = n
            for f in self.functions:
                _walk(f.get("body"), fn)
                _walk(f.get("inits"), fn)
            for v in self.vars:
                _walk(v.get("i"), fn)
        return self._lam

    def find(self, nq, pred=None, dep=False):
        return [f for f in self.functions if f["nq"] == nq and (dep or not f.get("dep"))
                and (pred is None or pred(f))]

    def one(self, nq, pred=None):
        r = self.find(nq, pred)
        if len(r) != 1:
            raise AnalysisBroken("anchor %s: %d definitions in %s (expected 1)" % (nq, len(r), self.src))
        return r[0]

    def record(self, nq):
        r = [x for x in self.records if x["nq"] == nq]
        if not r:
            raise AnalysisBroken("anchor record %s not found in %s" % (nq, self.src))
        return r[0]

    def enum(self, q):
        r = [x for x in self.enums if x["q"] == q]
        if not r:
            raise AnalysisBroken("anchor enum %s not found in %s" % (q, self.src))
        return r[0]

    def var(self, q):
        r = [x for x in self.vars if x["q"] == q]
        if not r:
            raise AnalysisBroken("anchor variable %s not found in %s" % (q, self.src))
        return [x for x in r if "i" in x][0] if any("i" in x for x in r) else r[0]


_loaded = {}


def _gen(src):
    tool = ensure_tool()
    own = ""
    if os.path.isabs(src):
        with open(src) as f:
            own = f.read()
    key = hashlib.sha256((tree_hash() + src + own).encode()).hexdigest()[:32]
    d = os.path.join(CACHE, "facts")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, key + ".json")
    if not os.path.exists(out):
        tmp = out + ".%d.%s" % (os.getpid(), os.path.basename(src))
        inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "PEGTL/include")]
        sd = os.path.dirname(src)
        inc.append("-I" + os.path.join(REPO, sd))
        if src.endswith(("SchemaGenerator.cpp", "ClientGenerator.cpp")):
            inc.append("-DUSE_STD_FILESYSTEM")
        if sd.startswith("samples/separate"):
            inc.append("-DIMPL_SEPARATE_TODAY")
        r = subprocess.run([tool, REPO + "/", tmp, os.path.join(REPO, src)] + FLAGS + inc,
                           capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(tmp):
            raise AnalysisBroken("cannot parse %s: %s" % (src, (r.stderr or "")[-1500:]))
        os.replace(tmp, out)
    with open(out) as f:
        return json.load(f)


def prune_cache(keep=600):
    d = os.path.join(CACHE, "facts")
    try:
        fs = sorted((os.path.join(d, f) for f in os.listdir(d)), key=os.path.getmtime)
    except OSError:
        return
    for f in fs[:-keep]:
        try:
            os.unlink(f)
        except OSError:
            pass


def load(*srcs):
    """Load the fact bases of the given repo-relative sources (parsed in parallel)."""
    todo = [s for s in srcs if s not in _loaded]
    if todo:
        for s in todo:
            if not os.path.exists(os.path.join(REPO, s)):
                raise AnalysisBroken("source %s is missing" % s)
        ensure_tool()
        tree_hash()
        with ThreadPoolExecutor(8) as ex:
            for s, data in zip(todo, ex.map(_gen, todo)):
                _loaded[s] = TU(s, data)
        prune_cache()
    r = [_loaded[s] for s in srcs]
    return r[0] if len(r) == 1 else r
