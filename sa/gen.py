"""Generated sources: the generators of the current tree are built (as its own build does) and write the code which is analysed."""
import hashlib, os, subprocess, shutil, json
from concurrent.futures import ThreadPoolExecutor
import facts
from facts import REPO, CACHE, AnalysisBroken

COMMON = ("SyntaxTree", "Base64", "GraphQLResponse", "SchemaLoader", "GeneratorLoader", "GeneratorUtil")
TOOLS = {"schemagen": ("SchemaGenerator",), "clientgen": ("ClientGenerator", "RequestLoader", "GraphQLService", "Schema", "Validation", "Introspection", "IntrospectionSchema")}


def home():
    return os.path.join(CACHE, "gen", facts.tree_hash()[:24])


def _compile(n):
    src, obj = os.path.join(REPO, "src", n + ".cpp"), os.path.join(home(), n + ".o")
    if os.path.exists(obj):
        return
    if not os.path.exists(src):
        raise AnalysisBroken("source src/%s.cpp is missing" % n)
    tmp = obj + ".%d" % os.getpid()
    r = subprocess.run(["g++", "-std=c++17", "-O0", "-w", "-DUSE_STD_FILESYSTEM", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "PEGTL/include"), "-c", src, "-o", tmp],
                       capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("cannot build %s: %s" % (n, r.stderr[-1500:]))
    os.replace(tmp, obj)


def tool(name):
    h = home()
    exe = os.path.join(h, name)
    if os.path.exists(exe):
        return exe
    root = os.path.dirname(h)
    os.makedirs(h, exist_ok=True)
    olds = sorted((os.path.join(root, d) for d in os.listdir(root)), key=os.path.getmtime)
    for d in olds[:-12]:
        shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(_compile, COMMON + TOOLS[name]))
    tmp = exe + ".%d" % os.getpid()
    r = subprocess.run(["g++", "-o", tmp] + [os.path.join(h, n + ".o") for n in COMMON + TOOLS[name]] + ["-lboost_program_options"], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("cannot link %s: %s" % (name, r.stderr[-1500:]))
    os.replace(tmp, exe)
    return exe


def generate(name, *args):
    """run a generator; returns (exit code, its messages, directory, the files it wrote)"""
    exe = tool(name)
    own = ""
    for a in args:
        p = a.split("=", 1)[-1]
        if os.path.isabs(p) and os.path.isfile(p):
            with open(p) as f:
                own += f.read()
    d = os.path.join(home(), hashlib.sha256((own + "\0".join((name,) + args)).encode()).hexdigest()[:16])
    done = os.path.join(d, "done.json")
    if not os.path.exists(done):
        tmp = "%s.%d" % (d, os.getpid())
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        try:
            r = subprocess.run([exe] + list(args), cwd=tmp, capture_output=True, text=True, timeout=120)
            code, text = r.returncode, r.stdout + r.stderr
        except subprocess.TimeoutExpired:
            code, text = -1, "timeout"
        if "--introspection" in args and os.path.exists(os.path.join(tmp, "IntrospectionSchema.h")):
            # where the source looks for it, before the copy of the repository
            inc = os.path.join(tmp, "graphqlservice", "introspection")
            os.makedirs(inc)
            shutil.copy(os.path.join(tmp, "IntrospectionSchema.h"), inc)
        with open(os.path.join(tmp, "done.json"), "w") as f:
            json.dump([code, text], f)
        shutil.rmtree(d, ignore_errors=True)
        try:
            os.replace(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    with open(done) as f:
        code, text = json.load(f)
    return code, text, d, sorted(f for f in os.listdir(d) if f.endswith((".h", ".cpp")))


_tus = {}


def load(directory, name):
    """the fact base of a generated source: only what the generated files define is in it"""
    path = os.path.join(directory, name)
    if path not in _tus:
        exe = facts.ensure_tool()
        out = path + ".facts"
        if not os.path.exists(out):
            tmp = out + ".%d" % os.getpid()
            r = subprocess.run([exe, directory + "/", tmp, path] + facts.FLAGS + ["-I" + directory, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "PEGTL/include")],
                               capture_output=True, text=True)
            if r.returncode or not os.path.exists(tmp):
                e = Uncompilable((r.stderr or "").replace(directory + "/", ""))
                raise e
            os.replace(tmp, out)
        with open(out) as f:
            _tus[path] = facts.TU(name, json.load(f))
    return _tus[path]


class Uncompilable(Exception):
    """generated code which is not C++"""


def generate_all(jobs):
    """several runs at a time: jobs are argument tuples of generate"""
    for n in {j[0] for j in jobs}:
        tool(n)
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda j: generate(*j), jobs))


def preload(todo):
    """read many generated sources at a time: what could not be parsed, and why"""
    failed = {}

    def one(x):
        try:
            load(*x)
        except Uncompilable as e:
            failed[x] = next((l for l in str(e).splitlines() if "error:" in l), str(e)[:200])
    facts.ensure_tool()
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, todo))
    return failed
