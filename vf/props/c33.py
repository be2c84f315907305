"""LUT formats are found by extension and capability, each asked at most once, with the options given."""
import os, random, types
from .. import env, gen as G, ref, model, lutio
from ..common import load, clf, reset_features, run as process
from ..core import fail, call, Skip
PROP = "C33"
RULE = "a set of formats registered for the case, asked for by a read or a write whose calls, arguments and result were recorded and judged"
CASES = dict(quick=3000, thorough=100000)
NEED = dict(registry_reads=1500, registry_writes=800, format_calls=1400, retries=200, nothing_found=400, raw_nodes=120, lists=300, sampled_writes=150, capability_queries=10000)
LIB = []
OPS = ["read", "write1D", "write3D", "write1D3D1D"]
EXTS = ["vfa", "vfb", "VFC", "Vfd", "v", "vf-e", "vfa1", "csp", "spi1d", "CLF", "ctl", "spi3d", "vf gh", "cs", "spi", ""]
MISSING = "<not given>"


def setup():
    reset_features()
    LIB.append(load("aces.lutFormats"))
    LIB.append(load("aces.lutFormats.LutFormat"))


def gen(g, tier, i):
    pool = g.sample(EXTS[:-1], g.choice([1, 1, 2, 3])) + ([""] if g.random() < 0.05 else [])
    formats = []
    for k in range(g.choice([0, 1, 2, 3, 4, 4])):
        entries = []
        for j in range(g.choice([0, 1, 2, 3, 3])):
            e = g.choice(pool)
            entries.append(["description %d.%d" % (k, j), g.choice([e, e.upper(), e.lower()]), sorted(g.sample(OPS, g.choice([0, 1, 2, 3, 4, 4])))])
        f = dict(entries=entries, how=g.choice(["read", "write", "write", "steps", "steps", "none"]) if g.random() < 0.9 else "plain", ok=g.random() < 0.55, fails=g.choice(["None", "False", "empty"]), parent=None)
        if formats and g.random() < 0.2:
            # inherits what an earlier one declares
            f["parent"] = g.randrange(len(formats))
            f["inherit"] = g.random() < 0.5
        formats.append(f)
    op = g.choice(["read", "read", "write"])
    c = dict(formats=formats, op=op, pool=pool, seed=g.randrange(1 << 40))
    e = g.choice(pool) if g.random() < 0.95 else g.choice(EXTS)
    e = g.choice([e, e, e.upper(), e.title()])
    stem = g.choice(["a", "a", "a b", "x.y", "csp", "a.csp", "..z", "vfa", "q.VFB.gz", ".h"])
    c["file"] = stem + ("." + e if e or g.random() < 0.3 else "")
    c["dir"] = g.choice([None, None, "d", "d.csp", "d.vfa"])
    c["nodes"] = [dict(t="Matrix", dim=[3, 3, 3], values=G.matrix(g, "16f", "16f", rows=3)["values"][:9], **{"in": "16f", "out": "16f"})]
    if op == "read":
        c["opts"] = {k: v for k, v in dict(inverse=g.random() < 0.5, interpolation=g.choice(["cubic", "tetrahedral", "linear", "x"]), inversesUseIndexMaps=g.random() < 0.5, inversesUseHalfDomain=g.random() < 0.5).items() if g.random() < 0.5}
        c["raw"] = g.choice([None, True, False])
        c["count"] = g.choice([1, 1, 2, 5])
    else:
        o = dict(lutDataFormat=g.choice(["1D", "3D", "1D_3D_1D"]), lutResolution1d=g.choice([2, 3, 17]), lutResolution3d=g.choice([2, 3, 4]), lutResolution1d3d1d=[g.choice([2, 5]), g.choice([2, 3]), g.choice([2, 7])],
                 inputMin=g.choice([-1.0, 0.0, 0.25]), inputMax=g.choice([1.0, 2.0]), shaperIn=g.choice([["linear", -1.0, 2.0], ["log2", -3.0, 4.0], [None, 0.0, 1.0]]), shaperOut=g.choice([["linear", -1.0, 2.0], ["log2", -3.0, 4.0], [None, 0.0, 1.0]]))
        c["opts"] = {k: v for k, v in o.items() if g.random() < 0.6}
        # (the default resolutions are large)
        for k in ("lutResolution1d", "lutResolution3d", "lutResolution1d3d1d"):
            if any(f["how"] == "steps" for f in formats) or any(e.lower() in lutio_known for e in pool + [c["file"].rsplit(".", 1)[-1]]):
                c["opts"][k] = o[k]
    c["pos"] = g.random() < 0.3
    c["there"] = g.random() < 0.4
    return c


lutio_known = ("csp", "spi1d", "spi3d", "clf", "ctl")
DEFAULT_READ = dict(inverse=False, interpolation="linear", inversesUseIndexMaps=True, inversesUseHalfDomain=True)
DEFAULT_WRITE = dict(lutDataFormat="1D", lutResolution1d=1024, lutResolution3d=33, lutResolution1d3d1d=[1024, 33, 2], inputMin=0.0, inputMax=1.0, shaperIn=["linear", 0.0, 1.0], shaperOut=["linear", 0.0, 1.0])
STEP = {"1D": "write1D", "3D": "write3D", "1D_3D_1D": "write1D3D1D"}


def make(k, f, case, log, nodes, classes):
    """A format class that records what it is asked."""
    base = classes[f["parent"]] if f["parent"] is not None else LIB[1].LutFormat
    no = {"None": None, "False": False, "empty": []}[f["fails"]]
    d = dict(formatType="format %d" % k, __doc__="format")
    if f["parent"] is None or not f["inherit"]:
        d["formats"] = [list(e) for e in f["entries"]]
    if f["how"] == "plain":
        d["formats"] = [tuple(e) for e in f["entries"]]

    if f["how"] in ("read", "write", "steps", "plain"):
        def read(cls, lutPath=MISSING, inverse=MISSING, interpolation=MISSING, inversesUseIndexMaps=MISSING, inversesUseHalfDomain=MISSING):
            log.append((k, "read", dict(lutPath=lutPath, inverse=inverse, interpolation=interpolation, inversesUseIndexMaps=inversesUseIndexMaps, inversesUseHalfDomain=inversesUseHalfDomain)))
            return list(nodes) if f["ok"] else no
        d["read"] = classmethod(read)
    if f["how"] == "write":
        def write(cls, processList=MISSING, lutPath=MISSING, lutStyle=MISSING, lutResolution1d=MISSING, lutResolution3d=MISSING, lutResolution1d3d1d=MISSING, inputMin=MISSING, inputMax=MISSING, shaperIn=MISSING, shaperOut=MISSING):
            log.append((k, "write", dict(processList=processList, lutPath=lutPath, lutStyle=lutStyle, lutResolution1d=lutResolution1d, lutResolution3d=lutResolution3d, lutResolution1d3d1d=lutResolution1d3d1d, inputMin=inputMin, inputMax=inputMax, shaperIn=shaperIn, shaperOut=shaperOut)))
            return f["ok"] or no
        d["write"] = classmethod(write)
    elif f["how"] == "steps":
        def write1D(cls, lutPath, samples, lutResolution1d, inputMin, inputMax):
            log.append((k, "write1D", dict(lutPath=lutPath, samples=samples, res=lutResolution1d, lo=inputMin, hi=inputMax)))
            return f["ok"] or no

        def write3D(cls, lutPath, samples, lutResolution3d, inputMin, inputMax):
            log.append((k, "write3D", dict(lutPath=lutPath, samples=samples, res=lutResolution3d, lo=inputMin, hi=inputMax)))
            return f["ok"] or no

        def write1D3D1D(cls, lutPath, samples1dIn, lutResolution1dIn, inputMin, inputMax, samples3d, lutResolution3d, samples1dOut, lutResolution1dOut, outputMin, outputMax):
            log.append((k, "write1D3D1D", dict(lutPath=lutPath, sin=samples1dIn, s3=samples3d, sout=samples1dOut, res=[lutResolution1dIn, lutResolution3d, lutResolution1dOut], lo=inputMin, hi=inputMax)))
            return f["ok"] or no
        d.update(write1D=classmethod(write1D), write3D=classmethod(write3D), write1D3D1D=classmethod(write1D3D1D))
    return type(LIB[1].LutFormat)("VFFormat%d" % k, (base,), d)


def declared(case, k):
    f = case["formats"][k]
    if f["parent"] is not None and f["inherit"] and f["how"] != "plain":
        return declared(case, f["parent"])
    return f["entries"]


def caps(entries, ext):
    return set(c for e in entries if not ext or e[1].lower() == ext.lower() for c in e[2])


def acts(case, k, op):
    """-> the event the format shows for the operation, None if it shows none, and whether it then succeeds"""
    f = case["formats"][k]
    own = dict(read=("read", "write", "steps", "plain"), write=("write",), steps=("steps",))
    if op == "read":
        if f["how"] in own["read"]:
            return "read", f["ok"], k
    else:
        if f["how"] == "write":
            return "write", f["ok"], k
        if f["how"] == "steps" :
            # a parent's write, if it has one, is what does the writing
            p = f["parent"]
            while p is not None:
                if case["formats"][p]["how"] == "write":
                    return "write", case["formats"][p]["ok"], p
                p = case["formats"][p]["parent"]
            return op, f["ok"], k
    if f["parent"] is not None:
        return acts(case, f["parent"], op)
    return None, False, k


def run(case, ctx):
    reset_features()
    L, R = LIB[0], LIB[0].Registry
    c = clf()
    before = dict(R.lutFormats)
    log, classes = [], []
    nodes = [model.build_node(case["nodes"][0], c) for _ in range(case.get("count", 1))]
    try:
        for k, f in enumerate(case["formats"]):
            classes.append(call("declare", make, k, f, case, log, nodes, classes))
        queries(case, classes, ctx)
        listed = list(call("formats", R.getFormats))
        for k, cls in enumerate(classes):
            n = sum(x is cls for x in listed)
            if n != (1 if declared(case, k) else 0):
                fail("listed", "format %d declaring %r is listed %d times", k, declared(case, k), n)
        for n, cls in before.items():
            if sum(x is cls for x in listed) != 1:
                fail("listed", "%s is listed %d times", n, sum(x is cls for x in listed))
        (reading if case["op"] == "read" else writing)(case, ctx, classes, log, nodes, before)
    finally:
        for n in list(R.lutFormats):
            if n not in before:
                del R.lutFormats[n]


def queries(case, classes, ctx):
    g = random.Random(case["seed"])
    for k, cls in enumerate(classes):
        D = declared(case, k)
        for fn, want in ((cls.descriptions, [e[0] for e in D]), (cls.extensions, [e[1].lower() for e in D])):
            got = list(call("declared", fn))
            if got != want:
                fail("declared", "%r instead of %r", got, want)
        for ext in [None] + list(set(case["pool"] + ["csp", "vfz"])):
            if ext == "":
                continue
            for e in ([None] if ext is None else [ext, ext.upper(), ext.lower()]):
                want = caps(D, e)
                got = call("capabilities", cls.capabilities, e) if e is not None or g.random() < 0.5 else call("capabilities", cls.capabilities)
                if set(got) != want:
                    fail("capabilities", "capabilities(%r) of %r is %r", e, D, got)
                for op, fn in zip(OPS, (cls.canRead, cls.canWrite1D, cls.canWrite3D, cls.canWrite1D3D1D)):
                    if bool(call("capable", fn, e)) != (op in want) or bool(call("capable", cls.isCapable, op, e)) != (op in want):
                        fail("capable", "%s for %r of %r", op, e, D)
                    ctx.obs("capability_queries", 2)


def eligible(case, op, path, before):
    """-> custom formats to ask, built-in ones that may be asked"""
    ext = os.path.splitext(path)[1][1:].strip().lower()
    own = [k for k in range(len(case["formats"])) if ext in [e[1].lower() for e in declared(case, k)] and op in caps(declared(case, k), ext)]
    built = [n for n, cls in before.items() if ext in cls.extensions() and op in cls.capabilities(ext)]
    return own, built


def check_calls(case, ctx, op, path, own, built, log, delivered):
    """Order is not judged: any order of asking the formats, stopping at the first that succeeds."""
    want = {}
    for k in own:
        e, ok, who = acts(case, k, op)
        want[k] = (e, ok, who)
    possible = [(w[2], w[0], w[1]) for w in want.values() if w[0]]
    got = [(k, e) for k, e, a in log]
    for k, e in got:
        if (k, e) not in [(p[0], p[1]) for p in possible]:
            fail("asked", "format %d was asked to %s for %r (%s); formats for it are %r", k, e, case["file"], op, own)
    for x in set(got):
        if got.count(x) > sum((p[0], p[1]) == x for p in possible):
            fail("asked-again", "format %d was asked %d times", x[0], got.count(x))
    good = set((p[0], p[1]) for p in possible if p[2])
    if any(x in good for x in got[:-1]):
        fail("asked-after", "another format was asked after one succeeded: %r", got)
    if got and got[-1] in good:
        succeeded = True
    else:
        succeeded = False
        if not built:
            if len(got) != len(possible):
                fail("not-asked", "%d of %d formats were asked to %s %r and none succeeded", len(got), len(possible), op, case["file"])
            if good:
                fail("not-asked", "a format that can %s %r was not asked", op, case["file"])
    ctx.obs("format_calls", len(got))
    ctx.obs("retries", len(got) > 1)
    return succeeded


def place(case, ctx):
    d = ctx.path(case["dir"]) if case["dir"] else ctx.tmp
    if case["dir"]:
        os.mkdir(d)
    path = os.path.join(d, case["file"])
    if case.get("there"):
        # something is there already, which matters to nobody
        with open(path, "wb") as fh:
            fh.write(OLD)
    return path


OLD = b"something old\n"


def content(path):
    if not os.path.exists(path):
        return None
    with open(path, "rb") as fh:
        return fh.read()


def given(case, defaults):
    o = dict(defaults)
    o.update(case["opts"])
    return o


def ask(fn, case, first, defaults, extra):
    o = given(case, defaults)
    if case["pos"] and not extra:
        # positional, up to the last one given
        names = list(defaults)
        last = max([names.index(k) for k in case["opts"]] + [-1])
        return fn(*(first + [o[k] for k in names[:last + 1]]))
    return fn(*first, **dict(case["opts"], **extra))


def reading(case, ctx, classes, log, nodes, before):
    R, c = LIB[0].Registry, clf()
    path = place(case, ctx)
    own, built = eligible(case, "read", path, before)
    if built:
        # what a built-in format makes of it is a file of its own
        return builtin_read(case, ctx, path, log, nodes, own)
    extra = {} if case["raw"] is None else dict(returnProcessNodes=case["raw"])
    with env.capture() as b:
        got = call("read", ask, R.read, case, [path], DEFAULT_READ, extra)
    out = b.getvalue()
    ctx.obs("registry_reads")
    ok = check_calls(case, ctx, "read", path, own, built, log, got)
    for k, e, a in log:
        want = dict(given(case, DEFAULT_READ), lutPath=path)
        if a != want or any(type(a[q]) is not type(want[q]) for q in want):
            fail("options", "the format got %r instead of %r", a, want)
    if not ok:
        if got:
            fail("result", "no format succeeded, but %r was returned", got)
        if not out.strip():
            fail("silent", "nothing could be read from %r, without a word", case["file"])
        ctx.obs("nothing_found")
        ctx.nontrivial = bool(case["formats"])
        return
    delivered(case, ctx, got, nodes, c)
    ctx.nontrivial = True
    ctx.seen("read", len(own), len(log), case["raw"], case["pos"], tuple(sorted(case["opts"])))


def delivered(case, ctx, got, nodes, c):
    if case["raw"]:
        if not isinstance(got, (list, tuple)) or len(got) != len(nodes) or any(x is not y for x, y in zip(got, nodes)):
            fail("nodes", "%r instead of the format's nodes", got)
        ctx.obs("raw_nodes")
        return
    if type(got).__name__ != "ProcessList":
        fail("list", "%r is no process list", got)
    ps = list(got.getProcesses())
    if len(ps) != len(nodes) or any(x is not y for x, y in zip(ps, nodes)):
        fail("list", "the list holds %r", ps)
    at = (got.getID(), got.getName(), got.getCompCLFversion())
    if at != ("Converted lut", "Converted lut", 1.0):
        fail("list-attributes", "%r", at)
    ctx.obs("lists")


def builtin_read(case, ctx, path, log, nodes, own):
    """The extension of a built-in format: either it, or a registered one, makes the list."""
    R, c = LIB[0].Registry, clf()
    g = random.Random(case["seed"])
    ext = os.path.splitext(path)[1][1:].strip().lower()
    S = dict(fmt=ext, range=[0.0, 1.0], n=3, comps=1, values=[0.0, 0.25, 1.0])
    if ext == "spi3d":
        S = dict(fmt=ext, dim=[2, 2, 2], values=[float(x) for p in range(8) for x in (p >> 2 & 1, p >> 1 & 1, p & 1)])
    if ext == "csp":
        S = dict(fmt=ext, kind="1D", dim=[2], values=[0.0] * 3 + [1.0] * 3, preluts=[[[0.0, 1.0], [0.0, 1.0]]] * 3, meta=[])
    with open(path, "w", newline="") as fh:
        fh.write(getattr(lutio, ext)(g, S))
    with env.capture():
        got = call("read", R.read, path)
    ctx.obs("registry_reads")
    ok = check_calls(dict(case, opts={}), ctx, "read", path, own, [ext], log, got)
    if not got:
        fail("result", "nothing was read from a %s file", ext)
    if ok:
        delivered(dict(case, raw=None), ctx, got, nodes, c)
    ctx.nontrivial = True
    ctx.seen("builtin", ext, ok, len(log))


def writing(case, ctx, classes, log, nodes, before):
    R, c = LIB[0].Registry, clf()
    path = place(case, ctx)
    o = given(case, DEFAULT_WRITE)
    op = STEP[o["lutDataFormat"]]
    own, built = eligible(case, op, path, before)
    pl = model.make(case["nodes"], c)
    snap = [list(o["lutResolution1d3d1d"]), list(o["shaperIn"]), list(o["shaperOut"])]
    with env.capture() as b:
        call("write", ask, R.write, case, [pl, path], DEFAULT_WRITE, {})
    out = b.getvalue()
    ctx.obs("registry_writes")
    if snap != [list(o["lutResolution1d3d1d"]), list(o["shaperIn"]), list(o["shaperOut"])]:
        fail("options-changed", "%r", o)
    ok = check_calls(case, ctx, op, path, own, built, log, None)
    if built:
        if not ok and content(path) in (None, OLD):
            fail("result", "nothing was written to %r", case["file"])
    elif content(path) != (OLD if case.get("there") else None):
        fail("result", "a file was written to %r, for which there is no format", case["file"])
    if not ok and not built:
        if not out.strip():
            fail("silent", "nothing could be written to %r, without a word", case["file"])
        ctx.obs("nothing_found")
    for k, e, a in log:
        if a["lutPath"] != path:
            fail("options", "path %r instead of %r", a["lutPath"], path)
        if e == "write":
            want = {x: o[x] for x in o if x != "lutDataFormat"}
            want.update(lutPath=path, lutStyle=op)
            got = {x: a[x] for x in want}
            if got != want or a["processList"] is not pl:
                fail("options", "the format got %r instead of %r", a, want)
            continue
        n1, n3, n131 = o["lutResolution1d"], o["lutResolution3d"], o["lutResolution1d3d1d"]
        if e == "write1D":
            if (a["res"], a["lo"], a["hi"]) != (n1, o["inputMin"], o["inputMax"]):
                fail("options", "1D: %r", (a["res"], a["lo"], a["hi"]))
            flat(case, a["samples"], [[at(j, n1, o["inputMin"], o["inputMax"])] * 3 for j in range(n1)])
        elif e == "write3D":
            if (list(a["res"]), a["lo"], a["hi"]) != ([n3] * 3, o["inputMin"], o["inputMax"]):
                fail("options", "3D: %r", (a["res"], a["lo"], a["hi"]))
            cube(case, a["samples"], n3, lambda j: at(j, n3, o["inputMin"], o["inputMax"]))
        else:
            r = list(a["res"])
            if [r[0], list(r[1]), r[2]] != [n131[0], [n131[1]] * 3, n131[2]]:
                fail("options", "1D3D1D: %r", r)
            for s, want, n in ((a["sin"], o["shaperIn"], n131[0]), (a["sout"], o["shaperOut"], n131[2])):
                if (s is None) != (want[0] is None) or s is not None and len(s) != 3 * n:
                    fail("shaper", "%r: %r", want, s)
        ctx.obs("sampled_writes")
    ctx.nontrivial = True
    ctx.seen("write", o["lutDataFormat"], len(own), len(log), len(built), tuple(sorted(case["opts"])))


def at(j, n, lo, hi):
    return lo + j * (hi - lo) / (n - 1.0)


def flat(case, samples, inputs):
    s = [float(x) for x in samples]
    if len(s) != 3 * len(inputs):
        fail("samples", "%d samples for %d inputs", len(s), len(inputs))
    for j, px in enumerate(inputs):
        ref.judge(s[3 * j:3 * j + 3], lambda N: ref.apply_list(case["nodes"], px, N), "samples", "entry %d" % j, extra_abs=1e-6)


def cube(case, samples, n, f):
    for r in range(n):
        for gg in range(n):
            for b in range(n):
                px = [f(r), f(gg), f(b)]
                ref.judge([float(x) for x in samples[r][gg][b]], lambda N: ref.apply_list(case["nodes"], px, N), "samples", "entry %d %d %d" % (r, gg, b), extra_abs=1e-6)
