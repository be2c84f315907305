"""The command-line tools do what their options say."""
import importlib.machinery, importlib.util, json, multiprocessing, os, random, shutil, sys
import numpy as np
from .. import env, gen as G, ref, model, oiio, ocio, delaynode, lutio
from ..common import load, clf, reset_features
from ..core import fail, call, Skip, Violation
from . import c22, c24, c25, c26, c27
PROP = "C29"
RULE = "one tool run with a generated command line (any subset, order and spelling of its options); its output compared with the library call the options stand for"
CASES = dict(quick=420, thorough=24000)
NEED = dict(toLUT=80, toCLF=65, ocio=50, filter=40, compared_files=140, missing=22, refused=2, images=28, defaults=55, option_inverse=16, option_generate1d3d1d=11, option_shaperIn=8, option_inputMinValue=11, option_multithreaded=16, option_outputBitDepth=16, scripts=60)
MODS = {}
SCRIPT = dict(toLUT="convertCLFtoLUT", toCLF="convertLUTToCLF", ocio="convertOCIOToCLF", filter="filterImageWithCLF")
CPU = multiprocessing.cpu_count()


def setup():
    clf()
    oiio.install()
    ocio.install()
    MODS["toLUT"] = load("aces.convertCLFtoLUT")
    MODS["toCLF"] = load("aces.convertLUTtoCLF")
    MODS["ocio"] = load("aces.convertOCIOtoCLF")
    MODS["filter"] = load("aces.filterImageWithCLF")
    MODS["lut"] = load("aces.lutFormats")
    delaynode.make(clf())
    bindir = os.path.join(env.REPO, "python", "bin")
    for t, f in SCRIPT.items():
        MODS[t + "-main"] = script_main(os.path.join(bindir, f))


def script_main(path):
    """main of a script in bin, which is imported under another name so that it does not run at once."""
    try:
        ld = importlib.machinery.SourceFileLoader("vf_script_" + os.path.basename(path), path)
        m = importlib.util.module_from_spec(importlib.util.spec_from_loader(ld.name, ld))
        ld.exec_module(m)
        return m.main
    except Exception as e:
        raise Violation("script", "%s can not be imported: %s: %s" % (path, type(e).__name__, e))


# ------------------------------------------------------------------ generating command lines
def opt(g, tool, long, short=None, *vals):
    """[option words] in one of the spellings optparse documents"""
    vals = [str(v) for v in vals]
    if not vals:
        return [short if short and g.random() < 0.5 else long]
    if len(vals) > 1:
        return [long] + vals
    k = g.randrange(4)
    if k == 0 and short:
        return [short, vals[0]]
    if k == 1 and short and vals[0]:
        return [short + vals[0]]
    if k == 2:
        return [long + "=" + vals[0]]
    return [long, vals[0]]


def gen(g, tier, i):
    tool = g.choice(["toLUT", "toLUT", "toLUT", "toCLF", "toCLF", "ocio", "ocio", "filter"])
    c = dict(tool=tool, script=g.random() < 0.4, es=g.randrange(1 << 30), stop=g.random() < 0.05, seed=g.randrange(1 << 30))
    o = {}
    miss = g.random() < 0.12
    c["miss"] = None
    if tool == "toLUT":
        mode = g.choice(["1d", "3d", "1d3d1d"])
        ext = g.choice({"1d": ["spi1d", "spi1d", "ctl"], "3d": ["spi3d", "spi3d", "ctl"], "1d3d1d": ["clf", "clf", "csp"]}[mode])
        if g.random() < 0.05:
            ext = g.choice(["spi3d", "spi1d", "xyz", "csp", "spimtx"])
        gens = [mode] if mode != "1d" or g.random() < 0.6 else []
        if g.random() < 0.15 and ext in ("clf", "ctl"):
            gens = sorted(set(gens + [g.choice(["1d", "3d", "1d3d1d"])]))
        for m in gens:
            o["generate" + m] = True
        if g.random() < 0.75 or ext != "clf":
            o["lutResolution1d"] = g.choice([2, 3, 5, 11, 17, 64])
        if g.random() < (0.97 if gens == ["3d"] else 0.7):
            o["lutResolution3d"] = g.choice([2, 3, 4, 5])
        if g.random() < (0.97 if mode == "1d3d1d" else 0.5):
            o["lutResolution1d3d1d"] = [[g.choice([2, 5, 9, 16]), g.choice([2, 3, 4]), g.choice([2, 3, 7])] for _ in range(g.choice([1, 1, 1, 2]))]
        if g.random() < 0.5:
            o["inputMinValue"] = g.choice([0.0, -1.0, -0.125, 0.25, 0.5, "1e-3", 0])
        if g.random() < 0.5:
            o["inputMaxValue"] = g.choice([1.0, 2.0, 0.75, 16.0, 100, "1.5e0"])
        shp = lambda: [s if s[0] else ["linear", 0.0, 1.0] for s in [c25.shaper(g)]][0]
        if g.random() < 0.5:
            o["shaperIn"] = [shp() for _ in range(g.choice([1, 1, 1, 2]))]
        if g.random() < 0.4 and ext == "clf":
            o["shaperOut"] = [[s if s[0] else ["linear", 0.0, 1.0] for s in [c25.shaper(g, True)]][0]]
        if g.random() < 0.3:
            o["format"] = g.choice(["clf", "ctl", "cinespace", "nonsense"])
        c.update(nodes=[G.node(g, None, g.choice(G.FDEPTHS), g.choice(G.FDEPTHS), rows=3) for _ in range(g.randrange(1, 4))], ext=ext)
        if g.random() < 0.3:
            c["nodes"] = G.nest(g, c["nodes"], 0.3)
        if miss:
            c["miss"] = g.choice(["clf", "lut", "both"])
    elif tool == "toCLF":
        for f in ("inverse", "inversesUseIndexMaps", "inversesUseHalfDomain"):
            if g.random() < (0.6 if f == "inverse" else 0.5 if f == "inversesUseIndexMaps" else 0.07):
                o[f] = True
        if o.get("inversesUseIndexMaps") and g.random() < 0.3:
            # index maps go before
            o["inversesUseHalfDomain"] = True
        kind = g.choice(["spi1d", "spi1d", "spi1d", "spi3d", "csp", "ctl", "clf", "none"]) if g.random() < 0.5 else "spi1d"
        c["kind"] = kind
        if kind == "spi1d":
            n, comps = g.choice([2, 3, 5, 8]), g.choice([1, 3])
            cols = [c24.column(g, n, False, 1.0, 0.0) for _ in range(comps)]
            c["S"] = dict(fmt="spi1d", range=g.choice([[0.0, 1.0], [-0.5, 1.5], [0.0, 4.0]]), n=n, comps=comps, values=[cols[k][j] for j in range(n) for k in range(comps)])
        elif kind == "spi3d":
            d = [g.randrange(2, 4) for _ in range(3)]
            c["S"] = dict(fmt="spi3d", dim=d, values=c22.cube(g, d))
        elif kind == "csp":
            lo, hi = c22.rng_(g)
            n = g.choice([2, 3, 5])
            cols = [c22.vals(g, n) for _ in range(3)]
            c["S"] = dict(fmt="csp", kind="1D", dim=[n], values=[cols[k][j] for j in range(n) for k in range(3)], preluts=[[[lo, hi], [0.0, 1.0]]] * 3, meta=None)
        else:
            c["nodes"] = G.chain(g, g.randrange(1, 3), rows=3)
        if miss:
            c["miss"] = g.choice(["clf", "lut", "both"])
    elif tool == "ocio":
        k = c27.gen(g, tier, i)
        c["k"] = k
        o = {}
        for f in ("inversesUseIndexMaps", "inversesUseHalfDomain"):
            if g.random() < (0.5 if f == "inversesUseIndexMaps" else 0.06):
                o[f] = True
        if miss:
            c["miss"] = g.choice(["config", "output", "spaces"])
    else:
        k = c26.gen(g, tier, i)
        k["unreadable"] = False
        k["h"] = min(k["h"], 20)
        k["data"] = k["data"][:k["w"] * k["h"] * k["ch"]]
        if k["version"] < 10800 and k["depth"] == "16f":
            k["version"] = 10800
        c["k"] = k
        if g.random() < 0.75:
            o["multithreaded"] = g.choice([1, 1, 2, 3, 4, CPU, CPU + 5, 0, -2, 1000])
        if g.random() < 0.6:
            o["outputBitDepth"] = g.choice(["8i", "10i", "12i", "16i", "16f", "32f"])
            if g.random() < 0.25:
                o["outputBitDepth"] = g.choice(["8", "float", "32i", "64f"])
        if g.random() < 0.3:
            o["verbose"] = True
        if g.random() < 0.4:
            o["compression"] = g.choice(["none", "zip", "lzw", "dwaa", "packbits"])
        if g.random() < 0.4:
            o["quality"] = g.choice([0, 1, 90, 100, -1])
        if miss:
            c["miss"] = g.choice(["input", "output", "clf"])
    c["o"] = o
    return c


SHORT = dict(clf="-c", lut="-l", format="-f", input="-i", output="-o", verbose="-v", multithreaded="-m", config="-c", source="-s", destination="-d")


def words(case, paths):
    """The command line: a shuffled sequence of options; repeated ones keep their order."""
    g = random.Random(case["es"])
    groups = []
    for k, v in paths:
        groups.append(opt(g, case["tool"], "--" + k, SHORT.get(k), v))
    for k, v in case["o"].items():
        if v is True:
            groups.append(opt(g, case["tool"], "--" + k, SHORT.get(k)))
        elif k in ("lutResolution1d3d1d", "shaperIn", "shaperOut"):
            groups.append([w for x in v for w in opt(g, case["tool"], "--" + k, None, *x)])
        else:
            groups.append(opt(g, case["tool"], "--" + k, SHORT.get(k), v))
    g.shuffle(groups)
    # sources and destinations keep their order among themselves
    for name in ("source", "destination"):
        mine = [i for i, w in enumerate(groups) if w[0].startswith("--" + name) or w[0].startswith("-" + name[0]) and not w[0].startswith("--")]
        vals = [v for k, v in paths if k == name]
        for i, v in zip(mine, vals):
            groups[i] = opt(g, case["tool"], "--" + name, SHORT[name], v)
    out = [w for q in groups for w in q]
    return out + ["--", "left", "-over"] if case["stop"] else out


def run_tool(case, argv, ctx):
    fn = MODS[case["tool"] + "-main"] if case["script"] else MODS[case["tool"]].main
    if case["script"]:
        ctx.obs("scripts")
    old = sys.argv, os.getcwd(), sys.stderr
    sys.argv = [SCRIPT[case["tool"]]] + argv
    sys.stderr = env.null
    os.chdir(ctx.tmp)
    try:
        call("tool:" + case["tool"], fn)
    except Violation as v:
        raise Violation(v.key, "%s %s: %s" % (SCRIPT[case["tool"]], " ".join(argv), v.msg))
    finally:
        sys.argv, sys.stderr = old[0], old[2]
        os.chdir(old[1])


def tree(d):
    return {os.path.relpath(os.path.join(r, f), d): open(os.path.join(r, f), "rb").read() for r, _, fs in os.walk(d) for f in fs}


def compare(case, ctx, argv, a, b, what):
    ta, tb = tree(a), tree(b)
    if sorted(ta) != sorted(tb):
        fail("tool:files", "%s: wrote %s, the library call %s", what, sorted(ta), sorted(tb))
    for f in ta:
        if ta[f] != tb[f]:
            n = next((i for i, (x, y) in enumerate(zip(ta[f], tb[f])) if x != y), min(len(ta[f]), len(tb[f])))
            fail("tool:content", "%s: %s differs from the library call's at byte %d: %r instead of %r", what, f, n, ta[f][max(0, n - 40):n + 40], tb[f][max(0, n - 40):n + 40])
    ctx.obs("compared_files", len(ta))
    ctx.obs("compared_bytes", sum(len(x) for x in ta.values()))
    if not ta:
        ctx.obs("nothing_written")
    return ta


def run(case, ctx):
    reset_features()
    tool, o = case["tool"], case["o"]
    ctx.obs(tool)
    for k in o:
        ctx.obs("option_" + k)
    ctx.obs("defaults", int(len(o) < 2))
    for d in ("A", "B"):
        os.mkdir(ctx.path(d))
    A, B = ctx.path("A"), ctx.path("B")
    ctx.seen(tool, tuple(sorted(o)), case["miss"], case["script"], case["stop"])
    ctx.nontrivial = True
    globals()["run_" + tool](case, ctx, A, B)


def nothing(case, ctx, argv, A):
    run_tool(case, argv, ctx)
    t = tree(A)
    if t:
        fail("tool:missing", "%s %s: without a required option the tool wrote %s", SCRIPT[case["tool"]], argv, sorted(t))
    ctx.obs("missing")


def run_toLUT(case, ctx, A, B):
    c, L, o = clf(), MODS["lut"], case["o"]
    src = ctx.path("in.clf")
    with open(src, "wb") as fh:
        fh.write(model.emit(case["nodes"], random.Random(case["seed"])))
    out = "out." + case["ext"]
    paths = [("clf", src), ("lut", os.path.join(A, out))]
    if case["miss"]:
        paths = [p for p in paths if p[0] != case["miss"] and case["miss"] != "both"]
        return nothing(case, ctx, words(case, paths), A)
    argv = words(case, paths)
    mode = "1D" if o.get("generate1d") else "3D" if o.get("generate3d") else "1D_3D_1D" if o.get("generate1d3d1d") else "1D"
    sh = lambda k: [o[k][0][0], float(o[k][0][1]), float(o[k][0][2])] if k in o else [None, 0.0, 1.0]
    what = "%s %s" % (SCRIPT["toLUT"], " ".join(argv))
    run_tool(case, argv, ctx)
    args = dict(lutResolution1d=int(o.get("lutResolution1d", 1024)), lutResolution3d=int(o.get("lutResolution3d", 33)), lutResolution1d3d1d=list(o["lutResolution1d3d1d"][0]) if "lutResolution1d3d1d" in o else [1024, 33, 2],
                inputMin=float(o.get("inputMinValue", 0.0)), inputMax=float(o.get("inputMaxValue", 1.0)), shaperIn=sh("shaperIn"), shaperOut=sh("shaperOut"))
    # what the tool leaves out of the call must be the default of the library as well
    if "lutResolution1d" not in o and case["seed"] % 2:
        del args["lutResolution1d"]
    if "lutResolution3d" not in o and case["seed"] % 2:
        del args["lutResolution3d"]
    if "inputMinValue" not in o and case["seed"] % 2:
        del args["inputMin"]
    if "inputMaxValue" not in o and case["seed"] % 2:
        del args["inputMax"]
    call("tool:library", L.Registry.write, c.ProcessList(src), os.path.join(B, out), dict([("1D", L.LUTDATAFORMAT_1D), ("3D", L.LUTDATAFORMAT_3D), ("1D_3D_1D", L.LUTDATAFORMAT_1D_3D_1D)])[mode], **args)
    t = compare(case, ctx, argv, A, B, what)
    if not t:
        ctx.obs("unsupported:%s:%s" % (mode, case["ext"]))


def run_toCLF(case, ctx, A, B):
    c, L, o = clf(), MODS["lut"], case["o"]
    kind = case["kind"]
    src = ctx.path("in." + {"none": "xyz"}.get(kind, kind))
    if "S" in case:
        with open(src, "w", newline="") as fh:
            fh.write(getattr(lutio, case["S"]["fmt"])(random.Random(case["seed"]), case["S"]))
    elif kind == "ctl":
        pl = model.make(case["nodes"], c, "tool:build")
        L.Registry.write(pl, src, L.LUTDATAFORMAT_1D, 5)
    elif kind == "clf":
        with open(src, "wb") as fh:
            fh.write(model.emit(case["nodes"], random.Random(case["seed"])))
    else:
        open(src, "w").write("nothing\n")
    paths = [("lut", src), ("clf", os.path.join(A, "out.clf"))]
    if case["miss"]:
        paths = [p for p in paths if p[0] != case["miss"] and case["miss"] != "both"]
        return nothing(case, ctx, words(case, paths), A)
    argv = words(case, paths)
    what = "%s %s" % (SCRIPT["toCLF"], " ".join(argv))
    run_tool(case, argv, ctx)
    pl = call("tool:library", L.Registry.read, src, inverse=bool(o.get("inverse")), inversesUseIndexMaps=bool(o.get("inversesUseIndexMaps")), inversesUseHalfDomain=bool(o.get("inversesUseHalfDomain")))
    if pl:
        call("tool:library", pl.writeFile, os.path.join(B, "out.clf"))
    if not compare(case, ctx, argv, A, B, what):
        ctx.obs("unreadable")


def run_ocio(case, ctx, A, B):
    o, k = case["o"], case["k"]
    ocio.CONFIGS.clear()
    cfg = ctx.path("cfg/config.ocio")
    lutdir = os.path.normpath(os.path.join(ctx.path("cfg"), k["search"]))
    os.makedirs(os.path.join(lutdir, "sub"))
    for name, S, es in k["files"]:
        with open(os.path.join(lutdir, name), "w", newline="") as fh:
            fh.write("nothing\n" if S is None else getattr(lutio, S["fmt"])(random.Random(es), S))
    ocio.CONFIGS[cfg] = dict(search=k["search"], spaces=k["spaces"])
    src, dst = k["src"], k["dst"]
    paths = [("config", cfg), ("output", os.path.join(A, "out.clf"))] + [("source", s) for s in src] + [("destination", d) for d in dst]
    if case["miss"]:
        paths = [p for p in paths if p[0] != case["miss"] and not (case["miss"] == "spaces" and p[0] in ("source", "destination"))]
        return nothing(case, ctx, words(case, paths), A)
    argv = words(case, paths)
    run_tool(case, argv, ctx)
    call("tool:library", MODS["ocio"].convertOCIOtoCLF, cfg, list(src), list(dst), os.path.join(B, "out.clf"), inversesUseIndexMaps=bool(o.get("inversesUseIndexMaps")), inversesUseHalfDomain=bool(o.get("inversesUseHalfDomain")))
    compare(case, ctx, argv, A, B, "%s %s" % (SCRIPT["ocio"], " ".join(argv)))


def siblings():
    "number of processes with this process' parent (the workers of a pool)"
    n = 0
    for e in os.listdir("/proc"):
        if e.isdigit():
            try:
                st = open("/proc/%s/stat" % e).read()
                n += int(st.rsplit(")", 1)[1].split()[1]) == os.getppid()
            except (OSError, IndexError):
                pass
    return n


def run_filter(case, ctx, A, B):
    c, o, k = clf(), case["o"], case["k"]
    M = MODS["filter"]
    src = ctx.path("in.clf")
    lin = k["nodes"][0]["in"]
    nodes = [dict(t="Probe", a=1.0, b=0.0, name="first", **{"in": lin, "out": lin})] + k["nodes"]
    with open(src, "wb") as fh:
        fh.write(model.emit(nodes, random.Random(case["seed"])).replace(b"VFProbe", b"VFDelay").replace("VFProbe".encode("utf-16-le"), "VFDelay".encode("utf-16-le")))
    logp = ctx.path("log")
    delaynode.LOGFD[0] = os.open(logp, os.O_CREAT | os.O_WRONLY | os.O_APPEND | os.O_TRUNC)
    delaynode.SEED[0] = case["seed"] | 1
    delaynode.EXTRA[0] = siblings
    paths = [("input", "in.img"), ("output", "out.img"), ("clf", src)]
    if case["miss"]:
        paths = [p for p in paths if p[0] != case["miss"]]
    argv = words(case, paths)
    bad = o.get("outputBitDepth") not in (None, "8i", "10i", "12i", "16i", "16f", "32f")

    def child():
        def image():
            oiio.reset()
            sys.modules["OpenImageIO"].VERSION = k["version"]
            M.oiio.VERSION = k["version"]
            d, t = k["depth"], c26.OTYPE[k["depth"]]
            vals = np.array(k["data"])
            arr = (vals.astype(np.uint16) << (16 - c26.BITS[d])) if t == oiio.UINT16 else vals.astype(oiio.NPTYPE[t])
            names = (["R", "G", "B", "A", "Z"] if k["ch"] > 2 else ["Y", "A"])[:k["ch"]]
            oiio.IMAGES["in.img"] = dict(type=t, width=k["w"], height=k["h"], channels=k["ch"], names=names, attrs=k["attrs"], data=arr, container=0)
        image()
        r = dict(me=os.getpid())
        try:
            run_tool(case, argv, ctx)
            r["tool"] = [dict(w) for w in oiio.WRITTEN]
        except Violation as v:
            r["violation"] = [v.key, v.msg]
            return r
        os.close(delaynode.LOGFD[0])
        delaynode.LOGFD[0] = -1
        if r["tool"] and not bad:
            image()
            kw = {}
            if "compression" in o:
                kw["compression"] = o["compression"]
            kw["compressionQuality"] = o.get("quality", -1)
            M.filterImageWithCLF("in.img", "out.img", c.ProcessList(src), outBitDepth=o.get("outputBitDepth"), multithreaded=1, **kw)
            r["library"] = [dict(w) for w in oiio.WRITTEN]
        r["files"] = sorted(tree(A))
        return r
    try:
        r = c26.isolated(child, ctx)
    finally:
        os.close(delaynode.LOGFD[0])
        delaynode.LOGFD[0] = -1
        delaynode.EXTRA[0] = None
    if case["script"]:
        ctx.obs("scripts")
    if "violation" in r:
        raise Violation(*r["violation"])
    what = "%s %s" % (SCRIPT["filter"], " ".join(argv))
    if case["miss"] or bad:
        if r["tool"]:
            fail("tool:missing", "%s: an image was written without a required option or with an unknown bit depth", what)
        ctx.obs("missing" if case["miss"] else "refused")
        return
    if len(r["tool"]) != 1 or repr(r["tool"]) != repr(r["library"]):
        for q in set(list(r["tool"][0]) if r["tool"] else []):
            if r["library"] and repr(r["tool"][0][q]) != repr(r["library"][0][q]):
                fail("tool:image", "%s: the image's %s is %r, the library call's %r", what, q, str(r["tool"][0][q])[:300], str(r["library"][0][q])[:300])
        fail("tool:image", "%s: %d images written, the library call %d", what, len(r["tool"]), len(r.get("library", [])))
    ctx.obs("images")
    want = min(CPU, max(1, int(o.get("multithreaded", CPU))))
    events = [json.loads(l) for l in open(logp)]
    pids = set(e[0] for e in events)
    if not events:
        fail("tool:workers", "%s: the list of the file was not applied", what)
    if want == 1:
        if pids != {r["me"]}:
            fail("tool:workers", "%s: one worker was asked for, but %d other processes filtered the image", what, len(pids - {r["me"]}))
        ctx.obs("serial_runs")
    else:
        n = max(e[2] for e in events)
        if r["me"] in pids or n > want or len(pids) > want or k["h"] >= want and n != want:
            fail("tool:workers", "%s: %d workers (%d of them used, rows %d), %d were asked for", what, n, len(pids), k["h"], want)
        ctx.obs("parallel_runs")
        ctx.seen("workers", want, len(pids))
