"""Image filtering applies the list to every pixel exactly once."""
import json, math, os, pickle, random, signal, sys
from collections import Counter
import numpy as np
from .. import env, gen as G, ref, model, nodecheck, oiio, delaynode
from ..common import load, run as process, reset_features, clf
from ..core import fail, call, Skip, Violation
PROP = "C26"
RULE = "one image filtered (in a process of its own) with recording nodes at the list's ends and injected row delays; the written image compared pixel by pixel, the node's log checked for exactly-once"
CASES = dict(quick=500, thorough=16000)
NEED = dict(images=350, pixels_judged=8000, parallel=150, serial=100, rows_reordered=30, shifted=40, unreadable=10, float_out=80, int_out=150, clamped=200, logged_pixels=3000, metadata=500)
BITS = {"8i": 8, "10i": 10, "12i": 12, "16i": 16, "16f": 16, "32f": 32}
OTYPE = {"8i": oiio.UINT8, "10i": oiio.UINT16, "12i": oiio.UINT16, "16i": oiio.UINT16, "16f": oiio.HALF, "32f": oiio.FLOAT}
MOD = []


def setup():
    clf()
    oiio.install()
    MOD.append(load("aces.filterImageWithCLF"))
    delaynode.make(clf())


def gen(g, tier, i):
    depth = g.choice(["8i", "10i", "12i", "16i", "16i", "16f", "16f", "32f", "32f"])
    ch = g.choice([3, 3, 3, 4, 4, 5, 1, 2])
    w, h = g.choice([1, 2, 3, 4, 7]), g.choice([1, 2, 3, 5, 6, 9, 12, 17, g.choice([40, 101, 120, 120, 290])])
    if h > 20:
        w = g.choice([1, 2])
    old = depth == "16f" and g.random() < 0.25 and w * h * ch % 2 == 0
    types = ["Range", "LUT1D"] if ch < 3 else G.TYPES
    n = g.randrange(1, 4)
    nodes = G.chain(g, n, types=types, rows=4 if ch == 4 and g.random() < 0.3 else 3, first=depth if g.random() < 0.4 else None)
    for s in (nodes[0], nodes[-1]):
        s["in"], s["out"] = s["in"] or "16f", s["out"] or "16f"
    if ch >= 3:
        nodes = G.nest(g, nodes, 0.3)
    size = ref.size(depth)
    data = []
    for _ in range(w * h * ch):
        if size != 1.0:
            data.append(float(g.choice([0, size, g.randrange(int(size) + 1), g.randrange(int(size) + 1)])))
        else:
            x = g.choice([g.random(), g.random(), g.uniform(-0.5, 3), 0.0, 1.0, -0.0, 1e-4, 4.0])
            data.append(float(np.float16(x)) if depth == "16f" else G.f32(x))
    if size == 1.0 and g.random() < 0.06:
        # damaged pixels among the others
        for _ in range(g.randrange(1, 3)):
            data[g.randrange(len(data))] = g.choice([float("nan"), float("nan"), float("inf"), float("-inf")])
    attrs = []
    for k in range(g.choice([0, 1, 2, 3, 7])):
        attrs.append(g.choice([["Software", "string", "x y"], ["compression", "string", "zip"], ["worldToCamera", "matrix", [1.0] * 16], ["Orientation", "int", 1], ["PixelAspectRatio", "float", 1.0], ["capDate", "string", "2015:01:01"], ["oiio:ColorSpace", "string", "Linear"], ["oiio:Gamma", "float", 2.2], ["BitsPerSample", "int", 99], ["Exif:BitsPerSample", "int", 7], ["CompressionQuality", "int", 55], ["oiio:bitspersecond", "int", 3]]))
    if g.random() < 0.08:
        # many tags
        attrs += [["custom:%d" % k, "float", k + 0.5] for k in range(g.randrange(8, 40))]
    attrs = [a for k, a in enumerate(attrs) if a[0] not in [b[0] for b in attrs[:k]]]
    if depth in ("10i", "12i") or g.random() < 0.4:
        attrs.insert(g.randrange(len(attrs) + 1), ["oiio:BitsPerSample", "int", BITS[depth]])
    pad = [g.randrange(64) for _ in range(4)]
    return dict(nodes=nodes, depth=depth, w=w, h=h, ch=ch, data=data, attrs=attrs, out=g.choice([None, None, "8i", "10i", "12i", "16i", "16f", "32f"]), workers=g.choice([1, 1, 1, 2, 3, 5, 8, None]), version=10700 if old else g.choice([10800, 10801, 20000]),
                container=g.choice([0, 0, 1, 2]), verbose=g.random() < 0.1, seed=g.randrange(1 << 30), delay=g.random() < 0.7, via=g.choice(["api", "api", "file"]), comp=g.choice([None, None, "zip", "none"]), quality=g.choice([0, -1, 90, 1, 100]),
                unreadable=g.random() < 0.05, pad=pad, default_out=g.random() < 0.5)


def child(case, ctx, path_list):
    """Runs the filter; everything the stand-in recorded goes to a file."""
    oiio.reset()
    sys.modules["OpenImageIO"].VERSION = case["version"]
    MOD[0].oiio.VERSION = case["version"]
    d, t = case["depth"], OTYPE[case["depth"]]
    vals = np.array(case["data"])
    if t == oiio.UINT16:
        sh = 16 - BITS[d]
        # the low bits of a 10- or 12-bit sample kept in 16 bits may hold anything
        low = np.array([case["pad"][k % 4] & ((1 << sh) - 1) for k in range(len(vals))], dtype=np.uint16)
        arr = (vals.astype(np.uint16) << sh) | low
    else:
        arr = vals.astype(oiio.NPTYPE[t])
    names = (["R", "G", "B", "A", "Z"] if case["ch"] > 2 else ["Y", "A"])[:case["ch"]]
    if not case["unreadable"]:
        oiio.IMAGES["in.img"] = dict(type=t, width=case["w"], height=case["h"], channels=case["ch"], names=names, attrs=case["attrs"], data=arr, container=case["container"])
    kw = {}
    if not (case["out"] is None and case["default_out"]):
        kw["outBitDepth"] = case["out"]
    if case["workers"] is not None:
        kw["multithreaded"] = case["workers"]
    if case["comp"]:
        kw["compression"] = case["comp"]
    if case["quality"]:
        kw["compressionQuality"] = case["quality"]
    if case["verbose"]:
        kw["verbose"] = True
    pl = path_list
    err = None
    try:
        MOD[0].filterImageWithCLF("in.img", "out.img", pl, **kw)
    except BaseException as e:
        import traceback
        err = traceback.format_exc()[-1500:]
    return dict(written=oiio.WRITTEN, log=oiio.LOG, err=err, names=names)


def isolated(fn, ctx):
    """fn() in a forked process (its pool threads and workers stay out of this one)."""
    p = ctx.path("result.pickle")
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            signal.alarm(0)
            r = fn()
            with open(p, "wb") as fh:
                pickle.dump(r, fh)
        except BaseException:
            import traceback
            with open(p + ".err", "w") as fh:
                fh.write(traceback.format_exc())
            code = 1
        os._exit(code)
    try:
        os.waitpid(pid, 0)
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    finally:
        sweep()
    if not os.path.exists(p):
        raise RuntimeError(open(p + ".err").read() if os.path.exists(p + ".err") else "the child ended without a result")
    with open(p, "rb") as fh:
        return pickle.load(fh)


def sweep():
    "ends the pool's processes the filter left behind (they share this worker's process group)"
    me, group = os.getpid(), os.getpgid(0)
    if me != group:
        return
    for e in os.listdir("/proc"):
        if e.isdigit() and int(e) != me:
            try:
                if os.getpgid(int(e)) == group:
                    os.kill(int(e), signal.SIGKILL)
            except OSError:
                pass


def run(case, ctx):
    c = clf()
    reset_features()
    nodes = case["nodes"]
    pl = nodecheck.obtain(dict(nodes=nodes, via=case["via"], es=case["seed"], style=1), ctx, "filter", name="l.clf")
    lin, lout = nodes[0]["in"], nodes[-1]["out"]
    # recording and delaying nodes at both ends
    D = delaynode.make(c)
    full = c.ProcessList()
    full.addProcess(D(lin, lin, "first", "first"))
    for n in pl.getProcesses():
        full.addProcess(n)
    full.addProcess(D(lout, lout, "last", "last"))
    w, h, ch = case["w"], case["h"], case["ch"]
    npx = w * h
    src = [case["data"][k * ch:(k + 1) * ch] for k in range(npx)]
    out = case["out"] or case["depth"]
    si, sl, so, sz = ref.size(case["depth"]), ref.size(lin), ref.size(lout), ref.size(out)
    logp = ctx.path("log")
    delaynode.LOGFD[0] = os.open(logp, os.O_CREAT | os.O_WRONLY | os.O_APPEND | os.O_TRUNC)
    delaynode.SEED[0] = case["seed"] if case["delay"] and (case["workers"] or 8) > 1 else 0
    try:
        r = isolated(lambda: child(case, ctx, full), ctx)
    finally:
        os.close(delaynode.LOGFD[0])
        delaynode.LOGFD[0] = -1
    what = "%s image %dx%dx%d, list %s..%s, output %s, %s workers" % (case["depth"], w, h, ch, lin, lout, case["out"], case["workers"])
    if r["err"]:
        fail("filter:raises", "%s: %s", what, r["err"])
    if case["unreadable"]:
        if r["written"] or any(x[0] == "create" for x in r["log"]):
            fail("filter:unreadable", "%s: an unreadable input produced output %s", what, r["log"])
        ctx.obs("unreadable")
        ctx.nontrivial = True
        return
    if len(r["written"]) != 1:
        fail("filter:outputs", "%s: %d images written; %s", what, len(r["written"]), r["log"])
    o = r["written"][0]
    ctx.obs("images")
    par = (case["workers"] or 8) > 1
    ctx.obs("parallel" if par else "serial")
    ctx.obs("shifted", int(case["depth"] in ("10i", "12i")))
    want = dict(path="out.img", type=OTYPE[out], written_as=OTYPE[out], width=w, height=h, channels=ch, names=r["names"])
    for k, v in want.items():
        if o[k] != v:
            fail("filter:spec", "%s: output has %s %r instead of %r", what, k, o[k], v)
    if len(o["data"]) != npx * ch:
        fail("filter:size", "%s: %d values written", what, len(o["data"]))
    # metadata
    got = {}
    for a in o["attrs"]:
        got[a[0]] = a[-1]
    exp = {a[0]: a[2] for a in case["attrs"]}
    if case["comp"]:
        exp["compression"] = case["comp"]
    if case["quality"] > 0:
        exp["CompressionQuality"] = case["quality"]
    hadbits = "oiio:BitsPerSample" in exp
    exp.pop("oiio:BitsPerSample", None)
    bits = got.pop("oiio:BitsPerSample", None)
    if got != exp:
        fail("filter:metadata", "%s: metadata %r instead of %r", what, got, exp)
    if bits is not None and bits != BITS[out] or bits is None and (hadbits or sz != 1.0):
        fail("filter:bits", "%s: bits per sample %r written for %s", what, bits, out)
    ctx.obs("metadata", len(exp) + 1)
    # pixels
    for k in range(npx):
        px = src[k]
        if not all(math.isfinite(v) for v in px):
            # nothing is specified but that the others come through
            ctx.obs("nonfinite_pixels")
            continue
        x = [v / si * sl for v in px]
        if not G.tame(nodes, x, 6e4 * max(1.0, so)):
            ctx.obs("untame_pixels")
            continue
        res = ref.apply_list(nodes, x)
        if any(abs(v / so * sz) > 6e4 for v in res) and out == "16f":
            continue

        def ev(N):
            y = [N.r(v / si * sl) for v in px] if si != sl else list(px)
            y = ref.apply_list(nodes, y, N)
            if so != sz:
                y = [N.r(v / so * sz) for v in y]
            return [ref.clamp(v, 0.0, sz) for v in y] if sz != 1.0 else y
        ea, er = (0.5 + 2e-6 * sz, 0.0) if sz != 1.0 else (2.0 ** -24, 2.0 ** -10.9) if out == "16f" else (0.0, 1e-6)
        v = o["data"][k * ch:(k + 1) * ch]
        if sz != 1.0 and out in ("10i", "12i"):
            sh = 16 - BITS[out]
            if any(int(q) & ((1 << sh) - 1) for q in v):
                fail("filter:scale", "%s: %r are no %s-bit values on a 16-bit scale", what, v, BITS[out])
            v = [int(q) >> sh for q in v]
        ref.judge(v, ev, "filter", "%s, pixel %d (row %d, column %d) %r" % (what, k, k // w, k % w, px), ea, er)
        ctx.obs("pixels_judged")
        ctx.obs("clamped", int(any(not 0 <= q / so <= 1 for q in res)))
    ctx.obs("int_out" if sz != 1.0 else "float_out")
    # the log: the list saw every pixel exactly once
    rows, order, first = {}, [], True
    seen = Counter()
    events = [json.loads(l) for l in open(logp)]
    # both ends log; the first end's events hold the converted input
    n_values = sum(len(e[1]) for e in events)
    if n_values != 2 * npx * ch:
        fail("filter:once", "%s: the list's first and last node saw %d values, the image has %d", what, n_values, npx * ch)
    exp_px = Counter(tuple(round(G.f32(v / si * sl), 5) for v in p) for p in src)
    pool = Counter()
    for pid, vals in events:
        for k in range(0, len(vals), ch):
            pool[tuple(round(v, 5) for v in vals[k:k + ch])] += 1
    for p, n in exp_px.items():
        if not all(math.isfinite(v) for v in p):
            continue
        if pool[p] < n and not near(pool, p, n):
            fail("filter:once", "%s: pixel %r of the image reached the list %d times instead of %d", what, p, pool[p], n)
    ctx.obs("logged_pixels", npx)
    pids = [e[0] for e in events]
    ctx.seen("pids", len(set(pids)), par)
    if par and len(set(pids)) > 1:
        index = {}
        for j in range(h):
            index.setdefault(tuple(round(G.f32(v / si * sl), 5) for v in case["data"][j * w * ch:(j + 1) * w * ch]), j)
        order = [index[t] for t in (tuple(round(v, 5) for v in e[1]) for e in events) if t in index]
        ctx.obs("rows_reordered", int(order != sorted(order)))
        ctx.seen("completion", tuple(order))
    ctx.seen(case["depth"], out, lin, lout, ch, par)
    ctx.nontrivial = True


def near(pool, p, n):
    "rounding at the fifth decimal"
    return sum(m for q, m in pool.items() if len(q) == len(p) and all(abs(a - b) <= 2e-5 + 1e-6 * abs(a) for a, b in zip(p, q))) >= n
