"""OCIO conversion keeps the order and meaning of transforms."""
import os, random
from .. import env, gen as G, ref, lutio, model, ocio
from ..common import load, run as process, clf, reset_features
from ..core import fail, call, Skip
from . import c22
PROP = "C27"
RULE = "one generated config (any nesting, sources and destinations) behind a stand-in OCIO module, converted; the written CLF read back and judged against an independent evaluation of the transforms in order"
CASES = dict(quick=1300, thorough=45000)
NEED = dict(conversions=800, pixels_judged=3500, matrices=600, offsets=250, alpha_matrices=60, logs=350, files=350, inverse_files=60, nested=150, nothing_written=30, unreadable_luts=20, multi=400, names=1500, left_out=150, inverse_groups=120, described=700)
LIB = []


def setup():
    clf()
    ocio.install()
    LIB.append(load("aces.convertOCIOtoCLF"))
    LIB.append(load("aces.lutFormats"))


def matrix(g, alpha):
    kind = g.randrange(4)
    m = [[0.0] * 4 for _ in range(4)]
    for i in range(3):
        for j in range(3):
            m[i][j] = (1.0 if i == j else 0.0) if kind == 0 else round((1.0 if i == j else 0.0) + g.uniform(-0.4, 0.4), 6) if kind == 1 else round(g.uniform(-1.5, 1.5), 5) if kind == 2 else float(j == (i + 1) % 3)
    m[3][3] = 1.0
    off = [0.0] * 4
    k = g.randrange(4)
    if k == 1:
        off = [round(g.uniform(-0.5, 0.5), 5) for _ in range(3)] + [g.choice([0.0, 0.25])]
    elif k == 2:
        off[g.randrange(3)] = g.choice([0.1, -0.25, 1.0])
    if alpha:
        for _ in range(g.randrange(1, 4)):
            i, j = g.choice([(0, 3), (1, 3), (2, 3), (3, 0), (3, 1), (3, 2), (3, 3)])
            m[i][j] = round(g.uniform(-1, 1), 4)
    return dict(k="matrix", matrix=[x for r in m for x in r], offset=off)


def lutfile(g, files, inverse):
    n = len(files)
    if inverse:
        c, m = g.choice([1, 3]), g.choice([2, 3, 5, 8])
        cols = []
        for _ in range(c):
            st = [g.uniform(0.3, 1) for _ in range(m - 1)]
            cols.append([round(sum(st[:i]) / sum(st), 6) for i in range(m)])
        S = dict(fmt="spi1d", range=g.choice([[0.0, 1.0], [0.0, 1.0], [-0.5, 1.5], [0.0, 2.0]]), n=m, comps=c, values=[cols[k][j] for j in range(m) for k in range(c)])
        it = "linear"
    else:
        fmt = g.choice(["spi1d", "spi3d", "csp1", "csp3"])
        it = g.choice(["linear", "nearest", "best", "unknown"])
        if fmt == "spi1d":
            c, m = g.choice([1, 3]), g.choice([2, 3, 5, 9])
            cols = [c22.vals(g, m) for _ in range(c)]
            S = dict(fmt="spi1d", range=c22.rng_(g), n=m, comps=c, values=[cols[k][j] for j in range(m) for k in range(c)])
        elif fmt == "spi3d":
            d = [g.randrange(2, 5) for _ in range(3)]
            S = dict(fmt="spi3d", dim=d, values=c22.cube(g, d))
            it = g.choice(["linear", "tetrahedral", "tetrahedral", "best", "unknown", "nearest"])
        else:
            lo, hi = c22.rng_(g)
            one = fmt == "csp1"
            d = [g.choice([2, 3, 5])] if one else [g.randrange(2, 5) for _ in range(3)]
            if one:
                cols = [c22.vals(g, d[0]) for _ in range(3)]
            v = [cols[k][j] for j in range(d[0]) for k in range(3)] if one else c22.cube(g, d)
            S = dict(fmt="csp", kind="1D" if one else "3D", dim=d, values=v, preluts=[[[lo, hi], [0.0, 1.0]]] * 3, meta=None)
            it = g.choice(["linear", "tetrahedral", "best"]) if not one else it
    name = "%s%d.%s" % (g.choice(["lut", "a b", "x.y"]), n, S["fmt"])
    if g.random() < 0.3:
        name = "sub/" + name
    files.append([name, S, g.randrange(1 << 30)])
    return dict(k="file", src=name, interp=it, dir="inverse" if inverse else "forward", n=n)


def transform(g, files, alpha, inv, depth=0, flip=False):
    "flip: inside an inverse group"
    D = lambda inverse: "inverse" if inverse != flip else "forward"
    k = g.random()
    if k < 0.35:
        m = matrix(g, alpha and g.random() < 0.6)
        m["dir"] = D(g.random() < 0.08)
        return m
    if g.random() < 0.06:
        return g.choice([dict(k="cdl", dir="forward"), dict(k="exp", dir="inverse"), dict(k="log", base=g.choice([3, 2.5, 1]), dir="forward")])
    if k < 0.55:
        return dict(k="log", base=g.choice([2, 10, 2.0, 10.0]), dir=g.choice(["forward", "inverse"]))
    if alpha and (k < 0.75 or depth > 3):
        return dict(k="log", base=2, dir=D(False))
    if k < 0.75 or depth > 3:
        if g.random() < 0.08:
            files.append(["none%d.%s" % (len(files), g.choice(["xyz", "3dl", "cube"])), None, 0])
            return dict(k="file", src=files[-1][0], interp="linear", dir="forward", n=len(files) - 1)
        t = lutfile(g, files, inv and g.random() < 0.6)
        t["dir"] = D(t["dir"] != "forward")
        return t
    turned = g.random() < (0.4 if inv else 0.2)
    return dict(k="group", kids=[transform(g, files, alpha, inv, depth + 1, turned != flip) for _ in range(g.choice([0, 1, 2, 2, 3, 4]))], dir="inverse" if turned else "forward")


def dead(g, depth=0):
    "nothing in it can be converted"
    k = g.randrange(5)
    if k == 0:
        return None
    if k == 1 and depth < 3:
        return dict(k="group", kids=[x for x in [dead(g, depth + 1) for _ in range(g.randrange(3))] if x], dir="forward")
    if k == 2:
        return dict(k="file", src="x.unknownformat", interp="linear", dir="forward", n=None)
    return dict(k="group", kids=[], dir="forward")


def gen(g, tier, i):
    files = []
    alpha, inv = g.random() < 0.2, g.random() < 0.25
    names = ["lin", "acescg", "with space", "é color", "log & <x>", "lin2", "Rec.709"]
    spaces = {}
    none = g.random() < 0.06
    for n in names:
        spaces[n] = {}
        for d in ("to", "from"):
            spaces[n][d] = dead(g) if none else None
    ns, nd = g.choice([(1, 0), (0, 1), (1, 1), (1, 1), (2, 1), (1, 2), (2, 2), (3, 0), (0, 0)])
    if not inv and g.random() < 0.03:
        # many colour spaces
        ns, nd = g.randrange(12), g.randrange(6, 24)
    if ns + nd == 0:
        ns = 1
    src, dst = [g.choice(names) for _ in range(ns)], [g.choice(names) for _ in range(nd)]
    if not none:
        for d, l in (("to", src), ("from", dst)):
            for n in l:
                if spaces[n][d] is None and g.random() < 0.9:
                    spaces[n][d] = transform(g, files, alpha, inv)
        # the other directions hold something too, which must not be used
        for n in set(src + dst):
            for d in ("to", "from"):
                if spaces[n][d] is None and not (d == "to" and n in src) and not (d == "from" and n in dst):
                    spaces[n][d] = matrix(g, False)
    spaces = {n: v for n, v in spaces.items() if n in src + dst or g.random() < 0.3}
    ch = 4 if alpha else g.choice([3, 3, 4])
    m = g.choice(["indexmap", "indexmap", "resampled", "both"])
    if inv and g.random() < 0.04:
        m = "halfdomain"
    return dict(files=files, spaces=spaces, src=src, dst=dst, search=g.choice(["luts", "luts", ".", "luts/deep", ""]), method=m,
                pixels=[[G.f32(g.choice([g.random(), g.random(), g.random(), g.uniform(-0.5, 2), 0.0, 1.0, 0.18])) for _ in range(ch)] for _ in range(5)], ch=ch)


FLAGS = dict(indexmap=(True, False), both=(True, True), resampled=(False, False), halfdomain=(False, True))


def leaves(t, inverse=False):
    """The transforms of a tree in the order and direction in which they apply."""
    if t is None:
        return []
    inverse = inverse != (t["dir"] != "forward")
    if t["k"] == "group":
        return [x for k in (reversed(t["kids"]) if inverse else t["kids"]) for x in leaves(k, inverse)]
    return [dict(t, dir="inverse" if inverse else "forward")]


def lost(x):
    """The converter has no node for it, and says so."""
    return x["k"] in ("cdl", "exp") or x["k"] == "log" and x["base"] not in (2, 10) or x["k"] == "matrix" and x["dir"] != "forward"


def depth(t):
    return 0 if t is None or t["k"] != "group" else 1 + max([depth(k) for k in t["kids"]] or [0])


def stage(t, px, N, case, ctx, inverses):
    """Value of one transform on a pixel; alpha is carried along."""
    f = {"in": "16f", "out": "16f"}
    if t["k"] == "matrix":
        m, o = t["matrix"], t["offset"]
        rgba = (list(px) + [0.0])[:4]
        lone = m[3] == m[7] == m[11] == m[12] == m[13] == m[14] == 0.0 and m[15] == 1.0
        out = []
        for r in range(len(px)):
            if r == 3 and lone:
                out.append(px[3])
                continue
            a = 0.0
            for c in range(3 if lone else 4):
                a = N.r(a + N.r(N.r(m[r * 4 + c]) * rgba[c]))
            out.append(N.r(a + N.r(o[r])))
        return out
    if t["k"] == "log":
        st = ("antiLog%d" if t["dir"] != "forward" else "log%d") % int(t["base"])
        return ref.apply_list([dict(t="Log", style=st, params=[], **f)], px, N)
    S = case["files"][t["n"]][1]
    if S is None:
        return px
    if t["dir"] != "forward":
        y = process(inverses[t["n"]], [G.f32(x) for x in px], key="ocio:direct")
        # a half-domain table is written as half floats
        return [v * (1 + (N.g.random() * 2 - 1) * 2.0 ** -11 * 1.1) for v in y] if N.noisy and case["method"] == "halfdomain" else y
    it = t["interp"]
    if S["fmt"] == "csp":
        lo, hi = S["preluts"][0][0]
        ns = [dict(t="Range", minIn=lo, maxIn=hi, minOut=0.0, maxOut=1.0, **f),
              dict(t="LUT1D", channels=3, values=S["values"], interp=it, **f) if S["kind"] == "1D" else dict(t="LUT3D", dim=S["dim"], values=S["values"], interp=it, **f)]
    else:
        ns = c22.spec_nodes(dict(S, interp=it))
    return ref.apply_list(ns, px, N)


def run(case, ctx):
    reset_features()
    c = clf()
    M, L = LIB
    ocio.CONFIGS.clear()
    base = ctx.path("cfg")
    cfg = os.path.join(base, "config.ocio")
    lutdir = os.path.normpath(os.path.join(base, case["search"]))
    os.makedirs(os.path.join(lutdir, "sub"))
    for name, S, es in case["files"]:
        if S is None:
            open(os.path.join(lutdir, name), "w").write("nothing any reader knows\n")
        else:
            with open(os.path.join(lutdir, name), "w", newline="") as fh:
                fh.write(getattr(lutio, S["fmt"])(random.Random(es), S))
    ocio.CONFIGS[cfg] = dict(search=case["search"], spaces=case["spaces"])
    out = ctx.path("out.clf")
    maps, half = FLAGS[case["method"]]
    call("ocio", M.convertOCIOtoCLF, cfg, list(case["src"]), list(case["dst"]), out, maps, half)
    ctx.obs("conversions")
    # what must come out
    seq = [(n, "to", case["spaces"][n]["to"]) for n in case["src"]] + [(n, "from", case["spaces"][n]["from"]) for n in case["dst"]]
    inverses, steps, names = {}, [], []
    for n, d, t in seq:
        k = 0
        ctx.obs("nested", int(depth(t) > 1))
        ctx.obs("inverse_groups", int(bool(t) and t["k"] == "group" and t["dir"] != "forward"))
        for x in leaves(t):
            cnt = 1
            if lost(x):
                ctx.obs("left_out")
                continue
            if x["k"] == "file":
                if x["n"] is None or case["files"][x["n"]][1] is None:
                    ctx.obs("unreadable_luts")
                    continue
                S = case["files"][x["n"]][1]
                nodes = call("ocio:direct", L.Registry.read, os.path.join(lutdir, x["src"]), x["dir"] != "forward", x["interp"], inversesUseIndexMaps=maps, inversesUseHalfDomain=half, returnProcessNodes=True)
                cnt = len(nodes)
                if x["dir"] != "forward":
                    inverses[x["n"]] = call("ocio:direct", L.Registry.read, os.path.join(lutdir, x["src"]), True, x["interp"], inversesUseIndexMaps=maps, inversesUseHalfDomain=half)
                    ctx.obs("inverse_files")
                ctx.obs("files")
                steps.append((x, [type(q).__name__ for q in nodes], [bool(q.getAttribute("halfDomain")) if hasattr(q, "getAttribute") and "LUT1D" in type(q).__name__ else None for q in nodes]))
            elif x["k"] == "matrix":
                ctx.obs("matrices")
                ctx.obs("offsets", int(any(x["offset"][:3])))
                ctx.obs("alpha_matrices", int(any(x["matrix"][q] for q in (3, 7, 11, 12, 13, 14)) or x["matrix"][15] != 1))
                steps.append((x, ["Matrix"], [None]))
            else:
                ctx.obs("logs")
                steps.append((x, ["Log"], [None]))
            for _ in range(cnt):
                names.append(("%s to reference - node %d" if d == "to" else "reference to %s - node %d") % (n, k))
                names[-1] = [names[-1], ("Convert %s to reference" if d == "to" else "Convert reference to %s") % n]
                k += 1
    ctx.obs("multi", int(len(seq) > 1))
    if not steps:
        if os.path.exists(out):
            fail("ocio:empty", "nothing can be converted, yet a file was written")
        ctx.obs("nothing_written")
        ctx.nontrivial = True
        return
    if not os.path.exists(out):
        fail("ocio:nofile", "no file written for %s -> %s", case["src"], case["dst"])
    try:
        doc = model.parse_document(model.read_bytes(out)[0])
    except model.Malformed as e:
        fail("ocio:document", "the written file is no CLF document: %s (%s)", e, [(x["k"], x.get("matrix"), x.get("offset")) for x, _, _ in steps][:3])
    got = [[s.get("name"), (s["desc"] or [None])[-1]] for s in doc["nodes"]]
    if got != names:
        fail("ocio:names", "nodes are named %r, should be %r", got, names)
    ctx.obs("names", len(names))
    text, at = "\n".join(e[1] for e in doc["elems"] if e[0] == "desc"), 0
    for w in [cfg] + case["src"] + case["dst"]:
        at = text.find(w, at)
        if at < 0:
            fail("ocio:description", "the list is described as %r, which lacks %r where it belongs", text, w)
        at += len(w)
    ctx.obs("described")
    types = [s["tag"] for s in doc["nodes"]]
    want = [q for _, ts, _ in steps for q in ts]
    if types != want:
        fail("ocio:types", "nodes are %r, should be %r", types, want)
    halfs = [str(s.get("halfDomain")).lower() == "true" if s["tag"] == "LUT1D" else None for s in doc["nodes"]]
    wanth = [q for _, _, hs in steps for q in hs]
    if halfs != wanth:
        fail("ocio:method", "half domains %r instead of %r (method %s)", halfs, wanth, case["method"])
    pl = call("ocio:read", c.ProcessList, out)
    exact = not inverses
    files = any(x["k"] == "file" for x, _, _ in steps)
    four = any(any(x["matrix"][q] for q in (3, 7, 11, 12, 13, 14)) or x["matrix"][15] != 1 for x, _, _ in steps if x["k"] == "matrix")
    for px in case["pixels"]:
        if four and len(px) < 4:
            continue
        cur, ok = list(px), True
        for x, _, _ in steps:
            cur = stage(x, cur, ref.EXACT, case, ctx, inverses)
            if any(not abs(v) < 1e6 for v in cur):
                ok = False
                break
        if not ok:
            continue

        def ev(N):
            y = list(px)
            for x, _, _ in steps:
                y = stage(x, y, N, case, ctx, inverses)
                if not exact:
                    y = [N.r(v) for v in y]
            return y[:3] if files else y
        r = process(pl, list(px), key="ocio:process")
        if len(r) != len(px):
            fail("ocio:length", "%d values for a pixel of %d", len(r), len(px))
        # what a LUT file does to an alpha channel is not part of its meaning
        ref.judge(r[:3] if files else r, ev, "ocio", "%s -> %s, %s, pixel %r" % (case["src"], case["dst"], [(x["k"], x.get("src"), x.get("dir")) for x, _, _ in steps], px), 2e-9 if exact else 1e-5, 0.0 if exact else 2.0 ** -9.5 if case["method"] == "halfdomain" else 1e-5)
        ctx.obs("pixels_judged")
    ctx.nontrivial = True
    ctx.seen(tuple((x["k"], x.get("dir"), x.get("interp")) for x, _, _ in steps), case["method"] if inverses else None)
