"""1D/3D/1D conversion reproduces the transform through its shapers."""
import math, os, random
from .. import env, gen as G, ref, lutio, model, nodecheck
from ..common import load, run as process, reset_features, clf
from ..core import fail, call, Skip
PROP = "C25"
RULE = "one 1D/3D/1D conversion of a list, its file parsed independently, table by table and as a whole transform, and read back by the library"
CASES = dict(quick=900, thorough=36000)
NEED = dict(clf_files=200, csp_files=200, lattice_entries=10000, shaper_entries=4000, transform_pixels=4000, log2_in=150, none_in=80, out_shapers=200, affine_pixels=300)
LIB = []


def setup():
    LIB.append(load("aces.lutFormats"))


def shaper(g, out=False):
    k = g.randrange(5)
    if k == 0:
        return [None, 0.0, 1.0]
    if k < 3:
        lo, hi = g.choice([(0.0, 1.0), (-0.5, 1.5), (0.0, 4.0), (0.125, 0.875), (-1.0, 0.5), (0.5, 8.0), (0.0, 16.0), (-1.0, 12.0), (-10.0, 10.0)])
        if out:
            lo, hi = g.choice([(0.0, 1.0), (-1.0, 2.0), (-4.0, 8.0), (-0.5, 1.5), (-12.0, 20.0)])
        return ["linear", lo, hi]
    lo, hi = g.choice([(-4.0, 2.0), (-6.0, 0.0), (-3.0, 3.0), (-2.0, 1.0), (0.0, 4.0), (-8.0, 4.0), (-6.5, 6.5)])
    return ["log2", lo, hi]


def gen(g, tier, i):
    ext = g.choice(["clf", "csp"])
    sin = shaper(g)
    if ext == "clf":
        sout = shaper(g, True)
    else:
        sout = g.choice([[None, 0.0, 1.0], ["linear", 0.0, 1.0]])
    affine = g.random() < 0.3
    if affine:
        # affine maps, with linear (or no) shapers
        sin = sin if sin[0] != "log2" else ["linear", 0.0, 2.0]
        sout = sout if sout[0] != "log2" else ["linear", -1.0, 3.0] if ext == "clf" else [None, 0.0, 1.0]
        nodes = [dict(t="Matrix", dim=[3, 4, 3], values=[round(v, 6) for r in range(3) for v in [g.uniform(0, 0.3), g.uniform(0, 0.3), g.uniform(0, 0.3), g.uniform(0.0, 0.1)]], id="m", name="m", **{"in": "16f", "out": "16f"})]
    else:
        nodes = []
        for _ in range(g.randrange(0, 4)):
            nodes.append(G.node(g, None, g.choice(G.FDEPTHS), g.choice(G.FDEPTHS), rows=3))
        nodes = G.nest(g, nodes, 0.3)
    big = g.random() < 0.02
    return dict(nodes=nodes, ext=ext, sin=sin, sout=sout, res=[g.randrange(1000, 3000) if big else g.choice([2, 5, 17, g.randrange(2, 60)]), g.choice([2, 3, 3, 4, 5]), g.choice([2, 5, 17, g.randrange(2, 40)])], affine=affine,
                default=g.random() < 0.1, pixels=[[g.random() if g.random() < 0.8 else g.choice([0.0, 1.0, -0.2, 1.2]) for _ in range(3)] for _ in range(5)], tup=g.random() < 0.3)


def domain(s):
    t, lo, hi = s
    return (lo, hi) if t == "linear" else (2.0 ** lo, 2.0 ** hi) if t == "log2" else (0.0, 1.0)


def forward(s, x, N, clamp=True):
    t, lo, hi = s
    if t is None:
        return x
    if t == "log2":
        x = N.r(math.log(max(x, ref.FLT_MIN)) / math.log(2.0))
    k = N.r(1.0 / (hi - lo))
    y = N.r(N.r(x * k) - N.r(lo * k))
    return ref.clamp(y) if clamp else y


def backward(s, y, N):
    t, lo, hi = s
    if t is None:
        return y
    x = N.r(N.r(y * (hi - lo)) + lo)
    return N.r(2.0 ** x) if t == "log2" else x


def run(case, ctx):
    L = LIB[0]
    c = clf()
    reset_features()
    nodes, ext, sin, sout = case["nodes"], case["ext"], case["sin"], case["sout"]
    n1, n3, n1o = case["res"]
    pl = model.make(nodes, c, "shaped:build")
    p = ctx.path("o." + ext)
    what = "%s, shapers %s -> %s, resolutions %s" % (ext, sin, sout, case["res"])
    if case["default"]:
        # the defaults are linear [0,1] shapers
        sin, sout = ["linear", 0.0, 1.0], ["linear", 0.0, 1.0]
        kw = {}
    else:
        kw = dict(shaperIn=tuple(sin) if case["tup"] else list(sin), shaperOut=tuple(sout) if case["tup"] else list(sout))
    res = list(case["res"])
    call("shaped:write", L.Registry.write, pl, p, "1D_3D_1D", lutResolution1d3d1d=res, **kw)
    if res != case["res"] or kw and (list(kw["shaperIn"]) != sin or list(kw["shaperOut"]) != sout):
        fail("shaped:arguments", "%s: the arguments were modified: %s %s", what, res, kw)
    if os.listdir(ctx.tmp) != [os.path.basename(p)]:
        fail("shaped:file", "%s: files %s", what, os.listdir(ctx.tmp))
    lo, hi = domain(sin)
    ctx.obs(ext + "_files")
    ctx.obs((sin[0] or "none") + "_in")
    ctx.seen(ext, tuple(sin), tuple(sout), n3, case["affine"])
    E = ref.EXACT

    def shaped(N, k, n=None):
        return backward(sin, N.r(k / ((n or n3) - 1.0)), N)

    def inrange(px):
        if not G.tame(nodes, px, 1e5):
            return False
        r = ref.apply_list(nodes, px)
        return sout[0] is None or all(0.0 <= forward(sout, x, E, False) <= 1.0 for x in r)

    def entry(N, ks):
        x = [shaped(N, k) for k in ks]
        r = ref.apply_list(nodes, x, N)
        return [forward(sout, v, N) for v in r]
    lattice = [(r, g, b) for r in range(n3) for g in range(n3) for b in range(n3)]
    good = [ks for ks in lattice if inrange([shaped(E, k) for k in ks])]
    if not good:
        raise Skip("no result within the output shaper's range")
    prec = 6e-7 if ext == "csp" else 1e-9
    rel = 1e-6
    if ext == "clf":
        D, _ = parsed(p)
        luts = [s for s in D if s["t"] in ("LUT1D", "LUT3D")]
        kinds = [s["t"] for s in luts]
        want = (["LUT1D"] if sin[0] else []) + ["LUT3D"] + (["LUT1D"] if sout[0] else [])
        if kinds != want:
            fail("shaped:nodes", "%s: file holds %s", what, [s["t"] for s in D])
        cube = luts[kinds.index("LUT3D")]
        dims = [list(cube["dim"][:3])] + [len(s["values"]) // s["channels"] for s in luts if s["t"] == "LUT1D"]
        wd = [[n3] * 3] + ([n1] if sin[0] else []) + ([n1o] if sout[0] else [])
        if dims != wd:
            fail("shaped:resolution", "%s: file holds %s", what, dims)
        pre = D[:D.index(cube)]
        values = cube["values"]

        def shape_at(x):
            return ref.apply_list(pre, [x] * 3)
        if sout[0]:
            post = D[D.index(cube) + 1:]
            for k in range(n1o):
                y = k / (n1o - 1.0)
                got = ref.apply_list(post, [y] * 3)
                ref.judge(got, lambda N: [backward(sout, N.r(y), N)] * 3, "shaped:out", "%s, output shaper at %r" % (what, y), 2e-9, 2e-6 + 2e-7 * n1o)
                ctx.obs("shaper_entries")
            ctx.obs("out_shapers")
    else:
        try:
            S = lutio.read_csp(open(p).read())
        except (lutio.Bad, ValueError, IndexError) as e:
            fail("shaped:format", "%s: malformed file: %s", what, e)
        if S["kind"] != "3D" or S["dim"] != [n3] * 3 or sin[0] and any(len(q[0]) != n1 for q in S["preluts"]):
            fail("shaped:resolution", "%s: file holds %s %s, preluts of %s", what, S["kind"], S["dim"], [len(q[0]) for q in S["preluts"]])
        for q in S["preluts"]:
            if abs(q[0][0] - lo) > 1e-6 or abs(q[0][-1] - hi) > 1e-6 * (1 + hi):
                fail("shaped:range", "%s: prelut covers %r..%r", what, q[0][0], q[0][-1])
        values = S["values"]

        def shape_at(x):
            return [lutio.pwl(q[0], q[1], x) for q in S["preluts"]]
    # the input shaper at its own grid
    for k in range(n1):
        x = lo + k / (n1 - 1.0) * (hi - lo)
        slope = (1.0 / (math.log(2.0) * max(x, lo) * (sin[2] - sin[1]))) if sin[0] == "log2" else 1.0 / (hi - lo)
        # the tables print nine (.clf) or six (.csp) decimals, positions included
        e = prec + slope * (1e-6 if ext == "csp" else 1e-9) + 4e-7 * (n1 + slope * max(abs(lo), abs(hi)) + 8)
        got = shape_at(x)
        w = forward(sin, x, E)
        if any(abs(v - w) > e for v in got):
            fail("shaped:in", "%s: input shaper maps %r to %r instead of %r (+-%g)", what, x, got, w, e)
        ctx.obs("shaper_entries")
    # the lattice
    for ks in good:
        i = ((ks[0] * n3 + ks[1]) * n3 + ks[2]) * 3
        ref.judge(values[i:i + 3], lambda N: entry(N, ks), "shaped", "%s, lattice entry %s" % (what, ks), prec, rel)
        ctx.obs("lattice_entries")
    # the file as a whole, read by the library
    back = call("shaped:read", c.ProcessList, p) if ext == "clf" else call("shaped:read", L.Registry.read, p)
    g = random.Random(n1 * 31 + n3)
    finite = all(G.tame(nodes, [shaped(E, k) for k in ks], 1e6) for ks in lattice)
    for ks in g.sample(good, min(6, len(good))) if finite else []:
        x = [shaped(E, k) for k in ks]
        exact = sin[0] != "log2" and sout[0] != "log2"
        got = process(back, x, key="shaped:read")
        if len(got) != 3:
            fail("shaped:read", "%s: %d values", what, len(got))
        if ext == "csp":
            b = lutio.csp_interval(S, x)
        else:
            b = clf_interval(D, x, n1, n1o, sin, sout)
        for k in range(3):
            if not b[k][0] <= got[k] <= b[k][1]:
                fail("shaped:transform", "%s: file gives %r at %r, its tables say %r", what, got, x, b)
        ctx.obs("transform_pixels")
        if exact:
            want = ref.apply_list(nodes, x)
            span = 1.0 if sout[0] is None else sout[2] - sout[1]
            near = neighbourhood(nodes, x, n3, lo, hi, case)
            slack = max(1e-5 * (1 + abs(want[k]) + span) + near[k] for k in range(3))
            ref.judge(got, lambda N: ref.apply_list(nodes, [shaped(N, k) for k in ks], N), "shaped:transform", "%s: file at lattice point %r" % (what, x), slack)
    if case["affine"] and len(good) == len(lattice):
        for q in case["pixels"]:
            x = [lo + ref.clamp(v) * (hi - lo) for v in q]
            want = ref.apply_list(nodes, x)
            got = process(back, x, key="shaped:read")
            slack = (hi - lo) * 0.9 / (2.0 * n1 - 1) * 1e-6 + 1e-5 * (1 + (hi - lo))
            if any(abs(a - b) > slack for a, b in zip(got, want)):
                fail("shaped:affine", "%s: affine list gives %r at %r, the file %r", what, want, x, got)
            ctx.obs("affine_pixels")
            # outside the range the result is held
            y = [lo + v * (hi - lo) for v in q]
            held = process(back, y, key="shaped:read")
            if any(abs(a - b) > slack for a, b in zip(held, got)):
                fail("shaped:outside", "%s: %r outside the range gives %r, its limit gives %r", what, y, held, got)
    ctx.nontrivial = True


def parsed(p):
    data, gz = model.read_bytes(p)
    try:
        L = model.parse_document(data)
    except model.Malformed as e:
        fail("shaped:format", "malformed file: %s", e)
    return L["nodes"], gz


def neighbourhood(nodes, x, n3, lo, hi, case):
    "Variation of the list within float rounding of the lattice position (interpolation weights of 1e-6 reach a neighbour)."
    out = [0.0] * 3
    base = ref.apply_list(nodes, x)
    h = (hi - lo) / (n3 - 1.0)
    for k in range(3):
        for d in (-1, 1):
            y = list(x)
            y[k] = min(hi, max(lo, x[k] + d * h))
            if G.tame(nodes, y):
                r = ref.apply_list(nodes, y)
                for c in range(3):
                    out[c] += abs(r[c] - base[c]) * 1e-5
            else:
                out = [1e9] * 3
    return out


def clf_interval(D, x, n1, n1o, sin, sout):
    """Bounds from evaluating the written document at slightly moved inputs."""
    lo, hi = [1e300] * 3, [-1e300] * 3
    for k in range(40):
        N = ref.Noisy(k, eps=2.0 ** -20) if k else ref.EXACT
        r = ref.apply_list(D, [N.r(v) for v in x], N)
        for c in range(3):
            lo[c], hi[c] = min(lo[c], r[c]), max(hi[c], r[c])
    return [(lo[c] - 1e-5 * max(1.0, abs(lo[c])) - (hi[c] - lo[c]), hi[c] + 1e-5 * max(1.0, abs(hi[c])) + (hi[c] - lo[c])) for c in range(3)]
