"""LUT files are converted into equivalent process lists."""
import random
from .. import env, gen as G, ref, lutio
from ..common import load, run as process
from ..core import fail, call
PROP = "C22"
RULE = "one generated .spi1d/.spi3d/.csp file in a random surface form, read through the registry and judged at grid, in-between and outside points"
CASES = dict(quick=1600, thorough=60000)
NEED = dict(files_spi1d=250, files_spi3d=200, files_csp1D=150, files_csp3D=150, pixels_judged=6000, outside_range=500, long_preluts=100, unequal_preluts=50, csp_interp=800, named_interp=250)
EXTS = {"spi1d": ["spi1d", "SPI1D", "Spi1d"], "spi3d": ["spi3d", "SPI3D"], "csp": ["csp", "CSP", "Csp"]}
LIB = []


def setup():
    LIB.append(load("aces.lutFormats"))


def rng_(g):
    k = g.randrange(6)
    if k < 2:
        return [0.0, 1.0]
    lo, hi = g.choice([(-0.5, 2.0), (0.0, 4.0), (-1.0, 1.0), (0.25, 0.75), (0.0, 1023.0), (-0.125, 1.0), (0.0, 1.5), (0.1, 1.0), (-3.5, -0.5), (1.0, 16.0), (0.0, 1.0004), (0.0003, 1.0), (0.0, 0.01), (0.5, 0.503), (-1e-4, 1.0), (0.12345, 3.45678)])
    return [lo, hi]


def vals(g, n):
    k = g.randrange(4)
    if k == 0:
        return sorted(round(g.uniform(-0.5, 2), 6) for _ in range(n))
    if k == 1:
        return [round(g.uniform(-2, 3), 7) for _ in range(n)]
    if k == 2:
        return [float(g.randrange(-2, 4)) for _ in range(n)]
    return [round((i / max(1.0, n - 1.0)) ** 2.2, 9) for i in range(n)]


def cube(g, d, kind=None):
    out = []
    kind = g.randrange(3) if kind is None else kind
    for r in range(d[0]):
        for gg in range(d[1]):
            for b in range(d[2]):
                x = [r / (d[0] - 1.0), gg / (d[1] - 1.0), b / (d[2] - 1.0)]
                out += [round(v, 6) for v in ([g.uniform(-0.5, 1.5) for _ in range(3)] if kind == 0 else [x[2], x[0] * 2, x[1] - 1] if kind == 1 else [v ** 1.7 for v in x])]
    return out


def prelut(g, n, lo, hi, unit=None):
    if n == 2:
        xs = [lo, hi]
    else:
        xs = sorted(set([lo, hi] + [round(lo + (hi - lo) * (k + g.uniform(-0.35, 0.35)) / (n - 1.0), 9) for k in range(1, n - 1)]))
    k = g.randrange(4) if unit is None else unit
    if k == 0 or k == 3 and n == 2:
        ys = [round((x - lo) / (hi - lo), 9) for x in xs]
    elif k == 1:
        ys = [round(g.uniform(0, 1), 5) for _ in xs]
    elif k == 2:
        ys = [round(-0.1 + 1.2 * ((x - lo) / (hi - lo)) ** 0.5, 6) for x in xs]
    else:
        ys = [round(((x - lo) / (hi - lo)) ** 2, 6) for x in xs]
    return [xs, ys]


def points(g, axes, n):
    """axes: per channel (lo, hi, interesting values)"""
    out = []
    for _ in range(n):
        px, outside = [], False
        for lo, hi, marks in axes:
            k = g.randrange(7)
            if k == 0:
                x = g.choice([lo - g.uniform(0, 3), hi + g.uniform(0, 3), lo - 1e-4, hi + 1e-4])
                outside = True
            elif k == 1:
                x = g.choice([lo, hi])
            elif k < 4:
                x = g.choice(marks)
            elif k == 4:
                x = g.choice(marks) + g.uniform(-1, 1) * (hi - lo) * 0.01
            else:
                x = g.uniform(lo, hi)
            px.append(G.f32(x))
        out.append([px, outside])
    return out


def gen(g, tier, i):
    fmt = g.choice(["spi1d", "spi1d", "spi3d", "csp", "csp", "csp"])
    S = dict(fmt=fmt)
    if fmt == "spi1d":
        c, n = g.choice([1, 3]), g.choice([2, 3, 4, 9, g.randrange(2, 40)])
        cols = [vals(g, n) for _ in range(c)]
        S.update(range=rng_(g), n=n, comps=c, values=[cols[k][j] for j in range(n) for k in range(c)], interp=g.choice([None, None, "linear", "cubic", "nearest", "best"]))
        lo, hi = S["range"]
        ax = [(lo, hi, [lo + (hi - lo) * j / (n - 1.0) for j in range(n)])] * 3
    elif fmt == "spi3d":
        d = [g.randrange(2, 6) for _ in range(3)]
        if g.random() < 0.3:
            d = [d[0]] * 3
        S.update(dim=d, values=cube(g, d), interp=g.choice([None, "linear", "trilinear", "tetrahedral", "tetrahedral", "best"]), order=g.choice([None, None, "red", "any"]))
        ax = [(0.0, 1.0, [j / (m - 1.0) for j in range(m)]) for m in d]
    else:
        kind = g.choice(["1D", "3D"])
        d = [g.choice([2, 3, 5, g.randrange(2, 20)])] if kind == "1D" else [g.randrange(2, 6) for _ in range(3)]
        v = cube(g, d) if kind == "3D" else None
        if kind == "1D":
            cols = [vals(g, d[0]) for _ in range(3)]
            v = [cols[k][j] for j in range(d[0]) for k in range(3)]
        same = g.random() < 0.4
        base = rng_(g)
        ns = [g.choice([2, 2, 3, 5, 9])] * 3 if g.random() < 0.5 else [g.choice([2, 3, 4, 7]) for _ in range(3)]
        if g.random() < 0.3:
            ns = [2] * 3
        elif g.random() < 0.08:
            ns[g.randrange(3)] = g.choice([16, 20, 33, 65, 70, 150, 256])
        pre = []
        for c in range(3):
            lo, hi = base if same else rng_(g)
            pre.append(prelut(g, ns[c], lo, hi, 0 if g.random() < 0.3 else None))
        if same and g.random() < 0.4:
            pre = [pre[0]] * 3
        S.update(kind=kind, dim=d, values=v, preluts=pre, meta=g.choice([None, [], [g.choice(lutio.META) for _ in range(g.randrange(1, 5))]]))
        if g.random() < 0.35:
            # an interpolation is asked for; the prelut is a plain range then, so that the result is exact
            pre = [[[p[0][0], p[0][-1]], [0.0, 1.0]] for p in pre]
            S.update(preluts=pre, interp=g.choice(["tetrahedral", "tetrahedral", "linear", "trilinear", "nearest", "best"] if kind == "3D" else ["linear", "cubic", "nearest", "best"]))
        ax = [(p[0][0], p[0][-1], p[0] + [p[0][0] + (p[0][-1] - p[0][0]) * j / 4.0 for j in range(5)]) for p in pre]
    return dict(S=S, pixels=points(g, ax, 8), es=g.randrange(1 << 30), ext=g.choice(EXTS[fmt]), nodes=g.random() < 0.2, name=g.choice(["a", "a.b", "with space", "x.csp", "y.spi1d"]))


def spec_nodes(S):
    """spi files as reference nodes."""
    if S["fmt"] == "spi1d":
        lo, hi = S["range"]
        return [dict(t="Range", minIn=lo, maxIn=hi, minOut=0.0, maxOut=1.0, **{"in": "16f", "out": "16f"}),
                dict(t="LUT1D", channels=S["comps"], values=S["values"], **{"in": "16f", "out": "16f"})]
    # names other software uses for its default interpolation mean trilinear here
    return [dict(t="LUT3D", dim=S["dim"], values=S["values"], interp=S.get("interp"), **{"in": "16f", "out": "16f"})]


def run(case, ctx):
    L = LIB[0]
    S = case["S"]
    p = ctx.path("%s.%s" % (case["name"], case["ext"]))
    text = getattr(lutio, S["fmt"])(random.Random(case["es"]), S)
    with open(p, "w", newline="") as fh:
        fh.write(text)
    kw = {}
    if S.get("interp"):
        kw["interpolation"] = S["interp"]
    pl = call("lutread", L.Registry.read, p, **kw)
    if not pl:
        fail("lutread:refused", "%s: nothing was read", S["fmt"])
    if case["nodes"]:
        nodes = call("lutread", L.Registry.read, p, returnProcessNodes=True, **kw)
        clf = type(pl)
        q = clf()
        for n in nodes:
            q.addProcess(n)
        pl = q
        ctx.obs("as_process_nodes")
    # the interpolation asked for, where both sides have a name for it
    if S.get("interp") in ("linear", "cubic", "tetrahedral"):
        it = pl.getProcesses()[-1].getAttribute("interpolation")
        if it != S["interp"] and not (S["interp"] == "linear" and it in (None, "", "trilinear")):
            fail("lutread:attribute", "%s %s: interpolation %r was asked for, the LUT node has %r", S["fmt"], S.get("kind", ""), S["interp"], it)
        ctx.obs("named_interp")
    ctx.obs("files_" + S["fmt"] + S.get("kind", ""))
    if S["fmt"] == "csp":
        ctx.obs("long_preluts", int(any(len(q[0]) > 2 for q in S["preluts"])))
        ctx.obs("unequal_preluts", int(len(set(len(q[0]) for q in S["preluts"])) > 1))
    for px, outside in case["pixels"]:
        got = process(pl, list(px), key="lutread")
        what = "%s %s, pixel %r" % (S["fmt"], S.get("kind", ""), px)
        if S["fmt"] == "csp" and S.get("interp"):
            f = {"in": "16f", "out": "16f"}
            lut = dict(t="LUT1D", channels=3, values=S["values"], **f) if S["kind"] == "1D" else dict(t="LUT3D", dim=S["dim"], values=S["values"], interp=S["interp"], **f)

            def ev(N):
                # normalised as a product and a sum
                ks = [N.r(1.0 / (p[0][1] - p[0][0])) for p in S["preluts"]]
                y = [ref.clamp(N.r(N.r(x * k) - N.r(p[0][0] * k))) for x, p, k in zip(px, S["preluts"], ks)]
                return ref.apply_list([lut], y, N)
            ref.judge(got, ev, "lutread:interp", "%s with %s" % (what, S["interp"]), 3e-6)
            ctx.obs("csp_interp")
        elif S["fmt"] == "csp":
            b = lutio.csp_interval(S, px)
            if len(got) != 3:
                fail("lutread:length", "%s: %d values", what, len(got))
            for c in range(3):
                if not b[c][0] <= got[c] <= b[c][1]:
                    fail("lutread", "%s: channel %d is %r, the file denotes %r..%r (prelut %r)", what, c, got[c], b[c][0], b[c][1], S["preluts"][c])
        else:
            ns = spec_nodes(S)
            ref.judge(got, lambda N: ref.apply_list(ns, px, N), "lutread", what)
        ctx.obs("pixels_judged")
        ctx.obs("outside_range", int(outside))
    ctx.nontrivial = True
    ctx.seen(S["fmt"], S.get("kind"), S.get("interp"), S.get("comps"), S.get("preluts") and tuple(len(q[0]) for q in S["preluts"]), "\r" in text, "\n\n" in text, case["ext"])
