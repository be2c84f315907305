"""The tables, index maps and sampling functions that nodes and converters are built on, used by themselves."""
import math, random, struct
import numpy as np
from .. import env, gen as G, ref, model
from ..common import load, clf, reset_features, same
from ..core import fail, call, Skip
PROP = "C36"
RULE = "one table, index map or sampling function, used directly through a history of settings and evaluations, every result judged"
CASES = dict(quick=2600, thorough=80000)
NEED = dict(map_values=10500, cached_values=5000, replaced_maps=250, toggles=60, lookups_1d=8000, lookups_half=3000, nearest=1000, lookups_3d=4000, replaced_tables=300, samples_1d=1500, samples_3d=2500, samples_shaped=1500, shapers=100)
LIB = {}


def setup():
    reset_features()
    clf()
    LIB["A"] = load("aces.clf.Array").Array
    LIB["M"] = load("aces.clf.IndexMap").IndexMap
    load("aces.lutFormats")
    LIB["S"] = load("aces.lutFormats.Sampling")


def half(code):
    return struct.unpack("<e", struct.pack("<H", code))[0]


def code(x):
    return struct.unpack("<H", struct.pack("<e", x))[0]


def gen(g, tier, i):
    kind = "cached" if i % 65 == 0 else g.choice(["map", "map", "table1", "table1", "table3", "half", "sample", "sample", "shaped", "shaper"])
    c = dict(kind=kind, seed=g.randrange(1 << 40))
    if kind in ("map", "cached"):
        c["maps"] = [G.imap_(g, g.randrange(2, 60), g.choice([1.0, 1.0, 255.0, 1023.0])) for _ in range(g.choice([1, 2, 3]))]
        if kind == "cached":
            c["maps"] = c["maps"][:2]
        if g.random() < 0.4:
            for m in c["maps"]:
                m[1] = [y + g.choice([0.25, 0.5]) for y in m[1]] if g.random() < 0.5 else sorted(m[1], reverse=True)
    elif kind == "table1":
        c["tables"] = []
        for _ in range(g.choice([1, 2, 3])):
            s = G.lut1d(g, "32f", "32f")
            c["tables"].append([s["channels"], s["values"]])
    elif kind == "table3":
        c["tables"] = []
        for _ in range(g.choice([1, 2])):
            s = G.lut3d(g, "32f", "32f")
            c["tables"].append([s["dim"], s["values"]])
    elif kind == "half":
        c["ch"] = g.choice([1, 3])
        c["f"] = g.randrange(4)
    else:
        c["nodes"] = G.chain(g, g.choice([0, 1, 1, 2]), types=["Matrix", "Range", "EC", "CDL", "Gamma", "Log", "LUT1D"], rows=3)
        c["n"] = [g.choice([2, 2, 3, 4, 5]) for _ in range(3)]
        c["n1"] = g.choice([2, 3, 5, 17])
        c["n2"] = g.choice([2, 3, 17])
        c["range"] = g.choice([[0.0, 1.0], [-0.5, 2.0], [0.0, 0.5], [0.1, 16.0]])
        c["sin"] = shaper(g)
        c["sout"] = shaper(g)
    return c


def shaper(g):
    k = g.randrange(3)
    if k == 0:
        return [None, 0.0, 1.0]
    if k == 1:
        return ["linear"] + g.choice([[0.0, 1.0], [-0.5, 2.0], [0.0, 16.0], [-1, 3]])
    return ["log2"] + g.choice([[-4.0, 3.0], [-8.0, 0.0], [-1.0, 1.0], [-6, 4]])


def points(g, marks, lo, hi, n):
    out = []
    for _ in range(n):
        k = g.randrange(8)
        if k < 3:
            x = g.choice(marks)
        elif k == 3:
            x = g.choice(marks) + g.uniform(-1, 1) * 1e-3 * (hi - lo)
        elif k < 6:
            x = g.uniform(lo, hi)
        elif k == 6:
            x = g.choice([lo - g.uniform(0, 3), hi + g.uniform(0, 3), -1e30, 1e30, 0.0, -0.0])
        else:
            x = g.choice([float("nan"), float("inf"), float("-inf")])
        out.append(x)
    return out


def one(got):
    return [float(got)]


def given(o, m, g, ctx, key):
    "Replaces what a map holds, sometimes by way of the very lists it returned."
    call(key, o.setDimension, len(m[0]))
    v = call(key, o.getValues)
    if g.random() < 0.4 and isinstance(v, list) and len(v) == 2 and all(isinstance(x, list) for x in v):
        v[0][:], v[1][:] = m[0], m[1]
        call(key, o.setValues, v)
        ctx.obs("edited_in_place")
    else:
        call(key, o.setValues, [list(m[0]), list(m[1])])
    ctx.obs("replaced_maps")


def map_case(case, ctx, g):
    M = LIB["M"]
    m = case["maps"][0]
    o = call("map", M, len(m[0]), [list(m[0]), list(m[1])]) if g.random() < 0.5 else call("map", M)
    first = True
    for m in case["maps"]:
        if not first or o.getValues() == []:
            given(o, m, g, ctx, "map")
        first = False
        if int(call("map", o.getDimension)) != len(m[0]) or [list(x) for x in call("map", o.getValues)] != [list(m[0]), list(m[1])]:
            fail("map:get", "%r instead of %r", o.getValues(), m)
        for x in points(g, m[0], m[0][0], m[0][-1], 12):
            v = g.choice([x, G.f32(x), np.float32(x)])
            got = call("map", o.process, v)
            ref.judge(one(got), lambda N: [ref.imap(m, float(v), N)], "map", "map %r at %r" % (m, v))
            ctx.obs("map_values")


class Tab:
    "What a cached index map stands for: its plain evaluation at every half float."

    def __init__(self, m):
        self.m = m

    def __getitem__(self, k):
        return ref.imap(self.m, half(k), ref.EXACT)


def cached_case(case, ctx, g):
    M = LIB["M"]
    m = case["maps"][0]
    how = g.randrange(3)
    vals = [list(m[0]), list(m[1])]
    if how == 0:
        o = call("cached", M, len(m[0]), vals, useCachedProcess=True)
    elif how == 1:
        o = call("cached", M, len(m[0]), vals)
        call("cached", o.setuseCachedProcess, True)
    else:
        o = call("cached", M, useCachedProcess=True)
        call("cached", o.setDimension, len(m[0]))
        call("cached", o.setValues, vals)
    for m in case["maps"]:
        if m is not case["maps"][0]:
            given(o, m, g, ctx, "cached")
        for on in (True, False, True) if g.random() < 0.5 else (True,):
            call("cached", o.setuseCachedProcess, on)
            if bool(call("cached", o.getUseCachedProcessue)) != on:
                fail("cached:get", "caching is reported %r instead of %r", o.getUseCachedProcessue(), on)
            ctx.obs("toggles")
            tab = Tab(m)
            for k in range(150):
                x = half(g.randrange(65536)) if k % 2 else G.sgn(g, 1e-7, 1e-3) if k % 6 == 0 else [y for y in points(g, m[0], m[0][0], m[0][-1], 1)][0]
                if x != x and on:
                    if not math.isnan(float(call("cached", o.process, x))):
                        fail("cached", "NaN becomes %r", o.process(x))
                    continue
                if math.isinf(x) or math.isfinite(x) and abs(x) <= 65504.0 or not on:
                    x = x if k % 3 else float(np.float32(x))
                    got = call("cached", o.process, x)
                    if on:
                        ref.judge(one(got), lambda N: [ref.halfdomain(tab, 65536, 1, 0, x, N)], "cached", "map %r at %r" % (m, x))
                    else:
                        ref.judge(one(got), lambda N: [ref.imap(m, x, N)], "uncached", "map %r at %r" % (m, x))
                    ctx.obs("cached_values")


def table1_case(case, ctx, g):
    A = LIB["A"]
    o = None
    for ch, v in case["tables"]:
        n = len(v) // ch
        if o is None:
            o = call("table", A, [n, ch], list(v))
        else:
            call("table", o.setDimensions, [n, ch])
            call("table", o.setValues, list(v))
            ctx.obs("replaced_tables")
        if [int(x) for x in call("table", o.getDimensions)] != [n, ch] or not same(call("table", o.getValues), v):
            fail("table:get", "%r %r", o.getDimensions(), list(o.getValues())[:5])
        s = dict(channels=ch, values=v, **{"in": "32f"})
        for _ in range(8):
            i, c = g.randrange(-3, n + 3), g.randrange(3)
            got = call("table", o.lookup1D, i, c)
            want = v[max(0, min(n - 1, i)) * ch + (c if ch == 3 else 0)]
            if float(got) != want:
                fail("table:index", "entry %d of channel %d is %r instead of %r", i, c, got, want)
            ctx.obs("lookups_1d")
        for x in points(g, [k / (n - 1.0) for k in range(n)], 0.0, 1.0, 12):
            if math.isfinite(x) and abs(x) > 1e6:
                continue
            x = g.choice([x, np.float32(x)])
            c = g.randrange(3)
            got = call("table", o.lookup1DLinear, x, c)
            ref.judge(one(got), lambda N: [ref.lut1d(s, [float(x)] * 3, N)[c]], "table:linear", "%d entries at %r" % (n, x))
            ctx.obs("lookups_1d")
        # what cubic means at the table's points does not depend on what is used in between
        for k in range(n):
            c = g.randrange(ch)
            got = call("table", o.lookup1DCubic, k / (n - 1.0), c)
            if abs(float(got) - v[k * ch + c]) > 1e-5 * max(1.0, max(abs(q) for q in v)):
                fail("table:cubic", "entry %d of %d is %r instead of %r", k, n, got, v[k * ch + c])
            ctx.obs("lookups_1d")


_HALF = {}


def half_table(f, ch):
    if (f, ch) not in _HALF:
        r = random.Random(f * 10 + ch)
        out = []
        for k in range(65536):
            x = half(k)
            for c in range(ch):
                out.append(r.uniform(-1, 1) if f == 0 or not math.isfinite(x) else x * (c + 1) if f == 1 and abs(x) < 1e4 else math.copysign(abs(x) ** 0.4, x) + c if f == 2 else float(k + c))
        _HALF[(f, ch)] = (out, LIB["A"]([65536, ch], out))
    return _HALF[(f, ch)]


def half_case(case, ctx, g):
    ch = case["ch"]
    v, o = half_table(case["f"], ch)
    for _ in range(25):
        c = g.randrange(3)
        k = g.randrange(6)
        a = g.randrange(65536)
        x = half(a)
        if k >= 3 and math.isfinite(x):
            y = half(a ^ 1)
            x = x + g.choice([0.25, 0.5, 0.75, g.random()]) * (y - x) if math.isfinite(y) else x
        elif k == 2:
            x = g.choice([float("inf"), float("-inf"), 65504.0, -65504.0, 65510.0, 65519.9, -65519.0, 0.0, -0.0, 5.9e-8, -5.9e-8, 2e-8, -2e-8, -1e-8, 4e-8, -4e-8, 7e4, -1e6])
        x = float(np.float32(x))
        if math.isnan(x):
            got = float(call("half", o.lookup1DHalfDomain, x, c))
            if got not in [v[q * ch + (c if ch == 3 else 0)] for q in list(range(31745, 32768)) + list(range(64513, 65536))]:
                fail("half:nan", "NaN becomes %r, no NaN's entry", got)
            continue
        got = call("half", o.lookup1DHalfDomain, x, c)
        ref.judge(one(got), lambda N: [ref.halfdomain(v, 65536, ch, c, x, N)], "half", "%r, channel %d" % (x, c))
        ctx.obs("lookups_half")
        got = call("half", o.lookup1DHalfDomain, x, c, False)
        n = code(x) if abs(x) < 65520.0 else 0x7c00 | (0x8000 if x < 0 else 0)
        if float(got) != v[n * ch + (c if ch == 3 else 0)]:
            fail("half:nearest", "%r gives %r instead of entry %d", x, got, n)
        ctx.obs("nearest")


def table3_case(case, ctx, g):
    A = LIB["A"]
    o = None
    for d, v in case["tables"]:
        if o is None:
            o = call("cube", A, list(d) + [3], list(v))
        else:
            call("cube", o.setDimensions, list(d) + [3])
            call("cube", o.setValues, list(v))
            ctx.obs("replaced_tables")
        for _ in range(6):
            ix = [g.randrange(-2, n + 2) for n in d]
            got = [float(x) for x in call("cube", o.lookup3D, list(ix))]
            j = [max(0, min(n - 1, i)) for i, n in zip(ix, d)]
            b = ((j[0] * d[1] + j[1]) * d[2] + j[2]) * 3
            if got != [float(x) for x in v[b:b + 3]]:
                fail("cube:index", "entry %r of %r is %r instead of %r", ix, d, got, v[b:b + 3])
            ctx.obs("lookups_3d")
        marks = [k / (n - 1.0) for n in d for k in range(n)]
        for _ in range(10):
            px = [min(1e6, max(-1e6, x)) if math.isfinite(x) else g.random() for x in points(g, marks, 0.0, 1.0, 3)]
            if g.random() < 0.3:
                px[1] = px[0]
            for fn, name in ((o.lookup3DTrilinear, "trilinear"), (o.lookup3DTetrahedral, "tetrahedral")):
                s = dict(dim=d, values=v, interp=name, **{"in": "32f"})
                got = call("cube", fn, list(px))
                ref.judge(got, lambda N: ref.lut3d(s, px, N), "cube:" + name, "%r at %r" % (d, px))
                ctx.obs("lookups_3d")


def grid(k, n, lo, hi):
    return float(k) / (n - 1) * (hi - lo) + lo


def sample_case(case, ctx, g):
    S = LIB["S"]
    nodes = case["nodes"]
    pl = model.make(nodes, clf())
    lo, hi = case["range"]
    n = case["n1"]
    got = [float(x) for x in call("sample1D", S.sample1D, pl, n, lo, hi)]
    if len(got) != 3 * n:
        fail("sample1D", "%d values for %d positions", len(got), n)
    for k in range(n):
        px = [grid(k, n, lo, hi)] * 3
        if G.tame(nodes, px):
            ref.judge(got[3 * k:3 * k + 3], lambda N: ref.apply_list(nodes, [N.r(x) for x in px], N), "sample1D", "position %d of %d" % (k, n))
            ctx.obs("samples_1d")
    d = case["n"]
    got = call("sample3D", S.sample3D, pl, list(d), lo, hi)
    lattice(case, ctx, nodes, got, lambda k, n: grid(k, n, lo, hi), "sample3D", "samples_3d")


def lattice(case, ctx, nodes, got, at, key, count):
    d = case["n"]
    try:
        shape = (len(got), set(len(x) for x in got), set(len(y) for x in got for y in x))
    except TypeError:
        fail(key, "no lattice: %r", got)
    if shape != (d[0], {d[1]}, {d[2]}):
        fail(key + ":shape", "%r instead of %r", shape, d)
    for r in range(d[0]):
        for q in range(d[1]):
            for b in range(d[2]):
                px = [at(r, d[0]), at(q, d[1]), at(b, d[2])]
                if not G.tame(nodes, px):
                    continue
                ref.judge(got[r][q][b], lambda N: ref.apply_list(nodes, [N.r(x) for x in px], N), key, "position %r of %r" % ((r, q, b), d))
                ctx.obs(count)


def shaper_nodes(s, forward):
    "what a shaper does, as reference nodes"
    if s[0] is None:
        return []
    a = dict(t="Range", minIn=s[1], maxIn=s[2], minOut=0.0, maxOut=1.0, **{"in": "16f", "out": "16f"})
    b = dict(t="Range", minIn=0.0, maxIn=1.0, minOut=s[1], maxOut=s[2], **{"in": "16f", "out": "16f"})
    f = dict(t="Log", style="log2", params=[], **{"in": "16f", "out": "16f"})
    i = dict(t="Log", style="antiLog2", params=[], **{"in": "16f", "out": "16f"})
    if s[0] == "linear":
        return [a] if forward else [b]
    return [f, a] if forward else [b, i]


def domain(s):
    return (0.0, 1.0) if s[0] is None else (s[1], s[2]) if s[0] == "linear" else (2.0 ** s[1], 2.0 ** s[2])


def shaped_case(case, ctx, g):
    S = LIB["S"]
    pl = model.make(case["nodes"], clf())
    sin, sout = case["sin"], case["sout"]
    r = call("sample1D3D1D", S.sample1D3D1D, pl, [case["n1"], list(case["n"]), case["n2"]], list(sin), list(sout))
    if len(r) != 7:
        fail("sample1D3D1D", "%d results", len(r))
    for s, lo, hi in ((sin, r[1], r[2]), (sout, r[5], r[6])):
        a, b = domain(s)
        if abs(lo - a) > 1e-9 * abs(a) or abs(hi - b) > 1e-9 * abs(b):
            fail("sample1D3D1D:range", "%r..%r for %r", lo, hi, s)
    for s, got, n, nodes in ((sin, r[0], case["n1"], shaper_nodes(sin, True)), (sout, r[4], case["n2"], shaper_nodes(sout, False))):
        if s[0] is None:
            if got is not None:
                fail("sample1D3D1D:shaper", "%r for no shaper", got)
            continue
        if len(got) != 3 * n:
            fail("sample1D3D1D:shaper", "%d values for %d positions", len(got), n)
        lo, hi = domain(s) if s is sin else (0.0, 1.0)
        for k in range(n):
            px = [grid(k, n, lo, hi)] * 3
            ref.judge(got[3 * k:3 * k + 3], lambda N: ref.apply_list(nodes, [N.r(x) for x in px], N), "sample1D3D1D:shaper", "%r position %d of %d" % (s, k, n), extra_abs=1e-6)
    nodes = shaper_nodes(sin, False) + case["nodes"] + shaper_nodes(sout, True)
    lattice(case, ctx, nodes, r[3], lambda k, n: float(k) / (n - 1), "sample1D3D1D", "samples_shaped")


def shaper_case(case, ctx, g):
    S = LIB["S"]
    s = case["sin"]
    f, i, lo, hi = call("shaper", S.createShaper, *s)
    a, b = domain(s)
    if abs(lo - a) > 1e-9 * abs(a) or abs(hi - b) > 1e-9 * abs(b):
        fail("shaper:range", "%r..%r for %r", lo, hi, s)
    for _ in range(6):
        t = [G.f32(g.choice([0.0, 1.0, g.random(), g.random()])) for _ in range(3)]
        x = [float(q) for q in call("shaper", i.process, list(t))]
        ref.judge(x, lambda N: ref.apply_list(shaper_nodes(s, False), t, N), "shaper:inverse", "%r at %r" % (s, t))
        y = [float(q) for q in call("shaper", f.process, list(x))]
        ref.judge(y, lambda N: ref.apply_list(shaper_nodes(s, True), x, N), "shaper:forward", "%r at %r" % (s, x), extra_abs=1e-6)
        if any(abs(p - q) > 1e-5 for p, q in zip(y, t)):
            fail("shaper:undo", "%r: %r comes back as %r", s, t, y)
        ctx.obs("shapers")


def run(case, ctx):
    reset_features()
    g = random.Random(case["seed"])
    dict(map=map_case, cached=cached_case, table1=table1_case, table3=table3_case, half=half_case, sample=sample_case, shaped=shaped_case, shaper=shaper_case)[case["kind"]](case, ctx, g)
    ctx.nontrivial = True
    ctx.seen(case["kind"], case.get("ch"), case.get("f"), len(case.get("maps", case.get("tables", []))), tuple(x[0] for x in (case.get("sin") or [0], case.get("sout") or [0])), tuple(s["t"] for s in case.get("nodes", [])))
