"""The LUT helper constructors sample the given function on the exact grid."""
import math, random
import numpy as np
from .. import gen as G, model, ref
from ..common import clf, run as process, reset_features
from ..core import fail, call
PROP = "C31"
RULE = "one helper call with a recording function; recorded arguments, stored table, attributes, written file and processing at grid positions compared with the function"
CASES = dict(quick=900, thorough=30000)
NEED = dict(lut1d=300, lut3d=250, half=8, entries=20000, calls=12000, half_codes=500000, grid_pixels=2500, unequal=120, files=150, defaults=30, tuples=50, one_channel=80)
HALF = np.arange(65536, dtype=np.uint16).view(np.float16)
DEPTHS = ["8i", "10i", "12i", "16i", "16f", "32f"]


def setup():
    clf()


def gen(g, tier, i):
    kind = "half" if i % 60 == 7 else g.choice(["lut1d", "lut3d"])
    c = dict(kind=kind, fn=g.randrange(7), k=[round(g.uniform(-2, 2), 4) for _ in range(6)], id=G.ident(g), name=g.choice([G.ident(g), "", "two words"]), es=g.randrange(1 << 30),
             depths=g.choice([[], [], ["16f"], [g.choice(DEPTHS), g.choice(DEPTHS)], [g.choice(DEPTHS), g.choice(DEPTHS)]]), keyword=g.random() < 0.4, write=g.random() < 0.4)
    if kind == "lut1d":
        c.update(channels=g.choice([1, 3, 3]), n=g.choice([2, 3, 4, 5, 11, 17, 33, 100, g.randrange(2, 200), g.choice([1000, 1024, 4096])]))
    elif kind == "half":
        c.update(channels=g.choice([1, 1, 3]), raw=g.choice([None, False, True]), write=c["write"] and tier == "thorough")
    else:
        d = [g.randrange(2, 8) for _ in range(3)]
        if g.random() < 0.4:
            d = [d[0]] * 3
        c.update(dim=d, tup=g.random() < 0.3)
    return c


def function(case):
    """Deterministic functions, told apart at every grid point; they record what they are asked for."""
    calls, k, fn = [], case["k"], case["fn"]
    if case["kind"] == "lut3d":
        def f(r, g, b):
            calls.append((r, g, b))
            if fn == 0:
                return [r, g, b]
            if fn == 1:
                return [g + k[0], b, r * k[1]]
            if fn == 2:
                return (r * 1.25 + 0.25, g * g, b - 1.0)
            if fn == 3:
                return np.array([r + 2 * g + 4 * b, r * g * b, k[2] - b])
            if fn == 4:
                return [np.float32(r * k[3]), float(np.float32(g)), 1.0]
            if fn == 5:
                return [r + 10 * g + 100 * b] * 3
            return [math.sin(7 * r + k[0]), math.cos(5 * g * b), k[1] * r - b]
    else:
        def f(x):
            calls.append(x)
            x = float(x)
            if x != x:
                return 0.5
            if math.isinf(x):
                return -1.0
            if fn == 0:
                return x
            if fn == 1:
                return x * k[0] + k[1]
            if fn == 2:
                return math.sin(3 * x) if abs(x) < 100 else 2.0
            if fn == 3:
                return np.float32(1.0 - x / 3)
            if fn == 4:
                return max(0.0, x) ** 0.5
            if fn == 5:
                return abs(x) + k[2]
            return math.copysign(math.log1p(abs(x)), x) * k[3]
    return f, calls


def near(a, b, rel=0.0):
    a, b = float(a), float(b)
    return a == b or a != a and b != b or abs(a - b) <= 1e-15 * max(abs(a), abs(b)) + rel * max(1.0, abs(b))


def run(case, ctx):
    c = clf()
    reset_features()
    kind = case["kind"]
    f, calls = function(case)
    pure, _ = function(case)
    dn = ["inBitDepth", "outBitDepth"]
    default = case["fn"] == 0 and not case["depths"]
    if default and kind != "lut3d":
        pure = lambda x: x      # the helper's own default, also for NaN and infinities
    a, kw = [case["id"], case["name"]], {}
    if kind == "lut1d":
        a += [case["channels"], case["n"]]
    elif kind == "half":
        a += [case["channels"]]
    else:
        dim = tuple(case["dim"]) if case["tup"] else list(case["dim"])
        a += [dim]
        ctx.obs("tuples", int(case["tup"]))
        ctx.obs("unequal", int(len(set(case["dim"])) > 1))
    if not default:
        if case["keyword"]:
            kw["f"] = f
            if kind == "half" and case["raw"] is not None:
                kw["rawHalfs"] = case["raw"]
            kw.update(zip(dn, case["depths"]))
        else:
            a.append(f)
            if kind == "half" and (case["raw"] is not None or case["depths"]):
                a.append(bool(case["raw"]))
            a += case["depths"]
    else:
        ctx.obs("defaults")
        if kind == "half" and case["raw"] is not None:
            kw["rawHalfs"] = case["raw"]
    fn = dict(lut1d=c.simpleSampledLUT, half=c.simpleSampledLUTHalfDomain, lut3d=c.simple3DLUT)[kind]
    what = "%s(%s%s)" % (fn.__name__, ", ".join(map(str, a[:4])), kw)
    n = call("helper", fn, *a, **kw)
    ctx.obs(kind)
    if kind == "lut3d" and (list(dim) != case["dim"] or type(dim) is not (tuple if case["tup"] else list)):
        fail("helper:argument", "%s: the dimensions given became %s", what, dim)
    # the grid
    if kind == "lut1d":
        N = case["n"]
        grid = [(i / (N - 1.0)) for i in range(N)]
        want = [pure(x) for x in grid for _ in range(case["channels"])]
        dims = [N, case["channels"]]
        ctx.obs("one_channel", int(case["channels"] == 1))
    elif kind == "half":
        grid = [float(x) for x in HALF]
        want = [y for x in grid for y in [pure(x)] * case["channels"]]
        dims = [65536, case["channels"]]
        ctx.obs("half_codes", 65536)
    else:
        d = case["dim"]
        grid = [(r / (d[0] - 1.0), g / (d[1] - 1.0), b / (d[2] - 1.0)) for r in range(d[0]) for g in range(d[1]) for b in range(d[2])]
        want = [y for p in grid for y in pure(*p)]
        dims = d + [3]
    if not default:
        asked = sorted(set(calls), key=repr) if kind == "lut3d" else calls
        if kind == "lut3d":
            bad = set(calls) ^ set(grid)
            if bad and not (len(set(calls)) == len(grid) and all(near(x, y) for p, q in zip(sorted(set(calls)), sorted(grid)) for x, y in zip(p, q))):
                fail("helper:calls", "%s: the function was asked for %s, which differs from the grid", what, sorted(bad)[:6])
        else:
            A = np.array([float(x) for x in calls])
            A = np.unique(A[A == A])
            B = np.array(grid)
            B = np.unique(B[B == B])
            if len(A) != len(B) or not np.allclose(A, B, rtol=1e-15, atol=0, equal_nan=True):
                fail("helper:calls", "%s: the function was asked for %d values, the grid has %d; e.g. %s", what, len(A), len(B), (sorted(set(A.tolist()) ^ set(B.tolist()))[:6]))
        ctx.obs("calls", len(calls))
    # the stored table
    got = [float(x) for x in call("helper:values", n.getLUTValues)]
    if list(call("helper:values", n.getLUTDimensions)) != dims:
        fail("helper:dimensions", "%s: dimensions %s instead of %s", what, n.getLUTDimensions(), dims)
    if len(got) != len(want):
        fail("helper:values", "%s: %d values stored instead of %d", what, len(got), len(want))
    for k, (x, y) in enumerate(zip(got, want)):
        if not near(x, y):
            fail("helper:values", "%s: value %d is %r, the function gives %r", what, k, x, float(y))
    ctx.obs("entries", len(got) if kind != "half" else 0)
    # attributes
    exp = dict(id=case["id"], name=case["name"], inBitDepth=(case["depths"] + ["16f"])[0], outBitDepth=(case["depths"] + ["16f", "16f"])[1] if len(case["depths"]) > 1 else "16f")
    if default:
        exp.update(inBitDepth="16f", outBitDepth="16f")
    for k, v in exp.items():
        if str(n.getAttribute(k) or "") != v:
            fail("helper:attributes", "%s: %s is %r instead of %r", what, k, n.getAttribute(k), v)
    flag = lambda k: ref.truthy(n.getAttribute(k))
    if flag("halfDomain") != (kind == "half") or flag("rawHalfs") != (kind == "half" and bool(case["raw"])):
        fail("helper:attributes", "%s: halfDomain %r, rawHalfs %r", what, n.getAttribute("halfDomain"), n.getAttribute("rawHalfs"))
    ctx.nontrivial = True
    ctx.seen(kind, tuple(dims[1:]) if kind == "lut3d" else dims[1], tuple(case["depths"]), case["fn"])
    # processing at the grid positions
    pl = c.ProcessList()
    pl.addProcess(n)
    si, so = ref.size(exp["inBitDepth"]), ref.size(exp["outBitDepth"])
    g = random.Random(case["es"])
    for _ in range(6):
        if kind == "lut3d":
            k = g.randrange(len(grid))
            px, y = [v * si for v in grid[k]], [float(v) for v in want[3 * k:3 * k + 3]]
        else:
            ks = [g.randrange(len(grid)) for _ in range(3)]
            if kind == "half":
                ks = [k if math.isfinite(grid[k]) else 0x3c00 for k in ks]
                if si != 1:
                    continue
            px, y = [grid[k] * si for k in ks], [float(pure(grid[k])) for k in ks]
        slope = 1e-5
        if kind == "lut1d" or kind == "lut3d":
            # an input rounded to single precision falls slightly beside the grid position
            slope = 3e-6 * (max(dims[:3] if kind == "lut3d" else dims[:1]) + 4)
        r = process(pl, px, key="helper:process")
        if any(not abs(p - q) <= slope * (1 + max(abs(v) for v in y)) + (200 * slope if kind == "lut3d" and case["fn"] == 5 else 0) for p, q in zip(r, y)):
            fail("helper:process", "%s: %s gives %s, the function %s", what, px, r, y)
        ctx.obs("grid_pixels")
    if case["write"]:
        p = ctx.path("l.clf")
        call("helper:write", pl.writeFile, p)
        D = model.parse_document(model.read_bytes(p)[0])["nodes"][0]
        if len(D["values"]) != len(want) or any(not abs(x - float(y)) <= (2e-9 + 1e-9 * abs(float(y)) if not case.get("raw") else 1e-4 + 1e-3 * abs(float(y))) for x, y in zip(D["values"], want)):
            fail("helper:file", "%s: the values written are not the function's", what)
        ctx.obs("files")
