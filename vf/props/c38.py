"""Bit-depth and bit-pattern conversions are exact and undo each other."""
import math, struct
import numpy as np
from .. import env, gen as G
from ..common import clf, load, reset_features
from ..core import fail, call
PROP = "C38"
RULE = "a block of bit patterns or values converted and converted back by the library's conversion functions, every result judged"
CASES = dict(quick=1400, thorough=40000)
NEED = dict(half_codes=65536, float_patterns=30000, double_patterns=30000, depth_values=3000, depths_asked=300, feature_settings=200, nan_patterns=200)
DEPTHS = {"8i": 255.0, "10i": 1023.0, "12i": 4095.0, "16i": 65535.0, "16f": 1.0, "32f": 1.0}
LABELS = {"UINT8": "8i", "UINT10": "10i", "UINT12": "12i", "UINT16": "16i", "FLOAT16": "16f", "FLOAT32": "32f"}


def gen(g, tier, i):
    if i < 256:
        return dict(kind="half", first=i * 256)
    kind = g.choice(["float", "double", "depth", "depth", "feature", "half"])
    if kind == "half":
        return dict(kind="half", first=g.randrange(256) * 256)
    if kind == "float":
        return dict(kind=kind, codes=[pattern(g, 32, 23) for _ in range(256)])
    if kind == "double":
        return dict(kind=kind, codes=[pattern(g, 64, 52) for _ in range(256)])
    if kind == "depth":
        d = g.choice(sorted(DEPTHS))
        n = g.choice([1, 3, 64])
        if g.random() < 0.4:
            values = [g.choice([0, 1, 2, int(DEPTHS[d]), int(DEPTHS[d]) + 1, -1, g.randrange(0, 1 << 16)]) for _ in range(n)]
        else:
            values = [G.f32(g.choice([g.random() * DEPTHS[d], g.random(), g.uniform(-2, 3) * DEPTHS[d], g.uniform(-1, 1) * 1e-6, 10.0 ** g.randrange(-30, 30)])) for _ in range(n)]
        return dict(kind=kind, depth=d, values=values, arg=g.choice(["scalar", "scalar", "f32", "f64", "array32", "array64"]))
    return dict(kind=kind, sets=[g.choice(["CLF", "Autodesk", "Duiker Research", "All"]) for _ in range(g.randrange(1, 5))])


def pattern(g, bits, mant):
    k = g.random()
    if k < 0.6:
        return g.getrandbits(bits)
    sign = g.getrandbits(1) << (bits - 1)
    top = (1 << (bits - 1 - mant)) - 1
    e = g.choice([0, 0, 1, top - 1, top, top, top // 2, g.randrange(top)])
    m = g.choice([0, 1, (1 << mant) - 1, 1 << (mant - 1), g.getrandbits(mant)])
    return sign | e << mant | m


def code(x):
    return int(x)


def run_half(case, ctx, c):
    for u in range(case["first"], case["first"] + 256):
        want = struct.unpack(">e", struct.pack(">H", u))[0]
        h = call("half:from-code", c.uint16ToHalf, u)
        hx = "%04x" % u
        k = call("half:from-hex", c.hexToHalf, hx)
        for w, got in (("code", h), ("hex", k), ("upper-case hex", call("half:from-hex", c.hexToHalf, hx.upper()))):
            if not equal(float(got), want):
                fail("half:value", "%s %s is %r, converted to %r", w, hx, want, float(got))
        if math.isnan(want):
            ctx.obs("nan_patterns")
        back = call("half:to-code", c.halfToUInt16, h)
        if code(back) != u:
            fail("half:code", "half %r of code %d has code %d", want, u, back)
        if call("half:to-hex", c.halfToHex, h).lower() != hx:
            fail("half:hex", "half %r of code %s has hex %s", want, hx, c.halfToHex(h))
        if not math.isnan(want):
            # from other number types
            for v in (want, np.float32(want), np.float64(want)):
                if code(call("half:to-code", c.halfToUInt16, v)) != u or call("half:to-hex", c.halfToHex, v).lower() != hx:
                    fail("half:code", "%r (%s) has code %r instead of %d", want, type(v).__name__, c.halfToUInt16(v), u)
        ctx.obs("half_codes")
    ctx.seen("half", case["first"])


def equal(a, b):
    return (a != a and b != b) or (a == b and math.copysign(1, a) == math.copysign(1, b))


def run_float(case, ctx, c):
    wide = case["kind"] == "double"
    f, i, hexw = (">d", ">Q", 16) if wide else (">f", ">I", 8)
    frm, to, tohex, fromhex = (c.uint64ToDouble, c.doubleToUInt64, c.doubleToHex, c.hexToDouble) if wide else (c.uint32ToFloat32, c.float32ToUInt32, c.float32ToHex, c.hexToFloat32)
    key = case["kind"]
    for u in case["codes"]:
        want = struct.unpack(f, struct.pack(i, u))[0]
        hx = "%0*x" % (hexw, u)
        v = call(key + ":from-code", frm, u)
        w = call(key + ":from-hex", fromhex, hx)
        for got in (v, w):
            if not equal(float(got), want):
                fail(key + ":value", "pattern %s is %r, converted to %r", hx, want, float(got))
        if math.isnan(want):
            # the quiet bit may be set on the way
            ctx.obs("nan_patterns")
            if not math.isnan(frm(code(call(key + ":to-code", to, v)))) or not math.isnan(fromhex(call(key + ":to-hex", tohex, float(v)))):
                fail(key + ":nan", "NaN pattern %s does not come back as a NaN", hx)
        else:
            for x in (v, want):
                if code(call(key + ":to-code", to, x)) != u:
                    fail(key + ":code", "%r has pattern %x, converted to %x", want, u, code(to(x)))
                if call(key + ":to-hex", tohex, x).lower() != hx:
                    fail(key + ":hex", "%r has hex %s, converted to %s", want, hx, tohex(x))
        ctx.obs("double_patterns" if wide else "float_patterns")
    ctx.seen(key, case["codes"][0] >> (hexw * 4 - 4))


def run_depth(case, ctx):
    c = clf()
    d = case["depth"]
    pn = load("aces.clf.ProcessNode")
    if dict(c.bitDepths) != LABELS:
        fail("depth:labels", "bit depths are %r", c.bitDepths)
    if call("depth:size", pn.bitDepthSize, d) != DEPTHS[d]:
        fail("depth:size", "size of %s is %r", d, pn.bitDepthSize(d))
    whole = d.endswith("i")
    if bool(call("depth:kind", pn.bitDepthIsInteger, d)) != whole or bool(call("depth:kind", pn.bitDepthIsFloatingPoint, d)) == whole:
        fail("depth:kind", "%s is integer: %r, floating point: %r", d, pn.bitDepthIsInteger(d), pn.bitDepthIsFloatingPoint(d))
    ctx.obs("depths_asked")
    a, values = case["arg"], case["values"]
    if a.startswith("array"):
        arrays = [np.array(values, dtype=np.float32 if a == "array32" else np.float64)]
    else:
        arrays = [v if a == "scalar" else np.float32(v) if a == "f32" else np.float64(v) for v in values]
    tol = 3e-7 if "32" in a else 1e-15
    for x in arrays:
        n, m = call("depth:normalise", c.bitDepthToNormalized, x, d), call("depth:scale", c.normalizedToBitDepth, x, d)
        nm, mn = call("depth:scale", c.normalizedToBitDepth, n, d), call("depth:normalise", c.bitDepthToNormalized, m, d)
        rows = zip(*[np.ravel(np.array(q, dtype=np.float64)) for q in (x, n, m, nm, mn)])
        for v, p, q, r, s in rows:
            for what, got, want in (("normalised", p, v / DEPTHS[d]), ("scaled", q, v * DEPTHS[d]), ("normalised and scaled back", r, v), ("scaled and normalised back", s, v)):
                if not (got == want or abs(got - want) <= tol * abs(want) + (1e-44 if "32" in a else 0)):
                    fail("depth:" + what.split()[0], "%r of %s %s (%s) is %r instead of %r", v, d, what, a, got, want)
            ctx.obs("depth_values")
    ctx.seen("depth", d, a)


def run_feature(case, ctx):
    c = clf()
    reset_features()
    try:
        for s in case["sets"]:
            call("feature:set", c.setFeatureCompatibility, c.featureSets[s])
            if call("feature:get", c.getFeatureCompatibility) != c.featureSets[s]:
                fail("feature:get", "set to %s, found %r", s, c.getFeatureCompatibility())
            ctx.obs("feature_settings")
        if dict(c.featureSets) != {"CLF": 0, "Autodesk": 1, "Duiker Research": 2, "All": 15}:
            fail("feature:sets", "feature sets %r", c.featureSets)
    finally:
        reset_features()
    ctx.seen("feature", tuple(case["sets"]))


def run(case, ctx):
    k = case["kind"]
    if k == "half":
        run_half(case, ctx, load("aces.clf.Common"))
    elif k in ("float", "double"):
        run_float(case, ctx, load("aces.clf.Common"))
    elif k == "depth":
        run_depth(case, ctx)
    else:
        run_feature(case, ctx)
    ctx.nontrivial = True
