"""Half-domain 1D LUTs index their table by half-float code."""
import math, random
import numpy as np
from .. import gen as G, nodecheck, ref, model
from ..common import clf, run as process, reset_features
from ..core import call, fail
PROP = "C06"
RULE = "a 65536-entry half-domain table of distinct random entries looked up with values at, between and beyond half codes"
CASES = dict(quick=40, thorough=800)
NEED = dict(pixels_judged=5000, exact_codes=2000, between_codes=2000, beyond=200, flags_off=2, integer_inputs=2)
HALF = np.arange(65536, dtype=np.uint16).view(np.float16)


def gen(g, tier, i):
    off = i % 8 == 7
    return dict(ts=g.randrange(1 << 30), ps=g.randrange(1 << 30), channels=[1, 3][i % 2], via=["api", "file", "api", "roundtrip" if tier == "thorough" and i % 40 == 3 else "file"][i % 4],
                raw=g.random() < 0.4, enc=g.choice([None, None, "hex32bit", "integer16bit", "hex16bit", "integer64bit"]), off=off,
                offflag=g.choice([False, "false", "False", "FALSE"]), onflag=g.choice([True, "true", "True", "TRUE"]), stride=g.choice([3, 4, 5, 8]), n=700 if tier == "quick" else 3000,
                ind=g.choice(["16f", "32f", "16f", "32f", g.choice(G.IDEPTHS)]), outd=g.choice(["16f", "32f"]), interp=g.choice([None, "linear"]))


def table(case):
    r = np.random.RandomState(case["ts"] & 0x7fffffff)
    n = 65536 * case["channels"]
    v = r.uniform(-2, 2, n).astype(np.float16 if case["raw"] or case["enc"] in ("integer16bit", "hex16bit") else np.float32)
    if not (case["raw"] or case["enc"]):
        v = np.round(v.astype(np.float64), 6)
    return [float(x) for x in v]


def inputs(case):
    g = random.Random(case["ps"])
    out = []
    for k in range(case["n"]):
        u = g.randrange(10)
        if u < 4:
            code = g.randrange(65536)
            if g.random() < 0.3:
                code = g.choice([0, 1, 2, 1023, 1024, 1025, 31742, 31743, 31744, 32768, 32769, 33791, 33792, 64510, 64511, 64512, 15360, 48128]) % 65536
            x = float(HALF[code])
            kind = "exact"
        elif u < 8:
            code = g.randrange(31743)
            if g.random() < 0.2:
                code = g.choice([0, 1, 1022, 1023, 1024, 2047, 2048, 31741, 31742])
            a, b = float(HALF[code]), float(HALF[code + 1])
            x = G.f32(a + (b - a) * g.choice([0.5, g.random(), g.random(), 0.25, 0.499, 0.501, 0.001, 0.999]))
            x = x if g.random() < 0.5 else -x
            kind = "between"
        elif u == 8:
            x = g.choice([65504.0, 65505.0, 65519.0, 65519.99, 65520.0, 65521.0, 65536.0, 1e6, 1e38, float("inf")]) * g.choice([1, -1])
            kind = "beyond"
        else:
            x = g.choice([0.0, -0.0, 1e-8, -1e-8, 2e-8, 3e-8, 5.9e-8, -2.98e-8, 1e-30, -1e-40, float("nan")])
            kind = "tiny"
        out.append((G.f32(x), kind))
    return out


def run(case, ctx):
    c = clf()
    reset_features()
    tab = table(case)
    ch, stride = case["channels"], case["stride"]
    s = {"t": "LUT1D", "in": case["ind"], "out": case["outd"], "id": "h", "name": "h", "channels": ch, "values": tab,
         "halfDomain": case["offflag"] if case["off"] else case["onflag"], "interp": case["interp"]}
    if case["raw"]:
        s["rawHalfs"] = case["onflag"]
    elif case["off"]:
        s["rawHalfs"] = case["offflag"]
    if case["enc"] and not case["raw"]:
        s["enc"] = case["enc"]
    pl = nodecheck.obtain(dict(nodes=[s], via=case["via"], es=case["ts"], style=0), ctx, "half")
    xs = inputs(case)
    px, kinds = [], []
    per = max(1, len(xs) // 3)
    for k in range(per):
        p = [xs[k][0], xs[k + per if k + per < len(xs) else 0][0], xs[(k + 2 * per) % len(xs)][0]] + [7.25, -3.5, 0.0, 1.0, 2.0][:stride - 3]
        px.append(p)
    si = ref.size(case["ind"])
    if si != 1.0:
        # scaled to the integer range; the step between the largest half and infinity is not met to the last bit
        px = [[G.f32(math.copysign(7e4, x) * si if 65503.0 < abs(x) < 65540.0 or abs(x) > 1e30 else x * si) if x == x else x for x in p] for p in px]
        ctx.obs("integer_inputs")
    if case["off"]:
        px = [[x if math.isfinite(x) else 0.5 for x in p] for p in px][:60]
        px += [[G.f32(random.Random(case["ps"] + j).random())] * stride for j in range(40)]
    flat = [x for p in px for x in p]
    got = process(pl, flat, stride, key="half")
    if len(got) != len(flat):
        fail("half:length", "%d values in, %d out", len(flat), len(got))
    nan = set()
    for k, p in enumerate(px):
        o = got[k * stride:(k + 1) * stride]
        q = list(p)
        for j in range(3):
            if math.isnan(p[j]) and not case["off"]:
                # any NaN code's entry of this channel
                col = j if ch == 3 else 0
                ok = {G.f32(tab[code * ch + col]) for code in list(range(31745, 32768)) + list(range(64513, 65536))}
                if G.f32(o[j]) not in ok:
                    fail("half:nan", "NaN gives %r, which no NaN code holds", o[j])
                q[j] = 0.0
                o[j] = ref.halfdomain(tab, 65536, ch, j, 0.0, ref.EXACT)
        ref.judge(o, lambda N: ref.lut1d(s, q, N), "half", "%s half-domain pixel %r" % (case["via"], p))
        if k % 50 == 0:
            one = process(pl, q, key="half")
            ref.judge(one, lambda N: ref.lut1d(s, q, N), "half", "single half-domain pixel %r" % (q,))
    ctx.obs("pixels_judged", len(px))
    if case["off"]:
        ctx.obs("flags_off")
    else:
        for _, k in xs[:3 * per]:
            ctx.obs({"exact": "exact_codes", "between": "between_codes"}.get(k, k))
    ctx.nontrivial = True
    ctx.seen(case["via"], ch, case["raw"], case["enc"], case["off"])
