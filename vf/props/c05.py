"""1D LUT nodes interpolate their table linearly."""
import math
from .. import gen as G, nodecheck, ref
PROP = "C05"
RULE = "a LUT1D list (1/3 columns, 0/1/3 index maps) whose result differs from the input pixel"
CASES = dict(quick=1200, thorough=45000)
NEED = dict(pixels_judged=5000, lists_api=50, lists_file=50, lists_roundtrip=20, nonfinite=20, cubic=20)
INF = float("inf")


def gen(g, tier, i):
    din, dout = G.depth(g), G.depth(g)
    via = g.choice(nodecheck.VIAS)
    s = G.lut1d(g, din, dout, via == "roundtrip", maxn=g.choice([6, 20, 20, 200]), big=0.03)
    s.update({"in": din, "out": dout, "id": G.ident(g), "name": G.ident(g)})
    n = len(s["values"]) // s["channels"]
    stride = g.choice([1, 2]) if g.random() < 0.3 else G.strides(g)
    if s.get("imaps") and len(s["imaps"]) == 3:
        stride = max(stride, 1)
    cubic = not s.get("imaps") and g.random() < 0.12
    if cubic:
        s["interp"] = "cubic"
        s.pop("halfDomain", None)
        si = ref.size(din)
        if g.random() < 0.5:
            # a straight line per column
            ab = [(round(g.uniform(-1, 1), 3), round(g.uniform(-2, 2), 3)) for _ in range(s["channels"])]
            if via == "roundtrip" and dout in G.IDEPTHS:
                s["values"] = [float(round(100 * a) + round(10 * b) * i) for i in range(n) for a, b in ab]
            else:
                s["values"] = [round(a + b * i, 9) for i in range(n) for a, b in ab]
            px = [[G.f32(g.choice([g.random(), g.randrange(n) / (n - 1.0)]) * si) for _ in range(stride)] for _ in range(8)]
        else:
            m = g.choice([3, 5, 9, 17])
            if si == 1.0:
                s["values"] = [v for v in G.table(g, m, ref.size(dout), via == "roundtrip" and dout in G.IDEPTHS) for _ in range(s["channels"])]
                n = m
            # grid positions that are exact in float32
            px = [[float(g.randrange(n)) / (n - 1) * si if si == 1.0 else g.choice([0.0, si]) for _ in range(stride)] for _ in range(8)]
            if si == 1.0 and (n - 1) & (n - 2):
                px = [[g.choice([0.0, 1.0]) for _ in range(stride)] for _ in range(4)]
        return nodecheck.make_case(g, [s], px, stride, via, cubic=True)
    if s.get("imaps"):
        px = nodecheck.imap_points(g, s["imaps"], 8, stride)
    else:
        px = nodecheck.grid(g, s, [n], 8, stride)
    px += G.pixels(g, 2, stride, din)
    if ref.size(din) == 1.0 and not s.get("imaps"):
        for _ in range(2):
            px.append([g.choice([INF, -INF, float("nan"), 0.5, 65504.0, 1e30, -1e30]) for _ in range(stride)])
    ab = 0.0
    return nodecheck.make_case(g, [s], px, stride, via, rt_abs=ab)


def run(case, ctx):
    s = case["nodes"][0]
    if case.get("cubic"):
        m = max(abs(v) for v in s["values"])
        nodecheck.exercise(case, ctx, "lut1d:cubic", extra_abs=2e-5 * m + 1e-9)
        ctx.obs("cubic")
    else:
        nodecheck.exercise(case, ctx, "lut1d")
    ctx.obs("nonfinite", sum(not math.isfinite(x) for p in case["pixels"] for x in p))
    ctx.seen(s["channels"], len(s.get("imaps") or []), s.get("interp"), min(6, len(s["values"]) // s["channels"]), case["stride"])
