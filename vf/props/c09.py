"""Log nodes apply their log, antilog and Cineon curves per channel."""
from .. import gen as G, nodecheck, ref
PROP = "C09"
RULE = "a Log list (six styles, shared and per-channel parameters in any order) whose result differs from the input pixel"
CASES = dict(quick=1500, thorough=60000)
NEED = dict(pixels_judged=5000, lists_api=50, lists_file=50, lists_roundtrip=20)


def gen(g, tier, i):
    din, dout = G.depth(g), G.depth(g)
    s = G.log(g, G.LOG_STYLES[i % 6])
    s.update({"in": din, "out": dout, "id": G.ident(g), "name": G.ident(g)})
    ext = g.random() < 0.3
    if ext:
        G.extreme(g, s, 1)
    stride = G.strides(g)
    si = ref.size(din)
    px = G.pixels(g, g.randrange(3, 8), stride, din)
    if s["style"] in ("antiLog10", "antiLog2"):
        px = [[x if abs(x) < 20 * si else x / 100 for x in p] for p in px]
        px += [[G.f32(g.uniform(-6, 6) * si) for _ in range(stride)] for _ in range(3)]
        if not ext and g.random() < 0.3:
            # results far beyond the range of half floats
            hi = (90, 27)[s["style"] == "antiLog10"]
            px.append([G.f32(g.uniform(15, hi) * si) for _ in range(3)] + px[0][3:])
    elif s["style"] == "logToLin":
        px = [[max(-2 * si, min(2.5 * si, x)) for x in p] for p in px]
        px += [[G.f32(v / 1023.0 * si) for _ in range(stride)] for v in (95, 445, 685, 1023, g.uniform(0, 1023))]
    else:
        px += [[G.f32(x * si)] * stride for x in (0.0, -1.0, 1e-30, 1e-38, 1e-41, 0.18, 1.0, g.choice([100.0, 0.01]))]
    if ext:
        px = G.tame_or_unit(g, [s], px, din)
    return nodecheck.make_case(g, [s], px, stride)


def run(case, ctx):
    s = case["nodes"][0]
    nodecheck.exercise(case, ctx, "log")
    ctx.seen(s["style"], tuple(str(p[-1]) for p in s["params"]), case["stride"])
