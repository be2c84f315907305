"""ExposureContrast nodes apply the linear, video and log formulas."""
from .. import gen as G, nodecheck, ref
PROP = "C10"
RULE = "an ExposureContrast list (three styles) whose result differs from the input pixel"
CASES = dict(quick=1500, thorough=60000)
NEED = dict(pixels_judged=5000, lists_api=50, lists_file=50, lists_roundtrip=20)


def gen(g, tier, i):
    din, dout = G.depth(g), G.depth(g)
    s = G.exposure(g, G.EC_STYLES[i % 3])
    s.update({"in": din, "out": dout, "id": G.ident(g), "name": G.ident(g)})
    ext = g.random() < 0.3
    if ext:
        G.extreme(g, s, 1)
    if s.get("params") and g.random() < 0.12:
        # contrast that flattens or, for the log style, inverts
        s["params"][1] = g.choice([0, 0.0, -1, G.rnd(g, -2, 0, 4)]) if s["style"] == "log" else g.choice([0, 0.0])
    stride = G.strides(g)
    px = G.pixels(g, g.randrange(4, 12), stride, din)
    if ext:
        px = G.tame_or_unit(g, [s], px, din)
    return nodecheck.make_case(g, [s], px, stride)


def run(case, ctx):
    s = case["nodes"][0]
    nodecheck.exercise(case, ctx, "exposure")
    ctx.seen(s["style"], bool(s.get("params")), case["stride"], ref.size(s["in"]) == 1, ref.size(s["out"]) == 1)
