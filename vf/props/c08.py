"""Gamma nodes apply basic and moncurve curves per channel."""
from .. import gen as G, nodecheck, ref
PROP = "C08"
RULE = "a Gamma list (four styles, shared and per-channel parameters in any order) whose result differs from the input pixel"
CASES = dict(quick=1500, thorough=60000)
NEED = dict(pixels_judged=5000, lists_api=50, lists_file=50, lists_roundtrip=20)


def gen(g, tier, i):
    din, dout = G.depth(g), G.depth(g)
    s = G.gamma(g, G.GAMMA_STYLES[i % 4])
    s.update({"in": din, "out": dout, "id": G.ident(g), "name": G.ident(g)})
    ext = g.random() < 0.3
    if ext:
        G.extreme(g, s, 1)
    stride = G.strides(g)
    si = ref.size(din)
    px = G.pixels(g, g.randrange(3, 7), stride, din)
    if g.random() < 0.2:
        px.append(G.pad(g, [G.f32(G.sgn(g, 1e-5, 3e4) * si) for _ in range(3)], stride))
    if s["style"].startswith("mon"):
        pc = ref.per_channel(s["params"], [1.0, 0.0])
        for f in (0.5, 0.999, 1.0, 1.001, 1.3, g.uniform(0, 2)):
            p = []
            for c in range(3):
                gm, o = pc[c]
                brk = o / (gm - 1.0)
                if s["style"] == "moncurveRev":
                    brk = (gm * o / ((gm - 1.0) * (o + 1.0))) ** gm
                p.append(G.f32(brk * f * si))
            px.append(G.pad(g, p, stride))
    else:
        px += [[G.f32(x * si)] * stride for x in (0.0, -1e-4, 1e-4)]
    if ext:
        px = G.tame_or_unit(g, [s], px, din)
    return nodecheck.make_case(g, [s], px, stride)


def run(case, ctx):
    s = case["nodes"][0]
    nodecheck.exercise(case, ctx, "gamma")
    ctx.seen(s["style"], tuple(str(p[-1]) for p in s["params"]), case["stride"])
