"""Range nodes rescale, offset and clamp exactly as specified."""
from .. import gen as G, nodecheck, ref
PROP = "C02"
RULE = "a Range list (every bound set, style, default-range flag and bit depth pair) whose result differs from the input pixel"
CASES = dict(quick=1600, thorough=60000)
NEED = dict(pixels_judged=5000, lists_api=50, lists_file=50, lists_roundtrip=20)


def gen(g, tier, i):
    din, dout = G.depth(g), G.depth(g)
    s = G.range_(g, din, dout)
    s.update({"in": din, "out": dout, "id": G.ident(g), "name": G.ident(g)})
    G.extreme(g, s, 0.25)
    stride = g.choice([1, 2]) if g.random() < 0.3 else G.strides(g)
    si = ref.size(din)
    px = G.pixels(g, g.randrange(1, 7), stride, din)
    ks = [s[k] for k in ("minIn", "maxIn") if k in s] + [0.0, si]
    # inputs that meet the output bounds
    for _ in range(4):
        p = []
        for _ in range(stride):
            b = g.choice(ks)
            p.append(G.f32(b + g.choice([0, 0, 1e-5, -1e-5, 0.01, -0.01, 0.3, -0.3, 3, -3]) * si))
        px.append(p)
    return nodecheck.make_case(g, [s], px, stride)


def run(case, ctx):
    s = case["nodes"][0]
    nodecheck.exercise(case, ctx, "range")
    ctx.seen(tuple(k in s for k in ("minIn", "maxIn", "minOut", "maxOut")), s.get("style"), str(s.get("defaultRange")), ref.size(s["in"]) == 1, ref.size(s["out"]) == 1)
