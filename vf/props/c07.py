"""3D LUT nodes interpolate their lattice trilinearly or tetrahedrally."""
from .. import gen as G, nodecheck, ref
PROP = "C07"
RULE = "a LUT3D list (every interpolation name, lattice shape, 0/1/3 index maps) whose result differs from the input pixel"
CASES = dict(quick=1000, thorough=36000)
NEED = dict(pixels_judged=5000, lists_api=50, lists_file=50, lists_roundtrip=20)


def gen(g, tier, i):
    din, dout = G.depth(g), G.depth(g)
    via = g.choice(nodecheck.VIAS)
    s = G.lut3d(g, din, dout, via == "roundtrip", maxn=g.choice([2, 3, 5, 5, 7]), big=0.03)
    s.update({"in": din, "out": dout, "id": G.ident(g), "name": G.ident(g)})
    stride = G.strides(g)
    si = ref.size(din)
    if s.get("imaps"):
        px = nodecheck.imap_points(g, s["imaps"], 9, stride)
    else:
        px = nodecheck.grid(g, s, s["dim"], 6, stride)
        # orderings and ties of the cell fractions, within one cell
        for _ in range(4):
            base = [g.randrange(s["dim"][k] - 1) for k in range(3)]
            fr = [g.random() for _ in range(3)]
            for _ in range(g.randrange(3)):
                fr[g.randrange(3)] = fr[g.randrange(3)]
            px.append(G.pad(g, [G.f32((base[k] + fr[k]) / (s["dim"][k] - 1.0) * si) for k in range(3)], stride))
    px += G.pixels(g, 2, stride, din)
    return nodecheck.make_case(g, [s], px, stride, via)


def run(case, ctx):
    s = case["nodes"][0]
    nodecheck.exercise(case, ctx, "lut3d")
    ctx.seen(s.get("interp"), len(s.get("imaps") or []), len(set(s["dim"])), min(s["dim"]), case["stride"])
