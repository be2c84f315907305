"""Matrix nodes apply exactly the affine map they hold."""
from .. import gen as G, nodecheck
PROP = "C01"
RULE = "a Matrix list (built, read from an independent document, or written and read back) whose result differs from the input pixel"
CASES = dict(quick=1500, thorough=60000)
NEED = dict(pixels_judged=5000, lists_api=50, lists_file=50, lists_roundtrip=20)
ENC = ["integer32bit", "hex32bit", "integer64bit", "hex64bit"]


def gen(g, tier, i):
    rows = g.choice([3, 3, 3, 4, 4])
    din, dout = G.depth(g), G.depth(g)
    via = g.choice(nodecheck.VIAS)
    s = G.matrix(g, din, dout, via == "roundtrip", rows)
    s.update({"in": din, "out": dout, "id": G.ident(g), "name": G.ident(g)})
    G.extreme(g, s, 0.2, via == "roundtrip")
    scale = 1.0
    if via != "roundtrip" and g.random() < 0.15:
        # tiny coefficients
        scale = 10.0 ** g.randrange(3, 10)
        k = g.choice([None, 0, 1, 2])
        c = s["dim"][1]
        s["values"] = [x / scale if k in (None, j // c) else x for j, x in enumerate(s["values"])]
    if (via == "roundtrip" and g.random() < 0.3) or (via == "file" and g.random() < 0.2):
        s["enc"] = g.choice(ENC)
    stride = G.strides(g) if rows == 3 else G.strides(g, 4)
    px = G.pixels(g, g.randrange(1, 9), stride, din)
    basis = [0.0] * stride
    basis[g.randrange(stride)] = g.choice([1.0, -1.0, 255.0])
    px.append(basis)
    px.append([G.f32(g.uniform(-1000, 1000)) for _ in range(stride)])
    if scale > 1.0:
        px.append([G.f32(g.uniform(-2, 2) * scale) for _ in range(stride)])
    m = max(abs(x) for p in px for x in p)
    # entries are written with nine decimals
    ab = 6e-10 * (m * s["dim"][1] + 1) if not s.get("enc") else 0.0
    return nodecheck.make_case(g, [s], px, stride, via, rt_abs=ab)


def run(case, ctx):
    s = case["nodes"][0]
    nodecheck.exercise(case, ctx, "matrix")
    ctx.seen(s["dim"][0], s["dim"][1], case["stride"], case["via"], bool(s.get("enc")))
