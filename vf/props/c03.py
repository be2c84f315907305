"""ASC CDL nodes compute slope-offset-power-saturation per style."""
import random
from .. import gen as G, nodecheck, ref, model
from ..common import clf, run as process, reset_features, same
from ..core import fail
PROP = "C03"
RULE = "an ASC_CDL or ColorCorrection list (all eight styles) whose result differs from the input pixel"
CASES = dict(quick=1500, thorough=60000)
NEED = dict(pixels_judged=5000, lists_api=50, lists_file=50, lists_roundtrip=20, short_pixels=20)


def gen(g, tier, i):
    din, dout = G.depth(g), G.depth(g)
    if g.random() < 0.25:
        s = G.color_correction(g, din, dout)
        s.update({"id": G.ident(g)})
        s["in"], s["out"] = (None, None) if g.random() < 0.5 else (din, dout)
        if s["in"]:
            s["name"] = G.ident(g)
    else:
        s = G.cdl(g, din, dout, style=G.CDL_STYLES[i % 8] if g.random() < 0.9 else None)
        if g.random() < 0.1:
            s["style"] = None
        s.update({"in": din, "out": dout, "id": G.ident(g), "name": G.ident(g)})
    ext = g.random() < 0.3
    if ext:
        G.extreme(g, s, 1)
    stride = G.strides(g)
    si = ref.size(s["in"])
    px = G.pixels(g, g.randrange(3, 9), stride, s["in"])
    # pixels whose slope/offset stage lands near the ends of [0,1]
    sl, of = s.get("slope") or [1] * 3, s.get("offset") or [0] * 3
    for t in (0.0, 1.0, g.choice([-0.2, 1.2, 0.5])):
        p = [G.f32((t + g.choice([0, 1e-4, -1e-4]) - of[k]) / (sl[k] or 1) * si) for k in range(3)]
        px.append(G.pad(g, p, stride))
    if ext:
        px = G.tame_or_unit(g, [s], px, s["in"])
    short = [G.value(g, s["in"]) for _ in range(g.choice([1, 2]))]
    return nodecheck.make_case(g, [s], px, stride, short=short)


def run(case, ctx):
    s = case["nodes"][0]
    pl = nodecheck.exercise(case, ctx, "cdl")
    got = process(pl, case["short"], key="cdl:short")
    if not same(got, [G.f32(x) for x in case["short"]]):
        fail("cdl:short", "pixel of %d channels %r became %r", len(case["short"]), case["short"], got)
    ctx.obs("short_pixels")
    ctx.seen(s["t"], s.get("style"), bool(s.get("slope")), bool(s.get("saturation") is not None), ref.size(s["in"]) == 1, ref.size(s["out"]) == 1)
