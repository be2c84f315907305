"""Reverse operators undo forward operators."""
import math
from .. import gen as G, nodecheck, ref
from ..core import Skip, Violation
PROP = "C04"
RULE = "a two-node list [operator, its reverse] (or the other way round on the forward image) returning the original pixel, where the intermediate differs from it"
CASES = dict(quick=1300, thorough=50000)
NEED = dict(pixels_judged=1500)
PAIRS = [("CDL", "Fwd", "Rev"), ("CDL", "v1.2_Fwd", "v1.2_Rev"), ("CDL", "FwdNoClamp", "RevNoClamp"), ("CDL", "noClampFwd", "noClampRev"),
         ("Gamma", "basicFwd", "basicRev"), ("Gamma", "moncurveFwd", "moncurveRev"),
         ("Log", "log10", "antiLog10"), ("Log", "log2", "antiLog2"), ("Log", "linToLog", "logToLin")]


def gen(g, tier, i):
    t, f, r = PAIRS[i % len(PAIRS)]
    d1, d2 = G.depth(g, 0.3), G.depth(g, 0.3)
    if t == "CDL":
        s = G.cdl(g, d1, d2, f, invertible=True)
        if "NoClamp" not in f and "noClamp" not in f:
            # keep room inside [0,1]
            s["slope"] = [G.rnd(g, 0.4, 0.9) for _ in range(3)]
            s["offset"] = [G.rnd(g, 0.01, 0.08) for _ in range(3)]
            s["saturation"] = G.rnd(g, 0.4, 1.1)
    elif t == "Gamma":
        s = G.gamma(g, f)
    else:
        s = G.log(g, f)
    s.update({"in": d1, "out": d2, "id": "f", "name": "f"})
    b = dict(s, style=r, id="r", name="r")
    b["in"], b["out"] = d2, d1
    stride = G.strides(g)
    s1 = ref.size(d1)
    px = []
    for _ in range(40):
        p = []
        for k in range(stride):
            if t == "Gamma" and f == "moncurveFwd" or (t == "CDL" and ("NoClamp" in f or "noClamp" in f)):
                x = G.value(g, d1)
            elif t == "Log":
                x = 10 ** g.uniform(-4, 0.5) * s1
                if g.random() < 0.3:
                    x = g.uniform(0.001, 2) * s1
            elif t == "CDL":
                x = g.uniform(0.0, 1.0) * s1
            else:
                x = g.choice([0.0, g.random(), g.random() * 4, 1.0, 1e-3]) * s1
            p.append(G.f32(x))
        px.append(p)
    order = g.choice(["FR", "FR", "RF"])
    if order == "RF":
        px = [[G.f32(v) for v in ref.apply_node(s, p)] for p in px]
    nodes = [s, b] if order == "FR" else [b, s]
    good = [p for p in px if inside(t, f, s, p if order == "FR" else ref.apply_node(b, p))][:8]
    return nodecheck.make_case(g, nodes, good, stride, kind=t, order=order, via=g.choice(["api", "api", "file"]))


def inside(t, f, s, p):
    """p lies in the stated domain of the forward operator, with a margin."""
    n = [x / ref.size(s["in"]) for x in p[:3]]
    if t == "CDL" and f in ("Fwd", "v1.2_Fwd"):
        sl, of, po = s.get("slope") or [1] * 3, s.get("offset") or [0] * 3, s.get("power") or [1] * 3
        a = [n[k] * sl[k] + of[k] for k in range(3)]
        if any(not 0.002 < x < 0.998 for x in a + n):
            return False
        y = [a[k] ** po[k] for k in range(3)]
        z = [v / ref.size(s["out"]) for v in ref.cdl(s, p, ref.EXACT)[:3]]
        return all(0.002 < x < 0.998 for x in z)
    if t == "Gamma" and f == "basicFwd":
        return all(x >= 0 for x in n)
    if t == "Log" and f in ("log10", "log2"):
        return all(x > 1e-30 for x in n)
    if t == "Log":
        pc = ref.per_channel(s["params"], [0.6, 685.0, 95.0, 1.0, 0.0])
        for k in range(3):
            g_, rw, rb, hl, sh = [float(q) for q in pc[k]]
            black = 10 ** min(-0.00001, (rb - rw) * 0.002 / g_)
            if black + (n[k] - sh) / ((hl - sh) / (1 - black)) < 1e-4:
                return False
    return all(math.isfinite(x) for x in p)


def run(case, ctx):
    if not case["pixels"]:
        raise Skip("no pixel in the invertible domain")
    nodes = case["nodes"]
    keep = []
    for p in case["pixels"]:
        # the composition as specified, in float32, must itself return the pixel within its own rounding envelope
        try:
            ref.judge(p, lambda N: ref.apply_list(nodes, p, N), "x", extra_rel=1e-5)
            keep.append(p)
        except Violation:
            ctx.obs("pixels_beyond_rounding")
    if not keep:
        raise Skip("composition beyond rounding")
    case = dict(case, pixels=keep)

    def ev(px, N):
        return [G.f32(x) for x in px] if N is ref.EXACT else ref.apply_list(nodes, px, N)
    nodecheck.exercise(case, ctx, "inverse", ev=ev, extra_rel=2e-6)
    ctx.nontrivial = any(abs(a - b) > 1e-6 for p in keep for a, b in zip(ref.apply_node(nodes[0], p), p))
    ctx.obs("identities_" + case["kind"])
    ctx.seen(nodes[0]["style"], case["order"])
