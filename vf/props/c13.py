"""Pixels are processed independently, whatever the grouping."""
import random
from .. import gen as G, nodecheck, ref, model
from ..common import clf, run as process, same
from ..core import fail, Skip, call
PROP = "C13"
RULE = "a list and a buffer of at least two pixels with different results, processed in one call, in single calls, permuted and regrouped"
CASES = dict(quick=900, thorough=36000)
NEED = dict(pixels_compared=5000, empty_buffers=30, permutations=500, alpha_checks=200, references=50, long_buffers=10, huge_buffers=4, wide_strides=30)


def gen(g, tier, i):
    if i % 150 == 7:
        # more pixels in one call than sixteen bits count
        nodes = [G.node(g, G.TYPES[i // 150 % len(G.TYPES)], rows=3)]
        return nodecheck.make_case(g, nodes, G.tame_pixels(g, nodes, 9, 3), 3, "api", ps=g.randrange(1 << 30), huge=g.randrange(65600, 72000))
    rows = g.choice([3, 3, 3, 4])
    t = G.TYPES[i % len(G.TYPES)]
    if g.random() < 0.5:
        nodes = [G.extreme(g, G.node(g, t, rows=rows), 0.2)]
    else:
        nodes = (G.nest if g.random() < 0.5 else G.refnest)(g, G.chain(g, g.randrange(1, 4), rows=rows, filesafe=True), 0.7)
    if g.random() < 0.15:
        s = nodes[g.randrange(len(nodes))]
        s["bypass"] = True
    stride = G.strides(g, G.rows(nodes))
    px = G.tame_pixels(g, nodes, g.choice([1, 2, 3, 5, 8, 16]), stride)
    # a neighbour with extreme or special values
    if px and g.random() < 0.4:
        q = G.pixels(g, 1, stride, nodes[0]["in"] or "16f")[0]
        if G.tame(nodes, q):
            px.insert(g.randrange(len(px) + 1), q)
    if px and g.random() < 0.3:
        px.append(list(px[0]))
    return nodecheck.make_case(g, nodes, px, stride, g.choice(["api", "api", "file"]), ps=g.randrange(1 << 30))


def has(nodes, f):
    return any(f(s) or has(s.get("nodes") or [], f) for s in nodes)


def run(case, ctx):
    px, stride = case["pixels"], case["stride"]
    if not px:
        raise Skip("no tame pixel")
    nodes = nodecheck.materialise(case["nodes"], ctx)
    ctx.obs("wide_strides", stride > 5)
    ctx.obs("references", has(nodes, lambda s: s["t"] == "Reference"))
    pl = nodecheck.obtain(case, ctx, "stride", nodes)
    g = random.Random(case["ps"])
    singles = [process(pl, nodecheck.arg(case["arg"], p), key="stride") for p in px]

    def compare(order, got, what):
        if len(got) != len(order) * stride:
            fail("stride:length", "%s: %d values in, %d out", what, len(order) * stride, len(got))
        for k, j in enumerate(order):
            part = got[k * stride:(k + 1) * stride]
            if not same(part, singles[j]):
                # not bit-identical: still what the specification allows for this pixel?
                ref.judge(part, lambda N: ref.apply_list(nodes, px[j], N), "stride", "%s: pixel %d of %d (%r) gives %r alone, %r here" % (what, k, len(order), px[j], singles[j], part))
                ref.judge(singles[j], lambda N: ref.apply_list(nodes, px[j], N), "stride", "%s: pixel %r alone" % (what, px[j]))
            ctx.obs("pixels_compared")
    order = list(range(len(px)))

    def strided(order, **k):
        return process(pl, nodecheck.arg(case["arg"], [x for j in order for x in px[j]]), stride, key="stride", **k)
    if case.get("huge"):
        many = [order[j % len(order)] for j in range(case["huge"])]
        got = strided(many)
        if len(got) != len(many) * stride:
            fail("stride:length", "%d pixels: %d values in, %d out", len(many), len(many) * stride, len(got))
        want = [x for s in singles for x in s]
        for k in range(0, len(many), len(order)):
            part = got[k * stride:(k + len(order)) * stride]
            if part != want[:len(part)] and not same(part, want[:len(part)]):
                compare(order[:len(part) // stride], part, "from pixel %d of %d" % (k, len(many)))
        ctx.obs("pixels_compared", len(many))
        ctx.obs("huge_buffers")
        ctx.nontrivial = True
        return
    compare(order, strided(order, **(dict(verbose=True) if case["verbose"] else {})), "whole buffer")
    perm = order[:]
    g.shuffle(perm)
    compare(perm, strided(perm), "permuted buffer")
    ctx.obs("permutations")
    cut = g.randrange(len(px) + 1)
    compare(order, (strided(order[:cut]) if cut else []) + (strided(order[cut:]) if cut < len(px) else []), "buffer cut at %d" % cut)
    some = [g.choice(order) for _ in range(g.randrange(1, 20) if g.random() < 0.97 else g.randrange(100, 1200))]
    ctx.obs("long_buffers", len(some) > 99)
    compare(some, strided(some), "repeated pixels")
    got = process(pl, nodecheck.arg(case["arg"], []), stride, key="stride:empty")
    ctx.obs("empty_buffers")
    if len(got):
        fail("stride:empty", "an empty buffer became %r", got)
    if stride > 3 and not has(nodes, lambda s: s["t"] == "Range" or ref.truthy(s.get("bypass")) or (s["t"] == "Matrix" and s["dim"][0] > 3)):
        for j, p in enumerate(px):
            if not same(singles[j][3:], [G.f32(x) for x in p[3:]]):
                fail("stride:alpha", "extra channels %r became %r", p[3:], singles[j][3:])
            q = p[:3] + [G.value(g) for _ in p[3:]]
            o = process(pl, q, key="stride")
            if not same(o[:3], singles[j][:3]):
                ref.judge(o, lambda N: ref.apply_list(nodes, q, N), "stride:alpha", "colour changed with the extra channels %r -> %r" % (p, q))
            ctx.obs("alpha_checks")
    ctx.nontrivial = len({tuple(s) for s in singles}) > 1
    ctx.seen(tuple(s["t"] for s in nodes)[:3], stride, min(4, len(px)))
