"""Bypassed nodes are identities that still bridge bit depths."""
import random
from .. import gen as G, nodecheck, ref, model
from ..common import clf, run as process
from ..core import fail, Skip, call
PROP = "C12"
RULE = "a list holding a node with a bypass attribute, processed under one of the four feature settings"
CASES = dict(quick=1300, thorough=50000)
NEED = dict(pixels_judged=2000, bypassed_nodes=300, ignored_bypasses=100, false_bypasses=100, calls_watched=800)
TRUE = [True, True, "true", "True", "TRUE"]
FALSE = [False, "false", "False", "FALSE"]
SETS = {"CLF": 0, "Autodesk": 1, "Duiker Research": 2, "All": 15}


def gen(g, tier, i):
    n = g.choice([1, 2, 2, 3, 4]) if g.random() < 0.96 else g.randrange(5, 16) if g.random() < 0.7 else g.randrange(33, 50)
    rows = g.choice([3, 3, 4])
    feat = g.choice(["All", "All", "Autodesk", "CLF", "Duiker Research"])
    nodes = []
    d = G.depth(g)
    for s in G.chain(g, n, filesafe=True, rows=rows, first=d):
        if s["t"] in ("CDL", "CC") and s.get("style") in G.AUTODESK_STYLES:
            s["style"] = ref.CDL_ALIAS[s["style"]]
        nodes.append(s)
    if g.random() < 0.5:
        k = g.randrange(len(nodes) + 1)
        q = G.probe(g)
        q.update({"in": G.depth(g), "out": G.depth(g), "id": "p", "name": "probe0"})
        nodes.insert(k, q)
    # the same node object more than once
    if n < 16 and g.random() < 0.15:
        s = g.choice(nodes)
        s["same"] = 1
        if g.random() < 0.6:
            s["bypass"] = True
        nodes.insert(g.randrange(len(nodes) + 1), dict(s))
    # long lists are often one long group
    nodes = [G.group(g, nodes)] if n > 32 and g.random() < 0.6 else G.nest(g, nodes, 0.5)

    def mark(ns):
        for s in ns:
            if g.random() < 0.5 and s.get("same") is None:
                s["bypass"] = g.choice(TRUE if g.random() < 0.65 else FALSE)
            mark(s.get("nodes") or [])
    mark(nodes)
    stride = G.strides(g, G.rows(nodes))
    px = []
    for _ in range(12):
        p = G.pixels(g, 1, stride, nodes[0]["in"] or "16f")[0]
        if tame(nodes, p, SETS[feat]):
            px.append(p)
    return nodecheck.make_case(g, nodes, px[:4], stride, g.choice(["api", "api", "file", "roundtrip"]), feat=feat)


def tame(nodes, p, feat):
    import math
    try:
        seen = []

        class Watch:
            noisy = False

            def r(self, x):
                return x

            def f(self, xs):
                seen.extend(xs)
                return [G.f32(x) for x in xs]
        ref.apply_list(nodes, p, Watch(), feat)
        return all(math.isfinite(x) and abs(x) < 1e7 for x in seen)
    except (ValueError, OverflowError, ZeroDivisionError):
        return False


def calls(nodes, feat, times=None, live=True, out=None):
    """Expected number of calls of each recording node."""
    out = {} if out is None else out
    for s in nodes:
        on = live and not ref.bypassed(s, feat)
        if s["t"] == "Probe":
            out[s["name"]] = out.get(s["name"], 0) + int(on)
        calls(s.get("nodes") or [], feat, None, on, out)
    return out


def count(nodes, feat, ctx):
    for s in nodes:
        if s.get("bypass") is not None:
            t = ref.truthy(s["bypass"])
            ctx.obs("bypassed_nodes" if t and feat & 1 else "ignored_bypasses" if t else "false_bypasses")
        count(s.get("nodes") or [], feat, ctx)


def run(case, ctx):
    nodes, feat = case["nodes"], SETS[case["feat"]]
    if not case["pixels"]:
        raise Skip("no tame pixel")
    pl = nodecheck.obtain(case, ctx, "bypass")
    c = clf()
    call("bypass:feature", c.setFeatureCompatibility, c.featureSets[case["feat"]])
    count(nodes, feat, ctx)
    want = calls(nodes, feat)
    stride = case["stride"]
    for p in case["pixels"]:
        del model.EVENTS[:]
        got = process(pl, nodecheck.arg(case["arg"], p), key="bypass", **(dict(verbose=True) if case["verbose"] else {}))
        ref.judge(got, lambda N: ref.apply_list(nodes, p, N, feat), "bypass", "%s under %s, pixel %r" % ([(s["t"], s.get("bypass"), s["in"], s["out"]) for s in nodes], case["feat"], p))
        ctx.obs("pixels_judged")
        for name, k in want.items():
            n = sum(e[0] == name for e in model.EVENTS)
            if n != k:
                fail("bypass:called", "a node that %s bypassed was called %d times", "is" if not k else "is not", n)
            ctx.obs("calls_watched")
    flat = [x for p in case["pixels"] for x in p]
    got = process(pl, nodecheck.arg(case["arg"], flat), stride, key="bypass")
    for k, p in enumerate(case["pixels"]):
        ref.judge(got[k * stride:(k + 1) * stride], lambda N: ref.apply_list(nodes, p, N, feat), "bypass", "strided %s under %s, pixel %r" % ([(s["t"], s.get("bypass"), s["in"], s["out"]) for s in nodes], case["feat"], p))
    ctx.nontrivial = any(s.get("bypass") is not None for s in nodes + G.flatten(nodes))
    ctx.seen(case["feat"], case["via"], tuple(str(s.get("bypass")) for s in nodes)[:4])
