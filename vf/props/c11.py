"""A process list applies each node once, in order; groups and references are transparent."""
import random
from .. import gen as G, nodecheck, ref, model
from ..common import clf, run as process
from ..core import fail, Skip, call
PROP = "C11"
RULE = "a list whose recording nodes reported their calls, and whose result differs from the input"
CASES = dict(quick=900, thorough=36000)
NEED = dict(events=8000, pixels_judged=2000, groups=100, references=100, transitions_judged=3000, empty_lists=3, unresolved=5, long_lists=5, shared_nodes=40)


def gen(g, tier, i):
    n = 0 if i % 90 == 0 else g.randrange(64, 140) if i % 90 == 30 else g.choice([1, 2, 2, 3, 4, 5, 7]) if g.random() < 0.97 else g.randrange(8, 30)
    rows = g.choice([3, 3, 4])
    via = g.choice(["api", "file", "roundtrip"])
    types = ["Matrix", "Range", "CDL", "EC", "LUT1D"] if n > 60 else None
    nodes = [G.extreme(g, s, 0.0 if n > 60 else 0.3, filesafe=True) for s in G.chain(g, n, filesafe=True, rows=rows, types=types)] if n else []
    if n > 60:
        for s in nodes:
            calm(g, s)
    nodes = G.with_probes(g, nodes) if g.random() < 0.9 else nodes
    if i % 90 == 45:
        nodes = []
    # the same node object more than once
    again = 0 < len(nodes) < 20 and g.random() < 0.25
    if again:
        for k in range(g.choice([1, 1, 2])):
            s = g.choice(nodes)
            s["same"] = s.get("same", k)
            nodes.insert(g.randrange(len(nodes) + 1), dict(s))
    wrap = nodes if again and g.random() < 0.6 else G.refnest(g, nodes, 0.9) if n < 60 else [G.group(g, nodes)] if g.random() < 0.3 else nodes
    if g.random() < 0.15:
        k = g.randrange(len(wrap) + 1)
        wrap = wrap[:k] + [G.group(g, [])] + wrap[k:]
    if g.random() < 0.1:
        k = g.randrange(len(wrap) + 1)
        r = G.reference(g, [], 900 + k, missing=True)
        wrap = wrap[:k] + [r] + wrap[k:]
    stride = G.strides(g, G.rows(nodes))
    px = G.tame_pixels(g, nodes, g.randrange(1, 5), stride) if nodes else G.pixels(g, 2, stride)
    return nodecheck.make_case(g, wrap, px, stride, via, dup=g.random() < 0.3)


def calm(g, s):
    "A node that neither dims nor amplifies, so that a long list still has a result."
    si, so = ref.size(s["in"]), ref.size(s["out"])
    if s["t"] == "Matrix":
        r, c = s["dim"][:2]
        s["values"] = [round((so / si if a == b else 0.0) + g.uniform(-0.01, 0.01) * (so if b == r else so / si), 9) for a in range(r) for b in range(c)]
    elif s["t"] == "CDL":
        s["slope"], s["offset"], s["power"], s["saturation"] = [rnd1(g) for _ in range(3)], [round(g.uniform(-0.01, 0.01), 4) for _ in range(3)], [rnd1(g) for _ in range(3)], rnd1(g)
    elif s["t"] == "EC":
        s["params"] = [round(g.uniform(-0.02, 0.02), 4), rnd1(g), 0.5]
    elif s["t"] == "LUT1D":
        s.pop("imaps", None)
        n = len(s["values"]) // s["channels"]
        s["values"] = [round(so * min(1.0, max(0.0, k / (n - 1.0) + g.uniform(-0.01, 0.01))), 9) for k in range(n) for _ in range(s["channels"])]
    elif s["t"] == "Range":
        s.pop("defaultRange", None)
        for k, x in (("minIn", 0.0), ("maxIn", 1.0), ("minOut", 0.0), ("maxOut", 1.0)):
            s[k] = (x + round(g.uniform(-0.01, 0.01), 4)) * (si if "In" in k else so)


def rnd1(g):
    return round(g.uniform(0.98, 1.02), 4)


def kinds(nodes, out):
    for s in nodes:
        out[s["t"]] = out.get(s["t"], 0) + 1
        if s["t"] == "Reference" and s.get("nodes") is None:
            out["unresolved"] = out.get("unresolved", 0) + 1
        kinds(s.get("nodes") or [], out)
    return out


def check_trace(nodes, events, px, npx, stride, key, ctx):
    """Specification of the trace: every recording node once, in document order, each fed what its predecessors produced."""
    flat = G.flatten(nodes)
    want = [s["name"] for s in flat if s["t"] == "Probe"]
    got = [e[0] for e in events]
    if len(events) == len(want):
        if got != want:
            fail(key + ":order", "recording nodes were called in order %s instead of %s", got, want)
    elif npx > 1 and len(events) == npx * len(want):
        # one call per pixel is as good
        for k in range(npx):
            check_trace(nodes, events[k * len(want):(k + 1) * len(want)], px[k * stride:(k + 1) * stride], 1, stride, key, ctx)
        return
    else:
        fail(key + ":times", "recording nodes were called as %s instead of %s", got, want)
    cur, pending, e = list(px), [], iter(events)
    for s in flat:
        if s["t"] != "Probe":
            pending.append(s)
            continue
        name, before, after = next(e)
        if len(before) != len(px):
            fail(key + ":feed", "node %s got %d values instead of %d", name, len(before), len(px))
        for k in range(npx):
            a = cur[k * stride:(k + 1) * stride]
            if not G.tame(pending, a):
                continue
            ref.judge(before[k * stride:(k + 1) * stride], lambda N: [G.f32(x) for x in ref.apply_list(pending, a, N)] if N is ref.EXACT else ref.apply_list(pending, a, N),
                      key + ":feed", "values reaching %s after %s" % (name, [q["t"] for q in pending]))
            ctx.obs("transitions_judged")
        cur, pending = list(after), []
    ctx.obs("events", len(events))


def run(case, ctx):
    nodes = nodecheck.materialise(case["nodes"], ctx)
    pl = nodecheck.obtain(case, ctx, "list", nodes)
    k = kinds(nodes, {})
    ctx.obs("groups", k.get("Group", 0))
    ctx.obs("references", k.get("Reference", 0))
    ctx.obs("unresolved", k.get("unresolved", 0))
    ctx.obs("empty_lists", not nodes)
    ctx.obs("shared_nodes", case["via"] == "api" and sum(1 for s in G.flatten(nodes) if s.get("same") is not None))
    ctx.obs("long_lists", len(G.flatten(nodes)) > 60)
    px, stride = case["pixels"], case["stride"]
    if not px:
        raise Skip("no tame pixel")
    f32 = [[G.f32(x) for x in p] for p in px]
    if len(pl) != len(nodes):
        fail("list:count", "%d nodes instead of %d", len(pl), len(nodes))
    for p, q in zip(px, f32):
        for again in range(2 if case["dup"] else 1):
            del model.EVENTS[:]
            got = process(pl, nodecheck.arg(case["arg"], p), key="list")
            check_trace(nodes, model.EVENTS[:], q, 1, stride, "list", ctx)
            ref.judge(got, lambda N: ref.apply_list(nodes, q, N), "list", "%s of %s, pixel %r" % (case["via"], [s["t"] for s in nodes], p))
            ctx.obs("pixels_judged")
            ctx.nontrivial |= got != q
    flat = [x for p in f32 for x in p]
    del model.EVENTS[:]
    got = process(pl, nodecheck.arg(case["arg"], flat), stride, key="list", **(dict(verbose=True) if case["verbose"] else {}))
    check_trace(nodes, model.EVENTS[:], flat, len(px), stride, "list", ctx)
    if len(got) != len(flat):
        fail("list:length", "%d values in, %d out", len(flat), len(got))
    for i, q in enumerate(f32):
        ref.judge(got[i * stride:(i + 1) * stride], lambda N: ref.apply_list(nodes, q, N), "list", "strided %s" % [s["t"] for s in nodes])
    ctx.nontrivial = ctx.nontrivial or not nodes
    ctx.seen(case["via"], min(4, len(G.flatten(nodes))), k.get("Group", 0) > 0, k.get("Reference", 0) > 0, depth(nodes))


def depth(nodes):
    return max([0] + [1 + depth(s.get("nodes") or []) for s in nodes if s["t"] in ("Group", "Reference")])
