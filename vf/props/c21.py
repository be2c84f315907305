"""Self-contained writes inline references without changing the transform."""
import os, random, copy
from .. import gen as G, nodecheck, ref, model
from ..common import clf, run as process, reset_features
from ..core import fail, Skip, call
from . import c15, c14
PROP = "C21"
RULE = "a list with at least one Reference, written self-contained and normally in some order, each file parsed, re-read and processed"
CASES = dict(quick=1500, thorough=28000)
NEED = dict(selfcontained=600, normal=400, inlined_references=600, kept_references=50, pixels_judged=2000, nested_references=100, bypassed_references=50)


def gen(g, tier, i):
    nodes = []
    for _ in range(g.randrange(1, 6) if g.random() < 0.96 else g.randrange(10, 16)):
        # matching depths throughout, so that a bypassed reference means the same inlined
        nodes.append(G.node(g, g.choice(G.TYPES), g.choice(["16f", "32f"]), g.choice(["16f", "32f"]), rows=3))
    mixed = g.random() < 0.5
    if mixed:
        nodes = G.chain(g, len(nodes), filesafe=True, rows=3)
    wrap = nodes
    for _ in range(6):
        wrap = G.refnest(g, copy.deepcopy(nodes), 1.0)
        if any(has_ref(s) for s in wrap):
            break
    if g.random() < 0.05:
        # a long file with references in its latter part
        k = len(nodes) - 1
        long = [G.node(g, "Range", "32f", "32f", rows=3) for _ in range(g.randrange(9, 14))]
        nodes = nodes + long
        wrap = [G.reference(g, nodes[:k] + [G.reference(g, nodes[k:k + 1], 901)] + nodes[k + 1:-1] + [G.reference(g, nodes[-1:], 902)], 900)]
    # references that cannot be resolved, at any depth
    for m in range(g.choice([0, 0, 0, 1, 1, 2])):
        holders = [wrap]

        def walk(ns):
            for s in ns:
                if s.get("nodes") is not None:
                    holders.append(s["nodes"])
                    walk(s["nodes"])
        walk(wrap)
        h = g.choice(holders)
        h.insert(g.randrange(len(h) + 1), G.reference(g, [], 950 + m, missing=True))

    def mark(ns, inref):
        for s in ns:
            if s["t"] == "Reference" and s.get("nodes") and not mixed and g.random() < 0.3:
                s["bypass"] = g.choice([True, "true", "True"])
            elif g.random() < 0.08 and not mixed:
                s["bypass"] = g.choice([True, False])
            mark(s.get("nodes") or [], s["t"] == "Reference")
    mark(wrap, False)
    px = G.tame_pixels(g, nodes, 3, 3, wide=False)
    return dict(nodes=wrap, px=px, via=g.choice(["api", "file"]), es=g.randrange(1 << 30), ops=[g.choice(["sc", "sc", "normal", "tree", "sctree", "print", "process"]) for _ in range(g.choice([2, 3, 4]))] + ["sc", "normal"], gz=g.random() < 0.3, link=g.random() < 0.1)


def has_ref(s):
    return s["t"] == "Reference" and s.get("nodes") is not None or any(has_ref(c) for c in s.get("nodes") or [])


def count_refs(nodes, d=0, out=None):
    out = out if out is not None else dict(all=0, nested=0, bypassed=0, missing=0)
    for s in nodes:
        if s["t"] == "Reference":
            out["all" if s.get("nodes") is not None else "missing"] += 1
            out["nested"] += d > 0
            out["bypassed"] += ref.truthy(s.get("bypass"))
        count_refs(s.get("nodes") or [], d + 1, out)
    return out


def inline(nodes):
    out = []
    for s in nodes:
        if s["t"] == "Reference" and s.get("nodes") is not None:
            inner = inline(s["nodes"])
            if ref.truthy(s.get("bypass")):
                inner = [dict(c, bypass=s["bypass"]) for c in inner]
            out += inner
        elif s["t"] == "Group":
            out.append(dict(s, nodes=inline(s["nodes"])))
        else:
            out.append(s)
    return out


def shape(nodes):
    return [(s["t"], s.get("id"), shape(s["nodes"]) if s["t"] == "Group" else None, ref.truthy(s.get("bypass"))) for s in nodes]


def paths(nodes):
    return [(s.get("path"), s.get("basePath")) if s["t"] == "Reference" else paths(s["nodes"]) if s["t"] == "Group" else None for s in nodes]


def run(case, ctx):
    c = clf()
    reset_features()
    if not case["px"]:
        raise Skip("no tame pixel")
    nodes = nodecheck.materialise(case["nodes"], ctx)
    if case["link"]:
        # the referenced files are reached through links
        os.mkdir(ctx.path("real"))
        for f in sorted(os.listdir(ctx.tmp)):
            if f.startswith("ref") and f.endswith(".clf"):
                os.rename(ctx.path(f), ctx.path("real/" + f))
                os.symlink("real/" + f, ctx.path(f))
                ctx.obs("linked")
    pl = nodecheck.obtain(dict(nodes=nodes, via=case["via"], es=case["es"], style=1), ctx, "selfcontained", nodes, name="main.clf")
    k = count_refs(nodes)
    ctx.obs("nested_references", k["nested"])
    ctx.obs("bypassed_references", k["bypassed"])
    flat = inline(nodes)
    base = [process(pl, list(q), key="selfcontained") for q in case["px"]]
    doc0 = c14.doc(pl)

    def judge(p, want, key, what):
        l = call(key + ":read", c.ProcessList, p)
        for q in case["px"]:
            ref.judge(process(l, list(q), key=key), lambda N: ref.apply_list(want, q, N), key, "%s, pixel %r" % (what, q))
            ctx.obs("pixels_judged")
        return l
    last = None
    for n, op in enumerate(case["ops"]):
        what = "%s after %s" % (op, case["ops"][:n])
        p = ctx.path("out%d.clf" % n)
        if op == "sc":
            call("selfcontained:write", pl.writeFile, p, True, case["gz"])
            D, _ = c15.parsed(p, "selfcontained")
            if shape(D["nodes"]) != shape(flat):
                fail("selfcontained:nodes", "%s: file holds %s instead of %s", what, shape(D["nodes"]), shape(flat))
            last = p
            ctx.obs("selfcontained")
            ctx.obs("inlined_references", k["all"])
            ctx.obs("kept_references", k["missing"])
        elif op == "normal":
            call("selfcontained:write", pl.writeFile, p, False, case["gz"])
            D, _ = c15.parsed(p, "selfcontained")
            if shape(D["nodes"]) != shape(nodes) or paths(D["nodes"]) != paths([dict(s, basePath=s.get("basePath")) for s in nodes]):
                fail("selfcontained:normal", "%s: file holds %s %s instead of %s %s", what, shape(D["nodes"]), paths(D["nodes"]), shape(nodes), paths(nodes))
            judge(p, nodes, "selfcontained:resolve", what)
            ctx.obs("normal")
        elif op == "tree":
            call("selfcontained:write", pl.write)
        elif op == "sctree":
            call("selfcontained:write", pl.write, None, True)
        elif op == "print":
            call("selfcontained:print", pl.printInfo)
        for b, q in zip(base, case["px"]):
            if process(pl, list(q), key="selfcontained") != b:
                fail("selfcontained:memory", "%s: the list in memory now gives another result", what)
        if c14.doc(pl) != doc0:
            fail("selfcontained:memory", "%s: a normal write now differs", what)
    # without the referenced files
    for f in os.listdir(ctx.tmp):
        if f.startswith("ref") or f == "main.clf":
            os.unlink(ctx.path(f))
    for b, q in zip(base, case["px"]):
        ref.judge(b, lambda N: ref.apply_list(nodes, q, N), "selfcontained:base", "in memory, pixel %r" % q)
    judge(last, flat, "selfcontained", "self-contained file without the referenced files")
    judge(last, nodes, "selfcontained:same", "self-contained file against the original transform")
    ctx.nontrivial = k["all"] > 0
    ctx.seen(case["via"], tuple(case["ops"]), k["all"], k["nested"] > 0)
