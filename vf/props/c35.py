"""Copies of lists and nodes are equivalent to, and independent of, their originals."""
import copy, pickle, random
import xml.etree.ElementTree as ET
from .. import env, gen as G, ref, model, nodecheck
from ..common import clf, reset_features, run as process, same
from ..core import fail, call, Skip
from . import c28
PROP = "C35"
RULE = "one list, built or read, possibly used before, copied whole or node by node, both then processed, printed and written, edited and compared again"
CASES = dict(quick=1600, thorough=60000)
NEED = dict(copies=1500, pickles=350, deep=600, node_copies=250, moved_processes=200, compared_pixels=6000, documents=3000, printed=3000, edits=3000, untouched=1500)


def setup():
    reset_features()
    clf()


def gen(g, tier, i):
    nodes = G.chain(g, g.randrange(1, 5), rows=3)
    if g.random() < 0.5:
        nodes = G.nest(g, nodes, 1.0)
    return dict(nodes=nodes, seed=g.randrange(1 << 40), via=g.choice(["api", "api", "file"]), how=g.choice(["deep", "deep", "pickle", "pickle", "twice", "nodes", "moved"]), proto=g.randrange(5), used=g.random() < 0.6, steps=g.randrange(2, 9),
                elems=[[g.choice(["desc", "in", "out"]), G.text(g) or "x"] for _ in range(g.randrange(3))] + ([["info", "a", "b"]] if g.random() < 0.3 else []), vals={k: G.ident(g) for k in ("vendorA", "vendorB") if g.random() < 0.3})


def canon(e):
    return (e.tag, tuple(sorted(e.attrib.items())), (e.text or "").strip(), tuple(canon(x) for x in e))


def picture(pl, px, ctx, n):
    """Everything a list shows: results, document, printed information."""
    out = [[process(pl, list(p)) for p in px]]
    flat = [x for p in px for x in p]
    out.append(process(pl, flat, 3) if flat else [])
    q = ctx.path("p%d.clf" % n)
    call("write", pl.writeFile, q)
    with open(q, "rb") as fh:
        out.append(canon(ET.fromstring(fh.read())))
    out.append(c28.printed(pl, "print"))
    ctx.obs("compared_pixels", len(px))
    ctx.obs("documents")
    ctx.obs("printed")
    return out


def differs(a, b):
    for k, (x, y) in enumerate(zip(a, b)):
        if k == 0:
            for p, q in zip(x, y):
                if not same(p, q):
                    return "results %r and %r" % (p, q)
        elif k == 1:
            if not same(x, y):
                return "results %r and %r" % (x, y)
        elif x != y:
            if k == 3:
                return "printed %r and %r" % ([l for l in x if l not in y][:3], [l for l in y if l not in x][:3])
            return "documents %.700r and %.700r" % (x, y)
    return None


def copied(case, pl, ctx, c):
    how = case["how"]
    ctx.obs("copies")
    if how == "deep" or how == "twice":
        ctx.obs("deep")
        r = call("deepcopy", copy.deepcopy, pl)
        return call("deepcopy", copy.deepcopy, r) if how == "twice" else r
    if how == "pickle":
        ctx.obs("pickles")
        return call("unpickle", pickle.loads, call("pickle", pickle.dumps, pl, case["proto"]))
    if how == "nodes":
        # the list around them is copied by hand
        r = c.ProcessList()
        for k in ("id", "name", "compCLFversion"):
            r.setAttribute(k, pl.getAttribute(k))
        for k, v in case["vals"].items():
            r.addValueElement(k, v)
        for e in case["elems"]:
            r.addElement(model.build_elem(e, c))
        for n in pl.getProcesses():
            r.addProcess(call("deepcopy", copy.deepcopy, n))
            ctx.obs("node_copies")
        return r
    # in another process
    import multiprocessing.reduction as R
    ctx.obs("moved_processes")
    return call("unpickle", R.ForkingPickler.loads, bytes(call("pickle", R.ForkingPickler.dumps, pl)))


def scribble(g, holder, ctx):
    "Overwrites tables and index maps through the sequences their getters return, and empties the list of nodes."
    done = False
    ns = call("edit:children", holder.getProcesses)
    for n in ns:
        if hasattr(n, "getProcesses"):
            done |= scribble(g, n, ctx)
        if hasattr(n, "getLUTValues"):
            for get in (n.getLUTValues, lambda: n.getLUTDimensions(), lambda: n.getIndexMapValues(0)[0], lambda: n.getIndexMapValues(0)[1]):
                try:
                    v = get()
                    for k in range(0, len(v), g.choice([1, 1, 5])):
                        v[k] = 77
                    done = True
                    ctx.obs("scribbled")
                except (IndexError, TypeError):
                    pass
    if isinstance(ns, list) and g.random() < 0.5:
        ns[:] = ns[::-1] + ns
        done = True
    return done


def run(case, ctx):
    reset_features()
    c = clf()
    g = random.Random(case["seed"])
    nodes = case["nodes"]
    L = dict(attrs={"id": "t", "name": "t", "compCLFversion": 1.2}, vals=dict(case["vals"]), elems=case["elems"], nodes=nodes)
    if case["via"] == "file":
        for s in c28.flat(nodes):
            if s["t"] in ("LUT1D", "LUT3D") and s.get("interp") is None:
                s["interp"] = "linear" if s["t"] == "LUT1D" else "trilinear"
        L["attrs"]["compCLFversion"] = "1.2"
        L["vals"], case["vals"] = {}, {}
        p = ctx.path("start.clf")
        with open(p, "wb") as fh:
            fh.write(model.Emitter(None).document(L))
        pl = call("build", c.ProcessList, p)
    else:
        pl = call("build", model.build_list, L, c)
    px = G.tame_pixels(g, nodes, 2, 3, wide=False) or [[0.5, 0.25, 0.75]]
    if case["used"]:
        process(pl, list(px[0]))
        c28.printed(pl, "print")
        call("write", pl.writeFile, ctx.path("u.clf"))
    cp = copied(case, pl, ctx, c)
    if cp is pl:
        fail("copy:same", "the copy is the original")
    a = picture(pl, px, ctx, 0)
    b = picture(cp, px, ctx, 1)
    d = differs(a, b)
    if d:
        fail("copy", "%s of %s: %s", case["how"], [s["t"] for s in nodes], d)
    for p in px:
        if G.tame(nodes, p):
            ref.judge(process(cp, list(p)), lambda N: ref.apply_list(nodes, p, N), "copy:process", "copy of %s" % [s["t"] for s in nodes])
    # editing either leaves the other as it was
    swap = g.random() < 0.5
    ed, keep, was = (pl, cp, b) if swap else (cp, pl, a)
    M = copy.deepcopy(L)
    E = c28.Editor(g, ctx, c)
    for k in range(case["steps"]):
        if g.random() < 0.2:
            c28.editlist(g, M, ed, E)
        else:
            ps = list(c28.pairs(M["nodes"], call("edit:children", ed.getProcesses)))
            s, o = g.choice(ps)
            E.edit(s, o)
        if g.random() < 0.3 and G.tame(M["nodes"], px[0]):
            process(ed, list(px[0]))
    ctx.exact = False
    ctx.main = M
    c28.check(g, M, ed, ctx, "the edited one", 0)
    c28.judge(g, M, ed, ctx, "edited", "the edited one")
    d = differs(was, picture(keep, px, ctx, 2))
    if d:
        fail("untouched", "editing the %s changed the %s: %s", "original" if swap else "copy", "copy" if swap else "original", d)
    ctx.obs("untouched")
    # nor do changes to what its getters hand out
    if scribble(g, ed, ctx):
        d = differs(was, picture(keep, px, ctx, 3))
        if d:
            fail("untouched:values", "changing the %s's values in place changed the %s: %s", "original" if swap else "copy", "copy" if swap else "original", d)
    ctx.nontrivial = True
    ctx.seen(case["how"], case["proto"] if case["how"] == "pickle" else 0, case["via"], case["used"], swap, tuple(sorted(set(s["t"] for s in c28.flat(nodes)))))
