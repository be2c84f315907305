"""Processing and inspection have no side effects."""
import copy, random, sys, threading
import xml.etree.ElementTree as ET
import numpy as np
from .. import env, gen as G, nodecheck, ref, model
from ..common import clf, run as process, same, reset_features
from ..core import fail, Skip, call, Violation
PROP = "C14"
RULE = "a history of process/print/write/read calls over several lists, with input buffers, argument objects, documents and results compared before and after"
CASES = dict(quick=300, thorough=9000)
NEED = dict(repeats=2000, documents_compared=1000, inputs_compared=3000, threaded_results=500, thread_switches=300, argument_objects=200, session_results=800, reread_results=200)
OPS = ["process", "process", "process", "strided", "print", "write", "writetree", "selfcontained", "gzip", "other", "build", "threads", "verbose", "reread"]


def gen(g, tier, i):
    lists = []
    for _ in range(g.choice([1, 2, 2, 3])):
        rows = g.choice([3, 3, 4])
        nodes = G.chain(g, g.randrange(1, 5), rows=rows, filesafe=True)
        nodes = G.with_probes(g, nodes, 0.4)
        nodes = G.refnest(g, nodes, 0.5) if g.random() < 0.6 else nodes
        if g.random() < 0.2 and nodes:
            nodes[g.randrange(len(nodes))]["bypass"] = g.choice([True, False])
        lists.append(nodes)
    stride = max(G.rows(n) for n in lists)
    stride = max(stride, g.choice([3, 4]))
    px = []
    for nodes in lists:
        px.append([p for p in G.tame_pixels(g, nodes, 3, stride)])
    ops = [(g.choice(OPS), g.randrange(len(lists)), g.randrange(3)) for _ in range(g.choice([6, 10, 14]))]
    if g.random() < 0.4:
        ops.append(("threads", g.randrange(len(lists)), 0))
    return dict(lists=lists, px=px, stride=stride, ops=ops, via=[g.choice(["api", "file"]) for _ in lists], es=g.randrange(1 << 30), style=1, arg=g.choice(["list", "tuple", "f32", "f64", "view", "view"]))


def snapshot(v):
    return copy.deepcopy(v)


def unchanged(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    return [float(x) for x in a] == [float(x) for x in b] and len(a) == len(b)


def canon(e):
    # attribute order is not part of a document's content
    return (e.tag, tuple(sorted((k, str(v)) for k, v in e.attrib.items())), e.text, tuple(canon(c) for c in e))


def doc(pl):
    return canon(call("effects:write", pl.write).getroot())


def thread_run(pl, px, n, ctx):
    """n threads process the same list; every thread's results must be its own."""
    del model.EVENTS[:], model.THREADS[:]
    out, errs = [None] * n, []
    start = threading.Barrier(n)

    def work(k):
        try:
            start.wait(20)
            out[k] = [[float(x) for x in pl.process(list(p))] for p in px[k]]
        except BaseException as e:
            errs.append(e)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(100)
    finally:
        sys.setswitchinterval(old)
    if errs:
        raise Violation("effects:thread", "%s: %s" % (type(errs[0]).__name__, errs[0]))
    th = list(model.THREADS)
    ctx.obs("thread_switches", sum(a != b for a, b in zip(th, th[1:])))
    ids = {}
    ctx.seen("interleaving", hash(tuple(ids.setdefault(t, len(ids)) for t in th)))
    return out


def run(case, ctx):
    c = clf()
    stride = case["stride"]
    lists, pls, docs, base = [], [], [], []
    for k, nodes in enumerate(case["lists"]):
        # list-valued arguments handed to the setters are ours and must come back untouched
        for s in nodes:
            rename(s, k)
        nodes = nodecheck.materialise(nodes, ctx)
        if len(case["px"][k]) < 1:
            raise Skip("no tame pixel")
        lists.append(nodes)
    for k, nodes in enumerate(lists):
        pls.append(nodecheck.obtain(dict(nodes=nodes, via=case["via"][k], es=case["es"], style=1), ctx, "effects", name="l%d.clf" % k))
    for k, pl in enumerate(pls):
        docs.append(doc(pl))
        base.append([process(pl, list(p), key="effects") for p in case["px"][k]])

    for k, nodes in enumerate(lists):
        # several lists built or read in one session: each still computes its own transform
        for got, p in zip(base[k], case["px"][k]):
            ref.judge(got, lambda N: ref.apply_list(nodes, [G.f32(x) for x in p], N), "effects:session", "list %d of %d (%s), pixel %r" % (k + 1, len(lists), case["via"], p))
            ctx.obs("session_results")
    kept = []

    def inp(values):
        return nodecheck.arg(case["arg"], values)

    def one(k, j, what):
        p = case["px"][k][j % len(case["px"][k])]
        a = inp(p)
        before = snapshot(a)
        raw = call("effects", pls[k].process, a, **(dict(verbose=True) if what == "verbose" else {}))
        got = [float(x) for x in raw]
        kept.append((raw, got))
        if not unchanged(a, before):
            fail("effects:input", "the caller's %s %r became %r", type(a).__name__, list(before), list(a))
        ctx.obs("inputs_compared")
        want = base[k][j % len(case["px"][k])]
        if not same(got, want):
            fail("effects:repeat", "after %s: %r gave %r, now %r", what, p, want, got)
        ctx.obs("repeats")
    history = []
    for op, k, j in case["ops"]:
        history.append(op)
        what = "+".join(history[-4:])
        pl = pls[k]
        if op in ("process", "verbose"):
            one(k, j, op)
        elif op == "strided":
            flat = [x for p in case["px"][k] for x in p]
            a = inp(flat)
            before = snapshot(a)
            got = process(pl, a, stride, key="effects")
            if not unchanged(a, before):
                fail("effects:input", "the caller's strided %s changed", type(a).__name__)
            ctx.obs("inputs_compared")
            for n, want in enumerate(base[k]):
                if not same(got[n * stride:(n + 1) * stride], want):
                    fail("effects:repeat", "after %s: strided pixel %d gave %r, single gave %r", what, n, got[n * stride:(n + 1) * stride], want)
        elif op == "print":
            call("effects:print", pl.printInfo)
        elif op == "write":
            call("effects:write", pl.writeFile, ctx.path("o.clf"))
        elif op == "selfcontained":
            call("effects:write", pl.writeFile, ctx.path("o.clf"), True)
        elif op == "gzip":
            call("effects:write", pl.writeFile, ctx.path("o.clfz"), False, True)
        elif op == "writetree":
            call("effects:write", pl.write, ET.Element("x"))
        elif op == "other":
            o = model.make(case_other(case["es"]), c, "effects:other")
            process(o, [0.1, 0.2, 0.3], key="effects:other")
        elif op == "build":
            before = snapshot(lists[k])
            twin = model.make(lists[k], c, "effects:build")
            third = model.make(lists[k], c, "effects:build")
            for n, p in enumerate(case["px"][k]):
                for t in (twin, third):
                    got = process(t, list(p), key="effects")
                    if case["via"][k] == "api" and not same(got, base[k][n]):
                        fail("effects:rebuilt", "%r: %r, and %r on the rebuilt list", p, base[k][n], got)
            if before != lists[k]:
                fail("effects:arguments", "building and processing modified the argument objects")
            ctx.obs("argument_objects", 2)
            edit(twin, lists[k], random.Random(case["es"] + len(history)))
            for n, p in enumerate(case["px"][k]):
                got = process(third, list(p), key="effects")
                if case["via"][k] == "api" and not same(got, base[k][n]):
                    fail("effects:shared", "editing one list changed another built from the same arguments")
            if case["via"][k] == "api" and doc(third) != docs[k]:
                fail("effects:shared", "editing one list changed the document of another built from the same arguments")
        elif op == "reread":
            # the same document read again later in the session is the same transform
            again = nodecheck.obtain(dict(nodes=lists[k], via="file", es=case["es"], style=1), ctx, "effects:reread", name="again.clf")
            for n, p in enumerate(case["px"][k]):
                got = process(again, list(p), key="effects:reread")
                if not same(got, base[k][n]):
                    ref.judge(got, lambda N: ref.apply_list(lists[k], [G.f32(x) for x in p], N), "effects:reread", "after %s: %r on a list read again" % (what, p))
                ctx.obs("reread_results")
        elif op == "threads":
            n = 4
            work = [[case["px"][k][(a + t) % len(case["px"][k])] for a in range(6)] for t in range(n)]
            out = thread_run(pl, work, n, ctx)
            for t in range(n):
                for a in range(6):
                    want = base[k][(a + t) % len(case["px"][k])]
                    if not same(out[t][a], want):
                        fail("effects:thread", "thread %d got %r for %r, alone it gives %r", t, out[t][a], work[t][a], want)
                    ctx.obs("threaded_results")
        for m in range(len(pls)):
            one(m, j, what)
        if op not in ("process", "verbose", "strided", "other") or j == 0:
            for m in range(len(pls)):
                if doc(pls[m]) != docs[m]:
                    fail("effects:document", "after %s list %d writes a different document", what, m)
                ctx.obs("documents_compared")
    for raw, got in kept:
        if not same([float(x) for x in raw], got):
            fail("effects:result", "a result returned earlier, %r, has become %r", got, list(raw))
        ctx.obs("results_kept")
    ctx.nontrivial = True
    ctx.seen("history", tuple(sorted(set(history))))


def rename(s, k):
    if s["t"] == "Reference" and s.get("file"):
        s["file"] = s["file"].replace("ref", "ref%d_" % k) if "_" not in s["file"] else s["file"]
    for q in s.get("nodes") or []:
        rename(q, k)


def case_other(es):
    g = random.Random(es)
    return G.chain(g, 3, types=["Matrix", "LUT1D", "Range"], rows=3)


def edit(pl, nodes, g):
    """Changes nodes of pl through public setters."""
    for n, s in zip(pl.getProcesses(), nodes):
        t = s["t"]
        n.setAttribute("name", "edited")
        n.addValueElement("edited", "1")
        if t == "Matrix":
            call("effects:edit", n.setMatrix, [3, 3, 3], [2.0, 0, 0, 0, 2, 0, 0, 0, 2])
        elif t == "LUT1D":
            call("effects:edit", n.setArray, 1, [5.0, 6.0])
            call("effects:edit", n.setIndexMaps, [[0.0, 1.0], [0, 1]])
        elif t == "LUT3D":
            call("effects:edit", n.setArray, [2, 2, 2], [0.25] * 24)
        elif t in ("CDL", "CC"):
            call("effects:edit", n.setSlope, 9, 9, 9)
            call("effects:edit", n.setSaturation, 0.1)
        elif t == "Range":
            call("effects:edit", n.setMinInValue, -7.5)
        elif t == "Gamma":
            call("effects:edit", n.setGamma, 4.5, 0.3)
        elif t == "Log":
            call("effects:edit", n.setLogParams, 0.9, 500, 40, 1.2, 0.1)
        elif t == "EC":
            call("effects:edit", n.setExposureContrastPivot, 1.5, 1.5, 0.5)
        elif t == "Group" and s["nodes"]:
            edit(n, s["nodes"], g)
