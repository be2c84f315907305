"""Feature-set settings gate extensions exactly as declared."""
import copy, gzip, random
import numpy as np
from .. import gen as G, nodecheck, ref, model
from ..common import clf, run as process, reset_features
from ..core import fail, Skip, call
PROP = "C19"
RULE = "a history of feature-setting changes, reads (strict or not, plain or gzip), writes and processing calls, each with its predicted outcome"
CASES = dict(quick=2400, thorough=60000)
NEED = dict(operations=4000, refused_extension=300, refused_unknown=100, accepted_strict=300, accepted_lenient=500, refused_gzip=50, refused_encoding=50, refused_style=50)
SETS = {"CLF": 0, "Autodesk": 1, "Duiker Research": 2, "All": 15}
CORE = ["Matrix", "Range", "CDL", "LUT1D", "LUT3D", "CC"]
EXT = {"EC": 1, "Gamma": 1, "Log": 1, "Reference": 1, "dyn": 1, "Group": 2}


def objectionable(g, kind):
    if kind in ("EC", "Gamma", "Log"):
        x = G.node(g, kind)
    elif kind == "Reference":
        x = {"t": "Reference", "path": "/nonexistent/none.clf", "nodes": None, "in": "16f", "out": "16f"}
    elif kind == "Group":
        x = G.group(g, [G.node(g, "Matrix", rows=3)])
    elif kind == "dyn":
        x = G.node(g, g.choice(["Matrix", "Range", "LUT1D"]), rows=3)
        x["dyn"] = ["EXPOSURE"]
    else:
        x = {"t": "Unknown", "tag": g.choice(["Frobnicate", "Vendor_Node", "LUT4D", "Matrix2"]), "in": "16f", "out": "16f"}
    return x


def decorate(g, nodes):
    """Descriptions, and the other descriptive elements that a Group may hold, among the nodes."""
    for s in nodes:
        if s["t"] not in ("Unknown",) and g.random() < 0.3:
            s["desc"] = ["words"]
        if s["t"] == "Group" and g.random() < 0.4:
            s["elems"] = [g.choice([["info", "a", "b"], ["in", "i"], ["out", "o"]]) for _ in range(g.choice([1, 1, 2]))]
        decorate(g, s.get("nodes") or [])


def doc(g):
    """Nodes of a document with up to two kinds of objectionable content, the kinds, and the deepest nesting."""
    nodes = []
    for _ in range(g.randrange(1, 4)):
        s = G.node(g, g.choice(CORE), rows=3)
        if s["t"] in ("CDL", "CC") and s.get("style") in G.AUTODESK_STYLES:
            s["style"] = ref.CDL_ALIAS[s["style"]]
        nodes.append(s)
    kinds = [g.choice(["none", "none", "EC", "Gamma", "Log", "Reference", "Group", "dyn", "unknown"])]
    if g.random() < 0.2:
        kinds.append(g.choice(["EC", "Gamma", "Log", "Reference", "Group", "dyn", "unknown"]))
    deepest = 0
    for kind in kinds:
        if kind == "none":
            continue
        x = objectionable(g, kind)
        nest = g.choice([0, 0, 0, 1, 2, 3])
        for _ in range(nest):
            k = g.randrange(4)
            x = G.group(g, [x] if k < 2 or x["t"] == "Unknown" else [G.node(g, "Matrix", rows=3), x] if k == 2 else [x, G.node(g, "Matrix", rows=3)])
        deepest = max(deepest, nest)
        nodes.insert(g.randrange(len(nodes) + 1), x)
    decorate(g, nodes)
    return nodes, kinds, deepest


def gen(g, tier, i):
    ops = [["set", g.choice(list(SETS))]] if g.random() < 0.8 else []
    for _ in range(g.choice([4, 6, 8])):
        o = g.choice(["set", "set", "read", "read", "read", "read", "read", "write", "writegz", "encode", "process", "setenc"])
        if o == "set":
            ops.append(["set", g.choice(list(SETS))])
        elif o == "read":
            nodes, kinds, nest = doc(g)
            ops.append(["read", nodes, kinds, nest, g.random() < 0.6, g.random() < 0.3, g.choice([None, g.randrange(1 << 30)])])
        elif o in ("write", "writegz"):
            ops.append([o, G.chain(g, g.randrange(1, 3), filesafe=True, rows=3)])
        elif o == "encode":
            s = G.node(g, g.choice(["Matrix", "LUT1D", "LUT3D"]), "16f", "16f", rows=3)
            s["enc"] = g.choice(model.FE + ["string"])
            if "16" in s["enc"]:
                s["values"] = [float(np.float16(v)) for v in s["values"]]
            if s["enc"] == "string":
                s["enc"] = None
            ops.append(["encode", s, g.choice([0, 1])])
        elif o == "setenc":
            ops.append(["setenc", g.choice(model.FE)])
        else:
            s = G.cdl(g, "16f", "16f", g.choice(G.CDL_STYLES))
            s.update({"in": "16f", "out": "32f", "id": "a", "name": "a"})
            ops.append(["process", s, [g.random() for _ in range(3)]])
    return dict(ops=ops, es=g.randrange(1 << 30))


def predict(nodes, kinds, nest, feat, strict):
    """Errors a read may raise; None when it must succeed."""
    if not strict:
        return None
    out = set()
    if nest and not feat & 2:
        out.add("UnsupportedExtensionError")
    if "unknown" in kinds:
        out.add("UnknownProcessNodeError")
    if any(k in EXT and not feat & EXT[k] for k in kinds):
        out.add("UnsupportedExtensionError")
    return out or None


def attempt(fn, *a):
    try:
        return None, fn(*a)
    except Exception as e:
        return e, None


def emit(nodes, es=None):
    class E(model.Emitter):
        def node(self, s):
            if s["t"] == "Unknown":
                return "<%s inBitDepth='16f' outBitDepth='16f'><Array dim='1 1'>3</Array></%s>" % (s["tag"], s["tag"])
            return model.Emitter.node(self, s)
    return E(None if es is None else random.Random(es)).document(dict(attrs={"id": "t", "name": "t", "compCLFversion": "1.2"}, elems=[["desc", "x"], ["info", "a", "b"]], nodes=nodes))


def known(nodes):
    out = []
    for s in nodes:
        if s["t"] == "Unknown":
            continue
        s = dict(s)
        if s.get("nodes"):
            s["nodes"] = known(s["nodes"])
        out.append(s)
    return out


def run(case, ctx):
    c = clf()
    reset_features()
    feat, name = 15, "All"
    try:
        for op in case["ops"]:
            ctx.obs("operations")
            k = op[0]
            what = "%s under %s" % (k, name)
            if k == "set":
                name, feat = op[1], SETS[op[1]]
                call("features:set", c.setFeatureCompatibility, c.featureSets[name])
                if call("features:get", c.getFeatureCompatibility) != c.featureSets[name]:
                    fail("features:get", "setting %s reads back as %r", name, c.getFeatureCompatibility())
            elif k == "read":
                nodes, kinds, nest, strict, gz, es = op[1:]
                p = ctx.path("r.clf")
                data = emit(nodes, es)
                with open(p, "wb") as fh:
                    fh.write(gzip.compress(data) if gz else data)
                e, pl = attempt(c.ProcessList, p, strict)
                want = predict(nodes, kinds, nest, feat, strict)
                what += " (%s, nesting %d, strict=%s, gzip=%s)" % ("+".join(kinds), nest, strict, gz)
                if gz and not feat & 2:
                    if e is None:
                        fail("features:gzip", "%s was accepted", what)
                    ctx.obs("refused_gzip")
                elif want:
                    if e is None:
                        fail("features:accepted", "%s was accepted, %s expected", what, sorted(want))
                    if type(e).__name__ not in want:
                        fail("features:error", "%s raised %s (%s), %s expected", what, type(e).__name__, e, sorted(want))
                    ctx.obs("refused_unknown" if "UnknownProcessNodeError" in want else "refused_extension")
                else:
                    if e is not None:
                        fail("features:refused", "%s raised %s: %s", what, type(e).__name__, e)
                    ctx.obs("accepted_strict" if strict else "accepted_lenient")
                    if len(pl) != len(known(nodes)):
                        fail("features:dropped", "%s: %d nodes of %d", what, len(pl), len(known(nodes)))
                    q = [0.2, 0.5, 0.7]
                    if G.tame(known(nodes), q):
                        ref.judge(process(pl, q, key="features"), lambda N: ref.apply_list(known(nodes), q, N, feat), "features:result", what)
                ctx.seen(name, tuple(kinds), nest, strict, gz)
            elif k in ("write", "writegz"):
                pl = model.make(op[1], c, "features:build")
                e, _ = attempt(pl.writeFile, ctx.path("w.clf"), False, k == "writegz")
                refused = k == "writegz" and not feat & 2
                outcome(e, refused, what, ctx, "refused_gzip")
                ctx.seen(name, k)
            elif k == "encode":
                s = op[1]
                nodes = [G_wrap(s)] if op[2] else [s]
                pl = model.make(nodes, c, "features:build")
                e, _ = attempt(pl.writeFile, ctx.path("w.clf"))
                outcome(e, bool(s.get("enc")) and not feat & 2, what + " of %s %s" % (s["t"], s.get("enc")), ctx, "refused_encoding")
                ctx.seen(name, k, bool(s.get("enc")))
            elif k == "setenc":
                from importlib import import_module
                A = getattr(import_module("aces.clf.LUT1D"), "Array")
                a = A([2, 1], [0.0, 1.0])
                e, _ = attempt(a.setFloatEncoding, op[1])
                outcome(e, not feat & 2, what, ctx, "refused_encoding")
                got = a.getFloatEncoding()
                if got != (op[1] if feat & 2 else "string"):
                    fail("features:encoding", "%s leaves encoding %r", what, got)
            else:
                s, px = op[1:]
                pl = model.make([s], c, "features:build")
                e, got = attempt(pl.process, list(px))
                refused = s["style"] in G.AUTODESK_STYLES and not feat & 1
                outcome(e, refused, what + " of CDL style " + s["style"], ctx, "refused_style")
                if not refused:
                    ref.judge(got, lambda N: ref.apply_list([s], px, N), "features:style", what + " of CDL style " + s["style"])
                ctx.seen(name, k, s["style"])
    finally:
        reset_features()
    ctx.nontrivial = True


def G_wrap(s):
    return dict(t="Group", nodes=[s], id="g", name="g", **{"in": s["in"], "out": s["out"]})


def outcome(e, refused, what, ctx, counter):
    if refused and e is None:
        fail("features:accepted", "%s was accepted", what)
    if refused and type(e).__name__ != "UnsupportedExtensionError":
        fail("features:error", "%s raised %s: %s", what, type(e).__name__, e)
    if not refused and e is not None:
        fail("features:refused", "%s raised %s: %s", what, type(e).__name__, e)
    if refused:
        ctx.obs(counter)
