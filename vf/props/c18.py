"""Independently authored CLF files are interpreted correctly."""
import random
import numpy as np
from .. import gen as G, nodecheck, ref, model
from ..common import clf, run as process, reset_features
from ..core import fail, Skip, call
from . import c15
PROP = "C18"
RULE = "a CLF document in a random surface form (never written by the library), with its independently computed transform"
CASES = dict(quick=1300, thorough=50000)
NEED = dict(documents=1000, pixels_judged=4000, prefixed=200, default_ns=200, with_unknown=200, defaults=100, other_encodings=100, elements=1000, metadata=1000, other_features=100)


def elems(g):
    out = []
    for _ in range(g.randrange(5)):
        k = g.choice(["desc", "desc", "in", "out", "info"])
        out.append([k, G.text(g)] if k != "info" else [k] + [g.choice(["", G.text(g)]) for _ in range(3)] + [g.randrange(3)])
    return out


def gen(g, tier, i):
    rows = g.choice([3, 3, 4])
    nodes = G.chain(g, g.randrange(1, 5), filesafe=True, rows=rows)
    for s in nodes:
        if s["t"] in ("Matrix", "LUT1D", "LUT3D") and g.random() < 0.25:
            e = g.choice(model.FE)
            if "16" not in e or max(abs(v) for v in s["values"]) < 60000:
                if "16" in e:
                    s["values"] = [float(np.float16(v)) for v in s["values"]]
                s["enc"] = e
        elif s["t"] == "LUT1D" and g.random() < 0.2 and max(abs(v) for v in s["values"]) < 60000:
            s["rawHalfs"] = g.choice([True, "true", "True", "TRUE"])
            s["values"] = [float(np.float16(v)) for v in s["values"]]
        if g.random() < 0.2:
            s["bypass"] = g.choice([True, False, "true", "false", "TRUE", "FALSE"])
        if g.random() < 0.2 and ref.size(s["in"]) == 1 and ref.size(s["out"]) == 1:
            # an absent bit depth means floating point
            s["in"] = s["out"] = None
        if g.random() < 0.3:
            s["id"] = s["name"] = None
        if g.random() < 0.3:
            s["desc"] = [G.text(g) for _ in range(g.choice([1, 2]))]
        if g.random() < 0.2:
            s["dyn"] = ["EXPOSURE"]
    nodes = G.nest(g, nodes, 0.4)
    stride = max(g.choice([3, 3, 4]), G.rows(nodes))
    px = G.tame_pixels(g, nodes, 4, stride)
    ns = g.choice(["none", "default", "prefix", "none"])
    return dict(nodes=nodes, px=px, stride=stride, es=g.randrange(1 << 30), ns=ns, unknown=g.random() < 0.35, elems=elems(g),
                ext=g.choice([".clf", ".xml", ".txt", ""]), gz=g.random() < 0.15, strict=g.random() < 0.5, feat=g.choice(["All", "All", "All", "CLF", "Autodesk", "Duiker Research"]) if not any(s.get("enc") or s.get("rawHalfs") or s.get("dyn") for s in G.flatten(nodes)) else "All")


def metadata(want, got, ctx):
    if len(want) != len(got):
        fail("document:nodes", "%d nodes instead of %d", len(got), len(want))
    for s, d in zip(want, got):
        if s["t"] != d["t"]:
            fail("document:nodes", "a %s was read as %s", s["t"], d["tag"])
        if [t or "" for t in d["desc"]] != s.get("desc", []) or d["dyn"] != s.get("dyn", []):
            fail("document:description", "%s: descriptions %r and dynamic parameters %r were read as %r, %r", s["t"], s.get("desc", []), s.get("dyn", []), d["desc"], d["dyn"])
        ctx.obs("metadata")
        if s["t"] == "Group":
            metadata(s["nodes"], d["nodes"], ctx)


def run(case, ctx):
    c = clf()
    reset_features()
    if not case["px"]:
        raise Skip("no tame pixel")
    nodes = case["nodes"]
    g = random.Random(case["es"])
    kw = dict(unknown=case["unknown"])
    if case["ns"] == "default":
        kw["xmlns"] = g.choice(["urn:NATAS:ACES:LUT:v1.2", "urn:a{b", "http://www.smpte-ra.org/ns"])
    elif case["ns"] == "prefix":
        kw["prefix"] = g.choice(["clf", "aces", "L", "x-1"])
    data = model.emit(nodes, g, elems=case["elems"], **kw)
    p = ctx.path("d" + case["ext"])
    if case["gz"]:
        import gzip
        data = gzip.compress(data, g.choice([0, 1, 6, 9]))
    with open(p, "wb") as fh:
        fh.write(data)
    # without the extensions a document that needs none of them, or is not read strictly, means the same
    if not case["gz"] and case["feat"] != "All":
        c.setFeatureCompatibility(c.featureSets[case["feat"]])
        ctx.obs("other_features")
        strict = False
    else:
        strict = case["strict"] and not case["unknown"]
    try:
        pl = call("document:read", c.ProcessList, p, strict)
    finally:
        reset_features()
    ctx.obs("documents")
    ctx.obs("prefixed", case["ns"] == "prefix")
    ctx.obs("default_ns", case["ns"] == "default")
    ctx.obs("with_unknown", case["unknown"])
    ctx.obs("defaults", sum(s.get("in") is None for s in G.flatten(nodes)))
    ctx.obs("other_encodings", data[:2] == b"\xff\xfe" or b"8859" in data[:60])
    if len(pl) != len(nodes):
        fail("document:nodes", "%d nodes read from a document of %d", len(pl), len(nodes))
    # what was read, as the library writes it out again
    p2 = ctx.path("again.clf")
    call("document:write", pl.writeFile, p2)
    D, _ = c15.parsed(p2, "document:write")
    want = c15.plain(case["elems"])
    if D["elems"] != want:
        fail("document:elements", "elements %r were read as %r", want, D["elems"])
    metadata(nodes, D["nodes"], ctx)
    ctx.obs("elements", len(want))
    for q in case["px"]:
        got = process(pl, list(q), key="document")
        ref.judge(got, lambda N: ref.apply_list(nodes, q, N), "document", "%s (%s) pixel %r" % ([s["t"] for s in nodes], case["ns"], q))
        ctx.obs("pixels_judged")
        ctx.nontrivial |= got != q
    ctx.seen(case["ns"], case["unknown"], tuple(sorted({s["t"] for s in G.flatten(nodes)}))[:3], data[:25].hex())
