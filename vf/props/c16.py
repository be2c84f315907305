"""A list read back from a CLF file processes like the original."""
import random
import numpy as np
from .. import gen as G, nodecheck, ref, model
from ..common import clf, run as process, reset_features
from ..core import fail, Skip, call, Violation
from . import c15, c06
PROP = "C16"
RULE = "a list written (plain or gzip, once or twice) and read back, and its file evaluated independently, where some result differs from the input pixel"
CASES = dict(quick=1000, thorough=40000)
NEED = dict(pixels_judged=3000, files_evaluated=800, encoded_arrays=100, gzip=100, halfdomain_files=2, nested=100)


def gen(g, tier, i):
    if i % 250 == 7:
        return dict(half=c06.gen(g, tier, (i // 250) % 4), gz=g.random() < 0.5)
    rows = g.choice([3, 3, 4])
    nodes = G.chain(g, g.randrange(1, 5), filesafe=True, rows=rows)
    for s in nodes:
        if s["t"] in ("Matrix", "LUT1D", "LUT3D") and g.random() < 0.4:
            e = g.choice(model.FE)
            if "16" in e:
                if max(abs(v) for v in s["values"]) < 60000:
                    s["enc"] = e
                    s["values"] = [float(np.float16(v)) for v in s["values"]]
            else:
                s["enc"] = e
        if s["t"] == "LUT1D" and not s.get("enc") and g.random() < 0.2 and max(abs(v) for v in s["values"]) < 60000:
            s["rawHalfs"] = g.choice([True, "true", "True", "TRUE"])
            s["values"] = [float(np.float16(v)) for v in s["values"]]
        elif s["t"] == "LUT1D" and g.random() < 0.1:
            s["rawHalfs"] = g.choice([False, "false"])
        if g.random() < 0.15:
            s["bypass"] = g.choice([True, False, "true", "false", "TRUE"])
    nodes = [G.extreme(g, s, 0.3, filesafe=True) if not s.get("enc") else s for s in nodes]
    nodes = G.nest(g, nodes, 0.5)
    stride = max(g.choice([3, 3, 4]), G.rows(nodes))
    px = G.tame_pixels(g, nodes, 5, stride, wide=g.random() < 0.5)
    first = G.flatten(nodes)[0]
    if first.get("imaps") and not ref.truthy(first.get("bypass")):
        px += [p for p in nodecheck.imap_points(g, first["imaps"], 4, stride) if G.tame(nodes, p)]
    return dict(nodes=nodes, px=px, stride=stride, gz=g.random() < 0.35, cycles=g.choice([1, 1, 2, 3]))


def enc_count(nodes):
    return sum(1 for s in G.flatten(nodes) if s.get("enc") or s.get("rawHalfs"))


def half(case, ctx):
    h = dict(case["half"], via="api")
    c = clf()
    tab = c06.table(h)
    ch = h["channels"]
    s = {"t": "LUT1D", "in": "16f", "out": "16f", "id": "h", "name": "h", "channels": ch, "values": tab, "halfDomain": h["onflag"]}
    if h["raw"]:
        s["rawHalfs"] = True
    elif h["enc"]:
        s["enc"] = h["enc"]
    pl = model.make([s], c)
    p = ctx.path("h.clf")
    call("file:write", pl.writeFile, p, False, case["gz"])
    D, gz = c15.parsed(p, "file")
    back = call("file:read", c.ProcessList, p)
    xs = [x for x, k in c06.inputs(dict(h, n=600)) if x == x and abs(x) < 1e6]
    for k in range(0, len(xs) - 3, 3):
        q = xs[k:k + 3]
        ref.judge(process(back, q, key="file"), lambda N: ref.lut1d(s, q, N), "file", "half-domain table read back, pixel %r" % q, extra_abs=2e-6)
        ref.judge(ref.lut1d(D["nodes"][0], q, ref.EXACT), lambda N: ref.lut1d(s, q, N), "file:document", "half-domain document, pixel %r" % q, extra_abs=2e-6)
        ctx.obs("pixels_judged")
    ctx.obs("halfdomain_files")
    ctx.nontrivial = True


def run(case, ctx):
    c = clf()
    reset_features()
    if "half" in case:
        return half(case, ctx)
    nodes, stride = case["nodes"], case["stride"]
    if not case["px"]:
        raise Skip("no tame pixel")
    pl = model.make(nodes, c, "file:build")
    orig = [process(pl, list(p), key="file") for p in case["px"]]
    for k in range(case["cycles"]):
        p = ctx.path("f%d.clf" % k)
        call("file:write", pl.writeFile, p, False, case["gz"])
        pl = call("file:read", c.ProcessList, p)
        D, gz = c15.parsed(p, "file")
        ctx.obs("files_evaluated")
        ctx.obs("gzip", int(gz))
        for o, q in zip(orig, case["px"]):
            what = "%s, cycle %d, pixel %r" % ([s["t"] for s in nodes], k, q)
            try:
                outside = ref.apply_list(D["nodes"], [G.f32(x) for x in q])
            except Exception as e:
                fail("file:document", "%s: the written document cannot be evaluated: %s %s", what, type(e).__name__, e)
            ref.judge(outside, lambda N: ref.apply_list(nodes, q, N), "file:document", "document of " + what)
            ref.judge(process(pl, list(q), key="file"), lambda N: ref.apply_list(nodes, q, N), "file", "read back " + what)
            ctx.obs("pixels_judged")
            ctx.nontrivial |= o != q
    flat = [x for q in case["px"] for x in q]
    got = process(pl, flat, stride, key="file")
    for k, q in enumerate(case["px"]):
        ref.judge(got[k * stride:(k + 1) * stride], lambda N: ref.apply_list(nodes, q, N), "file", "read back, strided, pixel %r" % q)
    ctx.obs("encoded_arrays", enc_count(nodes))
    ctx.obs("nested", sum(s["t"] == "Group" for s in nodes))
    ctx.seen(tuple(sorted({s["t"] for s in G.flatten(nodes)}))[:4], case["gz"], case["cycles"], tuple(sorted({str(s.get("enc")) for s in G.flatten(nodes)})))
