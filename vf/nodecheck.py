"""Common runner for the single-node properties: one list, built through the API, read from an independently written
document, or written and read back by the library; processed pixel by pixel and as one strided buffer, with several
argument types; every result judged against the reference evaluator."""
import random
import numpy as np
from . import env, ref, gen, model
from .common import clf, run, reset_features, same
from .core import call, fail

VIAS = ["api", "api", "file", "file", "roundtrip"]


def make_case(g, nodes, pixels, stride, via=None, **kw):
    return dict(nodes=nodes, pixels=pixels, stride=stride, via=via or g.choice(VIAS), es=g.randrange(1 << 30),
                style=g.randrange(2), arg=g.choice(["list", "list", "tuple", "f32", "f64", "nplist", "view"]), verbose=g.random() < 0.1,
                repeat=g.choice([2, 7, 33, 64, 100, 257, 400]) if g.random() < 0.03 else 0, **kw)


def obtain(case, ctx, key, nodes=None, name="t.clf"):
    """The ProcessList under test for this case."""
    c = clf()
    reset_features()
    nodes = case["nodes"] if nodes is None else nodes
    via = case["via"]
    model.probe_class(c)
    ctx.obs("lists_" + via)
    if via == "api":
        return model.make(nodes, c, key + ":build")
    p = ctx.path(name)
    if via == "file":
        data = model.emit(nodes, random.Random(case["es"]) if case.get("style") else None)
        with open(p, "wb") as fh:
            fh.write(data)
        return call(key + ":read", c.ProcessList, p)
    pl = model.make(nodes, c, key + ":build")
    call(key + ":write", pl.writeFile, p)
    return call(key + ":read", c.ProcessList, p)


def materialise(nodes, ctx, g=None):
    """Writes the files that References ("file" in the spec) refer to and fills in their paths."""
    out = []
    for s in nodes:
        s = dict(s)
        if s.get("nodes") is not None:
            s["nodes"] = materialise(s["nodes"], ctx, g)
        if s["t"] == "Reference" and s.get("file"):
            p = ctx.path(s["file"])
            if s.get("nodes") is not None:
                with open(p, "wb") as fh:
                    fh.write(model.emit(s["nodes"], random.Random(s["es"]) if s.get("es") else None))
            if s.get("split"):
                s["basePath"], s["path"] = ctx.tmp, s["file"]
            else:
                s["path"] = p
        out.append(s)
    return out


def direct(pl, px, key):
    """The first node's own process method, called with nothing but the values."""
    n = call(key, lambda: pl.getProcesses()[0])
    r = call(key + ":direct", n.process, np.array(px, dtype=np.float32))
    return [float(x) for x in r]


def arg(kind, flat):
    if kind == "list":
        return list(flat)
    if kind == "tuple":
        return tuple(flat)
    if kind == "f32":
        return np.array(flat, dtype=np.float32)
    if kind == "view":
        # a window into a larger image
        return np.array([0.25] + list(flat) + [0.5, 0.75], dtype=np.float32)[1:1 + len(flat)]
    if kind == "f64":
        return np.array(flat, dtype=np.float64)
    return [np.float32(x) for x in flat]


def exercise(case, ctx, key, feat=ref.ALL, extra_abs=0.0, extra_rel=0.0, ev=None):
    nodes, pixels, stride = case["nodes"], case["pixels"], case["stride"]
    pl = obtain(case, ctx, key)
    what = "%s %s" % (case["via"], "+".join("%s/%s" % (s["t"], s.get("style", s.get("interp"))) for s in nodes))
    if case["via"] == "roundtrip":
        # nine decimals in the file
        extra_abs = extra_abs + case.get("rt_abs", 0.0)
    flat = [x for p in pixels for x in p]
    block = run(pl, arg(case["arg"], flat), stride, key=key, **(dict(verbose=True) if case.get("verbose") else {}))
    if len(block) != len(flat):
        fail(key + ":length", "%s: %d values in, %d out", what, len(flat), len(block))
    if case.get("repeat"):
        # the same pixels over and over in one long buffer
        n = case["repeat"]
        long = run(pl, arg(case["arg"], flat * n), stride, key=key)
        if len(long) != n * len(flat):
            fail(key + ":length", "%s: %d values in, %d out", what, n * len(flat), len(long))
        for j in range(n):
            part = long[j * len(flat):(j + 1) * len(flat)]
            if not same(part, block):
                for i, px in enumerate(pixels):
                    e = (lambda N, px=px: ref.apply_list(nodes, px, N, feat)) if ev is None else (lambda N, px=px: ev(px, N))
                    ref.judge(part[i * stride:(i + 1) * stride], e, key, "%s, pixel %d of a call with %d, input %r" % (what, j * len(pixels) + i, n * len(pixels), px), extra_abs, extra_rel)
        ctx.obs("long_calls")
        ctx.obs("long_call_pixels", n * len(pixels))
    env_used = 0
    if len(nodes) == 1 and ev is None and pixels:
        px = pixels[-1]
        ref.judge(direct(pl, px, key), lambda N: ref.apply_node(nodes[0], px, N, feat), key, "%s, node called directly, pixel %r" % (what, px), extra_abs, extra_rel)
        ctx.obs("direct_calls")
    for i, px in enumerate(pixels):
        e = (lambda N, px=px: ref.apply_list(nodes, px, N, feat)) if ev is None else (lambda N, px=px: ev(px, N))
        got = block[i * stride:(i + 1) * stride]
        env_used += ref.judge(got, e, key, "%s, pixel %d of a strided call, input %r" % (what, i, px), extra_abs, extra_rel)
        if i < 3 or i % 7 == 0:
            one = run(pl, arg(case["arg"], px), key=key)
            ref.judge(one, e, key, "%s, single pixel %r" % (what, px), extra_abs, extra_rel)
            ctx.obs("single_pixel_calls")
        if not same(got, px):
            ctx.nontrivial = True
    ctx.obs("pixels_judged", len(pixels))
    ctx.obs("judged_by_envelope", env_used)
    return pl


def grid(g, s, n, c, stride):
    """Pixels at, between and just beside the grid positions of a LUT axis (list of per-axis sizes n)."""
    si = ref.size(s["in"])
    out = []
    for _ in range(c):
        px = []
        for k in range(stride):
            m = n[min(k, len(n) - 1)]
            i = g.randrange(m)
            f = g.choice([0, 0, 0.5, g.random(), 1e-6, -1e-6, 0.999999])
            x = min(1.0, max(0.0, (i + f) / (m - 1.0)))
            if g.random() < 0.1:
                x = g.choice([-0.1, 1.1, 0.0, 1.0, 1.0000001, -1e-9, 5.0, -3.0])
            px.append(gen.f32(x * si))
        out.append(px)
    return out


def imap_points(g, maps, c, stride):
    out = []
    for _ in range(c):
        px = []
        for k in range(stride):
            m = maps[k] if len(maps) > 1 and k < 3 else maps[0]
            i = g.randrange(len(m[0]))
            j = min(len(m[0]) - 1, i + 1)
            f = g.choice([0, 0, 0.5, g.random()])
            x = m[0][i] + f * (m[0][j] - m[0][i])
            if g.random() < 0.15:
                x = g.choice([m[0][0] - 1, m[0][-1] + 1, m[0][0] - 1e-4, m[0][-1] + 1e-4])
            px.append(gen.f32(x))
        out.append(px)
    return out
