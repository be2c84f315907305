"""Random CLF nodes, lists and pixels, as spec dictionaries / plain numbers."""
import math, random
import numpy as np
from . import ref
from .ref import size, DEPTHS

FDEPTHS = ["16f", "32f"]
IDEPTHS = ["8i", "10i", "12i", "16i"]
CDL_STYLES = ["Fwd", "Rev", "FwdNoClamp", "RevNoClamp", "v1.2_Fwd", "v1.2_Rev", "noClampFwd", "noClampRev"]
AUTODESK_STYLES = ["v1.2_Fwd", "v1.2_Rev", "noClampFwd", "noClampRev"]
GAMMA_STYLES = ["basicFwd", "basicRev", "moncurveFwd", "moncurveRev"]
LOG_STYLES = ["log10", "log2", "antiLog10", "antiLog2", "linToLog", "logToLin"]
EC_STYLES = ["linear", "video", "log"]


def f32(x):
    return float(np.float32(x))


def rnd(g, lo, hi, places=6):
    return round(g.uniform(lo, hi), places)


def depth(g, p_int=0.5):
    return g.choice(IDEPTHS) if g.random() < p_int else g.choice(FDEPTHS)


def ident(g):
    return "n%05d" % g.randrange(100000)


def names(g):
    """An id and a name; names are sometimes shared between nodes, equal to other ids, or empty."""
    k = g.randrange(10)
    return ident(g), "" if k == 0 else g.choice(["twin", "node"]) if k < 4 else ident(g)


# ------------------------------------------------------------------ pixels
def value(g, din="16f", wide=True):
    s = size(din)
    k = g.randrange(12)
    if k < 5:
        x = g.random()
    elif k == 5:
        x = g.choice([0.0, 1.0, 0.5, 0.25, 1.0 / 3])
    elif k == 6:
        x = -g.random() * (0.5 if wide else 0)
    elif k == 7:
        x = 1 + g.random() * (3 if wide else 0)
    elif k == 8:
        x = 10 ** g.uniform(-7, 0)
    elif k == 9:
        x = g.randrange(0, 17) / 16.0
    elif k == 10:
        x = g.choice([0.18, 0.0, 1.0, 1.0000001, 0.9999999, 1e-6, -1e-6])
        if not wide:
            x = min(1.0, max(0.0, x))
    else:
        x = g.choice([g.uniform(-8, 16), g.uniform(-1, 1), 100.0, -100.0]) if wide else g.random()
    if s != 1.0 and g.random() < 0.4:
        return float(round(x * s))
    return f32(x * s)


def strides(g, lo=3):
    """A stride: usually up to two channels beyond the colours, sometimes many more."""
    return max(lo, g.choice([3, 3, 4, 5]) if g.random() < 0.93 else g.randrange(6, 13))


def pad(g, p, stride):
    """p cut or filled up to stride channels."""
    return (list(p) + [value(g) for _ in range(stride - len(p))])[:stride]


def pixels(g, n, stride, din="16f", wide=True):
    out = []
    for _ in range(n):
        k = g.randrange(6)
        if k == 0:
            v = value(g, din, wide)
            px = [v] * stride
        else:
            px = [value(g, din, wide) for _ in range(stride)]
        out.append(px)
    return out


# ------------------------------------------------------------------ nodes
def matrix(g, din, dout, filesafe=False, rows=None):
    r = rows or g.choice([3, 3, 3, 4])
    c = r + g.choice([0, 1])
    integral = filesafe and dout in IDEPTHS and g.random() < 0.3
    kind = g.randrange(5)
    v = []
    for i in range(r):
        for j in range(c):
            if kind == 0:
                x = 1.0 if i == j else 0.0
            elif kind == 1:
                x = rnd(g, -2, 2)
            elif kind == 2:
                x = rnd(g, -2, 2) if g.random() < 0.5 else 0.0
            elif kind == 3:
                x = (1.0 if i == j else 0.0) + rnd(g, -0.3, 0.3)
            else:
                x = g.choice([0.0, 1.0, -1.0, 2.0, 0.5, -0.5, 1e-3, 100.0, rnd(g, -1, 1, 9)])
            if j == r and kind != 0:
                x = rnd(g, -1, 1)
                if dout in IDEPTHS and g.random() < 0.5:
                    x = x * size(dout)
            v.append(float(round(x * 3)) if integral else round(x, 9))
    return dict(t="Matrix", dim=[r, c, g.choice([3, r])], values=v)


def range_(g, din, dout, filesafe=False):
    s = {"t": "Range"}
    si, so = size(din), size(dout)
    lo, hi = sorted([rnd(g, -0.5, 1.5, 4), rnd(g, -0.5, 1.5, 4)])
    if hi - lo < 0.05:
        lo, hi = 0.0, 1.0
    lo2, hi2 = sorted([rnd(g, -0.5, 2, 4), rnd(g, -0.5, 2, 4)])
    if hi2 - lo2 < 0.05:
        lo2, hi2 = 0.0, 1.0
    if g.random() < 0.3:
        lo, hi = 0.0, 1.0
    if g.random() < 0.3:
        lo2, hi2 = 0.0, 1.0
    # bounds of exactly zero on either side
    if g.random() < 0.15:
        lo, hi = g.choice([(0.0, hi if hi > 0.05 else 1.0), (lo if lo < -0.05 else -0.5, 0.0)])
    if g.random() < 0.2:
        lo2, hi2 = g.choice([(0.0, hi2 if hi2 > 0.05 else 1.0), (lo2 if lo2 < -0.05 else -0.5, 0.0)])
    k = g.randrange(8)
    if k < 5 or k == 5:
        s["minIn"], s["minOut"] = lo * si, lo2 * so
    if k < 5 or k == 6:
        s["maxIn"], s["maxOut"] = hi * si, hi2 * so
    st = g.choice([None, "clamp", "noClamp", "noClamp"])
    if st is not None:
        s["style"] = st
        s["setstyle"] = g.random() < 0.5
    dr = g.choice([None, None, None, True, False, "true", "false", "True", "False"])
    if dr is not None:
        s["defaultRange"] = dr
        if ref.truthy(dr):
            # missing bounds become 0 and 1: the input bounds must stay apart and the output bounds ordered
            for a in ("minIn", "maxIn", "minOut", "maxOut"):
                if a in s and g.random() < 0.3:
                    del s[a]
            a, b = s.get("minIn", 0.0) / si, s.get("maxIn", si) / si
            c, d = s.get("minOut", 0.0) / so, s.get("maxOut", so) / so
            if b - a < 0.05 or d - c < 0.05:
                for a in ("minIn", "maxIn", "minOut", "maxOut"):
                    s.pop(a, None)
    if g.random() < 0.1:
        for a in ("minIn", "maxIn", "minOut", "maxOut"):
            if a in s and s[a] == int(s[a]):
                s[a] = int(s[a])
    return s


def cdl(g, din, dout, style=None, invertible=False):
    st = style or g.choice(CDL_STYLES)
    s = {"t": "CDL", "style": st}
    rev = "Rev" in st or invertible
    if g.random() < 0.85:
        s["slope"] = [rnd(g, 0.3, 2.5) for _ in range(3)]
        if not rev and g.random() < 0.1:
            s["slope"][g.randrange(3)] = 0.0
    if g.random() < 0.8:
        s["offset"] = [rnd(g, -0.3, 0.3) for _ in range(3)]
    if g.random() < 0.8:
        s["power"] = [rnd(g, 0.4, 2.5) for _ in range(3)]
    if g.random() < 0.7:
        s["saturation"] = rnd(g, 0.3, 2.0)
        if not rev and g.random() < 0.15:
            s["saturation"] = 0.0
    if g.random() < 0.1:
        for k in ("slope", "offset", "power"):
            if k in s:
                s[k] = [int(round(x)) or (0 if k == "offset" else 1) for x in s[k]]
        if "saturation" in s:
            s["saturation"] = int(round(s["saturation"])) or 1
    return s


def color_correction(g, din, dout):
    s = cdl(g, din, dout)
    s["t"] = "CC"
    if g.random() < 0.5:
        s.pop("style")
        # the default style is the forward one
    return s


def table(g, n, so, filesafe_int=False, kind=None):
    kind = g.randrange(6) if kind is None else kind
    if kind == 0:
        v = [i / (n - 1.0) for i in range(n)]
    elif kind == 1:
        v = [g.uniform(-0.2, 1.3) for _ in range(n)]
    elif kind == 2:
        e = g.uniform(0.3, 3)
        v = [(i / (n - 1.0)) ** e for i in range(n)]
    elif kind == 3:
        v = [1 - i / (n - 1.0) for i in range(n)]
    elif kind == 4:
        v = [float(g.randrange(2)) for _ in range(n)]
    else:
        v = sorted(g.uniform(-1, 2) for _ in range(n))
    v = [x * so for x in v]
    return [float(round(x)) for x in v] if filesafe_int else [round(x, 9) for x in v]


def imap_(g, n, si, tiny=True):
    m = g.randrange(2, 8) if g.random() < 0.8 else g.randrange(8, 40)
    scale = si if g.random() < 0.6 else 1.0
    xs = set()
    while len(xs) < m:
        xs.add(round(g.uniform(-0.2, 1.4) * scale, 5))
    xs = sorted(xs)
    if any(b - a < 1e-3 * scale for a, b in zip(xs, xs[1:])):
        xs = [round(i * scale / (m - 1.0), 5) for i in range(m)]
    if g.random() < 0.15:
        # a narrow run of entries: the inputs need all their digits
        o, d = g.uniform(0.1, 0.9), g.choice([2e-4, 5e-4])
        xs = [(o + d * i) * scale for i in range(m)]
    elif tiny and g.random() < 0.05:
        # entries that are all tiny
        d = mag(g, 1e-9, 1e-5)
        xs = [d * (i + g.choice([0, 0.25])) for i in range(m)]
    if g.random() < 0.7:
        ys = sorted(g.randrange(0, n) for _ in range(m))
    else:
        ys = [g.randrange(0, n) for _ in range(m)]
    if g.random() < 0.3:
        ys[0], ys[-1] = 0, n - 1
    return [xs, ys]


def lut1d(g, din, dout, filesafe=False, maxn=20, enc=None, big=0.004):
    ch = g.choice([1, 3])
    n = g.choice([2, 3, 4, 5, g.randrange(2, maxn)])
    if g.random() < big:
        n = g.choice([255, 256, 257, 1000, 1023, 1024, 1025, 4096, g.randrange(200, 5000)])
    isint = filesafe and dout in IDEPTHS
    cols = [table(g, n, size(dout), isint) for _ in range(ch)]
    s = dict(t="LUT1D", channels=ch, values=[cols[c][i] for i in range(n) for c in range(ch)])
    k = g.randrange(5)
    if k == 0:
        s["imaps"] = [imap_(g, n, size(din))]
    elif k == 1:
        s["imaps"] = [imap_(g, n, size(din)) for _ in range(3)]
    if s.get("imaps"):
        s["mapslast"] = g.random() < 0.3
    s["interp"] = g.choice([None, "linear", "linear", "nearest-ish"])
    if g.random() < 0.1:
        s["halfDomain"] = g.choice([False, "false", "False", "FALSE"])
    return s


def lut3d(g, din, dout, filesafe=False, maxn=5, big=0.004):
    d = [g.randrange(2, maxn + 1) for _ in range(3)]
    if g.random() < 0.3:
        d = [d[0]] * 3
    if g.random() < big:
        d = [g.randrange(2, 5) for _ in range(3)]
        d[g.randrange(3)] = g.choice([16, 17, 32, 33, 64, 65, g.randrange(8, 70), g.randrange(70, 140), 129])
        if g.random() < 0.3:
            d = [g.choice([9, 16, 17])] * 3
    isint = filesafe and dout in IDEPTHS
    so = size(dout)
    v = []
    kind = g.randrange(4)
    p = [g.uniform(0.5, 2) for _ in range(3)]
    for r in range(d[0]):
        for gg in range(d[1]):
            for b in range(d[2]):
                x = [r / (d[0] - 1.0), gg / (d[1] - 1.0), b / (d[2] - 1.0)]
                if kind == 0:
                    q = x
                elif kind == 1:
                    q = [g.uniform(-0.2, 1.3) for _ in range(3)]
                elif kind == 2:
                    q = [x[k] ** p[k] * 0.8 + 0.2 * x[(k + 1) % 3] for k in range(3)]
                else:
                    q = [x[2], x[0], x[1]]
                q = [z * so for z in q]
                v += [float(round(z)) for z in q] if isint else [round(z, 9) for z in q]
    s = dict(t="LUT3D", dim=d, values=v, interp=g.choice([None, "trilinear", "tetrahedral", "tetrahedral", "other"]))
    k = g.randrange(6)
    if k == 0:
        s["imaps"] = [imap_(g, min(d), size(din))]
    elif k == 1:
        s["imaps"] = [imap_(g, d[c], size(din)) for c in range(3)]
    if s.get("imaps"):
        s["mapslast"] = g.random() < 0.3
    return s


def gamma(g, style=None, ints=True):
    st = style or g.choice(GAMMA_STYLES)
    mon = st.startswith("mon")

    def one(c):
        if mon:
            return [rnd(g, 1.2, 3, 4), rnd(g, 0.02, 0.3, 4), c]
        x = rnd(g, 0.3, 3, 4)
        if ints and g.random() < 0.3:
            x = g.choice([1, 2, 3])
        return [x, 0.0, c]
    ps = []
    if mon or g.random() < 0.6:
        ps.append(one(None))
    for _ in range(g.choice([0, 0, 1, 2, 3])):
        ps.append(one(g.choice(["R", "G", "B", "R", "G", "B", None])))
    if mon and ints and g.random() < 0.2:
        ps[0][0] = 2
    return dict(t="Gamma", style=st, params=ps)


def log(g, style=None):
    st = style or g.choice(LOG_STYLES)

    def one(c):
        p = [rnd(g, 0.35, 1.0, 4), rnd(g, 600, 900, 2), rnd(g, 40, 200, 2), rnd(g, 0.7, 1.3, 4), rnd(g, 0, 0.1, 4), c]
        if g.random() < 0.3:
            p[1], p[2] = int(p[1]), int(p[2])
        if g.random() < 0.3:
            p[3], p[4] = 1, 0
        if g.random() < 0.15:
            p[0] = 1
        if g.random() < 0.4:
            # the documented defaults, which a file may leave out
            for k, d in enumerate(g.choice([[0.6, 685.0, 95.0, 1.0, 0.0], [0.6, 685, 95, 1.0, 0.0]])):
                if g.random() < 0.5:
                    p[k] = d
        return p
    ps = []
    if g.random() < 0.5:
        ps.append(one(None))
    for _ in range(g.choice([0, 0, 1, 2, 3])):
        ps.append(one(g.choice(["R", "G", "B", "R", "G", "B", None])))
    return dict(t="Log", style=st, params=ps)


def exposure(g, style=None):
    s = dict(t="EC", style=style or g.choice(EC_STYLES))
    if g.random() < 0.9:
        s["params"] = [rnd(g, -3, 3, 4), rnd(g, 0.5, 2, 4), rnd(g, 0.05, 1.0, 4)]
        if g.random() < 0.2:
            s["params"] = [g.choice([0, 1, -2, 2]), g.choice([1, 2]), g.choice([1, 0.18])]
    return s


def sgn(g, lo, hi):
    """A magnitude spread evenly over the decades between lo and hi, with a random sign."""
    return g.choice([1, -1]) * mag(g, lo, hi)


def mag(g, lo, hi):
    return float("%.5g" % math.exp(g.uniform(math.log(lo), math.log(hi))))


def extreme(g, s, p=0.3, filesafe=False):
    """Moves parameters of a node, with probability p, far from their usual magnitudes."""
    if g.random() >= p:
        return s
    t, st = s["t"], s.get("style") or ""
    some = lambda q=0.5: g.random() < q
    if t == "Matrix":
        lo = 1e-3 if filesafe else 1e-7
        if not (filesafe and s.get("out") in IDEPTHS):
            s["values"] = [(round(sgn(g, lo, 1e4), 9) if some(0.3) else v) for v in s["values"]]
    elif t == "Range":
        si, so = size(s["in"]), size(s["out"])
        k = [mag(g, 1e-3, 1e3) for _ in range(2)]
        if not ref.truthy(s.get("defaultRange")):
            for a, b, m in (("minIn", "maxIn", k[0]), ("minOut", "maxOut", k[1])):
                o = g.choice([0.0, sgn(g, 1e-3, 100)])
                z = si if a == "minIn" else so
                if a in s:
                    s[a] = o * z
                if b in s:
                    s[b] = (o + m) * z
    elif t in ("CDL", "CC"):
        inv = "Rev" in st
        if some():
            s["slope"] = [mag(g, 0.02, 30) for _ in range(3)]
        if some():
            s["offset"] = [sgn(g, 1e-4, 3) for _ in range(3)]
        if some():
            s["power"] = [mag(g, 0.1 if inv else 0.02, 20) for _ in range(3)]
        if some():
            s["saturation"] = mag(g, 0.05, 6)
    elif t == "Gamma":
        for q in s["params"]:
            if st.startswith("mon"):
                if some():
                    q[0] = g.choice([round(1 + mag(g, 0.01, 0.2), 5), mag(g, 3, 8)])
                if some():
                    q[1] = mag(g, 1e-3, 2) if some(0.8) else mag(g, 1e-6, 1e-3)
            elif some(0.7):
                q[0] = mag(g, 0.1, 10)
    elif t == "Log":
        for q in s["params"]:
            if some(0.3):
                q[0] = mag(g, 0.15, 4)
            if some(0.3):
                q[2] = q[1] + g.choice([-1, -2, -10, -50, 0, 20])
            if some(0.3):
                q[1], q[2] = round(g.uniform(300, 1200), 2), round(g.uniform(0, 290), 2)
            if some(0.3):
                q[3], q[4] = mag(g, 0.5, 20), sgn(g, 1e-3, 0.4)
    elif t == "EC":
        q = list(s.get("params") or [0.0, 1.0, 1.0])
        if some():
            q[0] = round(g.uniform(-12, 12), 3)
        if some():
            q[1] = mag(g, 0.02, 8)
        if some():
            q[2] = mag(g, 1e-4, 50)
        s["params"] = q
    return s


def tame_or_unit(g, nodes, px, din):
    """px with the pixels whose evaluation leaves the moderate range replaced by pixels inside [0,1]."""
    out = []
    for p in px:
        if not tame(nodes, p, 1e12):
            p = [f32(g.random() * size(din)) for _ in p]
            if not tame(nodes, p, 1e30):
                continue
        out.append(p)
    return out


def probe(g):
    return dict(t="Probe", a=g.choice([1.0, 0.5, 2.0, -1.0, 0.75]), b=g.choice([0.0, 0.25, -0.125, 1.0]))


TYPES = ["Matrix", "Range", "CDL", "CC", "LUT1D", "LUT3D", "Gamma", "Log", "EC"]


def node(g, t=None, din=None, dout=None, filesafe=False, rows=None):
    t = t or g.choice(TYPES)
    din = din or depth(g)
    dout = dout or depth(g)
    if t == "Matrix":
        s = matrix(g, din, dout, filesafe, rows)
    elif t == "Range":
        s = range_(g, din, dout, filesafe)
    elif t == "CDL":
        s = cdl(g, din, dout)
    elif t == "CC":
        s = color_correction(g, din, dout)
    elif t == "LUT1D":
        s = lut1d(g, din, dout, filesafe)
    elif t == "LUT3D":
        s = lut3d(g, din, dout, filesafe)
    elif t == "Gamma":
        s = gamma(g)
    elif t == "Log":
        s = log(g)
    elif t == "EC":
        s = exposure(g)
    elif t == "Probe":
        s = probe(g)
    s["in"], s["out"] = din, dout
    if t == "CC" and g.random() < 0.5 and size(din) == 1 and size(dout) == 1:
        s["in"] = s["out"] = None
    s["id"], s["name"] = names(g)
    return s


def chain(g, n, filesafe=False, types=None, rows=None, first=None):
    """n nodes whose bit depths match at the joints most of the time."""
    out = []
    d = first or depth(g, 0.3)
    for i in range(n):
        e = depth(g, 0.35)
        s = node(g, g.choice(types or TYPES), d, e, filesafe, rows)
        out.append(s)
        d = s["out"] or "16f"
        if g.random() < 0.1:
            d = depth(g)
    return out


def group(g, nodes):
    i, nm = names(g)
    return dict(t="Group", nodes=nodes, id=i, name=nm, **{"in": (nodes[0]["in"] or "16f") if nodes else "16f", "out": (nodes[-1]["out"] or "16f") if nodes else "16f"})


def nest(g, nodes, p=0.5):
    """Wraps random runs of consecutive nodes in Groups, recursively."""
    if not nodes or g.random() > p:
        return nodes
    i = g.randrange(len(nodes))
    j = g.randrange(i, len(nodes)) + 1
    inner = nest(g, nodes[i:j], p * 0.6)
    return nest(g, nodes[:i], p * 0.5) + [group(g, inner)] + nest(g, nodes[j:], p * 0.5)


def flatten(nodes):
    out = []
    for s in nodes:
        if s["t"] in ("Group", "Reference"):
            out += flatten(s.get("nodes") or [])
        else:
            out.append(s)
    return out


def rows(nodes):
    return max([s["dim"][0] for s in flatten(nodes) if s["t"] == "Matrix"] or [3])


def tame(nodes, px, limit=1e7):
    """True when every intermediate value of the reference evaluation stays finite and moderate."""
    cur = [f32(x) for x in px]
    try:
        for s in flatten(nodes):
            cur = ref.apply_node(s, cur)
            if any(not math.isfinite(x) or abs(x) > limit for x in cur):
                return False
            cur = [f32(x) for x in cur]
    except (OverflowError, ValueError, ZeroDivisionError):
        return False
    return True


def tame_pixels(g, nodes, n, stride, din=None, tries=4, wide=True):
    din = din or (flatten(nodes)[0].get("in") or "16f" if flatten(nodes) else "16f")
    out = []
    for _ in range(n):
        for k in range(tries):
            px = pixels(g, 1, stride, din, wide)[0]
            if tame(nodes, px):
                out.append(px)
                break
    return out


def reference(g, nodes, n, missing=False):
    """A Reference whose file holds nodes (written by nodecheck.materialise)."""
    i, nm = names(g)
    return {"t": "Reference", "alias": g.choice(["", "", "cam 1", "ref1.clf", "ref2.clf"]), "file": "ref%d.clf" % n, "nodes": None if missing else nodes, "split": g.random() < 0.4, "es": g.choice([None, g.randrange(1 << 30)]),
            "id": i, "name": nm, "in": (nodes[0]["in"] or "16f") if nodes else "16f", "out": (nodes[-1]["out"] or "16f") if nodes else "16f"}


def refnest(g, nodes, p=0.5, counter=None):
    """Wraps random runs of consecutive nodes in Groups and References, recursively."""
    counter = [0] if counter is None else counter
    if not nodes or g.random() > p:
        return nodes
    i = g.randrange(len(nodes))
    j = g.randrange(i, len(nodes)) + 1
    inner = refnest(g, nodes[i:j], p * 0.7, counter)
    if g.random() < 0.5:
        w = group(g, inner)
    else:
        counter[0] += 1
        w = reference(g, inner, counter[0])
    return refnest(g, nodes[:i], p * 0.5, counter) + [w] + refnest(g, nodes[j:], p * 0.5, counter)


def with_probes(g, nodes, p=0.7):
    """Uniquely named recording nodes between (and around) the nodes."""
    out, k = [], 0
    for s in nodes + [None]:
        while g.random() < p:
            q = probe(g)
            d = (s or (nodes[-1] if nodes else {"in": "16f", "out": "16f"}))["in" if s else "out"] or "16f"
            q.update({"in": d, "out": d, "id": "p%d" % k, "name": "probe%d" % k})
            k += 1
            out.append(q)
            if g.random() < 0.7:
                break
        if s is not None:
            out.append(s)
    return out


# ------------------------------------------------------------------ text
WORDS = ["gamma", "ACES", "a<b", "R&D", "\"quoted\"", "it's", "]]>", "<!--", "\u00e9t\u00e9", "\u00df\u00fc", "\u65e5\u672c\u8a9e", "\u0416\u0443\u043a", "\U0001f3a8", "e\u0301", "&amp;", "100%", "%s %d", "{0}",
         "\\path\\x", "c:/x y", "0", "None", "true", "1.5", "\u2028", "\u00a0", "#", "=", "@", "~"]


def text(g, attr=False):
    n = g.randrange(1, 5) if g.random() < 0.98 else g.randrange(40, 300)
    sep = " " if attr or g.random() < 0.7 else g.choice(["\n", "\t", "  ", "\n\n  "])
    t = sep.join(g.choice(WORDS) for _ in range(n))
    if not attr and g.random() < 0.1:
        t = g.choice([" ", "\n", ""]) + t + g.choice([" ", "\n", ""])
    return "x" + t if t in ("True", "False") else t
