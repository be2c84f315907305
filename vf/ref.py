"""Independent reference semantics of CLF process lists, over plain spec dictionaries.

Nothing here imports the code under test. Every arithmetic step that the implementation may carry out in float32,
float64 or another association order goes through a noise source, so that the set of acceptable answers is the
envelope of noisy evaluations instead of a hand-picked tolerance.
"""
import math, random, bisect
import numpy as np
from .core import Violation

SIZE = {"8i": 255.0, "10i": 1023.0, "12i": 4095.0, "16i": 65535.0, "16f": 1.0, "32f": 1.0}
DEPTHS = ["8i", "10i", "12i", "16i", "16f", "32f"]
FLT_MIN = 1.1754943508222875e-38
AUTODESK, DUIKER, ALL = 1, 2, 15


def size(d):
    return SIZE.get(d, 1.0)


class Exact:
    noisy = False

    def r(self, x):
        return x

    def f(self, xs):
        return [f32(x) for x in xs]


class Noisy:
    noisy = True

    def __init__(self, seed, eps=2.0 ** -22):
        self.g = random.Random(seed)
        self.eps = eps

    def r(self, x):
        u = self.g.randrange(5)
        if u == 0:
            return x
        # near the smallest floats the representation error is absolute
        return x * (1.0 + (u - 2.5) / 1.5 * self.eps) + (u - 2.5) * 1e-45

    def f(self, xs):
        return [self.r(x) for x in xs]


EXACT = Exact()


def f32(x):
    return float(np.float32(x))


def clamp(x, lo=0.0, hi=1.0):
    return min(hi, max(lo, x))


def powf(a, b):
    try:
        return math.pow(a, b)
    except OverflowError:
        return float("inf")
    except (ValueError, ZeroDivisionError):
        return float("nan")


# ------------------------------------------------------------------ nodes
def matrix(s, px, N):
    r, c = s["dim"][0], s["dim"][1]
    v = s["values"]
    out = []
    for i in range(r):
        acc = 0.0
        for j in range(r):
            acc = N.r(acc + N.r(N.r(v[i * c + j]) * px[j]))
        if c == r + 1:
            acc = N.r(acc + N.r(v[i * c + c - 1]))
        out.append(acc)
    return out + list(px[r:])


def truthy(v):
    if isinstance(v, str):
        return v.strip().lower() in ("true", "1")
    return bool(v)


def range_(s, px, N):
    ib, ob = size(s["in"]), size(s["out"])
    lo_i, hi_i, lo_o, hi_o = (s.get(k) for k in ("minIn", "maxIn", "minOut", "maxOut"))
    lo_i = None if lo_i is None else lo_i / ib
    hi_i = None if hi_i is None else hi_i / ib
    lo_o = None if lo_o is None else lo_o / ob
    hi_o = None if hi_o is None else hi_o / ob
    if truthy(s.get("defaultRange")):
        lo_i = 0.0 if lo_i is None else lo_i
        hi_i = 1.0 if hi_i is None else hi_i
        lo_o = 0.0 if lo_o is None else lo_o
        hi_o = 1.0 if hi_o is None else hi_o
    cl = s.get("style") in (None, "", "clamp")
    out = []
    for x in px:
        x = N.r(x / ib)
        if None not in (lo_i, hi_i, lo_o, hi_o):
            k = N.r((hi_o - lo_o) / (hi_i - lo_i))
            y = N.r(N.r(N.r(x * k) + lo_o) - N.r(lo_i * k))
            if cl:
                y = clamp(y, lo_o, hi_o)
        elif lo_i is not None and lo_o is not None:
            y = N.r(N.r(x + lo_o) - lo_i)
            if cl:
                y = max(lo_o, y)
        elif hi_i is not None and hi_o is not None:
            y = N.r(N.r(x + hi_o) - hi_i)
            if cl:
                y = min(hi_o, y)
        else:
            y = x
        out.append(N.r(y * ob))
    return out


CDL_ALIAS = {"v1.2_Fwd": "Fwd", "noClampFwd": "FwdNoClamp", "v1.2_Rev": "Rev", "noClampRev": "RevNoClamp"}


def cdl(s, px, N):
    if len(px) < 3:
        return list(px)
    ib, ob = size(s.get("in")), size(s.get("out"))
    style = s.get("style") or "Fwd"
    style = CDL_ALIAS.get(style, style)
    sl = s.get("slope") or [1.0] * 3
    of = s.get("offset") or [0.0] * 3
    po = s.get("power") or [1.0] * 3
    sa = s.get("saturation")
    sa = 1.0 if sa is None else sa
    w = (0.2126, 0.7152, 0.0722)
    x = [N.r(v / ib) for v in px[:3]]
    if style in ("Fwd", "FwdNoClamp"):
        y = []
        for i in range(3):
            t = N.r(N.r(x[i] * sl[i]) + of[i])
            if style == "Fwd":
                t = N.r(powf(clamp(t), po[i]))
            elif t >= 0:
                t = N.r(powf(t, po[i]))
            y.append(t)
        luma = N.r(N.r(w[0] * y[0]) + N.r(w[1] * y[1]) + N.r(w[2] * y[2]))
        z = [N.r(luma + N.r(sa * N.r(v - luma))) for v in y]
        if style == "Fwd":
            z = [clamp(v) for v in z]
    else:
        if style == "Rev":
            x = [clamp(v) for v in x]
        luma = N.r(N.r(w[0] * x[0]) + N.r(w[1] * x[1]) + N.r(w[2] * x[2]))
        z = []
        for i in range(3):
            t = N.r(luma + N.r(N.r(x[i] - luma) / sa))
            if style == "Rev":
                t = clamp(t)
            if t >= 0:
                t = N.r(powf(t, 1.0 / po[i]))
            t = N.r(N.r(t - of[i]) / sl[i])
            z.append(clamp(t) if style == "Rev" else t)
    return [N.r(v * ob) for v in z] + list(px[3:])


def imap(m, x, N):
    a, b = m
    if math.isnan(x) or math.isinf(x):
        return x
    if x <= a[0]:
        return float(b[0])
    if x >= a[-1]:
        return float(b[-1])
    k = bisect.bisect_left(a, x)  # a[k-1] < x <= a[k]
    t = N.r(N.r(x - a[k - 1]) / N.r(a[k] - a[k - 1]))
    return N.r(b[k - 1] + N.r(t * (b[k] - b[k - 1])))


_POS = np.arange(31744, dtype=np.uint16).view(np.float16).astype(np.float64)
_POSL = _POS.tolist()


def halfdomain(tab, n, ch, c, x, N):
    def at(code):
        return float(tab[code * ch + (c if ch == 3 else 0)])
    if math.isnan(x):
        return at(0x7e00)
    sign = 0x8000 if math.copysign(1.0, x) < 0 else 0
    a = abs(x)
    if a >= 65520.0:
        return at(0x7c00 | sign)
    if a >= 65504.0:
        return at(0x7bff | sign)
    j = bisect.bisect_right(_POSL, a) - 1
    if _POSL[j] == a:
        return at(j | sign)
    t = (a - _POSL[j]) / (_POSL[j + 1] - _POSL[j])
    t = N.r(t)
    return N.r(N.r((1 - t) * at(j | sign)) + N.r(t * at((j + 1) | sign)))


def lut1d(s, px, N):
    ch = s["channels"]
    v = s["values"]
    n = len(v) // ch
    ib = size(s["in"])
    maps = s.get("imaps") or []
    hd = truthy(s.get("halfDomain"))
    out = list(px)
    for c in range(min(3, len(px))):
        x = px[c]
        if maps:
            x = N.r(imap(maps[c] if len(maps) > 1 else maps[0], x, N) / (n - 1.0))
        else:
            x = x / ib if ib == 1.0 else N.r(x / ib)
        if hd:
            out[c] = halfdomain(v, n, ch, c, x, N)
            continue
        p = x * (n - 1.0)
        if math.isnan(p) or math.isinf(p):
            out[c] = p
            continue
        p = N.r(p)
        lo = int(math.floor(p))
        t = p - lo

        def at(i):
            i = min(n - 1, max(0, i))
            return v[i * ch + (c if ch == 3 else 0)]
        out[c] = float(at(lo)) if t == 0 else N.r(N.r((1 - t) * at(lo)) + N.r(t * at(lo + 1)))
    return out


def lut3d(s, px, N):
    d = s["dim"]
    v = s["values"]
    ib = size(s["in"])
    maps = s.get("imaps") or []
    idx, fr = [], []
    for c in range(3):
        x = px[c]
        if maps:
            x = N.r(imap(maps[c] if len(maps) > 1 else maps[0], x, N) / (d[c] - 1.0))
        else:
            x = x / ib if ib == 1.0 else N.r(x / ib)
        p = clamp(N.r(clamp(x) * (d[c] - 1.0)), 0.0, d[c] - 1.0)
        i = int(math.floor(p))
        idx.append(i)
        fr.append(p - i)

    def at(o):
        i = [min(d[k] - 1, idx[k] + o[k]) for k in range(3)]
        base = ((i[0] * d[1] + i[1]) * d[2] + i[2]) * 3
        return [float(q) for q in v[base:base + 3]]
    acc = [0.0, 0.0, 0.0]
    if s.get("interp") == "tetrahedral":
        order = sorted(range(3), key=lambda k: -fr[k])
        o = [0, 0, 0]
        fs = [fr[k] for k in order]
        ws = [1 - fs[0], fs[0] - fs[1], fs[1] - fs[2], fs[2]]
        pts = [at(o)]
        for k in order:
            o[k] = 1
            pts.append(at(o))
        for w, q in zip(ws, pts):
            for k in range(3):
                acc[k] = N.r(acc[k] + N.r(N.r(w) * q[k]))
    else:
        for a in (0, 1):
            for b in (0, 1):
                for c in (0, 1):
                    w = (fr[0] if a else 1 - fr[0]) * (fr[1] if b else 1 - fr[1]) * (fr[2] if c else 1 - fr[2])
                    if w == 0.0:
                        continue
                    q = at((a, b, c))
                    for k in range(3):
                        acc[k] = N.r(acc[k] + N.r(N.r(w) * q[k]))
    return acc + list(px[3:])


def per_channel(params, default):
    """params: list of (values..., channel or None) in order; later entries win."""
    cur = [list(default) for _ in range(3)]
    for p in params:
        vals, chn = list(p[:-1]), p[-1]
        for c in range(3):
            if chn is None or chn == "RGB"[c]:
                cur[c] = vals
    return cur


def gamma(s, px, N):
    ib, ob = size(s["in"]), size(s["out"])
    pc = per_channel(s["params"], [1.0, 0.0])
    st = s["style"]
    out = []
    for c in range(3):
        g, o = float(pc[c][0]), float(pc[c][1])
        x = N.r(px[c] / ib)
        if st == "basicFwd":
            y = powf(max(0.0, x), g)
        elif st == "basicRev":
            y = powf(max(0.0, x), 1.0 / g)
        else:
            brk = o / (g - 1.0)
            ybrk = powf(g * o / ((g - 1.0) * (o + 1.0)), g)
            slope = N.r(ybrk / brk)
            if st == "moncurveFwd":
                y = x * slope if x <= N.r(brk) else powf(max(0.0, N.r(N.r(x + o) / (1 + o))), g)
            else:
                y = x / slope if x <= N.r(ybrk) else N.r(powf(max(0.0, x), 1.0 / g) * (1 + o)) - o
        out.append(N.r(N.r(y) * ob))
    return out + list(px[3:])


def log(s, px, N):
    ib, ob = size(s["in"]), size(s["out"])
    pc = per_channel(s["params"], [0.6, 685.0, 95.0, 1.0, 0.0])
    st = s["style"]
    out = []
    for c in range(3):
        g, rw, rb, hl, sh = [float(q) for q in pc[c]]
        x = N.r(px[c] / ib)
        if st == "log10":
            y = math.log10(max(x, FLT_MIN))
        elif st == "log2":
            y = math.log(max(x, FLT_MIN)) / math.log(2.0)
        elif st == "antiLog10":
            y = powf(10.0, x)
        elif st == "antiLog2":
            y = powf(2.0, x)
        else:
            black = powf(10.0, min(-0.00001, (rb - rw) * 0.002 / g))
            gain = (hl - sh) / (1.0 - black)
            if st == "logToLin":
                e = N.r(powf(10.0, N.r(N.r(1023.0 * x) - rw) * 0.002 / g))
                y = N.r(N.r(e - black) * gain) + sh
            else:
                e = N.r(black + N.r(N.r(x - sh) / gain))
                y = N.r(rw + N.r(math.log10(max(FLT_MIN, e))) * g / 0.002) / 1023.0
        out.append(N.r(N.r(y) * ob))
    return out + list(px[3:])


def exposure(s, px, N):
    ib, ob = size(s["in"]), size(s["out"])
    e, k, p = [float(q) for q in (s.get("params") or [0.0, 1.0, 1.0])]
    st = s["style"]
    out = []
    for c in range(3):
        x = N.r(px[c] / ib)
        if st == "linear":
            y = p * powf(max(0.0, N.r(powf(2.0, e) * x / p)), k)
        elif st == "video":
            q = 1.0 / 1.83
            y = powf(p, q) * powf(max(0.0, N.r(x * powf(powf(2.0, e) / p, q))), k)
        else:
            b = 0.6 / 2.046 * math.log10(p / 0.9) + 685.0 / 1023.0
            y = N.r(N.r(N.r(x + e * 0.6 / 2.046 * math.log10(2.0)) - b) * k) + b
        out.append(N.r(N.r(y) * ob))
    return out + list(px[3:])


def probe(s, px, N):
    a, b = s["a"], s["b"]
    return [N.r(N.r(x * a) + b) for x in px]


FN = dict(Matrix=matrix, Range=range_, CDL=cdl, CC=cdl, LUT1D=lut1d, LUT3D=lut3d, Gamma=gamma, Log=log, EC=exposure, Probe=probe)


def bypassed(s, feat):
    return truthy(s.get("bypass")) and bool(feat & AUTODESK)


def node_in(s):
    return s.get("in")


def apply_list(nodes, px, N=EXACT, feat=ALL):
    px = list(px)
    for i, s in enumerate(nodes):
        if bypassed(s, feat):
            a = nodes[i - 1]["out"] if i > 0 else s["in"]
            b = nodes[i + 1]["in"] if i + 1 < len(nodes) else s["out"]
            if size(a) != size(b):
                px = [N.r(x / size(a) * size(b)) for x in px]
        else:
            px = apply_node(s, px, N, feat)
        px = N.f(px)
    return px


def apply_node(s, px, N=EXACT, feat=ALL):
    t = s["t"]
    if t == "Group":
        return apply_list(s["nodes"], px, N, feat)
    if t == "Reference":
        return apply_list(s["nodes"], px, N, feat) if s.get("nodes") is not None else list(px)
    return FN[t](s, px, N)


# ------------------------------------------------------------------ judging
def close(g, r, tol):
    if math.isnan(g) or math.isnan(r):
        return math.isnan(g) and math.isnan(r)
    if math.isinf(g) or math.isinf(r):
        return g == r
    return abs(g - r) <= tol


BIG = 1e37


def judge(got, ev, key, what="", extra_abs=0.0, extra_rel=0.0):
    """got: values from the code under test; ev(N) -> reference values. Raises Violation when outside the envelope."""
    got = [float(x) for x in got]
    ref = ev(EXACT)
    if len(got) != len(ref):
        raise Violation(key + ":length", "%s: %d values instead of %d" % (what, len(got), len(ref)))
    bad = [i for i in range(len(ref)) if not close(got[i], ref[i], 3e-6 * abs(ref[i]) + 1e-30 + extra_abs + extra_rel * abs(ref[i]))
           and not (math.isfinite(ref[i]) and abs(ref[i]) > BIG)]
    if not bad:
        return 0
    for rounds in (24, 400):
        lo, hi = list(ref), list(ref)
        sp = [False] * len(ref)
        for k in range(rounds):
            # a third of the runs use a larger noise amplitude, which samples both sides of branch points
            n = ev(Noisy(k * 7919 + rounds, eps=2.0 ** -22 if k % 3 else 2.0 ** -21))
            for i in bad:
                if not math.isfinite(n[i]) or abs(n[i]) > BIG:
                    sp[i] = True
                    continue
                lo[i] = min(lo[i], n[i])
                hi[i] = max(hi[i], n[i])
        still = []
        for i in bad:
            if sp[i] and (math.isfinite(ref[i]) or not math.isfinite(got[i])):
                continue
            w = (hi[i] - lo[i]) * 1.0 + 2e-6 * max(abs(lo[i]), abs(hi[i])) + 1e-30 + extra_abs + extra_rel * abs(ref[i])
            if not (lo[i] - w <= got[i] <= hi[i] + w):
                still.append(i)
        bad = still
        if not bad:
            return 1
    i = bad[0]
    raise Violation(key, "%s: value %d is %r, specified %r (acceptable %r..%r)" % (what, i, got[i], ref[i], lo[i], hi[i]))
