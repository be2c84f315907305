"""Inverse 1D LUT conversion really inverts the LUT."""
import bisect, math, random
import numpy as np
from .. import env, gen as G, ref, lutio
from ..common import load, run as process
from ..core import fail, call
PROP = "C24"
RULE = "one generated .spi1d file read forward and inverse by one of the three methods; outputs mapped back and compared with the exact preimage interval"
CASES = dict(quick=700, thorough=20000)
NEED = dict(method_indexmap=120, method_halfdomain=25, method_resampled=120, pixels_judged=6000, roundtrips=2000, outside=500, flat_luts=60)
LIB = []
METHODS = dict(indexmap=dict(inversesUseIndexMaps=True), halfdomain=dict(inversesUseIndexMaps=False, inversesUseHalfDomain=True), resampled=dict(inversesUseIndexMaps=False, inversesUseHalfDomain=False),
               indexmap2=dict(inversesUseIndexMaps=True, inversesUseHalfDomain=False), default={})


def setup():
    LIB.append(load("aces.lutFormats"))


def column(g, n, flat, scale, off):
    k = g.randrange(4)
    if k == 0:
        v = [i / (n - 1.0) for i in range(n)]
    elif k == 1:
        e = g.uniform(0.4, 2.5)
        v = [(i / (n - 1.0)) ** e for i in range(n)]
    else:
        steps = [g.uniform(0.1, 1) for _ in range(n - 1)]
        v = [sum(steps[:i]) / sum(steps) for i in range(n)]
    v = [round(off + scale * x, 7) for x in v]
    if flat and n > 2:
        for _ in range(g.choice([1, 1, 2])):
            i = g.randrange(n - 1)
            v[i + 1] = v[i]
        v = [max(v[:i + 1]) for i in range(n)]
        if v[-1] == v[0]:
            v[-1] = round(v[-1] + scale, 7)
    return v


def gen(g, tier, i):
    m = g.choice(["indexmap", "indexmap", "indexmap2", "default", "resampled", "resampled", "resampled"])
    if g.random() < 0.06:
        m = "halfdomain"
    c = g.choice([1, 3])
    n = g.choice([2, 3, 4, 5]) if m == "halfdomain" else g.choice([2, 3, 5, 8, g.randrange(2, 40)]) if g.random() < 0.96 else g.choice([64, 65, 128, 256, 257, 300])
    flat = g.random() < 0.25
    cols = []
    sc, off = g.choice([(1.0, 0.0), (1.0, 0.0), (2.0, -0.5), (4.0, 0.0), (0.5, 0.25), (1.0, 1.0), (3.0, -4.0), (10.0, 0.0), (0.01, 0.0), (0.005, 0.5)])
    for _ in range(c):
        if g.random() < 0.4:
            sc, off = sc * g.choice([1, 0.75, 1.5]), off + g.choice([0, 0.125, -0.25])
        cols.append(column(g, n, flat, sc, off))
    flat = any(b <= a for col in cols for a, b in zip(col, col[1:]))
    S = dict(fmt="spi1d", range=g.choice([[0.0, 1.0], [0.0, 1.0], [-0.5, 1.5], [0.0, 4.0], [0.25, 0.75], [-1.0, 0.0], [0.0, 1023.0], [0.5, 1.0], [0.0, 0.5], [0.0004, 1.0], [0.0, 1.0003], [0.12345, 3.45678], [0.5, 0.504]]), n=n, comps=c, values=[cols[k][j] for j in range(n) for k in range(c)])
    px = []
    for _ in range(10):
        p = []
        for k in range(3):
            col = cols[k if c == 3 else 0]
            lo, hi = col[0], col[-1]
            w = g.randrange(8)
            if w == 0:
                x = g.choice([lo - g.uniform(0, 3), hi + g.uniform(0, 3), lo - 1e-3, hi + 1e-3, -50.0, 100.0])
            elif w == 1:
                x = g.choice([lo, hi])
            elif w < 4:
                x = g.choice(col)
            elif w == 4:
                j = g.randrange(n - 1)
                x = (col[j] + col[j + 1]) / 2
            else:
                x = g.uniform(lo, hi)
            p.append(G.f32(x))
        px.append(p)
    fw = []
    for _ in range(4):
        fw.append([G.f32(S["range"][0] + (S["range"][1] - S["range"][0]) * g.choice([g.random(), g.randrange(n) / (n - 1.0)])) for _ in range(3)])
    assert all(b >= a for col in cols for a, b in zip(col, col[1:]))
    return dict(S=S, method=m, pixels=px, forward=fw, es=g.randrange(1 << 30), flat=flat)


def preimage(S, c, ylo, yhi):
    """Smallest closed interval holding every x with ylo <= T(x) <= yhi (both limited to the curve's output range)."""
    n, ch = S["n"], S["comps"]
    col = [S["values"][i * ch + (c if ch == 3 else 0)] for i in range(n)]
    ylo, yhi = min(max(ylo, col[0]), col[-1]), min(max(yhi, col[0]), col[-1])
    i = bisect.bisect_left(col, ylo)
    a = float(i) if col[i] == ylo else i - 1 + (ylo - col[i - 1]) / (col[i] - col[i - 1])
    j = bisect.bisect_right(col, yhi) - 1
    b = float(j) if j == n - 1 or col[j] == yhi else j + (yhi - col[j]) / (col[j + 1] - col[j])
    lo, hi = S["range"]
    return lo + a / (n - 1.0) * (hi - lo), lo + b / (n - 1.0) * (hi - lo)


def half_below_above(y):
    h = float(np.float16(y))
    if not math.isfinite(h):
        h = math.copysign(65504.0, y)
    a = h if h <= y else float(np.nextafter(np.float16(h), np.float16(-np.inf)))
    b = h if h >= y else float(np.nextafter(np.float16(h), np.float16(np.inf)))
    return a, b


def bounds(S, method, c, y):
    vs = S["values"]
    ymin, ymax = min(vs), max(vs)
    e = 4e-7 * (abs(y) + abs(ymin) + abs(ymax))
    lo, hi = S["range"]
    tol = 1e-6 * (abs(lo) + abs(hi))
    if method == "halfdomain":
        a, b = half_below_above(y - e)[0], half_below_above(y + e)[1]
        x0, x1 = preimage(S, c, a, b)
        # the table may hold half floats
        tol += 2.0 ** -10 * max(abs(x0), abs(x1)) + 2.0 ** -24
        return x0 - tol, x1 + tol
    if method == "resampled":
        e += (ymax - ymin) / (2.0 * S["n"] - 1)
    x0, x1 = preimage(S, c, y - e, y + e)
    return x0 - tol, x1 + tol


def run(case, ctx):
    L = LIB[0]
    S = case["S"]
    p = ctx.path("a.spi1d")
    with open(p, "w", newline="") as fh:
        fh.write(lutio.spi1d(random.Random(case["es"]), S))
    inv = call("inverse:read", L.Registry.read, p, True, **METHODS[case["method"]])
    fwd = call("inverse:read", L.Registry.read, p)
    m = "indexmap" if case["method"] in ("indexmap2", "default") else case["method"]
    ctx.obs("method_" + m)
    ctx.obs("flat_luts", int(case["flat"]))
    if m == "resampled":
        res = [q.getLUTDimensions()[0] for q in inv.getProcesses() if q.getNodeType() == "LUT1D"]
        if not res or max(res) < 2 * S["n"]:
            fail("inverse:resolution", "a LUT of %d entries is resampled to %s entries", S["n"], res)

    def check(px, what, target=None):
        got = process(inv, list(px), key="inverse")
        if len(got) != 3:
            fail("inverse:length", "%d values", len(got))
        for c in range(3):
            lo, hi = bounds(S, m, c, px[c])
            if not lo <= got[c] <= hi:
                fail("inverse:" + m, "%s: channel %d of %r gives %r, must be within %r..%r (n=%d, range %r)", what, c, px, got[c], lo, hi, S["n"], S["range"])
            if target is not None and not case["flat"] and not lo - 1e-6 <= target[c] <= hi + 1e-6 * (1 + abs(hi)):
                fail("inverse:forward", "%s: forward maps %r to %r, whose preimage is %r..%r", what, target[c], px[c], lo, hi)
        ctx.obs("pixels_judged")
        return got
    for px in case["pixels"]:
        check(px, "output value")
        for c in range(3):
            col = S["values"][(c if S["comps"] == 3 else 0)::S["comps"]]
            ctx.obs("outside", int(not col[0] <= px[c] <= col[-1]))
    for x in case["forward"]:
        check(process(fwd, list(x), key="inverse:fwd"), "forward then inverse", x)
        ctx.obs("roundtrips")
    ctx.nontrivial = True
    ctx.seen(m, S["n"], S["comps"], tuple(S["range"]), case["flat"])
