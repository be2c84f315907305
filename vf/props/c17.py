"""Float encodings round-trip every bit pattern."""
import random, struct
import numpy as np
from .. import gen as G, nodecheck, ref, model
from ..common import clf, run as process, reset_features
from ..core import fail, Skip, call
from . import c15
PROP = "C17"
RULE = "an array of arbitrary bit patterns written with an encoding (and read back), or read from independently encoded text"
CASES = dict(quick=800, thorough=30000)
NEED = dict(patterns_written=20000, patterns_read=20000, nans=100, infinities=100, all_halves=2, decimals=2000)
FMT = {"integer16bit": ("int", np.float16, np.uint16), "hex16bit": ("hex", np.float16, np.uint16), "integer32bit": ("int", np.float32, np.uint32),
       "hex32bit": ("hex", np.float32, np.uint32), "integer64bit": ("int", np.float64, np.uint64), "hex64bit": ("hex", np.float64, np.uint64), "raw": ("int", np.float16, np.uint16)}
ENCS = list(FMT)


def gen(g, tier, i):
    every = 100000 if tier == "quick" else 3000
    if i % every in (3, 4, 5):
        return dict(all=["raw", "integer16bit", "hex16bit"][i % every - 3], channels=1 if tier == "quick" else g.choice([1, 3]), kind="LUT1D")
    kind = g.choice(["LUT1D", "LUT1D", "LUT3D", "Matrix"])
    enc = g.choice(ENCS if kind == "LUT1D" else ENCS[:-1])
    if g.random() < 0.15:
        enc = "decimal"
    return dict(kind=kind, enc=enc, vs=g.randrange(1 << 30), n=g.choice([2, 3, 8, 20]), channels=g.choice([1, 3]), rows=g.choice([3, 4]), aff=g.choice([0, 1]),
                case=g.choice(["lower", "upper", "mixed"]), dim=[g.randrange(2, 4) for _ in range(3)], wide=g.random() < 0.3, gz=g.random() < 0.2, out=g.choice(["16f", "32f", "10i"]))


def values(case, n):
    g = random.Random(case["vs"])
    if case["enc"] == "decimal":
        return [g.choice([g.uniform(-2, 2), g.uniform(-65535, 65535), 10 ** g.uniform(-9, 4), 0.0, -0.0, 1e-9, 123456789.25, float(g.randrange(70000))]) for _ in range(n)]
    _, ft, ut = FMT[case["enc"]]
    bits = np.dtype(ut).itemsize * 8
    out = []
    for _ in range(n):
        k = g.randrange(8)
        if k < 4:
            b = g.getrandbits(bits)
        elif k == 4:
            b = g.getrandbits({16: 10, 32: 23, 64: 52}[bits]) | (g.getrandbits(1) << (bits - 1))          # denormals
        elif k == 5:
            b = g.choice([0, 1 << (bits - 1), 1, (1 << (bits - 1)) | 1])
        elif k == 6:
            e = {16: 0x7c00, 32: 0x7f800000, 64: 0x7ff0000000000000}[bits]
            b = g.choice([e, e | 1 << (bits - 1), e - 1, (e - 1) | 1 << (bits - 1), e | 1, e | (1 << (bits - 1)) | 5, e | e >> 1 | 1])
        else:
            b = int(np.array([g.uniform(-2, 2)]).astype(ft).view(ut)[0])
        x = float(np.array([b], dtype=ut).view(ft)[0])
        if case["wide"] and bits < 64:
            # a value that the encoding has to round
            x = g.choice([g.uniform(-3, 3), g.uniform(-70000, 70000) if bits == 16 else g.uniform(-1e30, 1e30), 10 ** g.uniform(-9, 3), 65504.0, 65519.0, 2048.5, 0.1])
        # non-finite entries make sense for floating-point output depths only
        out.append(x if case.get("out") != "10i" or abs(x) < 1e300 else 0.5)
    return out


def build(case, vals, c):
    d = case["out"] if "out" in case else "16f"
    s = {"t": case["kind"], "in": "16f", "out": d, "id": "e", "name": "e", "values": vals}
    if case["kind"] == "Matrix":
        s["dim"] = [case["rows"], case["rows"] + case["aff"], 3]
    elif case["kind"] == "LUT3D":
        s["dim"] = case["dim"]
    else:
        s["channels"] = case["channels"]
    if case["enc"] == "raw":
        s["rawHalfs"] = True
    elif case["enc"] != "decimal":
        s["enc"] = case["enc"]
    return s


def rounded(enc, x):
    _, ft, ut = FMT[enc]
    with np.errstate(all="ignore"):
        return np.array([x], dtype=np.float64).astype(ft)[0]


def getvalues(n, s, key):
    if s["t"] == "Matrix":
        import xml.etree.ElementTree as ET
        return None
    return [x for x in call(key, n.getLUTValues)]


def run(case, ctx):
    c = clf()
    reset_features()
    if "all" in case:
        h = np.arange(65536, dtype=np.uint16).view(np.float16)
        vals = [float(x) for x in h] * case["channels"]
        case = dict(case, enc=case["all"], case="lower", gz=False, out="16f")
        ctx.obs("all_halves")
    else:
        n = {"Matrix": case["rows"] * (case["rows"] + case["aff"]), "LUT3D": case["dim"][0] * case["dim"][1] * case["dim"][2] * 3}.get(case["kind"], case["n"] * case["channels"])
        vals = values(case, n)
    s = build(case, vals, c)
    pl = model.make([s], c, "encoding:build")
    p = ctx.path("e.clf")
    call("encoding:write", pl.writeFile, p, False, case["gz"])
    try:
        import xml.etree.ElementTree as ET
        data, _ = model.read_bytes(p)
        el = [e for e in ET.fromstring(data).iter() if model.local(e.tag) == "Array"]
        toks = el[0].text.split()
    except Exception as e:
        fail("encoding:malformed", "%s: %s", type(e).__name__, e)
    if len(el) != 1 or len(toks) != len(vals):
        fail("encoding:count", "%d Array elements, %d tokens for %d values", len(el), len(toks), len(vals))
    enc = case["enc"]
    if el[0].get("floatEncoding", "string") not in ({"raw": ("string", "integer16bit"), "decimal": ("string",)}.get(enc, (enc,))):
        fail("encoding:attribute", "floatEncoding %r for %s", el[0].get("floatEncoding"), enc)
    back = call("encoding:read", c.ProcessList, p)
    check_values(back, s, case, vals, ctx, "read back")
    if enc == "decimal":
        for t, v in zip(toks, vals):
            try:
                x = float(t)
            except ValueError:
                fail("encoding:notation", "%r written for %r", t, v)
            if abs(x - v) > 0.6e-9 + 1.2e-16 * abs(v):
                fail("encoding:decimal", "%r written for %r", t, v)
            ctx.obs("decimals")
    else:
        kind, ft, ut = FMT[enc]
        width = np.dtype(ut).itemsize * 2
        for t, v in zip(toks, vals):
            want = rounded(enc, v)
            ok = (t.isdigit() if kind == "int" else len(t) == width and all(ch in "0123456789abcdefABCDEF" for ch in t))
            if not ok:
                fail("encoding:notation", "%s token %r for %r", enc, t, v)
            b = int(t, 10 if kind == "int" else 16)
            if b >> (width * 4):
                fail("encoding:notation", "%s token %r for %r is too large", enc, t, v)
            got = np.array([b], dtype=ut).view(ft)[0]
            if np.isnan(want):
                if not np.isnan(got):
                    fail("encoding:bits", "%s token %r for a NaN", enc, t)
                ctx.obs("nans")
            elif b != int(np.array([want]).view(ut)[0]):
                fail("encoding:bits", "%s token %r for %r, whose bits are %d", enc, t, v, int(np.array([want]).view(ut)[0]))
            ctx.obs("patterns_written")
            ctx.obs("infinities", int(np.isinf(want)))
        # the same array, encoded independently, in any letter case
        data = model.emit([dict(s, values=[float(rounded(enc, v)) for v in vals])])
        if kind == "hex" and case["case"] != "lower":
            g = random.Random(case.get("vs", 1))
            old = " ".join(model.encode(enc, float(rounded(enc, v))) for v in vals)
            new = old.upper() if case["case"] == "upper" else "".join(ch.upper() if g.random() < 0.5 else ch for ch in old)
            data = data.replace(old.encode(), new.encode())
        q = ctx.path("i.clf")
        with open(q, "wb") as fh:
            fh.write(data)
        check_values(call("encoding:read", c.ProcessList, q), s, case, vals, ctx, "independently encoded (%s case)" % case["case"])
    ctx.nontrivial = True
    ctx.seen(case["kind"], enc, case["case"], s["out"])


def check_values(pl, s, case, vals, ctx, what):
    enc = case["enc"]
    n = pl.getProcesses()[0]
    if s["t"] == "Matrix":
        # a matrix has no accessor for its entries: the next document shows them
        p2 = ctx.path("m.clf")
        call("encoding:write", pl.writeFile, p2)
        D, _ = c15.parsed(p2, "encoding")
        got = D["nodes"][0]["values"]
        if D["nodes"][0]["encoding"] != (enc if enc != "decimal" else None):
            fail("encoding:attribute", "%s: encoding %r became %r", what, enc, D["nodes"][0]["encoding"])
    else:
        got = [float(x) for x in call("encoding:values", n.getLUTValues)]
    if len(got) != len(vals):
        fail("encoding:count", "%s: %d values instead of %d", what, len(got), len(vals))
    for x, v in zip(got, vals):
        if enc == "decimal":
            if abs(x - v) > 1.1e-9 + 1.3e-7 * abs(v):
                fail("encoding:decimal", "%s: %r instead of %r", what, x, v)
            continue
        w = float(rounded(enc, v))
        if w != w:
            if x == x:
                fail("encoding:value", "%s %s: NaN became %r", what, enc, x)
        elif struct.pack(">d", x) != struct.pack(">d", w):
            fail("encoding:value", "%s %s: %r instead of %r", what, enc, x, w)
        ctx.obs("patterns_read")
