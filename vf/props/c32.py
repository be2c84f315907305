"""Incomplete or inconsistent LUT and CLF files never become a list."""
import gzip, os, random, re, sys
import xml.etree.ElementTree as ET
from .. import env, gen as G, ref, model, lutio
from ..common import load, clf, reset_features
from ..core import fail, call, Skip, Violation
from . import c22
PROP = "C32"
RULE = "one complete .spi1d/.spi3d/.csp/.clf file that is read as a list, and the same file damaged in one place, which must not be"
CASES = dict(quick=4000, thorough=120000)
NEED = dict(complete_files=2300, damaged_spi1d=400, damaged_spi3d=300, damaged_csp=500, damaged_clf=400, reported=400, raised=200, tool_runs=150, damaged_gzip=15)
LIB = []


def setup():
    reset_features()
    LIB.append(load("aces.lutFormats"))
    LIB.append(load("aces.convertLUTtoCLF"))


def gen(g, tier, i):
    fmt = g.choice(["spi1d", "spi3d", "csp", "csp", "clf"])
    if fmt == "clf":
        t = g.choice(["LUT1D", "LUT1D", "LUT3D", "Matrix"])
        nodes = G.chain(g, g.randrange(0, 2), rows=3)
        n = G.node(g, t, rows=3)
        if t == "LUT1D" and n.get("halfDomain"):
            n.pop("halfDomain")
        if len(n["values"]) > 5000:
            n = G.node(g, "Matrix", rows=3)
        k = g.randrange(len(nodes) + 1)
        nodes.insert(k, n)
        nodes = [x for x in nodes if x is n or len(x.get("values", [])) < 5000]
        if g.random() < 0.3:
            nodes = [G.group(g, nodes)]
        return dict(fmt=fmt, nodes=nodes, seed=g.randrange(1 << 40), gz=g.random() < 0.35, strict=g.random() < 0.3, cut=g.random() < 0.25)
    while True:
        c = c22.gen(g, tier, i)
        if c["S"]["fmt"] == fmt:
            break
    return dict(fmt=fmt, S=c["S"], es=c["es"], ext=c["ext"], seed=g.randrange(1 << 40), tool=g.random() < 0.12, raw=g.random() < 0.3, inverse=fmt == "spi1d" and g.random() < 0.3)


# ------------------------------------------------------------------ damage
def bump(g, n):
    "another count"
    return g.choice([n + 1, n + 1, max(0, n - 1), n * 2, n + g.randrange(1, 50), 0 if n else 1])


def number_lines(ls, first):
    return [k for k in range(first, len(ls)) if ls[k].strip() and ls[k].strip() not in "{}"]


def sample_damage(g, ls, rows, width):
    """One of the damages any table of sample lines can take; rows are the positions of its lines in ls."""
    kind = g.choice(["drop", "drop", "cut", "cut", "cutline", "extra", "repeat", "short", "long", "word"])
    k = g.choice(rows)
    ls = list(ls)
    if kind == "drop":
        for q in sorted(g.sample(rows, min(len(rows), g.choice([1, 1, 2, 5]))), reverse=True):
            del ls[q]
    elif kind == "cut":
        ls = ls[:k]
    elif kind == "cutline":
        # the text ends within a line, before its last number
        toks = list(re.finditer(r"\S+", ls[k]))
        ls = ls[:k] + [ls[k][:toks[g.randrange(len(toks))].start()]]
    elif kind == "extra":
        # (the end of the text may lie beyond a closing brace)
        at = g.choice([rows[-1] + 1, k, len(ls)])
        ls[at:at] = [ls[g.choice(rows)]] * g.choice([1, 1, 3])
    elif kind == "repeat":
        ls.insert(k, ls[k])
    elif kind == "short":
        t = ls[k].split()
        del t[g.randrange(len(t))]
        ls[k] = " ".join(t)
    elif kind == "long":
        ls[k] = ls[k].rstrip() + " " + g.choice(["0.5", "0", "1e-3"])
    else:
        t = ls[k].split()
        t[g.randrange(len(t))] = g.choice(["x", "0.1.2", "--1", "1,5", "0x1p"])
        ls[k] = " ".join(t)
    return ls, kind


def damage_spi1d(g, S, ls):
    head = {ls[k].split()[0]: k for k in range(len(ls)) if ls[k].split() and ls[k].split()[0] in ("Version", "From", "Length", "Components")}
    k = g.randrange(10)
    if k < 6:
        return sample_damage(g, ls, number_lines(ls, max(head.values()) + 1), S["comps"])
    ls = list(ls)
    if k < 8:
        ls[head["Length"]] = "Length %d" % bump(g, S["n"])
        return ls, "length"
    if k == 8:
        ls[head["Components"]] = "Components %d" % g.choice([c for c in (0, 1, 2, 3, 4) if c != S["comps"]])
        return ls, "components"
    w = g.choice(["Version", "Length", "Components"])
    if w == "Version":
        ls[head[w]] = "Version %d" % g.choice([0, 2, 10])
    else:
        del ls[head[w]]
    return ls, "head"


def damage_spi3d(g, S, ls):
    rows = number_lines(ls, 0)
    h, rows = rows[:3], rows[3:]
    k = g.randrange(10)
    if k < 5:
        return sample_damage(g, ls, rows, 6)
    ls = list(ls)
    if k < 8:
        q = g.choice(rows)
        t = ls[q].split()
        a = g.randrange(3)
        w = g.randrange(3)
        if w == 0:
            # some other line's place
            t[:3] = ls[g.choice([r for r in rows if ls[r].split()[:3] != t[:3]])].split()[:3]
        elif w == 1:
            t[a] = str(S["dim"][a] + g.choice([0, 0, 1, 7]))
        else:
            t[a] = str(-1 - g.randrange(S["dim"][a]))
        ls[q] = " ".join(t)
        return ls, "index"
    if k == 8:
        d = list(S["dim"])
        a = g.randrange(3)
        d[a] = bump(g, d[a])
        ls[h[2]] = " ".join(map(str, d))
        return ls, "dim"
    ls[h[0]] = g.choice(["SPILUT 2.0", "SPILUT 0.5", "LUT 1.0", ""])
    return ls, "head"


def damage_csp(g, S, ls):
    pos = number_lines(ls, 0)
    count = S["dim"][0] if S["kind"] == "1D" else S["dim"][0] * S["dim"][1] * S["dim"][2]
    rows = pos[-count:]
    size, pre = pos[-count - 1], pos[-count - 10:-count - 1]
    k = g.randrange(12)
    if k < 6:
        return sample_damage(g, ls, rows, 3)
    ls = list(ls)
    if k < 8:
        d = list(S["dim"])
        w = g.randrange(10)
        if w == 0:
            d = d[:-1] or d + [1]
        elif w == 1:
            d = d + [g.choice([1, 2, d[0]])] * g.choice([1, 2, 2])
        else:
            a = g.randrange(len(d))
            d[a] = bump(g, d[a])
        ls[size] = " ".join(map(str, d))
        return ls, "dim"
    if k < 10:
        c = g.randrange(3)
        w = g.randrange(3)
        if w == 0:
            ls[pre[3 * c]] = "%d" % bump(g, len(S["preluts"][c][0]))
        else:
            t = ls[pre[3 * c + w]].split()
            if g.random() < 0.5 and len(t) > 1:
                t.pop()
            else:
                t.append("9")
            ls[pre[3 * c + w]] = " ".join(t)
        return ls, "prelut"
    if k == 10:
        ls[pos[0]] = g.choice(["CSPLUTV200", "CSPLUT", "LUT"])
        return ls, "head"
    if g.random() < 0.5:
        ls[pos[1]] = {"1D": "3D", "3D": "1D"}[S["kind"]]
    else:
        ls[pos[1]] = g.choice(["2D", "4D", "D"])
    return ls, "kind"


def damage_clf(g, data):
    """Another number of values in one array, or another declared size."""
    root = ET.fromstring(data)
    arrays = [e for e in root.iter() if model.local(e.tag) == "Array" and e.get("dim") and e.text]
    maps = [e for e in root.iter() if model.local(e.tag) == "IndexMap"]
    if maps and g.random() < 0.5:
        e = g.choice(maps)
        prs = e.text.split()
        k = g.randrange(7)
        q = g.randrange(len(prs))
        if k == 0:
            e.set("dim", str(bump(g, len(prs))))
            return ET.tostring(root), "index map dim"
        if k == 1:
            del prs[g.choice([-1, 0, q])]
        elif k == 2:
            prs.insert(q, prs[q])
        elif k == 3:
            # half a pair
            prs[q] = g.choice(prs[q].split("@"))
        elif k == 4:
            prs[q] += "@" + g.choice(["0", "1.5", ""])
        elif k == 5:
            prs[q] = g.choice(["x@1", "1@x", "@1", "1@", "@", "1.0.0@2", "0@1,5"])
        else:
            prs[q] = prs[q].replace("@", g.choice([",", "", " ", "#"]))
        e.text = " ".join(prs)
        return ET.tostring(root), "index map"
    if not arrays:
        raise Skip("no array")
    e = g.choice(arrays)
    vals = e.text.split()
    d = list(map(int, e.get("dim").split()))
    k = g.randrange(4)
    if k == 3:
        # the last number of a matrix' three is not a count of values
        a = g.randrange(2 if len(d) == 3 else len(d))
        d[a] = g.choice([d[a] + 1, d[a] * 2, max(1, d[a] - 1), d[a] + g.randrange(1, 9)])
        new = 1
        for x in (d[:2] if len(d) == 3 else d):
            new *= x
        if new == len(vals):
            raise Skip("same size")
        e.set("dim", " ".join(map(str, d)))
        return ET.tostring(root), "dim"
    if k == 0:
        for _ in range(g.choice([1, 1, 2, 3, len(vals) // 2 or 1])):
            if vals:
                vals.pop(g.choice([-1, 0, g.randrange(len(vals))]))
        w = "values missing"
    elif k == 1:
        for _ in range(g.choice([1, 1, 3, len(vals)])):
            vals.insert(g.randrange(len(vals) + 1), g.choice(vals))
        w = "values left over"
    else:
        vals[g.randrange(len(vals))] = g.choice(["x", "1.2.3", "--4", "1,5"])
        w = "word"
    e.text = " ".join(vals)
    return ET.tostring(root), w


# ------------------------------------------------------------------ reading
def attempt(fn, *a, **k):
    """-> (result or None, how it was refused)"""
    with env.capture() as b:
        try:
            r = fn(*a, **k)
        except Exception as e:
            return None, "raised"
        except SystemExit as e:
            return None, "raised"
    if r:
        return r, None
    return None, "reported" if b.getvalue().strip() else "silent"


def run(case, ctx):
    reset_features()
    g = random.Random(case["seed"])
    (clf_case if case["fmt"] == "clf" else lut_case)(case, ctx, g)
    ctx.nontrivial = True


def clf_case(case, ctx, g):
    c = clf()
    data = model.emit(case["nodes"], random.Random(case["seed"]))
    if case["cut"]:
        # the file ends early
        bad, kind = data[:g.choice([g.randrange(len(data)), len(data) - 1 - g.randrange(min(len(data), 40))])], "cut"
        try:
            ET.fromstring(bad)
            raise Skip("still a complete file")
        except ET.ParseError:
            pass
    else:
        bad, kind = damage_clf(g, data)
    if bad == data:
        raise Skip("same file")
    files = [gzip.compress(x) if case["gz"] else x for x in (data, bad)]
    if case["cut"] and case["gz"]:
        # (the last eight bytes are its checksum and length)
        files[1] = files[0][:-g.choice([1, 4, 7, 8, g.randrange(1, 9)])] if g.random() < 0.4 else files[0][:g.randrange(1, len(files[0]))]
        if g.random() < 0.2:
            w = bytearray(files[0])
            w[-g.randrange(1, 9)] ^= 1 << g.randrange(8)
            files[1] = bytes(w)
        ctx.obs("damaged_gzip")
    p, q = ctx.path("a.clf"), ctx.path("b.clf")
    for path, x in zip((p, q), files):
        with open(path, "wb") as fh:
            fh.write(x)
    call("complete:clf", c.ProcessList, p, strict=case["strict"])
    ctx.obs("complete_files")
    got, how = attempt(c.ProcessList, q, strict=case["strict"])
    ctx.obs("damaged_clf")
    if got is not None:
        fail("damaged:clf", "%s: a list was read from a file with %s (dims %s)", [n["t"] for n in case["nodes"]], kind, re.findall(r'dim="([^"]*)"', bad.decode("latin-1")))
    ctx.obs(how)
    ctx.seen("clf", kind, how, case["gz"], case["strict"])


def lut_case(case, ctx, g):
    L, S, fmt = LIB[0], case["S"], case["fmt"]
    text = getattr(lutio, fmt)(random.Random(case["es"]), S)
    nl = "\r\n" if "\r\n" in text else "\n"
    ls = text.split(nl)
    bad, kind = dict(spi1d=damage_spi1d, spi3d=damage_spi3d, csp=damage_csp)[fmt](g, S, ls)
    reader = getattr(lutio, "read_" + fmt)
    try:
        reader(nl.join(bad))
        raise Skip("still a complete file")
    except Skip:
        raise
    except Exception:
        pass
    p, q = ctx.path("a." + case["ext"]), ctx.path("b." + case["ext"])
    for path, x in ((p, ls), (q, bad)):
        with open(path, "w", newline="") as fh:
            fh.write(nl.join(x))
    kw = dict(returnProcessNodes=True) if case["raw"] else {}
    # (flat or decreasing tables have no inverse)
    got, how = attempt(L.Registry.read, p, **kw)
    if got is None:
        fail("complete:" + fmt, "a complete file was refused (%s)", how)
    ctx.obs("complete_files")
    if case["inverse"]:
        kw["inverse"] = True
    got, how = attempt(L.Registry.read, q, **kw)
    ctx.obs("damaged_" + fmt)
    if got is not None:
        fail("damaged:" + fmt, "a list was read from a file damaged by %r: %r", kind, nl.join(bad)[:500])
    if how == "silent":
        fail("silent:" + fmt, "nothing was read from a file damaged by %r, without an error or a message: %r", kind, nl.join(bad)[:500])
    ctx.obs(how)
    if case["tool"]:
        out = ctx.path("out.clf")
        old, olderr = sys.argv, sys.stderr
        sys.argv, sys.stderr = ["convertLUTtoCLF", "-l", q, "-c", out], env.null
        try:
            attempt(LIB[1].main)
        finally:
            sys.argv, sys.stderr = old, olderr
        if os.path.exists(out):
            fail("damaged:tool", "convertLUTtoCLF wrote a file for a %s file damaged by %r", fmt, kind)
        ctx.obs("tool_runs")
    ctx.seen(fmt, S.get("kind"), kind, how, case["inverse"], case["raw"])
