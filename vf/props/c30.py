"""Information printing reports what the list really contains."""
import os, random, re, sys
import numpy as np
from .. import env, gen as G, model, nodecheck, ref
from ..common import clf, load, reset_features
from ..core import fail, call, Violation
from . import c15, c29
PROP = "C30"
RULE = "one list (built, read, or written and read back, by the method or by the info tool) whose printed information is parsed and compared, block by block, with the list's specification"
CASES = dict(quick=1600, thorough=60000)
NEED = dict(lists=1200, blocks=3500, attributes=9000, short_tables=400, long_tables=150, rows=4000, maps=150, long_maps=40, values=1500, texts=1500, references=60, groups=150, tool=150, dynamic=150)
TYPE = dict(CDL=("ASCCDL", "ASC_CDL"), CC=("ColorCorrection",), EC=("ExposureContrast",))
FIELDS = dict(minIn="minInValue", maxIn="maxInValue", minOut="minOutValue", maxOut="maxOutValue")
DEPTHS = ["8i", "10i", "12i", "16i", "16f", "32f"]
TOOL = []
# what is in force when the document does not say it
DEFAULTS = dict(LUT1D=("interpolation : linear",), LUT3D=("interpolation : trilinear",))


def setup():
    clf()
    TOOL.append(c29.script_main(os.path.join(env.REPO, "python", "bin", "clfinfo")))


def table(g, rows, cols, depth):
    k = g.randrange(4)
    big = ref.size(depth)
    if k == 0:
        return [round(g.uniform(-2, 2), 6) for _ in range(rows * cols)]
    if k == 1:
        return [float(g.randrange(-3, int(big) + 3)) for _ in range(rows * cols)]
    if k == 2:
        return [g.choice([0.5, -0.25, 1e-7, 123456.75, 0.0, 1.0, 1023.5, -7.0, 65504.0]) for _ in range(rows * cols)]
    return [G.f32(g.random() * big) for _ in range(rows * cols)]


def big_node(g):
    """LUTs and matrices around the sizes where the table is cut."""
    out = g.choice(DEPTHS)
    base = {"in": g.choice(DEPTHS), "out": out, "id": "b%d" % g.randrange(1000), "name": "big"}
    k = g.randrange(5)
    if k < 3:
        ch, n = g.choice([1, 3, 3]), g.choice([2, 3, 9, 10, 11, 11, 12, 13, 20, 50, 256])
        s = dict(base, t="LUT1D", channels=ch, values=table(g, n, ch, out), interp=g.choice([None, "linear"]))
    elif k == 3:
        d = g.choice([[2, 2, 2], [2, 2, 3], [5, 2, 2], [3, 3, 3], [2, 5, 2], [1, 2, 5], [11, 1, 1]])
        d = [max(2, x) for x in d]
        s = dict(base, t="LUT3D", dim=d, values=table(g, d[0] * d[1] * d[2], 3, out), interp=g.choice([None, "trilinear", "tetrahedral"]))
    else:
        d = g.choice([[3, 3, 3], [3, 4, 3], [4, 4, 4], [4, 5, 4]])
        return dict(base, t="Matrix", dim=d, values=table(g, d[0], d[1], out))
    if g.random() < 0.6:
        m = g.choice([2, 3, 13, 14, 15, 15, 16, 17, 40])
        n = len(s["values"]) // (s["channels"] if s["t"] == "LUT1D" else 3)

        def imap():
            xs = sorted(set(round(g.uniform(-1, 2), 5) for _ in range(m)))
            while len(xs) < m:
                xs.append(round(xs[-1] + 0.1, 5))
            if g.random() < 0.3:
                # all the digits that are printed
                xs = [round(x + g.uniform(-4e-6, 4e-6), 9) for x in xs]
            return [xs, sorted(g.randrange(2) for _ in range(m))]
        s["imaps"] = [imap() for _ in range(g.choice([1, 3]))]
    return s


def text(g):
    if g.random() < 0.05:
        return " ".join(g.choice(["long", "text", "about", "a", "transform,", "with", "notes", "1.0"]) for _ in range(g.randrange(12, 120)))
    return g.choice(["plain text", "a : b", "Attribute : id : fake", "x", "Description", "123", "tab and  spaces", "<&>\"'", "\u00e9\u4e2d"])


def deco(g, s):
    if g.random() < 0.5:
        s["desc"] = [text(g) for _ in range(g.choice([1, 1, 2, 3]))]
    if g.random() < 0.25:
        s["dyn"] = [g.choice(["EXPOSURE", "CONTRAST", "GAMMA", "x y"]) for _ in range(g.choice([1, 2]))]
    if g.random() < 0.25:
        s["attrs"] = {g.choice(["vendor", "note", "rev.2"]): g.choice(["a b", "1", "zz"]) for _ in range(2)}
    if g.random() < 0.2:
        s["bypass"] = g.choice([True, False, "true", "false"])
    for c in s.get("nodes") or []:
        deco(g, c)


def gen(g, tier, i):
    nodes = []
    for _ in range(g.randrange(0, 4)):
        nodes.append(big_node(g) if g.random() < 0.45 else G.node(g, None, g.choice(DEPTHS), g.choice(DEPTHS), rows=3))
    nodes = G.nest(g, nodes, 0.5)
    if g.random() < 0.02:
        n = 65536
        nodes.append({"t": "LUT1D", "in": "16f", "out": "16f", "id": "h", "name": "half", "channels": 1, "values": G.half_codes_values(g) if hasattr(G, "half_codes_values") else [float(np.float16(j % 1000)) for j in range(n)], "halfDomain": True, "rawHalfs": g.choice([True, False])})
    k = 0
    for j in range(len(nodes)):
        if g.random() < 0.15 and nodes[j]["t"] != "Group":
            nodes[j] = {"t": "Reference", "file": "ref%d.clf" % k, "nodes": [nodes[j]], "in": nodes[j].get("in") or "16f", "out": nodes[j].get("out") or "16f", "es": 0, "split": g.random() < 0.5, "id": "r", "name": "ref %d" % k}
            k += 1
    if g.random() < 0.08:
        nodes.append({"t": "Reference", "path": "/nonexistent/x.clf", "nodes": None, "in": "16f", "out": "32f", "basePath": g.choice(["", "/nonexistent"]), "alias": g.choice(["", "al"]), "id": "r", "name": "lost"})
    for s in G.flatten(nodes):
        if s["t"] == "Gamma" and g.random() < 0.4:
            for q in s["params"]:
                q[1] = g.choice([0.0, 0.0, round(g.uniform(0, 0.3), 4)])
    if g.random() < 0.01:
        nodes += [G.node(g, g.choice(["Matrix", "Range", "CDL"]), "16f", "16f", rows=3) for _ in range(g.randrange(45, 70))]
    for s in nodes:
        deco(g, s)
    attrs = dict(id="list id", name=g.choice(["list", "a name"]), compCLFversion=g.choice(["1.2", "2.0"]))
    if g.random() < 0.5:
        attrs[g.choice(["inverseOf", "vendor", "note"])] = g.choice(["other", "x y"])
    elems = []
    for _ in range(g.randrange(5)):
        q = g.choice(["desc", "desc", "in", "out", "info"])
        if q == "info":
            a = g.choice(["", text(g)])
            elems.append(["info", a, text(g) if not a else g.choice(["", text(g)])])
            if g.random() < 0.3:
                elems[-1] += ["", 0, [[g.choice(["AppRelease", "Copyright", "Release"]), text(g)] for _ in range(g.choice([1, 2, 5, 12, 30]))]]
        else:
            elems.append([q, text(g)])
    via = g.choice(["api", "api", "file", "file", "roundtrip", "tool", "tool"])
    vals = {"Custom%d" % q: g.choice(["1.5", "some text", "a much longer text about what this list of processes is meant for"]) for q in range(g.randrange(3))} if via == "api" and g.random() < 0.3 else {}
    return dict(L=dict(attrs=attrs, elems=elems, nodes=nodes, vals=vals), via=via, es=g.randrange(1 << 30))


# ------------------------------------------------------------------ reading the printed text
NUM = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|inf|nan)"


def squash(s):
    return " ".join(str(s).split())


def floats(s):
    return [float(x) for x in re.findall(NUM, s)]


def blocks(out):
    """[(heading, [lines])] ; lines are whitespace-collapsed, empty ones and the "Process Nodes" heading dropped."""
    res = []
    for line in out.splitlines():
        line = squash(line)
        if line == "ProcessList" or line.startswith("ProcessNode type :"):
            res.append((line, []))
        elif line and line != "Process Nodes":
            if not res:
                fail("info:text", "information starts with %r", line)
            res[-1][1].append(line)
    return res


LABELS = ("Attribute", "Element", "Dynamic Parameter", "Description", "InputDescriptor", "OutputDescriptor", "Info", "AppRelease", "Copyright", "Release", "Value", "Resolved Path")


def parse(lines, what):
    d = dict(Attribute=[], Element=[], Value={}, seq=[], arrays=[], maps=[], path=None)
    d["Dynamic Parameter"] = []
    k = 0
    while k < len(lines):
        l = lines[k]
        k += 1
        if l == "Array":
            a = dict(dim=None, rows=[], cut=None)
            while k < len(lines):
                q = lines[k]
                if q.startswith("Dimensions :"):
                    a["dim"] = [int(x) for x in re.findall(r"\d+", q)]
                elif q == "Values":
                    pass
                elif q == "...":
                    a["cut"] = len(a["rows"])
                elif re.fullmatch("(?:%s ?)+" % NUM, q):
                    a["rows"].append(floats(q))
                else:
                    break
                k += 1
            d["arrays"].append(a)
        elif l == "IndexMap":
            m = dict(len=None, pairs=[], cut=None)
            while k < len(lines):
                q = lines[k]
                if q.startswith("Length :"):
                    m["len"] = int(q.split(":")[1])
                elif q == "Values":
                    pass
                elif q == "...":
                    m["cut"] = len(m["pairs"])
                elif q.startswith("map :"):
                    f = floats(q[5:])
                    m["pairs"] += list(zip(f[::2], f[1::2]))
                elif re.fullmatch("%s ?, ?%s" % (NUM, NUM), q):
                    m["pairs"].append(tuple(floats(q)))
                else:
                    break
                k += 1
            d["maps"].append(m)
        else:
            label, _, rest = l.partition(" :")
            rest = rest.strip()
            if label in ("Attribute", "Element"):
                d[label].append(rest)
            elif label == "Dynamic Parameter":
                d[label].append(rest)
            elif label == "Value":
                n, _, v = rest.partition(" : ")
                d["Value"][squash(n)] = floats(v)
            elif label == "Resolved Path":
                d["path"] = rest
            elif l == "Info" or label in LABELS:
                d["seq"].append(l)
            else:
                fail("info:text", "%s: unexpected line %r", what, l)
    return d


# ------------------------------------------------------------------ what must be there
def near(a, b):
    return a == b or a != a and b != b or abs(a - b) <= 6e-10 + 2e-7 * abs(b)


def check_table(a, dim, vals, cols, what, ctx):
    if a["dim"] != dim:
        fail("info:dimensions", "%s: dimensions %s instead of %s", what, a["dim"], dim)
    rows = [vals[k:k + cols] for k in range(0, len(vals), cols)]
    if len(rows) > 10:
        if a["cut"] != 3:
            fail("info:table", "%s: a table of %d rows is cut after %s rows", what, len(rows), a["cut"])
        rows = rows[:3] + rows[-3:]
        ctx.obs("long_tables")
    else:
        if a["cut"] is not None:
            fail("info:table", "%s: a table of %d rows is cut", what, len(rows))
        ctx.obs("short_tables")
    if len(a["rows"]) != len(rows):
        fail("info:table", "%s: %d rows printed, should be %d", what, len(a["rows"]), len(rows))
    for x, y in zip(a["rows"], rows):
        if len(x) != len(y) or not all(near(p, q) for p, q in zip(x, y)):
            fail("info:values", "%s: row %s instead of %s", what, x, y)
    ctx.obs("rows", len(rows))


def check_map(m, want, what, ctx):
    pairs = list(zip(*want))
    if m["len"] != len(pairs):
        fail("info:map", "%s: index map of length %s instead of %d", what, m["len"], len(pairs))
    if len(pairs) >= 15:
        if m["cut"] != 3:
            fail("info:map", "%s: an index map of length %d is cut after %s", what, len(pairs), m["cut"])
        pairs = pairs[:3] + pairs[-3:]
        ctx.obs("long_maps")
    elif m["cut"] is not None:
        fail("info:map", "%s: an index map of length %d is cut", what, len(pairs))
    if len(m["pairs"]) != len(pairs) or not all(near(x, y) for p, q in zip(m["pairs"], pairs) for x, y in zip(p, q)):
        fail("info:map", "%s: index map %s instead of %s", what, m["pairs"], pairs)
    ctx.obs("maps")


def node_attrs(s):
    w = {}
    if s.get("id"):
        w["id"] = s["id"]
    if s.get("name"):
        w["name"] = s["name"]
    if s.get("in"):
        w["inBitDepth"], w["outBitDepth"] = s["in"], s["out"]
    w.update(s.get("attrs", {}))
    for k, a in (("style", "style"), ("interp", "interpolation")):
        if s.get(k) is not None:
            w[a] = s[k]
    if s["t"] == "Reference":
        for k in ("path", "basePath", "alias"):
            if s.get(k):
                w[k] = s[k]
    return w


def check_attrs(got, want, doc, what, ctx, allow=None):
    """Everything in want and (for lists read from a document) everything in the document is printed, nothing else is."""
    lines = list(got)
    full = dict(doc)
    full.update({k: str(v) for k, v in want.items()})
    for k, v in full.items():
        l = squash("%s : %s" % (k, v))
        low = [q for q in lines if q == l or str(v).lower() in ("true", "false") and q.lower() == l.lower()]
        if len(low) != 1:
            fail("info:attributes", "%s: attribute %s=%r is printed %d times in %s", what, k, v, len(low), got)
        lines.remove(low[0])
        ctx.obs("attributes")
    lines = [l for l in lines if not (allow and allow(l))]
    if lines:
        fail("info:attributes", "%s: attributes %s are printed but not there", what, lines)


def values(s):
    t = s["t"]
    if t in ("CDL", "CC"):
        return {k: [float(x) for x in (s[k] if isinstance(s[k], list) else [s[k]])] for k in ("slope", "offset", "power", "saturation") if s.get(k) is not None and s.get(k) != []}
    if t == "Gamma":
        pc = ref.per_channel(s["params"], [1.0, 0.0])
        return dict(gamma=[p[0] for p in pc], offset=[p[1] for p in pc])
    if t == "Log":
        pc = ref.per_channel(s["params"], [0.6, 685.0, 95.0, 1.0, 0.0])
        return {n: [p[j] for p in pc] for j, n in enumerate(("gamma", "ref white", "ref black", "highlight", "shadow"))}
    if t == "EC":
        p = s.get("params") or [0.0, 1.0, 1.0]
        return dict(exposure=[p[0]], contrast=[p[1]], pivot=[p[2]])
    return {}


def check_node(s, doc, block, ctx, what, read):
    d = parse(block, what)
    check_attrs(d["Attribute"], node_attrs(s), doc["allattrs"] if doc else {}, what, ctx,
                lambda l: squash(l) in DEFAULTS.get(s["t"], ()))
    els = {FIELDS[k]: s[k] for k in FIELDS if s["t"] == "Range" and s.get(k) is not None}
    got = {}
    for l in d["Element"]:
        k, _, v = l.partition(" : ")
        if k in got or k not in els:
            fail("info:elements", "%s: element %r", what, l)
        got[k] = floats(v)
    if set(got) != set(els) or not all(len(got[k]) == 1 and near(got[k][0], els[k]) for k in els):
        fail("info:elements", "%s: value elements %s instead of %s", what, got, els)
    if d["Dynamic Parameter"] != s.get("dyn", []):
        fail("info:dynamic", "%s: dynamic parameters %s instead of %s", what, d["Dynamic Parameter"], s.get("dyn", []))
    ctx.obs("dynamic", len(s.get("dyn", [])))
    want = [squash("Description : %s" % t) for t in s.get("desc", [])]
    if d["seq"] != want:
        fail("info:descriptions", "%s: descriptions %s instead of %s", what, d["seq"], want)
    ctx.obs("texts", len(want))
    t = s["t"]
    if t in ("Matrix", "LUT1D", "LUT3D"):
        if len(d["arrays"]) != 1:
            fail("info:table", "%s: %d tables", what, len(d["arrays"]))
        v = list(s["values"])
        if t == "LUT1D":
            dim, cols = [len(v) // s["channels"], s["channels"]], s["channels"]
        elif t == "LUT3D":
            dim, cols = list(s["dim"]) + [3], 3
        else:
            dim, cols = list(s["dim"]), s["dim"][1]
            if doc and len(doc["arrdim"]) != len(dim):
                dim = doc["arrdim"]
        check_table(d["arrays"][0], dim, v, cols, what, ctx)
        maps = s.get("imaps") or []
        if len(d["maps"]) != len(maps):
            fail("info:map", "%s: %d index maps instead of %d", what, len(d["maps"]), len(maps))
        for m, w in zip(d["maps"], maps):
            check_map(m, w, what, ctx)
    elif d["arrays"] or d["maps"]:
        fail("info:table", "%s: a table in a node that has none", what)
    w = values(s)
    if set(d["Value"]) != set(w) or any(len(d["Value"][k]) != len(w[k]) or not all(near(a, float(b)) for a, b in zip(d["Value"][k], w[k])) for k in w):
        fail("info:parameters", "%s: parameters %s instead of %s", what, d["Value"], w)
    ctx.obs("values", len(w))
    if t == "Reference":
        want = s["path"] if not s.get("basePath") else os.path.join(s["basePath"], s["path"])
        if d["path"] is None or os.path.normpath(d["path"]) != os.path.normpath(want):
            fail("info:path", "%s: resolved path %r instead of %r", what, d["path"], want)
        ctx.obs("references")
    elif d["path"] is not None:
        fail("info:path", "%s: a resolved path", what)
    ctx.obs("blocks")
    ctx.seen(t, read, len(d["maps"]), bool(d["arrays"] and d["arrays"][0]["cut"]))


def check_listblock(block, L, ctx, what):
    d = parse(block, what)
    check_attrs(d["Attribute"], L["attrs"], {}, what, ctx)
    want = sorted(squash("%s : %s" % kv) for kv in L.get("vals", {}).items())
    if sorted(d["Element"]) != want:
        fail("info:elements", "%s: value elements %s instead of %s", what, d["Element"], want)
    seq = []
    for e in L.get("elems", []):
        if e[0] == "info":
            seq.append("Info")
            seq += [squash("%s : %s" % (n, t)) for n, t in model.info_children(e)]
        else:
            seq.append(squash("%s : %s" % (model.ELEM[e[0]], e[1])))
    if d["seq"] != seq:
        fail("info:texts", "%s: descriptions and info %s instead of %s", what, d["seq"], seq)
    ctx.obs("texts", len(seq))
    if d["arrays"] or d["maps"] or d["Value"] or d["path"] or d["Dynamic Parameter"]:
        fail("info:text", "%s: node information in the list's", what)


def walk(nodes, docs, bl, ctx, what, read):
    """Consumes the blocks of the nodes, nested ones directly after their parents."""
    for k, s in enumerate(nodes):
        w = "%s, node %d (%s)" % (what, k, s["t"])
        if not bl:
            fail("info:nodes", "%s: not printed", w)
        head, lines = bl.pop(0)
        names = ["ProcessNode type : " + n for n in TYPE.get(s["t"], (s["t"],))]
        if head not in names:
            fail("info:nodes", "%s: printed as %r", w, head)
        doc = docs[k] if docs else None
        check_node(s, doc, lines, ctx, w, read)
        if s["t"] == "Group":
            walk(s["nodes"], doc["nodes"] if doc else None, bl, ctx, w, read)
            ctx.obs("groups")
        elif s["t"] == "Reference" and s["nodes"] is not None:
            if not bl or bl[0][0] != "ProcessList":
                fail("info:nodes", "%s: the referenced list is not printed", w)
            check_listblock(bl.pop(0)[1], dict(attrs={"id": "t", "name": "t", "compCLFversion": "1.2"}), ctx, w + ", its list")
            walk(s["nodes"], None, bl, ctx, w, read) if not s.get("docs") else walk(s["nodes"], s["docs"], bl, ctx, w, read)


def run(case, ctx):
    c = clf()
    reset_features()
    L = dict(case["L"])
    L["nodes"] = nodecheck.materialise(L["nodes"], ctx)
    via = case["via"]

    def refdocs(ns):
        for s in ns:
            if s["t"] == "Reference" and s.get("nodes") is not None:
                s["docs"] = model.parse_document(model.emit(s["nodes"]))["nodes"]
            if s.get("nodes"):
                refdocs(s["nodes"])
    refdocs(L["nodes"])
    docs, p = None, ctx.path("list.clf")
    if via in ("file", "tool"):
        g = random.Random(case["es"])
        em = model.Emitter(g if case["es"] % 2 else None)
        data = em.document(L)
        with open(p, "wb") as fh:
            fh.write(data)
        docs = model.parse_document(data)["nodes"]
        pl = call("info:read", c.ProcessList, p) if via == "file" else None
    else:
        pl = call("info:build", model.build_list, L, c)
        call("info:write", pl.writeFile, p)
        docs = model.parse_document(model.read_bytes(p)[0])["nodes"]
        if via == "roundtrip":
            pl = call("info:read", c.ProcessList, p)
    out = None
    with env.capture() as buf:
        if via == "tool":
            old = sys.argv
            sys.argv = ["clfinfo", random.Random(case["es"]).choice(["-c", "--clf"]), p]
            try:
                call("info:tool", TOOL[0])
            finally:
                sys.argv = old
        else:
            call("info:print", pl.printInfo)
    out = buf.getvalue()
    if via == "tool":
        k = out.find("\nProcessList\n")
        if k < 0:
            fail("info:tool", "clfinfo printed %r", out[:300])
        out = out[k + 1:]
        ctx.obs("tool")
    bl = blocks(out)
    if not bl or bl[0][0] != "ProcessList":
        fail("info:text", "information starts with %r", out[:100])
    check_listblock(bl.pop(0)[1], L, ctx, "list")
    walk(L["nodes"], docs, bl, ctx, via, via)
    if bl:
        fail("info:nodes", "%d more blocks than nodes: %s", len(bl), bl[0])
    ctx.obs("lists")
    ctx.nontrivial = bool(L["nodes"])
    ctx.seen(via, len(L["nodes"]), len(L["elems"]))
