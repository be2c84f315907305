"""Writing then reading a CLF preserves its structure and metadata."""
import random
from .. import gen as G, nodecheck, ref, model
from ..common import clf, run as process, reset_features
from ..core import fail, Skip, call
PROP = "C15"
RULE = "a list with attributes, descriptions, descriptors, info and nodes carrying metadata, through one to three write/read cycles, parsed independently after each"
CASES = dict(quick=900, thorough=36000)
NEED = dict(cycles=1500, texts=3000, attributes=3000, dynamic=100, nested=200, gzip=100, inner_elements=100)


def gen(g, tier, i):
    g2 = g

    def deco(s):
        if s["t"] in ("CC",) and s["in"] is None:
            s.pop("in"), s.pop("out")
        s["id"], s["name"] = G.text(g, True), G.text(g, True)
        if g.random() < 0.5:
            s["desc"] = [G.text(g) for _ in range(g.choice([1, 1, 2, 3]))]
        if g.random() < 0.2:
            s["dyn"] = [g.choice(["EXPOSURE", "CONTRAST", "GAMMA", G.text(g, True)]) for _ in range(g.choice([1, 2]))]
        if g.random() < 0.25:
            s["attrs"] = {g.choice(["vendor", "note", "x-y", "rev.2", "alias2", "\u00fcnit"]): G.text(g, True) for _ in range(2)}
        if g.random() < 0.2:
            s["bypass"] = g.choice([True, False, "true", "false"])
        if s["t"] == "Group" and g.random() < 0.4:
            s["elems"] = [["info", G.text(g), G.text(g)] if g.random() < 0.3 else [g.choice(["in", "out"]), G.text(g)] for _ in range(g.choice([1, 2]))]
        for c in s.get("nodes") or []:
            deco(c)
    nodes = G.chain(g, g.randrange(0, 5), filesafe=True, rows=3)
    nodes = G.nest(g, nodes, 0.6)
    if g.random() < 0.2:
        r = {"t": "Reference", "path": "/nonexistent/" + G.text(g, True), "nodes": None, "in": "16f", "out": "32f", "basePath": g.choice(["", "/nonexistent/base"]), "alias": g.choice(["", G.text(g, True)])}
        nodes.insert(g.randrange(len(nodes) + 1), r)
    for s in nodes:
        deco(s)
    attrs = dict(id=G.text(g, True), name=G.text(g, True), compCLFversion=g.choice([1.0, 1.2, "2.0"]))
    if g.random() < 0.5:
        attrs["inverseOf"] = G.text(g, True)
    if g.random() < 0.4:
        attrs["xmlns"] = g.choice(["urn:NATAS:ACES:LUT:v1.2", "http://example.org/clf"])
    if g.random() < 0.4:
        attrs[g.choice(["vendor", "note", "x-y"])] = G.text(g, True)
    elems = []
    for _ in range(g.randrange(5)):
        k = g.choice(["desc", "desc", "in", "out", "info"])
        if k == "info":
            elems.append(["info", g.choice(["", G.text(g)]), g.choice(["", G.text(g)])])
        else:
            elems.append([k, G.text(g)])
    start = g.choice(["api", "api", "file"])
    if start == "file":
        for e in elems:
            if e[0] == "info" and g.random() < 0.7:
                e += [g.choice(["", G.text(g)]), g.randrange(3)]
    vals = {"Vendor%d" % k: G.text(g) for k in range(g.randrange(1, 4))} if start == "api" and g.random() < 0.2 else {}
    return dict(L=dict(attrs=attrs, elems=elems, nodes=nodes, vals=vals), cycles=g.choice([1, 2, 3]), gz=[g.random() < 0.4 for _ in range(3)],
                start=start, surface=g.random() < 0.7, es=g.randrange(1 << 30), strict=g.random() < 0.3 and not vals)


def plain(elems):
    """Elements as parse_document returns them."""
    return [["info"] + [list(p) for p in model.info_children(e)] if e[0] == "info" else list(e) for e in elems]


def norm(v):
    return str(v)


def expect_node(s, d, key, ctx, boolcase):
    name = {"CDL": "ASCCDL", "CC": "ColorCorrection", "EC": "ExposureContrast"}.get(s["t"], s["t"])
    if d["tag"] != name:
        fail(key + ":type", "node %r came out as %s", name, d["tag"])
    a = d["allattrs"]
    want = {"id": s["id"], "name": s["name"]}
    if s.get("in"):
        want["inBitDepth"], want["outBitDepth"] = s["in"], s["out"]
    want.update(s.get("attrs", {}))
    if s.get("style") is not None:
        want["style"] = s["style"]
    for k in ("path", "basePath", "alias"):
        if s["t"] == "Reference" and s.get(k):
            want[k] = s[k]
    for k, v in want.items():
        if norm(a.get(k)) != norm(v):
            fail(key + ":attribute", "%s attribute %s: %r instead of %r", name, k, a.get(k), v)
        ctx.obs("attributes")
    if ref.truthy(s.get("bypass")) != ref.truthy(a.get("bypass")):
        fail(key + ":bypass", "bypass %r became %r", s.get("bypass"), a.get("bypass"))
    if [t or "" for t in d["desc"]] != s.get("desc", []):
        fail(key + ":description", "%s descriptions %r instead of %r", name, d["desc"], s.get("desc", []))
    if d["dyn"] != s.get("dyn", []):
        fail(key + ":dynamic", "%s dynamic parameters %r instead of %r", name, d["dyn"], s.get("dyn", []))
    ctx.obs("texts", len(d["desc"]))
    ctx.obs("dynamic", len(d["dyn"]))
    if d["elems"] != plain(s.get("elems", [])):
        fail(key + ":elements", "elements of %s: %r instead of %r", name, d["elems"], plain(s.get("elems", [])))
    ctx.obs("inner_elements", len(d["elems"]))
    if s["t"] == "Group":
        expect_nodes(s["nodes"], d["nodes"], key, ctx, boolcase)
        ctx.obs("nested", len(s["nodes"]))


def expect_nodes(want, got, key, ctx, boolcase):
    if len(want) != len(got):
        fail(key + ":nodes", "%d nodes instead of %d", len(got), len(want))
    for s, d in zip(want, got):
        expect_node(s, d, key, ctx, boolcase)


def expect(L, D, key, ctx):
    attrs = dict(L["attrs"])
    ns = attrs.pop("xmlns", None)
    if (D["xmlns"] or None) != ns:
        fail(key + ":namespace", "namespace %r instead of %r", D["xmlns"], ns)
    for k, v in attrs.items():
        if norm(D["attrs"].get(k)) != norm(v):
            fail(key + ":attribute", "list attribute %s: %r instead of %r", k, D["attrs"].get(k), v)
        ctx.obs("attributes")
    extra = set(D["attrs"]) - set(attrs)
    if extra:
        fail(key + ":attribute", "new list attributes %s", sorted(extra))
    want = plain(L["elems"])
    if D["elems"] != want:
        fail(key + ":elements", "elements %r instead of %r", D["elems"], want)
    ctx.obs("texts", len(want))
    expect_nodes(L["nodes"], D["nodes"], key, ctx, None)


def parsed(path, key):
    try:
        data, gz = model.read_bytes(path)
        return model.parse_document(data), gz
    except Exception as e:
        fail(key + ":malformed", "%s: %s", type(e).__name__, e)


def accessors(pl, L, key, ctx):
    at = L["attrs"]
    for k, f in (("name", pl.getName), ("id", pl.getID), ("inverseOf", pl.getInverseOf), ("compCLFversion", pl.getCompCLFversion), ("xmlns", pl.getNamespace)):
        v = call(key + ":accessor", f)
        if (None if v is None else norm(v)) != (None if at.get(k) is None else norm(at[k])):
            fail(key + ":accessor", "%s is %r instead of %r", k, v, at.get(k))
    for k in at:
        if norm(call(key + ":accessor", pl.getAttribute, k)) != norm(at[k]):
            fail(key + ":accessor", "attribute %s is %r instead of %r", k, pl.getAttribute(k), at[k])

    def nodes(want, procs):
        if len(want) != len(procs):
            fail(key + ":accessor", "%d processes instead of %d", len(procs), len(want))
        for s, n in zip(want, procs):
            for k, v in (("id", s["id"]), ("name", s["name"]), ("inBitDepth", s.get("in")), ("outBitDepth", s.get("out"))):
                if v is not None and norm(n.getAttribute(k)) != norm(v):
                    fail(key + ":accessor", "%s attribute %s is %r instead of %r", s["t"], k, n.getAttribute(k), v)
            if n.getBypass() != ref.truthy(s.get("bypass")):
                fail(key + ":bypass", "bypass %r reads back as %r", s.get("bypass"), n.getBypass())
            for dyn in s.get("dyn", []):
                if not n.getDynamicParam(dyn):
                    fail(key + ":dynamic", "dynamic parameter %r is lost", dyn)
            if s["t"] == "Group":
                nodes(s["nodes"], n.getProcesses())
    procs = call(key + ":accessor", pl.getProcesses)
    nodes(L["nodes"], procs)
    if L["nodes"]:
        first = next((s for s in L["nodes"] if s["name"] == L["nodes"][-1]["name"]), None)
        got = call(key + ":accessor", pl.getProcess, L["nodes"][-1]["name"])
        if got is None or got.getAttribute("id") != first["id"]:
            fail(key + ":accessor", "getProcess(%r) finds %r", L["nodes"][-1]["name"], got)


def run(case, ctx):
    c = clf()
    reset_features()
    L = case["L"]
    if case["start"] == "api":
        pl = call("structure:build", model.build_list, L, c)
    else:
        p0 = ctx.path("start.clf")
        with open(p0, "wb") as fh:
            em = model.Emitter(random.Random(case["es"]) if case["surface"] else None)
            em.xmlns = L["attrs"].get("xmlns")
            fh.write(em.document(L))
        pl = call("structure:read", c.ProcessList, p0)
        accessors(pl, L, "structure", ctx)
    prev = None
    for k in range(case["cycles"]):
        p = ctx.path("c%d.clf" % k)
        call("structure:write", pl.writeFile, p, False, case["gz"][k])
        D, gz = parsed(p, "structure")
        if gz != case["gz"][k]:
            fail("structure:gzip", "gzip %s requested, got %s", case["gz"][k], gz)
        ctx.obs("gzip", int(gz))
        expect(L, D, "structure", ctx)
        if k == 0:
            # simple values of the list's own; readers ignore elements they do not know
            got = {a: b or "" for a, b in D["vals"].items()}
            if got != L["vals"]:
                fail("structure:values", "value elements %r instead of %r", got, L["vals"])
            ctx.obs("value_elements", len(got))
            for a, b in L["vals"].items():
                if call("structure:values", pl.getValueElement, a) != b:
                    fail("structure:values", "value element %s is %r instead of %r", a, pl.getValueElement(a), b)
        if prev is not None and strip(D) != strip(prev):
            fail("structure:rewrite", "re-written document differs: %s", diff(strip(prev), strip(D)))
        prev = D
        pl = call("structure:read", c.ProcessList, p, case["strict"])
        accessors(pl, L, "structure", ctx)
        ctx.obs("cycles")
    ctx.nontrivial = bool(L["nodes"] or L["elems"])
    ctx.seen(case["start"], case["cycles"], tuple(sorted({s["t"] for s in G.flatten(L["nodes"])}))[:3], len(L["elems"]))


def strip(D):
    """What must survive: everything but the letter case of booleans and the spelling of numbers."""
    def node(d):
        q = {k: v for k, v in d.items() if k not in ("tokens", "bypass", "defaultRange", "halfDomain", "rawHalfs", "allattrs", "vals", "desc")}
        q["desc"] = [t or "" for t in d["desc"]]
        q["values"] = len(d["values"]) if "values" in d else None
        q["allattrs"] = {k: v.lower() if v.lower() in ("true", "false") else v for k, v in d["allattrs"].items()}
        if q.get("nodes"):
            q["nodes"] = [node(x) for x in q["nodes"]]
        return q
    return dict(D, nodes=[node(d) for d in D["nodes"]], vals=None)


def diff(a, b, path=""):
    if type(a) is dict and type(b) is dict:
        for k in sorted(set(a) | set(b), key=str):
            if a.get(k) != b.get(k):
                return diff(a.get(k), b.get(k), path + "/" + str(k))
    if type(a) is list and type(b) is list and len(a) == len(b):
        for k in range(len(a)):
            if a[k] != b[k]:
                return diff(a[k], b[k], path + "/" + str(k))
    return "%s: %.200r became %.200r" % (path, a, b)
