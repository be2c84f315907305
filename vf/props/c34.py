"""Node and element types added by deriving from the library's classes take part like the built-in ones."""
import random
import xml.etree.ElementTree as ET
import numpy as np
from .. import env, gen as G, ref, model
from ..common import clf, reset_features, run as process
from ..core import fail, call, Skip
PROP = "C34"
RULE = "a document with added node or element types whose reading, processing, printing and writing was recorded and judged"
CASES = dict(quick=2600, thorough=100000)
NEED = dict(documents=2000, custom_nodes=4000, nested_custom=800, noop_nodes=500, children_offered=4000, children_kept=1200, custom_elements=500, process_events=3000, printed=900, rewritten=1500, strict_refused=80, strict_accepted=150)
NS = [None, None, "urn:vf:x", "urn:a-b_c}d".replace("}", "")]


def setup():
    reset_features()
    clf()


def cname(g, k):
    return "VF" + g.choice(["Tint", "Grade", "Print", "X", "Look2"]) + "ABCDEFGH"[k]


def variants(g, name):
    """The spellings of an element name that mean the same."""
    if g.random() < 0.5:
        return name
    for _ in range(g.choice([1, 1, 2])):
        k = g.randrange(1, len(name) + 1)
        name = name[:k] + g.choice("-_") + name[k:]
    return name


def gen(g, tier, i):
    classes = []
    for k in range(g.choice([1, 2, 3])):
        kind = g.choice(["node", "node", "node", "elem"]) if k else "node"
        d = dict(name=cname(g, k), kind=kind, base=None)
        if kind == "node":
            d.update(op=g.random() < 0.75, child=g.choice(["none", "keep", "keep", "note"]), init=g.random() < 0.6, info=g.random() < 0.5, tag=None)
            if g.random() < 0.3:
                d["tag"] = variants(g, d["name"])
            same = [j for j in range(k) if classes[j]["kind"] == "node"]
            if same and g.random() < 0.3:
                d["base"] = g.choice(same)
        else:
            d.update(base=g.choice([None, "InputDescriptor", "Description"]))
        classes.append(d)
    count = [0]

    def cust(k):
        count[0] += 1
        ch = []
        for _ in range(g.choice([0, 0, 1, 2, 4])):
            w = g.randrange(5)
            if w == 0:
                ch.append(["Description", G.text(g) or "d"])
            elif w == 1:
                ch.append(["DynamicParameter", g.choice(["EXPOSURE", "x"])])
            elif w == 2:
                # what has another meaning elsewhere is an ordinary child here
                ch.append([g.choice(["Array", "SOPNode", "Info", "InputDescriptor", "Matrix", "minInValue"]), "1 2"])
            else:
                ch.append([g.choice(["VFPart", "Amount", "part-1", "x_y", g.choice(["DynamicRange", "Descriptions", "description", "DynamicParameters", "dynamicparameter", "MyDescription", "Desc", "Description2"])]), "%d" % g.randrange(1000)])
        return dict(k="node", c=k, name="n%d" % count[0], id="i%d" % g.randrange(99), a=g.choice([1.0, 0.5, 2.0, -1.0, 0.75]), b=g.choice([0.0, 0.25, -0.125, 1.0]), children=ch,
                    extra=g.choice([{}, {}, {"vfx": G.text(g, True) or "1"}]), tag=variants(g, classes[k]["name"]))

    def items(n, depth):
        out = []
        for _ in range(n):
            w = g.randrange(10)
            if w < 5:
                nodes = [k for k, d in enumerate(classes) if d["kind"] == "node"]
                out.append(cust(g.choice(nodes)))
            elif w < 7:
                el = [k for k, d in enumerate(classes) if d["kind"] == "elem"]
                if el:
                    k = g.choice(el)
                    out.append(dict(k="elem", c=k, text=G.text(g) or "t", tag=variants(g, classes[k]["name"])))
            elif w == 7 and depth < 2:
                out.append(dict(k="group", items=items(g.choice([0, 1, 2, 3]), depth + 1)))
            else:
                out.append(dict(k="std", spec=G.node(g, g.choice(["Matrix", "Range", "EC"]), "16f", "16f", filesafe=True, rows=3)))
        return out
    its = items(g.choice([1, 2, 3, 4, 6]), 0)
    strict = g.random() < 0.2
    return dict(classes=classes, items=its, strict=strict, unknown=g.random() < 0.25, seed=g.randrange(1 << 40), ns=g.choice(NS), prefix=g.choice([None, None, "p"]), pixels=[[G.f32(g.uniform(-1, 2)) for _ in range(3)] for _ in range(3)], redefine=g.random() < 0.1)


EV = []


class Kept:
    "An element a node makes of one of its children."

    def __init__(self, text):
        self.text = text

    def write(self, tree):
        e = ET.SubElement(tree, "kept")
        e.text = self.text
        return e

    def printInfo(self):
        EV.append(("keptinfo", self.text))


def make(d, c, classes):
    """The class a user would write."""
    if d["kind"] == "elem":
        def read(self, element):
            EV.append(("elemread", d["name"], element.text))
            self.text = element.text

        def write(self, tree):
            e = ET.SubElement(tree, d["name"])
            e.text = self.text
            EV.append(("elemwrite", d["name"], self.text))
            return e

        def printInfo(self):
            EV.append(("eleminfo", d["name"], self.text))
        if d["base"]:
            return type(c.Description)(d["name"], (getattr(c, d["base"]),), dict(read=read, write=write, printInfo=printInfo))
        return type(c.Description)(d["name"], (object,), dict(read=read, write=write, printInfo=printInfo))
    base = classes[d["base"]] if d["base"] is not None else c.ProcessNode
    body = {}

    def __init__(self, inBitDepth="16f", outBitDepth="16f", id="", name=""):
        c.ProcessNode.__init__(self, d["tag"] or d["name"], inBitDepth, outBitDepth, id, name)
    body["__init__"] = __init__

    def number(self):
        return self.getAttribute("name")
    if d["op"]:
        def process(self, values, stride=0, verbose=False):
            a, b = float(self.getAttribute("va")), float(self.getAttribute("vb"))
            out = np.array([np.float32(np.float64(x) * a + b) for x in values], dtype=np.float32)
            EV.append(("process", number(self), tuple(float(x) for x in values), tuple(float(x) for x in out)))
            return out
        body["process"] = process
    if d["child"] != "none":
        def readChild(self, element):
            EV.append(("child", number(self), model.local(element.tag), element.text))
            if d["child"] == "keep":
                return Kept(element.text)
            return None
        body["readChild"] = readChild
    if d["init"]:
        def readInitialize(self):
            EV.append(("init", number(self)))
        body["readInitialize"] = readInitialize
    if d["info"]:
        def printInfoChild(self):
            EV.append(("info", number(self)))
        body["printInfoChild"] = printInfoChild
    return type(c.ProcessNode)(d["name"], (base,), body)


def behaviour(classes, k, what, default):
    """What a class does itself or takes over from the one it derives from."""
    d = classes[k]
    on = {"child": d["child"] != "none"}.get(what, d[what])
    if on or d["base"] is None:
        return d[what] if on else default
    return behaviour(classes, d["base"], what, default)


def emit_items(items, E, case):
    out = []
    for it in items:
        if it["k"] == "std":
            out.append(E.node(it["spec"]))
        elif it["k"] == "group":
            out.append(E.el("Group", [("inBitDepth", "16f"), ("outBitDepth", "16f"), ("id", ""), ("name", "")], emit_items(it["items"], E, case) or ""))
        elif it["k"] == "elem":
            out.append(E.el(it["tag"], [], model.esc(it["text"])))
        else:
            ch = [E.el(n, [("param", t)], "") if n == "DynamicParameter" else E.el(n, [], model.esc(t)) for n, t in it["children"]]
            at = [("inBitDepth", "16f"), ("outBitDepth", "16f"), ("id", it["id"]), ("name", it["name"]), ("va", repr(it["a"])), ("vb", repr(it["b"]))] + list(it["extra"].items())
            out.append(E.el(it["tag"], at, ch or ""))
    return out


def document(case):
    E = model.Emitter(random.Random(case["seed"]), prefix=case["prefix"] if case["ns"] else None)
    at = [("id", "t"), ("name", "t"), ("compCLFversion", "1.2")]
    if case["ns"]:
        at.append(("xmlns:" + case["prefix"] if case["prefix"] else "xmlns", case["ns"]))
    body = emit_items(case["items"], E, case)
    if case["unknown"]:
        body.insert(random.Random(case["seed"]).randrange(len(body) + 1), E.el("VFNobodyKnows", [("a", "1")], ""))
    return ('<?xml version="1.0" encoding="UTF-8"?>\n' + E.el("ProcessList", at, body)).encode("utf-8")


def spec(items, classes):
    "reference nodes"
    out = []
    for it in items:
        if it["k"] == "std":
            out.append(it["spec"])
        elif it["k"] == "group":
            out.append(dict(t="Group", nodes=spec(it["items"], classes), **{"in": "16f", "out": "16f"}))
        elif it["k"] == "node" and behaviour(classes, it["c"], "op", False):
            out.append(dict(t="Probe", a=it["a"], b=it["b"], **{"in": "16f", "out": "16f"}))
    return out


def walk(items, k, inner=False):
    for it in items:
        if it["k"] == k:
            yield it, inner
        if it["k"] == "group":
            yield from walk(it["items"], k, True)


def kids(it):
    return [(model_local(n), t) for n, t in it["children"] if n not in ("Description", "DynamicParameter")]


def model_local(n):
    return n.replace("-", "").replace("_", "")


def shape(items, ps, case, made, where, ctx):
    """The nodes found in the list are those of the document, of the classes registered."""
    want = [it for it in items if it["k"] != "elem"]
    if len(ps) != len(want):
        fail("nodes", "%s holds %d nodes instead of %d (%r)", where, len(ps), len(want), [p.getNodeType() for p in ps])
    for it, p in zip(want, ps):
        if it["k"] == "group":
            shape(it["items"], list(p.getProcesses()), case, made, where + "/Group", ctx)
        elif it["k"] == "node":
            if type(p) is not made[it["c"]]:
                fail("class", "a %s element became a %s", it["tag"], type(p).__name__)
            for k, v in [("name", it["name"]), ("id", it["id"]), ("va", repr(it["a"])), ("vb", repr(it["b"]))] + list(it["extra"].items()):
                if p.getAttribute(k) != v and not (v in ("True", "False") and p.getAttribute(k) == (v == "True")):
                    fail("attribute", "%s is %r instead of %r", k, p.getAttribute(k), v)
            for n, t in it["children"]:
                if n == "DynamicParameter" and not p.getDynamicParam(t):
                    fail("dynamic", "%r is not there", t)
            ctx.obs("custom_nodes")


def check_read(case, ctx, first):
    C = case["classes"]
    ev = list(EV)
    for it, inner in walk(case["items"], "node"):
        mine = [e for e in ev if e[0] in ("child", "init") and e[1] == it["name"]]
        want = []
        mode = behaviour(C, it["c"], "child", "none")
        if first:
            k = kids(it)
        else:
            # a written node holds what was kept
            k = [("kept", t) for n, t in kids(it)] if mode == "keep" else []
        if mode != "none":
            want = [("child", it["name"], n, t) for n, t in k]
        if behaviour(C, it["c"], "init", False):
            want.append(("init", it["name"]))
        mine = [(e[0], e[1], model_local(e[2]), e[3]) if e[0] == "child" else e for e in mine]
        if mine != want:
            fail("read-events", "reading %s gave %r instead of %r", it["tag"], mine, want)
        ctx.obs("children_offered", len(want))
        ctx.obs("nested_custom", inner)
        ctx.obs("noop_nodes", not behaviour(C, it["c"], "op", False))
        if mode == "keep":
            ctx.obs("children_kept", len(k))
    got = [e for e in ev if e[0] == "elemread"]
    want = [("elemread", C[it["c"]]["name"], it["text"]) for it, _ in walk(case["items"], "elem")]
    if sorted(got, key=repr) != sorted(want, key=repr):
        fail("elements-read", "%r instead of %r", got, want)
    ctx.obs("custom_elements", len(want))


def check_process(pl, case, ctx):
    C = case["classes"]
    nodes = spec(case["items"], C)
    names = [it["name"] for it, _ in walk(case["items"], "node") if behaviour(C, it["c"], "op", False)]
    for px in case["pixels"]:
        del EV[:]
        got = process(pl, list(px))
        if [e[1] for e in EV] != names:
            fail("process-events", "%r instead of %r", [e[1] for e in EV], names)
        ctx.obs("process_events", len(EV))
        ref.judge(got, lambda N: ref.apply_list(nodes, px, N), "process", "pixel %r" % (px,))


def strip(tag):
    return model_local(tag[tag.find("}") + 1:])


def check_written(root, case, items, ctx):
    """Each added node stands in the file under its type with its attributes, what it kept and its descriptions."""
    C = case["classes"]
    ch = [e for e in root]
    want = [it for it in items if it["k"] != "elem"]
    nodes = [e for e in ch if strip(e.tag) in [d["name"] for d in C if d["kind"] == "node"] + ["Matrix", "Range", "ExposureContrast", "Group"]]
    if len(nodes) != len(want):
        fail("written", "%r instead of %d nodes", [e.tag for e in nodes], len(want))
    for it, e in zip(want, nodes):
        if it["k"] == "group":
            check_written(e, case, it["items"], ctx)
        elif it["k"] == "node":
            d = C[it["c"]]
            if e.tag != (d["tag"] or d["name"]):
                fail("written", "%s instead of %s", e.tag, d["tag"] or d["name"])
            at = dict([("inBitDepth", "16f"), ("outBitDepth", "16f"), ("id", it["id"]), ("name", it["name"]), ("va", repr(it["a"])), ("vb", repr(it["b"]))] + list(it["extra"].items()))
            if dict(e.attrib) != at:
                fail("written-attributes", "%r instead of %r", e.attrib, at)
            keep = behaviour(C, it["c"], "child", "none") == "keep"
            inner = [("Description" if n == "Description" else "kept", t) for n, t in it["children"] if n == "Description" or n != "DynamicParameter" and keep]
            got = [(x.tag, x.text) for x in e if x.tag != "DynamicParameter"]
            if got != inner:
                fail("written-children", "%r instead of %r", got, inner)
            dyn = [x.get("param") for x in e if x.tag == "DynamicParameter"]
            if dyn != [t for n, t in it["children"] if n == "DynamicParameter"]:
                fail("written-children", "dynamic parameters %r", dyn)
    el = [e for e in ch if strip(e.tag) in [d["name"] for d in C if d["kind"] == "elem"]]
    got = [(e.tag, e.text) for e in el]
    want = [(C[it["c"]]["name"], it["text"]) for it in items if it["k"] == "elem"]
    if got != want:
        fail("written-elements", "%r instead of %r", got, want)


def run(case, ctx):
    reset_features()
    c = clf()
    reg = c.ProcessList.serializableClasses
    before = dict(reg)
    C = case["classes"]
    made = []
    try:
        if case["redefine"]:
            # an earlier class of that name, as when a module is executed again
            make(C[0], c, [])
        for d in C:
            made.append(call("define", make, d, c, made))
        for d, cls in zip(C, made):
            if call("getClass", c.ProcessList.getClass, d["name"]) is not cls:
                fail("getClass", "%s is not the class %s", c.ProcessList.getClass(d["name"]), d["name"])
        p = ctx.path("a.clf")
        with open(p, "wb") as fh:
            fh.write(document(case))
        del EV[:]
        if case["strict"]:
            if case["unknown"]:
                try:
                    c.ProcessList(p, strict=True)
                except Exception as e:
                    if type(e).__name__ != "UnknownProcessNodeError":
                        raise
                    ctx.obs("strict_refused")
                    ctx.nontrivial = True
                    return
                fail("strict", "a file with an unknown element was read strictly")
            pl = call("read", c.ProcessList, p, strict=True)
            ctx.obs("strict_accepted")
        else:
            pl = call("read", c.ProcessList, p)
        ctx.obs("documents")
        check_read(case, ctx, True)
        shape(case["items"], list(pl.getProcesses()), case, made, "the list", ctx)
        check_process(pl, case, ctx)
        # printing
        del EV[:]
        with env.capture() as b:
            call("printInfo", pl.printInfo)
        want = [("info", it["name"]) for it, _ in walk(case["items"], "node") if behaviour(C, it["c"], "info", False)]
        got = [e for e in EV if e[0] == "info"]
        if got != want:
            fail("printed", "%r instead of %r", got, want)
        want = [("eleminfo", C[it["c"]]["name"], it["text"]) for it, _ in walk(case["items"], "elem")]
        got = [e for e in EV if e[0] == "eleminfo"]
        if sorted(got) != sorted(want):
            fail("printed", "%r instead of %r", got, want)
        want = [("keptinfo", t) for it, _ in walk(case["items"], "node") if behaviour(C, it["c"], "child", "none") == "keep" for n, t in kids(it)]
        got = [e for e in EV if e[0] == "keptinfo"]
        if got != want:
            fail("printed", "%r instead of %r", got, want)
        out = b.getvalue()
        for it, _ in walk(case["items"], "node"):
            if "ProcessNode type : %s\n" % (C[it["c"]]["tag"] or C[it["c"]]["name"]) not in out or it["name"] not in out:
                fail("printed", "nothing about %s", it["name"])
        ctx.obs("printed", len(EV))
        # writing, and reading that
        q = ctx.path("b.clf")
        call("write", pl.writeFile, q)
        with open(q, "rb") as fh:
            root = ET.fromstring(fh.read().replace(b' xmlns="', b' x="'))
        check_written(root, case, case["items"], ctx)
        del EV[:]
        again = call("reread", c.ProcessList, q)
        check_read(case, ctx, False)
        shape(case["items"], list(again.getProcesses()), case, made, "the list read again", ctx)
        check_process(again, case, ctx)
        ctx.obs("rewritten")
        ctx.nontrivial = True
        ctx.seen(len(C), tuple(sorted((d["kind"], d["base"] is None, bool(d.get("op")), d.get("child", ""), bool(d.get("init"))) for d in C)), bool(list(walk(case["items"], "group"))), case["strict"], case["unknown"])
    finally:
        for n in list(reg):
            if n not in before:
                del reg[n]
