"""Editing a list or node takes effect like building it afresh."""
import copy, random
import numpy as np
from .. import env, gen as G, ref, model
from ..common import clf, run as process, reset_features, same
from ..core import fail, call
PROP = "C28"
RULE = "one history of random public edits on one of two lists that share argument objects, interleaved with queries, processing, printing and writing; every query compared with the tracked state and with a list built afresh from it"
CASES = dict(quick=3500, thorough=50000)
NEED = dict(from_file=800, edits=30000, queries=6000, documents=5000, printed=3000, pixels_judged=5000, table_edits=3000, shared_arguments=1000, bystander_checks=3000, group_edits=1600, reference_edits=600, containers=5000)
ATTRS = ["custom", "author", "note"]
LISTATTRS = ["name", "id", "inverseOf", "compCLFversion", "custom"]
VKEYS = ["vendorA", "vendorB", "extra"]


def setup():
    c = clf()
    model.probe_class(c)


def gen(g, tier, i):
    n = g.randrange(1, 4)
    nodes = G.chain(g, n, rows=3)
    if g.random() < 0.35:
        nodes = G.nest(g, nodes, 1.0)
    return dict(nodes=nodes, seed=g.randrange(1 << 40), steps=g.randrange(8, 26), refnode=g.random() < 0.25, via=g.choice(["api", "api", "file"]))


# ------------------------------------------------------------------ walking model and objects together
def pairs(state, objs):
    for s, o in zip(state, objs):
        yield s, o
        if s["t"] == "Group":
            for x in pairs(s["nodes"], call("edit:children", o.getProcesses)):
                yield x


def depth_size(s, which):
    return ref.size(s.get(which) or "16f")


class Editor:
    """Applies one random public edit to an object and to its tracked state."""

    def __init__(self, g, ctx, c):
        self.g, self.ctx, self.c = g, ctx, c

    def common(self, s, o):
        g, c = self.g, self.c
        k = g.randrange(8)
        if k == 0:
            v = g.choice([True, False, "true", "false", "True"])
            call("edit:bypass", o.setAttribute, "bypass", v)
            s["bypass"] = v
        elif k == 1:
            a = g.choice(["id", "name"])
            v = G.ident(g)
            call("edit:id", o.setAttribute, a, v)
            s[a] = v
        elif k in (2, 3):
            d = g.choice(G.IDEPTHS + G.FDEPTHS + ["16f"])
            io = g.choice(["in", "out"])
            if g.random() < 0.5:
                call("edit:depth", o.setInBitDepth if io == "in" else o.setOutBitDepth, d)
            else:
                call("edit:depth", o.setAttribute, "inBitDepth" if io == "in" else "outBitDepth", d)
            s[io] = d
        elif k == 4:
            t = "%s é" % G.ident(g)
            call("edit:desc", o.addElement, c.Description(t))
            s.setdefault("desc", []).append(t)
        elif k == 5:
            t = g.choice(["EXPOSURE", "GAMMA", "x y"])
            call("edit:dyn", o.setDynamicParam, t)
            s.setdefault("dyn", []).append(t)
        elif k == 6:
            a, v = g.choice(ATTRS), G.ident(g)
            call("edit:attr", o.setAttribute, a, v)
            s.setdefault("attrs", {})[a] = v
        else:
            a, v = g.choice(VKEYS), g.choice([G.ident(g), 3, 0.25])
            call("edit:value", o.addValueElement, a, v)
            s.setdefault("vals", {})[a] = v

    def edit(self, s, o, twin=None):
        g, t = self.g, s["t"]
        self.ctx.obs("edits")
        f = getattr(self, t, None)
        if f is None or g.random() < 0.3:
            self.common(s, o)
            return
        f(s, o, twin)

    def Range(self, s, o, twin):
        g = self.g
        for _ in range(60):
            n = G.range_(g, s["in"], s["out"])
            old = set(k for k in ("minIn", "maxIn", "minOut", "maxOut") if k in s)
            if old <= set(n):
                break
        else:
            return self.common(s, o)
        ops = [k for k in ("minIn", "maxIn", "minOut", "maxOut", "style", "defaultRange") if k in n]
        if s.get("style") is not None and "style" not in ops:
            n["style"] = s["style"]
        if ref.truthy(s.get("defaultRange")) and not ref.truthy(n.get("defaultRange")):
            n["defaultRange"] = False
            ops.append("defaultRange")
        g.shuffle(ops)
        if not ops:
            return self.common(s, o)
        dup = g.choice(ops)
        st = dict(minIn=("setMinInValue", "minInValue"), maxIn=("setMaxInValue", "maxInValue"), minOut=("setMinOutValue", "minOutValue"), maxOut=("setMaxOutValue", "maxOutValue"))
        for k in ops:
            if k in st:
                if k == dup:
                    call("edit:range", getattr(o, st[k][0]), 0.123)
                if g.random() < 0.2:
                    call("edit:range", o.addValueElement, st[k][1], n[k])
                else:
                    call("edit:range", getattr(o, st[k][0]), n[k])
                s[k] = n[k]
            elif k == "style":
                call("edit:range", o.setStyle, n[k])
                s[k] = n[k]
            else:
                v = ref.truthy(n[k])
                call("edit:range", o.setDefaultRange, v)
                s[k] = v

    def CDL(self, s, o, twin):
        g = self.g
        n = G.cdl(g, s["in"], s["out"], s.get("style") if s["t"] == "CDL" or g.random() < 0.7 else None)
        k = g.choice([x for x in ("slope", "offset", "power", "saturation", "style") if x in n])
        if k == "style":
            n = G.cdl(g, s["in"], s["out"])
            if "Rev" in n["style"]:
                # reverse styles need values that can be inverted
                for x, f in (("slope", o.setSlope), ("power", o.setPower)):
                    v = [G.rnd(g, 0.5, 2) for _ in range(3)]
                    call("edit:cdl", f, *v)
                    s[x] = v
                v = G.rnd(g, 0.5, 2)
                call("edit:cdl", o.setSaturation, v)
                s["saturation"] = v
            call("edit:cdl", o.setAttribute, "style", n["style"])
            s["style"] = n["style"]
        elif k == "saturation":
            call("edit:cdl", o.setSaturation, n[k])
            s[k] = n[k]
        else:
            call("edit:cdl", dict(slope=o.setSlope, offset=o.setOffset, power=o.setPower)[k], *n[k])
            s[k] = n[k]
    CC = CDL

    def Matrix(self, s, o, twin):
        n = G.matrix(self.g, s["in"], s["out"], rows=3)
        dim, vals = list(n["dim"]), list(n["values"])
        self.share(twin, "setMatrix", s, dict(dim=list(dim), values=list(vals)), dim, vals)
        enc = self.g.choice([None, None, "string", "hex32bit"]) if self.g.random() < 0.4 else None
        call("edit:matrix", o.setMatrix, dim, vals, *([enc] if enc else []))
        s.update(dim=list(dim), values=list(n["values"]), enc=enc)

    def share(self, twin, fn, s, new, *args):
        """The other list's node of the same kind gets the very same argument objects first."""
        if twin is not None and twin[0]["t"] == s["t"] and self.g.random() < 0.5:
            call("edit:shared", getattr(twin[1], fn), *args)
            twin[0].update(new, **({"enc": None} if "values" in new else {}))
            self.ctx.obs("shared_arguments")

    def maps(self, s, o, n, twin):
        g = self.g
        si = depth_size(s, "in")
        m = [G.imap_(g, n[min(c, len(n) - 1)], si, tiny=False) for c in range(g.choice([1, 3]))]
        if len(m) == 1 and len(n) > 1:
            m = [G.imap_(g, min(n), si, tiny=False)]
        call("edit:imaps", o.setIndexMaps, *m)
        s["imaps"] = copy.deepcopy(m)

    def LUT1D(self, s, o, twin):
        g = self.g
        self.ctx.obs("table_edits")
        k = g.randrange(8)
        size = len(s["values"]) // s["channels"]
        if k < 4:
            n = G.lut1d(g, s["in"], s["out"])
            vals = list(n["values"])
            size = len(vals) // n["channels"]
            enc = g.choice(["string", "hex32bit"]) if g.random() < 0.2 else None
            mf = s.get("imaps") and g.random() < 0.5
            if mf:
                self.maps(s, o, [size], twin)
            if not s.get("imaps"):
                if twin is not None and not twin[0].get("imaps"):
                    self.share(twin, "setArray", s, dict(channels=n["channels"], values=list(vals)), n["channels"], vals)
            call("edit:lut1d", o.setArray, n["channels"], vals, *([enc] if enc else []))
            s.update(channels=n["channels"], values=list(n["values"]), enc=enc)
            if s.get("imaps") and not mf:
                self.maps(s, o, [size], twin)
        elif k < 6:
            self.maps(s, o, [size], twin)
        elif k == 6:
            v = g.choice(["linear", "other", "nearest"])
            call("edit:interp", o.setAttribute, "interpolation", v)
            s["interp"] = v
        elif not s.get("enc") and max(abs(v) for v in s["values"]) < 6e4:
            v = g.choice([True, False, "true", "False"])
            call("edit:rawhalfs", o.setAttribute, "rawHalfs", v)
            s["rawHalfs"] = v

    def LUT3D(self, s, o, twin):
        g = self.g
        self.ctx.obs("table_edits")
        k = g.randrange(7)
        if k < 4:
            n = G.lut3d(g, s["in"], s["out"])
            dim, vals = list(n["dim"]), list(n["values"])
            mf = s.get("imaps") and g.random() < 0.5
            if mf:
                self.maps(s, o, dim, twin)
            elif not s.get("imaps") and twin is not None and not twin[0].get("imaps"):
                self.share(twin, "setArray", s, dict(dim=list(dim), values=list(vals)), dim, vals)
            call("edit:lut3d", o.setArray, dim, vals)
            s.update(dim=list(n["dim"]), values=list(n["values"]), enc=None)
            if s.get("imaps") and not mf:
                self.maps(s, o, s["dim"], twin)
        elif k < 6:
            self.maps(s, o, s["dim"], twin)
        else:
            v = g.choice(["trilinear", "tetrahedral", "other"])
            call("edit:interp", o.setAttribute, "interpolation", v)
            s["interp"] = v

    def Gamma(self, s, o, twin):
        g = self.g
        if g.random() < 0.25:
            v = s["style"][:-3] + g.choice(["Fwd", "Rev"])
            call("edit:style", o.setAttribute, "style", v)
            s["style"] = v
            return
        p = g.choice([x for _ in range(9) for x in G.gamma(g, s["style"])["params"]] or [[1.5, 0.1, None]])
        p[2] = g.choice([None, "R", "G", "B"])
        if p[1] == 0 and g.random() < 0.5:
            call("edit:gamma", o.setGamma, p[0], channel=p[2])
        else:
            call("edit:gamma", o.setGamma, *p)
        s["params"] = channels(s["params"] + [p], [1.0, 0.0])

    def Log(self, s, o, twin):
        g = self.g
        if g.random() < 0.3:
            v = g.choice(G.LOG_STYLES)
            call("edit:style", o.setAttribute, "style", v)
            s["style"] = v
            return
        p = [x for _ in range(9) for x in G.log(g)["params"]]
        if not p:
            return self.common(s, o)
        p = g.choice(p)
        p[5] = g.choice([None, "R", "G", "B"])
        call("edit:log", o.setLogParams, *p)
        s["params"] = channels(s["params"] + [p], [0.6, 685, 95, 1.0, 0.0])

    def EC(self, s, o, twin):
        g = self.g
        if g.random() < 0.3:
            v = g.choice(G.EC_STYLES)
            call("edit:style", o.setAttribute, "style", v)
            s["style"] = v
            return
        p = [G.rnd(g, -3, 3, 4), G.rnd(g, 0.5, 2, 4), G.rnd(g, 0.05, 1.0, 4)]
        call("edit:ec", o.setExposureContrastPivot, *p)
        s["params"] = p

    def Group(self, s, o, twin):
        g = self.g
        n = G.node(g, g.choice(G.TYPES), rows=3)
        call("edit:group", lambda: o.addProcess(model.build_node(n, self.c)))
        s["nodes"].append(n)
        self.ctx.obs("group_edits")

    def Reference(self, s, o, twin):
        g = self.g
        f = g.choice(self.files)
        k = g.randrange(3)
        if k == 0:
            call("edit:paths", o.setPaths, path=f[0])
            s.update(path=f[0], basePath="", nodes=f[1])
        else:
            call("edit:paths", o.setPaths, f[0].rsplit("/", 1)[1], self.ctx.tmp)
            s.update(path=f[0].rsplit("/", 1)[1], basePath=self.ctx.tmp, nodes=f[1])
        self.ctx.obs("reference_edits")


def channels(params, default):
    """One setting per channel: the latest wins."""
    out, have = [], ref.per_channel(params, default)
    for c in range(3):
        if any(p[-1] in (None, "RGB"[c]) for p in params):
            out.append(list(have[c]) + ["RGB"[c]])
    return out


def editlist(g, L, pl, ed):
    c = ed.c
    ed.ctx.obs("edits")
    k = g.randrange(7)
    if k < 2:
        a = g.choice(LISTATTRS)
        v = g.choice([1.2, 2.0, 3]) if a == "compCLFversion" else G.ident(g)
        setter = dict(name=pl.setName, id=pl.setID, inverseOf=pl.setInverseOf, compCLFversion=pl.setCompCLFversion).get(a)
        if setter is None or g.random() < 0.3:
            call("edit:list", pl.setAttribute, a, v)
        else:
            call("edit:list", setter, v)
        L["attrs"][a] = v
    elif k == 2:
        e = g.choice(["desc", "in", "out", "info"])
        if e == "info":
            x = ["info", G.ident(g), G.ident(g)]
            call("edit:element", lambda: pl.addElement(c.Info(x[1], x[2])))
        else:
            x = [e, G.ident(g)]
            call("edit:element", lambda: pl.addElement(getattr(c, model.ELEM[e])(x[1])))
        L["elems"].append(x)
    elif k == 3:
        a, v = g.choice(VKEYS), g.choice([G.ident(g), 7])
        call("edit:value", pl.addValueElement, a, v)
        L["vals"][a] = v
    elif k == 4 and len(L["nodes"]) < 7:
        n = G.node(g, g.choice(G.TYPES), rows=3)
        call("edit:add", lambda: pl.addProcess(model.build_node(n, c)))
        L["nodes"].append(n)
    else:
        d = g.choice(G.IDEPTHS + G.FDEPTHS)
        if g.random() < 0.5:
            call("edit:depth", pl.setInBitDepth, d)
            L["nodes"][0]["in"] = d
        else:
            call("edit:depth", pl.setOutBitDepth, d)
            L["nodes"][-1]["out"] = d


def norm(s):
    s = dict(s)
    s["allattrs"] = {k: v for k, v in s["allattrs"].items() if k not in ("defaultRange", "halfDomain", "rawHalfs") or ref.truthy(v)}
    for k in ("defaultRange", "halfDomain", "rawHalfs"):
        if k in s:
            s[k] = ref.truthy(s[k])
    if s["t"] == "Gamma":
        s["params"] = ref.per_channel(s["params"], [1.0, 0.0])
    if s["t"] == "Log":
        s["params"] = ref.per_channel(s["params"], [0.6, 685.0, 95.0, 1.0, 0.0])
    if s.get("nodes"):
        s["nodes"] = [norm(x) for x in s["nodes"]]
    return s


def document(pl, path, key):
    call(key, pl.writeFile, path)
    try:
        d = model.parse_document(model.read_bytes(path)[0])
    except (model.Malformed, ValueError) as e:
        fail(key + ":malformed", "%s", e)
    d["nodes"] = [norm(s) for s in d["nodes"]]
    return d


def diff(a, b, p=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            r = diff(a.get(k, "<absent>"), b.get(k, "<absent>"), "%s.%s" % (p, k))
            if r:
                return r
        return None
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for k, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, "%s[%d]" % (p, k))
            if r:
                return r
        return None
    return None if a == b or close(a, b) else "%s is %.200r, built afresh %.200r" % (p, a, b)


def close(a, b):
    "numbers read from a document are held as float32"
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return False
    return abs(a - b) <= 2e-7 * abs(b) + 2e-9


def printed(pl, key):
    with env.capture() as b:
        call(key, pl.printInfo)
    return sorted(b.getvalue().splitlines())


def numeric(line):
    try:
        [float(x) for x in line.split()]
        return True
    except ValueError:
        return False


def flat(nodes):
    return [x for s in nodes for x in ([s] + flat(s["nodes"]) if s["t"] == "Group" else [s])]


def queries(g, L, pl, ctx, c):
    ctx.obs("queries")
    for a, v in L["attrs"].items():
        got = call("query:list", pl.getAttribute, a)
        if got != v:
            fail("query:list", "list attribute %s is %r, last set to %r", a, got, v)
    for a, f in (("name", pl.getName), ("id", pl.getID), ("inverseOf", pl.getInverseOf), ("compCLFversion", pl.getCompCLFversion)):
        if call("query:list", f) != L["attrs"].get(a):
            fail("query:list", "%s getter returns %r, last set %r", a, f(), L["attrs"].get(a))
    for a, v in L["vals"].items():
        if call("query:list", pl.getValueElement, a) != v:
            fail("query:list", "value element %s is %r, last set to %r", a, pl.getValueElement(a), v)
    objs = call("query:processes", pl.getProcesses)
    if len(objs) != len(L["nodes"]):
        fail("query:processes", "%d nodes, %d were added", len(objs), len(L["nodes"]))
    if call("query:depth", pl.getInBitDepth) != L["nodes"][0].get("in") or call("query:depth", pl.getOutBitDepth) != L["nodes"][-1].get("out"):
        fail("query:depth", "the list reports depths %r..%r, last set %r..%r", pl.getInBitDepth(), pl.getOutBitDepth(), L["nodes"][0].get("in"), L["nodes"][-1].get("out"))
    for s, o in pairs(L["nodes"], objs):
        w = s["t"]
        want = dict(s.get("attrs", {}))
        want.update(bypass=s.get("bypass"), id=s.get("id"), inBitDepth=s.get("in"), outBitDepth=s.get("out"))
        if s["t"] in ("Gamma", "Log", "EC", "CDL"):
            want["style"] = s["style"]
        for a, v in want.items():
            got = call("query:node", o.getAttribute, a)
            if got != v and not (a == "id" and not v and not got):
                fail("query:node", "%s attribute %s is %r, last set to %r", w, a, got, v)
        if call("query:node", o.getInBitDepth) != s.get("in") or call("query:node", o.getOutBitDepth) != s.get("out"):
            fail("query:depth", "%s depths %r..%r, last set %r..%r", w, o.getInBitDepth(), o.getOutBitDepth(), s.get("in"), s.get("out"))
        if bool(call("query:bypass", o.getBypass)) != ref.truthy(s.get("bypass")):
            fail("query:bypass", "%s bypass is %r, last set to %r", w, o.getBypass(), s.get("bypass"))
        for a, v in s.get("vals", {}).items():
            if call("query:node", o.getValueElement, a) != v:
                fail("query:value", "%s value element %s is %r, last set to %r", w, a, o.getValueElement(a), v)
        for d in ("EXPOSURE", "GAMMA", "x y", "never set"):
            if bool(call("query:dyn", o.getDynamicParam, d)) != (d in s.get("dyn", [])):
                fail("query:dyn", "%s dynamic parameter %r reported %r", w, d, o.getDynamicParam(d))
        if s["t"] in ("LUT1D", "LUT3D"):
            dim = [len(s["values"]) // s["channels"], s["channels"]] if w == "LUT1D" else list(s["dim"]) + [3]
            got = [int(x) for x in call("query:lut", o.getLUTDimensions)]
            if got != dim and got != list(s.get("dim", dim)):
                fail("query:lut", "%s dimensions %r, last set %r", w, got, dim)
            v = [float(x) for x in call("query:lut", o.getLUTValues)]
            if len(v) != len(s["values"]) or any(abs(a - b) > 1e-6 * abs(b) + 1e-30 for a, b in zip(v, s["values"])):
                fail("query:lut", "%s values %r..., last set %r...", w, v[:4], s["values"][:4])
            for ch, m in enumerate(s.get("imaps") or []):
                if int(call("query:imap", o.getIndexMapDimensions, ch)) != len(m[0]):
                    fail("query:imap", "%s index map %d has dimension %r, last set %d", w, ch, o.getIndexMapDimensions(ch), len(m[0]))
                got = call("query:imap", o.getIndexMapValues, ch)
                if not same([float(x) for r in got for x in r], [float(np.float32(x)) for r in m for x in r]) and not same([float(x) for r in got for x in r], [float(x) for r in m for x in r]):
                    fail("query:imap", "%s index map %d is %r, last set %r", w, ch, got, m)
    names = [s.get("name") or "" for s in L["nodes"]]
    for nm in sorted(set(names)):
        o = call("query:byname", pl.getProcess, nm)
        if o is not objs[names.index(nm)]:
            fail("query:byname", "getProcess(%r) is not the first node of that name", nm)
    containers(g, L["nodes"], pl, objs)
    for s, o in pairs(L["nodes"], objs):
        if s["t"] == "Group":
            inner = call("query:processes", o.getProcesses)
            named = [x.get("name") or "" for x in s["nodes"]]
            for nm in named:
                if call("query:byname", o.getProcess, nm) is not inner[named.index(nm)]:
                    fail("query:byname", "Group.getProcess(%r) is not the first node of that name", nm)
            if call("query:byname", o.getProcess, "no such name") is not None:
                fail("query:byname", "a Group finds a node nobody named")
        if call("query:node", o.getAttribute, "no such name") is not None or call("query:value", o.getValueElement, "no such name") is not None:
            fail("query:node", "%s has an attribute or value nobody set", s["t"])
    if call("query:byname", pl.getProcess, "no such name") is not None or call("query:list", pl.getAttribute, "no such name") is not None or call("query:list", pl.getValueElement, "no such name") is not None:
        fail("query:list", "the list has a node, attribute or value nobody set")
    ctx.obs("containers")


def containers(g, nodes, pl, objs):
    """A list is counted, walked and indexed as its nodes."""
    objs = list(objs)
    if call("query:len", len, pl) != len(objs):
        fail("query:len", "length %r of %d nodes", len(pl), len(objs))
    got = call("query:iter", list, pl)
    if len(got) != len(objs) or any(a is not b for a, b in zip(got, objs)):
        fail("query:iter", "walking the list gives %r", [x.getNodeType() for x in got])
    k = g.randrange(-len(objs), len(objs))
    if call("query:index", lambda: pl[k]) is not objs[k]:
        fail("query:index", "pl[%d] is another node", k)
    a, b = sorted([g.randrange(len(objs) + 1), g.randrange(len(objs) + 1)])
    got = list(call("query:index", lambda: pl[a:b]))
    if len(got) != b - a or any(x is not y for x, y in zip(got, objs[a:b])):
        fail("query:index", "pl[%d:%d] is %r", a, b, got)


def judge(g, L, pl, ctx, key, what):
    nodes = L["nodes"]
    px = G.tame_pixels(g, nodes, 1, 3, wide=False)
    if not px:
        return
    got = process(pl, list(px[0]), key=key)
    fresh = process(call(key + ":fresh", model.build_list, L, clf()), list(px[0]), key=key + ":fresh")
    if ctx.exact and not same(got, fresh):
        fail(key, "%s: %r becomes %r, built afresh %r", what, px[0], got, fresh)
    ref.judge(got, lambda N: ref.apply_list(nodes, px[0], N), key, "%s %s, pixel %r" % (what, [s["t"] for s in nodes], px[0]))
    ctx.obs("pixels_judged")


def check(g, L, pl, ctx, what, only=None):
    c = clf()
    k = g.randrange(5) if only is None else only
    if k == 0:
        queries(g, L, pl, ctx, c)
    elif k in (1, 2):
        judge(g, L, pl, ctx, "edit:process", what)
    elif k == 3:
        fresh = call("fresh", model.build_list, L, c)
        d = diff(document(pl, ctx.path("a.clf"), "edit:write"), document(fresh, ctx.path("b.clf"), "fresh:write"))
        if d:
            fail("edit:document", "%s: %s", what, d)
        ctx.obs("documents")
    elif ctx.exact or L is not ctx.main:
        fresh = call("fresh", model.build_list, L, c)
        a, b = printed(pl, "edit:print"), printed(fresh, "fresh:print")
        if any(s["t"] in ("Gamma", "Log") for s in flat(L["nodes"])):
            a, b = [x for x in a if "aram" not in x and "hannel" not in x], [x for x in b if "aram" not in x and "hannel" not in x]
        # whether table entries are shown with decimals follows the depth they were set under
        a, b = [x for x in a if not numeric(x)], [x for x in b if not numeric(x)]
        if a != b:
            x = [l for l in a if l not in b][:3], [l for l in b if l not in a][:3]
            fail("edit:print", "%s: printed %r, built afresh %r", what, x[0], x[1])
        ctx.obs("printed")


def run(case, ctx):
    reset_features()
    c = clf()
    g = random.Random(case["seed"])
    files = []
    for k in range(3):
        ns = G.chain(g, g.randrange(1, 3), rows=3)
        p = ctx.path("r%d.clf" % k)
        with open(p, "wb") as fh:
            fh.write(model.emit(ns))
        files.append((p, ns))
    files.append((ctx.path("absent.clf"), None))
    nodes = copy.deepcopy(case["nodes"])
    if case["refnode"]:
        f = files[0]
        nodes.insert(g.randrange(len(nodes) + 1), {"t": "Reference", "path": f[0], "nodes": f[1], "in": "16f", "out": "16f", "id": "r", "name": "r"})
    L = dict(attrs={"id": "t", "name": "t", "compCLFversion": 1.2}, vals={}, elems=[], nodes=nodes)
    B = copy.deepcopy(L)
    if case["via"] == "file":
        # both lists start from one document
        L["attrs"]["compCLFversion"] = B["attrs"]["compCLFversion"] = "1.2"
        for s in flat(L["nodes"]) + flat(B["nodes"]):
            if s["t"] in ("LUT1D", "LUT3D") and s.get("interp") is None:
                s["interp"] = "linear" if s["t"] == "LUT1D" else "trilinear"
        p = ctx.path("start.clf")
        with open(p, "wb") as fh:
            fh.write(model.emit(L["nodes"], attrs=L["attrs"]))
        pl = call("build", c.ProcessList, p)
        ctx.obs("from_file")
    else:
        pl = call("build", model.build_list, L, c)
    ctx.exact = case["via"] != "file"
    by = call("build", model.build_list, B, c)
    ctx.main = L
    ed = Editor(g, ctx, c)
    ed.files = files
    hist = []
    for k in range(case["steps"]):
        what = "after %d steps" % k
        if g.random() < 0.15:
            editlist(g, L, pl, ed)
        else:
            ps = list(pairs(L["nodes"], call("edit:children", pl.getProcesses)))
            bs = list(pairs(B["nodes"], call("edit:children", by.getProcesses)))
            j = g.randrange(len(ps))
            twins = [x for x in bs if x[0]["t"] == ps[j][0]["t"]]
            ed.edit(ps[j][0], ps[j][1], g.choice(twins) if twins else None)
        r = g.random()
        if r < 0.35:
            check(g, L, pl, ctx, what)
        elif r < 0.45:
            check(g, B, by, ctx, "the other list " + what)
            ctx.obs("bystander_checks")
    for only in (0, 1, 3, 4):
        check(g, L, pl, ctx, "at the end", only)
    for only in (0, 1, 3):
        check(g, B, by, ctx, "the other list at the end", only)
        ctx.obs("bystander_checks")
    ctx.nontrivial = True
    ctx.seen(tuple(s["t"] for s in flat(L["nodes"])), case["steps"])
