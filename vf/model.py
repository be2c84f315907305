"""Bridges between spec dictionaries (see ref.py), the library's public API, and CLF documents.

build_*   : spec -> objects of the code under test, through its public constructors and setters
emit_*    : spec -> CLF text, written here without the library, with surface variation
parse_*   : CLF text -> spec, read here without the library
"""
import math, struct, threading
import xml.etree.ElementTree as ET
import numpy as np
from . import env
from .core import call

IDENT_STYLES = {}
FE = ["integer16bit", "integer32bit", "integer64bit", "hex16bit", "hex32bit", "hex64bit"]

_probe = {}
THREADS = []         # the thread of each of those events
EVENTS = []          # call events of probe nodes: (tag, tuple(input values), tuple(output values))


def probe_class(clf):
    """A ProcessNode subclass registered through the library's own metaclass: an affine map that records its calls."""
    key = id(clf.ProcessNode)
    if key in _probe:
        return _probe[key]

    def __init__(self, inBitDepth="16f", outBitDepth="16f", id="", name="", a=1.0, b=0.0):
        clf.ProcessNode.__init__(self, "VFProbe", inBitDepth, outBitDepth, id, name)
        self.setAttribute("va", repr(float(a)))
        self.setAttribute("vb", repr(float(b)))

    def process(self, values, stride=0, verbose=False):
        a, b = float(self.getAttribute("va")), float(self.getAttribute("vb"))
        before = tuple(float(x) for x in values)
        out = np.array([np.float32(np.float64(x) * a + b) for x in values], dtype=np.float32)
        EVENTS.append((self.getAttribute("name"), before, tuple(float(x) for x in out)))
        THREADS.append(threading.get_ident())
        return out
    cls = type(clf.ProcessNode)("VFProbe", (clf.ProcessNode,), dict(__init__=__init__, process=process, __doc__="probe"))
    _probe[key] = cls
    return cls


# ------------------------------------------------------------------ spec -> library objects
LOGPARAMS = ("gamma", "refWhite", "refBlack", "highlight", "shadow", "channel")


def styled(s, default):
    """Keyword arguments for the style; sometimes the default one is left to the constructor."""
    return {} if s["style"] == default and len(s.get("name") or "") % 2 else dict(style=s["style"])


SHARED = {}


def build_node(s, clf):
    "The node s describes; nodes with the same 'same' entry are one object."
    if s.get("same") is None:
        return fresh_node(s, clf)
    if s["same"] not in SHARED:
        SHARED[s["same"]] = fresh_node(s, clf)
    return SHARED[s["same"]]


def fresh_node(s, clf):
    t = s["t"]
    a = [s.get("in", "16f"), s.get("out", "16f"), s.get("id", ""), s.get("name", "")]
    while a and a[-1] == ("16f" if len(a) < 3 else ""):
        a.pop()
    if t == "Matrix":
        n = clf.Matrix(*a)
        if s.get("enc"):
            n.setMatrix(list(s["dim"]), list(s["values"]), s["enc"])
        else:
            n.setMatrix(list(s["dim"]), list(s["values"]))
    elif t == "Range":
        if s.get("style") is None:
            n = clf.Range(*a)
        elif s.get("setstyle"):
            n = clf.Range(*a)
            n.setStyle(s["style"])
        else:
            n = clf.Range(*a, style=s["style"])
        if s.get("defaultRange") is not None:
            if isinstance(s["defaultRange"], bool):
                n.setDefaultRange(s["defaultRange"])
            else:
                n.setAttribute("defaultRange", s["defaultRange"])
        if s.get("minIn") is not None:
            n.setMinInValue(s["minIn"])
        if s.get("maxIn") is not None:
            n.setMaxInValue(s["maxIn"])
        if s.get("minOut") is not None:
            n.setMinOutValue(s["minOut"])
        if s.get("maxOut") is not None:
            n.setMaxOutValue(s["maxOut"])
    elif t in ("CDL", "CC"):
        if t == "CDL":
            n = clf.ASCCDL(*a, **styled(s, "Fwd")) if s.get("style") is not None else clf.ASCCDL(*a)
        else:
            n = clf.ColorCorrection(id=s.get("id", ""))
            if s.get("style") is not None:
                n.setAttribute("style", s["style"])
            for k, at in (("in", "inBitDepth"), ("out", "outBitDepth")):
                if s.get(k):
                    n.setAttribute(at, s[k])
            if s.get("name") is not None:
                n.setAttribute("name", s["name"])
        if s.get("slope"):
            n.setSlope(*s["slope"])
        if s.get("offset"):
            n.setOffset(*s["offset"])
        if s.get("power"):
            n.setPower(*s["power"])
        if s.get("saturation") is not None:
            n.setSaturation(s["saturation"])
    elif t == "LUT1D":
        kw = {}
        if s.get("interp") is not None:
            kw["interpolation"] = s["interp"]
        if s.get("rawHalfs") is not None:
            kw["rawHalfs"] = s["rawHalfs"]
        if s.get("halfDomain") is not None:
            kw["halfDomain"] = s["halfDomain"]
        n = clf.LUT1D(*a, **kw)
        maps = s.get("imaps") or []
        if maps and not s.get("mapslast"):
            n.setIndexMaps(*[[list(m[0]), list(m[1])] for m in maps])
        if s.get("enc"):
            n.setArray(s["channels"], list(s["values"]), s["enc"])
        else:
            n.setArray(s["channels"], list(s["values"]))
        if maps and s.get("mapslast"):
            n.setIndexMaps(*[[list(m[0]), list(m[1])] for m in maps])
    elif t == "LUT3D":
        kw = {}
        if s.get("interp") is not None:
            kw["interpolation"] = s["interp"]
        n = clf.LUT3D(*a, **kw)
        maps = s.get("imaps") or []
        if maps and not s.get("mapslast"):
            n.setIndexMaps(*[[list(m[0]), list(m[1])] for m in maps])
        if s.get("enc"):
            n.setArray(list(s["dim"]), list(s["values"]), s["enc"])
        else:
            n.setArray(list(s["dim"]), list(s["values"]))
        if maps and s.get("mapslast"):
            n.setIndexMaps(*[[list(m[0]), list(m[1])] for m in maps])
    elif t == "Gamma":
        n = clf.Gamma(*a, **styled(s, "basicFwd"))
        for g, o, c in s["params"]:
            if c is None and o == 0:
                n.setGamma(g)
            elif c is None:
                n.setGamma(g, o)
            else:
                n.setGamma(g, o, c)
    elif t == "Log":
        n = clf.Log(*a, **styled(s, "log10"))
        for k, p in enumerate(s["params"]):
            if (len(s["params"]) + k) % 2:
                n.setLogParams(*p)
            else:
                # what has its default value is left out
                n.setLogParams(**{q: v for q, v, d in zip(LOGPARAMS, p, (0.6, 685, 95, 1.0, 0.0, None)) if repr(v) != repr(d)})
    elif t == "EC":
        n = clf.ExposureContrast(*a, **styled(s, "linear"))
        if s.get("params"):
            n.setExposureContrastPivot(*s["params"])
    elif t == "Group":
        n = clf.Group(*a)
        for c in s["nodes"]:
            n.addProcess(build_node(c, clf))
    elif t == "Reference":
        n = clf.Reference(*a, path=s["path"], basePath=s.get("basePath", ""), alias=s.get("alias", ""))
    elif t == "Probe":
        n = probe_class(clf)(*a, a=s["a"], b=s["b"])
    else:
        raise AssertionError(t)
    if s.get("bypass") is not None:
        n.setAttribute("bypass", s["bypass"])
    for k, v in s.get("attrs", {}).items():
        n.setAttribute(k, v)
    for k, v in s.get("vals", {}).items():
        n.addValueElement(k, v)
    for e in s.get("elems", []):
        n.addElement(build_elem(e, clf))
    for d in s.get("desc", []):
        n.addElement(clf.Description(d))
    for d in s.get("dyn", []):
        n.setDynamicParam(d)
    return n


ELEM = {"desc": "Description", "in": "InputDescriptor", "out": "OutputDescriptor"}


def build_elem(e, clf):
    if e[0] == "info" and len(e) > 5 and e[5]:
        # entries the constructor does not take
        x = ET.Element("Info")
        for n, t in info_children(e):
            ET.SubElement(x, n).text = t
        i = clf.Info()
        i.read(x)
        return i
    return clf.Info(*e[1:3]) if e[0] == "info" else getattr(clf, ELEM[e[0]])(e[1])


def build_list(L, clf, nodes=None):
    """L: {"attrs":{}, "vals":{}, "elems":[["desc",text],["info",app,copyright]...], "nodes":[...]}"""
    pl = clf.ProcessList()
    at = L.get("attrs", {})
    setters = dict(name=pl.setName, id=pl.setID, inverseOf=pl.setInverseOf, compCLFversion=pl.setCompCLFversion, xmlns=pl.setNamespace)
    for k, v in at.items():
        if k in setters:
            setters[k](v)
        else:
            pl.setAttribute(k, v)
    for k, v in L.get("vals", {}).items():
        pl.addValueElement(k, v)
    for e in L.get("elems", []):
        pl.addElement(build_elem(e, clf))
    SHARED.clear()
    for s in (L["nodes"] if nodes is None else nodes):
        pl.addProcess(build_node(s, clf))
    SHARED.clear()
    return pl


def make(nodes, clf, key="build", attrs=None):
    return call(key, build_list, dict(nodes=nodes, attrs=attrs or {"id": "t", "name": "t", "compCLFversion": 1.2}), clf)


# ------------------------------------------------------------------ CLF text, written without the library
def esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def qattr(s):
    return esc(s).replace('"', "&quot;")


def num(g, x, places=None):
    """One of several notations of x."""
    x = float(x)
    if g is None:
        return repr(x)
    k = g.randrange(6)
    if k == 0 and x == int(x) and abs(x) < 1e9:
        return "%d" % x
    if k == 1:
        return ("%.17e" % x)
    if k == 2:
        return ("%.17E" % x).replace("E+0", "E+00") if x else "0E0"
    if k == 3 and repr(x)[0] != "-":
        return "+" + repr(x)
    if k == 4 and 0 < abs(x) < 1 and "e" not in repr(x):
        return repr(x).replace("0.", ".", 1)
    return repr(x)


def encode(enc, v):
    if enc == "integer16bit":
        return str(int(np.float16(v).view(np.uint16)))
    if enc == "integer32bit":
        return str(int(np.float32(v).view(np.uint32)))
    if enc == "integer64bit":
        return str(int(np.float64(v).view(np.uint64)))
    if enc == "hex16bit":
        return "%04x" % int(np.float16(v).view(np.uint16))
    if enc == "hex32bit":
        return "%08x" % int(np.float32(v).view(np.uint32))
    if enc == "hex64bit":
        return "%016x" % int(np.float64(v).view(np.uint64))
    raise AssertionError(enc)


def decode(enc, t):
    if enc == "integer16bit":
        return float(np.uint16(int(t)).view(np.float16))
    if enc == "integer32bit":
        return float(np.uint32(int(t)).view(np.float32))
    if enc == "integer64bit":
        return float(np.uint64(int(t)).view(np.float64))
    if enc == "hex16bit":
        return float(np.uint16(int(t, 16)).view(np.float16))
    if enc == "hex32bit":
        return float(np.uint32(int(t, 16)).view(np.float32))
    if enc == "hex64bit":
        return float(np.uint64(int(t, 16)).view(np.float64))
    return float(t)


class Emitter:
    """Writes CLF text. g=None gives the plain canonical form; otherwise surface features vary with g."""

    def __init__(self, g=None, prefix=None, xmlns=None, us=None, unknown=False):
        self.g = g
        self.prefix = prefix
        self.xmlns = xmlns
        self.unknown = unknown

    def ch(self, p):
        return self.g is not None and self.g.random() < p

    def tag(self, name):
        if self.g is not None and name in ("ASC_CDL",):
            name = self.g.choice(["ASC_CDL", "ASC-CDL", "ASCCDL"])
        elif self.ch(0.15) and name in ("InputDescriptor", "OutputDescriptor", "IndexMap", "ExposureContrast", "SOPNode", "SatNode", "ColorCorrection"):
            i = next(k for k in range(1, len(name)) if name[k].isupper())
            name = name[:i] + self.g.choice("-_") + name[i:]
        return (self.prefix + ":" + name) if self.prefix else name

    def cased(self, name):
        """Both spellings of the ASC's own format, and others, are in use."""
        if self.ch(0.1):
            return self.g.choice([name.upper(), name.lower(), name.replace("SOP", "Sop"), name.replace("Sat", "SAT")])
        return name

    def ws(self):
        if self.g is None:
            return "\n"
        return self.g.choice(["", "\n", "\n\t", "  ", "\r\n", "\n\n  "])

    def junk(self):
        out = self.ws()
        if self.ch(0.15):
            out += self.g.choice(["<!-- a comment -->", "<!-- <Matrix/> & stuff -->", "<?pi data?>", "<!---->"]) + self.ws()
        return out

    def el(self, name, attrs, children):
        """attrs: list of (k,v); children: list of already written strings, or one text string"""
        attrs = [(k, v) for k, v in attrs if v is not None]
        if self.g is not None:
            self.g.shuffle(attrs)
        q = self.g.choice("\"'") if self.g is not None else '"'
        at = ""
        for k, v in attrs:
            v = qattr(str(v)) if q == '"' else esc(str(v)).replace("'", "&apos;")
            at += (self.g.choice([" ", "  ", "\n "]) if self.g is not None else " ") + "%s%s%s%s%s" % (k, self.g.choice(["=", " = "]) if self.g is not None else "=", q, v, q)
        t = self.tag(name)
        if isinstance(children, str):
            return "<%s%s>%s</%s%s>" % (t, at, children, t, " " if self.ch(0.1) else "")
        if not children:
            return "<%s%s/>" % (t, at)
        return "<%s%s>%s</%s>" % (t, at, "".join(self.junk() + c for c in children) + self.junk(), t)

    def n(self, x):
        return num(self.g, x)

    def numbers(self, xs, sep=None):
        if self.g is None:
            return " ".join(self.n(x) for x in xs)
        # 65536-entry tables: one notation only
        if len(xs) > 2000:
            return "\n".join(repr(float(x)) for x in xs)
        j = self.g.randrange(30)
        if j == 0 and len(xs) > 1:
            # a comment or CDATA section within the numbers is not part of their text
            k = self.g.randrange(1, len(xs))
            a, b = " ".join(self.n(x) for x in xs[:k]), " ".join(self.n(x) for x in xs[k:])
            return self.g.choice([a + " <!-- 7 8 9 -->" + b, "<![CDATA[" + a + " ]]>" + b, a + "&#32;" + b, a + "&#10;" + b])
        return self.g.choice(["", "\n", " "]) + "".join(self.n(x) + self.g.choice([" ", "  ", "\n", "\t"]) for x in xs)

    def array(self, dim, values, enc=None, raw=False, integers=False):
        at = [("dim", " ".join(map(str, dim)))]
        if enc:
            at.append(("floatEncoding", enc))
            toks = [encode(enc, v) for v in values]
            if self.g is not None and enc.startswith("hex"):
                toks = [t.upper() if self.g.random() < 0.5 else t for t in toks]
            txt = " ".join(toks)
        elif raw:
            txt = " ".join(encode("integer16bit", v) for v in values)
        else:
            txt = self.numbers(values)
        return self.el("Array", at, txt)

    def imap(self, m):
        toks = ["%s@%s" % (self.n(a), self.n(b) if self.g is not None else repr(float(b))) for a, b in zip(m[0], m[1])]
        sep = (lambda: " ") if self.g is None else (lambda: self.g.choice([" ", "\n", "  "]))
        return self.el("IndexMap", [("dim", len(m[0]))], "".join(sep() + t for t in toks))

    def boolean(self, v):
        if isinstance(v, bool):
            if self.g is None:
                return "True" if v else "False"
            return self.g.choice(["true", "True", "TRUE"] if v else ["false", "False", "FALSE"])
        return v

    def node(self, s):
        t = s["t"]
        at = [("inBitDepth", s.get("in")), ("outBitDepth", s.get("out")), ("id", s.get("id")), ("name", s.get("name"))]
        if s.get("bypass") is not None:
            at.append(("bypass", self.boolean(s["bypass"])))
        at += list(s.get("attrs", {}).items())
        ch = [self.elem(e) for e in s.get("elems", [])]
        ch += [self.el("Description", [], esc(d)) for d in s.get("desc", [])]
        ch += [self.el("DynamicParameter", [("param", d)], []) for d in s.get("dyn", [])]
        group_nodes = []
        tag = t
        if t == "Matrix":
            ch.append(self.array(s["dim"], s["values"], s.get("enc")))
        elif t == "Range":
            at += [("style", s.get("style"))]
            if s.get("defaultRange") is not None:
                at.append(("defaultRange", self.boolean(s["defaultRange"])))
            for k, e in (("minIn", "minInValue"), ("maxIn", "maxInValue"), ("minOut", "minOutValue"), ("maxOut", "maxOutValue")):
                if s.get(k) is not None:
                    ch.append(self.el(e, [], " " * (1 if self.ch(0.3) else 0) + self.n(s[k])))
        elif t in ("CDL", "CC"):
            tag = "ASC_CDL" if t == "CDL" else "ColorCorrection"
            at.append(("style", s.get("style")))
            sop = [self.el(e, [], self.numbers(s[k])) for k, e in (("slope", "Slope"), ("offset", "Offset"), ("power", "Power")) if s.get(k)]
            if self.g is not None:
                self.g.shuffle(sop)
            def inside(x):
                # the nodes of the ASC CDL format may describe themselves
                for _ in range(self.g.randrange(1, 3) if self.ch(0.15) else 0):
                    x.insert(self.g.randrange(len(x) + 1), self.el("Description", [], "about the grade 1 2 3"))
                return x
            if sop:
                ch.append(self.el(self.cased("SOPNode"), [], inside(sop)))
            if s.get("saturation") is not None:
                ch.append(self.el(self.cased("SatNode"), [], inside([self.el("Saturation", [], self.n(s["saturation"]))])))
        elif t == "LUT1D":
            at.append(("interpolation", s.get("interp")))
            for k in ("rawHalfs", "halfDomain"):
                if s.get(k) is not None:
                    at.append((k, self.boolean(s[k])))
            raw = s.get("rawHalfs")
            raw = raw if isinstance(raw, bool) else str(raw).lower() == "true"
            maps = [self.imap(m) for m in s.get("imaps") or []]
            arr = [self.array([len(s["values"]) // s["channels"], s["channels"]], s["values"], s.get("enc"), raw)]
            ch += (arr + maps) if self.ch(0.5) else (maps + arr)
        elif t == "LUT3D":
            at.append(("interpolation", s.get("interp")))
            maps = [self.imap(m) for m in s.get("imaps") or []]
            arr = [self.array(list(s["dim"]) + [3], s["values"], s.get("enc"))]
            ch += (arr + maps) if self.ch(0.5) else (maps + arr)
        elif t == "Gamma":
            at.append(("style", s["style"]))
            for g, o, c in s["params"]:
                ch.append(self.el("GammaParams", [("gamma", self.n(g)), ("offset", None if o == 0 and not self.ch(0.3) else self.n(o)), ("channel", c)], []))
        elif t == "Log":
            at.append(("style", s["style"]))
            for p in s["params"]:
                keys = ["gamma", "refWhite", "refBlack", "highlight", "shadow"]
                dflt = [0.6, 685.0, 95.0, 1.0, 0.0]
                ch.append(self.el("LogParams", [(k, None if v == d and self.ch(0.7) else self.n(v)) for k, v, d in zip(keys, p, dflt)] + [("channel", p[5])], []))
        elif t == "EC":
            tag = "ExposureContrast"
            at.append(("style", s["style"]))
            if s.get("params"):
                ch.append(self.el("ECParams", [(k, None if v == d and self.ch(0.7) else self.n(v)) for k, v, d in zip(("exposure", "contrast", "pivot"), s["params"], (0.0, 1.0, 1.0))], []))
        elif t == "Group":
            group_nodes = [self.node(c) for c in s["nodes"]]
        elif t == "Reference":
            at += [("path", s["path"]), ("basePath", s.get("basePath") or None), ("alias", s.get("alias") or None)]
        elif t == "Probe":
            tag = "VFProbe"
            at += [("va", repr(float(s["a"]))), ("vb", repr(float(s["b"])))]
        if self.g is not None and t not in ("Gamma", "Log", "LUT1D", "LUT3D", "Group"):
            d = [c for c in ch if "Description" in c[:30] or "DynamicParam" in c[:40]]
            o = [c for c in ch if c not in d]
            # descriptions keep their own order; their position among the others is free
            self.g.shuffle(o)
            k = self.g.randrange(len(o) + 1)
            ch = o[:k] + d + o[k:]
        if self.unknown and self.ch(0.3) and t != "Group":
            ch.insert(self.g.randrange(len(ch) + 1), self.unk())
        if group_nodes:
            k = self.g.randrange(len(group_nodes) + 1) if self.g is not None else 0
            j = self.g.randrange(len(ch) + 1) if self.g is not None else len(ch)
            ch = group_nodes[:k] + ch[:j] + group_nodes[k:] + ch[j:]
        return self.el(tag, at, ch)

    def elem(self, e):
        if e[0] == "info":
            return self.el("Info", [], [self.el(n, [], esc(t)) for n, t in info_children(e)])
        return self.el(ELEM[e[0]], [], esc(e[1]))

    def unk(self):
        return self.g.choice(["<vendorThing a=\"1\"/>", "<Extra><Slope>9 9 9</Slope><Array dim=\"1\">7</Array></Extra>", "<x-note>text</x-note>", "<ext.Description>not ours</ext.Description>", "<Vendor.Range/>", "<v.Info><AppRelease>1</AppRelease></v.Info>", "<Unknown1 inBitDepth=\"8i\"><minInValue>3</minInValue></Unknown1>"])

    def document(self, L):
        at = []
        for k, v in L.get("attrs", {}).items():
            if k == "xmlns":
                continue
            at.append((k, v))
        if self.prefix:
            at.append(("xmlns:" + self.prefix, self.xmlns or "urn:vf:test"))
        elif self.xmlns:
            at.append(("xmlns", self.xmlns))
        ch = []
        for e in L.get("elems", []):
            ch.append(self.elem(e))
        nodes = [self.node(s) for s in L["nodes"]]
        if self.g is not None and ch and self.ch(0.4):
            # descriptors may also stand between or after the process nodes; both orders are kept
            k = self.g.randrange(len(ch) + 1)
            tail = ch[k:]
            ch = ch[:k]
            j = self.g.randrange(len(nodes) + 1)
            nodes[j:j] = tail
        if self.unknown and self.ch(0.6):
            ch.append(self.unk())
        if self.unknown and self.ch(0.6):
            nodes.insert(self.g.randrange(len(nodes) + 1), self.unk())
        body = self.el("ProcessList", at, ch + nodes)
        head = '<?xml version="1.0" encoding="UTF-8"?>\n'
        enc = "utf-8"
        if self.g is not None:
            k = self.g.randrange(5)
            if k == 0:
                head = ""
            elif k == 1:
                head, enc = '<?xml version="1.0" encoding="UTF-16"?>', "utf-16"
            elif k == 2:
                head, enc = "<?xml version='1.0' encoding='ISO-8859-1' standalone='yes'?>\n", "latin-1"
            elif k == 3:
                head = '<?xml version="1.0"?>\n<!-- leading comment -->\n'
        text = head + body + ("\n" if self.g is None or self.ch(0.5) else "\n<!-- end -->\n")
        if enc == "latin-1":
            return text.encode("latin-1", "xmlcharrefreplace")
        return text.encode(enc)


def info_children(e):
    """["info", application release, copyright, release, order, further entries] -> [(element, text)]"""
    out = [(n, t) for n, t in zip(("AppRelease", "Copyright", "Release"), e[1:4]) if t]
    out = [out[k % len(out)] for k in range(e[4], e[4] + len(out))] if len(e) > 4 and out else out
    return out + [tuple(x) for x in (e[5] if len(e) > 5 else [])]


def emit(nodes, g=None, attrs=None, elems=(), **kw):
    return Emitter(g, **kw).document(dict(attrs=attrs or {"id": "t", "name": "t", "compCLFversion": "1.2"}, elems=list(elems), nodes=nodes))


# ------------------------------------------------------------------ CLF text, read without the library
class Malformed(Exception):
    pass


def local(tag):
    return tag[tag.find("}") + 1:].replace("-", "").replace("_", "")


def parse_array(e, raw=False):
    if e is None or e.text is None:
        raise Malformed("no Array")
    dim = [int(x) for x in e.get("dim").split()]
    enc = e.get("floatEncoding")
    toks = e.text.split()
    vals = [decode("integer16bit" if raw and not enc else enc, t) for t in toks]
    cnt = 1
    for d in (dim[:2] if len(dim) != 4 else dim):
        cnt *= d
    if cnt != len(vals):
        raise Malformed("Array dim %s holds %d values" % (dim, len(vals)))
    return dim, vals, enc


def parse_imap(e):
    prs = [t.split("@") for t in (e.text or "").split()]
    if int(e.get("dim")) != len(prs):
        raise Malformed("IndexMap dim %s holds %d pairs" % (e.get("dim"), len(prs)))
    return [[float(a) for a, _ in prs], [float(b) for _, b in prs]]


NODES = dict(Matrix="Matrix", Range="Range", ASCCDL="CDL", ColorCorrection="CC", LUT1D="LUT1D", LUT3D="LUT3D", Gamma="Gamma", Log="Log",
             ExposureContrast="EC", Group="Group", Reference="Reference", VFProbe="Probe")


def parse_node(e, resolve=None):
    t = NODES[local(e.tag)]
    s = {"t": t, "tag": local(e.tag)}
    s["in"], s["out"] = e.get("inBitDepth"), e.get("outBitDepth")
    s["allattrs"] = dict(e.attrib)
    for k in ("id", "name", "bypass", "style"):
        if e.get(k) is not None:
            s[k] = e.get(k)
    kids = [(local(c.tag), c) for c in e]
    s["desc"] = [c.text for k, c in kids if k == "Description"]
    s["dyn"] = [c.get("param") for k, c in kids if k == "DynamicParameter"]
    s["elems"] = [parse_elem(c) for k, c in kids if k in ("InputDescriptor", "OutputDescriptor", "Info")]
    one = lambda n: next((c for k, c in kids if k == n), None)
    if t in ("Matrix", "LUT1D", "LUT3D"):
        arrs = [c for k, c in kids if k == "Array"]
        if len(arrs) != 1:
            raise Malformed("%s with %d Array elements" % (t, len(arrs)))
        raw = t == "LUT1D" and (e.get("rawHalfs") or "").lower() == "true"
        dim, vals, enc = parse_array(arrs[0], raw)
        s["values"], s["arrdim"], s["encoding"] = vals, dim, enc
        s["tokens"] = arrs[0].text.split() if len(vals) <= 4096 else None
        if t == "Matrix":
            s["dim"] = dim
        elif t == "LUT1D":
            s["channels"] = dim[1]
        else:
            if len(dim) != 4 or dim[3] != 3:
                raise Malformed("LUT3D dim %s" % dim)
            s["dim"] = dim[:3]
        if t != "Matrix":
            s["imaps"] = [parse_imap(c) for k, c in kids if k == "IndexMap"]
            if len(s["imaps"]) not in (0, 1, 3):
                raise Malformed("%d index maps" % len(s["imaps"]))
            s["interp"] = e.get("interpolation")
        if t == "LUT1D":
            s["halfDomain"], s["rawHalfs"] = e.get("halfDomain"), e.get("rawHalfs")
    elif t == "Range":
        s["defaultRange"] = e.get("defaultRange")
        for k, n in (("minIn", "minInValue"), ("maxIn", "maxInValue"), ("minOut", "minOutValue"), ("maxOut", "maxOutValue")):
            c = one(n)
            if c is not None:
                s[k] = float(c.text)
    elif t in ("CDL", "CC"):
        kids = [({"sopnode": "SOPNode", "satnode": "SatNode"}.get(k.lower(), k), c) for k, c in kids]
        sop, sat = one("SOPNode"), one("SatNode")
        for c in (sop if sop is not None else []):
            if local(c.tag) == "Description":
                continue
            s[local(c.tag).lower()] = [float(x) for x in c.text.split()]
        for c in (sat if sat is not None else []):
            if local(c.tag) == "Description":
                continue
            s["saturation"] = float(c.text)
    elif t == "Gamma":
        s["params"] = [[float(c.get("gamma")), float(c.get("offset") or 0.0), c.get("channel")] for k, c in kids if k == "GammaParams"]
    elif t == "Log":
        s["params"] = [[float(c.get(k2) if c.get(k2) is not None else d) for k2, d in
                        (("gamma", 0.6), ("refWhite", 685.0), ("refBlack", 95.0), ("highlight", 1.0), ("shadow", 0.0))] + [c.get("channel")]
                       for k, c in kids if k == "LogParams"]
    elif t == "EC":
        c = one("ECParams")
        s["params"] = [0.0, 1.0, 1.0] if c is None else [float(c.get(k2) if c.get(k2) is not None else d) for k2, d in
                                                         (("exposure", 0.0), ("contrast", 1.0), ("pivot", 1.0))]
    elif t == "Group":
        s["nodes"] = [parse_node(c, resolve) for k, c in kids if k in NODES]
    elif t == "Reference":
        for k in ("path", "basePath", "alias"):
            if e.get(k):
                s[k] = e.get(k)
        s["nodes"] = resolve(s) if resolve else None
    elif t == "Probe":
        s["a"], s["b"] = float(e.get("va")), float(e.get("vb"))
    known = {"InputDescriptor", "OutputDescriptor", "Info", "Description", "DynamicParameter", "Array", "IndexMap", "SOPNode", "SatNode", "GammaParams", "LogParams", "ECParams",
             "minInValue", "maxInValue", "minOutValue", "maxOutValue"} | set(NODES)
    s["vals"] = {k: c.text for k, c in kids if k not in known}
    return s


def parse_elem(c):
    k = local(c.tag)
    if k == "Info":
        return ["info"] + [[local(x.tag), x.text or ""] for x in c]
    return [next(a for a, b in ELEM.items() if b == k), c.text or ""]


def parse_document(data, resolve=None):
    """bytes -> {"attrs", "xmlns", "elems", "vals", "nodes"} ; raises on anything that is not one well-formed document"""
    try:
        root = ET.fromstring(data)
    except ET.ParseError as e:
        raise Malformed("not well-formed: %s" % e)
    if local(root.tag) != "ProcessList":
        raise Malformed("root element %s" % root.tag)
    L = dict(attrs=dict(root.attrib), xmlns=root.tag[1:root.tag.find("}")] if root.tag.startswith("{") else None, elems=[], vals={}, nodes=[])
    rev = {v: k for k, v in ELEM.items()}
    for c in root:
        k = local(c.tag)
        if k in NODES:
            L["nodes"].append(parse_node(c, resolve))
        elif k in rev or k == "Info":
            L["elems"].append(parse_elem(c))
        else:
            L["vals"][k] = c.text or ""
    return L


def read_bytes(path):
    """The document held by the file, and whether it is gzip-compressed."""
    import zlib
    data = open(path, "rb").read()
    if data[:2] == b"\x1f\x8b":
        d = zlib.decompressobj(31)
        out = d.decompress(data) + d.flush()
        if not d.eof or d.unused_data:
            raise Malformed("truncated gzip member or trailing bytes")
        return out, True
    return data, False
