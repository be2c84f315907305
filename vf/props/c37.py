"""Verbose processing reports every step truthfully and changes nothing."""
import random, re
from .. import env, gen as G, nodecheck, ref, model
from ..common import clf, run as process, same
from ..core import fail, Skip, call
PROP = "C37"
RULE = "a list processed verbosely, its captured report compared step by step with the values recording nodes saw"
CASES = dict(quick=1000, thorough=40000)
NEED = dict(reports=1500, values_judged=8000, node_lines=3000, bypass_lines=150, adapter_lines=50, ignored_lines=60, group_children=150, references=60, strided_reports=400, quiet_calls=800)
FEAT = {"CLF": 0, "Autodesk": 1, "Duiker Research": 2, "All": 15}


def gen(g, tier, i):
    n = 0 if i % 80 == 0 else g.choice([1, 1, 2, 3, 4, 6])
    rows = g.choice([3, 3, 4])
    feat = g.choice(["All", "All", "Autodesk", "CLF", "Duiker Research"])
    via = g.choice(["api", "api", "file", "roundtrip"])
    nodes = []
    for s in G.chain(g, n, filesafe=True, rows=rows):
        if s["t"] in ("CDL", "CC") and s.get("style") in G.AUTODESK_STYLES:
            s["style"] = ref.CDL_ALIAS[s["style"]]
        nodes.append(s)
    for k, s in enumerate(nodes):
        s["in"], s["out"] = s["in"] or "16f", s["out"] or "16f"
        s["name"] = g.choice(["n%d", "node %d", "N-%d (Matrix)", "%d: x", "a=%d%%", "step %d - result value : 1"]).replace("%d", str(k)).replace("%%", "%")
        if g.random() < 0.35:
            s["bypass"] = g.choice([True, True, "true", "TRUE", False, "false"])
    # a recording node before, between and after all nodes
    out = []
    for s in nodes + [None]:
        q = G.probe(g)
        near = s or (nodes[-1] if nodes else {"in": "16f", "out": "16f"})
        d = near["in" if s else "out"] or "16f"
        q.update({"in": G.depth(g) if g.random() < 0.4 else d, "id": "", "name": "probe%d" % len(out)})
        q["out"] = q["in"]
        out.append(q)
        if s is not None:
            out.append(s)
    if g.random() < 0.1:
        # a reference that cannot be resolved changes nothing
        r = G.reference(g, [], 900, missing=True)
        r["in"] = r["out"] = "16f"
        out.insert(g.randrange(1, len(out) + 1), r)
    nodes = (G.nest if g.random() < 0.4 else G.refnest)(g, out, 0.7)

    def wrap(ns):
        for k, s in enumerate(ns):
            if s["t"] in ("Group", "Reference"):
                s["name"] = g.choice(["grp%d", "group (%d)", "r %d"]).replace("%d", str(k))
                if g.random() < 0.12:
                    s["bypass"] = g.choice([True, "true"])
                wrap(s.get("nodes") or [])
    wrap(nodes)
    stride = G.strides(g, G.rows(nodes))
    px = []
    for _ in range(12):
        p = G.pixels(g, 1, stride, "16f" if g.random() < 0.5 else nodes[0].get("in") or "16f")[0]
        if tame(nodes, p, FEAT[feat]):
            px.append(p)
    return nodecheck.make_case(g, nodes, px[:3], stride, via, feat=feat)


def tame(nodes, p, feat):
    from .c12 import tame as t
    return t(nodes, p, feat)


RESULT = re.compile(r"^(Group - )?(.*) \((\w+)\) - result value : (.*?)(?:, result type : .*)?$")
SKIPPED = re.compile(r"^(.*) \((\w+)\) - bypassing$")
IGNORED = re.compile(r"^(.*) \((\w+)\) - bypass ignored\b")
ADAPT = re.compile(r"^(.*) \((\w+)\) - Adding a Range node to adapt bit depth (\S+) to bit depth (\S+)$")
START = re.compile(r"^Processing (\d+) values\. Stride size: (\d+)$")
REFER = re.compile(r"^Reference processing - (begin|end)$")


def parse(text):
    out = []
    for line in text.split("\n"):
        line = line.strip()
        for kind, r in (("ignored", IGNORED), ("adapt", ADAPT), ("skipped", SKIPPED), ("start", START), ("reference", REFER), ("result", RESULT)):
            m = r.match(line)
            if m:
                g = list(m.groups())
                if kind == "result":
                    try:
                        values = [float(x) for x in g[3].split()]
                    except ValueError:
                        # the name itself contains the words
                        head, _, tail = line.rpartition(" - result value : ")
                        mm = re.match(r"^(Group - )?(.*) \((\w+)\)$", head)
                        if not mm:
                            continue
                        g = list(mm.groups()) + [tail]
                        values = [float(x) for x in tail.split(", result type")[0].split()]
                    out.append((kind, bool(g[0]), g[1], g[2], values))
                elif kind == "start":
                    out.append((kind, int(g[0]), int(g[1])))
                else:
                    out.append((kind,) + tuple(g))
                break
    return out


def expected(nodes, feat, n, stride, top=True):
    """The report's lines, in order."""
    out = [("start", n, stride)] if top else []
    for i, s in enumerate(nodes):
        t = TYPE.get(s["t"], s["t"])
        if ref.bypassed(s, feat):
            out.append(("skipped", s["name"], t))
            a = nodes[i - 1]["out"] if i > 0 else s["in"]
            b = nodes[i + 1]["in"] if i + 1 < len(nodes) else s["out"]
            if (a or "16f") != (b or "16f"):
                out.append(("adapt", s["name"], t, a or "16f", b or "16f"))
                out.append(("result", None, "adapter", "Range", "leaf"))
        else:
            if s["t"] == "Group":
                out += expected(s["nodes"], feat, n, stride, False)
            elif s["t"] == "Reference":
                out += [("reference", "begin")] + (expected(s["nodes"], feat, n, stride, True) if s.get("nodes") is not None else []) + [("reference", "end")]
            out.append(("result", None if top else True, s["name"], t, "probe" if s["t"] == "Probe" else "wrapper" if s["t"] in ("Group", "Reference") else "leaf"))
            if top and ref.truthy(s.get("bypass")):
                out.append(("ignored", s["name"], t))
    return out


TYPE = {"Probe": "VFProbe", "CDL": "ASC_CDL", "CC": "ColorCorrection", "EC": "ExposureContrast"}


def agree(printed, x):
    return (printed != printed and x != x) or printed == x or abs(printed - x) <= 6e-7 + 1e-9 * abs(x)


def check(text, case, nodes, feat, events, arg, got, stride, shown, ctx):
    want, have = expected(nodes, feat, len(arg), shown), parse(text)
    key = "verbose"
    brief = [w[:4] for w in want]
    if len(have) != len(want):
        fail(key + ":lines", "%d reported steps instead of %d: %s instead of %s", len(have), len(want), [h[:4] for h in have], brief)
    # the value after the k-th line: known where a recording node follows, or at the end
    ev = iter(events)
    pend = []
    for h, w in zip(have, want):
        if h[0] != w[0]:
            fail(key + ":step", "the report says %s where %s happened", h, w)
        if h[0] == "start":
            if h[1:] != w[1:]:
                fail(key + ":start", "%s instead of %s", h, w)
        elif h[0] in ("skipped", "ignored", "adapt"):
            if h[1:3] != w[1:3] or (h[0] == "adapt" and h[3:] != w[3:]):
                fail(key + ":step", "%s instead of %s", h, w)
            ctx.obs({"skipped": "bypass_lines", "ignored": "ignored_lines", "adapt": "adapter_lines"}[h[0]])
        elif h[0] == "reference":
            if h != w:
                fail(key + ":step", "%s instead of %s", h, w)
            ctx.obs("references", h[1] == "begin")
        else:
            if h[2:4] != w[2:4]:
                fail(key + ":node", "the result of %s (%s) is reported as that of %s (%s)", w[2], w[3], h[2], h[3])
            if w[1] and not h[1] or (not w[1] and h[1]):
                fail(key + ":group", "%s inside a group: %s, reported so: %s", w[2], bool(w[1]), h[1])
            ctx.obs("group_children", bool(w[1]))
            ctx.obs("node_lines")
            if w[4] == "probe":
                name, before, after = next(ev)
                if name != w[2]:
                    fail(key + ":order", "%s was called where the report has %s", name, w[2])
                for q in pend:
                    compare(q, before, ctx)
                pend = []
                compare(h, after, ctx)
            elif w[4] == "leaf":
                # what was reported before it is known only where a recording node saw it
                pend = [h]
            else:
                pend.append(h)
    for q in pend:
        compare(q, got, ctx)
    ctx.obs("reports")


def compare(h, x, ctx):
    if len(h[4]) != len(x):
        fail("verbose:count", "%s: %d values reported, %d produced", h[2], len(h[4]), len(x))
    for k, (a, b) in enumerate(zip(h[4], x)):
        if not agree(a, b):
            fail("verbose:value", "%s (%s): value %d is reported as %r, it is %r", h[2], h[3], k, a, b)
    ctx.obs("values_judged", len(x))


def run(case, ctx):
    if not case["pixels"]:
        raise Skip("no tame pixel")
    nodes, feat, stride = nodecheck.materialise(case["nodes"], ctx), FEAT[case["feat"]], case["stride"]
    pl = nodecheck.obtain(case, ctx, "verbose", nodes)
    c = clf()
    call("verbose:feature", c.setFeatureCompatibility, c.featureSets[case["feat"]])
    flat = [x for p in case["pixels"] for x in p]
    for values, st in [(p, 0) for p in case["pixels"][:2]] + [(flat, stride)]:
        arg = nodecheck.arg(case["arg"], values)
        with env.capture() as b:
            plain = process(pl, arg, st, key="verbose:quiet")
        if parse(b.getvalue()):
            fail("verbose:quiet", "a call that is not verbose reports %r", b.getvalue()[:200])
        ctx.obs("quiet_calls")
        del model.EVENTS[:]
        with env.capture() as b:
            got = process(pl, arg, st, key="verbose", verbose=True)
        if not same(got, plain):
            fail("verbose:result", "verbose processing gives %r, plain processing %r", got[:6], plain[:6])
        check(b.getvalue(), case, nodes, feat, model.EVENTS[:], values, got, st, st, ctx)
        ctx.obs("strided_reports", st > 0)
    ctx.nontrivial = len(nodes) > 1
    ctx.seen(case["feat"], case["via"], tuple(s["t"] for s in nodes)[:4])
