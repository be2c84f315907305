"""Process lists are exported to LUT files that sample them faithfully."""
import os, random
from .. import env, gen as G, ref, lutio, model, nodecheck
from ..common import load, run as process, reset_features
from ..core import fail, call, Skip
PROP = "C23"
RULE = "one export of a list to a LUT file, parsed by an independent reader and compared with the list at every grid position (or one refused export)"
CASES = dict(quick=1300, thorough=50000)
NEED = dict(spi1d=150, spi3d=100, csp1D=100, csp3D=100, ctl1D=100, ctl3D=100, large_cubes=1, refused=100, entries_judged=20000, read_back=300, replaced=200)
OK = {"spi1d": ["1D"], "spi3d": ["3D"], "csp": ["1D", "3D"], "ctl": ["1D", "3D"]}
REFUSED = [("spi1d", "3D"), ("spi3d", "1D"), ("clf", "1D"), ("clf", "3D"), ("spimtx", "1D"), ("spimtx", "3D"), ("ctl", "1D_3D_1D"), ("spi1d", "1D_3D_1D"), ("spi3d", "1D_3D_1D"), ("xyz", "1D"), ("", "1D"), ("cube", "3D"), ("ctf", "1D_3D_1D")]
LIB = []


def setup():
    LIB.append(load("aces.lutFormats"))


def gen(g, tier, i):
    if g.random() < 0.12:
        ext, mode = g.choice(REFUSED)
    else:
        ext = g.choice(["spi1d", "spi3d", "csp", "csp", "ctl", "ctl"])
        mode = g.choice(OK[ext])
    nodes = G.chain(g, g.randrange(0, 4), rows=3)
    nodes = G.nest(g, nodes, 0.3)
    if g.random() < 0.2 and nodes:
        nodes[g.randrange(len(nodes))]["bypass"] = g.choice([True, False])
    din = (G.flatten(nodes) or [{"in": "16f"}])[0]["in"] or "16f"
    s = ref.size(din)
    lo, hi = g.choice([(0.0, 1.0), (0.0, 1.0), (0.0, 1.0), (-0.25, 1.5), (0.0, 4.0), (0.1, 0.9), (-1.0, 1.0), (0.5, 2.5), (0.001, 16.0), (-2.5, -0.5), (0.12345, 3.45678), (-0.00015, 1.0), (0.0, 1.0003), (0.0, 65504.0)])
    return dict(nodes=nodes, ext=ext, mode=mode, up=g.random() < 0.2, range=[lo * s, hi * s], defrange=(lo, hi) == (0.0, 1.0) and s == 1.0 and g.random() < 0.5,
                n1=g.choice([2, 3, 5, g.randrange(2, 50), 33]) if g.random() < 0.99 else g.choice([256, 1024, 4097, 5000]), n3=g.choice([2, 2, 3, 3, 4, 5]) if g.random() < 0.988 else g.choice([17, 33, 34, 36]), prev=g.random() < 0.3, other=[g.randrange(2, 6), g.randrange(2, 6)])


def grid(lo, hi, n, k, N):
    return N.r(lo + k / (n - 1.0) * (hi - lo))


def close(a, b):
    return all(abs(x - y) <= 1e-6 + 1e-6 * abs(y) for x, y in zip(a, b))


def run(case, ctx):
    L = LIB[0]
    from ..common import clf
    c = clf()
    reset_features()
    nodes, ext, mode, (lo, hi), n1, n3 = case["nodes"], case["ext"], case["mode"], case["range"], case["n1"], case["n3"]
    pl = model.make(nodes, c, "export:build")
    p = ctx.path("out" + ("." + (ext.upper() if case["up"] else ext) if ext else ""))
    what = "%s %s, resolution %d/%d, range %r" % (ext, mode, n1, n3, [lo, hi])
    kw = {} if case["defrange"] else dict(inputMin=lo, inputMax=hi)
    refused = mode not in OK.get(ext, [])
    if case["prev"] and not refused:
        with open(p, "w") as fh:
            fh.write("old\n" * 20000)
        ctx.obs("replaced")
    with env.capture() as buf:
        call("export", L.Registry.write, pl, p, mode, n1, n3, [case["other"][0], case["other"][1], 3], **kw)
    if not refused and "not currently supported" in buf.getvalue():
        fail("export:reported", "%s: the export was made, yet it was reported as unsupported: %s", what, buf.getvalue()[-200:])
    if refused:
        if os.listdir(ctx.tmp):
            fail("export:file", "unsupported export %s created %s", what, os.listdir(ctx.tmp))
        if not buf.getvalue().strip():
            fail("export:silent", "unsupported export %s reported nothing", what)
        ctx.obs("refused")
        ctx.nontrivial = True
        return
    if os.listdir(ctx.tmp) != [os.path.basename(p)]:
        fail("export:file", "%s: files %s", what, os.listdir(ctx.tmp))
    text = open(p).read()
    try:
        S = CTLFile(text, mode) if ext == "ctl" else getattr(lutio, "read_" + ext)(text)
    except (lutio.Bad, ValueError, IndexError, KeyError) as e:
        fail("export:format", "%s: malformed file: %s %s", what, type(e).__name__, e)
    ctx.obs(ext + (mode if ext in ("csp", "ctl") else ""))
    ctx.seen(ext, mode, n1, n3, lo, hi)
    # declared range and resolution
    if ext == "spi1d":
        rng = [S["range"]]
        shape = [S["n"], S["comps"]]
        want = [n1, S["comps"] if S["comps"] in (1, 3) else 3]
    elif ext == "spi3d":
        rng, shape, want = [], S["dim"], [n3] * 3
    elif ext == "csp":
        rng, shape, want = [[q[0][0], q[0][-1]] for q in S["preluts"]], S["dim"], [n1] if mode == "1D" else [n3] * 3
        if S["kind"] != mode:
            fail("export:kind", "%s: file holds a %s LUT", what, S["kind"])
    else:
        rng, shape, want = S.ranges(), S.shape(), [n1] if mode == "1D" else [n3] * 3
    if shape != want:
        fail("export:resolution", "%s: file holds %s", what, shape)
    for r in rng:
        if not close(r, [lo, hi]):
            fail("export:range", "%s: file declares %s", what, r)
    prec = 6e-7 if ext == "csp" or (ext, mode) == ("ctl", "3D") else 0.0
    # every entry
    def judge(entry, ks, n, where):
        ref.judge(entry, lambda N: ref.apply_list(nodes, [G.f32(grid(lo, hi, n, k, N)) if not N.noisy else grid(lo, hi, n, k, N) for k in ks], N), "export", "%s, %s" % (what, where), prec, 1e-6)
        ctx.obs("entries_judged")
    skipped = 0
    if mode == "1D":
        n = n1
        for k in range(n):
            x = [grid(lo, hi, n, k, ref.EXACT)] * 3
            if not G.tame(nodes, x, 1e5):
                skipped += 1
                continue
            judge(entry1(S, ext, k, x), [k] * 3, n, "entry %d" % k)
    else:
        n = n3
        lattice = [(r, gg, b) for r in range(n) for gg in range(n) for b in range(n)]
        if n > 8:
            # large cubes: a sample of the lattice
            lattice = lattice[:40] + lattice[-40:] + random.Random(n).sample(lattice, 600)
            ctx.obs("large_cubes")
        for ks in lattice:
            x = [grid(lo, hi, n, k, ref.EXACT) for k in ks]
            if not G.tame(nodes, x, 1e5):
                skipped += 1
                continue
            judge(entry3(S, ext, ks, n, x), ks, n, "entry %s" % (ks,))
    if skipped == (n if mode == "1D" else len(lattice)):
        raise Skip("no tame entry")
    # prelut of a .csp maps the range to [0,1]
    if ext == "csp":
        for q in S["preluts"]:
            if any(abs(lutio.pwl(q[0], q[1], lo + t * (hi - lo)) - t) > 1e-5 + 2e-6 / (hi - lo) for t in (0.0, 0.25, 0.5, 1.0)):
                fail("export:prelut", "%s: prelut %r", what, q)
    # read back
    if not skipped and (ext in ("spi1d", "csp") or ext == "spi3d" and (lo, hi) == (0.0, 1.0)):
        back = call("export:read", L.Registry.read, p)
        vs = [abs(v) for v in S["values"]]
        tol = 4e-6 * max(vs) * (n1 if mode == "1D" else n3) * max(1.0, max(abs(lo), abs(hi)) / (hi - lo)) + 1e-6
        g = random.Random(n1 * 7 + n3)
        for _ in range(5):
            ks = [g.randrange(n) for _ in range(3)]
            if mode == "1D":
                ks = [ks[0]] * 3
            x = [grid(lo, hi, n, k, ref.EXACT) for k in ks]
            e = entry1(S, ext, ks[0], x) if mode == "1D" else entry3(S, ext, ks, n, x)
            got = process(back, x, key="export:read")
            if any(abs(a - b) > tol for a, b in zip(got, e)):
                fail("export:read", "%s: reading back gives %r at grid position %s, the file holds %r", what, got, ks, e)
        ctx.obs("read_back")
    ctx.nontrivial = True


class CTLFile(lutio.CTL):
    "The program's tables and ranges, taken from the lookups its main function performs."

    def __init__(self, text, mode):
        lutio.CTL.__init__(self, text)
        self.mode = mode
        self.seen = []
        if [n for d, n in self.params if d == "input"] != ["rIn", "gIn", "bIn", "aIn"] or [n for d, n in self.params if d == "output"] != ["rOut", "gOut", "bOut", "aOut"]:
            raise lutio.Bad("parameters %s" % self.params)
        rec = self.seen

        def look1(t, lo, hi, x):
            rec.append(([len(t)], [lo, hi]))
            return lutio.CTL.look1(t, lo, hi, x)

        def look3(c, lo, hi, px):
            rec.append((lutio._shape(c)[:3], [lo, hi]))
            return lutio.CTL.look3(c, lo, hi, px)
        self.look1, self.look3 = look1, look3
        if len(self.run([0.5, 0.5, 0.5, 0.25])) != 4 or not rec:
            raise lutio.Bad("no lookups")
        self.first = list(rec)

    def shape(self):
        s = [q[0] for q in self.first]
        return s[0] if all(x == s[0] for x in s) else s

    def ranges(self):
        out = []
        for _, (lo, hi) in self.first:
            out += [[a, b] for a, b in zip(lo, hi)] if isinstance(lo, list) else [[lo, hi]]
        return out

    def at(self, x):
        r = self.run(list(x) + [0.25])
        if r[3] != 0.25:
            fail("export:alpha", "the CTL program turns alpha 0.25 into %r", r[3])
        return r[:3]


def entry1(S, ext, k, x):
    if ext == "ctl":
        return S.at(x)
    if ext == "spi1d" and S["comps"] == 1:
        return [S["values"][k]] * 3
    return S["values"][3 * k:3 * k + 3]


def entry3(S, ext, ks, n, x):
    if ext == "ctl":
        return S.at(x)
    i = ((ks[0] * n + ks[1]) * n + ks[2]) * 3
    return S["values"][i:i + 3]
