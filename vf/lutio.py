"""Independent writers (with surface variation) and strict readers of the .spi1d, .spi3d, .csp and .ctl LUT formats,
and interval evaluation of what a .csp file denotes. Nothing here imports the code under test."""
import bisect, itertools, re
from . import ref


class Bad(Exception):
    pass


# ------------------------------------------------------------------ writers
def num(g, x):
    x = float(x)
    k = g.randrange(6)
    if k == 0 and x == int(x) and abs(x) < 1e6:
        return "%d" % x
    if k == 1:
        return "%.12e" % x
    if k == 2:
        return "%.12E" % x
    if k == 3:
        return ("" if repr(x)[0] == "-" else "+") + repr(x)
    return repr(x)


def indent(g):
    return g.choice(["", "", " ", "    ", "\t", "        "])


def trail(g):
    return g.choice(["", "", "", " ", "\t", "  "])


def blanks(g, p=0.15):
    return g.choice(["", " ", "\t"]) if g.random() < p else None


def join(g, rows, blank=0.1):
    """rows of text -> file text with indentation, blank lines and one line-ending style."""
    nl = g.choice(["\n", "\n", "\n", "\r\n"])
    out = []
    first = True
    for r in rows:
        if not first:
            while g.random() < blank:
                out.append(g.choice(["", "", "  ", "\t"]))
        first = False
        out.append(r)
    txt = nl.join(out)
    return txt + g.choice([nl, nl, "", nl + nl])


def sep(g):
    return g.choice([" ", " ", "  ", "\t"])


def row(g, xs, ind=True):
    return (indent(g) if ind else "") + sep(g).join(num(g, x) for x in xs) + trail(g)


def spi1d(g, S):
    rows = ["Version 1", "From%s%s%s%s" % (sep(g), num(g, S["range"][0]), sep(g), num(g, S["range"][1])), "Length %d" % S["n"], "Components %d" % S["comps"], "{"]
    rows = [indent(g) + r + trail(g) if k else r + trail(g) for k, r in enumerate(rows)]
    c = S["comps"]
    for i in range(S["n"]):
        rows.append(row(g, S["values"][i * c:(i + 1) * c]))
    rows.append(indent(g) + "}" + trail(g))
    return join(g, rows)


def spi3d(g, S):
    d = S["dim"]
    rows = ["SPILUT 1.0" + trail(g), "3 3" + trail(g), indent(g) + " ".join(map(str, d)) + trail(g)]
    k = 0
    head = len(rows)
    for i in itertools.product(range(d[0]), range(d[1]), range(d[2])):
        rows.append(indent(g) + sep(g).join(map(str, i)) + sep(g) + row(g, S["values"][k:k + 3], False))
        k += 3
    if S.get("order") == "red":
        rows[head:] = [rows[head + (r * d[1] + gg) * d[2] + b] for b in range(d[2]) for gg in range(d[1]) for r in range(d[0])]
    elif S.get("order") == "any":
        body = rows[head:]
        g.shuffle(body)
        rows[head:] = body
    return join(g, rows)


META = ["", "made by x", "2", "0.0 1.0", "BEGIN", "1 2 3", "END", "CSPLUTV100", "3D", "#!?", "BEGIN METADATA x", "end metadata", "a metadata", "0.1 0.2 0.3"]


def csp(g, S):
    rows = ["CSPLUTV100" + trail(g), S["kind"] + trail(g)]
    if S["meta"] is not None:
        rows += [indent(g) + "BEGIN METADATA" + trail(g)] + [indent(g) + m for m in S["meta"]] + [indent(g) + "END METADATA" + trail(g)]
    for xs, ys in S["preluts"]:
        rows += [indent(g) + "%d" % len(xs) + trail(g), row(g, xs), row(g, ys)]
    rows.append(indent(g) + " ".join(map(str, S["dim"])) + trail(g))
    v = S["values"]
    if S["kind"] == "1D":
        for i in range(S["dim"][0]):
            rows.append(row(g, v[3 * i:3 * i + 3]))
    else:
        # values are held blue fastest; the file's samples come red fastest
        R, G, B = S["dim"]
        for b in range(B):
            for gg in range(G):
                for r in range(R):
                    k = ((r * G + gg) * B + b) * 3
                    rows.append(row(g, v[k:k + 3]))
    return join(g, rows)


# ------------------------------------------------------------------ readers
def _floats(s):
    try:
        return [float(t) for t in s.split()]
    except ValueError:
        raise Bad("not numbers: %r" % s[:80])


def _ints(s):
    try:
        return [int(t) for t in s.split()]
    except ValueError:
        raise Bad("not integers: %r" % s[:80])


def read_spi1d(text):
    ls = [l.strip() for l in text.splitlines() if l.strip()]
    head, k = {}, 0
    while k < len(ls) and ls[k] != "{":
        t = ls[k].split()
        if t[0] in head:
            raise Bad("repeated %s" % t[0])
        head[t[0]] = t[1:]
        k += 1
    if list(head)[:1] != ["Version"] or head["Version"] != ["1"]:
        raise Bad("Version")
    if set(head) != {"Version", "From", "Length", "Components"}:
        raise Bad("header %s" % sorted(head))
    if k == len(ls) or ls[-1] != "}":
        raise Bad("braces")
    n, c = int(head["Length"][0]), int(head["Components"][0])
    if c not in (1, 2, 3):
        raise Bad("components")
    rows = [_floats(l) for l in ls[k + 1:-1]]
    if len(rows) != n or any(len(r) != c for r in rows):
        raise Bad("%d rows of %d values declared, found %d" % (n, c, len(rows)))
    return dict(fmt="spi1d", range=[float(x) for x in head["From"]], n=n, comps=c, values=[x for r in rows for x in r])


def read_spi3d(text):
    ls = [l.strip() for l in text.splitlines() if l.strip()]
    if ls[0].split() != ["SPILUT", "1.0"] or ls[1].split() != ["3", "3"]:
        raise Bad("header")
    d = _ints(ls[2])
    if len(d) != 3:
        raise Bad("dimensions")
    vals, seen = [None] * (d[0] * d[1] * d[2] * 3), []
    for l in ls[3:]:
        t = l.split()
        if len(t) != 6:
            raise Bad("row %r" % l)
        i = [int(x) for x in t[:3]]
        if any(not 0 <= i[k] < d[k] for k in range(3)):
            raise Bad("index %r" % l)
        seen.append(tuple(i))
        p = ((i[0] * d[1] + i[1]) * d[2] + i[2]) * 3
        vals[p:p + 3] = _floats(" ".join(t[3:]))
    if len(set(seen)) != len(seen) or None in vals:
        raise Bad("rows missing or repeated")
    return dict(fmt="spi3d", dim=d, values=vals, order=seen == sorted(seen))


def read_csp(text):
    ls = [l.strip() for l in text.splitlines() if l.strip()]
    if ls[0] != "CSPLUTV100" or ls[1] not in ("1D", "3D"):
        raise Bad("header")
    k = 2
    if ls[k] == "BEGIN METADATA":
        k = ls.index("END METADATA", k) + 1
    pre = []
    for _ in range(3):
        n = _ints(ls[k])[0]
        xs, ys = _floats(ls[k + 1]), _floats(ls[k + 2])
        if len(xs) != n or len(ys) != n or n < 2 or any(b <= a for a, b in zip(xs, xs[1:])):
            raise Bad("prelut %d" % len(pre))
        pre.append([xs, ys])
        k += 3
    d = _ints(ls[k])
    rows = [_floats(l) for l in ls[k + 1:]]
    if ls[1] == "1D":
        if len(d) != 1 or len(rows) != d[0] or any(len(r) != 3 for r in rows):
            raise Bad("1D rows")
        vals = [x for r in rows for x in r]
    else:
        if len(d) != 3 or len(rows) != d[0] * d[1] * d[2] or any(len(r) != 3 for r in rows):
            raise Bad("3D rows")
        vals = [None] * (len(rows) * 3)
        for k, r in enumerate(rows):
            i = (k % d[0], k // d[0] % d[1], k // (d[0] * d[1]))
            p = ((i[0] * d[1] + i[1]) * d[2] + i[2]) * 3
            vals[p:p + 3] = r
    return dict(fmt="csp", kind=ls[1], dim=d, preluts=pre, values=vals)


def _nested(s):
    s = s.strip()
    if not s.startswith("{"):
        return float(s)
    out, depth, cur = [], 0, ""
    for ch in s[1:-1]:
        if ch == "{":
            depth += 1
        if ch == "}":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(_nested(cur))
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(_nested(cur))
    if depth:
        raise Bad("braces")
    return out


def _shape(v):
    s = []
    while isinstance(v, list):
        s.append(len(v))
        v = v[0]
    return s


def snap(p):
    return float(round(p)) if abs(p - round(p)) < 1e-8 else p


class CTL:
    """Just enough of CTL to run the generated programs: constants, float variables, lookup1D and lookup3D_f."""

    def __init__(self, text):
        text = re.sub(r"//[^\n]*", "", text)
        text = re.sub(r"/\*.*?\*/", "", text, flags=re.S)
        self.const = {}
        m = re.search(r"void\s+main\s*\((.*?)\)\s*\{(.*)\}\s*$", text, re.S)
        if not m:
            raise Bad("no main function")
        self.params = re.findall(r"(input|output)\s+varying\s+float\s+(\w+)", m.group(1))
        self.body = [s.strip() for s in m.group(2).split(";") if s.strip()]
        rest = text[:m.start()]
        for stmt in [s.strip() for s in rest.split(";") if s.strip()]:
            k = re.match(r"const\s+float\s+(\w+)\s*((?:\[\s*\d*\s*\])*)\s*=\s*(.*)$", stmt, re.S)
            if not k:
                raise Bad("statement %r" % stmt[:60])
            try:
                v = _nested(k.group(3))
            except ValueError:
                raise Bad("initialiser of %s" % k.group(1))
            dims = [d.strip() for d in re.findall(r"\[([^\]]*)\]", k.group(2))]
            sh = _shape(v)
            if len(sh) != len(dims) or any(d and int(d) != n for d, n in zip(dims, sh)):
                raise Bad("%s declared %s holds %s" % (k.group(1), dims, sh))
            self.const[k.group(1)] = v

    def run(self, px):
        env = dict(zip([n for d, n in self.params if d == "input"], px))
        outs = [n for d, n in self.params if d == "output"]

        def val(t):
            t = t.strip()
            if t in env:
                return env[t]
            if t in self.const:
                return self.const[t]
            try:
                return float(t)
            except ValueError:
                raise Bad("expression %r" % t)
        for s in self.body:
            m = re.match(r"lookup3D_f\s*\((.*)\)$", s, re.S)
            if m:
                a = [x.strip() for x in m.group(1).split(",")]
                cube, lo, hi = val(a[0]), val(a[1]), val(a[2])
                r = self.look3(cube, lo, hi, [val(x) for x in a[3:6]])
                env.update(zip(a[6:9], r))
                continue
            m = re.match(r"(?:float\s+)?(\w+)\s*=\s*(.*)$", s, re.S)
            if not m:
                raise Bad("statement %r" % s)
            k = re.match(r"lookup1D\s*\((.*)\)$", m.group(2), re.S)
            if k:
                a = [x.strip() for x in k.group(1).split(",")]
                env[m.group(1)] = self.look1(val(a[0]), val(a[1]), val(a[2]), val(a[3]))
            else:
                env[m.group(1)] = val(m.group(2))
        try:
            return [env[o] for o in outs]
        except KeyError as e:
            raise Bad("output %s never set" % e)

    @staticmethod
    def look1(t, lo, hi, x):
        p = snap(ref.clamp((x - lo) / (hi - lo)) * (len(t) - 1))
        i = min(int(p), len(t) - 2)
        if p in (i, i + 1):
            # (an infinite neighbour does not reach a grid position)
            return t[i if p == i else i + 1]
        return t[i] + (p - i) * (t[i + 1] - t[i])

    @staticmethod
    def look3(c, lo, hi, px):
        d = _shape(c)
        i, f = [], []
        for k in range(3):
            p = snap(ref.clamp((px[k] - lo[k]) / (hi[k] - lo[k])) * (d[k] - 1))
            j = min(int(p), d[k] - 2)
            i.append(j)
            f.append(p - j)
        out = [0.0] * 3
        for o in itertools.product((0, 1), repeat=3):
            w = 1.0
            for k in range(3):
                w *= f[k] if o[k] else 1 - f[k]
            if w:
                q = c[i[0] + o[0]][i[1] + o[1]][i[2] + o[2]]
                for k in range(3):
                    out[k] += w * q[k]
        return out


# ------------------------------------------------------------------ interval evaluation
def pwl(xs, ys, x):
    if x <= xs[0]:
        return ys[0]
    if x >= xs[-1]:
        return ys[-1]
    k = bisect.bisect_right(xs, x)
    return ys[k - 1] + (x - xs[k - 1]) / (xs[k] - xs[k - 1]) * (ys[k] - ys[k - 1])


def pwl_range(xs, ys, lo, hi):
    v = [pwl(xs, ys, lo), pwl(xs, ys, hi)] + [y for x, y in zip(xs, ys) if lo < x < hi]
    return min(v), max(v)


def csp_interval(S, px, resampled=True):
    """Bounds of the three outputs of a .csp file at px, admitting prelut resampling of one step and float rounding."""
    box = []
    for c in range(3):
        xs, ys = S["preluts"][c]
        r = xs[-1] - xs[0]
        step = r / (2.0 * len(xs) - 1) if len(xs) > 2 and resampled else 0.0
        e = step + 4e-7 * (r + abs(px[c]) + abs(xs[0]) + abs(xs[-1]))
        lo, hi = pwl_range(xs, ys, px[c] - e, px[c] + e)
        m = 1e-6 * max(1.0, max(abs(y) for y in ys))
        box.append((ref.clamp(lo - m), ref.clamp(hi + m)))
    v, d = S["values"], S["dim"]
    tol = 1e-6 * max(abs(x) for x in v) + 1e-9
    out = []
    if S["kind"] == "1D":
        n = d[0]
        g = [i / (n - 1.0) for i in range(n)]
        for c in range(3):
            lo, hi = pwl_range(g, [v[3 * i + c] for i in range(n)], *box[c])
            out.append((lo - tol, hi + tol))
        return out
    cand = []
    for c in range(3):
        n = d[c]
        cand.append(sorted(set([box[c][0], box[c][1]] + [i / (n - 1.0) for i in range(n) if box[c][0] < i / (n - 1.0) < box[c][1]])))
    spec = dict(dim=d, values=v, interp="trilinear", **{"in": "16f", "out": "16f"})
    pts = [ref.lut3d(spec, list(p), ref.EXACT) for p in itertools.product(*cand)]
    return [(min(p[c] for p in pts) - tol, max(p[c] for p in pts) + tol) for c in range(3)]
