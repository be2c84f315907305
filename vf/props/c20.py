"""CLF file writing is complete, faithful and refuses cleanly."""
import gzip, os, random
from .. import gen as G, nodecheck, ref, model
from ..common import clf, run as process, reset_features
from ..core import fail, Skip, call, Violation
from . import c15
PROP = "C20"
RULE = "a write to a path with some previous content, inspected byte by byte (or refused), or a read of a damaged file"
CASES = dict(quick=1800, thorough=36000)
NEED = dict(writes=1000, replaced_longer=200, refusals=150, damaged_reads=500, gzip_files=300, missing_reads=50)
NAMES = ["a.clf", "a.clfz", "a.gz", "a.xml", "noext", "with space.clf", "a.b.c.clf", ".hidden", "%s.clf", "sub/x.clf"]


def gen(g, tier, i):
    nodes = G.nest(g, G.chain(g, g.randrange(0, 4), filesafe=True, rows=3), 0.4)
    other = G.chain(g, g.randrange(1, 4), filesafe=True, rows=3)
    return dict(nodes=nodes, other=other, text=G.text(g), name=g.choice(NAMES), prev=[g.choice(["none", "longer", "gzip", "garbage", "shorter", "clf", "twin", "twin"]) for _ in range(3)], gz=[g.random() < 0.45 for _ in range(3)],
                refuse=g.choice(["gzip", "encoding", "none", "content"]), cut=g.random(), damage=g.choice(["cut", "cut", "empty", "garbage", "gzcut", "gzflip", "tag", "amp", "missing", "trail"]), byte=g.randrange(256), ps=g.randrange(1 << 30))


class Odd(Exception):
    pass


def contents(kind, data, g):
    if kind == "longer":
        return data * 3 + b"<!-- old -->" * 200
    if kind == "gzip":
        return gzip.compress(data * 4) + b"x" * 5000
    if kind == "garbage":
        return bytes(g.randrange(256) for _ in range(4000))
    if kind == "shorter":
        return b"x"
    return data + b" " * 7


def check_file(p, L, gz, pl, ctx):
    D, isgz = c15.parsed(p, "write")
    if isgz != gz:
        fail("write:gzip", "gzip %s requested, file is %s", gz, "gzip" if isgz else "plain")
    if len(D["nodes"]) != len(L["nodes"]):
        fail("write:nodes", "%d nodes in the file, %d in the list", len(D["nodes"]), len(L["nodes"]))
    c15.expect(L, D, "write", ctx)
    return model.read_bytes(p)[0]


def run(case, ctx):
    c = clf()
    reset_features()
    g = random.Random(case["ps"])
    for s in case["nodes"] + G.flatten(case["nodes"]):
        s.setdefault("id", "i"), s.setdefault("name", "n")
    L = dict(attrs={"id": "t", "name": case["text"].replace("\n", " ").replace("\t", " "), "compCLFversion": 1.2}, elems=[["desc", case["text"]]], nodes=case["nodes"])
    pl = call("write:build", model.build_list, L, c)
    p = ctx.path(case["name"])
    os.makedirs(os.path.dirname(p), exist_ok=True)
    sample = model.emit(case["other"])
    docs = []
    siblings = set(os.listdir(os.path.dirname(p)))
    for k in range(3):
        if case["prev"][k] != "none":
            with open(p, "wb") as fh:
                if case["prev"][k] == "twin" and docs:
                    # as long as what is to be written, but not it
                    twin = docs[0].replace(b'id="t"', b'id="s"', 1)
                    if twin == docs[0]:
                        fail("write:id", "the list's id is not in the document")
                    fh.write(gzip.compress(twin) if case["gz"][k] else twin)
                else:
                    fh.write(contents(case["prev"][k], sample, g))
            if g.random() < 0.2:
                os.utime(p, (4e9, 4e9))
        size = os.path.getsize(p) if os.path.exists(p) else 0
        call("write", pl.writeFile, p, False, case["gz"][k])
        docs.append(check_file(p, L, case["gz"][k], pl, ctx))
        ctx.obs("writes")
        ctx.obs("replaced_longer", size > os.path.getsize(p))
        ctx.obs("gzip_files", int(case["gz"][k]))
        new = set(os.listdir(os.path.dirname(p))) - siblings - {os.path.basename(p)}
        if new:
            fail("write:strays", "writing left other files: %s", sorted(new))
        back = call("write:read", c.ProcessList, p)
        if len(back) != len(pl):
            fail("write:read", "%d nodes read back of %d", len(back), len(pl))
    if any(d != docs[0] for d in docs):
        fail("write:documents", "repeated plain/gzip writes of the same list hold different documents")
    # the file's kind is recognised by content, not by name
    for gz in (False, True):
        q = ctx.path("copy" + g.choice([".clf", ".gz", ".txt", ""]))
        with open(q, "wb") as fh:
            fh.write(gzip.compress(docs[0]) if gz else docs[0])
        if len(call("write:read", c.ProcessList, q)) != len(pl):
            fail("write:read", "nodes lost")
    # refusals
    before = open(p, "rb").read()
    if case["refuse"] != "none":
        bad = pl
        if case["refuse"] == "content":
            # text that no XML document can hold
            bad = model.build_list(dict(L, attrs=dict(L["attrs"], note="a\x01b"), elems=L["elems"]) if g.random() < 0.5 else dict(L, elems=L["elems"] + [["desc", g.choice(["\x00", "bell \x07", "x\x1f"])]]), c)
        elif case["refuse"] == "encoding":
            m = dict(t="Matrix", dim=[3, 3, 3], values=[1.0, 0, 0, 0, 1, 0, 0, 0, 1], enc=g.choice(model.FE), id="m", name="m", **{"in": "16f", "out": "16f"})
            bad = model.make(case["nodes"] + [m], c, "write:build")
        if case["refuse"] != "content":
            c.setFeatureCompatibility(c.featureSets[g.choice(["CLF", "Autodesk"])])
        target = g.choice([p, ctx.path("fresh.clf")])
        wgz = case["refuse"] == "gzip" or case["refuse"] == "content" and g.random() < 0.5
        try:
            bad.writeFile(target, False, wgz)
            if case["refuse"] == "content":
                # whatever it made of the text, what is on disk is a document
                c15.parsed(target, "write")
                before = open(p, "rb").read()
                ctx.obs("odd_content")
                raise Odd()
            fail("write:accepted", "%s write without its feature set was accepted", case["refuse"])
        except Odd:
            pass
        except Violation:
            raise
        except Exception as e:
            if type(e).__name__ != "UnsupportedExtensionError" and case["refuse"] != "content":
                raise
            if target != p and os.path.exists(target):
                fail("write:refused", "a refused %s write left a new file", case["refuse"])
        finally:
            reset_features()
        if open(p, "rb").read() != before:
            fail("write:refused", "a refused %s write changed the existing file", case["refuse"])
        ctx.obs("refusals")
    # damaged files
    doc = docs[0]
    q = ctx.path("damaged.clf")
    d = case["damage"]
    end = doc.rstrip().rfind(b">")
    body = doc.find(b"<ProcessList")
    if d == "cut":
        data = doc[:int(case["cut"] * end)]
    elif d == "empty":
        data = b""
    elif d == "garbage":
        data = bytes(g.randrange(256) for _ in range(g.randrange(1, 300)))
    elif d == "gzcut":
        z = gzip.compress(doc)
        data = z[:max(1, int(case["cut"] * (len(z) - 1)))]
    elif d == "gzflip":
        z = bytearray(gzip.compress(doc))
        k = g.randrange(len(z) - 8, len(z))
        z[k] ^= 1 << g.randrange(8)
        data = bytes(z)
    elif d == "tag":
        data = doc.replace(b"</Description>", b"</Descripton>", 1)
    elif d == "amp":
        data = doc.replace(b"<Description>", b"<Description>&nosuch;", 1)
    elif d == "trail":
        data = doc + b"<Extra/>"
    else:
        data = None
    if data is None:
        q = ctx.path("missing/none.clf" if g.random() < 0.5 else "none.clf")
        ctx.obs("missing_reads")
    else:
        with open(q, "wb") as fh:
            fh.write(data)
        ctx.obs("damaged_reads")
    for strict in (False, True):
        try:
            r = c.ProcessList(q, strict)
        except Exception:
            continue
        fail("read:damaged", "reading a %s file gave a list of %d nodes", d, len(r))
    ctx.nontrivial = True
    ctx.seen(tuple(case["prev"]), case["refuse"], d)
