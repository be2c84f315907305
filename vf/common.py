"""Shared by the property modules: loading the library, running lists, judging results."""
import sys
import numpy as np
from . import env, ref, gen, model
from .core import Violation, Skip, fail, call, Ctx

_clf = None


def clf():
    """aces.clf of the current working tree. A tree that cannot be imported gives no working library at all."""
    global _clf
    if _clf is None:
        try:
            old, sys.stdout = sys.stdout, env.null
            try:
                _clf = env.load_clf()
            finally:
                sys.stdout = old
        except Exception as e:
            raise Violation("import", "aces.clf cannot be imported: %s: %s" % (type(e).__name__, e))
    return _clf


def load(name):
    clf()
    try:
        return env.load(name)
    except Exception as e:
        raise Violation("import", "%s cannot be imported: %s: %s" % (name, type(e).__name__, e))


def reset_features():
    c = clf()
    c.setFeatureCompatibility(c.featureSets["All"])


def run(pl, px, stride=0, key="process", **k):
    r = call(key, pl.process, px, stride, **k) if stride else call(key, pl.process, px, **k)
    try:
        return [float(x) for x in r]
    except Exception as e:
        raise Violation(key + ":type", "process returned %r" % (r,))


def judge_list(pl, nodes, pixels, key, ctx, feat=ref.ALL, what="", **kw):
    """Single-pixel processing of every pixel, compared with the reference."""
    for px in pixels:
        got = run(pl, list(px), key=key)
        lvl = ref.judge(got, lambda N, px=px: ref.apply_list(nodes, px, N, feat), key, "%s pixel %r" % (what, px), **kw)
        ctx.obs("pixels_judged")
        if lvl:
            ctx.obs("judged_by_envelope")
        if any(abs(a - b) > 1e-6 for a, b in zip(got, px)):
            ctx.nontrivial = True


def same(a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and all((x == y) or (x != x and y != y) for x, y in zip(a, b))
