"""A stand-in for the PyOpenColorIO module: configs live in a table."""
import sys, types

CONFIGS = {}     # path -> dict(search, spaces {name: {"to": T, "from": T}})
CALLS = []


class Transform:
    def __init__(self, t):
        self.t = t

    def getDirection(self):
        return self.t.get("dir", "forward")


class GroupTransform(Transform):
    def getTransforms(self):
        return [wrap(c) for c in self.t["kids"]]


class FileTransform(Transform):
    def getSrc(self):
        return self.t["src"]

    def getInterpolation(self):
        return self.t["interp"]


class MatrixTransform(Transform):
    def getMatrix(self):
        return list(self.t["matrix"])

    def getOffset(self):
        return list(self.t["offset"])


class LogTransform(Transform):
    def getBase(self):
        return self.t["base"]


class CDLTransform(Transform):
    pass


class ExponentTransform(Transform):
    pass


KINDS = dict(group=GroupTransform, file=FileTransform, matrix=MatrixTransform, log=LogTransform, cdl=CDLTransform, exp=ExponentTransform)


def wrap(t):
    return None if t is None else KINDS[t["k"]](t)


class ColorSpace:
    def __init__(self, name, d):
        self.name, self.d = name, d

    def getName(self):
        return self.name

    def getTransform(self, direction):
        CALLS.append((self.name, direction))
        return wrap(self.d.get({"to_reference": "to", "from_reference": "from"}[direction]))


class Config:
    def __init__(self, d):
        self.d = d

    @staticmethod
    def CreateFromFile(path):
        if path not in CONFIGS:
            raise IOError("no such config")
        return Config(CONFIGS[path])

    def getSearchPath(self):
        return self.d["search"]

    def getColorSpace(self, name):
        return ColorSpace(name, self.d["spaces"][name]) if name in self.d["spaces"] else None


def install():
    m = types.ModuleType("PyOpenColorIO")
    for c in list(KINDS.values()) + [Config, ColorSpace, Transform]:
        setattr(m, c.__name__, c)
    m.Constants = types.SimpleNamespace(COLORSPACE_DIR_TO_REFERENCE="to_reference", COLORSPACE_DIR_FROM_REFERENCE="from_reference",
                                        TRANSFORM_DIR_FORWARD="forward", TRANSFORM_DIR_INVERSE="inverse", INTERP_LINEAR="linear", INTERP_NEAREST="nearest", INTERP_TETRAHEDRAL="tetrahedral")
    sys.modules["PyOpenColorIO"] = m
    return m
