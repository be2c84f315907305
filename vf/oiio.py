"""A recording stand-in for the OpenImageIO Python module: images live in a table, every call is logged."""
import array, sys, types
import numpy as np

UINT8, UINT16, HALF, FLOAT = "uint8", "uint16", "half", "float"
NPTYPE = {UINT8: np.uint8, UINT16: np.uint16, HALF: np.float16, FLOAT: np.float32}
IMAGES = {}      # path -> dict(type, width, height, channels, names, attrs, data (flat numpy array of NPTYPE))
WRITTEN = []     # every completed or attempted output
LOG = []
MODE = {}        # fault injection: create/open/write -> "fail"


class Attr:
    def __init__(self, name, type, value):
        self.name, self.type, self.value = name, type, value


class Format:
    def __init__(self, t):
        self.basetype = t


class Attribs(list):
    pass


class ImageSpec:
    def __init__(self, *a):
        self.format = Format(FLOAT)
        self.width = self.height = self.nchannels = 0
        self.channelnames = ()
        self.extra_attribs = []
        self.set = []

    def set_format(self, t):
        self.format = t if isinstance(t, Format) else Format(t)

    def attribute(self, name, *rest):
        self.set.append((name,) + rest)


def spec_of(im):
    s = ImageSpec()
    s.format = Format(im["type"])
    s.width, s.height, s.nchannels = im["width"], im["height"], im["channels"]
    s.channelnames = tuple(im["names"])
    s.extra_attribs = [Attr(*a) for a in im["attrs"]]
    return s


def module(version):
    m = types.ModuleType("OpenImageIO")
    m.VERSION = version
    m.UINT8, m.UINT16, m.HALF, m.FLOAT = UINT8, UINT16, HALF, FLOAT
    m.Create = "create"
    m.ImageSpec = ImageSpec

    class ImageInput:
        def __init__(self, path):
            self.im = IMAGES[path]
            self.closed = False

        @staticmethod
        def open(path, *a):
            LOG.append(("open", path))
            return ImageInput(path) if path in IMAGES else None

        def spec(self):
            return spec_of(self.im)

        def read_image(self, *a):
            t = a[-1] if a else FLOAT
            if isinstance(t, Format):
                t = t.basetype
            LOG.append(("read", t))
            d = self.im["data"]
            if t != self.im["type"]:
                raise RuntimeError("the stand-in holds %s data, %s was asked for" % (self.im["type"], t))
            if t == HALF:
                # halves come as their bits, or two of them packed into one float
                d = d.view(np.uint16) if m.VERSION >= 10800 else d.view(np.float32)
            k = self.im.get("container", 0)
            if k == 1 and d.dtype != np.float32:
                return array.array({1: "B", 2: "H"}[d.dtype.itemsize], d.tolist())
            if k == 2 and d.dtype == np.float32 and t == FLOAT:
                return array.array("f", d.tolist())
            return d.copy()

        def close(self):
            LOG.append(("closein",))
            return True

    class ImageOutput:
        def __init__(self, path):
            self.path = path
            self.rec = None

        @staticmethod
        def create(path, *a):
            LOG.append(("create", path))
            return None if MODE.get("create") else ImageOutput(path)

        def open(self, path, spec, *a):
            if MODE.get("open"):
                return False
            self.rec = dict(path=path, type=spec.format.basetype, width=spec.width, height=spec.height, channels=spec.nchannels, names=list(spec.channelnames or []), attrs=list(spec.set), data=None, closed=False)
            return True

        def write_image(self, *a):
            t = a[0] if len(a) > 1 else FLOAT
            if isinstance(t, Format):
                t = t.basetype
            d = np.array(a[-1])
            if t == HALF:
                d = (np.ascontiguousarray(d, dtype=np.uint16) if m.VERSION >= 10800 else np.ascontiguousarray(d, dtype=np.float32)).view(np.float16)
            else:
                if d.dtype != NPTYPE[t]:
                    raise TypeError("%s data written as %s" % (d.dtype, t))
            self.rec["data"] = [float(x) for x in d.ravel()]
            self.rec["written_as"] = t
            if MODE.get("write"):
                return False
            return True

        def close(self):
            self.rec["closed"] = True
            WRITTEN.append(self.rec)
            return True
    m.ImageInput, m.ImageOutput = ImageInput, ImageOutput
    return m


def install(version=10800):
    m = module(version)
    sys.modules["OpenImageIO"] = m
    return m


def reset():
    IMAGES.clear()
    MODE.clear()
    del WRITTEN[:], LOG[:]
