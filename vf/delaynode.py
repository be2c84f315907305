"""A process node that logs what it is asked to process and waits a little, so that rows finish in varying orders."""
import json, os, time
import numpy as np

LOGFD = [-1]
SEED = [0]
EXTRA = [None]      # a function whose result is logged as well
VFDelay = None


def make(clf):
    global VFDelay
    if VFDelay is None:
        def __init__(self, inBitDepth="16f", outBitDepth="16f", id="", name=""):
            clf.ProcessNode.__init__(self, "VFDelay", inBitDepth, outBitDepth, id, name)

        def process(self, values, stride=0, verbose=False):
            v = [float(x) for x in values]
            h = hash((SEED[0], tuple(v)))
            if SEED[0]:
                time.sleep((h % 5) * 0.003)
            if LOGFD[0] >= 0:
                os.write(LOGFD[0], (json.dumps([os.getpid(), v] + ([EXTRA[0]()] if EXTRA[0] else [])) + "\n").encode())
            return np.array(values, dtype=np.float32)
        VFDelay = type(clf.ProcessNode)("VFDelay", (clf.ProcessNode,), dict(__init__=__init__, process=process, __doc__="delay", __module__="vf.delaynode"))
    return VFDelay
