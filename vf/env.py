"""Loads the code under test from /repo (its current working tree), through the project's py2 import hook."""
import io, os, sys, types, warnings

REPO = os.environ.get("VF_REPO", "/repo")
warnings.simplefilter("ignore")
import numpy as np
np.seterr(all="ignore")

import py2compat
if REPO != "/repo":
    py2compat.REPO = REPO
    py2compat.ROOT = REPO + "/python"
sys.path.insert(0, REPO + "/python")

real_stdout = sys.stdout


class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)

    def flush(self):
        pass


null = _Null()


class capture:
    """Redirects sys.stdout (prints of the code under test) into a string."""

    def __enter__(self):
        self.buf = io.StringIO()
        self.old = sys.stdout
        sys.stdout = self.buf
        return self.buf

    def __exit__(self, *a):
        sys.stdout = self.old


def say(*a):
    real_stdout.write(" ".join(str(x) for x in a) + "\n")
    real_stdout.flush()


class LoadError(Exception):
    pass


def load_clf():
    import importlib
    return importlib.import_module("aces.clf")


def load(name):
    import importlib
    return importlib.import_module(name)


def luts():
    return load("aces.lutFormats")
