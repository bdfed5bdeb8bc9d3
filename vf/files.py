"""Scratch directory and per-step observation of files."""
import contextlib
import csv
import os
import shutil
import tempfile


@contextlib.contextmanager
def scratch():
    """the check runs inside a directory of its own"""
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix="case")
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def watcher(fun):
    """DerivedQuantities calling fun(t) at each step, after the exports before it"""
    import festim as F

    class Watch(F.DerivedQuantity):
        title = "watch"
        export_unit = ""

        def compute(self):
            fun()
            return 0.0

    return F.DerivedQuantities([Watch("solute")])


def read_csv(path):
    if not os.path.exists(path):
        return None
    with open(path, newline="") as fh:
        return [r for r in csv.reader(fh)]


PATHS = ("q.csv", "out/q.csv", "a/b/c/q.csv", "./q.csv")
