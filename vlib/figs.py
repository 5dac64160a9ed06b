"""Figures made by the code under test."""
import contextlib

import matplotlib
from matplotlib import pyplot as plt
from matplotlib.figure import Figure

matplotlib.use("Agg")


@contextlib.contextmanager
def figures():
    """Every figure created inside, still readable after it was closed."""
    made, init, save = [], Figure.__init__, Figure.savefig

    def __init__(self, *a, **k):
        init(self, *a, **k)
        made.append(self)

    def savefig(self, *a, **k):             # cheap rendering
        k["dpi"] = 20
        return save(self, *a, **k)

    plt.close("all")
    Figure.__init__, Figure.savefig = __init__, savefig
    try:
        yield made
    finally:
        Figure.__init__, Figure.savefig = init, save
        plt.close("all")
