"""Records what is displayed and saved by the plotting functions."""
import inspect

import matplotlib.animation as animation
import matplotlib.figure
import matplotlib.pyplot as plt
import numpy as np

from .base import check, eq


def look():
    """What the open figures show."""
    out = []
    for num in plt.get_fignums():
        for ax in plt.figure(num).axes:
            out.append((num, ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), tuple(ax.get_xlim()), tuple(ax.get_ylim()),
                        [np.asarray(i.get_array()).tolist() for i in ax.images],
                        [np.asarray(ln.get_xydata(), dtype=object).tolist() for ln in ax.lines], len(ax.patches), len(ax.collections),
                        [(t.get_text(), tuple(t.get_position())) for t in ax.texts], ax.get_legend() is not None))
    return out


class Display:
    """with Display("plot_x") as shown: the call. Afterwards: the figures were displayed (or not, if shows is False), as
    they are now, and the animation was saved once as a GIF with the given options, if save is a dict."""
    def __init__(self, what, shows=True, save=None):
        self.what, self.shows, self.save = what, shows, save

    def __enter__(self):
        self.seen, self.saved = [], []
        self.mod = plt._get_backend_mod()
        self.old = self.mod.show, matplotlib.figure.Figure.show, animation.Animation.save
        sig = inspect.signature(animation.Animation.save)

        def show(*_, **__):
            self.seen.append(look())

        def save(*args, **kw):
            self.saved.append(sig.bind(*args, **kw).arguments)
        self.mod.show, matplotlib.figure.Figure.show, animation.Animation.save = show, show, save
        return self

    def __exit__(self, kind, *_):
        self.mod.show, matplotlib.figure.Figure.show, animation.Animation.save = self.old
        if kind:
            return
        if self.shows:
            check(self.seen, "%s: nothing is displayed", self.what)
            eq(self.seen[-1], look(), self.what + ": what was displayed, and what there is now")
        else:
            eq(len(self.seen), 0, self.what + ": the number of displays")
        if self.save is None:
            eq(len(self.saved), 0, self.what + ": the number of saved files")
        else:
            eq(len(self.saved), 1, self.what + ": the number of saved files")
            check(str(self.saved[0]["filename"]).endswith(".gif"), "%s: saved as %r", self.what, self.saved[0]["filename"])
            for k, v in self.save.items():
                eq(self.saved[0].get(k), v, "%s: %s of the saved file" % (self.what, k))
