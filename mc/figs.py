"""What figures show, noted where they reach matplotlib.

`install()` replaces the drawing of contours, the map data from the network and the
writing of images by notes; `FIGURES` then holds, per image written, its file name and the
lines, contours, titles and labels of its axes."""
import os

import numpy as np

FIGURES = []


def _copy(x):
    if isinstance(x, str):
        return x
    return x.copy() if isinstance(x, np.ma.MaskedArray) else np.array(x, copy=True)


def _note(cls, name):
    real = getattr(cls, name)

    def draw(self, *a, **k):
        self.__dict__.setdefault("mc_drawn", []).append((name, [_copy(x) for x in a],
                                                         {n: k[n] for n in ("levels", "vmin", "vmax") if n in k}))
        return real(self, *a, **k)
    setattr(cls, name, draw)


def install():
    import matplotlib
    matplotlib.use("agg")
    import matplotlib.axes
    import matplotlib.backend_bases as bb
    for n in ("contourf", "contour", "pcolormesh", "scatter", "hist", "bar", "fill_between"):
        _note(matplotlib.axes.Axes, n)
    try:
        import cartopy.feature as cf
        import cartopy.io.shapereader as sr
        cf.NaturalEarthFeature.geometries = lambda self: iter(())
        cf.NaturalEarthFeature.intersecting_geometries = lambda self, extent: iter(())
        cf.GSHHSFeature.intersecting_geometries = lambda self, extent: iter(())
        sr.natural_earth = lambda *a, **k: (_ for _ in ()).throw(OSError("no map data"))
    except ImportError:
        pass

    def save(self, filename, *a, **k):
        fig = self.figure
        axes = []
        for ax in fig.axes:
            axes.append({"extent": [float(v) for v in ax.get_xlim() + ax.get_ylim()], "title": ax.get_title(), "xlabel": ax.get_xlabel(), "ylabel": ax.get_ylabel(),
                         "lines": [(l.get_label(), _copy(l.get_xdata(orig=True)), _copy(l.get_ydata(orig=True))) for l in ax.get_lines()],
                         "drawn": ax.__dict__.get("mc_drawn", [])})
        FIGURES.append({"file": os.path.abspath(str(filename)), "axes": axes,
                        "title": fig._suptitle.get_text() if fig._suptitle else ""})
        with open(filename, "wb") as fh:
            fh.write(b"drawn\n")
    bb.FigureCanvasBase.print_figure = save
