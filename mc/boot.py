"""Imports the code under test from /repo/src, always compiled from the current source text, with the environment closed."""
import importlib.machinery, os, sys, warnings
REPO_SRC = os.environ.get("MC_REPO_SRC", "/repo/src")
_orig = importlib.machinery.SourceFileLoader.get_code
def _get_code(self, fullname):
    path = self.get_filename(fullname)
    if os.path.realpath(path).startswith(os.path.realpath(REPO_SRC) + os.sep):
        return self.source_to_code(self.get_data(path), path)     # never trust a cached .pyc of the tree under test
    return _orig(self, fullname)
importlib.machinery.SourceFileLoader.get_code = _get_code
if REPO_SRC not in sys.path[:2]:
    sys.path.insert(0, REPO_SRC)

FIGS = []          # what was drawn, in order: dict(path=..., lines=[(label, x, y)], images=[(data, extent)])
warnings.simplefilter("ignore")

def close():
    """import everything, replace figure rendering by a recorder"""
    import logging
    logging.disable(logging.WARNING)
    import numpy as np
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib.figure import Figure
    import aspsim.simulator, aspsim.array, aspsim.configutil, aspsim.counter, aspsim.fileutilities, aspsim.processor
    import aspsim.saveloadsession, aspsim.utilities
    import aspsim.diagnostics.core, aspsim.diagnostics.diagnostics, aspsim.diagnostics.plot
    import aspsim.diagnostics.preprocessing, aspsim.diagnostics.soundfieldplot
    import aspsim.room.region, aspsim.room.trajectory, aspsim.room.generatepoints, aspsim.room.roomimpulseresponse
    import aspsim.signal.sources
    f = os.path.realpath(aspsim.simulator.__file__)
    assert f.startswith(os.path.realpath(REPO_SRC)), f
    def savefig(self, fname, *a, **k):
        rec = dict(path=str(fname), lines=[], images=[], titles=[], text=[], points=[], patches=[])
        for ax in self.get_axes():
            rec["titles"].append(ax.get_title())
            leg = ax.get_legend()
            rec["text"].append([ax.get_title(), ax.get_xlabel(), ax.get_ylabel()] + ([t.get_text() for t in leg.get_texts()] if leg else []))
            for ln in ax.get_lines():
                rec["lines"].append((ln.get_label(), np.array(ln.get_xdata(), dtype=float), np.array(ln.get_ydata(), dtype=float)))
            for c in ax.collections:
                rec["points"].append((c.get_label(), np.array(c.get_offsets(), dtype=float)))
            for p in ax.patches:
                e = p.get_patch_transform().transform_path(p.get_path()).get_extents()
                rec["patches"].append((p.get_label(), (e.x0, e.y0, e.x1, e.y1)))
            for im in ax.get_images():
                rec["images"].append((np.array(im.get_array()), tuple(im.get_extent())))
        FIGS.append(rec)
        with open(str(fname), "wb") as fh:
            fh.write(b"figure")
    Figure.savefig = savefig
    from matplotlib.backend_bases import FigureCanvasBase
    FigureCanvasBase.draw_idle = lambda self, *a, **k: None     # pyplot.savefig redraws the canvas afterwards
    Figure.tight_layout = lambda self, *a, **k: None
    np.seterr(all="ignore")
