"""File names as users have them: long ones, with blanks, percent signs and other alphabets, relative ones, links."""
import contextlib
import os
import shutil
from hypothesis import strategies as st

KINDS = st.sampled_from([None] * 8 + ["long", "longer", "odd", "relative", "dots", "link", "noext"])


@contextlib.contextmanager
def place(ctx, kind, base):
    """A path at which a file can be made (with the current directory set for relative ones)."""
    if kind is None:
        yield ctx.path(base)
        return
    top = ctx.path("names")
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    old = os.getcwd()
    p = os.path.join(top, base)
    try:
        if kind in ("long", "longer"):
            d = os.path.join(top, *["long name %d " % k + "x" * 120 for k in range(2 if kind == "long" else 12)])
            os.makedirs(d)
            p = os.path.join(d, base)
        elif kind == "odd":
            d = os.path.join(top, "100%s of it, \u00e9\u65e5 (a) 'b' & c; $HOME *[0]")
            os.makedirs(d)
            p = os.path.join(d, "%d " + base)
        elif kind in ("relative", "dots"):
            os.makedirs(os.path.join(top, "a", "b"))
            os.chdir(os.path.join(top, "a"))
            p = base if kind == "relative" else os.path.join(".", "b", "..", "..", "a", base)
        elif kind == "link":
            d = os.path.join(top, "target")
            os.makedirs(d)
            os.symlink(d, os.path.join(top, "link"))
            p = os.path.join(top, "link", base)
        elif kind == "noext":
            p = os.path.join(top, "results")
        yield p
    finally:
        os.chdir(old)
        shutil.rmtree(top, ignore_errors=True)
