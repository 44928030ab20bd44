"""A stand-in for plotly.graph_objects that records what it is given (plotly is not installed here)."""
import numpy as np


def keep(v):
    return np.array(v, copy=True) if isinstance(v, (np.ndarray, list, tuple)) else v


class Trace:
    kind = "trace"

    def __init__(self, **kw):
        self.kw = {k: keep(v) if k in "xyz" else v for k, v in kw.items()}

    def __getattr__(self, k):
        try:
            return self.__dict__["kw"][k]
        except KeyError:
            raise AttributeError(k)


class Surface(Trace):
    kind = "surface"


class Scatter3d(Trace):
    kind = "scatter3d"


class Figure:
    def __init__(self, data=None, **kw):
        self.data = list(data) if data is not None else []
        self.layout = {}
        self.kw = kw

    def add_trace(self, t, *a, **k):
        self.data.append(t)
        return self

    def add_traces(self, ts, *a, **k):
        self.data.extend(ts)
        return self

    def update_traces(self, *a, **k):
        return self

    def update_layout(self, *a, **k):
        self.layout.update(k)
        return self

    def show(self, *a, **k):
        pass


class installed:
    def __init__(self, bx):
        import sys
        self.mod = sys.modules[bx.__name__ + ".plots"]

    def __enter__(self):
        import sys
        import types
        g = types.ModuleType("plotly.graph_objects")
        for c in (Surface, Scatter3d, Figure):
            setattr(g, c.__name__, c)
        p = types.ModuleType("plotly")
        p.graph_objects = g
        self.old = {k: sys.modules.get(k) for k in ("plotly", "plotly.graph_objects")}
        sys.modules["plotly"], sys.modules["plotly.graph_objects"] = p, g
        self.had = hasattr(self.mod, "go")
        self.prev = getattr(self.mod, "go", None)
        self.mod.go = g
        return self

    def __exit__(self, *exc):
        import sys
        for k, v in self.old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        if self.had:
            self.mod.go = self.prev
        else:
            del self.mod.go
        return False
