"""Files for the native harness programs (natio.hpp)."""
import numpy as np


def write_items(path, a):
    with open(path, "wb") as f:
        for k, v in a.items():
            if isinstance(v, (bytes, str)):
                d = v.encode() if isinstance(v, str) else v
                t, r, c = "s", len(d), 1
            elif isinstance(v, (bool, int, np.integer)):
                d, t, r, c = np.int32(v).tobytes(), "i", 1, 1
            elif isinstance(v, (float, np.floating)):
                d, t, r, c = np.float64(v).tobytes(), "d", 1, 1
            else:
                x = np.asarray(v)
                x = x.astype(np.int32) if x.dtype.kind in "iub" or (x.size == 0 and k in ("compute_surfs", "plan")) else x.astype(float)
                t = "I" if x.dtype == np.int32 else ("V" if x.ndim == 1 else "M")
                r, c = x.shape[0], (x.shape[1] if x.ndim == 2 else 1)
                d = x.tobytes(order="F")
            f.write(("%s %s %d %d %d\n" % (k, t, r, c, len(d))).encode())
            f.write(d + b"\n")


def read_items(path):
    """The inverse, for what a program dumped."""
    out = {}
    with open(path, "rb") as f:
        while True:
            line = f.readline()
            if not line:
                return out
            k, t, r, c, n = line.decode().split()
            r, c = int(r), int(c)
            d = f.read(int(n))
            f.read(1)
            if t in "id":
                out[k] = np.frombuffer(d, "<i4" if t == "i" else "<f8")[0].item()
            elif t in "IV":
                out[k] = np.frombuffer(d, "<i4" if t == "I" else "<f8").copy()
            else:
                out[k] = np.frombuffer(d, "<f8").reshape((r, c), order="F").copy()
