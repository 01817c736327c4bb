"""What the schedule perturbation library saw."""
import ctypes


class Stats:
    def __init__(self):
        self.fn = ctypes.CDLL(None).wv_jitter_stats
        self.last = [0] * 6
        self.read()

    def read(self):
        """(threads, locks, allocations in threads, delays) since the last call, most threads at once, order hash"""
        b = (ctypes.c_ulong * 6)()
        self.fn(b)
        b = list(b)
        d = [b[k] - self.last[k] for k in range(4)] + [b[4], b[5]]
        self.last = b
        return d
