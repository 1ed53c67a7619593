"""ctypes face of the simulated OpenMP runtime (native/simomp.cpp)."""
import ctypes
import os
from ctypes import c_int, c_long, c_uint64

NAMES = ["regions", "multi_thread_regions", "preemptions", "switches", "barriers", "chunks", "short_teams", "hot_preemptions",
         "singles", "critical_waits", "conflicts", "steps", "hot_sites"]


class Omp:
    def __init__(self, lib):
        self.lib = L = ctypes.CDLL(lib)
        L.sim_config.argtypes = [c_int, c_int, c_int, c_uint64, c_uint64, c_int]
        L.sim_config.restype = None
        L.sim_replay.argtypes = [c_int, c_int, ctypes.POINTER(c_uint64), ctypes.POINTER(c_int), c_long]
        L.sim_replay.restype = None
        L.sim_hash.restype = c_uint64
        L.sim_steps.restype = c_uint64
        L.sim_trace_len.restype = c_long
        L.sim_step_limit.argtypes = [c_uint64]
        L.sim_off()

    def start(self, s, replay=None):
        """s: {"n": omp_get_max_threads(), "grant": 0 or a limit, "strategy", "inv", "seed", "hot", "dirty"}"""
        L = self.lib
        L.sim_dirty(s.get("dirty", 1))
        if s.get("hot"):
            L.sim_forget_hot()
        if replay is None:
            L.sim_config(s["n"], s.get("grant", 0), s.get("strategy", 1), s.get("inv", 50), s.get("seed", 0) & (2**64 - 1), s.get("hot", 0))
        else:
            n = len(replay)
            a = (c_uint64 * max(n, 1))(*[x[0] for x in replay])
            b = (c_int * max(n, 1))(*[x[1] for x in replay])
            L.sim_replay(s["n"], s.get("grant", 0), a, b, n)

    def stop(self):
        L = self.lib
        n = L.sim_trace_len()
        a = (c_uint64 * max(n, 1))()
        b = (c_int * max(n, 1))()
        L.sim_trace(a, b)
        out = ([[a[i], b[i]] for i in range(n)], L.sim_hash(), L.sim_steps())
        L.sim_off()
        return out

    def stats(self):
        o = (c_uint64 * 16)()
        self.lib.sim_stats(o)
        return dict(zip(NAMES, [int(x) for x in o]))


def gen_schedule(rng, nmax=6, short=True):
    """One simulated OpenMP environment + schedule."""
    s = {"n": rng.choice([1, 2, 2, 3, 3, 4, 5, nmax, nmax, 8]), "seed": rng.getrandbits(48)}
    s["strategy"] = rng.choice([1, 1, 1, 2, 2, 3, 4])
    s["inv"] = rng.choice([2, 5, 10, 30, 100, 300, 1000])
    s["hot"] = rng.choice([0, 0, 1]) if s["strategy"] == 1 else 0
    s["dirty"] = rng.choice([0, 1, 0x5a, 0x7f, 0xff])
    s["grant"] = 0
    if short and s["n"] > 1 and rng.random() < 0.25:
        s["grant"] = rng.randint(1, s["n"] - 1)
    return s
