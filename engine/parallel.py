"""Runs independent pieces of one analysis on all cores (results in order)."""
import os, multiprocessing

_JOBS = _F = None
def _one(i): return _F(_JOBS[i])
def pmap(f, jobs, chunk=1):
    global _JOBS, _F
    _JOBS, _F = list(jobs), f
    n = min(len(_JOBS), os.cpu_count() or 1)
    if n <= 1: return [f(j) for j in _JOBS]
    with multiprocessing.get_context('fork').Pool(n) as p: return p.map(_one, range(len(_JOBS)), chunk)
