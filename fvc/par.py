"""Run independent queries in forked workers, results in order."""
import multiprocessing as mp
import os

_G = {}


def _one(k):
    f, items = _G['x']
    return f(items[k])


def pmap(f, items):
    items = list(items)
    _G['x'] = (f, items)
    n = min(8, os.cpu_count() or 1, len(items))
    if n <= 1 or len(items) < 4:
        return [f(x) for x in items]
    with mp.get_context('fork').Pool(n) as p:
        return p.map(_one, range(len(items)), chunksize=1)
