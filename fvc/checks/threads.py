"""C15: the OpenMP regions have no data races."""
import os
import re

from .. import blocks, omp, project

PRAGMA = re.compile(r'#\s*pragma\s+omp|_Pragma\s*\(\s*"omp')


def c15(rep):
    rep.rule = ('with -fopenmp: in every parallel region, every store to memory that threads share (captured variables and what they '
                'point to, static objects, also in the functions called) goes to an element only the current iteration of the parallel '
                'loop uses, or puts the same value there in every thread; no element another iteration may write is read; the parts '
                'of an array that start at the entries of a table (start[m] = m * K) are no longer than K by the test that ends the program')
    rep.assumptions = ['arrays reached through different captured pointers do not overlap',
                       'parts of an array whose starts are computed in another way do not overlap']
    nreg = 0
    for p, P, f, i, g in regions(rep):
        nreg += 1
        where = '%s: parallel region at %s in %s()' % (p, i.loc(), f.name)
        try:
            r = omp.Region(P, g)
            bad = omp.conflicts(r)
            bl = blocks.check(r, f, i, g)
        except Exception as e:
            rep.unknown('%s: %s' % (where, e))
            continue
        rep.count('shared writes', len(r.writes))
        rep.count('shared reads', len(r.reads))
        rep.count('functions', len(r.nfun))
        done = set()
        for j, t in bad:
            if t is None:
                rep.unknown('%s: the target of the store at %s is not known' % (where, j.loc()))
            elif (j.loc(), t) not in done:
                done.add((j.loc(), t))
                rep.bad('%s|%s' % (f.name, t[:40]), '%s: %s %s' % (where, j.loc(), t))
        if not bad:
            rep.ok('%s: %d shared writes and %d shared reads, no two iterations meet' % (where, len(r.writes), len(r.reads)))
        parts(rep, f, where, bl)
    rep.count('parallel regions', nreg)
    rep.floor('parallel regions', nreg, 4)


def parts(rep, f, where, bl):
    for v, j, t in bl:
        if v == 'ok':
            rep.ok('%s: element written at %s: within the part of the iteration' % (where, j.loc()))
        else:
            rep.bad('%s|parts' % f.name, '%s: element written at %s: %s' % (where, j.loc(), t))


def regions(rep=None):
    L = project.Layout()
    S = project.Store(L)
    seen = set()
    for p in L.c_programs():
        us = L.units(p)
        mark = [u for u in us if PRAGMA.search(open(os.path.join(L.repo, u[0]), errors='replace').read())]
        if not mark or not set(mark) - seen:
            continue
        S.need(us)
        o = project.Store(L, openmp=True, inline=True)
        o.need(mark)
        P = project.Program(p, [o.mods[u] if u in mark else S.mods[u] for u in us])
        if rep is not None:
            rep.count('programs')
        for f, i, g in omp.regions(P):
            u = [x for x in mark if o.mods[x] is f.mod]
            if u and u[0] not in seen:
                yield p, P, f, i, g
        seen.update(mark)
