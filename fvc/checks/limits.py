"""C16: the arrays of exchange cells are not written beyond their capacity."""
from .. import absint, blocks, capacity, handles as H, omp, par, project
from . import threads

LIMIT = 'get_maxxgrid'
ALLOC = {'malloc': (0,), 'calloc': (0, 1), 'realloc': (1,)}


class Arrays:
    """which allocations can a pointer refer to?  (loads: what is stored to the same variable in the function)"""

    def __init__(self, eng):
        self.eng = eng
        self.prog = eng.prog
        self.pr = capacity.Prover(eng, lambda f, o: None)
        self.memo = {}
        self.stores = {}

    def of(self, fn, o):
        if o[0] != 'v':
            return frozenset()
        k = (fn, o[1])
        r = self.memo.get(k)
        if r is not None:
            return r
        self.memo[k] = frozenset()
        r = set()
        if o[1] in fn.params:
            n = fn.params.index(o[1])
            for c in self.prog.callers(fn):
                if n < len(c.args):
                    r |= self.of(c.fn, c.args[n])
        else:
            d = fn.defs.get(o[1])
            if d is not None:
                if d.op == 'call' and d.x in ALLOC:
                    r.add(d)
                elif d.op == 'phi':
                    for x, _ in d.x:
                        r |= self.of(fn, x)
                elif d.op == 'select':
                    r |= self.of(fn, d.args[1]) | self.of(fn, d.args[2])
                elif d.op in ('bitcast', 'freeze'):
                    r |= self.of(fn, d.args[0])
                elif d.op == 'getelementptr':
                    r |= self.of(fn, d.args[0])
                elif d.op == 'load':
                    for i in self.written(fn).get(self.pr.cell(fn, d.args[0]), ()):
                        r |= self.of(fn, i.args[0])
        self.memo[k] = frozenset(r)
        return self.memo[k]

    def written(self, fn):
        s = self.stores.get(fn)
        if s is None:
            s = self.stores[fn] = {}
            for i in fn.instrs():
                if i.op == 'store' and i.args[0][0] == 'v':
                    s.setdefault(self.pr.cell(fn, i.args[1]), []).append(i)
        return s


def is_limit(fn, o, depth=0):
    """the operand is the limit itself (possibly over one thread)"""
    if o[0] != 'v' or depth > 8:
        return None
    d = fn.defs.get(o[1])
    if d is None:
        return None
    if d.op == 'call' and d.x == LIMIT:
        return 0
    if d.op in ('sext', 'zext', 'trunc', 'freeze'):
        return is_limit(fn, d.args[0], depth + 1)
    if d.op in ('add', 'sub') and d.args[1][0] == 'c':
        k = is_limit(fn, d.args[0], depth + 1)
        return None if k is None else k + (d.args[1][1] if d.op == 'add' else -d.args[1][1])
    if d.op in ('sdiv', 'udiv'):
        return is_limit(fn, d.args[0], depth + 1)
    return None


def elem_size(fn, call):
    """bytes per element if the allocation is for the limit, else None; constants for constant sizes"""
    ks = ALLOC[call.x]
    e, lim = 1, 0

    def walk(o, depth=0):
        nonlocal e, lim
        if o[0] == 'c':
            e *= o[1]
            return True
        if o[0] != 'v' or depth > 8:
            return False
        d = fn.defs.get(o[1])
        if d is None:
            return False
        if d.op == 'call' and d.x == LIMIT:
            lim += 1
            return True
        if d.op in ('sext', 'zext', 'trunc', 'freeze'):
            return walk(d.args[0], depth + 1)
        if d.op == 'mul':
            return walk(d.args[0], depth + 1) and walk(d.args[1], depth + 1)
        if d.op == 'shl' and d.args[1][0] == 'c':
            e *= 1 << d.args[1][1]
            return walk(d.args[0], depth + 1)
        if d.op == 'add' and d.args[1][0] == 'c' and d.args[1][1] >= 0:
            return walk(d.args[0], depth + 1)
        if d.op in ('add', 'sub') and d.args[1][0] == 'c' or d.op in ('sdiv', 'udiv', 'ashr', 'lshr') and d.args[1][0] == 'c':
            # less than the limit
            if not (d.op == 'sub' and d.args[1][1] <= 0 or 'div' in d.op and d.args[1][1] == 1):
                e = 0
            return walk(d.args[0], depth + 1)
        return False
    for k in ks:
        if not walk(call.args[k]):
            return None
    return e if lim == 1 else None


WRITES = {'sprintf', 'strcpy', 'strncpy', 'strcat', 'snprintf', 'memcpy', 'vsprintf', 'llvm.memcpy.p0.p0.i64', 'llvm.memset.p0.i64'}


def default_limit(eng):
    """the limit if the program cannot change it, else None"""
    g = next((f for f in eng.prog.functions() if f.name == LIMIT), None)
    if g is None:
        return None
    from .. import faults
    gl = [i.args[0] for i in g.instrs() if i.op == 'load' and i.args[0][0] == 'g']
    if len(gl) != 1:
        return None
    reach = set(faults._reach(eng))
    for f in reach:
        for i in f.instrs():
            if i.op == 'store' and i.args[1][:2] == gl[0][:2] and f.mod is g.mod:
                return None
    t = g.mod.globals[gl[0][1]]['init']
    try:
        return int(t.split()[-1])
    except (ValueError, AttributeError, IndexError):
        return None


def const_size(fn, call):
    r = 1
    for k in ALLOC[call.x]:
        if call.args[k][0] != 'c':
            return None
        r *= call.args[k][1]
    return r


def guarded_by_count(pr, f, o, blk):
    """a loop over what another counter counts"""
    r, off = pr.lin(f, o)
    for e, cmp, pred in pr.conds(f):
        for v, w, p in ((cmp.args[0], cmp.args[1], pred), (cmp.args[1], cmp.args[0], capacity.SWAP[pred])):
            if p in ('slt', 'sle', 'ult', 'ule') and w[0] != 'c' and pr.lin(f, v)[0] == r and pr.cfg(f).dominates(e, blk):
                return True
    return False


def written(f):
    for i in f.instrs():
        if i.op == 'store':
            yield i, i.args[1]
        elif i.op == 'call' and i.x in WRITES:
            yield i, i.args[0]


def analyse(eng):
    """[(verdict, key, text)] for one program"""
    from .. import faults
    P = eng.prog
    A = Arrays(eng)
    out = []
    reach = sorted(faults._reach(eng), key=lambda f: f.name)
    pr = capacity.Prover(eng, is_limit)
    pr.is_slot = lambda fn, d: True
    dflt = default_limit(eng)
    fns = set()
    group = {}
    for f in reach:
        for i, a in written(f):
            d = f.defs.get(a[1]) if a[0] == 'v' else None
            if d is None or d.op != 'getelementptr' or not eng.executable(i.bb) or i.bb not in pr.cfg(f).without(None):
                continue
            off, var, _ = f.mod.gep_offset(d.ty, d.args[1:])
            al = A.of(f, d.args[0])
            lim = [c for c in al if elem_size(c.fn, c) is not None]
            fixed = [c for c in al if const_size(c.fn, c) is not None and const_size(c.fn, c) >= 4000]
            if len(var) == 1:
                st, o = var[0]
                group.setdefault((f, i.bb, pr.lin(f, o)[0], pr.lin(f, o)[1] + off // st), []).append((i, al, bool(lim)))
            if not lim and not (fixed and bounded_only(pr, f, var, off, i)):
                continue
            where = '%s: element written at %s in %s()' % (P.name, i.loc(), f.name)
            key = '%s|%s' % (f.name, i.loc().split(':')[0])
            if len(var) != 1:
                continue
            st, o = var[0]
            fns.add(f)
            pr.steps = 0
            if not pr.prove(f, o, off // st, i.bb, before=i.idx):
                out.append(('bad', key, '%s: the index can reach the capacity of the exchange grid arrays (the limit)' % where))
                continue
            small = [c for c in lim if elem_size(c.fn, c) < st]
            if dflt is not None:
                small += [c for c in fixed if const_size(c.fn, c) < st * dflt]
            if small:
                out.append(('bad', key, '%s: the array allocated at %s in %s() has fewer bytes than the limit allows elements' % (
                    where, small[0].loc(), small[0].fn.name)))
                continue
            out.append(('ok', key, '%s: index below the limit' % where))
    for (f, b, o, k), ws in group.items():
        if not any(l for i, al, l in ws):
            continue
        for i, al, l in ws:
            for c in sorted(al, key=lambda c: c.loc()):
                if elem_size(c.fn, c) is None and const_size(c.fn, c) is None and all(foreign(eng, c.fn, c.args[n]) for n in ALLOC[c.x]):
                    out.append(('bad', '%s|%s' % (f.name, i.loc().split(':')[0]), '%s: element written at %s in %s() with the index of an exchange '
                                'cell: the array allocated at %s in %s() is not made for the limit' % (P.name, i.loc(), f.name, c.loc(), c.fn.name)))
    for f in sorted(fns, key=lambda f: f.name):
        tables(eng, f, P, out, pr)
    return out


def foreign(eng, fn, o, depth=0):
    """a size computed from numbers that have nothing to do with the limit"""
    if o[0] == 'c':
        return True
    if o[0] != 'v' or depth > 12:
        return False
    d = fn.defs.get(o[1])
    if d is None:
        k = fn.params.index(o[1]) if o[1] in fn.params else None
        cs = eng.prog.callers(fn)
        return k is not None and bool(cs) and all(k < len(c.args) and foreign(eng, c.fn, c.args[k], depth + 1) for c in cs)
    if d.op in ('sext', 'zext', 'trunc', 'freeze', 'add', 'sub', 'mul', 'shl', 'sdiv', 'udiv'):
        return all(foreign(eng, fn, a, depth + 1) for a in d.args)
    if d.op == 'load':
        # what is kept there never comes from the limit
        k = H.field_key(fn, d.args[0])
        if k is None:
            return False
        for f in eng.prog.functions():
            for i in f.instrs():
                if i.op == 'store' and H.field_key(f, i.args[1]) == k and mentions(f, i.args[0], set()):
                    return False
        return True
    return False


def mentions(fn, o, seen):
    """may come from the limit (a call, a parameter)"""
    if o[0] != 'v' or o in seen:
        return False
    seen.add(o)
    d = fn.defs.get(o[1])
    if d is None:
        return True
    if d.op == 'call':
        return d.x == LIMIT
    return any(mentions(fn, a, seen) for a in ([x for x, _ in d.x] if d.op == 'phi' else d.args))


def bounded_only(pr, f, var, off, i):
    """does a proof relative to the limit exist (the function is one that fills exchange grid arrays)?"""
    if len(var) != 1:
        return False
    return any(c.x == LIMIT for c in f.calls())


def tables(eng, f, P, out, base):
    """lists of fixed length filled with the help of a counter"""
    bases = {}
    for i, a in written(f):
        d = f.defs.get(a[1]) if a[0] == 'v' else None
        while d is not None and d.op == 'getelementptr':
            t = f.defs.get(d.args[0][1]) if d.args[0][0] == 'v' else None
            if len(d.args) == 3 and d.args[2][0] == 'v' and eng.executable(d.bb):
                n, et = f.mod.elem(d.ty)
                if et is not None:
                    bases.setdefault((d.args[0], d.args[2], n, i.bb), (d, i))
            d = t
    for (b, o, n, blk), (d, i) in sorted(bases.items(), key=lambda kv: (kv[1][1].loc(), repr(kv[0][1]))):
        pr = capacity.Prover(eng, lambda fn, x, n=n: x[1] - n if x[0] == 'c' else None)
        pr.small = lambda k, n=n: k <= n - 1
        pr.cfgs = base.cfgs
        if blk not in pr.cfg(f).without(None) or guarded_by_count(pr, f, o, blk):
            continue
        v = eng.bval(f, o)
        if v[0] != 'P' and v[1] is not None and v[1] < n or pr.prove(f, o, 0, blk, before=i.idx):
            out.append(('ok', '', '%s: list of %d written at %s in %s(): index below its length' % (P.name, n, i.loc(), f.name)))
        else:
            out.append(('bad', '%s|list of %d' % (f.name, n), '%s: list of %d entries written at %s in %s(): the index can reach its length' % (
                P.name, n, i.loc(), f.name)))


def c16(rep):
    rep.rule = ('every store into an array allocated for get_maxxgrid() exchange cells (followed through calls and tables of pointers) '
                'has an index that is below the limit on every path, by induction over the counters and the branches that stop the '
                'program; elements are no larger than allocated; lists of fixed length in the same functions likewise; with '
                'OpenMP, the part of the arrays each thread fills ends before the next one starts')
    rep.assumptions = ['a counter array starts at zero', 'the offset of a part within the arrays (pstart) is zero without OpenMP']
    L = project.Layout()
    S = project.Store(L, inline=True)
    progs = L.c_programs()
    S.need([u for p in progs for u in L.units(p)])
    n = 0
    rs = par.pmap(lambda p: analyse(absint.Engine(project.load(L, S, p))), progs)
    for p, r in zip(progs, rs):
        rep.count('programs')
        n += len(r)
        for v, key, text in r:
            if v == 'ok':
                rep.ok(text)
            else:
                rep.bad('%s|%s' % (p, key), text)
    for p, P, f, i, g in threads.regions():
        where = '%s: with OpenMP, parallel region at %s in %s()' % (p, i.loc(), f.name)
        try:
            bl = blocks.check(omp.Region(P, g), f, i, g)
        except Exception as e:
            rep.unknown('%s: %s' % (where, e))
            continue
        threads.parts(rep, f, where, bl)
        n += len(bl)
    rep.count('array writes', n)
    rep.floor('array writes', n, 150)
