"""Do the parts of an array that the iterations of a parallel loop fill overlap?

Each iteration m writes from start[m] on, as many elements as its own counter says.  start[m] is m * K; a test that ends the
program keeps the counter below G.  The parts are disjoint, and lie within the array, if G is not greater than K."""
from . import omp
from .omp import add, atom, con, freeze, mul


class Parent:
    """values in the function around the region, as polynomials over its variables"""
    def __init__(self, fn):
        self.fn = fn
        self.stores = {}
        for i in fn.instrs():
            if i.op == 'store' and i.args[1][0] == 'v':
                self.stores.setdefault(i.args[1][1], []).append(i)

    def var(self, a, depth=0):
        """the variable this one is a copy of"""
        ss = [s for s in self.stores.get(a, []) if s.args[0][0] != 'c']
        if len(ss) == 1 and depth < 5 and ss[0].args[0][0] == 'v':
            d = self.fn.defs.get(ss[0].args[0][1])
            if d is not None and d.op == 'load' and d.args[0][0] == 'v':
                t = self.fn.defs.get(d.args[0][1])
                if t is not None and t.op == 'alloca':
                    return self.var(d.args[0][1], depth + 1)
        return a

    def val(self, o, depth=0):
        if o[0] == 'c':
            return con(o[1])
        if o[0] != 'v' or depth > 20:
            return atom(('?', o))
        d = self.fn.defs.get(o[1])
        if d is None:
            return atom(('arg', o[1]))
        a = [self.val(x, depth + 1) for x in d.args] if d.op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'shl') else None
        if d.op in ('sext', 'zext', 'trunc', 'freeze'):
            return self.val(d.args[0], depth + 1)
        if d.op in ('add', 'sub'):
            return add(a[0], a[1], 1 if d.op == 'add' else -1)
        if d.op == 'mul':
            return mul(a[0], a[1])
        if d.op == 'shl' and d.args[1][0] == 'c':
            return mul(a[0], con(1 << d.args[1][1]))
        if d.op in ('sdiv', 'udiv'):
            return atom(('div', freeze(a[0]), freeze(a[1])))
        if d.op == 'call' and not d.args:
            return atom(('call', d.x))
        if d.op == 'load' and d.args[0][0] == 'v':
            t = self.fn.defs.get(d.args[0][1])
            if t is not None and t.op == 'alloca':
                return atom(('av', self.var(d.args[0][1])))
        if d.op == 'phi':
            return atom(('phi', d.dst))
        return atom(('?', o))


def fixed(p):
    """made of nothing but constants, variables and the limit"""
    for a in omp.atoms(p):
        if a[0] == 'div':
            if not all(fixed(dict(x)) for x in a[1:]):
                return False
        elif a[0] not in ('av', 'call', 'arg'):
            return False
    return True


def outside(p, fork, pa):
    """a polynomial of the region in terms of the function around it, or None"""
    r = con(0)
    for m, c in p.items():
        t = con(c)
        for a in m:
            if a[0] == 'ld' and a[1][0] == 'var' and not dict(a[2]) and fork.args[a[1][1] + 1][0] == 'v':
                x = atom(('av', pa.var(fork.args[a[1][1] + 1][1])))
            elif a[0] == 'firstprivate' and a[1] + 1 < len(fork.args):
                x = pa.val(fork.args[a[1] + 1])
            elif a[0] == 'call':
                x = atom(a)
            elif a[0] == 'div':
                n, d = outside(dict(a[1]), fork, pa), outside(dict(a[2]), fork, pa)
                if n is None or d is None:
                    return None
                x = atom(('div', freeze(n), freeze(d)))
            else:
                return None
            t = mul(t, x)
        r = add(r, t)
    return r


def never_returns(r, g, b):
    """the block ends the program"""
    from . import absint
    eng = r.prog.__dict__.setdefault('_omp_eng', absint.Engine(r.prog))
    seen, todo = set(), [b]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if len(seen) > 8:
            return False
        stop = any(i.op == 'unreachable' for i in x.ins)
        for i in x.ins:
            if i.op == 'call' and i.x:
                h = r.prog.resolve(g, i.x)
                if i.x in ('exit', 'abort', '_exit', 'MPI_Abort') or h is not None and not r.prog_may_return(h):
                    stop = True
        if stop:
            continue
        if any(i.op == 'ret' for i in x.ins) or g.dominates(x, b) and x is not b:
            return False
        todo += x.succ
    return True


def check(r, f, fork, g):
    """[(verdict, ins, text)] for the writes of a region that go to a part of an array"""
    written = {w[0] for w in r.writes}
    slots = [w for w in r.writes if w[0][0] != 'unk' and omp.iteration_of(w[1], written) == 'slot']
    if not slots:
        return []
    pa = Parent(f)
    fr = omp.Frame(g, {p: ('addr', ('gtid',) if k < 2 else ('var', k), con(0)) if g.ptys[k] == 'ptr' else
                       ('int', atom(('firstprivate', k))) for k, p in enumerate(g.params)}, ())
    out = []
    for b, p, i, v in slots:
        if i.fn is not g:
            continue
        res = part(r, f, fork, g, pa, fr, p, i, written)
        if res is not None:
            out.append((res[0], i, res[1]))
    return out


def load_at(g, o, off=0, depth=0):
    """(load, constant added to it) of an operand"""
    d = g.defs.get(o[1]) if o[0] == 'v' else None
    if d is None or depth > 10:
        return None, 0
    if d.op in ('sext', 'zext', 'trunc', 'freeze'):
        return load_at(g, d.args[0], off, depth + 1)
    if d.op in ('add', 'sub') and d.args[1][0] == 'c':
        return load_at(g, d.args[0], off + (d.args[1][1] if d.op == 'add' else -d.args[1][1]), depth + 1)
    if d.op == 'load':
        return d, off
    return None, 0


def loads_in(g, o, seen):
    d = g.defs.get(o[1]) if o[0] == 'v' else None
    if d is None or o in seen:
        return
    seen.add(o)
    if d.op == 'load':
        yield d
        return
    if d.op in ('add', 'sub', 'sext', 'zext', 'trunc', 'freeze', 'mul', 'shl', 'getelementptr'):
        for a in d.args:
            yield from loads_in(g, a, seen)


def part(r, f, fork, g, pa, fr, p, i, written):
    slot = [(m[0], c) for m, c in p.items() if len(m) == 1 and m[0][0] == 'ld' and omp.table(m[0]) and m[0][1] not in written]
    own = [(m[0], c) for m, c in p.items() if len(m) == 1 and m[0][0] == 'ld' and omp.table(m[0]) and m[0][1] in written]
    if len(slot) != 1 or len(own) != 1 or slot[0][1] != own[0][1]:
        return None
    rest = {m: c for m, c in p.items() if m not in ((slot[0][0],), (own[0][0],))}
    st = slot[0][1]
    if set(rest) - {()} or st <= 0 or rest.get((), 0) % st:
        return None
    off = rest.get((), 0) // st
    # where the parts start
    base = slot[0][0][1]
    if base[0] != 'mem' or base[1][0] != 'var' or dict(base[2]) or base[1][1] + 1 >= len(fork.args):
        return None
    tab = fork.args[base[1][1] + 1]
    starts = []
    for s in f.instrs():
        if s.op != 'store' or s.args[1][0] != 'v':
            continue
        e = f.defs.get(s.args[1][1])
        if e is None or e.op != 'getelementptr' or e.args[0][0] != 'v':
            continue
        t = f.defs.get(e.args[0][1])
        if t is not None and t.op == 'load' and t.args[0] == tab and len(e.args) == 2:
            starts.append((s, e))
    if len(starts) != 1:
        return None
    s, e = starts[0]
    val, idx = pa.val(s.args[0]), pa.val(e.args[1])
    if len(idx) != 1 or list(idx.values()) != [1]:
        return None
    cnt = list(idx)[0]
    if len(cnt) != 1 or cnt[0][0] not in ('phi', 'av'):
        return None
    if fixed(val) and cnt[0] not in set(omp.atoms(val)):
        return 'bad', 'all parts start at the same element (%s in %s())' % (s.loc(), f.name)
    if any(list(m).count(cnt[0]) != 1 for m in val):
        return None
    K = {tuple(a for a in m if a != cnt[0]): c for m, c in val.items()}
    if not fixed(K):
        return None
    # the test that keeps the counter below a limit
    a2 = own[0][0]

    def is_counter(d):
        v = r.val(fr, d.args[0])
        return v[0] == 'addr' and v[1] == a2[1] and freeze(v[2]) == a2[2]
    steps = [x for x in g.instrs() if x.op == 'store' and r.val(fr, x.args[1])[:2] == ('addr', a2[1])]
    if len(steps) != 1:
        return None
    st1 = steps[0]
    d, k = load_at(g, st1.args[0])
    if d is None or k != 1 or not is_counter(d):
        return None

    def rel(d, k):
        """value in terms of the counter before it is increased"""
        if g.ins_dominates(st1, d):
            return k + 1
        return k if g.ins_dominates(d, st1) else None
    gep = g.defs.get(i.args[1][1]) if i.op == 'store' and i.args[1][0] == 'v' else None
    if gep is None:
        return None
    ls = {x for x in loads_in(g, i.args[1], set()) if x.ty != 'ptr' and is_counter(x)}
    if len(ls) != 1:
        return None
    at = rel(ls.pop(), off)
    if at is None:
        return None
    why = None
    for b in g.blocks.values():
        t = b.ins[-1]
        c = g.defs.get(t.args[0][1]) if t.op == 'br' and len(b.succ) == 2 and t.args and t.args[0][0] == 'v' else None
        if c is None or c.op != 'icmp' or not g.dominates(b, i.bb):
            continue
        for n in (0, 1):
            d, k = load_at(g, c.args[n])
            if d is None or d.ty == 'ptr' or not is_counter(d):
                continue
            pred = c.x if n == 0 else SWAP.get(c.x)
            if never_returns(r, g, b.succ[0]):
                pred = NEG.get(pred)
            elif not never_returns(r, g, b.succ[1]):
                continue
            if pred not in ('slt', 'ult', 'sle', 'ule', 'ne'):
                continue
            k = rel(d, k)
            y = r.val(fr, c.args[1 - n])
            y = outside(y[1], fork, pa) if y[0] == 'int' else None
            if k is None or y is None:
                return None
            # counter + k < G, element counter + at of the part
            top = add(y, con(at - k + (0 if pred in ('slt', 'ult', 'ne') else 1)))      # one past the last element of the part
            diff = add(top, K, -1)
            if set(diff) <= {()}:
                if diff.get((), 0) <= 0:
                    return 'ok', ''
                why = why or 'a part can have %d elements more than lie between the starts of two parts' % diff[()]
                continue
            if all(c > 0 for m, c in diff.items() if m):
                why = why or 'a part can be longer than the distance between the starts of two parts'
                continue
            n1 = [m for m in K if len(m) == 1 and m[0][0] == 'div']
            if len(n1) == 1 and K[n1[0]] == 1 and set(add(y, dict(n1[0][0][1]), -1)) <= {()}:
                why = why or 'a part can have as many elements as the whole array'
                continue
            return None
    if why is None:
        return None
    return 'bad', why + ' (starts: %s in %s())' % (s.loc(), f.name)


SWAP = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'eq': 'eq', 'ne': 'ne'}
NEG = {'slt': 'sge', 'sge': 'slt', 'sle': 'sgt', 'sgt': 'sle', 'ult': 'uge', 'uge': 'ult', 'ule': 'ugt', 'ugt': 'ule', 'eq': 'ne', 'ne': 'eq'}
