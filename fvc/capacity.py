"""Can an index reach the capacity of the array it indexes?

Upper bounds are proved relative to the capacity K (the value of the limit function, or a constant):
prove(v, c) shows v + c <= K - 1 from the branches that must have been taken, by induction over the
phi functions of counters, and for counters kept in memory by looking back at every way to the use."""

from . import absint

SWAP = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}
NEG = {'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}


class Cfg:
    """control flow without the edges that leave a call that does not return"""

    def __init__(self, eng, fn):
        self.fn = fn
        self.preds = {}
        self.succ = {}
        self.cut = {}
        for b in fn.blocks.values():
            self.succ[b] = []
            self.preds.setdefault(b, [])
            if not eng.executable(b):
                continue
            for i in b.ins:
                if i.op == 'call' and noreturn(eng, fn, i):
                    self.cut[b] = i.idx
                    break
            else:
                for l in dict.fromkeys(b.ins[-1].succ):
                    s = fn.blocks[l]
                    if eng.executable(s):
                        self.succ[b].append(s)
        for b, ss in self.succ.items():
            for s in ss:
                self.preds.setdefault(s, []).append(b)
        self._dom = {}

    def without(self, edge):
        """blocks reachable from the entry without using the edge"""
        r = self._dom.get(edge)
        if r is None:
            r = {self.fn.entry}
            todo = [self.fn.entry]
            while todo:
                b = todo.pop()
                for s in self.succ[b]:
                    if (b, s) != edge and s not in r:
                        r.add(s)
                        todo.append(s)
            self._dom[edge] = r
        return r

    def dominates(self, edge, blk):
        return blk not in self.without(edge)

    def block_dominates(self, a, blk):
        """every way to blk passes the end of block a"""
        if a is blk or a in self.cut:
            return False
        r = self._dom.get(a)
        if r is None:
            r = set() if a is self.fn.entry else {self.fn.entry}
            todo = list(r)
            while todo:
                for s in self.succ[todo.pop()]:
                    if s is not a and s not in r:
                        r.add(s)
                        todo.append(s)
            self._dom[a] = r
        return blk not in r


def noreturn(eng, fn, i):
    if i.x in absint.EXITS or i.x in absint.ABORTS:
        return True
    g = eng.prog.resolve(fn, i.x)
    if g is None:
        return False
    c = eng.__dict__.setdefault('_noret', {})
    if g not in c:
        c[g] = False
        c[g] = not returns(eng, g)
    return c[g]


def returns(eng, g):
    f = Cfg(eng, g)
    live = f.without(None)
    return any(b.ins[-1].op == 'ret' and b not in f.cut for b in live)


class Prover:
    """limit(fn, operand) -> k if the operand is the capacity plus the constant k, else None"""

    def __init__(self, eng, limit, nonneg=()):
        self.eng = eng
        self.prog = eng.prog
        self.limit = limit
        self.cfgs = {}
        self.steps = 0
        self.slots = set()
        self.why = ''

    def cfg(self, fn):
        c = self.cfgs.get(fn)
        if c is None:
            c = self.cfgs[fn] = Cfg(self.eng, fn)
        return c

    # -------------------------------------------------------------- values
    def lin(self, fn, o):
        """operand -> (root operand, constant offset)"""
        c = 0
        while o[0] == 'v':
            d = fn.defs.get(o[1])
            if d is None:
                break
            if d.op == 'add' and d.args[1][0] == 'c':
                c += d.args[1][1]
                o = d.args[0]
            elif d.op == 'add' and d.args[0][0] == 'c':
                c += d.args[0][1]
                o = d.args[1]
            elif d.op == 'sub' and d.args[1][0] == 'c':
                c -= d.args[1][1]
                o = d.args[0]
            elif d.op in ('sext', 'zext', 'trunc', 'freeze'):
                o = d.args[0]
            else:
                break
        return o, c

    def cell(self, fn, o, depth=0):
        """canonical form of a memory location, so that two loads of it can be told to be the same"""
        if depth == 0:
            c = self.cfgs.setdefault((fn, 'cells'), {})
            r = c.get(o)
            if r is None:
                r = c[o] = self.cell(fn, o, 1)
            return r
        if depth > 20:
            return ('?', id(o))
        if o[0] != 'v':
            return o[:3]
        d = fn.defs.get(o[1])
        if d is None or d.op in ('alloca', 'call', 'select'):
            return o
        if d.op == 'phi':
            return o
        if d.op == 'getelementptr':
            off, var, _ = fn.mod.gep_offset(d.ty, d.args[1:])
            b = self.cell(fn, d.args[0], depth + 1)
            if len(d.args) == 2:
                return b
            return ('[]', b, 0 if var else off) if var or off else b
        if d.op == 'load':
            return ('*', self.cell(fn, d.args[0], depth + 1))
        if d.op in ('bitcast', 'freeze'):
            return self.cell(fn, d.args[0], depth + 1)
        return (d.op, d.ty) + tuple(self.cell(fn, a, depth + 1) for a in d.args)

    def same(self, fn, a, b):
        a, b = self.lin(fn, a), self.lin(fn, b)
        if a[0] == b[0]:
            return b[1] - a[1]
        da = fn.defs.get(a[0][1]) if a[0][0] == 'v' else None
        db = fn.defs.get(b[0][1]) if b[0][0] == 'v' else None
        if da is not None and db is not None and da.op == db.op == 'load' and self.cell(fn, da.args[0]) == self.cell(fn, db.args[0]):
            return b[1] - a[1]
        return None

    # -------------------------------------------------------------- proof
    def prove(self, fn, o, c, blk, hyp=frozenset(), depth=0, before=None):
        """o + c <= K - 1 at the end of blk (before instruction index `before`)"""
        self.steps += 1
        if self.steps > 200000:
            raise RuntimeError('capacity proof too long')
        if depth > 60:
            return False
        k = self.limit(fn, o)
        if k is not None:
            return k + c <= -1
        if o[0] == 'c':
            return self.small(o[1] + c)
        r, off = self.lin(fn, o)
        c += off
        k = self.limit(fn, r)
        if k is not None:
            return k + c <= -1
        if r[0] == 'c':
            return self.small(r[1] + c)
        if r[0] != 'v':
            return False
        key = (fn, r, c)
        if key in hyp:
            return True
        d = fn.defs.get(r[1])
        if self.guarded(fn, r, c, blk, hyp, depth, d, before):
            return True
        if d is None and r[1] in fn.params:
            k = fn.params.index(r[1])
            h = hyp | {key}
            cs = [x for x in self.prog.callers(fn) if x.bb in self.cfg(x.fn).without(None)]
            return bool(cs) and all(self.prove(x.fn, x.args[k], c, x.bb, h, depth + 1, x.idx) for x in cs)
        if d is None:
            return False
        if d.op == 'phi':
            h = hyp | {key}
            g = self.cfg(fn)
            live = g.without(None)
            ok = True
            for x, l in d.x:
                p = fn.blocks[l]
                if p not in live or d.bb not in g.succ[p]:
                    continue
                if not self.prove_edge(fn, x, c, p, d.bb, h, depth + 1):
                    ok = False
                    break
            if ok:
                return True
        if d.op == 'load':
            return self.back(fn, d, c, hyp, depth)
        if d.op == 'select':
            return all(self.prove(fn, x, c, d.bb, hyp, depth + 1) for x in d.args[1:3])
        if d.op == 'call':
            g = self.prog.resolve(fn, d.x)
            if g is not None and d.ty and d.ty.startswith('i'):
                f = self.cfg(g)
                live = f.without(None)
                rs = [b.ins[-1] for b in live if b.ins[-1].op == 'ret' and b not in f.cut]
                return bool(rs) and all(i.args and self.prove(g, i.args[0], c, i.bb, hyp, depth + 1) for i in rs)
        if d.op == 'add':
            # base of a block plus the position in it
            a, b = d.args
            for s, t in ((a, b), (b, a)):
                if self.slot(fn, s) and self.prove(fn, t, c, blk, hyp, depth + 1, before):
                    return True
        return False

    def slot(self, fn, o):
        r, off = self.lin(fn, o)
        d = fn.defs.get(r[1]) if r[0] == 'v' else None
        return d is not None and d.op == 'load' and off == 0 and self.is_slot(fn, d)

    def is_slot(self, fn, d):
        return False

    def small(self, n):
        return n <= 0

    def prove_edge(self, fn, o, c, p, s, hyp, depth):
        self.edge = (p, s)
        if self.bound_by_edge(fn, o, c, (p, s), hyp, depth):
            return True
        return self.prove(fn, o, c, p, hyp, depth)

    def conds(self, fn):
        c = self.cfgs.get((fn, 'conds'))
        if c is None:
            c = []
            g = self.cfg(fn)
            for b in g.without(None):
                t = b.ins[-1]
                if t.op != 'br' or len(t.succ) != 2 or not t.args or t.args[0][0] != 'v':
                    continue
                d = fn.defs.get(t.args[0][1])
                if d is None or d.op != 'icmp' or d.x not in NEG:
                    continue
                for n, l in enumerate(t.succ):
                    s = fn.blocks[l]
                    if s in g.succ[b] and t.succ[0] != t.succ[1]:
                        c.append(((b, s), d, d.x if n == 0 else NEG[d.x]))
            self.cfgs[(fn, 'conds')] = c
        return c

    def conds_of(self, fn, edge):
        c = self.cfgs.get((fn, 'edges'))
        if c is None:
            c = self.cfgs[(fn, 'edges')] = {}
            for x in self.conds(fn):
                c.setdefault(x[0], []).append(x)
        return c.get(edge, ())

    def values(self, fn, cell):
        """what is stored to the cell, as (root, offset)"""
        c = self.cfgs.get((fn, 'values'))
        if c is None:
            c = self.cfgs[(fn, 'values')] = {}
            for i in fn.instrs():
                if i.op == 'store':
                    c.setdefault(self.cell(fn, i.args[1]), set()).add(self.lin(fn, i.args[0]))
        return c.get(cell, ())

    def checkers(self, fn):
        """calls of functions that return only for some values of an integer argument"""
        c = self.cfgs.get((fn, 'checkers'))
        if c is None:
            c = []
            for i in fn.calls():
                g = self.prog.resolve(fn, i.x)
                if g is None or len(g.params) > 6 or not self.cfg(g).cut:
                    continue
                for k, t in enumerate(g.ptys):
                    if t in ('i32', 'i64') and k < len(i.args):
                        c.append((i, g, k))
            self.cfgs[(fn, 'checkers')] = c
        return c

    def passed(self, g, k, c, hyp, depth):
        """does g return only if its k-th argument + c <= K - 1?"""
        f = self.cfg(g)
        rs = [b for b in f.without(None) if b.ins[-1].op == 'ret' and b not in f.cut]
        return all(self.prove(g, ('v', g.params[k]), c, b, hyp, depth + 1) for b in rs)

    def guarded(self, fn, r, c, blk, hyp, depth, d, before=None):
        if d is None or d.op != 'load':
            for i, g, k in self.checkers(fn):
                v = self.lin(fn, i.args[k])
                if v[0] == r and (self.cfg(fn).block_dominates(i.bb, blk) or i.bb is blk and (before is None or i.idx < before)) and self.passed(g, k, c - v[1], hyp, depth + 1):
                    return True
        for e, cmp, pred in self.conds(fn):
            for v, w, p in ((cmp.args[0], cmp.args[1], pred), (cmp.args[1], cmp.args[0], SWAP[pred])):
                if p not in ('slt', 'sle', 'ult', 'ule', 'eq'):
                    continue
                k = self.lin(fn, v)
                if k[0] != r or (d is not None and d.op == 'load'):
                    continue
                if not self.cfg(fn).dominates(e, blk):
                    continue
                # v = r + k[1] <(=) w
                if self.prove(fn, w, c - k[1] - (1 if p in ('slt', 'ult') else 0), e[0], hyp, depth + 1):
                    return True
        return False

    def bound_by_edge(self, fn, o, c, edge, hyp, depth):
        r, off = self.lin(fn, o)
        for e, cmp, pred in self.conds_of(fn, edge):
            for v, w, p in ((cmp.args[0], cmp.args[1], pred), (cmp.args[1], cmp.args[0], SWAP[pred])):
                if p not in ('slt', 'sle', 'ult', 'ule', 'eq'):
                    continue
                k = self.lin(fn, v)
                if k[0] == r and self.prove(fn, w, c + off - k[1] - (1 if p in ('slt', 'ult') else 0), e[0], hyp, depth + 1):
                    return True
        return False

    # -------------------------------------------------------------- counters in memory
    def back(self, fn, ld, c, hyp, depth):
        """the loaded value + c <= K - 1: on every way back there is a branch or a store that shows it"""
        return self.back_from(fn, self.cell(fn, ld.args[0]), c, ld.bb, ld.idx, hyp, depth)

    def back_from(self, fn, cell, c, blk, idx, hyp, depth):
        key = ('cell', fn, cell, c, blk, idx)
        if key in hyp:
            return True
        if depth > 60:
            return False
        hyp = hyp | {key}
        g = self.cfg(fn)
        seen = set()
        todo = [(blk, idx)]
        entry = False
        while todo:
            b, idx = todo.pop()
            done = False
            for i in reversed(b.ins[:idx]):
                if i.op == 'store' and self.cell(fn, i.args[1]) == cell:
                    if not self.prove(fn, i.args[0], c, b, hyp, depth + 1, i.idx):
                        return False
                    done = True
                    break
                if i.op == 'call':
                    if self.call_cell(fn, cell, c, i, hyp, depth):
                        done = True
                        break
                    h = self.prog.resolve(fn, i.x)
                    if h is None:
                        continue
                    for k, a in enumerate(i.args):
                        if a[0] == 'v' and k < len(h.params) and h.ptys[k] == 'ptr' and self.cell(fn, a) == cell and self.eng.writes_param(h, k):
                            f = self.cfg(h)
                            for r in f.without(None):
                                if r.ins[-1].op == 'ret' and r not in f.cut and not self.back_from(
                                        h, ('v', h.params[k]), c, r, None, hyp, depth + 1):
                                    return False
                            done = True
                    if done:
                        break
            if done:
                continue
            if b is fn.entry:
                entry = True
            for p in g.preds.get(b, ()):
                if p not in g.without(None):
                    continue
                if (p, b) in seen:
                    continue
                seen.add((p, b))
                if self.edge_cell(fn, cell, c, (p, b), hyp, depth):
                    continue
                todo.append((p, len(p.ins)))
        if not entry:
            return True
        if cell[0] == 'v' and cell[1] in fn.params:
            # the caller's variable
            k = fn.params.index(cell[1])
            cs = [x for x in self.prog.callers(fn) if x.bb in self.cfg(x.fn).without(None)]
            return bool(cs) and all(self.back_from(x.fn, self.cell(x.fn, x.args[k]), c, x.bb, x.idx, hyp, depth + 1) for x in cs)
        return any(i.op == 'store' and i.args[0] == ('c', 0) and self.cell(fn, i.args[1]) == cell for i in fn.instrs())

    def call_cell(self, fn, cell, c, ins, hyp, depth):
        for i, g, k in self.checkers(fn):
            if i is not ins:
                continue
            r, off = self.lin(fn, i.args[k])
            d = fn.defs.get(r[1]) if r[0] == 'v' else None
            if d is not None and d.op == 'load' and off == 0 and self.cell(fn, d.args[0]) == cell:
                pass
            elif self.stored_to(fn, i.args[k], cell, i.bb, i.idx):
                off = 0
            else:
                continue
            if self.passed(g, k, c - off, hyp, depth + 1):
                return True
        return False

    def edge_cell(self, fn, cell, c, edge, hyp, depth):
        for e, cmp, pred in self.conds_of(fn, edge):
            for v, w, p in ((cmp.args[0], cmp.args[1], pred), (cmp.args[1], cmp.args[0], SWAP[pred])):
                if p not in ('slt', 'sle', 'ult', 'ule', 'eq'):
                    continue
                r, off = self.lin(fn, v)
                d = fn.defs.get(r[1]) if r[0] == 'v' else None
                if d is not None and d.op == 'load' and self.cell(fn, d.args[0]) == cell and (off == 0 or self.current(fn, d, cell, edge[0])):
                    pass
                else:
                    # as much more than what was stored
                    k = [off - y for x, y in self.values(fn, cell) if x == r and x[0] == 'v' and self.stored_to(fn, (x, y), cell, edge[0])]
                    if not k:
                        continue
                    off = k[0]
                if self.prove(fn, w, c - off - (1 if p in ('slt', 'ult') else 0), e[0], hyp, depth + 1):
                    return True
        return False

    def current(self, fn, d, cell, blk):
        """does the cell still hold what d loaded, at the end of the block?"""
        g = self.cfg(fn)
        seen = set()
        todo = [blk]
        while todo:
            b = todo.pop()
            for i in reversed(b.ins):
                if i is d:
                    break
                if i.op == 'store' and self.cell(fn, i.args[1]) == cell:
                    return False
            else:
                if b is fn.entry:
                    return False
                for p in g.preds.get(b, ()):
                    if p not in seen and p in g.without(None):
                        seen.add(p)
                        todo.append(p)
        return True

    def stored_to(self, fn, v, cell, blk, idx=None):
        """is v what the cell holds at the end of the block?"""
        v = v if isinstance(v[0], tuple) else self.lin(fn, v)
        if v[0][0] != 'v' or v not in self.values(fn, cell):
            return False
        g = self.cfg(fn)
        seen = set()
        todo = [(blk, idx)]
        while todo:
            b, n = todo.pop()
            for i in reversed(b.ins[:n]):
                if i.op == 'store' and self.cell(fn, i.args[1]) == cell:
                    if self.lin(fn, i.args[0]) != v:
                        return False
                    break
            else:
                if b is fn.entry:
                    return False
                for p in g.preds.get(b, ()):
                    if p not in seen and p in g.without(None):
                        seen.add(p)
                        todo.append((p, None))
        return True
