"""C19, the Fortran tools that join, split and expand land files: loops over what the input holds run over all of it."""
import re
from .. import absint, faults, project
from . import carry

TOOLS = ('combine-ncc', 'decompress-ncc', 'scatter-ncc')
DEFINE = re.compile(r'^(nf_def_dim_|nf_def_var_|nf_copy_att_)$')
DATA = re.compile(r'^nf_put_var|^nf_put_vara')
WHAT = {'nf_def_dim_': 'dimensions', 'nf_def_var_': 'variables', 'nf_copy_att_': 'attributes'}
# decompress-ncc drops the dimensions and variables that only describe the compression
# (scatter-ncc writes to a file only if some of the points are its own)
CHOOSES = {('decompress-ncc', 'nf_def_dim_'), ('decompress-ncc', 'nf_def_var_')}


def val(fn, o):
    """a value without conversions and without the detour of a comparison through an integer"""
    while o[0] == 'v':
        d = fn.defs.get(o[1])
        if d is None or d.op not in ('sext', 'zext', 'trunc', 'freeze', 'bitcast'):
            break
        o = d.args[0]
    return o


def test(fn, o):
    """the comparison a branch decides by"""
    neg = False
    while True:
        o = val(fn, o)
        d = fn.defs.get(o[1]) if o[0] == 'v' else None
        if d is None or d.op != 'icmp':
            return None, neg
        e = fn.defs.get(val(fn, d.args[0])[1]) if val(fn, d.args[0])[0] == 'v' else None
        if d.args[1] == ('c', 0) and d.x in ('ne', 'eq') and e is not None and e.op == 'icmp':
            neg ^= d.x == 'eq'
            o = d.args[0]
            continue
        return d, neg


class Loop:
    """a counted loop whose counter is a variable in memory or a register"""
    def __init__(self, fn, head, body):
        self.fn, self.head, self.body = fn, head, body
        self.tests, self.start, self.step, self.bounds, self.var = set(), None, None, [], None
        self.at = None         # where a counter in memory is stepped
        for b in body:
            t = b.ins[-1]
            if t.op != 'br' or len(b.succ) != 2 or all(s in body for s in b.succ):
                continue
            c, neg = test(fn, t.args[0])
            if c is None:
                continue
            for k in (0, 1):
                x, y = val(fn, c.args[k]), val(fn, c.args[1 - k])
                var = self.counter(x)
                if var is not None and (self.var in (None, var)):
                    self.var = var
                    self.tests.add(b)
                    self.bounds.append(y)
                    break

    def counter(self, x):
        """the loop's variable x is read from, if the loop steps it"""
        fn = self.fn
        d = fn.defs.get(x[1]) if x[0] == 'v' else None
        if d is None:
            return None
        if d.op == 'add' and d.args[1][0] == 'c':
            return self.counter(val(fn, d.args[0]))
        if d.op == 'load':
            p = d.args[0]
            steps = [i for b in self.body for i in b.ins if i.op == 'store' and i.args[1] == p]
            if len(steps) != 1:
                return None
            a = fn.defs.get(val(fn, steps[0].args[0])[1]) if val(fn, steps[0].args[0])[0] == 'v' else None
            l = fn.defs.get(val(fn, a.args[0])[1]) if a is not None and a.op == 'add' and val(fn, a.args[0])[0] == 'v' else None
            if l is None or l.op != 'load' or l.args[0] != p or a.args[1][0] != 'c':
                return None
            self.step, self.at = a.args[1][1], steps[0].bb
            outs = [b for b in self.head.pred if b not in self.body]
            vals = set()
            for b in outs:
                seen = set()
                while b is not None and b not in seen:
                    seen.add(b)
                    s = [i.args[0] for i in b.ins if i.op == 'store' and i.args[1] == p]
                    if s:
                        vals.add(val(fn, s[-1]))
                        break
                    b = b.pred[0] if len(b.pred) == 1 else None
                else:
                    vals.add(None)
            self.start = vals.pop() if len(vals) == 1 else None
            return p
        if d.op == 'phi' and d.bb is self.head:
            start, steps = None, set()
            for a, lab in d.x:
                if fn.blocks[lab] in self.body:
                    e = fn.defs.get(val(fn, a)[1]) if val(fn, a)[0] == 'v' else None
                    steps.add(e.args[1][1] if e is not None and e.op == 'add' and e.args[1][0] == 'c' and val(fn, e.args[0]) == x else None)
                else:
                    start = a if start in (None, a) else ()
            if len(steps) != 1 or None in steps or not start:
                return None
            self.step, self.start = steps.pop(), val(fn, start)
            return x
        return None

    def range(self, goals):
        """why it does not run over 1 .. number; None if it does; '' if it is not a counted loop"""
        if self.var is None or self.start is None or self.start[0] != 'c':
            return ''
        if self.step == -1:
            return ''
        # a counter that is stepped before the operation begins one later
        at = self.start[1]
        if self.at is not None and all(g is not self.at and self.fn.dominates(self.at, g) for g in goals):
            at += self.step
        if at < 1:
            return ''
        if at != 1:
            return 'it begins with number %d' % at
        if self.step != 1:
            return 'it goes in steps of %d' % self.step
        for y in self.bounds:
            d = self.fn.defs.get(y[1]) if y[0] == 'v' else None
            if y[0] == 'c':
                return 'it ends at the constant %d' % y[1]
            if d is not None and d.op in ('sdiv', 'udiv', 'ashr', 'lshr', 'add', 'sub') and d.args[1][0] == 'c':
                return 'it ends at something other than the number of them'
            c = self.fn.defs.get(d.args[0][1]) if d is not None and d.op == 'select' and d.args[0][0] == 'v' else None
            if c is not None and c.op == 'icmp' and c.x in ('slt', 'sle') and c.args[0] == d.args[1] and c.args[1] == d.args[2] and c.args[1][0] == 'c':
                return 'it ends at number %d at the latest' % c.args[1][1]
        return None

    def left(self):
        """a way out of the loop that is neither its end nor a failure"""
        fn = self.fn
        for b in self.body:
            for s in b.succ:
                if s in self.body or b in self.tests or dead(s):
                    continue
                c, neg = test(fn, b.ins[-1].args[0]) if b.ins[-1].op == 'br' and len(b.succ) == 2 else (None, False)
                if c is not None and c.args[1] == ('c', 0) and status(fn, c.args[0]):
                    continue
                return b.ins[-1]
        return None

    def skips(self, goals):
        """a turn of the loop that does not come to any of the goal blocks"""
        seen, work = set(), [(s, self.head) for s in self.head.succ if s in self.body]
        if self.head in goals:
            return None
        while work:
            b, frm = work.pop()
            if b is self.head:
                return frm.ins[-1]
            if b in seen or b in goals:
                continue
            seen.add(b)
            work += [(s, b) for s in b.succ if s in self.body]
        return None


def dead(b):
    seen, work = set(), [b]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.ins and x.ins[-1].op == 'ret' or len(seen) > 40:
            return False
        work += x.succ
    return True


def status(fn, o):
    """a value that a library call returned"""
    o = val(fn, o)
    d = fn.defs.get(o[1]) if o[0] == 'v' else None
    if d is None:
        return False
    if d.op == 'call':
        return True
    if d.op == 'load':
        st = [i.args[0] for i in fn.instrs() if i.op == 'store' and i.args[1] == d.args[0]]
        return bool(st) and all(val(fn, s)[0] == 'c' or status(fn, s) and fn.defs[val(fn, s)[1]].op == 'call' for s in st)
    return False


def nests(P, eng, i, seen=frozenset()):
    """the loops around an operation, innermost first, as (function, loop, blocks that come to the operation)"""
    fn = i.fn
    nat = carry.natural(fn)
    around = sorted((len(b), h.label, h) for h, b in nat.items() if i.bb in b)
    if around:
        out, goals = [], {i.bb}
        for _, _, h in around:
            out.append((fn, Loop(fn, h, nat[h]), set(goals)))
            goals |= nat[h]
        yield i, out
        return
    live = faults._reach(eng)
    for c in P.callers(fn):
        if c.fn in live and c.fn not in seen and c.fn is not fn:
            yield from nests(P, eng, c, seen | {fn})


def land(rep, L):
    n = 0
    PS = project.load_fortran(L)
    for p in TOOLS:
        P = PS[p]
        eng = absint.Engine(P)
        rep.count('programs')
        done = set()
        ops = [(s, list(nests(P, eng, s))) for s in faults.live_calls(eng) if s.x and (DEFINE.match(s.x) or DATA.match(s.x))]
        # loops around data that write some of it in loops of their own
        outer = {(fn.name, lp.head.label) for s, ns in ops if DATA.match(s.x) for i, nest in ns for fn, lp, g in nest[1:]}
        for s, ns in ops:
            data = not DEFINE.match(s.x)
            what = 'data' if data else WHAT[s.x]
            for i, nest in ns:
                for k, (fn, lp, goals) in enumerate(nest):
                    key = (fn.name, lp.head.label, data, k)
                    if key in done:
                        continue
                    done.add(key)
                    rep.count('loops')
                    at = lp.head.ins[-1].loc()
                    where = '%s: %s: the loop at %s in %s()' % (p, what, at, short(fn.name))
                    name = '%s|%s|%s' % (p, what, short(fn.name))
                    w = lp.range(goals)
                    if w == '':
                        if not data and k == 0:
                            rep.unknown(where + ' is not counted')
                        continue
                    n += 1
                    if w is not None:
                        rep.bad(name + '|range', where + ': ' + w)
                        continue
                    some = data and (k or (fn.name, lp.head.label) in outer)
                    e = None if some else lp.left()
                    if e is not None:
                        rep.bad(name + '|left', where + ' is left early at ' + e.loc())
                        continue
                    e = None if some or data and p == 'scatter-ncc' or (p, s.x) in CHOOSES or p == 'decompress-ncc' and k else lp.skips(goals)
                    if e is not None:
                        rep.bad(name + '|skip', '%s: a turn comes back from %s without having come to %s' % (where, e.loc(), s.x.rstrip('_')))
                        continue
                    rep.ok(where + ' runs over all of them')
    return n


def short(n):
    n = re.sub(r'^__\w+?_MOD_', '', n)
    return re.sub(r'\.\d+$', '', n)
