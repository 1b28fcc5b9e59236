"""C19: what is split, joined or copied keeps every dimension, variable and attribute, and every variable its data."""
import re
from .. import absint, faults, handles as H, project
from . import options

COPY = {'nc_copy_att': (1, 4), 'ncattcopy': (1, 4)}
PUTATT = re.compile(r'^(nc_put_att|ncattput)')
GET = ('ncvarget', 'nc_get_vara', 'nc_get_var')
PUT = re.compile(r'^(nc_put_var|ncvarput)')
KINDS = (('dimension', {'nc_def_dim', 'ncdimdef'}), ('variable', {'nc_def_var', 'ncvardef'}))
GLOBAL = ('c', -1)
# bookkeeping of the decomposition, and the name of the file itself
OWN = {'NumFilesInSet', 'domain_decomposition', 'filename'}
# attributes that describe the old grid or the averaging of the old file
DERIVED = {'time_avg_info', 'coordinates'}
CMP = ('strcmp', 'strncmp', 'strcasecmp', 'strncasecmp')
LOOK = re.compile(r'^nc(_inq_(var|att|dim)(id|len)?$|dimid|varid|attget|attinq)')
TABLE = 'table of dimensions'
LOCAL = ('malloc', 'calloc', 'realloc', 'strdup', 'strtok')
BUDGET = 3000000


class Facts(absint.Engine):
    """an engine that takes some loads to have a known value"""
    def __init__(self, prog, assume, fact):
        super().__init__(prog, assume=assume)
        self.fact = fact

    def transfer(self, fn, i, get, mem):
        if i.op == 'load':
            v = self.fact(fn, i)
            if v is not None:
                return v
        return super().transfer(fn, i, get, mem)


def natural(fn):
    """header -> body of every natural loop"""
    fn.idom()
    out = {}
    for b in fn.blocks.values():
        for h in b.succ:
            if fn.dominates(h, b):
                body = out.setdefault(h, {h})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(x.pred)
    return out


def strip(fn, o):
    while o[0] == 'v':
        d = fn.defs.get(o[1])
        if d is None or d.op not in ('sext', 'zext', 'trunc', 'freeze'):
            break
        o = d.args[0]
    return o


class Count:
    """how a loop counts: phi, start, step, the blocks that test it, the bound"""
    def __init__(self, fn, head, body):
        self.phi = None
        self.tests = {}
        self.why = None
        for p in head.ins:
            if p.op != 'phi':
                break
            start, steps = None, set()
            ok = True
            for a, lab in p.x:
                if fn.blocks[lab] in body:
                    d = fn.defs.get(strip(fn, a)[1]) if a[0] == 'v' else None
                    if d is not None and d.op in ('add', 'sub') and strip(fn, d.args[0]) == ('v', p.dst) and d.args[1][0] == 'c':
                        steps.add(d.args[1][1] if d.op == 'add' else -d.args[1][1])
                    else:
                        ok = False
                else:
                    start = a if start in (None, a) else ()
            if not ok or len(steps) != 1 or not start:
                continue
            step = steps.pop()
            tests = {}
            for b in body:
                t = b.ins[-1]
                if t.op != 'br' or len(b.succ) != 2 or all(s in body for s in b.succ) or t.args[0][0] != 'v':
                    continue
                out = b.succ[0] not in body         # left when the condition holds
                for c in parts(fn, t.args[0], out):
                    for k in (0, 1):
                        x, y = strip(fn, c.args[k]), strip(fn, c.args[1 - k])
                        nxt = fn.defs.get(x[1]) if x[0] == 'v' else None
                        late = nxt is not None and nxt.op == 'add' and strip(fn, nxt.args[0]) == ('v', p.dst) and nxt.args[1] == ('c', step)
                        if x == ('v', p.dst) or late:
                            pred = c.x if k == 0 else absint_swap(c.x)
                            tests.setdefault(b, []).append((absint_neg(pred) if out else pred, y, late))
                            break
            if tests:
                self.phi, self.start, self.step, self.tests = p, start, step, tests
                return

    def problem(self, fn):
        """why the loop does not run over all of 0 .. count-1; None if it does; '' if it cannot be told"""
        if self.phi is None:
            return ''
        if self.step != 1:
            return 'it goes in steps of %d' % self.step if self.step > 1 else ''
        if self.start[0] != 'c':
            return ''
        start = self.start[1]
        for b, pred, y, late in [(b,) + t for b, ts in self.tests.items() for t in ts]:
            if y[0] == 'c':
                return 'it ends at the constant %d' % y[1] if y[1] < 2000 else ''
            d = fn.defs.get(y[1]) if y[0] == 'v' else None
            if pred in ('slt', 'ult', 'ne'):
                off = 0
            elif pred in ('sle', 'ule'):
                off = 1
            else:
                return ''
            if d is not None and d.op in ('add', 'sub') and d.args[1][0] == 'c':
                off += d.args[1][1] if d.op == 'add' else -d.args[1][1]
            elif d is not None and d.op in ('sdiv', 'udiv', 'ashr', 'lshr', 'select', 'and', 'srem', 'urem'):
                return 'it ends at something other than the number of them'
            if start < 0:
                if not (late and start == -1):
                    return ''
            elif start == off and start > 0:
                return ''           # counted from 1
            elif start > 0:
                return 'it starts at %d' % start
            if off:
                return 'it ends %s the number of them' % ('before' if off < 0 else 'after')
        return None


def parts(fn, o, out):
    """the comparisons a condition is made of, each of which makes the loop end"""
    d = fn.defs.get(o[1]) if o[0] == 'v' else None
    if d is None:
        return []
    if d.op == 'icmp':
        return [d]
    if d.op == ('or' if out else 'and'):
        return parts(fn, d.args[0], out) + parts(fn, d.args[1], out)
    if d.op == 'select' and d.args[1 if out else 2] == ('c', 1 if out else 0):
        return parts(fn, d.args[0], out) + parts(fn, d.args[2 if out else 1], out)
    if d.op == 'phi':               # a && b, a || b before they are folded
        got = []
        for a, lab in d.x:
            q = fn.blocks[lab]
            if a == ('c', 1 if out else 0):
                if q.ins[-1].op == 'br' and len(q.succ) == 2 and q.succ[0 if out else 1] is d.bb:
                    got += parts(fn, q.ins[-1].args[0], out)
            elif a[0] == 'v' and not (fn.defs.get(a[1]) is not None and fn.defs[a[1]].op == 'phi'):
                got += parts(fn, a, out)
        return got
    return []


def absint_swap(p):
    return {'sgt': 'slt', 'slt': 'sgt', 'sge': 'sle', 'sle': 'sge', 'ugt': 'ult', 'ult': 'ugt', 'uge': 'ule', 'ule': 'uge'}.get(p, p)


def absint_neg(p):
    return {'sgt': 'sle', 'sle': 'sgt', 'slt': 'sge', 'sge': 'slt', 'ugt': 'ule', 'ule': 'ugt', 'ult': 'uge', 'uge': 'ult', 'eq': 'ne', 'ne': 'eq'}[p]


class Watch(absint.Query):
    """records the states in which blocks of one function are entered, by edge"""
    def __init__(self, *a, fn0=None, **k):
        super().__init__(*a, **k)
        self.fn0 = fn0
        self.at = {}
        self.over = {}

    def edge(self, fn, b, succ, env, mem, push):
        if fn is not self.fn0:
            return super().edge(fn, b, succ, env, mem, push)

        def see(blk, st):
            self.at[blk] = self.joinstate(fn, self.at[blk], st) if blk in self.at else st
            self.over[(b, blk)] = self.joinstate(fn, self.over[(b, blk)], st) if (b, blk) in self.over else st
            push(blk, st)
        return super().edge(fn, b, succ, env, mem, see)


class Round(absint.Query):
    """one turn of a loop: can it come back to the head without passing a goal?"""
    def __init__(self, *a, fn0=None, head=None, body=(), goals=(), **k):
        super().__init__(*a, **k)
        self.fn0, self.head, self.body, self.goals = fn0, head, body, goals
        self.back = []
        self.met = False

    def saw(self):
        self.met = True
        return True

    def edge(self, fn, b, succ, env, mem, push):
        if fn is self.fn0:
            if succ is self.head:
                self.back.append(b)
                return
            if succ in self.goals or succ not in self.body:
                return
        return super().edge(fn, b, succ, env, mem, push)


class Reach(absint.Query):
    """absorbs the ways that enter one of the given blocks"""
    def __init__(self, *a, goals=(), **k):
        super().__init__(*a, **k)
        self.goals = goals

    def edge(self, fn, b, succ, env, mem, push):
        if (fn, succ) in self.goals:
            return
        return super().edge(fn, b, succ, env, mem, push)


def depends(fn, c, iv):
    """does the call c use the counter, directly or through a buffer filled with its help?"""
    seen, todo, bases = set(), [a for a in c.args], set()
    while todo:
        o = todo.pop()
        if o in seen or o[0] != 'v':
            continue
        if o == ('v', iv):
            return True
        seen.add(o)
        d = fn.defs.get(o[1])
        if d is None:
            continue
        todo += [a for a in d.args] if d.op != 'phi' else [x[0] for x in d.x]
        if d.op == 'alloca' and o[1] not in bases:
            bases.add(o[1])
            for i in fn.instrs():
                if i.op == 'store' and options.root_obj(fn, i.args[1]) == o:
                    todo += [i.args[0], i.args[1]]
                elif i.op == 'call' and i.x and not i.x.startswith('llvm.dbg') and any(options.root_obj(fn, a) == o for a in i.args):
                    todo += list(i.args)
    return False


def groups(P, eng, goal):
    """(function, innermost loop head or None, sites)"""
    out = {}
    for f in P.functions():
        if f not in faults._reach(eng):
            continue
        nat = None
        for i in f.instrs():
            if i.op in ('call', 'store') and goal(i) and eng.executable(i.bb):
                nat = nat if nat is not None else natural(f)
                inner = [h for h, body in nat.items() if i.bb in body]
                h = min(inner, key=lambda x: len(nat[x])) if inner else None
                out.setdefault((f, h), []).append(i)
    return [(f, h, s) for (f, h), s in out.items()]


def complete(eng, f, head, sites, models, also=lambda i: False, env=None, depth=99):
    """[(verdict, text)] for the loops around the sites; verdict ok, bad or unknown.  Also the outermost loop head."""
    nat = natural(f)
    chain = sorted((h for h, body in nat.items() if all(s.bb in body for s in sites)), key=lambda h: len(nat[h]))[:depth]
    what = '%s at %s in %s()' % (sites[0].x or 'the entry', sites[0].loc(), f.name)
    res = []
    w = Watch(eng, fn0=f, models=models, budget=BUDGET)
    try:
        w.run(f, (f.entry, 0), dict(env or {}), {})
    except Exception as e:
        return [('unknown', '%s: %s' % (what, e))], None
    stops = set(sites) | {i for i in f.calls() if also(i)}
    below = None
    for h in chain:
        body = nat[h]
        if h not in w.at:
            return [], None         # not reached in this case
        c = Count(f, h, body)
        pr = c.problem(f)
        line = h.ins[-1].loc()
        if pr:
            res.append(('bad', 'the loop at %s around %s does not cover all: %s' % (line, what, pr)))
        elif pr == '':
            res.append(('unknown', 'the loop at %s around %s is not a plain count' % (line, what)))
        else:
            if not any(depends(f, s, c.phi.dst) for s in sites):
                res.append(('bad', 'the loop at %s around %s does the same in every turn' % (line, what)))
            else:
                res.append(('ok', 'the loop at %s around %s runs over all' % (line, what)))
        # left early?
        for (b, s), st in sorted(w.over.items(), key=lambda x: (x[0][0].label, x[0][1].label)):
            if b in body and s not in body and b not in c.tests and c.phi is not None:
                q = absint.Query(eng, models=models, budget=BUDGET)
                try:
                    r = q.run(f, (s, 0), dict(st[0]), dict(st[1]))
                except Exception as e:
                    res.append(('unknown', '%s: %s' % (what, e)))
                    continue
                if r is not None and (f.rty == 'void' or absint.may_be_zero(r[0])):
                    res.append(('bad', 'the loop at %s around %s can be left early at %s' % (line, what, b.ins[-1].loc())))
        # nothing skipped?
        q = Round(eng, fn0=f, head=h, body=body, goals={below} if below is not None else set(), models=models, budget=BUDGET,
                  stop=(lambda q, fn, i, env: i in stops and q.saw()) if below is None else None)
        st = w.at[h]
        try:
            q.run(f, (h, 0), dict(st[0]), dict(st[1]))
        except Exception as e:
            res.append(('unknown', '%s: %s' % (what, e)))
            continue
        if below is None and not q.met and not q.back:
            return [], None         # never comes to it in this case
        if q.back:
            res.append(('bad', 'a turn of the loop at %s can pass by %s (for example after %s)' % (
                line, what, q.back[0].ins[-1].loc())))
        else:
            res.append(('ok', 'every turn of the loop at %s comes to %s' % (line, what)))
        below = h
    return res, below


def fields(P):
    """what is stored in the fields of structures: (type, field) -> range, TOP if anything else"""
    out, esc = {}, set()
    eng = absint.Engine(P)
    for f in P.functions():
        for i in f.instrs():
            if i.op == 'store':
                k = H.field_key(f, i.args[1])
                if k is not None:
                    cs = eng.consts(f, i.args[0])
                    v = absint.rng(min(cs), max(cs)) if cs else absint.TOP
                    out[k] = absint.join(out.get(k, absint.const(0)), v)
            elif i.op == 'call' and not (i.x or '').startswith('llvm.dbg'):
                for a in i.args:
                    k = H.field_key(f, a)
                    if k is not None:
                        esc.add(k)
    return {k: v for k, v in out.items() if k not in esc and v != absint.TOP}


def cells(q, fn, i, env, mem, out):
    """a model's way to give values to what a call fills in: out = {argument: {offset: value}}"""
    for k, vals in out.items():
        v = q.value(fn, i.args[k], env)
        if v[0] == 'P':
            q.havoc(v[1], mem)
            for off, x in vals.items():
                if v[2] is not None:
                    q.setm((v[1], v[2] + off), x, mem)


# --------------------------------------------------------------------------------------------------- the programs
def scatter_facts(P):
    """fields of the options that stand for help, version and dry run: not set"""
    eng = absint.Engine(P)
    zero, direct = set(), set()
    for s in faults.live_calls(eng):
        if s.x not in options.GETOPT:
            continue
        tab, _ = options.table(s.fn, s)
        for name, val, arg in tab or ():
            if name in ('--dry-run', '--help', '--usage', '--version'):
                r = options.handle(eng, s, val)
                for k, i in (r.eff if not r.err else {}).items():
                    if i.op == 'store' and i.args[0][0] == 'c':
                        key = H.field_key(i.fn, i.args[1])
                        if key is not None:
                            zero.add(key)
                        else:
                            direct.add(i.ty)
    return zero, direct


def verdict(rep, p, what, got):
    for v, t in got:
        if v == 'ok':
            rep.ok('%s: %s: %s' % (p, what, t))
        elif v == 'unknown':
            rep.unknown('%s: %s: %s' % (p, what, t))
        else:
            rep.bad('%s|%s|%s' % (p, what, re.sub(r'\S+:\d+', '', t)), '%s: %s: %s' % (p, what, t))


def first(rep, eng, p, what, g, heads, models):
    """one parameter being zero (nothing is there to append to) makes a successful return of g need the loops"""
    why = None
    for par in g.params:
        q = Reach(eng, goals=heads, models=models, budget=BUDGET)
        try:
            r = q.run(g, (g.entry, 0), {par: absint.const(0)}, {})
        except Exception as e:
            why = str(e)
            continue
        if r is None or not absint.may_be_zero(r[0]):
            rep.ok('%s: %s: %s() for the first file returns success only after the loop' % (p, what, g.name))
            return
    if why:
        rep.unknown('%s: %s: %s' % (p, what, why))
    else:
        rep.bad('%s|%s|reach' % (p, what), '%s: %s: %s() can return success for the first file without having come to the loop at %s' % (
            p, what, g.name, ', '.join(sorted(t.ins[-1].loc() for f, t in heads))))


def entry(i):
    """a new object put into a table of pointers"""
    if i.op != 'store' or i.args[0][0] != 'v' or i.args[1][0] != 'v':
        return False
    if not any((c.x or '').startswith('nc_inq_dim') for c in i.fn.calls()):
        return False
    d, a = i.fn.defs.get(i.args[0][1]), i.fn.defs.get(i.args[1][1])
    return d is not None and d.op == 'call' and a is not None and a.op == 'getelementptr' and a.ty == 'ptr' and (d.x or '') not in LOCAL


def bad(r):
    return [t for v, t in r if v == 'bad']


def joined(rep, L, P, eng, p, assume, fact):
    """the data of variables in mppnccombine: the first record of the first file is read for every variable, and written at once or later"""
    n = 0
    reads = [g for g in groups(P, eng, lambda i: i.x in GET) if g[1] is not None]
    for f, h, sites in reads:
        n += 1
        best = None
        for k, a in enumerate(f.params):
            for b in f.params[k:]:
                env = {a: absint.const(0), b: absint.const(0)}
                r, top = complete(eng, f, h, sites, {}, env=env)
                if r and (best is None or len(bad(r)) < len(bad(best[0]))):
                    best = (r, env)
                if r and not bad(r):
                    break
            else:
                continue
            break
        if best is None:
            rep.unknown('%s: reading in %s() not reached' % (p, f.name))
            continue
        verdict(rep, p, 'data read from the first file', best[0])
        puts = [g for g in groups(P, eng, lambda i: bool(PUT.match(i.x or ''))) if g[0] is f and g[1] is h]
        for f2, h2, s2 in puts:
            n += 1
            flagged(rep, P, p, 'data of a variable written at once', assume, fact, f2, h2, s2, (0,), [best[1]])
    P = project.load(L, project.Store(L), p)
    eng = Facts(P, assume, fact)
    for f, h, sites in groups(P, eng, lambda i: bool(PUT.match(i.x or ''))):
        if h is not None and not any(f.name == g[0].name for g in reads):
            n += 1
            flagged(rep, P, p, 'data of a variable written after the last file', assume, fact, f, h, sites, (1,),
                    [{a: absint.const(0)} for a in f.params])
    return n


def member(fn, o):
    """(structure, field) an address lies in, whatever the index within the field"""
    for _ in range(6):
        d = fn.defs.get(o[1]) if o[0] == 'v' else None
        if d is None or d.op != 'getelementptr':
            return None
        if d.ty.startswith('%') and len(d.args) > 2 and d.args[2][0] == 'c':
            return (d.ty, d.args[2][1])
        o = d.args[0]
    return None


def flagged(rep, P, p, what, assume, fact, f, h, sites, vals, envs, depth=99):
    """with one field (is the variable spread over the files?) at a value every turn comes to the write"""
    keys = {member(f, i.args[0]) for i in f.instrs() if i.op == 'load' and i.ty != 'ptr'} - {None}
    best = None
    for k in [()] + sorted(keys, key=str):
        for v in vals:
            eng = Facts(P, assume, lambda fn, i: absint.const(v) if member(fn, i.args[0]) == k else fact(fn, i))
            for env in envs:
                r, top = complete(eng, f, h, sites, {}, env=env, depth=depth)
                if r and (best is None or len(bad(r)) < len(bad(best))):
                    best = r
                if r and not bad(r):
                    verdict(rep, p, what, r)
                    return
    if best is None:
        rep.unknown('%s: %s: not reached' % (p, what))
    else:
        verdict(rep, p, what, best)


def kept(rep, L, S):
    """the tools that make a new file like an old one: attributes and variables of the old one"""
    n = 0
    seen = set()
    for p in ('fregrid', 'remap_land', 'river_regrid', 'runoff_regrid'):
        P = project.load(L, S, p)

        def assume(e, i):
            v = H.root(e, i)
            if v is not None:
                return v
            if i.x in CMP and any(P.cstr(i.fn, a) in DERIVED for a in i.args[:2]):
                return absint.NZ
            if (i.x or '').startswith('nc_') and not LOOK.match(i.x):
                return absint.const(0)
            return None

        def none(fn, i):
            return None
        eng = Facts(P, assume, none)
        rep.count('programs')
        rep.count('functions', len(faults._reach(eng)))
        for f, h, sites in groups(P, eng, lambda i: i.x in COPY):
            if h is None or f.name in seen:
                continue
            seen.add(f.name)
            n += 1
            what = 'attributes copied by the library'
            r, top = complete(eng, f, h, sites, {})
            verdict(rep, p, what, r)
            q = Reach(eng, goals={(f, top)}, budget=BUDGET)
            try:
                if q.run(f, (f.entry, 0), {}, {}) is not None:
                    rep.bad('%s|%s|reach' % (p, f.name), '%s: %s: %s() can return on the root without having come to the loop at %s' % (
                        p, what, f.name, top.ins[-1].loc()))
                else:
                    rep.ok('%s: %s: %s() comes to its loop' % (p, what, f.name))
            except Exception as e:
                rep.unknown('%s: %s: %s' % (p, f.name, e))
        if p not in ('fregrid', 'remap_land'):
            continue
        byname = groups(P, eng, lambda i: i.x == 'mpp_copy_att_by_name')
        for f, h, sites in byname:
            if h is not None:
                n += 1
                verdict(rep, p, 'attribute of a field', complete(eng, f, h, sites, {}, depth=1)[0])
        for f, h, sites in groups(P, eng, lambda i: i.x == 'mpp_def_var' and P.cstr(i.fn, i.args[1]) is None):
            if h is None:
                continue
            body = natural(f)[h]
            if p == 'fregrid' and not any(g is f and any(s.bb in body for s in ss) for g, _, ss in byname):
                continue
            if p == 'remap_land' and not any(i.x == 'mpp_copy_var_att' for b in body for i in b.ins if i.op == 'call'):
                continue
            n += 1
            flagged(rep, P, p, 'field of the input', assume, none, f, h, sites, (0,), [{}], depth=2)
        for f, h, sites in groups(P, eng, lambda i: i.x == 'mpp_put_var_value_block' and i.fn.name == 'write_field_data'):
            if h is not None:
                n += 1
                verdict(rep, p, 'data of a field', complete(eng, f, h, sites, {}, depth=1)[0])
    return n


def att_goal(glob):
    return lambda i: i.x in COPY and (i.args[COPY[i.x][0]] == GLOBAL) == glob


def closing(i):
    """the closing of a file from a table"""
    if i.x != 'nc_close':
        return False
    d = i.fn.defs.get(i.args[0][1]) if i.args[0][0] == 'v' else None
    g = i.fn.defs.get(d.args[0][1]) if d is not None and d.op == 'load' and d.args[0][0] == 'v' else None
    return g is not None and g.op == 'getelementptr' and any(a[0] == 'v' for a in g.args[1:])


def c19(rep):
    rep.rule = ('the loops around the operations that define a dimension, define a variable, copy an attribute (mppncscatter, mppnccombine, '
                'library) or write the data of a variable (mppncscatter): each counts from 0 in steps of 1 to the number of items, is left '
                'before only in failure, uses its counter, and no turn comes back to its head without having come to the operation; and '
                'no successful end of the program is reached without having come to the loops')
    rep.assumptions = ['not a dry run, an estimate of memory or an answer to help', 'tables the tool allocates have no empty entries']
    L = project.Layout()
    S = project.Store(L, inline=True)
    n = 0
    for p in ('mppncscatter', 'mppnccombine'):
        P = project.load(L, S, p)
        fr = fields(P)
        zero, direct = scatter_facts(P) if p == 'mppncscatter' else (set(), set())

        def fact(fn, i):
            k = H.field_key(fn, i.args[0])
            if k in zero:
                return absint.const(0)
            if k is None and i.ty in direct and i.args[0][0] == 'v':
                d = fn.defs.get(i.args[0][1])
                if d is None or d.op == 'load':
                    return absint.const(0)
            if k in fr:
                return fr[k]
            if i.ty == 'ptr' and p == 'mppncscatter' and i.args[0][0] == 'v' and k is None:
                d = fn.defs.get(i.args[0][1])
                if d is not None and d.op == 'getelementptr' and d.ty == 'ptr':
                    return absint.NZ        # an entry of a table
            return None

        def assume(e, i):
            if i.x in CMP:
                for a in i.args[:2]:
                    t = P.cstr(i.fn, a)
                    if t is not None and 'strn' in i.x and not (i.args[2][0] == 'c' and i.args[2][1] >= len(t)):
                        continue
                    if t in OWN or p == 'mppnccombine' and t in ('-a', '-x', '-V', '-h', '--help', '--version'):
                        return absint.NZ
            if (i.x or '').startswith('nc') and not LOOK.match(i.x):
                return absint.const(0) if i.x.startswith('nc_') else absint.rng(0, 1 << 20)
            return None
        eng = Facts(P, assume, fact)
        rep.count('programs')
        rep.count('functions', len(faults._reach(eng)))
        tasks = [(k, lambda i, ns=ns: i.x in ns, {}, lambda i: False) for k, ns in KINDS]
        tasks.append(('attribute of a variable', att_goal(False), {}, lambda i: False))
        tasks.append(('attribute of the file', att_goal(True), {}, lambda i: False))
        if p == 'mppncscatter':
            tasks.insert(0, (TABLE, entry, {}, lambda i: False))
            tasks.append(('closing of the output files', closing, {}, lambda i: False))

            def inqvar(nd, d0):
                def m(q, fn, i, env, mem):
                    cells(q, fn, i, env, mem, {3: {0: absint.rng(1, 6)}, 4: {0: absint.rng(*nd)}, 5: {0: d0} if d0 is not None else {}})
                    return absint.const(0)
                return m

            def unlim(rec):
                def m(q, fn, i, env, mem):
                    cells(q, fn, i, env, mem, {1: {0: absint.const(rec)}})
                    return absint.const(0)
                return m
            for name, rec, nd, d0 in (('static variable of a file without records', -1, (0, 4), absint.rng(0, 100)),
                                      ('static variable', 0, (1, 4), absint.rng(1, 100)), ('static variable without dimensions', 0, (0, 0), None),
                                      ('record variable', 0, (1, 4), absint.const(0))):
                tasks.append(('data of a %s' % name, lambda i: bool(PUT.match(i.x or '')),
                              {'nc_inq_var': inqvar(nd, d0), 'nc_inq_unlimdim': unlim(rec)}, lambda i: False))
        for what, goal, models, also in tasks:
            gs = groups(P, eng, goal)
            n += len(gs)
            rep.count('operations', sum(len(s) for f, h, s in gs))
            res, heads = [], set()
            for f, h, sites in gs:
                if h is None:
                    continue
                r, top = complete(eng, f, h, sites, models, also)
                if r:
                    rep.count('loops', len(natural(f)))
                    res.append((f, r, top))
                    heads.add((f, top))
            if not res and what == TABLE:
                rep.unknown('%s: %s not found' % (p, what))
                continue
            if not res:
                rep.bad('%s|%s|none' % (p, what), '%s: %s: no loop carries them over' % (p, what))
                continue
            if what.startswith('data'):
                # one way of writing them has to be complete in this case
                good = [x for x in res if not any(v == 'bad' for v, t in x[1])]
                res = good or res
                heads = {(f, t) for f, r, t in res}
            for f, r, top in res:
                verdict(rep, p, what, r)
            if p == 'mppnccombine':
                gs = {P.resolve(i, i.x) for i in P.main().calls()} - {None}
                for g in sorted((g for g in gs if any(f in eng.closure(g) for f, t in heads)), key=lambda g: g.name):
                    first(rep, eng, p, what, g, heads, models)
                continue
            q = Reach(eng, goals=heads, models=models, budget=BUDGET)
            try:
                q.from_entry()
            except Exception as e:
                rep.unknown('%s: %s: %s' % (p, what, e))
                continue
            z = [t for t in q.terms if absint.may_be_zero(t[1])]
            if z:
                rep.bad('%s|%s|reach' % (p, what), '%s: %s: a successful end at %s does not need the loop at %s' % (
                    p, what, z[0][0].loc(), ', '.join(sorted(t.ins[-1].loc() for f, t in heads))))
            else:
                rep.ok('%s: %s: every successful end has come to the loop' % (p, what))
        if p == 'mppnccombine':
            from . import outputs
            plain = absint.Engine(P)
            for i in faults.live_calls(plain):
                if i.x in outputs.CREATE:
                    v, t = outputs.direct_closed(plain, i)
                    where = '%s: the file created at %s is closed before a successful end' % (p, i.loc())
                    if v == 'ok':
                        rep.ok(where)
                    elif v == 'end':
                        rep.bad('%s|closing|%s' % (p, i.fn.name), '%s: the file created at %s is not closed on some path: %s' % (p, i.loc(), t))
                    else:
                        rep.unknown('%s: %s' % (where, t))
            n += joined(rep, L, P, eng, p, assume, fact)
    n += kept(rep, L, S)
    from . import fcarry
    n += fcarry.land(rep, L)
    rep.floor('operations carried over', n, 8)
