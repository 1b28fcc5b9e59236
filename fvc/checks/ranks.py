"""C09: in the parallel tools only the root rank changes files.  C10: collective operations are uniform across ranks."""
from .. import absint, faults, par, project, uniform

# operations that create, define or write a file
NCW = ('nc_create', 'nc__create', 'nc_def_', 'nc_put_', 'nc_redef', 'nc__redef', 'nc_enddef', 'nc__enddef', 'nc_rename_', 'nc_del_', 'nc_copy_',
       'nc_set_fill', 'nc_insert')
FSW = {'remove', 'unlink', 'rename', 'truncate', 'ftruncate', 'mkdir', 'rmdir', 'creat', 'symlink', 'link', 'system', 'popen'}


def writes(P, fn, i):
    if i.x is None:
        return False
    if i.x.startswith(NCW) or i.x in FSW:
        return True
    if i.x in ('fopen', 'fopen64', 'freopen') and len(i.args) > 1:
        m = P.cstr(fn, i.args[1])
        return m is None or m[:1] in 'wa' or '+' in m
    if i.x in ('nc_open', 'nc__open') and len(i.args) > 1:
        return not (i.args[1][0] == 'c' and not i.args[1][1] & 1)
    return False


class Ends(absint.Query):
    """remembers which calls came back"""
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.back = {}

    def call(self, fn, i, env, mem):
        m = super().call(fn, i, env, mem)
        self.back[i] = self.back.get(i, False) or m is not None
        return m


def c09(rep):
    rep.rule = ('for every program built with MPI: assume the process is not the root rank and follow every path from the start of '
                'main; no operation that creates, defines, writes, renames or removes a file may be reached, and no call that comes '
                'back on the root rank always ends in a fatal error on the others (a file operation they do not skip)')
    rep.assumptions = ['the root rank is 0 (mpp_root_pe)']
    L = project.Layout()
    S = project.Store(L)
    progs = [p for p in L.c_programs() if L.is_mpi(p)]
    S.need([u for p in progs for u in L.units(p)])

    def one(p):
        P = project.load(L, S, p)
        eng = absint.Engine(P)
        sites = [i for i in faults.live_calls(eng) if writes(P, i.fn, i)]
        serial = [f for f in P.functions() if f.name == 'mpp_pe' and absint.isconst(eng.ret_range(f))]
        md = {'mpp_pe': lambda q, fn, i, env, mem: (1, None, True)}
        q = Ends(eng, models=md, budget=6000000, sinkfn=lambda q, fn, i, env: writes_now(q, P, fn, i, env))
        r = Ends(eng, models={'mpp_pe': lambda q, fn, i, env, mem: absint.const(0)}, budget=6000000)
        try:
            q.from_entry()
            r.from_entry()
        except Exception as e:
            return p, len(sites), len(faults._reach(eng)), None, str(e), q.steps
        h = {}
        for i, ch in q.hits:
            h.setdefault(i, ch)
        return p, len(sites), len(faults._reach(eng)), [
            (i.x, i.loc(), i.fn.name, ['%s()' % c.fn.name for c in ch]) for i, ch in h.items()] + [
            ('mpp_pe', f.mod.src, f.name, []) for f in serial] + [
            (i.x, i.loc(), i.fn.name, None) for i, b in q.back.items() if not b and r.back.get(i)], '', q.steps
    n = 0
    rep.floor('parallel programs', len(progs), 3)
    for p, ns, nf, hits, err, steps in par.pmap(one, progs):
        rep.count('programs')
        rep.count('functions', nf)
        rep.count('file-changing call sites', ns)
        rep.count('instructions interpreted', steps)
        n += ns
        if hits is None:
            rep.unknown('%s: %s' % (p, err))
            continue
        for x, loc, f, ch in hits:
            if x == 'mpp_pe':
                rep.bad('%s|rank' % p, '%s: every process takes itself for the root rank: mpp_pe() in %s returns a constant in the '
                        'library this program is linked with, so all of them write' % (p, loc))
                continue
            if ch is None:
                rep.bad('%s|%s|%s|ends' % (p, f, x), '%s: %s at %s in %s() always ends in a fatal error on a rank that is not the root' % (
                    p, x, loc, f))
                continue
            rep.bad('%s|%s|%s' % (p, f, x), '%s: %s at %s in %s() can run on a rank that is not the root (called by %s)' % (
                p, x, loc, f, ' > '.join(ch) or 'main'))
        for k in range(ns - len(hits) + 1):
            rep.ok('%s: %d file-changing calls, none reached off the root rank' % (p, ns) if k == 0 else None)
    rep.floor('file-changing call sites', n, 40)


def writes_now(q, P, fn, i, env):
    if i.x in ('nc_open', 'nc__open') and len(i.args) > 1:
        v = q.value(fn, i.args[1], env)
        return not (v[0] != 'P' and absint.isconst(v) and not v[0] & 1)
    return writes(P, fn, i)


def c10(rep):
    rep.rule = ('for every program built with MPI: no collective operation (reduction, barrier, gather or global-field exchange, '
                'finalisation) is control-dependent on a value that differs between ranks: the rank, the local extents of a '
                'domain decomposition, or anything computed or read from them and not reduced since; where two processes exchange messages, '
                'both decide by the length of the message, in the same way, whether there is one')
    rep.assumptions = ['pointers are followed by the object they derive from; structure fields by type and field',
                       'all ranks see the same command line and files', 'a fatal error ends all ranks (MPI_Abort)']
    L = project.Layout()
    S = project.Store(L)
    progs = [p for p in L.c_programs() if L.is_mpi(p)]
    S.need([u for p in progs for u in L.units(p)])
    rep.floor('parallel programs', len(progs), 3)

    def one(p):
        P = project.load(L, S, p)
        eng = absint.Engine(P)
        F = uniform.Flow(eng)
        calls = [i for f in F.funcs for i in f.calls() if i.x and (
            P.resolve(i, i.x) in F.coll or P.resolve(i, i.x) is None and uniform.COLLECTIVE.match(i.x))]
        bad = {}
        for f, c, i in F.violations():
            bad.setdefault(i, (f, c))
        msgs = [(f.name, a.loc(), b.loc(), t) for f, a, b, t in messages(P) if f in F.funcs]
        return (p, len(F.funcs), len(calls), sum(len(x) for x in F.div.values()), msgs,
                [(i.x, i.loc(), f.name, c.loc()) for i, (f, c) in bad.items()], [(i.x, i.loc()) for i in calls if i not in bad])
    n = nd = 0
    for p, nf, nc, d, msgs, bad, good in par.pmap(one, progs):
        rep.count('programs')
        rep.count('functions', nf)
        rep.count('collective call sites', nc)
        rep.count('rank-dependent branches', d)
        n += nc
        nd += d
        for x, loc, f, c in bad:
            rep.bad('%s|%s|%s' % (p, f, x), '%s: the collective %s at %s in %s() depends on the branch at %s, which can go '
                    'different ways on different ranks: the others wait forever' % (p, x, loc, f, c))
        for f, a, b, t in msgs:
            rep.count('pairs of messages')
            if t is None:
                rep.ok('%s: %s(): the message sent at %s and received at %s' % (p, f, a, b))
            else:
                rep.bad('%s|%s|message' % (p, f), '%s: %s(): the message sent at %s and received at %s: %s' % (p, f, a, b, t))
        for x, loc in good:
            rep.ok('%s: %s at %s is reached by all ranks alike' % (p, x, loc))
    rep.floor('collective call sites', n, 60)
    rep.floor('rank-dependent branches', nd, 200)


# messages between two processes: both sides must agree whether there is one ----------------------------------------
SEND = {'mpp_send_int': 'int', 'mpp_send_double': 'double'}
RECV = {'mpp_recv_int': 'int', 'mpp_recv_double': 'double'}


def guards(fn, i, ip, live):
    """comparisons with constants that decide whether i runs: [(value, 'positive' or (predicate, constant))]"""
    out = []
    for b in fn.blocks.values():
        t = b.ins[-1]
        if t.op != 'br' or len(b.succ) < 2 or b not in live or t.args[0][0] != 'v':
            continue
        ways = []
        for k, s in enumerate(b.succ):
            # does every way from s to a return (within the same turn of a loop) pass i?
            ways.append((reach(s, i.bb, ip.get(b)), s in live))
        if ways[0][0] == ways[1][0] or not all(w[1] for w in ways):
            continue
        c = fn.defs.get(t.args[0][1])
        if c is None or c.op != 'icmp':
            continue
        x, y = c.args
        p = c.x
        if x[0] == 'c':
            x, y = y, x
            p = {'sgt': 'slt', 'slt': 'sgt', 'sge': 'sle', 'sle': 'sge', 'ugt': 'ult', 'ult': 'ugt', 'uge': 'ule', 'ule': 'uge'}.get(p, p)
        if y[0] != 'c' or x[0] != 'v':
            continue
        d = fn.defs.get(x[1])
        if d is not None and (d.op == 'call' or d.op == 'load' and d.args[0][0] == 'g'):
            continue        # the rank or the number of processes
        if not ways[0][0]:
            p = {'sgt': 'sle', 'sle': 'sgt', 'slt': 'sge', 'sge': 'slt', 'ugt': 'ule', 'ule': 'ugt', 'ult': 'uge', 'uge': 'ult',
                 'eq': 'ne', 'ne': 'eq'}[p]
        k = y[1]
        if p in ('sgt', 'ugt', 'ne') and k == 0 or p in ('sge', 'uge') and k == 1:
            out.append((x, 'positive'))
        else:
            out.append((x, (p.lstrip('us') if p[0] in 'us' else p, k)))
    return out


def reach(a, b, end):
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        if x is b:
            return True
        if x in seen or x is end:
            continue
        seen.add(x)
        todo += x.succ
    return False


def same(fn, a, b, depth=0):
    """two operands that stand for the same number"""
    if a == b:
        return True
    x = fn.defs.get(a[1]) if a[0] == 'v' else None
    y = fn.defs.get(b[1]) if b[0] == 'v' else None
    if x is None or y is None or depth > 5 or x.op != y.op or len(x.args) != len(y.args) or x.op not in (
            'load', 'getelementptr', 'sext', 'zext', 'add', 'mul', 'sub'):
        return False
    return all(same(fn, p, q, depth + 1) for p, q in zip(x.args, y.args))


def within(fn, x, y, depth=0):
    """x is y or a part of the expression y"""
    if same(fn, x, y):
        return True
    d = fn.defs.get(y[1]) if y[0] == 'v' else None
    return d is not None and depth < 6 and d.op in ('sext', 'zext', 'trunc', 'add', 'mul', 'sub') and any(
        within(fn, x, a, depth + 1) for a in d.args)


def messages(P):
    """(function, send, receive, problem or None) for each pair of matching operations"""
    from . import types
    for f in P.functions():
        calls = [i for i in f.calls() if i.x in SEND or i.x in RECV]
        if not any(i.x in SEND for i in calls) or not any(i.x in RECV for i in calls):
            continue
        helper = any(h is not None and any(c.x in SEND or c.x in RECV for c in h.calls())
                     for i in f.calls() if i.x not in SEND and i.x not in RECV for h in [P.resolve(i, i.x)])
        if helper:
            continue        # part of the exchange is elsewhere
        ip, live = types.ipdoms(f)
        sends = [i for i in calls if i.x in SEND]
        recvs = [i for i in calls if i.x in RECV]
        # alternatives (one of several sends runs) count as one
        alt = []
        for s in sends:
            if alt and SEND[alt[-1][0].x] == SEND[s.x] and not reach2(alt[-1][0].bb, s.bb, f) and not reach2(s.bb, alt[-1][0].bb, f):
                alt[-1].append(s)
            else:
                alt.append([s])
        if [SEND[a[0].x] for a in alt] != [RECV[r.x] for r in recvs]:
            yield f, sends[0], recvs[0], 'the types or the number of messages sent (%s) and received (%s) differ' % (
                ', '.join(SEND[a[0].x] for a in alt), ', '.join(RECV[r.x] for r in recvs))
            continue
        for a, r in zip(alt, recvs):
            gr = guards(f, r, ip, live)
            for s in a:
                gs = guards(f, s, ip, live)
                bad = None
                if len(a) == 1:
                    if {str(g[1]) for g in gs} != {str(g[1]) for g in gr}:
                        bad = 'it is sent %s and received %s' % (when(gs), when(gr))
                    else:
                        for i, gg in ((s, gs), (r, gr)):
                            for x, g in gg:
                                if not within(f, x, i.args[1]):
                                    bad = bad or 'whether the message at %s exists depends on something other than its length' % i.loc()
                yield f, s, r, bad


def reach2(a, b, f):
    seen, todo = set(), list(a.succ)
    while todo:
        x = todo.pop()
        if x is b:
            return True
        if x not in seen:
            seen.add(x)
            todo += x.succ
    return False


def when(g):
    return 'always' if not g else 'only when ' + ' and '.join(
        'its length is positive' if x[1] == 'positive' else 'a value is %s %d' % x[1] for x in g)
