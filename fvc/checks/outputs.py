"""C07: output files are complete.  C08: output files carry their provenance."""
from .. import absint, faults, handles as H, par, project
from . import carry

OWN = {'ncexists', 'is-compressed'}
PUT = {'mpp_put_var_value': (0, 1, 2), 'mpp_put_var_value_block': (0, 1, 4), 'mpp_copy_data': (2, 3, None)}
DEFINE = {'mpp_def_dim': 0, 'mpp_def_var': 0, 'mpp_def_global_att': 0, 'mpp_def_global_att_double': 0, 'mpp_def_var_att': 0,
          'mpp_def_var_att_double': 0, 'mpp_set_deflation': 1, 'mpp_copy_var_att': 2, 'mpp_copy_att_by_name': 2,
          'mpp_copy_global_att': 1}
BUDGET = 2000000


def programs(L):
    return [p for p in L.c_programs() if p not in OWN]


def warm(eng):
    for f in eng.prog.functions():
        if f in faults._reach(eng):
            eng.base(f)
        f.livein()
        f.rponum()
        f.loops()
    eng.transitive()
    eng.globals_of(eng.prog.main())
    eng.prog.callers(eng.prog.main())


def run(eng, models, start, sinkfn=None, once=False, first=True, stop=None, h=None):
    """(verdict, text): 'ok', 'end' success end reached, 'hit' sink reached, 'unknown'"""
    q = absint.Query(eng, models=models, sinkfn=sinkfn, once=once, first=first, stop=stop, budget=BUDGET,
                     loads=h.load if h is not None and h.keys else None)
    try:
        start(q)
    except absint.Found:
        pass
    except Exception as e:
        return 'unknown', str(e)
    if q.hits:
        i = q.hits[0][0]
        return 'hit', '%s at %s in %s()' % (i.x, i.loc(), i.fn.name)
    z = [t for t in q.terms if absint.may_be_zero(t[1])]
    if z:
        return 'end', faults.describe(q, z[0])
    return 'ok', ''


def closed(eng, io, s):
    """R1: from the creation of a file every way to a successful end closes it"""
    h = H.Handle(s)
    h.keys = H.spread(eng, h.keys)
    md = H.opaque(io)
    md['mpp_close'] = lambda q, fn, i, env, mem: 'noreturn' if h.is_it(q, fn, i.args[0], env) else absint.TOP
    r = run(eng, md, lambda q: q.from_call(s, H.TOK))
    if r[0] == 'end':
        r = run(eng, md, lambda q: q.from_call(s, H.TOK), once=True)
    return r


def handle_of(fn, o):
    """a handle for the file an operand denotes, and the environment that marks it"""
    h = H.Handle(None)
    env = {}
    if o[0] == 'v':
        env[o[1]] = H.TOK
        d = fn.defs.get(o[1])
        if d is not None and d.op == 'load':
            k = H.field_key(fn, d.args[0])
            if k is not None:
                h.keys = {k}
    return h, env


def written(eng, io, d, weak=False):
    """R2: between the definition of a variable and the closing of its file it is given data"""
    P = eng.prog
    h, env = handle_of(d.fn, d.args[0])
    v = H.Handle(d)
    name = P.cstr(d.fn, d.args[1])
    hit = []

    def put(q, fn, i, env, mem):
        k = PUT[i.x][1]
        if v.is_it(q, fn, i.args[k], env, H.VAR):
            hit.append(i)
            return absint.TOP if weak else 'noreturn'
        return absint.TOP

    def byname(q, fn, i, env, mem):
        if not h.is_it(q, fn, i.args[0], env):
            return absint.TOP
        t = P.cstr(fn, i.args[1])
        return H.VAR if t is None or name is None or t == name else absint.TOP
    md = H.opaque(io)
    for p in PUT:
        md[p] = put
    md['mpp_get_varid'] = byname
    md['mpp_close'] = lambda q, fn, i, env, mem: 'noreturn' if h.is_it(q, fn, i.args[0], env) else absint.TOP
    if d.dst is not None:
        env[d.dst] = H.VAR
    r = run(eng, md, lambda q: q.from_point(d.fn, d.bb, d.idx + 1, env, {}), once=True, first=False,
            sinkfn=lambda q, fn, i, env: i.x == 'mpp_close' and h.is_it(q, fn, i.args[0], env))
    if weak:
        return ('ok', '') if hit else ('hit', 'no operation writes it')
    return r


def ordered(eng, io, s, what):
    """R3 data written while the file is still being defined; R4 definitions after that; R5 use after closing"""
    h = H.Handle(s)
    md = H.opaque(io)
    is_end = lambda q, fn, i, env, mem: 'noreturn' if h.is_it(q, fn, i.args[0], env) else absint.TOP
    md['mpp_close'] = is_end
    if what == 'early':
        md['mpp_end_def'] = is_end

        def sink(q, fn, i, env):
            return i.x in PUT and h.is_it(q, fn, i.args[PUT[i.x][0]], env)
        return run(eng, md, lambda q: q.from_call(s, H.TOK), sinkfn=sink, first=False)


def after(eng, io, i0, what):
    """from one call on a handle (end_def or close), no operation of the wrong kind follows on the same handle"""
    h, env = handle_of(i0.fn, i0.args[0])
    h.keys = set()
    md = H.opaque(io)
    md['mpp_open'] = lambda q, fn, i, env, mem: absint.TOP
    gone = lambda q, fn, i, env, mem: 'noreturn' if h.is_it(q, fn, i.args[0], env) else absint.TOP
    if what == 'define':
        md['mpp_close'] = md['mpp_redef'] = gone
        sink = lambda q, fn, i, env: i.x in DEFINE and h.is_it(q, fn, i.args[DEFINE[i.x]], env)
    else:
        sink = lambda q, fn, i, env: i.x in io.funcs and i.x != 'mpp_open' and any(
            h.is_it(q, fn, a, env) for a in i.args[:4])
    return run(eng, md, lambda q: q.from_point(i0.fn, i0.bb, i0.idx + 1, env, {}), sinkfn=sink, first=False)


BUF = ('T', 'buffer')
ALLOC = {'malloc'}


def filled(eng, io, s):
    """R6: something stores into a buffer obtained from malloc before it is handed to an operation that writes a file"""
    touched = []

    def stop(q, fn, i, env):
        r = stop1(q, fn, i, env)
        if r and i.x != 'free':
            touched.append(i)
        return r

    def stop1(q, fn, i, env):
        if i.op == 'store':
            a = q.value(fn, i.args[1], env)
            if a[0] == 'P' and a[1] == BUF:
                return True
            v = q.value(fn, i.args[0], env)
            return v[0] == 'P' and v[1] == BUF and not (a[0] == 'P' and a[2] is not None)
        if i.x == 'free':
            return q.value(fn, i.args[0], env)[1] == BUF
        if i.x in PUT or absint.readonly(i.x):
            return False
        g = eng.prog.resolve(i, i.x)
        for k, o in enumerate(i.args):
            v = q.value(fn, o, env)
            if v[0] == 'P' and v[1] == BUF:
                if g is None or eng.writes_param(g, k):
                    return True
        return False

    def sink(q, fn, i, env):
        k = PUT.get(i.x, (0, 0, None))[2]
        if k is None:
            return False
        v = q.value(fn, i.args[k], env)
        return v[0] == 'P' and v[1] == BUF

    def start(q):
        env = {}
        mem = {}
        q.dom_assume(s.fn, s.bb, env, mem)
        env[s.dst] = ('P', BUF, 0)
        q.run(s.fn, (s.bb, s.idx + 1), env, mem)
    md = H.opaque(io)
    r = run(eng, md, start, sinkfn=sink, once=True, stop=stop, first=False)
    return ('ok', '') if r[0] == 'end' or touched else r


def direct_closed(eng, s):
    """R1 for programs that call the netCDF library themselves: nc_create(path, mode, &id)"""
    fn = s.fn
    out = s.args[-1]
    h = H.Handle(None)
    env = {}
    mem = {}
    v = eng.bval(fn, out)
    d = fn.defs.get(out[1]) if out[0] == 'v' else None
    if v[0] == 'P' and v[2] is not None and v[1][0] in 'AG':
        mem[(v[1], v[2])] = H.TOK
    else:
        base, off = out, 0
        if d is not None and d.op == 'getelementptr' and d.args[0][0] == 'v' and all(a[0] == 'c' for a in d.args[1:]):
            base, off = d.args[0], fn.mod.gep_offset(d.ty, list(d.args[1:]))[0]
        # a structure of its own: mark the pointer to it
        env[base[1]] = ('P', ('T', 'file'), 0)
        h.cell = ('P', ('T', 'file'), off)
        k = H.field_key(fn, out)
        if k is not None:
            h.keys = H.spread(eng, {k})
    close = lambda q, fn, i, env, mem: 'noreturn' if h.is_it(q, fn, i.args[0], env) else None
    md = {'nc_close': close, 'ncclose': close}
    if s.dst is not None:
        env[s.dst] = absint.const(0)
    start = lambda q: q.from_point(fn, s.bb, s.idx + 1, dict(env), dict(mem))
    r = run(eng, md, start)
    if r[0] == 'end':
        r = run(eng, md, start, once=True)
    return r


def by_index(fn, i):
    """a branch inside the loop around i that passes i by for some values of the loop's counter, looking at nothing else"""
    loops = [(len(b), h, b) for h, b in fn.loops().items() if i.bb in b]
    if not loops:
        return None
    _, head, body = min(loops, key=lambda x: x[0])
    inside = {x.dst: x for b in body for x in b.ins if x.dst is not None}

    def past(b):
        """can the next turn begin from b without i?"""
        seen, todo = set(), [b]
        while todo:
            x = todo.pop()
            if x is head:
                return True
            if x in seen or x is i.bb or x not in body:
                continue
            seen.add(x)
            todo += x.succ
        return False

    def to(b):
        seen, todo = set(), [b]
        while todo:
            x = todo.pop()
            if x is i.bb:
                return True
            if x in seen or x is head or x not in body:
                continue
            seen.add(x)
            todo += x.succ
        return False

    def leaves(o, seen):
        """what a condition is computed from: 'counter', 'other' or nothing (invariant)"""
        if o[0] != 'v' or o[1] not in inside or o[1] in seen:
            return set()
        seen.add(o[1])
        d = inside[o[1]]
        if d.op == 'phi':
            if d.bb is not head:
                return {'other'}
            nxt = [v for v, lab in d.x if lab in {b.label for b in body}]
            step = inside.get(nxt[0][1]) if len(nxt) == 1 and nxt[0][0] == 'v' else None
            ok = step is not None and step.op in ('add', 'sub') and any(a == ('v', d.dst) for a in step.args)
            return {'counter'} if ok else {'other'}
        if d.op == 'load':
            # a scalar that the loop does not change is invariant
            a = d.args[0]
            if a[0] == 'g' or a[0] == 'v' and a[1] not in inside and fn.defs.get(a[1]) is not None and fn.defs[a[1]].op == 'alloca':
                return set()
            return {'other'}
        if d.op in ('icmp', 'fcmp', 'select') or d.op in ARITH:
            r = set()
            for a in d.args:
                r |= leaves(a, seen)
            return r
        return {'other'}
    for b in body:
        t = b.ins[-1]
        if b is head or t.op != 'br' or len(b.succ) < 2 or b.ins[-1] is i:
            continue
        ways = [(past(x), to(x)) for x in b.succ]
        if not (any(p and not t2 for p, t2 in ways) and any(t2 for p, t2 in ways)):
            continue
        l = leaves(t.args[0], set())
        if 'counter' in l and 'other' not in l:
            return t
    return None


ARITH = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'ashr', 'lshr', 'sext', 'zext', 'trunc', 'freeze'}


def each(eng, live, i):
    """R7: a loop that closes the files of a table does not pass some of them by because of their position alone"""
    t = by_index(i.fn, i)
    if t is None:
        return 'ok', ''
    k = handle_of(i.fn, i.args[0])[0].keys
    for s in live:
        if s.x == 'mpp_open' and H.Handle(s).keys & k and by_index(s.fn, s) is not None:
            return 'ok', ''
    return 'hit', 'the condition at %s' % t.loc()


def span(fn, i, addr):
    """the loop whose counter picks the table entry at addr that i uses, and what the loop leaves out of the table"""
    best = None
    for head, body in carry.natural(fn).items():
        if i.bb not in body or best is not None and len(best[2]) <= len(body):
            continue
        c = carry.Count(fn, head, body)
        if c.phi is not None and uses(fn, addr, c.phi.dst):
            best = (c.problem(fn), head, body)
    return best


def uses(fn, o, iv):
    seen, todo = set(), [o]
    while todo:
        o = todo.pop()
        if o in seen or o[0] != 'v':
            continue
        if o[1] == iv:
            return True
        seen.add(o)
        d = fn.defs.get(o[1])
        if d is not None and d.op in ARITH | {'getelementptr', 'bitcast'}:
            todo += d.args
    return False


def entry(fn, o):
    """address of the table entry a handle is read from"""
    d = fn.defs.get(o[1]) if o[0] == 'v' else None
    return d.args[0] if d is not None and d.op == 'load' else None


def ranged(eng, sites, live, i):
    """R8: a loop that closes the files of a table runs over all those that were created in it"""
    fn = i.fn
    a = entry(fn, i.args[0])
    if a is None:
        return 'ok', ''
    s = span(fn, i, a)
    if s is None or not s[0]:
        return 'ok', ''
    k = H.field_key(fn, a)
    if k is None:
        return 'ok', ''
    for j in live:
        b = entry(j.fn, j.args[0]) if j.x in ('mpp_close', 'nc_close') and j.args else None
        if b is not None and not (j.fn is fn and j.bb in s[2]) and H.field_key(j.fn, b) == k:
            return 'ok', ''
    made = False
    for c in sites:
        if c.x in CREATE:
            at = [x for x in c.args if H.field_key(c.fn, x) == k]
        else:
            at = [j.args[1] for j in c.fn.instrs() if j.op == 'store' and j.args[0] == ('v', c.dst) and H.field_key(c.fn, j.args[1]) == k]
        for x in at:
            made = True
            t = span(c.fn, c, x)
            if t is None or t[0]:
                return 'ok', ''
    return ('hit', 'of the files that were created, the loop around it leaves some out: %s' % s[0]) if made else ('ok', '')


CREATE = {'nc_create', 'nc__create', 'nccreate'}


def c07(rep):
    rep.rule = ('for every file a C tool creates: (1) every path from its creation to a successful end closes it; (2) every '
                'variable defined in it is given data before it is closed; (3) no data before the end of the definitions, no '
                'definition after it, no operation after closing; (4) a buffer from malloc has been stored into before it is written to a file; (5) a loop that closes a table of files '
                'passes none of them by because of its position')
    rep.assumptions = ['a loop over tiles, files or cells runs at least once (rules 1 and 2)', 'parallel tools are judged on the root rank',
                       'variable ids kept in a table indexed at run time: at least one operation must write that table entry']
    L = project.Layout()
    S = project.Store(L)
    progs = programs(L)
    S.need([u for p in progs for u in L.units(p)])
    nfile = nvar = nbuf = 0
    for p in progs:
        P = project.load(L, S, p)
        eng = absint.Engine(P, assume=H.root)
        io = H.io_module(P)
        jobs = []
        sites = H.opens(eng)
        for s in sites:
            jobs.append((s, 'closed', lambda s=s: closed(eng, io, s)))
            jobs.append((s, 'early', lambda s=s: ordered(eng, io, s, 'early')))
        uses_lib = bool(sites)
        if not any(True for i in faults.live_calls(eng) if i.x == 'mpp_open'):
            for i in faults.live_calls(eng):
                if i.x in CREATE:
                    sites.append(i)
                    jobs.append((i, 'closed', lambda i=i: direct_closed(eng, i)))
        live = [i for i in faults.live_calls(eng) if i.fn.mod is not io]
        for i in live:
            if i.x == 'mpp_def_var':
                jobs.append((i, 'written', lambda i=i: written(eng, io, i)))
                nvar += 1
            elif i.x == 'mpp_end_def':
                jobs.append((i, 'define', lambda i=i: after(eng, io, i, 'define')))
            elif i.x == 'mpp_close':
                jobs.append((i, 'closed file', lambda i=i: after(eng, io, i, 'use')))
                jobs.append((i, 'each', lambda i=i: each(eng, live, i)))
                jobs.append((i, 'all', lambda i=i: ranged(eng, sites, live, i)))
            elif i.x == 'nc_close':
                jobs.append((i, 'all', lambda i=i: ranged(eng, sites, live, i)))
            elif i.x in ALLOC and i.dst is not None and any(c.x in PUT for c in i.fn.calls()):
                jobs.append((i, 'filled', lambda i=i: filled(eng, io, i)))
                nbuf += 1
        nfile += len(sites)
        warm(eng)
        rep.count('programs')
        rep.count('functions', len(faults._reach(eng)))
        for (s, what, f), (v, text) in zip(jobs, par.pmap(lambda j: j[2](), jobs)):
            where = '%s: %s at %s in %s()' % (p, s.x, s.loc(), s.fn.name)
            if v == 'unknown':
                rep.unknown('%s (%s): %s' % (where, what, text))
                continue
            name = P.cstr(s.fn, s.args[1]) if s.x == 'mpp_def_var' else None
            if what == 'written' and v != 'ok' and (H.Handle(s).keys or name is None):
                v, text = written(eng, io, s, weak=True)
            if v == 'ok' or v == 'end' and what in ('early', 'define', 'closed file'):
                rep.ok('%s (%s)' % (where, what))
                continue
            if what == 'closed':
                msg = 'the file created is not closed on some path: %s' % text
            elif what == 'written':
                msg = 'variable "%s" can be left without data: %s' % (name or '(name known at run time)', text)
            elif what in ('each', 'all'):
                msg = 'some files of the table are left open: %s' % text
            elif what == 'early':
                msg = 'data are written before the definitions are ended: %s' % text
            elif what == 'filled':
                msg = 'a buffer that nothing was stored into is written to a file: %s' % text
            elif what == 'define':
                msg = 'something is defined after the definitions were ended: %s' % text
            else:
                msg = 'the file is used after it was closed: %s' % text
            k = s.fn.name if what != 'written' else name
            rep.bad('%s|%s|%s' % (p, what, k), '%s: %s' % (where, msg))
    rep.count('output files', nfile)
    rep.count('output variables', nvar)
    rep.count('buffers', nbuf)
    rep.floor('output files', nfile, 45)
    rep.floor('output variables', nvar, 200)



# C08 -----------------------------------------------------------------------------------------------------------
ATTS = ('code_release_version', 'git_hash', 'creationtime', 'hostname', 'history')
# files that are not products: weights cached between runs, generated test input, conversions of old grid files
NOT_PRODUCTS = {'setup_bilinear_interp', 'setup_conserve_interp', 'get_test_input_data'}
NOT_TOOLS = {'transfer_to_mosaic_grid'}
APPEND = {'strcat', 'strncat', 'strcpy', 'strncpy', 'sprintf', 'snprintf', 'stpcpy', '__strcat_chk', '__strcpy_chk', '__sprintf_chk',
          '__snprintf_chk', '__strncat_chk', '__strncpy_chk', 'strlcat', 'strlcpy'}


def only_from(eng, fn, names, seen=None):
    """fn runs only on behalf of one of the named functions"""
    if fn.name in names:
        return True
    seen = seen or {fn}
    cs = eng.prog.callers(fn)
    return bool(cs) and all(c.fn in seen or only_from(eng, c.fn, names, seen | {c.fn}) for c in cs)


def text(q, fn, o, env):
    t = q.e.prog.cstr(fn, o)
    return t if t is not None else q.e.prog.keystr(q.value(fn, o, env))


def provenance(eng, io, s, att):
    h = H.Handle(s)
    md = H.opaque(io)

    def defatt(q, fn, i, env, mem):
        if not h.is_it(q, fn, i.args[0], env):
            return absint.TOP
        t = text(q, fn, i.args[1], env)
        return 'noreturn' if t is None or t == att else absint.TOP
    md['mpp_def_global_att'] = defatt
    return run(eng, md, lambda q: q.from_call(s, H.TOK), h=h, sinkfn=lambda q, fn, i, env: i.x in ('mpp_end_def', 'mpp_close') and
               h.is_it(q, fn, i.args[0], env))


def from_argv(fn, o, depth=0):
    """is this operand an element of main's argument vector?"""
    if o[0] != 'v' or depth > 6:
        return False
    d = fn.defs.get(o[1])
    if d is None:
        return len(fn.params) > 1 and o[1] == fn.params[1]
    if d.op in ('load', 'getelementptr', 'bitcast', 'freeze'):
        return from_argv(fn, d.args[0], depth + 1)
    if d.op == 'phi':
        return any(from_argv(fn, a, depth + 1) for a in d.args)
    if d.op == 'alloca' and len(fn.params) > 1:
        return any(i.op == 'store' and i.args[0] == ('v', fn.params[1]) and i.args[1] == o for i in fn.instrs())
    return False


def element(fn, o, depth=0):
    """the getelementptr that selects the element of the argument vector this operand was loaded from"""
    d = fn.defs.get(o[1]) if o[0] == 'v' else None
    if d is None or depth > 6:
        return None
    if d.op == 'getelementptr' and any(a[0] == 'v' for a in d.args[1:]):
        return d
    if d.op in ('load', 'getelementptr', 'bitcast', 'freeze'):
        return element(fn, d.args[0], depth + 1)
    return None


def counter(fn, o, body):
    """the phi of the loop an index is taken from"""
    for _ in range(6):
        d = fn.defs.get(o[1]) if o[0] == 'v' else None
        if d is None:
            return None
        if d.op == 'phi':
            return d
        if d.op not in ('sext', 'zext', 'trunc', 'freeze'):
            return None
        o = d.args[0]
    return None


def is_argc(fn, o):
    if not fn.params or o[0] != 'v':
        return False
    if o[1] == fn.params[0]:
        return True
    d = fn.defs.get(o[1])
    return d is not None and d.op == 'load' and any(i.op == 'store' and i.args[0] == ('v', fn.params[0]) and i.args[1] == d.args[0]
                                                    for i in fn.instrs())


def varies(fn, o, body):
    """is this operand another one in each turn of the loop?"""
    seen, todo = set(), [o]
    while todo:
        o = todo.pop()
        d = fn.defs.get(o[1]) if o[0] == 'v' else None
        if d is None or o in seen or d.bb not in body:
            continue
        seen.add(o)
        if d.op in ('phi', 'call', 'alloca'):
            return True
        todo += d.args
    return False


def whole(fn, call, arg, head, body):
    """why the loop around this call does not go over all arguments, where that can be seen"""
    g = element(fn, arg)
    idx = [a for a in g.args[1:] if a[0] == 'v'] if g else []
    ph = counter(fn, idx[-1], body) if idx else None
    if ph is None or ph.bb not in body:
        return None
    inside = {b.label for b in body}
    for v, lab in ph.x:
        if lab in inside:
            continue
        d = fn.defs.get(v[1]) if v[0] == 'v' else None
        if v[0] == 'c' and v[1] > 1:
            return 'starts with argument %d' % v[1]
        if d is not None and d.op == 'load' and d.args[0][:2] == ('g', 'optind'):
            return 'starts behind the options'
    c = carry.Count(fn, head, body)
    if c.phi is ph and c.step == 1:
        for b, pred, y, late in [(b,) + t for b, ts in c.tests.items() for t in ts]:
            if pred not in ('slt', 'ult', 'ne'):
                continue
            off = 0
            d = fn.defs.get(y[1]) if y[0] == 'v' else None
            if d is not None and d.op in ('add', 'sub') and d.args[1][0] == 'c':
                off, y = d.args[1][1] if d.op == 'add' else -d.args[1][1], d.args[0]
            if not is_argc(fn, y):
                continue
            if late and fn.dominates(b, call.bb):
                off -= 1
            if off < 0:
                return 'ends before the last argument'
    for i in head.ins:
        if i.op == 'icmp' and any(a[0] == 'c' for a in i.args) and any(a[0] == 'v' and counter(fn, a, body) is ph for a in i.args):
            return 'ends at a constant'
    return None


def command_line(eng, io):
    """the history attribute is never written before the command line has been put into some buffer"""
    main = eng.prog.main()
    md = H.opaque(io)
    # the loop over the arguments is the one that matters: an element with a run-time index
    calls = set()
    for f in eng.prog.functions():
        for i in f.calls():
            if i.x in APPEND and any(from_argv(f, a) for a in i.args[1:]):
                for head, body in f.loops().items():
                    if i.bb in body and any(from_argv(f, a) and varies(f, a, body) for a in i.args[1:]):
                        for a in i.args[1:]:
                            w = whole(f, i, a, head, body) if from_argv(f, a) else None
                            if w:
                                return 'hit', 'the loop around %s in %s() %s' % (i.loc(), f.name, w), calls
                        calls |= {c for b in body for c in b.ins if c.op == 'call'}
    q = absint.Query(eng, models=md, sinkfn=lambda q, fn, i, env: i.x == 'mpp_def_global_att' and text(q, fn, i.args[1], env) == 'history',
                     stop=lambda q, fn, i, env: i in calls, once=True, budget=BUDGET)
    try:
        q.from_entry()
    except Exception as e:
        return 'unknown', str(e), calls
    if q.hits:
        i = q.hits[0][0]
        return 'hit', 'mpp_def_global_att at %s in %s()' % (i.loc(), i.fn.name), calls
    return 'ok', '', calls


def c08(rep):
    rep.rule = ('for every product file a tool creates: every path from its creation to the end of its definitions, its closing or '
                'a successful end defines each of the global attributes %s; the command line is collected before the history '
                'attribute is written' % ', '.join(ATTS))
    rep.assumptions = ['parallel tools are judged on the root rank',
                       'not products: remapping weights cached between runs, generated test input, transfer_to_mosaic_grid conversions']
    L = project.Layout()
    S = project.Store(L)
    progs = [p for p in programs(L) if p not in NOT_TOOLS]
    S.need([u for p in progs for u in L.units(p)])
    n = 0
    for p in progs:
        P = project.load(L, S, p)
        eng = absint.Engine(P, assume=H.root)
        io = H.io_module(P)
        sites = [s for s in H.opens(eng) if not only_from(eng, s.fn, NOT_PRODUCTS)]
        if not sites:
            continue
        n += len(sites)
        rep.count('programs')
        rep.count('functions', len(faults._reach(eng)))
        rep.count('product files', len(sites))
        warm(eng)
        jobs = [(s, a) for s in sites for a in ATTS]
        for (s, a), (v, t) in zip(jobs, par.pmap(lambda j: provenance(eng, io, j[0], j[1]), jobs)):
            where = '%s: file created at %s in %s()' % (p, s.loc(), s.fn.name)
            if v == 'unknown':
                rep.unknown('%s: %s' % (where, t))
            elif v == 'ok':
                rep.ok('%s carries %s' % (where, a))
            else:
                rep.bad('%s|%s|%s' % (p, s.fn.name, a), '%s can be without the global attribute %s: %s' % (where, a, t))
        v, t, calls = command_line(eng, io)
        if v == 'unknown':
            rep.unknown('%s: %s' % (p, t))
        elif v == 'ok':
            rep.ok('%s: command line collected (%d places) before the history attribute' % (p, len(calls)))
        else:
            rep.bad('%s|command line' % p, '%s: the history attribute is written without the whole command line: %s' % (p, t))
    rep.floor('product files', n, 30)
