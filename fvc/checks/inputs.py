"""C11: input files are never modified."""
from .. import absint, faults, handles as H, par, project
from .outputs import BUDGET, DEFINE, PUT, warm

OPEN = {'nc_open': 1, 'nc__open': 1, 'ncopen': 1, 'nc_open_par': 1}
REMOVE = {'remove', 'unlink', 'rename', 'truncate', 'ftruncate', 'unlinkat', 'renameat'}
FREAD = {'mpp_get_var_value': 0, 'mpp_get_var_value_block': 0, 'mpp_get_var_att': 0, 'mpp_get_nvars': 0}
# may open its output again for writing, and may remove files: C02 and C03 decide when
COMBINE = {'mppnccombine'}


def mode_ok(q, fn, i, env):
    v = q.value(fn, i.args[OPEN[i.x]], env)
    return v[0] != 'P' and absint.isconst(v) and not v[0] & 1


def opener(eng, f, action):
    """does mpp_open(.., action), for a constant action, open or create anything for writing?"""
    q = absint.Query(eng, budget=BUDGET, sinkfn=lambda q, fn, i, env: i.x in OPEN and not mode_ok(q, fn, i, env) or
                     i.x in ('nc_create', 'nc__create', 'nccreate') or i.x in REMOVE)
    q.run(f, (f.entry, 0), {f.params[1]: absint.const(action)}, {})
    return [h[0] for h in q.hits]


def misuse(eng, io, s, write):
    """first operation that changes (write=False) or reads (write=True) the file opened at s"""
    h = H.Handle(s)
    h.keys = set()
    md = H.opaque(io)
    md['mpp_close'] = lambda q, fn, i, env, mem: 'noreturn' if h.is_it(q, fn, i.args[0], env) else absint.TOP

    def sink(q, fn, i, env):
        if write:
            k = FREAD.get(i.x)
        else:
            k = PUT[i.x][0] if i.x in PUT else DEFINE.get(i.x)
        return k is not None and h.is_it(q, fn, i.args[k], env)
    q = absint.Query(eng, models=md, budget=BUDGET, sinkfn=sink)
    try:
        q.from_call(s, H.TOK)
    except Exception as e:
        return 'unknown', str(e)
    if q.hits:
        i = q.hits[0][0]
        return 'hit', '%s at %s in %s()' % (i.x, i.loc(), i.fn.name)
    return 'ok', ''


def c11(rep):
    rep.rule = ('in every C tool: a file opened through the library for reading is opened without write access and nothing is ever '
                'defined or written through its handle; a file opened for output is created anew and never read back as input; every '
                'other open has constant read-only mode; nothing is removed, renamed or truncated (mppnccombine: see C02, C03)')
    rep.assumptions = ['that an output path differs from an input path is the user\'s choice of names (run-time strings)']
    L = project.Layout()
    S = project.Store(L)
    progs = L.c_programs()
    S.need([u for p in progs for u in L.units(p)])
    nopen = 0
    for p in progs:
        P = project.load(L, S, p)
        eng = absint.Engine(P, assume=H.root)
        io = H.io_module(P)
        rep.count('programs')
        rep.count('functions', len(faults._reach(eng)))
        live = list(faults.live_calls(eng))
        for i in live:
            if i.x in REMOVE and p not in COMBINE:
                rep.bad('%s|%s|%s' % (p, i.fn.name, i.x), '%s: %s at %s in %s(): a tool that only reads and creates files removes or renames '
                        'one' % (p, i.x, i.loc(), i.fn.name))
        for i in live:
            if i.x in ('fopen', 'fopen64', 'freopen') and i.fn.mod is not io:
                m = P.cstr(i.fn, i.args[1])
                if m is not None and '+' in m:
                    rep.bad('%s|%s|%s' % (p, i.fn.name, i.x), '%s: %s(.., "%s") at %s in %s() opens a file for reading and writing' % (
                        p, i.x, m, i.loc(), i.fn.name))
                elif m is not None:
                    rep.ok('%s: %s(.., "%s") at %s' % (p, i.x, m, i.loc()))
        jobs = []
        opens = [i for i in live if i.x == 'mpp_open' and i.fn.mod is not io]
        if opens:
            f = P.resolve(opens[0], 'mpp_open')
            for i in opener(eng, f, H.MPP_READ):
                rep.bad('%s|mpp_open|%s' % (p, i.x), '%s: mpp_open(.., MPP_READ) can reach %s at %s: an input is opened for writing or '
                        'replaced' % (p, i.x, i.loc()))
            rep.ok('%s: mpp_open(.., MPP_READ) opens without write access' % p)
        inside = set(eng.closure(P.resolve(opens[0], 'mpp_open'))) if opens else set()
        for i in live:
            if i.x in OPEN and i.fn not in inside and p not in COMBINE:
                nopen += 1
                c = eng.consts(i.fn, i.args[OPEN[i.x]])
                if c is not None and not any(m & 1 for m in c):
                    rep.ok('%s: %s at %s is read-only' % (p, i.x, i.loc()))
                else:
                    rep.bad('%s|%s|%s' % (p, i.fn.name, i.x), '%s: %s at %s in %s() does not open read-only' % (p, i.x, i.loc(), i.fn.name))
        for i in opens:
            nopen += 1
            c = eng.consts(i.fn, i.args[1])
            if c is None or c - {H.MPP_READ, H.MPP_WRITE} or len(c) != 1:
                rep.bad('%s|%s|action' % (p, i.fn.name), '%s: mpp_open at %s in %s() opens an existing file for modification, or its action '
                        'is not a constant' % (p, i.loc(), i.fn.name))
                continue
            jobs.append((i, c == {H.MPP_WRITE}))
        if jobs:
            warm(eng)
        for (i, w), (v, t) in zip(jobs, par.pmap(lambda j: misuse(eng, io, j[0], j[1]), jobs)):
            where = '%s: mpp_open at %s in %s()' % (p, i.loc(), i.fn.name)
            if v == 'unknown':
                rep.unknown('%s: %s' % (where, t))
            elif v == 'ok':
                rep.ok('%s: %s only' % (where, 'written' if w else 'read'))
            else:
                rep.bad('%s|%s|misuse' % (p, i.fn.name), '%s: the file is opened for %s but %s' % (
                    where, 'output' if w else 'input', ('read by ' if w else 'changed by ') + t))
    nopen += fortran(rep, L)
    rep.count('open sites', nopen)
    rep.floor('open sites', nopen, 120)


F_OPEN = {'nf_open_': 1, 'nf__open_': 1, '__netcdf_MOD_nf90_open': 1}
F_REMOVE = {'_gfortran_unlink', '_gfortran_unlink_i4_sub', '_gfortran_rename', '_gfortran_rename_i4_sub', 'unlink', 'rename', 'remove'}


def fortran(rep, L):
    n = 0
    for p, P in sorted(project.load_fortran(L).items()):
        eng = absint.Engine(P)
        rep.count('programs')
        rep.count('functions', len(faults._reach(eng)))
        got = {}

        def model(q, fn, i, env, mem):
            a = q.value(fn, i.args[F_OPEN[i.x]], env)
            v = eng.loadval(a, mem) if a[0] == 'P' else absint.TOP
            got[i] = absint.join(got[i], v) if i in got else v
            return None
        q = absint.Query(eng, models=dict.fromkeys(F_OPEN, model))
        try:
            q.from_entry()
        except Exception as e:
            rep.unknown('%s: %s' % (p, e))
            continue
        for i in faults.live_calls(eng):
            if i.x in F_REMOVE:
                rep.bad('%s|%s|%s' % (p, i.fn.name, i.x), '%s: %s at %s in %s(): a tool that only reads and creates files removes or '
                        'renames one' % (p, i.x, i.loc(), i.fn.name))
            if i.x not in F_OPEN:
                continue
            n += 1
            v = got.get(i, absint.TOP)
            if v[0] != 'P' and v[0] is not None and v[0] == v[1] and not v[0] & 1:
                rep.ok('%s: %s at %s is read-only' % (p, i.x, i.loc()))
            else:
                rep.bad('%s|%s|%s' % (p, i.fn.name, i.x), '%s: %s at %s in %s() does not open read-only' % (p, i.x, i.loc(), i.fn.name))
    return n
