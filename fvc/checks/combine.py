"""C02 (mppnccombine -r) and C03 (an output this run did not create is not destroyed)."""
from .. import absint, faults, project
from .failures import OPTIONAL_ATTS, missing_inputs, nc_jobs, recovery

NC_NOCLOBBER = 0x4
CREATE = {'nc_create', 'nc__create', 'nccreate', 'nc_create_par'}
WRITES = {'ncvarput', 'ncvarput1', 'ncvarputs', 'ncattput', 'ncattcopy', 'ncdimdef', 'ncvardef', 'ncredef', 'ncendef', 'ncsync',
          'nc_sync', 'nc_enddef', 'nc__enddef', 'nc_redef'}
REMOVE = {'unlink', 'remove', 'rename', 'truncate', 'unlinkat'}


def is_write(i):
    x = i.x or ''
    return x in WRITES or x.startswith('nc_put_') or x.startswith('nc_def_') or x.startswith('nc_copy_')


def load():
    L = project.Layout()
    S = project.Store(L)
    return project.load(L, S, 'mppnccombine')


def base_of(eng, i, k=0):
    v = eng.bval(i.fn, i.args[k])
    return v[1] if v[0] == 'P' else None


def output_bases(eng):
    """objects whose name is given to a file-creating call: the output path, in the function that owns it"""
    out = set()
    P = eng.prog
    for i in faults.live_calls(eng):
        if i.x in CREATE:
            b = base_of(eng, i)
            if b is not None:
                out.add(b)
    # follow parameters up to the owner
    ch = True
    while ch:
        ch = False
        for b in list(out):
            if b[0] == 'P':
                for s in P.callers(b[1]):
                    if b[2] < len(s.args):
                        nb = base_of(eng, s, b[2])
                        if nb is not None and nb not in out:
                            out.add(nb)
                            ch = True
    return out


def assumptions(P, absent=(), present=()):
    def asm(e, i):
        if i.x in ('strcmp', 'strncmp', 'strcasecmp'):
            for a in i.args:
                s = P.cstr(i.fn, a)
                if s in absent:
                    return absint.NZ
        return None
    return asm


def option_sites(P, opt):
    return [i for f in P.functions() for i in f.calls() if i.x in ('strcmp', 'strncmp', 'strcasecmp')
            and any(P.cstr(f, a) == opt for a in i.args)]


def c02(rep):
    rep.rule = ('mppnccombine: the calls that remove a file other than the output are (a) unreachable when -r is not given, '
                '(b) unreachable after any failed netCDF operation, failed allocation or printed error, and (c) followed by no '
                'further write to, sync or close of a netCDF file')
    rep.assumptions = ['removal means unlink/remove/rename/truncate; the output path is the buffer named in the create calls']
    P = load()
    eng = absint.Engine(P)
    outs = output_bases(eng)
    rep.floor('output path buffers', len(outs), 1)

    def removal(q, fn, i, env):
        if i.x not in REMOVE or q.prog.resolve(i, i.x) is not None:
            return False
        v = q.value(fn, i.args[0], env)
        return not (v[0] == 'P' and v[1] in outs)
    sites = [i for i in faults.live_calls(eng) if i.x in REMOVE and base_of(eng, i) not in outs]
    rep.floor('input-removal sites', len(sites), 1)
    rep.floor('-r option test', len(option_sites(P, '-r')), 1)
    rep.count('input-removal sites', len(sites))
    # (a)
    e2 = absint.Engine(P, assume=assumptions(P, absent={'-r'}))
    q = absint.Query(e2, sinkfn=removal, budget=1500000)
    q.from_entry()
    if q.hits:
        rep.bad('no-r', 'mppnccombine: without -r, %s removes an input file' % where(q.hits[0]))
    else:
        rep.ok('without -r: no input-removal site is reachable from main')
    # (b)
    jobs, sk = nc_jobs(eng, OPTIONAL_ATTS['mppnccombine'])
    jobs += [faults.Job(i, absint.const(0), 'if %s fails' % i.x, P.name) for i in faults.live_calls(eng)
             if i.x in ('malloc', 'calloc', 'realloc')]
    jobs += [faults.Job(i, absint.TOP, 'once an error is printed', P.name) for i in faults.live_calls(eng)
             if faults.is_error_message(i, P) and not recovery(P, i)]
    jobs += missing_inputs(eng)
    rep.floor('failure points', len(jobs), 50)
    rep.count('failure points', len(jobs))
    for j, text, nt, hits in faults.run(eng, jobs, sinkfn=removal):
        w = '%s at %s in %s()' % (j.what, j.site.loc(), j.site.fn.name)
        if text is None:
            rep.unknown(w + ': ' + str(nt))
        elif hits:
            rep.bad('after|%s|%s' % (j.site.fn.name, j.site.x), 'mppnccombine: %s, the input files can still be removed: %s' % (
                w, hits[0]))
        else:
            rep.ok('%s: no input removal is reachable afterwards' % w)
    # (c)
    for s in sites:
        q = absint.Query(eng, sinkfn=lambda q, fn, i, env: is_write(i) or i.x in ('ncclose', 'nc_close'))
        q.from_call(s, None)
        if q.hits:
            rep.bad('order|%s' % s.fn.name, 'mppnccombine: %s at %s removes an input before the output is complete: %s '
                    'still follows' % (s.x, s.loc(), where(q.hits[0])))
        else:
            rep.ok('%s at %s: no write, sync or close follows' % (s.x, s.loc()))


def where(hit):
    i, chain = hit
    return '%s at %s in %s()' % (i.x, i.loc(), i.fn.name)


def c03(rep):
    rep.rule = ('mppnccombine: (a) when the output path exists and -a is not given, no call that creates, opens for writing or '
                'removes it is reachable, and with -a none that creates it anew; (b) on paths where this run created no file, no call removes the output path; (c) '
                'once -x is seen, no call creates, writes or removes a file')
    rep.assumptions = ['existence is asked with stat/access/fopen on the output path buffer']
    P = load()
    eng = absint.Engine(P)
    outs = output_bases(eng)
    rep.floor('output path buffers', len(outs), 1)
    creates = [i for i in faults.live_calls(eng) if i.x in CREATE]
    rep.floor('create sites', len(creates), 1)
    rep.floor('-a option test', len(option_sites(P, '-a')), 1)
    rep.floor('-x option test', len(option_sites(P, '-x')), 1)
    rep.count('create sites', len(creates))

    def on_output(q, fn, i, env):
        v = q.value(fn, i.args[0], env)
        return v[0] == 'P' and v[1] in outs

    def noclobber(fn, i):
        m = eng.consts(fn, i.args[1])
        return m is not None and all(x & NC_NOCLOBBER for x in m)

    def damage(q, fn, i, env):
        if i.x in CREATE:
            return not noclobber(fn, i)
        if i.x in ('ncopen', 'nc_open', 'nc__open') and len(i.args) > 1:
            m = q.value(fn, i.args[1], env)
            return not absint.iszero(m)
        if i.x in REMOVE:
            return on_output(q, fn, i, env)
        return i.x in ('fopen', 'open', 'creat') and on_output(q, fn, i, env)

    def exists(v):
        def m(q, fn, i, env, mem):
            return v if on_output(q, fn, i, env) else None
        return m
    e2 = absint.Engine(P, assume=assumptions(P, absent={'-a'}))
    probes = [i for i in faults.live_calls(e2) if i.x in ('stat', 'lstat', 'access') and base_of(e2, i) in outs]
    rep.count('existence probes of the output', len(probes))
    z = absint.const(0)
    md = {'stat': exists(z), 'lstat': exists(z), 'access': exists(z)}
    # creating an existing file with NC_NOCLOBBER fails
    md.update({c: (lambda q, fn, i, env, mem: absint.NZ if noclobber(fn, i) else None) for c in CREATE})
    q = absint.Query(e2, sinkfn=damage, models=md, budget=1500000)
    q.from_entry()
    if q.hits:
        rep.bad('exists', 'mppnccombine: the output file exists and -a was not given, yet %s is reached' % where(q.hits[0]))
    else:
        rep.ok('output exists, no -a: no create/open-for-write/remove of it is reachable from main')
    # (d) with or without -a: only a file this run has created may be created over (-x is decided in (c))
    q = absint.Query(absint.Engine(P, assume=assumptions(P, absent={'-x'})), sinkfn=lambda q, fn, i, env: i.x in CREATE and not noclobber(fn, i) or
                     i.x in ('fopen', 'open', 'creat') and on_output(q, fn, i, env), models=md, budget=1500000)
    q.from_entry()
    if q.hits:
        rep.bad('over', 'mppnccombine: the output file exists and this run has not created it, yet %s is reached' % where(q.hits[0]))
    else:
        rep.ok('output exists: nothing creates it anew, with or without -a')
    # (b)
    nr = {c: (lambda *a: 'noreturn') for c in CREATE}
    rm = [i for i in faults.live_calls(eng) if i.x in REMOVE and base_of(eng, i) in outs]
    rep.count('output-removal sites', len(rm))
    q = absint.Query(eng, models=nr, sinkfn=lambda q, fn, i, env: i.x in REMOVE and on_output(q, fn, i, env), budget=1500000)
    q.from_entry()
    if q.hits:
        rep.bad('notmine', 'mppnccombine: on a path where this run created no output file, %s removes the file of that name'
                % where(q.hits[0]))
    else:
        rep.ok('no file created by this run: %d output-removal sites unreachable' % len(rm))
    # (c)
    for s in option_sites(P, '-x'):
        q = absint.Query(eng, sinkfn=lambda q, fn, i, env: i.x in CREATE or damage(q, fn, i, env) or is_write(i)
                         or i.x in REMOVE,
                         budget=1500000)
        q.from_call(s, z)
        if q.hits:
            rep.bad('dryrun', 'mppnccombine: with -x given, %s is reachable' % where(q.hits[0]))
        else:
            rep.ok('after -x at %s: no create, write or remove is reachable' % s.loc())
