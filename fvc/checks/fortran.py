"""C13/C14: the Fortran tools (land utilities, plevel-interp, time_average, list_ncvars)."""
import re

from .. import absint, faults, par, project

NF = re.compile(r'(nf_|__netcdf_MOD_nf90_)')
# asking whether a named thing exists, or what an optional attribute says: "no" is an answer
LOOKUP = re.compile(r'(nf_|__netcdf_MOD_nf90_)(inq_varid|inq_dimid|inq_att_$|inq_attid|inq_atttype|inq_attlen|inquire_attribute|'
                    r'get_att)')
PURE = re.compile(r'(nf_|__netcdf_MOD_nf90_)(strerror|inq_libvers|inq_base_pe|issyserr)')
# "is this dimension compressed?": answered by looking for the attribute and the dimensions it names
PROBES = {'__nfu_compress_mod_MOD_inq_compressed_dim_i', '__nfu_compress_mod_MOD_inq_compressed_dim_n'}
ERRMSG = re.compile(r'\W*(netcdf |fatal )?error\b', re.I)
CREATE = re.compile(r'(nf__?create_|__netcdf_MOD_nf90_create)$')
CLOSE = re.compile(r'(nf_close_|__netcdf_MOD_nf90_close)$')
ENDDEF = re.compile(r'(nf__?enddef_|__netcdf_MOD_nf90_enddef)$')
OUTARG = {'nf_create_': 2, 'nf__create_': 4, '__netcdf_MOD_nf90_create': 2}


def messages(eng):
    """calls that write a constant error message"""
    P = eng.prog
    for i in faults.live_calls(eng):
        if (i.x or '').startswith('_gfortran_transfer_character'):
            for s in faults.const_strings(P, i):
                if ERRMSG.match(s):
                    yield i
                    break


def c13(rep):
    rep.rule = ('for every netCDF operation and error message reachable in every Fortran tool: assume it fails (is printed) and follow '
                'every path to the end of the process; no end may have status 0.  Lookups of attributes, variable and dimension '
                'names, and the question whether a dimension is compressed, are answers and not failures')
    rep.assumptions = ['a netCDF status is never a multiple of 256', 'gfortran run-time errors, ERROR STOP and abort end with a non-zero status']
    L = project.Layout()
    total = 0
    PS = project.load_fortran(L)
    rep.floor('Fortran tools', len(PS), 6)
    for p, P in sorted(PS.items()):
        eng = absint.Engine(P)
        jobs = []
        for i in faults.live_calls(eng):
            x = i.x or ''
            if not NF.match(x) or PURE.match(x) or P.resolve(i, x) is not None:
                continue
            if LOOKUP.match(x):
                rep.count('lookups set aside')
                continue
            jobs.append(faults.Job(i, absint.NZ, 'if %s fails' % x.replace('__netcdf_MOD_', '').rstrip('_'), p))
        total += len(jobs)
        rep.count('netCDF call sites', len(jobs))
        n = len(jobs)
        for i in messages(eng):
            jobs.append(faults.Job(i, None, 'once the error message is printed', p))
        rep.count('programs')
        rep.count('error-message sites', len(jobs) - n)
        rep.count('functions', len(faults._reach(eng)))
        for j, text, nt, hits in faults.run(eng, jobs, absorb=PROBES):
            i = j.site
            where = '%s: %s at %s in %s()' % (p, j.what, i.loc(), short(i.fn.name))
            if text is None:
                rep.unknown('%s: %s' % (where, nt))
            elif text:
                rep.bad('%s|%s|%s' % (p, short(i.fn.name), i.x), '%s, %s' % (where, text))
            else:
                rep.ok('%s -> %d possible ends, all non-zero' % (where, nt))
    rep.floor('netCDF operations in the Fortran tools', total, 200)


def short(n):
    n = re.sub(r'^__\w+?_MOD_', '', n)
    return re.sub(r'\.\d+$', '', n)


def root(fn, o, depth=0):
    """the variable an address is computed from: itself, or the array it is an element of"""
    if o[0] != 'v' or depth > 30:
        return o
    d = fn.defs.get(o[1])
    if d is None or d.op == 'alloca':
        return o
    if d.op == 'getelementptr' and d.args[1][0] == 'c':
        return ('+', root(fn, d.args[0], depth + 1), d.args[1][1])
    if d.op in ('getelementptr', 'bitcast', 'add'):
        return root(fn, d.args[0], depth + 1)
    if d.op == 'load':
        return ('*', root(fn, d.args[0], depth + 1))
    return o


def does(eng, f, i, pat, r, depth=0):
    """a call that does `pat` to the variable r of f, itself or in a procedure that is given it and cannot return without"""
    if i.op != 'call' or not i.args:
        return False
    if pat.match(i.x or ''):
        return root(f, i.args[0]) == r
    g = eng.prog.resolve(f, i.x)
    if g is None or depth > 3:
        return False
    for n, a in enumerate(i.args):
        if n < len(g.params) and root(f, a) == r:
            p = ('v', g.params[n])
            done = {j.bb for j in g.calls() if does(eng, g, j, pat, p, depth + 1)}
            first = g.blocks[next(iter(g.blocks))]
            seen, work, out = set(), [first], False
            while done and work:
                b = work.pop()
                if b in seen or b in done:
                    continue
                seen.add(b)
                out = out or any(j.op == 'ret' for j in b.ins)
                work += b.succ
            if done and not out:
                return True
    return False


def unclosed(eng, site, pat):
    """an end with status 0 reached from the creation of a file without an operation `pat` on it"""
    k = OUTARG[site.x]
    fn = site.fn
    h = eng.bval(fn, site.args[k])
    r = root(fn, site.args[k])

    def stop(q, f, i, env):
        if i.op != 'call' or not i.args:
            return False
        if f is fn and does(eng, f, i, pat, r):
            return True
        if not pat.match(i.x or ''):
            return False
        v = q.value(f, i.args[0], env)
        return h[0] == 'P' and v[0] == 'P' and v[1] == h[1] and (v[2] is None or h[2] is None or v[2] == h[2])
    q = absint.Query(eng, stop=stop, once=True)
    try:
        q.from_call(site, absint.const(0))
    except Exception as e:
        return 'unknown', str(e)
    z = [t for t in q.terms if absint.may_be_zero(t[1])]
    if z:
        return 'hit', faults.describe(q, z[0])
    return 'ok', ''


def counted(fn, i):
    """the constant at which the only counter of the loop around i begins"""
    from . import carry

    def plain(o):
        d = fn.defs.get(o[1]) if o[0] == 'v' else None
        return plain(d.args[0]) if d is not None and d.op in ('bitcast', 'sext', 'zext', 'trunc') else o
    loops = [(len(b), h.label, h, b) for h, b in carry.natural(fn).items() if i.bb in b]
    if not loops:
        return None
    _, _, head, body = min(loops)
    got = []
    for p in head.ins:
        if p.op != 'phi':
            break
        ins = [plain(x) for x, l in p.x if fn.blocks[l] in body]
        out = [plain(x) for x, l in p.x if fn.blocks[l] not in body]
        d = [fn.defs.get(x[1]) if x[0] == 'v' else None for x in ins]
        if all(x is not None and x.op == 'add' and plain(x.args[0]) == ('v', p.dst) and x.args[1] == ('c', 1) for x in d):
            got.append(out[0] if len(out) == 1 else None)
    return got[0][1] if len(got) == 1 and got[0] and got[0][0] == 'c' else None


def short_of(eng, site, pat):
    """a loop that does `pat` to a table of files and begins elsewhere than the one that creates them"""
    fn = site.fn
    k = OUTARG[site.x]
    a = counted(fn, site)
    if a is None:
        return None
    same = [i for i in faults.live_calls(eng) if i.fn is fn and does(eng, fn, i, pat, root(fn, site.args[k]))]
    if len(same) != 1:
        return None
    b = counted(fn, same[0])
    if b is None or b <= a:
        return None
    return 'the loop around %s at %s begins with file %d, the one that creates them with %d' % (same[0].x, same[0].loc(), b, a)


def c14(rep):
    rep.rule = ('from every successful creation of a file in a Fortran tool, every path to an end with status 0 passes the operation '
                'that ends its define mode and, after that, the one that closes it (on the same handle variable)')
    rep.assumptions = ['a loop over the output files runs at least once when there is an output file']
    L = project.Layout()
    PS = project.load_fortran(L)
    n = 0
    for p, P in sorted(PS.items()):
        eng = absint.Engine(P)
        rep.count('programs')
        for i in faults.live_calls(eng):
            if i.x not in OUTARG:
                continue
            n += 1
            for pat, what in ((ENDDEF, 'leaving define mode'), (CLOSE, 'being closed')):
                v, t = unclosed(eng, i, pat)
                if v == 'ok':
                    t = short_of(eng, i, pat)
                    v = 'hit' if t else 'ok'
                where = '%s: file created at %s in %s()' % (p, i.loc(), short(i.fn.name))
                if v == 'unknown':
                    rep.unknown(where + ': ' + t)
                elif v == 'ok':
                    rep.ok('%s: no successful end without %s' % (where, what))
                else:
                    rep.bad('%s|%s|%s' % (p, short(i.fn.name), what), '%s: without %s, %s' % (where, what, t))
    rep.count('created files', n)
    rep.floor('created files', n, 5)
