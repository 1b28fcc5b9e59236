"""C01 mppnccombine, C04 mppncscatter, C05 grid tools: a failed operation ends in a non-zero status.
C06: a reported error or a bad command line ends in a non-zero status."""
import re

from .. import absint, faults, project

# attributes whose absence is a documented, legal state of the file (their read may fail)
OPTIONAL_ATTS = {
    'mppnccombine': {
        'NumFilesInSet': 'a file set without the attribute is combined with a warning',
        'domain_decomposition': 'absent on dimensions that are not decomposed',
    },
    'mppncscatter': {
        'units': 'falls back to cartesian_axis',
    },
    None: {
        'cartesian_axis': 'falls back to the axis attribute, then to no axis',
        'axis': 'last resort of the axis lookup; "N" when absent',
    },
}
# library questions of the form "does this exist?": a failed operation inside them is the answer "no"
PROBES = {'mpp_file_exist', 'mpp_field_exist', 'mpp_var_exist', 'mpp_var_att_exist', 'mpp_global_att_exist',
          'mpp_dim_exist', 'field_exist', 'file_exist'}


# error messages that announce a documented fallback rather than a failure
RECOVERY = [re.compile(r'Checking for .* instead')]


def recovery(P, i):
    return any(r.search(s) for s in faults.const_strings(P, i) for r in RECOVERY)


def nc_jobs(eng, optional):
    P = eng.prog
    jobs = []
    skipped = 0
    for i in faults.live_calls(eng):
        val = faults.failing_value(i, P)
        if val is None:
            continue
        if faults.ATTREAD.match(i.x) and any(s in optional for s in faults.const_strings(P, i)):
            skipped += 1
            continue
        jobs.append(faults.Job(i, val, 'if %s fails' % i.x, P.name))
    return jobs, skipped


def missing_inputs(eng):
    """questions whether a file named on the command line exists, asked before the last netCDF operation"""
    P = eng.prog
    m = P.main()
    nc = [i for i in faults.live_calls(eng) if i.fn is m and faults.failing_value(i, P) is not None]
    out = []
    for i in faults.live_calls(eng):
        if i.x in ('stat', 'lstat', 'access') and i.fn is m and element_of_argv(m, i.args[0]) and any(
                after(m, i, c) for c in nc):
            out.append(faults.Job(i, absint.NZ, 'if an input file named on the command line does not exist', P.name))
    return out


def element_of_argv(fn, o, depth=0):
    if o[0] != 'v' or depth > 6:
        return False
    d = fn.defs.get(o[1])
    if d is None:
        return depth > 0 and len(fn.params) > 1 and o[1] == fn.params[1]
    if d.op in ('load', 'getelementptr', 'freeze'):
        return element_of_argv(fn, d.args[0], depth + 1)
    return False


def after(fn, a, b):
    """can b be executed after a?"""
    if a.bb is b.bb and b.idx > a.idx:
        return True
    seen = set()
    todo = list(a.bb.succ)
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo += x.succ
    return b.bb in seen


def decide(rep, results, prog):
    for j, text, nt, hits in results:
        i = j.site
        where = '%s: %s at %s in %s()' % (prog, j.what, i.loc(), i.fn.name)
        if text is None:
            rep.unknown('%s: %s' % (where, nt))
        elif text:
            rep.bad('%s|%s|%s' % (prog, i.fn.name, i.x), '%s, %s' % (where, text))
        else:
            rep.ok('%s -> %d possible ends, all non-zero' % (where, nt))


def tool(rep, prog, floor):
    L = project.Layout()
    S = project.Store(L)
    P = project.load(L, S, prog)
    eng = absint.Engine(P)
    opt = OPTIONAL_ATTS.get(prog, {})
    jobs, sk = nc_jobs(eng, opt)
    rep.floor('netCDF operations in ' + prog, len(jobs), floor)
    msgs = [faults.Job(i, absint.TOP, 'once the error message is printed', prog) for i in faults.live_calls(eng)
            if faults.is_error_message(i, P) and not recovery(P, i)]
    allocs = []
    if prog == 'mppnccombine':
        allocs = [faults.Job(i, absint.const(0), 'if %s fails' % i.x, prog) for i in faults.live_calls(eng)
                  if i.x in ('malloc', 'calloc', 'realloc')]
    rep.count('programs')
    rep.count('functions', len(faults._reach(eng)))
    rep.count('netCDF call sites', len(jobs))
    rep.count('error-message sites', len(msgs))
    rep.count('optional-attribute reads set aside', sk)
    rep.count('allocation sites', len(allocs))
    if prog == 'mppnccombine':
        more = missing_inputs(eng)
        rep.count('input existence tests', len(more))
        allocs += more
    decide(rep, faults.run(eng, jobs + msgs + allocs), prog)


def c01(rep):
    rep.rule = ('for every netCDF operation, allocation and error message of mppnccombine: assume it fails (is printed) and '
                'follow every path to the end of the process; no end may have status 0')
    rep.assumptions = ['v2 netCDF calls report failure by -1 and nc_* calls by any non-zero status (ncopts=0)',
                       'int-sized error counters do not overflow; lookups of optional attributes are not failures']
    tool(rep, 'mppnccombine', 25)


def c04(rep):
    rep.rule = ('for every netCDF operation and error message of mppncscatter: assume it fails (is printed) and follow every '
                'path to the end of the process; no end may have status 0')
    rep.assumptions = ['nc_* calls report failure by any non-zero status; lookups of optional attributes are not failures']
    tool(rep, 'mppncscatter', 35)


OWN = {'mppnccombine', 'mppncscatter', 'ncexists', 'is-compressed'}


def c05(rep):
    rep.rule = ('for every netCDF operation reachable in every grid, mosaic, remapping and regridding tool: assume it fails and '
                'follow every path to the end of the process; no end may have status 0.  Failures inside an existence '
                'question are answers and stop there')
    rep.assumptions = ['nc_* calls report failure by any non-zero status', 'MPI_Abort ends the job with the code it is given',
                       'int-sized error counters do not overflow']
    L = project.Layout()
    S = project.Store(L)
    progs = [p for p in L.c_programs() if p not in OWN]
    S.need([u for p in progs for u in L.units(p)])
    rep.floor('grid tools', len(progs), 15)
    done = {}
    total = 0
    for p in progs:
        P = project.load(L, S, p)
        eng = absint.Engine(P)
        jobs, sk = nc_jobs(eng, OPTIONAL_ATTS[None])
        todo = []
        for j in jobs:
            k = (id(j.site),)
            if done.get(k) == 'local':
                rep.ok()
                continue
            if done.get(k) == 'bad':
                continue
            todo.append(j)
        total += len(jobs)
        res = faults.run(eng, todo, absorb=PROBES)
        for (j, text, nt, hits) in res:
            if text:
                done[(id(j.site),)] = 'bad'
            if text == '' and _local(j, eng):
                done[(id(j.site),)] = 'local'
        decide(rep, res, p)
        rep.count('programs')
        rep.count('functions', len(faults._reach(eng)))
        rep.count('netCDF call sites', len(jobs))
        rep.count('optional-attribute reads set aside', sk)
    rep.floor('netCDF operations', total, 300)


def _local(j, eng):
    q = absint.Query(eng, absorb=PROBES)
    q.up = lambda fn, r, par=None: q.seen_up.add(1) if r is not None else None
    q.from_call(j.site, j.val)
    return not q.seen_up


def root_models():
    """parallel programs seen from the root rank: its failure is the job's failure"""
    return {'mpp_pe': lambda *a: absint.const(0), 'mpp_root_pe': lambda *a: absint.const(0)}


def c06(rep):
    rep.rule = ('in every C tool: after getopt reports an unrecognised option, after any message that begins with "error" is '
                'printed on standard error, and from every entry of the shared fatal-error routine, follow every path to the end of the '
                'process; no end may have status 0, and the fatal-error routine may not return')
    rep.assumptions = ['parallel tools are judged on the root rank', 'int-sized error counters do not overflow']
    L = project.Layout()
    S = project.Store(L)
    progs = L.c_programs()
    S.need([u for p in progs for u in L.units(p)])
    rep.floor('tools', len(progs), 18)
    nopt = nmsg = nfatal = 0
    done = set()
    for p in progs:
        P = project.load(L, S, p)
        eng = absint.Engine(P)
        rep.count('programs')
        jobs = []
        for i in faults.live_calls(eng):
            if (i.x or '').startswith('getopt') and P.resolve(i, i.x) is None:
                jobs.append(faults.Job(i, absint.const(63), 'when the command line has an unrecognised option', p))
                nopt += 1
            elif faults.is_error_message(i, P) and faults.on_stderr(i) and not recovery(P, i):
                nmsg += 1
                if (id(i), p if not i.fn.mod.src.startswith('lib/') else '') in done:
                    continue
                jobs.append(faults.Job(i, absint.TOP, 'once the error message is printed', p))
        decide(rep, faults.run(eng, jobs, models=root_models()), p)
        for name in ('mpp_error', 'netcdf_error', 'error_handler', 'handle_netcdf_error'):
            g = P.ext.get(name)
            if g is None or g not in faults._reach(eng):
                continue
            nfatal += 1
            q = absint.Query(eng)
            r = q.run(g, (g.entry, 0), {}, {})
            z = [t for t in q.terms if absint.may_be_zero(t[1])]
            where = '%s: %s() at %s' % (p, name, g.mod.src)
            if r is not None:
                rep.bad('%s|returns' % name, where + ' can return to its caller after reporting a fatal error')
            elif z:
                rep.bad('%s|zero' % name, '%s: %s' % (where, faults.describe(q, z[0])))
            else:
                rep.ok(where + ' never returns and never ends with status 0')
    rep.count('option-parser sites', nopt)
    rep.count('error-message sites', nmsg)
    rep.count('fatal-error routine instances', nfatal)
    rep.floor('option-parser sites', nopt, 18)
    rep.floor('fatal-error routine instances', nfatal, 15)
