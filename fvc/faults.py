"""What happens after an operation fails: abstract fault injection at every call site.

For every call of a fallible operation the analysis assumes the failing result and follows all
paths of the program from there (through callees and back up through every caller) to the points
where the process ends.  The obligation is discharged when the status at every such point excludes 0.
"""
import multiprocessing as mp
import os
import re

from . import absint

PURE = {'nc_strerror', 'nctypelen', 'nc_inq_libvers'}
# asking whether a named thing exists: "no" is an answer, not a failure
EXISTENCE = {'nc_inq_varid', 'nc_inq_dimid', 'nc_inq_att', 'nc_inq_attid', 'nc_inq_attlen', 'nc_inq_atttype', 'ncdimid',
             'ncvarid', 'ncattinq', 'nc_inq_grp_ncid'}
ATTREAD = re.compile(r'(nc_get_att|ncattget)')


def failing_value(i, prog):
    """abstract result of a failed call, or None if the call is not a fallible operation"""
    x = i.x or ''
    if not x.startswith('nc') or prog.resolve(i, x) is not None:
        return None
    if x in PURE or x in EXISTENCE:
        return None
    if x.startswith('nc_'):
        return absint.NZ
    if x[2:3].isalpha():
        return absint.const(-1)
    return None


def const_strings(prog, i):
    return [s for s in (prog.cstr(i.fn, a) for a in i.args if a) if s is not None]


ERRMSG = re.compile(r'\W*(fatal\s+)?error\b', re.I)
PRINTERS = {'printf', 'fprintf', 'puts', 'fputs', 'fwrite'}


def is_error_message(i, prog):
    if i.x not in PRINTERS:
        return False
    for s in const_strings(prog, i):
        return bool(ERRMSG.match(s))
    return False


def on_stderr(i):
    """the message goes to standard error"""
    for a in i.args:
        if a and a[0] == 'v':
            d = i.fn.defs.get(a[1])
            if d is not None and d.op == 'load' and d.args[0] == ('g', 'stderr', 0):
                return True
    return False


def describe(q, zero):
    a, v, chain = zero
    via = ' via ' + ' -> '.join('%s (%s)' % (c.fn.name, c.loc()) for c in chain[-4:]) if chain else ''
    return 'the process can end with status %s at %s in %s%s' % (show(v), a.loc(), a.fn.name, via)


def show(v):
    if absint.isconst(v):
        return str(v[0])
    lo = '-inf' if v[0] is None else v[0]
    hi = 'inf' if v[1] is None else v[1]
    return '[%s..%s]' % (lo, hi)


class Job:
    def __init__(self, site, val, what, prog):
        self.site = site
        self.val = val
        self.what = what
        self.prog = prog


_G = {}


def _one(k):
    eng, jobs, kw = _G['x']
    j = jobs[k]
    q = absint.Query(eng, first=not kw.get('sinks') and not kw.get('sinkfn'), **kw)
    try:
        q.from_call(j.site, j.val)
    except absint.Found:
        pass
    except Exception as e:
        return k, None, 'undecided: %s' % e, 0, []
    z = [t for t in q.terms if absint.may_be_zero(t[1])]
    hits = sorted(set('%s at %s in %s' % (i.x, i.loc(), i.fn.name) for i, c in q.hits))
    return k, (describe(q, z[0]) if z else ''), len(q.terms), len(q.seen_up), hits


def run(eng, jobs, **kw):
    """[(job, text or '' or None, nterms, hits)] in job order"""
    if not jobs:
        return []
    # warm the shared facts before forking
    for f in eng.prog.functions():
        if f in _reach(eng):
            eng.base(f)
    eng.transitive()
    eng.globals_of(eng.prog.main())
    for f in eng.prog.functions():
        f.livein()
        f.rponum()
    eng.prog.callers(eng.prog.main())
    _G['x'] = (eng, jobs, kw)
    n = min(8, os.cpu_count() or 1, len(jobs))
    if n <= 1 or len(jobs) < 4:
        res = [_one(k) for k in range(len(jobs))]
    else:
        with mp.get_context('fork').Pool(n) as p:
            res = p.map(_one, range(len(jobs)), chunksize=1)
    return [(jobs[k], t, nt, hits) for k, t, nt, up, hits in res]


def _reach(eng):
    if not hasattr(eng, '_reachset'):
        eng._reachset = eng.prog.reachable()
    return eng._reachset


def live_calls(eng):
    """call sites in functions reachable from main, in blocks live under the engine's assumptions"""
    r = _reach(eng)
    for f in eng.prog.functions():
        if f not in r:
            continue
        for i in f.calls():
            if eng.executable(i.bb):
                yield i
