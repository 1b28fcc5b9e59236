"""Following one output file through a program: the value returned by the call that creates it is a
token, and every later operation is classified by whether it is given that token.

A handle kept in a structure field that is indexed at run time (file[n].fid) is followed by the field."""
from . import absint, faults

MPP_WRITE, MPP_READ, MPP_APPEND = 100, 200, 300
TOK = ('P', ('T', 'handle'), 0)
VAR = ('P', ('T', 'variable'), 0)


def field_key(fn, o, depth=0):
    """(struct type, field) of an address operand, or None"""
    if o[0] != 'v' or depth > 4:
        return None
    d = fn.defs.get(o[1])
    if d is None:
        return None
    if d.op in ('bitcast', 'freeze'):
        return field_key(fn, d.args[0], depth + 1)
    if d.op == 'getelementptr' and len(d.args) > 2 and all(a[0] == 'c' for a in d.args[2:]) and d.ty.startswith('%'):
        return (d.ty.split('.')[1] if '.' in d.ty else d.ty, tuple(a[1] for a in d.args[2:]))
    if d.op == 'getelementptr' and d.ty in ('i32', 'i64') and len(d.args) == 2 and d.args[0][0] == 'v':
        return (fn.name, d.args[0][1])
    return None


def escapes(site):
    """fields of run-time indexed structures in which the result of a call is kept"""
    out = set()
    fn = site.fn
    for i in fn.instrs():
        if i.op == 'store' and i.args[0] == ('v', site.dst):
            k = field_key(fn, i.args[1])
            if k is not None:
                out.add(k)
    return out


def spread(eng, keys):
    """the names that a table of handles has in the functions it is passed to and from"""
    out, work = set(keys), [k for k in keys if not isinstance(k[1], tuple)]
    if not work:
        return out
    byname = {}
    for f in eng.prog.functions():
        byname.setdefault(f.name, []).append(f)
    while work:
        name, v = work.pop()
        for f in byname.get(name, ()):
            near = []
            for i in f.calls():
                for n, a in enumerate(i.args):
                    if a == ('v', v):
                        g = eng.prog.resolve(f, i.x)
                        if g is not None and n < len(g.params):
                            near.append((g.name, g.params[n]))
            for n in range(len(f.params)):
                if f.params[n] == v:
                    near += [(i.fn.name, i.args[n][1]) for i in eng.prog.callers(f) if n < len(i.args) and i.args[n][0] == 'v']
            for k in near:
                if k not in out:
                    out.add(k)
                    work.append(k)
    return out


class Handle:
    def __init__(self, site):
        self.site = site
        self.keys = escapes(site) if site is not None else set()
        self.cell = None        # address of the only place that holds the handle

    def load(self, q, fn, i, env):
        return TOK if field_key(fn, i.args[0]) in self.keys else None

    def is_it(self, q, fn, o, env, tok=TOK):
        if q.value(fn, o, env) == tok:
            return True
        if self.cell is not None and o[0] == 'v':
            d = fn.defs.get(o[1])
            if d is not None and d.op == 'load' and q.value(fn, d.args[0], env) == self.cell:
                return True
        if self.keys and o[0] == 'v':
            d = fn.defs.get(o[1])
            if d is not None and d.op == 'load' and field_key(fn, d.args[0]) in self.keys:
                return True
        return False


def root(e, i):
    """output is the root rank's business: judge it there"""
    return absint.const(0) if i.x in ('mpp_pe', 'mpp_root_pe') else None


def io_module(P):
    for m in P.mods:
        if 'mpp_open' in m.funcs and 'mpp_close' in m.funcs:
            return m
    return None


def opens(eng, actions=(MPP_WRITE, MPP_APPEND)):
    """sites that open an output through the shared library; a non-constant action counts as output"""
    out = []
    for i in faults.live_calls(eng):
        if i.x == 'mpp_open' and len(i.args) > 1:
            c = eng.consts(i.fn, i.args[1])
            if c is None or c & set(actions):
                out.append(i)
    return out


def skip(q, fn, i, env, mem):
    return absint.TOP


def opaque(io):
    """library operations on files do not change what the program knows about its handles"""
    md = {f: skip for f in io.funcs if f != 'netcdf_error'}
    md['mpp_pe'] = md['mpp_root_pe'] = lambda q, fn, i, env, mem: absint.const(0)
    return md
