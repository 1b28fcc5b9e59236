"""C18: values of every netCDF type are moved by operations made for that type."""
import re

from .. import absint, faults, handles as H, par, project
from . import outputs

TYPES = {1: 'NC_BYTE', 2: 'NC_CHAR', 3: 'NC_SHORT', 4: 'NC_INT', 5: 'NC_FLOAT', 6: 'NC_DOUBLE', 10: 'NC_INT64', 12: 'NC_STRING'}
INQ = {'nc_inq_vartype': 2, 'nc_inq_var': 3, 'nc_inq_atttype': 3, 'nc_inq_att': 3, 'ncvarinq': 3, 'ncattinq': 3}
ACC = re.compile(r'nc_(get|put)_(var|var1|vara|vars|varm|att)_(text|schar|uchar|short|int|long|float|double|ubyte|ushort|uint|longlong|ulonglong|string)$')
# in memory laid out for the type
EXACT = {1: {'text', 'schar', 'uchar', 'ubyte', 'i8'}, 2: {'text', 'schar', 'uchar', 'i8'}, 3: {'short', 'i16'}, 4: {'int', 'i32'},
         5: {'float', 'double'}, 6: {'double'}, 10: {'longlong', 'i64'}, 12: {'string'}}
# held without loss
HOLDS = {1: EXACT[1] | {'short', 'int', 'long', 'longlong', 'float', 'double', 'i16', 'i32', 'i64'}, 2: EXACT[2],
         3: {'short', 'int', 'long', 'longlong', 'float', 'double', 'i16', 'i32', 'i64'},
         4: {'int', 'long', 'longlong', 'double', 'i32', 'i64'}, 5: EXACT[5], 6: EXACT[6], 10: {'longlong', 'long', 'i64'}, 12: {'string'}}
BUDGET = 3000000


def key(fn, o, depth=0):
    """(structure, field) of an address, whatever run-time indices it has"""
    d = fn.defs.get(o[1]) if o[0] == 'v' else None
    if d is None or depth > 6:
        return None
    if d.op in ('bitcast', 'freeze'):
        return key(fn, d.args[0], depth + 1)
    if d.op == 'getelementptr':
        if d.ty.startswith('%') and len(d.args) > 2 and d.args[2][0] == 'c':
            return (d.ty.split('.')[1] if '.' in d.ty else d.ty, tuple(a[1] for a in d.args[2:] if a[0] == 'c')[:1])
        return key(fn, d.args[0], depth + 1)
    return None


def traced(fn, o, keys, funcs, depth=0):
    """is the value a type read from a file?"""
    d = fn.defs.get(o[1]) if o[0] == 'v' else None
    if d is None or depth > 6:
        return False
    if d.op == 'load':
        k = key(fn, d.args[0])
        if k is not None:
            return k in keys
        a = fn.defs.get(d.args[0][1]) if d.args[0][0] == 'v' else None
        return a is not None and a.op == 'alloca' and any(
            i.op == 'store' and i.args[1] == d.args[0] and traced(fn, i.args[0], keys, funcs, depth + 1) or
            i.op == 'call' and i.x in INQ and i.args[INQ[i.x]] == d.args[0] for i in fn.instrs())
    if d.op == 'call':
        return d.x in funcs
    if d.op in ('phi', 'select', 'freeze', 'sext', 'zext', 'trunc'):
        return any(traced(fn, a, keys, funcs, depth + 1) for a in (d.args if d.op != 'phi' else [v for v, _ in d.x]))
    return False


def type_fields(eng):
    keys, funcs = set(), set()
    for i in faults.live_calls(eng):
        if i.x in INQ:
            k = key(i.fn, i.args[INQ[i.x]])
            if k is not None:
                keys.add(k)
    while True:
        n = len(keys), len(funcs)
        for f in faults._reach(eng):
            for i in f.instrs():
                if i.op == 'store' and traced(f, i.args[0], keys, funcs):
                    k = key(f, i.args[1])
                    if k is not None:
                        keys.add(k)
                elif i.op == 'ret' and i.args and traced(f, i.args[0], keys, funcs):
                    funcs.add(f.name)
        if n == (len(keys), len(funcs)):
            return keys, funcs


class Run(absint.Query):
    """a run in which every variable and every attribute has one type"""
    def __init__(self, eng, T, keys, **kw):
        md = {k: self.inq for k in INQ}
        md['mpp_pe'] = md['mpp_root_pe'] = lambda q, fn, i, env, mem: absint.const(0)
        super().__init__(eng, models=md, loads=lambda q, fn, i, env: absint.const(T) if key(fn, i.args[0]) in keys else None,
                         budget=BUDGET, **kw)
        self.T = T
        self.edges = set()
        self.blocks = set()

    def inq(self, q, fn, i, env, mem):
        for k, o in enumerate(i.args[:1] + i.args[1:]):
            v = self.value(fn, o, env)
            if v[0] == 'P' and k >= 2:
                if k == INQ[i.x] and v[2] is not None:
                    self.setm((v[1], v[2]), absint.const(self.T), mem)
                else:
                    self.havoc(v[1], mem)
        return absint.TOP

    def edge(self, fn, b, s, env, mem, push):
        self.edges.add((b, s))
        self.blocks.add(b)
        self.blocks.add(s)
        return super().edge(fn, b, s, env, mem, push)


def one(eng, T, keys):
    q = Run(eng, T, keys)
    try:
        q.from_entry()
    except Exception as e:
        return str(e)
    return q


SIZE = {1: 1, 2: 1, 3: 2, 4: 4, 5: 4, 6: 8}
RAW = {'i8': 1, 'i16': 2, 'i32': 4, 'float': 4, 'double': 8}
KIND = {1: 'i8', 2: 'i8', 3: 'i16', 4: 'i32', 5: 'float', 6: 'double'}
VALUE = {'mpp_get_var_value', 'mpp_get_var_value_block', 'mpp_put_var_value', 'mpp_put_var_value_block'}
MEMCPY = ('memcpy', 'memmove', 'llvm.memcpy', 'llvm.memmove', '__memcpy_chk')


def ipdoms(fn):
    """immediate postdominators among the blocks from which the function can return"""
    live, todo = set(), [b for b in fn.blocks.values() if b.ins and b.ins[-1].op == 'ret']
    exits = set(todo)
    while todo:
        b = todo.pop()
        if b not in live:
            live.add(b)
            todo += b.pred
    pd = {b: ({b} if b in exits else set(live)) for b in live}
    ch = True
    order = list(reversed([b for b in fn.blocks.values() if b in live]))
    while ch:
        ch = False
        for b in order:
            if b in exits:
                continue
            n = {b} | set.intersection(*[pd[s] for s in b.succ if s in live])
            if n != pd[b]:
                pd[b] = n
                ch = True
    out = {}
    for b in live:
        c = pd[b] - {b}
        out[b] = next((x for x in c if len(pd[x]) == len(c)), None)
    return out, live


def width(fn, o):
    """the element size a byte count is a multiple of (1 when not seen)"""
    d = fn.defs.get(o[1]) if o[0] == 'v' else None
    if d is None:
        return None
    if d.op == 'mul':
        c = [a[1] for a in d.args if a[0] == 'c']
        return c[0] if c else None
    if d.op == 'shl' and d.args[1][0] == 'c':
        return 1 << d.args[1][1]
    return 1


def own(fn, o, depth=0):
    """is the memory a variable or an allocation of this function?"""
    d = fn.defs.get(o[1]) if o[0] == 'v' else None
    if d is None or depth > 6:
        return o[0] == 'g'
    if d.op in ('getelementptr', 'bitcast', 'freeze'):
        return own(fn, d.args[0], depth + 1)
    return d.op == 'alloca' or d.op == 'call' and d.x in ('malloc', 'calloc', 'realloc')


# what the shared library's data operations expect in memory for each type
BUFFER = {'double': {5, 6}, 'float': set(), 'int': {4}, 'short': {3}, 'char': {1, 2}, 'long': set()}


def marked(i):
    """element type of the buffer given to a data operation of the shared library (see support/typed.h)"""
    o = i.args[-1]
    d = i.fn.defs.get(o[1]) if o[0] == 'v' else None
    if d is None or d.op != 'call' or not d.x or not d.x.startswith('fvc_typed_'):
        return None
    k = d.x[len('fvc_typed_'):]
    return k if k in BUFFER else None


class Access:
    """something that moves values: what = nc call, wrapper, copy loop element or memcpy"""
    def __init__(self, i, what, kind):
        self.i = i
        self.what = what
        self.kind = kind

    def fits(self, T):
        if self.kind is None:
            return True
        if self.what == 'wrapper':
            return T in BUFFER[self.kind]
        if self.what == 'nc':
            return self.kind in (HOLDS if own(self.i.fn, self.i.args[-1]) else EXACT)[T]
        if self.what == 'copy':
            return self.kind == KIND.get(T)
        return self.kind == SIZE.get(T)

    def text(self):
        return '%s with a buffer of %s' % (self.i.x, self.kind) if self.what == 'wrapper' else self.i.x if self.i.op == 'call' else 'a copy of %s values' % self.kind


def accesses(P, blocks, movers):
    out = {}
    for b in blocks:
        for i in b.ins:
            a = None
            if i.op == 'call' and i.x:
                m = ACC.match(i.x)
                if m:
                    a = Access(i, 'nc', m.group(3))
                elif i.x in VALUE:
                    a = Access(i, 'wrapper', marked(i))
                elif i.x in movers:
                    a = Access(i, 'wrapper', None)
                elif i.x.startswith(MEMCPY) and len(i.args) > 2:
                    a = Access(i, 'memcpy', width(i.fn, i.args[2]))
            elif i.op == 'store' and i.args[0][0] == 'v':
                d = i.fn.defs.get(i.args[0][1])
                if d is not None and d.op == 'load' and d.ty in RAW and not local(i.fn, i.args[1]):
                    a = Access(i, 'copy', d.ty)
            if a is not None:
                out[i] = a
    return out


def local(fn, o):
    d = fn.defs.get(o[1]) if o[0] == 'v' else None
    if o[0] == 'g':
        return True
    if d is not None and d.op == 'getelementptr':
        return local(fn, d.args[0])
    return d is not None and d.op == 'alloca'


def movers_of(P):
    """functions of the program that contain typed operations"""
    out = set()
    for f in P.functions():
        if any(i.x and (ACC.match(i.x) or i.x in VALUE) for i in f.calls()):
            out.add(f.name)
    return out


def region(b, end, edges):
    seen, todo = set(), list(edges.get(b, ()))
    while todo:
        x = todo.pop()
        if x is end or x in seen or x is b:
            continue
        seen.add(x)
        todo += edges.get(x, ())
    return seen


def judge(P, fn, runs, movers):
    """runs: {T: Run}.  yields (ok, dispatch block, T, text)"""
    per = {T: {} for T in runs}
    fns = set()
    for T, q in runs.items():
        for a, b in q.edges:
            per[T].setdefault(a, set()).add(b)
            fns.add(a.fn)
    for f in sorted(fns, key=lambda f: f.name):
        forks = []
        for b in f.blocks.values():
            if len(set(b.succ)) < 2:
                continue
            ss = {T: frozenset(per[T].get(b, ())) for T in runs}
            ss = {T: s for T, s in ss.items() if s}
            if len(ss) > 1 and len(set(ss.values())) > 1 and all(len(s) == 1 for s in ss.values()):
                forks.append((b, ss))
        if not forks:
            continue
        ip, live = ipdoms(f)
        for b, ss in forks:
            if b not in live:
                continue
            end = ip.get(b)
            reg = {T: region(b, end, per[T]) for T in ss}
            allb = set().union(*reg.values())
            acc = accesses(P, allb, movers - {f.name})
            by = {T: {i for i in acc if i.bb in reg[T]} for T in ss}
            cond = {i for i in acc if any(i not in by[T] for T in ss)}
            for T in ss:
                for i in sorted(by[T] & cond, key=lambda i: i.loc()):
                    if T in SIZE:
                        yield (acc[i].fits(T), f, i, T, 'values of type %s are moved by %s' % (TYPES[T], acc[i].text()))
            handled = {T for T in ss if by[T] & cond}
            if len(handled) < 3 or len({frozenset(by[T] & cond) for T in handled}) < 2:
                continue
            calls = any(acc[i].what in ('nc', 'wrapper') for i in cond)
            for T in ss:
                if T not in SIZE and not calls:
                    continue
                stops = {i.bb for i in by[T] & cond}
                if not calls and by[T] & cond:
                    yield (True, f, b.ins[-1], T, '')
                    continue
                # a way from the fork past its end that moves nothing
                seen, todo, past = set(), [b], False
                while todo and not past:
                    x = todo.pop()
                    for y in per[T].get(x, ()):
                        if y is end or end is None and y.ins[-1].op == 'ret' and y not in stops:
                            past = True
                        elif y not in seen and y not in stops:
                            seen.add(y)
                            todo.append(y)
                yield (not past, f, b.ins[-1], T, 'values of type %s can be passed by without being moved or refused' % TYPES[T])


def dispatch(eng, keys, movers, f):
    runs = {}
    for T in TYPES:
        q = Run(eng, T, keys)
        try:
            q.run(f, (f.entry, 0), {}, {})
        except Exception as e:
            return str(e)
        runs[T] = q
    return [(ok, i.fn.name, i.loc(), T, text, i.bb.label, i.idx) for ok, g, i, T, text in judge(eng.prog, f, runs, movers)]


def buffers(eng, io, d):
    """data operations on the variable one definition makes, with the types of their buffers"""
    P = eng.prog
    h, env = outputs.handle_of(d.fn, d.args[0])
    v = H.Handle(d)
    name = P.cstr(d.fn, d.args[1])
    hit = {}

    def put(q, fn, i, env, mem):
        if v.is_it(q, fn, i.args[outputs.PUT[i.x][1]], env, H.VAR) and (not v.keys or len(v.keys) and exact(q, fn, i, env)):
            hit[i] = marked(i)
        return absint.TOP

    def exact(q, fn, i, env):
        # a table of ids: the entry must be the one of this definition
        return q.value(fn, i.args[outputs.PUT[i.x][1]], env) == H.VAR

    def byname(q, fn, i, env, mem):
        if not h.is_it(q, fn, i.args[0], env):
            return absint.TOP
        t = P.cstr(fn, i.args[1])
        return H.VAR if t is not None and t == name else absint.TOP
    md = H.opaque(io)
    for p in outputs.PUT:
        md[p] = put
    md['mpp_get_varid'] = byname
    md['mpp_close'] = lambda q, fn, i, env, mem: 'noreturn' if h.is_it(q, fn, i.args[0], env) else absint.TOP
    if d.dst is not None:
        env[d.dst] = H.VAR
    r = outputs.run(eng, md, lambda q: q.from_point(d.fn, d.bb, d.idx + 1, env, {}), once=True, first=False)
    if r[0] == 'unknown':
        return r[1]
    return list(hit.items())


MISMATCH = re.compile(r"^(\S+?):(\d+):\d+: warning: incompatible pointer types passing '([^']*?)( \(aka [^)]*\))?' to parameter of type '([^']*?)'")
SCALAR = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8,
          'unsigned long': 8, 'long long': 8, 'unsigned long long': 8, 'size_t': 8, 'float': -4, 'double': -8}


def scalar(t):
    t = re.sub(r'\b(const|restrict|volatile)\b', '', t)
    m = re.match(r'^\s*([\w ]+?)\s*(\*|\[\d*\])\s*$', t)
    return SCALAR.get(m.group(1).strip()) if m else None


def pointers(L, units):
    """buffers of numbers handed to functions that take another type of number, as the type checker sees them"""
    def one(u):
        return [m.groups() for m in map(MISMATCH.match, project.diagnose(L.repo, u, ['-Wincompatible-pointer-types'])) if m]
    for u, r in zip(units, par.pmap(one, units)):
        for f, line, got, _, want in r:
            a, b = scalar(got), scalar(want)
            if a is not None and b is not None and a != b:
                yield u, f, line, got, want


def c18(rep):
    rep.rule = ('(1) with every variable and attribute taken to have one netCDF type, for each type in turn: each operation that is '
                'reached only for some types is one made for the type (accessor suffix, element size copied, buffer type), and where a '
                'choice by type handles three types or more, every other type is refused before the choice ends; (2) every buffer handed '
                'to a data-writing operation has the element type its variable was defined with; (3) no buffer of numbers is passed where the '
                'type checker expects another type of number')
    rep.assumptions = ['types beyond the classic six are refused by the netCDF library where the output is in the classic model (mppnccombine)',
                       'parallel tools are judged on the root rank', 'variable ids kept in run-time tables are not followed in (2)']
    L = project.Layout()
    S = project.Store(L, typed=True)
    progs = L.c_programs()
    S.need([u for p in progs for u in L.units(p)])
    nd = nv = 0
    done = set()
    units = sorted({u for p in progs for u in L.units(p)}, key=str)
    wrong = list(pointers(L, units))
    for u, f, line, got, want in wrong:
        rep.bad('pointer|%s' % u[0], '%s:%s: a buffer of type %s is given to an operation on %s' % (f, line, got, want))
    for u in units:
        if u not in {w[0] for w in wrong}:
            rep.ok('%s: no buffer of numbers is given to an operation on another type' % u[0])
    rep.count('source files', len(units))
    for p in progs:
        P = project.load(L, S, p)
        eng = absint.Engine(P, assume=H.root)
        keys, funcs = type_fields(eng)
        movers = movers_of(P)
        io = H.io_module(P)
        fs = [f for f in faults._reach(eng) if any(i.op == 'call' and (i.x in INQ or i.x in funcs) or
                                                   i.op == 'load' and key(f, i.args[0]) in keys for i in f.instrs())]
        fs = sorted((f for f in fs if f not in done), key=lambda f: f.name)
        done.update(f for f in fs if io is not None and f.mod is io)
        defs = [i for i in faults.live_calls(eng) if i.x == 'mpp_def_var' and io is not None and i.fn.mod is not io]
        outputs.warm(eng)
        rep.count('programs')
        rep.count('functions', len(faults._reach(eng)))
        seen = set()
        for f, r in zip(fs, par.pmap(lambda f: dispatch(eng, keys, movers, f), fs)):
            if isinstance(r, str):
                rep.unknown('%s: %s(): %s' % (p, f.name, r))
                continue
            for ok, g, loc, T, text, lab, idx in r:
                if (g, lab, idx, T, text) in seen:
                    continue
                seen.add((g, lab, idx, T, text))
                nd += 1
                if ok:
                    rep.ok('%s: %s() at %s, %s' % (p, g, loc, TYPES[T]))
                else:
                    rep.bad('%s|%s|%s' % (p, g, TYPES[T]), '%s: %s() at %s: %s' % (p, g, loc, text))
        for d, r in zip(defs, par.pmap(lambda d: [r] if isinstance(r := buffers(eng, io, d), str) else [
                (i.x, i.loc(), i.fn.name, k) for i, k in r], defs)):
            where = '%s: variable defined at %s in %s()' % (p, d.loc(), d.fn.name)
            c = eng.consts(d.fn, d.args[2])
            if r and isinstance(r[0], str):
                rep.unknown('%s: %s' % (where, r[0]))
                continue
            if c is None or not c:
                continue
            for x, loc, g, k in r:
                if k is None:
                    continue
                nv += 1
                name = P.cstr(d.fn, d.args[1]) or '(name known at run time)'
                if BUFFER[k] & c:
                    rep.ok('%s, written by %s at %s from %s' % (where, x, loc, k))
                else:
                    rep.bad('%s|buffer|%s' % (p, name), '%s: "%s" is defined as %s, but %s at %s in %s() is given a buffer of %s' % (
                        where, name, '/'.join(TYPES.get(t, str(t)) for t in sorted(c)), x, loc, g, k))
    rep.count('typed operations', nd)
    rep.count('buffers written', nv)
    rep.floor('typed operations', nd, 450)
    rep.floor('buffers written', nv, 150)
