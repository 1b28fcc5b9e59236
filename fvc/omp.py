"""Which shared memory do the threads of an OpenMP region write and read?

Integers and addresses are evaluated to linear polynomials over symbols; `i % n` is rewritten as
`i - n * (i / n)`, so that a row and a column computed from the loop index cancel out again."""
import re

IV = 'IV'
EXCL = re.compile(r'__kmpc_(critical|reduce|reduce_nowait|single|master|masked|ordered)$')
EXCL_END = re.compile(r'__kmpc_end_')
INIT = re.compile(r'__kmpc_for_static_init_|__kmpc_dispatch_next_')


def add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if not r[m]:
            del r[m]
    return r


def mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=repr))
            r[k] = r.get(k, 0) + c * d
            if not r[k]:
                del r[k]
    return r


def con(c):
    return {(): c} if c else {}


def atom(a):
    return {(a,): 1}


def freeze(p):
    return tuple(sorted(p.items(), key=repr))


def atoms(p):
    for m in p:
        for a in m:
            yield a


class Region:
    """one parallel region; collects .writes and .reads as (base, poly, ins, value) and .statics"""

    def __init__(self, prog, fn):
        self.prog = prog
        self.fn = fn
        self.writes = []
        self.reads = []
        self.statics = []
        self.depth = 0
        self.iters = 0
        self.ids = {}
        self.stored = set()
        self.nfun = set()
        args = {}
        for k, p in enumerate(fn.params):
            if fn.ptys[k] == 'ptr':
                args[p] = ('addr', ('gtid',) if k < 2 else ('var', k), con(0))
            else:
                args[p] = ('int', atom(('firstprivate', k)))
        self.visit(fn, args, ())

    # ------------------------------------------------------------------ evaluation
    def uniq(self, key, tag):
        """a symbol for a private value: the same instruction in the same context"""
        return (tag, self.ids.setdefault(key, len(self.ids)))

    def val(self, fr, o):
        if o[0] == 'c':
            return ('int', con(o[1]))
        if o[0] == 'g':
            return ('addr', ('glob', o[1]), con(o[2]))
        if o[0] in ('null', 'undef', 'f'):
            return ('int', con(0))
        if o[0] != 'v':
            return ('int', atom(self.uniq((o, fr.ctx), 'x')))
        v = fr.memo.get(o[1])
        if v is not None:
            return v
        if o[1] in fr.args:
            return fr.args[o[1]]
        d = fr.fn.defs.get(o[1])
        if d is None:
            return ('int', atom(self.uniq((o, fr.ctx), 'x')))
        fr.memo[o[1]] = self.fresh(fr, d)
        v = self.eval(fr, d)
        fr.memo[o[1]] = v
        return v

    def fresh(self, fr, d):
        return ('int', atom(self.uniq((fr.fn, d.dst, fr.ctx), 'p')))

    def eval(self, fr, d):
        op = d.op
        if op == 'alloca':
            return ('addr', ('priv', fr.fn, d.dst, fr.ctx), con(0))
        if op in ('sext', 'zext', 'trunc', 'bitcast', 'freeze', 'inttoptr', 'ptrtoint'):
            return self.val(fr, d.args[0])
        if op in ('add', 'sub', 'mul'):
            a, b = self.val(fr, d.args[0]), self.val(fr, d.args[1])
            if a[0] == 'int' and b[0] == 'int':
                return ('int', mul(a[1], b[1]) if op == 'mul' else add(a[1], b[1], 1 if op == 'add' else -1))
            return self.fresh(fr, d)
        if op in ('sdiv', 'udiv', 'srem', 'urem'):
            a, b = self.val(fr, d.args[0]), self.val(fr, d.args[1])
            if a[0] == 'int' and b[0] == 'int':
                q = atom(('div', freeze(a[1]), freeze(b[1])))
                return ('int', q if op.endswith('div') else add(a[1], mul(b[1], q), -1))
            return self.fresh(fr, d)
        if op == 'shl' and d.args[1][0] == 'c':
            a = self.val(fr, d.args[0])
            return ('int', mul(a[1], con(1 << d.args[1][1]))) if a[0] == 'int' else a
        if op == 'getelementptr':
            b = self.val(fr, d.args[0])
            if b[0] != 'addr':
                return ('addr', ('unk', d), con(0))
            off, var, _ = fr.fn.mod.gep_offset(d.ty, d.args[1:])
            p = add(b[2], con(off))
            for st, o in var:
                x = self.val(fr, o)
                p = add(p, x[1] if x[0] == 'int' else atom(self.uniq((fr.fn, d.dst, fr.ctx), 'p')), st)
            return ('addr', b[1], p)
        if op == 'phi' or op == 'select':
            src = [x for x, _ in d.x] if op == 'phi' else list(d.args[1:3])
            vs = []
            loop = op == 'phi' and fr.fn.loops() and any(self.is_lb(fr, x) for x in src)
            if loop:
                return ('int', atom((IV, self.iters)))
            me = self.fresh(fr, d)
            for x in src:
                v = self.val(fr, x)
                if v == me:
                    continue
                if v not in vs:
                    vs.append(v)
            if len(vs) == 1 and not (vs[0][0] == 'int' and any(a == list(atoms(me[1]))[0] for a in atoms(vs[0][1]))):
                return vs[0]
            bs = [v for v in vs if v[0] == 'addr']
            if bs:
                base = bs[0][1]
                if all(b[1] == base for b in bs):
                    return ('addr', base, me[1])
                if all(b[1][0] == 'priv' for b in bs):
                    return ('addr', ('priv', fr.fn, d.dst, fr.ctx), con(0))
                return ('addr', ('unk', d), me[1])
            return me
        if op == 'load':
            a = self.val(fr, d.args[0])
            if a[0] != 'addr':
                return self.pt(fr, d, ('unk', d))
            b, p = a[1], a[2]
            if b[0] == 'gtid':
                return ('int', atom(('tid',)))
            if b[0] in ('var', 'glob', 'mem', 'fld'):
                if d.ty == 'ptr':
                    return ('addr', ('mem', b, freeze(p)), con(0))
                return ('int', atom(('ld', b, freeze(p))))
            if d.ty == 'ptr':
                w = self.priv_ptr(fr, b, d)
                return w or self.pt(fr, d, ('unk', d))
            if self.lb_alloca(fr, b):
                return ('int', atom((IV, self.iters)))
            return self.fresh(fr, d)
        if op == 'call':
            if d.x == 'omp_get_thread_num' or d.x == '__kmpc_global_thread_num':
                return ('int', atom(('tid',)))
            if d.x in ('omp_get_num_threads', 'omp_get_max_threads'):
                return ('int', atom(('nthreads',)))
            if d.x in ('malloc', 'calloc', 'realloc'):
                return ('addr', ('priv', fr.fn, d.dst, fr.ctx), con(0))
            g = self.prog.resolve(fr.fn, d.x)
            if g is not None and d.ty == 'i32' and not d.args and self.constant(g):
                return ('int', atom(('call', d.x)))
            if d.ty == 'ptr':
                return ('addr', ('priv', fr.fn, d.dst, fr.ctx), con(0)) if g is None else ('addr', ('unk', d), con(0))
        return self.fresh(fr, d)

    def pt(self, fr, d, b):
        return ('addr', b, con(0)) if d.ty == 'ptr' else self.fresh(fr, d)

    def constant(self, g):
        """a function that only reads a variable of the library"""
        return not any(i.op in ('store', 'call') for i in g.instrs() if not (i.op == 'call' and (i.x or '').startswith('llvm.')))

    def priv_ptr(self, fr, b, d):
        """a pointer kept in a private variable: the only pointer ever put there"""
        if b[0] != 'priv' or b[1] is not fr.fn:
            return None
        vs = []
        for i in fr.fn.instrs():
            if i.op == 'store' and i.args[1] == ('v', b[2]):
                v = self.val(fr, i.args[0])
                if v not in vs:
                    vs.append(v)
        return vs[0] if len(vs) == 1 and vs[0][0] == 'addr' else None

    def lb_alloca(self, fr, b):
        if b[0] != 'priv' or b[1] is not fr.fn:
            return False
        for i in fr.fn.instrs():
            if i.op == 'call' and INIT.match(i.x or ''):
                k = 4 if 'static' in i.x else 3
                if i.args[k] == ('v', b[2]):
                    return True
        return False

    def is_lb(self, fr, o):
        d = fr.fn.defs.get(o[1]) if o[0] == 'v' else None
        while d is not None and d.op in ('sext', 'zext', 'trunc'):
            d = fr.fn.defs.get(d.args[0][1]) if d.args[0][0] == 'v' else None
        if d is None or d.op != 'load' or d.args[0][0] != 'v':
            return False
        a = fr.fn.defs.get(d.args[0][1])
        return a is not None and a.op == 'alloca' and self.lb_alloca(fr, ('priv', fr.fn, a.dst, fr.ctx))

    # ------------------------------------------------------------------ effects
    def visit(self, fn, args, ctx):
        if len(ctx) > 12:
            raise RuntimeError('calls nested too deeply in a parallel region')
        self.nfun.add(fn)
        fr = Frame(fn, args, ctx)
        excl = self.exclusive(fn)
        for i in fn.instrs():
            if i in excl:
                continue
            if i.op == 'store':
                self.access(fr, i, i.args[1], self.writes, self.val(fr, i.args[0]))
            elif i.op == 'load':
                self.access(fr, i, i.args[0], self.reads, None)
            elif i.op == 'call' and i.x and not i.x.startswith(('llvm.dbg', 'llvm.lifetime', '__kmpc', 'omp_')):
                self.call(fr, i)

    def call(self, fr, i):
        g = self.prog.resolve(fr.fn, i.x)
        if g is None:
            if i.x.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')) or i.x in ('memcpy', 'memset', 'memmove', 'strcpy', 'sprintf'):
                self.access(fr, i, i.args[0], self.writes, None)
            elif i.x in ('strtok', 'rand', 'srand', 'drand48', 'localtime', 'ctime', 'gmtime'):
                self.statics.append((i, i.x))
            return
        if g is fr.fn or any(c[0] is g for c in fr.ctx):
            raise RuntimeError('recursion in a parallel region')
        if not self.prog_may_return(g):
            return
        args = {}
        for k, p in enumerate(g.params):
            args[p] = self.val(fr, i.args[k]) if k < len(i.args) else ('int', con(0))
        self.visit(g, args, fr.ctx + ((fr.fn, i.bb.label, i.idx),))

    def prog_may_return(self, g):
        c = self.prog.__dict__.setdefault('_omp_ret', {})
        if g not in c:
            c[g] = True
            from . import absint
            eng = self.prog.__dict__.setdefault('_omp_eng', absint.Engine(self.prog))
            c[g] = any(i.op == 'ret' and eng.executable(i.bb) for i in g.instrs())
        return c[g]

    def exclusive(self, fn):
        """instructions only one thread at a time (or only one thread) executes"""
        starts = [i for i in fn.instrs() if i.op == 'call' and EXCL.match(i.x or '')]
        ends = [i for i in fn.instrs() if i.op == 'call' and EXCL_END.match(i.x or '')]
        if not starts:
            return frozenset()
        r = set()
        for i in fn.instrs():
            for s in starts:
                if fn.ins_dominates(s, i) and not any(fn.ins_dominates(s, e) and fn.ins_dominates(e, i) for e in ends):
                    r.add(i)
        return r

    def access(self, fr, i, o, out, value):
        a = self.val(fr, o)
        if a[0] != 'addr':
            out.append((('unk', i), con(0), i, value))
            return
        b = a[1]
        if b[0] in ('priv', 'gtid'):
            return
        if b[0] == 'glob':
            if out is self.writes:
                self.statics.append((i, b[1]))
            return
        out.append((b, a[2], i, value))


class Frame:
    def __init__(self, fn, args, ctx):
        self.fn = fn
        self.args = args
        self.ctx = ctx
        self.memo = {}


def regions(prog):
    """the functions clang made of the parallel regions"""
    for f in list(prog.functions()):
        for i in f.calls():
            if i.x == '__kmpc_fork_call' and i.args[2][0] == 'g':
                g = prog.resolve(f, i.args[2][1])
                # with debug information the outlined function only calls the real one
                h = g.mod.funcs.get(g.name.replace('.omp_outlined', '.omp_outlined_debug__'))
                inner = [c for c in g.calls() if '.omp_outlined_debug__' in (c.x or '')]
                yield f, i, (g.mod.funcs[inner[0].x] if inner else h or g)


def iteration_of(poly, written):
    """'own' if no two iterations of the parallel loop can use the same address, given the polynomial;
    'slot' if it is offset by an entry of a per-iteration table"""
    iv = 0
    slot = False
    rest = []
    for m, c in poly.items():
        if len(m) == 1 and m[0][0] in (IV, 'tid'):
            iv += abs(c)
        elif len(m) == 1 and m[0][0] == 'ld' and table(m[0]) and m[0][1] not in written:
            slot = True
        elif len(m) == 1 and m[0][0] == 'ld' and table(m[0]):
            rest.append('p')
        elif any(depends(a) for a in m):
            rest.append('d')
        elif any(a[0] in ('p', 'x') for a in m):
            rest.append('p')
    if 'd' in rest:
        return None
    if slot:
        return 'slot'
    return 'own' if iv else None


def table(a):
    """a load from shared memory at an address of its own for each iteration"""
    p = dict(a[2])
    return bool(p) and iteration_of(p, ()) == 'own'


def depends(a):
    if a[0] == IV or a[0] == 'tid':
        return True
    if a[0] == 'div':
        return any(depends(x) for p in a[1:] for m, _ in p for x in m)
    if a[0] == 'ld':
        return any(depends(x) for m, _ in a[2] for x in m)
    return False


def uniform(value, written):
    """the same value in every thread"""
    if value is None:
        return False
    p = value[1] if value[0] == 'int' else value[2]
    if value[0] == 'addr' and value[1][0] in ('unk', 'priv'):
        return False
    return not any(depends(a) or a[0] in ('p', 'x') or (a[0] == 'ld' and a[1] in written) for a in atoms(p))


def compatible(a, b):
    """two addresses, each its iteration's own: can they be the same in different iterations?"""
    d = add(a, b, -1)
    if not d:
        return True
    if any(depends(x) for x in atoms(d)):
        return False
    if set(d) == {()}:
        iv = sum(c for m, c in a.items() if len(m) == 1 and m[0][0] in (IV, 'tid'))
        return abs(d[()]) < abs(iv)
    return True


def conflicts(r):
    """[(ins, text)] for a Region"""
    out = []
    for i, n in r.statics:
        out.append((i, 'writes the static object %s, which all threads share' % n))
    written = set(w[0] for w in r.writes)
    own = {}
    for b, p, i, v in r.writes:
        if b[0] == 'unk':
            out.append((i, None))
            continue
        k = iteration_of(p, written)
        if k is None:
            if b[0] == 'var' and not p and uniform(v, written):
                continue
            out.append((i, 'different iterations (threads) can write the same shared element'))
            continue
        own.setdefault(b, []).append((k, p, i))
    for b, ws in own.items():
        for k, p, i in ws:
            if k == 'own' and not all(x[0] == 'own' and compatible(p, x[1]) for x in ws):
                out.append((i, 'an iteration can write an element another one writes'))
    for b, p, i, _ in r.reads:
        if b in own:
            k = iteration_of(p, written)
            ws = own[b]
            if k is None or not any(x[0] == k and (k == 'slot' or compatible(p, x[1])) for x in ws):
                out.append((i, 'reads a shared element another iteration (thread) may write'))
    return out
