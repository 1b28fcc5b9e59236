"""Interprocedural abstract interpretation (interval x non-zero x pointer) over the SSA IR.

Used to answer questions of the form: "suppose this call fails; on every path from there, what
can happen?"  Nothing is executed and no solver is used: it is a forward dataflow analysis with
joins at merge points, widening, branch refinement and inlined, memoised callee analysis.
"""
import heapq
import re

from .llir import Ins

TOP = (None, None, False)
NZ = (None, None, True)
BOOL = (0, 1, False)


def const(n):
    return (n, n, n != 0)


def rng(lo, hi, nz=False):
    if nz:
        if lo == 0:
            lo = 1
        if hi == 0:
            hi = -1
    elif (lo is not None and lo > 0) or (hi is not None and hi < 0):
        nz = True
    return (lo, hi, nz)


def is_ptr(v):
    return v[0] == 'P'


def isnz(v):
    return len(v[1]) != 4 if v[0] == 'P' else v[2]


def maynull(v):
    """pointer parameter for which some caller may pass NULL (or leave an optional argument out)"""
    return v[0] == 'P' and len(v[1]) == 4


def iszero(v):
    return v[0] == 0 and v[1] == 0


def iv(v):
    return (TOP if len(v[1]) == 4 else NZ) if v[0] == 'P' else v


def isconst(v):
    return v[0] != 'P' and v[0] is not None and v[0] == v[1]


def join(a, b):
    if a == b:
        return a
    if a[0] == 'P' and b[0] == 'P' and a[1] == b[1]:
        return ('P', a[1], None)
    a = iv(a)
    b = iv(b)
    lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
    hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
    return rng(lo, hi, a[2] and b[2])


def widen(old, new):
    if old == new:
        return new
    if old[0] == 'P' or new[0] == 'P':
        return join(old, new)
    lo = new[0] if new[0] == old[0] else None
    hi = new[1] if new[1] == old[1] else None
    if new[0] is not None and old[0] is not None and new[0] >= 0 and lo is None:
        lo = 0
    return rng(lo, hi, new[2])


def leq(a, b):
    return join(a, b) == b


def meet(a, b):
    """None if empty"""
    if a[0] == 'P':
        return a if not iszero(b) else b if maynull(a) else None
    if b[0] == 'P':
        return a
    lo = a[0] if b[0] is None else b[0] if a[0] is None else max(a[0], b[0])
    hi = a[1] if b[1] is None else b[1] if a[1] is None else min(a[1], b[1])
    r = rng(lo, hi, a[2] or b[2])
    if r[0] is not None and r[1] is not None and r[0] > r[1]:
        return None
    return r


BITS = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}


def fits(v, ty):
    n = BITS.get(ty)
    if n is None or v[0] is None or v[1] is None:
        return False
    return v[0] >= -(1 << (n - 1)) and v[1] < (1 << n)


def binop(op, a, b, ty):
    a = iv(a)
    b = iv(b)
    if op == 'add':
        lo = None if a[0] is None or b[0] is None else a[0] + b[0]
        hi = None if a[1] is None or b[1] is None else a[1] + b[1]
        return rng(lo, hi)
    if op == 'sub':
        lo = None if a[0] is None or b[1] is None else a[0] - b[1]
        hi = None if a[1] is None or b[0] is None else a[1] - b[0]
        return rng(lo, hi)
    if op == 'mul':
        if iszero(a) or iszero(b):
            return const(0)
        if None not in (a[0], a[1], b[0], b[1]):
            c = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
            return rng(min(c), max(c))
        if a[0] is not None and b[0] is not None and a[0] >= 0 and b[0] >= 0:
            return rng(a[0] * b[0], None)
        return TOP
    if op == 'or':
        if isconst(a) and isconst(b):
            return const(a[0] | b[0])
        lo = None
        hi = None
        if a[0] is not None and b[0] is not None and a[0] >= 0 and b[0] >= 0:
            lo = max(a[0], b[0])
            if a[1] is not None and b[1] is not None:
                m = max(a[1], b[1])
                hi = (1 << m.bit_length()) - 1
        return rng(lo, hi, a[2] or b[2])
    if op == 'and':
        if isconst(a) and isconst(b):
            return const(a[0] & b[0])
        hs = [x[1] for x in (a, b) if x[0] is not None and x[0] >= 0 and x[1] is not None]
        if hs:
            return rng(0, min(hs))
        if (a[0] is not None and a[0] >= 0) or (b[0] is not None and b[0] >= 0):
            return (0, None, False)
        return TOP
    if op == 'xor':
        if isconst(a) and isconst(b):
            r = a[0] ^ b[0]
            if ty == 'i1':
                r &= 1
            return const(r)
        if ty == 'i1':
            return BOOL
        return TOP
    if op == 'shl' and isconst(a) and isconst(b) and 0 <= b[0] < 64:
        return const(a[0] << b[0])
    if op in ('lshr', 'ashr') and isconst(a) and isconst(b) and a[0] >= 0 and b[0] >= 0:
        return const(a[0] >> b[0])
    if op in ('sdiv', 'udiv') and isconst(a) and isconst(b) and b[0] != 0:
        q = abs(a[0]) // abs(b[0])
        return const(q if (a[0] >= 0) == (b[0] >= 0) else -q)
    if op in ('sdiv', 'udiv') and a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] > 0:
        return rng(0, a[1])
    if op in ('srem', 'urem') and isconst(b) and b[0] != 0:
        if isconst(a) and a[0] >= 0 and b[0] > 0:
            return const(a[0] % b[0])
        k = abs(b[0])
        return rng(0 if (a[0] is not None and a[0] >= 0) or op == 'urem' else -(k - 1), k - 1)
    return TOP


def icmp(pred, a, b):
    if a[0] == 'P' and b[0] == 'P':
        if a == b and a[2] is not None:
            return {'eq': const(1), 'ne': const(0)}.get(pred, BOOL)
        return BOOL
    if pred in ('eq', 'ne'):
        r = None
        if isconst(a) and isconst(b):
            r = a[0] == b[0]
        elif (iszero(a) and isnz(b)) or (iszero(b) and isnz(a)):
            r = False
        else:
            x = iv(a)
            y = iv(b)
            if (x[1] is not None and y[0] is not None and x[1] < y[0]) or (
                    y[1] is not None and x[0] is not None and y[1] < x[0]):
                r = False
        if r is None:
            return BOOL
        return const(int(r if pred == 'eq' else not r))
    a = iv(a)
    b = iv(b)
    if pred[0] == 'u':
        if not (a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] >= 0):
            return BOOL
        pred = 's' + pred[1:]
    if pred in ('sgt', 'sge'):
        a, b = b, a
        pred = 'slt' if pred == 'sgt' else 'sle'
    strict = pred == 'slt'
    if a[1] is not None and b[0] is not None and (a[1] < b[0] or (not strict and a[1] <= b[0])):
        return const(1)
    if a[0] is not None and b[1] is not None and (a[0] > b[1] or (strict and a[0] >= b[1])):
        return const(0)
    return BOOL


INV = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult',
       'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult',
        'ule': 'uge', 'uge': 'ule'}


def constrain(v, pred, c):
    """refine v by (v pred c); None if impossible"""
    if pred == 'eq':
        if v[0] == 'P':
            return (c if maynull(v) else None) if iszero(c) else v
        return meet(v, iv(c) if c[0] == 'P' else c)
    if pred == 'ne':
        if isconst(c):
            if isconst(v):
                return None if v[0] == c[0] else v
            if c[0] == 0:
                if iszero(v):
                    return None
                return v if v[0] == 'P' else rng(v[0], v[1], True)
            if v[0] == c[0]:
                return rng(v[0] + 1, v[1], v[2])
            if v[0] != 'P' and v[1] == c[0]:
                return rng(v[0], v[1] - 1, v[2])
        return v
    if v[0] == 'P' or c[0] == 'P':
        return v
    if pred[0] == 'u':
        if pred == 'ult' and c[1] is not None and c[1] >= 0 and c[0] is not None and c[0] >= 0 and v[0] is not None and v[0] >= 0:
            return meet(v, (None, c[1] - 1, False))
        if pred == 'ugt' and iszero(c):
            return constrain(v, 'ne', c)
        return v
    if pred == 'slt':
        return v if c[1] is None else meet(v, (None, c[1] - 1, False))
    if pred == 'sle':
        return v if c[1] is None else meet(v, (None, c[1], False))
    if pred == 'sgt':
        return v if c[0] is None else meet(v, (c[0] + 1, None, False))
    if pred == 'sge':
        return v if c[0] is None else meet(v, (c[0], None, False))
    return v


BIN = {'add', 'sub', 'mul', 'or', 'and', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'}
CASTS = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'}

# external functions that do not write through their pointer arguments
COMPARE = {'strcmp', 'strncmp', 'strcasecmp', 'strncasecmp'}


def readonly(name):
    name = name or ''
    return name in READONLY or name.startswith('nc_put_') or bool(F_READONLY.match(name))


# Fortran run-time output, and netCDF operations that only read their arguments
F_READONLY = re.compile(r'(_gfortran_transfer_\w+_write|_gfortran_st_write|_gfortran_compare_string|_gfortran_string_len_trim|'
                        r'nf_put_|nf_strerror_|__netcdf_MOD_nf90_(put_|strerror|close|sync|enddef|redef))')
READONLY = {'printf', 'puts', 'putchar', 'fprintf', 'fputs', 'fputc', 'perror', 'strlen', 'strcmp', 'strncmp', 'strcasecmp',
            'strchr', 'strrchr', 'strstr', 'atoi', 'atof', 'atol', 'unlink', 'remove', 'access', 'free', 'fflush', 'fclose',
            'nc_strerror', 'getenv', 'strdup', 'memcmp', 'fwrite', 'isspace', 'isdigit'}
WRITES_FIRST = {'sprintf', 'snprintf', 'strcpy', 'strcat', 'strncpy', 'strncat', 'memcpy', 'memset', 'memmove',
                'llvm.memcpy.p0.p0.i64', 'llvm.memset.p0.i64', 'llvm.memmove.p0.p0.i64', 'vsprintf', 'vsnprintf', 'fgets'}
EXITS = {'exit', '_exit', '_Exit', 'quick_exit'}
ABORTS = {'abort', '__assert_fail', 'MPI_Abort'}


NULLABLE_OPS = ('load', 'call')


class Engine:
    MAXDEPTH = 30

    def __init__(self, prog, exits=(), aborts=(), assume=None):
        self.prog = prog
        self.assume_ext = assume
        self.exits = EXITS | set(exits)
        self.aborts = ABORTS | set(aborts)
        self._base = {}
        self._ret = {}
        self._gl = {}
        self._glscan = None
        self._mayexit = None
        self._exec = {}
        self._stable = {}
        self._closure = {}
        self._nullable = None

    # ------------------------------------------------------------ base facts
    def gkey(self, fn, name):
        g = fn.mod.globals.get(name)
        if g is not None and g['internal']:
            return ('G', fn.mod.src, name)
        return ('G', '', name)

    def pbase(self, fn, k):
        """the object a pointer parameter points to; a fourth component marks one that may be NULL"""
        if self._nullable is None:
            self._nullable = self.scan_nullable()
        return ('P', fn, k, 1) if (fn, k) in self._nullable else ('P', fn, k)

    def scan_nullable(self):
        """pointer parameters that some call site may pass NULL for"""
        bad = set()
        dep = {}
        for f in self.prog.functions():
            for c in f.calls():
                g = self.prog.resolve(f, c.x)
                if g is None:
                    continue
                for k, a in enumerate(c.args):
                    if k >= len(g.params) or g.ptys[k] != 'ptr':
                        continue
                    src, nul = self.ptr_sources(f, a)
                    if nul:
                        bad.add((g, k))
                    for j in src:
                        dep.setdefault((f, j), set()).add((g, k))
        work = list(bad)
        while work:
            for x in dep.get(work.pop(), ()):
                if x not in bad:
                    bad.add(x)
                    work.append(x)
        return bad

    @staticmethod
    def ptr_sources(f, a):
        """(parameters of f the pointer may come from, may it be NULL otherwise)"""
        src = set()
        seen = set()
        todo = [a]
        nul = False
        while todo:
            o = todo.pop()
            if o in seen:
                continue
            seen.add(o)
            if o[0] in ('null', 'undef') or (o[0] == 'c' and o[1] == 0):
                nul = True
            if o[0] != 'v':
                continue
            if o[1] in f.params:
                src.add(f.params.index(o[1]))
                continue
            d = f.defs.get(o[1])
            if d is None:
                continue
            if d.op == 'phi':
                todo += [x for x, _ in d.x]
            elif d.op == 'select':
                todo += d.args[1:3]
            elif d.op in ('bitcast', 'inttoptr', 'ptrtoint', 'freeze'):
                todo.append(d.args[0])
            elif d.op in NULLABLE_OPS:
                nul = True
        return src, nul

    def scan_globals(self):
        if self._glscan is not None:
            return self._glscan
        esc = set()
        stores = {}
        init = {}
        for m in self.prog.mods:
            for n, g in m.globals.items():
                k = ('G', m.src, n) if g['internal'] else ('G', '', n)
                if g['init'] is not None:
                    init[k] = g
        for f in self.prog.functions():
            for i in f.instrs():
                for ai, a in enumerate(i.args):
                    if a and a[0] == 'g':
                        if a[1] in f.mod.funcs:
                            continue
                        k = self.gkey(f, a[1])
                        if i.op == 'load' and a[2] == 0:
                            continue
                        if i.op == 'store' and ai == 1 and a[2] == 0:
                            stores.setdefault(k, []).append((f, i))
                            continue
                        esc.add(k)
        self._glscan = (esc, stores, init)
        return self._glscan

    def global_range(self, key):
        if key in self._gl:
            return self._gl[key]
        self._gl[key] = TOP
        esc, stores, init = self.scan_globals()
        g = init.get(key)
        if g is None or (key in esc and not g.get('const')):
            return TOP
        t = g['init'].strip()
        if t in ('zeroinitializer', 'null', 'false'):
            v = const(0)
        elif t.lstrip('-').isdigit():
            v = const(int(t))
        else:
            return TOP
        if g['ty'] not in BITS and g['ty'] != 'ptr':
            return TOP
        for f, i in stores.get(key, ()):
            b0 = self.base(f, 0)
            if i.bb not in self._exec[(f, 0)]:
                continue
            o = i.args[0]
            v = join(v, b0.get(o[1], TOP) if o[0] == 'v' else self.opconst(f, o))
        self._gl[key] = v
        return v

    def base(self, fn, phase=1):
        """flow-insensitive value ranges of the SSA values of fn; phase 0 knows nothing about
        globals or callees and is used to find dead code under the engine's assumptions"""
        key = fn if phase else (fn, 0)
        r = self._base.get(key)
        if r is not None:
            return r
        r = {}
        self._base[key] = r
        for i, p in enumerate(fn.params):
            r[p] = ('P', self.pbase(fn, i), 0) if fn.ptys[i] == 'ptr' else TOP
        fn.idom()
        vals = {}
        for k, v in r.items():
            vals[k] = v
        visits = {}
        changed = True
        it = 0
        execb = {fn.entry}
        edges = set()

        def mark(b, lab):
            nonlocal changed
            if (b.label, lab) not in edges:
                edges.add((b.label, lab))
                execb.add(fn.blocks[lab])
                changed = True
        while changed and it < 200:
            changed = False
            it += 1
            for b in fn.rpo:
                if b not in execb:
                    continue
                t = b.ins[-1]
                for i in b.ins:
                    if i.dst is None:
                        continue
                    if i.op == 'phi':
                        nv = None
                        for o, lab in i.x:
                            if (lab, b.label) not in edges:
                                continue
                            v = self._bop(fn, o, vals)
                            if v is None:
                                continue
                            nv = v if nv is None else join(nv, v)
                        if nv is None:
                            continue
                    else:
                        if phase == 0 and i.op == 'load':
                            nv = TOP
                        elif phase == 0 and i.op == 'call':
                            nv = self.ext_ret(i) if self.prog.resolve(i, i.x) is None else TOP
                        else:
                            nv = self.transfer(fn, i, lambda o: self._bop(fn, o, vals), None)
                        if nv is None:
                            continue
                    old = vals.get(i.dst)
                    if old is None:
                        vals[i.dst] = nv
                        changed = True
                    elif old != nv:
                        j = join(old, nv)
                        if j != old:
                            c = visits.get(i.dst, 0) + 1
                            visits[i.dst] = c
                            if c > 4:
                                j = widen(old, j)
                            vals[i.dst] = j
                            changed = True
                if t.op == 'br':
                    v = self._bop(fn, t.args[0], vals)
                    if v is not None:
                        if not iszero(v):
                            mark(b, t.succ[0])
                        if not isnz(v):
                            mark(b, t.succ[1])
                elif t.op == 'switch':
                    v = self._bop(fn, t.args[0], vals)
                    if v is not None:
                        hit = False
                        for c, lab in t.x:
                            if icmp('eq', v, const(c)) != const(0):
                                mark(b, lab)
                            if isconst(v) and v[0] == c:
                                hit = True
                        if not hit:
                            mark(b, t.succ[0])
                else:
                    for lab in t.succ:
                        mark(b, lab)
        r.update(vals)
        self._exec[key] = execb
        if it >= 200:
            for k, v in list(r.items()):
                d = fn.defs.get(k)
                if d is not None and v[0] != 'P':
                    r[k] = TOP
        return r

    def _bop(self, fn, o, vals):
        k = o[0]
        if k == 'v':
            return vals.get(o[1])
        return self.opconst(fn, o)

    def opconst(self, fn, o):
        k = o[0]
        if k == 'c':
            return const(o[1])
        if k == 'null':
            return const(0)
        if k == 'g':
            if o[1] in fn.mod.funcs or o[1] in fn.mod.decls:
                return NZ
            return ('P', self.gkey(fn, o[1]), o[2])
        return TOP

    def bval(self, fn, o):
        if o[0] == 'v':
            return self.base(fn).get(o[1], TOP)
        return self.opconst(fn, o)

    def consts(self, fn, o):
        """every constant an integer operand can be, by its SSA definitions, or None if some source is not constant"""
        OPS = {'or': int.__or__, 'and': int.__and__, 'xor': int.__xor__, 'add': int.__add__, 'sub': int.__sub__}
        node = {}

        def src(f, o):
            """constant, or key of a node (added on demand); None if unknown"""
            if o[0] == 'c':
                return o[1]
            if o[0] == 'null':
                return 0
            if o[0] != 'v':
                return None
            k = (f, o[1])
            if k in node:
                return k
            d = f.defs.get(o[1])
            if d is None:
                if o[1] not in f.params:
                    return None
                j = f.params.index(o[1])
                ops = [(s.fn, s.args[j]) if j < len(s.args) else None for s in self.prog.callers(f)]
                if not ops or None in ops:
                    return None
                node[k] = ('any', ops)
            elif d.op == 'phi':
                node[k] = ('any', [(f, a) for a in d.args])
            elif d.op == 'select':
                node[k] = ('any', [(f, a) for a in d.args[1:]])
            elif d.op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast'):
                node[k] = ('any', [(f, d.args[0])])
            elif d.op in OPS:
                node[k] = (d.op, [(f, d.args[0]), (f, d.args[1])])
            else:
                return None
            ops = node[k][1]
            node[k] = (node[k][0], None)
            r = [src(*x) for x in ops]
            if any(x is None for x in r):
                node[k] = None
                return None
            node[k] = (node[k][0], r)
            return k
        top = src(fn, o)
        if top is None or any(n is None for n in node.values()):
            return None
        if isinstance(top, int):
            return {top}
        val = {k: set() for k in node}
        ch = True
        while ch:
            ch = False
            for k, (op, r) in node.items():
                sets = [{x} if isinstance(x, int) else val[x] for x in r]
                v = set().union(*sets) if op == 'any' else set(OPS[op](x, y) for x in sets[0] for y in sets[1])
                if not v <= val[k]:
                    val[k] |= v
                    if len(val[k]) > 64:
                        return None
                    ch = True
        return val[top]

    def ret_range(self, fn):
        if fn in self._ret:
            return self._ret[fn]
        self._ret[fn] = TOP
        v = None
        for b in fn.order:
            t = b.ins[-1]
            if t.op == 'ret' and t.args:
                x = self.bval(fn, t.args[0])
                if x[0] == 'P':
                    x = NZ
                v = x if v is None else join(v, x)
        v = v or TOP
        self._ret[fn] = v
        return v

    def transfer(self, fn, i, get, mem):
        """abstract result of a value-producing instruction; None if an operand is unreached"""
        op = i.op
        if op in BIN:
            a = get(i.args[0])
            b = get(i.args[1])
            if a is None or b is None:
                return None
            return binop(op, a, b, i.ty)
        if op == 'icmp':
            a = get(i.args[0])
            b = get(i.args[1])
            if a is None or b is None:
                return None
            return icmp(i.x, a, b)
        if op in CASTS:
            a = get(i.args[0])
            if a is None:
                return None
            if a[0] == 'P':
                return a
            if op == 'trunc':
                if fits(a, i.ty):
                    return a
                return BOOL if i.ty == 'i1' else TOP
            if op == 'zext':
                if i.x == 'i1':
                    return meet(a, BOOL) or BOOL
                if a[0] is not None and a[0] >= 0:
                    return a
                n = BITS.get(i.x)
                return rng(0, (1 << n) - 1, a[2]) if n and n < 32 else rng(0, None, a[2])
            if op == 'sext' and i.x == 'i1':
                return TOP
            if op == 'sext' and a[2] and (a[0] is None or a[1] is None) and i.x in BITS:
                # keep "not zero" through a later truncation to the original width
                h = 1 << (BITS[i.x] - 1)
                return rng(-h if a[0] is None else a[0], h - 1 if a[1] is None else a[1], True)
            return a
        if op == 'select':
            c = get(i.args[0])
            a = get(i.args[1])
            b = get(i.args[2])
            if c is None:
                return None
            if c[0] != 'P' and iszero(c):
                return b
            if isnz(c):
                return a
            if a is None or b is None:
                return a or b
            return join(a, b)
        if op == 'getelementptr':
            a = get(i.args[0])
            if a is None:
                return None
            if a[0] != 'P':
                return TOP if not isnz(a) else NZ
            if a[2] is None:
                return a
            ops = []
            for o in i.args[1:]:
                if o[0] == 'v':
                    v = get(o)
                    if v is None:
                        return None
                    if isconst(v):
                        o = ('c', v[0])
                ops.append(o)
            off, var, _ = fn.mod.gep_offset(i.ty, ops)
            return ('P', a[1], None if var else a[2] + off)
        if op == 'alloca':
            return ('P', ('A', fn, i.dst), 0)
        if op == 'load':
            a = get(i.args[0])
            if a is None:
                return None
            return self.loadval(a, mem)
        if op == 'call':
            g = self.prog.resolve(i, i.x)
            if g is not None:
                return self.ret_range(g)
            return self.ext_ret(i)
        if op == 'fcmp':
            return BOOL
        return TOP

    def executable(self, b):
        self.base(b.fn)
        return b in self._exec.get(b.fn, ())

    def ext_ret(self, i):
        if self.assume_ext is not None:
            v = self.assume_ext(self, i)
            if v is not None:
                return v
        if i.x in ('strlen', 'fread', 'fwrite'):
            return (0, None, False)
        return TOP

    def loadval(self, a, mem):
        if a[0] != 'P' or a[2] is None:
            return TOP
        if mem is not None:
            v = mem.get((a[1], a[2]))
            if v is not None:
                return v
        if a[1][0] == 'G' and a[2] == 0:
            return self.global_range(a[1])
        return TOP

    # ------------------------------------------------------------ summaries
    def globals_of(self, fn):
        """globals named by fn or anything it can call"""
        if not hasattr(self, '_gof'):
            own = {}
            succ = {}
            for f in self.prog.functions():
                s = set()
                c = set()
                for i in f.instrs():
                    for a in i.args:
                        if a and a[0] == 'g':
                            g = self.prog.resolve(f, a[1])
                            if g is not None:
                                c.add(g)
                            else:
                                s.add(self.gkey(f, a[1]))
                    if i.op == 'call':
                        g = self.prog.resolve(f, i.x)
                        if g is not None:
                            c.add(g)
                own[f] = s
                succ[f] = c
            self._gown, self._gsucc, self._gof = own, succ, {}
        r = self._gof.get(fn)
        if r is None:
            seen = {fn}
            st = [fn]
            r = set()
            while st:
                f = st.pop()
                r |= self._gown[f]
                for c in self._gsucc[f]:
                    if c not in seen:
                        seen.add(c)
                        st.append(c)
            self._gof[fn] = r
        return r

    def stable_after(self, key, fn, blk):
        """no store to global `key` can execute once blk of fn has been passed (until the process ends)"""
        esc, stores, init = self.scan_globals()
        if key in esc:
            return False
        if not stores.get(key):
            return True
        k = ('stable', key, fn, blk)
        if k in self._stable:
            return self._stable[k]
        self._stable[k] = False
        self._stable[k] = r = self._stable_after(set(f for f, i in stores[key]), set(i for f, i in stores[key]), key, fn, blk)
        return r

    def _stable_after(self, funcs, sites, key, fn, blk):
        reach = set()
        st = list(blk.succ)
        while st:
            b = st.pop()
            if b not in reach:
                reach.add(b)
                st.extend(b.succ)
        for b in reach | {blk}:
            for i in b.ins:
                if i in sites:
                    return False
                if i.op == 'call':
                    g = self.prog.resolve(i, i.x) if i.x else None
                    if g is None:
                        if i.x is None:
                            return False
                        continue
                    if self.closure(g) & funcs:
                        return False
        return all(self.stable_after(key, c.fn, c.bb) for c in self.prog.callers(fn))

    def closure(self, f):
        """f and every function it may call, directly or not"""
        r = self._closure.get(f)
        if r is None:
            r = set()
            st = [f]
            while st:
                g = st.pop()
                if g in r:
                    continue
                r.add(g)
                for i in g.calls():
                    h = self.prog.resolve(g, i.x)
                    if h is not None:
                        st.append(h)
            self._closure[f] = r
        return r

    def writes_param(self, g, k):
        """may g (or a callee) write through its k-th parameter?"""
        if k >= len(g.params):
            return False
        key = (g, k)
        c = self.__dict__.setdefault('_wp', {})
        if key in c:
            return c[key]
        c[key] = False
        c[key] = self.writes_base(g, g.instrs(), self.pbase(g, k))
        return c[key]

    def writes_base(self, fn, instrs, base):
        for i in instrs:
            if i.op == 'store':
                a = self.bval(fn, i.args[1])
                if a[0] == 'P' and a[1] == base:
                    return True
                a = self.bval(fn, i.args[0])
                if a[0] == 'P' and a[1] == base:
                    return True
            elif i.op == 'call' and not readonly(i.x):
                g = self.prog.resolve(i, i.x)
                for k, o in enumerate(i.args):
                    a = self.bval(fn, o)
                    if a[0] != 'P' or a[1] != base:
                        continue
                    if g is not None:
                        if self.writes_param(g, k):
                            return True
                    elif not (i.x in WRITES_FIRST and k > 0):
                        return True
        return False

    def quiet_between(self, fn, d, blk, base):
        """no write to object `base` on any way from the end of block d to blk"""
        key = (fn, d, blk, base)
        c = self.__dict__.setdefault('_qb', {})
        if key not in c:
            fwd = set()
            st = list(d.succ)
            while st:
                b = st.pop()
                if b not in fwd:
                    fwd.add(b)
                    if b is not d:
                        st.extend(b.succ)
            bwd = set()
            st = [blk]
            while st:
                b = st.pop()
                if b not in bwd:
                    bwd.add(b)
                    if b is not d:
                        st.extend(b.pred)
            c[key] = not any(self.writes_base(fn, b.ins, base) for b in fwd & bwd)
        return c[key]

    # ------------------------------------------------------------ what the locals in memory hold at a point
    def cells(self, fn):
        """block -> known contents of the locals of fn that live in memory, at its start, for any run of fn"""
        c = self.__dict__.setdefault('_cells', {})
        if fn in c:
            return c[fn]
        st = {fn.entry: {}}
        c[fn] = st
        if not any(i.op == 'alloca' for i in fn.instrs()):
            for b in fn.order:
                st[b] = {}
            return st
        fn.idom()
        order = fn.rponum()
        work = [(0, id(fn.entry), fn.entry)]
        visits = {}
        while work:
            b = heapq.heappop(work)[2]
            m = dict(st[b])
            for i in b.ins:
                self.cellstep(fn, i, m)
            for s in b.succ:
                old = st.get(s)
                if old is None:
                    new = m
                else:
                    new = {}
                    for k, v in old.items():
                        if k in m:
                            j = join(v, m[k])
                            if j != v and visits.get(s, 0) > 3:
                                j = widen(v, j)
                            if j != TOP:
                                new[k] = j
                if new != old:
                    visits[s] = visits.get(s, 0) + 1
                    st[s] = dict(new)
                    heapq.heappush(work, (order.get(s, 0), id(s), s))
        return st

    def cellstep(self, fn, i, m):
        if i.op == 'store':
            a = self.bval(fn, i.args[1])
            if a[0] == 'P' and a[1][0] == 'A':
                if a[2] is None:
                    for k in [k for k in m if k[0] == a[1]]:
                        del m[k]
                else:
                    v = self.bval(fn, i.args[0])
                    if v == TOP:
                        m.pop((a[1], a[2]), None)
                    else:
                        m[(a[1], a[2])] = v
            a = self.bval(fn, i.args[0])
            if a[0] == 'P' and a[1][0] == 'A':
                for k in [k for k in m if k[0] == a[1]]:
                    del m[k]
        elif i.op == 'call':
            z = self.filled(fn, i, lambda o: self.bval(fn, o))
            if z is not None and z[0][0] == 'A':
                for k in [k for k in m if k[0] == z[0]]:
                    del m[k]
                for off, v in z[1].items():
                    m[(z[0], off)] = v
                return
            if not m or readonly(i.x):
                return
            g = self.prog.resolve(i, i.x)
            for k, o in enumerate(i.args):
                a = self.bval(fn, o)
                if a[0] == 'P' and a[1][0] == 'A' and (
                        self.writes_param(g, k) if g is not None else not (i.x in WRITES_FIRST and k > 0)):
                    for c in [c for c in m if c[0] == a[1]]:
                        del m[c]

    def cells_at(self, ins, after):
        """contents of the locals of ins.fn in memory just before (after) ins"""
        m = dict(self.cells(ins.fn).get(ins.bb, {}))
        for i in ins.bb.ins[:ins.idx + (1 if after else 0)]:
            self.cellstep(ins.fn, i, m)
        return m

    def scalars(self, base, off, n):
        """offsets in [off, off+n) of object base at which a scalar member may start"""
        if base[0] == 'A':
            d = base[1].defs.get(base[2])
            if d is not None and d.ty:
                return [k for k in base[1].mod.scalars(d.ty) if off <= k < off + n]
        return range(off, off + n, 1 if n <= 64 else 4)

    def filled(self, fn, i, get):
        """(object, {offset: value}) for a memset to zero, or a copy from a constant, of a small object"""
        if i.x.startswith('llvm.memset') or i.x == 'memset':
            a = get(i.args[0])
            v = get(i.args[1])
            n = get(i.args[2])
            if a[0] == 'P' and a[2] is not None and isconst(v) and v[0] == 0 and isconst(n) and n[0] <= 1024:
                return a[1], {k: const(0) for k in self.scalars(a[1], a[2], n[0])}
        elif i.x.startswith('llvm.memcpy') or i.x == 'memcpy':
            a = get(i.args[0])
            n = get(i.args[2])
            o = i.args[1]
            if a[0] == 'P' and a[2] is not None and isconst(n) and n[0] <= 1024 and o[0] == 'g':
                g = fn.mod.globals.get(o[1])
                if g is not None and g['const'] and g['init'] is not None:
                    f = fn.mod.flatten(g['ty'], g['init'])
                    if f is not None:
                        return a[1], {a[2] + k - o[2]: const(v) for k, v in f.items() if o[2] <= k < o[2] + n[0]}
        return None

    def transitive(self):
        """functions from which a terminator / sink may be reached"""
        if self._mayexit is None:
            direct = set()
            calls = {}
            for f in self.prog.functions():
                for i in f.calls():
                    if i.x in self.exits or i.x in self.aborts:
                        direct.add(f)
                    g = self.prog.resolve(f, i.x)
                    if g is not None:
                        calls.setdefault(g, set()).add(f)
            st = list(direct)
            while st:
                f = st.pop()
                for c in calls.get(f, ()):
                    if c not in direct:
                        direct.add(c)
                        st.append(c)
            self._mayexit = direct
        return self._mayexit

    def reaching(self, names):
        """functions that may (transitively) call one of the external names"""
        direct = set()
        calls = {}
        for f in self.prog.functions():
            for i in f.calls():
                if i.x in names:
                    direct.add(f)
                g = self.prog.resolve(f, i.x)
                if g is not None:
                    calls.setdefault(g, set()).add(f)
        st = list(direct)
        while st:
            f = st.pop()
            for c in calls.get(f, ()):
                if c not in direct:
                    direct.add(c)
                    st.append(c)
        return direct


class Found(Exception):
    pass


class Query:
    """one exploration; collects terminations and sink hits"""

    def __init__(self, eng, absorb=(), sinks=(), models=None, sinkfn=None, budget=400000, first=False, once=False, stop=None, loads=None):
        self.first = first
        self.loads = loads   # (query, fn, load, env) -> value or None
        self.stop = stop     # (query, fn, store or call, env) -> True: this path is of no further interest
        self.once = once     # assume that a loop entered from outside runs its body at least once
        self.e = eng
        self.prog = eng.prog
        self.absorb = set(absorb)
        self.sinks = set(sinks)
        self.sinkfn = sinkfn
        self.models = models or {}
        self.terms = []      # (ins, val, chain)
        self.hits = []       # (ins, chain)
        self.absorbed = []
        self.memo = {}
        self.ctx = {}
        self.seen_up = set()
        self.chain = []
        self.steps = 0
        self.budget = budget
        self._inter = None
        self.stack = []
        self.bb = None
        self.seen = None     # set: record blocks and edges followed

    def interesting(self):
        if self._inter is None:
            s = set(self.e.transitive())
            if self.sinks or self.models:
                s |= self.e.reaching(self.sinks | set(self.models))
            if self.sinkfn:
                s |= set(self.prog.functions())
            self._inter = s
        return self._inter

    # ---------------- state helpers
    def value(self, fn, o, env):
        if o[0] == 'v':
            v = env.get(o[1])
            if v is not None:
                return v
            return self.e.base(fn).get(o[1], TOP)
        return self.e.opconst(fn, o)

    def setv(self, fn, name, v, env):
        if v == self.e.base(fn).get(name, TOP):
            env.pop(name, None)
        else:
            env[name] = v

    def memdefault(self, cell):
        if cell[0][0] == 'G' and cell[1] == 0:
            return self.e.global_range(cell[0])
        return TOP

    def setm(self, cell, v, mem):
        if v == self.memdefault(cell):
            mem.pop(cell, None)
        else:
            mem[cell] = v

    def joinstate(self, fn, a, b):
        ea, ma = a
        eb, mb = b
        env = {}
        base = self.e.base(fn)
        for k in ea:
            if k in eb:
                v = join(ea[k], eb[k])
                if v != base.get(k, TOP):
                    env[k] = v
        # missing on one side: join with the base range, usually absorbs
        for k in ea:
            if k not in eb:
                v = join(ea[k], base.get(k, TOP))
                if v != base.get(k, TOP):
                    env[k] = v
        for k in eb:
            if k not in ea:
                v = join(eb[k], base.get(k, TOP))
                if v != base.get(k, TOP):
                    env[k] = v
        mem = {}
        for k in set(ma) | set(mb):
            v = join(ma.get(k, self.memdefault(k)), mb.get(k, self.memdefault(k)))
            if v != self.memdefault(k):
                mem[k] = v
        return env, mem

    # ---------------- refinement
    def refine(self, fn, o, truth, env, mem, depth=0):
        """assume operand o (i1-like) is truth; False if infeasible"""
        if o[0] != 'v':
            v = self.e.opconst(fn, o)
            return not (iszero(v) and truth or isnz(v) and not truth)
        cur = self.value(fn, o, env)
        if cur[0] != 'P':
            nv = constrain(cur, 'ne' if truth else 'eq', const(0))
            if nv is None:
                return False
            self.setv(fn, o[1], nv, env)
        elif not truth:
            if not maynull(cur):
                return False
            self.setv(fn, o[1], const(0), env)
        if depth > 8:
            return True
        d = fn.defs.get(o[1])
        if d is None:
            return True
        if d.op == 'icmp':
            p = d.x if truth else INV[d.x]
            return self.assume(fn, d.args[0], p, d.args[1], env, mem, depth + 1)
        if d.op in ('zext', 'sext', 'trunc', 'freeze') and (d.op != 'trunc' or d.ty != 'i1'):
            return self.refine(fn, d.args[0], truth, env, mem, depth + 1)
        if d.op == 'trunc' and d.ty == 'i1':
            return True
        if d.op == 'load':
            self.refine_back(fn, o, self.value(fn, o, env), env, mem, depth + 1)
            return True
        if d.op == 'xor' and d.ty == 'i1' and d.args[1] == ('c', 1):
            return self.refine(fn, d.args[0], not truth, env, mem, depth + 1)
        if d.op == 'and' and truth and d.ty == 'i1':
            return self.refine(fn, d.args[0], True, env, mem, depth + 1) and \
                self.refine(fn, d.args[1], True, env, mem, depth + 1)
        if d.op == 'or' and not truth:
            return self.refine(fn, d.args[0], False, env, mem, depth + 1) and \
                self.refine(fn, d.args[1], False, env, mem, depth + 1)
        if d.op == 'select' and d.ty == 'i1':
            if truth and d.args[2] == ('c', 0):
                return self.refine(fn, d.args[0], True, env, mem, depth + 1) and \
                    self.refine(fn, d.args[1], True, env, mem, depth + 1)
            if not truth and d.args[1] == ('c', 1):
                return self.refine(fn, d.args[0], False, env, mem, depth + 1) and \
                    self.refine(fn, d.args[2], False, env, mem, depth + 1)
        return True

    def assume(self, fn, a, pred, b, env, mem, depth=0):
        va = self.value(fn, a, env)
        vb = self.value(fn, b, env)
        na = constrain(va, pred, vb)
        if na is None:
            return False
        nb = constrain(vb, SWAP[pred], va)
        if nb is None:
            return False
        for o, v, old in ((a, na, va), (b, nb, vb)):
            if o[0] == 'v' and v != old:
                self.setv(fn, o[1], v, env)
                self.refine_back(fn, o, v, env, mem, depth + 1)
        return True

    def refine_back(self, fn, o, v, env, mem, depth):
        """propagate a refined value to its definition"""
        if depth > 8:
            return
        d = fn.defs.get(o[1])
        if d is None:
            return
        if d.op in ('zext', 'sext', 'bitcast', 'freeze'):
            if d.args[0][0] == 'v':
                if iszero(v) or isnz(v):
                    self.refine(fn, d.args[0], not iszero(v), env, mem, depth + 1)
                if d.op == 'sext' and d.x != 'i1':
                    old = self.value(fn, d.args[0], env)
                    nv = meet(old, v)
                    if nv is not None and nv != old:
                        self.setv(fn, d.args[0][1], nv, env)
                        self.refine_back(fn, d.args[0], nv, env, mem, depth + 1)
        elif d.op == 'call' and d.x in COMPARE and self.bb is d.bb:
            gc = self.ghost(fn, d, env)
            if gc is not None and self.load_still_valid(fn, d):
                nv = meet(mem.get(gc, TOP), v)
                if nv is not None:
                    mem[gc] = nv
        elif d.op == 'load' and self.bb is d.bb:
            a = self.value(fn, d.args[0], env)
            if a[0] == 'P' and a[2] is not None and (a[1][0] != 'G' or True):
                if self.load_still_valid(fn, d):
                    cell = (a[1], a[2])
                    old = mem.get(cell, self.memdefault(cell))
                    nv = meet(old, v)
                    if nv is not None:
                        self.setm(cell, nv, mem)
        elif d.op == 'icmp' and (iszero(v) or isnz(v)):
            self.refine(fn, o, isnz(v), env, mem, depth + 1)
        elif d.op == 'add' and d.args[1][0] == 'c' and v[0] != 'P':
            c = d.args[1][1]
            old = self.value(fn, d.args[0], env)
            nv = meet(old, rng(None if v[0] is None else v[0] - c, None if v[1] is None else v[1] - c))
            if nv is not None and d.args[0][0] == 'v' and nv != old:
                self.setv(fn, d.args[0][1], nv, env)

    def load_still_valid(self, fn, d):
        """no store/call between the load and the end of its block (where the branch is)"""
        for i in d.bb.ins[d.idx + 1:]:
            if i.op in ('store', 'call'):
                return False
        return True

    # ---------------- exploration
    def run(self, fn, start, env, mem):
        """start: (block, idx). Returns (ret, mem) joined over all returns or None"""
        out = None
        states = {}
        visits = {}
        work = []

        fn.idom()
        order = fn.rponum()
        live = fn.livein()
        inq = set()

        def enqueue(key):
            if key not in inq:
                inq.add(key)
                heapq.heappush(work, (key[1], order.get(key[0], 0), id(key[0]), key))

        startb = start[0]
        phase = [0]
        cur = [None]
        heads = fn.loops() if self.once else {}

        def push(blk, st):
            # keep what happens before the first return to a loop head around the start apart from
            # what happens afterwards (one peeled, partial iteration)
            ph = phase[0]
            if ph == 0 and peel and fn.dominates(blk, startb):
                ph = 1
            if blk in heads:
                body = heads[blk]
                key = (blk, ph, cur[0] not in body)
            elif cur[0] in heads and skip[0] and blk not in heads[cur[0]]:
                return
            else:
                key = (blk, ph)
            lv = live[blk]
            st = ({k: v for k, v in st[0].items() if k in lv}, st[1])
            old = states.get(key)
            if old is None:
                states[key] = st
                enqueue(key)
            else:
                new = self.joinstate(fn, old, st)
                if new != old:
                    c = visits.get(key, 0) + 1
                    visits[key] = c
                    if c > 3:
                        base = self.e.base(fn)
                        env2 = {}
                        for k, v in new[0].items():
                            o = old[0].get(k, base.get(k, TOP))
                            w = widen(o, v) if o != v else v
                            if w != base.get(k, TOP):
                                env2[k] = w
                        mem2 = {}
                        for k, v in new[1].items():
                            o = old[1].get(k, self.memdefault(k))
                            w = widen(o, v) if o != v else v
                            if w != self.memdefault(k):
                                mem2[k] = w
                        new = (env2, mem2)
                        if c > 40:
                            new = ({}, {})
                    if new != old:
                        states[key] = new
                        enqueue(key)

        def exec_block(b, idx, env, mem):
            nonlocal out
            if self.seen is not None:
                self.seen.add((fn, b))
            env = dict(env)
            mem = dict(mem)
            for i in b.ins[idx:]:
                self.steps += 1
                if self.steps > self.budget:
                    raise RuntimeError('analysis budget exceeded in ' + fn.name)
                op = i.op
                if op == 'phi':
                    continue
                if op == 'call':
                    r = self.call(fn, i, env, mem)
                    if r is None:
                        return
                    mem = r
                    continue
                if op == 'store':
                    if self.stop is not None and self.stop(self, fn, i, env):
                        return
                    self.store(fn, i, env, mem)
                    continue
                if op == 'ret':
                    rv = self.value(fn, i.args[0], env) if i.args else TOP
                    out = (rv, mem, {}) if out is None else (
                        join(out[0], rv), self.joinstate(fn, ({}, out[1]), ({}, mem))[1], {})
                    if len(self.stack) == 0:
                        self.lastret = i
                    return
                if op == 'unreachable':
                    return
                if op in ('jmp', 'br', 'switch'):
                    self.branch(fn, b, i, env, mem, push)
                    return
                if i.dst is not None:
                    v = self.loads(self, fn, i, env) if op == 'load' and self.loads is not None else None
                    if v is None:
                        v = self.e.transfer(fn, i, lambda o: self.value(fn, o, env), mem)
                    self.setv(fn, i.dst, v if v is not None else TOP, env)

        b, idx = start
        peel = not (b is fn.entry and idx == 0)
        skip = [False]
        cur[0] = b
        exec_block(b, idx, env, mem)
        while work:
            key = heapq.heappop(work)[3]
            inq.discard(key)
            e2, m2 = states[key]
            phase[0] = key[1]
            cur[0] = key[0]
            skip[0] = len(key) > 2 and key[2]
            exec_block(key[0], 0, e2, m2)
        return (out[0], out[1]) if out else None

    def edge(self, fn, b, succ, env, mem, push):
        if self.seen is not None:
            self.seen.add((fn, b, succ))
        e2 = dict(env)
        upd = []
        for i in succ.ins:
            if i.op != 'phi':
                break
            for o, lab in i.x:
                if lab == b.label:
                    upd.append((i.dst, self.value(fn, o, env)))
                    break
        for d, v in upd:
            self.setv(fn, d, v, e2)
        push(succ, (e2, dict(mem)))

    def branch(self, fn, b, i, env, mem, push):
        self.bb = b
        if i.op == 'jmp':
            self.edge(fn, b, fn.blocks[i.succ[0]], env, mem, push)
            return
        if i.op == 'br':
            for k, truth in ((0, True), (1, False)):
                e2 = dict(env)
                m2 = dict(mem)
                if self.refine(fn, i.args[0], truth, e2, m2):
                    self.edge(fn, b, fn.blocks[i.succ[k]], e2, m2, push)
            return
        v = self.value(fn, i.args[0], env)
        dflt = True
        done = []
        for c, lab in i.x:
            e2 = dict(env)
            m2 = dict(mem)
            if self.assume(fn, i.args[0], 'eq', ('c', c), e2, m2):
                self.edge(fn, b, fn.blocks[lab], e2, m2, push)
                if isconst(v) and v[0] == c:
                    dflt = False
        if dflt and v[0] != 'P' and v[0] is not None and v[1] is not None and v[1] - v[0] < 64:
            cs = {c for c, lab in i.x}
            dflt = any(k not in cs for k in range(v[0], v[1] + 1))
        if dflt:
            self.edge(fn, b, fn.blocks[i.succ[0]], env, mem, push)

    def store(self, fn, i, env, mem):
        a = self.value(fn, i.args[1], env)
        if a[0] != 'P':
            return
        v = self.value(fn, i.args[0], env)
        for c in [c for c in mem if c[0] == a[1] and isinstance(c[1], tuple)]:
            del mem[c]
        if a[2] is None:
            for c in [c for c in mem if c[0] == a[1]]:
                self.setm(c, join(mem[c], v), mem)
            return
        self.setm((a[1], a[2]), v, mem)

    def havoc(self, base, mem):
        for c in [c for c in mem if c[0] == base]:
            mem[c] = TOP
            if self.memdefault(c) == TOP:
                del mem[c]

    def call(self, fn, i, env, mem):
        """returns new mem, or None if the call does not return"""
        name = i.x
        if name in self.sinks or (self.sinkfn and self.sinkfn(self, fn, i, env)):
            self.hits.append((i, tuple(self.chain)))
        if self.stop is not None and self.stop(self, fn, i, env):
            return None
        if name in self.e.exits:
            v = self.value(fn, i.args[0], env) if i.args else NZ
            self.terms.append((i, v, tuple(self.chain)))
            if self.first and may_be_zero(v):
                raise Found()
            return None
        if name in self.e.aborts:
            if name == 'MPI_Abort' and len(i.args) > 1 and i.args[1][0] == 'c' and i.args[1][1] & 255 == 0:
                self.terms.append((i, const(0), tuple(self.chain)))     # the job ends with this code
            return None
        md = self.models.get(name)
        if md is not None:
            r = md(self, fn, i, env, mem)
            if r == 'noreturn':
                return None
            if r is not None:
                if i.dst is not None:
                    self.setv(fn, i.dst, r, env)
                return mem
        g = self.prog.resolve(i, name)
        if g is None:
            z = self.e.filled(fn, i, lambda o: self.value(fn, o, env))
            if z is not None:
                self.havoc(z[0], mem)
                for off, v in z[1].items():
                    self.setm((z[0], off), v, mem)
                return mem
            gc = self.ghost(fn, i, env)
            if gc is not None:
                if i.dst is not None:
                    v = self.e.ext_ret(i)
                    self.setv(fn, i.dst, mem.get(gc, v) if v == TOP else v, env)
                return mem
            for k, a in enumerate(i.args):
                if readonly(name):
                    break
                if name in WRITES_FIRST and k > 0:
                    break
                v = self.value(fn, a, env)
                if v[0] == 'P':
                    self.havoc(v[1], mem)
            if i.dst is not None:
                self.setv(fn, i.dst, self.e.ext_ret(i), env)
            return mem
        # internal function
        args = tuple(self.value(fn, a, env) for a in i.args)
        r = self.callee(g, args, mem, i)
        if r is None:
            return None
        rv, m2 = r
        if rv[0] == 'P' and rv[1][0] in 'PA' and rv[1][1] is g:
            rv = NZ
        if i.dst is not None:
            self.setv(fn, i.dst, rv, env)
        return m2

    def ghost(self, fn, i, env):
        """memory cell that remembers the outcome of comparing a buffer with a constant string"""
        if i.x not in COMPARE or len(i.args) < 2:
            return None
        for a, b in ((i.args[0], i.args[1]), (i.args[1], i.args[0])):
            t = self.prog.cstr(fn, b)
            if t is not None:
                v = self.value(fn, a, env)
                if v[0] == 'P' and v[2] is not None:
                    return (v[1], ('cmp', i.x, v[2], t, i.args[2] if len(i.args) > 2 else None))
        return None

    def callee(self, g, args, mem, site):
        inter = g in self.interesting()
        basepar = [self.e.base(g).get(p, TOP) for p in g.params]
        informative = any(isconst(a) or (a[0] != 'P' and a != TOP) for a in args) or any(
            a[0] == 'P' and any(c[0] == a[1] for c in mem) for a in args) or bool(mem)
        if not inter and not informative and not self.writes_anything(g):
            return self.e.ret_range(g), mem
        if len(self.stack) > self.e.MAXDEPTH or g in self.stack:
            m2 = dict(mem)
            for a in args:
                if a[0] == 'P':
                    self.havoc(a[1], m2)
            return TOP, m2
        # only the cells g can name matter to g; the others pass through unchanged
        gl = self.e.globals_of(g)
        bases = set(a[1] for a in args if a[0] == 'P')
        n = 0
        while n != len(bases):
            n = len(bases)
            for c, v in mem.items():
                if v[0] == 'P' and (c[0] in bases or c[0] in gl):
                    bases.add(v[1])
        rest = {c: v for c, v in mem.items() if c[0] not in bases and c[0] not in gl}
        mem = {c: v for c, v in mem.items() if c not in rest}
        # after many distinct contexts, forget numeric detail of the arguments
        n = self.ctx.get(g, 0)
        if n > 6:
            args = tuple(a if a[0] == 'P' or (isconst(a) and n <= 20) else (None, None, True) if a[2] else TOP
                         for a in args)
        key = (g, args, frozenset(mem.items()))
        if key not in self.memo:
            self.ctx[g] = n + 1
        if key in self.memo:
            r = self.memo[key]
            if r == 'busy':
                mem.update(rest)
                return TOP, mem
            if r is not None and rest:
                r = (r[0], dict(r[1], **{}) if not rest else {**r[1], **rest})
            return r
        self.memo[key] = 'busy'
        self.stack.append(g)
        self.chain.append(site)
        env = {}
        for p, a in zip(g.params, args):
            self.setv(g, p, a, env)
        try:
            r = self.run(g, (g.entry, 0), env, dict(mem))
        finally:
            self.stack.pop()
            self.chain.pop()
        if r is not None:
            rv, m2 = r
            # locals of g are dead
            m2 = {c: v for c, v in m2.items() if not (c[0][0] == 'A' and c[0][1] is g)}
            if rv[0] == 'P' and rv[1][0] == 'A' and rv[1][1] is g:
                rv = NZ
            r = (rv, m2)
        self.memo[key] = r
        if r is not None and rest:
            r = (r[0], {**r[1], **rest})
        return r

    def writes_anything(self, g):
        return False

    def from_entry(self, mem=None):
        fn = self.prog.main()
        r = self.run(fn, (fn.entry, 0), {}, dict(mem or {}))
        self.up(fn, r)

    # ---------------- fault propagation
    def dom_assume(self, fn, blk, env, mem):
        idom = fn.idom()
        b = blk
        chain = []
        while b in idom and idom[b] is not b:
            chain.append((idom[b], b))
            b = idom[b]
        for d, child in reversed(chain):
            t = d.ins[-1]
            if t.op == 'br':
                s0, s1 = fn.blocks[t.succ[0]], fn.blocks[t.succ[1]]
                if s0 is s1:
                    continue
                on0 = len(s0.pred) == 1 and fn.dominates(s0, blk)
                on1 = len(s1.pred) == 1 and fn.dominates(s1, blk)
                if on0 != on1:
                    m = {}
                    self.bb = d
                    self.refine(fn, t.args[0], on0, env, m)
                    for c, v in m.items():
                        if c[0][0] == 'G':
                            if c[1] == 0 and self.e.stable_after(c[0], fn, d):
                                mem[c] = v
                        elif self.e.quiet_between(fn, d, blk, c[0]):
                            mem[c] = v

    def from_call(self, ins, val, mem=None, after=True):
        """explore everything that can happen after call `ins` yields `val`"""
        fn = ins.fn
        env = {}
        mem = dict(self.e.cells_at(ins, after), **(mem or {})) if mem else self.e.cells_at(ins, after)
        self.dom_assume(fn, ins.bb, env, mem)
        par = {p: env[p] for p in fn.params if p in env}
        if ins.dst is not None and val is not None:
            self.setv(fn, ins.dst, val, env)
        r = self.run(fn, (ins.bb, ins.idx + 1), env, mem)
        self.up(fn, r, par)

    def from_point(self, fn, blk, idx, env, mem):
        e2 = {}
        m2 = self.e.cells_at(blk.ins[idx], False)
        self.dom_assume(fn, blk, e2, m2)
        e2.update(env)
        m2.update(mem)
        par = {p: e2[p] for p in fn.params if p in e2}
        r = self.run(fn, (blk, idx), e2, m2)
        self.up(fn, r, par)

    def up(self, fn, r, par=None):
        """continue in every caller; par: what the conditions above the start point say about fn's parameters"""
        if r is None:
            return
        rv, mem = r
        if fn.name in self.absorb:
            self.absorbed.append(fn.name)
            return
        if fn.name in ('main', 'MAIN__'):
            self.terms.append((self.retsite(fn), rv, tuple(self.chain)))
            if self.first and may_be_zero(rv):
                raise Found()
            return
        if rv[0] == 'P' and rv[1][0] == 'A':
            rv = NZ
        mem = {c: v for c, v in mem.items() if not (c[0][0] == 'A' and c[0][1] is fn)}
        for site in self.prog.callers(fn):
            key = (id(site), rv, frozenset(mem.items()), tuple(sorted((par or {}).items())))
            if key in self.seen_up:
                continue
            self.seen_up.add(key)
            cfn = site.fn
            env = {}
            m2 = self.e.cells_at(site, True)
            self.dom_assume(cfn, site.bb, env, m2)
            for (b, off), v in mem.items():
                if b[0] == 'P' and b[1] is fn:
                    a = self.value(cfn, site.args[b[2]], env) if b[2] < len(site.args) else TOP
                    if a[0] == 'P' and isinstance(a[2], int) and isinstance(off, int):
                        m2[(a[1], a[2] + off)] = v
                else:
                    m2[(b, off)] = v
            crv = rv
            if rv[0] == 'P' and rv[1][0] == 'P' and rv[1][1] is fn:
                a = self.value(cfn, site.args[rv[1][2]], env) if rv[1][2] < len(site.args) else TOP
                crv = ('P', a[1], None) if a[0] == 'P' else NZ
            feasible = True
            for p, v in (par or {}).items():
                k = fn.params.index(p)
                if k < len(site.args):
                    a = site.args[k]
                    old = self.value(cfn, a, env)
                    if v[0] == 'P' and v[1][0] == 'T' and a[0] == 'v':
                        self.setv(cfn, a[1], v, env)
                        continue
                    if old[0] == 'P' or v[0] == 'P':
                        continue
                    nv = meet(old, v)
                    if nv is None:
                        feasible = False
                    elif a[0] == 'v' and nv != old:
                        self.setv(cfn, a[1], nv, env)
                        self.refine_back(cfn, a, nv, env, {}, 1)
            if not feasible:
                continue
            par2 = {p: env[p] for p in cfn.params if p in env}
            if site.dst is not None:
                self.setv(cfn, site.dst, crv, env)
            self.chain.append(site)
            rr = self.run(cfn, (site.bb, site.idx + 1), env, m2)
            self.up(cfn, rr, par2)
            self.chain.pop()

    def retsite(self, fn):
        for b in fn.order:
            if b.ins and b.ins[-1].op == 'ret':
                return b.ins[-1]


def may_be_zero(v):
    """can this exit status be seen as success by the parent?"""
    if v[0] == 'P':
        return False
    if isconst(v):
        return (v[0] & 0xff) == 0
    return not v[2]
