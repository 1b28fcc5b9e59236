"""Which values and branches differ between the ranks of a parallel run, and which collective operations
depend on them (divergence analysis over SSA, with memory abstracted by the object a pointer is derived from)."""
import re

from . import absint

COLLECTIVE = re.compile(r'MPI_(Allreduce|Barrier|Bcast|Reduce|Gatherv?|Allgatherv?|Scatterv?|Alltoallv?|Scan|Init|Finalize|Comm_split|Comm_dup)$')
SOURCES = {'mpp_get_compute_domain2d', 'mpp_get_data_domain2d'}     # the last four arguments are results
REDUCE = {'mpp_sum_int': 1, 'mpp_sum_double': 1, 'mpp_min_double': 1, 'mpp_max_double': 1}
BLOCKREAD = {'mpp_get_var_value_block': ((2, 3), 4)}
ALLOC = {'malloc', 'calloc', 'realloc'}


def struct_name(t):
    """%struct.X and %struct.X.12 are the same type"""
    return re.sub(r'\.\d+$', '', t)


class Flow:
    def __init__(self, eng):
        self.e = eng
        self.P = eng.prog
        self.funcs = [f for f in self.P.reachable()]
        self.leaf = set()
        for m in self.P.mods:
            if {'mpp_pe', 'mpp_open', 'mpp_define_domain2d'} & set(m.funcs):
                self.leaf |= set(m.funcs.values())
        self.noret = set()
        self._noreturn()
        self.k0 = set()
        self.kind()
        self.T = {f: set() for f in self.funcs}
        self.cls = set()           # tainted classes
        self.param = {f: set() for f in self.funcs}     # tainted scalar parameters (indices)
        self.retT = set()
        self.outP = set()          # (f, k): f stores rank-dependent data through parameter k
        self.why = {}
        self.uf = {}
        self.div = {f: set() for f in self.funcs}
        self.info = {f: FuncInfo(self, f) for f in self.funcs}
        self.solve()

    # union-find over memory classes
    def find(self, c):
        p = self.uf.get(c, c)
        if p == c:
            return c
        r = self.find(p)
        self.uf[c] = r
        return r

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            t = a in self.cls or b in self.cls
            self.uf[a] = b
            self.cls.discard(a)
            if t:
                self.cls.add(b)
            self.ch = True

    def ctaint(self, c):
        c = self.find(c)
        if c not in self.cls:
            self.cls.add(c)
            self.ch = True

    def istaint(self, cs):
        return any(self.find(c) in self.cls for c in cs)

    def _noreturn(self):
        ch = True
        while ch:
            ch = False
            for f in self.P.functions():
                if f in self.noret or not f.order:
                    continue
                seen = set()
                st = [f.entry]
                ret = False
                while st and not ret:
                    b = st.pop()
                    if b in seen:
                        continue
                    seen.add(b)
                    if self.cut(b) is not None:
                        continue
                    if b.ins[-1].op == 'ret':
                        ret = True
                    st.extend(b.succ)
                if not ret:
                    self.noret.add(f)
                    ch = True

    def cut(self, b):
        """the call in b that does not return, if any"""
        for i in b.ins:
            if i.op == 'call':
                if i.x in self.e.exits or i.x in self.e.aborts:
                    return i
                g = self.P.resolve(i, i.x)
                if g is not None and g in self.noret:
                    return i
        return None

    def kind(self):
        # what each function may execute
        def ext(f):
            return {i.x for g in self.e.closure(f) for i in g.calls() if i.x}
        self.coll = set()
        for f in self.funcs:
            if f in self.noret:
                continue
            x = ext(f)
            if any(COLLECTIVE.match(n) for n in x) or {'MPI_Isend', 'MPI_Recv'} <= x or {'MPI_Send', 'MPI_Recv'} <= x:
                self.coll.add(f)

    # ------------------------------------------------------------------ fixpoint
    def solve(self):
        self.ch = True
        n = 0
        while self.ch:
            self.ch = False
            n += 1
            if n > 60:
                raise RuntimeError('no fixpoint')
            for f in self.funcs:
                if f.order:
                    self.info[f].step()
        self.rounds = n

    def violations(self):
        out = []
        for f in self.funcs:
            fi = self.info[f]
            for b in self.div[f]:
                cond = b.ins[-1]
                for x in fi.region(b):
                    for i in x.ins:
                        if i.op != 'call' or not i.x:
                            continue
                        g = self.P.resolve(i, i.x)
                        if f in self.leaf:
                            # inside the message-passing layer point-to-point calls are rank dependent by design
                            if g is None and COLLECTIVE.match(i.x) or g in self.leaf and g in self.coll and any(
                                    COLLECTIVE.match(c.x or '') for h in self.e.closure(g) for c in h.calls()):
                                out.append((f, cond, i))
                        elif g is not None and g in self.coll or g is None and COLLECTIVE.match(i.x):
                            out.append((f, cond, i))
        return out


class FuncInfo:
    def __init__(self, F, f):
        self.F = F
        self.f = f
        self.scalars = {i.dst for i in f.instrs() if i.op == 'alloca' and not i.ty.strip().startswith(('[', '%', '{'))}
        self.rc = {}
        self.reg = {}
        self.ip = None
        self.inS = {}
        self.known = {}

    # ---------------- post-dominators on the graph without fatal ends
    def ipdom(self):
        if self.ip is not None:
            return self.ip
        F = self.F
        f = self.f
        EXIT = 'exit'
        succ = {}
        for b in f.order:
            c = F.cut(b)
            if c is not None:
                # a successful end on this rank is a way out; a fatal one ends the whole run
                ok = c.x in F.e.exits and c.args and c.args[0] == ('c', 0)
                succ[b] = [EXIT] if ok else []
            elif b.ins[-1].op == 'ret':
                succ[b] = [EXIT]
            else:
                succ[b] = list(b.succ)
        # blocks that can reach EXIT
        pred = {}
        for b, ss in succ.items():
            for s in ss:
                pred.setdefault(s, []).append(b)
        live = set()
        st = [EXIT]
        while st:
            x = st.pop()
            if x in live:
                continue
            live.add(x)
            st.extend(pred.get(x, ()))
        self.succ = {b: [s for s in ss if s in live] for b, ss in succ.items() if b in live}
        # reverse post order on the reversed graph
        order = []
        seen = {EXIT}
        stack = [(EXIT, iter([p for p in pred.get(EXIT, ()) if p in live]))]
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter([p for p in pred.get(s, ()) if p in live])))
                    break
            else:
                order.append(b)
                stack.pop()
        rpo = order[::-1]
        num = {b: k for k, b in enumerate(rpo)}
        ip = {EXIT: EXIT}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for s in self.succ[b]:
                    if s in ip:
                        if new is None:
                            new = s
                        else:
                            x, y = s, new
                            while x is not y:
                                while num[x] > num[y]:
                                    x = ip[x]
                                while num[y] > num[x]:
                                    y = ip[y]
                            new = x
                if new is not None and ip.get(b) is not new:
                    ip[b] = new
                    ch = True
        self.ip = ip
        return ip

    def region(self, b):
        """blocks whose execution depends on the outcome of the branch ending b"""
        r = self.reg.get(b)
        if r is None:
            ip = self.ipdom()
            r = set()
            if b in ip:
                st = [s for s in self.succ[b]]
                if len(set(st)) > 1:
                    while st:
                        x = st.pop()
                        if x == 'exit' or x is ip[b] or x in r:
                            continue
                        r.add(x)
                        st.extend(self.succ.get(x, ()))
            self.reg[b] = r
        return r

    # ---------------- memory classes
    def root(self, o, depth=0):
        if o[0] == 'g':
            return frozenset([('G', o[1])])
        if o[0] != 'v' or depth > 25:
            return frozenset()
        if o[1] in self.rc:
            return self.rc[o[1]]
        f = self.f
        d = f.defs.get(o[1])
        if d is None:
            r = frozenset([('P', f, f.params.index(o[1]))]) if o[1] in f.params else frozenset()
        elif d.op == 'getelementptr':
            t = d.ty
            if t.startswith('%') and len(d.args) > 2 and d.args[2][0] == 'c':
                r = frozenset([('F', struct_name(t), d.args[2][1])])
            else:
                r = self.root(d.args[0], depth + 1)
        elif d.op in ('bitcast', 'freeze', 'load'):
            r = self.root(d.args[0], depth + 1)
        elif d.op in ('phi', 'select'):
            self.rc[o[1]] = frozenset()
            r = frozenset()
            for a in (d.args if d.op == 'phi' else d.args[1:]):
                r |= self.root(a, depth + 1)
        elif d.op == 'alloca':
            r = frozenset([('A', f, o[1])])
        elif d.op == 'call':
            r = frozenset([('H', f, o[1])])
        else:
            r = frozenset()
        self.rc[o[1]] = r
        return r

    def tv(self, o):
        if o[0] == 'v':
            if o[1] in self.F.T[self.f]:
                return True
            if o[1] in self.f.params and self.f.params.index(o[1]) in self.F.param[self.f]:
                return True
        return False

    def scalar(self, o):
        d = self.f.defs.get(o[1]) if o[0] == 'v' else None
        return o[1] if d is not None and d.op == 'alloca' and o[1] in self.scalars else None

    def taint(self, name, why):
        s = self.F.T[self.f]
        if name not in s:
            s.add(name)
            self.F.why[(self.f, name)] = why
            self.F.ch = True

    def step(self):
        F = self.F
        f = self.f
        dep = set()
        for b in F.div[f]:
            dep |= self.region(b)
        # forward pass over blocks for the scalar variables that live in memory
        changed = True
        k = 0
        out = {}
        order = list(f.idom()) and f.rpo
        while changed and k < 30:
            changed = False
            k += 1
            for b in order:
                s = set()
                for p in b.pred:
                    s |= out.get(p, set())
                o = self.block(b, s, b in dep)
                if o != out.get(b):
                    out[b] = o
                    changed = True
        # phis that merge ways chosen differently by different ranks
        for b in list(F.div[f]):
            reg = self.region(b)
            ip = self.ipdom().get(b)
            for j in reg | ({ip} if ip is not None and ip != 'exit' else set()):
                ps = [p for p in j.pred if p in reg or p is b]
                if len(ps) >= 2:
                    for i in j.ins:
                        if i.op != 'phi':
                            break
                        vals = {o for o, lab in i.x if f.blocks[lab] in ps}
                        if len(vals) > 1:
                            self.taint(i.dst, b.ins[-1])
            # loops left at different times
            for h, body in f.loops().items():
                if b in body and any(s not in body for s in b.succ) and len([s for s in b.succ if self.alive(s)]) > 1:
                    for i in h.ins:
                        if i.op != 'phi':
                            break
                        self.taint(i.dst, b.ins[-1])

    def alive(self, s):
        self.ipdom()
        return s in self.succ

    def block(self, b, S, dep):
        F = self.F
        f = self.f
        S = set(S)
        T = F.T[f]
        for i in b.ins:
            op = i.op
            if op == 'store':
                v, a = i.args[0], i.args[1]
                t = self.tv(v) or dep
                sc = self.scalar(a)
                if sc is not None:
                    if t:
                        S.add(sc)
                    else:
                        S.discard(sc)
                    continue
                rs = self.root(a)
                if i.ty == 'ptr' or (v[0] == 'v' and self.root(v) and self.isptr(v)):
                    for c1 in self.root(v):
                        for c2 in rs:
                            if c1 != c2 and c1[0] != 'P' and c2[0] != 'P':
                                F.union(c1, c2)
                if self.tv(v) or (dep and not self.isptr(v)):
                    for c in rs:
                        F.ctaint(c)
                        if c[0] == 'P' and (f, c[2]) not in F.outP:
                            F.outP.add((f, c[2]))
                            F.ch = True
                continue
            if op == 'load':
                sc = self.scalar(i.args[0])
                if sc is not None:
                    if sc in S:
                        self.taint(i.dst, i)
                elif not i.ty.startswith('ptr') and F.istaint(self.root(i.args[0])):
                    self.taint(i.dst, i)
                continue
            if op == 'call':
                S = self.call(i, S, dep)
                continue
            if op in ('br', 'switch'):
                if i.args and self.tv(i.args[0]) and b not in F.div[f]:
                    F.div[f].add(b)
                    F.ch = True
                continue
            if op == 'ret':
                if i.args and self.tv(i.args[0]) and f not in F.retT:
                    F.retT.add(f)
                    F.ch = True
                continue
            if op == 'phi':
                if any(self.tv(o) for o in i.args):
                    self.taint(i.dst, i)
                continue
            if i.dst is not None and op not in ('alloca', 'getelementptr'):
                if any(self.tv(o) for o in i.args):
                    self.taint(i.dst, i)
        return S

    def isptr(self, v):
        if v[0] == 'g':
            return True
        d = self.f.defs.get(v[1]) if v[0] == 'v' else None
        if d is None:
            return False
        return d.op in ('getelementptr', 'alloca') or (d.ty or '').startswith('ptr')

    def call(self, i, S, dep):
        F = self.F
        f = self.f
        n = i.x
        if not n:
            return S
        if n == 'mpp_pe':
            self.taint(i.dst, i)
            return S
        if n == 'MPI_Comm_rank':
            for c in self.root(i.args[1]):
                F.ctaint(c)
            return S
        if n in REDUCE:
            sc = self.scalar(i.args[REDUCE[n]])
            if sc is not None:
                S.discard(sc)
            return S
        if n in SOURCES:
            for a in i.args[-4:]:
                sc = self.scalar(a)
                if sc is not None:
                    S.add(sc)
                else:
                    for c in self.root(a):
                        F.ctaint(c)
                        if c[0] == 'P' and (f, c[2]) not in F.outP:
                            F.outP.add((f, c[2]))
                            F.ch = True
            return S
        if n in BLOCKREAD:
            ks, kd = BLOCKREAD[n]
            if any(F.istaint(self.root(i.args[k])) for k in ks):
                for c in self.root(i.args[kd]):
                    F.ctaint(c)
                    if c[0] == 'P' and (f, c[2]) not in F.outP:
                        F.outP.add((f, c[2]))
                        F.ch = True
            return S
        g = F.P.resolve(i, n)
        if g is None:
            if i.dst is not None and n not in ALLOC and not (i.ty or '').startswith('ptr') and any(self.tv(a) for a in i.args):
                self.taint(i.dst, i)
            if n.startswith('llvm.memcpy') or n in ('memcpy', 'memmove'):
                if F.istaint(self.root(i.args[1])):
                    for c in self.root(i.args[0]):
                        F.ctaint(c)
            return S
        if g in F.leaf:
            return S
        if g not in F.param:
            return S
        for k, a in enumerate(i.args):
            if k >= len(g.params):
                break
            if self.tv(a) and k not in F.param[g]:
                F.param[g].add(k)
                F.why[(g, g.params[k])] = i
                F.ch = True
            sc = self.scalar(a)
            if sc is not None:
                if sc in S:
                    F.ctaint(('P', g, k))
                if (g, k) in F.outP:
                    S.add(sc)
            else:
                rs = self.root(a)
                if rs and F.istaint(rs):
                    F.ctaint(('P', g, k))
                if (g, k) in F.outP:
                    for c in rs:
                        F.ctaint(c)
                        if c[0] == 'P' and (f, c[2]) not in F.outP:
                            F.outP.add((f, c[2]))
                            F.ch = True
        if i.dst is not None and g in F.retT:
            self.taint(i.dst, i)
        return S
