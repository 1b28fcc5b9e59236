"""Parser for textual LLVM IR (clang 18, opaque pointers) into a small SSA IR.

Only what the analyses need is kept: functions, basic blocks, instructions with
resolved operands, struct layouts, global initialisers (strings, option tables)
and debug locations.  Nothing is executed.
"""
import re

# ---------------------------------------------------------------- operands
# ('c', int) | ('f', text) | ('null',) | ('undef',) | ('g', name, off) | ('v', name) | ('x', text)
NULL = ('null',)
UNDEF = ('undef',)


class Ins:
    __slots__ = ('op', 'dst', 'ty', 'args', 'x', 'dbg', 'bb', 'idx', 'fn', 'succ')

    def __init__(self, op, dst=None, ty=None, args=(), x=None, dbg=None):
        self.op = op
        self.dst = dst
        self.ty = ty
        self.args = args
        self.x = x
        self.dbg = dbg
        self.bb = None
        self.idx = 0
        self.fn = None
        self.succ = ()

    @property
    def callee(self):
        return self.x if self.op == 'call' else None

    def line(self):
        return self.fn.mod.lineof(self.dbg)

    def loc(self):
        f, l = self.fn.mod.fileline(self.dbg)
        return '%s:%s' % (f, l) if l else f

    def __repr__(self):
        return '<%s %s %s %s x=%s @%s>' % (self.op, self.dst, self.ty, self.args, self.x, self.line() if self.fn else '?')


class Block:
    __slots__ = ('label', 'ins', 'succ', 'pred', 'fn')

    def __init__(self, label):
        self.label = label
        self.ins = []
        self.succ = []
        self.pred = []
        self.fn = None


class Func:
    def __init__(self, name, mod):
        self.name = name
        self.mod = mod
        self.params = []
        self.ptys = []
        self.rty = None
        self.blocks = {}
        self.order = []
        self.defs = {}
        self.vname = {}
        self.internal = False
        self.dbg = None
        self._idom = None
        self._dom = None

    def finish(self):
        for b in self.order:
            b.fn = self
            for i, ins in enumerate(b.ins):
                ins.bb = b
                ins.idx = i
                ins.fn = self
                if ins.dst is not None:
                    self.defs[ins.dst] = ins
            t = b.ins[-1] if b.ins else None
            succ = []
            if t is not None:
                for s in t.succ:
                    if s not in succ:
                        succ.append(s)
            b.succ = [self.blocks[s] for s in succ if s in self.blocks]
        for b in self.order:
            for s in b.succ:
                s.pred.append(b)

    @property
    def entry(self):
        return self.order[0]

    def instrs(self):
        for b in self.order:
            for i in b.ins:
                yield i

    def calls(self, name=None):
        for b in self.order:
            for i in b.ins:
                if i.op == 'call' and (name is None or i.x == name):
                    yield i

    # ---------------- dominators (Cooper/Harvey/Kennedy)
    def idom(self):
        if self._idom is not None:
            return self._idom
        order = []
        seen = set()
        stack = [(self.entry, iter(self.entry.succ))]
        seen.add(self.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(s.succ)))
                    break
            else:
                order.append(b)
                stack.pop()
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in b.pred:
                    if p in idom and p in num:
                        if new is None:
                            new = p
                        else:
                            f1, f2 = p, new
                            while f1 is not f2:
                                while num[f1] > num[f2]:
                                    f1 = idom[f1]
                                while num[f2] > num[f1]:
                                    f2 = idom[f2]
                            new = f1
                if new is not None and idom.get(b) is not new:
                    idom[b] = new
                    ch = True
        self._idom = idom
        self.rpo = rpo
        return idom

    def rponum(self):
        if getattr(self, '_rponum', None) is None:
            self.idom()
            self._rponum = {b: i for i, b in enumerate(self.rpo)}
        return self._rponum

    def livein(self):
        """SSA names whose value on entry to the block can still matter: used later, or an
        operand (transitively) of something used later, since refinement walks definitions"""
        if getattr(self, '_live', None) is not None:
            return self._live
        use = {}
        phiuse = {}
        for b in self.order:
            u = set()
            for i in b.ins:
                if i.op == 'phi':
                    for o, lab in i.x:
                        if o[0] == 'v':
                            phiuse.setdefault(lab, set()).add(o[1])
                    continue
                for a in i.args:
                    if a and a[0] == 'v':
                        u.add(a[1])
            use[b] = u
        clos = {}

        def close(n, depth=0):
            r = clos.get(n)
            if r is not None:
                return r
            r = {n}
            clos[n] = r
            d = self.defs.get(n)
            if d is not None and depth < 10 and d.op in ('icmp', 'zext', 'sext', 'trunc', 'xor', 'and', 'or', 'select',
                                                        'freeze', 'add', 'load'):
                for a in d.args:
                    if a and a[0] == 'v':
                        r |= close(a[1], depth + 1)
            return r
        defs = {b: set(i.dst for i in b.ins if i.dst is not None) for b in self.order}
        live = {b: set() for b in self.order}
        ch = True
        rev = list(reversed(self.order))
        gen = {}
        for b in self.order:
            g = set()
            for n in use[b] | phiuse.get(b.label, set()):
                g |= close(n)
            gen[b] = g
        while ch:
            ch = False
            for b in rev:
                s = set(gen[b])
                for q in b.succ:
                    s |= live[q]
                s -= defs[b] - set(i.dst for i in b.ins if i.op == 'phi')
                if s != live[b]:
                    live[b] = s
                    ch = True
        self._live = live
        return live

    def loops(self):
        """header -> blocks of the natural loop, for loops that test their condition in the header"""
        if getattr(self, '_loops', None) is not None:
            return self._loops
        self.idom()
        out = {}
        for b in self.order:
            for h in b.succ:
                if self.dominates(h, b):
                    body = out.setdefault(h, {h})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(x.pred)
        self._loops = {h: body for h, body in out.items() if any(s not in body for s in h.succ)}
        return self._loops

    def dominates(self, a, b):
        """block a dominates block b"""
        idom = self.idom()
        if b not in idom or a not in idom:
            return False
        while True:
            if a is b:
                return True
            n = idom[b]
            if n is b:
                return False
            b = n

    def ins_dominates(self, i, j):
        if i.bb is j.bb:
            return i.idx < j.idx
        return self.dominates(i.bb, j.bb)

    def __repr__(self):
        return '<Func %s>' % self.name


SZ = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'i128': 16, 'float': 4, 'double': 8, 'ptr': 8, 'x86_fp80': 16,
      'void': 0}


class Module:
    def __init__(self, path):
        self.path = path
        self.funcs = {}
        self.decls = {}
        self.globals = {}     # name -> dict(ty, init(raw), const, internal)
        self.types = {}
        self.md = {}
        self._loc = {}
        self._lay = {}
        self.src = None

    # ------------- types
    def sizeof(self, t):
        s, a, _ = self.layout(t)
        return s

    def layout(self, t):
        """(size, align, field offsets or None)"""
        t = t.strip()
        r = self._lay.get(t)
        if r is not None:
            return r
        if t in SZ:
            s = SZ[t]
            r = (s, s or 1, None)
        elif t.startswith('['):
            m = re.match(r'\[(\d+) x (.*)\]$', t, re.S)
            s, a, _ = self.layout(m.group(2))
            r = (int(m.group(1)) * s, a, None)
        elif t.startswith('%'):
            body = self.types.get(t[1:])
            if body is None or body == 'opaque':
                r = (8, 8, None)
            else:
                r = self.layout(body)
        elif t.startswith('<{') or t.startswith('{'):
            packed = t.startswith('<')
            inner = t[2:-2] if packed else t[1:-1]
            offs = []
            off = 0
            al = 1
            for f in split_top(inner):
                s, a, _ = self.layout(f)
                if packed:
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            r = (off, al, offs)
        elif t.startswith('<'):
            m = re.match(r'<(\d+) x (.*)>$', t, re.S)
            s, a, _ = self.layout(m.group(2))
            r = (int(m.group(1)) * s, a, None)
        elif re.match(r'i\d+$', t):
            s = (int(t[1:]) + 7) // 8
            r = (s, s, None)
        else:
            r = (8, 8, None)
        self._lay[t] = r
        return r

    def fields(self, t):
        t = t.strip()
        if t.startswith('%'):
            t = self.types.get(t[1:], '')
        if t.startswith('<{'):
            return split_top(t[2:-2])
        if t.startswith('{'):
            return split_top(t[1:-1])
        return []

    def elem(self, t):
        m = re.match(r'[\[<](\d+) x (.*)[\]>]$', t.strip(), re.S)
        return (int(m.group(1)), m.group(2)) if m else (None, None)

    def gep_offset(self, ty, idx):
        """byte offset for constant indices; idx entries are operands.
        returns (const_offset, [(stride, operand)...])"""
        off = 0
        var = []
        cur = ty
        first = True
        for o in idx:
            if first:
                st = self.sizeof(cur)
                if o[0] == 'c':
                    off += st * o[1]
                else:
                    var.append((st, o))
                first = False
                continue
            n, et = self.elem(cur)
            if et is not None:
                st = self.sizeof(et)
                if o[0] == 'c':
                    off += st * o[1]
                else:
                    var.append((st, o))
                cur = et
            else:
                fs = self.fields(cur)
                k = o[1] if o[0] == 'c' else 0
                off += self.layout(cur)[2][k]
                cur = fs[k]
        return off, var, cur

    # ------------- debug
    def fileline(self, d):
        if d is None:
            return (self.src or self.path, None)
        r = self._loc.get(d)
        if r is not None:
            return r
        t = self.md.get(d, '')
        m = re.search(r'DILocation\(line: (\d+)', t)
        if m:
            line = int(m.group(1))
            ms = re.search(r'scope: !(\d+)', t)
            f = self.scopefile(ms.group(1)) if ms else None
            r = (f or self.src or self.path, line)
        else:
            r = (self.src or self.path, None)
        self._loc[d] = r
        return r

    def lineof(self, d):
        return self.fileline(d)[1]

    def scopefile(self, s):
        t = self.md.get(s, '')
        m = re.search(r'file: !(\d+)', t)
        if m:
            ft = self.md.get(m.group(1), '')
            mm = re.search(r'filename: "([^"]*)"', ft)
            if mm:
                return mm.group(1)
        m = re.search(r'scope: !(\d+)', t)
        return self.scopefile(m.group(1)) if m else None

    def scalars(self, ty, limit=1024):
        """offsets of the scalar members of a type (up to a limit)"""
        fs = self.fields(ty)
        if fs:
            offs = self.layout(ty)[2] or []
        else:
            n, et = self.elem(ty)
            if n is None:
                return [0]
            n = min(n, limit)
            fs = [et] * n
            offs = [k * self.sizeof(et) for k in range(n)]
        r = []
        for f, o in zip(fs, offs):
            if len(r) >= limit:
                break
            r += [o + k for k in self.scalars(f, limit - len(r))]
        return r

    def flatten(self, ty, init):
        """{offset: integer} of the integer (and null) members of a constant initialiser; None if not understood"""
        init = init.strip()
        if init == 'zeroinitializer':
            return {k: 0 for k in range(0, min(self.sizeof(ty), 1024), 4)}
        if re.match(r'-?\d+$', init):
            return {0: int(init)}
        if init == 'null':
            return {0: 0}
        if init in ('true', 'false'):
            return {0: int(init == 'true')}
        fs = self.fields(ty)
        if fs and init[0] in '{<':
            parts = split_top(init.strip('<>').strip()[1:-1])
            offs = self.layout(ty)[2]
            if offs is None or len(parts) != len(fs):
                return None
        elif init[0] == '[':
            n, et = self.elem(ty)
            parts = split_top(init[1:-1])
            if n != len(parts) or n > 64:
                return None
            fs = [et] * n
            offs = [k * self.sizeof(et) for k in range(n)]
        else:
            return {}
        r = {}
        for f, o, t in zip(fs, offs, parts):
            f = f.strip()
            t = t.strip()
            if not t.startswith(f):
                return None
            m = self.flatten(f, t[len(f):])
            if m is None:
                return None
            for k, v in m.items():
                r[o + k] = v
        return r

    def cstring(self, name):
        g = self.globals.get(name)
        if not g or g['init'] is None:
            return None
        return parse_cstr(g['init'])


def parse_cstr(init):
    init = init.strip()
    if init.startswith('c"'):
        s = init[2:init.rindex('"')]
        out = []
        i = 0
        while i < len(s):
            if s[i] == '\\':
                out.append(chr(int(s[i + 1:i + 3], 16)))
                i += 3
            else:
                out.append(s[i])
                i += 1
        r = ''.join(out)
        return r[:r.index('\0')] if '\0' in r else r
    if init == 'zeroinitializer':
        return ''
    return None


def split_top(s, sep=','):
    out = []
    d = 0
    cur = []
    q = False
    for ch in s:
        if q:
            cur.append(ch)
            if ch == '"':
                q = False
            continue
        if ch == '"':
            q = True
            cur.append(ch)
        elif ch in '([{<':
            d += 1
            cur.append(ch)
        elif ch in ')]}>':
            d -= 1
            cur.append(ch)
        elif ch == sep and d == 0:
            out.append(''.join(cur).strip())
            cur = []
        else:
            cur.append(ch)
    t = ''.join(cur).strip()
    if t:
        out.append(t)
    return out


_type_re = re.compile(r'(?:void|ptr|float|double|x86_fp80|i\d+|label|metadata|%"[^"]+"|%[\w.$-]+)')


def take_type(s):
    """split leading type from s -> (type, rest)"""
    s = s.lstrip()
    if s[0] in '[{<':
        d = 0
        for i, ch in enumerate(s):
            if ch in '[{<(':
                d += 1
            elif ch in ']}>)':
                d -= 1
                if d == 0:
                    t = s[:i + 1]
                    rest = s[i + 1:].lstrip()
                    break
    else:
        m = _type_re.match(s)
        if not m:
            raise ValueError('type? ' + s[:80])
        t = m.group(0)
        rest = s[m.end():].lstrip()
    if rest.startswith('addrspace'):
        rest = rest[rest.index(')') + 1:].lstrip()
    return t, rest


ATTRS = re.compile(
    r'^(?:noundef|nonnull|signext|zeroext|inreg|nocapture|readonly|writeonly|readnone|noalias|returned|immarg|nofree|'
    r'allocalign|allocptr|captures\([^)]*\)|align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|'
    r'byval\([^)]*\)|sret\([^)]*\)|range\([^)]*\))\s+')


def strip_attrs(s):
    while True:
        m = ATTRS.match(s + ' ')
        if not m:
            return s.strip()
        s = s[m.end():] if m.end() <= len(s) else ''


class Parser:
    def __init__(self, path):
        self.m = Module(path)

    def operand(self, t):
        t = t.strip()
        c = t[0]
        if c == '%':
            return ('v', t[1:])
        if c == '@':
            return ('g', t[1:].strip('"'), 0)
        if c.isdigit() or (c == '-' and t[1:2].isdigit()):
            if re.match(r'-?\d+$', t):
                return ('c', int(t))
            return ('f', t)
        if t == 'true':
            return ('c', 1)
        if t == 'false':
            return ('c', 0)
        if t == 'null':
            return NULL
        if t in ('undef', 'poison'):
            return UNDEF
        if t == 'zeroinitializer':
            return ('c', 0)
        if t.startswith('0x'):
            return ('f', t)
        m = re.match(r'getelementptr (?:inbounds |nuw |nusw )*\((.*)\)$', t)
        if m:
            parts = split_top(m.group(1))
            base = self.tyop(parts[1])[1]
            idx = [self.tyop(p)[1] for p in parts[2:]]
            try:
                off, var, _ = self.m.gep_offset(parts[0], idx)
            except Exception:
                return ('x', t)
            if base[0] == 'g' and not var:
                return ('g', base[1], base[2] + off)
        m = re.match(r'(?:bitcast|inttoptr|ptrtoint) \((.*) to .*\)$', t)
        if m:
            return self.tyop(m.group(1))[1]
        return ('x', t)

    def tyop(self, s):
        ty, rest = take_type(s)
        rest = strip_attrs(rest)
        return ty, self.operand(rest) if rest else ('x', '')

    def parse(self, text):
        m = self.m
        lines = text.split('\n')
        i = 0
        n = len(lines)
        # metadata & types first
        for l in lines:
            if l.startswith('!'):
                k = l.find(' = ')
                if k > 0:
                    m.md[l[1:k]] = l[k + 3:]
            elif l.startswith('%') and ' = type ' in l:
                k = l.index(' = type ')
                m.types[l[1:k].strip('"')] = l[k + 8:].strip()
            elif l.startswith('source_filename'):
                m.src = l.split('"')[1]
        # types may be quoted in use
        while i < n:
            l = lines[i]
            if l.startswith('@'):
                self.glob(l)
            elif l.startswith('declare'):
                mm = re.search(r'@("[^"]+"|[\w.$-]+)\(', l)
                if mm:
                    am = re.search(r'\)\s*(?:[a-z_]+ )*#(\d+)', l)
                    m.decls[mm.group(1).strip('"')] = am.group(1) if am else None
            elif l.startswith('define'):
                i = self.func(lines, i)
            i += 1
        return m

    def glob(self, l):
        mm = re.match(r'@("[^"]+"|[\w.$-]+) = (.*)$', l)
        if not mm:
            return
        name = mm.group(1).strip('"')
        rest = mm.group(2)
        internal = bool(re.match(r'(private|internal) ', rest))
        external = bool(re.match(r'external ', rest))
        k = re.search(r'\b(global|constant) ', rest)
        if not k:
            return
        body = rest[k.end():]
        ty, r2 = take_type(body)
        parts = split_top(r2) if r2 else []
        init = parts[0] if parts and not external else None
        dbg = None
        md = re.search(r'!dbg !(\d+)', rest)
        if md:
            dbg = md.group(1)
        self.m.globals[name] = dict(ty=ty, init=init, const=k.group(1) == 'constant', internal=internal,
                                    external=external, dbg=dbg)

    def func(self, lines, i):
        m = self.m
        l = lines[i]
        mm = re.search(r'@("[^"]+"|[\w.$-]+)\(', l)
        name = mm.group(1).strip('"')
        f = Func(name, m)
        f.internal = ' internal ' in l[:mm.start()] + ' '
        md = re.search(r'!dbg !(\d+)', l)
        f.dbg = md.group(1) if md else None
        # params
        d = 1
        j = mm.end()
        st = j
        while d:
            if l[j] == '(':
                d += 1
            elif l[j] == ')':
                d -= 1
            j += 1
        ps = split_top(l[st:j - 1])
        cnt = 0
        for p in ps:
            if p == '...':
                continue
            ty, rest = take_type(p)
            rest = strip_attrs(rest)
            f.ptys.append(ty)
            f.params.append(rest[1:] if rest.startswith('%') else str(cnt))
            cnt += 1
        pre = l[:mm.start()]
        for tok in re.finditer(r'(\S+)', pre):
            pass
        # return type: last type token before @
        pre = pre.strip()
        try:
            rt = pre.split(' ')
            f.rty = rt[-1]
        except Exception:
            f.rty = None
        i += 1
        cur = None
        firstlabel = str(cnt)
        while True:
            l = lines[i]
            if l.startswith('}'):
                break
            if not l or l.startswith(';'):
                i += 1
                continue
            if l[0] != ' ':
                mm = re.match(r'("[^"]+"|[\w.$-]+):', l)
                lab = mm.group(1).strip('"')
                cur = Block(lab)
                f.blocks[lab] = cur
                f.order.append(cur)
                i += 1
                continue
            if cur is None:
                cur = Block(firstlabel)
                f.blocks[firstlabel] = cur
                f.order.append(cur)
            s = l.strip()
            if 'llvm.dbg.' in s:
                dm = re.search(r'llvm\.dbg\.(?:value|declare)\(metadata \S+ %([\w.$-]+), metadata !(\d+)', s)
                if dm:
                    t = m.md.get(dm.group(2), '')
                    nm = re.search(r'name: "([^"]*)"', t)
                    if nm:
                        f.vname.setdefault(dm.group(1), nm.group(1))
                i += 1
                continue
            if s.startswith('switch') and s.endswith('['):
                while True:
                    i += 1
                    s += ' ' + lines[i].strip()
                    if lines[i].strip().startswith(']'):
                        break
            cur.ins.append(self.instr(s))
            i += 1
        f.finish()
        m.funcs[name] = f
        return i

    def instr(self, s):
        dbg = None
        k = s.find(', !dbg !')
        if k >= 0:
            e = k + 8
            j = e
            while j < len(s) and s[j].isdigit():
                j += 1
            dbg = s[e:j]
            s = s[:k]
        k = s.find(', !')
        if k >= 0 and not s.startswith('call') and 'call ' not in s[:30]:
            s = s[:k]
        dst = None
        if s[0] == '%':
            k = s.index(' = ')
            dst = s[1:k]
            s = s[k + 3:]
        op, _, rest = s.partition(' ')
        if op in ('tail', 'musttail', 'notail'):
            op, _, rest = rest.partition(' ')
        I = Ins(op, dst, dbg=dbg)
        if op == 'load':
            rest = re.sub(r'^(volatile|atomic) ', '', rest)
            p = split_top(rest)
            I.ty = p[0]
            I.args = (self.tyop(p[1])[1],)
        elif op == 'store':
            rest = re.sub(r'^(volatile|atomic) ', '', rest)
            p = split_top(rest)
            ty, v = self.tyop(p[0])
            I.ty = ty
            I.args = (v, self.tyop(p[1])[1])
        elif op == 'br':
            if rest.startswith('label'):
                t = rest.split('%')[1].split(',')[0].strip()
                I.op = 'jmp'
                I.succ = (t,)
            else:
                p = split_top(rest)
                I.args = (self.tyop(p[0])[1],)
                I.succ = (p[1].split('%')[1].strip(), p[2].split('%')[1].strip())
        elif op == 'switch':
            mm = re.match(r'(\S+) (\S+), label %([\w.$-]+) \[(.*)\]', rest)
            I.ty = mm.group(1)
            I.args = (self.operand(mm.group(2)),)
            cases = []
            for c in re.finditer(r'\S+ (-?\d+|true|false), label %([\w.$-]+)', mm.group(4)):
                v = c.group(1)
                v = 1 if v == 'true' else 0 if v == 'false' else int(v)
                cases.append((v, c.group(2)))
            I.x = cases
            I.succ = (mm.group(3),) + tuple(c[1] for c in cases)
        elif op == 'ret':
            if rest.strip() == 'void':
                I.args = ()
            else:
                ty, v = self.tyop(rest)
                I.ty = ty
                I.args = (v,)
        elif op in ('unreachable', 'resume', 'fence'):
            pass
        elif op == 'call':
            self.call(I, rest)
        elif op == 'phi':
            ty, r = take_type(rest)
            I.ty = ty
            inc = []
            for mm in split_top(r):
                mm = mm.strip()[1:-1]
                v, b = mm.rsplit(',', 1)
                inc.append((self.operand(v), b.strip()[1:]))
            I.x = inc
            I.args = tuple(v for v, _ in inc)
        elif op == 'getelementptr':
            rest = re.sub(r'^(?:inbounds |nuw |nusw )+', '', rest)
            p = split_top(rest)
            I.ty = p[0]
            I.args = tuple(self.tyop(q)[1] for q in p[1:])
        elif op in ('icmp', 'fcmp'):
            toks = rest.split(' ', 1)
            while toks[0] in ('fast', 'nnan', 'ninf', 'nsz', 'samesign'):
                toks = toks[1].split(' ', 1)
            I.x = toks[0]
            p = split_top(toks[1])
            ty, a = self.tyop(p[0])
            I.ty = ty
            I.args = (a, self.operand(p[1]))
        elif op == 'select':
            p = split_top(rest)
            I.args = (self.tyop(p[0])[1], self.tyop(p[1])[1], self.tyop(p[2])[1])
            I.ty = self.tyop(p[1])[0]
        elif op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
                    'fpext', 'fptrunc', 'addrspacecast'):
            rest = re.sub(r'^(?:nneg |nuw |nsw )+', '', rest)
            a, b = rest.rsplit(' to ', 1)
            ty, v = self.tyop(a)
            I.x = ty
            I.args = (v,)
            I.ty = b.strip()
        elif op == 'alloca':
            p = split_top(rest)
            I.ty = p[0]
            I.args = ()
            if len(p) > 1 and not p[1].startswith('align'):
                I.args = (self.tyop(p[1])[1],)
        elif op in ('fneg', 'freeze'):
            rest = re.sub(r'^(?:fast |nnan |ninf |nsz )+', '', rest)
            ty, v = self.tyop(rest)
            I.ty = ty
            I.args = (v,)
        elif op in ('extractvalue', 'insertvalue', 'va_arg', 'atomicrmw', 'cmpxchg', 'extractelement', 'insertelement',
                    'shufflevector'):
            vs = re.findall(r'%[\w.$-]+', rest)
            I.args = tuple(('v', v[1:]) for v in vs if not v.startswith('%struct'))
        else:
            # binary operators
            rest = re.sub(r'^(?:nuw |nsw |exact |disjoint |fast |nnan |ninf |nsz |arcp |contract |afn |reassoc )+', '',
                          rest)
            p = split_top(rest)
            ty, a = self.tyop(p[0])
            I.ty = ty
            I.args = (a, self.operand(p[1]))
        return I

    def call(self, I, rest):
        # [fast-math] [cc] [ret attrs] <ty>|<fnty> <fnptrval>(args) [attrs]
        mm = re.match(r'(?:fast |nnan |ninf |nsz |contract |afn |reassoc |arcp )+', rest)
        if mm:
            rest = rest[mm.end():]
        rest = strip_attrs_call(rest)
        ty, r = take_type(rest)
        if r.startswith('('):  # function type
            d = 0
            for j, ch in enumerate(r):
                if ch == '(':
                    d += 1
                elif ch == ')':
                    d -= 1
                    if d == 0:
                        break
            r = r[j + 1:].lstrip()
        I.ty = ty
        k = r.index('(')
        cal = r[:k].strip()
        d = 0
        for j in range(k, len(r)):
            if r[j] == '"':
                pass
            if r[j] == '(':
                d += 1
            elif r[j] == ')':
                d -= 1
                if d == 0:
                    break
        args = []
        for a in split_top(r[k + 1:j]):
            if a.startswith('metadata'):
                args.append(('x', a))
            else:
                args.append(self.tyop(a)[1])
        I.args = tuple(args)
        if cal.startswith('@'):
            I.x = cal[1:].strip('"')
        else:
            I.x = None
            I.args = tuple(args) + (self.operand(cal),) if cal else tuple(args)


def strip_attrs_call(s):
    while True:
        m = re.match(r'(?:noundef|nonnull|signext|zeroext|noalias|inreg|ccc|fastcc|align \d+|dereferenceable\(\d+\)|'
                     r'dereferenceable_or_null\(\d+\)|range\([^)]*\)) ', s)
        if not m:
            return s
        s = s[m.end():]


def parse_file(path):
    with open(path) as fh:
        return Parser(path).parse(fh.read())
