"""Fortran units: gfortran's GIMPLE (SSA dump) parsed into the same small IR as llir.

gfortran is only asked to compile; nothing is executed.  Memory is modelled as in the C
front end (object, offset); component names are mapped to distinct artificial offsets.
"""
import os
import re
import subprocess
import zlib

from . import llir
from .llir import Block, Func, Ins, Module, NULL, UNDEF

FLAGS = ['-c', '-O1', '-g', '-w', '-fdefault-real-8', '-ffree-line-length-none', '-fcray-pointer']

LOC = re.compile(r'\[([^\]\s:"]+):(\d+):(\d+)(?: discrim \d+)?\] ?')
LOC0 = re.compile(r'\[0:0\] ?')
TOK = re.compile(r'''\s*(?:(?P<str>"(?:\\.|[^"\\])*")
 |(?P<num>[-+]?(?:Inf|Nan|QNaN)\b|-?\d+\.\d*(?:e[+-]?\d+)?|-?\d+B|-?\d+e[+-]?\d+|-?\d+)
 |(?P<id>[A-Za-z_.$][A-Za-z0-9_.$]*(?:\(D\))?)
 |(?P<op>->|<=|>=|==|!=|<<|>>|\.\.\.|[-+*/%&|^<>!~?:,;=()\[\]{}.@#]))''', re.X)

EXITV = {'_gfortran_stop_numeric'}
EXIT0 = {'_gfortran_stop_string'}
EXITP = {'_gfortran_exit_i4', '_gfortran_exit_i8', 'exit_'}
ABORT = re.compile(r'(_gfortran_error_stop_|_gfortran_os_error|_gfortran_runtime_error|_gfortran_abort|_gfortran_generate_error|__builtin_unreachable|__builtin_abort)')
RUNTIME_ERR = re.compile(r'_gfortran_(runtime_error|os_error)')
CMP = {'==': 'eq', '!=': 'ne', '<': 'slt', '<=': 'sle', '>': 'sgt', '>=': 'sge'}
BINOPS = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'sdiv', '%': 'srem', '&': 'and', '|': 'or', '^': 'xor', '<<': 'shl',
          '>>': 'ashr'}


class Unparsed(Exception):
    pass


def strip_loc(s):
    """text without location prefixes, and the first location"""
    m = LOC.search(s)
    loc = (m.group(1), int(m.group(2))) if m else None
    return LOC0.sub('', LOC.sub('', s)).replace('<retval>', 'RETVAL__'), loc


def tokens(s):
    out = []
    p = 0
    while p < len(s):
        m = TOK.match(s, p)
        if not m:
            if s[p:].strip() == '':
                break
            raise Unparsed(s)
        k = m.lastgroup
        t = m.group(k)
        p = m.end()
        # a number following an operand is a binary minus glued to a literal
        if k == 'num' and t[0] == '-' and out and (out[-1][0] in ('id', 'num') or out[-1][1] in (')', ']', '}')):
            out.append(('op', '-'))
            t = t[1:]
        out.append((k, t))
    return out


def fieldoff(name):
    return (zlib.crc32(name.encode()) & 0xffffffff) * 64 + (1 << 40)


def split_params(s):
    out = []
    d = 0
    cur = ''
    for c in s:
        if c in '([<{':
            d += 1
        elif c in ')]>}':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return out


class FnParser:
    def __init__(self, mod, fn, text, consts):
        self.mod = mod
        self.fn = fn
        self.consts = consts
        self.lines = text
        self.decl = {'RETVAL__': 'void'}
        self.static = set()
        self.n = 0
        self.cur = None
        self.loc = None
        self.chain = None
        self.allocas = {}

    # ---- emission
    def emit(self, op, ty=None, args=(), x=None, dst=False, succ=()):
        d = None
        if dst is True:
            self.n += 1
            d = '%%t%d' % self.n
        elif dst:
            d = dst
        i = Ins(op, d, ty, tuple(args), x, self.loc)
        i.succ = tuple(succ)
        self.cur.ins.append(i)
        return ('v', d) if d else None

    # ---- tokens
    def peek(self, k=0):
        return self.t[self.p + k] if self.p + k < len(self.t) else ('', '')

    def next(self):
        r = self.peek()
        self.p += 1
        return r

    def eat(self, v):
        if self.peek()[1] != v or self.peek()[0] == 'str':
            raise Unparsed('%s expected at %d in %s' % (v, self.p, self.src))
        self.p += 1

    # ---- names
    def ssa(self, t):
        """canonical SSA name, or None if the name denotes memory"""
        dflt = t.endswith('(D)')
        m = re.match(r'^(.*)_(\d+)(\(D\))?$', t)
        if not m:
            return None
        b = m.group(1)
        if dflt:
            if b in self.fn.params:
                return b
            return t
        if b == '' or b in self.decl or b in self.pnames or re.search(r'\.\d+$', b) or b.startswith('CHAIN'):
            return t
        if t in self.decl:
            return None
        return None

    def memvar(self, name):
        """(base operand, offset, rest-of-dotted-name) for a memory variable"""
        parts = name.split('.')
        if name.startswith('.'):
            k = len(parts)
            cands = [(name, '')] if name in self.decl or name in self.pnames else []
        else:
            cands = []
        for k in range(len(parts), 0, -1):
            n = '.'.join(parts[:k])
            if n in self.decl or n in self.pnames or n in self.consts:
                cands.append((n, '.'.join(parts[k:])))
        if cands:
            n, rest = cands[0]
        else:
            n, rest = name, ''
            # C.123 / module variables / static temporaries: no components in the name unless a digit follows
            m = re.match(r'^([A-Za-z_$][\w$]*(?:\.\d+)?)(?:\.(.*))?$', name)
            if m:
                n, rest = m.group(1), m.group(2) or ''
        off = 0
        for f in [x for x in rest.split('.') if x]:
            off += fieldoff(f)
        if (n in self.decl or n in self.pnames) and n not in self.static:
            if n not in self.allocas:
                self.allocas[n] = '%m.' + n
            return ('v', self.allocas[n]), off
        g = self.fn.name + ':' + n if n in self.static else n
        if g not in self.mod.globals:
            self.mod.globals[g] = {'ty': 'i32', 'init': None, 'const': False, 'internal': not re.match(r'__\w+_MOD_', g)}
        return ('g', g, 0), off

    # ---- references: returns ('val', op) | ('addr', base, off)
    def postfix(self, r):
        while True:
            k, t = self.peek()
            if k == 'op' and t == '[':
                self.p += 1
                ix = self.operand()
                # [a]{lb: x sz: y}
                while self.peek()[1] not in (']', ''):
                    self.p += 1
                    ix = None
                self.eat(']')
                sz = 8
                lb = 0
                if self.peek()[1] == '{':
                    self.p += 1
                    while self.peek()[1] != '}':
                        k2, t2 = self.next()
                        if t2 == 'lb' and self.peek()[1] == ':' and self.peek(1)[0] == 'num':
                            lb = int(self.peek(1)[1])
                        elif t2 == 'lb':
                            lb = None
                        if t2 == 'sz' and self.peek()[1] == ':' and self.peek(1)[0] == 'num':
                            sz = int(self.peek(1)[1])
                    self.eat('}')
                if r[0] == 'val':
                    r = ('addr', r[1], 0)
                if ix is not None and ix[0] == 'c' and lb is not None and r[2] is not None:
                    r = ('addr', r[1], r[2] + (ix[1] - lb) * sz)
                else:
                    r = ('addr', r[1], None)
            elif k == 'op' and t == '->':
                self.p += 1
                name = self.next()[1]
                base = self.load(r) if r[0] == 'addr' else r[1]
                off = 0
                for f in name.split('.'):
                    off += fieldoff(f)
                r = ('addr', base, off)
            elif k == 'id' and t.startswith('.') and r[0] == 'addr':
                self.p += 1
                off = r[2]
                if off is not None:
                    for f in [x for x in t.split('.') if x]:
                        off += fieldoff(f)
                r = ('addr', r[1], off)
            elif k == 'op' and t == '.' and r[0] == 'addr':
                self.p += 1
            else:
                return r

    def primary(self):
        k, t = self.peek()
        if k == 'str':
            self.p += 1
            return ('addr', self.string(t), 0)
        if k == 'num':
            self.p += 1
            if t.endswith('B'):
                return ('val', NULL if t == '0B' else ('c', int(t[:-1])))
            if re.match(r'-?\d+$', t):
                return ('val', ('c', int(t)))
            return ('val', ('f', t))
        if k == 'op' and t == '*':
            self.p += 1
            r = self.ref()
            b = self.load(r) if r[0] == 'addr' else r[1]
            return ('addr', b, 0)
        if k == 'op' and t == '&':
            self.p += 1
            r = self.ref()
            return ('val', self.address(r))
        if k == 'op' and t == '(':
            # (*x) or a cast
            if self.peek(1)[1] in ('*', '(') and self.peek(1)[0] == 'op':
                self.p += 1
                r = self.ref()
                self.eat(')')
                return r
            self.skip_group('(', ')')
            r = self.ref()
            return r
        if k == 'id' and t == 'MEM':
            self.p += 1
            if self.peek()[1] == '<':
                self.skip_group('<', '>')
            self.eat('[')
            if self.peek()[1] == '(':
                self.skip_group('(', ')')
            r = self.ref()
            b = self.load(r) if r[0] == 'addr' else r[1]
            off = 0
            while self.peek()[1] != ']':
                k2, t2 = self.next()
                if k2 == 'num' and t2.endswith('B'):
                    off = int(t2[:-1])
                elif k2 == 'id' or t2 == '':
                    off = None
                    if t2 == '':
                        raise Unparsed(self.src)
            self.eat(']')
            return ('addr', b, off)
        if k == 'id' and t in ('VIEW_CONVERT_EXPR', 'REALPART_EXPR', 'IMAGPART_EXPR', 'BIT_FIELD_REF'):
            self.p += 1
            self.skip_group('<', '>')
            if self.peek()[1] == '(':
                self.skip_group('(', ')')
            return ('val', UNDEF)
        if k == 'op' and t == '{':
            self.skip_group('{', '}')
            return ('val', UNDEF)
        if k == 'id':
            self.p += 1
            # NAME_5(D)->f, NAME.f
            s = self.ssa(t)
            if s is not None:
                return ('val', ('v', s) if s in self.known else UNDEF)
            b, off = self.memvar(t)
            return ('addr', b, off)
        raise Unparsed('%s at %d in %s' % (t, self.p, self.src))

    def ref(self):
        return self.postfix(self.primary())

    def skip_group(self, a, b):
        self.eat(a)
        d = 1
        while d:
            k, t = self.next()
            if k == '':
                raise Unparsed(self.src)
            if k == 'op':
                if t == a:
                    d += 1
                elif t == b:
                    d -= 1
                elif t == '>>' and b == '>':
                    d -= 2
        return

    def address(self, r):
        if r[0] == 'val':
            return r[1]
        if r[2] == 0:
            return r[1]
        return self.emit('getelementptr', 'i8', (r[1], ('c', r[2]) if r[2] is not None else UNDEF), dst=True)

    def load(self, r):
        if r[0] == 'val':
            return r[1]
        return self.emit('load', 'i32', (self.address(r),), dst=True)

    def operand(self):
        r = self.ref()
        return self.load(r)

    def string(self, t):
        s = bytes(t[1:-1], 'utf-8').decode('unicode_escape', 'replace')
        g = 'str.%x.%d' % (zlib.crc32(s.encode('utf-8', 'replace')), len(s))
        if g not in self.mod.globals:
            self.mod.globals[g] = {'ty': 'ptr', 'init': None, 'const': True, 'internal': True, 'str': s}
            self.mod.strings[g] = s
        return ('g', g, 0)

    # ---- statements
    def rhs(self, dst=None):
        """value of the right-hand side; dst names the SSA result if there is one"""
        k, t = self.peek()
        k1, t1 = self.peek(1)
        if k == 'id' and t in ('MAX_EXPR', 'MIN_EXPR') and t1 == '<':
            self.p += 2
            a = self.operand()
            self.eat(',')
            b = self.operand()
            self.eat('>')
            c = self.emit('icmp', 'i1', (a, b), 'sgt' if t[1] == 'A' else 'slt', dst=True)
            return self.emit('select', 'i64', (c, a, b), dst=dst or True)
        if k == 'id' and t in ('ABS_EXPR', 'FLOAT_EXPR') or k == 'id' and t1 == '<' and t.isupper() and t != 'MEM' and len(t) > 3:
            return self.emit('unknown', 'i64', (), dst=dst or True)
        if k == 'op' and t == '(' and t1 == '(' and len(self.t) - self.p >= 5 and self.peek(3)[1] == ')':
            self.p += 2
            a = self.operand()
            self.eat(')')
            self.eat(')')
            return self.emit('bitcast', 'i64', (a,), dst=dst) if dst else a
        if k == 'op' and t == '(' and not (t1 == '*' and k1 == 'op'):
            # cast
            self.skip_group('(', ')')
            a = self.operand()
            return self.emit('bitcast', 'i64', (a,), dst=dst or True)
        if k == 'op' and t in ('-', '~', '!'):
            self.p += 1
            a = self.operand()
            if t == '-':
                return self.emit('sub', 'i64', (('c', 0), a), dst=dst or True)
            if t == '!':
                return self.emit('icmp', 'i1', (a, ('c', 0)), 'eq', dst=dst or True)
            # logical not of a truth value is printed ~x
            return self.emit('icmp', 'i1', (a, ('c', 0)), 'eq', dst=dst or True)
        a = self.operand()
        k, t = self.peek()
        if k == 'op' and t in CMP:
            self.p += 1
            b = self.operand()
            c = self.cmp(t, a, b)
            if self.peek()[1] == '?':
                self.p += 1
                x = self.operand()
                self.eat(':')
                y = self.operand()
                return self.emit('select', 'i64', (c, x, y), dst=dst or True)
            return self.emit('zext', 'i32', (c,), 'i1', dst=dst or True)
        if k == 'op' and t == '?':
            self.p += 1
            x = self.operand()
            self.eat(':')
            y = self.operand()
            return self.emit('select', 'i64', (a, x, y), dst=dst or True)
        if k == 'op' and t in BINOPS:
            self.p += 1
            if t in '/%' and self.peek()[1] == '[' and self.peek(1)[1] in ('fl', 'cl', 'rd', 'ex'):
                self.p += 3
                self.operand()
                return self.emit('unknown', 'i64', (), dst=dst or True)
            b = self.operand()
            if self.isptr(a) and t == '+':
                return self.emit('getelementptr', 'i8', (a, b), dst=dst or True)
            return self.emit(BINOPS[t], 'i64', (a, b), dst=dst or True)
        if dst:
            last = self.cur.ins[-1] if self.cur.ins else None
            if a[0] == 'v' and last is not None and last.op == 'load' and last.dst == a[1]:
                last.dst = dst
                return ('v', dst)
            return self.emit('bitcast', 'i64', (a,), dst=dst)
        return a

    def isptr(self, o):
        return o[0] == 'v' and '*' in self.decl.get(o[1], '')

    def cmp(self, t, a, b):
        if a[0] == 'f' or b[0] == 'f' or 'real(' in self.tyof(a) or 'real(' in self.tyof(b):
            return self.emit('fcmp', 'i1', (a, b), t, dst=True)
        return self.emit('icmp', 'i1', (a, b), CMP[t], dst=True)

    def tyof(self, o):
        if o[0] != 'v':
            return ''
        n = o[1]
        if n in self.decl:
            return self.decl[n]
        return self.decl.get(re.sub(r'_\d+$', '', n), '')

    def callargs(self):
        self.eat('(')
        args = []
        while self.peek()[1] != ')':
            args.append(self.operand())
            if self.peek()[1] == ',':
                self.p += 1
        self.eat(')')
        # [static-chain: &FRAME.3]
        rest = self.t[self.p:]
        for j, (k, t) in enumerate(rest):
            if t == 'static' or t == 'chain':
                pass
        while self.peek()[1] == '[':
            self.p += 1
            name = ''
            while self.peek()[1] not in (':', ']'):
                name += self.next()[1]
            if self.peek()[1] == ':' and name == 'static-chain':
                self.p += 1
                args.append(('CHAIN', self.operand()))
                self.eat(']')
            else:
                while self.next()[1] != ']':
                    pass
        return args

    def is_call(self):
        """NAME ( ... with a blank before the parenthesis: a call"""
        if self.peek()[0] != 'id' or self.peek(1)[1] != '(':
            return False
        return True

    def call(self, dst=None):
        name = self.next()[1]
        args = self.callargs()
        chain = [a[1] for a in args if a[0] == 'CHAIN']
        args = [a for a in args if a[0] != 'CHAIN'] + chain
        if self.ssa(name):
            return self.emit('call', 'i32', args, None, dst=dst)
        if name in EXITP:
            v = ('c', 0)
            if args and args[0] != NULL:
                v = self.emit('load', 'i32', (args[0],), dst=True)
            self.emit('call', 'void', (v,), 'exit')
            return None
        if name in EXITV:
            self.emit('call', 'void', (args[0],), 'exit')
            return None
        if name in EXIT0:
            self.emit('call', 'void', (('c', 0),), 'exit')
            return None
        if ABORT.match(name):
            self.emit('call', 'void', tuple(args), 'abort')
            return None
        m = re.match(r'__builtin_(malloc|realloc|free|memcpy|memmove|memset|memcmp)$', name)
        if m:
            name = m.group(1)
        return self.emit('call', 'i32', args, name, dst=dst)

    def stmt(self, s):
        s = s.strip()
        if not s or s.startswith('# DEBUG') or s.startswith('//'):
            return
        m = re.match(r'^([A-Za-z_.$][\w.$]*(?:\(D\))?|.*?) =\{v\} \{CLOBBER', s)
        if m:
            return
        s = re.sub(r'=\{v\} ', '= ', s)
        self.src = s
        if s.startswith('# '):
            m = re.match(r'# (\S+) = PHI <(.*)>$', s)
            if m:
                if self.ssa(m.group(1)) is None:
                    return
                inc = []
                for a in split_params(m.group(2)):
                    a = a.strip()
                    mm = re.match(r'^(.*)\((\d+)\)$', a)
                    self.t = tokens(mm.group(1))
                    self.p = 0
                    inc.append((self.phiop(mm.group(1)), mm.group(2)))
                self.pend.append((self.cur, self.ssa(m.group(1)), inc, self.loc))
            return
        s = s.rstrip()
        if s.endswith(';'):
            s = s[:-1]
        self.t = tokens(s)
        self.p = 0
        if not self.t:
            return
        if self.t[0][1] == 'return':
            self.p = 1
            a = ()
            if self.peek()[0]:
                a = (self.operand(),)
            self.emit('ret', None, a)
            return
        # label inside a block
        if len(self.t) >= 2 and self.t[-1][1] == ':':
            lab = s.rstrip()[:-1].strip().strip('<>').strip()
            self.labels[lab] = self.cur.label
            return
        # find top-level '='
        d = 0
        eq = None
        for j, (k, t) in enumerate(self.t):
            if k == 'op':
                if t in '([{':
                    d += 1
                elif t in ')]}':
                    d -= 1
                elif t == '=' and d == 0:
                    eq = j
                    break
        if eq is None:
            if self.is_call():
                self.call()
                return
            raise Unparsed(s)
        lhs = self.t[:eq]
        rhs = self.t[eq + 1:]
        name = self.ssa(lhs[0][1]) if len(lhs) == 1 and lhs[0][0] == 'id' else None
        self.t, self.p = rhs, 0
        if self.is_call() and rhs[0][1] not in ('MEM',):
            v = self.call(name or True)
            if name is None and v is not None:
                self.t, self.p = lhs, 0
                r = self.ref()
                if r[0] == 'addr':
                    self.emit('store', 'i32', (v, self.address(r)))
            return
        if name is not None:
            self.rhs(name)
            return
        v = self.rhs()
        self.t, self.p = lhs, 0
        r = self.ref()
        if r[0] == 'addr':
            self.emit('store', 'i32', (v, self.address(r)))

    def phiop(self, s):
        """operand of a phi: no code may be emitted for it"""
        save = self.cur
        self.cur = Block('scratch')
        try:
            v = self.operand()
            if self.cur.ins:
                ins = self.cur.ins[-1]
                v = UNDEF
        finally:
            self.cur = save
        return v

    def parse(self, header, lines):
        fn = self.fn
        # parameters
        self.pnames = {}
        for p in split_params(header):
            p = p.strip()
            if not p or p == 'void':
                continue
            n = p.split()[-1]
            self.pnames[n] = p
            fn.params.append(n)
            fn.ptys.append('ptr' if re.search(r'[&*]', p) else 'i64')
        body = []
        blocks_started = False
        nblk = 0
        for raw in lines:
            l, loc = strip_loc(raw)
            if not blocks_started:
                if re.match(r'^\s*<bb \d+> ', l):
                    blocks_started = True
                else:
                    self.declline(l)
                    continue
            l = re.sub(r'; ((?:\[(?:static-chain: [^\]]*|tail call|return slot optimization|must tail call)\] ?)+)$', r' \1;', l.rstrip())
            body.append((l, loc))
        text = '\n'.join(l for l, _ in body)
        m = re.search(r'\b(CHAIN\.\d+)_\d+\(D\)', text)
        if m:
            fn.params.append(m.group(1))
            fn.ptys.append('ptr')
            self.pnames[m.group(1)] = '*'
        # which SSA names have a definition
        self.known = set(fn.params)
        for l, _ in body:
            mm = re.match(r'^\s*(?:# )?([\w.$]*_\d+) = ', l)
            if mm and self.ssa(mm.group(1)):
                self.known.add(mm.group(1))
        self.labels = {}
        self.pend = []
        sw = []
        order = []
        # join statements that the dump splits over lines (if/else, switch)
        k = 0
        while k < len(body):
            l, loc = body[k]
            if loc:
                self.loc = loc
            s = l.strip()
            k += 1
            m = re.match(r'^<bb (\d+)> ', s)
            if m:
                if self.cur is not None and not (self.cur.ins and self.cur.ins[-1].op in ('ret', 'br', 'jmp', 'switch', 'unreachable')):
                    self.emit('jmp', succ=(m.group(1),))
                self.cur = Block(m.group(1))
                fn.blocks[m.group(1)] = self.cur
                fn.order.append(self.cur)
                nblk += 1
                continue
            if s in ('{', '}', '', 'GIMPLE_NOP'):
                continue
            if s.startswith('if ('):
                self.src = s
                cond = s[s.index('(') + 1:s.rindex(')')]
                g1 = re.search(r'goto <bb (\d+)>', body[k][0])
                g2 = re.search(r'goto <bb (\d+)>', body[k + 2][0])
                if not g1 or not g2:
                    raise Unparsed(s)
                k += 3
                self.t = tokens(cond)
                self.p = 0
                a = self.operand()
                kk, t = self.peek()
                if kk == 'op' and t in CMP:
                    self.p += 1
                    b = self.operand()
                    c = self.cmp(t, a, b)
                else:
                    c = self.emit('icmp', 'i1', (a, ('c', 0)), 'ne', dst=True)
                self.emit('br', None, (c,), succ=(g1.group(1), g2.group(1)))
                continue
            m = re.match(r'^goto <bb (\d+)>', s)
            if m:
                self.emit('jmp', succ=(m.group(1),))
                continue
            if s.startswith('switch ('):
                while not s.rstrip().endswith('>'):
                    s += ' ' + body[k][0].strip()
                    k += 1
                m = re.match(r'^switch \((.*?)\) <(.*)>$', s)
                self.t = tokens(m.group(1))
                self.p = 0
                self.src = s
                v = self.operand()
                i = Ins('switch', None, None, (v,), m.group(2), self.loc)
                self.cur.ins.append(i)
                sw.append(i)
                continue
            while not s.startswith('#') and not s.endswith(';') and not s.endswith(':') and k < len(body) and not re.match(
                    r'^\s*<bb ', body[k][0]):
                s += '\n' + body[k][0]
                k += 1
            mark = len(self.cur.ins)
            try:
                self.stmt(s)
            except Unparsed:
                # a form the reader does not know: nothing is known about its result
                del self.cur.ins[mark:]
                self.mod.unread.append((fn.name, s))
                m = re.match(r'^\s*([\w.$]*_\d+) = ', s)
                d = m and self.ssa(m.group(1))
                m = re.search(r'(?:^|= )\s*([A-Za-z_][\w.$]*) \(', s)
                if m and not m.group(1).isupper():
                    self.emit('call', 'i32', (), m.group(1), dst=d or None)
                elif d:
                    self.emit('unknown', 'i64', (), dst=d)
        if not fn.order:
            raise Unparsed('empty function ' + fn.name)
        # ends without a terminator
        last = self.cur
        if not (last.ins and last.ins[-1].op in ('ret', 'br', 'jmp', 'switch')):
            self.emit('unreachable')
        for i in sw:
            cases = []
            dflt = None
            for c in split_params(i.x):
                c = re.sub(r'\[[^\]]*\]', '', c).strip()
                m = re.match(r'^default: (.*)$', c)
                if m:
                    dflt = self.labels.get(m.group(1).strip().strip('<>').strip())
                    continue
                m = re.match(r'^case (-?\d+)(?: \.\.\. (-?\d+))?: (.*)$', c)
                if not m:
                    raise Unparsed(i.x)
                lab = self.labels.get(m.group(3).strip().strip('<>').strip())
                lo = int(m.group(1))
                hi = int(m.group(2) or lo)
                if lab is None:
                    raise Unparsed('label of ' + c)
                for x in range(lo, min(hi, lo + 300) + 1):
                    cases.append((x, lab))
            if dflt is None:
                raise Unparsed('no default in ' + str(i.x))
            i.x = cases
            i.succ = tuple([dflt] + [c for _, c in cases])
        for blk, dst, inc, loc in reversed(self.pend):
            p = Ins('phi', dst, 'i64', tuple(o for o, _ in inc), inc, loc)
            blk.ins.insert(0, p)
        # allocas at entry
        ent = fn.order[0]
        pre = []
        for n, a in self.allocas.items():
            pre.append(Ins('alloca', a, 'i64', (), None, None))
            if n in self.pnames:
                s = Ins('store', None, 'i64', (('v', n), ('v', a)), None, None)
                pre.append(s)
        ent.ins[0:0] = pre
        # the noreturn runtime calls end their block
        for b in fn.order:
            for j, i in enumerate(b.ins):
                if i.op == 'call' and i.x in ('exit', 'abort'):
                    u = Ins('unreachable', None, None, (), None, i.dbg)
                    b.ins[j + 1:] = [u]
                    break
        live = set(fn.blocks)
        fn.finish()
        # phi inputs over edges that no longer exist
        for b in fn.order:
            pl = set(q.label for q in b.pred)
            for i in b.ins:
                if i.op == 'phi':
                    i.x = [(o, l) for o, l in i.x if l in pl]
                    i.args = tuple(o for o, _ in i.x)
        fn.vname = {}

    def declline(self, l):
        s = l.strip()
        if not s.endswith(';'):
            return
        s = s[:-1]
        s = re.sub(r'\s*\[value-expr:.*\]\s*$', '', s)
        st = s.startswith('static ')
        s = re.sub(r' = .*$', '', s) if ' = ' in s else s
        s = re.sub(r'(\[[^\[\]]*\])+$', '', s).strip()
        parts = s.rsplit(' ', 1)
        if len(parts) != 2:
            return
        n = parts[1].lstrip('*&')
        self.decl[n] = parts[0]
        if st:
            self.static.add(n)


class FModule(Module):
    def __init__(self, path):
        Module.__init__(self, path)
        self.strings = {}
        self.unread = []

    def fileline(self, d):
        return d if d else (self.src, None)

    def cstring(self, name):
        return self.strings.get(name)


def parse(ssa, orig, src):
    mod = FModule(ssa)
    mod.src = src
    consts = {}
    for m in re.finditer(r'static (integer|logical)\(kind=\d\) (C\.\d+) = (-?\d+|\.true\.|\.false\.);', open(orig, errors='replace').read()):
        v = {'.true.': '1', '.false.': '0'}.get(m.group(3), m.group(3))
        consts[m.group(2)] = v
        mod.globals[m.group(2)] = {'ty': 'i32', 'init': v, 'const': True, 'internal': True}
    txt = open(ssa, errors='replace').read()
    parts = re.split(r'^;; Function ', txt, flags=re.M)[1:]
    for part in parts:
        m = re.match(r'(\S+) \(([^,]+),', part)
        asm = m.group(2)
        lines = part.split('\n')
        # header line: <type> name (params)
        h = None
        for j, l in enumerate(lines):
            if l.rstrip() == '{':
                h = j
                break
        if h is None:
            raise Unparsed('no body for ' + asm)
        hl = strip_loc(' '.join(lines[1:h]))[0]
        hl = re.sub(r'__attribute__\(\(.*?\)\)\s*', '', hl).strip() if '__attribute__' in hl else hl.strip()
        mm = re.search(r'\b%s \((.*)\)\s*$' % re.escape(m.group(1)), hl)
        f = Func(asm, mod)
        f.internal = bool(re.search(r'\.\d+$', asm))
        if not mm:
            raise Unparsed('header of %s: %s' % (asm, hl))
        FnParser(mod, f, None, consts).parse(mm.group(1), lines[h + 1:])
        mod.funcs[asm] = f
    return mod


def modorder(repo, files):
    """files in the order in which their modules are needed"""
    prov = {}
    need = {}
    for f in files:
        t = open(os.path.join(repo, f), errors='replace').read()
        t = re.sub(r'!.*', '', t)
        for m in re.finditer(r'^\s*module\s+(\w+)\s*$', t, re.M | re.I):
            if m.group(1).lower() != 'procedure':
                prov[m.group(1).lower()] = f
        need[f] = set(m.group(1).lower() for m in re.finditer(r'^\s*use\s*(?:,\s*\w+\s*)?(?:::)?\s*(\w+)', t, re.M | re.I))
    out = []

    def visit(f, st=()):
        if f in out or f in st:
            return
        for n in need[f]:
            if n in prov and prov[n] != f:
                visit(prov[n], st + (f,))
        out.append(f)
    for f in files:
        visit(f)
    return out


def compile_units(repo, files, outdir, support, broken):
    """[(file, module)]"""
    res = []
    for f in modorder(repo, files):
        tag = os.path.join(outdir, re.sub(r'[^A-Za-z0-9]', '_', f))
        cmd = ['gfortran'] + FLAGS + (['-cpp'] if f.endswith('.F90') else []) + [
            '-I' + support, '-I' + outdir, '-J' + outdir, '-I/usr/include',
            '-fdump-tree-ssa-lineno-asmname=' + tag + '.ssa', '-fdump-tree-original=' + tag + '.orig', f, '-o', tag + '.o']
        r = subprocess.run(cmd, cwd=repo, capture_output=True, text=True)
        if r.returncode:
            raise broken('gfortran cannot compile %s: %s' % (f, r.stderr[-1500:]))
        try:
            if os.path.exists(tag + '.ssa'):
                m = parse(tag + '.ssa', tag + '.orig', f)
            else:
                m = FModule(f)
                m.src = f
        except (Unparsed, IndexError, ValueError, AttributeError) as e:
            raise broken('cannot read the intermediate form of %s: %r' % (f, e))
        for e in ('.ssa', '.orig', '.o'):
            if os.path.exists(tag + e):
                os.unlink(tag + e)
        res.append((f, m))
    return res
