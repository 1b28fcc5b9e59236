"""What the build system builds: programs and their translation units, read from the
automake files of the tree under analysis, and compiled (never run) to IR."""
import atexit
import concurrent.futures as cf
import os
import re
import shutil
import subprocess
import sys
import tempfile

from . import llir

REPO = os.environ.get('FVC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SUPPORT = os.path.join(VERIF, 'support')
CLANG = 'clang-18' if shutil.which('clang-18') else 'clang'
OPT = 'opt-18' if shutil.which('opt-18') else 'opt'
PASSES = 'sroa,early-cse'

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='fvc.')
        pid = os.getpid()

        def rm():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(rm)
    return _scratch


class AnalysisBroken(Exception):
    """the tree does not have the shape the analysis is anchored to"""


def _am(path):
    """variable assignments of an automake file"""
    txt = open(path).read()
    txt = re.sub(r'\\\n', ' ', txt)
    out = {}
    for l in txt.split('\n'):
        l = re.sub(r'(^|\s)#.*', '', l)
        m = re.match(r'^\s*([A-Za-z0-9_]+)\s*(\+?=)\s*(.*)$', l)
        if m:
            if m.group(2) == '+=':
                out[m.group(1)] = out.get(m.group(1), '') + ' ' + m.group(3)
            else:
                out[m.group(1)] = m.group(3)
    return out


def _expand(v, env, depth=0):
    if depth > 10:
        return v
    return re.sub(r'\$\(([A-Za-z0-9_]+)\)', lambda m: _expand(env.get(m.group(1), ''), env, depth + 1), v)


class Layout:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        src = _am(os.path.join(self.repo, 'src/Makefile.am'))
        self.programs = {}
        self.flags = {}
        self.ldadd = {}
        names = {}
        for k in src:
            if k.endswith('_PROGRAMS'):
                for p in _expand(src[k], src).split():
                    names[re.sub(r'[^A-Za-z0-9_@]', '_', p)] = p
        for k, v in src.items():
            if k.endswith('_SOURCES') and not k.startswith('nodist') and k[:-8] in names:
                p = names[k[:-8]]
                fs = [os.path.normpath('src/' + f) for f in _expand(v, src).split()
                      if re.search(r'\.(c|f90|F90)$', f)]
                self.programs[p] = fs
                self.flags[p] = ['-Duse_libMPI'] if 'use_libMPI' in src.get(k[:-8] + '_CFLAGS', '') else []
                self.ldadd[p] = src.get(k[:-8] + '_LDADD', src.get('LDADD', ''))
        self.src_am = src
        lib = {}
        for d in ('libfrencutils', 'libnfu'):
            mk = _am(os.path.join(self.repo, 'lib', d, 'local.mk'))
            key = 'lib%s_lib%s_a_SOURCES' % (d[3:], d[3:])
            lib[d] = [os.path.normpath('lib/' + f) for f in _expand(mk.get(key, ''), mk).split()
                      if re.search(r'\.(c|f90|F90)$', f)]
        self.libs = lib
        if not self.programs or not lib['libfrencutils'] or not lib['libnfu']:
            raise AnalysisBroken('cannot read program list from the automake files')

    def is_c(self, prog):
        return all(f.endswith('.c') for f in self.programs[prog])

    def c_programs(self):
        return sorted(p for p in self.programs if self.is_c(p) and 'gpu' not in p)

    def f_programs(self):
        return sorted(p for p in self.programs if not self.is_c(p))

    def f_units(self, prog=None):
        """Fortran sources: of one program with the Fortran libraries it can use, or of all of them"""
        own = self.programs[prog] if prog else [f for p in self.f_programs() for f in self.programs[p]]
        lib = [os.path.normpath('src/' + f) for f in _expand(self.src_am.get('libnctf_a_SOURCES', ''), self.src_am).split()]
        return [f for f in dict.fromkeys(self.libs['libnfu'] + lib + own) if f.lower().endswith('.f90')]

    def is_mpi(self, prog):
        return bool(self.flags[prog])

    def units(self, prog, withlib=True):
        """[(source, defs)]"""
        d = tuple(self.flags[prog])
        out = [(f, d) for f in self.programs[prog]]
        if withlib:
            # remap_land_parallel etc. name a library; only *_mpi.a carries the MPI code
            ldefs = ('-Duse_libMPI',) if '_mpi.a' in self.ldadd[prog] else ()
            out += [(f, ldefs) for f in self.libs['libfrencutils']]
            out.append(('src/version.c', ()))
        return out


# what the analyses know by name is never expanded
NAMED = re.compile(r'^(main|get_maxxgrid|error_handler|mpp_\w+|netcdf_error|\.omp.*|usage\w*|clip_\w+|poly_\w+|create_xgrid_\w+)$')
DEFINE = re.compile(r'^define (?:[^@\n]*) @("[^"]*"|[\w.$]+)\(([^\n]*)\)([^\n]*?)( #\d+)?((?: ![^\n]*)?) \{$', re.M)


def expand(txt, limit=300, sites=6):
    """mark the helpers of a translation unit (few call sites, moderate size, never taken by address) for expansion at
    their call sites, so that what is split off into a helper is analysed where it is used"""
    defs = list(DEFINE.finditer(txt))
    size = {}
    for m in defs:
        e = txt.index('\n}', m.end())
        size[m.group(1)] = txt.count('\n  ', m.end(), e)
    pick = set()
    for m in defs:
        n = m.group(1)
        if NAMED.match(n.strip('"')) or '...' in m.group(2) or size[n] > limit:
            continue
        pat = re.compile('@' + re.escape(n) + r'(?![\w.$])')
        uses = len(pat.findall(txt)) - 1
        calls = len(re.findall(r'\bcall [^@\n]*@' + re.escape(n) + r'\(', txt))
        if uses and uses == calls <= sites:
            pick.add(n)
    if not pick:
        return txt

    def sub(m):
        if m.group(1) not in pick:
            return m.group(0)
        l = m.group(0)
        a = m.group(4)
        head = l[:m.start(5) - m.start(0)]
        if a:
            head = head[:-len(a)]
        return head + ' #9999' + m.group(5) + ' {'
    return DEFINE.sub(sub, txt) + '\nattributes #9999 = { alwaysinline }\n'


def diagnose(repo, unit, flags):
    """what the type checker says about one unit, for the given warnings only"""
    srcf, defs = unit
    inc = ['-I' + SUPPORT, '-I' + os.path.join(repo, 'lib/libfrencutils'), '-I' + os.path.dirname(
        os.path.join(repo, srcf)), '-I/usr/include/hdf5/serial']
    if defs:
        inc += ['-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']
    r = subprocess.run([CLANG, '-fsyntax-only', '-Wno-everything', '-std=gnu17', '-DHAVE_CONFIG_H', '-fno-caret-diagnostics'] + list(
        flags) + list(defs) + inc + [srcf], cwd=repo, capture_output=True, text=True)
    return [l for l in r.stderr.splitlines() if ': warning: ' in l]


def _compile(repo, unit, outdir, extra=(), inline=False):
    srcf, defs = unit
    tag = re.sub(r'[^A-Za-z0-9]', '_', srcf) + ('_mpi' if defs else '') + ('_inl' if inline else '')
    ll = os.path.join(outdir, tag + '.ll')
    o2 = os.path.join(outdir, tag + '.o.ll')
    inc = ['-I' + SUPPORT, '-I' + os.path.join(repo, 'lib/libfrencutils'), '-I' + os.path.dirname(
        os.path.join(repo, srcf)), '-I/usr/include/hdf5/serial']
    if defs:
        inc += ['-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']
    cmd = [CLANG, '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-w', '-std=gnu17', '-DHAVE_CONFIG_H'] + list(
        defs) + list(extra) + inc + ['-S', '-emit-llvm', srcf, '-o', ll]
    r = subprocess.run(cmd, cwd=repo, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('clang cannot compile %s: %s' % (srcf, r.stderr[-1500:]))
    if inline:
        txt = expand(open(ll, encoding='latin-1').read())
        open(ll, 'w', encoding='latin-1').write(txt)
    r = subprocess.run([OPT, '-S', '-passes=' + ('always-inline,' if inline else '') + PASSES, ll, '-o', o2], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('opt failed on %s: %s' % (srcf, r.stderr[-500:]))
    os.unlink(ll)
    return unit, o2


class Store:
    def __init__(self, layout, openmp=False, inline=False, typed=False, named=False):
        self.layout = layout
        self.inline = inline
        self.typed = typed
        self.mods = {}
        self.extra = ['-fopenmp', '-Wno-implicit-function-declaration', '-I' + os.path.join(SUPPORT, 'omp')] if openmp else []
        if named:
            self.extra = self.extra + ['-fno-discard-value-names']

    def need(self, units):
        todo = [u for u in dict.fromkeys(units) if u not in self.mods]
        if not todo:
            return
        sys.setrecursionlimit(20000)
        d = scratch()
        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda u: self.compile(u, d), todo))
        for u, path in res:
            m = llir.parse_file(path)
            m.src = u[0]
            self.mods[u] = m

    def compile(self, u, d):
        if self.typed:
            # element types of data buffers; the unit that implements the operations is compiled as it is
            mark = ['-include', 'mpp_io.h', '-include', os.path.join(SUPPORT, 'typed.h')]
            try:
                return _compile(self.layout.repo, u, d, self.extra + mark, self.inline)
            except AnalysisBroken:
                pass
        return _compile(self.layout.repo, u, d, self.extra, self.inline)


class Program:
    """a linked set of modules with name resolution"""

    def __init__(self, name, mods, mpi=False):
        self.name = name
        self.mods = mods
        self.mpi = mpi
        self.ext = {}
        for m in mods:
            for f in m.funcs.values():
                if not f.internal:
                    self.ext.setdefault(f.name, f)
        self._callers = None

    def resolve(self, ins_or_fn, name):
        """callee name seen from an instruction (or function) -> Func or None"""
        if name is None:
            return None
        fn = ins_or_fn.fn if isinstance(ins_or_fn, llir.Ins) else ins_or_fn
        f = fn.mod.funcs.get(name)
        if f is not None:
            return f
        return self.ext.get(name)

    def functions(self):
        for m in self.mods:
            for f in m.funcs.values():
                yield f

    def main(self):
        f = self.ext.get('main') or self.ext.get('MAIN__')
        if f is None:
            raise AnalysisBroken('no main in ' + self.name)
        return f

    def callers(self, fn):
        if self._callers is None:
            c = {}
            for f in self.functions():
                for i in f.calls():
                    g = self.resolve(f, i.x)
                    if g is not None:
                        c.setdefault(g, []).append(i)
            self._callers = c
        return self._callers.get(fn, [])

    def reachable(self, roots=None):
        """functions reachable from main by direct calls and address-taken references"""
        roots = roots or [self.main()]
        seen = set(roots)
        st = list(roots)
        while st:
            f = st.pop()
            for i in f.instrs():
                names = [i.x] if i.op == 'call' and i.x else []
                names += [a[1] for a in i.args if a and a[0] == 'g']
                for n in names:
                    g = self.resolve(f, n)
                    if g is not None and g not in seen:
                        seen.add(g)
                        st.append(g)
        return seen

    def cstr(self, fn, op):
        """string constant an operand denotes, or None"""
        if op[0] == 'g':
            s = fn.mod.cstring(op[1])
            if s is not None:
                return s[op[2]:]
        return None


    def keystr(self, v):
        """string constant an abstract pointer denotes, or None"""
        if v[0] != 'P' or v[1][0] != 'G' or v[2] is None:
            return None
        for m in self.mods:
            if v[1][1] in ('', m.src) and v[1][2] in m.globals:
                s = m.cstring(v[1][2])
                if s is not None:
                    return s[v[2]:]
        return None


def load_fortran(layout):
    """{program: Program} for every Fortran tool"""
    from . import gimple
    mods = dict(gimple.compile_units(layout.repo, layout.f_units(), scratch(), SUPPORT, AnalysisBroken))
    return {p: Program(p, [mods[f] for f in layout.f_units(p)]) for p in layout.f_programs()}


def load(layout, store, prog):
    us = layout.units(prog)
    store.need(us)
    return Program(prog, [store.mods[u] for u in us], layout.is_mpi(prog))
