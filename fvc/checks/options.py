"""C12: every option a tool accepts takes effect, and only its own."""
import os
import re
from .. import absint, faults, par, project

GETOPT = {'getopt': 0, 'getopt_long': 3, 'getopt_long_only': 3}
ENTRY = re.compile(r'%struct\.option(?:\.\d+)? (zeroinitializer|\{ ptr (null|@[^,]+), i32 (-?\d+), ptr (null|[^,]+), i32 (-?\d+) \})')
INFO = {'help', 'version', 'h', 'V'}        # answer and stop
# the number of threads matters to builds with OpenMP only
OPENMP = {'--nthreads'}
NOISE = ('llvm.dbg', 'llvm.lifetime')
BUDGET = 3000000


def table(fn, s):
    """[(name, val, has_arg)] and whether the table is terminated"""
    P = fn.mod
    out = []
    end = True
    if GETOPT[s.x]:
        g = s.args[3]
        if g[0] != 'g' or g[1] not in P.globals:
            return None, True
        end = False
        for m in ENTRY.finditer(P.globals[g[1]]['init']):
            if m.group(1) == 'zeroinitializer' or m.group(2) == 'null':
                end = True
                break
            name = P.cstring(m.group(2)[1:].strip('"'))
            if m.group(4) != 'null':
                return None, True
            out.append(('--' + (name or '?'), int(m.group(5)), int(m.group(3))))
    return out, end


def shorts(P, fn, s):
    t = P.cstr(fn, s.args[2])
    out = []
    if t is None:
        return None
    t = t.lstrip('+-:')
    for k, c in enumerate(t):
        if c != ':':
            a = 1 if t[k + 1:k + 2] == ':' else 0
            out.append(('-' + c, ord(c), 2 if t[k + 1:k + 3] == '::' else a))
    return out


def term(fn, o, depth=0):
    if o[0] == 'c':
        return str(o[1])
    if o[0] == 'g':
        t = fn.mod.cstring(o[1])
        return repr(t[o[2]:]) if t is not None else '%s+%s' % (o[1], o[2])
    if o[0] != 'v':
        return str(o)
    d = fn.defs.get(o[1])
    if d is None or depth > 8 or d.op in ('phi', 'alloca'):
        return o[1]
    return '%s%s(%s)' % (d.op, ':' + d.x if d.op == 'call' and isinstance(d.x, str) else ':%s' % (d.x,) if d.op == 'icmp' else '', ','.join(term(fn, a, depth + 1) for a in d.args))


class Option:
    pass


def handle(eng, s, val):
    """what happens between one getopt call that returns val and the next"""
    r = Option()
    r.again = False
    r.optarg = False

    def stop(q, fn, i, env):
        if i.op == 'call' and i.x in GETOPT:
            r.again = True
            return True
        return False

    def loads(q, fn, i, env):
        if i.args[0] == ('g', 'optarg', 0):
            r.optarg = True
        return None
    q = absint.Query(eng, stop=stop, loads=loads, budget=BUDGET)
    q.seen = set()
    try:
        q.from_call(s, absint.const(val))
    except Exception as e:
        r.err = str(e)
        return r
    r.err = None
    fn = s.fn
    r.zero = any(absint.may_be_zero(t[1]) for t in q.terms)
    inloop = set()
    for h, body in fn.loops().items():
        if s.bb in body:
            inloop |= {h}
    bodies = [body for h, body in fn.loops().items() if s.bb in body]
    loop = max(bodies, key=len) if bodies else set()
    heads = {h for h, body in fn.loops().items() if s.bb in body}
    blocks = {x[1] for x in q.seen if len(x) == 2 and x[0] is fn}
    edges = {(x[1], x[2]) for x in q.seen if len(x) == 3 and x[0] is fn}
    eff = {}

    def resolve(o, seen=frozenset()):
        if o[0] == 'v':
            d = fn.defs.get(o[1])
            if d is not None and d.op == 'phi' and d.bb in blocks and d.bb not in heads and o[1] not in seen:
                res = set()
                for a, lab in d.x:
                    if (fn.blocks[lab], d.bb) in edges:
                        res |= resolve(a, seen | {o[1]})
                return res
        return {o}
    for h in heads:
        for i in h.ins:
            if i.op != 'phi':
                break
            for a, lab in i.x:
                b = fn.blocks[lab]
                if (b, h) in edges and b in loop:
                    for v in resolve(a):
                        if v != ('v', i.dst):
                            eff[('set', i.dst, term(fn, v))] = i
    for b in blocks:
        if b not in loop:
            continue
        for i in b.ins[s.idx + 1:] if b is s.bb else b.ins:
            if i.op == 'store':
                eff[('store', term(fn, i.args[1]), term(fn, i.args[0]))] = i
            elif i.op == 'call' and i.x and not i.x.startswith(NOISE) and i.x not in GETOPT:
                eff[('call', i.x) + tuple(term(fn, a) for a in i.args)] = i
    for x in q.seen:
        if len(x) == 2 and x[0] is not fn:
            for i in x[1].ins:
                if i.op == 'store':
                    eff[('in', x[0].name, term(x[0], i.args[1]), term(x[0], i.args[0]))] = i
                elif i.op == 'call' and i.x and not i.x.startswith(NOISE) and i.x not in GETOPT:
                    eff[('in', x[0].name, 'call', i.x) + tuple(term(x[0], a) for a in i.args)] = i
    r.eff = eff
    r.loop = loop
    r.idle = idle(fn, s, edges, heads, {i for k, i in eff.items() if k[0] in ('store', 'call')
                                        and not (k[0] == 'store' and i.args[0] == ('v', s.dst))})
    # an ordinary handler goes on to the next option; what lies behind the loop is not its effect
    return r


def idle(fn, s, edges, heads, acts):
    """is there a way from the parser back to it on which nothing is set?  True, False or None (too many ways)"""
    succ = {}
    for a, b in edges:
        succ.setdefault(a, []).append(b)
    n = 0
    stack = [(s.bb, {}, frozenset([s.bb]))]
    while stack:
        b, val, seen = stack.pop()
        n += 1
        if n > 4000:
            return None
        if any(i in acts and not (i.op == 'call' and i.x in READS) for i in (b.ins[s.idx + 1:] if b is s.bb else b.ins)):
            continue
        for t in succ.get(b, ()):
            new = {}
            for i in t.ins:
                if i.op != 'phi':
                    break
                for a, lab in i.x:
                    if fn.blocks[lab] is b:
                        new[i.dst] = val.get(a[1], a) if a[0] == 'v' else a
            if t in heads:
                if all(v == ('v', d) for d, v in new.items()):
                    return True
                continue
            if t in seen:
                continue
            stack.append((t, {**val, **new}, seen | {t}))
    return False


def root_obj(fn, o, depth=0):
    if o[0] == 'g':
        return o
    if o[0] != 'v':
        return None
    d = fn.defs.get(o[1])
    if d is not None and d.op in ('getelementptr', 'bitcast') and depth < 8:
        return root_obj(fn, d.args[0], depth + 1)
    return o


def users(fn):
    u = {}
    for i in fn.instrs():
        for a in i.args if i.op != 'phi' else [x[0] for x in i.x]:
            if a[0] in 'vg':
                u.setdefault(a[:2], []).append(i)
    return u


def used(P, fn, r, U):
    """does anything behind the option loop use what this handler changed?"""
    for k, i in r.eff.items():
        if k[0] == 'in':
            return True
        if k[0] == 'set':
            # a use of the loop-carried value outside the loop
            seen = set()
            work = [('v', i.dst)]
            while work:
                o = work.pop()
                for x in U.get(o, ()):
                    if x.bb not in r.loop:
                        return True
                    if x.op in ('br', 'switch', 'call', 'store'):
                        return True
                    if x.dst is not None and x.dst not in seen:
                        seen.add(x.dst)
                        work.append(('v', x.dst))
        else:
            ops = [i.args[1]] if k[0] == 'store' else i.args
            for o in ops:
                b = root_obj(fn, o)
                if b is None:
                    continue
                if b[0] == 'g':
                    if fn.mod.cstring(b[1]) is None:
                        return True
                    continue
                d = fn.defs.get(b[1])
                if d is None or d.op != 'alloca':
                    if k[0] == 'store':
                        return True
                    continue
                seen = {b[1]}
                work = [('v', b[1])]
                while work:
                    o2 = work.pop()
                    for x in U.get(o2, ()):
                        if x.op in ('getelementptr', 'bitcast', 'load') and x.dst not in seen:
                            seen.add(x.dst)
                            work.append(('v', x.dst))
                        if x.bb not in r.loop and x.op != 'getelementptr':
                            return True
            if k[0] == 'call' and (i.x in eng_ends):
                return True
    return False


eng_ends = {'exit', '_exit', 'abort', 'mpp_error'}


def c12(rep):
    rep.rule = ('for every tool that parses its options with getopt: assume the parser returns a given option and follow all paths to the '
                'next call of the parser; the option must not be treated like an unknown one, must change something that is used after '
                'the option loop, must read its argument if and only if it is declared to have one, must not read a fractional argument as a whole number, must not repeat or '
                'include the effect of another option, and no two options set each other\'s variable; the table must be terminated')
    rep.assumptions = ['options that print help or the version and stop are set aside']
    L = project.Layout()
    S = project.Store(L, named=True)
    progs = [p for p in L.c_programs()]
    S.need([u for p in progs for u in L.units(p)])
    n = 0
    done = set()
    for p in progs:
        P = project.load(L, S, p)
        eng = absint.Engine(P)
        for d in cut_off(P, eng):
            rep.bad('%s|whole|%s' % (p, d.fn.name), '%s: %s at %s in %s() reads only the whole part of an argument that is used as a '
                    'fractional number' % (p, d.x, d.loc(), d.fn.name))
        for s in faults.live_calls(eng):
            if s.x not in GETOPT:
                continue
            rep.count('programs')
            fn = s.fn
            where = '%s: %s at %s in %s()' % (p, s.x, s.loc(), fn.name)
            tab, end = table(fn, s)
            sh = shorts(P, fn, s)
            if tab is None or sh is None:
                rep.unknown(where + ': option table is not a constant')
                continue
            if end:
                rep.ok('%s: table of %d options is terminated' % (where, len(tab)))
            else:
                rep.bad('%s|end' % p, where + ': the option table is not terminated: an unknown option reads beyond it')
            opts = {}
            for name, val, arg in tab + sh:
                opts.setdefault(val, []).append((name, arg))
            names = {}
            for name, val, arg in tab:
                if name in names:
                    rep.bad('%s|%s' % (p, name), '%s: option %s is declared twice' % (where, name))
                names[name] = val
            # warm
            for f in P.functions():
                if f in faults._reach(eng):
                    eng.base(f)
            unk = handle(eng, s, ord('?'))
            vals = sorted(opts)
            res = dict(zip(vals, par.pmap(lambda v: strip(P, handle(eng, s, v)), vals)))
            usk = set(unk.eff)
            T = {name: res[val].sets for name, val, arg in tab if not res[val].err}
            for a, v, b, t in undone({name: res[val].keys for name, val, arg in tab if not res[val].err}):
                rep.bad('%s|%s|undoes' % (p, a), '%s: option %s throws away the value of %s, which option %s %s' % (
                    where, a, re.sub(r'\.\d+$', '', v), b, t))
            for a, b, x, y in crossed(T):
                rep.bad('%s|%s|crossed' % (p, a), '%s: option %s sets %s and option %s sets %s: their variables are exchanged' % (
                    where, a, x, b, y))
            for v in vals:
                n += 1
                r = res[v]
                nm = '/'.join(x[0] for x in opts[v])
                w = '%s: option %s' % (where, nm)
                key = '%s|%s|' % (p, nm)
                if r.err:
                    rep.unknown(w + ': ' + r.err)
                    continue
                info = any(x[0].lstrip('-') in INFO for x in opts[v])
                bad = []
                if set(r.keys) == usk and not info:
                    bad.append(('handled', 'is accepted but treated like an unknown option'))
                elif not r.again and not info:
                    bad.append(('handled', 'is accepted but never lets the run go on'))
                if r.optarg and any(x[1] == 0 for x in opts[v]):
                    bad.append(('argument', 'is declared without an argument but its handler uses one (a null pointer)'))
                if not r.optarg and any(x[1] == 1 for x in opts[v]) and not info:
                    bad.append(('argument', 'is declared with an argument that its handler never looks at'))
                if not r.used and not info and nm not in OPENMP:
                    bad.append(('effect', 'changes nothing that is used after the options have been read'))
                if r.idle and r.used and not info and nm not in OPENMP:
                    bad.append(('idle', 'is silently ignored for some arguments'))
                for v2 in vals:
                    if v2 == v or info or any(x[0].lstrip('-') in INFO for x in opts[v2]) or res[v2].err:
                        continue
                    a, b = set(r.keys), set(res[v2].keys)
                    if a == usk or b == usk or not b or set(res[v2].keys) - usk == set():
                        continue
                    n2 = '/'.join(x[0] for x in opts[v2])
                    if a == b and v < v2:
                        bad.append(('own', 'does exactly what option %s does' % n2))
                    elif b < a and b - common(res, opts):
                        bad.append(('own', 'also does what option %s does' % n2))
                for k, t in bad:
                    rep.bad(key + k, '%s %s' % (w, t))
                for k in range(max(0, 4 - len(bad))):
                    rep.ok('%s: handled, own effect, argument as declared' % w if k == 0 else None)
    rep.count('options', n)
    rep.floor('options', n, 250)


def cut_off(P, eng):
    """arguments read as whole numbers into floating-point variables"""
    for f in faults._reach(eng):
        U = None
        for i in f.instrs():
            if i.op not in ('sitofp', 'uitofp') or i.args[0][0] != 'v':
                continue
            d = f.defs.get(i.args[0][1])
            while d is not None and d.op in ('trunc', 'sext', 'zext', 'fptosi', 'fptoui') and d.args[0][0] == 'v':
                d = f.defs.get(d.args[0][1])
            if d is None or d.op != 'call' or d.x not in WHOLE + ('atof', 'strtod', 'strtof') or d.args[0][0] != 'v':
                continue
            a = f.defs.get(d.args[0][1])
            if a is not None and a.op == 'load' and a.args[0][:2] == ('g', 'optarg'):
                U = U or users(f)
                if any(x.op != 'fcmp' for x in U.get(('v', i.dst), ())):
                    yield d


WHOLE = ('atoi', 'atol', 'atoll', 'strtol', 'strtoll', 'strtoul')


def targets(fn, r):
    """names of the variables a handler sets"""
    out = set()
    for k, i in r.eff.items():
        if k[0] == 'set':
            out.add(k[1])
        elif k[0] == 'store' or k[0] == 'call':
            if k[0] == 'store':
                oo = [i.args[1]]
            elif i.x in ('strcpy', 'strncpy', 'strcat', 'snprintf', 'sprintf', 'memcpy'):
                oo = i.args[:1]
            elif i.x in READS:
                oo = []
            else:
                oo = i.args
            for o in oo:
                d = i.fn.defs.get(o[1]) if o[0] == 'v' else None
                if k[0] == 'call' and (d is None or d.op not in ('getelementptr', 'alloca')):
                    continue
                b = root_obj(i.fn, o)
                if d is not None and d.op == 'getelementptr':
                    out.add(re.sub(r'(?<=\D)\d+$', '', o[1]))       # the field
                if b is not None:
                    out.add(b[1])
    return {re.sub(r'\.\d+$|\.addr(\.\d+)?$', '', v) for v in out} - {''}


READS = {'strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'strlen', 'strchr', 'strstr', 'strrchr', 'atoi', 'atof', 'atol', 'atoll', 'strtol', 'strtod',
         'strtoul', 'strtoll', 'strtof', 'isdigit', 'isalpha', 'tolower', 'toupper', '__ctype_b_loc'}


def words(t):
    return [w for w in re.split(r'[^a-z]+', re.sub(r'([a-z])([A-Z])', r'\1_\2', t.lstrip('-')).lower()) if w]


def likeness(opt, var):
    """0..1: how much a variable is called like an option"""
    a, b = words(opt), words(var)
    if ''.join(a) == ''.join(b):
        return 1
    a, b = set(a), set(b)
    return len(a & b) / len(a | b) if a and b else 0


def undone(K):
    """options that throw away what another option has set: (option, variable, the other option, how).  K: option -> effects"""
    V = {}
    for o, keys in K.items():
        for k in keys:
            if k[0] in ('set', 'store'):
                V.setdefault(k[:2], {}).setdefault(o, set()).add(k[2])
    for (how, v), who in sorted(V.items()):
        own = re.compile(r'(?<![\w.])' + re.escape(v) + r'(?![\w.])')
        adds = {o for o, ts in who.items() if any(own.search(t) for t in ts)}
        args = {o for o, ts in who.items() if any('optarg' in t for t in ts)}
        for o, ts in sorted(who.items()):
            if o not in adds and adds:
                yield o, v, sorted(adds)[0], 'adds to'
            elif o not in args and args and len({k[1] for k in K[o] if k[0] in ('set', 'store')}) > 1:
                yield o, v, sorted(args)[0], 'sets'


def differ(a, b):
    """what distinguishes two names"""
    p = len(os.path.commonprefix([a, b]))
    a, b = a[p:], b[p:]
    q = len(os.path.commonprefix([a[::-1], b[::-1]]))
    return (a[:len(a) - q], b[:len(b) - q])


def crossed(T):
    """pairs of options that set each other's variable"""
    for a in sorted(T):
        for b in sorted(T):
            if a >= b:
                continue
            for x in sorted(T[a] - T[b]):
                for y in sorted(T[b] - T[a]):
                    now, then = (likeness(a, x), likeness(b, y)), (likeness(a, y), likeness(b, x))
                    d, e = differ(a.lstrip('-').lower(), b.lstrip('-').lower()), differ(x.lower(), y.lower())
                    if min(then) >= .5 and then[0] > now[0] and then[1] > now[1] or all(d) and d == e[::-1]:
                        yield a, b, x, y


def common(res, opts):
    """effects every option has (a helper called for all of them)"""
    ks = [set(r.keys) for r in res.values() if not r.err]
    return set.intersection(*ks) if ks else set()


def strip(P, r):
    if not r.err:
        fn = None
        for i in r.eff.values():
            fn = fn or i.fn
        main = [i.fn for k, i in r.eff.items() if k[0] != 'in']
        r.used = bool(r.eff) and (not main or used(P, main[0], r, users(main[0])))
        r.keys = list(r.eff)
        r.sets = targets(fn, r)
    r.eff = r.loop = None
    return r


# C17 -----------------------------------------------------------------------------------------------------------
LONG = re.compile(r'(?<![\w-])(--[A-Za-z][\w-]*)')
SHORT = re.compile(r'^ {0,4}(-[A-Za-z0-9]\w{0,2})(?: #)?  ', re.M)
# how a synopsis shows whether an option takes an argument: [--name] or [--name ...], or --name # anywhere
SHOWN = re.compile(r'\[\s*(--[A-Za-z][\w-]*)((?:\s+[^\s\]\[-][^\s\]]*)*)\s*\]|(--[A-Za-z][\w-]*)(\s+#\S*)')


def texts(L, P, mods):
    """(where, text) of what the program says about itself: its own string constants and its manual page"""
    for m in mods:
        for g in m.globals:
            t = m.cstring(g)
            if t:
                yield 'text in %s' % (m.name if hasattr(m, 'name') else 'the program'), t
    name = P.name[:-len('_parallel')] if P.name.endswith('_parallel') else P.name
    path = os.path.join(L.repo, 'man', name + '.txt')
    if os.path.exists(path):
        with open(path) as fh:
            yield 'man/%s.txt' % name, '\n'.join(l for l in fh.read().splitlines() if not l.startswith('//'))


def compared(P):
    """constants that command-line words are compared with, in a program that has its own parser"""
    out = set()
    for f in P.functions():
        for i in f.calls():
            if i.x in ('strcmp', 'strncmp', 'strcasecmp'):
                out |= {t for t in (P.cstr(f, a) for a in i.args[:2]) if t and t.startswith('-')}
    return out


def c17(rep):
    rep.rule = ('every word "--name" in the usage and error texts of a tool and in its manual page is an option of its table, or an '
                'unambiguous abbreviation of one; for mppnccombine, every option its usage text lists is one its parser compares with; '
                'an option that a synopsis shows with (without) an argument is declared with (without) one')
    rep.assumptions = ['texts are the string constants of the files of the tool itself, not of the shared library']
    L = project.Layout()
    S = project.Store(L)
    S.need([u for p in L.c_programs() for u in L.units(p)])
    n = 0
    for p in L.c_programs():
        P = project.load(L, S, p)
        eng = absint.Engine(P)
        sites = [s for s in faults.live_calls(eng) if s.x in GETOPT]
        main = P.main().mod
        names = set()
        takes = {}
        own = {main}
        pat = LONG
        if sites:
            broken = False
            for s in sites:
                tab, _ = table(s.fn, s)
                sh = shorts(P, s.fn, s)
                if tab is None or sh is None:
                    broken = True
                    continue
                names |= {x[0] for x in tab + sh}
                for x in tab:
                    takes.setdefault(x[0], set()).add(bool(x[2]))
                own.add(s.fn.mod)
            if broken:
                rep.unknown('%s: option table is not a constant' % p)
                continue
        else:
            names = compared(P)
            pat = SHORT
            if not names:
                continue
        rep.count('programs')
        seen = {}
        shown = {}
        for where, t in texts(L, P, own):
            if pat is SHORT and where.startswith('man/'):
                continue
            for w in pat.findall(t):
                seen.setdefault(w, where)
            for m in SHOWN.finditer(t):
                w = m.group(1) or m.group(3)
                if len(takes.get(w, ())) == 1:
                    shown.setdefault(w, {}).setdefault(bool((m.group(2) or m.group(4) or '').strip()), where)
        for w, where in sorted(seen.items()):
            n += 1
            k = 1 if w in names else sum(x.startswith(w) for x in names) if pat is LONG else 0
            if k == 1:
                rep.ok('%s: %s (%s)' % (p, w, where))
            else:
                rep.bad('%s|%s' % (p, w), '%s: %s tells the user about the option %s, which the tool %s' % (
                    p, where, w, 'finds ambiguous' if k else 'does not accept'))
        for w, d in sorted(shown.items()):
            arg = takes[w] == {True}
            if not arg in d:
                rep.bad('%s|%s|argument' % (p, w), '%s: %s shows the option %s %s an argument, but the tool %s' % (
                    p, list(d.values())[0], w, 'without' if arg else 'with', 'requires one' if arg else 'takes none'))
            elif len(d) > 1:
                rep.bad('%s|%s|argument' % (p, w), '%s: %s shows the option %s %s an argument, but the tool %s' % (
                    p, d[not arg], w, 'without' if arg else 'with', 'requires one' if arg else 'takes none'))
            else:
                rep.ok('%s: %s %s an argument, as documented' % (p, w, 'takes' if arg else 'does not take'))
            rep.count('arguments shown')
    rep.count('documented options', n)
    rep.floor('documented options', n, 250)
