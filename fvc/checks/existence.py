"""C20: questions about existence are answered by the lookup, and by nothing else"""
import re

from .. import absint, faults, project
from .carry import natural, Count

LOOKUP = re.compile(r'^nc_inq_(att|attid|attlen|atttype|varid|dimid|var|dim)$')
ATTS = re.compile(r'^nc_inq_att')
FILES = {'nc_open', 'nc__open', 'nc_inq_path'}
QUESTION = re.compile(r'^(mpp_)?[a-z_]*exists?$')
GLOBAL = -1
# what each option of ncexists names
OPTS = {ord('g'): 'global attribute', ord('a'): 'attribute of a variable', ord('v'): 'variable'}


def on_stdout(i, k):
    d = i.fn.defs.get(i.args[k][1]) if i.args[k][0] == 'v' else None
    return d is not None and d.op == 'load' and d.args[0] == ('g', 'stdout', 0)


def answers(q, fn, i, env):
    """the answers ('0', '1') this call may print first; None: something that cannot be told; empty: not an answer"""
    P = q.e.prog

    def text(o):
        t = P.cstr(fn, o)
        return [t] if t is not None else texts(q, fn, o, env)

    if i.x in ('printf', 'puts'):
        ts, rest = text(i.args[0]), i.args[1:]
    elif i.x in ('fprintf', '__fprintf_chk', '__printf_chk'):
        f = 0 if i.x[2] == 'p' else 1
        if i.x != '__printf_chk' and not on_stdout(i, 0):
            return set()
        k = {'fprintf': 1, '__fprintf_chk': 2, '__printf_chk': 1}[i.x]
        ts, rest = text(i.args[k]), i.args[k + 1:]
    elif i.x in ('fputs', 'fwrite'):
        if not on_stdout(i, len(i.args) - 1):
            return set()
        ts, rest = text(i.args[0]), ()
    elif i.x in ('putchar', 'putchar_unlocked', 'fputc', 'putc'):
        if i.x in ('fputc', 'putc') and not on_stdout(i, 1):
            return set()
        return numbers(q.value(fn, i.args[0], env), {48: '0', 49: '1'})
    else:
        return set()
    if ts is None:
        return None
    out = set()
    for t in ts:
        t = t.lstrip()
        if i.x not in ('puts', 'fputs', 'fwrite') and t.startswith('%') and rest:
            if t[1:2] in 'di' or t[1:2] == 'u':
                r = numbers(q.value(fn, rest[0], env), {0: '0', 1: '1'})
            elif t[1:2] == 'c':
                r = numbers(q.value(fn, rest[0], env), {48: '0', 49: '1'})
            elif t.strip() != '%s':
                r = set()
            elif t[1:2] == 's':
                ss = text(rest[0])
                r = None if ss is None else {s[:1] for s in ss if s[:1] in ('0', '1')}
            else:
                r = None
            if r is None:
                return None
            out |= r
        elif t[:1] in ('0', '1') and not t[1:2].isalnum():
            out.add(t[:1])
    return out


def texts(q, fn, o, env, depth=0):
    """string constants an operand may denote here"""
    t = q.e.prog.cstr(fn, o) if o[0] == 'g' else q.e.prog.keystr(q.value(fn, o, env))
    if t is not None:
        return [t]
    d = fn.defs.get(o[1]) if o[0] == 'v' else None
    if d is None or depth > 4:
        return None
    if d.op == 'select':
        c = q.value(fn, d.args[0], env)
        alts = [d.args[2]] if absint.iszero(c) else [d.args[1]] if absint.isnz(c) else d.args[1:3]
    elif d.op == 'phi':
        alts = [a for a, lab in d.x]
    else:
        return None
    out = []
    for a in alts:
        r = texts(q, fn, a, env, depth + 1)
        if r is None:
            return None
        out += r
    return out


def numbers(v, names):
    if v[0] == 'P' or v[0] is None or v[1] is None or v[1] - v[0] > 300:
        return None
    return {names[n] for n in names if v[0] <= n <= v[1] and not (n == 0 and v[2])} if len(v) > 2 else None


def ends_well(q):
    return [t for t in q.terms if absint.may_be_zero(t[1])]


class Unclear(Exception):
    pass


def explore(eng, go, wrong=(), stop=lambda i: False, right=None):
    """hits: prints of a wrong answer; ends: successful ends without a right answer"""
    hits = []
    vague = []

    def halt(q, fn, i, env):
        if i.op != 'call':
            return False
        a = answers(q, fn, i, env)
        if a is None:
            vague.append(i)
            return False
        if set(a) & set(wrong):
            hits.append(i)
        return stop(i) or (right is not None and bool(a) and a <= {right})
    q = absint.Query(eng, stop=halt, sinkfn=lambda *a: False, loads=lambda q, fn, i, env:
                     absint.NZ if i.args[0][:2] == ('g', 'optarg') else None)
    go(q)
    return hits, ends_well(q), vague


def case_of(fn, ld):
    """the characters of the switch cases under which this instruction runs"""
    out = set()
    for b in fn.blocks.values():
        t = b.ins[-1]
        if t.op == 'switch':
            for c, lab in t.x:
                s = fn.blocks[lab]
                if len(s.pred) >= 1 and all(p is b for p in s.pred) and fn.dominates(s, ld.bb):
                    out.add(c)
        elif t.op == 'br' and t.args[0][0] == 'v' and len(b.succ) == 2:
            d = fn.defs.get(t.args[0][1])
            if d is not None and d.op == 'icmp' and d.x in ('eq', 'ne') and d.args[1][0] == 'c':
                s = b.succ[0 if d.x == 'eq' else 1]
                if len(s.pred) == 1 and fn.dominates(s, ld.bb):
                    out.add(d.args[1][1])
    return out


def names_from(fn, o):
    """loads of optarg an operand may come from, through the variables of one function"""
    seen, todo, out = set(), [o], set()
    while todo:
        o = todo.pop()
        if o in seen or o[0] != 'v':
            continue
        seen.add(o)
        d = fn.defs.get(o[1])
        if d is None:
            return None
        if d.op == 'load':
            if d.args[0][:2] == ('g', 'optarg'):
                out.add(d)
                continue
            a = d.args[0]
            st = [i for i in fn.instrs() if i.op == 'store' and i.args[1] == a]
            if not st:
                return None
            todo += [s.args[0] for s in st]
        elif d.op == 'phi':
            todo += [a for a, lab in d.x]
        elif d.op in ('freeze', 'bitcast'):
            todo.append(d.args[0])
        elif d.op == 'select':
            todo += list(d.args[1:3])
        else:
            return None
    return out


def ncexists(rep, L, S):
    p = 'ncexists'
    P = project.load(L, S, p)
    eng = absint.Engine(P)
    live = list(faults.live_calls(eng))
    looks = [i for i in live if LOOKUP.match(i.x)]
    rep.floor('lookups in ncexists', len(looks), 1)
    rep.count('lookups', len(looks))
    rep.count('functions', len(list(P.functions())))
    look = lambda i: bool(LOOKUP.match(i.x)) and i.op == 'call'

    def judge(key, where, got, wrongtext, endtext, fine):
        hits, ends, vague = got
        if hits:
            rep.bad(key, '%s: %s: %s' % (where, wrongtext, hits[0].loc()))
        elif ends and not vague:
            rep.bad(key, '%s: %s: %s' % (where, endtext, ends[0][0].loc()))
        elif vague:
            rep.unknown('%s: what is printed at %s cannot be told' % (where, vague[0].loc()))
        else:
            rep.ok('%s: %s' % (where, fine))

    for s in looks:
        where = '%s at %s in %s()' % (s.x, s.loc(), s.fn.name)
        h, e, v = explore(eng, lambda q: q.from_call(s, absint.NZ), wrong='1', stop=lambda i: False)
        h2, e2, v2 = explore(eng, lambda q: q.from_call(s, absint.NZ), right='0')
        judge('%s|absent|%s|%s' % (p, s.fn.name, s.x), where, (h, e2, v + v2),
              'when the item is not found, the answer may still be 1', 'when the item is not found, a successful end without the answer 0',
              'not found -> 0 on every path')
        h, e, v = explore(eng, lambda q: q.from_call(s, absint.const(0)), wrong='0', stop=look)
        h2, e2, v2 = explore(eng, lambda q: q.from_call(s, absint.const(0)), right='1', stop=look)
        judge('%s|present|%s|%s' % (p, s.fn.name, s.x), where, (h, e2, v + v2),
              'when the item is found, the answer may still be 0', 'when the item is found, a successful end without the answer 1',
              'found -> 1 on every path, or a further lookup decides')
    # no answer without a lookup
    got = explore(eng, lambda q: q.from_entry(), wrong='01', stop=look)
    judge(p + '|unasked', 'before any lookup', (got[0], [], got[2]), 'an answer is printed without looking anything up', '', 'no answer')
    # what an option names is looked up before a positive answer
    loads = [i for f in P.functions() for i in f.instrs() if i.op == 'load' and i.args[0][:2] == ('g', 'optarg')]
    for ld in loads:
        for c in sorted(case_of(ld.fn, ld) & set(OPTS)):
            need = ATTS if OPTS[c] != 'variable' else LOOKUP
            q0 = lambda q: q.from_point(ld.fn, ld.bb, ld.idx + 1, {ld.dst: absint.NZ}, {})
            h, e, v = explore(eng, q0, wrong='1', stop=lambda i: bool(need.match(i.x)))
            rep.count('options that name an item')
            if h and ld.fn is not P.main():
                rep.unknown('option -%s: what %s() leaves behind is not followed' % (chr(c), ld.fn.name))
                continue
            judge('%s|option|%s' % (p, chr(c)), 'option -%s' % chr(c), (h, [], v),
                  'the answer 1 is given without looking up the %s the option names' % OPTS[c], '', 'looked up before the answer 1')
    # the kind of item an option names is the kind that is looked up
    for s in looks:
        if not ATTS.match(s.x) or len(s.args) < 3:
            continue
        src = names_from(s.fn, s.args[2])
        if not src:
            continue
        cs = set().union(*(case_of(ld.fn, ld) & set(OPTS) for ld in src))
        v = eng.base(s.fn).get(s.args[1][1], absint.TOP) if s.args[1][0] == 'v' else eng.opconst(s.fn, s.args[1])
        glob = absint.isconst(v) and v[0] == GLOBAL
        where = '%s at %s in %s()' % (s.x, s.loc(), s.fn.name)
        key = '%s|kind|%s' % (p, s.fn.name)
        if cs == {ord('g')} and s.args[1][0] == 'c' and not glob:
            rep.bad(key, '%s: the attribute named by -g is looked up in a variable' % where)
        elif cs and ord('g') not in cs and glob:
            rep.bad(key, '%s: the attribute named by -%s is looked up among the global attributes' % (where, chr(min(cs))))
        elif ord('v') in cs:
            rep.bad(key, '%s: the name given by -v is looked up as an attribute' % where)
        elif cs:
            rep.ok('%s looks where -%s says' % (where, ''.join(map(chr, sorted(cs)))))
    for s in looks:
        if s.x in ('nc_inq_varid',):
            src = names_from(s.fn, s.args[1])
            cs = set().union(*(case_of(ld.fn, ld) & set(OPTS) for ld in src)) if src else set()
            if cs and cs != {ord('v')}:
                rep.bad('%s|kind|%s' % (p, s.fn.name), 'nc_inq_varid at %s: looks for a variable named by -%s' % (s.loc(), chr(min(cs - {ord('v')}))))
            elif cs:
                rep.ok('nc_inq_varid at %s looks for what -v names' % s.loc())


CALM = {'mpp_open', 'mpp_close', 'nc_close', 'mpp_pe'}


def library(rep, L, S):
    """the library functions that answer whether something exists"""
    seen = {}
    for p in L.c_programs():
        P = project.load(L, S, p)
        new = [f for f in P.functions() if QUESTION.match(f.name) and (f.mod.src, f.name) not in seen
               and f.mod.src.startswith('lib/') and not f.name.startswith('_')]
        if not new:
            continue
        eng = absint.Engine(P)
        for f in new:
            seen[f.mod.src, f.name] = f
            question(rep, P, eng, f)
    rep.floor('questions of the library', len(seen), 5)
    rep.count('questions of the library', len(seen))


def inside(P, f):
    out, todo = [], [f]
    done = {f}
    while todo:
        g = todo.pop()
        for i in g.instrs():
            if i.op != 'call' or not isinstance(i.x, str):
                continue
            if LOOKUP.match(i.x) or i.x in FILES:
                out.append(i)
            h = P.resolve(i, i.x)
            if h is not None and h not in done and i.x not in CALM:
                done.add(h)
                todo.append(h)
    return out


def question(rep, P, eng, f):
    sites = [i for i in inside(P, f)]
    where = '%s() in %s' % (f.name, f.mod.src)
    if not sites:
        rep.unknown('%s: no lookup found in it' % where)
        return
    rep.count('lookups', len(sites))

    def ask(result, start=None):
        md = {n: (lambda q, fn, i, env, mem: absint.const(0)) for n in CALM if n.startswith('nc_')}
        for n in ('mpp_open', 'mpp_close', 'mpp_pe'):
            md[n] = lambda q, fn, i, env, mem: absint.TOP
        for i in sites:
            md[i.x] = lambda q, fn, i, env, mem: result if result is not None else absint.TOP
        q = absint.Query(eng, models=md)
        if start is None:
            return q.run(f, (f.entry, 0), {}, {})
        env = {}
        q.setv(f, start.dst, absint.NZ, env)
        return q.run(f, (start.bb, start.idx + 1), env, {})
    r = ask(absint.const(0))
    if r is not None and absint.may_be_zero(r[0]):
        rep.bad('lib|%s|present' % f.name, '%s: may answer "no" although every lookup it makes succeeds' % where)
    else:
        rep.ok('%s: yes when found' % where)
    r = ask(absint.NZ)
    if r is not None and not absint.iszero(r[0]):
        rep.bad('lib|%s|absent' % f.name, '%s: may answer "yes" although no lookup it makes succeeds' % where)
    else:
        rep.ok('%s: no when nothing is found' % where)
    for s in sites:
        if s.fn is not f or s.dst is None:
            continue
        r = ask(None, s)
        if r is not None and not absint.iszero(r[0]):
            rep.bad('lib|%s|absent' % f.name, '%s: may answer "yes" after %s at %s failed' % (where, s.x, s.loc()))
        else:
            rep.ok('%s: no when %s fails' % (where, s.x))


def lifted(P, s):
    """the call site itself and those of the functions it is in"""
    out, todo = [], [s]
    while todo:
        s = todo.pop()
        if s not in out:
            out.append(s)
            todo += P.callers(s.fn)
    return out


def compressed(rep, L, S):
    p = 'is-compressed'
    P = project.load(L, S, p)
    eng = absint.Engine(P)
    live = list(faults.live_calls(eng))
    att = [i for i in live if ATTS.match(i.x) and any(P.cstr(i.fn, a) == 'compress' for a in i.args)]
    var = [i for i in live if i.x == 'nc_inq_varid']
    opened = [i for i in live if i.x in FILES]
    rep.floor('lookups in is-compressed', min(len(att), len(var), len(opened)), 1)
    rep.count('lookups', len(att) + len(var))
    rep.count('functions', len(list(P.functions())))
    calm = {i.x: (lambda q, fn, i, env, mem: absint.const(0)) for i in live
            if i.x.startswith('nc_') and i not in att and i not in var and not ATTS.match(i.x)}
    names = {i.x for i in att}
    varn = {i.x for i in var}

    def never(what, bad):
        md = dict(calm)
        for n in bad:
            md[n] = lambda q, fn, i, env, mem: absint.NZ
        for s in opened:
            q = absint.Query(eng, models=md)
            q.from_call(s, absint.const(0))
            z = ends_well(q)
            if z:
                rep.bad('%s|%s' % (p, what), '%s: if every lookup of %s fails, the status may still be 0 (%s)' % (p, what, z[0][0].loc()))
            else:
                rep.ok('%s: no %s -> %d possible ends, all non-zero' % (p, what, len(q.terms)))
    never('the compress attribute', names)
    never('the coordinate variable', varn)
    for s in att:
        q = absint.Query(eng, models=calm)
        q.from_call(s, absint.const(0))
        w = [t for t in q.terms if not absint.iszero(t[1])]
        if w:
            rep.bad(p + '|found', '%s: once %s at %s has found the attribute, the status may still be other than 0 (%s)'
                    % (p, s.x, s.loc(), w[0][0].loc()))
        else:
            rep.ok('%s: found at %s -> status 0 on every path' % (p, s.loc()))
    # the attribute is looked up in every dimension's variable
    done = 0
    for s in att + var:
        q = absint.Query(eng, models=calm, stop=lambda q, fn, i, env: i.op == 'call' and i.x in names | varn)
        q.seen = set()
        q.from_call(s, absint.NZ)
        for t in lifted(P, s):
            for h, body in natural(t.fn).items():
                if t.bb not in body:
                    continue
                c = Count(t.fn, h, body)
                why = c.problem(t.fn)
                done += 1
                out = [e for e in q.seen if len(e) == 3 and e[0] is t.fn and e[1] in body and e[2] not in body and e[1] not in c.tests]
                if why:
                    rep.bad(p + '|loop', '%s: the loop over the dimensions around %s at %s does not reach all of them: %s'
                            % (p, s.x, s.loc(), why))
                elif why is None and out and c.phi is not None:
                    rep.bad(p + '|loop', '%s: the loop over the dimensions is left when %s at %s finds nothing, with dimensions still to come'
                            % (p, s.x, s.loc()))
                elif why is None:
                    rep.ok('%s: the loop around %s covers every dimension' % (p, s.loc()))
                else:
                    rep.unknown('%s: how the loop around %s counts cannot be told' % (p, s.loc()))
    rep.count('loops', done)


def c20(rep):
    rep.rule = ('ncexists: after a failed lookup no path prints 1 and every successful end has printed 0, after a successful one the reverse '
                'unless a further lookup decides; no answer is printed, and no option that names an item is answered with 1, without a lookup. '
                'Library *_exist functions: yes if all lookups succeed, no if one fails. is-compressed: status 0 exactly after the '
                'attribute was found, looked for in every dimension')
    rep.assumptions = ['nc_inq_* return 0 exactly when the item exists', 'closing a file that was only read succeeds (for the library questions and is-compressed)']
    L = project.Layout()
    S = project.Store(L)
    ncexists(rep, L, S)
    compressed(rep, L, S)
    library(rep, L, S)
