"""C13  an argument that may be null is never dereferenced while it is null."""
import re
from ..common import Result, Ctx, pmap
from ..engine import Engine, INF
from ..build import EXTRA, AnalysisError
from ..header import all_declarations, norm

# external functions that take a null pointer
ACCEPT = ('_ZdaPv', '_ZdlPv', 'free', 'realloc', 'time', 'gettimeofday', 'llvm.lifetime', 'llvm.dbg', 'llvm.public.type.test', 'llvm.type.test', 'llvm.assume')
NOBOUND = re.compile(r'If no (lower|upper)[\w\' ]* bounds exist')
DOC = re.compile(r'null pointer|\bNULL\b|if pointer passed', re.I)


def base(e):
    while e[0] == 'P':
        e = e[1]
    return e


LOWER = -1


def fields(a):
    out = set()
    while a[0] in ('P', 'L'):
        if a[0] == 'P' and a[4]:
            out.add(a[4])
        a = a[1]
    return out


def statuskey(a):
    while a[0] in ('P', 'L'):
        if a[0] == 'P' and a[4] and a[4].endswith('::status') and not a[4].startswith('QProblem'):
            return True
        a = a[1]
    return False


class NullEngine(Engine):
    nulls = frozenset()

    def domain(self, st, e):
        if e in self.nulls:
            return frozenset([0])
        return Engine.domain(self, st, e)


class Ck:
    nonan = True

    def __init__(self, U, f, ctx):
        self.U = U; self.f = f
        self.null = {('A', k) for k, w in ctx if w == 'n'}
        self.off = {('A', k) for k, w in ctx if w == 'o'}
        self.viol = {}; self.sub = []
        sides = {('lb' if re.search('lb', f.argname(k), re.I) else 'ub' if re.search('ub', f.argname(k), re.I) else '') for k, _ in ctx}
        self.side = sides.pop() if len(sides) == 1 and U.bounded else ''

    def isnull(self, eng, st, e):
        """'n' the null pointer, 'o' a pointer computed from it"""
        b = base(e)
        if b[0] == 'S' or b[0] == 'C':
            return None
        if b in self.null or b == ('K', 0):
            return 'n' if b == e else 'o'
        if b in self.off:
            return 'o'
        return None

    def access(self, eng, st, n, a):
        if base(a) == ('K', 0) and not self.null:
            return
        if self.isnull(eng, st, a) and not self.active(eng, st):
            self.viol.setdefault((n.bb, n.k), 'dereferenced')

    def statuscall(self, i):
        n = self.f.inst.get(i)
        if n is None or n.o != 'call':
            return False
        cs = self.U.p.callees(n)
        return bool(cs) and all(c in self.U.p.fns and 'SubjectTo::status' in self.U.reads(c) for c in cs)

    keepkey = False

    def reskey(self, eng, st):
        return self.active(eng, st)

    def keepfact(self, eng, st, k):
        return bool(self.side) and self.ofstatus(k)

    def ofstatus(self, e):
        return e[0] == 'L' and statuskey(e[1]) or e[0] == 'V' and self.statuscall(e[1])

    def active(self, eng, st):
        """a bound is only looked up for a member of the working set that is active at it: the
        documentation allows null only if no such bound exists, so that none can be active at it"""
        if not self.side:
            return False
        for e, d in st.facts.items():
            if self.ofstatus(e):
                low = d == frozenset([LOWER]); notlow = LOWER not in d if isinstance(d, frozenset) else (LOWER in d[3] or d[1] > LOWER or d[2] < LOWER)
                if (self.side == 'lb' and low) or (self.side == 'ub' and notlow):
                    return True
        return False

    def load(self, eng, st, n, addr):
        self.access(eng, st, n, addr)

    def store(self, eng, st, n, addr, v):
        self.access(eng, st, n, addr)

    def getter(self, eng, st, n, e):
        while e[0] in ('L', 'P', 'O'):
            if e[0] == 'L':
                self.access(eng, st, n, e[1])
            e = e[1] if e[0] != 'O' else e[2]

    def call(self, eng, st, n, cs):
        ctx = set(); direct = False
        for j, a in enumerate(n.a):
            if isinstance(a, int) or not isinstance(a, str):
                continue
            av = eng.addr(st, a)
            w = self.isnull(eng, st, av)
            if w and (base(av) != ('K', 0) or True):
                ctx.add((j, w, base(av) == ('K', 0)))
        for c in cs:
            g = self.U.p.fns.get(c)
            # a literal null handed on is checked too, but only together with an argument that is null here or everywhere
            sub = frozenset((j, w) for j, w, lit in ctx if g is not None and j < g.nargs and g.atypes[j] == 'ptr')
            if not sub:
                continue
            if g is None or g.decl or g.file.startswith('/usr'):
                if not c.startswith(ACCEPT):
                    self.viol.setdefault((n.bb, n.k), 'passed to %s' % c)
                continue
            self.sub.append((n.bb, n.k, c, sub))
        return self.U.rv.apply(eng, st, n, cs)


class Unit:
    def __init__(self, ctx, unit):
        self.p = ctx.prog(unit); self.eff = ctx.eff(unit); self.rv = ctx.rv(unit); self.memo = {}; self.steps = 0; self._rd = {}

    bounded = False

    def reads(self, c):
        """fields a short accessor returns"""
        if c not in self._rd:
            f = self.p.fns[c]
            self._rd[c] = {k for i in f.insts() if i.o == 'load' and isinstance(i.a[0], str) for k in fields(f.ex(i.a[0]))} if not f.decl else set()
        return self._rd[c]

    def run(self, c, nulls, bounded=False):
        """[(function, location, what, chain)] dereferences in c and what it calls, when these arguments are null"""
        self.bounded = bounded
        todo = [(c, nulls, ())]; seen = {(c, nulls)}; out = []
        while todo:
            c, nulls, chain = todo.pop()
            f = self.p.fns[c]
            if (c, nulls, bounded) not in self.memo:
                ck = Ck(self, f, nulls)
                e = NullEngine(self.p, f, ck, self.eff, maxst=200)
                e.nulls = frozenset(ck.null)
                e.run()
                if e.trunc and ck.viol:
                    ck2 = Ck(self, f, nulls)
                    e = NullEngine(self.p, f, ck2, self.eff, maxst=1500)
                    e.nulls = frozenset(ck2.null)
                    e.run()
                    ck = ck2
                self.steps += e.steps
                self.memo[c, nulls, bounded] = ([(f.pretty, f.loc(f.bbs[b][k]), w) for (b, k), w in ck.viol.items()],
                                       [(f.loc(f.bbs[b][k]), g, s) for b, k, g, s in ck.sub])
            v, sub = self.memo[c, nulls, bounded]
            for x in v:
                out.append(x + (chain,))
            for at, g, s in sub:
                if (g, s) not in seen:
                    seen.add((g, s))
                    todo.append((g, s, chain + (at,)))
        return out


def optional(p):
    """{(mangled, arg)}: why null is allowed"""
    by = {}
    for f in p.fns.values():
        if f.decl or f.file.startswith('/usr') or f.has_sret or not f.bbs:
            continue
        m = re.match(r'^(.*?)\((.*)\)( const)?$', f.prettysig)
        if m:
            ts = [norm(x) for x in split(m.group(2))] if m.group(2) else []
            ts = [t for t in ts if t]
        else:
            ts = None
        by.setdefault((f.cls.split('::')[-1] if f.cls else None, f.sn or f.n), []).append((f, ts))
    opt = {}; matched = 0; unmatched = []
    for d in all_declarations():
        if not any(optp(x) for x in d['params']):
            continue
        ts = [x['type'] for x in d['params'] if x['type'] not in ('void', '')]
        hit = False
        for f, fts in by.get((d['cls'], d['name']), []):
            if fts is None:
                if f.cls or f.nargs != len(ts):
                    continue
            elif fts != ts:
                continue
            hit = True
            off = f.nargs - len(ts)
            for k, x in enumerate(d['params']):
                if optp(x):
                    opt[f.n, k + off] = ('documented at %s' % d['at'], bool(NOBOUND.search(x['doc'])))
        matched += hit
        if not hit:
            unmatched.append('%s::%s %s' % (d['cls'], d['name'], d['at']))
    # pointers a function itself tests for null
    for f in p.fns.values():
        if f.decl or f.file.startswith('/usr') or not f.bbs:
            continue
        for i in f.insts():
            if i.o == 'icmp':
                e = f.ex('%%%d' % i.i)
                if e[0] == 'C' and e[1] in ('eq', 'ne') and ('K', 0) in e[2:]:
                    x = e[2] if e[3] == ('K', 0) else e[3]
                    if x[0] == 'A' and x[1] < f.nargs and f.atypes[x[1]] == 'ptr':
                        if compiler_test(f, i):
                            continue
                        opt.setdefault((f.n, x[1]), ('tested for null at %s' % f.loc(i), False))
    return opt, matched, unmatched


def compiler_test(f, i):
    """the null test a compiler puts around an up-cast or a delete: its line has no test of its own"""
    return i.l == 0


def split(s):
    out = []; d = 0; cur = ''
    for ch in s:
        if ch in '(<[':
            d += 1
        if ch in ')>]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur); cur = ''
        else:
            cur += ch
    return out + [cur]


def optp(x):
    return x["type"].endswith("*") and (x["default"] in ("0", "NULL", "nullptr") and not x["type"].endswith("**") or bool(DOC.search(x["doc"])))


def analyse(unit):
    ctx = Ctx(); U = Unit(ctx, unit); p = U.p
    opt, matched, unmatched = optional(p)
    if not unit.startswith('lib'):
        opt = {(c, k): w for (c, k), w in opt.items() if '/src/' not in p.fns[c].file and '/include/' not in p.fns[c].file}
    st = {'optional_arguments': len(opt), 'declarations_matched': matched, 'documented': sum(1 for w in opt.values() if w[0].startswith('doc'))}
    viol = []; seen = set()
    jobs = []
    for (c, k), (why, cond) in sorted(opt.items()):
        if why.startswith('doc'):
            jobs.append((c, k, frozenset([(k, 'n')]), why, cond))
    tested = {}
    for (c, k), (why, cond) in sorted(opt.items()):
        if not why.startswith('doc'):
            tested.setdefault(c, []).append((k, why))
    for c, ks in tested.items():
        jobs.append((c, ks[0][0], frozenset((k, 'n') for k, _ in ks), ks[0][1], False))
    for c, k, ctxn, why, cond in jobs:
        f = p.fns[c]
        for fn, at, w, chain in U.run(c, ctxn, cond):
            if (fn, at) in seen:
                continue
            seen.add((fn, at))
            viol.append({'rule': 'null', 'fn': fn, 'at': at, 'detail': f.pretty + ':' + f.argname(k),
                         'msg': 'null %s (argument of %s, %s) is %s%s' % (f.argname(k), f.pretty, why, w, ' through ' + ' > '.join(chain) if chain else '')})
    st['function_contexts'] = len(U.memo)
    st['unmatched'] = len(unmatched)
    return st, viol


def run(ctx):
    R = Result(['an argument documented as optional, with a null default, or tested for null is not dereferenced on any path on which it is null',
                'nor is it passed on to a routine that would dereference it'])
    units = ['lib', 'cwrap'] + (['lib-ma57'] if True else []) + ([u for u in EXTRA if u != 'lib-ma57'] if ctx.tier == 'thorough' else [])
    R.cov = {'units': units, 'per_unit': {}}
    R.prog = ctx.prog('lib')
    for u, (st, viol) in zip(units, pmap(analyse, units)):
        R.cov['per_unit'][u] = st
        for k, v in st.items():
            R.cov[k] = R.cov.get(k, 0) + v
        if u == 'lib':
            R.need(st['documented'], 'arguments documented as optional', 150)
        R.obligations += st['function_contexts']
        for v in viol:
            R.v(v['rule'], v['fn'], None, v['detail'], v['msg'], at=v['at'])
    return R
