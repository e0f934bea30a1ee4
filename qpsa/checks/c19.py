"""C19  the limit on working set recalculations is kept and their number is reported."""
from ..common import Result, Ctx, pmap
from ..engine import Engine, SWAP
from ..ir import leaves
from ..build import EXTRA, AnalysisError

STEP = 'changeActiveSet'
LIMIT = 'nWSR'
DONE = 'nWSRperformed'


def lin(e):
    """(constant, terms) of a sum"""
    if e[0] == 'K':
        return e[1], ()
    if e[0] == 'O' and e[1] == 'add' and len(e) == 4:
        a, b = lin(e[2]), lin(e[3])
        return a[0] + b[0], tuple(sorted(a[1] + b[1], key=repr))
    if e[0] == 'O' and e[1] == 'sub' and len(e) == 4 and e[3][0] == 'K':
        a = lin(e[2])
        return a[0] - e[3][1], a[1]
    return 0, (e,)


def ren(e, old, new):
    if e == old:
        return new
    if isinstance(e, tuple):
        return tuple(ren(x, old, new) if isinstance(x, tuple) else x for x in e)
    return e


def expr(T):
    """the value a linear form stands for, where it has one term or none"""
    c, t = T
    if not t:
        return ('K', c)
    if len(t) == 1:
        return t[0] if c == 0 else ('O', 'add') + tuple(sorted((t[0], ('K', c)), key=repr))
    return None


class CountEngine(Engine):
    """T: linear forms that all equal the number of recalculations performed so far, re-expressed over the joins of loops that perform some"""
    def loops(self):
        if not hasattr(self, 'inloop'):
            self.inloop = {}
            for h, L in self.fn.loops.items():
                hot = any(i.o in ('call', 'invoke') and any(c in self.ck.U.steps or c in self.ck.U.contract for c in self.p.callees(i)) for b in L for i in self.fn.bbs[b])
                self.inloop[h] = {i.i for b in L for i in self.fn.bbs[b] if i.i is not None} if hot else None
        return self.inloop

    def key(self, st, b):
        if not st.res.get('lim') and any(self.atlimit(st, f) for f in st.res['T']):
            st.res['lim'] = True
        if not st.res.get('low') and any(self.below(st, f) for f in st.res['T']):
            st.res['low'] = True
        return Engine.key(self, st, b)

    def versus(self, st, f, pred):
        """is 'T pred limit' known"""
        N = self.ck.N; x = expr(f); fs = {f}
        if len(f[1]) == 1 and f[1][0][0] == 'V':
            v = st.env.get(f[1][0][1])
            if v is not None:
                c, t = lin(v); fs.add((c + f[0], t))
        if x is not None and self.decide(st, ('C', pred, x, N) if x[0] != 'K' else ('C', SWAP[pred], N, x)) is True:
            return True
        for k, q in st.rels.items():
            if len(k) == 2 and N in k:
                a, b = k; p = pred
                if a == N:
                    a, p = b, SWAP[pred]
                if lin(a) in fs and self.IMPL[q].get(p) is True:
                    return True
        return False

    def atlimit(self, st, f):
        return self.versus(st, f, 'sge')

    def below(self, st, f):
        return self.versus(st, f, 'slt')

    def enter(self, st, b, pb):
        T = st.res['T']; phis = [i for i in self.fn.bbs[b] if i.o == 'phi']
        own = {i.i for i in phis}; back = b in self.fn.loops and pb in self.fn.loops[b]; inl = self.loops().get(b) or own
        new = {f for f in T if not ({x[1] for x in leaves(('x',) + f[1]) if x[0] == 'V'} & (inl if back else own)) and (f[0] == 0 or not back)}
        if b not in self.fn.loops or self.loops().get(b):
            for i in phis:
                if i.t == 'double':
                    continue
                for v, p in i.ph:
                    if p == pb:
                        c, t = lin(self.val(st, v))
                        new |= {(f[0] - c, (('V', i.i),)) for f in T if f[1] == t and abs(f[0] - c) <= 1}
        s = Engine.enter(self, st, b, pb)
        if s is not None:
            s.res = dict(s.res); s.res['T'] = frozenset(new)
        return s


class Outs:
    """what a helper leaves in its output arguments, by exit"""
    nonan = True

    def __init__(self, U, f):
        self.U = U; self.f = f; self.outs = set(); self.ptr = [k for k in range(f.nargs) if f.atypes[k] == 'ptr']

    def reskey(self, eng, st):
        return 0

    def memkeep(self, eng, st, a, v):
        return a[0] == 'A'

    def keepfact(self, eng, st, k):
        return False

    def call(self, eng, st, n, cs):
        return self.U.transfer(eng, st, n, cs)

    def ret(self, eng, st, n, v):
        o = []
        for k in self.ptr:
            a = ('A', k); c = current(st, a)
            if c != ('L', a):
                o.append((k, c if known(c) else None))
        self.outs.add(tuple(o))


def known(e):
    if e[0] in ('A', 'K'):
        return True
    if e[0] == 'L':
        return len(e) == 2 and e[1][0] == 'A'
    return e[0] == 'O' and e[1] in ('add', 'sub') and all(known(x) for x in e[2:])


def fill(e, args, now):
    if e[0] == 'A':
        return args[e[1]]
    if e[0] == 'L':
        return now[e[1][1]]
    if e[0] == 'O':
        return e[:2] + tuple(fill(x, args, now) for x in e[2:])
    return e


def current(st, a):
    v = st.mem.get(a)
    if v is None:
        e = st.ep.get(a)
        v = ('L', a) if e is None else ('L', a, e)
    return v


class Ck:
    nonan = True

    def __init__(self, U, f):
        self.U = U; self.f = f; self.viol = {}; self.k, self.p = U.contract[f.n]; self.N = ('L', ('A', self.k))
        self.steps = set(); self.calls = set(); self.rets = set()

    def entry(self, eng, st):
        st.res['T'] = frozenset([lin(('A', self.p) if self.p is not None else ('K', 0))])
        st.res['ran'] = False

    def reskey(self, eng, st):
        return frozenset(st.res.items())

    def memkeep(self, eng, st, a, v):
        return a == ('A', self.k)

    def keepfact(self, eng, st, k):
        return False

    def v(self, rule, n, msg):
        self.viol.setdefault((rule, n.bb, n.k), msg)

    def call(self, eng, st, n, cs):
        U = self.U
        args = [eng.addr(st, a) if isinstance(a, (str, list)) else ('K', a) for a in n.a]
        if any(c in U.steps for c in cs):
            self.steps.add((n.bb, n.k))
            ok = current(st, ('A', self.k)) == self.N and (st.res.get('low') or any(eng.below(st, f) for f in st.res['T']))
            if not ok:
                self.v('limit', n, 'the working set is changed although the limit may have been reached')
            out = U.rv.apply(eng, st, n, cs)
            res = []
            for s in (out if out is not None else [st]):
                d = eng.domain(s, eng.val(s, '%%%d' % n.i)) if n.i is not None else None
                s.res['ran'] = True
                if d is None or not isinstance(d, frozenset):
                    t = s.copy(); t.res = dict(t.res)
                    t.facts[('V', n.i)] = frozenset([0]); s.facts[('V', n.i)] = ('I', 1, 1 << 40, frozenset())
                elif d == frozenset([0]):
                    t, s = s, None
                elif 0 in d:
                    t = s.copy(); t.res = dict(t.res)
                    t.facts[('V', n.i)] = frozenset([0]); s.facts[('V', n.i)] = d - {0}
                else:
                    t = None
                if t is not None:
                    t.res['T'] = frozenset((f[0] + 1, f[1]) for f in t.res['T']); t.res['lim'] = t.res['low'] = False
                    res.append(t)
                if s is not None:
                    res.append(s)
            return res
        con = [(c, U.contract[c]) for c in cs if c in U.contract]
        if con and len(con) == len(cs):
            self.calls.add((n.bb, n.k))
            X = ('V', -1000 - n.i); old = ('V', -500000 - n.i)
            k, p = con[0][1]
            a = args[k]
            T = st.res['T']
            if current(st, a) != self.N:
                self.v('given', n, 'the limit handed to %s is not the limit of this call' % U.p.fns[con[0][0]].pretty)
            done = lin(args[p]) if p is not None else lin(('K', 0))
            if done not in T:
                self.v('restart', n, 'the recalculations performed so far are not counted by %s' % U.p.fns[con[0][0]].pretty)
            out = U.rv.apply(eng, st, n, cs)
            for s in (out if out is not None else [st]):
                for d in (s.env, s.mem):
                    for kk in list(d):
                        if X in leaves(('x', d[kk])):
                            d[kk] = ren(d[kk], X, old)
                eng.forget_value(s, X[1])
                s.mem[a] = X
                s.res['T'] = frozenset([lin(X)]); s.res['ran'] = True; s.res['lim'] = s.res['low'] = False
            return out if out is not None else [st]
        return U.transfer(eng, st, n, cs)

    def ret(self, eng, st, n, v):
        self.rets.add((n.bb, n.k))
        cur = current(st, ('A', self.k)); T = st.res['T']
        d = None
        if v is not None:
            d = frozenset([v[1]]) if v[0] == 'K' else eng.domain(st, v)
        fails = isinstance(d, frozenset) and 0 not in d
        if lin(cur) in T:
            return
        if cur == self.N and (st.res.get('lim') or any(eng.atlimit(st, f) for f in T)):
            return                  # limit reached
        if fails and not st.res['ran']:
            return                  # refused before anything was solved
        self.v('report', n, 'the number of recalculations performed is not reported%s' % (' after a failure' if fails else ''))


class Unit:
    def __init__(self, ctx, unit):
        self.p = p = ctx.prog(unit); self.eff = ctx.eff(unit); self.rv = ctx.rv(unit)
        self.contract = {}; fam = {'QProblemB'} | set(p.subclasses('QProblemB'))
        for f in p.fns.values():
            if f.decl or not f.bbs or not p.in_repo(f):
                continue
            if not (f.cls in fam or '/interfaces/c/' in f.file):
                continue
            ks = [k for k in range(f.nargs) if f.argname(k) == LIMIT and f.atypes[k] == 'ptr']
            if ks:
                ps = [k for k in range(f.nargs) if f.argname(k) == DONE and f.atypes[k] != 'ptr']
                self.contract[f.n] = (ks[0], ps[0] if ps else None)
        base = {f.n for f in p.fns.values() if not f.decl and f.sn == STEP}
        reach = set(base); more = True
        while more:
            more = False
            for f in p.fns.values():
                if not f.decl and f.bbs and f.n not in reach and any(c in reach for i in f.calls() for c in p.callees(i)):
                    reach.add(f.n); more = True
        # only routines that solve; a routine handed the limit of one counts as one whatever it calls its parameter
        self.contract = {n: c for n, c in self.contract.items() if n in reach and n not in base}
        todo = list(self.contract)
        while todo:
            f = p.fns[todo.pop()]; k = self.contract[f.n][0]
            for i in f.calls():
                for c in p.callees(i):
                    g = p.fns.get(c)
                    if g is None or c in self.contract or c not in reach or c in base or not g.bbs:
                        continue
                    for j, a in enumerate(i.a):
                        if not isinstance(a, int) and f.ex(a) == ('A', k) and j < g.nargs and g.atypes[j] == 'ptr':
                            ps = [q for q in range(g.nargs) if g.argname(q) == DONE and g.atypes[q] != 'ptr']
                            self.contract[c] = (j, ps[0] if ps else None); todo.append(c)
        self.outs = {}; self.open = set()
        steps = {f.n for f in p.fns.values() if not f.decl and f.sn == STEP and f.n not in self.contract}
        self.base = set(steps)
        more = True
        while more:
            more = False
            for f in p.fns.values():
                if f.decl or f.n in steps or f.n in self.contract or not f.bbs:
                    continue
                if any(c in steps for i in f.calls() for c in p.callees(i)):
                    steps.add(f.n); more = True
        self.steps = steps


    def summary(self, c):
        f = self.p.fns.get(c)
        if f is None or f.decl or not f.bbs or not self.p.in_repo(f) or c in self.open or sum(len(b) for b in f.bbs) > 400:
            return None
        if c not in self.outs:
            self.open.add(c)
            ck = Outs(self, f); Engine(self.p, f, ck, self.eff, maxst=100).run()
            self.open.discard(c); self.outs[c] = ck.outs
        return self.outs[c]

    def transfer(self, eng, st, n, cs):
        """a call of a helper: its effect on the numbers handed in by address"""
        hot = [k for k, a in enumerate(n.a) if isinstance(a, str) and eng.addr(st, a)[0] in ('A', 'M') and self.eff.outwrite(cs[0], k)] if len(cs) == 1 else []
        sm = self.summary(cs[0]) if hot else None
        if not sm or len(sm) > 8:
            out = self.rv.apply(eng, st, n, cs)
            return out if out is not None else [st]
        args = [eng.addr(st, a) if isinstance(a, (str, list)) else ('K', a) for a in n.a]
        now = {k: current(st, a) for k, a in enumerate(args)}
        res = []
        for o in sm:
            s = st.copy(); s.res = dict(st.res)
            for s in (self.rv.apply(eng, s, n, cs) or [s]):
                for k in hot:
                    if args[k] in s.mem or True:
                        d = dict(o)
                        if k not in d:
                            s.mem[args[k]] = now[k]
                        elif d[k] is not None:
                            s.mem[args[k]] = fill(d[k], args, now)
                res.append(s)
        return res


def analyse(unit):
    ctx = Ctx(); U = Unit(ctx, unit); p = U.p
    st = {'routines': len(U.contract), 'recalculation_sites': 0, 'solver_calls': 0, 'exits': 0, 'step_routines': len(U.base)}; viol = []
    for n in sorted(U.contract):
        f = p.fns[n]; ck = Ck(U, f)
        e = CountEngine(p, f, ck, U.eff, maxst=1000); e.run()
        st['recalculation_sites'] += len(ck.steps); st['solver_calls'] += len(ck.calls); st['exits'] += len(ck.rets)
        for (rule, b, k), msg in ck.viol.items():
            viol.append(dict(rule=rule, fn=f.pretty, at=f.loc(f.bbs[b][k]), detail=f.argname(ck.k), msg=msg))
    return st, viol


def run(ctx):
    R = Result(['the working set is changed in an iteration only while the recalculations performed so far are fewer than the limit handed in',
                'every further solver call gets the limit itself and the number performed so far',
                'every exit after solving started leaves the number of recalculations performed (or the limit, once reached) in the output argument'])
    units = ['lib', 'cwrap'] + (EXTRA if ctx.tier == 'thorough' else [])
    R.prog = ctx.prog('lib'); R.cov = {'units': units, 'per_unit': {}}
    for u, (st, viol) in zip(units, pmap(analyse, units)):
        R.cov['per_unit'][u] = st
        for k, x in st.items():
            R.cov[k] = R.cov.get(k, 0) + x
        R.obligations += st['recalculation_sites'] + st['solver_calls'] + st['exits']
        if u == 'lib':
            R.need(st['step_routines'], 'routines that change the working set in an iteration')
            R.need(st['recalculation_sites'], 'working set changes in iterations', 2)
            R.need(st['solver_calls'], 'calls of solver routines by solver routines', 20)
        for v in viol:
            R.v(v['rule'], v['fn'], None, v['detail'], v['msg'], at=v['at'])
    R.cov['explanation'] = ('Path-sensitive count of recalculations as a linear expression over loop counters and reported numbers, inductive over loops, '
                            'with a contract (limit in, number out) at every call between solver routines.')
    return R
