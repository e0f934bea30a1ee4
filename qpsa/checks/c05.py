"""C05  the solver status and the infeasibility/unboundedness flags agree with what the call returned."""
import time
from ..common import Result, Ctx, pmap
from ..engine import Engine, d_refine
from ..build import EXTRA, AnalysisError

F = ('QProblemB::status', 'QProblemB::infeasible', 'QProblemB::unbounded')
TOP = 'any'


def base(a):
    while a[0] == 'P' and (a[4] is None or a[4].startswith('up:')) and not a[3]:
        a = a[1]
    return a


class Ck:
    nonan = True

    def __init__(self, U, f, consts, entryv):
        self.entryv = entryv; self.U = U; self.f = f; self.p = U.p; self.consts = consts; self.outs = {}; self.at = {}; self.exits = 0

    def entry(self, eng, st):
        for k, v in self.consts:
            st.facts[('A', k)] = frozenset([v])
        for fl, v in zip(F, self.entryv):
            st.res[fl] = v
            if isinstance(v, int):
                st.mem[self.U.addr(fl)] = ('K', v)

    def reskey(self, eng, st):
        return frozenset(st.res.items())

    def memkeep(self, eng, st, a, v):
        return False

    def keepfact(self, eng, st, k):
        # what is known of the returned code and of the flags at entry
        return k[0] == 'A' or k[0] == 'L' and k[1][0] == 'P' and k[1][4] in F

    def fieldof(self, addr):
        if addr[0] == 'P' and addr[4] in F and base(addr[1]) == ('A', 0):
            return addr[4]

    def store(self, eng, st, n, addr, v):
        fl = self.fieldof(addr)
        if fl:
            d = eng.domain(st, v)
            st.res[fl] = next(iter(d)) if isinstance(d, frozenset) and len(d) == 1 else TOP

    @staticmethod
    def value(st, ad):
        m = st.mem.get(ad)
        if m is not None:
            return m
        e = st.ep.get(ad[4])
        return ('L', ad) if e is None else ('L', ad, e)

    def settle(self, eng, st):
        """what tests have told about the fields"""
        for fl in F:
            if not isinstance(st.res[fl], int):
                ad = self.U.addr(fl)
                d = eng.domain(st, self.value(st, ad))
                if isinstance(d, frozenset) and len(d) == 1:
                    st.res[fl] = next(iter(d))
                elif fl == F[0] and d is not None and d_refine(d, 'eq', self.U.solved) is False:
                    st.res[fl] = 'notsolved'

    def branch(self, eng, st, n, c, truth):
        self.settle(eng, st)

    def load(self, eng, st, n, addr):
        pass

    def call(self, eng, st, n, cs):
        U = self.U
        tr = [c for c in cs if c in U.tracked]
        a0 = base(eng.addr(st, n.a[0])) if n.a and isinstance(n.a[0], str) else None
        if not tr or a0 != ('A', 0):
            return U.rv.apply(eng, st, n, cs)
        self.settle(eng, st)
        before = dict(st.res)
        now = tuple(before[fl] if isinstance(before[fl], int) else 'same' for fl in F)
        groups = {}
        for c in cs:
            if c in U.tracked:
                g = self.p.fns[c]
                ks = []
                for k, x in enumerate(n.a[:g.nargs]):
                    v = eng.val(st, x) if isinstance(x, str) else ('K', x) if isinstance(x, int) else None
                    d = eng.domain(st, v) if v else None
                    if isinstance(d, frozenset) and len(d) == 1 and k in U.codeargs(g):
                        ks.append((k, next(iter(d))))
                for key, r in U.summary(c, tuple(ks), now).items():
                    o = groups.get(key)
                    groups[key] = TOP if r == TOP or o == TOP else (o or frozenset()) | r
            else:
                groups[('same',) * 3] = TOP
        out = U.rv.apply(eng, st, n, cs)
        res = []
        for s in (out if out is not None else [st]):
            for key, r in groups.items():
                t = s.copy()
                for fl, v in zip(F, key):
                    t.res[fl] = before[fl] if v == 'same' else v
                    ad = U.addr(fl)
                    for a in [a for a in t.mem if a[0] == 'P' and a[4] == fl and base(a[1]) == ('A', 0)]:
                        del t.mem[a]
                    w = t.res[fl]
                    if isinstance(w, int):
                        t.mem[ad] = ('K', w)
                    elif w == 'notsolved':
                        eng.assume(t, ('C', 'ne', self.value(t, ad), ('K', U.solved)), True)
                if n.i is not None and r != TOP:
                    v = t.env.get(n.i, ('V', n.i))
                    d = eng.domain(t, v)
                    d = d & r if isinstance(d, frozenset) else r
                    if not d:
                        continue
                    if len(d) == 1:
                        t.env[n.i] = ('K', next(iter(d)))
                    else:
                        t.env[n.i] = ('V', n.i)
                        t.facts[('V', n.i)] = frozenset(d)
                res.append(t)
        return res

    def ret(self, eng, st, n, v):
        self.exits += 1
        self.settle(eng, st)
        key = tuple(st.res[fl] for fl in F)
        if v is None or self.f.rt != 'i32':
            d = None
        else:
            d = eng.domain(st, v)
        o = self.outs.get(key)
        if not isinstance(d, frozenset):
            self.outs[key] = TOP
            self.at.setdefault((key, None), []).append(n) if n not in self.at.get((key, None), []) else None
        else:
            if o != TOP:
                self.outs[key] = (o or frozenset()) | d
            for x in d:
                self.at.setdefault((key, x), set()).add(self.where(st, n))

    def where(self, st, n):
        t = getattr(st, 'trace', None)
        return self.f.loc(t) if t is not None else self.f.loc(n)


class Unit:
    def __init__(self, ctx, unit):
        self.p = p = ctx.prog(unit); self.eff = ctx.eff(unit); self.rv = ctx.rv(unit); self.memo = {}; self.cks = {}
        self.tracked = set(); self.solved = p.enum('QProblemStatus')['QPS_SOLVED']
        for f in p.fns.values():
            if f.decl or not f.bbs or not f.cls or f.file.startswith('/usr'):
                continue
            if f.cls == 'QProblemB' or 'QProblemB' in p.allbases(f.cls):
                if any(x in F for x in self.eff.writes(f.n)) and f.sn not in ('copy', 'operator=') and f.sn != f.cls and not f.sn.startswith('~'):
                    self.tracked.add(f.n)
        self.steps = 0; self.times = {}

    def addr(self, fl):
        return ('P', ('A', 0), 0, (), fl)

    def codeargs(self, g):
        return [k for k in range(1, g.nargs) if g.atypes[k] == 'i32']

    def summary(self, c, consts=(), entryv=('same',) * 3):
        key = (c, consts, entryv)
        if key not in self.memo:
            self.memo[key] = {(TOP, TOP, TOP): TOP}
            f = self.p.fns[c]
            ck = Ck(self, f, consts, entryv)
            e = Engine(self.p, f, ck, self.eff, maxst=200)
            t0 = time.time()
            e.run()
            self.times[f.pretty] = self.times.get(f.pretty, 0) + time.time() - t0
            self.steps += e.steps
            self.cks[key] = (ck, e.trunc)
            self.memo[key] = ck.outs
        return self.memo[key]


def solving(p, names=('init', 'hotstart')):
    """the calls that solve a QP: init and hotstart of the solver classes"""
    for f in p.fns.values():
        if not f.decl and f.bbs and f.cls and (f.cls == 'QProblemB' or 'QProblemB' in p.allbases(f.cls)) and f.sn in names \
                and f.rettype.split('::')[-1] == 'returnValue':
            yield f


def analyse(job):
    unit, names = job if isinstance(job, tuple) else (job, ('init', 'hotstart'))
    ctx = Ctx(); U = Unit(ctx, unit); p = U.p
    E = p.enum('returnValue')
    ok = E['SUCCESSFUL_RETURN']; mx = E['RET_MAX_NWSR_REACHED']
    inf = {E[n]: n for n in ('RET_INIT_FAILED_INFEASIBILITY', 'RET_HOTSTART_STOPPED_INFEASIBILITY')}
    unb = {E[n]: n for n in ('RET_INIT_FAILED_UNBOUNDEDNESS', 'RET_HOTSTART_STOPPED_UNBOUNDEDNESS')}
    undef = E['RET_ERROR_UNDEFINED']
    cname = {v: n for n, v in E.items() if v >= 0}
    S = U.solved; snames = {v: n for n, v in p.enum('QProblemStatus').items()}
    st = {'solving_calls': 0, 'outcomes': 0}; viol = []
    for f in solving(p, names):
        st['solving_calls'] += 1
        for key, rets in U.summary(f.n).items():
            s, i, u = key

            def v(rule, code, msg):
                n = cname.get(code, str(code))
                at = sorted(U.cks[f.n, (), ('same',) * 3][0].at.get((key, code), ()))
                viol.append({'rule': rule, 'fn': f.pretty, 'at': at[0] if at else f.loc(), 'detail': '%s:%s' % (n, msg.split(' (')[0]),
                             'msg': 'returns %s although %s' % (n, msg)})
            if rets == TOP:
                v('unknown', None, 'the returned code cannot be determined')
                continue
            for r in rets:
                st['outcomes'] += 1
                if r == ok:
                    if s != S:
                        v('solved', r, 'the status need not be QPS_SOLVED (%s)' % (snames.get(s, 'as before the call' if s == 'same' else s)))
                    if i != 0:
                        v('solved', r, 'the infeasibility flag need not be cleared')
                    if u != 0:
                        v('solved', r, 'the unboundedness flag need not be cleared')
                    continue
                if s == S and r != undef:
                    v('unsolved', r, 'the status is set to QPS_SOLVED')
                if r in inf or r in unb or r == mx:
                    if s in ('same', TOP):
                        v('unsolved', r, 'the status may still be QPS_SOLVED')
                if r in inf and i != 1:
                    v('infeasible', r, 'the infeasibility flag need not be set')
                if r in unb and u != 1:
                    v('unbounded', r, 'the unboundedness flag need not be set')
    # every routine reached: a code that reports (un)boundedness comes with its flag
    infall = {v: n for n, v in E.items() if 'INFEASIB' in n or n == 'RET_ENSURELI_FAILED_NOINDEX'}
    unball = {v: n for n, v in E.items() if 'UNBOUNDED' in n}
    top = {f.n for f in solving(p, names)}
    for (c, a, b), o in U.memo.items():
        if c in top:
            continue
        for key, rets in o.items():
            if rets == TOP:
                continue
            for r in rets:
                for codes, k, w in ((infall, 1, 'infeasibility'), (unball, 2, 'unboundedness')):
                    if r in codes:
                        st['internal_codes'] = st.get('internal_codes', 0) + 1
                        if key[k] != 1:
                            at = sorted(U.cks[c, a, b][0].at.get((key, r), ()))
                            x = {'rule': 'internal', 'fn': p.fns[c].pretty, 'at': at[0] if at else p.fns[c].loc(), 'detail': '%s:%s' % (codes[r], w),
                                 'msg': 'returns %s although the %s flag need not be set' % (codes[r], w)}
                            if x not in viol:
                                viol.append(x)
    st['routines'] = len({k[0] for k in U.memo}); st['routine_contexts'] = len(U.memo)
    st['exits'] = sum(c.exits for c, _ in U.cks.values()); st['widened'] = sum(1 for c, t in U.cks.values() if t)
    # flags are asked for through their accessors
    for nm, fl, want in (('isInfeasible', F[1], None), ('isUnbounded', F[2], None)):
        for f in p.fns.values():
            if f.sn == nm and not f.decl and f.cls == 'QProblemB':
                st['accessors'] = st.get('accessors', 0) + 1
                if not any(i.o == 'load' and isinstance(i.a[0], str) and f.ex(i.a[0])[0] == 'P' and f.ex(i.a[0])[4] == fl for i in f.insts()):
                    viol.append({'rule': 'accessor', 'fn': f.pretty, 'at': f.loc(), 'detail': nm, 'msg': '%s does not report the flag %s' % (nm, fl)})
    return st, viol


def run(ctx):
    R = Result(['whenever init or hotstart returns success the status is QPS_SOLVED and both flags are cleared',
                'whenever it returns an infeasibility (unboundedness) code the corresponding flag is set and the status is not QPS_SOLVED',
                'whenever it stops at the iteration or time limit the status is not QPS_SOLVED; no failing call sets the status to QPS_SOLVED'])
    units = ['lib'] + (EXTRA if ctx.tier == 'thorough' else [])
    R.cov = {'units': units, 'per_unit': {}}
    R.prog = ctx.prog('lib')
    jobs = [(u, (nm,)) for u in units for nm in ('init', 'hotstart')]
    for (u, nm), (st, viol) in zip(jobs, pmap(analyse, jobs)):
        pu = R.cov['per_unit'].setdefault(u, {})
        for k, v in st.items():
            R.cov[k] = R.cov.get(k, 0) + v
            pu[k] = pu.get(k, 0) + v
        if u == 'lib':
            R.need(st['solving_calls'], '%s functions' % nm, 6)
            R.need(st['outcomes'], 'outcomes of solving calls', 50)
            R.need(st.get('internal_codes', 0), 'infeasibility or unboundedness codes of internal routines', 5)
        R.obligations += st['outcomes']
        for v in viol:
            R.v(v['rule'], v['fn'], None, v['detail'], v['msg'], at=v['at'])
    return R
