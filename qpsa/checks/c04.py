"""C04  a step that fails is never dropped: its caller does not go on to report success."""
from ..common import Result, Ctx, pmap
from ..engine import Engine, INF, mentions
from ..build import EXTRA, AnalysisError

# answers, not failures
ANSWERS = ['RET_LINEARLY_INDEPENDENT', 'RET_LINEARLY_DEPENDENT', 'RET_ENSURELI_DROPPED', 'RET_OPTIONS_ADJUSTED',
           'RET_SIMPLE_STATUS_P1', 'RET_INDEXLIST_ADD_OK']
# a call statement whose result is not looked at is accepted for these routines only: they store or hand out data and can
# fail solely by refusing an argument or an empty problem, which their callers have established (C07 covers the refusal)
PLAIN = ['myPrintf', 'SubjectTo::setType', 'SubjectTo::setStatus', 'Indexlist::init', 'Bounds::init', 'Constraints::init',
         'QProblemB::setG', 'QProblemB::setLB', 'QProblemB::setUB', 'QProblem::setLBA', 'QProblem::setUBA', 'QProblem::setA',
         'QProblemB::setH', 'QProblemB::reset', 'QProblem::reset', 'SQProblemSchur::reset', 'SQProblem::reset',
         'Options::ensureConsistency', 'MessageHandling::setErrorCount', 'getRowNorm', 'getWorkingSetBounds',
         'getPrimalSolution', 'getDualSolution', 'getBounds', 'getConstraints', 'setupTQ', 'reset', 'setPrintLevel']
# questions: the code answers whether rows are independent; what to do about it is the caller's decision
QUERY = ['addBound_checkLI', 'addConstraint_checkLI', 'addBound_checkLISchur', 'addConstraint_checkLISchur']
# declared fallbacks: (function, failing routine) -> why success is right
FALLBACK = {
    ('SQProblemSchur::setupAuxiliaryQP', 'resetSchurComplement'): 'a singular start falls back to building the working set afresh',
    ('SQProblemSchur::setupAuxiliaryQP', 'correctInertia'): 'wrong inertia falls back to building the working set afresh',
    ('SQProblemSchur::resetSchurComplement', 'factorize'): 'a singular matrix is repaired and factorised again by the recursive call',
    ('QProblem::solveQP', 'printIteration'): 'progress output does not decide the result',
    ('QProblemB::solveQP', 'printIteration'): 'progress output does not decide the result',
    ('SQProblem::setupNewAuxiliaryQP', 'computeProjectedCholesky'): None,
}
FALLBACK = {k: v for k, v in FALLBACK.items() if v}
# (function, failing routine, codes that the caller may take as done)
CODES = {
    ('solveOqpBenchmark', 'init'): ['RET_MAX_NWSR_REACHED'],
    ('solveOqpBenchmark', 'hotstart'): ['RET_MAX_NWSR_REACHED'],
    ('writeQpDataIntoMatFile', 'writeIntoMatFile'): ['RET_INVALID_ARGUMENTS'],
    ('writeQpWorkspaceIntoMatFile', 'writeIntoMatFile'): ['RET_INVALID_ARGUMENTS'],
}
# progress output is declared not to decide the result of a solve
NOTRESULT = ['RET_PRINT_ITERATION_FAILED']
# numerical kernels that report through an integer argument: symbol -> (argument, sign of a failure)
KERNEL = {'dpotrf_': (4, 1), 'spotrf_': (4, 1), 'dtrtrs_': (9, 1), 'strtrs_': (9, 1),
          'ma57ad_': (8, -1), 'ma57bd_': (12, -1), 'ma57cd_': (13, -1), 'ma27ad_': (12, -1), 'ma27bd_': (14, -1)}
THROWS = ('throwError', 'throwWarning', 'throwInfo', 'throwMessage')


def short(p):
    p = p.split('(')[0].replace('REFER_NAMESPACE_QPOASES ', '').replace('qpOASES::', '')
    return p


class Ck:
    def __init__(self, A, f):
        self.A = A; self.f = f; self.v = {}; self.calls = set(); self.exits = set(); self.ignored = {}
        self.gd = {}; self.kernels = set()
        self.used = set()
        for i in f.insts():
            for a in (i.a or []):
                if isinstance(a, str) and a.startswith('%'):
                    self.used.add(int(a[1:]))
            if i.o == 'phi':
                for v, _ in i.ph:
                    if isinstance(v, str) and v.startswith('%'):
                        self.used.add(int(v[1:]))

    def guarded(self, b2, i1):
        """block b2 is entered only under a test of the result i1 (a repetition after its failure)"""
        f = self.f; t = ('V', i1)

        def ment(e, seen):
            for m in mentions(e):
                if m == t:
                    return True
                if m[0] == 'V' and m[1] not in seen:
                    seen.add(m[1])
                    d = f.inst.get(m[1])
                    if d is not None and d.o == 'phi' and any(ment(f.ex(v), seen) for v, _ in d.ph if isinstance(v, str)):
                        return True
            return False
        b = b2
        while b is not None and f.idom.get(b) not in (None, b):
            d = f.idom[b]
            x = f.bbs[d][-1]
            if x.o in ('br', 'switch') and x.a and len(set(f.pred[b])) == 1 and ment(f.ex(x.a[0]), set()):
                return True
            b = d
        return False

    def discharge(self, k, n, last):
        if k[0] != 'f' or not set(k[3]) & last:
            return False
        if (k[1], k[2]) == (n.bb, n.k):
            return True
        key = (k[1], k[2], n.bb)
        if key not in self.gd:
            self.gd[key] = self.guarded(n.bb, self.f.bbs[k[1]][k[2]].i)
        return self.gd[key]

    def kernel(self, eng, st, n, cs):
        """a numerical kernel: with and without a reported failure"""
        for c in cs:
            k = KERNEL.get(c)
            if k is None or k[0] >= len(n.a):
                continue
            self.calls.add((n.bb, n.k)); self.kernels.add((n.bb, n.k))
            eng.havoc(st, n, cs)
            a = eng.addr(st, n.a[k[0]])
            v = ('V', -1000 - n.k, ('kernel', n.bb))
            st.mem[a] = v
            g = st.copy()
            st.facts[v] = frozenset([0])
            g.facts[v] = ('I', 1, INF, frozenset()) if k[1] > 0 else ('I', -INF, -1, frozenset())
            for q in (st, g):
                for x in [x for x in q.res if x[0] == 'k' and x[3] == c and (x[1], x[2]) == (n.bb, n.k)]:
                    del q.res[x]
            if not g.res:
                g.res[('k', n.bb, n.k, c)] = (n.l, v, g.facts[v])
            return [st, g]
        return None

    def reskey(self, eng, st):
        return frozenset((k, x, st.facts.get(x[1]) if x[1] else None) for k, x in st.res.items())

    def keepfact(self, eng, st, k):
        return any(x[1] == k for x in st.res.values())

    def call(self, eng, st, n, cs):
        A = self.A; p = A.p
        fin = [c for c in cs if c in p.fns and p.fns[c].rettype == 'returnValue']
        r = self.kernel(eng, st, n, cs)
        if r is not None:
            return r
        if fin and n.i is None:
            return None
        out = A.rv.apply(eng, st, n, cs)
        if not fin or out is None:
            return out
        names = {short(p.fns[c].pretty) for c in fin}
        last = {x.split('::')[-1] for x in names}
        if last & set(THROWS):
            if 'throwError' not in last:
                return out
            r = []
            for q in out:
                r.append(q)
                if q.res or len(n.a) < 2:
                    continue
                d = eng.domain(q, eng.val(q, n.a[1]))
                if isinstance(d, frozenset) and len(d) == 1 and not d & A.okthrow:
                    self.calls.add((n.bb, n.k))
                    q.res[('t', n.bb, n.k)] = (n.l, None, d)
            return r
        self.calls.add((n.bb, n.k))
        exempt = None
        if n.i not in self.used and (names & A.plain or last & A.plain):
            exempt = 'plain'
        elif last & A.query:
            exempt = 'query'
        elif (self.me(), next(iter(last))) in FALLBACK:
            exempt = 'fallback'
        if exempt:
            self.ignored[(n.bb, n.k)] = exempt
        r = []
        for q in out:
            v = q.env.get(n.i)
            d = eng.domain(q, v) if v is not None else None
            if not isinstance(d, frozenset):
                d = A.all
            fail = d - A.ok
            # success of the same step discharges an earlier failed attempt
            if d & A.ok or not fail:
                g = q.copy()
                ks = [k for k, x in g.res.items() if self.discharge(k, n, last)]
                for k in ks:
                    del g.res[k]
                if v is not None and v[0] != 'K' and d & A.ok:
                    g.facts[v] = d & A.ok
                r.append(g)
            if not fail:
                continue
            g = q.copy()
            if v[0] != 'K':
                g.facts[v] = fail
            ks = [k for k in g.res if self.discharge(k, n, last)]
            for k in ks:
                del g.res[k]
            if not g.res and not exempt:
                g.res[('f', n.bb, n.k, tuple(sorted(last)))] = (n.l, v, fail)
            r.append(g)
        return r

    def me(self):
        return short(self.f.pretty)

    def ret(self, eng, st, n, v):
        self.exits.add((st.trace or n).l)
        if v is None or not st.res:
            return
        d = eng.domain(st, v)
        if isinstance(d, frozenset) and 0 not in d:
            return
        for k, (l, pv, fail) in st.res.items():
            cur = st.facts.get(pv, fail) if pv else fail
            if isinstance(cur, frozenset):
                cur = cur & fail
            if k[0] == 'f':
                # the result handed back is the failing result itself
                if v == pv:
                    continue
                allow = set()
                for c in k[3]:
                    allow |= {self.A.RV[x] for x in CODES.get((self.me().split('::')[-1], c), [])}
                if not cur - allow:
                    continue
            self.v.setdefault(k, {}).setdefault((st.trace or n).l, cur)


class Analysis:
    def __init__(self, ctx, unit):
        self.p = ctx.prog(unit); self.eff = ctx.eff(unit); self.rv = ctx.rv(unit)
        self.RV = self.p.enum('returnValue')
        self.NAME = {v: k for k, v in self.RV.items()}
        undefined = self.RV['RET_ERROR_UNDEFINED']
        self.ok = {0, undefined} | {self.RV[x] for x in ANSWERS if x in self.RV}
        self.okthrow = self.ok | {self.RV[x] for x in NOTRESULT}
        self.all = frozenset(self.RV.values())
        self.plain = set(PLAIN); self.query = set(QUERY)


def analyse(unit):
    ctx = Ctx(); A = Analysis(ctx, unit); p = A.p
    viol = []; st = {'functions': 0, 'kernels': 0, 'steps': 0, 'exits': 0, 'exempt_plain': 0, 'exempt_query': 0, 'exempt_fallback': 0}
    for f in p.fns.values():
        if f.decl or f.rettype != 'returnValue' or f.file.startswith('/usr') or not f.bbs:
            continue
        if f.pretty.split('(')[0].split('::')[-1] in THROWS:
            continue
        ck = Ck(A, f)
        Engine(p, f, ck, A.eff, maxst=80).run()
        st['functions'] += 1; st['steps'] += len(ck.calls); st['exits'] += len(ck.exits); st['kernels'] += len(ck.kernels)
        for x in ck.ignored.values():
            st['exempt_' + x] += 1
        for k, ex in ck.v.items():
            i = f.bbs[k[1]][k[2]]
            ls = sorted(x for x in ex if x)
            codes = sorted(set().union(*[c for c in ex.values() if isinstance(c, frozenset)]))
            cn = ', '.join(A.NAME.get(c, str(c)) for c in codes[:3])
            if k[0] == 't':
                det = 'reported:' + cn
                msg = 'error %s is reported here, but the function can still return success (exit at line %s)' % (cn, ls[0] if ls else '?')
                rule = 'reported-then-success'
            elif k[0] == 'k':
                det = 'kernel:' + k[3]
                msg = 'failure reported by %s can be followed by returning success (exit at line %s)' % (k[3], ls[0] if ls else '?')
                rule = 'dropped'
            else:
                det = 'dropped:' + '/'.join(k[3])
                msg = 'failure of %s (%s) can be followed by returning success (exit at line %s)' % ('/'.join(k[3]), cn, ls[0] if ls else '?')
                rule = 'dropped'
            viol.append({'rule': rule, 'fn': f.pretty, 'at': f.loc(i), 'detail': det, 'msg': msg})
    return st, viol


def run(ctx):
    R = Result(['after a step returned a failure code, no path returns success unless the same step is repeated successfully or a declared fallback takes over',
                'after an error was raised through the message handler, no path of the same routine returns success'])
    units = ['lib', 'cwrap', 'lib-ma57'] + ([u for u in EXTRA if u != 'lib-ma57'] if ctx.tier == 'thorough' else [])
    R.cov = {'units': units, 'per_unit': {}}
    R.prog = ctx.prog('lib')
    for u, (st, viol) in zip(units, pmap(analyse, units)):
        R.cov['per_unit'][u] = st
        for k, v in st.items():
            R.cov[k] = R.cov.get(k, 0) + v
        if u == 'lib':
            R.need(st['functions'], 'functions returning a code', 250)
            R.need(st['steps'], 'calls of steps', 800)
        R.obligations += st['steps']
        for v in viol:
            R.v(v['rule'], v['fn'], None, v['detail'], v['msg'], at=v['at'])
    R.cov['explanation'] = ('Every function that returns a return code, every call of a routine that can return a failure code (values from '
                            'path-sensitive return summaries) and every exit reachable after that failure.')
    return R
