"""C06  solver calls leave the user's options as they were set."""
from ..common import Result, Ctx, pmap
from ..engine import Engine
from ..ir import subst
from ..build import EXTRA, AnalysisError

OPT = 'QProblemB::options'
HT = 'QProblemB::hessianType'
# routines whose purpose is to change the options of the object
SETTERS = {'setOptions', 'setPrintLevel', 'copy', 'operator='}


def optfield(a):
    """(owner address, Options field) of an address inside the options member of a solver object"""
    if a[0] == 'P' and a[4] and a[4].startswith('Options::') and not a[3]:
        b = a[1]
        while b[0] == 'P' and (b[4] is None or b[4].startswith('up:')):
            b = b[1]
        if b[0] == 'P' and b[4] == OPT:
            return b, a[4]
    return None


def isopts(a):
    while a[0] == 'P' and (a[4] is None or a[4].startswith('up:')):
        a = a[1]
    return a if a[0] == 'P' and a[4] == OPT else None


class Ck:
    """res: ('chg', addr) -> site of the last store whose value is not the one at entry;  ('all', owner) options replaced as a
    whole;  ('saved', local) -> owner whose unchanged options it holds"""
    nonan = True

    def __init__(self, U, f):
        self.U = U; self.f = f; self.p = U.p; self.viol = {}; self.stores = 0; self.exits = 0; self.allowed = set(); self.out = {}

    def memkeep(self, eng, st, a, v):
        return optfield(a) is not None or a[0] == 'P' and a[4] == HT

    def keepfact(self, eng, st, k):
        return k[0] == 'L' and k[1][0] == 'P' and (k[1][4] == HT or optfield(k[1]) is not None)

    def store(self, eng, st, n, addr, v):
        of = optfield(addr)
        st.res.pop(('val', addr), None)
        if of is None:
            return
        self.stores += 1
        owner, fld = of
        if v == ('L', addr):
            st.res.pop(('chg', addr), None)
            return
        if self.U.exception(self, eng, st, n, addr, fld, v):
            self.allowed.add((n.bb, n.k))
            if ('chg', addr) not in st.res:
                st.res[('exc', addr)] = (n.bb, n.k)
            return
        st.res[('chg', addr)] = (n.bb, n.k)

    def call(self, eng, st, n, cs):
        U = self.U
        if n.a and isinstance(n.a[0], str) and cs:
            o = isopts(eng.addr(st, n.a[0]))
            g = self.p.fns.get(cs[0])
            if g is not None and g.cls == 'Options':
                src = eng.addr(st, n.a[1]) if len(n.a) > 1 and isinstance(n.a[1], str) else None
                if o is not None:
                    if g.sn == 'operator=' and st.res.get(('saved', src)) == o:
                        for k in [k for k in st.res if k[0] in ('chg', 'all', 'exc') and (k[1] == o or k[1][1] == o)]:
                            del st.res[k]
                    elif any(k.startswith('Options::') for k in U.eff.writes(cs[0])):
                        st.res[('all', o)] = (n.bb, n.k)
                elif src is not None and g.sn in ('operator=', 'Options'):
                    so = isopts(src); d = eng.addr(st, n.a[0])
                    if so is not None and not any(k[0] in ('chg', 'all') for k in st.res):
                        st.res[('saved', d)] = so
                    elif st.res.get(('saved', d)):
                        del st.res[('saved', d)]
                elif any(k.startswith('Options::') for k in U.eff.writes(cs[0])):
                    st.res.pop(('saved', eng.addr(st, n.a[0])), None)
            elif g is not None and g.sn in SETTERS and g.cls and g.sn not in ('copy', 'operator=') and any(
                    k.startswith('Options::') for k in U.eff.writes(cs[0])) and self.f.cls and self.on_solver(eng, st, n):
                src = eng.addr(st, n.a[1]) if len(n.a) > 1 and isinstance(n.a[1], str) else None
                if src is not None and st.res.get(('saved', src)):
                    for k in [k for k in st.res if k[0] in ('chg', 'all')]:
                        del st.res[k]
                else:
                    st.res[('all', ('A', 0))] = (n.bb, n.k)
        sm = [U.summ[c] for c in cs if c in U.summ]
        if not sm:
            return U.rv.apply(eng, st, n, cs)
        m = {i: (eng.val(st, x)) for i, x in enumerate(n.a)}
        r = None
        todo = []
        for s in sm:
            for a, v in s.items():
                a = subst(a, m); v = subst(v, m)
                if v == ('all',):
                    todo.append((('all', a), None))
                elif optfield(a):
                    if U.exception(self, eng, st, n, a, optfield(a)[1], v):
                        self.allowed.add((n.bb, n.k))
                    else:
                        todo.append((('chg', a), v))
        r = U.rv.apply(eng, st, n, cs)
        for t in (r if r is not None else [st]):
            for k, v in todo:
                t.res[k] = (n.bb, n.k)
                if v is not None and v[0] in 'KA':
                    t.res[('val', k[1])] = v
                if t.mem.get(k[1]) == ('L', k[1]):
                    del t.mem[k[1]]
        return r

    def on_solver(self, eng, st, n):
        a = eng.addr(st, n.a[0])
        while a[0] == 'P' and (a[4] is None or a[4].startswith('up:')):
            a = a[1]
        return a == ('A', 0)

    def ret(self, eng, st, n, v):
        self.exits += 1
        for k, (b, kk) in [(k, x) for k, x in st.res.items() if k[0] in ('chg', 'all')]:
            if k[0] == 'chg':
                if st.mem.get(k[1]) == ('L', k[1]):
                    continue
                v = st.res.get(('val', k[1])) or st.mem.get(k[1])
                self.out[k[1]] = v if v is not None and v[0] in 'KA' and self.out.get(k[1], v) == v else ('?',)
                self.viol.setdefault((b, kk), 'option %s is still changed when the function returns (%s)' % (optfield(k[1])[1][9:], self.f.loc(n)))
            else:
                self.out[k[1]] = ('all',)
                self.viol.setdefault((b, kk), 'the options are replaced and not restored before the function returns (%s)' % self.f.loc(n))


class Unit:
    def __init__(self, ctx, unit):
        self.p = ctx.prog(unit); self.eff = ctx.eff(unit); self.rv = ctx.rv(unit)

    def exception(self, ck, eng, st, n, addr, fld, v):
        """documented adjustments:
        a zero Hessian needs regularisation, which is then switched on with one step;
        a tunnelled negative diagonal raises epsRegularisation before the Cholesky routine reports an indefinite Hessian"""
        if fld in ('Options::enableRegularisation', 'Options::numRegularisationSteps'):
            if v != ('K', 1):
                return False
            for a, x in list(st.mem.items()) + [(k[1], None) for k in st.facts if k[0] == 'L']:
                if a[0] == 'P' and a[4] == HT:
                    e = st.mem.get(a) or next((k for k in st.facts if k[0] == 'L' and k[1] == a), None)
                    d = eng.domain(st, e) if e else None
                    if isinstance(d, frozenset) and d == {self.hz}:
                        return True
            return False
        if fld == 'Options::epsRegularisation':
            return n.bb in self.notspd(ck.f)
        return False

    def notspd(self, f):
        """blocks from which every return hands out RET_HESSIAN_NOT_SPD (value set of the return)"""
        if not hasattr(self, '_ns'):
            self._ns = {}
        if f.n not in self._ns:
            code = self.code
            good = set(); 
            rets = {}
            for bi, bb in enumerate(f.bbs):
                for i in bb:
                    if i.o == 'ret' and i.a:
                        rets[bi] = i
            # constants returned along an edge into the return block
            def reach(b):
                seen = {b}; todo = [b]; vals = set()
                while todo:
                    x = todo.pop()
                    for s in succ(f, x):
                        if s in rets:
                            vals |= retval(f, rets[s], x, code)
                        elif s not in seen:
                            seen.add(s); todo.append(s)
                    if x in rets:
                        vals |= retval(f, rets[x], None, code)
                return vals
            for bi in range(len(f.bbs)):
                v = reach(bi)
                if v and v == {code}:
                    good.add(bi)
            self._ns[f.n] = good
        return self._ns[f.n]


def succ(f, b):
    t = f.bbs[b][-1]
    return list(t.s or []) + [x for _, x in (t.cs or [])] if t.o == 'switch' else list(t.s or [])


def retval(f, r, pred, code):
    a = r.a[0]
    if isinstance(a, int):
        return {a}
    i = f.inst.get(int(a[1:])) if isinstance(a, str) and a.startswith('%') else None
    if i is not None and i.o == 'phi':
        out = set()
        for v, p in i.ph:
            if pred is None or p == pred:
                out.add(v if isinstance(v, int) else '?')
        return out or {'?'}
    return {'?'}


def analyse(unit):
    ctx = Ctx(); U = Unit(ctx, unit); p = U.p
    U.code = p.enum('returnValue')['RET_HESSIAN_NOT_SPD']
    U.hz = p.enum('HessianType')['HST_ZERO']
    U.summ = {}
    st = {'functions': 0, 'changing_functions': 0, 'helpers_judged_at_their_callers': 0, 'option_stores': 0, 'exits': 0, 'documented_adjustments': 0}; viol = {}
    todo = []; fns = {}
    for f in p.fns.values():
        if f.decl or f.file.startswith('/usr') or not f.bbs:
            continue
        if f.sn in SETTERS or (f.cls and f.sn == f.cls.split('::')[-1]) or f.cls == 'Options':
            continue
        st['functions'] += 1
        fns[f.n] = f
        for i in f.insts():
            if i.o == 'store' and isinstance(i.a[1], str) and optfield(f.ex(i.a[1])):
                break
            if i.o == 'call' and p.callees(i):
                g = p.fns.get(p.callees(i)[0])
                if g is not None and (g.cls == 'Options' or g.sn in SETTERS) and any(k.startswith('Options::') for k in U.eff.writes(g.n)):
                    break
        else:
            continue
        todo.append(f)
    done = {}
    while todo:
        f = todo.pop(0)
        ck = Ck(U, f)
        Engine(p, f, ck, U.eff, maxst=300).run()
        done[f.n] = ck
        cl = {i.fn.n: i.fn for i in p.callers.get(f.n, []) if i.fn.n in fns}
        # a helper that is no part of the interface is judged where it is called
        if ck.out and f.acc != 3 and (f.cls or f.internal) and cl and f.n not in cl and all(rooted(a) for a in ck.out):
            if U.summ.get(f.n) != ck.out:
                U.summ[f.n] = ck.out
                todo += [g for g in cl.values() if g not in todo]
    for n, ck in done.items():
        f = fns[n]
        st['changing_functions'] += 1
        st['option_stores'] += sum(1 for i in f.insts() if i.o == 'store' and isinstance(i.a[1], str) and optfield(f.ex(i.a[1])))
        st['exits'] += ck.exits; st['documented_adjustments'] += len(ck.allowed)
        if n in U.summ:
            st['helpers_judged_at_their_callers'] += 1
            continue
        for (b, k), msg in ck.viol.items():
            viol[(n, b, k)] = {'rule': 'restore', 'fn': f.pretty, 'at': f.loc(f.bbs[b][k]), 'detail': msg.split(' (')[0], 'msg': msg}
    return st, list(viol.values())


def rooted(a):
    while a[0] == 'P':
        a = a[1]
    return a[0] == 'A'


def run(ctx):
    R = Result(['every option of a solver object that a function other than a setter changes has its value at entry again at every exit',
                'except: regularisation switched on (one step) while the Hessian type is zero; epsRegularisation raised when the routine reports an indefinite Hessian'])
    units = ['lib', 'lib-ma57'] + ([u for u in EXTRA if u != 'lib-ma57'] if ctx.tier == 'thorough' else [])
    R.cov = {'units': units, 'per_unit': {}}
    R.prog = ctx.prog('lib')
    for u, (st, viol) in zip(units, pmap(analyse, units)):
        R.cov['per_unit'][u] = st
        for k, v in st.items():
            R.cov[k] = R.cov.get(k, 0) + v
        if u == 'lib':
            R.need(st['functions'], 'functions of the library', 300)
        R.obligations += st['functions'] + st['exits']
        for v in viol:
            R.v(v['rule'], v['fn'], None, v['detail'], v['msg'], at=v['at'])
    return R
