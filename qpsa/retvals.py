"""Which values can each function return?  Path-sensitive, bottom-up over the
call graph; per callee and constant-argument context for the message handler."""
from .engine import Engine, State, d_refine
from .effects import Effects, sccs
from .build import AnalysisError

TOP = None


class RetCk:
    def __init__(self, rv, fn):
        self.rv = rv; self.fn = fn; self.out = set(); self.top = False

    def call(self, eng, st, n, cs):
        return self.rv.apply(eng, st, n, cs)

    def ret(self, eng, st, n, v):
        if v is None:
            return
        for x in self.expand(eng, st, v):
            if x is None:
                self.top = True
            else:
                self.out.add(x)

    def expand(self, eng, st, v):
        if v[0] == 'K':
            return [v[1]]
        if v[0] == 'S':
            return self.expand(eng, st, v[2]) + self.expand(eng, st, v[3])
        d = eng.domain(st, v)
        if isinstance(d, frozenset):
            return list(d)
        if v[0] == 'A':
            return [('A', v[1]) if d is None else ('A', v[1])]
        return [None]


class RetVals:
    """vals(fn name) -> frozenset of ints and ('A',k), or TOP"""

    def __init__(self, prog, eff=None):
        self.p = prog; self.eff = eff or Effects(prog)
        self.sum = {}; self._na = {}; self._nn = {}; self.done = False
        self.stats = {'functions': 0, 'steps': 0, 'truncated': []}
        self.RV = prog.enum('returnValue')
        self.BT = prog.enums.get('BooleanType')
        for comp in sccs(prog):
            rec = len(comp) > 1 or any(c == comp[0] for i in prog.fns[comp[0]].calls() for c in prog.callees(i))
            for n in comp:
                self.sum[n] = TOP
            if rec:
                # optimistic fixpoint from bottom for enum-valued recursion
                for n in comp:
                    if self.finite(prog.fns[n]):
                        self.sum[n] = frozenset()
                for _ in range(6):
                    ch = False
                    for n in comp:
                        if self.finite(prog.fns[n]):
                            r = self.compute(prog.fns[n])
                            if r is TOP or self.sum[n] is TOP:
                                r = TOP
                            else:
                                r = r | self.sum[n]
                            if r != self.sum[n]:
                                self.sum[n] = r; ch = True
                    if not ch:
                        break
                else:
                    for n in comp:
                        self.sum[n] = TOP
            else:
                f = prog.fns[comp[0]]
                if self.finite(f):
                    self.sum[f.n] = self.compute(f)
        self.done = True

    def finite(self, f):
        return f.rettype in self.p.enums and f.rt in ('i32',) and f.bbs

    def nullargs(self, f):
        """pointer parameters the function compares with null"""
        if f.n not in self._na:
            s = set()
            for b in f.bbs:
                t = b[-1] if b else None
                if t is not None and t.o == 'br' and t.a and len(t.s) == 2:
                    c = f.ex(t.a[0])
                    if c[0] == 'C' and c[1] in ('eq', 'ne') and c[2][0] == 'A' and c[3] == ('K', 0) and f.atypes[c[2][1]] == 'ptr':
                        s.add(c[2][1])
            self._na[f.n] = s
        return self._na[f.n]

    def summary(self, eng, st, n, c):
        """value set of callee c at this call; sharper when the arguments it tests for null are known not to be"""
        s = self.sum.get(c, TOP)
        f = self.p.fns.get(c)
        if f is None or f.decl or (s is not TOP and len(s) <= 1) or not self.done:
            return s
        na = self.nullargs(f)
        nn = frozenset(k for k in na if k < len(n.a) and self.nonnull(eng, st, n.a[k]))
        if not nn:
            return s
        key = (c, nn)
        if key not in self._nn:
            self._nn[key] = s
            if self.finite(f):
                self._nn[key] = self.compute(f, nn)
        return self._nn[key]

    @staticmethod
    def nonnull(eng, st, op):
        if isinstance(op, int):
            return op != 0
        v = eng.addr(st, op)
        if v[0] in ('M', 'P', 'G'):
            return v[0] != 'P' or bool(v[4]) or v[1][0] in ('M', 'A', 'G', 'P', 'V') and bool(v[2] or v[4] or v[3])
        d = eng.domain(st, v)
        if isinstance(d, frozenset):
            return 0 not in d
        if isinstance(d, tuple) and d and d[0] == 'I':
            return d[1] > 0 or d[2] < 0 or 0 in d[3]
        return False

    def compute(self, f, nn=()):
        ck = RetCk(self, f)

        def init(eng, st):
            for k in nn:
                st.facts[('A', k)] = ('I', 1, 1 << 62, frozenset())
        e = Engine(self.p, f, ck, self.eff, maxst=40, init=init if nn else None)
        e.run()
        self.stats['functions'] += 1; self.stats['steps'] += e.steps
        if e.trunc:
            self.stats['truncated'].append(f.pretty)
        if ck.top:
            return TOP
        return frozenset(ck.out)

    def possible(self, eng, st, n, cs):
        """(set of exprs/ints, TOP?) possible results of call n in state st"""
        vals = set(); top = False
        for c in cs:
            s = self.summary(eng, st, n, c)
            if s is TOP:
                top = True
                continue
            for x in s:
                if isinstance(x, tuple) and x[0] == 'A':
                    vals.add(eng.val(st, n.a[x[1]]) if x[1] < len(n.a) else None)
                else:
                    vals.add(('K', x))
        if not cs:
            top = True
        if None in vals:
            top = True; vals.discard(None)
        return vals, top

    def apply(self, eng, st, n, cs):
        """standard transfer: havoc effects, then constrain the result"""
        vals, top = self.possible(eng, st, n, cs)
        eng.havoc(st, n, cs)
        if n.i is None:
            return None if True else None
        if not vals and not top:
            return []            # callee not yet known to return (recursion fixpoint)
        if top:
            st.env[n.i] = ('V', n.i)
            return [st]
        if len(vals) == 1:
            st.env[n.i] = next(iter(vals))
            return [st]
        ints = set()
        for v in vals:
            if v[0] == 'K':
                ints.add(v[1])
            else:
                d = eng.domain(st, v)
                if isinstance(d, frozenset):
                    ints |= d
                else:
                    ints = None
                    break
        st.env[n.i] = ('V', n.i)
        if ints is not None:
            st.facts[('V', n.i)] = frozenset(ints)
        return [st]
