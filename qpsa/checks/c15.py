"""C15  what is printed does not influence what is computed (information flow from the output settings)."""
from ..common import Result, Ctx
from ..build import EXTRA, AnalysisError
from ..engine import Engine
from ..retvals import RetCk
from ..effects import root, fkey, EXT_OUT, EXT_NONE

SETTINGS = ('Options::printLevel', 'MessageHandling::errorVisibility', 'MessageHandling::warningVisibility', 'MessageHandling::infoVisibility')
OUTCLS = ('MessageHandling::', 'TabularOutput::')           # state of the output itself
NEW = ('_Znam', '_Znwm', 'malloc', 'calloc')
STOP = ('exit', 'abort', '_exit', '__cxa_throw')


def isout(k):
    return k is not None and (k == 'Options::printLevel' or k == 'QProblemB::tabularOutput' or k.startswith(OUTCLS))


def pdom(f):
    """immediate postdominators; -1 is the virtual exit"""
    ex = -1
    succ = {b: (list(f.succ[b]) or [ex]) for b in f.rpo}
    pred = {b: [] for b in list(succ) + [ex]}
    for b, ss in succ.items():
        for s in ss:
            pred[s].append(b)
    seen = {ex}; order = []; st = [(ex, iter(pred[ex]))]
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s, iter(pred[s]))); break
        else:
            order.append(b); st.pop()
    order = order[::-1]; num = {b: k for k, b in enumerate(order)}
    ip = {ex: ex}; ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [s for s in succ[b] if s in ip]
            n = ps[0]
            for q in ps[1:]:
                x, y = n, q
                while x != y:
                    while num[x] > num[y]: x = ip[x]
                    while num[y] > num[x]: y = ip[y]
                n = x
            if ip.get(b) != n:
                ip[b] = n; ch = True
    return ip


class An:
    def __init__(self, p, rv):
        self.p = p; self.rv = rv; self._cr = {}; self._once = {}
        self.fns = [f for f in p.fns.values() if not f.decl and f.bbs]
        self.pd = {}
        self.retarg = {}
        self.effects()
        self.returnsarg()
        # state of the output that depends on the settings is a source as well
        self.src = set(SETTINGS)
        while True:
            self.rettaint = set(); self.info = {}
            self.taint()
            new = set(self.src)
            for t in self.info.values():
                new |= t.outfields
            if new == self.src:
                break
            self.src = new

    # --- what a function changes outside its own variables
    def local(self, f, r):
        if r[0] == 'M':
            return True
        if r[0] == 'V':
            i = f.inst.get(r[1])
            if i is None:
                return False
            if i.o == 'call' and isinstance(i.c, str) and i.c[1:] in NEW:
                return True
            if i.o == 'phi':
                return all(x == 'null' or x == 'undef' or (self.local(f, root(f.ex(x))) if root(f.ex(x)) != r else True) for x, _ in i.ph)
        return False

    def dest(self, f, d):
        """effect of writing at address d, None when local"""
        r = root(d)
        k = fkey(d)
        if k is not None and k.startswith('up:'):
            k = None
        if self.local(f, r):
            return None
        if r[0] == 'A':
            return ('field', k or '*', r[1])
        if r[0] == 'G':
            return ('global', k or r[1], None)
        if r[0] == 'L':
            inner = r[1]; ri = root(inner)
            while ri[0] == 'L':
                inner = ri[1]; ri = root(inner)
            # pointer held by a local object or variable: treated as its own storage only when the object is local
            if ri[0] == 'M' and fkey(r[1]):
                return None
            return ('array', k or fkey(r[1]) or '*', ri[1] if ri[0] == 'A' else None)
        return ('memory', k or '*', None)

    def once(self, f):
        if f.n not in self._once:
            self._once[f.n] = any('__cxa_guard_acquire' in self.names(i) for i in f.calls())
        return self._once[f.n]

    def actual(self, f, a):
        """None: local; else argument index or 'x'"""
        e = f.ex(a); r = root(e)
        if self.local(f, r):
            return None
        if r[0] == 'G' and self.once(f):
            return None         # a static object set up before its first use
        while r[0] == 'L':
            r = root(r[1])
        return r[1] if r[0] == 'A' else 'x'

    def external(self, f, i, c):
        """argument positions an external routine writes through"""
        if c.startswith('llvm.'):
            return (0,) if c.startswith('llvm.mem') else ()
        if c in EXT_NONE or c in ('qsort', '__cxa_guard_abort') or c in STOP:
            return ()
        if c in EXT_OUT:
            return EXT_OUT[c]
        g = self.p.fns.get(c)
        return range(len(i.a))

    def effects(self):
        self.eff = {f.n: set() for f in self.fns}
        calls = {}
        for f in self.fns:
            for i in f.insts():
                if i.o == 'store':
                    e = self.dest(f, f.ex(i.a[1]))
                    if e:
                        self.eff[f.n].add(e)
                elif i.o in ('call', 'invoke'):
                    self.eff[f.n] |= self.callext(f, i)
            calls[f.n] = [i for i in f.calls()]
        ch = True
        while ch:
            ch = False
            for f in self.fns:
                s = self.eff[f.n]; n = len(s)
                for i in calls[f.n]:
                    s |= self.callint(f, i)
                if len(s) != n:
                    ch = True

    def callext(self, f, i):
        out = set()
        for c in self.names(i):
            g = self.p.fns.get(c)
            if g is None or g.decl:
                if c in STOP:
                    out.add(('stops', c, None))
                for k in self.external(f, i, c):
                    if k < len(i.a) and isinstance(i.a[k], (str, list)):
                        a = i.a[k]
                        if isinstance(a, str) and (a.startswith('f:') or a == 'null'):
                            continue
                        t = None
                        if isinstance(a, str) and a.startswith('%'):
                            t = f.inst.get(int(a[1:]))
                            if t is not None and t.t not in (None, 'ptr'):
                                continue
                            if t is None and int(a[1:]) < f.nargs and f.atypes[int(a[1:])] not in ('ptr', 'sret'):
                                continue
                        e = f.ex(a)
                        if e[0] == 'G':
                            continue
                        d = self.dest(f, e)
                        if d:
                            out.add(d)
        return out

    def callint(self, f, i):
        out = set()
        for c in self.names(i):
            for kind, name, k in self.eff.get(c, ()):
                if k is None:
                    out.add((kind, name, None))
                elif k < len(i.a):
                    a = self.actual(f, i.a[k])
                    if a is None:
                        continue
                    out.add((kind, name, None if a == 'x' else a))
        return out

    def names(self, i):
        cs = self.p.callees(i)
        if cs:
            return cs
        return [i.c[1:]] if isinstance(i.c, str) and i.c.startswith('@') else []

    # --- functions that give back one of their arguments
    def canon(self, f, op, seen=()):
        e = f.ex(op)
        if e[0] == 'V' and e[1] not in seen:
            i = f.inst.get(e[1])
            if i is not None and i.o == 'call':
                ks = {self.retarg.get(c) for c in self.names(i)}
                if len(ks) == 1 and None not in ks:
                    return self.canon(f, i.a[ks.pop()], seen + (e[1],))
                rs = {self.constret(c, i.a) for c in self.names(i)}
                if len(rs) == 1 and None not in rs:
                    return ('K', rs.pop())
            if i is not None and i.o == 'phi':
                vs = {self.canon(f, x, seen + (e[1],)) for x, _ in i.ph}
                vs.discard(e)
                if len(vs) == 1:
                    return vs.pop()
        return e

    def constret(self, c, args):
        """the constant argument a routine gives back when called with it (message handler), else None"""
        s = self.rv.sum.get(c)
        if not s:
            return None
        for x in s:
            if isinstance(x, tuple) and x[1] < len(args) and isinstance(args[x[1]], int):
                k = x[1]; v = args[k]
                if (c, k, v) not in self._cr:
                    ck = RetCk(self.rv, self.p.fns[c])

                    def init(eng, st):
                        st.facts[('A', k)] = frozenset([v])
                    Engine(self.p, self.p.fns[c], ck, self.rv.eff, maxst=40, init=init).run()
                    out = {v if o == ('A', k) else o for o in ck.out}
                    self._cr[c, k, v] = v if not ck.top and out == {v} else None
                if self._cr[c, k, v] is not None:
                    return v
        return None

    def returnsarg(self):
        ch = True
        while ch:
            ch = False
            for f in self.fns:
                if f.n in self.retarg:
                    continue
                vs = {self.canon(f, i.a[0]) for i in f.insts() if i.o == 'ret' and i.a}
                if len(vs) == 1:
                    v = vs.pop()
                    if v[0] == 'A':
                        self.retarg[f.n] = v[1]; ch = True

    # --- taint
    def taint(self):
        todo = set()
        for f in self.fns:
            if any(i.o == 'load' and fkey(f.ex(i.a[0])) in self.src for i in f.insts()):
                todo.add(f.n)
        self.work = 0
        while todo:
            n = todo.pop()
            f = self.p.fns[n]; self.work += 1
            t = Local(self, f)
            self.info[n] = t
            if t.ret and n not in self.rettaint:
                self.rettaint.add(n)
                for i in self.p.callers.get(n, []):
                    todo.add(i.fn.n)
                todo.add(n) if any(n in self.names(i) for i in f.calls()) else None

    def pdoms(self, f):
        if f.n not in self.pd:
            self.pd[f.n] = pdom(f)
        return self.pd[f.n]


class Local:
    """taint inside one function"""
    def __init__(self, an, f):
        self.an = an; self.f = f; self.t = set(); self.mem = set(); self.region = {}; self.ret = False; self.outfields = set()
        ch = True
        while ch:
            a = (len(self.t), len(self.mem), len(self.region))
            self.step()
            ch = a != (len(self.t), len(self.mem), len(self.region))
        self.returns()
        for i in f.insts():
            if i.o == 'store' and (i.bb in self.region or self.op(i.a[0]) or self.op(i.a[1])):
                es = {an.dest(f, f.ex(i.a[1]))}
            elif i.o in ('call', 'invoke') and (i.bb in self.region or any(self.op(x) for x in i.a)):
                es = an.callext(f, i) | an.callint(f, i)
            else:
                continue
            self.outfields |= {e[1] for e in es if e and isout(e[1])}

    def op(self, x):
        f = self.f
        if isinstance(x, list):
            g = x[1]
            return self.op(g['b']) or any(self.op(v) for _, v in g.get('var', []))
        return isinstance(x, str) and x.startswith('%') and int(x[1:]) in self.t

    def step(self):
        an, f = self.an, self.f
        for i in f.insts():
            if i.o == 'load':
                e = f.ex(i.a[0]); r = root(e)
                if fkey(e) in an.src or r in self.mem or self.op(i.a[0]):
                    self.t.add(i.i)
            elif i.o == 'store':
                if i.bb in self.region or self.op(i.a[0]) or self.op(i.a[1]):
                    r = root(f.ex(i.a[1]))
                    if an.local(f, r):
                        self.mem.add(r)
            elif i.o in ('call', 'invoke'):
                cs = an.names(i)
                ta = [self.op(x) or (isinstance(x, (str, list)) and root(f.ex(x)) in self.mem) for x in i.a]
                if i.i is not None:
                    if any(c in an.rettaint for c in cs):
                        self.t.add(i.i)
                    elif any(ta) and an.canon(f, '%%%d' % i.i)[0] != 'K':
                        ks = {an.retarg.get(c) for c in cs}
                        k = ks.pop() if len(ks) == 1 else None
                        if k is None or ta[k]:
                            self.t.add(i.i)
                if i.bb in self.region or any(ta):
                    for k, x in enumerate(i.a):
                        if isinstance(x, (str, list)):
                            r = root(f.ex(x))
                            if r[0] in 'MV' and an.local(f, r) and self.mayout(i, cs, k):
                                self.mem.add(r)
            elif i.o == 'phi':
                if any(self.op(x) for x, _ in i.ph):
                    self.t.add(i.i)
                elif self.region:
                    for br, (blocks, j) in self.regs().items():
                        vs = {an.canon(f, x) for x, b in i.ph if b in blocks or (b == br and i.bb in f.succ[br])}
                        vs.discard(('V', i.i))
                        if i.bb == j or i.bb in blocks:
                            if len(vs) > 1:
                                self.t.add(i.i)
            elif i.i is not None and i.o not in ('alloca',):
                ops = list(i.a)
                if i.o == 'getelementptr':
                    if self.op(i.g['b']) or any(self.op(v) for _, v in i.g.get('var', [])):
                        self.t.add(i.i)
                elif any(self.op(x) for x in ops):
                    self.t.add(i.i)
            if i.o in ('br', 'switch') and len(f.succ[i.bb]) > 1 and i.a and self.op(i.a[0]):
                if i.bb not in self.branches():
                    self._br[i.bb] = i
                    self._regs = None
                    for b in self.regs()[i.bb][0]:
                        self.region.setdefault(b, i)

    def mayout(self, i, cs, k):
        an = self.an
        for c in cs:
            g = an.p.fns.get(c)
            if g is None or g.decl:
                if k in an.external(self.f, i, c):
                    return True
            elif any(x[2] == k for x in an.eff.get(c, ())):
                return True
        return False

    _br = None; _regs = None

    def branches(self):
        if self._br is None:
            self._br = {}
        return self._br

    def regs(self):
        if self._regs is None:
            self._regs = {}
            ip = self.an.pdoms(self.f)
            for b in self.branches():
                j = ip.get(b, -1)
                blocks = set(); st = [s for s in self.f.succ[b] if s != j]
                while st:
                    x = st.pop()
                    if x in blocks:
                        continue
                    blocks.add(x)
                    st.extend(s for s in self.f.succ[x] if s != j)
                self._regs[b] = (blocks, j)
        return self._regs

    def returns(self):
        rets = [i for i in self.f.insts() if i.o == 'ret']
        for i in rets:
            if i.a and self.op(i.a[0]):
                self.ret = True
        inr = [i for i in rets if i.bb in self.region and i.a]
        if inr and len({self.an.canon(self.f, i.a[0]) for i in rets if i.a}) > 1:
            self.ret = True

    def violations(self):
        an, f = self.an, self.f
        st = {'branches': len(self.branches()), 'region_calls': 0, 'region_stores': 0}
        out = []
        for i in f.insts():
            inr = i.bb in self.region
            if i.o == 'store':
                tv = self.op(i.a[0]) or self.op(i.a[1])
                if inr or tv:
                    st['region_stores'] += 1
                    e = an.dest(f, f.ex(i.a[1]))
                    if e and not isout(e[1]):
                        out.append((i, 'store', e, inr))
            elif i.o in ('call', 'invoke'):
                ta = [k for k, x in enumerate(i.a) if self.op(x)]
                ma = [k for k, x in enumerate(i.a) if isinstance(x, (str, list)) and root(f.ex(x)) in self.mem]
                if not inr and not ta and not ma:
                    continue
                st['region_calls'] += 1
                es = {e for e in an.callext(f, i) | an.callint(f, i) if not isout(e[1])}
                if es:
                    out.append((i, 'call', sorted(es, key=str)[0], inr))
            elif i.o == 'unreachable' and inr:
                out.append((i, 'stops', ('stops', 'the process', None), inr))
        return st, out


def run(ctx):
    R = Result(['code executed depending on the print level or the message visibilities changes nothing but the output and its own state',
                'no value that depends on them reaches solver state, arguments or memory of the caller',
                'no value that depends on them is returned, except by accessors of these settings'])
    units = ['lib'] + (EXTRA if ctx.tier == 'thorough' else [])
    R.cov = {'units': units}
    for u in units:
        p = ctx.prog(u)
        for k in SETTINGS:
            if p.ftype(k) is None:
                raise AnalysisError('member %s not found' % k)
        an = An(p, ctx.rv(u))
        tot = {'functions_tainted': len(an.info), 'branches': 0, 'region_calls': 0, 'region_stores': 0, 'returns_judged': 0}
        for n, t in sorted(an.info.items()):
            f = p.fns[n]
            st, out = t.violations()
            for k, v in st.items():
                tot[k] += v
            for i, kind, e, inr in out:
                callee = ''
                if kind == 'call':
                    cs = an.names(i)
                    callee = p.fns[cs[0]].pretty if cs and cs[0] in p.fns and p.fns[cs[0]].sn else (cs[0] if cs else '?')
                what = {'field': 'member %s', 'array': 'the contents of %s', 'global': 'global %s', 'memory': 'memory (%s)', 'stops': 'the process: %s'}[e[0]] % e[1]
                R.v('flow', f, i, '%s:%s' % (callee or 'store', e[1]),
                    '%s changes %s %s' % ('call of ' + callee if callee else 'a store', what,
                                          'only under some print levels or message visibilities' if inr else 'to a value that depends on the print level or message visibility'))
            if t.ret:
                tot['returns_judged'] += 1
                vals = {an.canon(f, i.a[0]) for i in f.insts() if i.o == 'ret' and i.a}
                if all(v[0] == 'L' and isout(fkey(v[1])) for v in vals):
                    continue            # accessor of a setting
                if f.acc in (0, 3) and f.cls or not f.cls and not f.internal:
                    R.v('return', f, None, f.sn, 'the returned value depends on the print level or message visibility')
        R.obligations += tot['region_calls'] + tot['region_stores'] + tot['returns_judged']
        if u == 'lib':
            R.prog = p
            R.need(tot['branches'], 'branches on output settings', 20)
            R.need(tot['region_calls'], 'calls under such branches', 50)
        for k, v in tot.items():
            R.cov[k] = R.cov.get(k, 0) + v
    return R
