"""C18  the index lists of a working set and the statuses of its entries change together."""
from ..common import Result, Ctx, pmap
from ..engine import Engine
from ..ir import subst, leaves
from ..build import EXTRA, AnalysisError

LISTS = {'Bounds::freee': 'I', 'Bounds::fixed': 'A', 'Constraints::inactive': 'I', 'Constraints::active': 'A'}
OTHER = {'Bounds::freee': 'Bounds::fixed', 'Bounds::fixed': 'Bounds::freee',
         'Constraints::inactive': 'Constraints::active', 'Constraints::active': 'Constraints::inactive'}
WSET = ('SubjectTo', 'Bounds', 'Constraints')
NAME = {'I': 'inactive', 'A': 'at a bound'}


def listkey(a):
    while a[0] == 'P':
        if a[4] in LISTS:
            return a[4]
        if a[4] and not a[4].startswith('up:'):
            return None
        a = a[1]
    return None


def statusindex(a):
    """index expression of an address into the status array of *this"""
    if a[0] == 'P' and a[1][0] == 'L' and a[1][1][0] == 'P' and a[1][1][4] == 'SubjectTo::status':
        o = a[1][1][1]
        while o[0] == 'P':
            o = o[1]
        if o == ('A', 0):
            if a[3] and len(a[3]) == 1 and a[2] == 0:
                return a[3][0][1]
            return ('?',)


IX = {'sv': 2, 'ty': 2, 'is': 1, 'ist': 1, 'add': 2, 'rem': 2, 'st': 1, 'lca': 2}      # where the index is


def stale(ix, i):
    return ix[0] == 'K' or ('V', i) in leaves(ix)


class EntryEngine(Engine):
    def forget_value(self, st, i):
        self.ck.forget(self, st, i)
        return Engine.forget_value(self, st, i)


class Ck:
    """res: ('add', list, n), ('rem', list, n), ('st', n, value), ('assign', list), ('lc', local list, class), ('sv', value, n)"""
    nonan = True

    def __init__(self, U, f):
        self.U = U; self.f = f; self.p = U.p; self.outs = {}; self.viol = {}; self.events = 0
        self.types = set(); self.typed = False; self.anylca = set()

    def reskey(self, eng, st):
        return frozenset(st.res)

    def memkeep(self, eng, st, a, v):
        return False

    def keepfact(self, eng, st, k):
        return any((r[0] in ('sv', 'ty') and r[1] == k) or (r[0] == 'st' and r[2] == k) for r in st.res)

    def prune(self, eng, st):
        """what is known of the status of an entry outlives the value it was read into"""
        for k in list(st.res):
            if k[0] in ('sv', 'ty') and k[1][0] == 'V' and k[1][1] not in st.env:
                d = eng.domain(st, k[1])
                del st.res[k]
                if isinstance(d, frozenset) or k[0] == 'sv':
                    st.res[('is' if k[0] == 'sv' else 'ist', k[2], d if isinstance(d, frozenset) else None)] = 1

    def known(self, eng, st, ix):
        """values the status of this entry may have, if known"""
        out = None
        for k in st.res:
            d = None
            if k[0] == 'sv' and k[2] == ix:
                d = eng.domain(st, k[1])
            elif k[0] == 'is' and k[1] == ix:
                d = k[2]
            elif k[0] == 'st' and k[1] == ix:
                d = k[2][1] if k[2][0] == 'D' else eng.domain(st, k[2]) if k[2][0] != 'K' else frozenset([k[2][1]])
            if isinstance(d, frozenset):
                out = d if out is None else out & d
        return out

    def classof(self, d):
        if d is not None and d:
            return 'I' if d <= {self.U.inactive} else 'A' if d <= self.U.active else None

    def forget(self, eng, st, i):
        """next round of a loop: judge what was done to the entry of this round"""
        phi = self.f.inst.get(i)
        if phi is None or phi.o != 'phi':
            return
        gone = [k for k in st.res if k[0] in IX and stale(k[IX[k[0]]], i)]
        if not gone:
            return
        ev = [k for k in gone if k[0] in ('add', 'rem', 'st')]
        rounds = {k[IX[k[0]]] for k in gone}
        for ix in rounds:
            c = self.classof(self.known(eng, st, ix))
            if c and self.U.rebuilds(self.f.n) and not any(k[0] == 'lca' and k[2] == ix for k in st.res) and not any(k[0] == 'st' and k[1] == ix for k in gone) \
                    and any(k[0] == 'lca' for k in self.anylca):
                self.viol.setdefault(('dropped', NAME[c], phi.bb, phi.k), 'an entry whose status was found to be %s is put into no list' % NAME[c])
        where = dict(st.res)
        if self.U.judge(self.f):
            self.settle(eng, st, ev, where, loop=True)
        for k in gone:
            del st.res[k]
        if any(k[0] == 'st' for k in ev) and not any(k[0] == 'add' for k in ev):
            st.res[('st*',)] = next(where[k] for k in ev if k[0] == 'st')

    def cls(self, eng, st, v):
        d = frozenset([v[1]]) if v[0] == 'K' else eng.domain(st, v)
        if isinstance(d, frozenset) and d:
            if d <= {self.U.inactive}:
                return 'I'
            if d <= self.U.active:
                return 'A'
        return None

    def load(self, eng, st, n, addr):
        ix = statusindex(addr)
        if ix is not None and n.i is not None:
            self.drop(st, n.i)
            st.res[('sv', ('V', n.i), ix)] = 1

    @staticmethod
    def drop(st, i):
        for k in [k for k in st.res if k[0] in ('sv', 'ty') and k[1] == ('V', i)]:
            del st.res[k]

    def store(self, eng, st, n, addr, v):
        ix = statusindex(addr)
        if ix is None:
            return
        self.events += 1
        self.setstatus(eng, st, n, ix, v)

    def setstatus(self, eng, st, n, ix, v):
        d = eng.domain(st, v)
        old = self.known(eng, st, ix)
        for k in [k for k in st.res if (k[0] in ('st', 'is') and k[1] == ix) or (k[0] == 'sv' and k[2] == ix)]:
            del st.res[k]
        val = v if not (isinstance(d, frozenset)) else ('D', d)
        if old is not None and old <= self.U.active and isinstance(d, frozenset) and d <= self.U.active and not (old & d):
            return                  # flipped from one bound to the other
        st.res[('st', ix, val)] = (n.bb, n.k)
        if isinstance(d, frozenset) and d == self.U.undefined:
            st.res[('undef', ix)] = (n.bb, n.k)

    def add(self, eng, st, n, lst, ix):
        self.events += 1
        if lst[0] == 'M' or (lst[0] == 'P' and eng.rootlocal(lst)):
            # a list under construction: what is known of the status decides which list it may become
            d = self.known(eng, st, ix)
            c = self.classof(d)
            if d is None and any((k[0] == 'sv' and k[2] == ix) or (k[0] == 'is' and k[1] == ix) for k in st.res):
                c = '?'             # looked up, and judged in a way not followed here
            r = lst
            while r[0] == 'P':
                r = r[1]
            st.res[('lc', r, c)] = (n.bb, n.k)
            st.res[('lca', r, ix)] = (n.bb, n.k)
            self.anylca.add(('lca',))
            return
        st.res[('add', lst, ix)] = (n.bb, n.k)

    def cval(self, eng, st, val):
        if val[0] == 'D':
            return 'I' if val[1] <= {self.U.inactive} else 'A' if val[1] <= self.U.active else None
        return self.cls(eng, st, val)

    def call(self, eng, st, n, cs):
        U = self.U; p = self.p
        c = cs[0] if len(cs) == 1 else None
        g = p.fns.get(c) if c else None
        args = [eng.addr(st, a) if isinstance(a, (str, list)) else ('K', a) for a in n.a]
        if g is not None and g.cls == 'Indexlist' and g.sn in ('addNumber', 'removeNumber', 'swapNumbers', 'operator=', 'init'):
            out = U.rv.apply(eng, st, n, cs)
            res = []
            for s in (out if out is not None else [st]):
                d = eng.domain(s, eng.val(s, '%%%d' % n.i)) if n.i is not None and n.t == 'i32' else None
                if isinstance(d, frozenset):
                    d = U.codes(g, d)
                    s.facts[('V', n.i)] = d
                if isinstance(d, frozenset) and 0 not in d:
                    res.append(s); continue
                t = s
                if isinstance(d, frozenset) and len(d) > 1:
                    t = s.copy(); w = s.copy()
                    t.facts[('V', n.i)] = frozenset([0]); w.facts[('V', n.i)] = d - {0}
                    res.append(w)
                elif not isinstance(d, frozenset) and n.i is not None and n.t == 'i32':
                    w = s.copy(); t = s.copy()
                    t.facts[('V', n.i)] = frozenset([0])
                    w.facts[('V', n.i)] = ('I', 1, 1 << 40, frozenset())
                    res.append(w)
                if g.sn == 'addNumber':
                    self.add(eng, t, n, args[0], args[1])
                elif g.sn == 'removeNumber':
                    self.events += 1
                    t.res[('rem', args[0], args[1])] = (n.bb, n.k)
                elif g.sn == 'operator=':
                    k = listkey(args[0])
                    if k:
                        self.events += 1
                        self.assign(eng, t, n, k, args[1])
                elif g.sn == 'init' and listkey(args[0]):
                    t.res[('empty', listkey(args[0]))] = 1
                res.append(t)
            return res
        if g is not None and g.cls in WSET and g.sn == 'getStatus' and n.i is not None:
            U.rv.apply(eng, st, n, cs)
            self.drop(st, n.i)
            st.res[('sv', ('V', n.i), args[1])] = 1
            return [st]
        if g is not None and g.cls in WSET and g.sn == 'getType' and n.i is not None:
            out = U.rv.apply(eng, st, n, cs)
            for s in (out if out is not None else [st]):
                self.drop(s, n.i)
                s.res[('ty', ('V', n.i), args[1])] = 1
            return out if out is not None else [st]
        if g is not None and g.n in U.tracked and args and U.this(args[0]):
            if U.setsup(g):
                self.typed = True
                dom = None
                for k in st.res:
                    if k[0] in ('ty', 'ist') and len(args) > 1 and k[IX[k[0]]] == args[1]:
                        d = eng.domain(st, k[1]) if k[0] == 'ty' else k[2]
                        dom = d if isinstance(d, frozenset) else dom
                self.types |= dom if dom is not None else {'all'}
            outs = U.summary(g.n)
            base = U.rv.apply(eng, st, n, cs)
            res = []
            m = {k: a for k, a in enumerate(args)}
            for s in (base if base is not None else [st]):
                for ev, r in outs.items():
                    t = s.copy()
                    if r is not None and n.i is not None:
                        d = eng.domain(t, t.env.get(n.i, ('V', n.i)))
                        d = d & r if isinstance(d, frozenset) else r
                        if not d:
                            continue
                        t.env[n.i] = ('V', n.i) if len(d) > 1 else ('K', next(iter(d)))
                        t.facts[('V', n.i)] = frozenset(d)
                    for e in ev:
                        if e[0] in ('add', 'rem'):
                            x = (subst(e[1], m), subst(e[2], m))
                            if e[0] == 'add':
                                self.add(eng, t, n, *x)
                            else:
                                self.events += 1
                                t.res[('rem',) + x] = (n.bb, n.k)
                    for e in ev:
                        if e[0] == 'st':
                            v = e[2] if e[2][0] == 'D' else subst(e[2], m)
                            if v[0] == 'D':
                                t.res[('st', subst(e[1], m), v)] = (n.bb, n.k)
                            else:
                                self.setstatus(eng, t, n, subst(e[1], m), v)
                        elif e[0] in ('assign', 'empty'):
                            t.res[e] = 1
                    res.append(t)
            return res
        out = U.rv.apply(eng, st, n, cs)
        return out if out is not None else [st]

    def assign(self, eng, st, n, key, src):
        st.res[('assign', key)] = (n.bb, n.k)
        r = src
        while r[0] == 'P':
            r = r[1]
        if r[0] == 'M':
            for k in st.res:
                if k[0] == 'lc' and k[1] == r and k[2] not in (LISTS[key], '?'):
                    self.viol.setdefault(('rebuilt', key, n.bb, n.k), 'the list %s is rebuilt with entries whose status is %s'
                                         % (key, NAME[k[2]] if k[2] else 'not known'))
        elif not (self.f.sn in ('copy', 'operator=') or self.f.sn == self.f.cls):
            self.viol.setdefault(('rebuilt', key, n.bb, n.k), 'the list %s is replaced' % key)

    def branch(self, eng, st, n, c, taken):
        return True

    def ret(self, eng, st, n, v):
        U = self.U; f = self.f
        d = None
        if v is not None and f.rt == 'i32' and f.rettype.endswith('returnValue'):
            d = frozenset([v[1]]) if v[0] == 'K' else eng.domain(st, v)
            if not isinstance(d, frozenset):
                d = None
        ok = d is None or 0 in d
        ev = []
        for k, w in st.res.items():
            if k[0] in ('add', 'rem', 'st', 'st*', 'assign', 'empty'):
                if k[0] == 'st' and k[2][0] != 'D':
                    dd = eng.domain(st, k[2])
                    k = ('st', k[1], ('D', dd)) if isinstance(dd, frozenset) else k
                ev.append(k)
        if ok:
            for k, w in st.res.items():
                if k[0] == 'undef' and not any(e[0] == 'rem' and e[2] == k[1] for e in ev):
                    self.viol.setdefault(('undefined', 'status', w[0], w[1]), 'the status of an entry becomes undefined but its index is taken out of no list')
        if ok and U.judge(f):
            self.settle(eng, st, ev, {k: w for k, w in st.res.items()})
        key = frozenset(ev)
        if not ok:
            key = frozenset()       # the caller hears of the failure
        o = self.outs.get(key, frozenset())
        self.outs[key] = None if d is None or o is None else o | d

    def settle(self, eng, st, ev, where, loop=False):
        f = self.f
        adds = [k for k in ev if k[0] == 'add']; rems = [k for k in ev if k[0] == 'rem']; sts = [k for k in ev if k[0] == 'st']
        rebuilt = {k[1] for k in ev if k[0] in ('assign', 'empty')}

        def v(rule, detail, k, msg):
            w = where.get(k, (0, 0))
            w = w if isinstance(w, tuple) else (0, 0)
            self.viol.setdefault((rule, detail, w[0], w[1]), msg)
        for key in sorted(rebuilt):
            if OTHER[key] not in rebuilt:
                v('partial', key, ('assign', key), 'the list %s is replaced, %s is not' % (key, OTHER[key]))
        for k in adds:
            key = listkey(k[1])
            if key is None:
                continue            # list given by the caller
            c = [self.cval(eng, st, s[2]) for s in sts if s[1] == k[2]]
            if not c:
                v('status', key, k, 'an index is added to the list %s without setting the status of that entry' % key)
            elif c[0] != LISTS[key]:
                v('status', key, k, 'an index is added to the list %s although its status need not be %s' % (key, NAME[LISTS[key]]))
            if [x for x in adds if x[2] == k[2] and x != k]:
                v('twice', key, k, 'one index is added to two lists')
        for k in rems:
            key = listkey(k[1])
            if key is None:
                continue
            if not any(a[2] == k[2] and listkey(a[1]) == OTHER[key] for a in adds):
                v('lost', key, k, 'an index taken out of the list %s is not put into the list %s' % (key, OTHER[key]))
        if not rebuilt and ('st*',) in ev:
            v('alone', 'status', ('st*',), 'the statuses of entries are changed but their indices stay in the same lists')
        for k in sts:
            if k[1] == ('?',) or any(a[2] == k[1] for a in adds):
                continue
            if not loop and not rebuilt and f.cls != 'SubjectTo':
                v('alone', 'status', k, 'the status of an entry is changed but its index stays in the same list')


class Unit:
    def __init__(self, ctx, unit):
        self.p = p = ctx.prog(unit); self.eff = ctx.eff(unit); self.rv = ctx.rv(unit); self.memo = {}; self.cks = {}
        E = p.enum('SubjectToStatus'); self.E = E
        self.undefined = frozenset([E['ST_UNDEFINED']]); self.inactive = E['ST_INACTIVE']; self.active = frozenset([E['ST_LOWER'], E['ST_UPPER']])
        self.marks = frozenset(v for n, v in E.items() if 'INFEASIBLE' in n)
        self.tracked = {f.n for f in p.fns.values() if not f.decl and f.bbs and f.cls in WSET and f.sn not in ('copy', 'operator=', 'clear', 'init')
                        and f.sn != f.cls and not f.sn.startswith('~') and self.relevant(f)}

    def relevant(self, f):
        for i in f.insts():
            if i.o == 'store':
                a = f.ex(i.a[1])
                if a[0] == 'P' and a[1][0] == 'L' and a[1][1][0] == 'P' and a[1][1][4] == 'SubjectTo::status':
                    return True
            if i.o == 'call':
                for c in self.p.callees(i):
                    g = self.p.fns.get(c)
                    if g is not None and (g.cls == 'Indexlist' and g.sn in ('addNumber', 'removeNumber', 'swapNumbers', 'operator=', 'init')):
                        return True
                    if g is not None and not g.decl and g.cls in WSET and g.n != f.n and g.sn not in ('copy', 'operator=', 'clear', 'init') and g.sn != g.cls \
                            and not g.sn.startswith('~') and self._rel(g):
                        return True
        return False

    def _rel(self, g):
        self._m = getattr(self, '_m', {})
        if g.n not in self._m:
            self._m[g.n] = False
            self._m[g.n] = self.relevant(g)
        return self._m[g.n]

    def this(self, a):
        while a[0] == 'P':
            if a[4] and not a[4].startswith('up:'):
                return False
            a = a[1]
        return a == ('A', 0)

    def judge(self, f):
        return f.cls in ('Bounds', 'Constraints')

    def rebuilds(self, n):
        f = self.p.fns[n]
        for i in f.calls():
            for c in self.p.callees(i):
                g = self.p.fns.get(c)
                if g is not None and g.cls == 'Indexlist' and g.sn == 'operator=':
                    return True
        return False

    def codes(self, g, d):
        """codes this routine can return, if it only returns literals and what it reports"""
        out = set()
        for i in g.insts():
            if i.o == 'ret' and i.a:
                x = self.retcodes(g, i.a[0], set())
                if x is None:
                    return d
                out |= x
        return d & out or d

    def retcodes(self, g, op, seen):
        if isinstance(op, int):
            return {op}
        if not isinstance(op, str) or not op.startswith('%') or op in seen:
            return set() if op in seen else None
        seen.add(op)
        i = g.inst.get(int(op[1:]))
        if i is None:
            return None
        if i.o == 'phi':
            out = set()
            for v, _ in i.ph:
                x = self.retcodes(g, v, seen)
                if x is None:
                    return None
                out |= x
            return out
        if i.o == 'call':
            cs = self.p.callees(i); h = self.p.fns.get(cs[0]) if len(cs) == 1 else None
            if h is not None and h.cls == 'MessageHandling' and h.sn.startswith('throw') and isinstance(i.a[1], int):
                return {i.a[1]}
        return None

    def setsup(self, g):
        """sets up one entry: takes an index and a status and adds to a list of this object"""
        return g.cls in ('Bounds', 'Constraints') and g.nargs == 3 and g.n in self.tracked and any(
            e[0] == 'add' and listkey(e[1]) and not any(x[0] == 'rem' for x in ev) for ev in self.summary(g.n) for e in ev)

    def summary(self, n):
        if n not in self.memo:
            self.memo[n] = {frozenset(): None}
            f = self.p.fns[n]; ck = Ck(self, f)
            e = EntryEngine(self.p, f, ck, self.eff, maxst=400); e.run()
            self.cks[n] = (ck, e.trunc if hasattr(e, 'trunc') else False)
            self.memo[n] = ck.outs
        return self.memo[n]


def analyse(unit):
    ctx = Ctx(); U = Unit(ctx, unit); p = U.p
    st = {'routines': 0, 'list_and_status_changes': 0, 'outcomes': 0, 'outside_changes': 0}; viol = []
    alltypes = frozenset(p.enum('SubjectToType').values())
    for n in sorted(U.tracked):
        U.summary(n); ck, tr = U.cks[n]; f = p.fns[n]
        st['routines'] += 1; st['list_and_status_changes'] += ck.events; st['outcomes'] += len(ck.outs)
        for (rule, key, b, k), msg in ck.viol.items():
            viol.append(dict(rule=rule, fn=f.pretty, at=f.loc(f.bbs[b][k]) if b or k else f.loc(), detail=key, msg=msg))
        if ck.typed and 'all' not in ck.types and ck.types != alltypes:
            viol.append(dict(rule='cover', fn=f.pretty, at=f.loc(), detail='types', msg='entries of type %s are not set up'
                             % ', '.join(sorted(k for k, v in p.enum('SubjectToType').items() if v in alltypes - ck.types))))
    # the rest of the library goes through these routines
    for f in p.fns.values():
        if f.decl or f.cls in WSET or f.cls == 'Indexlist' or not p.in_repo(f):
            continue
        for i in f.calls():
            for c in p.callees(i):
                g = p.fns.get(c)
                if g is None or not i.a or not isinstance(i.a[0], (str, list)):
                    continue
                if g.cls == 'Indexlist' and g.sn in ('addNumber', 'removeNumber', 'swapNumbers', 'operator=', 'init'):
                    a = f.ex(i.a[0])
                    r = a
                    while r[0] == 'P':
                        r = r[1]
                    st['outside_changes'] += 1
                    h = f.inst.get(r[1]) if r[0] == 'V' else None
                    own = listkey(a) is not None
                    if h is not None and h.o == 'call':
                        own = any(self_list(p, c2) for c2 in p.callees(h))
                    if own:
                        viol.append(dict(rule='outside', fn=f.pretty, at=f.loc(i), detail=g.sn, msg='a list of a working set is changed from outside by %s' % g.pretty))
                elif g.cls == 'SubjectTo' and g.sn == 'setStatus':
                    a = f.ex(i.a[0]); st['outside_changes'] += 1
                    r = a; own = False
                    while r[0] == 'P':
                        if r[4] in ('QProblemB::bounds', 'QProblem::constraints'):
                            own = True
                        r = r[1]
                    if own:
                        vals = values(f, i.a[2])
                        if vals is None or not vals <= U.marks:
                            viol.append(dict(rule='outside', fn=f.pretty, at=f.loc(i), detail='setStatus',
                                             msg='the status of an entry of the working set is changed without its list'))
    return st, viol


def self_list(p, c):
    g = p.getter(c)
    return g is not None and any(k in LISTS for k in keys(g))


def keys(e):
    out = set()
    if isinstance(e, tuple):
        if e and e[0] == 'P':
            out.add(e[4])
        for x in e:
            out |= keys(x)
    return out


def values(f, op, depth=0):
    if isinstance(op, int):
        return {op}
    if depth > 5 or not isinstance(op, str) or not op.startswith('%'):
        return None
    i = f.inst.get(int(op[1:]))
    if i is None:
        return None
    if i.o == 'select':
        a, b = values(f, i.a[1], depth + 1), values(f, i.a[2], depth + 1)
        return a | b if a is not None and b is not None else None
    if i.o == 'phi':
        out = set()
        for v, _ in i.ph:
            x = values(f, v, depth + 1)
            if x is None:
                return None
            out |= x
        return out
    return None


def run(ctx):
    R = Result(['an index enters the list of free/inactive (fixed/active) entries only with its status set to inactive (to a bound)',
                'an index taken out of one list is put into the other before success is returned; a status changes only together with the list, or from one bound to the other',
                'rebuilt lists hold every entry according to its status; setting up a whole working set covers entries of every type',
                'outside the working set classes no list is changed and no status of a solver\'s working set is set, except marks for dropped entries'])
    units = ['lib'] + (EXTRA if ctx.tier == 'thorough' else [])
    R.prog = ctx.prog('lib'); R.cov = {'units': units, 'per_unit': {}}
    for u, (st, viol) in zip(units, pmap(analyse, units)):
        R.cov['per_unit'][u] = st
        for k, x in st.items():
            R.cov[k] = R.cov.get(k, 0) + x
        R.obligations += st['list_and_status_changes'] + st['outside_changes']
        if u == 'lib':
            R.need(st['routines'], 'routines that change lists or statuses', 15)
            R.need(st['list_and_status_changes'], 'changes of lists and statuses', 40)
            R.need(st['outside_changes'], 'status changes outside the working set classes', 5)
        for v in viol:
            R.v(v['rule'], v['fn'], None, v['detail'], v['msg'], at=v['at'])
    R.cov['explanation'] = ('Path-sensitive event summaries (index added to / taken out of a list, status set, list replaced) of all routines of the working set '
                            'classes, substituted at calls; every success exit is judged.')
    return R
