"""C01  copies are complete and independent."""
from ..common import Result, AnalysisError, root
from ..engine import Engine
from ..assign import Assign, ANY
from ..ir import fields_of, subst
from ..poly import poly, show, loop_extent, size_of
from ..own import ALLOC

# workspaces: contents never outlive one call, a copy needs its own but not the contents
WORKSPACE = {'QProblemB::delta_xFR_TMP', 'QProblem::tempA', 'QProblem::tempB', 'QProblem::tempC', 'QProblem::ZFR_delta_xFRz',
             'QProblem::delta_xFRz', 'QProblem::delta_xFRy', 'QProblem::delta_yAC_TMP'}
# leading part in use: count field -> capacity field
USED = {'SQProblemSchur::nS'}


# capacities that are positive wherever the enclosing capacity is: allocated as a multiple of it and only grown
POSITIVE = {'SQProblemSchur::M_physicallength'}


def path(e, bases=False):
    """(root, (field keys...)) of an address, upcasts dropped; None when indexed"""
    ks = []
    while e[0] == 'P':
        if e[3]:
            return None
        if e[4] and not e[4].startswith('up:'):
            ks.append(e[4])
        elif e[4] is None and e[2] != 0 and not bases:      # bases: fixed offsets are base class subobjects
            return None
        e = e[1]
    return e, tuple(reversed(ks))


def norm(e, a, b):
    """replace root a by root b, upcasts dropped"""
    if e == a:
        return b
    if not isinstance(e, tuple):
        return e
    if e and e[0] == 'P' and len(e) == 5 and (e[4] or '').startswith('up:'):
        return norm(e[1], a, b)
    if e and e[0] == 'L':
        return ('L', norm(e[1], a, b))      # versions dropped
    return tuple(norm(x, a, b) if isinstance(x, tuple) else x for x in e)


DST, SRC = ('D!',), ('S!',)


def contains_load(v):
    return isinstance(v, tuple) and bool(v) and (v[0] in ('L', 'V', 'A') or any(contains_load(x) for x in v))


def drop(e):
    """without load versions"""
    if not isinstance(e, tuple):
        return e
    if e and e[0] == 'L':
        return ('L', drop(e[1]))
    if e and e[0] == 'P' and len(e) == 5 and (e[4] or '').startswith('up:') and e[2] == 0 and not e[3]:
        return drop(e[1])
    return tuple(drop(x) if isinstance(x, tuple) else x for x in e)


def mentions(e, r):
    return e == r or isinstance(e, tuple) and any(mentions(x, r) for x in e if isinstance(x, tuple))


def known(e):
    """built from the two objects and constants only"""
    if e in (DST, SRC):
        return True
    if e[0] in ('K', 'F'):
        return True
    if e[0] == 'L':
        return known(e[1])
    if e[0] == 'P':
        return known(e[1]) and not e[3]
    return False


class Copies:
    def __init__(self, ctx, R):
        self.p = ctx.prog('lib'); self.eff = ctx.eff('lib'); self.R = R
        self.A = Assign(self.p)
        self.memo = {}
        self.frees = self._frees()
        self.owned = self._owned()
        self.dead = self._dead()
        self.nfill = 0; self.nval = 0; self.nf = set(); self.fills = {}; self.allocs = {}

    def _frees(self):
        """functions that release storage (transitively)"""
        p = self.p
        hot = {f.n for f in p.fns.values() for i in f.calls() if any(c.startswith(('_ZdaPv', '_ZdlPv')) or c == 'free' for c in p.callees(i))}
        work = list(hot)
        while work:
            x = work.pop()
            for i in p.callers.get(x, []):
                if i.fn.n not in hot:
                    hot.add(i.fn.n); work.append(i.fn.n)
        return hot

    def _dead(self):
        """members no function reads"""
        read = set()
        for f in self.p.fns.values():
            if not f.decl:
                for i in f.insts():
                    if i.o == 'load':
                        read |= fields_of(f.ex(i.a[0])) if not isinstance(i.a[0], int) else set()
                    elif i.o == 'call':
                        for a in i.a:
                            if not isinstance(a, int):
                                read |= fields_of(f.ex(a))
        out = set()
        for cls in self.p.types:
            for m in self.p.types[cls].get('mem', ()):
                k = '%s::%s' % (cls, m['n'])
                if k not in read:
                    out.add(k)
        return out

    def _owned(self):
        """pointer members some method of the class releases"""
        out = set()
        p = self.p
        for f in p.fns.values():
            if f.decl:
                continue
            for i in f.calls():
                for c in p.callees(i):
                    if (c.startswith(('_ZdaPv', '_ZdlPv')) or c.endswith('D0Ev') or c == 'free') and i.a and not isinstance(i.a[0], int):
                        e = f.ex(i.a[0])
                        while e[0] == 'P':
                            e = e[1]
                        if e[0] == 'L' and e[1][0] == 'P' and e[1][4]:
                            out.add(e[1][4])
        return out

    # ---- leaf members
    def leaves(self, cls, pre=()):
        out = []
        for c, m in self.p.members(cls, True):
            key = '%s::%s' % (c, m['n'])
            if m['t'] in self.p.types and m['t'] not in self.p.enums:
                out += self.leaves(m['t'], pre + (key,))
            else:
                out.append((pre + (key,), m))
        return out

    # ---- must-copy dataflow (context: the argument expressions in terms of the two objects)
    def mustcopy(self, name, j, k):
        f = self.p.fns.get(name)
        if f is None or f.decl:
            return frozenset()
        ctx = [None] * f.nargs
        ctx[j] = DST; ctx[k] = SRC
        return frozenset(self.must(name, tuple(ctx), 0))

    def must(self, name, ctx, depth):
        """member paths of DST that are assigned on every path (('*', ...) = the whole subobject)"""
        key = (name, ctx)
        if key in self.memo:
            return self.memo[key]
        f = self.p.fns.get(name)
        if f is None or f.decl or depth > 10:
            return frozenset()
        self.memo[key] = frozenset()
        self.nf.add(name)
        sub = {x: (e if e is not None else ('X', name, x)) for x, e in enumerate(ctx)}

        def T(op):
            e = ('K', op) if isinstance(op, int) else f.ex(op)
            return drop(subst(e, sub))
        inn = {0: frozenset()}; work = [0]; outs = {}
        while work:
            b = work.pop(0)
            cur = set(inn[b])
            for i in f.bbs[b]:
                if i.o == 'store':
                    pa = path(T(i.a[1]))
                    if pa and pa[0] == DST and pa[1]:
                        cur.add(pa[1])
                elif i.o == 'call':
                    cs = self.p.callees(i)
                    if not cs:
                        continue
                    ex = [T(a) for a in i.a]
                    pas = [path(e) for e in ex]
                    if len(cs) == 1 and cs[0].startswith(('llvm.memcpy', 'llvm.memmove')):
                        if pas[0] and pas[1] and pas[0][0] == DST and pas[1][0] == SRC and pas[0][1] == pas[1][1]:
                            cur.add(('*',) + pas[0][1])
                        if ex[0][0] == 'L' and ex[1][0] == 'L':     # contents of the same member
                            a, z = path(ex[0][1]), path(ex[1][1])
                            if a and z and a[0] == DST and z[0] == SRC and a[1] == z[1]:
                                cur.add(a[1])
                        continue
                    if not any(pa and pa[0] == DST for pa in pas):
                        continue
                    if len(ex) == 2 and pas[0] and pas[1] and pas[0][0] == DST and pas[1][0] == SRC and pas[0][1] != pas[1][1] \
                            and all(self.copier(c) for c in cs):
                        self.R.v('wrong-member', f, i, pas[0][1][-1] if pas[0][1] else 'object', 'copied from %s of the source' % ('.'.join(pas[1][1]) or 'the whole'))
                    sub2 = tuple(e if known(e) else None for e in ex)
                    if any(e is not None and mentions(e, SRC) for e in sub2):
                        got = None
                        for c in cs:
                            m = self.must(c, sub2, depth + 1)
                            got = m if got is None else got & m
                        cur |= got or set()
                    else:
                        for pa in pas:
                            if pa and pa[0] == DST:
                                for c in cs:
                                    if c in self.frees and 'C2E' not in c:
                                        w = self.eff.writes(c)
                                        cur = {q for q in cur if q[-1] not in w or q[:len(pa[1])] != pa[1]}
            t = f.bbs[b][-1]
            if t.o == 'ret':
                outs[b] = cur
                continue
            edges = [(s, ()) for s in f.succ[b]]
            if t.o == 'br' and t.a and len(t.s) == 2:
                c = T(t.a[0])
                if c[0] == 'C' and c[1] in ('sgt', 'ugt') and c[3] == ('K', 0) and c[2][0] == 'L' and path(c[2][1]) \
                        and path(c[2][1])[1][-1:] and path(c[2][1])[1][-1] in POSITIVE:
                    edges = [(t.s[0], ())]
                if c[0] == 'C' and c[1] in ('eq', 'ne'):
                    same, diff = (t.s[0], t.s[1]) if c[1] == 'eq' else (t.s[1], t.s[0])
                    a, z = c[2], c[3]
                    qa, qz = path(a), path(z)
                    if qa and qz and {qa[0], qz[0]} == {DST, SRC}:
                        edges = [(diff, ())]               # not a self-copy
                    else:
                        if a[0] == 'K':
                            a, z = z, a
                        if z == ('K', 0):
                            pa = path(a)
                            if pa and pa[0] in (DST, SRC):
                                edges = [(diff, ())]       # address of a part of an object
                            elif a[0] == 'L' and path(a[1]) and path(a[1])[0] == SRC:
                                edges = [(same, (path(a[1])[1],)), (diff, ())]   # nothing to transfer
            for s, extra in edges:
                nc = frozenset(cur | set(extra))
                if s not in inn:
                    inn[s] = nc; work.append(s)
                else:
                    m = inn[s] & nc
                    if m != inn[s]:
                        inn[s] = m
                        if s not in work:
                            work.append(s)
        r = None
        for o in outs.values():
            r = set(o) if r is None else r & o
        self.memo[key] = frozenset(r or ())
        return self.memo[key]

    def copier(self, name):
        g = self.p.fns.get(name)
        return g is not None and g.nargs == 2 and (g.sn in ('operator=', 'copy') or g.sn == g.cls)

    # ---- value check on every path of one copier
    def values(self, f, j, k, newobj=False):
        ck = ValCk(self, f, ('A', j) if not newobj else None, ('A', k))

        def init(eng, st):
            if not newobj:
                kk = eng.relkey('ne', ('A', j), ('A', k))
                st.rels[(kk[1], kk[2])] = kk[0]
        Engine(self.p, f, ck, self.eff, init=init, maxst=120).run()
        return ck

    # ---- fills: content of dst member taken from a source, with its length
    def collect_fills(self, f, J, K, sub=None, depth=0, seen=None):
        """[(dst member path, src member path or None, length poly or None, inst)] in terms of the top-level roots"""
        seen = seen if seen is not None else set()
        out = []
        sub = sub or {}

        def T(e):
            return subst(e, sub) if sub else e

        def member(e):
            """path of the pointer member whose content e addresses"""
            e = T(e)
            while e[0] == 'P':
                e = e[1]
            if e[0] == 'L':
                pa = path(e[1])
                if pa and pa[1] and pa[0] in (J, K):
                    return pa
            return None
        for i in f.insts():
            if i.o == 'call':
                cs = self.p.callees(i)
                ex = [('K', a) if isinstance(a, int) else f.ex(a) for a in i.a]
                if len(cs) == 1 and cs[0].startswith(('llvm.memcpy', 'llvm.memmove')):
                    d, s = self.local(f, ex[0], T, J, K), self.local(f, ex[1], T, J, K)
                    if d and d[0] == J:
                        out.append((d[1], s[1] if s and s[0] == K else None, poly(norm(T(ex[2]), J, K)), i, f))
                    continue
                for c in cs:
                    g = self.p.fns.get(c)
                    if g is None or g.decl or depth > 4 or (c, i.k, i.bb, f.n) in seen:
                        continue
                    te = [T(e) for e in ex]
                    if any(self.mentions_root(e, J) for e in te) and any(self.mentions_root(e, K) for e in te):
                        seen.add((c, i.k, i.bb, f.n))
                        out += self.collect_fills(g, J, K, {x: e for x, e in enumerate(te)}, depth + 1, seen)
            elif i.o == 'store':
                a = f.ex(i.a[1])
                if a[0] == 'P' and a[3]:
                    d = self.local(f, a[1], T, J, K)
                    if d and d[0] == J:
                        v = f.ex(i.a[0]) if not isinstance(i.a[0], int) else ('K', i.a[0])
                        s = None
                        srcs = set()

                        def go(x):
                            if isinstance(x, tuple) and x:
                                if x[0] == 'L' and x[1][0] == 'P' and x[1][3]:
                                    q = self.local(f, x[1][1], T, J, K)
                                    if q and q[0] == K:
                                        srcs.add((q[1], x[1][3]))
                                for y in x:
                                    go(y)
                        go(v)
                        n = None
                        if len(a[3]) == 1 and a[3][0][1][0] == 'V' and a[2] == 0:
                            le = loop_extent(f, a[3][0][1][1])
                            if le and le[0] == ('K', 0):
                                n = poly(norm(T(('O', 'mul', le[1], ('K', a[3][0][0]))), J, K))
                        if srcs:
                            s, idx = sorted(srcs, key=repr)[0]
                            if len(srcs) == 1 and idx != a[3]:
                                self.R.v('element-position', f, i, d[1][-1], 'element is taken from another position of the source')
                        if srcs or contains_load(v):        # a constant is no content taken over
                            out.append((d[1], s, n, i, f))
        return out

    def mentions_root(self, e, r):
        if e == r:
            return True
        return isinstance(e, tuple) and any(self.mentions_root(x, r) for x in e if isinstance(x, tuple))

    def local(self, f, e, T, J, K):
        """member whose storage e points to; a local that is stored into a member counts as that member"""
        e0 = e
        while e0[0] == 'P':
            e0 = e0[1]
        e1 = T(e0)
        while e1[0] == 'P':
            e1 = e1[1]
        if e1[0] == 'L':
            pa = path(e1[1])
            if pa and pa[1] and pa[0] in (J, K):
                return pa
        if e0[0] == 'V':
            for i in f.insts():
                if i.o == 'store' and not isinstance(i.a[0], int) and f.ex(i.a[0]) == e0:
                    pa = path(T(f.ex(i.a[1])))
                    if pa and pa[1] and pa[0] == J:
                        return pa
        return None

    def collect_allocs(self, f, J, K, sub=None, depth=0, seen=None):
        """member path -> [(alloc length poly, inst)]"""
        seen = seen if seen is not None else set()
        out = []
        sub = sub or {}
        T = (lambda e: subst(e, sub)) if sub else (lambda e: e)
        for i in f.insts():
            if i.o == 'store' and not isinstance(i.a[0], int):
                pa = path(T(f.ex(i.a[1])))
                if pa and pa[1] and pa[0] == J:
                    v = f.ex(i.a[0])
                    b = v
                    while b[0] == 'P':
                        b = b[1]
                    if b[0] == 'V' and b[1] in f.inst and f.inst[b[1]].o == 'call':
                        ci = f.inst[b[1]]
                        if any(c in ('_Znam', 'malloc', 'calloc') for c in self.p.callees(ci)):
                            n = ci.a[0]
                            e = ('K', n) if isinstance(n, int) else f.ex(n)
                            out.append((pa[1], poly(norm(T(e), J, K)), i, f))
            elif i.o == 'call':
                ex = [('K', a) if isinstance(a, int) else f.ex(a) for a in i.a]
                te = [T(e) for e in ex]
                for c in self.p.callees(i):
                    g = self.p.fns.get(c)
                    if g is None or g.decl or depth > 4 or (c, i.k, i.bb, f.n) in seen:
                        continue
                    if any(self.mentions_root(e, J) for e in te) and any(self.mentions_root(e, K) for e in te):
                        seen.add((c, i.k, i.bb, f.n))
                        out += self.collect_allocs(g, J, K, {x: e for x, e in enumerate(te)}, depth + 1, seen)
        return out


class ValCk:
    def __init__(self, cp, f, J, K):
        self.c = cp; self.f = f; self.J = J; self.K = K; self.p = cp.p; self.final = {}; self.rets = 0

    def memkeep(self, eng, st, a, v):
        return self.isdst(a)

    def isdst(self, a):
        r = root(a)
        return r == self.J or (self.J is None and r[0] == 'V')

    def keepfact(self, eng, st, k):
        return True

    def reskey(self, eng, st):
        return frozenset(st.res.items())

    def call(self, eng, st, n, cs):
        args = [('K', a) if isinstance(a, int) else eng.addr(st, a) for a in n.a]
        eng.havoc(st, n, cs)
        # constructors of a new object: take over the arguments
        g = self.p.fns.get(cs[0]) if len(cs) == 1 else None
        if self.J is None and g is not None and g.cls and g.sn == g.cls and args and root(args[0])[0] == 'V':
            s = self.c.A.summary(g.n, nonnull=False) or {}
            sub = dict(enumerate(args))
            for a, v in s.items():
                if a[0] == 'P':
                    st.mem[subst(a, sub)] = subst(v, sub) if v != ANY else ('?',)
        elif self.J is None and g is not None and not g.decl and args and root(args[0])[0] == 'V' and args[0][0] != 'L':
            s = self.c.A.summary(g.n) or {}
            sub = dict(enumerate(args))
            for a, v in s.items():
                if a[0] == 'P':
                    st.mem[subst(a, sub)] = subst(v, sub) if v != ANY else ('?',)
        if n.i is not None:
            st.env[n.i] = ('V', n.i)
        return [st]

    def ret(self, eng, st, n, v):
        self.rets += 1
        f, R = self.f, self.c.R
        J = self.J
        if J is None:
            if v is None or root(v)[0] != 'V':
                return
            J = root(v)
            ci = f.inst.get(J[1])
            if ci is None or ci.o != 'call' or not any(x in ALLOC for x in self.p.callees(ci)):
                return
        for a, x in st.mem.items():
            if root(a) != J:
                continue
            pa = path(a, self.J is None)
            if not pa or not pa[1]:
                continue
            self.c.nval += 1
            self.judge(eng, st, n, pa[1], a, x)
            self.final.setdefault(pa[1], set()).add(x)
        if self.J is None:
            self.obj = getattr(self, 'obj', {})
            self.obj[J] = set(path(a, self.J is None)[1] for a in st.mem if root(a) == J and path(a, self.J is None))

    def dimension_fact(self, st):
        """the path is restricted by a size of the source (an integer, not a status)"""
        for k in list(st.facts) + [y for x in st.rels for y in (x if not isinstance(x[0], str) else x[2:])]:
            for fl in fields_of(k):
                t = self.p.ftype(fl)
                if t in ('int', 'long', 'unsigned int', 'unsigned long') or (t or '').endswith('int_t'):
                    return True
        return False

    def judge(self, eng, st, n, pth, a, x):
        f, R, c = self.f, self.c.R, self.c
        key = pth[-1]
        src = self.K
        want = norm(a, root(a), src)
        inst = st.trace or n
        base = x
        while base[0] == 'P':
            base = base[1]
        ftype = self.p.ftype(key) or ''
        isptr = ftype.endswith('*')
        if x == ('?',):
            return
        if x[0] in ('K', 'F'):
            if isptr and x == ('K', 0):
                d = eng.domain(st, ('L', want))
                if d == frozenset([0]):
                    return
                if any(k[0] == 'L' and path(k[1]) and path(k[1])[1] == pth and v == frozenset([0]) for k, v in st.facts.items()):
                    return
            if self.J is None:
                return          # constructor defaults of a new object: completeness is checked separately
            if self.dimension_fact(st) or key in WORKSPACE:
                return
            if isptr and any(k[0] == 'L' and path(k[1]) and path(k[1])[1][:-1] == pth[:-1] and v == frozenset([0])
                             and (self.p.ftype(path(k[1])[1][-1]) or '').endswith('*') for k, v in st.facts.items() if path(k[1] if k[0] == 'L' else k)):
                return          # arrays allocated together: a sibling array of the source is absent
            if self.f.sn == self.f.cls and self.has_copy_call():
                return          # initialisation before the copy proper
            R.v('value-lost', f, inst, key, 'member is set to a constant instead of the value of the source')
            return
        if base[0] == 'L':
            nb = norm(base[1], root(base[1]), src) if root(base[1]) == self.J else base[1]
            pb = path(nb)
            if pb and pb[0] == src:
                if pb[1] != pth:
                    R.v('wrong-member', f, inst, key, 'member is filled from %s of the source' % '.'.join(y.split('::')[-1] for y in pb[1]))
                elif isptr and key in c.owned and not self.lent(eng, st, key):
                    R.v('shared', f, inst, key, 'storage owned by the source is shared with the copy')
                return
            fl = fields_of(x)
            if fl and key not in fl:
                R.v('wrong-member', f, inst, key, 'member is filled from %s' % ', '.join(sorted(fl)))
            return
        if base[0] == 'V':
            ci = f.inst.get(base[1])
            if ci is not None and ci.o == 'call':
                cs = self.p.callees(ci)
                if any(y in ALLOC for y in cs):
                    return
                if ci.a and not isinstance(ci.a[0], int):
                    e = eng.fn.ex(ci.a[0])
                    pe = path(e[1]) if e[0] == 'L' else None
                    if pe and pe[0] == src:
                        if pe[1] != pth:
                            R.v('wrong-member', f, inst, key, 'member is a duplicate of %s of the source' % '.'.join(pe[1]))
                        elif not all(self.fresh_result(y) for y in cs):
                            R.v('shared', f, inst, key, 'member is obtained by a call that does not create new storage')
                        return
                return
            return
        fl = fields_of(x)
        if fl and key not in fl and not isptr:
            R.v('wrong-member', f, inst, key, 'member is computed from %s' % ', '.join(sorted(fl)))

    def has_copy_call(self):
        return any(self.c.mustcopy(cc, 0, 1) for i in self.f.calls() for cc in self.p.callees(i)
                   if len(i.a) == 2 and self.f.ex(i.a[0]) == ('A', 0) and self.f.ex(i.a[1]) == ('A', 1))

    def fresh_result(self, name, depth=0):
        g = self.p.fns.get(name)
        if g is None or g.decl:
            return name in ALLOC
        ok = True
        for i in g.insts():
            if i.o == 'ret' and i.a:
                ok &= self.freshv(g, i.a[0], depth, set())
        return ok

    def freshv(self, g, op, depth, seen):
        e = g.ex(op) if not isinstance(op, int) else ('K', op)
        while e[0] == 'P':
            e = e[1]
        if e == ('K', 0):
            return True
        if e[0] == 'S':
            return True
        if e[0] == 'V' and e[1] in g.inst:
            if e in seen:
                return True
            seen.add(e)
            n = g.inst[e[1]]
            if n.o == 'phi':
                return all(self.freshv(g, v, depth, seen) for v, _ in n.ph)
            if n.o == 'call' and depth < 4:
                return all(x in ALLOC or self.fresh_result(x, depth + 1) for x in self.p.callees(n))
        return False

    def lent(self, eng, st, key):
        """the ownership flag of the source says the storage belongs to somebody else"""
        BT = self.p.enum('BooleanType')['BT_TRUE']
        for k, d in st.facts.items():
            if k[0] == 'L' and k[1][0] == 'P' and k[1][4] and 'ree' in k[1][4] and isinstance(d, (frozenset, tuple)):
                if isinstance(d, frozenset) and BT not in d:
                    return True
                if isinstance(d, tuple) and BT in d[3]:
                    return True
        return False


def run(ctx):
    R = Result(['every data member (own, inherited, nested) is transferred on every path of a copy', 'each member comes from the same member of the source',
                'storage the source owns is never shared: a copy gets a new block or a duplicate', 'a new block is filled from the source over its whole length'])
    p = ctx.prog('lib'); R.prog = p
    c = Copies(ctx, R)
    tops = []; dups = []
    for f in p.repo_fns(('src/', 'include/')):
        if not f.cls or f.cls not in p.types:
            continue
        same = f.nargs == 2 and f.argtype_sp(1).replace('const ', '').strip(' &') == f.cls and '&' in f.argtype_sp(1)
        if same and (f.sn == 'operator=' or f.sn == f.cls) and not f.n.endswith(('OS_', 'EOS0_')):
            tops.append(f)
        elif f.nargs == 1 and f.sn in ('duplicate', 'duplicateSym') and f.clskind:
            dups.append(f)
    R.need(len(tops), 'copy constructors and copy assignments', 10)
    R.need(len(dups), 'duplicate methods', 3)
    nm = 0
    missing = {}
    for f in tops:
        got = c.mustcopy(f.n, 0, 1)
        for pth, m in c.leaves(f.cls):
            nm += 1
            if pth in got or any(q and q[0] == '*' and pth[:len(q) - 1] == q[1:] for q in got):
                continue
            if pth[-1] in c.dead or any(k.startswith(x) for k in pth for x in NOCOPY):
                continue
            missing.setdefault((pth, m['n']), []).append(f)
    for (pth, mn), fs in sorted(missing.items(), key=repr):
        # name the smallest class that loses the member
        f = min(fs, key=lambda g: len(p.allbases(g.cls)) * 100 + len(c.leaves(g.cls)))
        R.v('not-copied', f, None, pth[-1], 'member is not transferred on every path')
    done = set()
    for n in sorted(c.nf):
        f = p.fns[n]
        if f.nargs >= 2 and f.cls in p.types and any(f.argtype_sp(1).replace('const ', '').strip(' &') == x for x in [f.cls] + p.allbases(f.cls)):
            c.values(f, 0, 1); done.add(n)
            checkfill(c, R, f, ('A', 0), ('A', 1))
    nd = 0
    for f in dups:
        # methods that only forward to another duplicate method
        ck = c.values(f, None, 0, newobj=True)
        objs = getattr(ck, 'obj', {})
        if not objs:
            inner = [x for i in f.calls() for x in p.callees(i) if x in {g.n for g in dups}]
            if not inner:
                R.v('duplicate-new', f, None, 'result', 'the duplicate is not a new object')
            continue
        nd += 1
        for J, got in objs.items():
            ci = f.inst[J[1]]
            cls = newclass(p, f, ci)
            for pth, m in c.leaves(cls or f.cls):
                nm += 1
                if pth not in got and pth[-1] not in FLAGS and not pth[-1].startswith('_vptr'):
                    R.v('not-copied', f, ci, pth[-1], 'member of the duplicate is not set on every path')
                else:
                    xs = ck.final.get(pth, set())
                    if xs and all(x[0] in ('K', 'F') for x in xs) and (pth[-1] not in FLAGS):
                        R.v('value-lost', f, ci, pth[-1], 'member of the duplicate is a constant instead of the value of the source')
            checkfill(c, R, f, J, ('A', 0), dup=True)
    R.need(nd, 'duplicate methods that create the object', 2)
    R.need(c.nval, 'member values at the end of copies', 100)
    R.cov = {'copy_operations': len(tops), 'duplicate_methods': nd, 'member_obligations': nm, 'member_values_on_paths': c.nval,
             'functions_followed': len(c.nf), 'buffer_fills': c.nfill, 'owned_pointer_members': len(c.owned),
             'explanation': 'Must-dataflow of transferred members through the whole copy call tree, path-sensitive values of each member at every return, symbolic comparison of block lengths with copied lengths.'}
    return R


# progress output of the running solve, reset when a solve starts
# the linear solver behind the Schur complement is an object of its own, assigned through its own operator
NOCOPY = ('TabularOutput::', 'SQProblemSchur::sparseSolver')
FLAGS = {'Matrix::freeMemory'}


def newclass(p, f, ci):
    """class constructed in the block returned by operator new"""
    for i in f.calls():
        if i.a and not isinstance(i.a[0], int) and root(f.ex(i.a[0])) == ('V', ci.i):
            for x in p.callees(i):
                g = p.fns.get(x)
                if g is not None and g.sn == g.cls:
                    return g.cls
    return None


def checkfill(c, R, f, J, K, dup=False):
    al = c.collect_allocs(f, J, K)
    fi = c.collect_fills(f, J, K)
    names = {}
    for pth, n, i, g in al:
        names.setdefault(pth, []).append((n, i, g))
    for pth, xs in names.items():
        if pth[-1] in WORKSPACE:
            continue
        fs = [x for x in fi if x[0] == pth]
        c.nfill += len(fs)
        if not fs:
            R.v('not-filled', xs[0][2], xs[0][1], pth[-1], 'the copy gets new storage but not the contents')
            continue
        for _, src, n, i, g in fs:
            if src is not None and src != pth:
                R.v('wrong-member', g, i, pth[-1], 'contents are taken from %s' % '.'.join(src))
        for n, i, g in xs:
            ok = False; und = False
            for _, src, m, fi_, g2 in fs:
                if m is None:
                    und = True
                    continue
                if m == n or any(fl in USED for k in m for a in k for fl in fields_of(a)) or any('M_jc' in fl for k in m for a in k for fl in fields_of(a)):
                    ok = True
                if m is not None and any(a[0] == 'L' and a[1][0] == 'P' and a[1][3] for k in m for a in k):
                    und = True      # length itself stored in an array (jc[nCols])
                if any(a[0] == 'V' for k in m for a in k) or any(a[0] == 'V' for k in n for a in k):
                    und = True
            if not ok and not und:
                R.v('length', g, i, pth[-1], 'new storage holds %s bytes, %s bytes are copied' % (show(n), ' / '.join(show(m) for _, _, m, _, _ in fs if m is not None)))
