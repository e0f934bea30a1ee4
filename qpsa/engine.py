"""Path-sensitive abstract interpreter over the SSA form (property simulation).

A state is: env (path-resolved SSA values), facts (finite sets / intervals /
exclusions on expressions), rels (truth of comparisons between two unknowns),
mem (values of scalar fields and locals written on this path), epochs (last
clobber of a field), and res (whatever the property tracks).  Branches whose
condition is decided by the state are not followed.  States that agree in res
and in everything that a later branch can observe are merged."""
from .ir import subst, leaves
from .build import AnalysisError

INF = 1 << 62
NEG = {'eq': 'ne', 'ne': 'eq', 'sgt': 'sle', 'sge': 'slt', 'slt': 'sge', 'sle': 'sgt',
       'ugt': 'ule', 'uge': 'ult', 'ult': 'uge', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'sgt': 'slt', 'slt': 'sgt', 'sge': 'sle', 'sle': 'sge',
        'ugt': 'ult', 'ult': 'ugt', 'uge': 'ule', 'ule': 'uge'}
FNEG = {'oeq': 'une', 'une': 'oeq', 'ogt': 'ule', 'ule': 'ogt', 'oge': 'ult', 'ult': 'oge', 'olt': 'uge', 'uge': 'olt',
        'ole': 'ugt', 'ugt': 'ole', 'one': 'ueq', 'ueq': 'one', 'ord': 'uno', 'uno': 'ord'}


# ---- domains: frozenset of ints, or ('I', lo, hi, frozenset excluded)
def d_refine(d, pred, c):
    if d is None:
        d = ('I', -INF, INF, frozenset())
    if isinstance(d, frozenset):
        r = frozenset(x for x in d if _cmp(pred, x, c))
        return r if r else False
    _, lo, hi, ex = d
    p = pred
    if p in ('ult', 'ule', 'ugt', 'uge'):
        p = 's' + p[1:]
        # unsigned compare against a non-negative constant: treat values as non-negative
        lo = max(lo, 0)
        if c < 0:
            return d
    if p == 'eq':
        if lo <= c <= hi and c not in ex:
            return frozenset([c])
        return False
    if p == 'ne':
        ex = ex | {c}
    elif p == 'slt':
        hi = min(hi, c - 1)
    elif p == 'sle':
        hi = min(hi, c)
    elif p == 'sgt':
        lo = max(lo, c + 1)
    elif p == 'sge':
        lo = max(lo, c)
    while lo in ex:
        lo += 1
    while hi in ex:
        hi -= 1
    if lo > hi:
        return False
    if hi - lo <= 8:
        s = frozenset(x for x in range(lo, hi + 1) if x not in ex)
        return s if s else False
    return ('I', lo, hi, frozenset(x for x in ex if lo <= x <= hi))


def _cmp(p, x, c):
    if p == 'eq': return x == c
    if p == 'ne': return x != c
    if p[0] == 'u' and (x < 0 or c < 0):
        x &= (1 << 64) - 1; c &= (1 << 64) - 1
    q = p[1:]
    return {'lt': x < c, 'le': x <= c, 'gt': x > c, 'ge': x >= c}[q]


def d_meet(a, b):
    if a is None: return b
    if b is None: return a
    if isinstance(a, frozenset) and isinstance(b, frozenset):
        r = a & b
        return r if r else False
    if isinstance(b, frozenset):
        a, b = b, a
    if isinstance(a, frozenset):
        r = frozenset(x for x in a if b[1] <= x <= b[2] and x not in b[3])
        return r if r else False
    lo, hi, ex = max(a[1], b[1]), min(a[2], b[2]), a[3] | b[3]
    return ('I', lo, hi, ex) if lo <= hi else False


class State:
    __slots__ = ('env', 'facts', 'rels', 'mem', 'ep', 'res', 'trace')

    def __init__(self):
        self.env = {}; self.facts = {}; self.rels = {}; self.mem = {}; self.ep = {}; self.res = {}; self.trace = None

    def copy(self):
        s = State()
        s.env = dict(self.env); s.facts = dict(self.facts); s.rels = dict(self.rels)
        s.mem = dict(self.mem); s.ep = dict(self.ep); s.res = dict(self.res); s.trace = self.trace
        return s


def contains(e, pred):
    if isinstance(e, tuple):
        if pred(e):
            return True
        for x in e:
            if isinstance(x, tuple) and contains(x, pred):
                return True
    return False


_mention_cache = {}


def mentions(e):
    """set of ('V',i), field keys and args mentioned in e (cached)"""
    r = _mention_cache.get(e)
    if r is None:
        s = set()

        def go(x):
            if not isinstance(x, tuple) or not x:
                return
            if x[0] in ('V', 'A', 'M', 'G'):
                s.add(x[:2]); return
            if x[0] == 'P' and len(x) == 5 and x[4]:
                s.add(x[4])
            if x[0] == 'L' and len(x) == 3:
                s.add(('V', x[2]))
            for y in x:
                if isinstance(y, tuple):
                    go(y)
        go(e)
        r = frozenset(s)
        if len(_mention_cache) > 400000:
            _mention_cache.clear()
        _mention_cache[e] = r
    return r


class Engine:
    """Interprets one function.  Subclass or pass a checker object `ck` with
    optional hooks:
      ck.call(eng, st, inst, callees) -> list of states (default: havoc by effects)
      ck.store(eng, st, inst, addr, val)
      ck.load(eng, st, inst, addr)
      ck.ret(eng, st, inst, val)
      ck.branch(eng, st, inst, cond, taken)
      ck.reskey(st) -> hashable
      ck.memkeep(addr) -> bool     (part of the merge key)
    """
    MAXST = 220

    def __init__(self, prog, fn, ck, effects=None, init=None, maxst=None):
        self.p = prog; self.fn = fn; self.ck = ck; self.eff = effects
        self.steps = 0
        self.init = init
        self.maxst = maxst or self.MAXST
        self.trunc = False
        self._live()
        self._condatoms()

    # -- SSA liveness (ids live-in per block)
    def _uses(self, inst):
        ops = []
        if inst.g:
            def og(g):
                b = g['b']
                if isinstance(b, list): og(b[1])
                else: ops.append(b)
                for _, v in g.get('var', []): ops.append(v)
            og(inst.g)
        for a in inst.a:
            if isinstance(a, list):
                continue
            ops.append(a)
        if inst.c:
            ops.append(inst.c)
        return [int(x[1:]) for x in ops if isinstance(x, str) and x.startswith('%') and x[1:].isdigit()]

    def _live(self):
        fn = self.fn
        n = len(fn.bbs)
        use = [set() for _ in range(n)]; df = [set() for _ in range(n)]
        phiuse = [dict() for _ in range(n)]
        for b, bb in enumerate(fn.bbs):
            for i in bb:
                if i.o == 'phi':
                    for v, pb in i.ph:
                        if isinstance(v, str) and v.startswith('%'):
                            phiuse[b].setdefault(pb, set()).add(int(v[1:]))
                else:
                    for u in self._uses(i):
                        if u not in df[b]:
                            use[b].add(u)
                if i.i is not None:
                    df[b].add(i.i)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                out = set()
                for s in fn.succ[b]:
                    out |= live[s]
                    out |= phiuse[s].get(b, set())
                    # phi results themselves are defined in s
                new = use[b] | (out - df[b])
                # phis defined in b are not live-in
                if new != live[b]:
                    live[b] = new; ch = True
        self.live = live
        # values on which a later branch/return may depend, computed lazily below

    def _condatoms(self):
        """per block: SSA ids (rid) and expression atoms (atoms) on which a branch,
        switch or return at or after the block can depend"""
        fn = self.fn
        nb = len(fn.bbs)
        stores = {}
        for i in fn.insts():
            if i.o == 'store':
                for m in mentions(fn.ex(i.a[1])):
                    if m[0] == 'M' if isinstance(m, tuple) else False:
                        stores.setdefault(m, []).append(i)
        cache = {}

        def slice_ids(op):
            """ids in the backward operand slice of op"""
            if not (isinstance(op, str) and op.startswith('%')):
                if isinstance(op, list):
                    return frozenset()
                return frozenset()
            r0 = int(op[1:])
            if r0 in cache:
                return cache[r0]
            seen = set(); st = [r0]
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                n = fn.inst.get(x)
                if n is None:
                    continue
                if n.o == 'phi':
                    st += [int(v[1:]) for v, _ in n.ph if isinstance(v, str) and v.startswith('%')]
                elif n.o == 'call':
                    # result of a call: arguments matter only for accessors
                    c = n.c
                    if isinstance(c, str) and c.startswith('@') and self.p.getter(c[1:]) is not None:
                        st += self._uses(n)
                    else:
                        st += [u for u in self._uses(n) if fn.inst.get(u) is None or fn.inst[u].o in ('phi', 'call', 'load')]
                else:
                    st += self._uses(n)
                    if n.o == 'alloca':
                        for si in stores.get(('M', x), []):
                            v = si.a[0]
                            if isinstance(v, str) and v.startswith('%'):
                                st.append(int(v[1:]))
            r = frozenset(seen)
            cache[r0] = r
            return r
        extra = getattr(self.ck, 'condops', None)
        own_i = []; own_a = []
        for b, bb in enumerate(fn.bbs):
            ids = set(); at = set()
            t = bb[-1] if bb else None
            ops = []
            if t is not None and t.a and t.o in ('br', 'switch', 'ret'):
                ops.append(t.a[0])
            if extra:
                for i in bb:
                    ops += extra(self, i)
            for op in ops:
                ids |= slice_ids(op)
                at |= mentions(fn.ex(op))
            for i in ids:
                at.add(('V', i))
                n = fn.inst.get(i)
                if n is not None and n.o in ('load', 'icmp', 'fcmp', 'phi', 'alloca'):
                    if n.o == 'phi':
                        for v, _ in n.ph:
                            at |= mentions(fn.ex(v))
                    else:
                        at |= mentions(fn.exid(i))
                elif n is None and i < fn.nargs:
                    at.add(('A', i))
            own_i.append(ids); own_a.append(at)
        ti = [set(x) for x in own_i]; ta = [set(x) for x in own_a]
        st_of = [[] for _ in range(nb)]
        for i in fn.insts():
            if i.o == 'store' and not isinstance(i.a[0], int):
                a = fn.ex(i.a[1])
                k = a[4] if a[0] == 'P' else (a if a[0] in ('M', 'A', 'G') else None)
                if k:
                    st_of[i.bb].append((k, mentions(fn.ex(i.a[0])), slice_ids(i.a[0])))
        ch = True
        while ch:
            ch = False
            for b in range(nb - 1, -1, -1):
                for k, ms, ids in st_of[b]:
                    if k in ta[b] and not (ms <= ta[b] and ids <= ti[b]):
                        ta[b] |= ms; ti[b] |= ids; ch = True
                for s2 in fn.succ[b]:
                    if not ti[s2] <= ti[b]:
                        ti[b] |= ti[s2]; ch = True
                    if not ta[s2] <= ta[b]:
                        ta[b] |= ta[s2]; ch = True
        self.rid = ti; self.atoms = ta
        # literal constants a phi web can hold
        self.lits = {}
        for b, bb in enumerate(fn.bbs):
            for i in bb:
                if i.o != 'phi':
                    break
                seen = set(); st = [i.i]; lit = set()
                while st:
                    x = st.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    n = fn.inst.get(x)
                    if n is None:
                        continue
                    if n.o == 'phi':
                        vs = [v for v, _ in n.ph]
                    elif n.o == 'select':
                        vs = n.a[1:]
                    elif n.o in ('sext', 'zext', 'trunc'):
                        vs = n.a
                    else:
                        continue
                    for v in vs:
                        if isinstance(v, int): lit.add(v)
                        elif v == 'null': lit.add(0)
                        elif isinstance(v, str) and v.startswith('%'): st.append(int(v[1:]))
                self.lits[i.i] = lit

    # -- evaluation
    def val(self, st, op):
        if isinstance(op, int):
            return ('K', op)
        if op == 'null':
            return ('K', 0)
        if isinstance(op, str) and op.startswith('%'):
            return self.valid(st, int(op[1:]))
        return self.fn.ex(op)

    def valid(self, st, i):
        v = st.env.get(i)
        if v is not None:
            return v
        if i < self.fn.nargs:
            return ('A', i)
        return ('V', i)

    def compute(self, st, n):
        """expression of instruction n from operand values in st"""
        o = n.o
        if o == 'getelementptr':
            return self.gep(st, n.g)
        if o in ('sext', 'zext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
            return self.val(st, n.a[0])
        if o in ('add', 'mul', 'and', 'or', 'xor'):
            a, b = self.val(st, n.a[0]), self.val(st, n.a[1])
            if a[0] == 'K' and b[0] == 'K':
                f = {'add': lambda x, y: x + y, 'mul': lambda x, y: x * y, 'and': lambda x, y: x & y,
                     'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y}[o]
                return ('K', f(a[1], b[1]))
            if o == 'xor' and n.t == 'i1' and ('K', 1) in (a, b):
                x = a if b == ('K', 1) else b
                return self.negcond(x)
            if repr(a) > repr(b):
                a, b = b, a
            return self.bound(('O', o, a, b), n)
        if o in ('sub', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'ashr', 'lshr'):
            a, b = self.val(st, n.a[0]), self.val(st, n.a[1])
            if a[0] == 'K' and b[0] == 'K' and o == 'sub':
                return ('K', a[1] - b[1])
            return self.bound(('O', o, a, b), n)
        if o in ('icmp', 'fcmp'):
            return ('C', n.p, self.val(st, n.a[0]), self.val(st, n.a[1]))
        if o == 'select':
            c = self.val(st, n.a[0])
            d = self.decide(st, c)
            if d is True: return self.val(st, n.a[1])
            if d is False: return self.val(st, n.a[2])
            return self.bound(('S', c, self.val(st, n.a[1]), self.val(st, n.a[2])), n)
        if o == 'extractvalue':
            return self.bound(self.fn.exid(n.i), n) if False else ('V', n.i)
        if o == 'alloca':
            return ('M', n.i)
        return ('V', n.i)

    def bound(self, e, n):
        # keep expressions small: deep ones become opaque
        if depth(e) > 7:
            return ('V', n.i)
        return e

    def negcond(self, x):
        if x[0] == 'C':
            p = NEG.get(x[1]) or FNEG.get(x[1])
            if p:
                return ('C', p, x[2], x[3])
        return ('C', 'eq', x, ('K', 0))

    def gep(self, st, g):
        b = g['b']
        b = self.gep(st, b[1]) if isinstance(b, list) else self.val(st, b)
        off = g['off']
        var = tuple((s, self.val(st, v)) for s, v in g.get('var', []))
        sp = g.get('sp')
        if sp:
            key = self.p.fieldkey(*sp[-1])
            if key == 'UPCAST':
                if off == 0 and not var:
                    return b
                return ('P', b, off, var, 'up:' + sp[-1][0])
            return ('P', b, off if key is None else 0, var, key)
        if off == 0 and not var:
            return b
        return ('P', b, off, var, None)

    def domain(self, st, e):
        if e[0] == 'K':
            return frozenset([e[1]])
        d = st.facts.get(e)
        if d is None and e[0] in ('M', 'G'):
            return ('I', 1, INF, frozenset())
        if d is None and e[0] == 'P':
            b = e
            while b[0] == 'P':
                b = b[1]
            if b[0] in ('M', 'G'):
                return ('I', 1, INF, frozenset())
            if e[4] or e[3] == ():
                return self.domain(st, e[1])  # address of a member: null only if base null (offset 0)
            bd = self.domain(st, e[1])
            if bd is not None and d_refine(bd, 'eq', 0) is False:
                return ('I', 1, INF, frozenset())   # inside a block
        if d is None and e[0] == 'S':
            a, b = self.domain(st, e[2]), self.domain(st, e[3])
            if isinstance(a, frozenset) and isinstance(b, frozenset):
                return a | b
        if d is None and e[0] == 'C':
            return frozenset([0, 1])
        return d

    def decide(self, st, c):
        """True/False/None"""
        if c[0] == 'K':
            return c[1] != 0
        if c[0] == 'C':
            p, a, b = c[1], c[2], c[3]
            if p in FNEG and p not in NEG:
                if a == b and a[0] in ('L', 'V'):
                    if p in ('ogt', 'olt', 'one'):
                        return False
                    if p in ('uge', 'ule', 'ueq'):
                        return True
                    if getattr(self.ck, 'nonan', False):
                        return p in ('oge', 'ole', 'oeq')
                return st.rels.get(('C', p, a, b))
            if b[0] == 'K' or a[0] == 'K':
                if a[0] == 'K' and b[0] == 'K':
                    return _cmp(p, a[1], b[1])
                if a[0] == 'K':
                    a, b, p = b, a, SWAP[p]
                if a[0] == 'C' and b[1] == 0 and p in ('eq', 'ne'):
                    r = self.decide(st, a)
                    return None if r is None else ((not r) if p == 'eq' else r)
                d = self.domain(st, a)
                if d is None:
                    return self.relq(st, p, a, b)
                if d_refine(d, NEG[p], b[1]) is False:
                    return True
                if d_refine(d, p, b[1]) is False:
                    return False
                return None
            if a == b:
                return p in ('eq', 'sle', 'sge', 'ule', 'uge')
            da, db = self.domain(st, a), self.domain(st, b)
            if isinstance(da, frozenset) and isinstance(db, frozenset) and len(da) <= 4 and len(db) <= 4:
                rs = {_cmp(p, x, y) for x in da for y in db}
                if len(rs) == 1:
                    return rs.pop()
            return self.relq(st, p, a, b)
        d = st.facts.get(c)
        if d is not None:
            if d_refine(d, 'ne', 0) is False: return False
            if d_refine(d, 'eq', 0) is False: return True
        return None

    def relkey(self, p, a, b):
        if p[0] == 'u' and p not in ('ueq', 'une', 'uno'):
            p = 's' + p[1:]
        if repr(a) > repr(b):
            a, b, p = b, a, SWAP[p]
        return p, a, b

    IMPL = {'eq': {'sle': True, 'sge': True, 'ne': False, 'slt': False, 'sgt': False, 'eq': True},
            'slt': {'sle': True, 'ne': True, 'eq': False, 'sgt': False, 'sge': False, 'slt': True},
            'sgt': {'sge': True, 'ne': True, 'eq': False, 'slt': False, 'sle': False, 'sgt': True},
            'sle': {'sgt': False, 'sle': True}, 'sge': {'slt': False, 'sge': True},
            'ne': {'eq': False, 'ne': True}}

    def relq(self, st, p, a, b):
        p, a, b = self.relkey(p, a, b)
        q = st.rels.get((a, b))
        if q is None:
            return None
        return self.IMPL[q].get(p)

    def assume(self, st, c, truth):
        """refine st; False if infeasible"""
        if c[0] == 'K':
            return (c[1] != 0) == truth
        if c[0] == 'C':
            p, a, b = c[1], c[2], c[3]
            if p in FNEG and p not in NEG:
                st.rels[('C', p, a, b)] = truth
                st.rels[('C', FNEG[p], a, b)] = not truth
                return True
            if not truth:
                p = NEG.get(p) or FNEG[p]
            if a[0] == 'K' and b[0] != 'K':
                a, b, p = b, a, SWAP[p]
            if b[0] == 'K':
                if a[0] == 'K':
                    return _cmp(p, a[1], b[1])
                if a[0] == 'C' and b[1] == 0 and p in ('eq', 'ne'):
                    return self.assume(st, a, p == 'ne')
                d = d_refine(self.domain(st, a), p, b[1])
                if d is False:
                    return False
                st.facts[a] = d
                return self.derive(st, a, d)
            k = self.relkey(p, a, b)
            old = st.rels.get((k[1], k[2]))
            if old is not None:
                r = self.IMPL[old].get(k[0])
                if r is False:
                    return False
                if r is True:
                    return True
                if {old, k[0]} == {'sle', 'sge'}: k = ('eq',) + k[1:]
                elif {old, k[0]} == {'sle', 'ne'}: k = ('slt',) + k[1:]
                elif {old, k[0]} == {'sge', 'ne'}: k = ('sgt',) + k[1:]
            st.rels[(k[1], k[2])] = k[0]
            return True
        d = d_refine(self.domain(st, c), 'ne' if truth else 'eq', 0)
        if d is False:
            return False
        st.facts[c] = d
        return True

    def derive(self, st, a, d):
        if a[0] == 'S':
            # value of a select fixed to one arm decides its condition
            da, db = self.domain(st, a[2]), self.domain(st, a[3])
            if da is not None and d_meet(da, d) is False:
                return self.assume(st, a[1], False)
            if db is not None and d_meet(db, d) is False:
                return self.assume(st, a[1], True)
        return True

    # -- memory
    def epoch_of(self, st, addr):
        key = addr[4] if addr[0] == 'P' else None
        root = addr
        if key:
            return st.ep.get(key)
        return None

    def isscalaraddr(self, addr):
        """addresses whose content we track"""
        if addr[0] in ('M', 'A', 'G'):
            return True
        if addr[0] == 'P' and addr[4] and not addr[3]:
            return True
        if addr[0] == 'L':      # pointer-valued content (out-parameters behind a field / local)
            return True
        return False

    def load(self, st, n, addr):
        if not self.isscalaraddr(addr):
            return ('V', n.i)
        v = st.mem.get(addr)
        if v is not None:
            return v
        if addr[0] == 'P':
            e = st.ep.get(addr[4])
            base_local = self.rootlocal(addr)
            if e is None:
                return ('L', addr)
            v = ('L', addr, e)
            return v
        if addr[0] == 'A':
            return ('L', addr, st.ep.get(addr)) if st.ep.get(addr) is not None else ('L', addr)
        if addr[0] == 'G':
            g = self.p.globals.get(addr[1])
            return ('L', addr) if g and g['const'] else ('V', n.i)
        v = ('V', n.i)
        if addr[0] == 'M':
            st.mem[addr] = v
        return v

    def rootlocal(self, addr):
        b = addr
        while b[0] == 'P':
            b = b[1]
        return b[0] == 'M'

    def store(self, st, n, addr, v):
        if not self.isscalaraddr(addr):
            return
        if addr[0] == 'P':
            key = addr[4]
            # may-alias: same field of another object
            if not self.rootlocal(addr):
                for a in [a for a in st.mem if a[0] == 'P' and a[4] == key and a != addr and not self.rootlocal(a) and self.mayalias(a, addr)]:
                    del st.mem[a]
        st.mem[addr] = v

    def mayalias(self, a, b):
        # `this` and a reference/pointer argument of copy operations are distinct objects;
        # different access paths from the same root are distinct sub-objects
        return False

    def clobber_fields(self, st, keys, eid):
        for k in keys:
            st.ep[k] = eid
        for a in [a for a in st.mem if a[0] == 'P' and a[4] in keys]:
            del st.mem[a]

    def forget_value(self, st, i):
        """SSA value i is about to be redefined (loop): rename stale mentions"""
        m = ('V', i)
        for k in [k for k in st.facts if m in mentions(k)]:
            del st.facts[k]
        if st.rels:
            for k in [k for k in st.rels if m in self._relm(k)]:
                del st.rels[k]
        for d in (st.env, st.mem):
            for k in list(d):
                if k == i and d is st.env:
                    continue
                if m in mentions(d[k]) and d[k] != m:
                    d[k] = ('V', k if isinstance(k, int) else i)

    # -- main loop
    def run(self):
        fn = self.fn
        st0 = State()
        if self.init:
            self.init(self, st0)
        hook = getattr(self.ck, 'entry', None)
        if hook:
            hook(self, st0)
        self.visited = {}
        order = {b: k for k, b in enumerate(fn.rpo)}
        import heapq
        heap = []; cnt = 0
        heapq.heappush(heap, (0, 0, 0, -1, st0))
        self.counts = {}
        while heap:
            _, _, b, pb, st = heapq.heappop(heap)
            st = self.enter(st, b, pb)
            if st is None:
                continue
            key = self.key(st, b)
            vs = self.visited.setdefault(b, set())
            if key in vs:
                continue
            if len(vs) > self.maxst:
                self.trunc = True
                self.widen(st, b, len(vs) > 2 * self.maxst)
                key = ('W',) + self.key(st, b)
                if key in vs:
                    continue
            vs.add(key)
            for nb, s in self.block(st, b):
                t = fn.bbs[b]
                for x in reversed(t):
                    if x.l and x.o not in ('phi',):
                        s.trace = x
                        break
                cnt += 1
                heapq.heappush(heap, (order.get(nb, 0), cnt, nb, b, s))
        return self

    def widen(self, st, b, hard):
        st.facts = {k: v for k, v in st.facts.items() if (k[0] == 'V' and isinstance(v, frozenset)) or self.ck_keepfact(st, k)}
        st.rels = {}
        if hard:
            ek = getattr(self.ck, 'envkeep', None)
            mk = getattr(self.ck, 'memkeep', None)
            for i in list(st.env):
                v = st.env[i]
                if v[0] in ('K', 'A', 'M') or (ek and ek(self, st, i, v) is not None):
                    continue
                d = self.domain(st, v)
                st.env[i] = ('V', i)
                if isinstance(d, frozenset):
                    st.facts[('V', i)] = d
            st.mem = {a: v for a, v in st.mem.items() if (mk and mk(self, st, a, v))}
            st.ep = {k: 0 for k in self.atoms[b] if isinstance(k, str)}
            live = self.live[b] | {i.i for i in self.fn.bbs[b] if i.o == 'phi'}
            st.facts = {k: v for k, v in st.facts.items() if k[0] == 'V' and k[1] in live or self.ck_keepfact(st, k)}

    def ck_keepfact(self, st, k):
        f = getattr(self.ck, 'keepfact', None)
        return f(self, st, k) if f else False

    def enter(self, st, b, pb):
        fn = self.fn
        st = st.copy()
        upd = {}
        loops = fn.loops
        back = b in loops and pb in loops[b]
        for i in fn.bbs[b]:
            if i.o != 'phi':
                break
            for v, p in i.ph:
                if p == pb:
                    x = self.val(st, v)
                    break
            else:
                x = ('V', i.i)
            if (i.t == 'double' and not (x[0] == 'L' and getattr(self.ck, 'floatphi', False))) or (back and not self.simple(st, x, i.i)):
                x = ('V', i.i)
            upd[i.i] = x
        if back:
            for i, x in upd.items():
                self.forget_value(st, i)
            for j, (a, v) in enumerate(sorted(((a, v) for a, v in st.mem.items() if v[0] in ('O', 'S')), key=repr)):
                nv = ('V', -100000 - 100 * b - j)
                st.mem[a] = nv
                for k in [k for k in st.facts if nv in mentions(k)]:
                    del st.facts[k]
                for k in [k for k in st.rels if nv in self._relm(k)]:
                    del st.rels[k]
        lv = self.live[b]
        st.env = {i: v for i, v in st.env.items() if i in lv}
        st.env.update(upd)
        pr = getattr(self.ck, 'prune', None)
        if pr:
            pr(self, st)
        return st

    def simple(self, st, x, phi):
        if x[0] == 'K':
            return x[1] in self.lits[phi]
        if x[0] in ('A', 'M', 'G'):
            return True
        if x[0] == 'V':
            return True
        if x[0] == 'L':
            return True
        return False

    def key(self, st, b):
        live = self.live[b]
        rid = self.rid[b]
        env = []
        refs = set()
        ek = getattr(self.ck, 'envkeep', None)
        cand = list(live)
        for i in self.fn.bbs[b]:
            if i.o != 'phi':
                break
            cand.append(i.i)
        for i in cand:
            v = st.env.get(i)
            if v is None:
                continue
            if i in rid:
                env.append((i, v)); refs |= mentions(v)
            elif ek:
                x = ek(self, st, i, v)
                if x is not None:
                    env.append((i, x))
        at = self.atoms[b]
        keep = at | refs
        mk = getattr(self.ck, 'memkeep', None)
        mem = [(a, v) for a, v in st.mem.items() if (mk and mk(self, st, a, v)) or (mentions(a) & at and (a[0] != 'P' or a[4] in at))]
        for a, v in mem:
            keep = keep | mentions(v)
        lv = set(cand)
        for a, v in mem:
            refs |= mentions(v)

        def ok(ms):
            for m in ms:
                if m not in keep:
                    return False
                if isinstance(m, tuple) and m[0] == 'V' and m[1] not in lv and m not in refs:
                    return False
            return True
        facts = [(k, v) for k, v in st.facts.items() if ok(mentions(k))]
        rels = [(k, v) for k, v in st.rels.items() if ok(self._relm(k))]
        if len(facts) < len(st.facts):
            kept = {k: v for k, v in st.facts.items() if self.ck_keepfact(st, k)}
            kept.update(facts)
            st.facts = kept
            if getattr(self.ck, 'keepkey', True):
                facts = list(kept.items())
            st.rels = dict(rels)
        ep = [(k, v) for k, v in st.ep.items() if k in at]
        rk = self.ck.reskey(self, st) if hasattr(self.ck, 'reskey') else frozenset(st.res.items())
        return (frozenset(env), frozenset(facts), frozenset(rels), frozenset(mem), frozenset(ep), rk)

    def _relm(self, k):
        if isinstance(k[0], str):
            return mentions(k)
        return mentions(k[0]) | mentions(k[1])

    def block(self, st, b):
        states = [st]
        bb = self.fn.bbs[b]
        for n in bb:
            if n.o == 'phi':
                continue
            if not states:
                return
            out = []
            for s in states:
                self.steps += 1
                r = self.step(s, n)
                if r is None:
                    out.append(s)
                else:
                    out.extend(r)
            if n.o in ('br', 'switch'):
                for nb, s in self.branch(out, n):
                    yield nb, s
                return
            if n.o in ('ret', 'unreachable'):
                return
            if len(out) > 64:
                seen = set(); o2 = []
                for s in out:
                    k = self.key(s, b)
                    if k not in seen:
                        seen.add(k); o2.append(s)
                out = o2
            states = out

    def branch(self, states, n):
        for s in states:
            if n.o == 'br':
                if not n.a or len(n.s) == 1:
                    yield n.s[0], s
                    continue
                c = self.val(s, n.a[0])
                d = self.decide(s, c)
                hook = getattr(self.ck, 'branch', None)
                for truth, nb in ((True, n.s[0]), (False, n.s[1])):
                    if d is not None and d != truth:
                        continue
                    s2 = s.copy()
                    if d is None and not self.assume(s2, c, truth):
                        continue
                    if hook and hook(self, s2, n, c, truth) is False:
                        continue
                    yield nb, s2
            else:
                v = self.val(s, n.a[0])
                excl = []
                dom = self.domain(s, v)
                for cv, nb in n.cs:
                    if v[0] == 'K':
                        if v[1] == cv:
                            yield nb, s.copy(); excl = None
                            break
                        continue
                    d = d_refine(dom, 'eq', cv)
                    excl.append(cv)
                    if d is False:
                        continue
                    s2 = s.copy()
                    s2.facts[v] = d
                    if self.derive(s2, v, d) is False:
                        continue
                    yield nb, s2
                if excl is not None:
                    d = dom
                    if v[0] != 'K':
                        for cv in excl:
                            d = d_refine(d, 'ne', cv)
                            if d is False:
                                break
                    if d is not False:
                        s2 = s.copy()
                        if d is not None and v[0] != 'K':
                            s2.facts[v] = d
                        yield n.df, s2

    def step(self, st, n):
        o = n.o
        ck = self.ck
        if o in ('br', 'switch', 'unreachable'):
            return None
        if o == 'ret':
            v = self.val(st, n.a[0]) if n.a else None
            h = getattr(ck, 'ret', None)
            if h:
                h(self, st, n, v)
            return None
        if o == 'store':
            v = self.val(st, n.a[0]); addr = self.addr(st, n.a[1])
            h = getattr(ck, 'store', None)
            if h and h(self, st, n, addr, v) is False:
                return []
            self.store(st, n, addr, v)
            return None
        if o == 'load':
            addr = self.addr(st, n.a[0])
            h = getattr(ck, 'load', None)
            if h and h(self, st, n, addr) is False:
                return []
            if n.i in st.env:
                pass
            v = self.load(st, n, addr)
            if v == ('V', n.i):
                self.forget_value(st, n.i)
            st.env[n.i] = v
            return None
        if o in ('call', 'invoke'):
            return self.call(st, n)
        if n.i is not None:
            v = self.compute(st, n)
            if v == ('V', n.i) and n.i in st.env:
                self.forget_value(st, n.i)
            st.env[n.i] = v
        return None

    def addr(self, st, op):
        if isinstance(op, list):
            return self.gep(st, op[1])
        return self.val(st, op)

    def call(self, st, n):
        ck = self.ck
        p = self.p
        cs = p.callees(n)
        c = n.c
        if n.i is not None:
            if n.i in st.env or True:
                self.forget_value(st, n.i)
        # accessors read through the memory model
        if len(cs) == 1:
            g = p.getter(cs[0])
            if g is not None and len(n.a) == 1:
                e = subst(g, {0: self.val(st, n.a[0])})
                h = getattr(ck, 'getter', None)
                if h and h(self, st, n, e) is False:
                    return []
                st.env[n.i] = self.reload(st, e, n)
                return None
        h = getattr(ck, 'call', None)
        if h:
            r = h(self, st, n, cs)
            if r is not None:
                return r
        self.havoc(st, n, cs)
        if n.i is not None:
            st.env[n.i] = ('V', n.i)
        return None

    def reload(self, st, e, n):
        """value of an accessor expression in the current memory"""
        if not isinstance(e, tuple):
            return e
        if e[0] == 'L':
            a = self.reload(st, e[1], n)
            if not self.isscalaraddr(a):
                return ('V', n.i)
            v = st.mem.get(a)
            if v is not None:
                return v
            if a[0] == 'P' and st.ep.get(a[4]) is not None:
                return ('L', a, st.ep[a[4]])
            return ('L', a)
        if e[0] == 'P':
            return ('P', self.reload(st, e[1], n)) + e[2:]
        if e[0] == 'O':
            return ('O', e[1]) + tuple(self.reload(st, x, n) for x in e[2:])
        return e

    def havoc(self, st, n, cs):
        """effects of an unknown/summarised call on tracked memory"""
        keys = set()
        if self.eff is not None:
            for c in cs:
                keys |= self.eff.writes(c)
        eid = n.i if n.i is not None else ('c', n.bb, n.k)
        if keys:
            self.clobber_fields(st, keys, eid)
        # memory reachable through pointer arguments to locals / out-parameters
        for a in n.a:
            if isinstance(a, int):
                continue
            v = self.addr(st, a) if isinstance(a, list) else self.val(st, a)
            if v[0] in ('M', 'A') and self.mayoutwrite(n, cs, a):
                st.mem.pop(v, None)
                if v[0] == 'A':
                    st.ep[v] = eid
                else:
                    st.mem[v] = ('V', n.i if n.i is not None else -1 - n.k, v[1])
                    self._dropfacts(st, st.mem[v])

    def _dropfacts(self, st, v):
        for d in (st.facts,):
            for k in [k for k in d if contains(k, lambda e: e == v)]:
                del d[k]

    def mayoutwrite(self, n, cs, a):
        if self.eff is None:
            return True
        k = n.a.index(a)
        return any(self.eff.outwrite(c, k) for c in cs) if cs else True


def depth(e):
    if not isinstance(e, tuple):
        return 0
    return 1 + max((depth(x) for x in e if isinstance(x, tuple)), default=0)
