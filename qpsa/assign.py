"""Definite-assignment summaries: which locations relative to the arguments does a
function assign on every path to a return, and with which constant (or expression
over the arguments) if that is the same on all paths.  Forward intersection
dataflow, bottom-up over calls; optional constant arguments prune branches."""
from .effects import root
from .ir import subst

ANY = ('?',)


class Assign:
    def __init__(self, prog):
        self.p = prog; self.memo = {}

    def summary(self, name, consts=(), depth=0, nonnull=True):
        """dict address expr over ('A',k) -> value expr or ANY; None when unknown or no return"""
        k = (name, tuple(sorted(consts)), nonnull)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = {}
        f = self.p.fns.get(name)
        r = {}
        if f is not None and not f.decl and depth < 12:
            r = self.flow(f, dict(consts), depth, nonnull)
        self.memo[k] = r
        return r

    def const(self, e, consts):
        """truth / value of an expression under the constant arguments"""
        if e[0] == 'K':
            return e[1]
        if e[0] == 'A' and e[1] in consts:
            return consts[e[1]]
        if e[0] == 'C':
            a, b = self.const(e[2], consts), self.const(e[3], consts)
            if a is None or b is None:
                if e[1] in ('eq', 'ne') and e[2] != e[3]:
                    x, y = root(e[2]), root(e[3])
                    if x[0] == 'A' and y[0] == 'A' and x[1] != y[1] and {x[1], y[1]} <= consts.get('ptrs', set()):
                        return int(e[1] == 'ne')        # two different objects
                if e[1] in ('eq', 'ne') and consts.get('nonnull'):
                    for x, y in ((e[2], e[3]), (e[3], e[2])):
                        if x[0] == 'A' and y == ('K', 0):
                            return int(e[1] == 'ne')
                return None
            p = e[1]
            return int({'eq': a == b, 'ne': a != b, 'sgt': a > b, 'sge': a >= b, 'slt': a < b, 'sle': a <= b,
                        'ugt': a > b, 'uge': a >= b, 'ult': a < b, 'ule': a <= b}.get(p, None)) if p in (
                'eq', 'ne', 'sgt', 'sge', 'slt', 'sle', 'ugt', 'uge', 'ult', 'ule') else None
        if e[0] == 'O' and e[1] in ('and', 'or', 'xor') and len(e) == 4:
            a, b = self.const(e[2], consts), self.const(e[3], consts)
            if e[1] == 'and' and (a == 0 or b == 0): return 0
            if e[1] == 'or' and (a == 1 or b == 1): return 1
            if a is None or b is None: return None
            return {'and': a & b, 'or': a | b, 'xor': a ^ b}[e[1]]
        return None

    def flow(self, f, consts, depth, nonnull):
        if nonnull:
            consts['nonnull'] = True
        consts['ptrs'] = {j for j, t in enumerate(f.atypes) if t in ('ptr', 'sret')}
        inn = {0: {}}
        work = [0]; exits = []
        outs = {}
        order = {b: k for k, b in enumerate(f.rpo)}
        edges_seen = {}
        while work:
            work.sort(key=lambda b: -order.get(b, 0))
            b = work.pop()
            cur = dict(inn[b])
            for i in f.bbs[b]:
                self.transfer(f, i, cur, depth, consts)
            t = f.bbs[b][-1]
            if t.o == 'ret':
                outs[b] = cur
                continue
            succ = list(f.succ[b])
            if t.o == 'br' and t.a and len(t.s) == 2:
                c = self.phiconst(f, t.a[0], consts, edges_seen, b)
                if c is not None:
                    succ = [t.s[0] if c else t.s[1]]
            elif t.o == 'switch':
                c = self.const(f.ex(t.a[0]), consts)
                if c is not None:
                    succ = [next((nb for cv, nb in t.cs if cv == c), t.df)]
            for s in succ:
                edges_seen.setdefault(s, set()).add(b)
                if s not in inn:
                    inn[s] = dict(cur); work.append(s)
                else:
                    m = self.merge(inn[s], cur)
                    if m != inn[s]:
                        inn[s] = m
                        if s not in work:
                            work.append(s)
        r = None
        for o in outs.values():
            r = o if r is None else self.merge(r, o)
        return r if r is not None else None

    def phiconst(self, f, op, consts, edges, b):
        e = f.ex(op)
        c = self.const(e, consts)
        if c is not None:
            return c
        if isinstance(op, str) and op.startswith('%'):
            n = f.inst.get(int(op[1:]))
            if n is not None and n.o == 'phi':
                vs = set()
                for v, pb in n.ph:
                    if pb in edges.get(n.bb, ()):
                        vs.add(self.const(f.ex(v), consts))
                if len(vs) == 1:
                    return vs.pop()
        return None

    @staticmethod
    def merge(a, b):
        return {k: (v if b[k] == v else ANY) for k, v in a.items() if k in b}

    def value(self, f, op, cur):
        e = f.ex(op)
        return self.norm(e, cur)

    def norm(self, e, cur):
        if e[0] in ('K', 'F', 'A'):
            return e
        if e[0] == 'L':
            if e[1] in cur:
                return cur[e[1]]
            if root(e[1])[0] == 'A':
                return e
            if e[1][0] == 'G':
                return e
        if e[0] == 'S':
            a, b = self.norm(e[2], cur), self.norm(e[3], cur)
            return a if a == b else ANY
        if e[0] == 'O':
            xs = [self.norm(x, cur) for x in e[2:]]
            if ANY not in xs:
                return ('O', e[1]) + tuple(xs)
        if e[0] == 'P' and root(e)[0] == 'A' and not e[3]:
            return e
        return ANY

    def transfer(self, f, i, cur, depth, consts):
        if i.o == 'store':
            a = f.ex(i.a[1])
            r = root(a)
            if r[0] == 'A' or r[0] == 'M' or r[0] == 'V':
                cur[a] = self.value(f, i.a[0], cur)
        elif i.o in ('call', 'invoke'):
            c = self.p.callees(i)
            if not c:
                return
            if len(c) == 1 and (c[0].startswith('llvm.memset') or c[0].startswith('llvm.memcpy') or c[0].startswith('llvm.memmove')):
                a = f.ex(i.a[0])
                src = f.ex(i.a[1]) if 'memset' not in c[0] else None
                cur[('ALL', a)] = ('from', src) if src is not None else ANY
                for k in [k for k in cur if k[0] == 'P' and self.under(k, a)]:
                    cur[k] = ANY
                return
            rs = []
            for n in c:
                cs = {}
                for j, x in enumerate(i.a):
                    if isinstance(x, int):
                        cs[j] = x
                    else:
                        v = self.const(f.ex(x), consts)
                        if v is not None and f.ex(x)[0] != 'C':
                            cs[j] = v
                s = self.summary(n, tuple(cs.items()), depth + 1) if n in self.p.fns and not self.p.fns[n].decl else {}
                rs.append(s or {})
            m = rs[0]
            for x in rs[1:]:
                m = self.merge(m, x)
            sub = {j: f.ex(x) for j, x in enumerate(i.a)}
            for k, v in m.items():
                if k[0] == 'ALL':
                    cur[('ALL', subst(k[1], sub))] = ('from', subst(v[1], sub)) if v and v[0] == 'from' and v[1] else ANY
                    continue
                kk = subst(k, sub)
                if root(kk)[0] in ('A', 'M', 'V'):
                    cur[kk] = self.norm(subst(v, sub), cur) if v != ANY else ANY

    @staticmethod
    def under(k, a):
        while k[0] == 'P':
            if k == a:
                return True
            k = k[1]
        return k == a

    def assigned(self, summ, addr):
        """is addr definitely assigned according to a summary"""
        if addr in summ:
            return True
        for k in summ:
            if k[0] == 'ALL' and self.under(addr, k[1]):
                return True
        return False
