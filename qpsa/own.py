"""Ownership of heap blocks and file handles held in local variables.

Path-sensitive typestate per allocation: O (owned by this activation), E (handed
over: stored in an object, returned, captured by a callee), F (released).  Rules:
 leak         an O resource at a function exit, or overwritten in a loop
 double       release of an F resource
 mismatch     new/delete[] , new[]/delete, fopen/free ... pairs that do not match
 useafter     load/store/call through an F resource
 borrowed     an object receives a pointer that is released before the object (escape then release)
Callee summaries: released parameters, captured parameters, fresh results,
fresh out-parameters correlated with the returned code."""
from .engine import Engine, State, contains, mentions, d_refine, INF
from .effects import root
from .ir import leaves
from .build import AnalysisError

ALLOC = {'_Znam': 'new[]', '_Znwm': 'new', 'malloc': 'malloc', 'calloc': 'malloc', 'fopen': 'file', 'realloc': 'malloc',
         'strdup': 'malloc', 'tmpfile': 'file'}
FREE = {'_ZdaPv': 'new[]', '_ZdaPvm': 'new[]', '_ZdlPv': 'new', '_ZdlPvm': 'new', 'free': 'malloc', 'fclose': 'file', 'cfree': 'malloc'}
# array cookies: new T[n] of class type returns base+8
NEVERNULL = {'new[]', 'new'}


class Own:
    def __init__(self, prog, eff, rv):
        self.p = prog; self.eff = eff; self.rv = rv
        self.maxst = 150; self.verbose = False
        self.cap = {}; self.fr = {}; self.retalias = {}
        self._capture()
        self.outc = {}        # fn -> outcomes [(retset, {'ret':kind or None, param:kind})]
        self.viol = []
        self.stats = {'functions': 0, 'allocation_sites': 0, 'release_sites': 0, 'paths_to_exit': 0, 'steps': 0, 'widened': []}
        self.sites = set(); self.rel = set()

    def inrepo(self, c):
        f = self.p.fns.get(c)
        return f is not None and not f.file.startswith('/usr')

    # ---- flow-insensitive parameter summaries
    def isdeldtor(self, c):
        f = self.p.fns.get(c)
        return c.endswith('D0Ev')

    def _capture(self):
        p = self.p
        derived = {}
        for f in p.fns.values():
            if f.decl:
                continue
            self.cap[f.n] = set(); self.fr[f.n] = set(); self.retalias[f.n] = set()
        ch = True
        # derived values per function and param, once
        for f in p.fns.values():
            if f.decl:
                continue
            dd = {}
            for k in range(f.nargs):
                d = {k}; am = set(); grew = True
                while grew:
                    grew = False
                    for i in f.insts():
                        if i.i is None or i.i in d:
                            if i.o == 'store' and self._id(i.a[0]) in d:
                                e = f.ex(i.a[1])
                                if e[0] == 'M' and e not in am:
                                    am.add(e); grew = True
                            continue
                        hit = False
                        if i.o == 'phi':
                            hit = any(self._id(v) in d for v, _ in i.ph)
                        elif i.o == 'select':
                            hit = any(self._id(v) in d for v in i.a[1:])
                        elif i.o in ('bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
                            hit = self._id(i.a[0]) in d
                        elif i.o == 'getelementptr':
                            hit = isinstance(i.g['b'], str) and self._id(i.g['b']) in d
                        elif i.o == 'load':
                            hit = f.ex(i.a[0]) in am and f.ex(i.a[0])[0] == 'M'
                        if hit:
                            d.add(i.i); grew = True
                dd[k] = d
            derived[f.n] = dd
        self.derived = derived
        while ch:
            ch = False
            for f in p.fns.values():
                if f.decl:
                    continue
                for k in range(f.nargs):
                    if f.atypes[k] not in ('ptr', 'sret'):
                        continue
                    d = derived[f.n][k]
                    for i in f.insts():
                        if i.o == 'store' and self._id(i.a[0]) in d:
                            e = f.ex(i.a[1])
                            if e[0] != 'M' and k not in self.cap[f.n] and i.vt == 'ptr':
                                self.cap[f.n].add(k); ch = True
                        elif i.o == 'ret' and i.a and self._id(i.a[0]) in d:
                            if k not in self.retalias[f.n]:
                                self.retalias[f.n].add(k); ch = True
                        elif i.o == 'call':
                            for j, a in enumerate(i.a):
                                if isinstance(a, str) and self._id(a) in d:
                                    for c in p.callees(i):
                                        if (c in FREE and j == 0) or (self.isdeldtor(c) and j == 0) or j in self.fr.get(c, ()):
                                            if k not in self.fr[f.n]:
                                                self.fr[f.n].add(k); ch = True
                                        elif j in self.cap.get(c, ()) and k not in self.cap[f.n]:
                                            self.cap[f.n].add(k); ch = True

    @staticmethod
    def _id(op):
        return int(op[1:]) if isinstance(op, str) and op.startswith('%') and op[1:].isdigit() else -1

    # ---- per function analysis
    def relevant(self, f):
        for i in f.calls():
            for c in self.p.callees(i):
                if c in ALLOC or c in FREE or self.isdeldtor(c):
                    return True
                if c in self.outc and self.fresh(c):
                    return True
        return False

    def fresh(self, c):
        return any(k in FREE.values() for o in self.outc.get(c, ()) for _, k in o[1])

    def run(self, order):
        for comp in order:
            for n in comp:
                f = self.p.fns[n]
                if not self.relevant(f):
                    continue
                ck = OwnCk(self, f)
                e = Engine(self.p, f, ck, self.eff, maxst=self.maxst)
                if self.verbose: print('own', f.pretty, flush=True)
                e.run()
                if self.verbose: print('   ', e.steps, e.trunc, {b: len(v) for b, v in e.visited.items() if len(v) > 100}, flush=True)
                self.stats['functions'] += 1; self.stats['steps'] += e.steps
                self.stats['paths_to_exit'] += ck.exits
                if e.trunc:
                    self.stats['widened'].append(f.pretty)
                self.outc[n] = list(ck.outcomes)
                self.viol += ck.viol
        self.stats['allocation_sites'] = len(self.sites)
        self.stats['release_sites'] = len(self.rel)


class OwnCk:
    def __init__(self, own, fn):
        self.o = own; self.fn = fn; self.viol = []; self.cur = None; self.seen = set(); self.outcomes = set(); self.exits = 0
        self.p = own.p

    def report(self, rule, inst, site, msg):
        k = (rule, self.fn.n, site, inst.l if inst else 0)
        if k in self.seen:
            return
        self.seen.add(k)
        s = self.cur.res.get(site) if self.cur is not None else None
        kind = s[1] if s else '?'; line = s[2] if s else '?'
        self.viol.append({'rule': rule, 'fn': self.fn.pretty, 'mangled': self.fn.n, 'at': self.fn.loc(inst), 'msg': msg, 'kind': kind,
                          'detail': kind, 'line': line})

    def reskey(self, eng, st):
        return frozenset(st.res.items())

    def envkeep(self, eng, st, i, v):
        # SSA values that name a tracked resource
        b = v
        while b[0] == 'P':
            b = b[1]
        if b[0] == 'V' and b in st.res and st.res[b][0] != 'E':
            return v
        return None

    def prune(self, eng, st):
        # released / handed-over blocks nobody can name any more
        if not st.res:
            return
        ref = set()
        for v in st.env.values():
            ref |= mentions(v)
        for v in st.mem.values():
            ref |= mentions(v)
        for r in [r for r, s in st.res.items() if s[0] != 'O']:
            if r[0] == 'V' and r not in ref:
                del st.res[r]
            elif r[0] == 'L' and False:
                del st.res[r]

    def memkeep(self, eng, st, a, v):
        return v in st.res and st.res[v][0] != 'E'

    def keepfact(self, eng, st, k):
        # what is known about a resource, about a by-reference parameter and about a parameter decides releases
        return k in st.res or k[0] == 'A' or (k[0] == 'L' and k[1][0] == 'A')

    # -- helpers
    def res_of(self, st, v):
        """the resource a pointer value denotes (also inside it)"""
        while v[0] == 'P':
            v = v[1]
        return v if v in st.res else None

    def alloc(self, eng, st, n, kind, v=None, desc=None):
        v = v or ('V', n.i)
        old = st.res.get(v)
        if old and old[0] == 'O' and not self.isnull(eng, st, v):
            self.cur = st
            self.report('leak', n, v, '%s allocated at %s is lost when the statement is executed again' % (kind, self.fn.loc(n)))
        eng.forget_value(st, n.i)
        st.res[v] = ('O', kind, n.l, desc or '')
        if kind in NEVERNULL:
            st.facts[v] = ('I', 1, 1 << 62, frozenset())
        self.o.sites.add((self.fn.n, n.bb, n.k))

    def isnull(self, eng, st, v):
        d = eng.domain(st, v)
        return d == frozenset([0])

    def free(self, eng, st, n, v, kind):
        self.o.rel.add((self.fn.n, n.bb, n.k))
        if v == ('K', 0):
            return
        base = v
        if v[0] == 'P' and not v[3] and not v[4] and v[2] in (-8, 8):
            base = v[1]          # array cookie
        if base in st.res:
            s = st.res[base]
            if s[0] == 'F':
                self.cur = st
                self.report('double', n, base, 'released a second time (%s), first allocated at line %s' % (kind, s[2]))
                return
            if s[1] != kind and s[1] != '?':
                self.cur = st
                self.report('mismatch', n, base, 'allocated with %s, released with %s' % (s[1], kind))
            if s[0] == 'E' and len(s) > 3 and s[3].startswith('kept:'):
                self.cur = st
                self.report('borrowed', n, base, 'released here although %s still refers to it' % s[3][5:])
            st.res[base] = ('F', s[1], s[2], s[3])
        else:
            r = self.res_of(st, v)
            if r is not None:
                self.cur = st
                self.report('mismatch', n, r, 'released through a pointer into the block')
            elif v[0] in ('V', 'A', 'L'):
                # not allocated here: track double release
                st.res[v] = ('F', kind, n.l, 'foreign')

    def escape(self, st, v, why=''):
        r = self.res_of(st, v)
        if r is not None and st.res[r][0] == 'O':
            st.res[r] = ('E', st.res[r][1], st.res[r][2], why)

    def use(self, eng, st, n, v, what):
        r = self.res_of(st, v)
        if r is not None and st.res[r][0] == 'F':
            self.cur = st
            self.report('useafter', n, r, '%s through memory released earlier (allocated or released at line %s)' % (what, st.res[r][2]))

    # -- hooks
    def load(self, eng, st, n, addr):
        self.use(eng, st, n, addr, 'read')

    def store(self, eng, st, n, addr, v):
        self.use(eng, st, n, addr, 'write')
        if v[0] in ('V', 'P') and self.res_of(st, v) is not None:
            b = root(addr)
            if addr[0] == 'M' or (b[0] == 'M'):
                return
            if addr[0] == 'A' or (addr[0] == 'P' and b[0] == 'A' and not addr[4] and not addr[3]):
                return      # out-parameter: decided at the exit
            self.escape(st, v, 'stored')

    def getter(self, eng, st, n, e):
        a = e[1] if e[0] == 'L' else e
        self.use(eng, st, n, a, 'read')

    def call(self, eng, st, n, cs):
        o = self.o
        args = [eng.addr(st, a) if not isinstance(a, int) else ('K', a) for a in n.a]
        name = cs[0] if cs else None
        if name in ALLOC and len(cs) == 1:
            eng.havoc(st, n, cs)
            if name == 'realloc' and args:
                r = self.res_of(st, args[0])
                if r is not None:
                    st.res[r] = ('F',) + st.res[r][1:]
            self.alloc(eng, st, n, ALLOC[name])
            st.env[n.i] = ('V', n.i)
            return [st]
        if name in FREE and len(cs) == 1:
            self.free(eng, st, n, args[0], FREE[name])
            if n.i is not None:
                st.env[n.i] = ('V', n.i)
            return [st]
        if cs and all(o.isdeldtor(c) for c in cs):
            v = args[0]
            while v[0] == 'P' and v not in st.res and self.res_of(st, v) is not None:
                v = v[1]        # deleting through a base class sub-object
            self.free(eng, st, n, v, 'new')
            o2 = eng.havoc(st, n, cs)
            return [st]
        # uses, releases and captures by the callee
        rel = [(j, a) for j, a in enumerate(args) if any(j in o.fr.get(c, ()) for c in cs) and self.res_of(st, a) is not None
               and not any(c.endswith(('D1Ev', 'D2Ev')) for c in cs)]
        for j, a in enumerate(args):
            if a[0] in ('V', 'P', 'L', 'A'):
                isd = any(c.endswith(('D1Ev', 'D2Ev')) for c in cs)
                if not (isd and False):
                    self.use(eng, st, n, a, 'call')
        for j, a in enumerate(args):
            if a[0] == 'M' and a in st.mem and st.mem[a] in st.res and not any(o.inrepo(c) for c in cs):
                self.escape(st, st.mem[a], 'captured')      # handed by reference to a library container
        for j, a in rel:
            r = self.res_of(st, a)
            if r == a:
                self.free(eng, st, n, a, st.res[r][1])
        for j, a in enumerate(args):
            if any(j in o.cap.get(c, ()) for c in cs):
                self.escape(st, a, 'captured')
        was = {a: st.mem.get(a) for a in args if a[0] in ('M', 'A')}
        states = o.rv.apply(eng, st, n, cs)
        if states is None:
            states = [st]
            if n.i is not None:
                st.env[n.i] = ('V', n.i)
        # results aliasing an argument
        out = []
        for s in states:
            if n.i is not None and n.t == 'ptr' and cs:
                ra = set.intersection(*[set(o.retalias.get(c, ())) for c in cs]) if all(c in o.retalias for c in cs) else set()
                fr = [x for c in cs for x in o.outc.get(c, ())]
                if fr and any(x[1] for x in fr):
                    kinds = {k for x in fr for t, k in x[1] if t == 'ret' and k in FREE.values()}
                    if kinds:
                        self.alloc(eng, s, n, kinds.pop() if len(kinds) == 1 else '?', desc='result of ' + cs[0])
                        s.env[n.i] = ('V', n.i)
                        s.facts.pop(('V', n.i), None)
                        out.append(s); continue
                if len(ra) == 1:
                    s.env[n.i] = args[next(iter(ra))]
            out += self.outparams(eng, s, n, cs, args, was)
        return out

    def outparams(self, eng, st, n, cs, args, was):
        o = self.o
        oc = [x for c in cs for x in o.outc.get(c, ())]
        if not any(t != 'ret' and (k in FREE.values() or k == 'freed') for x in oc for t, k in x[1]):
            return [st]
        res = []
        for rset, fresh in oc:
            s = st.copy()
            if n.i is not None and rset:
                v = s.env[n.i]
                ok = False
                for r in rset:
                    if r is None:
                        ok = True
                vals = frozenset(r for r in rset if isinstance(r, int))
                if vals and not ok:
                    d = eng.domain(s, v)
                    if isinstance(d, frozenset):
                        d = d & vals
                        if not d:
                            continue
                    else:
                        d = vals
                    if v[0] == 'K':
                        pass
                    else:
                        s.facts[v] = d
            dead = False
            for t, k in sorted(fresh, key=lambda x: x[1] != 'freed'):
                if t == 'ret' or t >= len(args):
                    continue
                a = args[t]
                if a == ('K', 0) and k in FREE.values():
                    dead = True; break
                v = ('V', -(n.i if n.i is not None else n.k + 5000) * 100 - t)
                if a[0] == 'M' or a[0] == 'A':
                    if k == 'was0':
                        x = was.get(a)
                        if x in s.res or (x is not None and x[0] == 'K' and x[1] != 0):
                            dead = True
                        continue
                    if k == 'freed':
                        x = was.get(a)
                        if x in s.res:
                            s.res[x] = ('F',) + s.res[x][1:]
                        continue
                    if k == 'null':
                        s.mem[a] = ('K', 0); continue
                    if k in ('pos', 'npos'):
                        x = s.mem.get(a)
                        if x is None:
                            x = s.mem[a] = ('V', -(n.i if n.i is not None else n.k + 5000) * 100 - t)
                            s.facts.pop(x, None)
                        d = d_refine(eng.domain(s, x) or ('I', -INF, INF, frozenset()), 'sgt' if k == 'pos' else 'sle', 0)
                        if d is False:
                            dead = True
                        elif x[0] != 'K':
                            s.facts[x] = d
                        continue
                    old = s.mem.get(a)
                    s.mem[a] = v
                    s.res[v] = ('O', k, n.l, 'out-parameter')
                    s.facts[v] = ('I', 1, 1 << 62, frozenset())
            if not dead:
                res.append(s)
        return res or [st]

    def ret(self, eng, st, n, v):
        self.exits += 1
        fn = self.fn
        fresh = []
        handed = set()
        if v is not None:
            r = self.res_of(st, v)
            if r is not None and st.res[r][0] == 'O' and r == v:
                if not self.isnull(eng, st, r):
                    fresh.append(('ret', st.res[r][1]))
                handed.add(r)
            elif r is not None:
                handed.add(r)
        for a, x in st.mem.items():
            b = a
            y = self.res_of(st, x)
            if a[0] == 'A' and y is not None and st.res[y][0] == 'O':
                handed.add(y)
                fresh.append((a[1], st.res[y][1]))
            elif a[0] == 'P' and root(a)[0] != 'M' and y is not None:
                handed.add(y)
            elif a[0] == 'A' and x == ('K', 0):
                fresh.append((a[1], 'null'))
        for r, s in st.res.items():
            if r[0] == 'L' and r[1][0] == 'A' and len(r) == 2 and s[0] == 'F':
                fresh.append((r[1][1], 'freed'))
        for k in range(self.fn.nargs):
            if self.fn.atypes[k] == 'ptr' and eng.domain(st, ('L', ('A', k))) == frozenset([0]):
                fresh.append((k, 'was0'))
        for r, s in st.res.items():
            if s[0] == 'O' and r not in handed and not self.isnull(eng, st, r):
                self.cur = st
                self.report('leak', self.exitinst(eng, st, n), r, '%s allocated at line %d is not released on the path leaving here' % (s[1], s[2]))
        if any(k != 'null' for _, k in fresh) or fresh:
            pass
        for k in range(self.fn.nargs):
            if self.fn.atypes[k] != 'ptr':
                continue
            a = ('A', k)
            x = st.mem.get(a) or (('L', a, st.ep[a]) if st.ep.get(a) is not None else ('L', a))
            d = eng.domain(st, x)
            if x in st.res or d is None:
                continue
            if d_refine(d, 'sle', 0) is False:
                fresh.append((k, 'pos'))
            elif d_refine(d, 'sgt', 0) is False:
                fresh.append((k, 'npos'))
        rset = None
        if v is not None:
            ex = []
            if v[0] == 'K':
                ex = [v[1]]
            else:
                d = eng.domain(st, v)
                ex = sorted(d) if isinstance(d, frozenset) else [None]
            rset = tuple(ex)
        self.outcomes.add((rset, tuple(sorted(fresh, key=repr))))

    def exitinst(self, eng, st, n):
        # the return block is shared: name the line of the branch that led here
        return st.trace if st.trace is not None else n

    def branch(self, eng, st, n, c, truth):
        return True
