"""C16  what the caller hands in as input is never modified."""
from collections import defaultdict, deque
from ..common import Result, Ctx, pmap
from ..effects import EXT_OUT, EXT_NONE
from ..engine import Engine
from ..build import EXTRA

FLAG = 'Matrix::freeMemory'
NEW = ('_Znam', '_Znwm', 'malloc', 'calloc')
# external routines that only read what they are given (or write only through what they own)
READS = ('printf', 'fprintf', 'snprintf', 'sprintf', 'sscanf', '__isoc', 'mat', 'cos', 'sin', 'fabs', 'strtol', 'strtod', 'atof', 'atoi', 'puts',
         'mex', 'mx', '_Z', '__cxa', '__dynamic_cast', 'str', 'exp', 'pow', 'time', 'clock', 'fopen', 'calloc', 'malloc')


def bare(t):
    t = t.strip()
    return t[:-5].strip() if t.endswith('const') else t


def pointee(t):
    """type handed in by a pointer or reference to const, one level"""
    t = bare(t)
    if t.startswith('const ') and t[-1] in '*&' and t.count('*') + t.count('&') == 1:
        return t[6:-1].strip()


class Graph:
    """where pointers flow: SSA values ('V',fn,i), members ('F',key), address-taken locals ('M',fn,i), results ('R',fn),
    out-arguments ('O',fn,k)"""
    def __init__(self, p):
        self.p = p; self.E = defaultdict(set); self.arrays = {}; self.objects = {}; self.sinks = []; self.loads = defaultdict(set)
        for f in p.fns.values():
            if not f.decl:
                self.scan(f)

    def node(self, f, o):
        if isinstance(o, list):
            return self.node(f, o[1]['b'])
        if isinstance(o, str) and o.startswith('%'):
            return ('V', f.n, int(o[1:]))

    def slot(self, f, e):
        b = e
        while b[0] == 'P' and (b[4] is None or b[4].startswith('up:')):
            b = b[1]
        if b[0] == 'P':
            return ('F', b[4])
        if b[0] == 'M':
            return ('M', f.n, b[1])
        if b[0] == 'A':
            return ('O', f.n, b[1])

    def edge(self, a, b, kind=''):
        if a and b:
            self.E[a].add((b, kind))

    def scan(self, f):
        p = self.p; N = lambda o: self.node(f, o)
        for k in range(f.nargs):
            t = pointee(f.argtype(k))
            if t and f.atypes[k] == 'ptr':
                (self.objects if t in p.types or f.is_method and k == 0 else self.arrays)[('V', f.n, k)] = (f, k)
        for i in f.insts():
            o = i.o; me = ('V', f.n, i.i) if i.i is not None else None
            if o == 'getelementptr':
                self.edge(N(i.g['b']), me)
            elif o in ('bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
                self.edge(N(i.a[0]), me)
            elif o == 'phi':
                for v, _ in i.ph:
                    self.edge(N(v), me)
            elif o == 'select':
                for v in i.a[1:]:
                    self.edge(N(v), me)
            elif o == 'load' and i.t == 'ptr':
                s = self.slot(f, f.ex(i.a[0]))
                self.edge(s, me)
                self.edge(N(i.a[0]), me)
                if s and s[0] == 'F':
                    self.loads[s[1]].add(f.n)
            elif o == 'store':
                self.edge(N(i.a[0]), self.slot(f, f.ex(i.a[1])), 'keep')
                if N(i.a[1]):
                    self.sinks.append((N(i.a[1]), f, i, 'a store'))
            elif o in ('call', 'invoke'):
                for c in p.callees(i):
                    g = p.fns.get(c)
                    if g is None or g.decl:
                        for k, a in enumerate(i.a):
                            if N(a) and extwrites(c, k):
                                self.sinks.append((N(a), f, i, 'call of ' + c))
                        continue
                    for k, a in enumerate(i.a):
                        self.edge(N(a), ('V', c, k))
                        if isinstance(a, (str, list)):
                            s = self.slot(f, f.ex(a))
                            if s and s != ('O', f.n, None):
                                self.edge(('O', c, k), s, 'keep')
                    self.edge(('R', c), me)
            elif o == 'ret' and i.a:
                self.edge(N(i.a[0]), ('R', f.n))

    def forward(self, srcs, keep):
        pred = {n: None for n in srcs}; q = deque(srcs)
        while q:
            n = q.popleft()
            for m, kind in self.E[n]:
                if m not in pred and (keep or kind != 'keep'):
                    pred[m] = n; q.append(m)
        return pred

    def writers(self):
        """values through which something is written, possibly in a routine they are passed to; members do not carry this on"""
        back = defaultdict(set)
        for a, bs in self.E.items():
            for b, kind in bs:
                if kind != 'keep' and a[0] == 'V' and b[0] == 'V' and not (self.p.fns[b[1]].inst.get(b[2]) is not None and self.p.fns[b[1]].inst[b[2]].o == 'load'):
                    back[b].add(a)
        w = {s[0] for s in self.sinks}; q = deque(w)
        while q:
            for a in back[q.popleft()]:
                if a not in w:
                    w.add(a); q.append(a)
        return w


def extwrites(c, k):
    if c in EXT_OUT:
        return k in EXT_OUT[c]
    if c.startswith('llvm.'):
        return c.startswith('llvm.mem') and k == 0
    if c in EXT_NONE or c.startswith(READS):
        return False
    return True


class Ck:
    """writes through a member that may refer to the caller's array: the block must be known to be the object's own there"""
    nonan = False

    def __init__(self, G, f, ro, w):
        self.G = G; self.f = f; self.p = G.p; self.ro = ro; self.w = w; self.v = {}; self.seen = set()

    def reskey(self, eng, st):
        return None

    def memkeep(self, eng, st, a, v):
        return a[0] == 'P' and (a[4] in self.ro or a[4] == FLAG)

    def keepfact(self, eng, st, k):
        return k[0] == 'L' and k[1][0] == 'P' and k[1][4] == FLAG

    def check(self, eng, st, n, a, how):
        while a[0] == 'P':
            a = a[1]
        if a[0] == 'L' and a[1][0] == 'P' and a[1][4] in self.ro:
            self.seen.add((n.bb, n.k))
            for e, d in st.facts.items():
                if e[0] == 'L' and e[1][0] == 'P' and e[1][4] == FLAG and (0 not in d if isinstance(d, frozenset) else 0 in d[3] or d[1] > 0 or d[2] < 0) and self.obj(e[1]) == self.obj(a[1]):
                    return
            for m, v in st.mem.items():
                if m[0] == 'P' and m[4] == FLAG and v == ('K', 1) and self.obj(m) == self.obj(a[1]):
                    return
            self.v.setdefault((a[1][4], n.bb, n.k), how)

    @staticmethod
    def obj(a):
        b = a[1]
        while b[0] == 'P' and (b[4] is None or b[4].startswith('up:')):
            b = b[1]
        return b

    def store(self, eng, st, n, addr, v):
        if self.G.node(self.f, n.a[1]) is not None:
            self.check(eng, st, n, addr, 'a store')

    def call(self, eng, st, n, cs):
        for k, a in enumerate(n.a):
            if isinstance(a, (str, list)) and self.G.node(self.f, a) and any(
                    ('V', c, k) in self.w if c in self.p.fns and not self.p.fns[c].decl else extwrites(c, k) for c in cs):
                self.check(eng, st, n, eng.addr(st, a), 'a routine called with it')
        eng.havoc(st, n, cs)
        return [st]


def analyse(unit):
    ctx = Ctx(); p = ctx.prog(unit); G = Graph(p)
    viol = []
    st = {'input_arrays': len(G.arrays), 'input_objects': len(G.objects), 'writes': len(G.sinks)}

    def report(pred, n, f, i, how, skipmember):
        path = []; m = n
        while m is not None:
            path.append(m); m = pred[m]
        if skipmember and any(x[0] == 'F' for x in path[1:]):
            return
        f0, k = G.arrays.get(path[-1]) or G.objects[path[-1]]
        viol.append(dict(rule='input', fn=f.n, at=f.loc(i), detail='%s of %s' % (f0.argname(k), f0.pretty),
                         msg='%s modifies %s, which %s takes as input only' % (how, f0.argname(k), f0.pretty), fnp=f.pretty))
    # writes through the argument itself, in the routine or in those it passes it to
    for srcs in (G.arrays, G.objects):
        pred = G.forward(srcs, False)
        for n, f, i, how in G.sinks:
            if n in pred:
                report(pred, n, f, i, how, False)
    # arrays kept in members
    pred = G.forward(G.arrays, True)
    ro = {n[1]: n for n in pred if n[0] == 'F'}
    st['members_holding_input_arrays'] = sorted(ro)
    for n, f, i, how in G.sinks:        # through locals and out-arguments
        if n in pred:
            path = []; m = n
            while m is not None:
                path.append(m); m = pred[m]
            if not any(x[0] == 'F' for x in path) and any(x[0] in 'MO' for x in path):
                report(pred, n, f, i, how, True)
    w = G.writers()
    fns = set()
    for k in ro:
        fns |= G.loads[k]
    st['functions_using_them'] = len(fns); st['writes_through_them'] = 0
    for fn in sorted(fns):
        f = p.fns[fn]; ck = Ck(G, f, ro, w)
        eng = Engine(p, f, ck, effects=ctx.eff(unit)); eng.run()
        st['writes_through_them'] += len(ck.seen)
        for (key, bb, k), how in ck.v.items():
            i = f.bbs[bb][k]
            m = ro[key]; src = m
            while pred[src] is not None:
                src = pred[src]
            f0, a = G.arrays[src]
            viol.append(dict(rule='kept', fn=f.n, at=f.loc(i), detail=key, fnp=f.pretty,
                             msg='%s writes to the array %s refers to, which may be the one handed to %s as %s, without the object being known to own it'
                             % (how, key, f0.pretty, f0.argname(a))))
    return st, viol


def run(ctx):
    R = Result(['no routine writes to an array or object it takes as input (pointer or reference to const), nor passes it to one that does',
                'no routine writes to an array an object keeps a reference to, unless the object is known to own it on that path'])
    units = ['lib', 'cwrap'] + (EXTRA if ctx.tier == 'thorough' else [])
    R.prog = ctx.prog('lib'); R.cov = {'units': units, 'per_unit': {}}
    seen = set()
    for u, (st, viol) in zip(units, pmap(analyse, units)):
        R.cov['per_unit'][u] = st
        for k, x in st.items():
            if isinstance(x, int):
                R.cov[k] = R.cov.get(k, 0) + x
        R.obligations += st['input_arrays'] + st['input_objects']
        if u == 'lib':
            R.need(st['input_arrays'], 'input arrays', 200)
            R.need(st['input_objects'], 'input objects', 150)
            R.need(len(st['members_holding_input_arrays']), 'members that keep an input array')
        for v in viol:
            k = (v['rule'], v['fn'], v['at'])
            if k not in seen:
                seen.add(k)
                R.v(v['rule'], v['fnp'], None, v['detail'], v['msg'], at=v['at'])
    R.cov['explanation'] = ('Flow of every pointer to const through values, locals, out-arguments, results, calls and members of the whole program to every '
                            'store and external write; path-sensitive ownership at writes through members.')
    return R
