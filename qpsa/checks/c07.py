"""C07  index arguments outside the valid range are refused before anything is read or changed."""
from ..common import Result, Ctx, pmap
from ..engine import Engine, INF
from ..ir import subst
from ..build import EXTRA, AnalysisError
from ..header import all_declarations, norm
from .c13 import split
import re

CODE = 'RET_INDEX_OUT_OF_BOUNDS'
LIST = '-RET_INDEXLIST_OUTOFBOUNDS'
# arrays with one entry per bound/constraint, and the member that counts the entries
NB = ('L', ('P', ('A', 0), 0, (), 'SubjectTo::n'))


def sub(m):
    return ('L', ('P', ('P', ('A', 0), 0, (), m), 0, (), 'SubjectTo::n'))


EXT = {'SubjectTo::type': NB, 'SubjectTo::status': NB,
       'QProblemB::lb': sub('QProblemB::bounds'), 'QProblemB::ub': sub('QProblemB::bounds'),
       'Indexlist::number': ('L', ('P', ('A', 0), 0, (), 'Indexlist::length')),
       'QProblem::lbA': sub('QProblem::constraints'), 'QProblem::ubA': sub('QProblem::constraints')}
RNG = {'below': {'arg': (-INF, -1), 'size': (0, INF), 'diff': (-INF, -1)},
       'above': {'arg': (0, INF), 'size': (0, INF), 'diff': (0, INF)},
       'inside': {'arg': (0, INF), 'size': (1, INF), 'diff': (-INF, -1)}}


def array(a):
    """member array an element address belongs to"""
    if a[0] == 'P' and a[1][0] == 'L':
        b = a[1][1]
        if b[0] == 'P' and b[4]:
            return b[4]
    return None


def strip(e):
    while e[0] == 'P' and e[4] is not None and e[4].startswith('up:'):
        e = e[1]
    return e


def clean(e):
    """without the casts to base classes"""
    if not isinstance(e, tuple):
        return e
    if e and e[0] == 'P' and isinstance(e[4], str) and e[4].startswith('up:'):
        return clean(e[1])
    return tuple(clean(x) for x in e)


class Eng(Engine):
    """decides comparisons of the index argument with zero and with the number of entries from the assumed range"""
    def lin(self, e):
        arg, size = self.ck.argx, self.ck.size
        if e == arg:
            return (1, 0, 0)
        if clean(e) == size:
            return (0, 1, 0)
        if e[0] == 'K' and isinstance(e[1], int):
            return (0, 0, e[1])
        if e[0] == 'O' and e[1] in ('add', 'sub') and len(e) == 4:
            a, b = self.lin(e[2]), self.lin(e[3])
            if a and b:
                s = 1 if e[1] == 'add' else -1
                return tuple(x + s * y for x, y in zip(a, b))
        return None

    def decide(self, st, c):
        if c[0] == 'C' and c[1] in ('eq', 'ne', 'slt', 'sle', 'sgt', 'sge', 'ult', 'ule', 'ugt', 'uge'):
            a, b = self.lin(c[2]), self.lin(c[3])
            if a and b:
                op = c[1]
                R = RNG[self.ck.kind]
                if op[0] == 'u':
                    # both sides non-negative: as signed; a negative index is larger than any size
                    if self.ck.kind == 'below' and (a, b) in (((1, 0, 0), (0, 1, 0)), ((0, 1, 0), (1, 0, 0))):
                        return (op in ('ugt', 'uge')) == (a == (1, 0, 0))
                    if self.ck.kind == 'below':
                        return super().decide(st, c)
                    op = 's' + op[1:]
                d = tuple(x - y for x, y in zip(a, b))
                iv = self.iv(d, R)
                if iv:
                    lo, hi = iv
                    r = {'slt': (hi < 0, lo >= 0), 'sle': (hi <= 0, lo > 0), 'sgt': (lo > 0, hi <= 0), 'sge': (lo >= 0, hi < 0),
                         'eq': (lo == hi == 0, lo > 0 or hi < 0), 'ne': (lo > 0 or hi < 0, lo == hi == 0)}[op]
                    if r[0]:
                        return True
                    if r[1]:
                        return False
        return super().decide(st, c)

    @staticmethod
    def iv(d, R):
        x, y, k = d
        if (x, y) == (0, 0):
            return (k, k)
        for (u, v), n in (((1, 0), 'arg'), ((0, 1), 'size'), ((1, -1), 'diff')):
            if (x, y) == (u, v):
                return (R[n][0] + k, R[n][1] + k)
            if (x, y) == (-u, -v):
                return (-R[n][1] + k, -R[n][0] + k)
        return None


class Ck:
    nonan = True

    def __init__(self, U, f, arg, kind, size):
        self.U = U; self.f = f; self.arg = arg; self.argx = ('A', arg); self.kind = kind; self.size = size; self.p = U.p
        self.rets = set(); self.acc = {}; self.mut = {}; self.badret = {}; self.exits = 0

    def element(self, eng, st, n, a, what):
        b = a
        while b[0] == 'P':
            if any(t[1] == self.argx for t in b[3]):
                self.acc.setdefault((n.bb, n.k), '%s an element of %s' % (what, (array(b) or 'an array')))
            b = b[1]

    def load(self, eng, st, n, addr):
        self.element(eng, st, n, addr, 'reads')

    def store(self, eng, st, n, addr, v):
        self.element(eng, st, n, addr, 'writes')
        r = addr
        while r[0] in ('P', 'L'):
            r = r[1]
        if r[0] in ('A', 'G', 'V'):
            self.mut.setdefault((n.bb, n.k), 'the object is changed')

    def call(self, eng, st, n, cs):
        vals = [eng.val(st, x) if isinstance(x, str) else ('K', x) if isinstance(x, int) else ('?',) for x in n.a]
        res = None
        for c in cs:
            g = self.p.fns.get(c)
            if g is None or g.decl or g.file.startswith('/usr') or g.cls == 'MessageHandling':
                continue
            qs = [q for q, v in enumerate(vals) if v == self.argx and q < g.nargs]
            if not qs:
                w = [x for x in self.U.eff.writes(c) if not x.startswith('MessageHandling::')]
                if w:
                    self.mut.setdefault((n.bb, n.k), '%s changes %s' % (g.pretty, ', '.join(sorted(w))[:60]))
                continue
            s2 = None
            for j, v in enumerate(vals[:g.nargs]):
                v = clean(v)
                if v == self.size:
                    s2 = ('A', j)
                    break
                if v[0] in ('A', 'P', 'L'):
                    t = repl(self.size, v, ('A', j))
                    if t != self.size or v == ('A', j):
                        s2 = t
                        break
            if s2 is None:
                # the routine cannot know the number of entries
                s2 = ('?',)
            r = self.U.run(c, qs[0], self.kind, s2)
            for what, store in (('acc', self.acc), ('mut', self.mut)):
                for (at, msg) in r[what]:
                    store.setdefault((n.bb, n.k), 'through %s (%s): %s' % (g.pretty, at, msg))
            res = r['rets'] if res is None else res | r['rets']
        out = self.U.rv.apply(eng, st, n, cs)
        if res and n.i is not None and all(isinstance(x, int) for x in res) and len(cs) == 1:
            out2 = []
            for s in (out if out is not None else [st]):
                v = s.env.get(n.i, ('V', n.i))
                if v[0] == 'K':
                    if v[1] in res:
                        out2.append(s)
                    continue
                for x in res:
                    t = s.copy()
                    t.env[n.i] = ('K', x)
                    out2.append(t)
            return out2 or out
        return out

    def ret(self, eng, st, n, v):
        self.exits += 1
        d = eng.domain(st, v) if v is not None else None
        if isinstance(d, frozenset):
            self.rets |= d
            vs = d
        else:
            self.rets.add('?'); vs = {'?'}
        self.badret.setdefault((n.bb, n.k), set()).update(vs)


def repl(e, a, b):
    if e == a:
        return b
    if isinstance(e, tuple):
        return tuple(repl(x, a, b) if isinstance(x, tuple) else x for x in e)
    return e


class Unit:
    def __init__(self, ctx, unit):
        self.p = ctx.prog(unit); self.eff = ctx.eff(unit); self.rv = ctx.rv(unit); self.memo = {}
        self.exits = 0; self.trunc = 0

    def run(self, c, arg, kind, size):
        k = (c, arg, kind, size)
        if k not in self.memo:
            self.memo[k] = {'acc': [], 'mut': [], 'rets': {'?'}}
            f = self.p.fns[c]
            ck = Ck(self, f, arg, kind, size)
            e = Eng(self.p, f, ck, self.eff, maxst=400)
            e.run()
            self.exits += ck.exits; self.trunc += bool(e.trunc)
            at = lambda d: [(f.loc(f.bbs[b][k]), m) for (b, k), m in d.items()]
            self.memo[k] = {'acc': at(ck.acc), 'mut': at(ck.mut), 'rets': ck.rets,
                            'ret_at': [(f.loc(f.bbs[b][k]), s) for (b, k), s in ck.badret.items()]}
        return self.memo[k]

    def arrays(self, c, arg, seen=None):
        """member arrays (of the object itself) which c indexes by this argument"""
        seen = set() if seen is None else seen
        if (c, arg) in seen:
            return set()
        seen.add((c, arg))
        f = self.p.fns[c]; out = set()
        for i in f.insts():
            if i.o in ('load', 'store'):
                e = f.ex(i.a[0] if i.o == 'load' else i.a[1]) if isinstance(i.a[0 if i.o == 'load' else 1], str) else None
                while e and e[0] == 'P':
                    if any(t[1] == ('A', arg) for t in e[3]) and array(e):
                        out.add(array(e))
                    e = e[1]
            elif i.o == 'call' and i.a and isinstance(i.a[0], str) and clean(f.ex(i.a[0])) == ('A', 0):
                for g in self.p.callees(i):
                    if g in self.p.fns and not self.p.fns[g].decl:
                        for q, x in enumerate(i.a):
                            if isinstance(x, str) and f.ex(x) == ('A', arg) and q < self.p.fns[g].nargs:
                                out |= self.arrays(g, q, seen)
        return out


class Look:
    """a position an index list routine looked up may be -1 (not found)"""
    nonan = True

    def __init__(self, U, f, notfound):
        self.U = U; self.f = f; self.nf = notfound; self.viol = {}; self.uses = set()

    def keepfact(self, eng, st, k):
        return k[0] == 'V' and k[1] in self.nf

    def at(self, eng, st, n, a):
        while a[0] == 'P':
            for t in a[3]:
                if t[1][0] == 'V' and t[1][1] in self.nf:
                    self.uses.add((n.bb, n.k))
                    d = eng.domain(st, t[1])
                    lo = min(d) if isinstance(d, frozenset) and d else d[1] if d else -INF
                    if lo + (a[2] // t[0] if a[2] and t[0] else 0) < 0:
                        self.viol[(n.bb, n.k)] = 'the position %s returned is used as an index although it may be -1' % self.nf[t[1][1]]
            a = a[1]

    def load(self, eng, st, n, addr):
        self.at(eng, st, n, addr)

    def store(self, eng, st, n, addr, v):
        self.at(eng, st, n, addr)

    def call(self, eng, st, n, cs):
        return self.U.rv.apply(eng, st, n, cs)


def negative(p, f):
    """f can hand out the constant -1"""
    for i in f.insts():
        if i.o == 'store' and i.a[0] == -1 or i.o == 'ret' and i.a and i.a[0] == -1:
            return True
        if i.o == 'phi' and any(v == -1 for v, _ in i.ph):
            return True
    return False


def lookups(U):
    p = U.p; st = {'lookup_functions': 0, 'lookup_calls': 0, 'lookup_uses': 0}; viol = []
    cls = 'Indexlist'
    look = {f.n: f for f in p.fns.values() if f.cls == cls and not f.decl and f.bbs and f.rettype in ('int', 'long', 'int_t') and negative(p, f)}
    st['lookup_functions'] = len(look)
    for f in p.fns.values():
        if f.decl or not f.bbs or f.cls != cls:
            continue
        nf = {i.i: look[p.callees(i)[0]].pretty for i in f.calls() if i.i is not None and p.callees(i) and p.callees(i)[0] in look}
        if not nf:
            continue
        st['lookup_calls'] += len(nf)
        ck = Look(U, f, nf)
        Engine(p, f, ck, U.eff, maxst=300).run()
        st['lookup_uses'] += len(ck.uses)
        for (b, k), m in ck.viol.items():
            viol.append({'rule': 'lookup', 'fn': f.pretty, 'at': f.loc(f.bbs[b][k]), 'detail': m.split(' is used')[0], 'msg': m})
    return st, viol


def code_of(f):
    return f.rettype.split('::')[-1] == 'returnValue'


def analyse(unit):
    ctx = Ctx(); U = Unit(ctx, unit); p = U.p
    code = p.enum('returnValue')[CODE]
    U.notset = p.enum('returnValue')['RET_QPOBJECT_NOT_SETUP']; U.undef = p.enum('returnValue')['RET_ERROR_UNDEFINED']
    und = {p.enum('SubjectToType')['ST_UNKNOWN'], p.enum('SubjectToStatus')['ST_UNDEFINED']}
    st = {'documented_functions': 0, 'index_arguments': 0, 'range_contexts': 0, 'exits': 0}; viol = []
    by = {}
    for f in p.fns.values():
        if f.decl or f.file.startswith('/usr') or not f.bbs or not f.cls:
            continue
        m = re.match(r'^(.*?)\((.*)\)( const)?$', f.prettysig)
        ts = [t for t in (norm(x) for x in split(m.group(2))) if t] if m else None
        by.setdefault((f.cls.split('::')[-1], f.sn), []).append((f, ts))
    missing = []
    for d in all_declarations():
        ts = [x['type'] for x in d['params'] if x['type'] not in ('void', '')]
        fs = [f for f, t in by.get((d['cls'], d['name']), []) if t == ts]
        doc = CODE in (d['doc'] or '')
        if not fs:
            if doc:
                missing.append('%s::%s' % (d['cls'], d['name']))
            continue
        f = fs[0]
        listed = LIST in (d['doc'] or '')
        if not doc and not listed and not (f.acc in (2, 3) and code_of(f) and any(i.o == 'call' and code in i.a[1:2] for i in f.calls())):
            continue
        idx = []
        for k, x in enumerate(d['params']):
            if x['type'] not in ('int', 'long', 'int_t') or 'offset' in x['name'].lower() or 'offset' in x['doc'].lower():
                continue
            a = k + f.nargs - len(ts)
            arr = U.arrays(f.n, a)
            sizes = {EXT[y] for y in arr if y in EXT}
            if not sizes and ('SubjectTo' in [f.cls] + list(p.allbases(f.cls))):
                sizes = {NB}
            if len(sizes) == 1:
                idx.append((a, x['name'], next(iter(sizes))))
            elif arr or len(sizes) > 1:
                raise AnalysisError('C07: no unique number of entries for %s of %s (%s)' % (x['name'], f.pretty, sorted(arr)))
        if not idx:
            continue
        st['documented_functions'] += 1
        for a, name, size in idx:
            st['index_arguments'] += 1
            for kind in ('below', 'above', 'inside'):
                st['range_contexts'] += 1
                r = U.run(f.n, a, kind, size)
                word = {'below': 'is negative', 'above': 'is not less than the number of entries', 'inside': 'is valid'}[kind]

                def v(rule, at, msg):
                    viol.append({'rule': rule, 'fn': f.pretty, 'at': at, 'detail': '%s:%s' % (name, kind), 'msg': 'when %s %s, %s' % (name, word, msg)})
                if kind == 'inside':
                    if code_of(f) and len(idx) == 1 and code in r['rets']:
                        v('valid-refused', f.loc(), '%s is returned' % CODE)
                    continue
                for at, m in r['acc']:
                    v('access', at, m)
                for at, m in r['mut']:
                    v('change', at, m)
                for at, s in r['ret_at']:
                    s = set(s)
                    if code_of(f):
                        # an object without entries may say so
                        s -= {code, U.notset, U.undef}
                        if s:
                            v('not-refused', at, 'the function does not return %s' % CODE)
                    elif listed:
                        if not s <= {-p.enum('returnValue')[LIST[1:]]}:
                            v('not-refused', at, 'the function does not return %s' % LIST)
                    elif not s <= und:
                        v('not-refused', at, 'the function returns a proper value')
    s2, v2 = lookups(U)
    st.update(s2); viol += v2
    st['exits'] = U.exits
    st['truncated'] = U.trunc
    st['missing'] = missing
    return st, viol


def run(ctx):
    R = Result(['a function documented to return %s returns it whenever its index argument is negative or not less than the number of entries' % CODE,
                'on those paths it accesses no element by that index and changes nothing, neither itself nor through what it calls',
                'it does not return %s for a valid index' % CODE,
                'a position an index list routine has looked up is used as an index only where it is known not to be -1'])
    units = ['lib-all'] + (EXTRA if ctx.tier == 'thorough' else [])
    R.cov = {'units': units, 'per_unit': {}}
    R.prog = ctx.prog('lib')
    for u, (st, viol) in zip(units, pmap(analyse, units)):
        R.cov['per_unit'][u] = st
        for k, v in st.items():
            if isinstance(v, int):
                R.cov[k] = R.cov.get(k, 0) + v
        if u == 'lib-all':
            R.need(st['lookup_calls'], 'index list lookups', 3)
            R.need(st['documented_functions'], 'functions documented to refuse an index', 12)
        R.obligations += st['range_contexts']
        for v in viol:
            R.v(v['rule'], v['fn'], None, v['detail'], v['msg'], at=v['at'])
    return R
