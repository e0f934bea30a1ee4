"""C14  nothing is used before it was given a value: members after construction, locals, output arguments."""
from ..common import Result, Ctx, pmap
from ..engine import Engine, INF
from ..assign import Assign
from ..build import EXTRA
from .c01 import fields_of

# progress record of the current iteration: solveQP resets it before each iteration uses it
EXEMPT = {'QProblemB::tabularOutput'}
# the source of the copy keeps: a Schur complement of positive capacity has storage (M_physicallength > 0)
COPYONLY = {('SQProblemSchur', 'SQProblemSchur::M_vals'), ('SQProblemSchur', 'SQProblemSchur::M_ir'), ('SQProblemSchur', 'SQProblemSchur::M_jc')}
SCALAR = {'i64', 'i32', 'double', 'float', 'ptr', 'i8', 'i16', 'i1'}


# ---- members after construction
def relpath(e):
    pt = []
    while e[0] == 'P':
        if e[3]:
            pt = []             # an element of an array member: the array itself
        if e[4] and not e[4].startswith('up:'):
            pt.append(e[4])
        e = e[1]
    return e, tuple(pt[::-1])


def leaves(p, cls, pre=()):
    out = []
    for c, m in p.members(cls, True):
        key = '%s::%s' % (c, m['n'])
        if m['t'] in p.types and m['t'] not in p.enums:
            out += leaves(p, m['t'], pre + (key,))
        else:
            out.append((pre + (key,), m))
    return out


def elem_stored(f, p, depth=0):
    """array members some element of which this constructor, or a callee on the same object, writes or hands out to be filled"""
    out = set()
    for i in f.insts():
        es = []
        if i.o == 'store':
            es = [f.ex(i.a[1])]
        elif i.o in ('call', 'invoke'):
            cs = p.callees(i)
            es = [f.ex(a) for a in i.a if isinstance(a, str)] if cs and all(c not in p.fns or p.fns[c].decl for c in cs) else []
            if len(cs) == 1 and cs[0] in p.fns and i.a and isinstance(i.a[0], str) and f.ex(i.a[0]) == ('A', 0) and depth < 4:
                out |= elem_stored(p.fns[cs[0]], p, depth + 1)
        for e in es:
            r, pt = relpath(e)
            if r == ('A', 0) and pt and any(m['n'] == pt[-1].split('::')[-1] and '[' in m['t'] for _, m in p.members(pt[-1].split('::')[0], True)):
                out.add(pt)
    return out


def constructors(p, st, viol):
    A = Assign(p)
    read = set()
    for f in p.fns.values():
        if not f.decl:
            for i in f.insts():
                if i.o == 'load' and not isinstance(i.a[0], int):
                    read |= fields_of(f.ex(i.a[0]))
    c2 = {f.n.replace('C1E', 'C2E') for f in p.fns.values() if 'C1E' in f.n and not f.decl}
    for f in p.fns.values():
        if f.decl or not f.cls or f.sn != f.cls.split('::')[-1] or f.file.startswith('/usr') or f.n in c2:
            continue
        if 'C2E' in f.n and f.nargs >= len(f.sig):
            continue            # base part of a class with virtual bases: its complete constructors are analysed
        s = A.summary(f.n, nonnull=False)
        if s is None:
            continue
        got = set(); whole = set()
        for k in s:
            r, pt = relpath(k[1] if k[0] == 'ALL' else k)
            if r == ('A', 0):
                (whole if k[0] == 'ALL' else got).add(pt)
        whole |= elem_stored(f, p)
        st['constructors'] += 1
        for pt, m in leaves(p, f.cls):
            if pt[-1] not in read or EXEMPT & set(pt):
                continue
            if (f.cls, pt[-1]) in COPYONLY and 'RKS' in f.n:
                continue
            st['members'] += 1
            if pt in got or any(pt[:len(a)] == a for a in whole):
                continue
            name = '.'.join(x.split('::')[-1] for x in pt)
            viol.append({'rule': 'member-unset', 'fn': f.pretty, 'at': f.loc(), 'detail': name,
                         'msg': 'a path through this constructor (%s) leaves member %s without a value' % (f.prettysig, name)})


# ---- local variables and output arguments
class Eng(Engine):
    """an SSA operand without a definition is the value ('U', 0)"""

    def val(self, st, op):
        if op == 'undef':
            return ('U', 0)
        return Engine.val(self, st, op)

    def step(self, st, n):
        if self.ck.und and n.o != 'phi':
            for x in n.a:
                if isinstance(x, str) and (x == 'undef' or x.startswith('%')) and self.val(st, x) == ('U', 0):
                    self.ck.viol.setdefault((n.bb, n.k), ('U', 0))
        return Engine.step(self, st, n)


class Ck:
    def __init__(self, U, f, args=None):
        self.U = U; self.f = f; self.args = args; self.viol = {}; self.outs = {}; self.reads = set(); self.used = set()
        self.und = False
        if args is not None:
            self.track = {('A', k) for k in args}
        else:
            self.track = {('M', i.i) for i in f.insts() if i.o == 'alloca' and i.at in SCALAR}
        self.ptrs = [k for k, t in enumerate(f.atypes) if t == 'ptr']

    def reskey(self, eng, st):
        o = ()
        if self.args is not None:
            o = tuple((k, st.mem.get(('A', k))) for k in self.ptrs if st.mem.get(('A', k), ('?',))[0] == 'K')
        return (frozenset(st.res), o)

    nonan = True         # option values are numbers: x >= x holds
    floatphi = True

    def keepfact(self, eng, st, k):
        return False

    def store(self, eng, st, i, addr, val):
        if addr in self.track:
            st.res[addr] = 1

    def bad(self, i, addr):
        if self.args is not None:
            self.reads.add(addr[1])
        else:
            self.viol.setdefault((i.bb, i.k), addr)

    def load(self, eng, st, i, addr):
        if addr in self.track:
            self.used.add(addr)
            if addr not in st.res:
                self.bad(i, addr)

    def call(self, eng, st, n, cs):
        pend = {}
        for k, a in enumerate(n.a):
            if not isinstance(a, int):
                v = eng.addr(st, a)
                if v in self.track and v not in st.res:
                    pend[k] = v
        if not pend:
            return self.U.rv.apply(eng, st, n, cs)
        where = {k: eng.addr(st, a) for k, a in enumerate(n.a) if not isinstance(a, int)}
        outs, reads = self.U.outcome(cs, tuple(sorted(pend)))
        for k in reads:
            self.bad(n, pend[k])
        r = self.U.rv.apply(eng, st, n, cs)
        if r is None:
            r = [st]
            if n.i is not None:
                st.env[n.i] = ('V', n.i)
        nr = []
        for t in r:
            for (done, consts), vals in outs.items():
                g = t.copy()
                for k in done:
                    g.res[pend[k]] = 1
                for k, c in consts:
                    if where.get(k, ('?',))[0] == 'M':
                        g.mem[where[k]] = ('K', c)
                if vals != 'any' and n.i is not None:
                    e = g.env.get(n.i, ('V', n.i))
                    d = eng.domain(g, e)
                    if e[0] == 'K':
                        if e[1] not in vals:
                            continue
                    elif isinstance(d, frozenset):
                        if not d & vals:
                            continue
                        g.facts[e] = d & vals
                    else:
                        g.facts[e] = frozenset(vals)
                nr.append(g)
        return nr

    def ret(self, eng, st, n, v):
        if self.args is None:
            return
        done = frozenset(k for k in self.args if ('A', k) in st.res)
        consts = tuple((k, st.mem[('A', k)][1]) for k in self.ptrs if st.mem.get(('A', k), ('?',))[0] == 'K')
        key = (done, consts)
        o = self.outs.setdefault(key, set())
        if v is None or o == 'any':
            self.outs[key] = 'any'
            return
        d = eng.domain(st, v)
        if v[0] == 'K':
            o.add(v[1])
        elif isinstance(d, frozenset):
            o |= d
        else:
            self.outs[key] = 'any'


class Unit:
    def __init__(self, ctx, unit, scale=1):
        self.scale = scale; self.p = ctx.prog(unit); self.eff = ctx.eff(unit); self.rv = ctx.rv(unit); self.memo = {}

    def outcome(self, cs, ks):
        outs = {}; reads = set()
        if not cs:
            return {(frozenset(ks), ()): 'any'}, reads
        for c in cs:
            o, r = self.summary(c, ks)
            reads |= r
            for k, v in o.items():
                outs[k] = 'any' if v == 'any' or outs.get(k) == 'any' else outs.get(k, frozenset()) | frozenset(v)
        return outs, reads

    def summary(self, c, ks):
        allset = ({(frozenset(ks), ()): 'any'}, set())
        f = self.p.fns.get(c)
        if f is None or f.decl or f.file.startswith('/usr') or any(k >= len(f.atypes) for k in ks):
            return allset
        if (c, ks) in self.memo:
            return self.memo[c, ks]
        self.memo[c, ks] = allset
        ck = Ck(self, f, ks)

        def init(eng, st):
            for k in ks:
                st.facts[('A', k)] = ('I', 1, INF, frozenset())
        Eng(self.p, f, ck, self.eff, maxst=150 * self.scale, init=init).run()
        outs = ck.outs
        if len(outs) > 40:
            m = {}
            for (done, _), v in outs.items():
                k = (done, ())
                m[k] = 'any' if v == 'any' or m.get(k) == 'any' else m.get(k, set()) | v
            outs = m
        self.memo[c, ks] = (outs, ck.reads)
        return self.memo[c, ks]


def locals_(U, ctx, unit, st, viol):
    p = U.p
    for f in p.fns.values():
        if f.decl or f.file.startswith('/usr') or not f.bbs:
            continue
        st['functions'] += 1
        und = [i for i in f.insts() if (i.o == 'phi' and any(v == 'undef' for v, _ in i.ph)) or
               (i.o != 'phi' and any(isinstance(x, str) and x == 'undef' for x in i.a))]
        st['undefined_operands'] += len(und)
        for scale in (1, 5):
            # states are merged when there are too many: a report then may be the merge's doing, so look closer
            V = U if scale == 1 else Unit(ctx, unit, scale)
            ck = Ck(V, f)
            ck.und = bool(und)
            if not ck.track and not und:
                break
            Eng(p, f, ck, U.eff, maxst=200 * scale).run()
            if not ck.viol:
                break
        st['locals_analysed'] += len(ck.used)
        for (b, k), a in ck.viol.items():
            i = f.bbs[b][k]
            nm = f.names.get(a[1], '?') if a[0] == 'M' else 'a value of this statement'
            viol.append({'rule': 'local-unset', 'fn': f.pretty, 'at': f.loc(i), 'detail': nm,
                         'msg': '%s may be used here without having been set: on some path nothing, or not the routine it was handed to, gives it a value' % nm})


def analyse(unit):
    ctx = Ctx()
    st = {'constructors': 0, 'members': 0, 'functions': 0, 'undefined_operands': 0, 'locals_analysed': 0}; viol = []
    U = Unit(ctx, unit)
    constructors(U.p, st, viol)
    locals_(U, ctx, unit, st, viol)
    return st, viol


def run(ctx):
    R = Result(['every constructor gives every data member that library code reads a value, on every path',
                'no local variable is read on a path that has not set it; a variable handed to a routine counts as set only for the results with which that routine has set it'])
    units = ['lib', 'lib-ma57', 'cwrap'] + ([u for u in EXTRA if u != 'lib-ma57'] if ctx.tier == 'thorough' else [])
    R.cov = {'units': units, 'per_unit': {}}
    R.prog = ctx.prog('lib')
    for u, (st, viol) in zip(units, pmap(analyse, units)):
        R.cov['per_unit'][u] = st
        for k, v in st.items():
            R.cov[k] = R.cov.get(k, 0) + v
        if u == 'lib':
            R.need(st['constructors'], 'constructors', 20)
            R.need(st['members'], 'members of constructed objects', 300)
            R.need(st['locals_analysed'], 'address-taken local variables', 50)
        R.obligations += st['members'] + st['locals_analysed']
        for v in viol:
            R.v(v['rule'], v['fn'], None, v['detail'], v['msg'], at=v['at'])
    return R
