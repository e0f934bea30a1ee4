"""C03  objects release what they own, only that, and keep no dangling pointer."""
from ..common import Result, Ctx, pmap
from ..engine import Engine, INF
from ..effects import root
from ..build import EXTRA, AnalysisError

MATS = ('DenseMatrix', 'SparseMatrix', 'SparseMatrixRow')
NEW = ('_Znam', '_Znwm')
DEL = ('_ZdaPv', '_ZdlPv')
# owned only while the flag is set
FLAG = {'QProblemB::H': 'QProblemB::freeHessian', 'QProblem::A': 'QProblem::freeConstraintMatrix'}
MATFLAG = 'Matrix::freeMemory'


def own_field(e):
    """'Cls::f' if e addresses a member of *this, own or inherited"""
    if e[0] == 'P' and not e[3] and e[4] and not e[4].startswith('up:') and upbase(e[1]) == ('A', 0):
        return e[4]
    return None


def upbase(b):
    while b[0] == 'P' and (b[4] is None or b[4].startswith('up:')) and (not b[3] or (b[4] is None and len(b[3]) == 1 and b[3][0][0] == 1 and b[2] == 0)):
        # the last form is the step to a virtual base
        b = b[1]
    return b


def strip(b):
    while b[0] == 'P':
        b = b[1]
    return b


def cls_of(k):
    return k.rsplit('::', 1)[0]


def isoff(d):
    """a flag's value is known not to be BT_TRUE"""
    if isinstance(d, frozenset):
        return 1 not in d
    return bool(d) and (d[1] > 1 or d[2] < 1 or 1 in d[3])


def is_dtor(f):
    return '~' in f.sn or any(x in f.n for x in ('D0Ev', 'D1Ev', 'D2Ev'))


def is_ctor(f):
    return f.cls is not None and f.sn == f.cls.split('::')[-1]


class Ck:
    """res: ('k', key) -> (kind, info, addr) final state of an owned member on this path
         kinds: N null, F released, B fresh block, S borrowed (info = source), X unknown
            ('flag', key) -> 0/1/None;  ('lost', value) -> (key, bb, k);  ('nofree',) matrices known not to own"""
    nonan = False

    def __init__(self, U, f):
        self.U = U; self.f = f; self.p = U.p; self.outs = {}; self.req = {}; self.viol = {}
        self.ctor = is_ctor(f); self.dtor = is_dtor(f)
        self.addr = {}

    def reskey(self, eng, st):
        return frozenset((k, v) for k, v in st.res.items())

    def memkeep(self, eng, st, a, v):
        k = own_field(a)
        return k in self.U.owned or k in self.U.flags

    def keepfact(self, eng, st, k):
        x = k
        while x[0] in ('L', 'P', 'O'):
            if x[0] == 'P' and (x[4] in self.U.owned or x[4] in self.U.flags):
                return ('k', x[4]) not in st.res and st.res.get(('flag', x[4])) is None
            x = x[1] if x[0] != 'O' else x[2]
        return False

    # -- current value of a member
    def cur(self, eng, st, key, addr):
        v = st.mem.get(addr)
        if v is None:
            e = st.ep.get(key)
            v = ('L', addr) if e is None else ('L', addr, e)
        return v

    def isnull(self, eng, st, v):
        if v == ('K', 0):
            return True
        d = eng.domain(st, v)
        return isinstance(d, frozenset) and d <= {0}

    def flagoff(self, eng, st, key):
        fl = self.U.flagof(key)
        if fl is None:
            return False
        if fl == MATFLAG:
            return ('nofree',) in st.res
        r = st.res.get(('flag', fl))
        if r is not None:
            return r == 0
        for a in self.U.addrs(self.f, fl):
            d = eng.domain(st, self.cur(eng, st, fl, a))
            if isoff(d):
                return True
        return False

    def state(self, eng, st, key, addr):
        r = st.res.get(('k', key))
        if r is not None:
            return r[0], r[1]
        if self.isnull(eng, st, self.cur(eng, st, key, addr)):
            return 'N', None
        if self.ctor and cls_of(key) == self.f.cls:
            return 'U', None
        return '?', None

    def kind(self, eng, st, v):
        if self.isnull(eng, st, v):
            return 'N', None
        b = v
        if v in self.fresh(st):
            return 'B', v
        r = b
        while r[0] == 'P':
            r = r[1]
        if r in self.fresh(st):
            return 'B', r
        if r[0] == 'A' and r[1] != 0 and (b == r or self.cast(b)):
            return 'S', r
        if r[0] == 'L':
            rr = r
            while rr[0] in ('P', 'L'):
                rr = rr[1]
            if rr[0] == 'A' and rr[1] != 0:
                return 'S', ('obj',)
        if r[0] == 'S':
            return 'X', None
        return 'X', None

    @staticmethod
    def cast(b):
        return True

    @staticmethod
    def fresh(st):
        return {k[1] for k in st.res if k[0] == 'fresh'}

    def overwrite(self, eng, st, n, key, addr, newv=None):
        """the member is about to be given another value"""
        s, info = self.state(eng, st, key, addr)
        if s == 'm' and info and info[0] in ('A', 'P') and self.isnull(eng, st, self.cur(eng, st, key, ('P', info) + addr[2:])):
            return
        if s in ('N', 'F', 'U', 'S', 'O') or self.flagoff(eng, st, key):
            return
        cv = self.cur(eng, st, key, addr)
        if newv is not None and newv == cv:
            return
        if s == 'X' and self.U.flagof(key) is None:
            return
        if s == 'X':
            return
        st.res[('lost', cv)] = (key, s, n.bb, n.k, self.rhsnull(eng, st, key))

    @staticmethod
    def relation(eng, st, a, b):
        k = eng.relkey('eq', a, b)
        return st.rels.get((k[1], k[2]))

    def holder(self, eng, st, e):
        """the object behind a pointer: a fresh block, or the member of *this holding it"""
        e = upbase(e)
        for key in FLAG:
            for a in self.U.addrs(self.f, key):
                if e == self.cur(eng, st, key, a) or strip(e) == strip(self.cur(eng, st, key, a)):
                    return ('key', key)
        while e[0] == 'P' and e[1][0] != 'M':
            e = e[1]
        return strip(e)

    def unwrap(self, eng, st, e):
        h = self.holder(eng, st, e)
        for k in [k for k, x in st.res.items() if k[0] == 'wrap' and x[0] in (h, strip(e))]:
            del st.res[k]

    def rhsnull(self, eng, st, key):
        """on this path the same member of the object copied from is null"""
        if self.f.nargs > 1 and self.f.atypes[1] == 'ptr':
            for a in self.U.addrs(self.f, key):
                if self.isnull(eng, st, self.cur(eng, st, key, ('P', ('A', 1)) + a[2:])):
                    return True
        return False

    def store(self, eng, st, n, addr, v):
        key = own_field(addr)
        if key in self.U.flags:
            st.res[('flag', key)] = v[1] if v[0] == 'K' else None
            if key == MATFLAG and v == ('K', 1):
                st.res.pop(('nofree',), None)
            return
        if addr[0] == 'P' and addr[4] == MATFLAG and v == ('K', 1):
            self.unwrap(eng, st, addr[1])
        # a fresh array put into another matrix object
        b = strip(v)
        if key is None and addr[0] == 'P' and self.U.flagof(addr[4] or '') == MATFLAG and st.res.get(('fresh', b)) == 'a':
            st.res[('wrap', b)] = (self.holder(eng, st, addr[1]), n.bb, n.k)
        # a saved old value kept elsewhere in the object
        if ('lost', v) in st.res and not (addr[0] == 'M'):
            del st.res[('lost', v)]
        if key in self.U.owned:
            if is_dtor(self.f) and False:
                return
            self.overwrite(eng, st, n, key, addr, v)
            st.res[('k', key)] = self.mirror(eng, st, key, addr, self.kind(eng, st, v))

    def mirror(self, eng, st, key, addr, kind):
        """a copy: null exactly when the same member of the source is null"""
        if kind[0] in ('B', 'N') and self.f.nargs > 1 and self.f.atypes[1] == 'ptr':
            src = ('P', ('A', 1)) + addr[2:]
            d = eng.domain(st, self.cur(eng, st, key, src))
            if kind[0] == 'B' and d is not None and not (isinstance(d, frozenset) and 0 in d) and not (not isinstance(d, frozenset) and 0 not in d[3] and d[1] <= 0 <= d[2]):
                return ('m', ('A', 1))
            if kind[0] == 'N' and isinstance(d, frozenset) and d <= {0}:
                return ('m', ('A', 1))
        return kind

    def release(self, eng, st, n, v):
        st.res.pop(('lost', v), None)
        st.res.pop(('wrap', v), None)
        h = st.res.get(('held', v))
        if h is not None and st.res.get(('k', h[0])) == h[1]:
            self.viol.setdefault(('dangling', h[0], n.bb, n.k), 'a block is released that the object set up through %s still refers to' % h[0])
        for key in self.U.owned:
            for a in self.U.addrs(self.f, key):
                if self.cur(eng, st, key, a) == v or (st.res.get(('k', key), ('', None))[1] == v and v is not None):
                    if ('old', v) in st.res:
                        continue
                    s, _ = self.state(eng, st, key, a)
                    if s == 'F':
                        self.viol.setdefault(('twice', key, n.bb, n.k), 'member %s is released twice' % key)
                    elif s in ('S', 'O'):
                        self.viol.setdefault(('foreign', key, n.bb, n.k), 'member %s is released although it was only borrowed from the caller' % key)
                    elif s in ('?',) and self.flagoff(eng, st, key):
                        self.viol.setdefault(('foreign', key, n.bb, n.k), 'member %s is released although its flag says it is not owned' % key)
                    elif s == '?' and self.U.flagof(key) not in (None, MATFLAG) and not self.flagon(eng, st, key):
                        self.viol.setdefault(('foreign', key, n.bb, n.k), 'member %s is released without its ownership flag being set' % key)
                    if s != 'N':
                        st.res[('k', key)] = ('F', None)

    def flagon(self, eng, st, key):
        fl = self.U.flagof(key)
        r = st.res.get(('flag', fl))
        if r is not None:
            return r == 1
        for a in self.U.addrs(self.f, fl):
            d = eng.domain(st, self.cur(eng, st, fl, a))
            if isinstance(d, frozenset) and d <= {1}:
                return True
        return False

    def distinct(self, eng, st, x, y):
        """x is a block allocated here, y what a member held before"""
        if strip(x) in self.fresh(st) and y[0] == 'L' and own_field(y[1]) in self.U.owned:
            return True
        if x[0] == 'L' and y[0] == 'L' and x[1] == y[1] and x != y:
            k = own_field(x[1])
            return k in self.U.owned and st.res.get(('k', k), ('',))[0] == 'B' and self.cur(eng, st, k, x[1]) in (x, y)
        return False

    def branch(self, eng, st, n, c, taken):
        if c[0] == 'C' and c[1] in ('eq', 'ne'):
            if (c[1] == 'eq') == bool(taken):
                if self.distinct(eng, st, c[2], c[3]) or self.distinct(eng, st, c[3], c[2]):
                    return False
            else:
                b = strip(c[2])     # the same block, as seen through two of its classes
                if b == strip(c[3]) and b in self.fresh(st):
                    return False
        if MATFLAG in self.U.flags and mentions_key(c, MATFLAG):
            # value 0 of the flag on this branch
            for e in terms(c):
                if e[0] == 'L' and e[1][0] == 'P' and e[1][4] == MATFLAG:
                    d = eng.domain(st, e)
                    if isoff(d):
                        st.res[('nofree',)] = 1
        for fk in [k for k, x in st.res.items() if k[0] == 'flag' and x is None]:
            for a in self.U.addrs(self.f, fk[1]):
                d = eng.domain(st, self.cur(eng, st, fk[1], a))
                if isoff(d):
                    st.res[fk] = 0
                elif isinstance(d, frozenset) and d <= {1}:
                    st.res[fk] = 1
        for e in terms(c):
            if e[0] == 'L' and e[1][0] == 'P':
                key = own_field(e[1])
                if key in self.U.flags and key != MATFLAG and isoff(eng.domain(st, e)) and self.cur(eng, st, key, e[1]) == e:
                    for mk, fl in FLAG.items():
                        if fl == key:
                            st.res.setdefault(('k', mk), ('O', None))
                if key in self.U.owned and st.res.get(('k', key), ('?',))[0] != 'F' and self.isnull(eng, st, e) and self.cur(eng, st, key, e[1]) == e:
                    st.res[('k', key)] = ('N', None)
                    st.mem[e[1]] = ('K', 0)
        return True

    def call(self, eng, st, n, cs):
        U = self.U
        c = cs[0] if cs else ''
        if len(cs) == 1 and c.startswith(NEW):
            eng.havoc(st, n, cs)
            v = ('V', n.i)
            st.env[n.i] = v
            st.facts[v] = ('I', 1, INF, frozenset())
            st.res[('fresh', v)] = 'a' if c.startswith('_Znam') else 'o'
            return [st]
        if cs and all(x.startswith(DEL) for x in cs) or (cs and all('D0Ev' in x for x in cs)):
            v = eng.addr(st, n.a[0])
            self.release(eng, st, n, v)
            eng.havoc(st, n, cs) if 'D0Ev' not in c else None
            return [st]
        onthis = bool(n.a) and isinstance(n.a[0], str) and upbase(eng.addr(st, n.a[0])) == ('A', 0) and self.f.cls is not None
        outs = None
        if onthis:
            outs, req = U.outcome(cs)
            pend = {}
            for (key, mirror), (where, s) in req.items():
                for a in U.addrs(self.f, key)[:1]:
                    if mirror and len(n.a) > 1 and isinstance(n.a[1], str):
                        cs0 = self.state(eng, st, key, a)
                        if cs0[0] == 'm' and cs0[1] == upbase(eng.addr(st, n.a[1])):
                            continue
                    self.overwrite(eng, st, n, key, a)
        args = [None if isinstance(a, int) else eng.addr(st, a) for a in n.a]
        fr = self.fresh(st)
        if cs and isinstance(n.a[0], str) if n.a else False:
            if all(U.setsfree(x) for x in cs):
                self.unwrap(eng, st, args[0])
            elif not onthis and all(x in U.p.fns and is_ctor(U.p.fns[x]) for x in cs):
                for j, av in enumerate(args):
                    if j and av is not None and st.res.get(('fresh', strip(av))) == 'a' and any(U.keeps(x, j) and U.matrix(x) for x in cs):
                        st.res[('wrap', strip(av))] = (self.holder(eng, st, args[0]), n.bb, n.k)
        oldv = {k: [(a, self.cur(eng, st, k, a)) for a in U.addrs(self.f, k)] for k in FLAG}
        r = U.rv.apply(eng, st, n, cs)
        if r is None:
            r = [st]
            if n.i is not None:
                st.env[n.i] = ('V', n.i)
        if n.i is not None and cs and all(U.freshret(x) for x in cs):
            for g in r:
                v = g.env.get(n.i, ('V', n.i))
                g.res[('fresh', v)] = 'o'
        if not outs:
            return r
        nr = []
        for t in r:
            for oc, vals in outs.items():
                g = t.copy()
                rel = dict(oc).get(('self',))
                if rel and len(args) > 1 and args[1] is not None:
                    have = self.relation(eng, st, upbase(args[0]), upbase(args[1]))
                    if have in ('eq', 'ne') and have != rel:
                        continue
                if vals != 'any' and n.i is not None:
                    e = g.env.get(n.i, ('V', n.i))
                    d = eng.domain(g, e)
                    if e[0] == 'K':
                        if e[1] not in vals:
                            continue
                    elif isinstance(d, frozenset):
                        if not d & vals:
                            continue
                        g.facts[e] = d & vals
                    else:
                        g.facts[e] = frozenset(vals)
                doc = dict(oc)
                for key, vs in oldv.items():
                    if doc.get(('k', key), ('O',))[0] == 'O':
                        for a, v0 in vs:
                            g.mem[a] = v0
                for k, x in oc:
                    if k[0] == 'k':
                        key = k[1]
                        setto = None
                        kind, info = x
                        if kind == 'S' and info and info[0] == 'A':
                            av = args[info[1]] if info[1] < len(args) else None
                            kind, info = self.kind(eng, g, av) if av is not None else ('X', None)
                            setto = av if kind == 'B' else None
                        elif kind == 'm':
                            av = args[info[1]] if info[1] < len(args) else None
                            info = av if av is not None and upbase(av)[0] == 'A' else None
                            info = upbase(info) if info else None
                        elif kind == 'B':
                            info = ('C', n.bb, n.k)
                        g.res[('k', key)] = (kind, info)
                        for a in U.addrs(self.f, key):
                            if kind == 'N':
                                g.mem[a] = ('K', 0)
                            elif setto is not None:
                                g.mem[a] = setto
                        for j, av in enumerate(args):
                            if av is not None and j and st.res.get(('fresh', strip(av))) == 'a' and key in FLAG and kind in ('B', 'S', 'X') and any(key in U.retains(x, j) for x in cs):
                                g.res[('wrap', strip(av))] = (('key', key), n.bb, n.k)
                            if av in fr and kind in ('B', 'S', 'X') and any(key in U.retains(x, j) for x in cs):
                                g.res[('held', av)] = (key, g.res[('k', key)])
                    elif k[0] == 'flag':
                        g.res[k] = x
                        if x is not None:
                            for a in U.addrs(self.f, k[1]):
                                g.mem[a] = ('K', x)
                nr.append(g)
        return nr

    def ret(self, eng, st, n, v):
        U = self.U; f = self.f
        oc = {}
        for k, x in st.res.items():
            if k[0] == 'flag':
                oc[k] = x
            elif k[0] == 'k':
                s = x
                if s[0] != 'N':
                    for a in U.addrs(f, k[1]):
                        if self.isnull(eng, st, self.cur(eng, st, k[1], a)) and s[0] in ('X',):
                            s = ('N', None)
                oc[k] = (s[0], s[1] if s[0] in ('S', 'm') else None)
            elif k[0] == 'lost':
                key, s, b, kk, mir = x
                if s == '?' and self.dtor:
                    self.viol.setdefault(('lost', key, b, kk), 'the destructor overwrites member %s without releasing it' % key)
                elif s == '?':
                    self.req.setdefault((key, mir), (f.loc(f.bbs[b][kk]), f))
                else:
                    self.viol.setdefault(('lost', key, b, kk), 'the block just stored in member %s is dropped without being released' % key)
            elif k[0] == 'wrap' and not any(
                    self.U.flagof(kk[1]) != MATFLAG and self.cur(eng, st, kk[1], a) == k[1]
                    for kk in st.res if kk[0] == 'k' for a in self.U.addrs(f, kk[1])):
                self.viol.setdefault(('flag', 'wrap', x[1], x[2]), 'a matrix is given a fresh array but is not told to release it')
        if is_ctor(f) and self.U.matrix(f.n) and 'C1E' in f.n:
            fl = st.res.get(('flag', MATFLAG), 'none')
            for k, x in st.res.items():
                if k[0] == 'k' and self.U.flagof(k[1]) == MATFLAG:
                    if x[0] == 'B' and fl != 1:
                        self.viol.setdefault(('flag', k[1], 0, 0), 'the constructor allocates %s but does not mark the arrays as owned' % k[1])
                    if x[0] == 'S' and fl != 0:
                        self.viol.setdefault(('flag', k[1], 0, 0), 'the constructor takes %s from the caller but does not mark the arrays as not owned' % k[1])
        # borrowed, and the flag is whatever it was at entry
        for key, fl in FLAG.items():
            if oc.get(('k', key), ('',))[0] == 'S' and ('flag', fl) not in oc:
                oc[('flag', fl)] = 0 if self.flagoff(eng, st, key) else 'entry'
        # members already null count as such
        for key in U.owned:
            if ('k', key) not in oc and not self.dtor:
                for a in U.addrs(f, key):
                    if st.mem.get(a) == ('K', 0):
                        oc[('k', key)] = ('N', None)
        if self.dtor and 'D2Ev' in f.n:
            for key in U.owned:
                if cls_of(key) != f.cls:
                    continue
                s = st.res.get(('k', key), ('?', None))[0]
                ok = s in ('N', 'F', 'S', 'O')
                if not ok:
                    for a in U.addrs_any(key):
                        if self.isnull(eng, st, self.cur(eng, st, key, a)):
                            ok = True
                if not ok and self.flagoff(eng, st, key):
                    ok = True
                if not ok:
                    self.viol.setdefault(('kept', key, 0, 0), 'the destructor leaves member %s unreleased on some path' % key)
        if f.nargs > 1 and f.atypes[1] == 'ptr':
            rel = self.relation(eng, st, ('A', 0), ('A', 1))
            if rel in ('eq', 'ne'):
                oc[('self',)] = rel
        okey = frozenset(oc.items())
        o = self.outs.setdefault(okey, set())
        if v is None or o == 'any':
            self.outs[okey] = 'any'
            return
        d = eng.domain(st, v)
        if v[0] == 'K':
            o.add(v[1])
        elif isinstance(d, frozenset):
            o |= d
        else:
            self.outs[okey] = 'any'


def terms(e):
    yield e
    for x in e[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            yield from terms(x)


def mentions_key(e, key):
    return any(x[0] == 'P' and x[4] == key for x in terms(e) if len(x) > 4)


class Unit:
    def __init__(self, ctx, unit):
        self.p = p = ctx.prog(unit); self.eff = ctx.eff(unit); self.rv = ctx.rv(unit); self.memo = {}; self._rt = {}; self._ad = {}; self._fr = {}
        self.owned = {}
        self.flags = set(FLAG.values()) | {MATFLAG}
        self.fnaddr = {}
        self.kaddr = {}
        for f in p.fns.values():
            if f.decl or f.file.startswith('/usr') or not f.cls:
                continue
            for i in f.insts():
                if i.o in ('load', 'store') and not isinstance(i.a[-1 if i.o == 'store' else 0], int):
                    a = f.ex(i.a[1] if i.o == 'store' else i.a[0])
                    k = own_field(a)
                    if k:
                        self.fnaddr.setdefault(f.n, {}).setdefault(k, set()).add(a)
                        self.kaddr.setdefault(k, set()).add(a)
                if i.o == 'call' and i.a and not isinstance(i.a[0], int):
                    cs = p.callees(i)
                    if any(c.startswith(DEL) or 'D0Ev' in c for c in cs):
                        e = f.ex(i.a[0])
                        if e[0] == 'L' and own_field(e[1]):
                            self.owned.setdefault(own_field(e[1]), []).append('deleted in ' + f.pretty)
                if i.o == 'store' and isinstance(i.a[0], str) and own_field(f.ex(i.a[1])):
                    b = f.ex(i.a[0])
                    while b[0] == 'P':
                        b = b[1]
                    if b[0] == 'V' and b[1] in f.inst and f.inst[b[1]].o == 'call' and p.callees(f.inst[b[1]]) and all(
                            c.startswith(NEW) for c in p.callees(f.inst[b[1]])):
                        self.owned.setdefault(own_field(f.ex(i.a[1])), []).append('allocated in ' + f.pretty)
        for k in FLAG:
            if k not in self.owned:
                raise AnalysisError('member %s is not found among the released members' % k)

    def flagof(self, key):
        if key in FLAG:
            return FLAG[key]
        if cls_of(key) in MATS and not key.endswith('::jd'):
            return MATFLAG
        return None

    def addrs(self, f, key):
        a = self.fnaddr.get(f.n, {}).get(key)
        return list(a) if a else [('P', ('A', 0), 0, (), key)]

    def addrs_any(self, key):
        return list(self.kaddr.get(key, ())) or [('P', ('A', 0), 0, (), key)]

    def freshret(self, c):
        if c in self._fr:
            return self._fr[c]
        self._fr[c] = False
        f = self.p.fns.get(c)
        if f is None or f.decl or f.rt != 'ptr' or f.file.startswith('/usr'):
            return False

        def ok(op, seen):
            if isinstance(op, int) or op == 'null':
                return True
            if not isinstance(op, str) or not op.startswith('%'):
                return False
            if op in seen:
                return True
            seen.add(op)
            i = f.inst.get(int(op[1:]))
            if i is None:
                return False
            if i.o == 'phi':
                return all(ok(v, seen) for v, _ in i.ph)
            if i.o == 'select':
                return all(ok(v, seen) for v in i.a[1:])
            if i.o == 'getelementptr':
                return ok(i.g['b'], seen)
            if i.o == 'call':
                cs = self.p.callees(i)
                return bool(cs) and all(x.startswith(NEW) or self.freshret(x) for x in cs)
            return False
        rs = [i for i in f.insts() if i.o == 'ret' and i.a]
        self._fr[c] = bool(rs) and all(ok(i.a[0], set()) for i in rs)
        return self._fr[c]

    def retains(self, c, k, seen=()):
        """members of *this through which c keeps hold of its argument k (may)"""
        m = self._rt.get((c, k))
        if m is not None:
            return m
        if (c, k) in seen:
            return set()
        seen = seen + ((c, k),)
        f = self.p.fns.get(c)
        out = set()
        if f is None or f.decl or not f.cls or k == 0 or k >= f.nargs or f.file.startswith('/usr'):
            return out
        vals = {('A', k)}; news = set(); done = 0
        while done != len(vals) + len(news):
            done = len(vals) + len(news)
            for i in f.insts():
                if i.o in ('phi', 'select'):
                    ops = [v for v, _ in i.ph] if i.o == 'phi' else i.a[1:]
                    if any(isinstance(v, str) and f.ex(v) in vals for v in ops):
                        vals.add(('V', i.i)); vals.add(f.ex('%%%d' % i.i))
                elif i.o == 'getelementptr' and isinstance(i.g['b'], str) and f.ex(i.g['b']) in vals:
                    vals.add(('V', i.i)); vals.add(f.ex('%%%d' % i.i))
                elif i.o == 'call' and i.a:
                    cs = self.p.callees(i)
                    ex = [f.ex(a) if isinstance(a, str) else None for a in i.a]
                    for j, e in enumerate(ex):
                        if j and e in vals:
                            rs = set()
                            for x in cs:
                                if is_ctor(self.p.fns[x]) if x in self.p.fns else False:
                                    rs |= {'*'} if self.keeps(x, j) else set()
                                else:
                                    rs |= self.retains(x, j, seen)
                            if not rs:
                                continue
                            b = upbase(ex[0])
                            if b == ('A', 0):
                                out |= rs
                            else:
                                vals.add(ex[0]); vals.add(b)
                elif i.o == 'store' and isinstance(i.a[0], str) and f.ex(i.a[0]) in vals:
                    key = own_field(f.ex(i.a[1]))
                    if key:
                        out.add(key)
        if len(seen) == 1:
            self._rt[(c, k)] = out
        return out

    def keeps(self, c, k, seen=()):
        """a constructor stores its argument k in the object (through base constructors too)"""
        f = self.p.fns.get(c)
        if f is None or f.decl or (c, k) in seen or k >= f.nargs:
            return False
        for i in f.insts():
            if i.o == 'store' and isinstance(i.a[0], str) and f.ex(i.a[0]) == ('A', k) and own_field(f.ex(i.a[1])):
                return True
            if i.o == 'call' and i.a and isinstance(i.a[0], str) and upbase(f.ex(i.a[0])) == ('A', 0):
                for j, a in enumerate(i.a):
                    if j and isinstance(a, str) and f.ex(a) == ('A', k):
                        if any(self.keeps(x, j, seen + ((c, k),)) for x in self.p.callees(i)):
                            return True
        return False

    def matrix(self, c):
        f = self.p.fns.get(c)
        return f is not None and (f.cls in MATS or f.cls in ('SymDenseMat', 'SymSparseMat'))

    def setsfree(self, c):
        """c marks the arrays of its object as owned, on every path"""
        f = self.p.fns.get(c)
        if f is None or f.decl or not f.cls or is_ctor(f) or MATFLAG not in self.eff.writes(c):
            return False
        o, _ = self.summary(c)
        return bool(o) and all(dict(k).get(('flag', MATFLAG)) == 1 for k in o)

    def touches(self, c, seen=None):
        """does c (on this) write owned members or flags"""
        return bool((self.owned.keys() | self.flags) & set(self.eff.writes(c)))

    def outcome(self, cs):
        outs = {}; req = {}
        for c in cs:
            f = self.p.fns.get(c)
            if f is None or f.decl or not f.cls:
                continue
            o, r = self.summary(c)
            for k, v in o.items():
                outs[k] = 'any' if v == 'any' or outs.get(k) == 'any' else outs.get(k, frozenset()) | frozenset(v)
            for k, v in r.items():
                req.setdefault(k, v)
        if outs and all(not k for k in outs):
            outs = None
        return outs, req

    def summary(self, c):
        if c in self.memo:
            return self.memo[c]
        self.memo[c] = ({}, {})
        f = self.p.fns[c]
        if not self.touches(c) and not is_ctor(f):
            return self.memo[c]
        self.memo[c] = self.analyse(f)
        return self.memo[c]

    def reduce(self, outs):
        """join the outcomes that agree on the flagged matrices and their flags"""
        keep = {('self',)} | {('k', k) for k in FLAG} | {('flag', v) for v in FLAG.values()}
        groups = {}
        for oc, vals in outs.items():
            groups.setdefault(frozenset((k, x) for k, x in oc if k in keep), []).append((dict(oc), vals))
        res = {}
        for g, ms in groups.items():
            oc = set(g)
            for k in {k for m, _ in ms for k in m if k not in keep}:
                xs = {m.get(k, ('?', None)) if k[0] == 'k' else m.get(k) for m, _ in ms}
                if len(xs) == 1:
                    x = xs.pop()
                elif k[0] == 'flag':
                    x = None
                else:
                    ks = {x[0] for x in xs}
                    x = ('Y', None) if ks <= {'B', 'N', 'Y', 'm'} else ('?', None) if ks <= {'B', 'N', 'Y', 'm', '?'} else ('F', None) if 'F' in ks else ('X', None)
                if x != ('?', None):
                    oc.add((k, x))
            v = frozenset()
            for _, vals in ms:
                v = 'any' if v == 'any' or vals == 'any' else v | frozenset(vals)
            res[frozenset(oc)] = v
        return res

    def analyse(self, f):
        ck = Ck(self, f)
        e = Engine(self.p, f, ck, self.eff, maxst=200)
        e.run()
        outs = ck.outs
        if len(outs) > 8:
            outs = self.reduce(outs)
        ck.trunc = e.trunc
        self.last = ck
        self.cks = getattr(self, 'cks', {})
        self.cks[f.n] = ck
        return outs, ck.req


def analyse(unit):
    ctx = Ctx(); U = Unit(ctx, unit); p = U.p
    st = {'owned_members': len(U.owned), 'functions': 0, 'exits': 0}; viol = []
    called = set()
    for f in p.fns.values():
        if f.decl or f.file.startswith('/usr') or not f.cls or not f.bbs:
            continue
        if not (U.touches(f.n) or is_ctor(f) or is_dtor(f)):
            continue
        U.summary(f.n) if not is_dtor(f) else U.memo.setdefault(f.n, U.analyse(f))
    for f in p.fns.values():
        ck = getattr(U, 'cks', {}).get(f.n)
        if ck is None:
            continue
        st['functions'] += 1
        st['exits'] += len(ck.outs)
        for (rule, key, b, k), msg in ck.viol.items():
            viol.append({'rule': rule, 'fn': f.pretty, 'at': f.loc(f.bbs[b][k]) if b or k else f.loc(), 'detail': key, 'msg': msg})
        public = f.acc in (0, 3) or is_ctor(f)
        if is_dtor(f):
            continue
        if public:
            for (key, _), (where, g) in ck.req.items():
                viol.append({'rule': 'lost', 'fn': f.pretty, 'at': where, 'detail': key,
                             'msg': 'member %s is overwritten while it may own a block (reached from %s)' % (key, f.pretty)})
            for oc in ck.outs:
                d = dict(oc)
                for k, x in oc:
                    if k[0] == 'k' and x[0] == 'F':
                        viol.append({'rule': 'dangling', 'fn': f.pretty, 'at': f.loc(), 'detail': k[1], 'msg': 'member %s can be left pointing to a released block' % k[1]})
                for key, fl in FLAG.items():
                    s = d.get(('k', key)); g = d.get(('flag', fl), 'same')
                    if s and s[0] == 'S' and g not in (0, 'same'):
                        viol.append({'rule': 'flag', 'fn': f.pretty, 'at': f.loc(), 'detail': key, 'msg': 'borrowed %s %s marked as owned' % (key, 'may still be' if g == 'entry' else 'is')})
                    if s and s[0] == 'B' and g != 1:
                        viol.append({'rule': 'flag', 'fn': f.pretty, 'at': f.loc(), 'detail': key, 'msg': 'fresh %s is not marked as owned' % key})
                    if (s is None or s[0] == 'O') and g == 1:
                        viol.append({'rule': 'flag', 'fn': f.pretty, 'at': f.loc(), 'detail': key, 'msg': '%s is marked as owned on a path that does not set it' % key})
    return st, viol


def run(ctx):
    R = Result(['every destructor releases each owned member on every path',
                'a member is given a new block or null only when it holds none, or the old block is released',
                'no member keeps pointing to a released block at the exit of a public function',
                'the flags that say whether a matrix is owned agree with where it came from'])
    units = ['lib', 'lib-ma57'] + ([u for u in EXTRA if u != 'lib-ma57'] if ctx.tier == 'thorough' else [])
    R.cov = {'units': units, 'per_unit': {}}
    R.prog = ctx.prog('lib')
    for u, (st, viol) in zip(units, pmap(analyse, units)):
        R.cov['per_unit'][u] = st
        for k, v in st.items():
            R.cov[k] = R.cov.get(k, 0) + v
        if u == 'lib':
            R.need(st['owned_members'], 'owned members', 40)
        R.obligations += st['owned_members'] + st['exits']
        for v in viol:
            R.v(v['rule'], v['fn'], None, v['detail'], v['msg'], at=v['at'])
    return R
