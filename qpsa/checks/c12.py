"""C12  files: every handle closed exactly once, used only when open, and no read or write failure reported as success."""
import re
from ..common import Result, Ctx, pmap
from ..engine import Engine, INF
from ..own import Own
from ..build import EXTRA, AnalysisError

SCAN = {'fscanf', '__isoc99_fscanf', '__isoc23_fscanf'}
WRITE = {'fprintf': 0, 'vfprintf': 0, 'fputc': 1, 'putc': 1, 'fputs': 1, 'fwrite': 3, 'fread': 3}
OPEN = {'fopen', 'fopen64', 'tmpfile', 'freopen'}
USE = dict(WRITE, fclose=0, ferror=0, feof=0, fgets=2, fgetc=0, getc=0, fseek=0, rewind=0, fflush=0, ftell=0, **{s: 0 for s in SCAN})


def conversions(fmt):
    n = 0
    for m in re.finditer(r'%(\*?)\d*(?:hh|h|ll|l|L|z|j|t)?([a-zA-Z%\[])', fmt):
        if m.group(2) not in '%n' and not m.group(1):
            n += 1
    return n


class Ck:
    def __init__(self, A, f):
        self.A = A; self.f = f; self.v = {}; self.null = {}; self.sites = {}; self.exits = 0; self.unread = {}

    def reskey(self, eng, st):
        return frozenset((k, x, repr(st.facts.get(x[1])) if x[1] else None) for k, x in st.res.items())

    def keepfact(self, eng, st, k):
        return any(x[1] == k for x in st.res.values())

    def text(self, op):
        if isinstance(op, str) and op.startswith('@'):
            g = self.A.p.globals.get(op[1:])
            if g and g.get('init') and g['init'][0] == 'str':
                return g['init'][1]
        return None

    def pend(self, g, n, c, v):
        if not [k for k in g.res if k[0] == 'f']:
            g.res[('f', n.bb, n.k, c)] = (n.l, v)

    def call(self, eng, st, n, cs):
        A = self.A
        c = cs[0] if len(cs) == 1 else None
        if c in OPEN:
            self.sites[(n.bb, n.k)] = c
            eng.havoc(st, n, cs)
            v = ('V', n.i)
            st.env[n.i] = v
            m = self.text(n.a[1]) if len(n.a) > 1 else 'w'
            g = st.copy()
            st.res[('m', v)] = (0, None, 'w' if m is None or re.search('[wa+]', m) else 'r')
            st.facts[v] = ('I', 1, INF, frozenset())
            g.facts[v] = frozenset([0])
            return [st, g]
        if c in USE and USE[c] < len(n.a):
            fv = eng.addr(st, n.a[USE[c]])
            d = eng.domain(st, fv)
            opened = ('m', fv) in st.res
            self.sites[(n.bb, n.k)] = c
            if not opened and isinstance(d, frozenset) and 0 in d:
                self.null.setdefault((n.bb, n.k), c)
        if c in SCAN:
            fmt = self.text(n.a[1])
            want = conversions(fmt) if fmt is not None else None
            eng.havoc(st, n, cs)
            v = ('V', n.i)
            st.env[n.i] = v
            if want is None:
                self.unread[(n.bb, n.k)] = 1
                return [st]
            g = st.copy()
            st.facts[v] = frozenset([want])
            g.facts[v] = frozenset(range(-1, want))
            self.drop(g, n); self.drop(st, n)
            self.pend(g, n, c, v)
            return [st, g]
        if c in WRITE and self.stream(eng, st, n.a[WRITE[c]]):
            eng.havoc(st, n, cs)
            fv = eng.addr(st, n.a[WRITE[c]])
            g = st.copy()
            v = None
            if n.i is not None:
                v = ('V', n.i)
                st.env[n.i] = g.env[n.i] = v
            if c in ('fwrite', 'fread'):
                cnt = eng.val(st, n.a[2])
                if eng.assume(st, ('C', 'eq', v, cnt), True) is False or eng.assume(g, ('C', 'ult', v, cnt), True) is False:
                    raise AnalysisError('fwrite count')
                if cnt[0] == 'K':
                    st.facts[v] = frozenset([cnt[1]])
                    g.facts[v] = frozenset(range(0, cnt[1])) if cnt[1] < 9 else ('I', 0, cnt[1] - 1, frozenset())
            elif v is not None:
                st.facts[v] = ('I', 0, INF, frozenset()); g.facts[v] = ('I', -INF, -1, frozenset())
            g.res[('e', fv)] = (0, None)
            self.pend(g, n, c, v)
            return [st, g]
        if c == 'ferror':
            v = ('V', n.i)
            fv = eng.addr(st, n.a[0])
            st.env[n.i] = v
            st.facts[v] = ('I', 1, INF, frozenset()) if ('e', fv) in st.res else frozenset([0])
            return [st]
        if c == 'fclose':
            fv = eng.addr(st, n.a[0])
            eng.havoc(st, n, cs)
            v = ('V', n.i)
            st.env[n.i] = v
            m = st.res.pop(('m', fv), None)
            if not (m and m[2] == 'w'):
                return [st]
            g = st.copy()
            st.facts[v] = frozenset([0]); g.facts[v] = frozenset([-1])
            if ('e', fv) in g.res:
                return [st, g]
            self.pend(g, n, c, v)
            return [st, g]
        for x in cs:
            g = A.p.fns.get(x)
            if g is None or g.decl or not A.closer(x):
                continue
            # a helper that checks or closes the file takes over the obligation (it is analysed itself)
            for a in n.a:
                if isinstance(a, str) and a.startswith('%'):
                    fv = eng.addr(st, a)
                    if ('m', fv) in st.res or ('e', fv) in st.res:
                        st.res.pop(('e', fv), None); st.res.pop(('m', fv), None)
                        for k in [k for k in st.res if k[0] == 'f']:
                            del st.res[k]
        return A.rv.apply(eng, st, n, cs)

    def drop(self, st, n):
        for k in [k for k in st.res if k[0] == 'f' and (k[1], k[2]) == (n.bb, n.k)]:
            del st.res[k]

    def stream(self, eng, st, op):
        """a file of this routine or one handed in; not the standard streams or a handler's own stream"""
        if not isinstance(op, str) or not op.startswith('%'):
            return False
        v = eng.val(st, op)
        if ('m', v) in st.res:
            return True
        return v[0] == 'A' and self.f.rettype == 'returnValue'

    def ret(self, eng, st, n, v):
        self.exits += 1
        if v is None or self.f.rettype != 'returnValue':
            return
        d = eng.domain(st, v)
        if isinstance(d, frozenset) and 0 not in d:
            return
        for k, x in st.res.items():
            if k[0] == 'f':
                self.v.setdefault(k, set()).add((st.trace or n).l)


class Analysis:
    def __init__(self, ctx, unit):
        self.p = ctx.prog(unit); self.eff = ctx.eff(unit); self.rv = ctx.rv(unit)
        self._cl = {}

    def closer(self, c, depth=3):
        if c not in self._cl:
            self._cl[c] = False
            f = self.p.fns.get(c)
            if f is not None and not f.decl:
                for i in f.calls():
                    for x in self.p.callees(i):
                        if x in ('ferror', 'fclose') or (depth and self.closer(x, depth - 1)):
                            self._cl[c] = True
        return self._cl[c]


def analyse(unit):
    ctx = Ctx(); A = Analysis(ctx, unit); p = A.p
    o = Own(p, A.eff, A.rv); o.run(ctx.sccs(unit))
    viol = []; st = {'functions': 0, 'file_operations': 0, 'exits': 0, 'open_sites': 0, 'unreadable_formats': 0}
    for v in o.viol:
        if v['kind'] == 'file':
            viol.append({'rule': 'handle-' + v['rule'], 'fn': v['fn'], 'at': v['at'], 'detail': v['rule'], 'msg': v['msg']})
    for f in p.fns.values():
        if f.decl or f.file.startswith('/usr') or not f.bbs:
            continue
        if not any(c in USE or c in OPEN for i in f.calls() for c in p.callees(i)):
            continue
        ck = Ck(A, f)
        Engine(p, f, ck, A.eff, maxst=200).run()
        st['functions'] += 1; st['file_operations'] += len(ck.sites); st['exits'] += ck.exits
        st['open_sites'] += sum(1 for c in ck.sites.values() if c in OPEN)
        st['unreadable_formats'] += len(ck.unread)
        for (b, k), c in ck.null.items():
            viol.append({'rule': 'not-open', 'fn': f.pretty, 'at': f.loc(f.bbs[b][k]), 'detail': c,
                         'msg': '%s on a file that may not have been opened' % c})
        for k, ls in ck.v.items():
            i = f.bbs[k[1]][k[2]]
            viol.append({'rule': 'unreported', 'fn': f.pretty, 'at': f.loc(i), 'detail': k[3],
                         'msg': 'failing %s can be followed by returning success (exit at line %s)' % (k[3], sorted(x for x in ls if x)[:1])})
    return st, viol


def run(ctx):
    R = Result(['every file opened by a routine is closed exactly once on every path to an exit and not used afterwards',
                'a file is used only where opening it is known to have succeeded',
                'after a read that converted fewer items than asked for, a failed write or a failed close of a written file no path returns success'])
    units = ['lib', 'cwrap'] + (EXTRA if ctx.tier == 'thorough' else [])
    R.cov = {'units': units, 'per_unit': {}}
    R.prog = ctx.prog('lib')
    for u, (st, viol) in zip(units, pmap(analyse, units)):
        R.cov['per_unit'][u] = st
        for k, v in st.items():
            R.cov[k] = R.cov.get(k, 0) + v
        if u == 'lib':
            R.need(st['open_sites'], 'places that open a file', 5)
            R.need(st['file_operations'], 'file operations', 15)
        R.obligations += st['file_operations']
        for v in viol:
            R.v(v['rule'], v['fn'], None, v['detail'], v['msg'], at=v['at'])
    R.cov['explanation'] = 'Every function that opens, reads, writes or closes a file; every operation split into its success and failure outcome.'
    return R
