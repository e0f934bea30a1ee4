"""C17  problem data keep their role (Hessian, gradient, lower/upper bounds, ...) on every way through the library."""
import re
from collections import defaultdict
from ..common import Result, Ctx, pmap
from ..build import EXTRA

ROLES = {'H', 'g', 'A', 'lb', 'ub', 'lbA', 'ubA', 'x', 'y'}
ALIAS = {'xOpt': 'x', 'yOpt': 'y', 'x0': 'x', 'y0': 'y', 'lA': 'lbA', 'uA': 'ubA'}
TEXT = {'H': 'Hessian', 'g': 'gradient', 'A': 'constraint matrix', 'lb': 'lower bounds', 'ub': 'upper bounds', 'lbA': 'lower constraint bounds',
        'ubA': 'upper constraint bounds', 'x': 'primal solution', 'y': 'dual solution', 'R': 'Cholesky factor'}
# x and y are the operands of a product in these classes, not primal and dual solution; BLAS and Givens names are generic
GENERIC = ('Matrix', 'DenseMatrix', 'SymmetricMatrix', 'SymDenseMat', 'SparseMatrix', 'SparseMatrixRow', 'SymSparseMat', 'Indexlist', 'SubjectTo',
           'SparseSolver', 'DummySparseSolver', 'Ma27SparseSolver', 'Ma57SparseSolver', 'UserSparseSolver')
SUFFIX = re.compile(r'(_?(new|New|file|File|far|original|Original|old|in|out|ptr|const|cur))+$')
PTR = re.compile(r'^(const )?(double|float|char|SymmetricMatrix|Matrix|SymDenseMat|DenseMatrix|SparseMatrix)\b.*\*')

DATA = {'g', 'lb', 'ub', 'lbA', 'ubA'}
STEP = {'delta_' + r for r in DATA}


def own(rs):
    """a member of the object: moving data among these (relaxing a bound) is part of the method"""
    return all(w[0].startswith('member ') for w in rs.values())


def role_of(name):
    n = SUFFIX.sub('', name.strip('_')).strip('_')
    n = ALIAS.get(n, n)
    if n in ROLES:
        return n
    if n.startswith('delta_') and n[6:] in ROLES | {'xFR', 'xFX', 'yAC', 'yFX', 'Ax'}:
        return n


class Flow:
    def __init__(self, p):
        self.p = p; self.viol = []; self.stat = defaultdict(int); self.inferred = {}
        self.fns = [f for f in p.fns.values() if not f.decl and p.in_repo(f) and 'BLAS' not in f.file and 'LAPACK' not in f.file]
        for k in range(3):
            before = dict(self.inferred)
            self.viol = []; self.stat = defaultdict(int); self.given = defaultdict(list)
            for f in self.fns:
                self.function(f)
            self.infer()
            if self.inferred == before:
                break

    # -- roles by declaration
    def param(self, g, k):
        if g.decl or not self.p.in_repo(g) or 'BLAS' in g.file or 'LAPACK' in g.file:
            return None
        if g.is_method and k == 0 or k >= g.nargs or g.atypes[k] != 'ptr' or g.cls in GENERIC:
            return None
        if not PTR.match(g.argtype(k)):
            return None
        return role_of(g.argname(k)) or self.inferred.get((g.n, k))

    def field(self, key):
        c, n = key.rsplit('::', 1)
        if c in GENERIC or key not in self.ftypes:
            return None
        return role_of(n)

    @property
    def ftypes(self):
        if not hasattr(self, '_ft'):
            self._ft = {'%s::%s' % (c, m['n']) for c in self.p.types for _c, m in self.p.members(c) if '*' in m['t'] or m['t'] in ('ptr',)
                        or 'double' in m['t'] or 'Matrix' in m['t']}
        return self._ft

    def infer(self):
        """unnamed parameter of an internal routine: the role all callers give it"""
        for (n, k), rs in self.given.items():
            g = self.p.fns[n]
            if len(set(rs)) == 1 and rs[0] is not None and g.cls not in GENERIC and PTR.match(g.argtype(k)) and (g.internal or g.acc in (1, 2)) \
                    and not role_of(g.argname(k)):
                self.inferred[(n, k)] = rs[0]

    # -- one function
    def function(self, f):
        par = {}; roles = {}

        def find(x):
            while par.setdefault(x, x) != x:
                par[x] = par[par[x]]; x = par[x]
            return x

        def union(a, b):
            a, b = find(a), find(b)
            if a == b:
                return
            par[b] = a
            for r, w in roles.pop(b, {}).items():
                roles.setdefault(a, {}).setdefault(r, w)

        def node(o):
            if isinstance(o, list):
                return node(o[1]['b'])
            if isinstance(o, str) and o.startswith('%'):
                return int(o[1:])

        def anchor(n, r, where):
            if n is not None and r:
                roles.setdefault(find(n), {}).setdefault(r, where)
        for k in range(f.nargs):
            anchor(k, self.param(f, k), ('parameter %s' % f.argname(k), None))
        copies = []; calls = []; filled = set()
        for i in f.insts():
            o = i.o
            if o == 'getelementptr':
                b = node(i.g['b'])
                e = f.exid(i.i)
                if e[0] == 'P' and e[4] is None and b is not None and self.elem(i):
                    union(b, i.i)
            elif o in ('bitcast', 'freeze'):
                if node(i.a[0]) is not None:
                    union(node(i.a[0]), i.i)
            elif o == 'phi' and i.t == 'ptr':
                for v, _ in i.ph:
                    if node(v) is not None:
                        union(node(v), i.i)
            elif o == 'select' and i.t == 'ptr':
                for v in i.a[1:]:
                    if node(v) is not None:
                        union(node(v), i.i)
            elif o == 'load' and i.t == 'ptr':
                a = f.ex(i.a[0])
                if a[0] == 'P' and a[4] and not a[4].startswith('up:'):
                    anchor(i.i, self.field(a[4]), ('member %s' % a[4], i))
                elif a[0] == 'M' or a[0] == 'A':
                    union(('slot', a), i.i)
            elif o == 'store':
                a = f.ex(i.a[1]); v = node(i.a[0])
                if v is not None and f.inst.get(v, None) is not None and f.inst[v].t != 'ptr' and f.inst[v].o != 'call':
                    # element copy
                    d = node(i.a[1])
                    if f.inst[v].o == 'load' and d is not None and node(f.inst[v].a[0]) is not None:
                        copies.append((d, node(f.inst[v].a[0]), i))
                    continue
                if v is None:
                    continue
                if a[0] == 'P' and a[4] and not a[4].startswith('up:'):
                    anchor(v, self.field(a[4]), ('member %s' % a[4], i))
                elif a[0] == 'M' or a[0] == 'A':
                    union(('slot', a), v)
            elif o in ('call', 'invoke'):
                calls.append(i)
        for i in calls:
            cs = self.p.callees(i)
            if len(cs) == 1 and cs[0].startswith(('llvm.memcpy', 'llvm.memmove')):
                a, b = node(i.a[0]), node(i.a[1])
                if a is not None and b is not None:
                    union(a, b)
                continue
            ctor = None
            for c in cs:
                g = self.p.fns.get(c)
                if g is None:
                    continue
                if g.sn == g.cls and g.cls in GENERIC and 'Matrix' in g.cls or g.cls in ('SymDenseMat', 'SymSparseMat') and g.sn == g.cls:
                    # matrix object around an array
                    for k, a in enumerate(i.a):
                        if k and not g.decl and PTR.match(g.argtype(k)) and 'double' in g.argtype(k) and node(a) is not None and node(i.a[0]) is not None:
                            union(node(a), node(i.a[0]))
                for k, a in enumerate(i.a):
                    n = node(a)
                    if n is None:
                        continue
                    r = self.param(g, k)
                    if not g.decl and k < g.nargs and not g.argtype(k).startswith('const'):
                        filled.add(n)
                    if r:
                        self.stat['arguments'] += 1
                        anchor(n, r, ('argument %s of %s' % (g.argname(k), g.pretty), i))
        for i in calls:
            for c in self.p.callees(i):
                g = self.p.fns.get(c)
                if g is None or g.decl or not self.p.in_repo(g):
                    continue
                got = {}
                for k, a in enumerate(i.a):
                    n = node(a)
                    if n is None or k >= g.nargs or g.atypes[k] != 'ptr' or g.is_method and k == 0:
                        continue
                    rs = roles.get(find(n), {})
                    one = next(iter(rs)) if len(rs) == 1 else None
                    self.given[(c, k)].append(one)
                    if one and not self.param(g, k) and PTR.match(g.argtype(k)):
                        got.setdefault('char' if 'char' in g.argtype(k) else 'data', set()).add(one)
                # an array and the file it comes from
                if len(got) == 2:
                    self.stat['file arguments'] += 1
                    if got['char'] != got['data']:
                        self.viol.append(('file', f, i, '/'.join(sorted(got['data'])), 'data of role "%s" and file of role "%s" in one call of %s'
                                          % (self.text(got['data']), self.text(got['char']), g.pretty)))
        filled = {find(n) for n in filled}
        for n, rs in roles.items():
            self.stat['roled values'] += 1
            if len({r.replace('delta_', '') for r in rs}) > 1:      # a system may be solved for the data in place of their steps
                if n not in filled and all(r.startswith('delta_') for r in rs) and not any(w[1] is None for w in rs.values()):
                    continue        # one block set up here (all zeros) that stands for several steps, which are only read
                ws = sorted(rs.items(), key=lambda x: (x[1][1] is None, x[0]))
                at = next((w[1] for _, w in ws if w[1] is not None), None)
                self.viol.append(('role', f, at, '/'.join(sorted(rs)),
                                  'one array is used as ' + ' and as '.join('%s (%s)' % (self.text([r]), w[0]) for r, w in ws)))
        for d, s, i in copies:
            a, b = roles.get(find(d), {}), roles.get(find(s), {})
            if a and b and (set(a) | set(b) <= DATA or set(a) | set(b) <= STEP or set(a) | set(b) <= {'x', 'y'}) and not (own(a) and own(b)):
                self.stat['element copies'] += 1
                if not set(a) & set(b) and find(d) != find(s):
                    self.viol.append(('copy', f, i, '/'.join(sorted(b)) + '->' + '/'.join(sorted(a)), 'elements of %s are stored as %s' % (self.text(b), self.text(a))))

    def elem(self, i):
        g = i.g
        return True

    @staticmethod
    def text(rs):
        return '/'.join(('step of ' + TEXT.get(r[6:], r[6:]) if r.startswith('delta_') else TEXT.get(r, r)) for r in sorted(rs))


def analyse(unit):
    ctx = Ctx(); F = Flow(ctx.prog(unit))
    return dict(F.stat), [dict(rule=r, fn=f.pretty, at=f.loc(i), detail=d, msg=m) for r, f, i, d, m in F.viol], sorted('%s %d' % k for k in F.inferred)


def run(ctx):
    R = Result(['an array that has one role (by the member, parameter or file it is) is passed to, stored in or copied into places of that role only'])
    units = ['lib', 'cwrap'] + (EXTRA if ctx.tier == 'thorough' else [])
    R.prog = ctx.prog('lib'); R.cov = {'units': units, 'per_unit': {}}
    for u, (st, viol, inf) in zip(units, pmap(analyse, units)):
        R.cov['per_unit'][u] = dict(st, inferred=len(inf))
        for k, x in st.items():
            if isinstance(x, int):
                R.cov[k] = R.cov.get(k, 0) + x
        R.obligations += st.get('arguments', 0) + st.get('element copies', 0) + st.get('file arguments', 0)
        if u == 'lib':
            R.need(st.get('arguments', 0), 'arguments with a role', 300)
            R.need(st.get('element copies', 0), 'element copies between arrays with roles', 4)
            R.need(st.get('file arguments', 0), 'arrays loaded from a file with a role', 5)
        for v in viol:
            R.v(v['rule'], v['fn'], None, v['detail'], v['msg'], at=v['at'])
    R.cov['explanation'] = ('Role inference: parameters and members carry a role by what they are declared to be; roles spread over copies, calls and '
                            'matrix wrappers; two roles meeting in one array are a mix-up.')
    return R
