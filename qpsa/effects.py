"""Transitive field-effect and out-parameter summaries, call-graph SCCs."""
from .ir import leaves

# externals that write through pointer arguments: name prefix -> argument indices (None = all after k)
EXT_OUT = {'__isoc23_fscanf': range(2, 32), '__isoc99_fscanf': range(2, 32), 'fscanf': range(2, 32), 'sscanf': range(2, 32),
           '__isoc23_sscanf': range(2, 32), 'snprintf': (0,), 'sprintf': (0,), 'strcpy': (0,), 'strncpy': (0,), 'fgets': (0,),
           'fread': (0,), 'gettimeofday': (0, 1), 'memcpy': (0,), 'memset': (0,), 'memmove': (0,)}
EXT_NONE = {'_ZdaPv', '_ZdlPv', '_ZdlPvm', '_ZdaPvm', '_Znam', '_Znwm', '__cxa_atexit', '__cxa_guard_acquire', '__cxa_guard_release',
            'fclose', 'fopen', 'fprintf', 'fwrite', 'printf', 'puts', 'putchar', 'fputs', 'fputc', 'fflush', 'sqrt', 'strlen', 'vfprintf',
            'strcmp', 'strncmp', 'free', 'abort', 'exit', 'vprintf', 'feof', 'ferror', 'remove', 'rename', 'fileno'}


def root(e):
    while isinstance(e, tuple) and e[0] == 'P':
        e = e[1]
    return e


def fkey(e):
    """innermost field key of an address"""
    if e[0] == 'P':
        return e[4]
    return None


def struct_fields(prog, cls):
    out = set()
    for c, m in prog.members(cls, True):
        out.add('%s::%s' % (c, m['n']))
        if m['t'] in prog.types:
            out |= struct_fields(prog, m['t'])
    return out


class Effects:
    def __init__(self, prog):
        self.p = prog
        self.w = {}; self.ow = {}; self.r = {}
        self._direct()
        self._fix()

    def _dests(self, f):
        for i in f.insts():
            if i.o == 'store':
                yield i, f.ex(i.a[1]), f.ex(i.a[0])
            elif i.o == 'call' and isinstance(i.c, str) and (i.c.startswith('@llvm.memcpy') or i.c.startswith('@llvm.memset') or i.c.startswith('@llvm.memmove')):
                yield i, f.ex(i.a[0]), None

    def _direct(self):
        for f in self.p.fns.values():
            if f.decl:
                continue
            w = set(); ow = set(); r = set()
            for i, d, v in self._dests(f):
                rt = root(d)
                k = fkey(d)
                if rt[0] != 'M' and k and not k.startswith('up:'):
                    w.add(k)
                    if v is None:
                        ty = self.p.ftype(k)
                        if ty in self.p.types:
                            w |= struct_fields(self.p, ty)
                if rt[0] == 'A' and not k:
                    ow.add(rt[1])
            for i in f.insts():
                if i.o == 'load':
                    k = fkey(f.ex(i.a[0]))
                    if k:
                        r.add(k)
            self.w[f.n] = w; self.ow[f.n] = ow; self.r[f.n] = r

    def _fix(self):
        p = self.p
        calls = {}
        for f in p.fns.values():
            if f.decl:
                continue
            cl = []
            for i in f.calls():
                for c in p.callees(i):
                    cl.append((c, [root(f.ex(a)) if not isinstance(a, int) else None for a in i.a]))
            calls[f.n] = cl
        ch = True
        while ch:
            ch = False
            for n, cl in calls.items():
                w, ow, r = self.w[n], self.ow[n], self.r[n]
                a, b, c0 = len(w), len(ow), len(r)
                for c, roots in cl:
                    if c in self.w:
                        w |= self.w[c]; r |= self.r[c]
                    for k, rt in enumerate(roots):
                        if rt and rt[0] == 'A' and self.outwrite(c, k):
                            ow.add(rt[1])
                if (a, b, c0) != (len(w), len(ow), len(r)):
                    ch = True
        self.calls = calls

    def writes(self, n):
        return self.w.get(n, set())

    def reads(self, n):
        return self.r.get(n, set())

    def outwrite(self, n, k):
        if n in self.ow:
            return k in self.ow[n]
        if n in EXT_OUT:
            return k in EXT_OUT[n]
        if n in EXT_NONE or n.startswith('llvm.'):
            return n.startswith('llvm.mem') and k == 0
        return True

    def reachable(self, roots):
        seen = set(roots); st = list(roots)
        while st:
            x = st.pop()
            for c, _ in self.calls.get(x, []):
                if c not in seen:
                    seen.add(c); st.append(c)
        return seen


def sccs(prog):
    """bottom-up list of strongly connected components of the call graph"""
    g = {}
    for f in prog.fns.values():
        if not f.decl:
            g[f.n] = sorted({c for i in f.calls() for c in prog.callees(i) if c in prog.fns and not prog.fns[c].decl})
    idx = {}; low = {}; on = set(); st = []; out = []; cnt = [0]
    for root_ in sorted(g):
        if root_ in idx:
            continue
        work = [(root_, 0)]
        while work:
            v, k = work.pop()
            if k == 0:
                idx[v] = low[v] = cnt[0]; cnt[0] += 1; st.append(v); on.add(v)
            rec = False
            ns = g[v]
            while k < len(ns):
                w = ns[k]; k += 1
                if w not in idx:
                    work.append((v, k)); work.append((w, 0)); rec = True
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            if rec:
                continue
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = st.pop(); on.discard(w); comp.append(w)
                    if w == v:
                        break
                out.append(comp)
            if work:
                u = work[-1][0]
                low[u] = min(low[u], low[v])
    return out
