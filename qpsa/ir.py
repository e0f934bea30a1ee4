"""Resolved-program model: functions, CFGs, symbolic value expressions, field
resolution through debug info, class-hierarchy-based virtual call resolution."""
import re
from .build import AnalysisError, REPO


class Inst:
    __slots__ = ('o', 'i', 't', 'l', 'f', 'a', 'g', 'ph', 'c', 's', 'p', 'cs', 'df', 'at', 'vt', 'bb', 'k', 'fn')

    def __init__(self, d, bb, k, fn):
        self.o = d['o']; self.i = d.get('i'); self.t = d.get('t'); self.l = d.get('l', 0); self.f = d.get('f', -1)
        self.a = d.get('a', []); self.g = d.get('g'); self.ph = d.get('in'); self.c = d.get('c')
        self.s = d.get('s', []); self.p = d.get('p'); self.cs = d.get('cs'); self.df = d.get('def')
        self.at = d.get('at'); self.vt = d.get('vt'); self.bb = bb; self.k = k; self.fn = fn
        if self.o == 'switch':
            self.s = list(dict.fromkeys([b for _, b in self.cs] + [self.df]))


class Fn:
    def __init__(self, prog, d):
        self.prog = prog; self.n = d['n']; self.dem = d['dem']; self.decl = d['decl']
        self.internal = d['internal']; self.linkonce = d['linkonce']; self.noret = d.get('noret', False)
        self.nargs = d['nargs']; self.rt = d['rt']; self.file = prog.files[d['file']] if 'file' in d else ''
        self.line = d.get('line', 0); self.acc = d.get('acc', 0); self.sn = d.get('sn', ''); self.cls = d.get('cls')
        self.clskind = d.get('clskind')
        self.sig = d.get('sig', []); self.sigsp = d.get('sigsp', [])
        self.anames_raw = {int(k): v for k, v in d['anames'].items()}
        self.names = {int(k): v for k, v in d['names'].items()}
        self.lty = {int(k): v for k, v in d.get('lty', {}).items()}
        self.atypes = d['atypes']
        self.has_sret = bool(self.atypes and self.atypes[0] == 'sret')
        self.bbs = [[Inst(x, b, k, self) for k, x in enumerate(bb)] for b, bb in enumerate(d['bbs'])]
        self.inst = {}
        for bb in self.bbs:
            for i in bb:
                if i.i is not None:
                    self.inst[i.i] = i
        self.succ = [list(dict.fromkeys(bb[-1].s)) if bb and bb[-1].o in ('br', 'switch') else [] for bb in self.bbs]
        self.pred = [[] for _ in self.bbs]
        for b, ss in enumerate(self.succ):
            for s in ss:
                self.pred[s].append(b)
        self._ex = {}
        self._order = None; self._dom = None; self._loops = None; self._reach = None

    # --- naming
    @property
    def is_method(self):
        return bool(self.anames_raw.get(1) == 'this')

    def argname(self, i):
        """name of LLVM argument i"""
        k = i - (1 if self.has_sret else 0)
        return self.anames_raw.get(k + 1) or self.names.get(i) or ('arg%d' % i)

    def argtype(self, i):
        k = i - (1 if self.has_sret else 0) + 1
        return self.sig[k] if k < len(self.sig) else '?'

    def argtype_sp(self, i):
        k = i - (1 if self.has_sret else 0) + 1
        return self.sigsp[k] if k < len(self.sigsp) else '?'

    @property
    def rettype(self):
        return self.sig[0] if self.sig else '?'

    @property
    def pretty(self):
        s = re.sub(r'\bqpOASES::', '', self.dem)
        return re.sub(r'\(.*', '', s) if self.sn else s

    @property
    def prettysig(self):
        return re.sub(r'\bqpOASES::', '', self.dem)

    def loc(self, inst=None):
        f = self.file
        l = self.line
        if inst is not None:
            if inst.f >= 0:
                f = self.prog.files[inst.f]
            l = inst.l
        f = f.replace(REPO + '/', '')
        return '%s:%d' % (f, l)

    def calls(self):
        for bb in self.bbs:
            for i in bb:
                if i.o in ('call', 'invoke'):
                    yield i

    def insts(self):
        for bb in self.bbs:
            for i in bb:
                yield i

    # --- expressions
    def ex(self, op):
        """canonical symbolic expression of an operand"""
        if isinstance(op, int):
            return ('K', op)
        if isinstance(op, list):
            g = op[1]
            return self._gep(g)
        if op == 'null':
            return ('K', 0)
        if op.startswith('%'):
            return self.exid(int(op[1:]))
        if op.startswith('@'):
            return ('G', op[1:])
        if op.startswith('f:'):
            return ('F', op[2:])
        return ('U', op)

    def exid(self, i):
        e = self._ex.get(i)
        if e is None:
            self._ex[i] = ('V', i)      # guard against cycles
            e = self._mk(i)
            self._ex[i] = e
        return e

    def _gep(self, g):
        b = self.ex(g['b'])
        off = g['off']
        var = tuple((s, self.ex(v)) for s, v in g.get('var', []))
        sp = g.get('sp')
        if sp:
            st, fo = sp[-1]
            key = self.prog.fieldkey(st, fo)
            if key == 'UPCAST':
                if off == 0 and not var:
                    return b
                return ('P', b, off, var, 'up:' + st)
            return ('P', b, off if key is None else 0, var, key)
        if off == 0 and not var:
            return b
        return ('P', b, off, var, None)

    def _mk(self, i):
        if i < self.nargs:
            return ('A', i)
        n = self.inst[i]
        o = n.o
        if o == 'getelementptr':
            return self._gep(n.g)
        if o in ('sext', 'zext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
            return self.ex(n.a[0])
        if o == 'load':
            return ('L', self.ex(n.a[0]))
        if o in ('add', 'mul', 'and', 'or', 'xor'):
            a, b = self.ex(n.a[0]), self.ex(n.a[1])
            if repr(a) > repr(b):
                a, b = b, a
            return ('O', o, a, b)
        if o in ('sub', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'ashr', 'lshr', 'fadd', 'fsub', 'fmul', 'fdiv'):
            return ('O', o, self.ex(n.a[0]), self.ex(n.a[1]))
        if o in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'fneg'):
            return ('O', o, self.ex(n.a[0]))
        if o in ('icmp', 'fcmp'):
            return ('C', n.p, self.ex(n.a[0]), self.ex(n.a[1]))
        if o == 'select':
            return ('S', self.ex(n.a[0]), self.ex(n.a[1]), self.ex(n.a[2]))
        if o == 'extractvalue':
            b = n.a[0]
            if isinstance(b, str) and b.startswith('%'):
                ci = self.inst.get(int(b[1:]))
                if ci is not None and ci.o == 'call' and isinstance(ci.c, str) and 'mul.with.overflow' in ci.c and n.t == 'i64':
                    x, y = self.ex(ci.a[0]), self.ex(ci.a[1])
                    if repr(x) > repr(y):
                        x, y = y, x
                    return ('O', 'mul', x, y)
            return ('V', i)
        if o == 'call':
            c = n.c
            if isinstance(c, str) and c.startswith('@'):
                g = self.prog.getter(c[1:])
                if g is not None and len(n.a) == 1:
                    # trivial accessor: substitute its body
                    return subst(g, {0: self.ex(n.a[0])})
            return ('V', i)
        if o == 'alloca':
            return ('M', i)
        return ('V', i)

    # --- CFG helpers
    @property
    def rpo(self):
        if self._order is None:
            seen = set(); out = []
            if self.bbs:
                st = [(0, iter(self.succ[0]))]; seen.add(0)
                while st:
                    b, it = st[-1]
                    for s in it:
                        if s not in seen:
                            seen.add(s); st.append((s, iter(self.succ[s]))); break
                    else:
                        out.append(b); st.pop()
            self._order = out[::-1]
        return self._order

    @property
    def idom(self):
        if self._dom is None:
            order = self.rpo; num = {b: k for k, b in enumerate(order)}
            idom = {order[0]: order[0]} if order else {}
            ch = True
            while ch:
                ch = False
                for b in order[1:]:
                    ps = [p for p in self.pred[b] if p in idom]
                    n = ps[0]
                    for p in ps[1:]:
                        x, y = n, p
                        while x != y:
                            while num[x] > num[y]: x = idom[x]
                            while num[y] > num[x]: y = idom[y]
                        n = x
                    if idom.get(b) != n:
                        idom[b] = n; ch = True
            self._dom = idom
        return self._dom

    def dominates(self, a, b):
        idom = self.idom
        if b not in idom:
            return False
        while True:
            if a == b:
                return True
            if idom[b] == b:
                return False
            b = idom[b]

    @property
    def loops(self):
        """header -> set of blocks"""
        if self._loops is None:
            L = {}
            for b in self.rpo:
                for s in self.succ[b]:
                    if self.dominates(s, b):
                        body = L.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x not in body:
                                body.add(x)
                                st.extend(self.pred[x])
            self._loops = L
        return self._loops

    def reach(self, b):
        if self._reach is None:
            self._reach = {}
        r = self._reach.get(b)
        if r is None:
            r = set(); st = [b]
            while st:
                x = st.pop()
                for s in self.succ[x]:
                    if s not in r:
                        r.add(s); st.append(s)
            self._reach[b] = r
        return r


def subst(e, m):
    """substitute ('A',i) by m[i] in expression e"""
    if not isinstance(e, tuple):
        return e
    if e and e[0] == 'A' and e[1] in m:
        return m[e[1]]
    return tuple(subst(x, m) if isinstance(x, tuple) else x for x in e)


def leaves(e, out=None):
    """atoms of an expression: args, SSA ids, loads"""
    if out is None:
        out = set()
    if isinstance(e, tuple) and e:
        if e[0] in ('A', 'V', 'M', 'G'):
            out.add(e)
        else:
            if e[0] == 'L':
                out.add(e)
            for x in e[1:]:
                if isinstance(x, tuple):
                    leaves(x, out)
    return out


def fields_of(e, out=None):
    if out is None:
        out = set()
    if isinstance(e, tuple) and e:
        if e[0] == 'P' and len(e) == 5 and e[4]:
            out.add(e[4])
        for x in e:
            if isinstance(x, tuple):
                fields_of(x, out)
    return out


class Prog:
    def __init__(self, data, unit, srcs):
        self.unit = unit; self.srcs = srcs
        self.files = data['files']
        self.types = {}
        for t in data['types']:
            k = t['name']
            if k in self.types and self.types[k]['scope'] == 'qpOASES':
                continue
            self.types[k] = t
        self.enums = {k: [(n, v) for n, v in es] for k, es in data['enums'].items()}
        self.globals = {g['n']: g for g in data['globals']}
        self._getter = {}
        self.fns = {}
        for d in data['functions']:
            f = Fn(self, d)
            self.fns[f.n] = f
        self._vt = None; self._thunk = {}
        self._callees = {}
        self._callers = None

    # --- types
    def cname(self, st):
        s = re.sub(r'^(class|struct|union)\.', '', st)
        s = re.sub(r'\.base$', '', s)
        s = re.sub(r'\.\d+$', '', s)
        return s.split('::')[-1]

    def fieldkey(self, st, off):
        c = self.cname(st)
        return self.field_at(c, off)

    def field_at(self, c, off, strict=True):
        t = self.types.get(c)
        if t is None:
            return None
        for m in t['mem']:
            if not m['base'] and m['off'] == off:
                return '%s::%s' % (c, m['n'])
        for m in t['mem']:
            if m['base'] and not m['virt'] and m['off'] == off:
                return 'UPCAST'
        for m in t['mem']:
            if m['base'] and not m['virt'] and m['off'] <= off < m['off'] + m['sz']:
                return self.field_at(m['t'], off - m['off'])
            if not m['base'] and m['off'] < off < m['off'] + m['sz']:
                return '%s::%s+%d' % (c, m['n'], off - m['off'])
        return None

    def bases(self, c):
        t = self.types.get(c)
        if not t:
            return []
        return [m['t'] for m in t['mem'] if m['base']]

    def allbases(self, c):
        out = []
        for b in self.bases(c):
            if b not in out:
                out.append(b)
            for x in self.allbases(b):
                if x not in out:
                    out.append(x)
        return out

    def subclasses(self, c):
        return [x for x in self.types if c in self.allbases(x)]

    def members(self, c, inherited=False):
        """[(class, member dict)] data members without vptrs"""
        out = []
        if inherited:
            for b in self.allbases(c):
                out += self.members(b)
        t = self.types.get(c)
        if t:
            out += [(c, m) for m in t['mem'] if not m['base'] and not m['n'].startswith('_vptr')]
        return out

    def ftype(self, key):
        if not key or '::' not in key:
            return None
        c, n = key.split('::', 1)
        t = self.types.get(c)
        if t:
            for m in t['mem']:
                if m['n'] == n:
                    return m['t']
        return None

    def enum(self, name):
        e = self.enums.get(name)
        if not e:
            raise AnalysisError('enumeration %s not found' % name)
        return dict(e)

    # --- accessors
    def getter(self, name):
        """expression over ('A',0) when the function is a trivial accessor of one argument"""
        if name in self._getter:
            return self._getter[name]
        self._getter[name] = None
        f = self.fns.get(name)
        r = None
        if f is not None and not f.decl and len(f.bbs) == 1 and f.nargs == 1 and not f.has_sret:
            bb = f.bbs[0]
            if all(i.o in ('getelementptr', 'load', 'ret', 'sext', 'zext', 'trunc', 'add', 'sub', 'mul', 'bitcast') or
                   (i.o == 'call' and isinstance(i.c, str) and i.c.startswith('@') and self.getter(i.c[1:]) is not None and len(i.a) == 1)
                   for i in bb) and bb[-1].o == 'ret' and bb[-1].a:
                r = f.ex(bb[-1].a[0])
                if r and r[0] == 'V':
                    r = None
        self._getter[name] = r
        return r

    # --- virtual dispatch
    def _flat(self, init):
        out = []
        for x in init:
            if isinstance(x, list) and x and x[0] == 'gep':
                out.append(None)
            elif isinstance(x, list):
                out += self._flat(x)
            else:
                out.append(x)
        return out

    @property
    def vt(self):
        if self._vt is None:
            self._vt = {}
            for g in self.globals.values():
                if 'vt' in g and 'init' in g:
                    flat = self._flat(g['init'])
                    for off, tid in g['vt']:
                        self._vt.setdefault(tid, []).append((flat, off, g['n']))
        return self._vt

    def unthunk(self, n):
        if n in self._thunk:
            return self._thunk[n]
        r = n
        if n.startswith('_ZTh') or n.startswith('_ZTv') or n.startswith('_ZTc'):
            f = self.fns.get(n)
            if f:
                cs = [i for i in f.calls() if isinstance(i.c, str) and i.c.startswith('@_Z')]
                if len(cs) == 1:
                    r = cs[0].c[1:]
        self._thunk[n] = r
        return r

    def vslot(self, fn, inst):
        """(typeid, slot byte offset, object expr) of a virtual call, else None"""
        c = inst.c
        if not (isinstance(c, str) and c.startswith('%')):
            return None
        ld = fn.inst.get(int(c[1:]))
        if ld is None or ld.o != 'load':
            return None
        p = ld.a[0]
        off = 0
        if not isinstance(p, str):
            return None
        pi = fn.inst.get(int(p[1:])) if p.startswith('%') else None
        if pi is not None and pi.o == 'getelementptr':
            off = pi.g['off']; vtv = pi.g['b']
        else:
            vtv = p
        for t in fn.calls():
            if isinstance(t.c, str) and 'type.test' in t.c and t.a[0] == vtv:
                tid = t.a[1][2:]
                vi = fn.inst.get(int(vtv[1:]))
                return tid, off, (fn.ex(vi.a[0]) if vi is not None and vi.o == 'load' else None)
        return None

    def callees(self, inst):
        """names of possible callees (all overriders for a virtual call)"""
        k = (inst.fn.n, inst.bb, inst.k)
        r = self._callees.get(k)
        if r is not None:
            return r
        c = inst.c
        if isinstance(c, str) and c.startswith('@'):
            r = [c[1:]]
        else:
            v = self.vslot(inst.fn, inst)
            r = []
            if v:
                tid, off, _ = v
                for flat, ap, _g in self.vt.get(tid, []):
                    idx = (ap + off) // 8
                    if idx < len(flat) and isinstance(flat[idx], str) and flat[idx].startswith('@'):
                        t = self.unthunk(flat[idx][1:])
                        if t != '__cxa_pure_virtual' and t not in r:
                            r.append(t)
        self._callees[k] = r
        return r

    @property
    def callers(self):
        if self._callers is None:
            self._callers = {}
            for f in self.fns.values():
                for i in f.calls():
                    for c in self.callees(i):
                        self._callers.setdefault(c, []).append(i)
        return self._callers

    def defined(self):
        return [f for f in self.fns.values() if not f.decl]

    def find(self, cls, name):
        """defined functions by class (or None) and source name"""
        return [f for f in self.fns.values() if not f.decl and f.sn == name and (cls is None or f.cls == cls)]

    def in_repo(self, f):
        return f.file.startswith(REPO) or f.file.startswith('src/') or f.file.startswith('include/')

    def repo_fns(self, sub=None):
        out = []
        for f in self.fns.values():
            if f.decl or not f.sn:
                continue
            p = f.file
            if p.startswith(REPO + '/') and (sub is None or any(('/' + s) in p for s in sub)):
                out.append(f)
        return out
