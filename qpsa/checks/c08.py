"""C08  nothing is printed at print level none."""
from ..common import Result, AnalysisError, root
from ..engine import Engine

STD = {'printf', 'puts', 'putchar', 'vprintf', 'perror', 'putchar_unlocked', '__printf_chk', 'puts_unlocked'}
STREAM = {'fprintf': 0, 'vfprintf': 0, 'fputs': 1, 'fputc': 1, 'putc': 1, 'fwrite': 3, '_IO_putc': 1, '__fprintf_chk': 0}
PRINTS = ('print', 'listAllMessages', 'myPrintf')
SOLVERS = ('QProblemB', 'QProblem', 'SQProblem', 'SQProblemSchur')
EXPLICIT = ('printOptions',)      # an explicit request to print the options object, whatever the level


class Ck:
    def __init__(self, an, f):
        self.an = an; self.f = f

    def quiet(self, st, a):
        k = a[4] if a[0] == 'P' else None
        if k in self.an.assume and a not in st.mem:
            st.mem[a] = ('K', self.an.assume[k])

    def load(self, eng, st, n, addr):
        self.quiet(st, addr)

    def getter(self, eng, st, n, e):
        def go(x):
            if isinstance(x, tuple):
                if x and x[0] == 'L':
                    self.quiet(st, eng.reload(st, x[1], n))
                for y in x:
                    go(y)
        go(e)

    def store(self, eng, st, n, addr, v):
        k = addr[4] if addr[0] == 'P' else None
        if k in self.an.vis and root(addr)[0] != 'M':
            d = eng.domain(st, v)
            base = addr[1]
            # copying the setting of another (equally quiet) handler or options object is fine
            if v[0] == 'L' and v[1][0] == 'P' and v[1][4] == k:
                return
            if not (isinstance(d, frozenset) and d == frozenset([self.an.assume[k]])) and v[0] != 'A':
                self.an.raised.append((self.f, n, k))
        return

    def call(self, eng, st, n, cs):
        an = self.an
        args = [('K', a) if isinstance(a, int) else eng.addr(st, a) for a in n.a]
        for c in cs:
            if c in STD:
                an.sink(self.f, n, c)
            elif c in STREAM and STREAM[c] < len(args):
                if not self.userfile(eng, st, args[STREAM[c]]):
                    an.sink(self.f, n, c)
            elif '_ZStls' in c or c.startswith('_ZNSo'):
                an.sink(self.f, n, 'std::ostream')
            g = an.p.fns.get(c)
            if g is not None and not g.decl:
                if g.sn in ('setErrorVisibilityStatus', 'setWarningVisibilityStatus', 'setInfoVisibilityStatus'):
                    d = eng.domain(st, args[1])
                    hid = an.p.enum('VisibilityStatus')['VS_HIDDEN']
                    if d != frozenset([hid]) and not self.restored(args[1]):
                        an.raised.append((self.f, n, g.sn))
                cx = []
                for j, a in enumerate(args):
                    if j < g.nargs and g.atypes[j] in ('i32', 'i8', 'i1', 'i64'):
                        d = eng.domain(st, a)
                        if a[0] == 'C':
                            t = eng.decide(st, a)
                            d = None if t is None else frozenset([int(t)])
                        if isinstance(d, frozenset) and len(d) == 1 and (g.atypes[j] != 'i64'):
                            cx.append((j, d))
                an.push(g, tuple(cx), (self.f, n))
        eng.havoc(st, n, cs)
        for a in [a for a in st.mem if a[0] == 'P' and a[4] in an.assume]:
            del st.mem[a]
        if n.i is not None:
            st.env[n.i] = ('V', n.i)
        return [st]

    def restored(self, v):
        # the previous setting, put back
        return v[0] == 'L' or (v[0] == 'V' and v[1] in self.f.inst and self.f.inst[v[1]].o == 'call')

    def userfile(self, eng, st, v):
        """a stream opened here or handed in by the caller"""
        if v[0] == 'A':
            return True
        if v[0] == 'V':
            i = self.f.inst.get(v[1])
            if i is not None and i.o == 'call':
                return any(c in ('fopen', 'fopen64', 'tmpfile') for c in self.an.p.callees(i))
            if i is not None and i.o == 'phi':
                return all(self.userfile(eng, st, self.f.ex(x)) or x == 'null' for x, _ in i.ph)
        if v[0] == 'L' and v[1][0] == 'M':
            return True
        return False


class An:
    def __init__(self, ctx, p):
        self.p = p; self.eff = ctx.eff('lib')
        self.seen = {}; self.work = []; self.sinks = {}; self.raised = []; self.steps = 0
        pl = p.enum('PrintLevel'); vs = p.enum('VisibilityStatus')
        self.vis = {'MessageHandling::errorVisibility', 'MessageHandling::warningVisibility', 'MessageHandling::infoVisibility'}
        for k in self.vis | {'Options::printLevel'}:
            if p.ftype(k) is None:
                raise AnalysisError('member %s not found' % k)
        self.assume = {k: vs['VS_HIDDEN'] for k in self.vis}
        self.assume['Options::printLevel'] = pl['PL_NONE']
        self.none = pl['PL_NONE']

    def push(self, g, cx, by):
        k = (g.n, cx)
        if k not in self.seen:
            self.seen[k] = by
            self.work.append(k)

    def sink(self, f, n, name):
        self.sinks.setdefault((f.n, n.bb, n.k), (f, n, name))

    def run(self):
        while self.work:
            n, cx = self.work.pop()
            f = self.p.fns[n]
            if not self.interesting(n):
                continue

            def init(eng, st, cx=cx):
                for j, d in cx:
                    st.facts[('A', j)] = d
            e = Engine(self.p, f, Ck(self, f), self.eff, init=init, maxst=15)
            e.run(); self.steps += e.steps

    def interesting(self, n):
        if not hasattr(self, '_int'):
            p = self.p
            hot = set()
            for f in p.fns.values():
                for i in f.calls():
                    for c in p.callees(i):
                        if c in STD or c in STREAM or '_ZStls' in c or c.startswith('_ZNSo') or 'VisibilityStatus' in c:
                            hot.add(f.n)
            work = list(hot)
            while work:
                x = work.pop()
                for i in p.callers.get(x, []):
                    if i.fn.n not in hot:
                        hot.add(i.fn.n); work.append(i.fn.n)
            self._int = hot
        return n in self._int


def run(ctx):
    p = ctx.prog('lib')
    R = Result(['no call that writes to a standard or message stream is reachable from a non-printing public method while the print level is none',
                'setting print level none hides errors, warnings and infos', 'no solving code raises the message visibility by itself'])
    R.prog = p
    an = An(ctx, p)
    roots = []
    for f in p.repo_fns(('src/', 'include/')):
        if f.cls and f.cls in p.types and f.acc in (0, 3) and (not f.sn.startswith(PRINTS) or (f.cls in SOLVERS and f.sn not in EXPLICIT)):
            if f.cls == 'MessageHandling' and f.sn.startswith('throw'):
                continue
            if f.sn in ('setPrintLevel', 'setErrorVisibilityStatus', 'setWarningVisibilityStatus', 'setInfoVisibilityStatus', 'reset') and f.cls in ('MessageHandling',):
                continue
            roots.append(f)
    R.need(len(roots), 'public methods', 100)
    # the switch itself
    sw = 0
    for f in p.find(None, 'setPrintLevel'):
        if f.nargs < 2:
            continue
        sw += 1
        got = {}

        class Sw(Ck):
            def call(self, eng, st, n, cs):
                for c in cs:
                    g = p.fns.get(c)
                    if g is not None and g.sn in ('setErrorVisibilityStatus', 'setWarningVisibilityStatus', 'setInfoVisibilityStatus'):
                        d = eng.domain(st, eng.val(st, n.a[1]))
                        st.res[g.sn] = d if isinstance(d, frozenset) else 'unknown'
                    elif g is not None and any(k in an.eff.writes(c) for k in an.vis):
                        # helper: its body is analysed by the engine through its own stores
                        sub = self.helper(eng, st, g, n)
                        st.res.update(sub)
                return Ck.call(self, eng, st, n, cs)

            def helper(self, eng, st, g, n):
                out = {}
                cx = []
                for j, a in enumerate(n.a):
                    d = eng.domain(st, ('K', a) if isinstance(a, int) else eng.addr(st, a))
                    if isinstance(d, frozenset):
                        cx.append((j, d))
                acc = []

                class Sub(Sw):
                    def ret(self2, eng2, st2, n2, v2):
                        acc.append(dict(st2.res))

                def ini(e, s):
                    for j, d in cx:
                        s.facts[('A', j)] = d
                Engine(p, g, Sub(an, g), an.eff, init=ini, maxst=15).run()
                for k in ('setErrorVisibilityStatus', 'setWarningVisibilityStatus', 'setInfoVisibilityStatus'):
                    vals = {a.get(k) for a in acc}
                    if len(vals) == 1 and None not in vals:
                        out[k] = vals.pop()
                return out

            def ret(self, eng, st, n, v):
                hid = frozenset([p.enum('VisibilityStatus')['VS_HIDDEN']])
                for k in ('setErrorVisibilityStatus', 'setWarningVisibilityStatus', 'setInfoVisibilityStatus'):
                    if st.res.get(k) != hid:
                        R.v('level-none-hides', f, st.trace or n, k, 'after selecting print level none, %s does not hide its messages' % k)
                for a, x in st.mem.items():
                    if a[0] == 'P' and a[4] == 'Options::printLevel' and x not in (('K', an.none), ('A', 1)):
                        R.v('level-none-stored', f, n, 'printLevel', 'selecting print level none stores another level')

        def init(eng, st):
            st.facts[('A', 1)] = frozenset([an.none])
        ck = Sw(an, f)
        ck.quiet = lambda st, a: None
        ck.store = lambda *a: None
        Engine(p, f, ck, an.eff, init=init).run()
    R.need(sw, 'print level switches')
    an.seen.clear(); an.work.clear(); an.sinks.clear(); an.raised.clear()
    for f in roots:
        cx = ((1, frozenset([an.none])),) if f.sn == 'setPrintLevel' else ()
        if f.sn == 'getSimpleStatus':
            continue
        an.push(f, cx, None)
    an.run()
    ct = {f.n for f in roots if f.sn == f.cls or f.sn.startswith('~')}
    nsink = 0
    for f in p.fns.values():
        for i in f.calls():
            if any(c in STD or c in STREAM for c in p.callees(i)):
                nsink += 1
    R.need(nsink, 'output calls', 5)
    paths = {}
    for f, n, name in an.sinks.values():
        R.v('reachable-output', f, n, name, '%s is executed at print level none; called via %s' % (name, chain(an, f)))
    for f, n, k in an.raised:
        if f.cls == 'MessageHandling' and f.sn == 'reset' and all(i.fn.n in ct or i.fn.n.endswith(('C2Ev', 'D2Ev')) or i.fn.sn == i.fn.cls or i.fn.sn.startswith('~')
                                                                  for i in p.callers.get(f.n, [])):
            continue        # creating or destroying a solver restores the process-wide message defaults
        R.v('visibility-raised', f, n, k, 'message visibility is changed to something other than hidden while solving (%s)' % chain(an, f))
    R.cov = {'public_methods': len(roots), 'function_contexts': len(an.seen), 'output_call_sites': nsink, 'interpreted_steps': an.steps,
             'explanation': 'Context-sensitive reachability of output calls with branch conditions on the print level and on the message visibilities evaluated for level none (virtual calls resolved to all overriders).'}
    return R


def chain(an, f):
    out = []
    cur = f.n
    for _ in range(8):
        ks = [k for k in an.seen if k[0] == cur]
        if not ks or an.seen[ks[0]] is None:
            break
        g, i = an.seen[ks[0]]
        out.append(g.pretty); cur = g.n
    return ' <- '.join(out) or 'directly'
