"""C11  options: presets complete and equal across interfaces, transfers keep each option in its place."""
import os, re
from ..common import Result, AnalysisError, root
from ..assign import Assign, ANY
from ..engine import Engine
from ..build import REPO
from ..ir import fields_of

MODES = {0: 'setToDefault', 1: 'setToReliable', 2: 'setToMPC'}


def short(k):
    return k[4].split('::')[1] if k[0] == 'P' and k[4] and '::' in k[4] else None


def values(s, cls, k=0):
    out = {}
    for a, v in s.items():
        if a[0] == 'P' and a[4] and a[4].startswith(cls + '::') and a[1] == ('A', k):
            out[short(a)] = v
    return out


def const_eval(v):
    """constants spelled through named constants compare equal across units"""
    if v and v[0] == 'L' and v[1][0] == 'G':
        return ('G', v[1][1].split('EPS')[0] and v[1][1])
    return v


def strs(p, f, i):
    """string literals among the arguments of a call"""
    out = []
    for a in i.a:
        if isinstance(a, str) and a.startswith('@'):
            g = p.globals.get(a[1:])
            if g and isinstance(g.get('init'), list) and g['init'] and g['init'][0] == 'str':
                out.append(g['init'][1])
    return out


def slice_calls(p, f, op, depth=0, seen=None):
    seen = set() if seen is None else seen
    out = []
    if not (isinstance(op, str) and op.startswith('%') and op[1:].isdigit()):
        return out
    i = int(op[1:])
    if i in seen:
        return out
    seen.add(i)
    n = f.inst.get(i)
    if n is None:
        return out
    if n.o == 'call':
        out.append(n)
        return out
    ops = [v for v, _ in n.ph] if n.o == 'phi' else n.a
    for x in ops or []:
        out += slice_calls(p, f, x, depth + 1, seen)
    return out


def run(ctx):
    R = Result(['every option preset assigns every option', 'each C preset gives every option the value of the C++ preset of the same name',
                'the C transfer and the Octave transfer write each option from the entry of the same name, and write all of them',
                'the consistency repair of an option is triggered by that option and is reported', 'C constants equal the C++ enumerators',
                'installing options stores all of them and makes them consistent'])
    p = ctx.prog('lib'); R.prog = p
    nOpt = 0; ob = 0
    opts = [m['n'] for c, m in p.members('Options')]
    R.need(len(opts), 'options', 10)
    A = Assign(p)
    pres = {}
    npre = 0
    for f in p.repo_fns(('src/', 'include/')):
        if f.cls == 'Options' and f.sn.startswith('setTo'):
            npre += 1
            s = A.summary(f.n)
            v = values(s or {}, 'Options')
            pres[f.sn] = v
            for o in opts:
                ob += 1
                if o not in v:
                    R.v('preset-complete', f, None, o, 'option %s is not set by this preset on every path' % o)
    R.need(npre, 'option presets', 3)
    # ---- C interface
    pc = ctx.prog('cwrap'); AC = Assign(pc)
    inits = pc.find(None, 'qpOASES_Options_init'); cops = pc.find(None, 'qpOASES_Options_copy')
    R.need(len(inits), 'C preset function'); R.need(len(cops), 'C option transfer')
    cm = [m['n'] for c, m in pc.members('qpOASES_Options')]
    R.need(len(cm), 'members of the C options structure', 10)
    if True:
        AL = Assign(pc)
        for o in opts:
            ob += 1
            if o not in cm:
                R.v('c-member', 'qpOASES_Options', None, o, 'option %s has no member in the C structure' % o)
        f = inits[0]
        for m, pn in MODES.items():
            s = AC.summary(f.n, ((1, m),))
            v = values(s or {}, 'qpOASES_Options')
            g = pc.find('Options', pn)
            if not g:
                raise AnalysisError('preset %s not found' % pn)
            w = values(AL.summary(g[0].n) or {}, 'Options')
            for o in cm:
                ob += 1
                if o not in v:
                    R.v('c-preset-complete', f, None, '%s/%d' % (o, m), 'C preset %d leaves option %s unset' % (m, o))
                elif o in w and (v[o] == ANY or w[o] == ANY or const_eval(v[o]) != const_eval(w[o])):
                    R.v('c-preset-value', f, None, '%s/%d' % (o, m), 'C preset %d sets option %s to %s, the C++ preset %s to %s' % (m, o, show(v[o]), pn, show(w[o])))
        f = cops[0]
        s = values(AC.summary(f.n) or {}, 'Options', 1)
        for o in opts:
            ob += 1
            if o not in s:
                R.v('c-transfer-complete', f, None, o, 'option %s is not handed over to the solver on every path' % o)
            else:
                fl = {x.split('::')[1] for x in fields_of(s[o]) if x.startswith('qpOASES_Options::')}
                if fl != {o}:
                    R.v('c-transfer-name', f, None, o, 'option %s is filled from %s' % (o, ', '.join(sorted(fl)) or show(s[o])))
    # ---- constants
    hdr = os.path.join(REPO, 'interfaces/c/qpOASES_wrapper.h')
    nc = 0
    enumv = {}
    for e in ('HessianType', 'SubjectToStatus', 'PrintLevel', 'BooleanType', 'returnValue'):
        enumv.update(pc.enum(e))
    for k, line in enumerate(open(hdr, errors='replace'), 1):
        m = re.match(r'\s*#\s*define\s+([A-Z]\w+)\s+\(?\s*(-?\d+)\s*\)?\s*(/[/*].*)?$', line)
        if m and m.group(1) in enumv:
            nc += 1; ob += 1
            if enumv[m.group(1)] != int(m.group(2)):
                R.v('c-constant', 'qpOASES_wrapper.h', None, m.group(1), '%s is %s for C callers and %d in the library' % (m.group(1), m.group(2), enumv[m.group(1)]),
                    at='interfaces/c/qpOASES_wrapper.h:%d' % k)
    R.need(nc, 'C constants', 10)
    # ---- Octave
    no = 0
    for u in ('oct', 'octseq'):
        po = ctx.prog(u)
        got = set()
        for f in po.repo_fns(('interfaces/octave/',)):
            for i in f.insts():
                tgt = None
                if i.o == 'store':
                    a = f.ex(i.a[1])
                    if a[0] == 'P' and a[4] and a[4].startswith('Options::') and root(a)[0] != 'M' and not isinstance(i.a[0], int):
                        tgt = short(a)
                        S = governing(po, f, i)
                        if S is None:
                            continue
                        no += 1; ob += 1
                        got.add(tgt)
                        if S != tgt:
                            R.v('octave-name', f, i, tgt, 'option %s is set from the entry "%s"' % (tgt, S))
                elif i.o == 'call':
                    ss = [x for x in strs(po, f, i) if x in opts]
                    if ss:
                        for a in i.a:
                            if isinstance(a, int):
                                continue
                            e = f.ex(a)
                            if e[0] == 'P' and e[4] and e[4].startswith('Options::'):
                                no += 1; ob += 1
                                got.add(short(e))
                                if short(e) != ss[0]:
                                    R.v('octave-name', f, i, short(e), 'option %s is set from the entry "%s"' % (short(e), ss[0]))
        named = {x for f in po.repo_fns(('interfaces/octave/',)) for i in f.calls() for x in strs(po, f, i) if x in opts}
        for o in sorted(named - got):
            R.v('octave-complete', 'setupOptions', None, o, 'the entry "%s" is read but no option of that name is set' % o, at='interfaces/octave')
        for o in opts:
            ob += 1
            if o not in named and o not in NOTOCT:
                R.v('octave-missing', 'setupOptions', None, o, 'option %s cannot be set from Octave' % o, at='interfaces/octave')
    R.need(no, 'Octave option transfers', 20)
    # ---- consistency repair
    ne = 0
    RV = p.enum('returnValue')
    for f in p.find('Options', 'ensureConsistency'):
        ne += consistency(p, ctx.eff('lib'), f, R, RV)
    R.need(ne, 'consistency repairs', 5)
    # ---- installation
    ns = 0
    for f in p.find(None, 'setOptions'):
        if f.nargs != 2 or f.argtype_sp(1).find('Options') < 0:
            continue
        ns += 1
        install(p, ctx, f, R)
    R.need(ns, 'option installation methods')
    R.cov = {'options': len(opts), 'presets': npre, 'c_constants': nc, 'octave_transfers': no, 'consistency_repairs': ne, 'obligations': ob,
             'explanation': 'Definite-assignment dataflow with constant propagation over the presets of both interfaces, name agreement of every transfer, path-sensitive check of the consistency repair.'}
    return R


NOTOCT = {'enableDropInfeasibles', 'dropBoundPriority', 'dropEqConPriority', 'dropIneqConPriority',
          'rcondSMin', 'enableInertiaCorrection'}      # not part of the documented Octave option structure


def show(v):
    if v == ANY: return 'a path-dependent value'
    if v[0] == 'K': return str(v[1])
    if v[0] == 'F': return v[1]
    return repr(v)[:60]


def governing(p, f, i):
    """the string of the nearest dominating test whose outcome this statement depends on"""
    b = i.bb
    idom = f.idom
    cur = b
    while True:
        d = idom.get(cur)
        if d is None or d == cur:
            return None
        t = f.bbs[d][-1]
        if t.o == 'br' and t.a and len(t.s) == 2 and t.s[0] != t.s[1]:
            for k, s in enumerate(t.s):
                if f.dominates(s, b) and f.pred[s] == [d]:
                    for c in slice_calls(p, f, t.a[0]):
                        ss = strs(p, f, c)
                        if ss:
                            return ss[0]
        cur = d


def consistency(p, eff, f, R, RV):
    n = 0
    for i in f.insts():
        if i.o != 'store':
            continue
        a = f.ex(i.a[1])
        if not (a[0] == 'P' and a[4] and a[4].startswith('Options::')):
            continue
        n += 1
        # nearest test this repair depends on
        cur = i.bb; conds = []
        while True:
            d = f.idom.get(cur)
            if d is None or d == cur:
                break
            t = f.bbs[d][-1]
            if t.o == 'br' and t.a and len(t.s) == 2 and any(f.dominates(s, i.bb) and f.pred[s] == [d] for s in t.s):
                conds.append(f.ex(t.a[0]))
            cur = d
        if not conds:
            R.v('repair-condition', f, i, a[4], 'option %s is overwritten unconditionally' % short(a))
        elif not any(a[4] in fields_of(c) for c in conds):
            R.v('repair-condition', f, i, a[4], 'option %s is overwritten when another option (%s) is inconsistent' % (
                short(a), ', '.join(sorted(x for c in conds for x in fields_of(c)))))

    class Ck:
        def store(self, eng, st, nn, addr, v):
            if addr[0] == 'P' and addr[4] and addr[4].startswith('Options::'):
                st.res['changed'] = True

        def ret(self, eng, st, nn, v):
            d = eng.domain(st, v)
            adj = RV['RET_OPTIONS_ADJUSTED']
            if st.res.get('changed') and not (isinstance(d, frozenset) and d == frozenset([adj])):
                R.v('repair-reported', f, st.trace or nn, 'return', 'an option was adjusted but this is not reported')
            if not st.res.get('changed') and isinstance(d, frozenset) and adj in d and len(d) == 1:
                R.v('repair-reported', f, st.trace or nn, 'return', 'an adjustment is reported although no option was changed')

        def call(self, eng, st, nn, cs):
            # message calls hand their code through
            if any('MessageHandling' in c and 'throw' in c for c in cs):
                st.env[nn.i] = eng.val(st, nn.a[1])
                return [st]
            if any(k.startswith('Options::') for c in cs for k in eff.writes(c)):
                st.res['changed'] = True
            return None
    Engine(p, f, Ck(), eff, maxst=400).run()
    return n


def install(p, ctx, f, R):
    A = Assign(p)
    s = A.summary(f.n) or {}
    opts = [m['n'] for c, m in p.members('Options')]
    cons = {g.n for g in p.find('Options', 'ensureConsistency')}
    if not cons:
        raise AnalysisError('ensureConsistency not found')
    base = [k for k in s]
    for o in opts:
        hit = [v for k, v in s.items() if k[0] == 'P' and k[4] == 'Options::' + o and root(k) == ('A', 0)]
        if not hit:
            R.v('install-complete', f, None, o, 'installing options does not take over %s' % o)
    # the repair must run after the copy, on every path
    blocks = [i for i in f.calls() if any(c in cons or c in callers_of(p, cons) for c in p.callees(i))]
    if not any(all(f.dominates(i.bb, b) for b, bb in enumerate(f.bbs) if bb and bb[-1].o == 'ret') for i in blocks):
        R.v('install-consistent', f, None, 'ensureConsistency', 'options are installed without making them consistent on some path')


def callers_of(p, names):
    out = set()
    for n in names:
        out |= {i.fn.n for i in p.callers.get(n, [])}
    return out
