"""C10  return codes <-> messages <-> simple status."""
import re, os, difflib
from ..common import Result, AnalysisError
from ..engine import Engine
from ..build import REPO
from ..retvals import RetCk

DOC = {'SUCCESSFUL_RETURN': 0, 'RET_MAX_NWSR_REACHED': 1, 'RET_INIT_FAILED_INFEASIBILITY': -2,
       'RET_HOTSTART_STOPPED_INFEASIBILITY': -2, 'RET_INIT_FAILED_UNBOUNDEDNESS': -3, 'RET_HOTSTART_STOPPED_UNBOUNDEDNESS': -3}


def norm(s):
    return re.sub(r'[^a-z0-9]+', ' ', s.lower()).strip()


def doc_texts(names):
    """documentation text of each return code, from the header that declares it"""
    out = {}
    for r, _, fs in os.walk(REPO + '/include'):
        for fn in fs:
            try:
                t = open(os.path.join(r, fn), encoding='utf-8', errors='replace').read()
            except OSError:
                continue
            if 'enum returnValue' not in t:
                continue
            for m in re.finditer(r'\b([A-Z][A-Z0-9_]+)\s*(?:=\s*-?\d+)?\s*,?\s*/\*\*<\s*(.*?)\s*\*/', t, re.S):
                if m.group(1) in names:
                    out[m.group(1)] = re.sub(r'\s+', ' ', m.group(2))
    return out


def run(ctx):
    p = ctx.prog('lib'); rv = ctx.rv('lib')
    R = Result(['every return code has exactly one catalogue entry, with a text, at the position of its number',
                'the text of an entry documents that code and no other code',
                'the message calls return the code they were given (or the documented undefined-code)',
                'the simple status of every return code is the documented one, and its message is the one for that status'])
    R.prog = p
    E = p.enum('returnValue')
    codes = {n: v for n, v in E.items() if v >= 0}
    R.need(len(codes), 'return codes', 50)
    byv = {}
    for n, v in codes.items():
        byv.setdefault(v, []).append(n)
    for v, ns in byv.items():
        if len(ns) > 1:
            R.v('unique-number', 'returnValue', None, '/'.join(sorted(ns)), 'two return codes share the number %d' % v)
    tabs = [g for g in p.globals.values() if 'ReturnValueList' in g.get('t', '') and g['t'].startswith('[') and isinstance(g.get('init'), list)]
    R.need(len(tabs), 'message catalogue tables')
    n_entries = 0
    inv = {v: n for n, v in codes.items()}
    ADDTXT = set(codes)
    for f in p.fns.values():
        for i in f.calls():
            if any(c.startswith('_ZN7qpOASES15MessageHandling') and 'throw' in c for c in p.callees(i)) and len(i.a) > 2:
                if i.a[2] in (0, 'null'):
                    ADDTXT.discard(inv.get(i.a[1]) if isinstance(i.a[1], int) else None)
    docs = doc_texts(set(codes))
    R.need(len(docs), 'documented return codes', 50)
    docn = {c: norm(re.sub(r'\(\d+\)\s*$', '', d)) for c, d in docs.items()}
    ncmp = 0
    for g in tabs:
        where = '%s:%s' % (p.files[g['file']].replace(REPO + '/', '') if 'file' in g else '?', g.get('line', '?'))
        rows = []
        for x in g['init']:
            if not isinstance(x, list):
                raise AnalysisError('catalogue row of unexpected shape')
            rows.append((x[0], x[1]))
        n_entries += len(rows)
        keys = [k for k, _ in rows]
        if -1 not in keys or keys.index(-1) != len(keys) - 1:
            R.v('terminator', g['dem'], None, 'end', 'the catalogue does not end with its terminal element', at=where)
        body = keys[:keys.index(-1)] if -1 in keys else keys
        for v in sorted(byv):
            c = body.count(v)
            if c != 1:
                R.v('one-entry', g['dem'], None, byv[v][0], 'return code %s has %d catalogue entries' % (byv[v][0], c), at=where)
        for k, v in enumerate(body):
            if v not in byv:
                R.v('unknown-code', g['dem'], None, str(v), 'catalogue entry %d describes a code that does not exist' % k, at=where)
        if sorted(body) == sorted(byv) and body != sorted(body):
            k = next(i for i, v in enumerate(body) if v != i)
            R.v('position', g['dem'], None, byv[body[k]][0], 'entry number %d is for return code %d: listed numbers no longer match the codes' % (k, body[k]), at=where)
        for k, s in rows:
            if k < 0 or k not in byv:
                continue
            name = byv[k][0]
            txt = None
            if isinstance(s, str) and s.startswith('@'):
                i = p.globals.get(s[1:], {}).get('init')
                if isinstance(i, list) and i and i[0] == 'str':
                    txt = i[1]
                elif i == 'zero':
                    txt = ''
            if txt == '' and name in ADDTXT:
                continue        # every announcement of this code brings its own text
            if not txt:
                R.v('text', g['dem'], None, name, 'return code %s has no message text' % name, at=where)
                continue
            t = norm(txt)
            ncmp += 1
            own = difflib.SequenceMatcher(None, t, docn.get(name, '')).ratio()
            for o, d in docn.items():
                if d == t and o != name and own < 0.6 and d != docn.get(name):
                    R.v('text-of-other', g['dem'], None, name, 'the message of %s is the text documented for %s' % (name, o), at=where)
                    break
        # numbers written in the documentation
    for c, d in docs.items():
        m = re.search(r'\((\d+)\)\s*$', d)
        if m and int(m.group(1)) != codes[c]:
            R.v('documented-number', 'returnValue', None, c, '%s is documented as code %s but has the number %d' % (c, m.group(1), codes[c]))
    # message calls hand the code through
    th = 0
    UND = {'throwError': {'RET_ERROR_UNDEFINED'}, 'throwWarning': {'RET_WARNING_UNDEFINED', 'RET_ERROR_UNDEFINED'},
           'throwInfo': {'RET_INFO_UNDEFINED', 'RET_ERROR_UNDEFINED'}, 'throwMessage': set()}
    for nm, und in UND.items():
        for f in p.find('MessageHandling', nm):
            th += 1
            s = rv.sum.get(f.n)
            ok = {('A', 1)} | {E[u] for u in und}
            bad = ['anything'] if s is None else [x for x in s if x not in ok]
            if bad:
                R.v('hand-through', f, None, nm, 'the message call can return %s instead of the code it was given' % bad)
            elif ('A', 1) not in s:
                R.v('hand-through', f, None, nm, 'the message call never returns the code it was given')
    R.need(th, 'message calls', 4)
    # simple status
    ss = 0
    for f in p.find(None, 'getSimpleStatus'):
        for c, v in codes.items():
            ck = RetCk(rv, f)
            msgs = set()
            base = ck.call

            def call(eng, st, n, cs, base=base, msgs=msgs):
                if any('throwInfo' in x for x in cs):
                    a = eng.val(st, n.a[1])
                    d = eng.domain(st, a)
                    msgs.add(d if isinstance(d, frozenset) else None)
                return base(eng, st, n, cs)
            ck.call = call

            def init(eng, st, v=v):
                st.facts[('A', 0)] = frozenset([v])
            Engine(p, f, ck, rv.eff, init=init).run()
            want = DOC.get(c, -1)
            ss += 1
            if ck.top or ck.out != {want}:
                R.v('simple-status', f, None, c, '%s is reported as %s instead of %d' % (c, 'unknown' if ck.top else sorted(ck.out), want))
            wm = E['RET_SIMPLE_STATUS_' + ('P%d' % want if want >= 0 else 'M%d' % -want)]
            for m in msgs:
                if m is not None and m != frozenset([wm]):
                    R.v('simple-status-message', f, None, c, 'status %d of %s is announced with message %s' % (want, c, sorted(m)))
    R.need(ss, 'simple-status mappings', 50)
    R.cov = {'return_codes': len(codes), 'catalogue_entries': n_entries, 'texts_compared_with_documentation': ncmp,
             'message_calls': th, 'simple_status_mappings': ss,
             'explanation': 'Constant tables and enumerations read from the compiled program; returned-value sets of the message calls and of the status mapping computed path-sensitively for every return code.'}
    return R
