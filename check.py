#!/usr/bin/env python3
"""check.py <property> [--thorough]: decides one property from /repo's current source.
exit 0 held, 1 violated (VIOLATION line), 3 the analysis itself could not decide."""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from qpsa.common import Ctx
from qpsa.build import AnalysisError


def load_findings(pid):
    out = []
    path = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith('#') or line.startswith('fixed:'):
                continue
            d = json.loads(line)
            if d['property'] == pid:
                d['left'] = d.get('count', 1)
                out.append(d)
    return out


def main():
    pid = sys.argv[1]
    thorough = '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'
    t0 = time.time()
    ctx = Ctx('thorough' if thorough else 'quick')
    evp = os.path.join(HERE, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    for p in (evp,):
        if os.path.exists(p):
            os.remove(p)
    try:
        mod = importlib.import_module('qpsa.checks.' + pid.lower())
        res = mod.run(ctx)
    except AnalysisError as e:
        print('ANALYSIS-ERROR property=%s %s' % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-ERROR property=%s internal error' % pid)
        return 3
    known = load_findings(pid)
    new = []; old = []
    for v in res.viol:
        for k in known:
            if k['left'] > 0 and k['rule'] == v['rule'] and k['detail'] == v['detail'] and same_fn(res.prog, k['fn'], v):
                k['left'] -= 1
                old.append((k, v))
                break
        else:
            new.append(v)
    cov = dict(res.cov)
    cov['rules_applied'] = res.rules
    cov.setdefault('explanation', 'Static analysis of every function of the listed units compiled from the current tree; '
                   'each rule is applied to every instance of its construct.')
    ev = {'property': pid, 'tier': ctx.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
          'coverage': cov, 'wall_s': round(time.time() - t0, 2)}
    if res.assume:
        ev['assumptions'] = res.assume
    ev['violations'] = len(new)
    ev['coverage']['known_findings_seen'] = len(old)
    with open(evp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s analysed: %s' % (pid, ', '.join('%s=%s' % (k, v) for k, v in sorted(res.cov.items()) if isinstance(v, (int, float)))))
    for k, v in old:
        print('KNOWN-FINDING: property=%s %s: %s [%s]' % (pid, v['fn'], v['msg'], v['at']))
    if new:
        rp = os.path.join(HERE, 'evidence', pid + '.violations.json')
        with open(rp, 'w') as f:
            json.dump(new, f, indent=1, default=str)
        for v in new[:60]:
            print('  %s %s in %s [detail %s]: %s' % (v['at'], v['rule'], v['fn'], v['detail'], v['msg']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('OK property=%s' % pid)
    return 0


def same_fn(prog, name, v):
    """the finding's function, or a helper that only it (transitively) calls"""
    if v['fn'] == name:
        return True
    if prog is None or not v.get('mangled'):
        return False
    seen = set(); cur = {v['mangled']}
    for _ in range(3):
        nxt = set()
        for c in cur:
            for i in prog.callers.get(c, []):
                if i.fn.n not in seen:
                    seen.add(i.fn.n); nxt.add(i.fn)
        if nxt and all(f.pretty == name for f in nxt):
            return True
        cur = {f.n for f in nxt if f.pretty != name}
        if not cur:
            return False
    return False


if __name__ == '__main__':
    sys.exit(main())
