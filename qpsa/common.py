"""Context shared by the checks: lazily built program models and summaries."""
import time
from . import build
from .build import AnalysisError
from .effects import Effects, sccs, root, fkey
from .retvals import RetVals


class Ctx:
    def __init__(self, tier='quick'):
        self.tier = tier
        self._eff = {}; self._rv = {}; self._scc = {}

    def prog(self, unit='lib'):
        return build.load(unit)

    def eff(self, unit='lib'):
        if unit not in self._eff:
            self._eff[unit] = Effects(self.prog(unit))
        return self._eff[unit]

    def rv(self, unit='lib'):
        if unit not in self._rv:
            self._rv[unit] = RetVals(self.prog(unit), self.eff(unit))
        return self._rv[unit]

    def sccs(self, unit='lib'):
        if unit not in self._scc:
            self._scc[unit] = sccs(self.prog(unit))
        return self._scc[unit]


class Result:
    """What one check found.  `viol`: dicts rule, fn, at, detail, msg."""

    def __init__(self, rules):
        self.rules = rules; self.viol = []; self.cov = {}; self.assume = []; self.obligations = 0; self.discharged = 0
        self.prog = None

    def v(self, rule, fn, inst, detail, msg, at=None):
        name = fn if isinstance(fn, str) else fn.pretty
        loc = at or (fn.loc(inst) if not isinstance(fn, str) else '')
        d = {'rule': rule, 'fn': name, 'at': loc, 'detail': detail, 'msg': msg,
             'mangled': None if isinstance(fn, str) else fn.n}
        for o in self.viol:
            if all(o[k] == d[k] for k in ('rule', 'fn', 'at', 'detail')):
                return
        self.viol.append(d)

    def need(self, n, what, least=1):
        """zero (or too few) instances: the analysis itself has lost its object"""
        if n < least:
            raise AnalysisError('only %d instances of: %s (at least %d expected)' % (n, what, least))
        return n


_job = None


def _call(x):
    try:
        return ('ok', _job(x))
    except AnalysisError as e:
        return ('err', str(e))


def pmap(fn, items, n=6):
    """fn over items in forked processes (results must be plain data)"""
    import multiprocessing as mp
    global _job
    _job = fn
    items = list(items)
    build.tmpdir()
    if len(items) == 1:
        return [fn(items[0])]
    with mp.get_context('fork').Pool(min(n, len(items))) as pool:
        out = pool.map(_call, items, chunksize=1)
    for k, v in out:
        if k == 'err':
            raise AnalysisError(v)
    return [v for _, v in out]
