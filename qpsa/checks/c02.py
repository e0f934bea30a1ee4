"""C02  memory a routine allocates for itself is released exactly once on every exit."""
from ..common import Result, Ctx, pmap
from ..own import Own
from ..build import EXTRA

RULES = ['leak', 'double', 'mismatch', 'useafter', 'borrowed']


def analyse(unit):
    ctx = Ctx()
    o = Own(ctx.prog(unit), ctx.eff(unit), ctx.rv(unit))
    o.run(ctx.sccs(unit))
    return o.stats, o.viol


def run(ctx):
    R = Result(['a block allocated by a routine is released once, or handed to an object / the caller, on every path to an exit',
                'no block is released twice, through the wrong form of delete, or used after its release',
                'a block handed to an object is not released behind its back'])
    units = ['lib', 'cwrap'] + (EXTRA if ctx.tier == 'thorough' else [])
    R.cov = {'units': units, 'per_unit': {}}
    R.prog = ctx.prog('lib')
    for u, (stats, viol) in zip(units, pmap(analyse, units)):
        if u == 'lib':
            R.need(stats['allocation_sites'], 'allocations', 150)
            R.need(stats['release_sites'], 'releases', 200)
            R.need(stats['functions'], 'functions that allocate or release', 60)
        st = dict(stats); st['widened'] = len(st['widened'])
        R.cov['per_unit'][u] = st
        R.obligations += stats['paths_to_exit']
        for k in ('functions', 'allocation_sites', 'release_sites', 'paths_to_exit'):
            R.cov[k] = R.cov.get(k, 0) + stats[k]
        for v in viol:
            if v['kind'] == 'file' or v['rule'] not in RULES:
                continue
            R.v(v['rule'], v['fn'], None, v['detail'], v['msg'], at=v['at'])
    R.cov['explanation'] = ('Path-sensitive typestate of every block allocated in a routine (owned, handed over, released) over all paths, with '
                            'callee summaries for released, captured, returned and out-parameter blocks.')
    return R
