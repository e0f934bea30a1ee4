"""C09  solver objects are independent: no writable shared state."""
from ..common import Result, root
from ..effects import struct_fields

DESIGN = {'cwrap': {'globalOptionsObject', 'globalQProblemObject', 'globalQProblemBObject', 'globalSQProblemObject'},
          'oct': {'s_nexthandle', 'g_instances'}, 'octseq': {'s_nexthandle', 'g_instances'}}
HANDLER = 'MessageHandling'


def written_sites(p, eff):
    """global name -> [(fn, inst, how)]"""
    out = {}

    def gl(e):
        r = root(e)
        return r[1] if isinstance(r, tuple) and r[0] == 'G' and r[1] in p.globals else None
    for f in p.defined():
        for i in f.insts():
            if i.o == 'store':
                n = gl(f.ex(i.a[1]))
                if n:
                    out.setdefault(n, []).append((f, i, 'assigned'))
                n = gl(f.ex(i.a[0])) if not isinstance(i.a[0], int) else None
                if n and not p.globals[n]['const']:
                    out.setdefault(n, []).append((f, i, 'its address is stored'))
            elif i.o in ('call', 'invoke'):
                for j, a in enumerate(i.a):
                    if isinstance(a, int):
                        continue
                    n = gl(f.ex(a))
                    if not n or p.globals[n]['const']:
                        continue
                    g = p.globals[n]
                    cls = g['t'].split('::')[-1] if g['t'].startswith(('class.', 'struct.')) else None
                    flds = struct_fields(p, cls) if cls in p.types else set()
                    for c in p.callees(i):
                        if c.startswith('llvm.') and not c.startswith('llvm.mem'):
                            continue
                        if c.startswith(('__cxa_guard', '__cxa_atexit')):
                            continue
                        if eff.outwrite(c, j) or (eff.writes(c) & flds):
                            out.setdefault(n, []).append((f, i, 'modified by the call to ' + c))
                            break
            elif i.o == 'ret' and i.a and isinstance(i.a[0], str):
                n = gl(f.ex(i.a[0]))
                if n and not p.globals[n]['const']:
                    out.setdefault(n, []).append((f, i, 'its address is returned'))
    return out


def run(ctx):
    R = Result(['no object with static storage duration is written by the library, except the message handler',
                'the message handler keeps message settings only', 'the interfaces keep only their documented object registries'])
    ng = 0; nf = 0
    for u in ('lib', 'cwrap', 'oct', 'octseq'):
        p = ctx.prog(u); eff = ctx.eff(u)
        if u == 'lib':
            R.prog = p
        nf += len(p.defined())
        w = written_sites(p, eff)
        handlers = 0
        for n, g in p.globals.items():
            if g['const'] or g['decl'] or 'vt' in g or n.startswith(('_ZGV', 'llvm.', '_ZTV', '_ZTI', '_ZTS')):
                continue
            fl = p.files[g['file']] if 'file' in g else ''
            if not ('/src/' in fl or '/include/' in fl or '/interfaces/' in fl) or fl.startswith('/usr'):
                continue
            ng += 1
            dt = g.get('dt', '')
            if dt.startswith('const ') and '*' not in dt:
                continue            # initialised once, constant afterwards
            if g['t'].endswith('::' + HANDLER):
                handlers += 1
                continue
            if g.get('dn') in DESIGN.get(u, ()) and '/interfaces/' in fl:
                continue
            if g['t'].endswith('ReturnValueList"]') and not [x for x in w.get(n, ()) if x[2] != 'its address is returned']:
                continue
            for f, i, how in w.get(n, ())[:3]:
                if f.n.startswith(('_GLOBAL__sub_I', '__cxx_global_var_init')) or f.dem.startswith('__cxx_global_var_init'):
                    if g.get('dn') == 'stdFile':
                        continue
                if not f.sn and f.n.startswith('_GLOBAL__'):
                    continue
                R.v('shared-state', f, i, g['dem'], 'writable static variable %s is %s' % (g['dem'], how))
        if u == 'lib':
            R.need(handlers, 'message handler object')
            if handlers > 1:
                R.v('one-handler', 'MessageHandling', None, 'handlers', '%d message handlers with static storage' % handlers)
            for c, m in R.prog.members(HANDLER):
                if m['t'] not in ('VisibilityStatus', '_IO_FILE*', 'FILE*', 'int', 'long', 'int_t'):
                    R.v('handler-data', HANDLER, None, m['n'], 'the shared message handler keeps data of type %s' % m['t'])
    R.need(ng, 'variables with static storage duration', 4)
    R.cov = {'static_variables': ng, 'functions': nf, 'units': 4,
             'explanation': 'Every global, class-static and function-static variable of the linked units; all stores, calls and returns through which it could be written.'}
    return R
