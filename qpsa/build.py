"""Compiles /repo's current working tree to SSA-form LLVM IR and loads it.

Units (exactly the sources the project's build covers):
  lib      src/*.cpp                      with the library's flags
  cwrap    interfaces/c/qpOASES_wrapper.cpp  (it includes src/*.cpp)
  oct      interfaces/octave/qpOASES.cpp
  octseq   interfaces/octave/qpOASES_sequence.cpp
Nothing is executed; the compiler only translates."""
import json, os, re, shutil, subprocess, sys, tempfile, glob, atexit
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('QPSA_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IRX = os.path.join(VERIF, 'build', 'irx')
CXX = '/usr/bin/clang++-18'
OPT = '/usr/bin/opt-18'
COMMON = ['-fdebug-compilation-dir=/nowhere', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fstandalone-debug', '-fno-exceptions',
          '-flto', '-fwhole-program-vtables', '-emit-llvm', '-c', '-w', '-std=gnu++17',
          '-DLINUX', '-D__NO_COPYRIGHT__']
LONG = ['-D__USE_LONG_INTEGERS__', '-D__USE_LONG_FINTS__']
# configurations of the library: the tested build, and (thorough runs) the ones with sparse solvers / single precision
CONFIGS = {'lib': LONG + ['-DSOLVER_NONE'], 'lib-ma57': LONG + ['-DSOLVER_MA57', '-include', VERIF + '/tool/prelude.h'],
           'lib-ma27': ['-DSOLVER_MA27', '-include', VERIF + '/tool/prelude.h'],
           'lib-single': ['-D__USE_SINGLE_PRECISION__', '-DSOLVER_NONE'],
           'lib-quiet': LONG + ['-DSOLVER_NONE', '-D__SUPPRESSANYOUTPUT__'], 'lib-debug': LONG + ['-DSOLVER_NONE', '-D__DEBUG__'],
           'lib-all': LONG + ['-DSOLVER_NONE', '-femit-all-decls']}   # inline functions nobody calls are emitted as well
EXTRA = ['lib-ma57', 'lib-ma27', 'lib-single', 'lib-quiet', 'lib-debug']


class AnalysisError(Exception):
    """The analysis itself is broken (anchor vanished, no instances, no build)."""


_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='qpsa.')
        me = os.getpid()
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True) if os.getpid() == me else None)
    return _tmp


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise AnalysisError('command failed: %s\n%s' % (' '.join(cmd), p.stdout[-4000:]))


def octave_inc():
    p = subprocess.run(['mkoctfile', '-p', 'INCFLAGS'], stdout=subprocess.PIPE, text=True)
    return p.stdout.split()


def unit_jobs(unit):
    R = REPO
    inc = ['-I' + R + '/include']
    if unit in CONFIGS:
        srcs = sorted(glob.glob(R + '/src/*.cpp'))
        if len(srcs) < 10:
            raise AnalysisError('library sources not found under %s/src' % R)
        return [(s, COMMON + inc + CONFIGS[unit]) for s in srcs]
    if unit == 'cwrap':
        return [(R + '/interfaces/c/qpOASES_wrapper.cpp',
                 COMMON + inc + LONG + ['-DSOLVER_NONE', '-D__C_WRAPPER__', '-I' + R + '/interfaces/c', '-I' + R + '/src'])]
    if unit in ('oct', 'octseq'):
        f = {'oct': 'qpOASES', 'octseq': 'qpOASES_sequence'}[unit]
        return [(R + '/interfaces/octave/%s.cpp' % f,
                 COMMON + inc + ['-D__cpluplus', '-D__SINGLE_OBJECT__', '-I' + R + '/interfaces/octave', '-I' + R + '/src'] + octave_inc())]
    if unit.startswith('file:'):
        return [(unit[5:], COMMON + inc + LONG + ['-DSOLVER_NONE'])]
    raise AnalysisError('unknown unit ' + unit)


def merge(datas):
    if len(datas) == 1:
        return datas[0]
    files = []; idx = {}
    out = {'types': [], 'enums': {}, 'globals': [], 'functions': []}
    seent = set(); gl = {}; fn = {}
    for d in datas:
        mp = {}
        for k, n in enumerate(d['files']):
            if n not in idx:
                idx[n] = len(files); files.append(n)
            mp[k] = idx[n]
        for t in d['types']:
            key = (t['name'], t['scope'])
            if key not in seent:
                seent.add(key)
                if t.get('file', -1) in mp:
                    t['file'] = mp[t['file']]
                out['types'].append(t)
        for k, v in d['enums'].items():
            out['enums'].setdefault(k, v)
        for g in d['globals']:
            if 'file' in g and g['file'] in mp:
                g['file'] = mp[g['file']]
            o = gl.get(g['n'])
            if o is None or (o['decl'] and not g['decl']):
                gl[g['n']] = g
        for f in d['functions']:
            o = fn.get(f['n'])
            if o is not None and (not o['decl'] or f['decl']):
                continue
            if 'file' in f and f['file'] in mp:
                f['file'] = mp[f['file']]
            for b in f.get('bbs', ()):
                for i in b:
                    if 'f' in i:
                        i['f'] = mp[i['f']]
            fn[f['n']] = f
    out['globals'] = list(gl.values()); out['functions'] = list(fn.values()); out['files'] = files
    return out


_cache = {}


def load(unit):
    if unit in _cache:
        return _cache[unit]
    if not os.path.exists(IRX):
        raise AnalysisError('extractor not built: run setup.sh')
    d = os.path.join(tmpdir(), unit.replace('/', '_').replace(':', '_'))
    os.makedirs(d, exist_ok=True)
    jobs = unit_jobs(unit)
    outs = []

    def one(k):
        s, fl = jobs[k]
        o = os.path.join(d, '%d.bc' % k)
        run([CXX] + fl + [s, '-o', o])
        return o
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, range(len(jobs))))
    def export(k):
        # one export per module: linking modules would merge structurally equal classes (Bounds/Constraints)
        op = outs[k] + '.opt'; js = outs[k] + '.json'
        run([OPT, '-passes=sroa', outs[k], '-o', op])
        run([IRX, op, js] + (['m%d' % k] if len(outs) > 1 else []))
        with open(js) as f:
            return f.read()
    with ThreadPoolExecutor(8) as ex:
        texts = list(ex.map(export, range(len(jobs))))
    alias = {}
    for t in texts:
        m = re.match(r'\{"aliases":(\{[^}]*\})', t)
        if m is None:
            raise AnalysisError('export of %s is not readable' % unit)
        alias.update(json.loads(m.group(1)))
    if alias:
        texts = [re.sub(r'"@([^"]+)"', lambda m: '"@%s"' % alias.get(m.group(1), m.group(1)), t) for t in texts]
    data = merge([json.loads(t) for t in texts])
    from . import ir
    p = ir.Prog(data, unit, [s for s, _ in jobs])
    _cache[unit] = p
    return p
