"""Integer size expressions as polynomials over atoms (for comparing extents)."""


def size_of(e):
    """strip the overflow guard of new T[n]"""
    while e[0] == 'S':
        if e[2] == ('K', -1):
            e = e[3]
        elif e[3] == ('K', -1):
            e = e[2]
        else:
            break
    return e


def poly(e, depth=0):
    """dict monomial -> coefficient; monomial = sorted tuple of atoms"""
    e = size_of(e)
    if depth > 12:
        return {(e,): 1}
    if e[0] == 'K':
        return {(): e[1]} if e[1] else {}
    if e[0] == 'O' and len(e) == 4:
        if e[1] in ('add', 'sub'):
            a = dict(poly(e[2], depth + 1))
            s = 1 if e[1] == 'add' else -1
            for k, v in poly(e[3], depth + 1).items():
                a[k] = a.get(k, 0) + s * v
            return {k: v for k, v in a.items() if v}
        if e[1] == 'mul':
            out = {}
            for k1, v1 in poly(e[2], depth + 1).items():
                for k2, v2 in poly(e[3], depth + 1).items():
                    k = tuple(sorted(k1 + k2, key=repr))
                    out[k] = out.get(k, 0) + v1 * v2
            return {k: v for k, v in out.items() if v}
        if e[1] == 'shl' and e[3][0] == 'K':
            return {k: v << e[3][1] for k, v in poly(e[2], depth + 1).items()}
    return {(e,): 1}


def scale(p, num, den=1):
    return {k: v * num / den for k, v in p.items()}


def show(p):
    def at(a):
        from .ir import fields_of
        fs = fields_of(a)
        if fs:
            return '.'.join(sorted(x.split('::')[-1] for x in fs))
        return a[0] + str(a[1]) if len(a) > 1 and isinstance(a[1], (int, str)) else '?'
    t = []
    for k, v in sorted(p.items(), key=repr):
        s = '*'.join(at(a) for a in k)
        t.append(('%g' % v if not k else (s if v == 1 else '%g*%s' % (v, s))))
    return ' + '.join(t) or '0'


def loop_extent(f, phi):
    """('V',phi) counts 0,1,..,N-1 in a loop: the expression N, else None"""
    n = f.inst.get(phi)
    if n is None or n.o != 'phi' or n.bb not in f.loops:
        return None
    body = f.loops[n.bb]
    init = step = None
    for v, pb in n.ph:
        if pb in body:
            s = f.ex(v)
            if s[0] == 'O' and s[1] == 'add' and ('V', phi) in s[2:] and ('K', 1) in s[2:]:
                step = 1
        else:
            init = f.ex(v)
    if init is None or step != 1:
        return None
    t = f.bbs[n.bb][-1]
    if t.o != 'br' or not t.a:
        return None
    c = f.ex(t.a[0])
    if c[0] != 'C':
        return None
    p, a, b = c[1], c[2], c[3]
    inside = t.s[0] in body
    if a == ('V', phi) and p in ('slt', 'ult') and inside:
        return init, b
    if b == ('V', phi) and p in ('sgt', 'ugt') and inside:
        return init, a
    if a == ('V', phi) and p in ('sle', 'ule') and inside:
        return init, ('O', 'add', b, ('K', 1))
    if a == ('V', phi) and p == 'ne' and inside:
        return init, b
    return None
