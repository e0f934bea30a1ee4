"""Function declarations of the public headers: parameters with type, default and trailing comment."""
import re, glob, os
from .build import REPO

TYPES = {'real_t': 'double', 'int_t': 'long', 'uint_t': 'unsigned long', 'fint_t': 'long', 'sparse_int_t': 'long', 'FILE': '_IO_FILE'}


def norm(t):
    t = re.sub(r'\b(const|class|struct|enum|qpOASES::)\b', ' ', t).replace('qpOASES::', '')
    t = re.sub(r'\b(\w+)\b', lambda m: TYPES.get(m.group(1), m.group(1)), t)
    t = t.replace('[]', '*')
    return re.sub(r'\s+', '', t)


def tokens(s):
    """(kind, text, offset) with kinds comment, word/punct"""
    for m in re.finditer(r'/\*.*?\*/|//[^\n]*|^[ \t]*#[^\n]*|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])+\'|\w+|\S', s, re.S | re.M):
        t = m.group(0)
        if t.startswith(('/*', '//')):
            yield 'c', t, m.start()
        elif t.lstrip().startswith('#'):
            continue
        else:
            yield 't', t, m.start()


def declarations(path):
    s = open(path, encoding='latin-1').read()
    tk = list(tokens(s))
    out = []; scope = []; i = 0; depth = 0
    pend = None; last = None
    while i < len(tk):
        k, t, o = tk[i]
        if k == 'c':
            last = t; i += 1
            continue
        if t in ('class', 'struct') and i + 1 < len(tk):
            pend = tk[i + 1][1]
        if t == ';':
            pend = None
        if t == '{':
            depth += 1
            scope.append((depth, pend)); pend = None
        elif t == '}':
            if scope and scope[-1][0] == depth:
                scope.pop()
            depth -= 1
        elif t == '(' and i and re.match(r'^\w+$', tk[i - 1][1]) and tk[i - 1][0] == 't':
            name = tk[i - 1][1]
            ps = []; cur = []; d = 1; com = []; j = i + 1
            while j < len(tk) and d:
                kk, tt, oo = tk[j]
                if kk == 'c':
                    if cur:
                        com.append(tt)
                    elif ps:
                        ps[-1][1].append(tt)
                else:
                    if tt in '([{':
                        d += 1
                    elif tt in ')]}':
                        d -= 1
                        if d == 0:
                            break
                    if tt == ',' and d == 1:
                        ps.append((cur, com)); cur = []; com = []
                    else:
                        cur.append(tt)
                j += 1
            if cur:
                ps.append((cur, com))
            doc = None
            b = i - 1
            while b >= 0 and not (tk[b][0] == 't' and tk[b][1] in ';{}'):
                if tk[b][0] == 'c':
                    doc = tk[b][1]
                    break
                b -= 1
            cls = [c for _, c in scope if c]
            out.append({'cls': cls[-1] if cls else None, 'name': name, 'params': [param(c, m) for c, m in ps], 'doc': doc,
                        'at': '%s:%d' % (os.path.relpath(path, REPO), s[:o].count('\n') + 1)})
            i = j
        i += 1
    return out


def param(toks, com):
    txt = list(toks)
    default = None
    if '=' in txt:
        e = txt.index('=')
        default = ' '.join(txt[e + 1:]); txt = txt[:e]
    arr = False
    while txt and txt[-1] == ']':
        del txt[txt.index('['):]
        arr = True
    name = None
    if len(txt) > 1 and re.match(r'^\w+$', txt[-1]) and txt[-1] not in ('const', 'int', 'double', 'char', 'long'):
        name = txt[-1]; txt = txt[:-1]
    return {'name': name, 'type': norm(' '.join(txt) + ('*' if arr else '')), 'default': default,
            'doc': re.sub(r'[\s*]+', ' ', ' '.join(com))}


def headers():
    return sorted(glob.glob(REPO + '/include/qpOASES/*.hpp') + glob.glob(REPO + '/include/qpOASES/extras/*.hpp')
                  + glob.glob(REPO + '/interfaces/c/*.h'))


def all_declarations():
    out = []
    for h in headers():
        out += declarations(h)
    return out
