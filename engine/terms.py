"""Terms of the value-flow analysis (nested tuples) and their smart constructors.

('i',n) int/char constant   ('b',bool)   ('s',str)   ('bytes',tuple)
('agg',kind,name,variant,fields)         tuple / adt / closure / array / it (iterator adaptor)
('list',items)  ('lcat',a,b)  ('lf',src,((conds,listterm),...))   list values
('cat',parts)   ('sf',src,((conds,strterm),...))                  string values
('mapnew',)     ('insert',m,k,v)   ('mf',src,((conds,(k,v)),...)) map values
('fn',id)  ('ref',cell,proj)  ('sym',name)  ('pj',base,variant,idx)  ('call',fname,args)
('op',name,a,b)  ('add',term,n)  ('len',x)  ('idx',x,i)  ('elem',src)  ('mu',loop,cell,path)
"""
OPTION = 'std::option::Option'
RESULT = 'std::result::Result'
CF = 'std::ops::ControlFlow'
TRUE, FALSE = ('b', True), ('b', False)
UNIT = ('agg', 'tuple', None, 0, ())


def adt(name, variant, *fields):
    return ('agg', 'adt', name, variant, tuple(fields))


def some(x):
    return adt(OPTION, 1, x)


NONE = adt(OPTION, 0)


def ok(x):
    return adt(RESULT, 0, x)


def err(x):
    return adt(RESULT, 1, x)


def tup(*xs):
    return ('agg', 'tuple', None, 0, tuple(xs))


def is_const(t):
    return isinstance(t, tuple) and t and t[0] in ('i', 'b', 's', 'bytes')


def mk_not(b):
    if b[0] == 'b':
        return ('b', not b[1])
    if b[0] == 'op' and b[1] == 'not':
        return b[2]
    return ('op', 'not', b, None)


def key(t):
    return repr(t)


def mk_eq(a, b):
    if a == b:
        return TRUE
    if is_const(a) and is_const(b):
        return ('b', a == b)
    if a[0] == 'b' or b[0] == 'b':
        c, x = (a, b) if a[0] == 'b' else (b, a)
        return x if c[1] else mk_not(x)
    # equal bytes are equal text; an ordering that says equal
    if a[0] == 'call' == b[0] and a[1] == b[1] == 'str::as_bytes':
        return mk_eq(a[2][0], b[2][0])
    for x, y in ((a, b), (b, a)):
        if x[0] == 'call' and x[1] == 'Ord::cmp' and y[0] == 'agg' and y[2] == 'std::cmp::Ordering' and y[3] == 1:
            return mk_eq(*x[2])
        if x[0] == 'call' and x[1] == 'str::to_ascii_lowercase':
            # equal in lower case is equal ignoring case
            if y[0] == 's' and y[1] == y[1].lower() and y[1].isascii():
                return ('call', 'eq_ignore_ascii_case', tuple(sorted((x[2][0], y), key=key)))
            if y[0] == 'call' and y[1] == x[1]:
                return ('call', 'eq_ignore_ascii_case', tuple(sorted((x[2][0], y[2][0]), key=key)))
    # len == 0
    for x, y in ((a, b), (b, a)):
        if y == ('i', 0) and natural(x):
            return mk_not(mk_lt(('i', 0), x))
    if is_const(a) and not is_const(b):
        a, b = b, a
    elif not is_const(b) and key(b) < key(a):
        a, b = b, a
    # string compare with the empty string is the emptiness test
    if b == ('s', ''):
        return mk_not(mk_lt(('i', 0), ('len', a)))
    return ('op', 'eq', a, b)


def natural(t):
    """a length, or the number of an item"""
    return t[0] in ('len', 'idxof') or t[0] == 'pj' and t[1][0] == 'elem' and t[1][1][:2] == ('lop', 'enumerate') and t[2:] == (None, 0)


def mk_lt(a, b):
    if a[0] == 'i' and b[0] == 'i':
        return ('b', a[1] < b[1])
    if a == b:
        return FALSE
    # len < 1  ==  not (0 < len)
    if b[0] == 'i' and b[1] == 1 and natural(a):
        return mk_not(mk_lt(('i', 0), a))
    if b == ('i', 0) and natural(a):
        return FALSE
    if a[0] == 'add' and b[0] == 'add' and a[1] == b[1]:
        return ('b', a[2] < b[2])
    if a[0] == 'add' and a[1] == b:
        return ('b', a[2] < 0)
    if b[0] == 'add' and b[1] == a:
        return ('b', b[2] > 0)
    if b[0] == 'len' and b[1][0] == 'list' and a[0] == 'i':
        return ('b', a[1] < len(b[1][1]))
    return ('op', 'lt', a, b)


def mk_add(a, b):
    if a[0] == 'i' and b[0] == 'i':
        return ('i', a[1] + b[1])
    for x, y in ((a, b), (b, a)):
        if y[0] == 'i':
            if y[1] == 0:
                return x
            if x[0] == 'add':
                return ('add', x[1], x[2] + y[1]) if x[2] + y[1] else x[1]
            return ('add', x, y[1])
    if key(b) < key(a):
        a, b = b, a
    return ('op', 'Add', a, b)


def mk_len(x):
    if x[0] == 'list':
        return ('i', len(x[1]))
    if x[0] == 's':
        return ('i', len(x[1].encode()))
    if x[0] == 'bytes':
        return ('i', len(x[1]))
    if x[0] == 'agg' and x[1] == 'array':
        return ('i', len(x[4]))
    if x[0] == 'call' and x[1] == 'str::as_bytes':
        return mk_len(x[2][0])
    return ('len', x)


def mk_cat(*parts):
    out = []
    for p in parts:
        ps = p[1] if p[0] == 'cat' else (p,)
        for q in ps:
            if q == ('s', ''):
                continue
            if q[0] == 's' and out and out[-1][0] == 's':
                out[-1] = ('s', out[-1][1] + q[1])
            else:
                out.append(q)
    if not out:
        return ('s', '')
    if len(out) == 1:
        return out[0]
    return ('cat', tuple(out))


def mk_lcat(a, b):
    if a == ('list', ()):
        return b
    if b == ('list', ()):
        return a
    if a[0] == 'list' and b[0] == 'list':
        return ('list', a[1] + b[1])
    if b[0] == 'lcat':
        return mk_lcat(mk_lcat(a, b[1]), b[2])
    if a[0] == 'lcat' and a[2][0] == 'list' and b[0] == 'list':
        return ('lcat', a[1], ('list', a[2][1] + b[1]))
    return ('lcat', a, b)


def as_items(x):
    """concrete element list of a term, or None"""
    if x[0] == 'list':
        return x[1]
    if x[0] == 'agg' and x[1] == 'array':
        return x[4]
    if x[0] == 'bytes':
        return tuple(('i', n) for n in x[1])
    return None


def mk_idx(x, i):
    it = as_items(x)
    if it is not None and i[0] == 'i':
        return it[i[1]] if 0 <= i[1] < len(it) else ('bot',)
    if i[0] == 'elem' and i[1][0] == 'range' and i[1][1] == ('i', 0) and i[1][2] == ('len', x):
        return ('elem', x)
    return ('idx', x, i)


def walk(t, f):
    """rebuild t bottom-up through f (f gets a node whose children are already rebuilt)"""
    if not isinstance(t, tuple):
        return t
    n = tuple(walk(x, f) if isinstance(x, tuple) else x for x in t)
    return f(n)


def subst(t, m, memo=None):
    """replace sub-terms by mapping, re-normalising"""
    if memo is None:
        memo = {}
    if not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    n = tuple(subst(x, m, memo) if isinstance(x, tuple) else x for x in t)
    if n != t:
        n = renorm(n)
    memo[t] = n
    return n


def renorm(n):
    if not n:
        return n
    h = n[0]
    if h == 'op' and len(n) == 4:
        if n[1] == 'eq':
            return mk_eq(n[2], n[3])
        if n[1] == 'lt':
            return mk_lt(n[2], n[3])
        if n[1] == 'not':
            return mk_not(n[2])
    elif h == 'add' and len(n) == 3 and isinstance(n[2], int):
        return mk_add(n[1], ('i', n[2]))
    elif h == 'len' and len(n) == 2:
        return mk_len(n[1])
    elif h == 'cat' and len(n) == 2:
        return mk_cat(*n[1])
    elif h == 'lcat' and len(n) == 3:
        return mk_lcat(n[1], n[2])
    elif h == 'idx' and len(n) == 3:
        return mk_idx(n[1], n[2])
    elif h == 'pj' and len(n) == 4 and isinstance(n[1], tuple) and n[1] and n[1][0] == 'agg':
        b = n[1]
        if b[1] != 'adt' or n[2] is None or b[3] == n[2]:
            if n[3] < len(b[4]):
                return b[4][n[3]]
    return n


def contains(t, pred):
    if not isinstance(t, tuple):
        return False
    if pred(t):
        return True
    return any(contains(x, pred) for x in t if isinstance(x, tuple))


def subterms(t, out=None):
    if out is None:
        out = []
    if isinstance(t, tuple):
        out.append(t)
        for x in t:
            subterms(x, out)
    return out


def show(t, depth=0):
    """compact human-readable form"""
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    h = t[0]
    if h in ('i', 'b'):
        return str(t[1])
    if h == 's':
        return repr(t[1])
    if h == 'sym':
        return t[1]
    if depth > 7:
        return '…'
    sh = lambda x: show(x, depth + 1)
    try:
        if h == 'agg':
            n = (t[2] or '').split('::')[-1].split('#')[0] if t[1] != 'tuple' else ''
            if t[1] == 'closure':
                n = 'closure'
            v = f'#{t[3]}' if t[1] == 'adt' else ''
            if t[2] == OPTION:
                return 'None' if t[3] == 0 else f'Some({sh(t[4][0])})'
            if t[2] == RESULT:
                return ('Ok' if t[3] == 0 else 'Err') + f'({sh(t[4][0])})'
            return f'{n}{v}(' + ', '.join(map(sh, t[4])) + ')'
        if h == 'call':
            return f'{t[1]}(' + ', '.join(map(sh, t[2])) + ')'
        if h == 'pj':
            return f'{sh(t[1])}.' + (f'<{t[2]}>' if t[2] is not None else '') + str(t[3])
        if h == 'op':
            if t[1] == 'not':
                return f'!{sh(t[2])}'
            return f'({sh(t[2])} {t[1]} {sh(t[3])})'
        if h == 'add':
            return f'({sh(t[1])}+{t[2]})'
        if h in ('lf', 'sf', 'mf'):
            return f'{h}[{sh(t[1])}: ' + '; '.join(f'{showc(c)}→{show(v, depth + 1)}' for c, v in t[2]) + ']'
        if h == 'list':
            return '[' + ', '.join(map(sh, t[1])) + ']'
        if h == 'cat':
            return ' ++ '.join(map(sh, t[1]))
    except Exception:
        pass
    return '(' + ' '.join(sh(x) if isinstance(x, tuple) else str(x) for x in t) + ')'


def showc(conds):
    out = []
    for a, v in (conds.items() if isinstance(conds, dict) else conds):
        if a[0] == 'var':
            out.append(f'{show(a[1])}~{v}')
        else:
            out.append(('' if v else '¬') + show(a[1]))
    return '{' + ' ∧ '.join(out) + '}'
