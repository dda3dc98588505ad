"""Meaning of the std (and a few crate) functions soupy uses, on terms."""
import re
from terms import *
from loops import mk_lf, rest_of, mk_lf as _mk_lf
import loops

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def _U(msg, where=''):
    from interp import Unsupported
    return Unsupported(msg, where)


# ------------------------------------------------------------------ identity-like conversions
IDENT = ['Deref::deref', 'DerefMut::deref_mut', 'Borrow::borrow', 'BorrowMut::borrow_mut', 'Vec::as_slice', 'Vec::as_mut_slice',
         'String::as_str', 'String::as_mut_str', 'Vec::into_boxed_slice', 'String::into_boxed_str', 'slice::to_vec',
         'slice::into_vec', 'String::into_string', 'str::to_owned', 'ToOwned::to_owned', 'Box::new', 'Rc::new', 'Arc::new', 'Box::pin',
         'Cow::into_owned', 'Cow::to_mut', 'str::to_string', 'str::into_string', 'array::as_slice', 'slice::as_ref',
         'Option::copied', 'Option::cloned', 'hint::must_use', 'hint::black_box', 'String::leak', 'Vec::leak', 'str::as_str',
         'slice::into_iter_', 'convert::identity', 'String::into_bytes_', 'Box::into_inner', 'NonNull::as_ptr', 'Vec::as_ref',
         'Cow::as_ref', 'Tendril::as_ref', 'boxed::box_assume_init_into_vec_unsafe', 'Box::assume_init', 'Box::write_']


def ident(I, a, st, f, w):
    return a[0]


for n in IDENT:
    MODELS[n] = ident


@model('Option::copied', 'Option::cloned')
def opt_cloned(I, a, st, f, w):
    return a[0] if a[0][0] != 'ref' else I.val(st, a[0])


@model('Box::new_uninit')
def new_uninit(I, a, st, f, w):
    st = st.copy()
    st.fc += 1
    c = (st.fc, 'box')
    st.cells[c] = ('undef',)
    return [('ret', ('ref', c, ()), st)]


@model('boxed::box_assume_init_into_vec_unsafe', 'Box::assume_init')
def assume_init(I, a, st, f, w):
    v = I.val(st, a[0])
    if v[0] == 'upd' and v[1] == ('undef',):
        v = v[4]
    while v[0] == 'upd':
        v = v[4]
    return v


def _sty(f, i=0):
    a = f.get('args') or []
    return a[i] if i < len(a) else ''


def _stringy(t):
    from interp import is_stringy
    return is_stringy(t)


TEXTLIKE = ('std::string::String', 'str', 'std::borrow::Cow')


def _adt(t):
    from facts import adt_of_type
    return adt_of_type(t)


@model('Clone::clone')
def clone(I, a, st, f, w):
    return I.val(st, a[0])


@model('Clone::clone_from')
def clone_from(I, a, st, f, w):
    if a[0][0] == 'ref':
        st = st.copy()
        I.store(st, a[0][1], a[0][2], I.val(st, a[1]))
        return [('ret', UNIT, st)]


@model('AsRef::as_ref')
def as_ref(I, a, st, f, w):
    if f.get('unresolved') and not _stringy(f.get('selfty', '')):
        return None
    return I.val(st, a[0])


CONV_OK = ('std::string::String', 'str', 'std::borrow::Cow', 'tendril::tendril::Tendril', 'tendril::Tendril', 'std::vec::Vec',
           'std::boxed::Box', 'std::rc::Rc', 'std::sync::Arc', 'scraper::StrTendril', 'usize', 'u32', 'u64', 'char', 'u8')


@model('From::from', 'Into::into')
def from_(I, a, st, f, w):
    args = f.get('args') or []
    if f.get('key') and _adt(f.get('rpath', '').lstrip('<').split(' as ')[0]) == 'T':
        return None           # the reflexive / blanket impls have bodies
    if f.get('unresolved'):
        return None
    if f['name'] == 'into':
        return None
    s = args[0] if args else ''
    src = args[1] if len(args) > 1 else ''
    v = I.val(st, a[0])
    if _adt(s) in ('std::collections::BTreeMap', 'std::collections::HashMap'):
        return ('mapof', v)
    if s.startswith(('std::option::Option', 'std::result::Result')):
        return None
    if _adt(s) in CONV_OK or s.startswith('std::sync::Arc') or s.startswith('&'):
        if src == 'char' and _stringy(s):
            return ('chr', v)
        return v
    return None


@model('ToString::to_string')
def to_string(I, a, st, f, w):
    v = I.val(st, a[0])
    t = f.get('selfty', '')
    if _stringy(t):
        return v
    if t.lstrip('&') == 'char':
        return ('chr', v) if v[0] != 'i' else ('s', chr(v[1]))
    return ('call', 'ToString::to_string', (I.deep(st, v),))


@model('Default::default')
def default(I, a, st, f, w):
    t = _sty(f) or f.get('selfty', '')
    h = _adt(t)
    if t == 'bool':
        return FALSE
    if h in ('usize', 'u32', 'u64', 'i32', 'u8', 'i64', 'isize'):
        return ('i', 0)
    if h == 'std::option::Option':
        return NONE
    if h == 'std::vec::Vec':
        return ('list', ())
    if h == 'std::string::String' or _stringy(t):
        return ('s', '')
    if h in ('std::collections::BTreeMap', 'std::collections::HashMap'):
        return ('mapof', ('list', ()))
    if re.match(r"&('\w+ )?(mut )?\[", t):
        return ('list', ())
    if t == '()':
        return UNIT
    return None


# ------------------------------------------------------------------ comparisons
@model('mem::discriminant')
def discriminant(I, a, st, f, w):
    x = I.deep(st, a[0])
    t = ((f.get('args') or ['']) + [''])[0]
    adt = x[2] if x[0] == 'agg' and x[1] == 'adt' else _adt(t)
    return ('agg', 'adt', 'std::mem::Discriminant', 0, (I.discr(x, adt),))


@model('Iterator::eq', 'Iterator::ne')
def it_eq(I, a, st, f, w):
    t = mk_eq(to_list(I, a[0], st), to_list(I, a[1], st))
    return t if f['name'] == 'eq' else mk_not(t)


@model('PartialEq::eq', 'PartialEq::ne')
def eq(I, a, st, f, w):
    if f.get('key') and f.get('rcrate') == 'soupy':
        return None
    x, y = I.deep(st, a[0]), I.deep(st, a[1])
    if x[0] == 'agg' and y[0] == 'agg' and x[1] == 'adt' and x[2] == y[2] and x[3] != y[3]:
        t = FALSE
    elif x[0] == 'agg' and y[0] == 'agg' and x[1:4] == y[1:4] and len(x[4]) == 1 == len(y[4]):
        t = mk_eq(x[4][0], y[4][0])
    elif 'agg' in (x[0], y[0]) and (x if x[0] == 'agg' else y)[2] == OPTION:
        g, o = (x, y) if x[0] == 'agg' else (y, x)
        out = []
        for v, s in I.fork_variant(st, o, OPTION):
            r = (TRUE if g[3] == v else FALSE) if v == 0 or g[3] == 0 else mk_eq(g[4][0], ('pj', o, 1, 0))
            out.append(('ret', r if f['name'] == 'eq' else mk_not(r), s))
        return out
    else:
        t = mk_eq(x, y)
    return t if f['name'] == 'eq' else mk_not(t)


@model('PartialOrd::lt', 'PartialOrd::gt', 'PartialOrd::le', 'PartialOrd::ge')
def cmp_(I, a, st, f, w):
    x, y = I.deep(st, a[0]), I.deep(st, a[1])
    n = f['name']
    return {'lt': lambda: mk_lt(x, y), 'gt': lambda: mk_lt(y, x), 'le': lambda: mk_not(mk_lt(y, x)), 'ge': lambda: mk_not(mk_lt(x, y))}[n]()


@model('Not::not')
def not_(I, a, st, f, w):
    return mk_not(I.val(st, a[0]))


def arith(op):
    def m(I, a, st, f, w):
        return I.binop(op, I.val(st, a[0]), I.val(st, a[1]))
    return m


for _n in ('Add::add', 'Sub::sub', 'Mul::mul', 'BitAnd::bitand', 'BitOr::bitor'):
    def _m(I, a, st, f, w, _op=_n.split('::')[0]):
        x, y = I.val(st, a[0]), I.val(st, a[1])
        if _op == 'Add' and (_stringy(f.get('selfty', '')) or f.get('selfty', '') == 'std::string::String'):
            return mk_cat(I.deep(st, x), I.deep(st, y))
        if f.get('selfty') in ('usize', 'u32', 'u64', 'bool', 'i32', 'u8', '&usize'):
            return I.binop(_op, x, y)
        return None
    MODELS[_n] = _m


@model('AddAssign::add_assign')
def add_assign(I, a, st, f, w):
    if a[0][0] != 'ref':
        return None
    st = st.copy()
    x, y = I.val(st, a[0]), I.deep(st, a[1])
    if f.get('selfty') == 'std::string::String':
        v = mk_cat(x, y)
    else:
        v = I.binop('Add', x, y)
    I.store(st, a[0][1], a[0][2], v)
    return [('ret', UNIT, st)]


@model('wrapping_add', 'usize::wrapping_add', 'usize::saturating_add', 'u32::wrapping_add')
def wadd(I, a, st, f, w):
    return I.binop('Add', I.val(st, a[0]), I.val(st, a[1]))


@model('usize::checked_add')
def cadd(I, a, st, f, w):
    return some(I.binop('Add', I.val(st, a[0]), I.val(st, a[1])))


# ------------------------------------------------------------------ mem
@model('mem::replace')
def mem_replace(I, a, st, f, w):
    if a[0][0] != 'ref':
        return None
    st = st.copy()
    old = I.load(st, a[0][1], a[0][2])
    I.store(st, a[0][1], a[0][2], a[1])
    return [('ret', old, st)]


@model('mem::swap')
def mem_swap(I, a, st, f, w):
    if a[0][0] != 'ref' or a[1][0] != 'ref':
        return None
    st = st.copy()
    x, y = I.load(st, *a[0][1:]), I.load(st, *a[1][1:])
    I.store(st, a[0][1], a[0][2], y)
    I.store(st, a[1][1], a[1][2], x)
    return [('ret', UNIT, st)]


@model('mem::take')
def mem_take(I, a, st, f, w):
    if a[0][0] != 'ref':
        return None
    d = default(I, [], st, {'args': f.get('args'), 'name': 'default'}, w)
    if d is None:
        return None
    st = st.copy()
    old = I.load(st, a[0][1], a[0][2])
    I.store(st, a[0][1], a[0][2], d)
    return [('ret', old, st)]


@model('Option::take')
def opt_take(I, a, st, f, w):
    if a[0][0] != 'ref':
        return None
    st = st.copy()
    old = I.load(st, a[0][1], a[0][2])
    I.store(st, a[0][1], a[0][2], NONE)
    return [('ret', old, st)]


@model('Option::replace')
def opt_replace(I, a, st, f, w):
    if a[0][0] != 'ref':
        return None
    st = st.copy()
    old = I.load(st, a[0][1], a[0][2])
    I.store(st, a[0][1], a[0][2], some(a[1]))
    return [('ret', old, st)]


@model('Option::insert')
def opt_insert(I, a, st, f, w):
    if a[0][0] != 'ref':
        return None
    st = st.copy()
    I.store(st, a[0][1], a[0][2], some(a[1]))
    return [('ret', ('ref', a[0][1], a[0][2] + (('f', 1, 0),)), st)]


@model('Option::get_or_insert_with', 'Option::get_or_insert')
def opt_get_or_insert(I, a, st, f, w):
    if a[0][0] != 'ref':
        return None
    out = []
    cur = I.val(st, a[0])
    for v, s in I.fork_variant(st, cur, OPTION):
        r = ('ref', a[0][1], a[0][2] + (('f', 1, 0),))
        if v == 1:
            out.append(('ret', r, s))
            continue
        vals = [('ret', a[1], s)] if f['name'] == 'get_or_insert' else I.call_value(a[1], [], s, w)
        for k, x, s2 in vals:
            if k == 'ret':
                s2 = s2.copy()
                I.store(s2, a[0][1], a[0][2], some(x))
                out.append(('ret', r, s2))
            else:
                out.append((k, x, s2))
    return out


@model('mem::drop', 'mem::forget')
def drop_(I, a, st, f, w):
    return UNIT


# ------------------------------------------------------------------ lazy statics
@model('Lazy::get', 'OnceLock::get_or_init', 'OnceCell::get_or_init')
def lazy_get(I, a, st, f, w):
    return I.call_value(a[1], [], st, w)


@model('LazyLock::new', 'LazyCell::new')
def lazy_new(I, a, st, f, w):
    return I.call_value(a[0], [], st, w)


@model('LazyLock::force', 'LazyCell::force')
def lazy_force(I, a, st, f, w):
    return a[0]


# ------------------------------------------------------------------ strings
@model('String::new', 'String::with_capacity')
def s_new(I, a, st, f, w):
    return ('s', '')


@model('String::push_str', 'String::extend_', 'Tendril::push_slice')
def push_str(I, a, st, f, w):
    if a[0][0] != 'ref':
        return None
    st = st.copy()
    I.store(st, a[0][1], a[0][2], mk_cat(I.load(st, a[0][1], a[0][2]), I.deep(st, a[1])))
    return [('ret', UNIT, st)]


@model('String::push', 'Tendril::push_char')
def s_push(I, a, st, f, w):
    if a[0][0] != 'ref':
        return None
    st = st.copy()
    v = I.val(st, a[1])
    I.store(st, a[0][1], a[0][2], mk_cat(I.load(st, a[0][1], a[0][2]), ('s', chr(v[1])) if v[0] == 'i' else ('chr', v)))
    return [('ret', UNIT, st)]


@model('Write::write_fmt', 'Write::write_str', 'Write::write_char')
def fmt_write(I, a, st, f, w):
    """into a String: appends, and fails never (a Display that reports an error makes to_string() panic)"""
    if f.get('selfty', '').replace('&mut ', '') != 'std::string::String' or 'fmt' not in f.get('trait', ''):
        return None
    r = a[0]
    while r[0] == 'ref' and I.load(st, r[1], r[2])[0] == 'ref':
        r = I.load(st, r[1], r[2])
    v = I.deep(st, a[1])
    if r[0] != 'ref' or f['name'] == 'write_fmt' and v[0] != 'fmtargs':
        return None
    t = v[1] if v[0] == 'fmtargs' else v if f['name'] == 'write_str' else ('s', chr(v[1])) if v[0] == 'i' else ('chr', v)
    st = st.copy()
    I.store(st, r[1], r[2], mk_cat(I.load(st, r[1], r[2]), t))
    return [('ret', ok(UNIT), st)]


@model('String::reserve', 'Vec::reserve', 'String::shrink_to_fit', 'Vec::shrink_to_fit')
def reserve(I, a, st, f, w):
    return UNIT


@model('str::len', 'String::len', 'Vec::len', 'slice::len', 'ExactSizeIterator::len', 'BTreeMap::len', 'HashMap::len')
def len_(I, a, st, f, w):
    v = I.deep(st, a[0])
    if v[0] == 'iter':
        return ('op', 'Sub', mk_len(v[1]), v[2]) if v[2] != ('i', 0) else mk_len(v[1])
    return mk_len(v)


@model('str::is_empty', 'String::is_empty', 'Vec::is_empty', 'slice::is_empty', 'BTreeMap::is_empty', 'HashMap::is_empty')
def is_empty(I, a, st, f, w):
    v = I.deep(st, a[0])
    return mk_not(mk_lt(('i', 0), mk_len(v)))


@model('str::as_bytes', 'String::as_bytes', 'String::into_bytes')
def as_bytes(I, a, st, f, w):
    v = I.deep(st, a[0])
    if v[0] == 's':
        return ('bytes', tuple(v[1].encode()))
    return ('call', 'str::as_bytes', (v,))


@model('str::chars')
def chars(I, a, st, f, w):
    v = I.deep(st, a[0])
    if v[0] == 's':
        return ('iter', ('list', tuple(('i', ord(c)) for c in v[1])), ('i', 0))
    return ('iter', ('chars', v), ('i', 0))


@model('str::bytes')
def sbytes(I, a, st, f, w):
    v = I.deep(st, a[0])
    if v[0] == 's':
        return ('iter', ('list', tuple(('i', c) for c in v[1].encode())), ('i', 0))
    return ('iter', ('sbytes', v), ('i', 0))


@model('slice::join', 'Join::join', 'slice::concat')
def join(I, a, st, f, w):
    L = to_list(I, a[0], st)
    sep = I.deep(st, a[1]) if len(a) > 1 else ('s', '')
    if L[0] == 'list':
        parts = []
        for i, x in enumerate(L[1]):
            if i:
                parts.append(sep)
            parts.append(x)
        return mk_cat(*parts)
    return ('join', L, sep)


def slice_range(I, st, r):
    """(lo, hi) terms of a range value, None for open ends"""
    r = I.deep(st, r)
    if r[0] == 'range':
        return (r[1] if r[1] != ('i', 0) else None, r[2])
    if r[0] != 'agg':
        return None
    n = r[2].split('::')[-1]
    if n == 'Range':
        return r[4][0], r[4][1]
    if n == 'RangeFrom':
        return r[4][0], None
    if n == 'RangeTo':
        return None, r[4][0]
    if n == 'RangeFull':
        return None, None
    if n == 'RangeInclusive':
        return r[4][0], mk_add(r[4][1], ('i', 1))
    if n == 'RangeToInclusive':
        return None, mk_add(r[4][0], ('i', 1))
    return None


def mk_slice(x, lo, hi):
    if lo in (None, ('i', 0)) and (hi is None or hi == ('len', x)):
        return x
    if hi == ('len', x):
        hi = None
    if lo == ('i', 0):
        lo = None
    if lo is not None and lo == hi:
        return ('s', '')
    if x[0] == 's' and (lo is None or lo[0] == 'i') and (hi is None or hi[0] == 'i'):
        try:
            return ('s', x[1].encode()[(lo or ('i', 0))[1]:(hi[1] if hi else None)].decode())
        except UnicodeDecodeError:
            return ('bot',)
    if lo is not None and hi is not None and lo[0] == hi[0] == 'call' and lo[1] == 'Match::start' and hi[1] == 'Match::end' and lo[2] == hi[2]:
        m = lo[2][0]
        if m[0] == 'elem' and m[1] == ('call', 'Regex::find_iter', (m[1][2][0], x) if m[1][0] == 'call' and m[1][2] else ()):
            return ('call', 'Match::as_str', (m,))
    return ('slice', x, lo or ('i', 0), hi or ('end',))


@model('Index::index', 'IndexMut::index_mut')
def index(I, a, st, f, w):
    t = f.get('selfty', '')
    if 'BTreeMap' in t or 'HashMap' in t or 'phf::Map' in t:
        m, k = I.deep(st, a[0]), I.deep(st, a[1])
        g = ('call', 'Map::get' if 'phf::Map' in t else 'BTreeMap::get', (m, k))
        I.oblige('mapindex', g, st, w)
        return ('pj', g, 1, 0)
    x = I.deep(st, a[0])
    i = I.val(st, a[1])
    if 'Captures' in t and i == ('i', 0):
        return ('call', 'Match::as_str', (x,))
    rg = slice_range(I, st, i)
    if rg is not None:
        I.oblige('slice', (x, rg[0], rg[1], t), st, w)
        if a[0][0] == 'ref' and f['name'] == 'index_mut':
            return None
        return mk_slice(x, *rg)
    b = mk_lt(i, mk_len(x))
    if I.decide(st, b) is not True:
        I.oblige('bounds', b, st, w)
    if f['name'] == 'index_mut' and a[0][0] == 'ref':
        return ('ref', a[0][1], a[0][2] + (('x', i),))
    return mk_idx(x, i)


@model('str::get')
def str_get(I, a, st, f, w):
    x = I.deep(st, a[0])
    rg = slice_range(I, st, a[1])
    if rg is None:
        return None
    t = ('call', 'str::get', (x, rg[0] or ('i', 0), rg[1] or ('end',)))
    out = []
    for v, s in I.fork_variant(st, t, OPTION):
        out.append(('ret', NONE if v == 0 else some(mk_slice(x, *rg)), s))
    return out


@model('str::split_at')
def split_at(I, a, st, f, w):
    x, i = I.deep(st, a[0]), I.val(st, a[1])
    I.oblige('slice', (x, None, i, 'str'), st, w)
    return tup(mk_slice(x, None, i), mk_slice(x, i, None))


@model('slice::get')
def slice_get(I, a, st, f, w):
    x = I.val(st, a[0])
    x = I.deep(st, x)
    i = I.val(st, a[1])
    if i[0] == 'agg' or i[0] == 'range':
        rg = slice_range(I, st, i)
        if rg is None:
            return None
        t = ('call', 'slice::get', (x, rg[0] or ('i', 0), rg[1] or ('end',)))
        return [('ret', NONE if v == 0 else some(lslice(x, *rg)), s) for v, s in I.fork_variant(st, t, OPTION)]
    out = []
    for v, s in I.fork_bool(st, mk_lt(i, mk_len(x))):
        out.append(('ret', some(mk_idx(x, i)) if v else NONE, s))
    return out


def lslice(x, lo, hi):
    it = as_items(x)
    if it is not None and (lo is None or lo[0] == 'i') and (hi is None or hi[0] == 'i'):
        return ('list', tuple(it[(lo or ('i', 0))[1]:(hi[1] if hi else None)]))
    if lo in (None, ('i', 0)) and hi is None:
        return x
    if hi is None:
        return rest_of(x, lo)
    return ('lop', 'slice', (x, lo or ('i', 0), hi or ('end',)))


@model('slice::first')
def first(I, a, st, f, w):
    return slice_get(I, [a[0], ('i', 0)], st, f, w)


@model('slice::last')
def last(I, a, st, f, w):
    x = I.deep(st, a[0])
    return [('ret', some(mk_idx(x, mk_add(mk_len(x), ('i', -1)))) if v else NONE, s) for v, s in I.fork_bool(st, mk_lt(('i', 0), mk_len(x)))]


@model('slice::split_first')
def split_first(I, a, st, f, w):
    x = I.deep(st, a[0])
    return [('ret', some(tup(mk_idx(x, ('i', 0)), lslice(x, ('i', 1), None))) if v else NONE, s)
            for v, s in I.fork_bool(st, mk_lt(('i', 0), mk_len(x)))]


# opaque pure functions returning Option / Result / bool are left to opaque_call; the variants are forked on demand.
@model('str::strip_prefix')
def strip_prefix(I, a, st, f, w):
    x, p = I.deep(st, a[0]), I.deep(st, a[1])
    return [('ret', NONE if v == 0 else some(('pj', ('call', 'str::strip_prefix', (x, p)), 1, 0)), s)
            for v, s in I.fork_variant(st, ('call', 'str::strip_prefix', (x, p)), OPTION)]


# ------------------------------------------------------------------ vectors
@model('Vec::new', 'Vec::with_capacity', 'VecDeque::new')
def v_new(I, a, st, f, w):
    return ('list', ())


@model('Vec::push', 'VecDeque::push_back')
def v_push(I, a, st, f, w):
    if a[0][0] != 'ref':
        return None
    st = st.copy()
    I.store(st, a[0][1], a[0][2], mk_lcat(I.load(st, a[0][1], a[0][2]), ('list', (I.deep(st, a[1]),))))
    return [('ret', UNIT, st)]


@model('Vec::append', 'Vec::extend_from_slice')
def v_append(I, a, st, f, w):
    if a[0][0] != 'ref':
        return None
    st = st.copy()
    o = I.deep(st, a[1])
    I.store(st, a[0][1], a[0][2], mk_lcat(I.load(st, a[0][1], a[0][2]), o))
    if f['name'] == 'append':
        I.store(st, a[1][1], a[1][2], ('list', ()))
    return [('ret', UNIT, st)]


@model('Extend::extend')
def extend(I, a, st, f, w):
    if a[0][0] != 'ref':
        return None
    out = []
    t = f.get('selfty', '')
    for L, s in lists(I, a[1], st, w):
        s = s.copy()
        if (f.get('args') or []) and is_map_type(f['args'][-1]):
            L = pairs(L)
        cur = I.load(s, a[0][1], a[0][2])
        if 'BTreeMap' in t or 'HashMap' in t:
            base = cur[1] if cur[0] == 'mapof' else ('pairs', cur)
            v = ('mapof', mk_lcat(base, L))
        elif _stringy(t):
            v = mk_cat(cur, ('strcat', L))
        elif _adt(t) in ('std::vec::Vec', 'std::collections::VecDeque'):
            v = mk_lcat(cur, L)
        else:
            return None
        I.store(s, a[0][1], a[0][2], v)
        out.append(('ret', UNIT, s))
    return out


@model('vec::from_elem')
def from_elem(I, a, st, f, w):
    n = I.val(st, a[1])
    if n[0] == 'i' and n[1] <= 64:
        return ('list', (a[0],) * n[1])
    return ('repeat', a[0], n)


@model('vec::from_fn_')
def _x(I, a, st, f, w):
    return None


# ------------------------------------------------------------------ maps
@model('BTreeMap::new', 'HashMap::new')
def m_new(I, a, st, f, w):
    return ('mapof', ('list', ()))


@model('BTreeMap::insert', 'HashMap::insert')
def m_insert(I, a, st, f, w):
    if a[0][0] != 'ref':
        return None
    st = st.copy()
    cur = I.load(st, a[0][1], a[0][2])
    base = cur[1] if cur[0] == 'mapof' else ('pairs', cur)
    k, v = I.deep(st, a[1]), I.deep(st, a[2])
    I.store(st, a[0][1], a[0][2], ('mapof', mk_lcat(base, ('list', (tup(k, v),)))))
    return [('ret', ('call', 'BTreeMap::insert', (cur, k)), st)]


@model('BTreeMap::get', 'HashMap::get')
def m_get(I, a, st, f, w):
    return ('call', 'BTreeMap::get', (I.deep(st, a[0]), I.deep(st, a[1])))


@model('BTreeMap::contains_key', 'HashMap::contains_key', 'Map::contains_key')
def m_contains(I, a, st, f, w):
    g = ('call', 'Map::get' if f.get('path', '').startswith('phf') else 'BTreeMap::get', (I.deep(st, a[0]), I.deep(st, a[1])))
    return [('ret', ('b', v == 1), s) for v, s in I.fork_variant(st, g, OPTION)]


@model('BTreeMap::get_key_value')
def m_gkv(I, a, st, f, w):
    k = I.deep(st, a[1])
    g = ('call', 'BTreeMap::get', (I.deep(st, a[0]), k))
    return [('ret', some(tup(k, ('pj', g, 1, 0))) if v else NONE, s) for v, s in I.fork_variant(st, g, OPTION)]


def pairs(m):
    if m[0] == 'mapof':
        return ('pairs', m)
    return ('pairs', m)


@model('BTreeMap::iter', 'HashMap::iter')
def m_iter(I, a, st, f, w):
    return ('iter', pairs(I.deep(st, a[0])), ('i', 0))


@model('BTreeMap::keys', 'BTreeMap::values', 'BTreeMap::into_keys', 'BTreeMap::into_values', 'HashMap::keys', 'HashMap::values')
def m_keys(I, a, st, f, w):
    L = pairs(I.deep(st, a[0]))
    i = 0 if 'keys' in f['name'] else 1
    return ('iter', mk_lf(L, (((), ('list', (('pj', ('elem', L), None, i),))),)), ('i', 0))


# ------------------------------------------------------------------ iterators
def is_map_type(t):
    t = t.lstrip('&').replace('mut ', '')
    return _adt(t).split('::')[-1] in ('BTreeMap', 'HashMap')


def to_list(I, v, st):
    """list term of an iterable value"""
    v = I.val(st, v)
    if v[0] == 'iter':
        if v[2] == ('i', 0):
            return v[1]
        if v[2] == 'done':
            return ('list', ())
        if not isinstance(v[2], tuple):
            raise _U('iterator used again after a loop left it early', 'list of an iterator')
        return rest_of(v[1], v[2])
    if v[0] == 'agg' and v[1] == 'adt' and v[2].split('::')[-1] == 'Range':
        return mk_range(v[4][0], v[4][1])
    if v[0] == 'agg' and v[1] == 'adt' and v[2].split('::')[-1] == 'RangeInclusive':
        return mk_range(v[4][0], mk_add(v[4][1], ('i', 1)))
    if v[0] == 'mapof':
        return pairs(I.deep(st, v))
    if v[0] == 'agg' and v[1] == 'adt' and v[2] == OPTION:
        return ('list', ()) if v[3] == 0 else ('list', (I.deep(st, v[4][0]),))
    return I.deep(st, v)


def mk_range(a, b):
    if a[0] == 'i' and b[0] == 'i':
        if b[1] - a[1] <= 300:
            return ('list', tuple(('i', n) for n in range(a[1], b[1])))
    return ('range', a, b)


def lists(I, v, st, w):
    """[(list term, state)] of an iterable, forking on options and running adaptor chains"""
    x = I.val(st, v)
    if x[0] in ('call', 'pj', 'apply', 'sym') and is_opt(I, x, st):
        out = []
        for k, s in I.fork_variant(st, x, OPTION):
            out.append((('list', ()) if k == 0 else ('list', (('pj', x, 1, 0),)), s))
        return out
    if x[0] == 'call' and isinstance(x[1], tuple) and x[1][0] == 'conv' and x[1][2] == 'result':
        # iterating a Result: its success
        return [(('list', (('pj', x, 0, 0),)) if k == 0 else ('list', ()), s) for k, s in I.fork_variant(st, x, RESULT)]
    if x[0] == 'agg' and x[1] == 'adt' and x[2] == RESULT:
        return [(('list', (I.deep(st, x[4][0]),)) if x[3] == 0 else ('list', ()), st)]
    return [(to_list(I, v, st), st)]


OPTCALLS = {'BTreeMap::get', 'str::strip_prefix', 'str::get', 'Node::name', 'Node::text', 'Node::attrs', 'Map::get', 'char::from_u32',
            'methods::from_u32', 'Pattern::value'}


def is_opt(I, x, st):
    return ('var', x) in st.conds or (x[0] == 'call' and x[1] in OPTCALLS)


@model('Regex::replace_all', 'Regex::captures_iter')
def replace_all(I, a, st, f, w):
    R, x = I.deep(st, a[0]), I.deep(st, a[1])
    src = ('call', 'Regex::find_iter', (R, x))
    if f['name'] == 'captures_iter':
        return src           # a capture is identified with its group 0
    rep = I.val(st, a[2])

    def g(e, s):
        m = lambda n: ('call', 'Match::' + n, (e,))
        pre = ('slice', x, ('prev', src, ('i', 0), m('end')), m('start'))
        if rep[0] == 's':
            if '$' in rep[1]:
                raise _U('replacement template', w)
            return [(('list', (mk_cat(pre, rep),)), s)]
        return [(('list', (mk_cat(pre, I.deep(s2, v)),)), s2) for v, s2 in rets(I, I.call_value(a[2], [e], s, w))]
    e = ('call', 'Match::end', (('elem', src),))
    body = list_map(I, src, g, st, w)
    return mk_cat(('strcat', body), ('slice', x, ('lastof', src, ('i', 0), e), ('end',)))


@model('Match::range')
def match_range(I, a, st, f, w):
    m = I.deep(st, a[0])
    return ('agg', 'adt', 'std::ops::Range', 0, (('call', 'Match::start', (m,)), ('call', 'Match::end', (m,))))


@model('Captures::get')
def caps_get(I, a, st, f, w):
    c, i = I.val(st, a[0]), I.val(st, a[1])
    return some(c) if i == ('i', 0) else None


@model('IntoIterator::into_iter')
def into_iter(I, a, st, f, w):
    v = I.val(st, a[0])
    t = f.get('selfty', '')
    if v[0] == 'iter':
        return a[0]          # iterators (and `&mut` iterators) iterate themselves
    if v[0] == 'agg' and v[1] == 'it':
        return a[0]
    if is_map_type(t):
        return ('iter', pairs(I.deep(st, v)), ('i', 0))
    h = _adt(t)
    if v[0] == 'agg' and v[1] == 'adt':
        if v[2].split('::')[-1] in ('Range', 'RangeInclusive'):
            return ('iter', to_list(I, v, st), ('i', 0))
        if v[2] == OPTION:
            return ('iter', to_list(I, v, st), ('i', 0))
        return a[0]          # local iterator structs: the blanket impl is the identity
    if t.startswith(('std::option::Option', '&std::option::Option')) or is_opt(I, v, st):
        return [('ret', ('iter', L, ('i', 0)), s) for L, s in lists(I, v, st, w)]
    if v[0] in ('list', 'lf', 'lcat', 'lop', 'bytes', 'range', 'pj', 'sym', 'call', 'elem', 'idx', 'apply', 'repeat', 'mu', 'ite', 'chars', 'fold', 'part', 'collected', 'items', 'value'):
        return ('iter', I.deep(st, v), ('i', 0))
    return None


@model('slice::iter', 'slice::iter_mut', 'Vec::iter', 'VecDeque::iter', 'Option::iter', 'Vec::drain')
def s_iter(I, a, st, f, w):
    if f['name'] == 'drain':
        return None
    if 'Option' in (f.get('rpath') or ''):
        return [('ret', ('iter', L, ('i', 0)), s) for L, s in lists(I, a[0], st, w)]
    return ('iter', I.deep(st, a[0]), ('i', 0))


def cells_changed(s0, s1):
    return any(s1.cells.get(c) != v for c, v in s0.cells.items())


def list_map(I, L, g, st, w):
    """list term of g over L; g(elem, st) -> [(list term of items, st)]; g must not change the program state"""
    def cases_of(e, s):
        out = []
        for items, s2 in g(e, s):
            if cells_changed(s, s2) or s2.effects != s.effects:
                raise _U('closure with side effects in an iterator adaptor', w)
            cd = tuple((x, v) for x, v in s2.conds.items() if x not in s.conds)
            out.append((cd + loops.searches(s, s2), items))
        return prune(out)

    if L[0] == 'list':
        r = ('list', ())
        for x in L[1]:
            cs = cases_of(x, st)
            if len(cs) == 1 and cs[0][0] == ():
                r = mk_lcat(r, cs[0][1])
            else:
                r = mk_lcat(r, ('lf', ('one', x), tuple(c for c in cs if c[1] != ('list', ()))))
        return r
    if L[0] == 'lcat':
        return mk_lcat(list_map(I, L[1], g, st, w), list_map(I, L[2], g, st, w))
    if L[0] == 'lf':
        cases = []
        for c0, lt in L[2]:
            s = st
            for (k, t), v in c0:
                s = s.copy()
                s.conds[(k, t)] = v
            if lt[0] == 'list' and len(lt[1]) == 1:
                for c1, l1 in cases_of(lt[1][0], s):
                    cases.append((tuple(c0) + c1, l1))
            else:
                cases.append((tuple(c0), list_map(I, lt, g, s, w)))
        if L[1][0] == 'one':
            return ('lf', L[1], tuple(c for c in cases if c[1] != ('list', ())))
        return mk_lf(L[1], tuple(cases))
    return mk_lf(L, tuple(cases_of(('elem', L), st)))


def prune(cases):
    """cases with the same items that differ only in the value of one condition merge"""
    ch = True
    cases = list(cases)
    while ch:
        ch = False
        for i in range(len(cases)):
            for j in range(i + 1, len(cases)):
                (c1, x1), (c2, x2) = cases[i], cases[j]
                if x1 != x2 or len(c1) != len(c2):
                    continue
                diff = [(p, q) for p, q in zip(c1, c2) if p != q]
                if len(diff) == 1 and diff[0][0][0] == diff[0][1][0] and diff[0][0][0][0] == 'b':
                    cases[i] = (tuple(p for p in c1 if p != diff[0][0]), x1)
                    del cases[j]
                    ch = True
                    break
            if ch:
                break
    return cases


def rets(I, outs):
    for k, v, s in outs:
        if k == 'ret':
            yield v, s


def adaptor(fn):
    def m(I, a, st, f, w):
        it = I.val(st, a[0])
        if it[0] == 'agg' and it[1] in ('adt', 'it'):
            r = lazy_adaptor(I, a, st, f, w)
            if r is not None:
                return r
        L = to_list(I, a[0], st)
        return ('iter', fn(I, L, a, st, f, w), ('i', 0))
    return m


def lazy_adaptor(I, a, st, f, w):
    """adaptor over a hand-written iterator: kept as a structure, stepped by it_next"""
    n = f['name']
    if n == 'flatten':
        return ('agg', 'it', 'flatten', 0, (a[0], NONE, NONE))
    if n == 'flat_map':
        return ('agg', 'it', 'flatten', 0, (('agg', 'it', 'map', 0, (a[0], a[1])), NONE, NONE))
    if n in ('map', 'filter', 'filter_map', 'fuse', 'by_ref', 'take_while', 'inspect', 'enumerate', 'peekable', 'skip', 'take', 'chain', 'map_while'):
        return ('agg', 'it', n, 0, tuple(a))
    return ('iter', ('lop', n, tuple(I.deep(st, x) for x in a)), ('i', 0))


@model('Iterator::map')
def it_map(I, a, st, f, w):
    return adaptor(lambda I, L, a, st, f, w: list_map(I, L, lambda e, s: [(('list', (I.deep(s2, v),)), s2) for v, s2 in rets(I, I.call_value(a[1], [e], s, w))], st, w))(I, a, st, f, w)


@model('Iterator::filter')
def it_filter(I, a, st, f, w):
    def g(e, s):
        out = []
        for v, s2 in rets(I, I.call_value(a[1], [e], s, w)):
            for b, s3 in I.fork_bool(s2, I.val(s2, v)):
                out.append((('list', (e,)) if b else ('list', ()), s3))
        return out
    return adaptor(lambda I, L, a, st, f, w: list_map(I, L, g, st, w))(I, a, st, f, w)


@model('Iterator::filter_map')
def it_filter_map(I, a, st, f, w):
    def g(e, s):
        out = []
        for v, s2 in rets(I, I.call_value(a[1], [e], s, w)):
            v = I.val(s2, v)
            for b, s3 in I.fork_variant(s2, v, OPTION):
                out.append((('list', (I.deep(s3, I.project(v, ('f', 1, 0), s3)),)) if b else ('list', ()), s3))
        return out
    return adaptor(lambda I, L, a, st, f, w: list_map(I, L, g, st, w))(I, a, st, f, w)


def flat_items(I, v, s, w):
    return [(L, s2) for L, s2 in lists(I, v, s, w)]


@model('Iterator::flat_map')
def it_flat_map(I, a, st, f, w):
    def g(e, s):
        out = []
        for v, s2 in rets(I, I.call_value(a[1], [e], s, w)):
            out.extend(flat_items(I, v, s2, w))
        return out
    return adaptor(lambda I, L, a, st, f, w: list_map(I, L, g, st, w))(I, a, st, f, w)


@model('Iterator::flatten')
def it_flatten(I, a, st, f, w):
    def g(e, s):
        if _isres(f):
            return [((('list', (I.deep(s2, I.project(e, ('f', 0, 0), s2)),)) if k == 0 else ('list', ())), s2) for k, s2 in I.fork_variant(s, e, RESULT)]
        if _isopt(f):
            return [((('list', (I.deep(s2, I.project(e, ('f', 1, 0), s2)),)) if k == 1 else ('list', ())), s2) for k, s2 in I.fork_variant(s, e, OPTION)]
        return flat_items(I, e, s, w)
    return adaptor(lambda I, L, a, st, f, w: list_map(I, L, g, st, w))(I, a, st, f, w)


def _isopt(f):
    return False


def _isres(f):
    return False


@model('Iterator::cloned', 'Iterator::copied', 'Iterator::by_ref', 'Iterator::fuse', 'Iterator::peekable_')
def it_same(I, a, st, f, w):
    return a[0]


@model('Iterator::inspect')
def it_inspect(I, a, st, f, w):
    it = I.val(st, a[0])
    if it[0] != 'iter':
        return None
    list_map(I, to_list(I, a[0], st), lambda e, s: [(('list', ()), s2) for v, s2 in rets(I, I.call_value(a[1], [e], s, w))], st, w)
    return it


@model('Iterator::chain')
def it_chain(I, a, st, f, w):
    it = I.val(st, a[0])
    if it[0] == 'agg' and it[1] in ('adt', 'it') and it[2] != OPTION:
        return lazy_adaptor(I, a, st, f, w)
    if len(f.get('args') or []) > 1 and is_map_type(f['args'][-1]):
        a = [a[0], ('iter', pairs(I.deep(st, a[1])), ('i', 0))]
    out = []
    for A, s in lists(I, a[0], st, w):
        for B, s2 in lists(I, a[1], s, w):
            out.append(('ret', ('iter', mk_lcat(A, B), ('i', 0)), s2))
    return out


@model('Iterator::enumerate')
def it_enum(I, a, st, f, w):
    L = to_list(I, a[0], st)
    if L[0] == 'list':
        return ('iter', ('list', tuple(tup(('i', n), x) for n, x in enumerate(L[1]))), ('i', 0))
    return ('iter', mk_lf(L, (((), ('list', (tup(('idxof', L), ('elem', L)),))),)) if L[0] not in ('lf', 'lcat') else ('lop', 'enumerate', (L,)), ('i', 0))


@model('Iterator::rev', 'Iterator::skip', 'Iterator::take', 'Iterator::step_by', 'Iterator::zip', 'Iterator::cycle', 'Iterator::take_while',
       'Iterator::skip_while', 'Iterator::map_while', 'Iterator::scan')
def it_lop(I, a, st, f, w):
    if f['name'] == 'zip' and len(f.get('args') or []) > 1 and is_map_type(f['args'][-1]):
        a = [a[0], ('iter', pairs(I.deep(st, a[1])), ('i', 0))]
    if f['name'] == 'zip':
        x, y = I.deep(st, a[0]), I.deep(st, a[1])
        endless = lambda v: v[:2] == ('agg', 'adt') and v[2].split('::')[-1] == 'RangeFrom'
        if endless(x) != endless(y):
            k, L = (x[4][0] if endless(x) else y[4][0]), to_list(I, a[1] if endless(x) else a[0], st)
            n, e = mk_add(('idxof', L), k), ('elem', L)
            if L[0] == 'list':
                return ('iter', ('list', tuple(tup(mk_add(k, ('i', i)), v) if endless(x) else tup(v, mk_add(k, ('i', i))) for i, v in enumerate(L[1]))), ('i', 0))
            if L[0] not in ('lf', 'lcat'):
                return ('iter', mk_lf(L, (((), ('list', (tup(n, e) if endless(x) else tup(e, n),))),)), ('i', 0))
    L = to_list(I, a[0], st)
    if f['name'] == 'zip':
        R = to_list(I, a[1], st)
        one_each = lambda t: t[0] == 'lf' and len(t[2]) == 1 and t[2][0][0] == () and t[2][0][1][0] == 'list' and len(t[2][0][1][1]) == 1
        if one_each(L) and one_each(R) and L[1] == R[1]:
            return ('iter', mk_lf(L[1], (((), ('list', (tup(L[2][0][1][1][0], R[2][0][1][1][0]),))),)), ('i', 0))
    if f['name'] == 'skip':
        return ('iter', rest_of(L, I.deep(st, a[1])), ('i', 0))
    if f['name'] == 'rev' and L[0] == 'list':
        return ('iter', ('list', tuple(reversed(L[1]))), ('i', 0))
    return ('iter', ('lop', f['name'], (L,) + tuple(I.deep(st, x) for x in a[1:])), ('i', 0))


@model('iter::once')
def it_once(I, a, st, f, w):
    return ('iter', ('list', (I.deep(st, a[0]),)), ('i', 0))


@model('iter::successors')
def it_successors(I, a, st, f, w):
    # from the first child on to the next sibling: the children
    seed, x = I.deep(st, a[0]), ('sym', 'before')
    kids = None
    if seed[:2] == ('call', 'NodeRef::first_child'):
        kids = ('call', 'NodeRef::children', seed[2])
    elif seed[0] == 'agg' and seed[2] == OPTION:
        if seed[3] == 0:
            return ('iter', ('list', ()), ('i', 0))
        if seed[4][0][0] == 'idx' and seed[4][0][1][:2] == ('call', 'NodeRef::children') and seed[4][0][2] == ('i', 0):
            kids = seed[4][0][1]
    if kids is not None:
        outs = I.call_value(a[1], [x], st, w)
        if [(k, I.deep(s, v)) for k, v, s in outs] == [('ret', ('call', 'NodeRef::next_sibling', (x,)))]:
            return ('iter', kids, ('i', 0))
    return ('call', 'iter::successors', (seed, I.deep(st, a[1])))


@model('iter::empty')
def it_empty(I, a, st, f, w):
    return ('iter', ('list', ()), ('i', 0))


# calls whose result is an iterator of std or a dependency that yields a finite list
STD_ITERS = {'Regex::find_iter', 'Regex::captures_iter', 'Regex::split', 'str::chars', 'str::char_indices', 'str::bytes', 'str::split', 'str::split_terminator', 'str::split_whitespace',
             'str::split_ascii_whitespace', 'str::lines', 'str::matches', 'str::match_indices', 'str::rsplit', 'str::splitn', 'str::split_inclusive', 'NodeRef::children',
             'NodeRef::descendants', 'NodeRef::next_siblings', 'NodeRef::ancestors', 'Element::attrs', 'Attrs::attrs', 'BTreeMap::keys', 'BTreeMap::values', 'Node::descendants'}


def it_next(I, it, st, w):
    """[(Option term, state)]; `it` is a pointer to the iterator"""
    if it[0] != 'ref':
        raise _U('iterator is not a place', w)
    v = I.val(st, it)
    # find the cell that really holds it
    cell, proj = it[1], it[2]
    x = I.load(st, cell, proj)
    while x[0] == 'ref':
        cell, proj = x[1], x[2]
        x = I.load(st, cell, proj)
    if v[0] == 'agg' and v[1] == 'adt' and v[2].split('::')[-1] == 'Range':
        L, v = mk_range(v[4][0], v[4][1]), None
        st = st.copy()
        I.store(st, cell, proj, ('iter', L, ('i', 0)))
        return it_next(I, ('ref', cell, proj), st, w)
    if v[0] == 'agg' and v[1] == 'adt' and v[2].split('::')[-1] == 'RangeFrom':
        st = st.copy()
        n = v[4][0]
        I.store(st, cell, proj, v[:4] + ((mk_add(n, ('i', 1)),),))
        return [(some(n), st)]
    if v[0] == 'call' and v[1] in STD_ITERS:
        st = st.copy()
        I.store(st, cell, proj, ('iter', v, ('i', 0)))
        return it_next(I, ('ref', cell, proj), st, w)
    if v[0] == 'iter':
        L, pos = v[1], v[2]
        if pos == 'done':
            return [(NONE, st)]
        if pos == 'rest':
            raise _U('iterator used again after a loop left it early', w)
        if pos == 'mid':
            b = ('more', L)
            if ('b', b) in st.conds:
                raise _U('iterator advanced twice in one round', w)
            out = []
            for t in (True, False):
                s = st.copy()
                s.conds[('b', b)] = t
                if not t:
                    I.store(s, cell, proj, ('iter', L, 'done'))
                out.append((some(('elem', L)) if t else NONE, s))
            return out
        out = []
        if L[0] in ('lf', 'lcat') and I.loop_hook is None:
            # structured list outside a loop: its first element
            b = mk_lt(pos, mk_len(L))
        else:
            b = mk_lt(pos, mk_len(L))
        for t, s in I.fork_bool(st, b):
            if t:
                s = s.copy()
                I.store(s, cell, proj, ('iter', L, mk_add(pos, ('i', 1))))
                out.append((some(mk_idx(L, pos)), s))
            else:
                out.append((NONE, s))
        return out
    if v[0] == 'agg' and v[1] == 'it':
        return lazy_next(I, v, cell, proj, st, w)
    if v[0] == 'agg' and v[1] == 'adt':
        b = I.F.find_impl(v[2], 'Iterator', 'next')
        if b is not None:
            out = []
            fo = {'key': b['key'], 'path': b['path'], 'rpath': b['path'], 'trait': 'std::iter::Iterator', 'name': 'next', 'crate': 'core', 'rcrate': 'soupy', 'selfty': b.get('impl_self', '')}
            for k, r, s in I.call_fn(fo, [('ref', cell, proj)], st, w):
                if k == 'ret':
                    out.append((I.val(s, r), s))
            return out
    return None


def lazy_next(I, v, cell, proj, st, w):
    n = v[2]
    fld = lambda i: ('ref', cell, proj + (('f', None, i),))
    if n == 'flatten':
        # front iterator first, then the next inner iterator of the outer one, then nothing
        def step(s):
            out = []
            cur = I.load(s, cell, proj)
            front = I.val(s, cur[4][1])
            for k, s1 in I.fork_variant(s, front, OPTION):
                if k == 1:
                    inner = ('ref', cell, proj + (('f', None, 1), ('f', 1, 0)))
                    r = it_next(I, inner, s1, w)
                    if r is None:
                        raise _U('unknown inner iterator of flatten', w)
                    for o, s2 in r:
                        for k2, s3 in I.fork_variant(s2, o, OPTION):
                            if k2 == 1:
                                out.append(('brk', some(I.project(o, ('f', 1, 0), s3)), s3))
                            else:
                                s3 = s3.copy()
                                I.store(s3, cell, proj + (('f', None, 1),), NONE)
                                out.append(('cont', None, s3))
                    continue
                # the outer iterator is fused: once it has ended it is not asked again
                if I.load(s1, cell, proj)[4][2] != NONE:
                    out.append(('brk', NONE, s1))
                    continue
                r = it_next(I, fld(0), s1, w)
                if r is None:
                    raise _U('unknown outer iterator of flatten', w)
                for o, s2 in r:
                    for k2, s3 in I.fork_variant(s2, o, OPTION):
                        s3 = s3.copy()
                        if k2 == 0:
                            I.store(s3, cell, proj + (('f', None, 2),), some(UNIT))
                            out.append(('brk', NONE, s3))
                        else:
                            x = I.project(o, ('f', 1, 0), s3)
                            x = I.val(s3, x)
                            if not (x[0] == 'iter' or (x[0] == 'agg' and x[1] in ('adt', 'it') and x[2] != OPTION)):
                                x = ('iter', to_list(I, x, s3), ('i', 0))
                            I.store(s3, cell, proj + (('f', None, 1),), some(x))
                            out.append(('cont', None, s3))
            return out
        res = I.loop(st, step, ('L', 'flatten', cell, proj))
        return [(p, s) for k, p, s in res if k == 'brk']
    if n == 'map':
        out = []
        for o, s in it_next(I, fld(0), st, w) or []:
            for k, s1 in I.fork_variant(s, o, OPTION):
                if k == 0:
                    out.append((NONE, s1))
                else:
                    for x, s2 in rets(I, I.call_value(fld(1), [I.project(o, ('f', 1, 0), s1)], s1, w)):
                        out.append((some(x), s2))
        return out
    if n in ('filter', 'filter_map'):
        def step(s):
            out = []
            for o, s0 in it_next(I, fld(0), s, w) or []:
                for k, s1 in I.fork_variant(s0, o, OPTION):
                    if k == 0:
                        out.append(('brk', NONE, s1))
                        continue
                    e = I.project(o, ('f', 1, 0), s1)
                    for x, s2 in rets(I, I.call_value(fld(1), [e], s1, w)):
                        if n == 'filter':
                            for b, s3 in I.fork_bool(s2, I.val(s2, x)):
                                out.append(('brk', some(e), s3) if b else ('cont', None, s3))
                        else:
                            x = I.val(s2, x)
                            for b, s3 in I.fork_variant(s2, x, OPTION):
                                out.append(('brk', some(I.project(x, ('f', 1, 0), s3)), s3) if b else ('cont', None, s3))
            return out
        res = I.loop(st, step, ('L', n, cell, proj))
        return [(p, s) for k, p, s in res if k == 'brk']
    if n == 'fuse':
        return it_next(I, fld(0), st, w)
    raise _U(f'iterator adaptor {n} over a hand-written iterator', w)


@model('Iterator::next')
def next_(I, a, st, f, w):
    r = it_next(I, a[0], st, w) if a[0][0] == 'ref' else None
    if r is None:
        return None
    return [('ret', o, s) for o, s in r]


def consume(I, src, st, w, body):
    """drive an iterator to its end: body(elem, st) -> [('cont'|'brk', value, st)]; -> [('brk'|'end', value, st)]"""
    st = st.copy()
    st.fc += 1
    cell = (st.fc, 'it')
    v = v0 = I.val(st, src)
    if not (v[0] == 'iter' or (v[0] == 'agg' and v[1] in ('it', 'adt') and v[2] != OPTION and v[2].split('::')[-1] != 'Range')):
        v = ('iter', to_list(I, v, st), ('i', 0))
    if src[0] == 'ref' and v is v0:
        ref = src
    else:
        st.cells[cell] = v
        ref = ('ref', cell, ())

    def step(s):
        r = it_next(I, ref, s, w)
        if r is None:
            raise _U(f'unknown iterator {show(v)[:80]}', w)
        out = []
        for o, s1 in r:
            for k, s2 in I.fork_variant(s1, o, OPTION):
                if k == 0:
                    out.append(('brk', ('end',), s2))
                else:
                    for kk, x, s3 in body(I.project(o, ('f', 1, 0), s2), s2):
                        out.append((kk, x if kk == 'cont' else ('stop', x), s3))
        return out
    res = I.loop(st, step, ('L', 'consume', st.fc, w.split(' (')[0]))
    out = []
    for k, p, s in res:
        s = s.copy()
        s.cells.pop(cell, None)
        if k != 'brk':
            out.append((k, p, s))
        elif p == ('end',):
            out.append(('end', None, s))
        else:
            out.append(('brk', p[1], s))
    return out


@model('Iterator::any', 'Iterator::all')
def it_any(I, a, st, f, w):
    stop_on = f['name'] == 'any'

    def body(e, s):
        out = []
        for v, s2 in rets(I, I.call_value(a[1], [e], s, w)):
            for b, s3 in I.fork_bool(s2, I.val(s2, v)):
                out.append(('brk', ('b', stop_on), s3) if b == stop_on else ('cont', None, s3))
        return out
    return [('ret', v if k == 'brk' else ('b', not stop_on), s) for k, v, s in consume(I, a[0], st, w, body) if k in ('brk', 'end')]


@model('Iterator::find', 'Iterator::find_map', 'Iterator::position')
def it_find(I, a, st, f, w):
    n = f['name']

    def body(e, s):
        out = []
        for v, s2 in rets(I, I.call_value(a[1], [e], s, w)):
            if n == 'find_map':
                v = I.val(s2, v)
                for b, s3 in I.fork_variant(s2, v, OPTION):
                    out.append(('brk', some(I.deep(s3, I.project(v, ('f', 1, 0), s3))), s3) if b else ('cont', None, s3))
                continue
            for b, s3 in I.fork_bool(s2, I.val(s2, v)):
                out.append(('brk', some(e if n == 'find' else ('posof', e)), s3) if b else ('cont', None, s3))
        return out
    return [('ret', v if k == 'brk' else NONE, s) for k, v, s in consume(I, a[0], st, w, body) if k in ('brk', 'end')]


@model('Iterator::for_each')
def it_for_each(I, a, st, f, w):
    fn = a[1]
    st = st.copy()
    st.fc += 1
    c = (st.fc, 'fn')
    st.cells[c] = fn

    def body(e, s):
        return [('cont', None, s2) for v, s2 in rets(I, I.call_value(('ref', c, ()), [e], s, w))]
    return [('ret', UNIT, s) for k, v, s in consume(I, a[0], st, w, body) if k == 'end']


@model('Iterator::fold')
def it_fold(I, a, st, f, w):
    st = st.copy()
    st.fc += 1
    c = (st.fc, 'acc')
    st.cells[c] = a[1]

    def body(e, s):
        out = []
        for v, s2 in rets(I, I.call_value(a[2], [s.cells[c], e], s, w)):
            s2 = s2.copy()
            s2.cells[c] = v
            out.append(('cont', None, s2))
        return out
    return [('ret', s.cells[c], s) for k, v, s in consume(I, a[0], st, w, body) if k == 'end']


@model('Iterator::reduce')
def it_reduce(I, a, st, f, w):
    st = st.copy()
    st.fc += 1
    c = (st.fc, 'rest')
    st.cells[c] = a[0]
    it = ('ref', c, ())
    out = []
    for o, s in it_next(I, it, st, w) or ():
        for k, s2 in I.fork_variant(s, o, OPTION):
            if k == 0:
                out.append(('ret', NONE, s2))
            else:
                x = o[4][0] if o[0] == 'agg' else ('pj', o, 1, 0)
                out += [(r, some(v), s3) for r, v, s3 in it_fold(I, [it, x, a[1]], s2, f, w)]
    return out or None


@model('Iterator::count')
def it_count(I, a, st, f, w):
    L = to_list(I, a[0], st)
    if L[0] == 'chars' and L[1][0] == 's':
        return ('i', len(L[1][1]))
    return mk_len(L)


@model('Iterator::last', 'Iterator::nth', 'Iterator::max', 'Iterator::min', 'Iterator::sum', 'Iterator::partition', 'Iterator::unzip', 'Iterator::max_by_key')
def it_opaque(I, a, st, f, w):
    L = to_list(I, a[0], st)
    if f['name'] == 'nth' and I.val(st, a[1]) == ('i', 0) and a[0][0] == 'ref':
        return next_(I, a, st, f, w)
    return ('call', 'Iterator::' + f['name'], (L,) + tuple(I.deep(st, x) for x in a[1:]))


@model('Iterator::size_hint', 'Iterator::by_ref')
def it_hint(I, a, st, f, w):
    if f['name'] == 'by_ref':
        return a[0]
    v = I.deep(st, a[0])
    if v[0] == 'iter' and v[2][0] in ('i', 'sym', 'add'):
        n = ('op', 'Sub', mk_len(v[1]), v[2]) if v[2] != ('i', 0) else mk_len(v[1])
        return tup(n, some(n))
    return ('call', 'Iterator::size_hint', (v,))


@model('Iterator::collect', 'FromIterator::from_iter')
def it_collect(I, a, st, f, w):
    args = f.get('args') or []
    t = args[1] if f['name'] == 'collect' and len(args) > 1 else (args[0] if args else '')
    it = I.val(st, a[0])
    if it[0] == 'agg' and it[1] in ('it',) or (it[0] == 'agg' and it[1] == 'adt' and it[2] != OPTION and it[2].split('::')[-1] not in ('Range', 'RangeInclusive')):
        L = ('liter', I.deep(st, it))
    else:
        L = to_list(I, a[0], st)
        if f['name'] == 'from_iter' and len(args) > 1 and is_map_type(args[-1]) and L[0] != 'pairs':
            L = pairs(L)
    return collect_into(I, L, t, st, w)


def collect_into(I, L, t, st, w):
    h = _adt(t)
    if h in ('std::vec::Vec', 'std::boxed::Box', 'std::collections::VecDeque'):
        return L
    if h in ('std::collections::BTreeMap', 'std::collections::HashMap'):
        return mk_mapof(L)
    if _stringy(t) or h == 'std::string::String':
        if L[0] == 'list':
            return mk_cat(*[x if x[0] != 'i' else ('s', chr(x[1])) for x in L[1]])
        return ('strcat', L)
    if h in ('std::result::Result', 'std::option::Option'):
        okv = 0 if h.endswith('Result') else 1
        inner = t[t.index('<') + 1:]
        depth, j = 0, 0
        for j, ch in enumerate(inner):
            if ch in '<([':
                depth += 1
            elif ch in '>)]' and not (ch == '>' and inner[j - 1] == '-'):
                if depth == 0:
                    break
                depth -= 1
            elif ch == ',' and depth == 0:
                break
        it = inner[:j]
        name = RESULT if okv == 0 else OPTION
        oks, errs = [], []

        def split(L):
            if L[0] == 'list':
                r = ('list', ())
                for x in L[1]:
                    if x[0] == 'agg':
                        if x[3] == okv:
                            r = mk_lcat(r, ('list', (x[4][0],)))
                        else:
                            errs.append(x)
                    else:
                        errs.append(('agg', 'adt', name, 1 - okv, (('pj', x, 1 - okv, 0),) if okv == 0 else ()))
                        r = mk_lcat(r, ('list', (('pj', x, okv, 0),)))
                return r
            if L[0] == 'lcat':
                return mk_lcat(split(L[1]), split(L[2]))
            if L[0] == 'lf':
                return ('lf', L[1], tuple((c, y) for c, y in ((c, split(x)) for c, x in L[2]) if y != ('list', ())))
            e = ('elem', L)
            errs.append(('agg', 'adt', name, 1 - okv, (('pj', e, 1 - okv, 0),) if okv == 0 else ()))
            return mk_lf(L, (((), ('list', (('pj', e, okv, 0),))),))
        good = split(L)
        if not errs:
            out = []
            for k, v, s in I.wrap(collect_into(I, good, it, st, w), st):
                out.append((k, ('agg', 'adt', name, okv, (v,)), s))
            return out
        out = []
        s1 = st.copy()
        s1.conds[('b', ('allok', L))] = True
        for k, v, s in I.wrap(collect_into(I, good, it, s1, w), s1):
            out.append((k, ('agg', 'adt', name, okv, (v,)), s))
        for e in dict.fromkeys(errs):
            s2 = st.copy()
            s2.conds[('b', ('allok', L))] = False
            out.append(('ret', e, s2))
        return out
    return ('call', 'Iterator::collect', (L, ('sym', t)))


def mk_mapof(L):
    if L[0] == 'pairs':
        return L[1]
    return ('mapof', L)


# ------------------------------------------------------------------ option / result helpers without dumped bodies
@model('Option::unwrap', 'Option::expect', 'Result::unwrap', 'Result::expect', 'Result::unwrap_err', 'Result::expect_err')
def unwrap(I, a, st, f, w):
    v = I.val(st, a[0])
    is_opt_ = 'Option' in (f.get('rpath') or f['path'])
    good = 1 if is_opt_ else (1 if 'err' in f['name'] else 0)
    name = OPTION if is_opt_ else RESULT
    out = []
    if v[0] == 'agg' and v[1] == 'adt':
        if v[3] == good:
            return v[4][0]
        I.panic(st, f['name'], w, out)
        return out
    k = st.conds.get(('var', v))
    if k is None:
        I.oblige('unwrap', (f['name'], I.deep(st, v)), st, w)
        st = st.copy()
        st.conds[('var', v)] = good
    elif k != good:
        I.panic(st, f['name'], w, out)
        return out
    return [('ret', ('pj', v, good, 0), st)]


@model('bool::then_some')
def then_some(I, a, st, f, w):
    return [('ret', some(a[1]) if b else NONE, s) for b, s in I.fork_bool(st, I.val(st, a[0]))]


@model('bool::then')
def then(I, a, st, f, w):
    out = []
    for b, s in I.fork_bool(st, I.val(st, a[0])):
        if b:
            out.extend((k, some(v) if k == 'ret' else v, s2) for k, v, s2 in I.call_value(a[1], [], s, w))
        else:
            out.append(('ret', NONE, s))
    return out


# ------------------------------------------------------------------ panics
PANICS = ['panicking::panic', 'panicking::panic_fmt', 'panicking::begin_panic', 'panicking::panic_display', 'panicking::unreachable_display',
          'panicking::panic_explicit', 'panicking::assert_failed', 'rt::begin_panic', 'rt::panic_fmt', 'option::unwrap_failed', 'option::expect_failed',
          'result::unwrap_failed', 'process::abort', 'process::exit', 'panicking::panic_nounwind', 'panicking::panic_bounds_check',
          'panicking::panic_str_2015', 'panicking::unreachable', 'slice::slice_index_fail', 'str::slice_error_fail', 'unwrap_failed::unwrap_failed_inner',
          'panicking::panic_const']


def panic_model(I, a, st, f, w):
    out = []
    I.panic(st, f['name'], w, out)
    return out


for _p in PANICS:
    MODELS[_p] = panic_model


# ------------------------------------------------------------------ characters
@model('char::is_ascii_whitespace', 'char::is_whitespace', 'char::is_alphanumeric', 'char::is_ascii_alphanumeric', 'char::is_ascii_digit',
       'char::is_alphabetic', 'char::is_ascii_alphabetic', 'char::is_numeric', 'char::is_ascii', 'char::is_control', 'char::is_ascii_hexdigit',
       'methods::is_ascii_whitespace', 'methods::is_whitespace', 'methods::is_alphanumeric', 'methods::is_ascii_alphanumeric',
       'char::is_digit', 'char::is_ascii_punctuation', 'char::is_ascii_uppercase', 'char::is_ascii_lowercase', 'char::is_ascii_control')
def charclass(I, a, st, f, w):
    c = I.val(st, a[0])
    if c[0] == 'i':
        r = char_class(f['name'], c[1])
        if r is not None:
            return ('b', r)
    return ('call', 'char::' + f['name'], (c,) + tuple(I.deep(st, x) for x in a[1:]))


def char_class(n, c):
    ch = chr(c)
    a = c < 128
    return {'is_ascii_whitespace': c in (9, 10, 12, 13, 32), 'is_whitespace': (ch.isspace() and c not in (0x1c, 0x1d, 0x1e, 0x1f)) or c == 0x85,
            'is_ascii_alphanumeric': a and ch.isalnum(), 'is_ascii_digit': a and ch.isdigit(), 'is_ascii_alphabetic': a and ch.isalpha(),
            'is_ascii': a, 'is_ascii_hexdigit': ch in '0123456789abcdefABCDEF', 'is_alphanumeric': ch.isalnum() if a else None,
            'is_alphabetic': ch.isalpha() if a else None, 'is_control': c < 32 or 127 <= c < 160,
            'is_ascii_punctuation': a and ch.isprintable() and not ch.isalnum() and ch != ' ',
            'is_ascii_uppercase': a and ch.isupper(), 'is_ascii_lowercase': a and ch.islower(), 'is_ascii_control': c < 32 or c == 127,
            'is_numeric': ch.isdigit() if a else None}.get(n)


@model('str::eq_ignore_ascii_case')
def eqic(I, a, st, f, w):
    x, y = I.deep(st, a[0]), I.deep(st, a[1])
    if x[0] == 's' and y[0] == 's':
        low = lambda s: ''.join(c.lower() if c.isascii() else c for c in s)
        return ('b', low(x[1]) == low(y[1]))
    if key(y) < key(x):
        x, y = y, x
    return ('call', 'eq_ignore_ascii_case', (x, y))


@model('str::to_ascii_lowercase', 'str::to_ascii_uppercase')
def ascii_case(I, a, st, f, w):
    x = I.deep(st, a[0])
    if x[0] == 's':
        g = str.lower if f['name'].endswith('lowercase') else str.upper
        return ('s', ''.join(g(c) if c.isascii() else c for c in x[1]))
    # only compared: either case tells the same texts apart
    return ('call', 'str::to_ascii_lowercase', (x,)) if f['name'].endswith('lowercase') else None


@model('Regex::is_match_at')
def is_match_at(I, a, st, f, w):
    if I.val(st, a[2]) == ('i', 0):
        return ('call', 'Regex::is_match', (I.deep(st, a[0]), I.deep(st, a[1])))


@model('Ord::cmp')
def ord_cmp(I, a, st, f, w):
    if f.get('key') and f.get('rcrate') == 'soupy' or not _stringy(f.get('selfty', '')):
        return None
    return ('call', 'Ord::cmp', (I.deep(st, a[0]), I.deep(st, a[1])))


@model('slice::contains')
def contains_(I, a, st, f, w):
    L, x = I.deep(st, a[0]), I.deep(st, a[1])
    it = as_items(L)
    if it is not None:
        out, cur = [], st
        for e in it:
            nxt = None
            for b, s in I.fork_bool(cur, mk_eq(x, e)):
                if b:
                    out.append(('ret', TRUE, s))
                else:
                    nxt = s
            if nxt is None:
                return out
            cur = nxt
        out.append(('ret', FALSE, cur))
        return out
    return ('call', 'slice::contains', (L, x))


# ------------------------------------------------------------------ format_args
@model('Argument::new_display')
def fmt_arg(I, a, st, f, w):
    v = I.deep(st, a[0])
    t = next((x for x in (f.get('args') or []) if not x.startswith("'")), '')
    if _stringy(t):
        return ('fmtarg', v)
    if t.replace('&', '').strip() == 'char':
        return ('fmtarg', ('chr', v) if v[0] != 'i' else ('s', chr(v[1])))
    return ('fmtarg', ('call', 'ToString::to_string', (v,)))


@model('Arguments::new')
def fmt_new(I, a, st, f, w):
    tpl, args = I.deep(st, a[0]), I.deep(st, a[1])
    it = as_items(args)
    if tpl[0] != 'bytes' or it is None:
        return None
    parts, b, i, k = [], tpl[1], 0, 0
    while i < len(b) and b[i]:
        n = b[i]
        i += 1
        if n < 0x80:
            parts.append(('s', bytes(b[i:i + n]).decode()))
            i += n
        elif n == 0x80:
            n = b[i] | b[i + 1] << 8
            parts.append(('s', bytes(b[i + 2:i + 2 + n]).decode()))
            i += 2 + n
        elif n == 0xC0:
            x = it[k] if k < len(it) else None
            k += 1
            if x is None or x[0] != 'fmtarg':
                return None
            parts.append(x[1])
        else:
            return None
    return ('fmtargs', mk_cat(*parts))


@model('Arguments::from_str', 'Arguments::from_str_nonconst')
def fmt_const(I, a, st, f, w):
    return ('fmtargs', I.deep(st, a[0]))


@model('fmt::format')
def fmt_format(I, a, st, f, w):
    v = I.val(st, a[0])
    return v[1] if v[0] == 'fmtargs' else None
