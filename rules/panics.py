"""C22: no reachable panic.

Every construct that can panic (assertions the compiler inserts, unwrap and friends, indexing, slicing, std functions whose
documentation has a "Panics" section, panic macros) raises an obligation where the evaluation of a public operation reaches it.
An obligation is discharged by the conditions of its path: difference bounds between positions and lengths, and character
boundaries."""
import re
import re._constants as sre
import re._parser as sre_parse
from .common import *
from loops import min_match
from . import strict, trees
from interp import split_off, PANICKY

WORD = ('usize', 'u64', 'u128', 'isize', 'i64', 'i128')
BIG = 1 << 47           # no text or list is longer than the address space


# ------------------------------------------------------------------ regular expressions of constant text
RX_OK = {sre.LITERAL, sre.NOT_LITERAL, sre.IN, sre.BRANCH, sre.SUBPATTERN, sre.MAX_REPEAT, sre.MIN_REPEAT, sre.ANY, sre.AT, sre.RANGE, sre.NEGATE, sre.CATEGORY}


def rx_valid(lit):
    """None when the regex crate accepts this expression, else why that is not established"""
    try:
        t = sre_parse.parse(lit)
    except (re.error, OverflowError, RecursionError) as e:
        return str(e)

    def ops(n):
        if isinstance(n, sre_parse.SubPattern):
            for x in n:
                yield from ops(x)
        elif isinstance(n, (list, tuple)):
            if n and isinstance(n[0], sre._NamedIntConstant):
                yield n
            for x in n:
                yield from ops(x)
    for o in ops(t):
        if o[0] not in RX_OK and str(o[0]).isupper() and not str(o[0]).startswith(('AT_', 'CATEGORY_', 'MAXREPEAT')):
            return f'{o[0]} is not supported'
        if o[0] in (sre.MAX_REPEAT, sre.MIN_REPEAT) and isinstance(o[1], tuple):
            lo, hi = o[1][0], o[1][1]
            if lo > 500 or hi != sre.MAXREPEAT and hi > 500:
                return 'a large counted repetition may exceed the size limit'
    # what the two syntaxes read differently
    s, i, cls = lit, 0, False
    while i < len(s):
        c = s[i]
        if c == '\\':
            if s[i + 1:i + 2] in tuple('AZ0123456789uUNx') + ('',):
                if s[i + 1:i + 2] not in ('A', 'x', 'u', 'U'):
                    return f'escape {s[i:i + 2]}'
            i += 2
            continue
        if cls:
            if c == '[' or s[i:i + 2] in ('&&', '--', '~~'):
                return 'set operation in a class'
            if c == ']' and i > cls:
                cls = False
        elif c == '[':
            cls = i + (2 if s[i + 1:i + 2] == '^' else 1)
            cls = cls or 1
        elif c == '{' and not re.match(r'\{\d+(,\d*)?\}', s[i:]):
            return 'brace'
        i += 1
    return None


# ------------------------------------------------------------------ difference bounds
ZERO = ('i', 0)


def haystack(m):
    """the text a match is a match in"""
    if m[0] in ('elem', 'idx') and m[1][0] == 'call' and m[1][1] == 'Regex::find_iter':
        return m[1][2][1]
    if m[0] == 'pj' and m[1][0] == 'call' and m[1][1] in ('Regex::find', 'Regex::find_at', 'Regex::captures', 'Regex::captures_at'):
        return m[1][2][1]
    return None


FINDS = ('str::find', 'str::rfind')
SHORTER = ('str::trim', 'str::trim_start', 'str::trim_end', 'str::trim_matches', 'str::trim_start_matches', 'str::trim_end_matches', 'str::trim_ascii',
           'str::trim_left', 'str::trim_right')


def blen(p):
    """bytes of a constant pattern"""
    if p[0] == 's':
        return len(p[1].encode())
    if p[0] == 'i' and 0 <= p[1] < 0x110000:
        return len(chr(p[1]).encode('utf-8', 'surrogatepass'))
    return None


class Prove:
    def __init__(self, conds):
        self.conds = conds
        self.rel = []          # (a, b, k): a <= b + k over bases
        for (kind, t), v in conds.items():
            self.learn(kind, t, v)
        self.seen = set()
        # a text with a known beginning and a known end is at least as long as the shortest such text
        ends = {}
        for (kind, t), v in conds.items():
            if kind == 'b' and v and t[0] == 'call' and t[1] in ('str::starts_with', 'str::ends_with'):
                e = chr(t[2][1][1]) if t[2][1][0] == 'i' and 0 <= t[2][1][1] < 0xd800 else t[2][1][1] if t[2][1][0] == 's' else None
                if e is not None:
                    ends.setdefault(t[2][0], ([], []))[t[1] == 'str::ends_with'].append(e.encode())
        for x, (ps, ss) in ends.items():
            for a in ps:
                for b in ss:
                    n = next(n for n in range(max(len(a), len(b)), len(a) + len(b) + 1) if a[n - len(b):] == b[:max(0, len(a) - (n - len(b)))])
                    self.le_(('i', n), ('len', x))

    def le_(self, a, b, k=0):
        (ab, ak), (bb, bk) = split_off(a), split_off(b)
        self.rel.append((ab, bb, bk - ak + k))

    def learn(self, kind, t, v):
        if kind == 'b' and t[0] == 'op':
            if t[1] == 'lt':
                if v:
                    self.le_(t[2], t[3], -1)
                else:
                    self.le_(t[3], t[2])
            elif t[1] == 'eq' and v is True:
                self.le_(t[2], t[3])
                self.le_(t[3], t[2])
            elif t[1] == 'eq' and v is False and ZERO in t[2:]:
                x = t[2] if t[3] == ZERO else t[3]
                self.le_(('i', 1), x)
            elif t[1] == 'not':
                self.learn(kind, t[2], not v)
            elif t[1] == 'and' and v or t[1] == 'or' and not v:
                self.learn(kind, t[2], v)
                self.learn(kind, t[3], v)
        if kind == 'b' and v and t[0] == 'call' and t[1] in ('str::starts_with', 'str::ends_with'):
            n = blen(t[2][1])
            n = n if n is not None else 1 if t[2][1][0] in ('list', 'agg') else None
            if n:
                self.le_(('i', n), ('len', t[2][0]))
        if kind == 'b' and v and t[0] == 'call' and t[1] in ('str::contains',):
            n = blen(t[2][1])
            if n:
                self.le_(('i', n), ('len', t[2][0]))
        if kind == 'b' and v and t[0] == 'more':
            self.le_(('i', 1), ('len', t[1]))
        if kind == 'var' and v == 1 and t[0] == 'call' and t[1] in ('slice::first', 'slice::last', 'slice::split_first', 'slice::split_last', 'Vec::first', 'Vec::last'):
            self.le_(('i', 1), ('len', t[2][0]))
        if kind == 'var' and v == 1 and t[0] == 'call' and t[1] in ('slice::get', 'Vec::get') and t[2][1][0] in ('i', 'add', 'pj', 'elem'):
            self.le_(t[2][1], ('len', t[2][0]), -1)

    def axioms(self, t):
        """bounds of one base term"""
        if t in self.seen or not isinstance(t, tuple) or not t:
            return
        self.seen.add(t)
        self.le_(ZERO, t)
        h = t[0]
        if h == 'len' and t[1][0] == 'rest':
            q = t[1][1]
            while q[0] == 'end' or q[0] == 'adv' and q[2] >= 0:
                q = q[1] if q[0] == 'adv' else q[2]
                self.le_(t, ('len', ('rest', q)))
        if h == 'call' and t[1] in ('Match::start', 'Match::end') and t[2]:
            m = t[2][0]
            x = haystack(m)
            self.le_(('call', 'Match::start', (m,)), ('call', 'Match::end', (m,)), -min_match(m[1] if len(m) > 1 else m))
            if m[0] == 'pj' and m[1][0] == 'call' and m[1][1] in ('Regex::find_at', 'Regex::captures_at'):
                self.le_(m[1][2][2], ('call', 'Match::start', (m,)))
            if x is not None:
                self.le_(('call', 'Match::end', (m,)), ('len', x))
        if h in ('prev', 'lastof') and t[2][0] == 'i' and t[3][0] == 'call' and t[3][1] in ('Match::end', 'Match::start') and t[3][2] == (('elem', t[1]),):
            x = haystack(('elem', t[1]))
            if x is not None and t[2] == ZERO:
                self.le_(t, ('len', x))
                if h == 'prev':
                    self.le_(t, ('call', 'Match::start', (('elem', t[1]),)))
        if h == 'pj' and t[1][0] == 'call' and t[1][1] in FINDS:
            x, p = t[1][2]
            self.le_(t, ('len', x), -(blen(p) or 0))
        if h == 'pj' and t[1][0] == 'call' and t[1][1] in ('Iterator::position', 'Iterator::rposition'):
            self.le_(t, ('len', t[1][2][0]), -1)
        if h == 'idxof':
            self.le_(t, ('len', t[1]), -1)
        if h == 'elem' and t[1][0] == 'range':
            self.le_(t[1][1], t)
            self.le_(t, t[1][2], -1)
        if h == 'pj' and t[3] == 0 and t[1][0] == 'elem' and t[1][1][0] == 'call' and t[1][1][1] == 'str::char_indices':
            self.le_(t, ('len', t[1][1][2][0]), -1)
        if h == 'op' and t[1] == 'Sub':
            self.le_(t, t[2])
        if h == 'call' and t[1] in ('Ord::min', 'cmp::min', 'usize::min', 'core::min'):
            for y in t[2]:
                self.le_(t, y)
        if h == 'call' and t[1] in ('Ord::max', 'cmp::max', 'usize::max', 'core::max'):
            for y in t[2]:
                self.le_(y, t)
        if h == 'call' and t[1] in ('usize::saturating_sub',):
            self.le_(t, t[2][0])
        if h == 'len':
            y = t[1]
            if y[0] == 'slice':
                if y[3] == ('end',):
                    self.le_(t, ('len', y[1]))
                else:
                    self.le_(t, y[3])
            if y[0] == 'call' and y[1] in SHORTER:
                self.le_(t, ('len', y[2][0]))

    def le(self, a, b, k=0):
        """a <= b + k"""
        (ab, ak), (bb, bk) = split_off(a), split_off(b)
        want = bk - ak + k
        if ab == bb:
            return want >= 0
        if ab[0] == 'i' and bb[0] == 'i':
            return ab[1] <= bb[1] + want
        for t in (ab, bb):
            for x in subterms(t):
                self.axioms(x)
        for a_, b_, _ in list(self.rel):
            for t in (a_, b_):
                for x in subterms(t):
                    self.axioms(x)
        dist = {ab: 0}
        for _ in range(12):
            ch = False
            for u, v, w in self.rel:
                if u in dist and dist[u] + w < dist.get(v, 1 << 60):
                    dist[v] = dist[u] + w
                    ch = True
            if not ch:
                break
        return bb in dist and dist[bb] <= want

    # -- character boundaries ---------------------------------------------
    def boundary(self, x, a):
        if a is None or a in (ZERO, ('end',), ('len', x)):
            return True
        if self.conds.get(('b', ('call', 'str::is_char_boundary', (x, a)))) is True:
            return True
        h = a[0]
        if h == 'call' and a[1] in ('Match::start', 'Match::end'):
            return haystack(a[2][0]) == x
        if h in ('prev', 'lastof'):
            return a[2] == ZERO and self.boundary(x, a[3])
        if h == 'pj' and a[1][0] == 'call' and a[1][1] in FINDS:
            return a[1][2][0] == x
        if h == 'pj' and a[3] == 0 and a[1][0] == 'elem' and a[1][1][0] == 'call' and a[1][1][1] == 'str::char_indices':
            return a[1][1][2][0] == x
        if h == 'call' and a[1] in ('Ord::min', 'cmp::min', 'Ord::max', 'cmp::max', 'usize::min', 'usize::max'):
            return all(self.boundary(x, y) for y in a[2])
        b, k = split_off(a)
        if b == ('len', x) and k < 0:
            for (kd, t), v in self.conds.items():
                if kd == 'b' and v and t[0] == 'call' and t[1] == 'str::ends_with' and t[2][0] == x and self.whole(t[2][1], -k, True):
                    return True
        if b == ZERO and k > 0:
            at = ('idx', ('call', 'str::as_bytes', (x,)), ('i', k - 1))
            if any(kd == 'b' and v and t[:2] == ('op', 'eq') and at in t[2:] and any(y[0] == 'i' and 0 <= y[1] < 128 for y in t[2:])
                   for (kd, t), v in self.conds.items()):
                return True         # the byte before it is ASCII
            for (kd, t), v in self.conds.items():
                if kd == 'b' and v and t[0] == 'call' and t[1] == 'str::starts_with' and t[2][0] == x and self.whole(t[2][1], k, False):
                    return True
        if k > 0 and b[0] == 'pj' and b[1][0] == 'call' and b[1][1] in FINDS and b[1][2][0] == x:
            return self.whole(b[1][2][1], k, False)
        if k and self.boundary(x, b) and k > 0:
            # a known text begins at the boundary
            for (kd, t), v in self.conds.items():
                if kd == 'b' and v and t[0] == 'call' and t[1] == 'str::starts_with' and t[2][0] == ('slice', x, b, ('end',)) and self.whole(t[2][1], k, False):
                    return True
        if x[0] == 'slice' and x[1][0] != 'slice':
            return self.boundary(x[1], mk_add(x[2], a))
        return False

    @staticmethod
    def whole(p, k, end):
        """is byte k of the constant pattern p (counted from its end) a boundary?"""
        if p[0] == 's':
            e = p[1].encode()
            if k > len(e):
                return False
            try:
                (e[len(e) - k:] if end else e[:k]).decode()
                return True
            except UnicodeDecodeError:
                return False
        if p[0] == 'i':
            return blen(p) == k
        items = as_items(p)
        return items is not None and bool(items) and all(i[0] == 'i' and blen(i) == k for i in items)


# ------------------------------------------------------------------ obligations
def stringy(ty):
    return ty == 'str' or ty.endswith('str') or 'String' in ty or 'Cow<' in ty or 'Tendril' in ty


def bounded(p, t):
    """a size: at most the length of something, plus a small constant"""
    b, k = split_off(t)
    if b == ZERO:
        return abs(k) < BIG
    if abs(k) >= BIG:
        return False
    if b[0] == 'len' or b[0] == 'count' or b[0] == 'off' or b[0] in ('idxof', 'prev', 'lastof'):
        return True
    if b[0] == 'call' and b[1] in ('Match::start', 'Match::end', 'str::len', 'Vec::len', 'slice::len', 'Iterator::count', 'char::len_utf8', 'Tree::len'):
        return True
    if b[0] == 'pj' and b[1][0] == 'call' and b[1][1] in FINDS + ('Iterator::position', 'Iterator::rposition'):
        return True
    if b[0] == 'elem' and b[1][0] == 'range':
        return bounded(p, b[1][2])
    if b[0] == 'op' and b[1] in ('Add', 'Sub'):
        return bounded(p, b[2]) and bounded(p, b[3])
    if b[0] == 'op' and b[1] == 'Mul':
        return bounded(p, b[2]) and bounded(p, b[3]) and any(x[0] == 'i' and x[1] < 1 << 15 for x in b[2:])
    if b[0] == 'op' and b[1] in ('Div', 'Rem', 'Shr', 'BitAnd'):
        return bounded(p, b[2])
    if b[0] == 'fold' and b[3][0] == 'i':
        return b[3][1] < BIG and all(u == b[2] or u[0] == 'add' and u[1] == b[2] and 0 < u[2] < 1 << 16 or u[0] == 'i' and u[1] < BIG for _, u in b[4])
    if b[0] == 'part':
        return bounded(p, b[1])
    return any(u == b and v[0] in ('len', 'i') for u, v, _ in p.rel)


def discharge(kind, d, conds):
    """None when the obligation holds under the conditions of its path, else what is missing"""
    p = Prove(conds)
    if kind == 'unwrap':
        v = d[1]
        lit = None
        if v[0] == 'call' and v[1] == 'Regex::new' and v[2][0][0] == 's':
            lit = v[2][0][1]
            r = rx_valid(lit)
            return None if r is None else f'{lit!r}: {r}'
        if v[0] == 'call' and v[1] in ('BTreeMap::get', 'HashMap::get', 'Map::get') and conds.get(('b', ('call', v[1].replace('get', 'contains_key'), v[2]))) is True:
            return None
        if v[0] == 'call' and v[1] in ('slice::first', 'slice::last', 'Vec::pop', 'str::chars_next') and p.le(('i', 1), ('len', v[2][0])):
            return None
        if v[0] == 'call' and v[1] in ('slice::get', 'Vec::get') and p.le(mk_add(v[2][1], ('i', 1)), ('len', v[2][0])):
            return None
        if v[0] == 'call' and v[1] in ('str::strip_prefix', 'str::strip_suffix') and conds.get(('b', ('call', v[1].replace('strip_prefix', 'starts_with').replace('strip_suffix', 'ends_with'), v[2]))) is True:
            return None
        if v[0] == 'call' and v[1] in FINDS and conds.get(('b', ('call', 'str::contains', v[2]))) is True:
            return None
        return f'{show(v)[:200]} may be the other variant'
    if kind == 'slice':
        x, lo, hi, ty = d
        lo_, hi_ = lo or ZERO, hi or ('len', x)
        if hi_ == ('end',):
            hi_ = ('len', x)
        if not p.le(lo_, hi_):
            return f'{show(lo_)[:120]} <= {show(hi_)[:120]} is not established'
        if not p.le(hi_, ('len', x)):
            return f'{show(hi_)[:120]} may be past the end'
        if stringy(ty):
            for a in (lo, hi):
                if not p.boundary(x, a):
                    return f'{show(a)[:120]} may be inside a character'
        return None
    if kind == 'bounds':
        if d[0] == 'op' and d[1] == 'lt' and p.le(d[2], d[3], -1):
            return None
        return f'{show(d)[:200]} is not established'
    if kind == 'mapindex':
        if conds.get(('var', d)) == 1 or conds.get(('b', ('call', d[1].replace('get', 'contains_key'), d[2]))) is True:
            return None
        return f'{show(d)[:200]} may be missing'
    if kind == 'overflow':
        op, ty, a, b = d
        if ty in WORD:
            if op == 'Add' and bounded(p, a) and bounded(p, b):
                return None
            if op == 'Sub' and (p.le(b, a) or ty[0] == 'i' and bounded(p, a) and bounded(p, b)):
                return None
            if op == 'Mul' and all(bounded(p, x) for x in (a, b)) and any(x[0] == 'i' and x[1] < 1 << 15 for x in (a, b)):
                return None
            if op in ('Shl', 'Shr') and b[0] == 'i' and 0 <= b[1] < 64:
                return None
        elif a[0] == b[0] == 'i':
            m = re.match(r'([ui])(\d+)$', ty)
            if m:
                n = int(m[2])
                lo, hi = (0, (1 << n) - 1) if m[1] == 'u' else (-(1 << n - 1), (1 << n - 1) - 1)
                r = {'Add': a[1] + b[1], 'Sub': a[1] - b[1], 'Mul': a[1] * b[1]}.get(op)
                if r is not None and lo <= r <= hi:
                    return None
        if op == 'Sub' and ty[0] == 'u' and p.le(b, a):
            return None
        return f'{show(a)[:120]} {op} {show(b)[:120]} may overflow {ty}'
    if kind == 'call':
        name, ty, a = d
        t, m = name.split('::')[0], name.split('::')[1]
        if m in ('from_str_radix', 'to_digit', 'is_digit', 'from_digit') and a[1][0] == 'i' and 2 <= a[1][1] <= 36:
            return None
        if m in ('step_by', 'chunks', 'windows', 'chunks_exact', 'rchunks', 'rchunks_exact') and a[1][0] == 'i' and a[1][1] > 0:
            return None
        if t in ('Add', 'AddAssign', 'Sub', 'SubAssign', 'Mul', 'MulAssign', 'Neg', 'Div', 'Rem', 'Shl', 'Shr'):
            if not re.search(r'\b[ui](8|16|32|64|128|size)\b', ty):
                return None
            op = t.replace('Assign', '')
            if len(a) == 2 and op in ('Add', 'Sub', 'Mul'):
                return discharge('overflow', (op, ty.lstrip('&').strip().split(' ')[-1], a[0], a[1]), conds)
        if name in ('Vec::remove', 'Vec::swap_remove', 'String::remove') and p.le(a[1], ('len', a[0]), -1) and (t == 'Vec' or p.boundary(a[0], a[1])):
            return None
        if name in ('Vec::insert', 'Vec::split_off', 'VecDeque::insert') and p.le(a[1], ('len', a[0])):
            return None
        if name in ('String::insert', 'String::insert_str', 'String::split_off', 'String::truncate') and p.boundary(a[0], a[1]) and p.le(a[1], ('len', a[0])):
            return None
        if name == 'String::truncate' and p.le(('len', a[0]), a[1]):
            return None
        if name in ('Vec::drain', 'String::drain', 'String::replace_range', 'VecDeque::drain', 'Vec::splice'):
            from models import slice_range
            rg = slice_range(Interp, None, a[1]) if a[1][0] in ('agg', 'range', 'zst') else None
            if rg is not None:
                return discharge('slice', (a[0], rg[0], rg[1], t.replace('String', 'str')), conds)
        if name in ('slice::split_at', 'slice::rotate_left', 'slice::rotate_right') and p.le(a[1], ('len', a[0])):
            return None
        if name == 'slice::swap' and all(p.le(y, ('len', a[0]), -1) for y in a[1:]):
            return None
        if t == 'Regex' and m.endswith('_at') and p.le(a[2], ('len', a[1])):
            return None
        if name in ('Regex::find_at', 'Regex::is_match_at', 'Regex::captures_at', 'Regex::shortest_match_at') and p.le(a[2], ('len', a[1])):
            return None
        if name in ('char::encode_utf8', 'char::encode_utf16'):
            y = a[1]
            if y[0] == 'agg' and len(y[4]) >= 4 or y[0] == 'repeat':
                return None
        return f'{name}({", ".join(show(x)[:80] for x in a)}) panics on some arguments'
    if kind in ('div_zero', 'rem_zero', 'DivisionByZero', 'RemainderByZero'):
        return f'{show(d)[:160]} is not established'
    return f'{kind}: {show(d)[:160] if isinstance(d, tuple) else d}'


def site(w):
    return short(w.split(' (')[0]) if isinstance(w, str) else str(w)


def place(w):
    m = re.search(r'\(([^()]*:\d+:\d+)\)$', w)
    return m[1] if m else w


def settle(ctx, kind, d, conds, w):
    miss = discharge(kind, d, conds)
    s = site(w)
    if miss is None:
        ctx.ok(kind, f'{place(w)}: {show(d)[:200] if isinstance(d, tuple) and d and isinstance(d[0], str) and kind in ("bounds", "mapindex") else " ".join(show(x)[:90] if isinstance(x, tuple) else str(x)[:60] for x in d)}')
    else:
        ctx.bad(f'{kind}:{s}', f'{s} can panic ({kind}): {miss}, when {showc(conds)[:600]}', place(w))


def roots(F):
    """operations a program can reach: public functions, and trait methods of any type (a private type escapes as `impl Trait`)"""
    for b in F.local():
        if b['kind'] != 'fn' or not b.get('root'):
            continue
        if b.get('pub') or b.get('impl_trait'):
            yield b


def run_root(ctx, b):
    st, args = St(), []
    for i in range(b['argc']):
        a = ('sym', f'a{i}')
        if b['locals'][i + 1].startswith('&mut '):
            st.cells[(0, f'arg{i}')] = a
            a = ('ref', (0, f'arg{i}'), ())
        args.append(a)
    if not hasattr(ctx, 'alias'):
        from .nodes import descendants_alias
        ctx.alias = descendants_alias(ctx)
    return ctx.run(b, args, st, setup=ctx.alias)


@prop('C22')
def c22(ctx):
    """Obligations of every panicking construct met while evaluating each public operation and trait method (path summaries on
    MIR, loops as folds), discharged by difference bounds and character boundaries under the conditions of the path; the strict
    grammar is evaluated over symbolic positions; bodies no evaluation reached are evaluated on their own."""
    seen = set()
    reached = set()

    def take(I, who):
        reached.update(generic(k) for k in I.inlined)
        for kind, d, conds, w, stk in I.oblig:
            k = (kind, repr(d), repr(sorted(conds.items(), key=repr)), w)
            if k in seen:
                continue
            seen.add(k)
            settle(ctx, kind, d, conds, w)
        for msg, conds, w, stk in I.panics:
            if any(strict.valid_regex(a) and v != 0 and rx_valid(a[1][2][0][1]) is None for a, v in conds.items()):
                continue
            ctx.bad(f'panic:{site(w)}', f'{site(w)} panics ({msg}) when {showc(conds)[:600]}', place(w))

    n = 0
    for b in roots(ctx.F):
        outs, I = run_root(ctx, b)
        n += 1
        if outs is not None:
            ctx.ok('operation', short(b['path']))
        take(I, b)
    # the strict grammar
    g = strict.Grammar(ctx)
    g.go()
    if g.I is None:
        ctx.bad('grammar', 'the strict HTML parser could not be evaluated', getattr(g, 'where', ''))
    else:
        take(g.I, None)
        for nt in g.P.notes:
            if nt[0] == 'tag_no_case':
                ctx.bad('tag_no_case', f'nom\'s tag_no_case cuts the input at the length of its argument, which may be inside a character: {show(nt[1])[:120]}', str(nt[2]))
        ctx.ok('grammar', f'{len(g.P.manys)} repetitions, {len(g.P.ids)} parsers')
    # what no evaluation reached
    for b in ctx.F.local():
        if generic(b['key']) in reached or b['kind'] not in ('fn', 'closure') or not sites(b):
            continue
        if b['kind'] == 'fn' and b.get('root'):
            outs, I = run_root(ctx, b)
            take(I, b)
        else:
            ctx.bad(f'unreached:{short(b["path"])}', f'{b["path"]} can panic and is not reached by the evaluation of any public operation', b.get('span', ''))
    ctx.floor('operation', 60)


def generic(key):
    """a body, whatever its type arguments"""
    return key.rsplit('"[', 1)[0]


def sites(b):
    """panicking constructs of a body, by syntax"""
    n = 0
    for bl in b['blocks']:
        if bl['c']:
            continue
        t = bl['t']
        if t['k'] == 'assert':
            n += 1
        elif t['k'] == 'call':
            f = t['f']
            if f.get('k') == 'const' and 'fn' in f:
                p = f['fn'].get('rpath') or f['fn']['path']
                nm = f['fn'].get('name', '')
                if 'panicking' in p or nm in {x.split('::')[1] for x in PANICKY}:
                    n += 1
    return n
