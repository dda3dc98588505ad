"""C17, C18: character references of the strict HTML parser."""
import html.entities
import re
import re._constants as sre
import re._parser as sre_parse
from .common import *
from . import strict
from interp import Unsupported, St
from peg import CS, Peg, norm_ranges, r_inter, r_sub, r_compl, MAXC

DIGITS = ((48, 57),)
HEXD = ((48, 57), (65, 70), (97, 102))
INF = 1 << 30


class Bad(Exception):
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key


# ------------------------------------------------------------------ abstract texts: ('l', text) | ('r', ranges, min, max)
def seq(*ps):
    out = []
    for p in ps:
        if p[0] == 'l' and not p[1]:
            continue
        if p[0] == 'l' and out and out[-1][0] == 'l':
            out[-1] = ('l', out[-1][1] + p[1])
        elif p[0] == 'r' and p[2] == p[3] == 1 and len(p[1]) == 1 and p[1][0][0] == p[1][0][1]:
            out.append(('l', chr(p[1][0][0])))
            if len(out) > 1 and out[-2][0] == 'l':
                x = out.pop()
                out[-1] = ('l', out[-1][1] + x[1])
        else:
            out.append(p)
    return tuple(out)


def expand(node):
    """a parsed regular expression as a list of abstract texts, in order of preference"""
    if isinstance(node, sre_parse.SubPattern):
        outs = [()]
        for x in node:
            nxt = []
            for o in outs:
                for y in expand(x):
                    nxt.append(seq(*o, *y))
            outs = nxt
            if len(outs) > 500:
                raise Bad('recogniser', 'the recogniser has too many alternatives')
        return outs
    op, av = node
    if op is sre.LITERAL:
        return [seq(('l', chr(av)))]
    if op is sre.IN:
        rs, neg = [], False
        for o, v in av:
            if o is sre.NEGATE:
                neg = True
            elif o is sre.LITERAL:
                rs.append((v, v))
            elif o is sre.RANGE:
                rs.append(tuple(v))
            else:
                raise Bad('recogniser', f'the recogniser uses the class {v}')
        rs = norm_ranges(rs)
        if neg:
            rs = r_compl(rs)
        return [seq(('r', rs, 1, 1))]
    if op is sre.SUBPATTERN:
        if av[1] or av[2]:
            raise Bad('recogniser', 'the recogniser uses flags')
        return expand(av[3])
    if op is sre.BRANCH:
        return [t for b in av[1] for t in expand(b)]
    if op in (sre.MAX_REPEAT, sre.MIN_REPEAT):
        lo, hi, body = av
        inner = expand(body)
        if len(inner) == 1 and len(inner[0]) == 1 and (inner[0][0][0] == 'r' and inner[0][0][2:] == (1, 1) or inner[0][0][0] == 'l' and len(inner[0][0][1]) == 1):
            p = inner[0][0]
            rs = p[1] if p[0] == 'r' else ((ord(p[1]), ord(p[1])),)
            if hi == sre.MAXREPEAT or hi > 3:
                if op is sre.MIN_REPEAT:
                    raise Bad('recogniser', 'the recogniser repeats lazily')
                return [seq(('r', rs, lo, INF if hi == sre.MAXREPEAT else hi))]
        if hi == sre.MAXREPEAT or hi > 3:
            raise Bad('recogniser', 'the recogniser repeats more than a class of characters')
        outs = []
        ns = range(lo, hi + 1)
        for n in (reversed(ns) if op is sre.MAX_REPEAT else ns):
            w = [()]
            for _ in range(n):
                w = [seq(*a, *b) for a in w for b in inner]
            outs += w
        return outs
    raise Bad('recogniser', f'the recogniser uses {op}')


def pat(T):
    """Python pattern of an abstract text"""
    out = ''
    for p in T:
        if p[0] == 'l':
            out += re.escape(p[1])
        else:
            cl = '[' + ''.join(f'\\U{a:08x}-\\U{b:08x}' for a, b in p[1]) + ']'
            out += cl + ('{%d,%s}' % (p[2], '' if p[3] >= INF else p[3]))
    return out


def showt(T):
    out = ''
    for p in T:
        if p[0] == 'l':
            out += p[1]
        else:
            out += '[' + ''.join(chr(a) if a == b else f'{chr(a)}-{chr(b)}' for a, b in p[1]) + ']' + ('' if p[2:] == (1, 1) else '+' if p[2:] == (1, INF) else '{%d,%d}' % p[2:])
    return out


class Unknown(Exception):
    pass


def inr(c, rs):
    return any(a <= ord(c) <= b for a, b in rs)


def head(T, rs):
    """does T begin with a character of rs? True / False; Unknown"""
    rs = norm_ranges(rs)
    seen = []
    for p in T:
        if p[0] == 'l':
            seen.append(inr(p[1][0], rs))
            break
        i = r_inter(p[1], rs)
        seen.append(False if not i else True if not r_sub(p[1], rs) else None)
        if p[2] > 0:
            break
    else:
        seen.append(False)
    if all(x is True for x in seen):
        return True
    if all(x is False for x in seen):
        return False
    raise Unknown


def rev(T):
    return tuple(('l', p[1][::-1]) if p[0] == 'l' else p for p in reversed(T))


def drop1(T):
    """T without its first character (T begins with a fixed one)"""
    p = T[0]
    if p[0] == 'l':
        return seq(('l', p[1][1:]), *T[1:])
    if p[2:] == (1, 1):
        return T[1:]
    raise Unknown


def strip(T, pt):
    """T without the prefix pt (a text, or a set of characters); None when it does not begin with it"""
    if isinstance(pt, str):
        for c in pt:
            if not head(T, ((ord(c), ord(c)),)):
                return None
            T = drop1(T)
        return T
    if not head(T, pt):
        return None
    return drop1(T)


def trim(T, pt):
    if pt == '':
        raise Unknown
    while True:
        if not isinstance(pt, str) and T and T[0][0] == 'r' and not r_sub(T[0][1], pt):
            T = T[1:]
            continue
        n = strip(T, pt)
        if n is None:
            return T
        T = n


def width(T):
    if any(p[0] == 'r' and p[2] != p[3] for p in T):
        return None
    return sum(len(p[1]) if p[0] == 'l' else p[2] for p in T)


class Eval:
    """values of terms when the matched text is the abstract text T"""

    def __init__(self, T, m, x, entities, charset=None):
        self.T, self.m, self.x, self.ent, self.charset = T, m, x, entities, charset
        self.maytable = any(re.fullmatch(pat(T), k) for k in entities)

    def pattern(self, t):
        if t[0] == 's':
            return t[1]
        if t[0] == 'i':
            return chr(t[1])
        items = as_items(t)
        if items is not None and all(i[0] == 'i' for i in items):
            return norm_ranges([(i[1], i[1]) for i in items])
        if (t[0] == 'fn' or t[:2] == ('agg', 'closure')) and self.charset:
            try:
                return self.charset(t)
            except Unsupported:
                pass
        raise Unknown

    def char(self, t):
        """the characters an element of a text can be"""
        if t[0] == 'idx' and t[2][0] == 'i' and t[2][1] >= 0 and t[1][0] == 'call' and t[1][1] in ('str::as_bytes', 'str::chars'):
            T = self.text(t[1][2][0])
            for _ in range(t[2][1]):
                if not T or T[0][0] == 'l' and ord(T[0][1][0]) > 127 or T[0][0] == 'r' and (T[0][2] < 1 or T[0][1][-1][1] > 127):
                    raise Unknown
                T = drop1(T)
            if T and T[0][0] == 'l' and ord(T[0][1][0]) < 128:
                return norm_ranges([(ord(T[0][1][0]),) * 2])
            if T and T[0][0] == 'r' and T[0][2] > 0 and T[0][1][-1][1] < 128:
                return T[0][1]
        raise Unknown

    def text(self, t):
        v = self.ev(t)
        if v[0] == 'str':
            return v[1]
        raise Unknown

    def offset(self, t):
        """t as (anchor, offset)"""
        if t[0] == 'i':
            return ('0', t[1])
        if t == ('call', 'Match::start', (self.m,)):
            return ('s', 0)
        if t == ('call', 'Match::end', (self.m,)):
            return ('e', 0)
        if t[0] == 'op' and t[1] in ('add', 'sub') and t[3][0] == 'i':
            a, n = self.offset(t[2])
            return (a, n + (t[3][1] if t[1] == 'add' else -t[3][1]))
        if t[0] == 'add' and len(t) == 3 and (isinstance(t[2], int) or t[2][0] == 'i'):
            a, n = self.offset(t[1])
            return (a, n + (t[2] if isinstance(t[2], int) else t[2][1]))
        if t[0] == 'len':
            self.text(t[1])
            return ('l', 0)
        raise Unknown

    def span(self, t):
        """least and greatest value of a number"""
        if t[0] == 'i':
            return t[1], t[1]
        if t[0] == 'len':
            lo = hi = 0
            for p in self.text(t[1]):
                if p[0] == 'l':
                    lo, hi = lo + len(p[1].encode()), hi + len(p[1].encode())
                else:
                    lo, hi = lo + p[2], (INF if p[3] >= INF else hi + p[3] * max(len(chr(b).encode()) for a, b in p[1] if not 0xd800 <= b < 0xe000))
            return lo, hi
        if t[0] == 'add' and isinstance(t[2], int):
            a, b = self.span(t[1])
            return a + t[2], (b if b >= INF else b + t[2])
        raise Unknown

    def cut(self, T, a, b):
        """T[a..len-b]"""
        for _ in range(a):
            T = drop1(T) if T else ()
        R = rev(T)
        for _ in range(b):
            R = drop1(R) if R else ()
        return rev(R)

    def ev(self, t):
        h = t[0]
        if h == 's':
            return ('str', seq(('l', t[1])))
        if h == 'i':
            return ('num', t[1])
        if h == 'cat':
            return ('str', seq(*(p for x in t[1] for p in self.text(x))))
        if h == 'slice':
            if t[1] == self.x:
                a, b = self.offset(t[2]), self.offset(t[3])
                if a[0] == 's' and b[0] == 'e' and a[1] >= 0 and b[1] <= 0:
                    return ('str', self.cut(self.T, a[1], -b[1]))
                raise Unknown
            base = self.text(t[1])
            a = self.offset(t[2])
            b = (None, 0) if t[3] == ('end',) else self.offset(t[3])
            if a[0] != '0':
                raise Unknown
            if b[0] == '0':
                w = width(base)
                if w is None:
                    raise Unknown
                b = ('l', b[1] - w)
            if b[0] not in (None, 'l') or b[1] > 0:
                raise Unknown
            return ('str', self.cut(base, a[1], -b[1]))
        if h == 'call' and isinstance(t[1], str):
            return self.call(t[1], t[2])
        if h == 'pj':
            v = self.ev(t[1])
            if v[0] in ('some', 'maybe') and t[2] == 1:
                return v[1]
            if v[0] in ('good', 'either') and t[2] == 0:
                return v[1]
            raise Unknown
        if h == 'chr':
            v = self.ev(t[1])
            return v
        if h == 'op' and t[1] == 'lt':
            (a, b), (c, d) = self.span(t[2]), self.span(t[3])
            if b < c:
                return ('bool', True)
            if a >= d:
                return ('bool', False)
        if h == 'op' and t[1] == 'eq' and 'idx' in (t[2][0], t[3][0]):
            x, y = (t[2], t[3]) if t[2][0] == 'idx' else (t[3], t[2])
            cs = self.char(x)
            if y[0] == 'i':
                if not inr(chr(y[1]), cs):
                    return ('bool', False)
                if cs == norm_ranges([(y[1], y[1])]):
                    return ('bool', True)
        elif h == 'op' and t[1] == 'eq':
            (a, b), (c, d) = self.span(t[2]), self.span(t[3])
            if a == b == c == d:
                return ('bool', True)
            if b < c or d < a:
                return ('bool', False)
        raise Unknown

    def call(self, n, a):
        if n == 'Match::as_str' and a[0] == self.m:
            return ('str', self.T)
        if n in ('str::strip_prefix', 'str::strip_suffix'):
            T, p = self.text(a[0]), self.pattern(a[1])
            if n.endswith('suffix'):
                r = strip(rev(T), p[::-1] if isinstance(p, str) else p)
                r = None if r is None else rev(r)
            else:
                r = strip(T, p)
            return ('none',) if r is None else ('some', ('str', r))
        if n in ('str::trim_start_matches', 'str::trim_left_matches'):
            return ('str', trim(self.text(a[0]), self.pattern(a[1])))
        if n in ('str::trim_end_matches', 'str::trim_right_matches', 'str::trim_matches'):
            T, p = self.text(a[0]), self.pattern(a[1])
            if n == 'str::trim_matches':
                T = trim(T, p)
            return ('str', rev(trim(rev(T), p[::-1] if isinstance(p, str) else p)))
        if n in ('str::starts_with', 'str::ends_with'):
            T, p = self.text(a[0]), self.pattern(a[1])
            if n == 'str::ends_with':
                T, p = rev(T), p[::-1] if isinstance(p, str) else p
            return ('bool', strip(T, p) is not None)
        if n == 'str::contains':
            T, p = self.text(a[0]), self.pattern(a[1])
            if isinstance(p, str) and len(p) == 1:
                if any(q[0] == 'l' and p in q[1] for q in T):
                    return ('bool', True)
                if not any(q[0] == 'r' and inr(p, q[1]) for q in T):
                    return ('bool', False)
            raise Unknown
        if n == 'Map::get' and a[0][0] == 'const':
            T = self.text(a[1])
            if T == self.T and not self.maytable:
                return ('none',)
            return ('maybe', ('row', a[0][1], T))
        if n == 'Map::contains_key' and a[0][0] == 'const':
            T = self.text(a[1])
            if T == self.T and not self.maytable:
                return ('bool', False)
            raise Unknown
        m = re.fullmatch(r'str::parse<(\w+)>', n)
        base = None
        if m:
            ty, base = m[1], 10
        elif n.endswith('::from_str_radix'):
            ty = n.split('::')[0]
            b = self.ev(a[1])
            base = b[1] if b[0] == 'num' else None
        if base and ty in ('u32', 'u64', 'u128', 'usize'):
            T = self.text(a[0])
            ok_ = DIGITS if base == 10 else HEXD if base == 16 else None
            if ok_ is None:
                raise Unknown
            if not T:
                return ('err',)
            sign = ((43, 43),)
            for i, p in enumerate(T):
                if p[0] == 'l' and any(not inr(c, ok_ + (sign if i == 0 and j == 0 else ())) for j, c in enumerate(p[1])):
                    return ('err',)
                if p[0] == 'r' and p[2] > 0 and not r_inter(p[1], norm_ranges(ok_ + (sign if i == 0 else ()))):
                    return ('err',)
            return ('either', ('value', base, T, ty))
        if n in ('char::from_u32', 'methods::from_u32', 'convert::from_u32'):
            return ('maybe', ('uni', self.ev(a[0])))
        if n in ('TryFrom::try_from', 'TryInto::try_into', 'convert::char_try_from_u32') and len(a) == 1:
            v = self.ev(a[0])
            if v[0] == 'value':
                return ('either', ('uni', v))
        raise Unknown


class Decoder:
    """the decoding of one text x, as extracted: recogniser and what each match is replaced by"""

    def __init__(self, ctx, v, x):
        self.x = x
        self.charset = lambda f: CS[ctx.peg.charset(f, St(), '')]
        self.read(v, x)

    def read(self, v, x):
        if v[0] != 'cat' or len(v[1]) != 2 or v[1][0][0] != 'strcat' or v[1][1][0] != 'slice':
            raise Bad('decode', f'is {show(v)[:160]}, not the text with its references replaced')
        lf, tail = v[1][0][1], v[1][1]
        src = lf[1] if lf[0] == 'lf' else None
        if src is None or src[0] != 'call' or src[1] != 'Regex::find_iter' or src[2][1] != x:
            raise Bad('decode', f'is made of {show(lf)[:160]}, not of the references found in it')
        self.m = ('elem', src)
        self.rx = src[2][0]
        end = ('call', 'Match::end', (self.m,))
        self.last = ('lastof', src, ('i', 0), end)
        if tail not in (('slice', x, self.last, ('end',)), ('slice', x, self.last, ('len', x))):
            raise Bad('tail', f'ends with {show(tail)[:160]}, not with what follows the last reference')
        pre = ('slice', x, ('prev', src, ('i', 0), end), ('call', 'Match::start', (self.m,)))
        self.cases = []
        for conds, lt in lf[2]:
            if lt[0] != 'list' or len(lt[1]) != 1:
                raise Bad('decode', f'a reference yields {show(lt)[:120]}')
            ps = lt[1][0]
            ps = list(ps[1]) if ps[0] == 'cat' else [ps]
            if not ps or ps[0] != pre:
                raise Bad('between', f'before a reference it has {show(ps[0])[:160] if ps else "nothing"}, not the text since the previous one')
            self.cases.append((conds, ps[1:]))

    def norm(self):
        """the replacement independent of the text it is applied to"""
        return repr(subst(('n', self.rx, tuple((c, tuple(p)) for c, p in self.cases)), {self.m: ('sym', 'm'), self.x: ('sym', 'x')}))


def literal(rx):
    """the literal of a constant regular expression"""
    if rx[0] == 'pj' and rx[1][0] == 'call' and rx[1][1] == 'Regex::new' and rx[1][2][0][0] == 's':
        return rx[1][2][0][1]
    return None


def no_reference(atom, v, x):
    """the condition says that x holds no reference"""
    k, t = atom
    if k == 'b' and t[0] == 'call' and t[2] and t[2][0] == x and not v:
        return t[1] == 'str::contains' and t[2][1] in (('i', 38), ('s', '&'))
    if k == 'b' and t[0] == 'call' and t[1] == 'Regex::is_match' and t[2][1] == x and not v:
        return True
    if k == 'var' and t[0] == 'call' and t[1] in ('str::find',) and t[2][0] == x and t[2][1] in (('i', 38), ('s', '&')) and v == 0:
        return True
    if k == 'var' and t[0] == 'call' and t[1] == 'Regex::find' and t[2][1] == x and v == 0:
        return True
    if k == 'b' and v and t[0] == 'op' and t[1] == 'eq' and ('i', 0) in t[2:] and any(y[0] == 'lastof' and y[1][0] == 'call' and y[1][1] == 'Regex::find_iter' and y[1][2][1] == x for y in t[2:]):
        return True
    return False


class Refs:
    def __init__(self, ctx):
        self.ctx = ctx
        self.g = strict.Grammar(ctx)
        self.g.go()
        ctx.peg = self.g.P
        self.dst = self.g.dst
        self.decoders = []           # (where, Decoder)
        self.recs = {}
        self.where = getattr(self.g, 'where', '')

    def top(self):
        t = getattr(self.g, 'top', None)
        if t is None:
            self.ctx.bad('document', 'the list of parsed nodes is not built by a recognisable conversion', self.where)
            return
        self.listed(*t, 'document')
        done = set()
        while True:
            todo = [p for p in self.recs if p not in done]
            if not todo:
                break
            for p in todo:
                done.add(p)
                self.function(p)

    def function(self, path):
        """a conversion that calls itself: the same specification must hold for it"""
        ctx = self.ctx
        bs = [b for b in ctx.F.bodies.values() if b['path'] == path]
        if len(bs) != 1:
            ctx.bad(f'rec:{short(path)}', f'recursive conversion {path}: {len(bs)} bodies', self.where)
            return
        b = bs[0]
        arg = ('sym', 'n')
        outs, I = ctx.run(b, [arg], setup=lambda I: Peg(I))
        if outs is None:
            return
        rets = ctx.rets(outs, b)
        for v, s in rets:
            v = I.deep(s, v)
            conds = dict(s.conds)
            if 'Vec<' in b['locals'][0]:
                self.listed(v, arg, short(path), conds)
            else:
                self.cases(arg, [(tuple(conds.items()), ('list', (v,)))], short(path), partial=True)
        if 'Vec<' not in b['locals'][0]:
            self.complete(arg, rets, b)

    def complete(self, arg, rets, b):
        have = {s.conds.get(('var', arg)) for _, s in rets}
        n = len(self.ctx.F.adts[self.dst]['variants'])
        if None not in have and have != set(range(n)):
            self.ctx.bad(f'variants:{short(b["path"])}', f'{b["path"]} does not convert every kind of node', b['span'])

    def listed(self, L, items, what, conds=None):
        ctx = self.ctx
        if L[0] == 'call' and isinstance(L[1], tuple) and L[1][0] == 'rec' and L[2] == (items,):
            self.recs.setdefault(L[1][1], True)
            return
        if L[0] != 'lf' or L[1] != items:
            ctx.bad(f'{what}:nodes', f'{what}: the nodes are {show(L)[:160]}, not one for each parsed node', self.where)
            return
        self.cases(('elem', items), L[2], what)

    def cases(self, e, cases, what, partial=False):
        ctx = self.ctx
        for k, var in enumerate(ctx.F.adts[self.dst]['variants']):
            name = var['name']
            hit = 0
            for c, lt in cases:
                if dict(c).get(('var', e), k) != k:
                    continue
                hit += 1
                conds = [(a, v) for a, v in c if a != ('var', e) and not strict.valid_regex(a)]
                if any(strict.valid_regex(a) and v != 0 for a, v in c):
                    continue         # a constant expression that does not compile: C22
                if lt[0] != 'list' or len(lt[1]) != 1:
                    ctx.bad(f'{what}:{name}', f'{what}: {name} yields {show(lt)[:120]}', self.where)
                    continue
                self.node(lt[1][0], e, k, name, what, conds)
            if not hit and not partial:
                ctx.bad(f'{what}:{name}', f'{what}: nothing is made of {name}', self.where)

    def node(self, v, e, k, name, what, conds):
        ctx = self.ctx
        if v[0] == 'call' and isinstance(v[1], tuple) and v[1][0] == 'rec' and v[2] == (e,):
            self.recs.setdefault(v[1][1], True)
            return
        if not (v[0] == 'agg' and v[2] == self.dst and v[3] == k):
            ctx.bad(f'{what}:{name}', f'{what}: {name} becomes {show(v)[:160]}', self.where)
            return
        fs = ctx.F.adts[self.dst]['variants'][k]['fields']
        ftys = ctx.F.adts[self.dst]['variants'][k]['ftys']
        for i, (f, ty) in enumerate(zip(fs, ftys)):
            x = ('pj', e, k, i)
            y = v[4][i]
            w = f'{what}: {f} of {name}' if not f.isdigit() and not f.startswith('_') else f'{what}: {name}'
            key = f'{what}:{name}:{f}'
            if 'Map<' in ty:
                self.attrs(y, x, w, key, conds)
            elif 'Vec<' in ty:
                L = y
                if L == ('call', 'x'):
                    pass
                if L[0] == 'lf' and L[1] == x and len(L[2]) == 1 and not L[2][0][0] and L[2][0][1][0] == 'list' and len(L[2][0][1][1]) == 1:
                    z = L[2][0][1][1][0]
                    if z[0] == 'call' and isinstance(z[1], tuple) and z[1][0] == 'rec' and z[2] == (('elem', x),):
                        self.recs.setdefault(z[1][1], True)
                        ctx.ok('children', f'{w}: each converted by {short(z[1][1])}')
                        continue
                if L[0] == 'call' and isinstance(L[1], tuple) and L[1][0] == 'rec' and L[2] == (x,):
                    self.recs.setdefault(L[1][1], True)
                    ctx.ok('children', f'{w}: converted by {short(L[1][1])}')
                    continue
                ctx.bad(key, f'{w}: {show(L)[:200]}: not each child converted the same way, in order', self.where)
            elif name == 'Text':
                self.decoded(y, x, w, key, conds)
            else:
                if y == x:
                    ctx.ok('verbatim', f'{w} is kept as parsed')
                else:
                    ctx.bad(key, f'{w} is {show(y)[:200]} instead of the parsed text itself', self.where)

    def attrs(self, y, x, w, key, conds):
        ctx = self.ctx
        src = ('pairs', x)
        e = ('elem', src)
        if y[0] != 'mapof' or y[1][0] != 'lf' or y[1][1] != src:
            ctx.bad(key, f'{w}: {show(y)[:200]} instead of every attribute with its value decoded', self.where)
            return
        hit = 0
        for c, lt in y[1][2]:
            if any(strict.valid_regex(a) and v != 0 for a, v in c):
                continue
            c = conds + [(a, v) for a, v in c if not strict.valid_regex(a)]
            if lt == ('list', (e,)):
                n, v = ('pj', e, None, 0), ('pj', e, None, 1)
            elif lt[0] != 'list' or len(lt[1]) != 1 or lt[1][0][0] != 'agg' or len(lt[1][0][4]) != 2:
                ctx.bad(key, f'{w}: an attribute yields {show(lt)[:160]}', self.where)
                return
            else:
                n, v = lt[1][0][4]
            if n != ('pj', e, None, 0):
                ctx.bad(key + ':name', f'{w}: the name of an attribute becomes {show(n)[:160]}', self.where)
            else:
                ctx.ok('verbatim', f'{w}: names of attributes are kept')
            self.decoded(v, ('pj', e, None, 1), w, key, c)
            hit += 1
        drops = trees_exclusive(y[1][2])
        if not hit or drops:
            ctx.bad(key, f'{w}: attributes are left out {drops or ""}', self.where)

    @staticmethod
    def empties(x, last):
        for n in (mk_len(x), ('len', x)):
            yield mk_lt(last, n), False
            yield mk_eq(last, n), True
            yield mk_eq(n, last), True
            yield mk_not(mk_lt(last, n)), True
        for r in (('slice', x, last, ('end',)), ('slice', x, last, ('len', x))):
            yield mk_eq(mk_len(r), ('i', 0)), True
            yield mk_lt(('i', 0), mk_len(r)), False
            yield ('call', 'str::is_empty', (r,)), True

    def decoded(self, v, x, w, key, conds):
        ctx = self.ctx
        if any(no_reference(a, b, x) for a, b in conds) and v == x:
            ctx.ok('decoded', f'{w}: kept, as it holds no reference')
            return
        if v[0] == 'strcat' and v[1][0] == 'lf':
            # the rest is left out where it is known to be empty
            last = ('lastof', v[1][1], ('i', 0), ('call', 'Match::end', (('elem', v[1][1]),)))
            if any(b == y for a, b in conds for z, y in self.empties(x, last) if a == ('b', z)):
                v = ('cat', (v, ('slice', x, last, ('end',))))
        try:
            d = Decoder(ctx, v, x)
        except Bad as b:
            ctx.bad(f'{key}:{b.key}', f'{w} {b}', self.where)
            return
        ctx.ok('decoded', f'{w}: every reference is replaced once, the text between is copied')
        self.decoders.append((w, d))


def trees_exclusive(cases):
    """conditions under which no case of a fold applies (other than a constant expression that does not compile)"""
    atoms = sorted({a for c, _ in cases for a, v in c if not strict.valid_regex(a)}, key=repr)
    if not atoms:
        return None
    if len(atoms) > 8:
        return 'under too many conditions'
    for bits in range(1 << len(atoms)):
        h = {a: bool(bits >> i & 1) if a[0] == 'b' else bits >> i & 1 for i, a in enumerate(atoms)}
        if not any(all(strict.valid_regex(a) and v == 0 or h.get(a) == v for a, v in c) for c, _ in cases):
            return 'when ' + showc({a: v for a, v in h.items()})
    return None


@prop('C18')
def c18(ctx):
    """Fold summaries of the decoding pass: per kind of node and per field, either the parsed text itself or the copy with
    every match of the recogniser replaced (between, replacement, tail); recursion by induction."""
    r = Refs(ctx)
    r.top()
    if len({d.norm() for _, d in r.decoders}) > 1:
        ctx.bad('decoders', 'text and attribute values are decoded in different ways', r.where)
    ctx.floor('decoded', 4)
    ctx.floor('verbatim', 6)
    ctx.floor('children', 1)


# ------------------------------------------------------------------ C17
def table(ctx, name):
    """rows of the constant table"""
    for c in ctx.F.consts:
        if c['path'] == name:
            for s in walk_lits(c['lits']):
                if isinstance(s, dict):
                    for f in s.get('struct', ()):
                        if f[0] == 'entries':
                            return f[1], c['span']
    return None, ''


def walk_lits(x):
    if isinstance(x, dict):
        yield x
        for y in x.values():
            yield from walk_lits(y)
    elif isinstance(x, list):
        for y in x:
            yield from walk_lits(y)


def is_numeric(T):
    """(base, digits) of a numeric reference"""
    if T and T[0] == ('l', '&#') and T[-1] == ('l', ';') and len(T) == 3 and T[1][0] == 'r' and T[1][2] >= 1 and not r_sub(T[1][1], DIGITS):
        return 10, (T[1],)
    if len(T) in (3, 4) and T[-1] == ('l', ';') and T[-2][0] == 'r' and T[-2][2] >= 1 and not r_sub(T[-2][1], HEXD):
        if len(T) == 3 and T[0] in (('l', '&#x'), ('l', '&#X')):
            return 16, (T[1],)
        if len(T) == 4 and T[0] == ('l', '&#') and T[1][0] == 'r' and T[1][2:] == (1, 1) and not r_sub(T[1][1], ((88, 88), (120, 120))):
            return 16, (T[2],)
    return None


@prop('C17')
def c17(ctx):
    """Constant table of named references, row by row against the HTML table; recogniser (regular expression) on every name
    and on the classes of numeric references; paths of the decoder on abstract texts (literals and character classes)."""
    r = Refs(ctx)
    n0 = len(ctx.viol)
    r.top()
    own = ctx.viol[n0:]
    del ctx.viol[n0:]
    if not r.decoders:
        ctx.viol += own
        if not own:
            ctx.bad('decoder', 'no decoding of references found', r.where)
        return
    ds = {}
    for w, d in r.decoders:
        ds.setdefault(d.norm(), (w, d))
    for w, d in ds.values():
        decoder(ctx, w, d, r.where)
    ctx.floor('row', 2200)
    ctx.floor('recognised', 2200)
    ctx.floor('numeric', 2)
    ctx.floor('path', 8)


def split(T):
    """T with small single-character classes written out"""
    outs = [()]
    for p in T:
        if p[0] == 'r' and p[2:] == (1, 1) and sum(b - a + 1 for a, b in p[1]) <= 4:
            ps = [('l', chr(c)) for a, b in p[1] for c in range(a, b + 1)]
        else:
            ps = [p]
        outs = [o + (q,) for o in outs for q in ps]
    return [seq(*o) for o in outs]


def decoder(ctx, w, d, where):
    lit = literal(d.rx)
    if lit is None:
        ctx.bad('recogniser', f'{w}: the recogniser {show(d.rx)[:120]} is not a constant expression', where)
        return
    try:
        rx = re.compile(lit)
        Ts = list(dict.fromkeys(t for T in expand(sre_parse.parse(lit)) for t in split(T)))
    except Bad as b:
        ctx.bad(b.key, f'{w}: {b}', where)
        return
    except re.error as x:
        ctx.bad('recogniser', f'{w}: {lit!r}: {x}', where)
        return
    std = html.entities.html5
    # every name is recognised as a whole
    for k in std:
        m = rx.search('&' + k)
        if m and m.group(0) == '&' + k:
            ctx.ok('recognised', '&' + k)
        else:
            ctx.bad('recognise:&' + k, f'&{k} is recognised as {m.group(0) if m else "nothing"!r}', where)
            if len(ctx.viol) > 40:
                break
    # numeric references of any length
    for base, pre in ((10, '&#'), (16, '&#x'), (16, '&#X')):
        want = DIGITS if base == 10 else HEXD
        cov = False
        for T in Ts:
            nn = is_numeric(T)
            if nn and nn[0] == base and re.fullmatch(pat(T), pre + '1;') and not r_sub(want, nn[1][0][1]) and nn[1][0][2] == 1 and nn[1][0][3] >= INF:
                cov = True
        bad = [s for s in (f'{pre}{a}{b};' for a in '0123456789' + ('abcdefABCDEF' if base == 16 else '') for b in ('', '1', '0041')) if not (rx.search(s) and rx.search(s).group(0) == s)]
        if cov and not bad:
            ctx.ok('numeric', f'{pre}…; with any number of digits is recognised')
        else:
            ctx.bad(f'recognise:{pre}', f'numeric references {pre}…; are not all recognised as a whole {bad[:1]}', where)
    # the table
    names = {t[1] for c, ps in d.cases for x in [y for (k, y), v in c] + list(ps) for t in subterms(x) if t and t[0] == 'const' and len(t) == 2 and isinstance(t[1], str)}
    tabs = {}
    for n in names:
        rows, sp = table(ctx, n)
        if rows is not None:
            tabs[n] = ({}, sp)
            for row in rows.get('arr', rows) if isinstance(rows, dict) else rows:
                kv = row.get('tup') if isinstance(row, dict) else row
                tabs[n][0][kv[0]['str']] = kv[1]['str']
    if len(tabs) != 1:
        ctx.bad('table', f'{w}: {len(tabs)} constant tables of named references are used, 1 expected', where)
        return
    tn, (ents, sp) = next(iter(tabs.items()))
    for k, v in std.items():
        g = ents.get('&' + k)
        if g == v:
            ctx.ok('row', f'&{k} = {v!r}')
        elif g is None:
            ctx.bad(f'row:&{k}', f'{tn}: &{k} is missing', sp)
        else:
            ctx.bad(f'row:&{k}', f'{tn}: &{k} is {g!r}, the standard assigns {v!r}', sp)
    for k in ents:
        if k[1:] not in std or k[:1] != '&':
            if rx.fullmatch(k):
                ctx.bad(f'row:{k}', f'{tn}: {k} is no reference of the standard', sp)
    # the paths
    for T in Ts:
        paths(ctx, w, d, T, tn, ents, where)


def paths(ctx, w, d, T, tn, ents, where):
    E = Eval(T, d.m, d.x, ents, d.charset)
    num = is_numeric(T)
    what = showt(T)
    row = ('row', tn, T)
    n = 0
    for conds, ps in d.cases:
        facts, live = [], True
        for (k, t), v in conds:
            if strict.valid_regex((k, t)):
                live = live and v == 0
                continue
            try:
                r = E.ev(t)
            except Unknown:
                facts.append(('?', show(t)[:80], v))
                continue
            if r[0] == 'none' and k == 'var':
                live = live and v == 0
            elif r[0] == 'some' and k == 'var':
                live = live and v == 1
            elif r[0] == 'err' and k == 'var':
                live = live and v == 1
            elif r[0] == 'good' and k == 'var':
                live = live and v == 0
            elif r[0] == 'bool' and k == 'b':
                live = live and r[1] == v
            elif r[0] == 'maybe' and k == 'var':
                facts.append((r[1], v == 1))
            elif r[0] == 'either' and k == 'var':
                facts.append((r[1], v == 0))
            else:
                facts.append(('?', show(t)[:80], v))
            if not live:
                break
        if not live:
            continue
        n += 1
        try:
            vs = [E.ev(p) for p in ps]
        except Unknown:
            ctx.bad(f'path:{what}', f'{w}: {what} becomes {" ".join(show(p)[:160] for p in ps)}', where)
            continue
        pieces = seq(*(p for v in vs if v[0] == 'str' for p in v[1])) if all(v[0] == 'str' for v in vs) else None
        inrow = {f[1] for f in facts if f[0] == row}
        maybe_named = E.maytable
        when = 'when ' + ', '.join(f'{showf(f)}' for f in facts) if facts else 'always'
        if True in inrow:
            good = vs == [row]
            want = 'its row of the table'
        elif maybe_named and False not in inrow:
            good, want = False, 'its row of the table, if it has one'
        elif num:
            val = [f for f in facts if f[0][0] == 'value' and f[0][1] == num[0] and f[0][2] == num[1]]
            uni = [f for f in facts if f[0][0] == 'uni' and f[0][1][0] == 'value' and f[0][1][1] == num[0] and f[0][1][2] == num[1]]
            if any(f[1] is False for f in val) or any(f[1] is False for f in uni):
                good, want = pieces == T, 'kept as written'
            else:
                good = len(vs) == 1 and bool(uni) and vs[0] == uni[0][0]
                want = f'the character of its number (base {num[0]})'
        else:
            good, want = pieces == T, 'kept as written'
        if good:
            ctx.ok('path', f'{what}: {want}, {when}')
        else:
            ctx.bad(f'path:{what}', f'{w}: {what} becomes {" ".join(map(showv, vs)) or "nothing"}, specified is {want}, {when}', where)
    if not n:
        ctx.bad(f'path:{what}', f'{w}: no path for {what}', where)


def showf(f):
    return f'{showv(f[0])} is {f[1]}' if len(f) == 2 else f'{f[1]}={f[2]}'


def showv(v):
    if v[0] == 'str':
        return repr(showt(v[1]))
    if v[0] == 'row':
        return 'table row of ' + showt(v[2])
    if v[0] == 'value':
        return f'number {showt(v[2])} base {v[1]}'
    if v[0] == 'uni':
        return 'character of ' + showv(v[1])
    return str(v)[:80]
