"""Symbolic summaries of parsing code (nom combinators and code around them).

The remaining input is the term ('rest', p) for a position p, a matched piece of text is ('span', p, q).
Positions: a symbol, ('adv', p, n) = n characters later, ('end', prim, p) = where prim, matched at p, ends.
Primitives (the atoms paths are split on, written ('at', prim, p)):
  ('chr', cs)          one character of the set cs              ('lit', text, nocase)  a fixed text
  ('run', cs)          maximal run, never fails                 ('until', text)        text occurs later on
  ('litof', t, nocase) the text of a term                       ('take', n)            n characters, n not constant
  ('many', f)          repetition of the parser f, never fails  ('rule', key)          a function being summarised
Whether an atom is decided by the others on a path is worked out on the strings they describe, so alternatives that
exclude each other are recognised in whatever order they are tried.
"""
import unicodedata
from terms import *
from interp import Unsupported, St, split_off

MAXC = 0x10FFFF
St0 = St()


class Log:
    """the repetitions and rules called on a path, in order: [(parser term, position)]"""
    __slots__ = ('calls',)

    def __init__(self, calls=()):
        self.calls = calls

    def copy(self):
        return self

    def __eq__(self, o):
        return isinstance(o, Log) and self.calls == o.calls

    def __hash__(self):
        return hash(self.calls)

    def __repr__(self):
        return repr(self.calls)

CS = {}          # canonical text of a character set -> ranges


# ------------------------------------------------------------------ character sets
def norm_ranges(rs):
    out = []
    for a, b in sorted(rs):
        if a > b:
            continue
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return tuple(out)


def r_compl(rs):
    out, n = [], 0
    for a, b in rs:
        if a > n:
            out.append((n, a - 1))
        n = b + 1
    if n <= MAXC:
        out.append((n, MAXC))
    return tuple(out)


def r_union(a, b):
    return norm_ranges(a + b)


def r_inter(a, b):
    return r_compl(r_union(r_compl(a), r_compl(b)))


def r_sub(a, b):
    return r_inter(a, r_compl(b))


def rc(n):
    c = chr(n)
    if c in '\\]^-':
        return '\\' + c
    return c if c.isprintable() else f'\\x{n:x}'


def cs_of(ranges):
    """interned set: its canonical description"""
    rs = norm_ranges(tuple(ranges))
    neg = bool(rs) and rs[-1][1] == MAXC
    show_ = r_compl(rs) if neg else rs
    s = '[' + ('^' if neg else '') + ''.join(rc(a) if a == b else rc(a) + '-' + rc(b) for a, b in show_) + ']'
    CS[s] = rs
    return s


def cs_chars(chars):
    return cs_of(tuple((ord(c), ord(c)) for c in chars))


def cs_not(chars):
    return cs_of(r_compl(CS[cs_chars(chars)]))


ANY = cs_of(((0, MAXC),))
NONE_ = cs_of(())
ALPHA = cs_of(((65, 90), (97, 122)))
DIGIT = cs_of(((48, 57),))
ALNUM = cs_of(((48, 57), (65, 90), (97, 122)))
ASCII_WS = cs_chars('\t\n\x0c\r ')
NOM_WS = cs_chars(' \t\r\n')
BLANK = cs_chars(' \t')
_uni = {}


def cs_class(name):
    """the set of a char method"""
    if name in _uni:
        return _uni[name]
    asc = {'is_ascii_whitespace': ASCII_WS, 'is_ascii_alphanumeric': ALNUM, 'is_ascii_digit': DIGIT, 'is_ascii_alphabetic': ALPHA,
           'is_ascii': cs_of(((0, 127),)), 'is_ascii_hexdigit': cs_of(((48, 57), (65, 70), (97, 102))),
           'is_ascii_uppercase': cs_of(((65, 90),)), 'is_ascii_lowercase': cs_of(((97, 122),)),
           'is_ascii_control': cs_of(((0, 31), (127, 127))), 'is_control': cs_of(((0, 31), (127, 159))),
           'is_ascii_punctuation': cs_of(((33, 47), (58, 64), (91, 96), (123, 126))), 'is_ascii_graphic': cs_of(((33, 126),))}
    if name in asc:
        return asc[name]
    f = {'is_whitespace': lambda c: c in '\t\n\x0b\x0c\r \x85\xa0\u1680\u2028\u2029\u202f\u205f\u3000' or '\u2000' <= c <= '\u200a',
         'is_alphanumeric': lambda c: c.isalpha() or unicodedata.category(c) in ('Nd', 'Nl', 'No'), 'is_alphabetic': str.isalpha,
         'is_numeric': lambda c: unicodedata.category(c) in ('Nd', 'Nl', 'No'), 'is_uppercase': str.isupper, 'is_lowercase': str.islower}.get(name)
    if f is None:
        return None
    _uni[name] = cs_of(tuple((n, n) for n in range(MAXC + 1) if f(chr(n))))
    return _uni[name]


def cs_case(c):
    return CS[cs_chars({c, c.upper(), c.lower()} if c.isascii() and c.isalpha() else {c})]


def subset(a, b):
    return not r_sub(CS[a], CS[b])


def has(cs, ch):
    return any(a <= ord(ch) <= b for a, b in CS[cs])


# ------------------------------------------------------------------ positions
def adv(p, n):
    if n == 0:
        return p
    if p[0] == 'adv':
        return ('adv', p[1], p[2] + n)
    return ('adv', p, n)


def split(p):
    return (p[1], p[2]) if p[0] == 'adv' else (p, 0)


def at(prim, p):
    return ('at', prim, p)


def after(q, p):
    """was q reached from p?"""
    while True:
        (qb, qo), (pb, po) = split(q), split(p)
        if qb == pb:
            return qo >= po
        if qo < 0 or qb[0] != 'end':
            return False
        q = qb[2]


FIXED = ('chr', 'lit')


def width(prim):
    return 1 if prim[0] == 'chr' else len(prim[1])


def sets_of(prim):
    if prim[0] == 'chr':
        return [CS[prim[1]]]
    return [cs_case(c) if prim[2] else ((ord(c), ord(c)),) for c in prim[1]]


def mk_lit(text, nocase=False):
    if nocase and not any(c.isascii() and c.isalpha() for c in text):
        nocase = False
    if len(text) == 1:
        return ('chr', cs_of(cs_case(text) if nocase else ((ord(text), ord(text)),)))
    return ('lit', text, nocase)


_sat = {}


def sat(cons):
    """is there a text satisfying all (offset, prim, bool)?"""
    k = frozenset(cons)
    r = _sat.get(k)
    if r is None:
        r = _sat[k] = _sat0(k)
    return r


def _sat0(cons):
    n = max([o + width(p) for o, p, v in cons if v] + [0])
    req = [((0, MAXC),)] * n
    for o, p, v in cons:
        if v:
            for i, s in enumerate(sets_of(p)):
                req[o + i] = r_inter(req[o + i], s)
    rest = []
    for o, p, v in cons:
        if v:
            continue
        ss = sets_of(p)
        if not ss:
            return False
        if o + len(ss) > n:
            continue             # the text may end before
        rest.append((o, ss))

    def go(req, rest):
        # the constraints that still bite, each as the (position, narrowed set) that would satisfy it
        while True:
            if any(not r for r in req):
                return False
            todo, unit = [], None
            for o, ss in rest:
                opts = [(o + i, r_sub(req[o + i], s)) for i, s in enumerate(ss)]
                if any(m == req[x] for x, m in opts):
                    continue             # differs whatever is chosen
                opts = [(x, m) for x, m in opts if m]
                if not opts:
                    return False
                if len(opts) == 1:
                    unit = opts[0]
                    break
                todo.append((opts, (o, ss)))
            if unit is None:
                break
            req = list(req)
            req[unit[0]] = unit[1]
        if not todo:
            return True
        opts, _ = min(todo, key=lambda x: len(x[0]))
        rest = [c for _, c in todo]
        for x, m in opts:
            q = list(req)
            q[x] = m
            if go(q, rest):
                return True
        return False
    return go(req, rest)


# ------------------------------------------------------------------ knowledge of a path
class Know:
    """the atoms known on a path, by base position"""
    __slots__ = ('by', 'flat')

    def __init__(self, conds):
        self.by, self.flat = {}, {}
        for (k, t), v in conds.items():
            if k == 'b' and t[0] == 'at':
                self.add(t[1], t[2], v)

    def add(self, prim, p, v):
        self.flat[(prim, p)] = v
        if prim[0] in FIXED:
            b, o = split(p)
            self.by.setdefault(b, []).append((o, prim, v))

    def cons(self, base):
        out = list(self.by.get(base, ()))
        if base[0] == 'end':
            pr = base[1]
            if pr[0] == 'run':
                out.append((0, ('chr', pr[1]), False))
            elif pr[0] == 'until':
                out.append((0, mk_lit(pr[1]), True))
        return out

    def decide(self, prim, p):
        r = self.flat.get((prim, p))
        if r is not None:
            return r
        if prim[0] == 'bytes':
            return True if self.norm(('end', prim, p)) != ('end', prim, p) else None
        if prim[0] in ('lit', 'litof') and self.flat.get((('bytes', ('i', len(prim[1])) if prim[0] == 'lit' else ('len', prim[1])), p)) is False:
            return False
        if prim[0] not in FIXED:
            return None
        b, o = split(p)
        c = self.cons(b)
        if not c and prim[0] == 'chr' and CS[prim[1]]:
            return None
        if not sat(c + [(o, prim, True)]):
            return False
        if not sat(c + [(o, prim, False)]):
            return True
        return None

    def norm(self, p):
        """canonical form of a position under what is known"""
        if p[0] == 'adv':
            return adv(self.norm(p[1]), p[2])
        if p[0] != 'end':
            return p
        pr, q = p[1], self.norm(p[2])
        if pr[0] == 'bytes':
            if pr[1][0] == 'i':
                b, o = split(q)
                known = {o1 + i for o1, prim, v in self.cons(b) if v for i, x in enumerate(sets_of(prim)) if x and x[-1][1] < 128}
                if all(o + i in known for i in range(pr[1][1])):
                    return adv(q, pr[1][1])
            elif pr[1][0] == 'len':
                for nc in (True, False):
                    if self.flat.get((('litof', pr[1][1], nc), q)):
                        return ('end', ('litof', pr[1][1], nc), q)
        if pr[0] == 'run':
            cs = pr[1]
            # a run that starts within a run of the same characters
            while True:
                b, o = split(q)
                if o and self.decide(('chr', cs), adv(b, o - 1)) is True:
                    q = adv(b, o - 1)
                elif not o and q[0] == 'end' and q[1][0] == 'run' and subset(q[1][1], cs):
                    q = q[2]
                else:
                    break
            n = 0
            while n < 64:
                d = self.decide(('chr', cs), adv(q, n))
                if d is False:
                    return adv(q, n)
                if d is None:
                    break
                n += 1
            if cs == ANY:
                # all that is left: where a shorter run is known to reach as far, that run
                for (prim, p1), v in self.flat.items():
                    if not v and prim[0] == 'chr' and p1[0] == 'end' and p1[1][0] == 'run' and p1[2] == q and not r_sub(CS[ANY], norm_ranges(CS[p1[1][1]] + CS[prim[1]])):
                        return p1
        return ('end', pr, q)


def know(st):
    k = getattr(st, '_k', None)
    return Know(st.conds)


def norm_term(t, K, memo=None):
    """positions inside a term in canonical form"""
    if memo is None:
        memo = {}
    if not isinstance(t, tuple) or not t:
        return t
    r = memo.get(t)
    if r is not None:
        return r
    n = tuple(norm_term(x, K, memo) if isinstance(x, tuple) else x for x in t)
    if n[0] in ('end', 'adv') and len(n) == 3:
        n = K.norm(n)
    memo[t] = n
    return n


def norm_conds(conds):
    """conditions with canonical positions (to a fixpoint)"""
    for _ in range(6):
        K = Know(conds)
        memo = {}
        new = {}
        for (k, t), v in conds.items():
            new[(k, norm_term(t, K, memo))] = v
        if new == conds:
            return conds
        conds = new
    return conds


# ------------------------------------------------------------------ combinators
ERR = ('agg', 'adt', 'nom::Err', 1, (('nomerror',),))
FAILURE = ('agg', 'adt', 'nom::Err', 2, (('nomerror',),))
OPT_VOID = None


class Peg:
    """evaluates nom parsers for an Interp"""

    def __init__(self, I):
        self.I = I
        self.manys = {}          # parser term -> Body
        self.busy = {}           # parser term -> start symbol, while its body is being summarised
        self.ids = {}            # parser term -> short name
        self.names = {}
        self.sigs = {}
        self.unknown = set()     # recursive loops whose ends are not known yet
        self.exits = {}          # loop over the input -> where it goes on
        self.rules = {}
        self.reentries = []      # (parser term, position, conds, where)
        self.logging = False     # keep the calls of each path
        self.notes = []          # (kind, where): nom functions with preconditions
        self.depth = 0
        I.intercept.append(self.intercept)
        I.peg = self
        I.apply_opaque = self.apply_opaque
        old = I.decide

        def decide(st, b):
            if b[0] == 'at':
                return self.decide_at(st, b)
            return old(st, b)
        I.decide = decide
        fork0 = I.fork_bool

        def fork_bool(st, b):
            if b[0] == 'op' and b[1] == 'eq' and 'span' in (b[2][0], b[3][0]):
                x, y = (b[2], b[3]) if b[2][0] == 'span' else (b[3], b[2])
                r = self.span_is(x, y, False, st)
                if r is not None:
                    return fork_bool(st, r)
            return fork0(st, b)
        I.fork_bool = fork_bool
        if I.loop_hook is None:
            I.loop_hook = self.loop_hook

    # -- atoms
    def decide_at(self, st, b):
        K = Know(st.conds)
        p = K.norm(b[2])
        return K.decide(b[1], p)

    def fork(self, st, prim, p):
        """[(bool, state, end)]"""
        p = Know(st.conds).norm(p)
        out = []
        for v, s in self.I.fork_bool(st, at(prim, p)):
            out.append((v, s, self.end(s, prim, p) if v else None))
        return out

    def end(self, st, prim, p):
        if prim[0] in FIXED:
            return adv(p, width(prim))
        return Know(st.conds).norm(('end', prim, p))

    # -- values
    def rest(self, v, st, w):
        v = self.I.val(st, v)
        if v[0] != 'rest':
            raise Unsupported('parser applied to ' + show(v)[:80], w)
        return Know(st.conds).norm(v[1])

    @staticmethod
    def okay(q, v):
        return ok(tup(('rest', q), v))

    FAIL = err(ERR)

    def result(self, v, st, w):
        """[(kind, end, value, state)] of a parser's result; kind 'ok' | 'err' | 'failure'"""
        v = self.I.val(st, v)
        if v[0] == 'agg' and v[2] == RESULT:
            if v[3] == 0:
                t = self.I.val(st, v[4][0])
                if t[0] == 'agg' and len(t[4]) == 2:
                    r = self.I.val(st, t[4][0])
                    if r[0] == 'rest':
                        return [('ok', r[1], t[4][1], st)]
            else:
                e = self.I.val(st, v[4][0])
                if e == ERR:
                    return [('err', None, None, st)]
                if e == FAILURE:
                    return [('failure', None, None, st)]
                return [('err', None, e, st)] if e[0] == 'agg' and e[2] == 'nom::Err' and e[3] == 1 else [('failure', None, e, st)]
        raise Unsupported('result of a parser: ' + show(v)[:100], w)

    def run(self, f, p, st, w):
        """apply parser f at position p: [(kind, end, value, state)]; panics are raised as Unsupported"""
        out = []
        for k, v, s in self.I.call_value(f, [('rest', p)], st, w):
            if k == 'panic':
                raise Unsupported('parser can panic: ' + str(v[0]), w)
            if k != 'ret':
                raise Unsupported('parser does not return', w)
            out += self.result(v, s, w)
        if len(out) > 4000:
            raise Unsupported('too many alternatives', w)
        return self.tidy(out)

    def tidy(self, out):
        """'not so many bytes' and 'so many bytes, but another text' are together 'another text'"""
        if not any(k == 'b' and t[0] == 'at' and t[1][0] == 'bytes' for o in out for k, t in o[3].conds):
            return out
        out = [(k, q, norm_term(self.I.deep(s, v), Know(s.conds)) if k == 'ok' else v, s) for k, q, v, s in out]
        for n, o in enumerate(out):
            for (k, t), v in list(o[3].conds.items()):
                if not (k == 'b' and t[0] == 'at' and t[1][0] == 'bytes' and v):
                    continue
                pos = [a for a, x in o[3].conds.items() if x and a[0] == 'b' and a[1][0] == 'at' and a[1][2] == t[2] and self.sized(a[1][1], t[1])]
                neg = [a for a, x in o[3].conds.items() if not x and a[0] == 'b' and a[1][0] == 'at' and a[1][2] == t[2] and self.sized(a[1][1], t[1])]
                if pos:
                    s = o[3].copy()
                    s.conds = {a: x for a, x in s.conds.items() if a != (k, t)}
                    out[n] = o = o[:3] + (s,)
                    continue
                if len(neg) != 1:
                    continue
                mine = {a: x for a, x in o[3].conds.items() if a not in ((k, t), neg[0])}
                for m, z in enumerate(out):
                    if z is None or m == n or z[:3] != o[:3] or z[3].conds.get((k, t)) is not False:
                        continue
                    if {a: x for a, x in z[3].conds.items() if a != (k, t)} == mine and z[3].cells == o[3].cells and z[3].effects == o[3].effects and z[3].ghost == o[3].ghost:
                        s = o[3].copy()
                        s.conds = {a: x for a, x in s.conds.items() if a != (k, t)}
                        out[n] = o = o[:3] + (s,)
                        out[m] = (None, None, None, z[3])
                        break
        return [o for o in out if o[0] is not None]

    @staticmethod
    def sized(prim, b):
        return prim[0] == 'lit' and b[1] == ('i', len(prim[1])) or prim[0] == 'litof' and b[1] == ('len', prim[1])

    # -- hooks
    def intercept(self, I, fo, name, args, st, where):
        full = name
        if fo.get('crate') == 'nom' and 'trait' in fo and name.startswith('Parser::'):
            return self.method(fo, name[8:], args, st, where)
        if name.startswith('nom::') and len(args) == 1 and I.val(st, args[0])[0] == 'rest':
            return self.prim(name, args, st, where, fo)
        key = fo.get('key')
        if key and len(args) == 1 and args[0][0] == 'rest' and key in I.stack:
            b = I.F.bodies.get(key)
            if b is not None and b['crate'] == 'soupy' and 'Result<(' in b['locals'][0]:
                if I.stack.count(key) < 2:
                    return I.exec_body(key, args, st)        # ends at a repetition that is being summarised, or
                return self.rule(key, args[0][1], st, where)     # else by name
        if args and name in self.TEXT:
            v = I.val(st, args[0])
            if v[0] == 'ref':
                v = I.deep(st, v)
            w = I.val(st, args[1]) if len(args) == 2 and name == 'str::eq_ignore_ascii_case' else v
            if v[0] in ('rest', 'span') or w[0] == 'span':
                return getattr(self, 't_' + self.TEXT[name])(v, args, st, where)
        return None

    TEXT = {'str::starts_with': 'starts', 'str::strip_prefix': 'strip', 'str::is_empty': 'empty', 'str::eq_ignore_ascii_case': 'eqic',
            'str::find': 'find', 'Index::index': 'index', 'str::split_at': 'splitat', 'str::split_once': 'splitonce', 'str::contains': 'contains',
            'str::trim_start_matches': 'trimstart', 'str::trim_start': 'trimws', 'str::get': 'get', 'str::is_char_boundary': 'boundary', 'Offset::offset': 'offset'}

    def seek(self, pat, p, st, where):
        """[(found, state, position of the first match, number of bytes matched or None)] of searching from p"""
        pat = self.I.deep(st, pat)
        if pat[0] in ('s', 'i'):
            t = pat[1] if pat[0] == 's' else chr(pat[1])
            if not t:
                return [(True, st, p, 0)]
            if len(t) > 1:
                return [(v, s, q, len(t.encode())) for v, s, q in self.fork(st, ('until', t), p)]
            cs, n = cs_chars(t), len(t.encode())
        else:
            items = as_items(pat)
            if items is not None:
                if not all(x[0] == 'i' for x in items):
                    return None
                cs = cs_chars(''.join(chr(x[1]) for x in items))
            else:
                cs = self.charset(pat, st, where)
            n = None
        e = self.end(st, ('run', cs_of(r_compl(CS[cs]))), p)
        return [(v, s, e, n) for v, s, _ in self.fork(st, ('chr', cs), e)]

    def t_find(self, v, args, st, where):
        if v[0] != 'rest':
            return None
        r = self.seek(args[1], v[1], st, where)
        if r is None:
            return None
        return [('ret', some(('off', v[1], q)) if x else NONE, s) for x, s, q, n in r]

    def t_contains(self, v, args, st, where):
        if v[0] != 'rest':
            return None
        r = self.seek(args[1], v[1], st, where)
        return None if r is None else [('ret', ('b', x), s) for x, s, q, n in r]

    def t_splitonce(self, v, args, st, where):
        if v[0] != 'rest':
            return None
        r = self.seek(args[1], v[1], st, where)
        if r is None or any(x and n is None for x, s, q, n in r):
            return None
        out = []
        for x, s, q, n in r:
            e = self.skip(q, n, s) if x else None
            if x and e is None:
                return None
            out.append(('ret', some(tup(('span', v[1], q), ('rest', e))) if x else NONE, s))
        return out

    def trimmed(self, cs, v, st):
        return [('ret', ('rest', self.end(st, ('run', cs), v[1])), st)]

    def t_trimstart(self, v, args, st, where):
        if v[0] != 'rest':
            return None
        pat = self.I.deep(st, args[1])
        if pat[0] == 's' and len(pat[1]) != 1:
            return None
        if pat[0] in ('s', 'i'):
            return self.trimmed(cs_chars(pat[1] if pat[0] == 's' else chr(pat[1])), v, st)
        items = as_items(pat)
        if items is not None:
            return self.trimmed(cs_chars(''.join(chr(x[1]) for x in items)), v, st) if all(x[0] == 'i' for x in items) else None
        return self.trimmed(self.charset(pat, st, where), v, st)

    def t_trimws(self, v, args, st, where):
        return self.trimmed(cs_class('is_whitespace'), v, st) if v[0] == 'rest' else None

    def skip(self, q, k, st):
        """the position k bytes after q, when what stands there is known to be k ASCII characters"""
        K = Know(st.conds)
        q = K.norm(q)
        b, o = split(q)
        known = set()
        for o1, prim, v in K.cons(b):
            if v:
                for i, s in enumerate(sets_of(prim)):
                    if s and s[-1][1] < 128:
                        known.add(o1 + i)
        if k < 0 or not all(o + i in known for i in range(k)):
            return None
        return adv(q, k)

    def place(self, p, t, st):
        """the position a byte offset from p stands for"""
        if t is None:
            return None
        b, k = split_off(t)
        K = Know(st.conds)
        p = K.norm(p)
        for pr in (('bytes', t),) if k and b == ('i', 0) or b[0] == 'len' and not k else ():
            e = K.norm(('end', pr, p))
            if e != ('end', pr, p) or K.flat.get((pr, p)):
                return e
        if b == ('i', 0):
            return self.skip(p, k, st)
        if b[0] == 'off' and K.norm(b[1]) == p:
            return self.skip(b[2], k, st)
        if b == ('len', ('rest', p)) and k == 0:
            return self.end(st, ('run', ANY), p)
        if b[:2] == ('op', 'Sub') and all(x[0] == 'len' and x[1][0] == 'rest' for x in b[2:4]) and K.norm(b[2][1][1]) == p \
                and after(K.norm(b[3][1][1]), p):
            return self.skip(b[3][1][1], k, st)
        return None

    def sliced(self, v, lo, hi, st):
        import models
        p = v[1]
        a = p if lo is None else self.place(p, lo, st)
        e = 'end' if hi is None or hi == ('end',) else self.place(p, hi, st)
        if a is None or e is None:
            return None
        if e == 'end':
            return ('rest', a)
        if lo is not None and a != p and e != a:
            return None           # is it the right way round?
        return ('s', '') if e == a else ('span', a, e)

    def t_index(self, v, args, st, where):
        import models
        if v[0] != 'rest':
            return None
        rg = models.slice_range(self.I, st, args[1])
        r = self.sliced(v, rg[0], rg[1], st) if rg else None
        return None if r is None else [('ret', r, st)]

    def t_offset(self, v, args, st, where):
        w = self.I.val(st, args[1])
        K = Know(st.conds)
        if v[0] == w[0] == 'rest' and after(K.norm(w[1]), K.norm(v[1])):
            return [('ret', ('op', 'Sub', ('len', v), ('len', w)), st)]
        return None

    def t_splitat(self, v, args, st, where):
        if v[0] != 'rest':
            return None
        q = self.place(v[1], self.I.deep(st, args[1]), st)
        if q is None:
            return None
        return [('ret', tup(('span', v[1], q), ('rest', q)), st)]

    def t_get(self, v, args, st, where):
        import models
        if v[0] != 'rest':
            return None
        rg = models.slice_range(self.I, st, args[1])
        r = self.sliced(v, rg[0], rg[1], st) if rg else None
        if r is None and rg and rg[0] in (None, ('i', 0)) and rg[1] is not None and (rg[1][0] == 'i' and 0 < rg[1][1] < 64 or rg[1][0] == 'len'):
            pr = ('bytes', rg[1])           # are there so many bytes, ending between two characters?
            return [('ret', some(('span', v[1], self.end(s, pr, v[1]))) if x else NONE, s) for x, s, q in self.fork(st, pr, v[1])]
        return None if r is None else [('ret', some(r), st)]

    def t_boundary(self, v, args, st, where):
        n = self.I.deep(st, args[1])
        if v[0] != 'rest' or not (n[0] == 'i' and 0 < n[1] < 64 or n[0] == 'len'):
            return None
        return [('ret', ('b', x), s) for x, s, q in self.fork(st, ('bytes', n), v[1])]

    def const_pat(self, v, st):
        v = self.I.val(st, v)
        if v[0] == 's':
            return mk_lit(v[1]) if v[1] else None
        if v[0] == 'i':
            return mk_lit(chr(v[1]))
        return None

    def t_starts(self, v, args, st, where):
        pr = self.const_pat(args[1], st)
        if pr is None or v[0] != 'rest':
            return None
        return [('ret', ('b', x), s) for x, s, q in self.fork(st, pr, v[1])]

    def t_strip(self, v, args, st, where):
        pr = self.const_pat(args[1], st)
        if pr is None or v[0] != 'rest':
            return None
        return [('ret', some(('rest', q)) if x else NONE, s) for x, s, q in self.fork(st, pr, v[1])]

    def t_empty(self, v, args, st, where):
        if v[0] != 'rest':
            return None
        return [('ret', ('b', not x), s) for x, s, q in self.fork(st, ('chr', ANY), v[1])]

    def t_eqic(self, v, args, st, where):
        o = self.I.deep(st, args[1])
        if v[0] == 's':
            v, o = o, v
        r = self.span_is(v, o, True, st)
        return None if r is None else [('ret', r, st)]

    def span_is(self, v, o, nocase, st):
        """truth of `the text v is o` as atoms on the input"""
        if v[0] != 'span':
            return None
        K = Know(st.conds)
        p, q = K.norm(v[1]), K.norm(v[2])
        if q[0] == 'end' and q[1] == ('bytes', ('len', o)) and q[2] == p and o[0] != 's':
            return at(('litof', o, nocase), p)
        if o[0] != 's' or not o[1] or not o[1].isascii():
            return None
        if q[0] == 'end' and q[1] == ('bytes', ('i', len(o[1]))) and q[2] == p:
            return at(mk_lit(o[1], nocase), p)
        n = len(o[1])
        bp, op = split(p)
        bq, oq = split(q)
        if bp == bq:
            return at(mk_lit(o[1], nocase), p) if oq - op == n else FALSE
        if q[0] == 'end' and q[1][0] == 'run' and K.norm(('end', q[1], p)) == q and all(not r_sub(s, CS[q[1][1]]) for s in sets_of(mk_lit(o[1], nocase))):
            return ('op', 'and', at(mk_lit(o[1], nocase), p), mk_not(at(('chr', q[1][1]), adv(p, n))))
        return None

    def method(self, fo, m, args, st, where):
        C = lambda n, *a: ('call', n, tuple(self.I.deep(st, x) for x in a))
        if m == 'parse':
            return self.I.call_value(args[0], [args[1]], st, where)
        if m == 'map':
            return [('ret', C('nom::combinator::map', *args), st)]
        if m == 'and':
            return [('ret', C('nom::sequence::pair', *args), st)]
        if m == 'or':
            return [('ret', C('nom::branch::alt', tup(*args)), st)]
        if m == 'and_then':
            return [('ret', C('nom::combinator::map_parser', *args), st)]
        if m == 'flat_map':
            return [('ret', C('nom::combinator::flat_map', *args), st)]
        if m == 'into':
            return [('ret', args[0], st)]
        return None

    def apply_opaque(self, f, args, st, where):
        I = self.I
        if f[0] == 'call' and isinstance(f[1], str) and f[1].startswith('nom::') and len(args) == 1:
            return self.comb(f, args, st, where)
        return [('ret', ('apply', I.deep(st, f), tuple(I.deep(st, a) for a in args)), st)]

    def called(self, st, prim, p):
        if not self.logging:
            return st
        st = st.copy()
        st.ghost = Log((st.ghost.calls if st.ghost is not None else ()) + ((prim, p),))
        return st

    def rule(self, key, p, st, where):
        """a parser function that is already being evaluated: kept as a name"""
        prim = ('rule', key)
        n = len(self.I.stack) - 1 - self.I.stack[::-1].index(key)
        start = self.I.frames[n][0]
        self.reentries.append((prim, p, start[1] if start[0] == 'rest' else None, dict(st.conds), where, tuple(self.I.stack)))
        out = []
        st = self.called(st, prim, p)
        for v, s, q in self.fork(st, prim, p):
            out.append(('ret', self.okay(q, ('value', prim, p)) if v else self.FAIL, s))
        return out

    # -- parsers that take the input directly
    DIRECT = {
        'anychar': ('one', ANY), 'alpha0': ('run', ALPHA, 0), 'alpha1': ('run', ALPHA, 1), 'alphanumeric0': ('run', ALNUM, 0),
        'alphanumeric1': ('run', ALNUM, 1), 'digit0': ('run', DIGIT, 0), 'digit1': ('run', DIGIT, 1), 'space0': ('run', BLANK, 0),
        'space1': ('run', BLANK, 1), 'multispace0': ('run', NOM_WS, 0), 'multispace1': ('run', NOM_WS, 1),
        'newline': ('one', cs_chars('\n')), 'tab': ('one', cs_chars('\t')),
        'hex_digit0': ('run', cs_class('is_ascii_hexdigit'), 0), 'hex_digit1': ('run', cs_class('is_ascii_hexdigit'), 1),
    }

    def prim(self, name, args, st, where, fo):
        n = name.split('::')[-1]
        p = self.rest(args[0], st, where)
        if 'streaming' in name:
            raise Unsupported('streaming parser ' + name, where)
        if n in self.DIRECT:
            d = self.DIRECT[n]
            if d[0] == 'one':
                return self.one(d[1], p, st)
            return self.runp(d[1], d[2], p, st)
        if n == 'eof':
            return [('ret', self.FAIL if v else self.okay(p, ('s', '')), s) for v, s, q in self.fork(st, ('chr', ANY), p)]
        if n == 'rest':
            return self.runp(ANY, 0, p, st)
        if n == 'fail':
            return [('ret', self.FAIL, st)]
        raise Unsupported('parser ' + name, where)

    def one(self, cs, p, st):
        return [('ret', self.okay(q, ('charat', p)) if v else self.FAIL, s) for v, s, q in self.fork(st, ('chr', cs), p)]

    def runp(self, cs, least, p, st):
        out = []
        if least:
            for v, s, q in self.fork(st, ('chr', cs), p):
                if v:
                    e = self.end(s, ('run', cs), p)
                    out.append(('ret', self.okay(e, ('span', p, e)), s))
                else:
                    out.append(('ret', self.FAIL, s))
            return out
        e = self.end(st, ('run', cs), p)
        return [('ret', self.okay(e, ('span', p, e)), st)]

    def litp(self, prim, p, st):
        return [('ret', self.okay(q, ('span', p, q)) if v else self.FAIL, s) for v, s, q in self.fork(st, prim, p)]

    def charset(self, f, st, where):
        """the set of characters a predicate accepts"""
        I = self.I
        c = ('sym', 'c#')
        acc = ()
        f = I.deep(st, f)
        for k, v, s in I.call_value(f, [c], st, where):
            if k != 'ret':
                raise Unsupported('character predicate can panic', where)
            base = ((0, MAXC),)
            for (kk, t), b in s.conds.items():
                if (kk, t) in st.conds:
                    continue
                if kk != 'b':
                    raise Unsupported('character predicate on ' + show(t), where)
                x = self.atomset(t, where)
                base = r_inter(base, x if b else r_compl(x))
            v = I.deep(s, v)
            acc = r_union(acc, r_inter(base, self.atomset(v, where)))
        return cs_of(acc)

    def atomset(self, t, where):
        c = ('sym', 'c#')
        if t[0] == 'b':
            return ((0, MAXC),) if t[1] else ()
        if t[0] == 'op' and t[1] == 'not':
            return r_compl(self.atomset(t[2], where))
        if t[0] == 'op' and t[1] in ('and', 'or'):
            a, b = self.atomset(t[2], where), self.atomset(t[3], where)
            return r_inter(a, b) if t[1] == 'and' else r_union(a, b)
        if t[0] == 'op' and t[1] == 'eq' and t[2] == c and t[3][0] == 'i':
            return norm_ranges(((t[3][1], t[3][1]),))
        if t[0] == 'op' and t[1] == 'lt':
            if t[2] == c and t[3][0] == 'i':
                return ((0, t[3][1] - 1),) if t[3][1] > 0 else ()
            if t[3] == c and t[2][0] == 'i':
                return ((t[2][1] + 1, MAXC),) if t[2][1] < MAXC else ()
        if t[0] == 'call' and isinstance(t[1], str) and t[1].startswith('char::is_') and t[2] == (c,):
            s = cs_class(t[1][6:])
            if s is not None:
                return CS[s]
        if t[0] == 'call' and t[1] in ('str::contains', 'slice::contains') and t[2][1] == c and t[2][0][0] == 's':
            return CS[cs_chars(t[2][0][1])]
        raise Unsupported('character predicate ' + show(t)[:80], where)

    def charlist(self, v, st, where):
        """the characters of a token list (one_of, is_not, ...)"""
        v = self.I.deep(st, v)
        if v[0] == 's':
            return v[1]
        it = as_items(v)
        if it is not None and all(x[0] == 'i' for x in it):
            return ''.join(chr(x[1]) for x in it)
        raise Unsupported('token list ' + show(v)[:60], where)

    def text_prim(self, t, nocase):
        if t[0] == 's':
            return mk_lit(t[1], nocase) if t[1] else None
        return ('litof', t, nocase)

    def islit(self, f, st, where):
        """verify(take(n), |s| s.eq_ignore_ascii_case(t)) with n = length of t: the primitive"""
        if not (f[0] == 'call' and f[1] == 'nom::combinator::verify'):
            return None
        t, pred = f[2]
        if not (t[0] == 'call' and t[1] == 'nom::bytes::complete::take'):
            return None
        n = t[2][0]
        x = ('sym', 's#')
        outs = self.I.call_value(pred, [x], st, where)
        if len(outs) != 1 or outs[0][0] != 'ret':
            return None
        v = self.I.deep(outs[0][2], outs[0][1])
        txt = None
        if v[0] == 'call' and v[1] == 'eq_ignore_ascii_case' and x in v[2]:
            txt, nc = (v[2][1] if v[2][0] == x else v[2][0]), True
        elif v[0] == 'op' and v[1] == 'eq' and x in (v[2], v[3]):
            txt, nc = (v[3] if v[2] == x else v[2]), False
        if txt is None:
            return None
        if txt[0] == 's':
            if n == ('i', len(txt[1])) and txt[1].isascii() and txt[1]:
                return mk_lit(txt[1], nc)
            return None
        if n[0] in ('call', 'len', 'fold', 'op') and self.counts(n, txt):
            return ('litof', txt, nc)
        return None

    def counts(self, n, t):
        """n is the number of characters of t"""
        return n in (('len', ('chars', t)), ('call', 'Iterator::count', (('chars', t),)), ('call', 'Iterator::count', (('call', 'str::chars', (t,)),)))

    # -- combinators
    def comb(self, f, args, st, where):
        name, a = f[1], f[2]
        n = name.split('::')[-1]
        if 'streaming' in name:
            raise Unsupported('streaming parser ' + name, where)
        p = self.rest(args[0], st, where)
        R = lambda rs: [('ret', x, s) for x, s in rs]
        m = getattr(self, 'c_' + n, None)
        if m is None:
            raise Unsupported('parser ' + name, where)
        return m(a, p, st, where, f)

    def bad(self, kind, e=None):
        if kind == 'failure':
            return err(FAILURE) if e is None else err(e)
        return self.FAIL

    def seq(self, fs, p, st, where):
        """run parsers one after the other: [(kind, end, [values], state)]"""
        work = [('ok', p, [], st)]
        for f in fs:
            nxt = []
            for k, q, vs, s in work:
                if k != 'ok':
                    nxt.append((k, q, vs, s))
                    continue
                for k2, q2, v2, s2 in self.run(f, q, s, where):
                    nxt.append((k2, q2, vs + [v2], s2))
            work = nxt
        return work

    def seqr(self, fs, p, st, where, pick):
        return [('ret', self.okay(q, pick(vs)) if k == 'ok' else self.bad(k), s) for k, q, vs, s in self.seq(fs, p, st, where)]

    def c_preceded(self, a, p, st, w, f):
        return self.seqr(a, p, st, w, lambda v: v[1])

    def c_terminated(self, a, p, st, w, f):
        return self.seqr(a, p, st, w, lambda v: v[0])

    def c_delimited(self, a, p, st, w, f):
        return self.seqr(a, p, st, w, lambda v: v[1])

    def c_pair(self, a, p, st, w, f):
        return self.seqr(a, p, st, w, lambda v: tup(*v))

    def c_separated_pair(self, a, p, st, w, f):
        return self.seqr(a, p, st, w, lambda v: tup(v[0], v[2]))

    def c_tuple(self, a, p, st, w, f):
        return self.seqr(a[0][4], p, st, w, lambda v: tup(*v))

    def c_alt(self, a, p, st, w, f):
        fs = as_items(a[0]) if as_items(a[0]) is not None else a[0][4]
        out, work = [], [st]
        for g in fs:
            nxt = []
            for s in work:
                for k, q, v, s2 in self.run(g, p, s, w):
                    if k == 'ok':
                        out.append(('ret', self.okay(q, v), s2))
                    elif k == 'failure':
                        out.append(('ret', self.bad(k), s2))
                    else:
                        nxt.append(s2)
            work = nxt
        return out + [('ret', self.FAIL, s) for s in work]

    def c_map(self, a, p, st, w, f):
        out = []
        for k, q, v, s in self.run(a[0], p, st, w):
            if k != 'ok':
                out.append(('ret', self.bad(k), s))
                continue
            for k2, v2, s2 in self.I.call_value(a[1], [v], s, w):
                out.append((k2, self.okay(q, v2), s2) if k2 == 'ret' else (k2, v2, s2))
        return out

    def _mapr(self, a, p, st, w, good, adt_):
        out = []
        for k, q, v, s in self.run(a[0], p, st, w):
            if k != 'ok':
                out.append(('ret', self.bad(k), s))
                continue
            for k2, v2, s2 in self.I.call_value(a[1], [v], s, w):
                if k2 != 'ret':
                    out.append((k2, v2, s2))
                    continue
                for vi, s3 in self.I.fork_variant(s2, self.I.val(s2, v2), adt_):
                    if vi == good:
                        out.append(('ret', self.okay(q, self.I.project(self.I.val(s3, v2), ('f', good, 0), s3)), s3))
                    else:
                        out.append(('ret', self.FAIL, s3))
        return out

    def c_map_opt(self, a, p, st, w, f):
        return self._mapr(a, p, st, w, 1, OPTION)

    def c_map_res(self, a, p, st, w, f):
        return self._mapr(a, p, st, w, 0, RESULT)

    def c_value(self, a, p, st, w, f):
        return [('ret', self.okay(q, a[0]) if k == 'ok' else self.bad(k), s) for k, q, v, s in self.run(a[1], p, st, w)]

    def c_opt(self, a, p, st, w, f):
        return [('ret', self.okay(q, some(v)) if k == 'ok' else self.bad(k) if k == 'failure' else self.okay(p, NONE), s) for k, q, v, s in self.run(a[0], p, st, w)]

    def c_cond(self, a, p, st, w, f):
        out = []
        for b, s in self.I.fork_bool(st, a[0]):
            if not b:
                out.append(('ret', self.okay(p, NONE), s))
            else:
                out += [('ret', self.okay(q, some(v)) if k == 'ok' else self.bad(k), s2) for k, q, v, s2 in self.run(a[1], p, s, w)]
        return out

    def c_not(self, a, p, st, w, f):
        return [('ret', self.FAIL if k == 'ok' else self.bad(k) if k == 'failure' else self.okay(p, UNIT), s) for k, q, v, s in self.run(a[0], p, st, w)]

    def c_peek(self, a, p, st, w, f):
        return [('ret', self.okay(p, v) if k == 'ok' else self.bad(k), s) for k, q, v, s in self.run(a[0], p, st, w)]

    def c_recognize(self, a, p, st, w, f):
        return [('ret', self.okay(q, ('span', p, q)) if k == 'ok' else self.bad(k), s) for k, q, v, s in self.run(a[0], p, st, w)]

    def c_consumed(self, a, p, st, w, f):
        return [('ret', self.okay(q, tup(('span', p, q), v)) if k == 'ok' else self.bad(k), s) for k, q, v, s in self.run(a[0], p, st, w)]

    def c_cut(self, a, p, st, w, f):
        return [('ret', self.okay(q, v) if k == 'ok' else err(FAILURE), s) for k, q, v, s in self.run(a[0], p, st, w)]

    def c_complete(self, a, p, st, w, f):
        return self.I.call_value(a[0], [('rest', p)], st, w)

    def c_into(self, a, p, st, w, f):
        return self.I.call_value(a[0], [('rest', p)], st, w)

    def c_context(self, a, p, st, w, f):
        return self.I.call_value(a[1], [('rest', p)], st, w)

    def c_success(self, a, p, st, w, f):
        return [('ret', self.okay(p, a[0]), st)]

    def c_all_consuming(self, a, p, st, w, f):
        out = []
        for k, q, v, s in self.run(a[0], p, st, w):
            if k != 'ok':
                out.append(('ret', self.bad(k), s))
                continue
            for more, s2, _ in self.fork(s, ('chr', ANY), q):
                out.append(('ret', self.FAIL if more else self.okay(q, v), s2))
        return out

    def c_verify(self, a, p, st, w, f):
        pr = self.islit(f, st, w)
        if pr is not None:
            return self.litp(pr, p, st)
        out = []
        for k, q, v, s in self.run(a[0], p, st, w):
            if k != 'ok':
                out.append(('ret', self.bad(k), s))
                continue
            for k2, b, s2 in self.I.call_value(a[1], [v], s, w):
                if k2 != 'ret':
                    out.append((k2, b, s2))
                    continue
                for x, s3 in self.I.fork_bool(s2, self.I.val(s2, b)):
                    out.append(('ret', self.okay(q, v) if x else self.FAIL, s3))
        return out

    def c_flat_map(self, a, p, st, w, f):
        out = []
        for k, q, v, s in self.run(a[0], p, st, w):
            if k != 'ok':
                out.append(('ret', self.bad(k), s))
                continue
            for k2, g, s2 in self.I.call_value(a[1], [v], s, w):
                if k2 != 'ret':
                    out.append((k2, g, s2))
                else:
                    out += self.I.call_value(g, [('rest', q)], s2, w)
        return out

    # character level
    def c_tag(self, a, p, st, w, f):
        t = self.I.val(st, a[0])
        pr = self.text_prim(t, False)
        if pr is None:
            return [('ret', self.okay(p, ('s', '')), st)]
        return self.litp(pr, p, st)

    def c_tag_no_case(self, a, p, st, w, f):
        t = self.I.val(st, a[0])
        if ('tag_no_case', t) not in self.notes:
            self.notes.append(('tag_no_case', t, w))
        pr = self.text_prim(t, True)
        if pr is None:
            return [('ret', self.okay(p, ('s', '')), st)]
        return self.litp(pr, p, st)

    def c_char(self, a, p, st, w, f):
        c = self.I.val(st, a[0])
        if c[0] != 'i':
            raise Unsupported('char of ' + show(c), w)
        return self.one(cs_chars(chr(c[1])), p, st)

    def c_satisfy(self, a, p, st, w, f):
        return self.one(self.charset(a[0], st, w), p, st)

    def c_one_of(self, a, p, st, w, f):
        return self.one(cs_chars(self.charlist(a[0], st, w)), p, st)

    def c_none_of(self, a, p, st, w, f):
        return self.one(cs_not(self.charlist(a[0], st, w)), p, st)

    def c_is_not(self, a, p, st, w, f):
        return self.runp(cs_not(self.charlist(a[0], st, w)), 1, p, st)

    def c_is_a(self, a, p, st, w, f):
        return self.runp(cs_chars(self.charlist(a[0], st, w)), 1, p, st)

    def c_take_while(self, a, p, st, w, f):
        return self.runp(self.charset(a[0], st, w), 0, p, st)

    def c_take_while1(self, a, p, st, w, f):
        return self.runp(self.charset(a[0], st, w), 1, p, st)

    def c_take_till(self, a, p, st, w, f):
        return self.runp(cs_of(r_compl(CS[self.charset(a[0], st, w)])), 0, p, st)

    def c_take_till1(self, a, p, st, w, f):
        return self.runp(cs_of(r_compl(CS[self.charset(a[0], st, w)])), 1, p, st)

    def c_take(self, a, p, st, w, f):
        n = self.I.val(st, a[0])
        if n[0] == 'i':
            if n[1] == 0:
                return [('ret', self.okay(p, ('s', '')), st)]
            q = adv(p, n[1])
            return [('ret', self.okay(q, ('span', p, q)) if v else self.FAIL, s) for v, s, _ in self.fork(st, ('chr', ANY), adv(p, n[1] - 1))]
        return self.litp(('take', n), p, st)

    def c_take_until(self, a, p, st, w, f, least=0):
        t = self.I.val(st, a[0])
        if t[0] != 's' or not t[1]:
            raise Unsupported('take_until of ' + show(t), w)
        out = []
        for s0 in ([st] if not least else [s for v, s, _ in self.fork(st, mk_lit(t[1]), p) if not v] ):
            if len(t[1]) == 1:
                e = self.end(s0, ('run', cs_not(t[1])), p)
                out += [('ret', self.okay(e, ('span', p, e)) if v else self.FAIL, s) for v, s, _ in self.fork(s0, mk_lit(t[1]), e)]
            else:
                out += self.litp(('until', t[1]), p, s0)
        if least:
            out += [('ret', self.FAIL, s) for v, s, _ in self.fork(st, mk_lit(t[1]), p) if v]
        return out

    def c_take_until1(self, a, p, st, w, f):
        return self.c_take_until(a, p, st, w, f, 1)

    # loops over the remaining input
    def loop_hook(self, I, st, step, lid, live):
        import loops
        cl, I.cur_loop = I.cur_loop, None
        if cl is None:
            return loops.loop_fix(I, st, step, lid, live)
        b, fr, head, region, prep, lv = cl
        assigned = self.assigned(b, region)
        at_head = prep.live_in[head]
        pos = [c for c in assigned & at_head if I.val(st, st.cells.get((fr, c), ('undef',)))[0] == 'rest']
        if len(pos) != 1:
            return loops.loop_fix(I, st, step, lid, live)
        where = I.where(b, b['blocks'][head]['t'])
        pc = (fr, pos[0])
        lists, fixed = [], []
        for (f_, c), v in sorted(st.cells.items(), key=lambda x: x[0]):
            if f_ != fr or c == pos[0] or c not in lv:
                continue
            if c in prep.borrowed and (v == ('list', ()) or v[0] in ('list', 'lcat', 'lf', 'items')) and 'Vec<' in b['locals'][c]:
                lists.append((fr, c))
            elif c in at_head:
                fixed.append((c, I.deep(st, v)))
        f = ('ploop', b['path'], head, tuple(fixed))
        p = self.rest(st.cells[pc], st, where)
        if f in self.busy:
            self.reentries.append((('many', self.name(f)), p, self.busy[f], dict(st.conds), where, tuple(I.stack)))
            exits = self.exits.get(f)
            if exits is None:
                self.unknown.add(f)        # first find out how it ends by itself
                return []
        else:
            if f not in self.manys:
                at0 = ('sym', '@%d' % self.depth)
                s0 = st.copy()
                s0.conds, s0.ghost = {}, None
                s0.cells[pc] = ('rest', at0)
                for c in lists:
                    s0.cells[c] = ('mu', ('L', b['path'], head), c[1], ())
                tables = ('manys', 'ids', 'names', 'sigs', 'exits', 'rules')
                before = {t: dict(getattr(self, t)) for t in tables}
                nre, nnotes = len(self.reentries), len(self.notes)
                first = None
                for attempt in range(5):
                    self.depth += 1
                    self.busy[f] = at0
                    try:
                        outs = step(s0)
                    finally:
                        self.depth -= 1
                        del self.busy[f]
                    body, ex = [], {}
                    ms = {s0.cells[c] for c in lists}
                    for k, x, s in outs:
                        if any(contains(t, lambda y: y in ms) for (_, t), v in s.conds.items()):
                            raise Unsupported('loop over the input depends on what it has collected', where)
                        if k == 'cont':
                            q = self.rest(s.cells.get(pc, ('undef',)), s, where)
                            vs = []
                            for c in lists:
                                l = loops.strip_prefix(I.deep(s, s.cells[c]), s0.cells[c])
                                l = as_items(l[1]) if l is not None and l[0] == 'l' else None
                                if l is None or len(l) != 1:
                                    raise Unsupported('a round of a loop over the input does not add one item', where)
                                vs.append(l[0])
                            for c, v in s0.cells.items():
                                if c == pc or c in lists or s.cells.get(c) == v or c[0] == fr and c[1] not in at_head and c[1] in assigned:
                                    continue
                                raise Unsupported('loop over the input changes more than its position: ' + show(v)[:60], where)
                            body.append(('ok', q, vs[0] if len(vs) == 1 else tup(*vs), s))
                        elif k == 'exit':
                            if s.cells.get(pc) != s0.cells[pc] or any(s.cells.get(c) != s0.cells[c] for c in lists):
                                raise Unsupported('the last round of a loop over the input changes its state', where)
                            keep = {c: v for c, v in s.cells.items() if c != pc and c not in lists and (c[0] != fr or c[1] in prep.live_in[x] | prep.borrowed)}
                            x = self.onward(b, prep, x)
                            keep = {c: v for c, v in keep.items() if c[0] != fr or c[1] in prep.live_in[x] | prep.borrowed & prep.live_in[head]}
                            body.append(('err', None, None, s))
                            sig = (x, repr(sorted(keep.items(), key=repr)), repr(s.effects))
                            ex.setdefault(sig, []).append((x, s))
                        else:
                            raise Unsupported('loop over the input ends by ' + k, where)
                    if f not in self.unknown or first == set(ex):
                        break
                    first = set(ex)
                    for t in tables:
                        getattr(self, t).clear()
                        getattr(self, t).update(before[t])
                    del self.reentries[nre:]
                    del self.notes[nnotes:]
                    if not ex:
                        raise Unsupported('loop over the input does not end', where)
                    self.exits[f] = self.ways(ex, at0, fr)
                else:
                    raise Unsupported('recursive loop over the input whose ends depend on each other', where)
                self.unknown.discard(f)
                if not ex:
                    raise Unsupported('loop over the input does not end', where)
                self.store(f, Body(f, at0, body, where))
                self.exits[f] = self.ways(ex, at0, fr)
            exits = self.exits[f]
        n = self.name(f)
        q = ('end', ('many', n), p)
        st = self.called(st, ('many', n), p)
        out = []
        for x, s, a0, f0 in exits:
            s2 = st.copy()
            mp = {a0: q} if a0 else {}
            if s is not None:
                for c, v in s.cells.items():
                    d = (fr, c[1])
                    if c[0] == f0 and d not in lists and d != pc and (d not in s2.cells or c[1] in assigned):
                        if f0 != fr and contains(v, lambda y: y[0] == 'ref' and y[1][0] == f0):
                            raise Unsupported('recursive loop over the input that ends with a borrow', where)
                        s2.cells[d] = subst(v, mp)
                s2.fc = max(s2.fc, s.fc)
                dead = False
                for (k, t), v in s.conds.items():
                    s2.conds[(k, subst(t, mp))] = v
            s2.cells[pc] = ('rest', Know(s2.conds).norm(q))
            for i, c in enumerate(lists):
                it = ('items', n, p)
                if len(lists) > 1:
                    it = ('lf', it, (((), ('list', (('proj', ('elem', it), i),))),))
                s2.cells[c] = loops.mk_lcat(st.cells[c], it)
            out.append(('exit', x, s2))
        return out

    @staticmethod
    def ways(ex, at0, fr):
        if len(ex) == 1:
            x, s = next(iter(ex.values()))[0]
            s = s.copy()
            s.conds = {}
            return [(x, s, at0, fr)]
        return [(x, s, at0, fr) for l in ex.values() for x, s in l]

    @staticmethod
    def onward(b, prep, t):
        """skip blocks that only drop or assign values nobody reads"""
        for _ in range(50):
            bl = b['blocks'][t]
            if bl['t']['k'] not in ('goto', 'drop') or t in prep.loops:
                break
            n = bl['t']['t']
            if any(len(s['p']) != 1 or s['p'][0] in prep.live_in[n] | prep.borrowed for s in bl['s']):
                break
            if bl['t']['k'] == 'drop' and len(prep.pred[n]) == 1 and bl['t'].get('p', [0])[0] in prep.live_in[n]:
                break
            t = n
        return t

    @staticmethod
    def assigned(b, region):
        """locals assigned in a loop"""
        out = set()
        for bb in region:
            bl = b['blocks'][bb]
            for s in bl['s']:
                out.add(s['p'][0])
            if bl['t'].get('d'):
                out.add(bl['t']['d'][0])
        return out

    def store(self, f, b):
        self.manys[f] = b
        if f not in self.ids:
            sig = b.signature(self.I)
            other = self.sigs.get(sig)
            if other is not None:
                self.ids[f] = other
            else:
                self.sigs[sig] = self.name(f)

    # repetition
    def body(self, f, st, where):
        b = self.manys.get(f)
        if b is None:
            I = self.I
            at0 = ('sym', '@%d' % self.depth)
            self.depth += 1
            self.busy[f] = at0
            stack = I.stack
            s0 = st.copy()
            s0.conds, s0.ghost = {}, None
            try:
                outs = self.run(f, at0, s0, where)
            finally:
                self.depth -= 1
                del self.busy[f]
            b = Body(f, at0, outs, where)
            self.store(f, b)        # repetitions that do the same get the same name
        return b

    def name(self, f):
        f = self.I.deep(St0, f)
        if f not in self.ids:
            self.ids[f] = '#%d' % len(self.ids)
            self.names[self.ids[f]] = f
        return self.ids[f]

    def many(self, f, p, st, where):
        """(end, items) of the greedy repetition of f"""
        if f in self.busy:
            self.reentries.append((('many', self.name(f)), p, self.busy[f], dict(st.conds), where, tuple(self.I.stack)))
        else:
            self.body(f, st, where)
        return ('end', ('many', self.name(f)), p), ('items', self.name(f), p)

    def c_many0(self, a, p, st, w, f):
        q, v = self.many(a[0], p, st, w)
        st = self.called(st, q[1], p)
        return [('ret', self.okay(q, v), st)]

    def c_many0_count(self, a, p, st, w, f):
        q, v = self.many(a[0], p, st, w)
        st = self.called(st, q[1], p)
        return [('ret', self.okay(q, ('len', v)), st)]

    def folded(self, init, items, g, st, w):
        """folding g over the items of a repetition"""
        import loops
        I = self.I
        m = ('mu', ('fold', items), 'acc', ())
        cases = []
        s0 = st.copy()
        for k, v, s in I.call_value(g, [m, ('elem', items)], s0, w):
            if k != 'ret':
                raise Unsupported('folding can panic', w)
            r = loops.strip_prefix(I.deep(s, v), m)
            if r is None or s.effects != st.effects:
                raise Unsupported('fold of a repetition: ' + show(I.deep(s, v))[:80], w)
            d = tuple((a, x) for a, x in s.conds.items() if st.conds.get(a) is not x)
            if r[0] != '0':
                cases.append((r[0], d, r[1]))
        kinds = {c[0] for c in cases}
        if not kinds:
            return init
        if len(kinds) != 1 or 's' in kinds:
            raise Unsupported('fold of a repetition', w)
        body = loops.mk_lf(items, tuple(c[1:] for c in cases))
        init = I.deep(st, init)
        if 'l' in kinds:
            return loops.mk_lcat(init, body)
        return ('mapof', loops.mk_lcat(('pairs', init) if init[0] != 'mapof' else init[1], body))

    def c_fold_many0(self, a, p, st, w, f):
        q, items = self.many(a[0], p, st, w)
        st = self.called(st, q[1], p)
        out = []
        for k, v, s in self.I.call_value(a[1], [], st, w):
            out.append((k, self.okay(q, self.folded(v, items, a[2], s, w)) if k == 'ret' else v, s))
        return out

    def c_many1(self, a, p, st, w, f):
        out = []
        for k, q, v, s in self.run(a[0], p, st, w):
            if k != 'ok':
                out.append(('ret', self.bad(k), s))
            else:
                q2, v2 = self.many(a[0], p, s, w)
                s = self.called(s, q2[1], p)
                out.append(('ret', self.okay(q2, v2), s))
        return out

    def c_many1_count(self, a, p, st, w, f):
        return [(k, v if v[3] else self.okay(v[4][0][4][0][1], ('len', v[4][0][4][1])), s) for k, v, s in self.c_many1(a, p, st, w, f)]


class Body:
    """summary of one round of a repetition: outcomes (kind, end, value, state) from position `start`"""

    def __init__(self, f, start, outs, where):
        self.f, self.start, self.where = f, start, where
        self.outs = outs

    def signature(self, I):
        m = {self.start: ('sym', '@')}
        out = []
        for k, q, v, s in self.outs:
            c = norm_conds(s.conds)
            K = Know(c)
            t = (k, K.norm(q) if q is not None else None, norm_term(I.deep(s, v), K) if v is not None else None, tuple(sorted(c.items(), key=repr)), s.effects)
            out.append(repr(subst(t, m)))
        return tuple(sorted(out))


def strictly_after(p, q, K):
    """is position q known to lie behind p (at least one character)"""
    p, q = K.norm(p), K.norm(q)
    n = 0
    while q != p:
        b, o = split(q)
        if o and b == p:
            return True
        if o:
            n += 1
            q = b
            continue
        if q[0] != 'end':
            return False
        pr, r = q[1], q[2]
        if pr[0] == 'run' and K.decide(('chr', pr[1]), r) is True:
            n += 1
        if pr[0] == 'litof':
            n += 0
        q = r
    return n > 0
