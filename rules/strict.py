"""C13-C16, C19: the language of the strict HTML parser.

The parser is summarised into splitting atoms over the input (engine/peg.py).  Each production below states, by the same
atoms, whether it matches at a position, where it ends and what it yields; every path of the code must agree with it.
"""
import re as _re
from .common import *
from . import trees
import peg
from peg import (Peg, Know, adv, split, mk_lit, cs_chars, cs_not, cs_of, ANY, ALNUM, ASCII_WS, CS, norm_term, norm_conds, at)

VOID = trees.VOID
RAW = ('script', 'style')
NAMECH = cs_not('\t\n\x0c\r />')
ATTRCH = cs_not('\t\n\x0c\r "\'>/=')
UNQCH = cs_not('\t\n\x0c\r "\'=<>`')
TEXTCH = cs_not('<')
CH = lambda c: ('chr', cs_chars(c))


class GAsk(Ask):
    def __init__(self, I, conds):
        super().__init__(I, conds)
        self.K = Know(conds)
        self.terms = None

    def at(self, prim, p):
        p = self.K.norm(p)
        r = self.K.decide(prim, p)
        if r is None:
            raise Fork(('b', at(prim, p)), (True, False))
        return r

    def norm(self, p):
        return self.K.norm(p)

    def run(self, cs, p):
        return self.K.norm(('end', ('run', cs), p))

    def until(self, text, p):
        """end of the text before the first occurrence, or None"""
        if len(text) == 1:
            e = self.run(cs_not(text), p)
            return e if self.at(mk_lit(text), e) else None
        p = self.norm(p)
        return ('end', ('until', text), p) if self.at(('until', text), p) else None


class Want:
    def __init__(self, prod, end=None, value=None, maybe=None):
        self.prod, self.end, self.value, self.maybe = prod, end, value, maybe


PROPS = {'comment': {'C16'}, 'doctype': {'C16'}, 'text': {'C16'}, 'void': {'C19'}, 'raw': {'C14'}, 'element': {'C14'}, 'none': set(),
         'attr': {'C15'}, 'rawchar': {'C14', 'C16'}}
VARIANT = {'Comment': 'comment', 'Doctype': 'doctype', 'Text': 'text', 'Void': 'void', 'RawElement': 'raw', 'Element': 'element'}


class Grammar:
    ALL = ('C13', 'C14', 'C15', 'C16', 'C19')

    def __init__(self, ctx):
        self.ctx = ctx
        self.found = []          # (props, key, message, where)
        self.done = []           # (props, rule, subject)
        self.roles = {}
        self.I = self.P = None
        self.logging, self.outs = False, []
        self.dst = ctx.adt('HTMLNode')

    def bad(self, props, key, msg, where=''):
        self.found.append((set(props), key, msg, where))

    def good(self, props, rule, subject):
        self.done.append((set(props), rule, subject))

    def variant(self, vname, /, **f):
        vi = trees.vindex(self.ctx, self.dst, vname)
        if vi is None:
            raise Infra(f'HTMLNode::{vname} not found')
        fs = trees.fields(self.ctx, self.dst, vi)
        if len(f) == 1 and '_' in f:
            return ('agg', 'adt', self.dst, vi, (f['_'],))
        return ('agg', 'adt', self.dst, vi, tuple(f[x] for x in fs))

    # -- productions ------------------------------------------------------
    def attr_at(self, a, p):
        w = a.run(ASCII_WS, p)
        if not a.at(('chr', ATTRCH), w):
            return Want('attr')
        n = a.run(ATTRCH, w)
        name = ('span', w, n)
        e = a.run(ASCII_WS, n)
        boolean = Want('attr', n, tup(name, ('s', '')))
        if not a.at(CH('='), e):
            return boolean
        v = a.run(ASCII_WS, adv(e, 1))
        if a.at(('chr', UNQCH), v):
            q = a.run(UNQCH, v)
            return Want('attr', q, tup(name, ('span', v, q)))
        for c in '\'"':
            if a.at(CH(c), v):
                q = a.until(c, adv(v, 1))
                return boolean if q is None else Want('attr', adv(q, 1), tup(name, ('span', adv(v, 1), q)))
        return boolean

    def tag_end(self, a, p):
        """attributes from p on and the closing bracket: (attribute map, end, self-closing) or None"""
        f = self.find(a, p, ('attrs',))
        w = a.run(ASCII_WS, ('end', ('many', f), p))
        m = ('mapof', ('items', f, p))
        if a.at(mk_lit('/>'), w):
            return m, adv(w, 2), True
        if a.at(CH('>'), w):
            return m, adv(w, 1), False
        return None

    def end_tag(self, a, p, name):
        """end of the end tag of `name` at p, or None"""
        if not a.at(mk_lit('</'), p):
            return None
        n = self.named(a, adv(p, 2), name)
        if n is None:
            return None
        w = a.run(ASCII_WS, n)
        return adv(w, 1) if a.at(CH('>'), w) else None

    def named(self, a, p, name):
        """end of an occurrence of the text `name` (letter case aside) at p"""
        prim = ('litof', name, True)
        return a.norm(('end', prim, a.norm(p))) if a.at(prim, p) else None

    def single_at(self, a, p):
        if not a.at(CH('<'), p):
            if not a.at(('chr', ANY), p):
                return Want('none')
            e = a.run(TEXTCH, p)
            return Want('text', e, self.variant('Text', _=('span', a.norm(p), e)))
        if a.at(mk_lit('<!--'), p):
            e = a.until('-->', adv(p, 4))
            return Want('comment') if e is None else Want('comment', adv(e, 3), self.variant('Comment', _=('span', adv(p, 4), e)))
        if a.at(mk_lit('<!doctype ', True), p):
            e = a.until('>', adv(p, 10))
            return Want('doctype') if e is None else Want('doctype', adv(e, 1), self.variant('Doctype', _=('span', adv(p, 10), e)))
        q = adv(p, 1)
        if not a.at(('chr', ALNUM), q):
            return Want('none')
        kind, e = 'element', None
        for k, names in (('void', VOID), ('raw', RAW)):
            for n in names:
                if kind == 'element' and a.at(mk_lit(n, True), q) and not a.at(('chr', NAMECH), adv(q, len(n))):
                    kind, e = k, adv(q, len(n))
        if e is None:
            e = a.run(NAMECH, q)
        name = ('span', q, e)
        t = self.tag_end(a, e)
        if t is None:
            return Want(kind)
        attrs, c, closed = t
        if kind == 'void':
            return Want(kind, c, self.variant('Void', name=name, attrs=attrs))
        if kind == 'raw':
            if closed:
                return Want(kind, c, self.variant('RawElement', name=name, attrs=attrs, content=('s', '')))
            f = self.find(a, c, ('raw', name))
            s = ('end', ('many', f), c)
            z = self.end_tag(a, s, name)
            if z is None:
                # no end tag anywhere behind c: no production can find one either
                return Want(kind, maybe=lambda conds: self.has_end_tag(conds, name, c))
            return Want(kind, z, self.variant('RawElement', name=name, attrs=attrs, content=('call', 'str::trim', (('span', c, s),))))
        if closed:
            return Want(kind, c, self.variant('Element', name=name, attrs=attrs, children=('list', ())))
        f = self.find(a, c, ('nodes',))
        z = self.end_tag(a, ('end', ('many', f), c), name)
        if z is None:
            return Want(kind)
        return Want(kind, z, self.variant('Element', name=name, attrs=attrs, children=('items', f, c)))

    def has_end_tag(self, conds, name, c):
        """the path assumes an end tag of `name` behind c"""
        K = Know(conds)
        for (k, t), v in conds.items():
            if k == 'b' and v and t[0] == 'at' and t[1] == ('litof', name, True):
                b, o = split(t[2])
                if o >= 2 and K.decide(mk_lit('</'), adv(b, o - 2)) is True and contains(adv(b, o - 2), lambda x: x == c):
                    w = K.norm(('end', ('run', ASCII_WS), ('end', t[1], t[2])))
                    if K.decide(CH('>'), w) is True:
                        return True
        return False

    def rawchar_at(self, a, p, name):
        if self.end_tag(a, p, name) is not None:
            return Want('rawchar')
        if not a.at(('chr', ANY), p):
            return Want('rawchar')
        return Want('rawchar', adv(p, 1), None)

    # -- repetitions -------------------------------------------------------
    def find(self, a, p, role):
        """the repetition this path performs at p in the given role"""
        p = a.norm(p)
        c = []
        for t in a.terms:
            if t[2] == p:
                f = t[1] if t[0] == 'items' else t[1][1]
                if isinstance(f, str) and f not in c:
                    c.append(f)
        for f in c:
            if self.shape(f) == role[0]:
                self.plays(f, role)
                return f
        # not performed on this path: whatever plays the role elsewhere
        for f, r in self.roles:
            if r == role:
                return f
        return ('no', role[0])

    def shape(self, f):
        """what kind of items a repetition yields"""
        b = self.P.manys.get(self.P.names[f])
        if b is None:
            return None
        for kind, q, v, s in b.outs:
            if kind == 'ok':
                v = self.I.deep(s, v)
                if v[0] == 'agg' and v[2] == self.dst:
                    return 'nodes'
                if v[0] == 'agg' and v[1] == 'tuple' and len(v[4]) == 2:
                    return 'attrs'
        return 'raw'

    def plays(self, f, role):
        k = (f, role)
        if k in self.roles:
            return
        b = self.P.manys.get(self.P.names[f])
        self.roles[k] = True
        what, props, spec = {
            'attrs': ('attribute', {'C15'}, lambda a, p: self.attr_at(a, p)),
            'nodes': ('node', None, lambda a, p: self.single_at(a, p)),
            'raw': ('raw content', {'C14', 'C16'}, lambda a, p: self.rawchar_at(a, p, role[1])),
        }[role[0]]
        self.compare(b.outs, b.start, spec, what, props, b.where)

    def compare(self, outs, start, spec, what, props, where):
        for kind, q, v, s in outs:
            if s.effects:
                self.bad(self.ALL, f'{what}:effect', f'{what}: changes state: {s.effects[0][:2]}', where)
            v = self.I.deep(s, v) if v is not None else None
            work = [dict(s.conds)]
            n = 0
            while work:
                conds = norm_conds(work.pop())
                n += 1
                if n > 3000:
                    self.bad(self.ALL, f'{what}:cases', f'{what}: too many cases', where)
                    return
                a = GAsk(self.I, conds)
                K = a.K
                end = K.norm(q) if q is not None else None
                val = trees.eta(norm_term(v, K)) if v is not None else None
                a.terms = [t for x in [val, end] + [c for _, c in conds] if x is not None for t in subterms(x) if t and len(t) == 3 and (t[0] == 'items' or t[0] == 'end' and t[1] and t[1][0] == 'many')]
                try:
                    w = spec(a, start)
                except Fork as f:
                    for o in f.opts:
                        d = dict(conds)
                        d[f.atom] = o
                        work.append(d)
                    continue
                self.judge(w, kind, end, val, K, conds, what, props, where)

    def judge(self, w, kind, end, val, K, conds, what, props, where):
        got = 'none'
        if kind == 'ok' and val[0] == 'agg' and val[2] == self.dst:
            got = VARIANT.get(self.ctx.vname(self.dst, val[3]), 'none')
        ps = set(props) if props else PROPS[w.prod] | PROPS[got if kind == 'ok' else w.prod]
        name = w.prod if w.prod != 'none' else got
        when = self.brief(conds)
        if kind == 'failure':
            self.bad(ps | {'C13'}, f'{what}:{name}:failure', f'{what}: fails for good instead of trying the other alternatives, {when}', where)
            return
        if w.maybe is not None:
            if kind == 'err' or w.maybe(conds):
                self.good(ps, 'path', f'{what} {w.prod}: fails {when}')
                return
        if w.end is None:
            if kind == 'err':
                self.good(ps or self.ALL, 'path', f'{what} {w.prod}: no match {when}')
            else:
                self.bad(ps | {'C13'} or self.ALL, f'{what}:{name}:accepts', f'{what}: yields {self.sh(val)} where nothing matches, {when}', where)
            return
        if kind == 'err':
            self.bad(ps | {'C13'}, f'{what}:{name}:rejects', f'{what}: no match, where {self.sh(w.value)} is specified, {when}', where)
            return
        wend = K.norm(w.end)
        if w.value is not None:
            wv = trees.eta(norm_term(w.value, K))
            if val != wv:
                if val[0] == 'agg' and wv[0] == 'agg' and val[2:4] == wv[2:4] and val[2] == self.dst:
                    vi = val[3]
                    for fn, x, y in zip(trees.fields(self.ctx, self.dst, vi), val[4], wv[4]):
                        if x != y:
                            fp = {'attrs': {'C15'}, 'content': {'C16', 'C14'}, 'children': {'C14'}, 'name': {'C14'}}.get(fn, set()) | (ps if fn == 'name' or w.prod in ('comment', 'doctype', 'text') else set())
                            if w.prod == 'void':
                                fp |= {'C19'}
                            self.bad(fp, f'{what}:{name}:{fn}', f'{what}: {fn} is {self.sh(x)}, specified is {self.sh(y)}, {when}', where)
                else:
                    self.bad(ps, f'{what}:{name}:value', f'{what}: yields {self.sh(val)} where {self.sh(wv)} is specified, {when}', where)
                return
        if end != wend:
            self.bad(ps | {'C13'}, f'{what}:{name}:end', f'{what}: {w.prod} ends at {self.sh(end)}, specified is {self.sh(wend)}, {when}', where)
            return
        self.good(ps, 'path', f'{what} {w.prod}: {self.sh(val)} {when}')

    def sh(self, t):
        return pretty(t)[:300] if t is not None else ''

    def brief(self, conds):
        out = []
        for (k, t), v in conds.items():
            if k == 'b' and t[0] == 'at':
                if v or t[1][0] == 'chr':
                    out.append(f'{"" if v else "no "}{pretty(t[1])} at {pretty(t[2])}')
            else:
                out.append(f'{pretty(t)}={v}')
        return 'when ' + ', '.join(out)[:400] if out else 'always'

    # -- the whole document --------------------------------------------------
    def go(self):
        ctx = self.ctx
        if self.dst is None:
            return
        p = ctx.method('Parser', 'parse', lambda s: adt_of_type(s).split('::')[-1] == 'StrictHTMLParser', 'StrictHTMLParser::parse')
        if not p:
            return
        self.where = p['span']
        p0 = ('sym', 'input')

        def setup(I):
            self.I = I
            self.P = Peg(I)
            self.P.logging = self.logging
        outs, I = ctx.run(p, [('rest', p0)], setup=setup)
        if outs is None:
            return
        self.outs = outs
        for kind, v, s in outs:
            if kind == 'panic':
                self.bad(self.ALL, 'document:panic', f'parsing can panic: {v[0]}', v[1])
                continue
            conds = norm_conds(dict(s.conds))
            K = Know(conds)
            val = trees.eta(norm_term(I.deep(s, v), K))
            work = [conds]
            while work:
                conds = norm_conds(work.pop())
                a = GAsk(I, conds)
                a.terms = [t for x in [val] + [c for _, c in conds] for t in subterms(x) if t and len(t) == 3 and (t[0] == 'items' or t[0] == 'end' and t[1] and t[1][0] == 'many')]
                try:
                    f = self.find(a, p0, ('nodes',))
                    more = a.at(('chr', ANY), ('end', ('many', f), p0))
                except Fork as fk:
                    for o in fk.opts:
                        d = dict(conds)
                        d[fk.atom] = o
                        work.append(d)
                    continue
                okv = val[0] == 'agg' and val[2] == RESULT and val[3] == 0
                if more:
                    if okv:
                        self.bad({'C13'}, 'document:leftover', f'parsing succeeds although input is left over: {self.sh(val)}', p['span'])
                    else:
                        self.good({'C13'}, 'document', 'left-over input is an error')
                    continue
                if not okv:
                    self.bad({'C13'}, 'document:rejects', f'parsing fails although all input was consumed, {self.brief(conds)}', p['span'])
                    continue
                L = val[4][0]
                items = ('items', f, p0)
                m = self.mapped(L, items)
                if m:
                    self.bad({'C13'}, 'document:nodes', f'the document holds {self.sh(L)}: {m}', p['span'])
                else:
                    self.good({'C13'}, 'document', f'all nodes: {self.sh(L)}')
                self.top = (L, items)
        for r, props in (('nodes', self.ALL), ('attrs', ('C15',)), ('raw', ('C14', 'C16'))):
            if not any(k[1][0] == r for k in self.roles) and not self.found:
                self.bad(props, f'role:{r}', f'no repetition of {r} found in the strict parser', p['span'])

    def mapped(self, L, items):
        """L has exactly one node for each item, in order"""
        if L == items:
            return None
        if L[0] != 'lf' or L[1] != items:
            return 'not one node per parsed node'
        e = ('elem', items)
        for k in range(len(self.ctx.F.adts[self.dst]['variants'])):
            n = self.ctx.vname(self.dst, k)
            cases = [(c, lt) for c, lt in L[2] if dict(c).get(('var', e), k) == k]
            atoms = sorted({a for c, _ in cases for a, v in c if a != ('var', e) and not valid_regex(a)}, key=repr)
            if len(atoms) > 6:
                return f'{n}: too many conditions'
            for bits in range(1 << len(atoms)):
                h = {a: bool(bits >> i & 1) if a[0] == 'b' else bits >> i & 1 for i, a in enumerate(atoms)}
                got = [lt for c, lt in cases if all(a == ('var', e) or valid_regex(a) and v == 0 or h.get(a) == v for a, v in c)]
                if len(got) != 1 or got[0][0] != 'list' or len(got[0][1]) != 1:
                    return f'{n} yields {" ".join(map(show, got)) or "nothing"}'
                v = got[0][1][0]
                if v != e and not (v[0] == 'agg' and v[2] == self.dst and v[3] == k or v[0] == 'call' and isinstance(v[1], tuple) and v[1][0] == 'rec'):
                    return f'{n} becomes {show(v)[:80]}'
        return None


def valid_regex(a):
    """the condition that a constant regular expression compiles (decided by C22)"""
    return a[0] == 'var' and a[1][0] == 'call' and a[1][1] == 'Regex::new' and a[1][2][0][0] == 's'


def pretty(t):
    """positions and primitives for reports"""
    if not isinstance(t, tuple) or not t:
        return str(t)
    h = t[0]
    if h == 'sym':
        return 'start' if t[1].startswith('@') else t[1]
    if h == 'adv':
        return f'{pretty(t[1])}+{t[2]}'
    if h == 'end':
        return f'end({pretty(t[1])} from {pretty(t[2])})'
    if h == 'chr' and len(t) == 2:
        return t[1]
    if h == 'lit' and len(t) == 3:
        return repr(t[1]) + ('i' if t[2] else '')
    if h == 'run' and len(t) == 2:
        return t[1] + '*'
    if h == 'until':
        return f'until {t[1]!r}'
    if h == 'litof':
        return f'text of {pretty(t[1])}'
    if h == 'many':
        return f'repeat{t[1]}'
    if h == 'span':
        return f'text[{pretty(t[1])} .. {pretty(t[2])}]'
    if h == 'items':
        return f'items{t[1]}@{pretty(t[2])}'
    if h == 'agg' and t[1] in ('adt', 'tuple'):
        n = (t[2] or '').split('::')[-1]
        return f'{n}{"#" + str(t[3]) if n else ""}(' + ', '.join(map(pretty, t[4])) + ')'
    if h == 'mapof':
        return f'map of {pretty(t[1])}'
    if h == 'call' and t[1] == 'str::trim':
        return pretty(t[2][0]) + '.trim()'
    return show(t)


def grammar(ctx, pid):
    g = Grammar(ctx)
    g.go()
    for props, rule, subject in g.done:
        if pid in props:
            ctx.ok(rule, subject)
    for props, key, msg, where in g.found:
        if pid in props:
            ctx.bad(key, msg, where)
    return g


@prop('C13')
def c13(ctx):
    """Grammar of the strict parser extracted from the combinators: success exactly when the repetition of nodes reaches the
    end of input, one node per parsed node, productions neither accept nor reject anything but what is specified."""
    g = grammar(ctx, 'C13')
    for props, rule, subject in g.done:
        if rule == 'path' and 'C13' not in props:
            ctx.ok('production', subject)
    trees.entry(ctx, 'html_strict', 'StrictHTMLParser', 'result')
    trees.soup_new(ctx)
    ctx.floor('document', 2)
    ctx.floor('production', 40)
    ctx.floor('entry', 4)


@prop('C14')
def c14(ctx):
    """Grammar of the strict parser: start tag, name, children and end tag of elements and raw elements on every path."""
    grammar(ctx, 'C14')
    ctx.floor('path', 20)


@prop('C15')
def c15(ctx):
    """Grammar of the strict parser: the repetition of attributes, name and value of each form on every path."""
    grammar(ctx, 'C15')
    ctx.floor('path', 8)


@prop('C16')
def c16(ctx):
    """Grammar of the strict parser: extent and content of text, comments, doctypes and raw content on every path."""
    grammar(ctx, 'C16')
    ctx.floor('path', 8)


@prop('C19')
def c19(ctx):
    """Void element names: grammar of the strict parser (whole names, any case) and conversion of the lenient parser."""
    grammar(ctx, 'C19')
    ctx.floor('path', 20)
    if trees.SN not in ctx.F.adts:
        ctx.bad('anchor:scraper', 'the scraper tree types are not used any more')
        return
    trees.lenient_paths(ctx, trees.lenient_conversion(ctx), 'lenient-void')
    ctx.floor('lenient-void', 30)
