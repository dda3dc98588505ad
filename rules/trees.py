"""C20, C21: conversion of the trees delivered by the lenient HTML parser and the XML reader."""
from .common import *

VOID = ('area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'source', 'track', 'wbr')


def wrapped(ty):
    """(wrapper, inner type) of a return type"""
    h = adt_of_type(ty)
    for w, n in (('result', RESULT), ('option', OPTION)):
        if h == n:
            inner = ty[ty.index('<') + 1:]
            return w, inner
    if h == 'std::vec::Vec':
        return 'list', ty[ty.index('<') + 1:]
    return 'plain', ty


def cut_functions(ctx, src, dst):
    """local functions src -> dst (also wrapped in Option, Result or Vec): {key: wrapper}"""
    out = {}
    for b in ctx.F.bodies.values():
        if b['crate'] != 'soupy' or b['kind'] != 'fn' or b['argc'] != 1:
            continue
        if adt_of_type(b['locals'][1]) != src or (src.endswith('NodeRef') and 'scraper::Node' not in b['locals'][1]):
            continue
        w, inner = wrapped(b['locals'][0])
        if adt_of_type(inner) == dst:
            out[b['key']] = w
    return out


class Conversion:
    """evaluates conversion functions with calls to conversion functions kept as hypotheses"""

    def __init__(self, ctx, pairs, extra=None):
        self.ctx, self.pairs, self.extra = ctx, pairs, extra
        self.cuts = {}
        for kind, src, dst in pairs:
            for k, w in cut_functions(ctx, src, dst).items():
                self.cuts[k] = (kind, w)

    def intercept(self, I, fo, name, args, st, where):
        if self.extra:
            r = self.extra(I, fo, name, args, st, where)
            if r is not None:
                return r
        k = fo.get('key')
        if k in self.cuts and I.stack:
            kind, w = self.cuts[k]
            return [('ret', ('call', ('conv', kind, w, k), tuple(I.deep(st, a) for a in args)), st)]
        return None

    def run(self, body, args):
        outs, I = self.ctx.run(body, args, setup=lambda I: I.intercept.append(self.intercept))
        return outs, I


def eta(t):
    """(x.0, x.1) is x when x is an element of a list of pairs"""
    def f(n):
        if n and n[0] == 'agg' and n[1] == 'tuple' and len(n[4]) == 2:
            a, b = n[4]
            if a[0] == 'pj' and b[0] == 'pj' and a[1] == b[1] and a[2] is None and b[2] is None and (a[3], b[3]) == (0, 1) and a[1][0] == 'elem':
                return a[1]
        return n
    t = walk(t, f)

    def g(n):
        if n and n[0] == 'lf' and len(n) == 3 and len(n[2]) == 1 and n[2][0] == ((), ('list', (('elem', n[1]),))):
            return n[1]
        return n
    return walk(t, g)


def contributions(L, src, holds):
    """items a list value contributes for one element of src, under the assumption `holds(atom) -> bool|None`;
    None when the list is not a fold over src or a condition is not decided by the assumption"""
    if L == src:
        return [('elem', src)]
    if L[0] != 'lf' or L[1] != src:
        return None
    items = []
    for conds, lt in L[2]:
        act = True
        for (k, t), v in conds:
            h = holds((k, t))
            if h is None:
                return None
            if h != v:
                act = False
                break
        if act:
            items.append(lt)
    return items


# -- XML ---------------------------------------------------------------------
XE, XN = 'xmltree::Element', 'xmltree::XMLNode'


def fields(ctx, adt, vi=0):
    return ctx.F.adts[adt]['variants'][vi]['fields']


def vindex(ctx, adt, name):
    for i, v in enumerate(ctx.F.adts[adt]['variants']):
        if v['name'] == name:
            return i
    return None


def conv_of(v, kind, arg):
    """is v the (total) conversion of arg"""
    return v[0] == 'call' and isinstance(v[1], tuple) and v[1][0] == 'conv' and v[1][1] == kind and v[1][2] == 'plain' and v[2] == (arg,)


def xml_value(ctx, v, kind, arg, ask, st):
    """does v represent the converted arg?  returns None or a message"""
    if conv_of(v, kind, arg):
        return None
    if kind == 'element':
        dst = ctx.adt('XMLElement')
        if not (v[0] == 'agg' and v[2] == dst):
            return f'{show(v)} is not the converted element {show(arg)}'
        for i, f in enumerate(fields(ctx, dst)):
            if f not in fields(ctx, XE):
                return f'field {f} has no counterpart in the XML reader'
            s = ('pj', arg, None, fields(ctx, XE).index(f))
            x = v[4][i]
            if f == 'children':
                m = xml_list(ctx, x, s)
                if m:
                    return 'children: ' + m
            elif f == 'attributes':
                if eta(x) not in (('mapof', ('pairs', s)), s):
                    return f'attributes: {show(x)} is not the map of {show(s)}'
            elif x != s:
                return f'{f}: {show(x)} is not {show(s)}'
        return None
    dst = ctx.adt('XMLNode')
    k = ask.var(arg, tuple(range(len(ctx.F.adts[XN]['variants']))))
    n = ctx.vname(XN, k)
    d = vindex(ctx, dst, n)
    if d is None:
        return f'no kind of node represents {n}'
    if not (v[0] == 'agg' and v[2] == dst and v[3] == d):
        return f'{n} becomes {show(v)}'
    for i, x in enumerate(v[4]):
        s = ('pj', arg, k, i)
        if n == 'Element':
            m = xml_value(ctx, x, 'element', s, ask, st)
            if m:
                return m
        elif x != s:
            return f'{n}: field {i} is {show(x)}, not {show(s)}'
    return None


def xml_list(ctx, L, src):
    """L = every element of src converted, in order"""
    L = eta(L)
    if L[0] == 'call' and isinstance(L[1], tuple) and L[1][0] == 'conv' and L[1][1] == 'list' and L[2] == (src,):
        return None
    if L[0] != 'lf' or L[1] != src:
        return f'{show(L)} is not a conversion of the list {show(src)} element by element'
    e = ('elem', src)
    for k in range(len(ctx.F.adts[XN]['variants'])):
        def holds(a, k=k):
            return k if a == ('var', e) else None
        items = contributions(L, src, holds)
        if items is None:
            return f'{show(L)}: keeps nodes depending on more than their kind'
        n = ctx.vname(XN, k)
        if len(items) != 1 or items[0][0] != 'list' or len(items[0][1]) != 1:
            return f'{n} nodes contribute {" ".join(map(show, items)) or "nothing"}, exactly one node is specified'

        class A:
            def var(self, t, o=()):
                return k
        m = xml_value(ctx, items[0][1][0], 'node', e, A(), None)
        if m:
            return m
    return None


@prop('C21')
def c21(ctx):
    """Value-flow summaries of the XML conversion functions, each checked per variant and field with calls to other
    conversion functions as hypotheses (induction on the tree): every kind of node maps to the same kind, every element
    field to the same field, child lists element by element; parse() on both outcomes of the reader; Soup keeps it."""
    if XE not in ctx.F.adts or XN not in ctx.F.adts:
        ctx.bad('anchor:xmltree', 'the XML tree types are not used any more')
        return
    dn, de = ctx.adt('XMLNode'), ctx.adt('XMLElement')
    if not dn or not de:
        return
    c = Conversion(ctx, (('node', XN, dn), ('element', XE, de)))
    for k, (kind, w) in sorted(c.cuts.items()):
        b = ctx.F.bodies[k]
        nm = short(b['path'])
        if w != 'plain':
            ctx.bad(f'convert:{nm}', f'{nm} may fail to convert a node', b['span'])
            continue
        outs, I = c.run(b, [('sym', 'x')])
        if outs is None:
            continue

        for v, s in ctx.rets(outs, b):
            v = I.deep(s, v)
            work = [dict(s.conds)]
            while work:
                conds = work.pop()
                ask = Ask(I, conds)
                try:
                    m = xml_value(ctx, v, kind, ('sym', 'x'), ask, s)
                except Fork as f:
                    for o in f.opts:
                        d = dict(conds)
                        d[f.atom] = o
                        work.append(d)
                    continue
                if m is None:
                    ctx.ok('xml-conversion', f'{nm}: {show(v)[:160]} when {showc(conds)[:120]}')
                else:
                    ctx.bad(f'convert:{nm}:{m.split(":")[0][:40]}', f'{nm}: {m} (when {showc(conds)})', b['span'])
    cyclic(ctx, c)
    p = ctx.method('Parser', 'parse', lambda s: adt_of_type(s).split('::')[-1] == 'XMLParser', 'XMLParser::parse')
    if p:
        outs, I = c.run(p, [('sym', 'reader')])
        if outs is not None:
            src = ('call', 'Element::parse_all', (('sym', 'reader'),))
            seen = set()
            for v, s in ctx.rets(outs, p):
                v = I.deep(s, v)
                k = s.conds.get(('var', src))
                if k is None:
                    ctx.bad('xml-parse', f'XMLParser::parse yields {show(v)} whatever the reader delivers, when {showc(s.conds)}', p['span'])
                    continue
                seen.add(k)
                if k == 1:
                    if v == err(('pj', src, 1, 0)):
                        ctx.ok('xml-parse', f'reader error: {show(v)}')
                    else:
                        ctx.bad('xml-parse-error', f'XMLParser::parse yields {show(v)} when the reader reports an error', p['span'])
                    continue
                m = xml_list(ctx, v[4][0], ('pj', src, 0, 0)) if v[0] == 'agg' and v[2] == RESULT and v[3] == 0 else f'yields {show(v)}'
                if m is None:
                    ctx.ok('xml-parse', f'document: {show(v)[:200]}')
                else:
                    ctx.bad('xml-parse', f'XMLParser::parse: {m} (when {showc(s.conds)})', p['span'])
            if seen != {0, 1} and not ctx.viol:
                ctx.bad('xml-parse', 'XMLParser::parse does not distinguish success and failure of the reader', p['span'])
    entry(ctx, 'xml', 'XMLParser', 'result')
    soup_new(ctx)
    ctx.floor('xml-conversion', 6)
    ctx.floor('xml-parse', 2)
    ctx.floor('entry', 4)


def cyclic(ctx, c):
    """a conversion may rely on the conversion of parts only: its own argument again, in a circle, would be no induction"""
    x = ('sym', 'x')
    edges = {}
    for k in c.cuts:
        outs, I = c.run(ctx.F.bodies[k], [x])
        edges[k] = set()
        for kd, v, s in outs or ():
            if kd == 'ret':
                v = I.deep(s, v)
                for t in subterms(v) + [t for (_, a) in s.conds for t in subterms(a)]:
                    if t and t[0] == 'call' and len(t) == 3 and isinstance(t[1], tuple) and t[1][0] == 'conv' and t[2] == (x,):
                        edges[k].add(t[1][3])
    for k in edges:
        seen, work = set(), list(edges[k])
        while work:
            y = work.pop()
            if y == k:
                b = ctx.F.bodies[k]
                ctx.bad(f'convert:{short(b["path"])}:self', f'{short(b["path"])} converts a node by converting the same node', b['span'])
                break
            if y not in seen:
                seen.add(y)
                work += edges.get(y, ())


# -- entry points ---------------------------------------------------------------
def parse_stub(ctx, seen):
    def ic(I, fo, name, args, st, where):
        if name == 'Parser::parse':
            a = tuple(I.deep(st, x) for x in args)
            seen.append((fo.get('selfty', ''), a))
            t = ('call', 'Parser::parse', a)
            return [('ret', t, st)]
        return None
    return ic


def soup_new(ctx):
    """Soup::new keeps exactly the nodes the parser returned, or its error"""
    b = ctx.fn('Soup::new')
    if b:
        check_entry(ctx, b, 'Soup::new', None, 'result')


def entry(ctx, name, parser, how):
    b = ctx.fn('Soup::' + name)
    if b:
        check_entry(ctx, b, 'Soup::' + name, parser, how)


def check_entry(ctx, b, what, parser, how):
    so = ctx.adt('Soup')
    seen = []
    outs, I = ctx.run(b, [('sym', 'input')], setup=lambda I: I.intercept.append(parse_stub(ctx, seen)))
    if outs is None or so is None:
        return
    if parser is not None and not any(adt_of_type(s).split('::')[-1] == parser for s, a in seen):
        ctx.bad(f'entry:{what}', f'{what} does not parse with {parser}', b['span'])
        return
    P = ('call', 'Parser::parse', (('sym', 'input'),))

    def spec(ask):
        k = ask.var(P)
        if k == 0:
            x = ('agg', 'adt', so, 0, (('pj', P, 0, 0),))
            return x if how == 'plain' else ok(x)
        return err(('pj', P, 1, 0)) if how == 'result' else None
    rets = []
    for k, v, s in outs:
        if k == 'panic' and how == 'plain' and s.conds.get(('var', P)) == 1:
            continue         # the error type of this parser has no value (C22)
        if k == 'panic':
            ctx.bad(f'entry:{what}', f'{what} can panic: {v[0]}', b['span'])
        elif k == 'ret':
            rets.append((v, s))
    if how == 'plain':
        rets = [(v, s) for v, s in rets if s.conds.get(('var', P)) != 1]
    check_paths(ctx, I, rets, spec, 'entry', what, f'entry:{what}', b['span'])


# -- lenient HTML ------------------------------------------------------------------
SN = 'scraper::Node'


def lenient_vocabulary(ctx):
    """equivalent ways to ask a scraper node about its kind and children, reduced to one"""
    vs = [v['name'] for v in ctx.F.adts[SN]['variants']]
    AS = {'as_' + ''.join('_' + c.lower() if c.isupper() and i else c.lower() for i, c in enumerate(n)): n for n in vs}
    IS = {'is_' + k[3:]: n for k, n in AS.items()}

    def ic(I, fo, name, args, st, where):
        h = fo.get('path', '') + ' ' + fo.get('rpath', '')
        if fo.get('crate') == 'soupy' or not args:
            return None
        n = fo.get('name') or name.split('::')[-1]
        if name.startswith('Node::') and 'scraper' in h and n in IS:
            v = I.deep(st, args[0])
            return [('ret', ('b', vs[k] == IS[n]), s) for k, s in I.fork_variant(st, v, SN)]
        if name.startswith('Node::') and 'scraper' in h and n in AS:
            v = I.deep(st, args[0])
            return [('ret', some(('pj', v, k, 0)) if vs[k] == AS[n] else NONE, s) for k, s in I.fork_variant(st, v, SN)]
        ch = lambda: ('call', 'NodeRef::children', (I.deep(st, args[0]),))
        if name == 'NodeRef::has_children':
            return [('ret', mk_lt(('i', 0), mk_len(ch())), st)]
        if name == 'NodeRef::first_child':
            c = ch()
            return [('ret', some(mk_idx(c, ('i', 0))) if v else NONE, s) for v, s in I.fork_bool(st, mk_lt(('i', 0), mk_len(c)))]
        if name == 'Doctype::name' and 'scraper' in h:
            return [('ret', ('pj', I.deep(st, args[0]), None, 0), st)]
        if n == 'deref' and 'trait' in fo and ('scraper::node::Text' in fo.get('selfty', '') or 'scraper::node::Comment' in fo.get('selfty', '')):
            return [('ret', ('pj', I.deep(st, args[0]), None, 0), st)]
        return None
    return ic


def kinds(ctx):
    return {i: v['name'] for i, v in enumerate(ctx.F.adts[SN]['variants'])}


KEPT = ('Doctype', 'Comment', 'Text', 'Element')


def value_of(n):
    return ('call', 'NodeRef::value', (n,))


def html_children(ctx, L, n, splice='must', depth=0):
    """L = the converted children of n, in order, contents of fragments spliced in; None or a message"""
    L = eta(L)
    if L[0] == 'call' and isinstance(L[1], tuple) and L[1][:3] == ('conv', 'node', 'children') and L[2] == (n,):
        return None
    src = ('call', 'NodeRef::children', (n,))
    e = ('elem', src)
    names = kinds(ctx)
    if L[0] != 'lf' or L[1] != src:
        return f'{show(L)} is not a conversion of {show(src)} child by child'
    for k, kn in names.items():
        def holds(a, k=k, kn=kn):
            if a == ('var', value_of(e)):
                return k
            kk, t = a
            if kk == 'var' and t[0] == 'call' and isinstance(t[1], tuple) and t[1][0] == 'conv' and t[2] == (e,):
                w = t[1][2]
                if w == 'result':
                    return 0 if kn in KEPT else 1
                if w == 'option':
                    return 1 if kn in KEPT else 0
            return None
        items = contributions(L, src, holds)
        if items is None:
            return f'{show(L)}: children are kept depending on more than their kind'
        if kn == 'Fragment' and splice != 'no':
            if splice == 'may' and not items:
                continue
            if len(items) == 1 and depth < 3:
                m = html_children(ctx, items[0], e, 'free', depth + 1)
                if m is None:
                    continue
                return 'contents of a template: ' + m
            if splice == 'free':
                continue          # a fragment within a fragment does not occur
            return f'the contents of a template (fragment) are dropped'
        if kn not in KEPT:
            for it in items:
                if it != ('list', ()):
                    return f'{kn} becomes {show(it)}'
            continue
        if len(items) != 1 or items[0][0] != 'list' or len(items[0][1]) != 1:
            return f'{kn} nodes contribute {" ".join(map(show, items)) or "nothing"}, exactly one node is specified'
        x = items[0][1][0]
        base = x[1] if x[0] == 'pj' else x
        good = False
        if base[0] == 'call' and isinstance(base[1], tuple) and base[1][0] == 'conv' and base[2] == (e,):
            w = base[1][2]
            good = x == {'result': ('pj', base, 0, 0), 'option': ('pj', base, 1, 0), 'plain': base}.get(w)
        if not good:
            class A:
                def __init__(self):
                    self.c = {('var', value_of(e)): k}

                def var(self, t, o=()):
                    if ('var', t) in self.c:
                        return self.c[('var', t)]
                    raise Infra('kind of ' + show(t))
            m = f'{kn} becomes {show(x)}'
            if kn != 'Element':
                m = html_node(ctx, x, e, A())
            if m:
                return m
    return None


def html_node(ctx, v, n, ask):
    """v = the node specified for the tree node n (known to be of a kept kind); None or a message"""
    dst = ctx.adt('HTMLNode')
    names = kinds(ctx)
    val = value_of(n)
    k = ask.var(val, tuple(names))
    kn = names[k]
    if v[0] == 'call' and isinstance(v[1], tuple) and v[1][0] == 'conv' and v[1][2] == 'plain' and v[2] == (n,):
        return None
    if v[0] != 'agg' or v[2] != dst:
        return f'{kn} becomes {show(v)}'
    got = ctx.vname(dst, v[3])
    payload = ('pj', val, k, 0)
    if kn in ('Doctype', 'Comment', 'Text'):
        if got != kn:
            return f'{kn} becomes {got}'
        if v[4] != (('pj', payload, None, 0),):
            return f'{kn} holds {show(v[4][0])}, not the text of the tree node'
        return None
    if kn != 'Element':
        return f'{kn} becomes {got}'
    name = ('call', 'Element::name', (payload,))
    isvoid = False
    for x in VOID:
        if ask.bool(mk_eq(name, ('s', x))):
            isvoid = True
            break
    kids = ('call', 'NodeRef::children', (n,))
    if isvoid and ask.bool(mk_lt(('i', 0), mk_len(kids))):
        isvoid = False
    want = 'Void' if isvoid else 'Element'
    if got != want:
        return f'an element {"with" if isvoid else "without"} a void name becomes {got}'
    f = dict(zip(fields(ctx, dst, v[3]), v[4]))
    if f.get('name') != name:
        return f'the element is named {show(f.get("name"))}'
    at = ('call', 'Element::attrs', (payload,))
    if eta(f.get('attrs')) != ('mapof', at):
        return f'the attributes are {show(eta(f.get("attrs")))}, specified is the map of {show(at)}'
    if want == 'Element':
        c = f['children']
        if c == ('list', ()):
            # nothing to keep when the node is known to have no children
            if ask.bool(mk_lt(('i', 0), mk_len(kids))):
                return 'the children are dropped'
            return None
        m = html_children(ctx, c, n)
        if m:
            return 'children: ' + m
    return None


def lenient_conversion(ctx):
    dst = ctx.adt('HTMLNode')
    nr = next((adt_of_type(t) for b in ctx.F.bodies.values() if b['crate'] == 'soupy' for t in b['locals'][:2] if 'ego_tree::NodeRef' in t and adt_of_type(t).endswith('NodeRef')), 'ego_tree::NodeRef')
    c = Conversion(ctx, (('node', nr, dst),), lenient_vocabulary(ctx))
    # a function to a list of nodes: the conversion of the node or of its children
    for k, (kind, w) in list(c.cuts.items()):
        if w == 'list':
            c.cuts[k] = (kind, 'children')
    return c


def lenient_paths(ctx, c, rule, only=None):
    n = ('sym', 'n')
    names = kinds(ctx)
    for k, (kind, w) in sorted(c.cuts.items()):
        b = ctx.F.bodies[k]
        nm = short(b['path']).split('>>')[0][-60:]
        outs, I = c.run(b, [n])
        if outs is None:
            continue
        for v, s in ctx.rets(outs, b):
            v = I.deep(s, v)
            if w == 'children':
                m = html_children(ctx, v, n)
                if m:
                    ctx.bad(f'lenient:{nm}', f'{nm}: {m} (when {showc(s.conds)})', b['span'])
                else:
                    ctx.ok(rule, f'{nm}: {show(v)[:160]}')
                continue
            work = [dict(s.conds)]
            while work:
                conds = work.pop()
                ask = Ask(I, conds)
                try:
                    kk = ask.var(value_of(n), tuple(names))
                    kn = names[kk]
                    if kn in KEPT:
                        x = None
                        if w == 'plain':
                            x = v
                        elif w == 'result' and v[0] == 'agg' and v[2] == RESULT and v[3] == 0 or w == 'option' and v[0] == 'agg' and v[2] == OPTION and v[3] == 1:
                            x = v[4][0]
                        m = f'{kn} is dropped: {show(v)}' if x is None else html_node(ctx, x, n, ask)
                    else:
                        m = None
                        if w == 'result' and not (v[0] == 'agg' and v[3] == 1) or w == 'option' and v != NONE:
                            m = f'{kn} becomes {show(v)}'
                except Fork as f:
                    for o in f.opts:
                        d = dict(conds)
                        d[f.atom] = o
                        if f.atom[0] == 'b':
                            st = St()
                            st.conds = dict(conds)
                            if I.assume(st, f.atom[1], o) is None:
                                continue
                        work.append(d)
                    continue
                if m is None:
                    ctx.ok(rule, f'{nm}: {show(v)[:120]} when {showc(conds)[:160]}')
                else:
                    ctx.bad(f'lenient:{nm}:{m[:48]}', f'{nm}: {m} (when {showc(conds)})', b['span'])


@prop('C20')
def c20(ctx):
    """Value-flow summaries of the conversion from the html5ever tree, per kind of node and per void name, with calls to
    conversion functions as hypotheses (induction on the tree): kind, name, attribute map, text and the child list,
    child by child, with template contents spliced in; parse() and Soup::html keep the result and never fail."""
    if SN not in ctx.F.adts:
        ctx.bad('anchor:scraper', 'the scraper tree types are not used any more')
        return
    c = lenient_conversion(ctx)
    lenient_paths(ctx, c, 'lenient-conversion')
    cyclic(ctx, c)
    p = ctx.method('Parser', 'parse', lambda s: adt_of_type(s).split('::')[-1] == 'LenientHTMLParser', 'LenientHTMLParser::parse')
    if p:
        outs, I = c.run(p, [('sym', 'text')])
        hi = fields(ctx, 'scraper::Html')
        doc = ('call', 'Html::parse_document', (('call', 'AsRef::as_ref', (('sym', 'text'),)),))
        root = ('call', 'Tree::root', (('pj', doc, None, hi.index('tree')),))
        for v, s in ctx.rets(outs or [], p):
            v = I.deep(s, v)
            if not (v[0] == 'agg' and v[2] == RESULT and v[3] == 0):
                ctx.bad('lenient-parse', f'LenientHTMLParser::parse yields {show(v)} when {showc(s.conds)}', p['span'])
                continue
            m = html_children(ctx, v[4][0], root, 'may')
            if m:
                ctx.bad('lenient-parse', f'LenientHTMLParser::parse: {m} (when {showc(s.conds)})', p['span'])
            else:
                ctx.ok('lenient-parse', show(v)[:200])
    entry(ctx, 'html', 'LenientHTMLParser', 'plain')
    soup_new(ctx)
    ctx.floor('lenient-conversion', 30)
    ctx.floor('lenient-parse', 1)
    ctx.floor('entry', 3)
