"""C04, C05, C12: query construction, ways of running a query, re-querying a result."""
from .common import *


def query_shape(ctx):
    """(adt, index of the document field, of the filter field, mode fields) of the query type, found by declared types"""
    a = ctx.adt('Query')
    if a is None:
        return None
    v = ctx.F.adts[a]['variants'][0]
    doc = flt = None
    mode = []
    for i, t in enumerate(v['ftys']):
        if adt_of_type(t).split('::')[-1] == 'Soup':
            doc = i
        elif t == 'F':
            flt = i
        else:
            mode.append(i)
    if flt is None:
        ctx.bad('anchor:Query', 'the query type has no field holding its filter')
        return None
    return a, doc, flt, mode, len(v['ftys'])


def sym_query(ctx):
    q = query_shape(ctx)
    if q is None:
        return None
    a, doc, flt, mode, n = q
    f = [('sym', f'mode{i}') for i in range(n)]
    if doc is not None:
        f[doc] = ('sym', 'doc')
    f[flt] = ('sym', 'filter')
    return ('agg', 'adt', a, 0, tuple(f))


def is_soup_ref(s):
    return s.startswith('&') and adt_of_type(s).split('::')[-1] == 'Soup'


def builder_body(ctx, name, recv):
    pred = is_soup_ref if recv == 'doc' else (lambda s: adt_of_type(s).split('::')[-1] == 'Query')
    r = ctx.methods('Queryable', name, pred)
    if r:
        return r[0]
    return ctx.fn('Queryable::' + name)


def resolve_by_receiver(ctx, recv):
    """calls of Queryable's methods on the symbolic document go to &Soup's implementation"""
    def ic(I, fo, name, args, st, where):
        if 'trait' not in fo or fo['trait'].split('<')[0].split('::')[-1] not in ('Queryable', 'IntoIterator') or not args:
            return None
        a0 = I.val(st, args[0])
        tr = fo['trait'].split('<')[0].split('::')[-1]
        if a0 == ('sym', 'doc'):
            pred = is_soup_ref
        elif a0[0] == 'agg' and a0[1] == 'adt' and a0[2].split('::')[-1] == 'Query':
            pred = lambda s: adt_of_type(s).split('::')[-1] == 'Query'
        else:
            return None
        r = ctx.methods(tr, fo['name'], pred)
        if not r and tr == 'Queryable':
            r = [b for b in ctx.F.local() if b['kind'] == 'fn' and b.get('root') and strip_generics(b['path']).endswith('Queryable::' + fo['name'])]
        if len(r) != 1 or r[0]['key'] in I.stack:
            return None
        return I.exec_body(r[0]['key'], args, st)
    return lambda I: I.intercept.append(ic)


def build(ctx, name, recv, args):
    """the query value a builder method produces: (value, interp, body) or None"""
    b = builder_body(ctx, name, recv)
    self_ = ('sym', 'doc') if recv == 'doc' else sym_query(ctx)
    if b is None or self_ is None:
        return None
    outs, I = ctx.run(b, [self_] + args, setup=resolve_by_receiver(ctx, recv))
    if outs is None:
        return None
    rets = ctx.rets(outs, b)
    vals = []
    for v, s in rets:
        v = I.deep(s, v)
        if v not in vals:
            vals.append(v)
    if len(vals) != 1:
        ctx.bad(f'builder:{recv}.{name}', f'{name}() on a {recv} has {len(vals)} different results: ' + ' | '.join(show(x) for x in vals), b['span'])
        return None
    return vals[0], I, b


def built_filter(ctx, name, recv, args):
    """(the filter conjoined by the builder, where)"""
    r = build(ctx, name, recv, args)
    q = query_shape(ctx)
    if r is None or q is None:
        return None
    v, I, b = r
    a, doc, flt, mode, n = q
    if v[0] != 'agg' or v[2] != a:
        ctx.bad(f'builder:{recv}.{name}', f'{name}() on a {recv} yields {show(v)}, not a query', b['span'])
        return None
    f = v[4][flt]
    prev = UNIT if recv == 'doc' else ('sym', 'filter')
    parts = conjuncts(f)
    if prev not in parts and not (recv == 'doc'):
        ctx.bad(f'builder:{recv}.{name}', f'{name}() on a {recv} drops the filters added before: {show(f)}', b['span'])
        return None
    rest = [p for p in parts if p != prev]
    if len(rest) != 1:
        ctx.bad(f'builder:{recv}.{name}', f'{name}() on a {recv} adds {len(rest)} filters: {show(f)}', b['span'])
        return None
    return rest[0], b['span']


def conjuncts(f):
    if f[0] == 'agg' and f[1] == 'adt' and f[2].split('::')[-1] == 'And':
        return conjuncts(f[4][0]) + conjuncts(f[4][1])
    return [f]


BUILDERS = (('tag', 1), ('attr', 2), ('attr_name', 1), ('attr_value', 1), ('class', 1))


@prop('C04')
def c04(ctx):
    """Value-flow summary of every builder method (on a document and on a query with symbolic mode and filter): the new
    filter is the conjunction of the old one with exactly the specified filter over the patterns passed; document and
    mode are untouched; strict() and recursive() replace the mode by a constant and keep document and filter."""
    q = query_shape(ctx)
    if q is None:
        return
    a, doc, flt, mode, n = q
    P, Q = ('sym', 'P'), ('sym', 'Q')
    sq = sym_query(ctx)
    want = {'tag': lambda: ctx.struct('Tag', tag=P), 'attr': lambda: ctx.struct('Attr', name=P, value=Q),
            'attr_name': lambda: ctx.struct('Attr', name=P, value=TRUE), 'attr_value': lambda: ctx.struct('Attr', name=TRUE, value=P),
            'class': lambda: ctx.struct('Attr', name=('s', 'class'), value=P)}
    # modes
    modes = {}
    for recv in ('doc', 'query'):
        for m in ('strict', 'recursive'):
            r = build(ctx, m, recv, [])
            if r is None:
                continue
            v, I, b = r
            key = f'mode:{recv}.{m}'
            if v[0] != 'agg' or v[2] != a:
                ctx.bad(key, f'{m}() on a {recv} yields {show(v)}', b['span'])
                continue
            f = v[4]
            if doc is not None and f[doc] != ('sym', 'doc'):
                ctx.bad(key, f'{m}() on a {recv} searches {show(f[doc])} instead of the document', b['span'])
                continue
            wf = UNIT if recv == 'doc' else ('sym', 'filter')
            if f[flt] != wf:
                ctx.bad(key, f'{m}() on a {recv} changes the filter to {show(f[flt])}', b['span'])
                continue
            ctx.ok('mode-switch', f'{m}() on a {recv} keeps document and filter')
            modes[(recv, m)] = tuple(f[i] for i in mode)
    for m in ('strict', 'recursive'):
        x, y = modes.get(('doc', m)), modes.get(('query', m))
        if x is None or y is None:
            continue
        if x != y or contains(x, lambda t: t[0] == 'sym' and str(t[1]).startswith('mode')):
            ctx.bad(f'mode:{m}', f'{m}() gives mode {show(x)} on a document but {show(y)} on a query')
        else:
            ctx.ok('mode-switch', f'{m}(): mode {show(x)} whatever the mode before')
    if modes.get(('doc', 'strict')) is not None and modes.get(('doc', 'strict')) == modes.get(('doc', 'recursive')):
        ctx.bad('mode', 'strict() and recursive() select the same mode')
    rec = modes.get(('doc', 'recursive'))
    for name, k in BUILDERS:
        for recv in ('doc', 'query'):
            key = f'builder:{recv}.{name}'
            args = [P, Q][:k]
            r = build(ctx, name, recv, args)
            if r is None:
                continue
            v, I, b = r
            if v[0] != 'agg' or v[2] != a:
                ctx.bad(key, f'{name}() on a {recv} yields {show(v)}, not a query', b['span'])
                continue
            f = v[4]
            if doc is not None and f[doc] != ('sym', 'doc'):
                ctx.bad(key, f'{name}() on a {recv} searches {show(f[doc])} instead of the document', b['span'])
                continue
            got = tuple(f[i] for i in mode)
            wm = rec if recv == 'doc' else tuple(sq[4][i] for i in mode)
            if got != wm:
                ctx.bad(key, f'{name}() on a {recv} leaves mode {show(got)}, specified is {show(wm)}', b['span'])
                continue
            prev = UNIT if recv == 'doc' else ('sym', 'filter')
            parts = [p for p in conjuncts(f[flt])]
            if recv != 'doc' and prev not in parts:
                ctx.bad(key, f'{name}() on a {recv} drops the filters added before: {show(f[flt])}', b['span'])
                continue
            rest = [p for p in parts if p != prev]
            w = want[name]()
            if rest != [w]:
                ctx.bad(key, f'{name}() on a {recv} adds {" and ".join(map(show, rest)) or "nothing"}, specified is {show(w)}', b['span'])
                continue
            ctx.ok('builder', f'{name}() on a {recv}: {show(f[flt])}')
    ctx.floor('builder', 10)
    ctx.floor('mode-switch', 6)
    # the conjunction means conjunction (the type And is what the builders use)
    from .filters import filter_value_matches
    A, B, node = ('sym', 'A'), ('sym', 'B'), ('sym', 'node')
    fm = lambda x: ('call', 'Filter::matches', (x, node))
    if ctx.adt('And'):
        filter_value_matches(ctx, 'filter:And', 'And', ctx.struct('And', _0=A, _1=B), lambda ask: ('b', ask.bool(fm(A)) and ask.bool(fm(B))), 'conjunction')


def one(ctx, body, args, key, what, setup=None):
    """single value of a function without effects"""
    if body is None:
        return None
    outs, I = ctx.run(body, args, setup=setup)
    if outs is None:
        return None
    vals = []
    for v, s in ctx.rets(outs, body):
        v = I.deep(s, v)
        if v not in vals:
            vals.append(v)
    if len(vals) != 1:
        ctx.bad(key, f'{what} has {len(vals)} different results: ' + ' | '.join(map(show, vals)), body['span'])
        return None
    return vals[0]


def summary(ctx, body, args, setup=None):
    """{(conditions, value)} of a function without effects"""
    if body is None:
        return None
    outs, I = ctx.run(body, args, setup=setup)
    if outs is None:
        return None
    return {(frozenset(s.conds.items()), I.deep(s, v)) for v, s in ctx.rets(outs, body)}


def showsum(m):
    return ' | '.join(sorted(show(v) + (f' when {showc(dict(c))}' if c else '') for c, v in m))


@prop('C05')
def c05(ctx):
    """The iterator states produced by Soup::iter, &Soup::into_iter, the unfiltered recursive query, all() and
    into_iter() of a query are computed from MIR and must be identical; first() is the first element of into_iter()
    on every path; Clone of a query copies every field."""
    q = query_shape(ctx)
    if q is None:
        return
    a, doc, flt, mode, n = q
    D = ('sym', 'doc')
    su = resolve_by_receiver(ctx, 'doc')
    soup_it = ctx.fn('Soup::iter')
    by_ref = ctx.method('IntoIterator', 'into_iter', is_soup_ref, 'IntoIterator for &Soup')
    q_into = ctx.method('IntoIterator', 'into_iter', lambda s: adt_of_type(s).split('::')[-1] == 'Query', 'IntoIterator for Query')
    v1 = summary(ctx, soup_it, [D], su)
    v2 = summary(ctx, by_ref, [D], su)
    qr = build(ctx, 'recursive', 'doc', [])
    v3 = summary(ctx, q_into, [qr[0]], su) if qr else None
    for nm, v in (('iterating &Soup', v2), ('an unfiltered recursive query', v3)):
        if v1 is None or v is None:
            continue
        if v == v1:
            ctx.ok('same-iterator', f'{nm} starts the same iteration as Soup::iter: {showsum(v)[:160]}')
        else:
            ctx.bad('same-iterator:' + nm, f'{nm} starts {showsum(v)}, Soup::iter starts {showsum(v1)}')
    sq = sym_query(ctx)
    base = summary(ctx, q_into, [sq], su)
    # all() on a query, on a document
    for recv, self_, ref in (('query', sq, base), ('doc', D, v2)):
        b = builder_body(ctx, 'all', recv)
        v = summary(ctx, b, [self_], su)
        if v is None or ref is None:
            continue
        if v == ref:
            ctx.ok('same-iterator', f'all() on a {recv} starts the same iteration as a for loop')
        else:
            ctx.bad(f'all:{recv}', f'all() on a {recv} starts {showsum(v)}, a for loop starts {showsum(ref)}', b['span'])
    # first(): the result of next() on a fresh into_iter(), nothing else
    for recv, self_, ref in (('query', sq, base), ('doc', D, v2)):
        b = builder_body(ctx, 'first', recv)
        if b is None or ref is None:
            continue
        def ic(I, fo, name, args, st, where):
            if fo.get('name') == 'next' and name == 'Iterator::next' and len(I.stack) >= 1:
                cur = I.deep(st, args[0])
                t = ('call', 'fresh-next', (cur,))
                if args[0][0] == 'ref':
                    st = st.copy()
                    I.store(st, args[0][1], args[0][2], ('call', 'advanced', (cur,)))
                return [('ret', t, st)]
            return None

        def setup(I):
            I.intercept.append(ic)
            su(I)
        outs, I = ctx.run(b, [self_], setup=setup)
        if outs is None:
            continue
        for v, s in ctx.rets(outs, b):
            v = I.deep(s, v)
            here = [x for c, x in ref if all(s.conds.get(a) == y for a, y in c)]
            nx = ('call', 'fresh-next', (here[0] if len(here) == 1 else UNIT,))
            good = v == nx
            if not good and s.conds.get(('var', nx)) == 0:
                good = v == NONE
            if not good and s.conds.get(('var', nx)) == 1:
                good = v == some(('pj', nx, 1, 0))
            if good:
                ctx.ok('first', f'first() on a {recv} is next() of a fresh iteration')
            else:
                ctx.bad(f'first:{recv}', f'first() on a {recv} yields {show(v)}, not the first element of the iteration, when {showc(s.conds)}', b['span'])
    # Clone
    cl = ctx.method('Clone', 'clone', lambda s: adt_of_type(s).split('::')[-1] == 'Query', 'Clone for Query')
    v = one(ctx, cl, [sq], 'clone', 'cloning a query')
    if v is not None:
        if v == sq:
            ctx.ok('clone', 'cloning a query copies every field')
        else:
            ctx.bad('clone', f'cloning a query gives {show(v)} for {show(sq)}', cl['span'])
    for b in ctx.methods('Clone', 'clone', lambda s: adt_of_type(s).split('::')[-1] in ('And', 'Or', 'Attr', 'Tag', 'QueryItem')):
        st = adt_of_type(b['impl_self'])
        fs = tuple(('sym', f'f{i}') for i in range(len(ctx.F.adts[st]['variants'][0]['fields'])))
        x = ('agg', 'adt', st, 0, fs)
        v = one(ctx, b, [x], 'clone:' + st.split('::')[-1], f'cloning {st}')
        if v is not None:
            if v == x:
                ctx.ok('clone', f'cloning {st.split("::")[-1]} copies every field')
            else:
                ctx.bad('clone:' + st.split('::')[-1], f'cloning {st} gives {show(v)}', b['span'])
    ctx.floor('same-iterator', 4)
    ctx.floor('first', 2)
    ctx.floor('clone', 1)


def clone_identity(ctx, names, rule):
    """Clone of these types reproduces the value, variant by variant"""
    for b in ctx.methods('Clone', 'clone', lambda s: adt_of_type(s).split('::')[-1] in names):
        st = adt_of_type(b['impl_self'])
        ad = ctx.F.adts[st]
        for i, var in enumerate(ad['variants']):
            x = ('agg', 'adt', st, i, tuple(('sym', f'f{j}') for j in range(len(var['fields']))))
            outs, I = ctx.run(b, [x])
            if outs is None:
                return
            for v, s in ctx.rets(outs, b):
                v = I.deep(s, v)
                if v == x:
                    ctx.ok(rule, f'clone of {var["name"]} keeps all of its {len(var["fields"])} fields')
                else:
                    ctx.bad(f'clone:{st.split("::")[-1]}::{var["name"]}', f'cloning {var["name"]} gives {show(v)} for {show(x)}', b['span'])


@prop('C12')
def c12(ctx):
    """QueryItem::query on an arbitrary result: the node list of the new document is exactly Node::children of the node
    the result dereferences to, copied by clones that are structural identities for every variant of the node types."""
    qi = ctx.adt('QueryItem')
    so = ctx.adt('Soup')
    if not qi or not so:
        return
    q = ctx.fn('QueryItem::query')
    de = ctx.method('Deref', 'deref', lambda s: adt_of_type(s) == qi, 'Deref for QueryItem')
    fs = ctx.F.adts[qi]['variants'][0]['fields']
    item = ('agg', 'adt', qi, 0, tuple(('sym', f'item{i}') for i in range(len(fs))))
    d = one(ctx, de, [item], 'deref', 'dereferencing a result')
    v = one(ctx, q, [item], 'query', 'QueryItem::query')
    if d is None or v is None:
        return
    if d[0] != 'sym':
        ctx.bad('deref', f'a result dereferences to {show(d)}, not to a node it stores', de['span'])
    else:
        ctx.ok('deref', f'a result dereferences to the node it stores')
    want = ('call', 'Node::children', (d,))
    if v[0] == 'agg' and v[2] == so and v[4] and want in v[4]:
        ctx.ok('requery', f'QueryItem::query: {show(v)} for the result {show(d)}')
    else:
        ctx.bad('requery', f'QueryItem::query gives a document of {show(v)}, specified is {show(want)}', q['span'])
    clone_identity(ctx, ('HTMLNode', 'XMLNode', 'XMLElement', 'Soup'), 'clone')
    ctx.floor('requery', 1)
    ctx.floor('clone', 13)
    # what next() hands out is a result storing the node that matched: decided with C03
