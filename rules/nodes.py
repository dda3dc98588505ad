"""C10, C11: what nodes report."""
from .common import *
import loops

HTML = {   # variant: name, attrs, children, text  (field names)
    'Comment': (None, None, None, None), 'Doctype': (None, None, None, None),
    'Element': ('name', 'attrs', 'children', None), 'RawElement': ('name', 'attrs', None, None),
    'Void': ('name', 'attrs', None, None), 'Text': (None, None, None, '0'),
}
XML = {
    'Element': ('0.name', '0.attributes', '0.children', None), 'Comment': (None,) * 4, 'CData': (None,) * 4,
    'Text': (None, None, None, '0'), 'ProcessingInstruction': (None,) * 4,
}
ACC = ('name', 'attrs', 'children', 'text')


def field(ctx, adt, vi, base, path):
    t = base
    cur = (adt, vi)
    for f in path.split('.'):
        fs = ctx.F.adts[cur[0]]['variants'][cur[1]]['fields']
        if f not in fs:
            return None
        i = fs.index(f)
        en = ctx.F.adts[cur[0]]['kind'] == 'enum'
        ty = ctx.F.adts[cur[0]]['variants'][cur[1]]['ftys'][i]
        t = ('pj', t, cur[1] if en else None, i)
        cur = (adt_of_type(ty), 0)
    return t


def as_list(v):
    if v[0] == 'iter' and len(v) == 3 and v[2] in (('i', 0), 0):
        return v[1]
    return v


def accessor(ctx, b, adt, table, what, self_term=('sym', 'node')):
    """per-variant check of one accessor-like body; what = name|attrs|children|text|iter"""
    outs, I = ctx.run(b, [self_term])
    if outs is None:
        return
    col = ACC.index('children' if what == 'iter' else what)
    tn = adt.split('::')[-1]
    rets = ctx.rets(outs, b)
    for v, s in rets:
        v = as_list(I.deep(s, v))
        if what == 'iter' and isinstance(v, tuple) and v[0] == 'iter':
            v = v[1] if v[2] in (0, ('i', 0)) else v
        ks = s.conds.get(('var', self_term))
        for vi in ([ks] if ks is not None else range(len(ctx.F.adts[adt]['variants']))):
            vn = ctx.vname(adt, vi)
            key = f'{what}:{tn}::{vn}'
            if vn not in table:
                ctx.bad(key, f'{tn}::{vn} is not a kind of node the specification knows', b['span'])
                continue
            f = table[vn][col]
            if f is None:
                want = ('list', ()) if what in ('children', 'iter') else NONE
            else:
                t = field(ctx, adt, vi, self_term, f)
                if t is None:
                    ctx.bad(key, f'{tn}::{vn} has no field {f}', b['span'])
                    continue
                want = t if what in ('children', 'iter') else some(t)
            if v == want:
                ctx.ok('accessor', f'{tn}::{vn}: {what}() is {show(v)}')
            else:
                ctx.bad(key, f'{what}() of {tn}::{vn} yields {show(v)}, specified is {show(want)}', b['span'])


def node_impls(ctx):
    r = {}
    for nm, table in (('HTMLNode', HTML), ('XMLNode', XML)):
        a = ctx.adt(nm)
        if a:
            r[nm] = (a, table)
    return r


@prop('C10')
def c10(ctx):
    """Every accessor of every node type, per variant: the value-flow summary of the MIR is compared with the table
    (variant, accessor) -> field or nothing; get() is the lookup of exactly the name passed; iteration is over children."""
    for nm, (a, table) in node_impls(ctx).items():
        for acc in ACC:
            b = ctx.method('Node', acc, lambda s: adt_of_type(s) == a, f'{acc} of {nm}')
            if b:
                accessor(ctx, b, a, table, acc)
        it = [b for b in ctx.F.local() if b['kind'] == 'fn' and b.get('root') and strip_generics(b['path']).endswith(nm + '::iter')]
        if len(it) == 1:
            accessor(ctx, it[0], a, table, 'iter')
        else:
            ctx.bad(f'anchor:{nm}::iter', f'{nm}::iter: {len(it)} found')
        ii = ctx.method('IntoIterator', 'into_iter', lambda s: s.startswith('&') and adt_of_type(s) == a, f'IntoIterator for &{nm}')
        if ii:
            accessor(ctx, ii, a, table, 'iter')
        for o in ('get', 'descendants', 'all_text'):
            for b in ctx.methods('Node', o, lambda s: adt_of_type(s) == a):
                if o == 'get':
                    check_get(ctx, b, nm, accessor_attrs(ctx, a, table))
                else:
                    ctx.bad(f'override:{nm}::{o}', f'{nm} overrides {o}: not covered by the specification', b['span'])
    g = ctx.fn('Node::get')
    if g:
        check_get(ctx, g, 'Node', None)
    ctx.floor('accessor', 6 * 6 + 6 * 5)
    ctx.floor('get', 2)


def accessor_attrs(ctx, a, table):
    return None


def check_get(ctx, b, nm, _):
    node, name = ('sym', 'node'), ('sym', 'name')
    outs, I = ctx.run(b, [node, name])
    if outs is None:
        return
    attrs = ('call', 'Node::attrs', (node,))

    def spec(ask):
        if ask.var(attrs) == 0:
            return NONE
        M = ('pj', attrs, 1, 0)
        t = ('call', 'BTreeMap::get', (M, ('call', 'From::from', (name,))))
        k = ask.known(t)
        if k is None:
            return t
        return NONE if k == 0 else some(('pj', t, 1, 0))
    check_paths(ctx, I, ctx.rets(outs, b), spec, 'get', f'{nm}::get', f'get:{nm}', b['span'])


@prop('C11')
def c11(ctx):
    """Node::all_text as a fold: the joined list must be, over the descendants of the node in order, the direct text of
    those that have one, and nothing else, joined by one newline."""
    node = ('sym', 'node')
    bodies = [b for b in ctx.F.local() if b['kind'] == 'fn' and b.get('root') and b.get('name') == 'all_text'
              and (strip_generics(b['path']).endswith('Node::all_text') or b.get('impl_trait', '').split('::')[-1] == 'Node')]
    if not bodies:
        ctx.bad('anchor:all_text', 'Node::all_text not found')
        return
    for b in bodies:
        outs, I = ctx.run(b, [node], setup=descendants_alias(ctx))
        if outs is None:
            continue
        D = ('call', 'Node::descendants', (node,))
        e = ('elem', D)
        tx = ('call', 'Node::text', (e,))
        ts = ('pj', tx, 1, 0)
        want = ('lf', D, (((((('var', tx), 1),)), ('list', (('call', 'ToString::to_string', (ts,)),))),))
        for v, s in ctx.rets(outs, b):
            v = I.deep(s, v)
            r = all_text_form(v, want, s)
            if r is True:
                ctx.ok('all-text', f'{show(v)}')
            else:
                ctx.bad('all-text', f'all_text yields {show(v)}: {r}', b['span'])
    ctx.floor('all-text', 1)


def subst_first(want, L):
    """the first item of the specified list, in terms of the list L it has one item each for"""
    x = want[2][0][1][1][0]
    y = L[2][0][1][1][0]
    f = ('idx', L, ('i', 0))
    return f if x == y else subst(x, {y: f})


def all_text_form(v, want, st):
    # no texts at all, or the first one and then the rest
    bound = {t[3][1]: x for (k, t), x in st.conds.items() if k == 'b' and t[:3] == ('op', 'lt', ('i', 0)) and t[3][0] == 'len' and len(t) == 4}
    for L, x in bound.items():
        if loops.aligned(L, want[1], want[2][0][0]):
            first = subst_first(want, L)
            if not x and v == ('s', ''):
                return True
            if x and v[0] == 'cat' and len(v[1]) == 2 and v[1][0] == first and v[1][1][0] == 'strcat':
                b = v[1][1][1]
                R = ('lop', 'skip', (L, ('i', 1)))
                if b == ('lf', R, (((), ('list', (mk_cat(('s', '\n'), subst(first, {('idx', L, ('i', 0)): ('elem', R)})),))),)):
                    return True
    if v[0] == 'join':
        if v[2] != ('s', '\n'):
            return f'the texts are joined with {show(v[2])}'
        if v[1] != want:
            return f'joins {show(v[1])}, specified is {show(want)}'
        return True
    return 'not the newline-joined list of the texts'


def descendants_alias(ctx):
    """an iterator equal to what descendants(y) starts with is the descendants of y"""
    from .iteration import template, match_template
    t = template(ctx)

    def ic(I, fo, name, args, st, where):
        if t is None or not args or not name.startswith(('Iterator::', 'IntoIterator::', 'FromIterator::', 'Extend::')):
            return None
        i = 1 if name == 'Extend::extend' else 0
        if i >= len(args):
            return None
        v = I.val(st, args[i])
        m = {}
        if v[0] == 'agg' and v[1] == 'adt' and v[2] == t[2] and match_template(t, I.deep(st, v), ('sym', '□'), m):
            x = ('iter', ('call', 'Node::descendants', (m['z'],)), ('i', 0))
            if args[i][0] == 'ref':
                I.store(st, args[i][1], args[i][2], x)
            else:
                args[i] = x
            v = x
        if v[0] == 'iter' and name.startswith('Iterator::') and v[1][0] == 'call' and v[1][1] == 'Node::descendants':
            m = I.models.get(name)
            return m(I, args, st, fo, where) if m else None
        return None
    return lambda I: I.intercept.append(ic)


def taken_apart(know):
    """what is known of equalities of tuples, said of their parts; [(facts)] one per way"""
    ways = [dict(know)]
    for a, x in know.items():
        if a[:2] == ('op', 'eq') and a[2][0] == 'agg' == a[3][0] and a[2][1:4] == a[3][1:4] and len(a[2][4]) == len(a[3][4]):
            ps = [mk_eq(p, q) for p, q in zip(a[2][4], a[3][4])]
            if x:
                ways = [{**w, **{p: True for p in ps}} for w in ways]
            else:
                ways = [{**w, p: False} for w in ways for p in ps]
    return ways


def same_cases(ctx, b, adt, negated=False):
    """eq (or ne) of one node type on every pair of kinds: true on exactly the paths where every part compared equal"""
    ad = ctx.F.adts[adt]
    tn = adt.split('::')[-1]
    for i, vi in enumerate(ad['variants']):
        fs = tuple(('sym', f'a{k}') for k in range(len(vi['fields'])))
        for j, vj in enumerate(ad['variants']):
            gs = tuple(('sym', f'b{k}') for k in range(len(vj['fields'])))
            outs, I = ctx.run(b, [('agg', 'adt', adt, i, fs), ('agg', 'adt', adt, j, gs)])
            if outs is None:
                return
            parts = [mk_eq(f, g) for f, g in zip(fs, gs)]
            subject = f'{tn}::{vi["name"]} and {tn}::{vj["name"]}' if len(ad['variants']) > 1 else f'two {tn}'
            good = True
            for v, s in ctx.rets(outs, b):
                v = I.deep(s, v)
                know = {a: x for (k, a), x in s.conds.items() if k == 'b'}
                if v[0] == 'not':
                    v, flip = v[1], True
                else:
                    flip = False
                ways = [(v[1], w) for w in taken_apart(know)] if v[0] == 'b' else [(x != flip, w) for x in (True, False) for w in taken_apart({**know, v: x})]
                for res, kn in ways:
                    res = res != negated
                    if i != j:
                        ok_ = res is False
                    elif res:
                        ok_ = all(kn.get(p) is True for p in parts)
                    else:
                        ok_ = any(kn.get(p) is False for p in parts)
                    if not ok_ and good:
                        good = False
                        names = [f'{n} {"equal" if kn.get(p) else "different" if p in kn else "not compared"}' for n, p in zip(vi['fields'], parts)] if i == j else ['they are different kinds']
                        ctx.bad(f'equal:{tn}::{vi["name"]}:{tn}::{vj["name"]}', f'{subject} are {"equal" if res else "different"} when {", ".join(names)}', b['span'])
            if good:
                ctx.ok('equality', f'{subject}: {"never equal" if i != j else "equal exactly when " + (" and ".join(vi["fields"]) or "always") + " are"}')


@prop('C27')
def c27(ctx):
    """PartialEq::eq of every node type evaluated on every pair of kinds with opaque parts: true on exactly the paths where
    each pair of parts compared equal, false where one differed or the kinds do; Clone is the structural identity."""
    from .query import clone_identity
    for nm in ('HTMLNode', 'XMLNode', 'XMLElement'):
        a = ctx.adt(nm)
        if a is None:
            continue
        e = ctx.method('PartialEq', 'eq', lambda s: adt_of_type(s) == a, f'PartialEq for {nm}')
        if e:
            same_cases(ctx, e, a)
        for b in ctx.methods('PartialEq', 'ne', lambda s: adt_of_type(s) == a):
            same_cases(ctx, b, a, True)
    clone_identity(ctx, ('HTMLNode', 'XMLNode', 'XMLElement', 'Soup'), 'clone')
    ctx.floor('equality', 36 + 25 + 1)
    ctx.floor('clone', 13)
