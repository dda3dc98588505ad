"""C06–C09: filters and patterns — decision trees over the atoms of the specification."""
from .common import *

HAY = ('call', 'AsRef::as_ref', (('sym', 'hay'),))


def pattern_impls(ctx):
    """{kind: (matches body, value body or None, impl_self)} of the local Pattern impls"""
    out = {}
    for b in ctx.methods('Pattern', 'matches'):
        s = b['impl_self']
        h = adt_of_type(s)
        kind = {'bool': 'bool', 'str': 'str', 'std::string::String': 'String', 'std::borrow::Cow': 'Cow', 'regex::Regex': 'Regex'}.get(h, s)
        v = [x for x in ctx.methods('Pattern', 'value') if x['impl_self'] == s]
        out[kind] = (b, v[0] if v else None, s)
    return out


def eval_matches(ctx, b):
    outs, I = ctx.run(b, [('sym', 'pat'), ('sym', 'hay')])
    if outs is None:
        return None
    return I, ctx.rets(outs, b)


@prop('C08')
def c08(ctx):
    """Every path of Pattern::matches of the string forms, bool and Regex is summarised from MIR and compared with the
    specified boolean function of (pattern, value): exact text equality, the pattern itself, Regex::is_match."""
    imp = pattern_impls(ctx)
    pat, hay = ('sym', 'pat'), ('sym', 'hay')
    ism = ('call', 'Regex::is_match', (pat, HAY))
    finds = [('call', 'Regex::' + n, (pat, HAY)) for n in ('find', 'shortest_match', 'captures')]
    for kind in ('str', 'String', 'Cow', 'bool', 'Regex'):
        if kind not in imp:
            ctx.bad(f'anchor:Pattern for {kind}', f'no implementation of Pattern for {kind}')
            continue
        b = imp[kind][0]
        r = eval_matches(ctx, b)
        if r is None:
            continue
        I, rets = r

        def spec(ask, kind=kind):
            if kind == 'bool':
                return ('b', ask.bool(pat))
            if kind == 'Regex':
                for f in finds:
                    if ask.known(f) is not None:
                        return ('b', ask.known(f) == 1)
                    if any(contains(v, lambda x: x == f) for v, _ in rets):
                        return ('b', ask.var(f) == 1)
                return ('b', ask.bool(ism))
            return ('b', ask.bool(mk_eq(HAY, pat)))
        check_paths(ctx, I, rets, spec, 'pattern-matches', f'Pattern::matches for {kind}', f'matches:{kind}', b['span'], boolean=True)
    ctx.floor('pattern-matches', 5)


@prop('C09')
def c09(ctx):
    """Every implementation of Pattern: each path of value() that offers an exact value offers From::from(p) for the
    very text p such that matches() is equality with p on every path; other patterns offer nothing.  Attr::matches
    uses an offered value only as key of the attribute lookup."""
    imp = pattern_impls(ctx)
    dflt = ctx.fn('Pattern::value')
    for kind, (mb, vb, s) in sorted(imp.items()):
        vb = vb or dflt
        if vb is None:
            continue
        outs, I = ctx.run(vb, [('sym', 'pat')])
        if outs is None:
            continue
        for v, st in ctx.rets(outs, vb):
            v = I.deep(st, v)
            if v == NONE:
                ctx.ok('exact-value', f'Pattern::value for {kind}: offers nothing when {showc(st.conds)}')
                continue
            if not (v[0] == 'agg' and v[2] == OPTION and v[3] == 1):
                ctx.bad(f'value:{kind}', f'Pattern::value for {kind} yields {show(v)}: cannot tell what it offers', vb['span'])
                continue
            t = v[4][0]
            if t[0] == 'call' and t[1] in ('From::from', 'Into::into') and len(t[2]) == 1:
                t = t[2][0]
            r = eval_matches(ctx, mb)
            if r is None:
                continue
            I2, rets = r
            check_paths(ctx, I2, [(x, merged(y, st)) for x, y in rets], lambda ask: ('b', ask.bool(mk_eq(HAY, t))), 'exact-value',
                        f'Pattern for {kind} offers {show(t)}; matches', f'value:{kind}', vb['span'], boolean=True)
    ctx.floor('exact-value', 5)
    attr_filter(ctx, 'lookup', lookup_only=True)
    ctx.floor('lookup', 1)


def merged(s, extra):
    n = s.copy()
    for k, v in extra.conds.items():
        n.conds.setdefault(k, v)
    return n


def strip_rev(L):
    while L[0] == 'lop' and L[1] == 'rev':
        L = L[2][0] if isinstance(L[2], tuple) and L[2] and isinstance(L[2][0], tuple) else L[2]
    return L


def unlf(src):
    """source as (base list, [(conds on elem(base), item)] ) — absent combinations contribute no element"""
    src = strip_rev(src)
    if src[0] == 'lf':
        base, inner = unlf(src[1])
        out = []
        for c, lt in src[2]:
            if lt[0] != 'list' or len(lt[1]) != 1:
                return src, [((), ('elem', src))]
            if inner == [((), ('elem', base))]:
                out.append((tuple(c), lt[1][0]))
            else:
                return src, [((), ('elem', src))]
        return base, out
    return src, [((), ('elem', src))]


def nonempty(t):
    """(list, truth of 'it has elements' when t holds) of a test of its length"""
    pol = True
    while t[:2] == ('op', 'not'):
        t, pol = t[2], not pol
    if t[:3] == ('op', 'lt', ('i', 0)) and t[3][0] == 'len':
        return t[3][1], pol
    if t[:2] == ('op', 'eq') and ('i', 0) in t[2:]:
        x = t[3] if t[2] == ('i', 0) else t[2]
        if x[0] == 'len':
            return x[1], not pol
    return None


def counted(rets, I):
    """a test whether a filtered list has elements, as the scan it stands for"""
    for v, s in rets:
        v = I.deep(s, v)
        tests = [(a, nonempty(a[1])) for a in s.conds if a[0] == 'b' and nonempty(a[1])]
        own = nonempty(v)
        if s.trace or len(tests) > 1 or not (own or tests) or own and tests and own[0] != tests[0][1][0]:
            yield v, s
            continue
        L = own[0] if own else tests[0][1][0]
        for found in (True, False):
            if tests and (s.conds[tests[0][0]] == tests[0][1][1]) != found:
                continue
            s2 = s.copy()
            s2.conds = {a: x for a, x in s.conds.items() if not tests or a != tests[0][0]}
            s2.trace = (('loop', None, L, (), ((),), 'early' if found else 'exhausted'),)
            yield (('b', own[1] == found) if own else v), s2


def attr_filter(ctx, rule, lookup_only=False, name=('sym', 'N'), value=('sym', 'V')):
    """Attr::matches against: exists an attribute whose name the name pattern and whose value the value pattern accepts"""
    adt = ctx.adt('Attr')
    b = ctx.method('Filter', 'matches', lambda s: adt_of_type(s) == adt, 'Filter for Attr')
    if b is None or adt is None:
        return
    node = ('sym', 'node')
    outs, I = ctx.run(b, [ctx.struct('Attr', name=name, value=value), node])
    if outs is None:
        return
    rets = ctx.rets(outs, b)
    attrs = ('call', 'Node::attrs', (node,))
    val = ('call', 'Pattern::value', (name,))
    key = 'attr-filter'
    subj = 'Filter::matches for Attr'

    def pm(p, x):
        return ('call', 'Pattern::matches', (p, x))

    n_loop = n_look = n_none = 0
    for v, s in counted(rets, I):
        v = I.deep(s, v)
        conds = s.conds
        ka = conds.get(('var', attrs))
        where = b['span']
        if ka is None:
            ctx.bad(key, f'{subj}: yields {show(v)} without looking at the attributes, when {showc(conds)}', where)
            continue
        if ka == 0:
            n_none += 1
            if v == FALSE:
                lookup_only or ctx.ok(rule, f'{subj}: no attributes: rejected')
            else:
                ctx.bad(key, f'{subj}: yields {show(v)} for a node without attributes', where)
            continue
        M = ('pj', attrs, 1, 0)
        look = [t for (k, t), x in conds.items() if k == 'var' and t[0] == 'call' and t[1].endswith('Map::get')]
        if look and not s.trace:
            n_look += 1
            t = look[0]
            want_key = ('pj', val, 1, 0)
            if len(look) != 1 or t[2][0] != M or t[2][1] != want_key or conds.get(('var', val)) != 1:
                ctx.bad('lookup', f'{subj}: looks up {show(t)}, not the exact value offered by the name pattern', where)
                continue
            if conds[('var', t)] == 0:
                good = v == FALSE
                want = FALSE
            else:
                want = pm(value, ('pj', t, 1, 0))
                kv = I.decide(s, want)
                good = v == want or (kv is not None and v == ('b', kv))
            if good:
                ctx.ok(rule, f'{subj}: {show(v)[:120]} when {showc(conds)[:160]}')
            else:
                ctx.bad(key, f'{subj}: yields {show(v)} where {show(want)} is specified, when {showc(conds)}', where)
            continue
        if conds.get(('var', val)) == 1 and not look and not s.trace:
            ctx.bad(key, f'{subj}: yields {show(v)} without consulting any attribute, when {showc(conds)}', where)
            continue
        if len(s.trace) != 1 or s.trace[0][2] is None:
            ctx.bad(key, f'{subj}: {show(v)} when {showc(conds)}: not an existence test over the attributes', where)
            continue
        n_loop += 1
        _, lid, src, conts, early, how = s.trace[0]
        base, items = unlf(src)
        if base != ('pairs', M):
            ctx.bad(key, f'{subj}: scans {show(base)}, not the attributes of the node', where)
            continue
        e = ('elem', base)
        NN, VV = pm(name, ('pj', e, None, 0)), pm(value, ('pj', e, None, 1))

        def sub(c, item):
            import loops as L
            return L.simp_conds(tuple(((k, subst(t, {('elem', src): item})), x) for (k, t), x in c))
        bad = False
        for nv in (True, False):
            for vv in (True, False):
                asg = {NN: nv, VV: vv}

                def compat(c):
                    for (k, t), x in c:
                        if k == 'b' and t in asg:
                            if asg[t] != x:
                                return False
                        else:
                            return None
                    return True
                out = set()
                present = False
                for ic, item in items:
                    cc = compat(ic)
                    if cc is None:
                        bad = f'an attribute is considered only when {showc(ic)}'
                        break
                    if not cc:
                        continue
                    present = True
                    for c in conts:
                        c2 = sub(c, item)
                        x = compat(c2) if c2 is not None else False
                        if x is None:
                            bad = f'the scan continues depending on {showc(c2)}'
                        elif x:
                            out.add('cont')
                    for c in early:
                        c2 = sub(c, item)
                        x = compat(c2) if c2 is not None else False
                        if x is None:
                            bad = f'the scan stops depending on {showc(c2)}'
                        elif x:
                            out.add('early')
                if not present:
                    out.add('cont')
                if bad:
                    break
                want = {'early'} if nv and vv else {'cont'}
                if out != want:
                    bad = (f'an attribute with name {"accepted" if nv else "rejected"} and value {"accepted" if vv else "rejected"} '
                           f'{"ends" if "early" in out else "does not end"} the scan')
            if bad:
                break
        if bad:
            ctx.bad(key, f'{subj}: {bad}', where)
            continue
        want = ('b', how == 'early')
        if v != want:
            kv = I.decide(s, v)
            if kv is None or kv != want[1]:
                ctx.bad(key, f'{subj}: yields {show(v)} when the scan {"found an attribute" if how == "early" else "found nothing"}', where)
                continue
        if not lookup_only:
            ctx.ok(rule, f'{subj}: {show(want)} when the scan over {show(base)} {how} ({showc(conds)[:120]})')
    if lookup_only and not n_look:
        ctx.ok(rule, f'{subj}: no lookup shortcut is used')
    if not lookup_only:
        if not n_none:
            ctx.bad(key, f'{subj}: never tells nodes without attributes apart', b['span'])
        if not (n_loop or n_look):
            ctx.bad(key, f'{subj}: examines no attribute', b['span'])


@prop('C06')
def c06(ctx):
    """Attr::matches is summarised from MIR: each path is a lookup under the offered exact value or a scan over the
    node's attributes; for every truth value of (name accepted, value accepted) on one attribute the scan must stop
    exactly when both hold on that same attribute.  The class builder produces such a filter on the name "class"."""
    attr_filter(ctx, 'attr-filter')
    ctx.floor('attr-filter', 3)
    # class(c): an attribute filter on exactly "class" with the pattern passed
    from .query import built_filter
    for recv in ('query', 'doc'):
        r = built_filter(ctx, 'class', recv, [('sym', 'C')])
        if r is None:
            continue
        flt, where = r
        want = ctx.struct('Attr', name=('s', 'class'), value=('sym', 'C'))
        if want == flt:
            ctx.ok('class-filter', f'class() on a {recv}: {show(flt)}')
        else:
            ctx.bad('class-filter', f'class() on a {recv} adds {show(flt)}, not an attribute filter on "class"', where)
    ctx.floor('class-filter', 2)


def filter_value_matches(ctx, key, subject, flt, spec, rule):
    """Filter::matches of a filter value on an opaque node, compared with spec(ask)"""
    b = ctx.F.find_impl(flt[2], 'Filter', 'matches') if flt[0] == 'agg' and flt[1] == 'adt' else None
    if b is None:
        ctx.bad(key, f'{subject}: no Filter implementation')
        return
    outs, I = ctx.run(b, [flt, ('sym', 'node')])
    if outs is None:
        return
    check_paths(ctx, I, ctx.rets(outs, b), spec, rule, subject, key, b['span'], boolean=True)


@prop('C07')
def c07(ctx):
    """Filter::matches of (), And, Or and Tag summarised from MIR and compared with true, conjunction, disjunction and
    'has a name the pattern matches' for every truth assignment of the parts."""
    node = ('sym', 'node')

    def fm(x):
        return ('call', 'Filter::matches', (x, node))
    A, B, P = ('sym', 'A'), ('sym', 'B'), ('sym', 'P')
    b = ctx.method('Filter', 'matches', lambda s: s == '()', 'Filter for ()')
    if b:
        outs, I = ctx.run(b, [UNIT, node])
        if outs is not None:
            check_paths(ctx, I, ctx.rets(outs, b), lambda ask: TRUE, 'filter-logic', 'the empty filter', 'filter:()', b['span'], boolean=True)
    for nm, f in (('And', lambda ask: ('b', ask.bool(fm(A)) and ask.bool(fm(B)))),
                  ('Or', lambda ask: ('b', ask.bool(fm(A)) or ask.bool(fm(B))))):
        if ctx.adt(nm):
            filter_value_matches(ctx, f'filter:{nm}', nm, ctx.struct(nm, _0=A, _1=B), f, 'filter-logic')
    name = ('call', 'Node::name', (node,))

    def tag(ask):
        if ask.var(name) == 0:
            return FALSE
        return ('b', ask.bool(('call', 'Pattern::matches', (P, ('pj', name, 1, 0)))))
    if ctx.adt('Tag'):
        filter_value_matches(ctx, 'filter:Tag', 'Tag', ctx.struct('Tag', tag=P), tag, 'filter-logic')
    ctx.floor('filter-logic', 9)
