"""C23, C24: every operation ends, and recursion follows the nesting of the document.

Loops: each loop met while evaluating an operation is driven by a finite list, or has a measure that every round
changes in one direction against a bound.  Iterators of this crate: no round of next() without progress of the walk
(state exploration).  Grammar: each round of a repetition and each re-entry of a parser has consumed input.
Recursion: a recursive call is on a child of the node its frame was called for; in the grammar, a nested call is
followed by input of its own frame (its closing tag)."""
from .common import *
from . import strict, iteration
from .panics import roots, run_root, Prove, rx_valid, blen, generic, SHORTER, ZERO
from loops import mus_in
from peg import Know, strictly_after, split, norm_conds

ENDLESS = ('iter::repeat', 'iter::repeat_with', 'iter::from_fn', 'iter::successors', 'Iterator::cycle')


def endless(t):
    """a part of the driving list that may go on for ever"""
    for x in subterms(t):
        if not isinstance(x, tuple) or not x:
            continue
        if x[0] == 'lop' and x[1] in ('take', 'zip') and (x[1] == 'take' or any(endless(y) is None for y in x[2] if isinstance(y, tuple))):
            return None
        if x[0] == 'call' and x[1] in ENDLESS or x[0] == 'lop' and x[1] == 'cycle' or x[0] == 'repeat' and len(x) < 3:
            return x
        if x[0] == 'agg' and x[1] == 'adt' and x[2].split('::')[-1] == 'RangeFrom':
            return x
    return None


# ------------------------------------------------------------------ measures
def shorter(u, m, P):
    """u is m without at least one character (strict), or at most as long as m: 2 / 1 / 0"""
    if u == m:
        return 1
    h = u[0]
    if h == 'slice' or h == 'lop' and u[1] == 'slice':
        x, lo, hi = (u[1], u[2], u[3]) if h == 'slice' else u[2]
        r = shorter(x, m, P)
        if not r:
            return 0
        if P.le(('i', 1), lo) or hi not in (('end',), ('len', x)) and P.le(hi, ('len', x), -1):
            return 2
        return r
    if h == 'call' and u[1] in SHORTER:
        return shorter(u[2][0], m, P)
    if h == 'pj':
        y = u[1]
        if y[0] == 'pj':
            # Some((head, tail))
            y2 = y[1]
            if y2[0] == 'call' and y2[1] in ('str::split_once', 'str::rsplit_once') and (blen(y2[2][1]) or 0) > 0:
                return 2 if shorter(y2[2][0], m, P) else 0
            if y2[0] == 'call' and y2[1] in ('slice::split_first', 'slice::split_last') and u[3] == 1:
                return 2 if shorter(y2[2][0], m, P) else 0
        if y[0] == 'call' and y[1] in ('str::split_once', 'str::rsplit_once') and (blen(y[2][1]) or 0) > 0:
            return 2 if shorter(y[2][0], m, P) else 0
        if y[0] == 'call' and y[1] in ('str::strip_prefix', 'str::strip_suffix'):
            r = shorter(y[2][0], m, P)
            return 0 if not r else 2 if (blen(y[2][1]) or 0) > 0 or y[2][1][0] not in ('s', 'i') and y[2][1][0] in ('list', 'closure') else r
    if h == 'call' and u[1] in ('popped', 'Vec::popped', 'drop_last', 'tail'):
        return 2 if shorter(u[2][0], m, P) else 0
    return 0


def measure(rounds, lid):
    """why a loop ends, from its rounds [(conditions, {loop-carried value: (first, next)})]; None when not established"""
    if not rounds:
        return 'never repeats'
    ms = set()
    for _, us in rounds:
        ms |= set(us)
    for m in sorted(ms, key=repr):
        why = None
        for conds, us in rounds:
            if m not in us or us[m][1] is None:
                why = None
                break
            u = us[m][1]
            P = Prove(conds)
            for t in (u, m):
                for x in subterms(t):
                    P.axioms(x)
            w = None
            if u != m and shorter(u, m, P) == 2:
                w = 'shorter'
            elif P.le(m, u, -1):
                # grows: towards what?
                P.le(m, u)
                lims = {('len', x[1]) for a, b, _ in P.rel for t in (a, b) for x in subterms(t) if x[:1] == ('len',) and len(x) == 2}
                lims |= {b for a, b, _ in P.rel} | {a for a, b, _ in P.rel}
                for lim in sorted(lims, key=repr):
                    if mus_in(lim, lid) or not isinstance(lim, tuple):
                        continue
                    if P.le(m, lim, -1) or P.le(u, lim):
                        w = 'grows up to ' + show(lim)[:80]
                        break
                else:
                    if ('i', 0) and any(P.le(m, ('i', k)) for k in (1 << 8, 1 << 16, 1 << 21)):
                        w = 'grows up to a constant'
            elif P.le(u, m, -1):
                w = 'falls to 0'
            elif m[0] == 'mu' and u[0] == 'b' and False:
                pass
            if w is None or why is not None and w.split(' ')[0] != why.split(' ')[0]:
                why = None
                break
            why = w
        if why:
            return f'{show(m)[:60]} {why}'
    return None


def loops_of(ctx, I, skip, seen):
    for lid, verdict, src, rounds in I.loop_notes:
        path, head = lid[1], lid[2]
        if (path, head) in skip:
            continue
        k = (path, head, verdict, repr(src), repr(rounds))
        if k in seen:
            continue
        seen.add(k)
        s = short(path)
        if verdict in ('known', 'once'):
            ctx.ok('loop', f'{s} block {head}: over a list known element by element' if verdict == 'known' else f'{s} block {head}: does not repeat')
        elif verdict == 'driven':
            e = endless(src)
            if e is not None:
                ctx.bad(f'loop:{s}', f'a loop of {s} is driven by {show(e)[:100]}, which has no end', path)
            else:
                ctx.ok('loop', f'{s} block {head}: one round per item of {show(src)[:120]}')
        else:
            why = measure(rounds, lid)
            if why:
                ctx.ok('loop', f'{s} block {head}: {why}')
            else:
                c, us = rounds[0] if rounds else ({}, {})
                bad = next(((c, us) for c, us in rounds if measure([(c, us)], lid) is None), (c, us))
                ctx.bad(f'loop:{s}', f'nothing shows that a loop of {s} ends: a round can leave its variables as they are, or without a bound: '
                        f'{ {show(m)[:40]: show(u[1])[:120] if u[1] else "?" for m, u in bad[1].items()} } when {showc(bad[0])[:300]}', path)


def explorers(ctx):
    es = [iteration.walk_explorer(ctx, 'walk')]
    for m in ('recursive', 'strict'):
        es.append(iteration.query_explorer(ctx, m, 'query-' + m, ('sym', 'filter')))
    return [e for e in es if e is not None]


def descends(frame, call):
    """an argument is a proper part of the frame's argument, through at least one selection of a child"""
    for a, b in zip(frame, call):
        if a[0] in ('i', 's', 'b', 'agg') and not a[1:]:
            continue
        r = part(b, a)
        if r:
            return r
    return None


CHILDREN = ('NodeRef::children', 'Node::children', 'NodeRef::first_child', 'NodeRef::last_child', 'Element::get_child', 'Element::take_child')
SAME = ('NodeRef::value', 'Option::as_ref', 'Clone::clone', 'Deref::deref', 'AsRef::as_ref', 'Box::as_ref', 'Borrow::borrow', 'Into::into', 'From::from', 'slice::iter',
        'ToOwned::to_owned', 'IntoIterator::into_iter', 'slice::to_vec')


def part(b, a):
    """is b a proper part of a: through fields and variants (same level) and at least one child / element step?"""
    down = False
    seen = 0
    while b != a:
        seen += 1
        if seen > 200:
            return None
        h = b[0]
        if h in ('elem', 'idx'):
            down = True
            b = b[1]
        elif h == 'pj':
            # payload of a finite tree: a field of a recursive type
            b = b[1]
        elif h == 'call' and b[1] in CHILDREN:
            if b[1] != 'Node::children' or True:
                down = down or b[1] not in ('NodeRef::children', 'Node::children')
            b = b[2][0]
        elif h == 'call' and b[1] in SAME and b[2]:
            b = b[2][0]
        elif h == 'lop' and b[1] in ('rev', 'slice', 'skip', 'enumerate'):
            b = b[2][0]
        elif h == 'lf' and len(b[2]) >= 1 and all(lt[0] == 'list' and len(lt[1]) <= 1 and all(y == ('elem', b[1]) for y in lt[1]) for _, lt in b[2]):
            b = b[1]
        else:
            return None
    return down


def boxed_part(b, a):
    """a payload below a pointer of a recursive type (an iterator inside an iterator)"""
    n = 0
    while b != a:
        if b[0] != 'pj':
            return False
        n += 1
        b = b[1]
    return n > 0


def inner_part(b, a):
    """a payload of the iterator its loop has come to"""
    n = 0
    while b[0] == 'pj':
        n += 1
        b = b[1]
    return n > 0 and b[0] == 'mu' and b[3] == () and isinstance(b[2], tuple) and str(b[2][-1]).startswith('arg') and a[0] == 'sym' or boxed_part(b, a)


def walks(ctx):
    """bodies of next() found to walk the tree in order, entering subtrees of children only"""
    v0 = len(ctx.viol)
    es, out = explorers(ctx), set()
    for e in es:
        e.explore()
    if len(ctx.viol) == v0:
        out = {h[0] for e in es for h in e.heads}
    del ctx.viol[v0:]
    return out


def recursion(ctx, I, seen, walked=()):
    for caller, key, fa, ca, conds, w in I.recs:
        k = (generic(caller), generic(key), w, repr(fa), repr(ca))
        if k in seen:
            continue
        seen.add(k)
        s = short(ctx.F.bodies[key]['path'])
        if any(x[0] == 'rest' for x in ca):
            continue                 # parsers: below
        if ctx.F.bodies[key]['path'] in walked and any(inner_part(b, a) for a, b in zip(fa, ca)):
            ctx.ok('recursion', f'{s} on an iterator within: the walk it does is that of a child')
        elif any(part(b, a) or boxed_part(b, a) for a, b in zip(fa, ca)):
            ctx.ok('recursion', f'{s} on {", ".join(show(x)[:100] for x in ca)}: a child of {", ".join(show(x)[:60] for x in fa)}')
        else:
            ctx.bad(f'recursion:{s}', f'{s} calls itself on {", ".join(show(x)[:160] for x in ca)}, which is no child of what it was called for '
                    f'({", ".join(show(x)[:100] for x in fa)})', w)


def grammar(ctx, logging=False):
    g = strict.Grammar(ctx)
    g.logging = logging
    g.go()
    if g.I is None:
        ctx.bad('grammar', 'the strict HTML parser could not be evaluated', getattr(g, 'where', ''))
        return None
    return g


def pname(ctx, prim):
    return show(prim)[:80]


@prop('C23')
def c23(ctx):
    """Every loop met while evaluating each operation is driven by a finite list or has a monotone bounded measure; the
    iterators' state graphs have no cycle without progress; every round of a repetition of the strict grammar, and every
    re-entry of a parser, lies strictly behind where it began; recursion is on children."""
    skip, walked = set(), set()
    for e in explorers(ctx):
        v0 = len(ctx.viol)
        e.explore()
        skip |= e.heads
        for fn in e.stuck():
            ctx.bad(f'stuck:{short(fn)}', f'{e.label}: the loop in {short(fn)} can go round without any progress of the walk', fn)
        if len(ctx.viol) == v0:
            walked |= {h[0] for h in e.heads}
            ctx.ok('iterator', f'{e.label}: {e.states} loop states, {e.transitions} transitions, no cycle without progress')
    seen, rs = set(), set()
    n = 0
    for b in roots(ctx.F):
        outs, I = run_root(ctx, b)
        n += 1
        ctx.ok('operation', short(b['path']))
        for k, v, s in outs or ():
            e = endless(v) if k == 'ret' and v is not None else None
            if e is not None:
                ctx.bad(f'endless:{short(b["path"])}', f'{short(b["path"])} works through {show(e)[:100]}, which has no end', b.get('span', ''))
                break
        loops_of(ctx, I, skip, seen)
        recursion(ctx, I, rs, walked)
    g = grammar(ctx)
    if g is not None:
        loops_of(ctx, g.I, skip, seen)
        recursion(ctx, g.I, rs)
        for f, body in g.P.manys.items():
            nm = g.P.name(f)
            good = True
            for kind, q, v, s in body.outs:
                if kind != 'ok':
                    continue
                c = norm_conds(s.conds)
                if not strictly_after(body.start, q, Know(c)):
                    good = False
                    ctx.bad(f'round:{short(str(body.where).split(" (")[0])}', f'a round of the repetition {nm} can succeed without consuming anything, when {showc(c)[:300]}', str(body.where))
                    break
            if good:
                ctx.ok('repetition', f'{nm} at {body.where}: every round consumes input')
        done = set()
        for prim, p, start, conds, w, stk in g.P.reentries:
            if start is None:
                ctx.bad(f're-entry:{show(prim)[:60]}', 'a parser is re-entered from an unknown position', str(w))
                continue
            c = norm_conds(conds)
            k = (prim, p, start, str(w))
            if k in done:
                continue
            done.add(k)
            if strictly_after(start, p, Know(c)):
                ctx.ok('re-entry', f'{show(prim)[:60]} at {show(p)[:160]}')
            else:
                ctx.bad(f're-entry:{short(str(w).split(" (")[0])}', f'{show(prim)[:60]} can be re-entered where it began, without input consumed: {show(p)[:200]}', str(w))
    ctx.floor('operation', 60)
    ctx.floor('iterator', 3)
    ctx.floor('repetition', 2)
    ctx.floor('re-entry', 1)
    ctx.floor('loop', 1)
    ctx.floor('recursion', 2)


def within(q, e):
    """does the position q build on the position e"""
    return any(x == e for x in subterms(q))


def rule_bodies(ctx, g, rec):
    """parser functions that call themselves, evaluated once more from a position of their own"""
    for prim in sorted(rec, key=repr):
        if prim[0] == 'rule':
            at0 = ('sym', '@rule')
            b = ctx.F.bodies[prim[1]]
            st = St()
            try:
                outs = []
                g.P.busy.clear()
                for k, v, s in g.I.exec_body(prim[1], [('rest', at0)], st):
                    if k == 'ret':
                        outs += g.P.result(v, s, b['path'])
            except Unsupported as e:
                ctx.bad(f'cannot-analyse:{short(b["path"])}', f'no rule for this construct: {e}', b.get('span', ''))
                continue
            yield prim, at0, outs, b['path']


@prop('C24')
def c24(ctx):
    """Recursive calls met while evaluating each operation: the argument must be a child (through fields and one element
    selection) of the argument of the frame that is still active.  In the strict grammar, a parser that re-enters itself
    must consume input of its own after the nested call has ended (the closing tag), so pending calls are open elements."""
    rs, walked = set(), walks(ctx)
    n = 0
    for b in roots(ctx.F):
        outs, I = run_root(ctx, b)
        ctx.ok('operation', short(b['path']))
        recursion(ctx, I, rs, walked)
    g = grammar(ctx)
    if g is not None:
        recursion(ctx, g.I, rs)
        rec = {r[0] for r in g.P.reentries}
        ends = lambda c, K: [K.norm(('end', t[1], t[2])) for (k, t), v in c.items() if k == 'b' and t[0] == 'at' and t[1] in rec]
        for f, body in g.P.manys.items():
            if ('many', g.P.name(f)) not in rec:
                continue
            bracketed(ctx, g, ('many', g.P.name(f)), body.start, body.outs, str(body.where))
        for prim, at0, outs, where in rule_bodies(ctx, g, rec):
            bracketed(ctx, g, prim, at0, outs, where)
    ctx.floor('operation', 60)
    ctx.floor('recursion', 2)
    ctx.floor('bracketed', 1)


def nested(g, t, prim):
    """positions at which `prim` is (directly or inside another repetition) re-entered, as ends in the term t"""
    out = set()
    for x in subterms(t):
        if isinstance(x, tuple) and len(x) == 3 and x[0] == 'end' and reaches(g, x[1], prim):
            out.add(x)
    return out


def reaches(g, prim, goal, seen=None):
    """can evaluating prim re-enter goal"""
    seen = set() if seen is None else seen
    if prim == goal:
        return True
    if prim in seen or prim[0] not in ('many', 'rule'):
        return False
    seen.add(prim)
    for f, body in g.P.manys.items():
        if ('many', g.P.name(f)) == prim:
            for kind, q, v, s in body.outs:
                for (k, t), b in s.conds.items():
                    if k == 'b' and t[0] == 'at' and reaches(g, t[1], goal, seen):
                        return True
                if q is not None and any(len(x) == 3 and x[0] == 'end' and reaches(g, x[1], goal, seen) for x in subterms(q)):
                    return True
    return False


def bracketed(ctx, g, prim, start, outs, where):
    n = 0
    for kind, q, v, s in outs:
        if kind != 'ok':
            continue
        c = norm_conds(s.conds)
        K = Know(c)
        q = K.norm(q)
        hit = nested(g, q, prim)
        for (k, t), b in c.items():
            if k == 'b':
                if t[0] == 'at' and b and reaches(g, t[1], prim):
                    hit.add(K.norm(('end', t[1], t[2])))
                hit |= nested(g, t, prim)
        for e in hit:
            n += 1
            if within(q, e) and strictly_after(e, q, K):
                ctx.ok('bracketed', f'{show(prim)[:40]} nested at {show(e)[:100]}: followed by input of its own up to {show(q)[:160]}')
            else:
                ctx.bad(f'tail:{short(where.split(" (")[0])}', f'a parser that re-enters itself does not consume anything after the nested call: '
                        f'it recurses along the document, not into it ({show(e)[:200]})', where)
                return
    if n == 0:
        ctx.bad(f'tail:{short(where.split(" (")[0])}', f'{show(prim)[:60]} re-enters itself outside any successful path that was found', where)


@prop('C29')
def c29(ctx):
    """Every path through one round of every repetition (and every recursive rule) of the strict grammar, failing paths
    included, with the calls of parsers that parse nested nodes in order: each call after the first begins at or
    behind the end of the one before, so no stretch of input is parsed for nodes twice at one level of nesting."""
    g = grammar(ctx, True)
    if g is None:
        return
    rec = {r[0] for r in g.P.reentries}
    calls = lambda s: s.ghost.calls if s.ghost is not None else ()
    bodies = [(('many', g.P.name(f)), body.outs, str(body.where)) for f, body in g.P.manys.items()]
    bodies += [(prim, outs, w) for prim, at0, outs, w in rule_bodies(ctx, g, rec)]
    edges = {}
    for prim, outs, w in bodies:
        edges.setdefault(prim, set()).update(c[0] for o in outs for c in calls(o[3]))
    nested_ = set(rec)
    while True:
        more = {p for p, cs in edges.items() if cs & nested_} - nested_
        if not more:
            break
        nested_ |= more
    n = 0
    for prim, outs, w in bodies + [(('document',), [(k, None, v, s) for k, v, s in g.outs], g.where)]:
        here = short(str(w).split(' (')[0])
        for kind, q, v, s in outs:
            K = Know(norm_conds(s.conds))
            cs = [(p, K.norm(at)) for p, at in calls(s) if p in nested_]
            good = True
            for (p1, a1), (p2, a2) in zip(cs, cs[1:]):
                if not within(a2, K.norm(('end', p1, a1))):
                    good = False
                    ctx.bad(f'again:{here}', f'nested nodes are parsed from {show(a1)[:120]} and again from {show(a2)[:120]} on a path that {"succeeds" if kind == "ok" else "fails"}: the effort doubles with every level of nesting', w)
                    break
            if not good:
                break
            n += len(cs)
            ctx.ok('path', f'{show(prim)[:40]}: {kind} path with {len(cs)} parses of nested nodes, one after the other')
            for c in cs:
                ctx.ok('nested', f'{show(prim)[:40]}: nested nodes parsed from {show(c[1])[:120]}')
    if rec and not n:
        ctx.bad('vacuous', 'no parse of nested nodes was found', g.where)
    ctx.floor('path', 10)
    ctx.floor('nested', 2)
