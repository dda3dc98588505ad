"""Loop summaries: generalise the loop-carried cells to a fixpoint, then express their final values as folds."""
import re
import re._parser as sre_parse
from terms import *


def min_match(t):
    """bytes the shortest match of a constant expression has; 0 when unknown"""
    lits = {x[2][0][1] for x in subterms(t) if x[:2] == ('call', 'Regex::new') and x[2][0][0] == 's'} if isinstance(t, tuple) else ()
    if len(lits) != 1:
        return 0
    try:
        return sre_parse.parse(next(iter(lits))).getwidth()[0]
    except (re.error, OverflowError, RecursionError):
        return 0


def mus_in(t, lid):
    out = set()

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 4 and x[0] == 'mu' and x[1] == lid:
                out.add(x)
                return
            for y in x:
                go(y)
    go(t)
    return out


def join(a, b, lid, cell, path):
    if a == b:
        return a
    if a[0] == 'mu' and a[1] == lid and a[2] == cell and a[3] == path:
        return a
    if a[0] == 'agg' and b[0] == 'agg' and a[1:4] == b[1:4] and len(a[4]) == len(b[4]):
        return a[:4] + (tuple(join(x, y, lid, cell, path + (i,)) for i, (x, y) in enumerate(zip(a[4], b[4]))),)
    if a[0] == 'iter' and b[0] == 'iter' and a[1] == b[1]:
        return ('iter', rest_of(a[1], a[2]) if isinstance(a[2], tuple) else a[1], 'mid')
    if b[0] == 'iter' and b[1] == a:
        return ('iter', a, 'mid')           # an iterator of a library, before its first step
    return ('mu', lid, cell, path)


def rest_of(L, pos):
    """what is left of a list after its first items"""
    if pos == ('i', 0):
        return L
    it = as_items(L)
    if it is not None and pos[0] == 'i':
        return ('list', tuple(it[pos[1]:]))
    return ('lop', 'skip', (L, pos))


def at_path(v, path):
    for i in path:
        if v[0] != 'agg' or i >= len(v[4]):
            return None
        v = v[4][i]
    return v


def concrete_progress(st, st2):
    """did an iterator over a known finite list advance?"""
    for c, v in st.cells.items():
        w = st2.cells.get(c)
        if w is None or v == w:
            continue
        for x in subterms(v):
            if len(x) == 3 and x[0] == 'iter' and (as_items(x[1]) is not None or conc_range(x[1])) and x[2] and x[2][0] == 'i':
                return True
    return False


def conc_range(t):
    return t[0] == 'range' and t[1][0] == 'i' and t[2][0] == 'i'


def loop_fix(I, st, step, lid, live):
    from interp import Unsupported
    # loops over a list known element by element are followed concretely
    o0, p0, r0 = len(I.oblig), len(I.panics), len(I.recs)
    first = step(st)
    fc = [o for o in first if o[0] == 'cont']
    if fc and all(concrete_progress(st, o[2]) for o in fc):
        out, todo = [], first
        for _ in range(200):
            nxt = []
            for o in todo:
                if o[0] == 'cont':
                    nxt.extend(step(o[2]))
                else:
                    out.append(o)
            if not nxt:
                I.loop_notes.append((lid, 'known', None, ()))
                return out
            todo = nxt
            if len(todo) > 400:
                raise Unsupported('loop over a constant list forks too much', str(lid[1]))
        raise Unsupported('loop over a constant list does not end', str(lid[1]))
    if not fc:
        I.loop_notes.append((lid, 'once', None, ()))
        return first
    entry = dict(st.cells)
    cur = st.copy()
    outs = first
    for rnd in range(12):
        new = dict(cur.cells)
        for o in outs:
            if o[0] != 'cont':
                continue
            for c, v in list(new.items()):
                if not live(c):
                    continue
                w = o[2].cells.get(c, ('undef',))
                if w != v:
                    new[c] = join(v, w, lid, c, ())
        if new == cur.cells and rnd:
            break
        cur = st.copy()
        cur.cells = new
        # what earlier rounds asked is asked again of the general round
        del I.oblig[o0:]
        del I.panics[p0:]
        del I.recs[r0:]
        outs = step(cur)
    else:
        raise Unsupported('loop does not reach a fixpoint', str(lid[1]))
    return resolve(I, st, cur, outs, lid, live, entry, o0, r0)


def settle_obligations(I, o0, base, tx):
    """obligations raised inside a loop, in terms of its summary"""
    for n in range(o0, len(I.oblig)):
        kind, d, conds, w, stk = I.oblig[n]
        d = tuple(tx(x) if isinstance(x, tuple) else x for x in d) if isinstance(d, tuple) else d
        conds = {((a[0], tx(a[1])) if a not in base else a): v for a, v in conds.items()}
        I.oblig[n] = (kind, d, conds, w, stk)


def strip_prefix(u, m):
    """u = m followed by something: the something, as ('l',listterm) or ('s',strterm); None otherwise"""
    if u == m:
        return ('0',)
    if u[0] == 'lcat':
        parts = []
        x = u
        while x[0] == 'lcat':
            parts.append(x[2])
            x = x[1]
        if x == m:
            r = ('list', ())
            for p in reversed(parts):
                r = mk_lcat(r, p)
            return ('l', r)
    if u[0] == 'cat' and u[1][0] == m:
        return ('s', mk_cat(*u[1][1:]))
    if u[0] == 'mapof' and u[1][0] == 'lcat':
        r = strip_prefix(u[1], ('pairs', m))
        if r and r[0] == 'l':
            return ('m', r[1])
    return None


def mk_lf(src, cases):
    """list of the case items for each element of src; identity and empty folds collapse"""
    cases = tuple(c for c in cases if c[1] != ('list', ()))
    if not cases:
        return ('list', ())
    if len(cases) == 1 and cases[0] == ((), ('list', (('elem', src),))):
        return src
    if src[0] == 'lf' or src[0] == 'list' or src[0] == 'lcat':
        return compose(src, cases)
    return ('lf', src, cases)


def simp_conds(conds):
    """conditions after a substitution: dropped when true, None when contradictory"""
    out = []
    seen = {}
    for (k, t), v in conds:
        if k == 'var':
            if t[0] == 'agg' and t[1] == 'adt':
                if t[3] != v:
                    return None
                continue
        else:
            neg = False
            while t[0] == 'op' and t[1] == 'not':
                t, neg = t[2], not neg
            if neg:
                v = not v
            if t[0] == 'b':
                if t[1] != v:
                    return None
                continue
        if (k, t) in seen:
            if seen[(k, t)] != v:
                return None
            continue
        seen[(k, t)] = v
        out.append(((k, t), v))
    return tuple(out)


def subst_cases(cases, m):
    out = []
    for c, lt in cases:
        c2 = simp_conds(tuple(((k, subst(t, m)), v) for (k, t), v in c))
        if c2 is None:
            continue
        out.append((c2, renest(subst(lt, m))))
    return out


def renest(t):
    """re-normalise folds inside a substituted term"""
    if not isinstance(t, tuple) or not t:
        return t
    n = tuple(renest(x) if isinstance(x, tuple) else x for x in t)
    if n and n[0] == 'lf' and len(n) == 3:
        return mk_lf(n[1], n[2])
    return n


def compose(src, cases):
    """fold of `cases` (in terms of elem(src)) over a structured list"""
    e = ('elem', src)
    if src[0] == 'lcat':
        a = mk_lf(src[1], tuple(subst_cases(cases, {e: ('elem', src[1])})))
        b = mk_lf(src[2], tuple(subst_cases(cases, {e: ('elem', src[2])})))
        return mk_lcat(a, b)
    if src[0] == 'list':
        r = ('list', ())
        for n, x in enumerate(src[1]):
            cs = subst_cases(cases, {e: x})
            if not cs:
                continue
            if len(cs) == 1 and cs[0][0] == ():
                r = mk_lcat(r, cs[0][1])
            else:
                r = mk_lcat(r, ('lf', ('one', x), tuple(cs)))
        return r
    if src[0] == 'lf':
        out = []
        for c0, lt in src[2]:
            if lt[0] == 'list' and len(lt[1]) == 1:
                for c1, l1 in subst_cases(cases, {e: lt[1][0]}):
                    cc = simp_conds(tuple(c0) + tuple(c1))
                    if cc is not None:
                        out.append((cc, l1))
            else:
                sub = mk_lf(lt, tuple(subst_cases(cases, {e: ('elem', lt)})))
                if sub != ('list', ()):
                    out.append((tuple(c0), sub))
        return mk_lf(src[1], tuple(out)) if src[1][0] != 'one' else ('lf', src[1], tuple(out))
    return ('lf', src, tuple(cases))


def leaves(L):
    """[(conds, element term)] of the shapes an element of L can have"""
    if L[0] == 'lf':
        out = []
        for c0, lt in L[2]:
            if lt[0] == 'list':
                out.extend((tuple(c0), x) for x in lt[1])
            else:
                out.extend((tuple(c0) + tuple(c), x) for c, x in leaves(lt))
        return out
    if L[0] == 'lcat':
        return leaves(L[1]) + leaves(L[2])
    if L[0] == 'list':
        return [((), x) for x in L[1]]
    return [((), ('elem', L))]


class Other(Exception):
    pass


def anchored(t):
    """does the expression look at what is before its match?"""
    lits = {x[2][0][1] for x in subterms(t) if x[:2] == ('call', 'Regex::new') and x[2][0][0] == 's'} if isinstance(t, tuple) else ()
    if len(lits) != 1:
        return True
    try:
        return any(k in str(sre_parse.parse(next(iter(lits)))) for k in ('AT ', 'AT_', 'ASSERT'))
    except (re.error, OverflowError, RecursionError):
        return True


def from_rest(I, st, cur, outs, lid, entry, o0, mus, live):
    """searching what is left of a text, then leaving out everything up to the end of the match, in terms of the whole text and the
    offset its rest begins at: m = x[p..], with an offset cell of its own; outcomes and obligations are rewritten in place"""
    base = set(st.conds)
    for m, x in mus.items():
        calls = {t for o in outs for (k, t), v in o[2].conds.items() if k == 'var' and (k, t) not in base and t[0] == 'call'
                 and t[1] == 'Regex::find' and t[2][1] == m}
        if len(calls) != 1 or mus_in(x, lid):
            continue
        c = calls.pop()
        R = c[2][0]
        if mus_in(R, lid) or anchored(R) or x[0] == 'undef':
            continue
        hit = ('pj', c, 1, 0)
        cell = ('virtual', lid, m[2], m[3])
        p = ('mu', lid, cell, ())
        c2 = ('call', 'Regex::find_at', (R, x, p))
        hit2 = ('pj', c2, 1, 0)
        S, E, LEN = (('call', 'Match::' + n, (hit,)) for n in ('start', 'end', 'len'))
        S2, E2 = (('call', 'Match::' + n, (hit2,)) for n in ('start', 'end'))

        def off(at, t):
            """an offset into x[at..] as one into x"""
            if t in (None, ('i', 0)):
                return at
            if t == ('end',):
                return t
            if at == p and t in (S, E):
                return S2 if t == S else E2
            if at == S2 and t in (LEN, ('op', 'Sub', E, S)):
                return E2
            raise Other()

        def rw(t):
            if not isinstance(t, tuple) or not t:
                return t
            if t == m:
                return ('slice', x, p, ('end',))
            if t == c:
                return c2
            if t[0] == 'slice' and len(t) == 4 and contains(t[1], lambda y: y == m):
                b = rw(t[1])
                if b[0] != 'slice' or b[1] != x or b[3] != ('end',):
                    if b[0] == 'slice' and b[1:4] == (x, S2, E2) and t[2] == ('i', 0) and t[3] == LEN:
                        return b
                    raise Other()
                lo, hi = off(b[2], t[2]), off(b[2], t[3])
                return ('call', 'Match::as_str', (hit2,)) if (lo, hi) == (S2, E2) else ('slice', x, lo, hi)
            if t[0] == 'call' and t[1] in ('Match::start', 'Match::end', 'Match::len', 'Match::range') and t[2] == (hit,):
                raise Other()
            if t[0] == 'len' and t[1] == m:
                raise Other()
            return tuple(rw(y) if isinstance(y, tuple) else y for y in t)
        try:
            if not all(o[2].conds.get(('var', c)) == 1 and rw(at_path(o[2].cells.get(m[2], ('undef',)), m[3])) == ('slice', x, E2, ('end',))
                       for o in outs if o[0] == 'cont'):
                continue
            new = []
            for o in outs:
                s = o[2]
                cells = {}
                for k, v in s.cells.items():
                    try:
                        cells[k] = rw(v)
                    except Other:
                        if o[0] != 'cont' or live(k):
                            raise
                        cells[k] = ('undef',)       # a temporary of this round, which nothing reads again
                if o[0] == 'cont':
                    cells[cell] = E2
                else:
                    cells[cell] = p
                new.append((cells, {(k, rw(t)): v for (k, t), v in s.conds.items()}, rw(s.effects), rw(o[1]) if isinstance(o[1], tuple) else o[1]))
            obl = []
            for kind, d, conds, w, stk in I.oblig[o0:]:
                if kind == 'slice' and contains(d[0], lambda y: y == m):
                    b = rw(d[0])
                    if b[0] != 'slice' or b[1] != x or b[3] != ('end',):
                        raise Other()
                    d = (x,) + tuple(None if y is None else off(b[2], y) for y in d[1:3]) + tuple(d[3:])
                    d = (d[0], b[2] if d[1] is None and d[2] is None else d[1]) + tuple(d[2:])
                else:
                    d = tuple(rw(y) if isinstance(y, tuple) else y for y in d) if isinstance(d, tuple) else d
                obl.append((kind, d, {(k, rw(t)): v for (k, t), v in conds.items()}, w, stk))
        except Other:
            continue
        for n, (o, (cells, conds, eff, val)) in enumerate(zip(list(outs), new)):
            o[2].cells, o[2].conds, o[2].effects = cells, conds, eff
            if val is not o[1]:
                outs[n] = (o[0], val, o[2])
        I.oblig[o0:] = obl
        entry[cell] = ('i', 0)
        cur.cells = {k: rw(v) for k, v in cur.cells.items()}
        cur.cells[cell] = p
        return True
    return False


def resolve(I, st, cur, outs, lid, live, entry, o0=0, r0=0):
    from interp import Unsupported
    base = set(st.conds)
    conts = [o for o in outs if o[0] == 'cont']
    exits = [o for o in outs if o[0] != 'cont']
    mus = {}      # mu -> entry value
    for c, v in cur.cells.items():
        for m in mus_in(v, lid):
            mus[m] = at_path(entry.get(m[2], ('undef',)), m[3]) or ('undef',)
    if from_rest(I, st, cur, outs, lid, entry, o0, mus, live):
        conts = [o for o in outs if o[0] == 'cont']
        exits = [o for o in outs if o[0] != 'cont']
        mus = {m: at_path(entry.get(m[2], ('undef',)), m[3]) or ('undef',) for c, v in cur.cells.items() for m in mus_in(v, lid)}

    # which list drives the loop
    for c, v in entry.items():
        if v[0] == 'iter' and v[2] in ('mid', 'rest') and any(('b', ('more', v[1])) in o[2].conds for o in outs) and ('b', ('more', v[1])) not in base:
            raise Unsupported('loop goes on with the iterator of another loop', str(lid[1]))

    def delta(s):
        return [(a, v) for a, v in s.conds.items() if a not in base]

    srcs = []
    for o in outs:
        for (k, t), v in delta(o[2]):
            if k == 'b' and t[0] == 'more' and t[1] not in srcs:
                srcs.append(t[1])
    src = None
    ren = {}
    if srcs:
        # the driving source is the one every round consults first
        cand = [s for s in srcs if all(dict(delta(o[2])).get(('b', ('more', s))) is True for o in conts)]
        if cand:
            src = cand[0]
    else:
        # counter loops: i = e, e+1, ... while i < len(x)
        for m, e in mus.items():
            ups = {at_path(o[2].cells.get(m[2], ('undef',)), m[3]) for o in conts}
            if ups != {mk_add(m, ('i', 1))} or e[0] != 'i':
                continue
            lims = None
            for o in conts:
                ls = set()
                for (k, t), v in delta(o[2]):
                    if k != 'b' or t[0] != 'op':
                        continue
                    if t[1] == 'lt' and t[2] == m and v and not mus_in(t[3], lid):
                        ls.add((t, t[3], True))
                    if t[1] == 'eq' and m in (t[2], t[3]) and not v:
                        other = t[3] if t[2] == m else t[2]
                        if not mus_in(other, lid):
                            ls.add((t, other, False))
                lims = ls if lims is None else lims & ls
            for t, lim, pos in sorted(lims or (), key=repr):
                if any(dict(delta(o[2])).get(('b', t)) is (not pos) for o in exits):
                    if lim[0] == 'len' and e == ('i', 0):
                        src = lim[1]
                        ren = {m: ('idxof', src)}
                    else:
                        src = ('range', e, lim)
                        ren = {m: ('elem', src)}
                    atom = ('b', t)
                    srcs = [src]
                    for o in outs:
                        v = o[2].conds.pop(atom, None)
                        if v is not None:
                            o[2].conds[('b', ('more', src))] = v if pos else not v
                    break
            if src is not None:
                break
        if src is None:
            # searching on from the end of the previous match is iterating over the matches
            for m, e in mus.items():
                if e != ('i', 0):
                    continue
                calls = {t for o in outs for (k, t), v in delta(o[2]) if k == 'var' and t[0] == 'call' and t[1] == 'Regex::find_at' and t[2][2] == m
                         and not mus_in(t[2][:2], lid)}
                if len(calls) != 1:
                    continue
                c = calls.pop()
                hit = ('pj', c, 1, 0)
                if not all(o[2].conds.get(('var', c)) == 1 and at_path(o[2].cells.get(m[2], ('undef',)), m[3]) == ('call', 'Match::end', (hit,)) for o in conts):
                    continue
                if not min_match(c[2][0]):
                    continue
                src = ('call', 'Regex::find_iter', c[2][:2])
                ren = {hit: ('elem', src)}
                srcs = [src]
                for o in outs:
                    v = o[2].conds.pop(('var', c), None)
                    if v is not None:
                        o[2].conds[('b', ('more', src))] = v == 1
                break
        if src is None:
            # from the first child on to the next sibling of the previous one is iterating over the children
            for m, e in mus.items():
                if e[:2] == ('call', 'NodeRef::first_child'):
                    kids = ('call', 'NodeRef::children', e[2])
                elif e[0] == 'agg' and e[1] == 'adt' and e[3] == 1 and len(e[4]) == 1 and e[4][0][0] == 'idx' and e[4][0][2] == ('i', 0):
                    kids = e[4][0][1]
                else:
                    continue
                cur_ = ('pj', m, 1, 0)
                if kids[:2] != ('call', 'NodeRef::children') or mus_in(kids, lid):
                    continue
                if not all(o[2].conds.get(('var', m)) == 1 and at_path(o[2].cells.get(m[2], ('undef',)), m[3]) == ('call', 'NodeRef::next_sibling', (cur_,)) for o in conts):
                    continue
                if not all(('var', m) in o[2].conds for o in exits):
                    continue
                src = kids
                ren = {cur_: ('elem', src)}
                srcs = [src]
                for o in outs:
                    o[2].conds[('b', ('more', src))] = o[2].conds.pop(('var', m)) == 1
                break
    more = ('b', ('more', src)) if src is not None else None

    def rn(t):
        if not ren:
            return t
        t = subst(t, ren)
        return subst(t, {('idx', src, ('idxof', src)): ('elem', src)}) if src is not None else t

    # counters next to a driving iterator: m+1 each round is the running index
    extra = {}
    if src is not None:
        for m, e in mus.items():
            if m in ren:
                continue
            ups = {at_path(o[2].cells.get(m[2], ('undef',)), m[3]) for o in conts}
            if ups == {mk_add(m, ('i', 1))} and e == ('i', 0):
                extra[m] = ('idxof', src)
    ren2 = dict(ren)
    ren2.update(extra)

    def rn2(t):
        t = subst(t, ren2) if ren2 else t
        return subst(t, {('idx', src, ('idxof', src)): ('elem', src)}) if src is not None else t

    if ren:
        for n in range(r0, len(I.recs)):
            caller, key_, fa, ca, conds, w = I.recs[n]
            I.recs[n] = (caller, key_, tuple(map(rn, fa)), tuple(map(rn, ca)), conds, w)
    # counters that only ever grow by constants
    cnt = {}
    for m, e in mus.items():
        ups = [at_path(o[2].cells.get(m[2], ('undef',)), m[3]) or ('undef',) for o in conts]
        if e[0] == 'i' and e[1] >= 0 and all(u == m or u[0] == 'add' and u[1] == m and 0 < u[2] < 1 << 16 or u[0] == 'i' and 0 <= u[1] < 1 << 16 for u in ups):
            cnt[m] = ('count', lid[1], m[2])
    I.loop_notes.append((lid, 'driven' if src is not None else 'free', src, () if src is not None else tuple(
        (dict(o[2].conds), {m: (e, at_path(o[2].cells.get(m[2], ('undef',)), m[3])) for m, e in mus.items()}) for o in conts)))
    if src is None:
        settle_obligations(I, o0, base, lambda t: subst(t, cnt) if cnt else t)
        # not driven by a finite list: leave the loop-carried values symbolic
        tr = ('loop', lid, None, tuple(tuple(delta(o[2])) for o in conts),
              tuple(sorted(((m, e, tuple((tuple(delta(o[2])), at_path(o[2].cells.get(m[2], ('undef',)), m[3])) for o in conts))
                            for m, e in mus.items()), key=repr)))
        res = []
        for k, p, s in exits:
            s = s.copy()
            s.trace = s.trace + (tr,)
            res.append((k, p, s))
        return res

    firsts = {}
    if src is not None:
        conts, exits = latched(conts, exits, mus, ren2, more, base, entry, src)
        firsts = first_round(conts, exits, mus, ren2, src, more, base, rn2, lid)
    # folds
    cont_cases = []
    for o in conts:
        cd = tuple(((k, rn2(t)), v) for (k, t), v in delta(o[2]) if (k, t) != more)
        cd += tuple(((k, rn2(t)), v) for (k, t), v in searches(st, o[2]))
        cont_cases.append((cd, o[2]))
    early = []
    for k, p, s in exits:
        if s.conds.get(more) is True or more not in s.conds:
            early.append(tuple(((a, rn2(t)), v) for (a, t), v in delta(s) if (a, t) != more))
    final = {}
    pend = {}
    for m, e in mus.items():
        ups = [at_path(s.cells.get(m[2], ('undef',)), m[3]) or ('undef',) for _, s in cont_cases]
        pend[m] = (e, ups)
    # values of the previous round
    prev = {}
    for m, (e, ups) in pend.items():
        if m in ren2:
            continue
        us = {rn2(u) for u in ups}
        if len(us) == 1 and not mus_in(next(iter(us)), lid):
            u = next(iter(us))
            prev[m] = ('prev', src, e, u)
            final[m] = ('lastof', src, e, u)
    pc = dict(cnt)
    pc.update(prev)
    settle_obligations(I, o0, base, lambda t: subst(rn2(t), pc) if pc else rn2(t))
    for m, (e, ups) in pend.items():
        if m in final:
            continue
        if m in firsts:
            some_ = mk_lt(('i', 0), mk_len(firsts[m][1]))
            final[m] = mk_not(some_) if e[1] else some_
            continue
        if m in ren2:
            final[m] = mk_add(e, mk_len(src)) if src[0] != 'range' else src[2]
            continue
        kinds, cases, good = set(), [], True
        for (cd, s), u in zip(cont_cases, ups):
            r = strip_prefix(u, m)
            if r is None:
                good = False
                break
            if r[0] == '0':
                continue
            kinds.add(r[0])
            payload = subst(rn2(r[1]), prev)
            cd2 = tuple(((k, subst(t, prev)), v) for (k, t), v in cd)
            if mus_in(payload, lid) or any(mus_in(t, lid) for (k, t), v in cd2):
                good = False
                break
            cases.append((cd2, payload))
        if good and len(kinds) == 1:
            kd = kinds.pop()
            if kd == 'l':
                final[m] = mk_lcat(e, mk_lf(src, tuple(cases)))
            elif kd == 'm':
                final[m] = ('mapof', mk_lcat(('pairs', e) if e[0] != 'mapof' else e[1], mk_lf(src, tuple(cases))))
            else:
                body = mk_lf(src, tuple((c, ('list', (x,))) for c, x in cases))
                final[m] = mk_cat(e, joined(body) or ('strcat', body))
        elif good and not kinds:
            final[m] = e
        else:
            final[m] = ('fold', src, m, e, tuple((tuple(((k, rn2(t)), v) for (k, t), v in cd), rn2(u)) for (cd, s), u in zip(cont_cases, ups)))
    tr = ('loop', lid, src, tuple(cd for cd, _ in cont_cases), tuple(early))

    def resub(t, mp):
        if not isinstance(t, tuple):
            return t
        return subst(t, mp)

    res = []
    for k, p, s in exits:
        exhausted = s.conds.get(more) is False
        mp = dict(ren2) if not exhausted else {}
        if exhausted:
            mp.update(final)
        else:
            for m in mus:
                if m in prev:
                    mp[m] = prev[m]
                elif m not in ren2:
                    mp[m] = ('part',) + (final[m],)
        variants = [((), None)]
        if not exhausted and src[0] in ('lf', 'lcat', 'list'):
            variants = [(c, x) for c, x in leaves(src)]
        for vc, item in variants:
            s2 = s.copy()
            m2 = dict(mp)
            fixelem = {('idx', src, ('idxof', src)): ('elem', src)}
            it_map = {} if item is None else {('elem', src): item}

            def tx(t):
                t = subst(t, m2)
                t = subst(t, fixelem)
                if it_map:
                    t = subst(t, it_map)
                return t

            s2.cells = {c: tx(fix_iter(v, src, exhausted)) for c, v in s.cells.items()}
            conds = {}
            ok = True
            lst = [(a, v) for a, v in s.conds.items() if a in base]
            new = [((kk, tx(t)), v) for (kk, t), v in s.conds.items() if (kk, t) not in base and (kk, t) != more]
            sc = simp_conds(tuple(vc) + tuple(new))
            if sc is None:
                continue
            for a, v in lst:
                conds[a] = v
            for a, v in sc:
                conds[a] = v
            s2.conds = conds
            s2.trace = s2.trace + (tr + ('exhausted' if exhausted else 'early',),)
            p2 = tx(p) if isinstance(p, tuple) and k == 'brk' else p
            res.append((k, p2, s2))
    return merge(res)


def first_round(conts, exits, mus, ren2, src, more, base, rn2, lid):
    """a flag flipped by each round that does something tells whether this is the first of them; entered in ren2"""
    out = {}
    if src[0] == 'range':
        return out
    for m, e in mus.items():
        if e[0] != 'b' or m in ren2 or not conts:
            continue
        flip = ('b', not e[1])
        does, same = set(), set()
        for o in conts:
            s = o[2]
            u = at_path(s.cells.get(m[2], ('undef',)), m[3]) or ('undef',)
            at = s.conds.get(('b', m))
            c = tuple(((k, rn2(t)), v) for (k, t), v in s.conds.items() if (k, t) not in base and (k, t) not in (more, ('b', m)))
            if mus_in(c, lid) or any(contains(a[1], lambda x: x == m) for a in s.conds if a != ('b', m)):
                does = None
                break
            if at is flip[1]:
                if u not in (m, flip):
                    does = None
                    break
            elif u in (m, ('b', e[1])):
                same.add(c)
            elif u == flip:
                does.add(c)
            else:
                does = None
                break
        if not does or does & same:
            continue
        done = src if does == {()} else mk_lf(src, tuple((c, ('list', (('elem', src),))) for c in sorted(does, key=repr)))
        later = mk_lt(('i', 0), ('idxof', done))
        out[m] = (e, done)
        ren2[m] = mk_not(later) if e[1] else later
        for o in conts + exits:
            v = o[2].conds.pop(('b', m), None)
            if v is not None:
                o[2].conds[('b', later)] = v != e[1]
    return out


def aligned(L, src, rest):
    """does L have one item for each item of src under the conditions?"""
    return L == src and not rest or L[0] == 'lf' and L[1] == src and len(L[2]) == 1 and L[2][0][0] == rest and L[2][0][1][0] == 'list' and len(L[2][0][1][1]) == 1


def joined(body):
    """separator before each item but the first: the items, joined"""
    if body[0] != 'lf':
        return None
    src = body[1]
    if len(body[2]) == 1:
        # the separator is a variable that starts empty
        rest, l = body[2][0]
        x = l[1][0] if l[0] == 'list' and len(l[1]) == 1 else ('undef',)
        if x[0] == 'cat' and x[1][0][0] == 'prev' and x[1][0][2] == ('s', '') and x[1][0][3][0] == 's' and aligned(x[1][0][1], src, rest):
            return ('join', ('lf', src, ((rest, ('list', (mk_cat(*x[1][1:]),))),)), x[1][0][3])
        return None
    if len(body[2]) != 2:
        return None
    for (c1, l1), (c2, l2) in (body[2], body[2][::-1]):
        d1, d2 = dict(c1), dict(c2)
        for a in d1:
            t = a[1]
            if a[0] != 'b' or d1[a] is not True or d2.get(a) is not False or t[:3] != ('op', 'lt', ('i', 0)):
                continue
            rest = tuple(x for x in c1 if x[0] != a)
            if rest != tuple(x for x in c2 if x[0] != a) or l1[0] != 'list' or l2[0] != 'list' or len(l1[1]) != 1 or len(l2[1]) != 1:
                continue
            r = cut_suffix(l1[1][0], l2[1][0])
            if r is None:
                continue
            k = t[3]
            if src[0] == 'lop' and src[1] == 'enumerate' and k == ('pj', ('elem', src), None, 0) and not rest:
                L = src[2][0]
                items = subst((rest, l2), {('pj', ('elem', src), None, 1): ('elem', L)})
                if not contains(items, lambda x: x == src):
                    return ('join', mk_lf(L, (items,)), r)
            if k[0] == 'idxof' and aligned(k[1], src, rest) and not contains(l2, lambda x: x == k):
                return ('join', ('lf', src, ((rest, l2),)), r)
    return None


def searches(s, s2):
    """what loops run on the way from s to s2 found out by not ending early (or by ending early)"""
    out = []
    for tr in s2.trace[len(s.trace):]:
        if tr[0] == 'loop' and tr[2] is not None and tr[4]:
            a = ('b', ('search', tr[2], tuple(sorted(set(tr[4]), key=repr))))
            if (a, tr[5] == 'early') not in out:
                out.append((a, tr[5] == 'early'))
    return tuple(out)


def cut_suffix(t, x):
    """the constant r with t == r ++ x"""
    a = t[1] if t[0] == 'cat' else (t,)
    b = x[1] if x[0] == 'cat' else (x,)
    if len(a) == len(b) + 1 and a[0][0] == 's' and a[1:] == b:
        return a[0]
    return None


def latched(conts, exits, mus, skip, more, base, entry, src):
    """a flag that only ever flips, carried by a round that changes nothing else, is a search: the round that flips it
    finds, and the rounds after it are of no consequence"""
    for m, e in list(mus.items()):
        if e[0] != 'b' or m in skip:
            continue
        flip = not e[1]
        hits, rest, good = [], [], True
        for o in conts:
            s = o[2]
            if any(n is not m and at_path(s.cells.get(n[2], ('undef',)), n[3]) != n for n in mus if n not in skip) or len(s.effects) != len(conts[0][2].effects):
                good = False
                break
            u = at_path(s.cells.get(m[2], ('undef',)), m[3]) or ('undef',)
            at = s.conds.get(('b', m))
            u = subst(u, {m: ('b', at)}) if at is not None else u
            if at is flip:
                if u != ('b', flip):
                    good = False
                    break
                continue
            c = dict(s.conds)
            c.pop(('b', m), None)
            if contains(tuple(k[1] for k in c if k not in base), lambda x: x == m):
                good = False
                break
            s2 = s.copy()
            if u in (m, e):
                s2.conds = c
                rest.append(('cont', o[1], s2))
            elif u == ('b', flip):
                hits.append(c)
            elif at is not None or len(u) == 4 and u[:2] == ('op', 'or' if flip else 'and') and m in u[2:]:
                q = u if at is not None else u[3] if u[2] == m else u[2]
                if contains(q, lambda x: x == m):
                    good = False
                    break
                for v in (True, False):
                    c2 = simp_conds(tuple((k, w) for k, w in c.items()) + ((('b', q), v),))
                    if c2 is None:
                        continue
                    if v is flip:
                        hits.append(dict(c2))
                    else:
                        s3 = s.copy()
                        s3.conds = dict(c2)
                        rest.append(('cont', o[1], s3))
            else:
                good = False
                break
        done = [o for o in exits if o[2].conds.get(more) is False]
        if not good or not hits or len(done) != len(exits) or any(('b', m) in s.conds for _, _, s in done):
            continue
        out = []
        for k, p, s in done:
            for c in [None] + hits:
                s2 = s.copy()
                mp = {m: ('b', flip if c is not None else e[1])}
                s2.cells = {x: subst(fix_iter(v, src, True), mp) if isinstance(v, tuple) else v for x, v in s.cells.items()}
                if c is not None:
                    s2.conds = {a: v for a, v in s.conds.items() if a != more}
                    s2.conds.update({a: v for a, v in c.items() if a != more})
                    s2.conds[more] = True
                out.append((k, subst(p, mp) if isinstance(p, tuple) else p, s2))
        del mus[m]
        conts, exits = rest, out
    return conts, exits


def fix_iter(v, src, exhausted):
    def f(n):
        if len(n) == 3 and n[0] == 'iter' and n[2] == 'mid' and n[1] == src:
            return ('iter', src, 'done' if exhausted else 'rest')
        return n
    if not isinstance(v, tuple):
        return v
    if not contains(v, lambda x: len(x) == 3 and x[0] == 'iter' and x[2] == 'mid'):
        return v
    return walk(v, f)


def merge(res):
    """identical outcomes (forked only by drop flags) are one"""
    out, seen = [], set()
    for k, p, s in res:
        key_ = (k, repr(p), repr(sorted(s.cells.items(), key=repr)), repr(list(s.conds.items())), repr(s.effects), repr(s.trace), repr(getattr(s.ghost, 'calls', None)))
        if key_ in seen:
            continue
        seen.add(key_)
        out.append((k, p, s))
    return out
