"""C01–C03 (and the iterator part of C23): the product of an iterator's next() with a ghost walker of the specified
sequence is explored to a fixpoint over abstract states (symbolic child index); every transition is checked."""
from .common import *
from .query import query_shape, build, one, resolve_by_receiver, is_soup_ref, builder_body, sym_query

K = ('sym', 'κ')
ITEM = 'descitem'


class Ghost:
    """where the specified walk stands: PRO (root pending), AT(k) before child k, IN(k) inside child k's subtree, DONE"""
    __slots__ = ('ph', 'k', 'pend', 'ev')

    def __init__(self, ph, k=('i', 0), pend=None, ev=0):
        self.ph, self.k, self.pend, self.ev = ph, k, pend, ev

    def copy(self):
        return Ghost(self.ph, self.k, self.pend, self.ev)

    def key(self):
        return (self.ph, self.k, self.pend)

    def __repr__(self):
        w = {'PRO': 'before the root', 'AT': f'before number {show(self.k)}', 'IN': f'inside the subtree of number {show(self.k)}', 'DONE': 'at the end'}[self.ph]
        return w + (f' with {show(self.pend)} not delivered' if self.pend else '')


def match_template(t, v, hole, m):
    """structural match of value v with template t; binds the hole"""
    if t == hole:
        if 'z' in m:
            return m['z'] == v
        m['z'] = v
        return True
    if isinstance(t, tuple) and isinstance(v, tuple):
        return len(t) == len(v) and all(match_template(a, b, hole, m) for a, b in zip(t, v))
    return t == v


class Explorer:
    def __init__(self, ctx, label, kind, base, start, body, rule, y=None, accept=None, deref=None, tmpl=None):
        self.ctx, self.label, self.kind, self.base, self.start, self.body = ctx, label, kind, base, start, body
        self.rule, self.y, self.accept, self.deref, self.tmpl = rule, y, accept, deref, tmpl
        self.flt = None         # the filter whose consultations are counted
        self.asked = 0
        self.hints = None       # the rule size_hint is judged under
        self.key = label.replace(' ', '-')
        self.edges = {}
        self.heads = set()
        self.states = 0
        self.transitions = 0
        self.pushed = False
        self.delivered = self.ended = 0

    # -- knowledge ---------------------------------------------------------
    def child(self, k):
        return mk_idx(self.base, k)

    def within(self, I, st, k):
        return I.decide(st, mk_lt(k, mk_len(self.base)))

    def accepted(self, I, st, e):
        if self.accept is None:
            return True
        return I.decide(st, self.accept(e))

    def bad(self, msg, what='walk'):
        self.ctx.bad(f'{self.key}:{what}', f'{self.label}: {msg}', self.body['span'])

    def sync(self, I, st):
        g = st.ghost
        if g.pend is not None and self.accepted(I, st, g.pend) is False:
            g.pend = None
            g.ev += 1
        if self.kind == 'flat':
            while g.ph == 'AT' and self.within(I, st, g.k) and self.accepted(I, st, self.child(g.k)) is False:
                g.k = mk_add(g.k, ('i', 1))
                g.ev += 1

    # -- consultations of the filter ------------------------------------------
    def consult(self, I, fo, name, args, st, where):
        if name != 'Filter::matches' or self.flt is None or len(args) != 2 or I.deep(st, args[0]) != self.flt:
            return None
        self.sync(I, st)
        g = st.ghost
        e = I.deep(st, args[1])
        due = g.pend
        if due is None and self.kind == 'flat' and g.ph == 'AT' and self.within(I, st, g.k) is True:
            due = self.child(g.k)
        if e != due:
            self.bad(f'asks the filter about {show(e)} while the walk is {g!r}', 'ahead')
            return []
        if self.accepted(I, st, e) is not None:
            self.bad(f'asks the filter about {show(e)} again', 'again')
            return []
        self.asked += 1
        self.ctx.ok(self.rule, f'{self.label}: asks the filter about {show(e)}, the node the walk has come to, for the first time')
        return None

    # -- inner subtree iterators (induction hypothesis) -----------------------
    def intercept(self, I, fo, name, args, st, where):
        if fo.get('name') != 'next' or 'trait' not in fo or strip_generics(fo['trait']).split('::')[-1] != 'Iterator' or self.tmpl is None:
            return None
        if not args or args[0][0] != 'ref':
            return None
        v = I.val(st, args[0])
        if v[0] == 'agg' and v[1] == 'adt' and v[2] == self.tmpl[2]:
            if v[3] in ('run', 'end'):
                return self.inner(I, st, args[0], v, v[4][0], False)
            m = {}
            if match_template(self.tmpl, I.deep(st, v), ('sym', '□'), m):
                return self.inner(I, st, args[0], v, m['z'], True)
        return None

    def inner(self, I, st, ref, v, z, fresh):
        st = st.copy()
        cell, proj = ref[1], ref[2]
        x = I.load(st, cell, proj)
        while x[0] == 'ref':
            cell, proj = x[1], x[2]
            x = I.load(st, cell, proj)
        put = lambda s, how: I.store(s, cell, proj, ('agg', 'adt', v[2], how, (z,)))
        g = st.ghost
        if self.kind == 'flat':
            self.bad(f'enters the subtree of {show(z)} although only top-level nodes are searched', 'nested')
            return []
        if v[3] == 'end' and not fresh:
            return [('ret', NONE, st)]
        self.sync(I, st)
        if g.pend is not None:
            self.bad(f'goes on after {show(g.pend)} although it was not returned', 'lost')
            return []
        if fresh:
            if g.ph != 'AT' or z != self.child(g.k) or self.within(I, st, g.k) is not True:
                self.bad(f'enters the subtree of {show(z)} while the walk is {g!r}', 'order')
                return []
            g.ph = 'IN'
        elif g.ph != 'IN' or z != self.child(g.k):
            self.bad(f'continues the subtree of {show(z)} while the walk is {g!r}', 'order')
            return []
        e = (ITEM, z)
        s1 = st.copy()
        s1.ghost.pend = e
        s1.ghost.ev += 1
        put(s1, 'run')
        out = [('ret', some(e), s1)]
        if not fresh:        # a subtree contains at least its root
            s2 = st.copy()
            s2.ghost.ph, s2.ghost.k = 'AT', mk_add(g.k, ('i', 1))
            s2.ghost.ev += 1
            put(s2, 'end')
            out.append(('ret', NONE, s2))
        return out

    # -- abstraction -------------------------------------------------------
    def canon(self, I, st):
        """generalise the index, forget what is over; (key, state)"""
        st = st.copy()
        self.sync(I, st)
        g = st.ghost
        k = g.k
        m = {}
        if k[0] == 'i' and k[1] >= 1:
            m = {k: K, ('i', k[1] + 1): mk_add(K, ('i', 1))}
        elif k[0] == 'add' and k[1] == K:
            m = {K: mk_add(K, ('i', -k[2]))}
        rn = (lambda t: subst(t, m)) if m else (lambda t: t)
        if m:
            g.k = K
            if g.pend is not None:
                g.pend = rn(g.pend)
        st.cells = {c: rn(v) for c, v in st.cells.items()}
        k = g.k
        keep = {}
        ln = mk_len(self.base)
        for (kk, t), v in st.conds.items():
            t = rn(t)
            if kk == 'b' and t[0] == 'op' and t[1] == 'lt' and t[3] == ln:
                if t[2] in (k, mk_add(k, ('i', 1))):
                    keep[(kk, t)] = v
                continue
            items = [x for x in subterms(t) if isinstance(x, tuple) and x and (x[0] == ITEM or x[0] == 'idx' and x[1] == self.base)]
            if any(x != g.pend and x != self.child(k) for x in items):
                continue
            if any(x[0] == ITEM for x in items) and g.pend is None:
                continue
            keep[(kk, t)] = v
        st.conds = keep
        key = (tuple(sorted(((c, v) for c, v in st.cells.items()), key=repr)), g.key(), tuple(sorted(keep.items(), key=repr)))
        return repr(key), st

    def loop_hook(self, I, st, step, lid, live):
        seen = {}
        k0, s0 = self.canon(I, st)
        work = [(k0, s0)]
        seen[k0] = True
        out = []
        self.heads.add(lid[1:3])
        edges = self.edges.setdefault((str(lid[1]), lid[2]), {})
        while work:
            k, s = work.pop()
            self.states += 1
            if len(seen) > 400:
                raise Unsupported('the iterator has too many abstract states', str(lid[1]))
            ev = s.ghost.ev
            for o in step(s):
                self.transitions += 1
                if o[0] != 'cont':
                    out.append(o)
                    continue
                k2, s2 = self.canon(I, o[2])
                edges.setdefault(k, set()).add((k2, s2.ghost.ev > ev))
                if k2 not in seen:
                    seen[k2] = True
                    work.append((k2, s2))
        return out

    # -- driver ------------------------------------------------------------
    def node_of(self, x, st):
        if self.deref is None:
            return x
        return self.deref(x)

    def on_return(self, I, v, st):
        """check what one next() returned; the state after it, or None"""
        st = st.copy()
        g = st.ghost
        v = I.val(st, v)
        if not (v[0] == 'agg' and v[2] == OPTION):
            kv = st.conds.get(('var', v))
            if kv is None:
                self.bad(f'returns {show(I.deep(st, v))}: cannot tell what it delivers', 'shape')
                return None
            v = NONE if kv == 0 else some(('pj', v, 1, 0))
        v = I.deep(st, v)
        self.sync(I, st)
        if v[3] == 1:
            x = self.node_of(v[4][0], st)
            self.delivered += 1
            if g.ph == 'DONE':
                self.bad(f'returns {show(x)} after the end', 'end')
                return None
            if g.pend is not None:
                if x != g.pend:
                    self.bad(f'returns {show(x)} while the walk is {g!r}', 'item')
                    return None
                if self.accepted(I, st, x) is not True:
                    self.bad(f'returns {show(x)} without the filter accepting it', 'filter')
                    return None
                g.pend = None
            elif g.ph == 'PRO' and x == self.y:
                g.ph, g.k = 'AT', ('i', 0)
            elif self.kind == 'flat' and g.ph == 'AT' and x == self.child(g.k) and self.within(I, st, g.k) is True:
                if self.accepted(I, st, x) is not True:
                    self.bad(f'returns {show(x)} without the filter accepting it', 'filter')
                    return None
                g.k = mk_add(g.k, ('i', 1))
            else:
                self.bad(f'returns {show(x)} while the walk is {g!r}', 'item')
                return None
            self.ctx.ok(self.rule, f'{self.label}: delivers {show(x)}; then {g!r}')
        else:
            self.ended += 1
            if g.pend is not None:
                self.bad(f'ends although {show(g.pend)} was not returned', 'lost')
                return None
            if g.ph == 'DONE':
                pass
            elif g.ph == 'AT' and self.within(I, st, g.k) is False:
                g.ph = 'DONE'
            else:
                self.bad(f'ends while the walk is {g!r}', 'end')
                return None
            self.ctx.ok(self.rule, f'{self.label}: ends after the last of {show(self.base)}')
        g.ev += 1
        return st

    def explore(self):
        I = Interp(self.ctx.F)
        I.intercept.append(self.intercept)
        I.intercept.append(self.consult)
        if self.hints:
            I.intercept.append(self.sized)
        I.loop_hook = self.loop_hook
        self.I = I
        st = St()
        cell = (0, 'iter')
        st.cells[cell] = self.start
        st.ghost = Ghost('PRO' if self.kind == 'walk' else 'AT')
        k0, s0 = self.canon(I, st)
        seen = {k0}
        work = [s0]
        try:
            while work:
                s = work.pop()
                self.states += 1
                if len(seen) > 300:
                    raise Unsupported('the iterator has too many abstract states', self.label)
                if self.hints:
                    self.hint(I, s, cell)
                for kd, v, s2 in I.exec_body(self.body['key'], [('ref', cell, ())], s):
                    self.transitions += 1
                    if kd == 'panic':
                        self.bad(f'can panic: {v[0]}', 'panic')
                        continue
                    if kd != 'ret':
                        continue
                    s2 = s2.copy()
                    s2.cells = {c: x for c, x in s2.cells.items()}
                    s3 = self.on_return(I, v, s2)
                    if s3 is None:
                        continue
                    s3.cells = {cell: I.deep(s3, s3.cells[cell])}
                    s3.effects, s3.trace, s3.fc = (), (), 0
                    k, s4 = self.canon(I, s3)
                    if k not in seen:
                        seen.add(k)
                        work.append(s4)
        except Unsupported as e:
            self.bad(f'no rule for this construct: {e}', 'cannot-analyse')
        self.ctx.analysed |= I.inlined
        self.ctx.paths += self.transitions
        self.ctx.extra['states'] = self.ctx.extra.get('states', 0) + self.states
        if not self.ctx.viol and not (self.delivered and self.ended):
            self.bad('never delivers an item' if not self.delivered else 'never ends', 'vacuous')
        return self

    # -- size hints ----------------------------------------------------------
    def sized(self, I, fo, name, args, st, where):
        """size_hint of an iterator within"""
        if fo.get('name') != 'size_hint' or not args:
            return None
        v = I.deep(st, args[0])
        own = lambda x: x[0] == 'agg' and x[1] == 'adt' and self.ctx.F.find_impl(x[2], 'Iterator', 'size_hint')
        if v[0] == 'agg' and v[1] == 'adt':
            if self.tmpl is not None and v[2] == self.tmpl[2] and v[3] in ('run', 'end') and own(v):
                return [('ret', tup(('i', 0), NONE) if v[3] == 'run' else tup(('i', 0), some(('i', 0))), st)]
            if v[2] in self.ctx.F.adts and self.ctx.F.adts[v[2]].get('local') and not own(v):
                return [('ret', tup(('i', 0), NONE), st)]
        if v[0] == 'agg' and v[1:3] == ('it', 'flatten'):
            outer = v[4][0]
            if outer[0] == 'agg' and outer[1] == 'adt' and not own(outer):
                lo = ('call', 'hint::lower', (v,)) if self.tmpl is None or own(self.tmpl) else ('i', 0)
                return [('ret', tup(lo, ('call', 'hint::upper', (v,))), st)]
        return None

    def hint(self, I, s, cell):
        """what size_hint says in a state, against what the walk still has to deliver there"""
        from .panics import Prove
        b = self.ctx.F.find_impl(s.cells[cell][2], 'Iterator', 'size_hint')
        g = s.ghost
        if b is None:
            self.ctx.ok(self.hints, f'{self.label}: no size_hint of its own (none or more): {g!r}')
            return
        ln = mk_len(self.base)
        for kd, v, st in I.exec_body(b['key'], [('ref', cell, ())], s.copy()):
            if kd != 'ret':
                if kd == 'panic':
                    self.bad(f'size_hint can panic: {v[0]}', 'hint')
                continue
            v = I.deep(st, v)
            within = self.within(I, st, g.k)
            over = g.ph == 'DONE' or g.ph == 'AT' and within is False
            gone = ('i', 0) if g.ph == 'PRO' else g.k if g.ph == 'AT' else mk_add(g.k, ('i', 1))
            left = ('i', 0) if over else I.sub(ln, gone) if gone != ('i', 0) else ln
            left_ = left if left[0] == 'i' or gone[0] == 'i' else ('op', 'Sub', ln, gone)
            lows = [('i', 0)] if self.accept is not None or over else [left, left_] if g.ph != 'PRO' else [mk_add(ln, ('i', 1))]
            if v[0] != 'agg' or v[1] != 'tuple' or len(v[4]) != 2:
                self.bad(f'size_hint is {show(v)}: cannot tell what it promises', 'hint')
                continue
            lo, hi = v[4]
            P = Prove(st.conds)
            P.le_(('i', 0), ln)
            if not over and g.ph == 'AT' and within is True or g.ph == 'IN':
                P.le_(g.k, ln, -1)
            if g.ph == 'IN' and lows != [('i', 0)]:
                lows.append(('op', 'Sub', I.sub(ln, g.k), ('i', 1)))
            if lo == ('i', 0) or lo[:2] == ('op', 'Sub') and over and P.le(lo[2], lo[3]) or any(lo == m or P.le(lo, m) for m in lows):
                self.ctx.ok(self.hints, f'{self.label}: at least {show(lo)}: {g!r}')
            else:
                self.bad(f'size_hint promises at least {show(lo)} items while the walk is {g!r}' + (', whatever the filter rejects' if self.accept is not None else ''), 'hint-lower')
            if not (hi[0] == 'agg' and hi[2] == OPTION):
                kv = st.conds.get(('var', hi))
                if hi[:2] == ('call', 'hint::upper') and kv is None:
                    self.ctx.ok(self.hints, f'{self.label}: at most what the iterators within say: {g!r}')
                    continue
                if kv != 0:
                    self.bad(f'size_hint promises at most {show(hi)} while the walk is {g!r}', 'hint-upper')
                continue
            if hi[3] == 0:
                self.ctx.ok(self.hints, f'{self.label}: no upper bound: {g!r}')
                continue
            top = hi[4][0]
            if over or self.kind == 'flat' and (top in (left, left_) or P.le(left, top)):
                self.ctx.ok(self.hints, f'{self.label}: at most {show(top)}: {g!r}')
            else:
                self.bad(f'size_hint promises at most {show(top)} items while the walk is {g!r}', 'hint-upper')

    def stuck(self):
        """loop-head states on a cycle without progress of the walk"""
        out = []
        for (fn, _), e in self.edges.items():
            idle = {a: {b for b, p in bs if not p} for a, bs in e.items()}
            for a in idle:
                # reachable from a through idle edges back to a
                seen, work = set(), list(idle[a])
                while work:
                    x = work.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    work.extend(idle.get(x, ()))
                if a in seen:
                    out.append(fn)
                    break
        return out


def template(ctx):
    """the iterator Node::descendants(□) starts with"""
    bodies = [b for b in ctx.F.local() if b['kind'] == 'fn' and b.get('root') and b.get('name') == 'descendants' and not b.get('impl_trait')
              and strip_generics(b['path']).endswith('Node::descendants')]
    if len(bodies) != 1:
        ctx.bad('anchor:Node::descendants', f'Node::descendants: {len(bodies)} found')
        return None
    return one(ctx, bodies[0], [('sym', '□')], 'descendants', 'Node::descendants')


def next_body(ctx, v):
    if v is None or v[0] != 'agg' or v[1] != 'adt':
        return None
    return ctx.F.find_impl(v[2], 'Iterator', 'next')


def walk_explorer(ctx, rule):
    t = template(ctx)
    if t is None:
        return None
    y = ('sym', 'root')
    start = subst(t, {('sym', '□'): y})
    b = next_body(ctx, start)
    if b is None:
        ctx.bad('anchor:descendants', f'Node::descendants gives {show(start)}: not an iterator of this crate')
        return None
    return Explorer(ctx, 'descendants of a node', 'walk', ('call', 'Node::children', (y,)), start, b, rule, y=y, tmpl=t)


def query_explorer(ctx, mode, rule, flt=None):
    """running the query doc.strict()/doc.recursive() with an opaque filter (or the empty one)"""
    q = query_shape(ctx)
    t = template(ctx)
    so = ctx.adt('Soup')
    if q is None or t is None or so is None:
        return None
    r = build(ctx, mode, 'doc', [])
    if r is None:
        return None
    v = r[0]
    a, doc, fi, mi, n = q
    if flt is not None:
        v = v[:4] + (v[4][:fi] + (flt,) + v[4][fi + 1:],)
    q_into = ctx.method('IntoIterator', 'into_iter', lambda s: adt_of_type(s).split('::')[-1] == 'Query', 'IntoIterator for Query')
    start = one(ctx, q_into, [v], 'into_iter', 'iterating a query', resolve_by_receiver(ctx, 'doc'))
    b = next_body(ctx, start)
    if b is None:
        if start is not None:
            ctx.bad('anchor:QueryIter', f'a query iterates with {show(start)}: not an iterator of this crate')
        return None
    fs = ctx.F.adts[so]['variants'][0]
    vec = [i for i, ty in enumerate(fs['ftys']) if adt_of_type(ty).split('::')[-1] == 'Vec']
    if len(vec) != 1:
        ctx.bad('anchor:Soup', 'the document has no single list of top-level nodes')
        return None
    base = ('pj', ('sym', 'doc'), None, vec[0])
    deref = deref_fn(ctx)
    acc = (lambda e: ('call', 'Filter::matches', (flt, e))) if flt is not None else None
    return Explorer(ctx, f'{mode} query', 'tree' if mode == 'recursive' else 'flat', base, start, b, rule, accept=acc, deref=deref, tmpl=t)


def deref_fn(ctx):
    qi = ctx.adt('QueryItem')
    de = ctx.method('Deref', 'deref', lambda s: adt_of_type(s) == qi, 'Deref for QueryItem')
    memo = {}

    def f(x):
        if x in memo:
            return memo[x]
        r = x
        if x[0] == 'agg' and x[2] == qi and de is not None:
            r = one(ctx, de, [x], 'deref', 'dereferencing a result') or x
        memo[x] = r
        return r
    return f


def no_overrides(ctx):
    """the iterators provide next() only: every other way to consume them is std's default on top of it"""
    n = 0
    for im in ctx.F.impls:
        tr = im.get('traitname', '').split('<')[0].split('::')[-1]
        if tr in ('Iterator', 'DoubleEndedIterator') and adt_of_type(im['self']) in ctx.F.adts and ctx.F.adts[adt_of_type(im['self'])].get('local'):
            for m in im['methods']:
                if m['name'] in ('next', 'size_hint') or not m.get('own', True):
                    continue
                ctx.bad(f'override:{adt_of_type(im["self"]).split("::")[-1]}::{m["name"]}',
                        f'{im["self"]} overrides {m["name"]}: consumers would bypass the verified next()')
            n += 1
            ctx.ok('default-consumers', f'{im["self"]}: consumed through next() only')
    return n


@prop('C01')
def c01(ctx):
    """Product of next() with the specified pre-order walk, explored to a fixpoint: (1) descendants() of an arbitrary
    node, assuming the walk for its children (induction on the tree), for every child index; (2) iterating a document
    in recursive mode, over every top-level index.  Each delivered node, each subtree entered and the end must be
    what the walk prescribes."""
    e = walk_explorer(ctx, 'pre-order')
    e and e.explore()
    e = query_explorer(ctx, 'recursive', 'document-walk', UNIT)
    if e:
        e.accept = None
        e.explore()
    no_overrides(ctx)
    ctx.floor('pre-order', 3)
    ctx.floor('document-walk', 3)
    ctx.floor('default-consumers', 2)


@prop('C02')
def c02(ctx):
    """Product of next() in strict mode (as selected by strict()) with the walk over the top-level list, explored to a
    fixpoint over a symbolic position with an opaque filter."""
    e = query_explorer(ctx, 'strict', 'top-level-walk', ('sym', 'filter'))
    e and e.explore()
    no_overrides(ctx)
    ctx.floor('top-level-walk', 3)


@prop('C03')
def c03(ctx):
    """Product of next() with the specified filtered walk, in both modes, with an opaque filter: a node is returned only
    when the filter's verdict on that very node is true on the path, and passed over only when it is false."""
    for m in ('recursive', 'strict'):
        e = query_explorer(ctx, m, 'filtered-' + m, ('sym', 'filter'))
        e and e.explore()
        ctx.floor('filtered-' + m, 3)
    no_overrides(ctx)


# looking at a node, or advancing over nodes
LOOKS = {'Filter::matches', 'Pattern::matches', 'Iterator::next', 'Node::name', 'Node::text', 'Node::attrs', 'Node::get', 'Node::children', 'Node::all_text'}

# consumers that go on to the end of what they are given
TO_END = {'Iterator::' + n for n in ('last', 'count', 'reduce', 'fold', 'rfold', 'collect', 'for_each', 'max', 'min', 'max_by', 'min_by', 'max_by_key', 'min_by_key', 'sum', 'product', 'partition', 'unzip',
                                     'eq', 'ne', 'cmp', 'partial_cmp', 'lt', 'gt', 'le', 'ge', 'is_sorted')} | {'FromIterator::from_iter', 'Extend::extend'}


def at_rest(ctx, b, args, what, rule, setup=None):
    """the operation looks at no node: none of the looking calls on any of its paths"""
    if b is None:
        return
    seen = []

    def ic(I, fo, name, a, st, where):
        if name in LOOKS and 'trait' in fo or name in TO_END:
            seen.append((name, where))
        return None

    def su(I):
        I.intercept.insert(0, ic)
        if setup:
            setup(I)
    outs, I = ctx.run(b, args, setup=su)
    if outs is None:
        return
    if seen:
        ctx.bad(f'eager:{short(b["path"])}', f'{what} already calls {seen[0][0]}', str(seen[0][1]).split(' (')[0])
    else:
        ctx.ok(rule, f'{what} looks at no node')


def single_step(ctx, recv, self_, rule):
    """first() advances the iteration once"""
    b = builder_body(ctx, 'first', recv)
    su = resolve_by_receiver(ctx, 'doc')
    if b is None:
        return

    def ic(I, fo, name, args, st, where):
        if name == 'Iterator::next':
            st = st.copy()
            st.effects = st.effects + (('step', where),)
            cur = I.deep(st, args[0])
            if args[0][0] == 'ref':
                I.store(st, args[0][1], args[0][2], ('call', 'advanced', (cur,)))
            return [('ret', ('call', 'fresh-next', (cur,)), st)]
        if name in LOOKS and 'trait' in fo or name in TO_END:
            st.effects = st.effects + (('look', name),)
        return None

    def setup(I):
        I.intercept.append(ic)
        su(I)
    outs, I = ctx.run(b, [self_], setup=setup)
    if outs is None:
        return
    for v, s in ctx.rets(outs, b, effects=False):
        n = [e for e in s.effects if e[0] == 'step']
        other = [e for e in s.effects if e[0] != 'step']
        if len(n) == 1 and not other:
            ctx.ok(rule, f'first() on a {recv} takes one step')
        else:
            ctx.bad(f'first:{recv}', f'first() on a {recv} takes {len(n)} steps of the iteration' + (f' and does {other[0]}' if other else ''), b['span'])


@prop('C28')
def c28(ctx):
    """The product of C03 with every consultation of the (opaque) filter as a step of its own: each must be about the node
    the walk has come to, and be the first about it.  Building a query and starting its iteration call nothing that
    looks at a node; first() advances the iteration once."""
    for m in ('recursive', 'strict'):
        e = query_explorer(ctx, m, 'asked-' + m, ('sym', 'filter'))
        if e:
            e.flt = ('sym', 'filter')
            e.explore()
            if not e.asked and not ctx.viol:
                ctx.bad(f'{e.key}:vacuous', f'{e.label}: no consultation of the filter was found', e.body['span'])
        ctx.floor('asked-' + m, 4)
    sq = sym_query(ctx)
    D = ('sym', 'doc')
    su = resolve_by_receiver(ctx, 'doc')
    for recv, self_ in (('query', sq), ('doc', D)):
        for nm, n in (('recursive', 0), ('strict', 0), ('tag', 1), ('attr', 2), ('attr_name', 1), ('attr_value', 1), ('class', 1), ('all', 0)):
            b = builder_body(ctx, nm, recv)
            at_rest(ctx, b, [self_] + [('sym', f'p{i}') for i in range(n)], f'{nm}() on a {recv}', 'at-rest', su)
        single_step(ctx, recv, self_, 'one-step')
    at_rest(ctx, ctx.fn('Soup::iter'), [D], 'Soup::iter', 'at-rest', su)
    at_rest(ctx, ctx.method('IntoIterator', 'into_iter', is_soup_ref, 'IntoIterator for &Soup'), [D], 'iterating &Soup', 'at-rest', su)
    at_rest(ctx, ctx.method('IntoIterator', 'into_iter', lambda s: adt_of_type(s).split('::')[-1] == 'Query', 'IntoIterator for Query'), [sq], 'iterating a query', 'at-rest', su)
    no_overrides(ctx)
    ctx.floor('at-rest', 19)
    ctx.floor('one-step', 2)


@prop('C30')
def c30(ctx):
    """size_hint in every state the explorations of C01 and C03 reach, against the number of items the specified walk still has
    to deliver there: the lower bound must be provably below it for every document and filter (so zero in a filtered
    search), an upper bound may only be given where the walk is over or runs over a flat list.  Where size_hint is not
    overridden the default promises nothing."""
    es = [walk_explorer(ctx, 'hint-walk'), query_explorer(ctx, 'recursive', 'hint-recursive', ('sym', 'filter')), query_explorer(ctx, 'strict', 'hint-strict', ('sym', 'filter'))]
    for e in es:
        if e:
            e.hints = 'hint'
            e.explore()
    ctx.floor('hint', 6)
