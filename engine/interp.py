"""Path-sensitive value-flow analysis over MIR.

A body is evaluated abstractly on symbolic arguments: every path through its control-flow graph yields an outcome
(return value as a term, conditions on symbolic atoms, effects).  Nothing is executed and no solver is used: branch
conditions are looked up among the facts already assumed on the path (constant folding, equality with distinct
constants, order against a bound) and both sides are followed otherwise.  Loops are generalised to a fixpoint and
summarised as folds over the list they iterate.  Local functions and small std combinators are inlined, so it does
not matter into how many helpers the code is split; everything else is an uninterpreted call.
"""
import os
import json
import re
from terms import *
from facts import Facts, strip_generics, adt_of_type

STRINGY = re.compile(r"^(&(?:'[a-z_]+ )?(?:mut )?)*(str|std::string::String|std::borrow::Cow<(?:'[a-z_]+, )?str>|"
                     r"std::boxed::Box<str>|tendril::(?:tendril::)?Tendril<.*UTF8.*>|tendril::StrTendril|scraper::StrTendril)$")
COW = 'std::borrow::Cow'
STRUCT_TRANSPARENT = {'std::boxed::Box', 'std::rc::Rc', 'std::sync::Arc'}


def is_stringy(t):
    return bool(STRINGY.match(t.strip()))


class Unsupported(Exception):
    """a construct the analysis has no rule for (reported, never skipped)"""

    def __init__(self, msg, where=''):
        super().__init__(msg)
        self.msg, self.where = msg, where

    def __str__(self):
        return f'{self.msg}{" at " + self.where if self.where else ""}'


class St:
    __slots__ = ('cells', 'conds', 'effects', 'trace', 'fc', 'ghost')

    def __init__(self):
        self.cells, self.conds, self.effects, self.trace, self.fc, self.ghost = {}, {}, (), (), 0, None

    def copy(self):
        n = St.__new__(St)
        n.cells, n.conds = dict(self.cells), dict(self.conds)
        n.effects, n.trace, n.fc = self.effects, self.trace, self.fc
        n.ghost = self.ghost.copy() if self.ghost is not None else None
        return n


def split_off(t):
    """integer term as (base, offset)"""
    if t[0] == 'add':
        return t[1], t[2]
    if t[0] == 'i':
        return ('i', 0), t[1]
    return t, 0


# std functions that can panic on their arguments; those whose models state the condition themselves
PANICKY = {l.strip() for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'std_panics.txt')) if l[0] != '#'}
OBLIGING = {'Index::index', 'IndexMut::index_mut', 'str::split_at', 'Option::unwrap', 'Option::expect', 'Result::unwrap', 'Result::expect',
            'Result::unwrap_err', 'Result::expect_err'}


class Interp:
    def __init__(self, facts, models=None, max_paths=6000):
        self.F = facts
        import models as M
        self.models = models or M.MODELS
        self.intercept = []          # functions (interp, fobj, name, args, st, where) -> None | outcomes
        self.keep_calls = {'Node::descendants'}     # provided methods kept as vocabulary of the specification
        self.cur_loop = None
        self.loop_hook = None        # replaces loop generalisation (iterator state machines)
        self.fntab = {}
        self.stack = []
        self.rec = set()             # recursion edges met
        self.recs = []               # the same, with values: (caller, callee, arguments of the callee's frame, of the call, conds, where)
        self.frames = []             # arguments of the bodies on the stack
        self.loop_notes = []         # (where, verdict): what makes each loop end
        self.oblig = []              # panic obligations: (kind, detail, conds, where)
        self.panics = []
        self.max_paths = max_paths
        self.steps = 0
        self.max_steps = 400000
        self.max_depth = 70
        self.inlined = set()
        self.externs = {}
        self.loops = 0

    # ---------------------------------------------------------------- conditions
    def discr_test(self, b):
        """b as a test for one variant: (term, variant, type) or None"""
        if b[0] == 'op' and b[1] == 'eq':
            for x, y in ((b[2], b[3]), (b[3], b[2])):
                if x[0] == 'discr' and y[0] == 'i' and x[2] != COW and self.variants(x[2]):
                    a = self.F.adts.get(x[2])
                    for var in self.variants(x[2]):
                        if (int(a['variants'][var]['discr']) if a else var) == y[1]:
                            return x[1], var, x[2]
        return None

    def decide(self, st, b):
        """known truth value of a boolean term on this path, or None"""
        if b[0] == 'b':
            return b[1]
        if b[0] == 'op' and b[1] == 'eq' and 'discr' in (b[2][0], b[3][0]):
            dt = self.discr_test(b)
            if dt is not None:
                k = st.conds.get(('var', dt[0]))
                return None if k is None else k == dt[1]
        if b[0] == 'op' and b[1] == 'not':
            r = self.decide(st, b[2])
            return None if r is None else not r
        r = st.conds.get(('b', b))
        if r is not None:
            return r
        if b[0] == 'op' and b[1] == 'eq' and is_const(b[3]):
            for (k, t), v in st.conds.items():
                if k == 'b' and v and t[0] == 'op' and t[1] == 'eq' and t[2] == b[2] and is_const(t[3]) and t[3] != b[3]:
                    return False
        if b[0] == 'op' and b[1] == 'eq' and not (is_const(b[2]) or is_const(b[3])):
            for x, y in ((b[2], b[3]), (b[3], b[2])):       # texts of different lengths
                if st.conds.get(('b', ('op', 'eq', ('len', x), ('len', y)))) is False:
                    return False
        if b[0] == 'op' and b[1] == 'lt':
            l, r_ = b[2], b[3]
            if r_[0] == 'len' or True:
                bl, ol = split_off(l)
                br, orr = split_off(r_)
                for (k, t), v in st.conds.items():
                    if k == 'b' and t[0] == 'op' and t[1] == 'lt':
                        b2l, o2l = split_off(t[2])
                        b2r, o2r = split_off(t[3])
                        if b2l == bl and b2r == br:
                            if v and (ol - orr) <= (o2l - o2r):
                                return True
                            if not v and (ol - orr) >= (o2l - o2r):
                                return False
                        # not (b < a) and we ask b2... : a<b true implies not (b<a)
                        if v and b2l == br and b2r == bl and (o2l - o2r) >= (orr - ol) - 0:
                            # t: X+o2l < Y+o2r ; asked: Y+ol < X+orr  -> X-Y < o2r-o2l ; X-Y > ol-orr
                            if (o2r - o2l) - 1 <= (ol - orr):
                                return False
        return None

    def assume(self, st, b, v):
        """state with b == v, or None if contradictory"""
        if b[0] == 'b':
            return st if b[1] == v else None
        if b[0] == 'op' and b[1] == 'not':
            return self.assume(st, b[2], not v)
        d = self.decide(st, b)
        if d is not None:
            return st if d == v else None
        st = st.copy()
        if b[0] == 'op' and b[1] == 'eq' and 'discr' in (b[2][0], b[3][0]):
            dt = self.discr_test(b)
            if dt is not None and (v or len(self.variants(dt[2])) == 2):
                st.conds[('var', dt[0])] = dt[1] if v else 1 - dt[1]
                return st
        st.conds[('b', b)] = v
        return st

    def fork_bool(self, st, b):
        if b[0] == 'op' and b[1] in ('and', 'or'):
            out = []
            for v1, s1 in self.fork_bool(st, b[2]):
                if v1 == (b[1] == 'or'):
                    out.append((v1, s1))
                else:
                    out.extend(self.fork_bool(s1, b[3]))
            return out
        if b[0] == 'op' and b[1] == 'not':
            return [(not v, s) for v, s in self.fork_bool(st, b[2])]
        d = self.decide(st, b)
        if d is not None:
            return [(d, st)]
        if b[0] == 'op' and b[1] == 'eq' and 'discr' in (b[2][0], b[3][0]):
            dt = self.discr_test(b)
            if dt is not None:
                return [(k == dt[1], s) for k, s in self.fork_variant(st, dt[0], dt[2])]
        out = []
        for v in (True, False):
            s = self.assume(st, b, v)
            if s is not None:
                out.append((v, s))
        return out

    def variants(self, adt):
        a = self.F.adts.get(adt)
        if a:
            return list(range(len(a['variants'])))
        if adt in (OPTION, RESULT, CF):
            return [0, 1]
        return None

    def fork_variant(self, st, t, adt):
        """[(variant index, state)]"""
        if t[0] == 'agg' and t[1] == 'adt':
            return [(t[3], st)]
        if t[0] == 'upd':
            return self.fork_variant(st, t[1], adt)
        k = st.conds.get(('var', t))
        if k is not None:
            return [(k, st)]
        vs = self.variants(adt)
        if vs is None:
            raise Unsupported(f'variant of unknown type {adt}')
        out = []
        for v in vs:
            if self.uninhabited(adt, v, t):
                continue
            s = st.copy()
            s.conds[('var', t)] = v
            out.append((v, s))
        return out

    def uninhabited(self, adt, v, t):
        return False

    # ---------------------------------------------------------------- memory
    def project(self, v, p, st):
        """p = ('f', variant|None, i) or ('x', idx)"""
        if v[0] == 'ref':
            v = self.load(st, v[1], v[2])
        if p[0] == 'x':
            return mk_idx(v, p[1])
        _, var, i = p
        if v[0] == 'agg':
            if i < len(v[4]):
                if v[1] == 'adt' and var is not None and v[3] != var:
                    return ('bot',)
                return v[4][i]
            return ('bot',)
        if v[0] == 'upd':
            if v[2] == var and v[3] == i:
                return v[4]
            return self.project(v[1], p, st)
        if v[0] == 'ite':
            return ('ite', tuple((c, self.project(x, p, st)) for c, x in v[1]))
        return ('pj', v, var, i)

    def load(self, st, cell, proj):
        v = st.cells.get(cell, ('undef',))
        for p in proj:
            v = self.project(v, p, st)
        return v

    def store(self, st, cell, proj, val):
        if not proj:
            st.cells[cell] = val
            return
        st.cells[cell] = self._upd(st.cells.get(cell, ('undef',)), proj, val, st)

    def _upd(self, v, proj, val, st):
        if not proj:
            return val
        p, rest = proj[0], proj[1:]
        if v[0] == 'ref':
            self.store(st, v[1], v[2] + proj, val)
            return v
        if p[0] == 'x':
            it = as_items(v)
            if it is not None and p[1][0] == 'i' and p[1][1] < len(it):
                n = list(it)
                n[p[1][1]] = self._upd(n[p[1][1]], rest, val, st)
                return ('list', tuple(n)) if v[0] == 'list' else (v[0], v[1], v[2], v[3], tuple(n))
            return ('setidx', v, p[1], self._upd(mk_idx(v, p[1]), rest, val, st))
        _, var, i = p
        if v[0] == 'agg' and (v[1] != 'adt' or var is None or v[3] == var) and i < len(v[4]):
            f = list(v[4])
            f[i] = self._upd(f[i], rest, val, st)
            return v[:4] + (tuple(f),)
        old = self.project(v, p, st)
        return ('upd', v, var, i, self._upd(old, rest, val, st))

    def deep(self, st, t, depth=0):
        """replace pointers inside a term by what they point to"""
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == 'ref':
            if depth > 12:
                return ('cyclic',)
            return self.deep(st, self.load(st, t[1], t[2]), depth + 1)
        if t[0] in ('i', 'b', 's', 'sym', 'bytes', 'fn', 'undef'):
            return t
        n = tuple(self.deep(st, x, depth) if isinstance(x, tuple) else x for x in t)
        return n if n == t else renorm(n)

    def val(self, st, t):
        """follow pointers at the top of a value"""
        k = 0
        while t[0] == 'ref':
            t = self.load(st, t[1], t[2])
            k += 1
            if k > 20:
                raise Unsupported('cyclic reference')
        return t

    # ---------------------------------------------------------------- places
    def lv(self, st, fr, place, b):
        """(cell, proj) of a place, or ('term', value) when it goes through an opaque reference"""
        cell, proj = (fr, place[0]), ()
        var = None
        skip_field = False
        for e in place[1:]:
            k = e[0]
            if k in ('box', 'boxinner'):
                continue
            if k == 'deref':
                v = self.load(st, cell, proj)
                if v[0] == 'ref':
                    cell, proj = v[1], v[2]
                # else: a transparent reference or a box: same place
                var = None
            elif k == 'field':
                if len(e) > 2 and e[2]:      # union (MaybeUninit, ManuallyDrop): same place
                    skip_field = True
                    continue
                if skip_field:
                    continue
                if var == 'cow':
                    var = None
                    continue
                proj = proj + (('f', var, e[1]),)
                var = None
            elif k == 'downcast':
                var = 'cow' if e[2] == COW else e[1]
            elif k == 'index':
                proj = proj + (('x', self.val(st, st.cells.get((fr, e[1]), ('undef',)))),)
            elif k == 'constindex':
                v = self.val(st, self.load(st, cell, proj))
                i = ('i', e[1]) if not e[3] else mk_add(mk_len(v), ('i', -e[1]))
                proj = proj + (('x', i),)
            elif k == 'subslice':
                v = self.val(st, self.load(st, cell, proj))
                it = as_items(v)
                if it is not None:
                    to = len(it) - e[2] if e[3] else e[2]
                    return ('term', ('list', tuple(it[e[1]:to])))
                return ('term', ('lop', 'subslice', (v, ('i', e[1]), ('i', e[2]))))
            else:
                raise Unsupported(f'place element {k}')
        return (cell, proj)

    def read(self, st, fr, place, b):
        if len(place) > 1 and place[-1][0] in ('box', 'boxinner'):
            r = self.lv(st, fr, place, b)
            return ('ref', r[0], r[1]) if r[0] != 'term' else r[1]
        # cow downcasts are transparent
        r = self.lv(st, fr, place, b)
        if r[0] == 'term':
            return r[1]
        return self.load(st, *r)

    # ---------------------------------------------------------------- operands
    def operand(self, st, fr, o, b):
        if 'p' in o:
            return self.read(st, fr, o['p'], b)
        if o['k'] == 'rtcheck':
            return TRUE
        if 'fn' in o:
            return self.fnval(o['fn'])
        if 'closure' in o:
            return ('agg', 'closure', o['closure'], 0, ())
        if 'str' in o:
            return ('s', o['str'])
        if 'bytes' in o:
            return ('bytes', tuple(int(x) for x in o['bytes']))
        if 'int' in o:
            if o['ty'] == 'bool':
                return ('b', o['int'] != '0')
            a = self.F.adts.get(o.get('adt'))
            if a and a['kind'] == 'enum':
                if 'variant' not in o:
                    raise Unsupported('constant of type ' + o['ty'], b['path'])
                n = len(a['variants'][o['variant']]['fields'])
                if n == 0:
                    return ('agg', 'adt', o['adt'], o['variant'], ())
                if n == 1:
                    t = o['ty'].rstrip('>').endswith('bool')
                    return ('agg', 'adt', o['adt'], o['variant'], (('b', o['int'] != '0') if t else ('i', int(o['int'])),))
                raise Unsupported('constant of type ' + o['ty'], b['path'])
            return ('i', int(o['int']))
        if 'promoted' in o:
            return self.const_body(o['promoted'])
        if 'constkey' in o:
            bb = self.F.bodies.get(o['constkey'])
            if bb is not None:
                ty = bb['locals'][0]
                if adt_of_type(ty).split('::')[0] in ('phf', 'lazy_static'):
                    return ('const', bb['path'])
                return self.const_body(o['constkey'])
            return ('const', o.get('cpath') or o.get('static'))
        if 'static' in o:
            return ('const', o['static'])
        if 'zst' in o:
            if o['ty'] == '()':
                return UNIT
            return ('zst', o['ty'])
        if 'cpath' in o:
            return ('const', o['cpath'])
        return ('const?', o.get('ty', '?'))

    def const_body(self, key):
        outs = [x for x in self.exec_body(key, [], St()) if x[0] == 'ret']
        if len(outs) != 1:
            raise Unsupported(f'constant with {len(outs)} values', key)
        return self.deep(outs[0][2], outs[0][1])

    def fnval(self, f):
        if 'ctor' in f:
            fid = 'ctor:' + f['ctor'][0] + '#' + str(f['ctor'][1])
        else:
            fid = f.get('key') or (f.get('rpath', f['path']) + '[' + ', '.join(f.get('args', [])) + ']')
        self.fntab[fid] = f
        return ('fn', fid)

    @staticmethod
    def fname(f):
        """short stable name of a callee: Trait::method, Type::method, or the full path for nom"""
        if 'trait' in f:
            return strip_generics(f['trait']).split('::')[-1] + '::' + f['name']
        p = strip_generics(f.get('rpath', f['path']))
        if f.get('rcrate', f.get('crate')) == 'nom' or p.startswith('nom::'):
            return p
        n = '::'.join(p.split('::')[-2:])
        if n.endswith('::parse') and f.get('crate') in ('core', 'std') and len(f.get('args') or []) == 1:
            return f'str::parse<{f["args"][0]}>'
        return n

    # ---------------------------------------------------------------- execution
    def exec_body(self, key, args, st):
        b = self.F.bodies[key]
        if len(self.stack) > self.max_depth:
            raise Unsupported('inlining too deep', b['path'])
        self.inlined.add(key)
        self.stack.append(key)
        self.frames.append(tuple(self.deep(st, a) for a in args))
        try:
            st = st.copy()
            st.fc += 1
            fr = st.fc
            for i, a in enumerate(args):
                st.cells[(fr, i + 1)] = a
            outs = []
            for k, v, s in self.run(b, key, fr, 0, st, None):
                if k == 'ret':
                    r = s.cells.get((fr, 0), UNIT)
                    if r[0] == 'ref' and r[1][0] == fr:
                        r = self.deep(s, r)
                    s.cells = {c: x for c, x in s.cells.items() if c[0] != fr}
                    outs.append(('ret', r, s))
                else:
                    outs.append((k, v, s))
            return outs
        finally:
            self.stack.pop()
            self.frames.pop()

    def reenter(self, key, args, st, where):
        """a call of a body that is being evaluated"""
        self.rec.add((self.stack[-1], key))
        n = len(self.stack) - 1 - self.stack[::-1].index(key)
        self.recs.append((self.stack[-1], key, self.frames[n], tuple(self.deep(st, a) for a in args), dict(st.conds), where))

    def where(self, b, t=None):
        sp = (t or {}).get('sp') or b.get('span', '')
        return f"{b['path']} ({sp})"

    def run(self, b, key, fr, bb0, st0, region, head=None):
        """explore from bb0; region = set of blocks to stay in (loop), head = loop head: reaching it again is 'cont'.
        outcomes: ('ret',None,st) | ('cont',None,st) | ('exit',bb,st) | ('panic',msg,st)"""
        prep = self.F.prep(key)
        if prep.irreducible:
            raise Unsupported('irreducible control flow', b['path'])
        out = []
        work = [(bb0, st0, True)]
        while work:
            bb, st, first = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.max_steps or len(out) > self.max_paths:
                    raise Unsupported('too many paths', b['path'])
                if region is not None and not first:
                    if bb == head:
                        out.append(('cont', None, st))
                        break
                    if bb not in region:
                        out.append(('exit', bb, st))
                        break
                if bb in prep.loops and not (first and bb == head):
                    res = self.do_loop(b, key, fr, bb, st, prep)
                    for k, v, s in res:
                        if k == 'exit':
                            work.append((v, s, False))
                        else:
                            out.append((k, v, s))
                    break
                first = False
                nxt = self.block(b, fr, bb, st, out)
                if not nxt:
                    break
                for t, s in nxt[1:]:
                    work.append((t, s, False))
                bb, st = nxt[0]
        return out

    def do_loop(self, b, key, fr, head, st, prep):
        self.loops += 1
        region = prep.loops[head]
        live = prep.live_in[head] | prep.borrowed

        def step(s):
            # drop what is dead at the head
            s = s.copy()
            s.cells = {c: v for c, v in s.cells.items() if c[0] != fr or c[1] in live}
            return self.run(b, key, fr, head, s, region, head)

        lid = ('L', b['path'], head, fr)
        s0 = st.copy()
        s0.cells = {c: v for c, v in s0.cells.items() if c[0] != fr or c[1] in live}
        self.cur_loop = (b, fr, head, region, prep, live)
        return self.loop(s0, step, lid, lambda c: c[0] != fr or c[1] in live)

    def loop(self, st, step, lid, live=lambda c: True):
        if self.loop_hook is not None:
            return self.loop_hook(self, st, step, lid, live)
        import loops
        return loops.loop_fix(self, st, step, lid, live)

    def block(self, b, fr, bb, st, out):
        """execute one basic block; returns [(next bb, state)] and appends final outcomes to out"""
        bl = b['blocks'][bb]
        st = st.copy()
        for s in bl['s']:
            self.assign(st, fr, s, b)
        t = bl['t']
        k = t['k']
        if k == 'goto' or k == 'drop':
            return [(t['t'], st)]
        if k == 'return':
            out.append(('ret', None, st))
            return []
        if k == 'unreachable' or k == 'resume':
            return []
        if k == 'switch':
            v = self.val(st, self.operand(st, fr, t['o'], b))
            return self.switch(st, v, t, b)
        if k == 'assert':
            return self.do_assert(st, fr, t, b, out)
        if k == 'call':
            f = self.operand(st, fr, t['f'], b)
            args = [self.operand(st, fr, a, b) for a in t['a']]
            res = self.call_value(f, args, st, self.where(b, t), direct=True, at=t.get('at'))
            nx = []
            for kk, v, s in res:
                if kk == 'ret':
                    if t['t'] is None:
                        # a call that never returns
                        self.panic(s, self.fname(f['fn']) if isinstance(f, dict) and 'fn' in f else 'diverging call', self.where(b, t), out)
                        continue
                    s = s.copy()
                    self.put(s, fr, t['d'], v, b)
                    nx.append((t['t'], s))
                else:
                    out.append((kk, v, s))
            return nx
        raise Unsupported(f'terminator {k}', self.where(b, t))

    def put(self, st, fr, place, v, b):
        r = self.lv(st, fr, place, b)
        if r[0] == 'term':
            raise Unsupported('write through an opaque slice', b['path'])
        # writing through a `&mut` the analysis cannot resolve must not be lost
        if any(e[0] == 'deref' for e in place[1:]):
            root = st.cells.get((fr, place[0]), ('undef',))
            if r[0] == (fr, place[0]) and b['locals'][place[0]].startswith('&mut') and root[0] != 'ref':
                st.effects = st.effects + (('write', self.deep(st, root), self.deep(st, v)),)
        self.store(st, r[0], r[1], v)

    def assign(self, st, fr, s, b):
        if 'setdiscr' in s:
            r = self.lv(st, fr, s['p'], b)
            ty = b['locals'][s['p'][0]]
            self.store(st, r[0], r[1], ('agg', 'adt', adt_of_type(ty), s['setdiscr'], ()))
            return
        v = self.rvalue(st, fr, s['r'], b)
        self.put(st, fr, s['p'], v, b)

    def rvalue(self, st, fr, r, b):
        k = r['k']
        if k == 'use':
            return self.operand(st, fr, r['o'], b)
        if k == 'ref':
            p = r['p']
            rr = self.lv(st, fr, p, b)
            if rr[0] == 'term':
                return rr[1]
            if r['mut']:
                v = self.load(st, *rr)
                if v[0] == 'ref' and p[1:] and p[-1][0] != 'deref' and False:
                    return v
                # `&mut *x` of an opaque reference stays that reference
                if len(p) == 2 and p[1][0] == 'deref' and rr[0] == (fr, p[0]) and rr[1] == ():
                    ty = b['locals'][p[0]]
                    if ty.startswith('&') or ty.startswith('*'):
                        return v
                return ('ref', rr[0], rr[1])
            v = self.load(st, *rr)
            return v
        if k == 'bin':
            l = self.val(st, self.operand(st, fr, r['l'], b))
            x = self.val(st, self.operand(st, fr, r['r'], b))
            return self.binop(r['op'], l, x)
        if k == 'un':
            x = self.val(st, self.operand(st, fr, r['o'], b))
            if r['op'] == 'Not':
                return mk_not(x) if x[0] in ('b', 'op') or True else x
            if r['op'] == 'Neg' and x[0] == 'i':
                return ('i', -x[1])
            if r['op'] == 'PtrMetadata':
                return mk_len(x)
            return ('op', r['op'], x, None)
        if k == 'discr':
            v = self.val(st, self.read(st, fr, r['p'], b))
            return self.discr(v, r.get('adt'))
        if k == 'agg':
            f = tuple(self.operand(st, fr, x, b) for x in r['f'])
            a = r['a']
            if a == 'adt':
                if r['adt'] == COW or r['adt'] in STRUCT_TRANSPARENT:
                    return f[0]
                return ('agg', 'adt', r['adt'], r['v'], f)
            if a == 'array':
                return ('list', f)
            if a == 'tuple':
                return ('agg', 'tuple', None, 0, f)
            if a == 'closure':
                return ('agg', 'closure', r['key'], 0, f)
            if a == 'rawptr':
                return f[0]
            return ('agg', a, None, 0, f)
        if k == 'cast':
            x = self.operand(st, fr, r['o'], b)
            p = r['o'].get('p')
            return self.cast(x, r['ck'], r['ty'], b['locals'][p[0]] if p and len(p) == 1 else None)
        if k == 'repeat':
            x = self.operand(st, fr, r['o'], b)
            if r.get('n') is not None and r['n'] <= 64:
                return ('list', (x,) * r['n'])
            return ('repeat', x)
        raise Unsupported(f'rvalue {r.get("dbg", k)}', b['path'])

    def discr(self, v, adt):
        if v[0] == 'agg' and v[1] == 'adt':
            a = self.F.adts.get(v[2])
            if a and a['variants']:
                return ('i', int(a['variants'][v[3]]['discr']))
            return ('i', v[3])
        return ('discr', v, adt)

    BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'char': 32, 'u128': 128}

    def cast(self, x, ck, ty, frm=None):
        if ck.startswith('IntToInt') or ck.startswith('Misc'):
            if x[0] == 'i':
                n = self.BITS.get(ty)
                return ('i', x[1] & ((1 << n) - 1)) if n else x
            if x[0] == 'b':
                return ('i', int(x[1]))
            if frm in self.BITS and ty in self.BITS and self.BITS[frm] > self.BITS[ty]:
                return ('cast', ty, x)
            return ('cast', ty, x) if ty not in ('u32', 'u64', 'usize', 'char', 'u128') else x
        return x

    def binop(self, op, l, r):
        if op == 'Eq':
            return mk_eq(l, r)
        if op == 'Ne':
            return mk_not(mk_eq(l, r))
        if op == 'Lt':
            return mk_lt(l, r)
        if op == 'Gt':
            return mk_lt(r, l)
        if op == 'Le':
            return mk_not(mk_lt(r, l))
        if op == 'Ge':
            return mk_not(mk_lt(l, r))
        if op in ('Add', 'AddUnchecked'):
            return mk_add(l, r)
        if op in ('Sub', 'SubUnchecked'):
            return self.sub(l, r)
        if op.endswith('WithOverflow'):
            base = op[:-len('WithOverflow')]
            v = mk_add(l, r) if base == 'Add' else self.sub(l, r) if base == 'Sub' else self.binop(base, l, r)
            return tup(v, ('ovf', base, l, r))
        if op in ('BitAnd', 'BitOr') :
            nm = 'and' if op == 'BitAnd' else 'or'
            for x, y in ((l, r), (r, l)):
                if x[0] == 'b':
                    if x[1] == (nm == 'or'):
                        return x
                    return y
            if l[0] in ('op', 'call', 'pj', 'sym', 'mu') and r[0] in ('op', 'call', 'pj', 'sym', 'mu'):
                return ('op', nm, l, r)
        if l[0] == 'i' and r[0] == 'i':
            a, c = l[1], r[1]
            try:
                return ('i', {'Mul': lambda: a * c, 'Div': lambda: a // c, 'Rem': lambda: a % c, 'BitAnd': lambda: a & c,
                              'BitOr': lambda: a | c, 'BitXor': lambda: a ^ c, 'Shl': lambda: a << c, 'Shr': lambda: a >> c}[op]())
            except (KeyError, ZeroDivisionError):
                pass
        if l[0] == 'b' and r[0] == 'b' and op == 'BitXor':
            return ('b', l[1] != r[1])
        return ('op', op, l, r)

    @staticmethod
    def sub(l, r):
        if r[0] == 'i':
            return mk_add(l, ('i', -r[1]))
        if l == r:
            return ('i', 0)
        bl, ol = split_off(l)
        br, orr = split_off(r)
        if bl == br:
            return ('i', ol - orr)
        return ('op', 'Sub', l, r)

    def switch(self, st, v, t, b):
        ts, els = t['ts'], t['else']
        if v[0] == 'b':
            v = ('i', int(v[1]))
        if v[0] == 'i':
            for x, bb in ts:
                if int(x) == v[1] or (v[1] < 0 and int(x) == v[1] + (1 << 64)):
                    return [(bb, st)]
            return [(els, st)] if els is not None else []
        if v[0] == 'discr':
            out = []
            if v[2] == COW:
                # transparent: any arm that projects the payload sees the same text
                tgt = [bb for _, bb in ts] + ([els] if els is not None else [])
                reach = []
                for bb in tgt:
                    if b['blocks'][bb]['t']['k'] != 'unreachable' and bb not in reach:
                        reach.append(bb)
                res = []
                for n, bb in enumerate(reach):
                    s = st.copy()
                    s.conds[('var', ('cowtag', v[1]))] = n
                    res.append((bb, s))
                return res
            a = self.F.adts.get(v[2])
            for var, s in self.fork_variant(st, v[1], v[2]):
                d = int(a['variants'][var]['discr']) if a else var
                for x, bb in ts:
                    if int(x) == d:
                        out.append((bb, s))
                        break
                else:
                    if els is not None:
                        out.append((els, s))
            return out
        if t.get('ty') == 'bool':
            out = []
            for val, s in self.fork_bool(st, v):
                n = int(val)
                for x, bb in ts:
                    if int(x) == n:
                        out.append((bb, s))
                        break
                else:
                    out.append((els, s))
            return out
        # integers and characters
        out = []
        cur = st
        for x, bb in ts:
            r = None
            for val, s in self.fork_bool(cur, mk_eq(v, ('i', int(x)))):
                if val:
                    out.append((bb, s))
                else:
                    r = s
            if r is None:
                return out
            cur = r
        if els is not None:
            out.append((els, cur))
        return out

    def do_assert(self, st, fr, t, b, out):
        c = self.val(st, self.operand(st, fr, t['c'], b))
        m = t['m']
        exp = t['exp']
        if c[0] == 'ovf':
            o = t['c']
            ty = b['locals'][o['p'][0]].strip('()').split(',')[0] if 'p' in o else '?'
            self.oblige('overflow', (c[1], ty, self.deep(st, c[2]), self.deep(st, c[3])), st, self.where(b, t))
            return [(t['t'], st)]
        d = self.decide(st, c)
        if d is not None:
            if d == exp:
                return [(t['t'], st)]
            self.panic(st, m[0], self.where(b, t), out)
            return []
        if m[0] == 'bounds':
            self.oblige('bounds', self.deep(st, c), st, self.where(b, t))
        else:
            self.oblige(m[0], self.deep(st, c), st, self.where(b, t))
        s = self.assume(st, c, exp)
        return [(t['t'], s)] if s is not None else []

    def oblige(self, kind, detail, st, where):
        self.oblig.append((kind, detail, dict(st.conds), where, tuple(self.stack)))

    def panic(self, st, msg, where, out):
        self.panics.append((msg, dict(st.conds), where, tuple(self.stack)))
        out.append(('panic', (msg, where), st))

    # ---------------------------------------------------------------- calls
    CALLS = ('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call')

    def call_value(self, f, args, st, where, direct=False, at=None):
        """call a function value with (untupled) args"""
        f0 = f
        f = self.val(st, f)
        if f[0] == 'fn':
            return self.call_fn(self.fntab[f[1]], args, st, where, at)
        if f[0] == 'agg' and f[1] == 'closure':
            b = self.F.bodies.get(f[2])
            if b is None:
                raise Unsupported('closure without body', where)
            env = f0 if b['locals'][1].startswith('&') else f
            tmp = None
            if env[0] != 'ref' and b['locals'][1].startswith('&mut'):
                # a temporary closure value called by mutable reference: give it a cell of its own
                st = st.copy()
                st.fc += 1
                st.cells[(st.fc, 'env')] = f
                env = ('ref', (st.fc, 'env'), ())
                tmp = (st.fc, 'env')
            if f[2] in self.stack:
                self.reenter(f[2], [env] + list(args), st, where)
                return [('ret', ('call', ('rec', b['path']), tuple(self.deep(st, a) for a in args)), st)]
            outs = self.exec_body(f[2], [env] + list(args), st)
            if tmp is not None:
                for _, v, s in outs:
                    if v is None or not contains(v, lambda t: t[:2] == ('ref', tmp)):
                        s.cells.pop(tmp, None)
            return outs
        return self.apply_opaque(f, args, st, where)

    def apply_opaque(self, f, args, st, where):
        return [('ret', ('apply', self.deep(st, f), tuple(self.deep(st, a) for a in args)), st)]

    def call_fn(self, fo, args, st, where, at=None):
        name = self.fname(fo)
        for ic in self.intercept:
            r = ic(self, fo, name, args, st, where)
            if r is not None:
                return self.wrap(r, st)
        if 'ctor' in fo:
            adt, v = fo['ctor']
            if adt == COW or adt in STRUCT_TRANSPARENT:
                return [('ret', args[0], st)]
            return [('ret', ('agg', 'adt', adt, v, tuple(args)), st)]
        if name in self.CALLS:
            tp = self.val(st, args[1])
            if tp[0] != 'agg':
                return self.apply_opaque(args[0], [tp], st, where)
            return self.call_value(args[0], list(tp[4]), st, where)
        key = fo.get('key')
        b = self.F.bodies.get(key) if key else None
        local = b is not None and b['crate'] == 'soupy'
        if b is None and fo.get('crate') == 'soupy' and 'trait' in fo:
            # a method of one of soupy's own traits on a type the caller knows only abstractly: resolve by value
            r = self.by_value(fo, args, st)
            if r is not None:
                key, b, local = r['key'], r, True
        if b is None and fo.get('crate') == 'soupy' and 'trait' in fo and name not in self.keep_calls and not self.F.overridden(fo['trait'], fo['name']):
            # a provided method nobody overrides, on an opaque receiver
            r = self.trait_default(fo)
            if r is not None and r['key'] not in self.stack:
                key, b, local = r['key'], r, True
        if b is None and fo.get('unresolved') and 'trait' in fo:
            r = self.by_value(fo, args, st)
            if r is not None:
                key, b, local = r['key'], r, r['crate'] == 'soupy'
        if not local:
            if name in PANICKY and name not in OBLIGING:
                self.oblige('call', (name, fo.get('selfty', ''), tuple(self.deep(st, a) for a in args)), st, where)
            m = self.models.get(name)
            if m is not None:
                r = m(self, args, st, fo, where)
                if r is not None:
                    return self.wrap(r, st)
        if b is not None:
            if local and self.derived_clone(b):
                return [('ret', self.val(st, args[0]), st)]
            if key in self.stack:
                self.reenter(key, args, st, where)
                return self.opaque_call(fo, ('rec', self.stable(b)), args, st, where, extern=False)
            return self.exec_body(key, args, st)
        return self.opaque_call(fo, name, args, st, where)

    @staticmethod
    def stable(b):
        return b['path']

    def derived_clone(self, b):
        if b.get('name') != 'clone' or b.get('impl_trait', '').split('::')[-1] != 'Clone':
            return False
        for im in self.F.impls:
            if im.get('derived') and im.get('traitname', '').split('::')[-1] == 'Clone':
                if any(m.get('key', '').split('#')[0] == b['key'].split('#')[0] for m in im['methods']) or im.get('self') == b.get('impl_self'):
                    return True
        return False

    def by_value(self, fo, args, st):
        if not args:
            return None
        v = self.val(st, args[0])
        if v[0] == 'agg' and v[1] == 'adt':
            r = self.F.find_impl(v[2], fo['trait'], fo['name'])
            return r or self.trait_default(fo)
        if v == UNIT:
            return self.F.find_impl(None, fo['trait'], fo['name'], '()')
        if v[0] == 'b' and fo.get('crate') == 'soupy':
            return self.F.find_impl(None, fo['trait'], fo['name'], 'bool')
        return None

    def trait_default(self, fo):
        """the provided method of a local trait"""
        if fo.get('crate') != 'soupy':
            return None
        p = strip_generics(fo['trait']) + '::' + fo['name']
        for b in self.F.bodies.values():
            if b.get('root') and not b.get('impl_trait') and b['kind'] == 'fn' and strip_generics(b['path']) == p:
                return b
        return None

    def opaque_call(self, fo, name, args, st, where, extern=True):
        st2 = st
        vals = []
        for a in args:
            if a[0] == 'ref':
                cur = self.deep(st, a)
                vals.append(cur)
            else:
                vals.append(self.deep(st, a))
        t = ('call', name, tuple(vals))
        if extern:
            self.externs.setdefault(name, where)
        for i, a in enumerate(args):
            if a[0] == 'ref':
                if st2 is st:
                    st2 = st.copy()
                self.store(st2, a[1], a[2], ('havoc', name, i, tuple(vals)))
                st2.effects = st2.effects + (('havoc', name, i, where.split(' (')[0]),)
        return [('ret', t, st2)]

    def wrap(self, r, st):
        if isinstance(r, list):
            return r
        return [('ret', r, st)]

    # ---------------------------------------------------------------- entry points
    def root(self, key, args, st=None):
        return self.exec_body(key, args, st or St())


def summarise(outs):
    """human-readable list of outcomes (for evidence and debugging)"""
    return [f'{k}: {show(v) if k == "ret" else v}  when {showc(s.conds)}' for k, v, s in outs]
