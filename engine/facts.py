"""Loads the compiler facts (MIR of soupy and of the small std functions it calls) dumped by the driver."""
import json
import re


def strip_generics(p):
    """`core::slice::<impl [T]>::get` -> core::slice::slice::get, `a::B::<T>::c` -> a::B::c"""
    out = []
    i = 0
    p = p.replace('->', '\0')
    while i < len(p):
        ch = p[i]
        if ch == '<':
            depth, j = 1, i + 1
            while depth and j < len(p):
                depth += {'<': 1, '>': -1}.get(p[j], 0)
                j += 1
            inner = p[i + 1:j - 1]
            if inner.startswith('impl '):
                x = inner[5:]
                if ' for ' in x:
                    x = x.split(' for ')[0]
                x = re.sub(r"^&('[a-z_]+ )?", '', x)
                if x.startswith('['):
                    x = 'array' if ';' in x else 'slice'
                out.append(strip_generics(x).split('::')[-1])
            elif ' as ' in inner and not out:
                out.append(strip_generics(inner.split(' as ')[-1]).split('::')[-1])
            i = j
            continue
        out.append(ch)
        i += 1
    s = ''.join(out).replace('\0', '->')
    s = re.sub(r'::(::)+', '::', s)
    return s.strip(':')


def adt_of_type(t):
    """head type constructor of a type string (references, boxes and lifetimes removed)"""
    t = t.strip()
    while True:
        m = re.match(r"^&(?:'[a-z_]+ )?(?:mut )?", t)
        if m and m.end():
            t = t[m.end():].strip()
            continue
        break
    return re.split(r'[<\s]', t, maxsplit=1)[0]


class Facts:
    def __init__(self, path):
        self.d = json.load(open(path))
        self.bodies = {b['key']: b for b in self.d['bodies']}
        self.adts = {a[0]: a[1] for a in self.d['adts']} if isinstance(self.d['adts'], list) else self.d['adts']
        self.consts = self.d['consts']
        self.impls = self.d['impls']
        self.items = self.d['items']
        self.cfg = self.d.get('cfg')
        self._prep = {}
        self.by_path = {}
        for b in self.bodies.values():
            self.by_path.setdefault(b['path'], []).append(b)

    # -- lookups -----------------------------------------------------------
    def local(self):
        return [b for b in self.bodies.values() if b['crate'] == 'soupy']

    def find_impl(self, adt, trait, name, impl_self=None):
        """method body implementing trait::name for a type constructor (the generic root instance first)"""
        c = []
        for b in self.bodies.values():
            if b.get('name') == name and b.get('impl_trait', '').split('::')[-1] == trait.split('::')[-1]:
                s = b.get('impl_self', '')
                if impl_self is not None:
                    if s == impl_self:
                        c.append(b)
                elif adt_of_type(s) == adt and not s.startswith('&'):
                    c.append(b)
        c.sort(key=lambda b: (not b.get('root'), b['key']))
        return c[0] if c else None

    def overridden(self, trait, name):
        t = strip_generics(trait).split('::')[-1]
        return any(b.get('name') == name and strip_generics(b.get('impl_trait', '')).split('::')[-1] == t for b in self.bodies.values())

    def variant_by_discr(self, adt, d):
        a = self.adts.get(adt)
        if not a:
            return None
        for i, v in enumerate(a['variants']):
            if int(v['discr']) == int(d):
                return i
        return None

    def prep(self, key):
        """loop structure, liveness of a body (cached)"""
        r = self._prep.get(key)
        if r is None:
            r = self._prep[key] = Prep(self.bodies[key])
        return r


def place_locals(p):
    yield p[0]
    for e in p[1:]:
        if e[0] == 'index':
            yield e[1]


def operand_locals(o):
    if 'p' in o:
        yield from place_locals(o['p'])


def rv_uses(r):
    k = r['k']
    if k in ('use', 'repeat', 'cast', 'un'):
        yield from operand_locals(r['o'])
    elif k in ('ref', 'discr'):
        yield from place_locals(r['p'])
    elif k == 'bin':
        yield from operand_locals(r['l'])
        yield from operand_locals(r['r'])
    elif k == 'agg':
        for o in r['f']:
            yield from operand_locals(o)


class Prep:
    def __init__(self, b):
        self.b = b
        bl = b['blocks']
        n = len(bl)
        self.succ = [self._succ(x['t']) if not x['c'] else [] for x in bl]
        self.reach = self._reach()
        self.dom = self._dominators(n)
        self.loops = {}          # head -> set of blocks
        self.irreducible = False
        self._find_loops(n)
        self.borrowed = set()
        for i in self.reach:
            for s in bl[i]['s']:
                r = s.get('r')
                if r and r['k'] == 'ref' and r['mut'] and not any(e[0] == 'deref' for e in r['p'][1:]):
                    self.borrowed.add(r['p'][0])
        self.live_in = self._liveness(n)

    @staticmethod
    def _succ(t):
        k = t['k']
        if k in ('goto', 'drop', 'assert'):
            return [t['t']]
        if k == 'call':
            return [t['t']] if t['t'] is not None else []
        if k == 'switch':
            out = []
            for _, x in t['ts']:
                if x not in out:
                    out.append(x)
            if t['else'] is not None and t['else'] not in out:
                out.append(t['else'])
            return out
        return []

    def _reach(self):
        seen, st = {0}, [0]
        while st:
            x = st.pop()
            for y in self.succ[x]:
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return seen

    def _dominators(self, n):
        pred = {i: [] for i in self.reach}
        for i in self.reach:
            for j in self.succ[i]:
                pred[j].append(i)
        self.pred = pred
        full = set(self.reach)
        dom = {i: set(full) for i in self.reach}
        dom[0] = {0}
        ch = True
        order = sorted(self.reach)
        while ch:
            ch = False
            for i in order:
                if i == 0:
                    continue
                ps = [dom[p] for p in pred[i]]
                nd = (set.intersection(*ps) if ps else set()) | {i}
                if nd != dom[i]:
                    dom[i] = nd
                    ch = True
        return dom

    def _find_loops(self, n):
        # back edges by dominance; a retreating edge that is not one makes the graph irreducible
        color = {}
        order = []

        def dfs(r):
            st = [(r, iter(self.succ[r]))]
            color[r] = 1
            while st:
                x, it = st[-1]
                for y in it:
                    if color.get(y, 0) == 0:
                        color[y] = 1
                        st.append((y, iter(self.succ[y])))
                        break
                    if color[y] == 1 and y not in self.dom[x]:
                        self.irreducible = True
                else:
                    color[x] = 2
                    st.pop()
        dfs(0)
        for i in self.reach:
            for j in self.succ[i]:
                if j in self.dom[i]:
                    body = {j}
                    st = [i]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(self.pred[x])
                    self.loops.setdefault(j, set()).update(body)

    def _liveness(self, n):
        bl = self.b['blocks']
        use, dfn = {}, {}
        for i in self.reach:
            u, d = set(), set()

            def rd(ls):
                for l in ls:
                    if l not in d:
                        u.add(l)

            for s in bl[i]['s']:
                if 'r' in s:
                    rd(rv_uses(s['r']))
                p = s['p']
                if len(p) == 1 and 'r' in s:
                    d.add(p[0])
                else:
                    rd(place_locals(p))
            t = bl[i]['t']
            if t['k'] == 'switch':
                rd(operand_locals(t['o']))
            elif t['k'] == 'call':
                rd(operand_locals(t['f']))
                for a in t['a']:
                    rd(operand_locals(a))
                if len(t['d']) == 1:
                    d.add(t['d'][0])
                else:
                    rd(place_locals(t['d']))
            elif t['k'] == 'assert':
                rd(operand_locals(t['c']))
            elif t['k'] == 'return':
                rd([0])
            use[i], dfn[i] = u, d
        live = {i: set() for i in self.reach}
        ch = True
        while ch:
            ch = False
            for i in self.reach:
                out = set()
                for j in self.succ[i]:
                    out |= live[j]
                nl = use[i] | (out - dfn[i])
                if nl != live[i]:
                    live[i] = nl
                    ch = True
        return live
