"""Shared plumbing of the rules: facts extraction, evaluation of anchors, comparison of path summaries with a specification."""
import fcntl
import itertools
import json
import os
import signal
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'engine'))
from terms import *            # noqa: E402
from facts import Facts, adt_of_type, strip_generics        # noqa: E402
from interp import Interp, St, Unsupported        # noqa: E402

REPO = os.environ.get('SOUPY_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
DRIVER = os.path.join(VERIF, 'driver', 'target', 'debug', 'soupy-facts')


class Infra(Exception):
    """the code could not be analysed at all"""


def env():
    e = dict(os.environ)
    for k in ('RUSTUP_TOOLCHAIN', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_ENCODED_RUSTFLAGS'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e.setdefault('HOME', '/root')
    return e


def sysroot():
    return subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], env=env(), capture_output=True, text=True).stdout.strip()


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + '.lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def ensure_driver():
    """build the facts driver when it is missing or older than its source"""
    src = os.path.join(VERIF, 'driver', 'src', 'main.rs')
    if os.path.exists(DRIVER) and os.path.getmtime(DRIVER) >= os.path.getmtime(src):
        return
    r = subprocess.run(['cargo', '+nightly', 'build', '--offline'], cwd=os.path.join(VERIF, 'driver'), env=env(), capture_output=True, text=True)
    if r.returncode or not os.path.exists(DRIVER):
        raise Infra('facts driver does not build: ' + r.stderr[-2000:])
    os.utime(DRIVER)


def extract(repo=None, features=None, config=()):
    """type-checked program of the current source tree (features: None = default, else a list)"""
    repo = repo or REPO
    with Lock('facts'):
        ensure_driver()
        tgt = os.path.join(BUILD, 'target')
        os.makedirs(tgt, exist_ok=True)
        out = tempfile.mkdtemp(prefix='facts-', dir=BUILD)
        try:
            e = env()
            e['LD_LIBRARY_PATH'] = sysroot() + '/lib'
            e['RUSTC_WORKSPACE_WRAPPER'] = DRIVER
            e['SOUPY_FACTS_CRATES'] = 'soupy'
            e['SOUPY_FACTS_DIR'] = out
            fp = os.path.join(tgt, 'debug', '.fingerprint')
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith('soupy-'):
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
            shutil.rmtree(os.path.join(tgt, 'debug', 'build', 'soupy'), ignore_errors=True)
            cmd = ['cargo', '+nightly', 'check', '--offline', '--lib', '--target-dir', tgt]
            for c in config:
                cmd += ['--config', c]
            if features is not None:
                cmd += ['--no-default-features', '--features', ','.join(features)]
            r = subprocess.run(cmd, cwd=repo, env=e, capture_output=True, text=True)
            js = os.path.join(out, 'soupy.json')
            if r.returncode or not os.path.exists(js):
                errs = [l for l in r.stderr.splitlines() if l.startswith('error') or 'panicked' in l]
                raise Infra('the library does not compile: ' + '; '.join(errs[:5]))
            return Facts(js)
        finally:
            shutil.rmtree(out, ignore_errors=True)


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.F = None
        self.obs = []          # discharged obligations (rule, subject)
        self.viol = []         # violations {key,msg,where}
        self.floors = {}
        self.extra = {}
        self.analysed = set()
        self.paths = 0
        self.assumptions = []

    def ok(self, rule, subject):
        self.obs.append((rule, subject))

    def bad(self, key, msg, where=''):
        if not any(v['key'] == key for v in self.viol):
            self.viol.append({'key': key, 'msg': msg, 'where': where})

    def floor(self, rule, n):
        """at least n obligations of this rule must have been examined"""
        self.floors[rule] = n

    def count(self, rule):
        return sum(1 for r, _ in self.obs if r == rule)

    # -- anchors ---------------------------------------------------------
    def adt(self, name, required=True):
        c = [a for a, d in self.F.adts.items() if d.get('local') and a.split('::')[-1] == name]
        if len(c) != 1:
            if required:
                self.bad(f'anchor:{name}', f'public type {name} not found (or not unique)')
            return None
        return c[0]

    def struct(self, _adt, /, **fields):
        """value of a local struct, fields by their declared (public) names"""
        a = self.adt(_adt)
        fs = self.F.adts[a]['variants'][0]['fields']
        return ('agg', 'adt', a, 0, tuple(fields[f if not f.isdigit() else '_' + f] for f in fs))

    def vname(self, adt, i):
        return self.F.adts[adt]['variants'][i]['name']

    def methods(self, trait, name, pred=None):
        """bodies of trait::name in all local impls, generic form"""
        out = []
        for b in self.F.local():
            if b['kind'] == 'fn' and b.get('root') and b.get('name') == name and b.get('impl_trait', '').split('<')[0].split('::')[-1] == trait:
                if pred is None or pred(b.get('impl_self', '')):
                    out.append(b)
        return out

    def method(self, trait, name, pred, what):
        r = self.methods(trait, name, pred)
        if len(r) != 1:
            self.bad(f'anchor:{what}', f'{what}: {len(r)} implementations found, 1 expected')
            return None
        return r[0]

    def fn(self, suffix, pred=None):
        """a local function by the end of its generics-free path"""
        r = [b for b in self.F.local() if b['kind'] == 'fn' and b.get('root') and not b.get('impl_trait')
             and ('::' + strip_generics(b['path'])).endswith('::' + suffix) and (pred is None or pred(b))]
        if len(r) != 1:
            self.bad(f'anchor:{suffix}', f'function {suffix}: {len(r)} found, 1 expected')
            return None
        return r[0]

    # -- evaluation ------------------------------------------------------
    def run(self, body, args, st=None, setup=None, what=None):
        """(outcomes, interp) of a body on symbolic arguments; a construct without rule is reported"""
        I = Interp(self.F)
        if setup:
            setup(I)
        name = what or body['path']
        try:
            outs = I.root(body['key'], list(args), st)
        except Unsupported as e:
            self.bad(f'cannot-analyse:{short(name)}', f'{name}: no rule for this construct: {e}', body.get('span', ''))
            return None, I
        except RecursionError:
            self.bad(f'cannot-analyse:{short(name)}', f'{name}: value too deep', body.get('span', ''))
            return None, I
        self.analysed |= I.inlined
        self.paths += len(outs)
        return outs, I

    def rets(self, outs, body, effects=True):
        """return outcomes; a panicking or side-effecting path is a violation"""
        r = []
        for k, v, s in outs:
            if k == 'panic':
                self.bad(f'panic:{short(body["path"])}', f'{body["path"]} can panic: {v[0]} when {showc(s.conds)}', v[1])
            elif k == 'ret':
                if effects and s.effects:
                    self.bad(f'effect:{short(body["path"])}', f'{body["path"]} changes state the specification leaves alone: {s.effects[0][:2]}', body.get('span', ''))
                r.append((v, s))
        return r


def short(p):
    return strip_generics(p).replace('soupy::', '')


class Fork(Exception):
    def __init__(self, atom, opts):
        self.atom, self.opts = atom, opts


class Ask:
    """answers to the specification's questions on one path"""

    def __init__(self, I, conds):
        self.I, self.st = I, St()
        self.st.conds = dict(conds)

    def bool(self, t):
        if t[0] == 'op' and t[1] == 'eq' and t[2][0] == 'discr' and t[3][0] == 'i' and t[2][2] == OPTION:
            return self.var(t[2][1]) == t[3][1]
        d = self.I.decide(self.st, t)
        if d is None:
            while t[0] == 'op' and t[1] == 'not':
                t = t[2]
            if t[0] == 'op' and t[1] in ('and', 'or'):
                a = self.bool(t[2])
                if a == (t[1] == 'or'):
                    return a
                return self.bool(t[3])
            raise Fork(('b', t), (True, False))
        return d

    def var(self, t, opts=(0, 1)):
        if t[0] == 'agg' and t[1] == 'adt':
            return t[3]
        v = self.st.conds.get(('var', t))
        if v is None:
            raise Fork(('var', t), opts)
        return v

    def known(self, t):
        return self.st.conds.get(('var', t)) if t[0] != 'agg' else t[3]


def settle(t, ask):
    """boolean term -> constant under the path's knowledge"""
    if t[0] == 'b':
        return t
    if t[0] == 'op' and t[1] in ('eq', 'lt', 'not', 'and', 'or') or t[0] in ('call', 'apply', 'pj', 'sym', 'more'):
        return ('b', ask.bool(t))
    return t


def check_paths(ctx, I, rets, spec, rule, subject, key, where='', boolean=False, limit=4000):
    """every path's result equals what the specification computes from the same answers"""
    n = 0
    for v, s in rets:
        work = [dict(s.conds)]
        v = I.deep(s, v)
        while work:
            conds = work.pop()
            n += 1
            if n > limit:
                ctx.bad(key, f'{subject}: too many cases', where)
                return
            ask = Ask(I, conds)
            try:
                want = spec(ask)
                got = settle(v, ask) if boolean else v
                if boolean and want is not None:
                    want = settle(want, ask)
            except Fork as f:
                for o in f.opts:
                    c = dict(conds)
                    c[f.atom] = o
                    # contradictory combinations do not arise
                    if f.atom[0] == 'b':
                        st = St()
                        st.conds = dict(conds)
                        if I.assume(st, f.atom[1], o) is None:
                            continue
                    work.append(c)
                continue
            good = want(got) if callable(want) else got == want
            if good:
                ctx.ok(rule, f'{subject}: {show(got)[:160]} when {showc(conds)[:200]}')
            else:
                ws = 'something else' if callable(want) else show(want)
                ctx.bad(key, f'{subject}: yields {show(got)} where {ws} is specified, when {showc(conds)}', where)


# -- registry -----------------------------------------------------------
RULES = {}


def prop(pid):
    def deco(fn):
        RULES[pid] = fn
        return fn
    return deco


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    for l in open(p):
        l = l.strip()
        if l.startswith('known: property=' + pid + ' '):
            k, _, what = l.split(' key=', 1)[1].partition(' ')
            out[k] = what
    return out


# -- configurations -------------------------------------------------------
FEATURES = ('html-strict', 'html-lenient', 'xml', 'regex')
# features without which a property says nothing
NEEDS = {p: {'html-strict'} for p in ('C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C22', 'C23', 'C24', 'C29')}
NEEDS.update({'C20': {'html-lenient'}, 'C21': {'xml'}})


def configurations(tier):
    """(label, features on, extract arguments) of the builds a user can choose besides the default one"""
    sizes = (0, 1, 3) if tier == 'quick' else (0, 1, 2, 3)
    for n in sizes:
        for c in itertools.combinations(FEATURES, n):
            yield 'features ' + ('+'.join(c) or 'none'), set(c), {'features': list(c)}
    yield 'debug assertions off', set(FEATURES), {'config': ('profile.dev.debug-assertions=false',)}


def program(F):
    """the typed program as comparable text: bodies, types, constants, impls (crate hashes removed)"""
    norm = lambda x: re.sub(r'[0-9a-f]{20,40}', '', json.dumps(x, sort_keys=True))
    out = {('body', norm(b)) for b in F.bodies.values()}
    out |= {('adt', a, norm(d)) for a, d in F.adts.items() if d.get('local')}
    out |= {('const', norm(c)) for c in F.consts}
    out |= {('impl', norm(i)) for i in F.impls}
    return out


def other_builds(ctx, fn):
    """the property in the other builds: where the code is the same as in the analysed one nothing is left to decide;
    where it differs, the rule is run on that build as well"""
    base = program(ctx.F)
    for label, on, args in configurations(ctx.tier):
        try:
            F = extract(**args)
        except Infra:
            continue        # C25 decides that every combination builds
        diff = program(F) - base
        if not diff:
            ctx.ok('same code in other builds', f'{label}: {len(F.bodies)} bodies, none differs')
            continue
        need = NEEDS.get(ctx.prop, set())
        if not need <= on:
            continue
        sub = Ctx(ctx.prop, ctx.tier)
        sub.F = F
        try:
            fn(sub)
        except Exception as e:
            sub.bad('cannot-analyse:' + type(e).__name__, f'the analysis has no rule for this code ({type(e).__name__}: {e})')
        for v in sub.viol:
            if on != set(FEATURES) and v['key'].startswith('anchor:'):
                continue        # not part of this build
            ctx.bad(f'[{label}] {v["key"]}', f'in the build with {label}: {v["msg"]}', v['where'])
        if not sub.viol:
            ctx.ok('other code in other builds', f'{label}: {len(diff)} parts differ, {len(sub.obs)} obligations discharged on it')
        ctx.analysed |= sub.analysed
        ctx.paths += sub.paths


def samples(obs):
    """a few obligations of every rule"""
    out, n = [], {}
    for r, s in obs:
        n[r] = n.get(r, 0) + 1
        if n[r] <= 4:
            out.append(f'{r}: {s}')
    return out[:60]


class Overrun(BaseException):
    pass


def overrun(*_):
    raise Overrun()


def main(pid):
    t0 = time.time()
    signal.signal(signal.SIGALRM, overrun)
    signal.alarm(780)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    ctx = Ctx(pid, tier)
    sys.setrecursionlimit(20000)
    fn = RULES[pid]
    try:
        ctx.F = extract()
        fn(ctx)
        if pid not in ('C25', 'C26') and not ctx.viol:
            other_builds(ctx, fn)
    except Infra as e:
        ctx.bad('cannot-analyse', str(e))
    except Overrun:
        ctx.bad('cannot-analyse:time', 'the analysis does not end in time on this code')
    except Exception as e:
        import traceback
        tb = traceback.format_exc()
        sys.stderr.write(tb)
        ctx.bad('cannot-analyse:' + type(e).__name__, f'the analysis has no rule for this code ({type(e).__name__}: {e})', '')
    signal.alarm(0)
    for rule, n in ctx.floors.items():
        if ctx.count(rule) < n and not ctx.viol:
            ctx.bad(f'floor:{rule}', f'only {ctx.count(rule)} obligations of rule {rule} were found, {n} expected')
    known = known_findings(pid)
    new = [v for v in ctx.viol if v['key'] not in known]
    old = [v for v in ctx.viol if v['key'] in known]
    rules = {}
    for r, _ in ctx.obs:
        rules[r] = rules.get(r, 0) + 1
    cov = {
        'explanation': (fn.__doc__ or '').strip(),
        'obligations': len(ctx.obs) + len(ctx.viol),
        'discharged': len(ctx.obs),
        'rules': rules,
        'functions_analysed': len(ctx.analysed),
        'functions': sorted({short(k.split('#')[0]) for k in ctx.analysed if k.startswith('soupy') or '<' in k and 'soupy' in k})[:80],
        'paths': ctx.paths,
        'samples': samples(ctx.obs),
        'violations': [v['key'] for v in ctx.viol],
    }
    cov.update(ctx.extra)
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': cov, 'assumptions': ctx.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for v in old:
        print(f'KNOWN-FINDING: property={pid} {known[v["key"]]}')
    if new:
        rd = os.path.join(BUILD, 'replay')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, pid + '.txt')
        with open(rp, 'w') as f:
            for v in new:
                f.write(f'property: {pid}\nkey: {v["key"]}\nwhere: {v["where"]}\n{v["msg"]}\n\n')
            f.write(f'Replay: cd {VERIF} && python3 check.py {pid}   (the construct named above is in {REPO})\n')
        for v in new[:20]:
            print(f'{pid}: [{v["key"]}] {v["where"]}: {v["msg"][:1500]}')
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    print(f'{pid}: {len(ctx.obs)} obligations discharged, {len(ctx.analysed)} functions, {ctx.paths} paths, {cov.get("states", "")} {ev["wall_s"]} s')
    return 0
