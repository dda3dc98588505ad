"""C25, C26: witness programs the compiler must accept, and twins it must refuse.  Nothing is run: the deciding step is
type checking (and borrow checking) a small client against the metadata of the current library."""
import concurrent.futures as cf
import itertools
import re
from .common import *

FEATURES = ('html-strict', 'html-lenient', 'xml', 'regex')


def build_lib(target, args):
    """cargo check of the current library; {crate: metadata file}, or the errors"""
    cmd = ['cargo', 'check', '--offline', '--lib', '--message-format=json', '--target-dir', target] + args
    r = subprocess.run(cmd, cwd=REPO, env=env(), capture_output=True, text=True)
    libs, errs = {}, []
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('reason') == 'compiler-artifact':
            for f in m['filenames']:
                if f.endswith('.rmeta'):
                    libs[m['target']['name'].replace('-', '_')] = f
        elif m.get('reason') == 'compiler-message' and m['message']['level'] == 'error':
            errs.append(m['message'])
    if r.returncode and not errs:
        errs.append({'message': r.stderr.strip().splitlines()[-1] if r.stderr.strip() else 'cargo failed', 'spans': [], 'code': None})
    return libs, errs if r.returncode else []


def at(m):
    for s in m.get('spans', []):
        if s.get('is_primary'):
            return f"{s['file_name']}:{s['line_start']}:{s['column_start']}"
    return ''


def compile_probe(src, libs, deps, edition='2021'):
    """error codes (and messages) the compiler gives for a client program; [] when it is accepted"""
    d = tempfile.mkdtemp(prefix='wit-', dir=BUILD)
    try:
        p = os.path.join(d, 'w.rs')
        with open(p, 'w') as f:
            f.write(src)
        cmd = ['rustc', '--edition', edition, '--crate-type', 'lib', '--emit=metadata', '--error-format=json', '-Awarnings', '-o', os.path.join(d, 'w.rmeta'), p]
        for n, f in libs.items():
            cmd += ['--extern', f'{n}={f}']
        for x in deps:
            cmd += ['-L', 'dependency=' + x]
        r = subprocess.run(cmd, env=env(), capture_output=True, text=True, cwd=d)
        out = []
        for l in r.stderr.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get('level') == 'error' and not m['message'].startswith('aborting'):
                ln = next((s['line_start'] for s in m.get('spans', []) if s.get('is_primary')), 0)
                out.append(((m.get('code') or {}).get('code') or '', ln, m['message']))
        if r.returncode and not out:
            out.append(('', 0, r.stderr[-300:]))
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


HEAD = '#![allow(dead_code, unused_imports, unused_variables)]\n'
S, L, X, R = FEATURES
# (name, features it needs: a list of alternatives, client code)
API = [
    ('Soup::html_strict', [{S}], 'pub fn f(s: &str) -> bool { soupy::Soup::html_strict(s).is_ok() }'),
    ('Soup::html', [{L}], 'pub fn f(s: &str) { use soupy::prelude::*; let d = soupy::Soup::html(s); let _ = d.tag("a").first(); let _ = soupy::Soup::html(String::from(s)); }'),
    ('Soup::xml', [{X}], 'pub fn f(s: &[u8]) -> bool { soupy::Soup::xml(s).is_ok() }'),
    ('parser::StrictHTMLParser', [{S}], 'pub type P<\'a> = soupy::parser::StrictHTMLParser<\'a>; pub fn f<\'a>(s: &\'a str) -> bool '
     '{ <P<\'a> as soupy::parser::Parser>::parse(s).is_ok() && soupy::Soup::new::<P<\'a>>(s).is_ok() }'),
    ('parser::LenientHTMLParser', [{L}], 'pub type P = soupy::parser::LenientHTMLParser<String>; pub fn f(s: String) -> bool '
     '{ <P as soupy::parser::Parser>::parse(s.clone()).is_ok() && soupy::Soup::new::<P>(s).is_ok() }'),
    ('parser::XMLParser', [{X}], 'pub type P<R> = soupy::parser::XMLParser<R>; pub fn f<R: std::io::Read>(r: R, q: R) -> bool '
     '{ <P<R> as soupy::parser::Parser>::parse(r).is_ok() && soupy::Soup::new::<P<R>>(q).is_ok() }'),
    ('parser::HTMLNode', [{S}, {L}], 'use soupy::parser::HTMLNode as H; pub fn f(n: &H<String>) -> usize { match n { H::Comment(t) | H::Doctype(t) | H::Text(t) => t.len(), '
     'H::Element { name, attrs, children } => name.len() + attrs.len() + children.len(), H::RawElement { name, attrs, content } => name.len() + attrs.len() + content.len(), '
     'H::Void { name, attrs } => name.len() + attrs.len() } } pub fn g(n: &H<String>) -> usize { n.iter().count() + soupy::Node::children(n).len() }'),
    ('parser::XMLNode', [{X}], 'use soupy::parser::XMLNode as N; pub fn f(n: &N) -> usize { match n { N::Element(e) => e.name.len() + e.children.len() + e.attributes.len(), '
     'N::Comment(t) | N::CData(t) | N::Text(t) => t.len(), N::ProcessingInstruction(t, d) => t.len() + d.as_ref().map_or(0, |d| d.len()) } } '
     'pub fn g(n: &N) -> usize { n.iter().count() + soupy::Node::children(n).len() }'),
    ('parser::XMLElement', [{X}], 'pub fn f(e: soupy::parser::XMLElement) -> (Option<String>, Option<String>, String) { (e.prefix, e.namespace, e.name) }'),
    ('Pattern for Regex', [{R}], 'pub fn f(r: &regex::Regex, s: &String) -> bool { soupy::Pattern::<String>::matches(r, s) }'),
    ('Regex patterns on strict HTML', [{R, S}], 'use soupy::prelude::*; pub fn f(r: regex::Regex, q: regex::Regex, s: &str) -> bool { let d = Soup::html_strict(s).unwrap(); '
     'let x = d.tag(r).attr("a", q).first().is_some(); x }'),
    ('Regex patterns on lenient HTML', [{R, L}], 'use soupy::prelude::*; pub fn f(r: regex::Regex, q: regex::Regex, s: &str) -> bool { let d = Soup::html(s); '
     'let x = d.tag(r).attr_value(q).first().is_some(); x }'),
    ('Regex patterns on XML', [{R, X}], 'use soupy::prelude::*; pub fn f(r: regex::Regex, q: regex::Regex, s: &[u8]) -> bool { let d = Soup::xml(s).unwrap(); '
     'let x = d.tag(r).attr("a", q).first().is_some(); x }'),
    ('queries on strict HTML', [{S}], 'use soupy::prelude::*; pub fn f(s: &\'static str) -> usize { let d = Soup::html_strict(s).unwrap(); let n = d.tag("a").attr("b", "c").attr_name("d").attr_value("e").class("f").all().count() '
     '+ d.strict().tag(true).all().count() + d.recursive().all().count() + d.iter().count(); let m = d.tag("a").first().map(|i| (i.query().tag("b").first().is_some(), i.get("x").is_some(), i.all_text())); n }'),
    ('queries on lenient HTML', [{L}], 'use soupy::prelude::*; pub fn f(s: &str) -> usize { let d = Soup::html(s); let n = d.tag("a").attr("b", "c").attr_name(String::new()).attr_value("e").class("f").all().count() '
     '+ d.strict().tag(true).all().count() + d.recursive().all().count() + d.iter().count(); let m = d.tag("a").first().map(|i| (i.query().tag("b").first().is_some(), i.get("x").is_some(), i.all_text())); n }'),
    ('queries on XML', [{X}], 'use soupy::prelude::*; pub fn f(s: &[u8]) -> usize { let d = Soup::xml(s).unwrap(); let n = d.tag("a").attr("b", "c").attr_name(String::new()).attr_value("e").class("f").all().count() '
     '+ d.strict().tag(true).all().count() + d.recursive().all().count() + d.iter().count(); let m = d.tag("a").first().map(|i| (i.query().tag("b").first().is_some(), i.get("x").is_some(), i.all_text())); n }'),
    ('Queryable', [set()], 'use soupy::*; pub fn f<N: Node<Text = String>>(s: &Soup<N>) { let _ = s.tag("a").attr("b", "c").attr_name(true).attr_value("x").class("y").strict().recursive().first(); } '
     'pub fn g<\'x, Q: Queryable<\'x>>(q: Q) -> impl Queryable<\'x> where Q::Node: \'x { q.recursive() }'),
    ('Soup', [set()], 'use soupy::*; pub fn f<P: parser::Parser>(i: P::Input) -> Result<usize, P::Error> { let d = Soup::new::<P>(i)?; let n = d.iter().count() + (&d).into_iter().count(); Ok(n) }'),
    ('Node', [set()], 'use soupy::*; pub fn f<N: Node>(n: &N) -> usize where N::Text: std::fmt::Display { let _ = (n.name(), n.text(), n.attrs()); n.children().len() + n.descendants().count() + n.all_text().len() }'),
    ('Pattern', [set()], 'use soupy::*; pub fn f(s: &String) -> bool { Pattern::<String>::matches(&"a", s) && Pattern::<String>::matches(&String::new(), s) && Pattern::<String>::matches(&std::borrow::Cow::Borrowed("a"), s) '
     '&& Pattern::<String>::matches(&true, s) && Pattern::<String>::value(&"a").is_some() }'),
    ('filters', [set()], 'use soupy::{filter::*, *}; pub fn f<N: Node<Text = String>>(n: &N) -> bool { And(Tag { tag: "a" }, Or((), Attr { name: "b", value: true })).matches(n) }'),
    ('query types', [set()], 'use soupy::{query::*, *}; pub fn f<N: Node + Clone>(q: Query<N, ()>) -> Option<Soup<N>> { let mut i: QueryIter<N, ()> = q.all(); let x: QueryItem<N> = i.next()?; Some(x.query()) }'),
    ('prelude', [set()], 'use soupy::prelude::*; pub fn f<N: Node>(s: &Soup<N>) -> usize { s.strict().all().count() }'),
]


def settle(name, errs, want, ctx, rule, label, where):
    if want:
        if errs:
            code, ln, msg = errs[0]
            ctx.bad(f'{rule}:{name}:{label}' if label else f'{rule}:{name}', f'{name} is not available {label}: {code} {msg[:300]}', where)
        else:
            ctx.ok(rule, f'{name} {label}: accepted')
    else:
        if not errs:
            ctx.bad(f'{rule}:{name}:{label}' if label else f'{rule}:{name}', f'{name} is available {label}', where)
        else:
            ctx.ok(rule, f'{name} {label}: refused ({errs[0][0]})')


ABSENT = {'E0432', 'E0433', 'E0599', 'E0277', 'E0412', 'E0425', 'E0576', 'E0405'}


def subsets():
    out = []
    for n in range(len(FEATURES) + 1):
        for c in itertools.combinations(FEATURES, n):
            out.append(('with ' + ('+'.join(c) or 'no feature'), set(c), ['--no-default-features', '--features', ','.join(c)]))
    # html stands for both HTML parsers, whatever else is named
    for n in range(len(FEATURES) + 1):
        for c in itertools.combinations(FEATURES, n):
            out.append(('with ' + '+'.join(('html',) + c), {S, L} | set(c), ['--no-default-features', '--features', ','.join(('html',) + c)]))
    out.append(('with the default features', set(FEATURES), []))
    out.append(('with all features', set(FEATURES), ['--all-features']))
    return out


def gates_target():
    return os.path.join(BUILD, 'gates')


def full_libs(lock=True):
    return build_lib(gates_target(), ['--all-features'])


@prop('C25')
def c25(ctx):
    """Every one of the 32 combinations of the five features (and default, all) is type-checked, and a client program per public
    item is compiled against it: accepted exactly when the item's features are enabled, refused with an absence error
    otherwise."""
    with Lock('gates'):
        libs, errs = full_libs()
        if errs:
            for m in errs[:3]:
                ctx.bad('build:all', f'the library does not compile with all features: {m["message"][:300]}', at(m))
            return
        regex = libs.get('regex')
        jobs = []
        pool = cf.ThreadPoolExecutor(8)
        for label, on, args in subsets():
            libs, errs = build_lib(gates_target(), args)
            if errs:
                m = errs[0]
                ctx.bad(f'build:{label}', f'the library does not compile {label}: {m["message"][:300]}', at(m))
                continue
            ctx.ok('build', f'{label}: type-checks')
            if 'soupy' not in libs:
                raise Infra('no metadata of the library')
            # later builds may overwrite or remove nothing: the file name depends on the features
            keep = {'soupy': libs['soupy'], 'regex': regex}
            deps = [os.path.dirname(libs['soupy'])]
            pos, neg = [], []
            for name, need, code in API:
                want = any(n <= on for n in need)
                (pos if want else neg).append((name, code))
            jobs.append((label, True, pos, pool.submit(compile_probe, HEAD + '\n'.join(f'pub mod m{i} {{ {c} }}' for i, (_, c) in enumerate(pos)), keep, deps)))
            for name, code in neg:
                jobs.append((label, False, [(name, code)], pool.submit(compile_probe, HEAD + f'pub mod m0 {{ {code} }}', keep, deps)))
        for label, want, ps, fut in jobs:
            errs = fut.result()
            if want:
                bad = {}
                for e in errs:
                    bad.setdefault(e[1] - 2, e)
                for i, (name, _) in enumerate(ps):
                    settle(name, [bad[i]] if i in bad else [], True, ctx, 'offered', label, 'src/lib.rs')
                if errs and not any(0 <= i < len(ps) for i in bad):
                    ctx.bad(f'offered:{label}', f'{label}: {errs[0][2][:300]}', 'src/lib.rs')
            else:
                name = ps[0][0]
                odd = [e for e in errs if e[0] not in ABSENT]
                if odd:
                    ctx.bad(f'hidden:{name}:{label}', f'{name} {label} is refused for another reason: {odd[0][0]} {odd[0][2][:200]}', 'src/lib.rs')
                else:
                    settle(name, errs, False, ctx, 'hidden', label, 'src/lib.rs')
        pool.shutdown()
    ctx.floor('build', 34)
    ctx.floor('offered', 150)
    ctx.floor('hidden', 60)


# ------------------------------------------------------------------ C26
NODES = [('XML', "<soupy::parser::XMLParser<&'static [u8]> as soupy::parser::Parser>::Node"),
         ('strict HTML', "<soupy::parser::StrictHTMLParser<'static> as soupy::parser::Parser>::Node")]
USE = 'use soupy::{*, query::*, filter::*, parser::*}; '
YES = [
    ('an item outlives the query and its iterator', "pub fn f<'x, N: Node>(s: &'x Soup<N>) -> Option<QueryItem<'x, N>> { let q = s.strict().recursive(); let r = { let mut it = q.all(); it.next() }; r }"),
    ('collected items outlive the query', "pub fn f<'x, N: Node>(s: &'x Soup<N>) -> Vec<QueryItem<'x, N>> where N::Text: AsRef<str> + From<&'static str> + Ord { let q = s.tag(\"a\"); q.all().collect() }"),
    ('an item from first() outlives the query', "pub fn f<'x, N: Node<Text = String>>(s: &'x Soup<N>) -> Option<QueryItem<'x, N>> { let q = s.tag(String::from(\"b\")); q.first() }"),
    ('an iterator outlives the query', "pub fn f<'x, N: Node>(s: &'x Soup<N>) -> impl Iterator<Item = QueryItem<'x, N>> + 'x { let q = s.recursive(); q.all() }"),
    ('nodes of a walk outlive the walk', "pub fn f<'x, N: Node>(n: &'x N) -> Vec<&'x N> { let mut w = n.descendants(); let a: Vec<&'x N> = w.by_ref().collect(); drop(w); a }"),
    ('a query outlives a copy of the reference to the document', "pub fn f<'x, N: Node>(s: &'x Soup<N>) -> Query<'x, N, ()> { let r = s; r.recursive() }"),
    ('a sub-document outlives the document', "pub fn f<N: Node + Clone>(s: Soup<N>) -> Option<Soup<N>> { let sub = s.recursive().first().map(|i| i.query()); drop(s); sub }"),
    ('a document is readable through several queries at once', "pub fn f<N: Node>(s: &Soup<N>) -> usize { let a = s.recursive(); let b = s.strict(); let mut i = a.all(); let mut j = b.all(); let x = (i.next(), j.next()); let k = s.iter(); x.0.map_or(0, |n| n.children().len()) + k.count() }"),
    ('a query is Copy when its filter is', "pub fn f<'x, N: Node, F: Filter<N> + Copy>(q: Query<'x, N, F>) -> (Query<'x, N, F>, Query<'x, N, F>) { (q, q) }"),
    ('a query is Clone when its filter is', "pub fn f<'x, N: Node, F: Filter<N> + Clone>(q: &Query<'x, N, F>) -> Query<'x, N, F> { q.clone() }"),
    ('a looked-up value outlives the name it was looked up by', "pub fn f<'x, N: Node<Text = String>>(n: &'x N) -> Option<&'x String> { let k = String::from(\"id\"); n.get(k.as_str()) }"),
    ('a query outlives the strings its conditions were made from', "pub fn f<'x, N: Node<Text = String>>(s: &'x Soup<N>) -> usize { let q = { let k = String::from(\"id\"); s.attr(k.clone(), k.clone()).class(k) }; q.all().count() }"),
    ('a result of a Copy node is Copy', "pub fn f<'x, N: Node + Copy>(q: QueryItem<'x, N>) -> (QueryItem<'x, N>, QueryItem<'x, N>) { (q, q) }"),
]
SHARE = [
    ('document', 'pub fn t<T: Send + Sync>() {} pub fn f() { t::<Soup<NODE>>(); t::<NODE>(); }'),
    ('query', "pub fn t<T: Send + Sync>() {} pub fn f<F: Filter<NODE> + Send + Sync>() { t::<Query<'static, NODE, F>>(); }"),
    ('result', "pub fn t<T: Send + Sync>() {} pub fn f() { t::<QueryItem<'static, NODE>>(); }"),
    ('running query', "pub fn t<T: Send + Sync>() {} pub fn f<F: Filter<NODE> + Send + Sync>() { t::<QueryIter<'static, NODE, F>>(); }"),
    ('running query with a filter that can be moved', "pub fn t<T: Send>() {} pub fn f<F: Filter<NODE> + Send>() { t::<QueryIter<'static, NODE, F>>(); t::<Query<'static, NODE, F>>(); }"),
    ('walk', "pub fn t<T: Send + Sync>(_: T) {} pub fn f(n: &NODE) { t(n.descendants()); t(n.children().iter()); }"),
    ('filters', "pub fn t<T: Send + Sync>() {} pub fn f<A: Send + Sync, B: Send + Sync>() { t::<And<A, B>>(); t::<Or<A, B>>(); t::<Attr<A, B>>(); t::<Tag<A>>(); }"),
    ('threads searching one document', "pub fn f(s: &Soup<NODE>) -> usize { std::thread::scope(|x| { let q = s.tag(\"a\"); let a = x.spawn(move || q.all().count()); let i = s.iter(); let b = x.spawn(move || i.count()); "
     "a.join().unwrap() + b.join().unwrap() }) }"),
]
# (name, refused with one of, program, twin that is accepted)
NO = [
    ('a result outlives the document', ('E0515', 'E0597', 'E0505'),
     "pub fn f<N: Node + 'static>(s: Soup<N>) -> Option<QueryItem<'static, N>> { let r = s.recursive().first(); r }",
     "pub fn f<N: Node + 'static>(s: &'static Soup<N>) -> Option<QueryItem<'static, N>> { let r = s.recursive().first(); r }"),
    ('a result is used after the document is gone', ('E0505',),
     "pub fn f<N: Node>(s: Soup<N>) -> usize { let r = s.recursive().first(); drop(s); r.map_or(0, |i| i.children().len()) }",
     "pub fn f<N: Node>(s: Soup<N>) -> usize { let r = s.recursive().first(); let n = r.map_or(0, |i| i.children().len()); drop(s); n }"),
    ('a query is used after the document is gone', ('E0505',),
     "pub fn f<N: Node>(s: Soup<N>) -> usize { let q = s.recursive(); drop(s); q.all().count() }",
     "pub fn f<N: Node>(s: Soup<N>) -> usize { let q = s.recursive(); let n = q.all().count(); drop(s); n }"),
    ('an iterator is used after the document is gone', ('E0505',),
     "pub fn f<N: Node>(s: Soup<N>) -> usize { let q = s.iter(); drop(s); q.count() }",
     "pub fn f<N: Node>(s: Soup<N>) -> usize { let q = s.iter(); let n = q.count(); drop(s); n }"),
    ('a walk is used after its node is gone', ('E0505',),
     "pub fn f<N: Node>(n: N) -> usize { let w = n.descendants(); drop(n); w.count() }",
     "pub fn f<N: Node>(n: N) -> usize { let w = n.descendants(); let k = w.count(); drop(n); k }"),
    ('the document is replaced while a result is alive', ('E0506',),
     "pub fn f<N: Node>(mut s: Soup<N>, t: Soup<N>) -> usize { let r = s.recursive().first(); s = t; r.map_or(0, |i| i.children().len()) }",
     "pub fn f<N: Node>(mut s: Soup<N>, t: Soup<N>) -> usize { let r = s.recursive().first(); let n = r.map_or(0, |i| i.children().len()); s = t; n }"),
    ('the nodes of a document are changed in place', ('E0616', 'E0609'),
     "pub fn f<N: Node>(s: &mut Soup<N>) { s.nodes.clear(); }",
     "pub fn f<N: Node>(s: &mut Soup<N>) -> usize { s.iter().count() }"),
    ('the node of a result is borrowed mutably', ('E0596', 'E0594'),
     "pub fn f<N: Node>(mut i: QueryItem<'_, N>) -> usize { let n: &mut N = &mut *i; n.children().len() }",
     "pub fn f<N: Node>(mut i: QueryItem<'_, N>) -> usize { let n: &N = &*i; n.children().len() }"),
    ('the nodes of a document are iterated mutably', ('E0277',),
     "pub fn t<I: IntoIterator>(i: I) {} pub fn f<N: Node>(s: &mut Soup<N>) { t(s); }",
     "pub fn t<I: IntoIterator>(i: I) {} pub fn f<N: Node>(s: &mut Soup<N>) { t(&*s); }"),
    ('the nodes of a document are reached mutably by conversion', ('E0277',),
     "pub fn t<T: AsMut<[N]> + ?Sized, N>(i: &mut T) {} pub fn f<N: Node>(s: &mut Soup<N>) { t::<Soup<N>, N>(s); }",
     "pub fn t<T: AsMut<[N]> + ?Sized, N>(i: &mut T) {} pub fn f<N: Node>(s: &mut [N]) { t::<[N], N>(s); }"),
    ('a query whose filter is not Copy is copied', ('E0382',),
     "pub fn f<'x, N: Node, F: Filter<N>>(q: Query<'x, N, F>) -> (Query<'x, N, F>, Query<'x, N, F>) { (q, q) }",
     "pub fn f<'x, N: Node, F: Filter<N> + Copy>(q: Query<'x, N, F>) -> (Query<'x, N, F>, Query<'x, N, F>) { (q, q) }"),
]
CELLS = re.compile(r'\b(Cell|RefCell|UnsafeCell|OnceCell|LazyCell|OnceLock|LazyLock|Lazy|Mutex|RwLock|Atomic\w*|SyncUnsafeCell|Condvar|Sender|Receiver)\b')
RAWPTR = re.compile(r'\*(const|mut) |\bNonNull\b')
# values fixed once and never changed afterwards
ONCE = re.compile(r'\b(OnceLock|LazyLock|Lazy|OnceCell|LazyCell|Once)\b')


@prop('C26')
def c26(ctx):
    """No unsafe code (rustc's unsafe_code lint, forbidden); no interior mutability or raw pointer in a field or static; no
    public signature hands out or takes a mutable reference to document data; client programs that keep, share, copy and
    drop are compiled: accepted where the property grants it, refused (with the borrow or privacy error named) where not."""
    F = ctx.F
    # interior mutability by field types, in everything a public type is made of
    seen, todo = set(), [i['path'] for i in F.items if i['pub'] and i['path'] in F.adts]
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        tys = ' '.join(ty for v in F.adts[p]['variants'] for ty in v['ftys'])
        todo += [q for q in re.findall(r'[\w:]+', tys) if q in F.adts]
    for p in sorted(seen):
        d = F.adts[p]
        if not d.get('local'):
            continue
        for v in d['variants']:
            for f, ty in zip(v['fields'], v['ftys']):
                m = CELLS.search(ty) or RAWPTR.search(ty)
                if m:
                    ctx.bad(f'field:{short(p)}.{f}', f'{short(p)} keeps {ty} in {f}: its value can change behind a shared reference', p)
                else:
                    ctx.ok('field', f'{short(p)}.{f}: {ty}')
    statics = [i for i in F.items if i['kind'].startswith('Static')]
    for i in statics:
        if 'mutability: Mut' in i['kind']:
            ctx.bad(f'static:{short(i["path"])}', f'{i["path"]} is a mutable static', i['span'])
            continue
        ty = i.get('ty', '')
        m = CELLS.search(ONCE.sub('', ty)) or RAWPTR.search(ty)
        if m:
            ctx.bad(f'static:{short(i["path"])}', f'{i["path"]}: {ty} is state that operations can change', i['span'])
        else:
            ctx.ok('static', f'{i["path"]}: {ty}')
    # public signatures
    walkers = {adt_of_type(im['self']) for im in F.impls if im.get('traitname', '').split('<')[0].split('::')[-1] in ('Iterator', 'Hasher', 'Write', 'Read')}
    for b in F.local():
        if b['kind'] != 'fn' or not b.get('root') or not (b.get('pub') or b.get('impl_trait')):
            continue
        bad = None
        for n in range(b['argc'] + 1):
            ty = b['locals'][n]
            for inner in re.findall(r"&(?:'[\w{}#<>]+ )?mut ((?:dyn )?[\w:]+(?:<.*>)?)", ty):
                head = adt_of_type(inner)
                document = head in F.adts and head not in walkers or re.fullmatch(r'[A-Z]\w*', inner)
                if n == 0 or document:
                    bad = bad or (n, ty)
        if bad:
            ctx.bad(f'signature:{short(b["path"])}', f'{short(b["path"])} {"takes" if bad[0] else "returns"} {bad[1]}: document data can be changed through it', b.get('span', ''))
        else:
            ctx.ok('signature', short(b['path']))
    for im in F.impls:
        tr = im.get('traitname', '').split('<')[0].split('::')[-1]
        if tr in ('DerefMut', 'IndexMut', 'AsMut', 'BorrowMut') and adt_of_type(im['self'].lstrip('&').replace('mut ', '')) in F.adts:
            ctx.bad(f'impl:{tr}', f'{im["self"]} implements {tr}: document data can be changed through it', im['self'])
    with Lock('gates'):
        libs, errs = full_libs()
        if errs:
            raise Infra('the library does not compile: ' + errs[0]['message'][:300])
        keep = {'soupy': libs['soupy'], 'regex': libs.get('regex')}
        keep = {k: v for k, v in keep.items() if v}
        deps = [os.path.dirname(libs['soupy'])]
        pool = cf.ThreadPoolExecutor(8)
        jobs = []
        P = lambda code: pool.submit(compile_probe, HEAD + USE + '\n' + code, keep, deps)
        for name, code in YES:
            jobs.append(('granted', name, None, P(code), None))
        for label, ty in NODES:
            for name, code in SHARE:
                if name == 'filters' and label != 'XML':
                    continue
                jobs.append(('shared', f'{label}: {name}', None, P(code.replace('NODE', ty)), None))
        for name, codes, code, twin in NO:
            jobs.append(('refused', name, codes, P(code), P(twin)))
        for rule, name, codes, fut, twin in jobs:
            errs = fut.result()
            if rule != 'refused':
                if errs:
                    ctx.bad(f'{rule}:{name}', f'not possible: {name}: {errs[0][0]} {errs[0][2][:300]}', 'src/query.rs')
                else:
                    ctx.ok(rule, name)
                continue
            terr = twin.result()
            if terr:
                ctx.bad(f'twin:{name}', f'the permitted twin of "{name}" is refused: {terr[0][0]} {terr[0][2][:300]}', 'src/query.rs')
            elif not errs:
                ctx.bad(f'refused:{name}', f'the compiler accepts a program in which {name}', 'src/query.rs')
            elif errs[0][0] not in codes:
                ctx.bad(f'refused:{name}', f'{name}: refused for another reason ({errs[0][0]} {errs[0][2][:200]})', 'src/query.rs')
            else:
                ctx.ok(rule, f'{name}: {errs[0][0]}')
        pool.shutdown()
    unsafe_code(ctx)
    ctx.floor('granted', len(YES))
    ctx.floor('shared', 2 * len(SHARE) - 1)
    ctx.floor('refused', len(NO))
    ctx.floor('signature', 60)
    ctx.floor('field', 30)


def unsafe_code(ctx):
    """the compiler's own lint, raised to an error that no attribute can lower"""
    tgt = gates_target()
    e = env()
    with Lock('gates'):
        libs, errs = build_lib(tgt, ['--all-features'])
        if errs:
            return
        src = os.path.join(REPO, 'src', 'lib.rs')
        d = tempfile.mkdtemp(prefix='uns-', dir=BUILD)
        try:
            cmd = ['rustc', '--edition', '2021', '--crate-name', 'soupy', '--crate-type', 'lib', '--emit=metadata', '--error-format=json', '-Funsafe_code', '-Awarnings',
                   '-o', os.path.join(d, 'u.rmeta'), src, '-L', 'dependency=' + os.path.dirname(libs['soupy'])]
            for f in FEATURES + ('html', 'default'):
                cmd += ['--cfg', f'feature="{f}"']
            for n, f in libs.items():
                if n != 'soupy':
                    cmd += ['--extern', f'{n}={f}']
            for m in re.findall(r'^name = "(.*?)"\nversion = "(.*?)"', open(os.path.join(REPO, 'Cargo.toml')).read(), re.M):
                e.setdefault('CARGO_PKG_NAME', m[0])
                e.setdefault('CARGO_PKG_VERSION', m[1])
            e['CARGO_MANIFEST_DIR'] = REPO
            r = subprocess.run(cmd, env=e, capture_output=True, text=True, cwd=REPO)
            bad = []
            for l in r.stderr.splitlines():
                try:
                    m = json.loads(l)
                except ValueError:
                    continue
                if m.get('level') == 'error' and not m['message'].startswith('aborting'):
                    code = (m.get('code') or {}).get('code') or ''
                    bad.append((code, m['message'], at(m)))
            uns = [b for b in bad if b[0] == 'unsafe_code']
            for code, msg, w in uns:
                ctx.bad(f'unsafe:{w.split(":")[0]}', f'unsafe code: {msg}', w)
            rest = [b for b in bad if b[0] != 'unsafe_code']
            if rest and not uns:
                ctx.bad('unsafe', f'the unsafe-code lint could not be applied: {rest[0][1][:300]}', rest[0][2])
            if not bad:
                ctx.ok('unsafe', 'rustc -Funsafe_code accepts the library with all features')
        finally:
            shutil.rmtree(d, ignore_errors=True)
