#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'MIR value-flow abstract interpretation (path summaries per function, no execution, no solver)'
LEVEL = ('Exhaustive over the control-flow paths of the analysed functions in the current source; every construct on the value path needs a '
         'rule or the check fails closed. Trusts: rustc\'s MIR, the listed semantics of std/regex/nom/scraper/xmltree calls, the evaluator itself.')
G = 'MIR path summaries of the nom parsers over symbolic positions and character classes, compared path by path with a reference grammar (string-set reasoning, no solver)'
CLAIMS = {
 'C01': ('abstract interpretation of the iterator state machines on MIR: product with a ghost pre-order walk explored to a fixpoint', ''),
 'C02': ('abstract interpretation of the strict-mode iterator on MIR: product with a ghost walk of the top-level list', ''),
 'C03': ('abstract interpretation of the query iterator on MIR: product with a ghost filtered walk, both modes, opaque filter', ''),
 'C04': (T + ' of every builder method against a table of filters and modes', ''),
 'C05': (T + ': iterator states of all ways to run a query must be identical terms', ''),
 'C06': (T + ': loop summary of Attr::matches decided for every truth assignment of one attribute', ''),
 'C07': (T + ': decision trees of the combinators against their truth tables', ''),
 'C08': (T + ': decision trees of Pattern::matches per implementation', ''),
 'C09': (T + ': offered exact values against the summary of matches(), def-use of the lookup key', ''),
 'C10': (T + ': per-variant accessor table', ''),
 'C11': (T + ': fold summary of all_text', ''),
 'C20': (T + ' of the tree conversion, per kind of node and per void name, by induction over the tree', ''),
 'C21': (T + ' of the XML conversion, per kind of node and per field, by induction over the tree', ''),
 'C12': (T + ': provenance of the re-queried node list, clone identity per variant', ''),
 'C13': (G, ''),
 'C14': (G, ''),
 'C15': (G, ''),
 'C16': (G, ''),
 'C17': ('lint over the constant table in the typed tree (row by row against the HTML table), regular-expression syntax tree, and MIR path summary of the decoder evaluated on abstract texts', ''),
 'C18': ('MIR fold summaries of the decoding pass per node kind and field, by induction over the tree (value-flow terms, no solver)', ''),
 'C19': (G, ''),
 'C23': ('state-graph progress of the iterators, consumption of every grammar repetition and re-entry, loop measures on MIR path summaries', ''),
 'C24': ('recursion sites on MIR path summaries: each recursive argument must be a child of its frame\'s argument; grammar re-entries must be bracketed by input of their own frame', 'The derived Clone, PartialEq, Debug and Drop of the node types recurse on nesting by construction and are not listed as sites.'),
 'C25': ('type checking: one witness client per public item against the metadata of every feature combination, accepted iff its features are on; compile-fail twins otherwise', ''),
 'C26': ('type and borrow checking of witness clients and compile-fail twins; unsafe_code lint forbidden; lints for interior mutability and mutable access over the typed program', ''),
 'C27': (T + ': equality and clone of every pair of node kinds against part-wise comparison', ''),
 'C28': ('abstract interpretation of the query machinery on MIR: every consultation of the filter logged against a ghost filtered walk, explored to a fixpoint', ''),
 'C30': ('abstract interpretation of the iterators on MIR: size_hint evaluated in every abstract state of the walk (fixpoint exploration with a ghost walker)', ''),
 'C29': ('MIR path summaries of the nom parsers with a log of recursive parses per path (failing paths included): spans must be disjoint and ordered', 'Bounds repetition of nested content, not the total running time (N04).'),
 'C22': ('obligations of every panicking construct (checks in the MIR, panicking std calls) discharged on path summaries by difference bounds and character boundaries', 'Allocation failure and stack exhaustion (N01) are outside; so are panics inside html5ever, regex, nom, xmltree other than on preconditions listed in engine/std_panics.txt or known by name.'),
}
NA = {
 'N01': 'A bound on nesting depth is a run-time quantity: the code recurses on nesting (also in the derived Clone/Drop and in the parser crates), so no static argument bounds the stack; C24 decides the part that is visible in the source.',
 'N02': 'The tree construction rules are implemented in html5ever, outside this repository; deciding them needs its source and the whole HTML standard as oracle.',
 'N03': 'Relates two parsers, one of which is html5ever outside this repository; equality of their results on all well-formed inputs is not visible in the shape of this code.',
 'N04': 'Running time is a run-time quantity; the costs of regex, html5ever, xml-rs and of the hash maps are outside what a sound static bound in reach covers. C23 decides termination, C29 that strict parsing does not read nested content twice, C28 that a search looks at each node once.',
 'N05': 'Well-formedness is decided by xml-rs, outside this repository; C21 decides that its errors are reported.',
}
def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in CLAIMS:
            t, note = CLAIMS[i]
            checks.append({'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {i}',
                           'technique': t, 'level': 'other', 'level_note': (LEVEL + ' ' + note).strip()})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'No check has been built for it yet.')})
    m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo: the checks read the type-checked program of the unmodified source. known_findings.txt lists repaired defects.'}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
main()
