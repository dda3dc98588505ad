#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are readable in one place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})

Q, N, F, S, PT = "src/query.rs", "src/node.rs", "src/filter.rs", "src/soup.rs", "src/pattern.rs"
HN, HL, HS, HE, X = ("src/parser/html/node.rs", "src/parser/html/lenient.rs", "src/parser/html/strict.rs",
                     "src/parser/html/entities.rs", "src/parser/xml/mod.rs")

p("C01", "Recursive search visits the whole tree once, in document order",
  "Iterating a parsed document, or running a query in its default recursive mode, visits every node of the document exactly once: each parent before its children, siblings in source order, each subtree completely before the next sibling. Iterating the descendants of one node does the same for that node's subtree, starting with the node itself. After the last node the iteration ends.",
  ["inputs", "programs"], "every tree shape (any depth and fan-out), every Node implementation, every position of the iterator",
  "The tests walk a handful of nodes of two fixed documents; an off-by-one at a third sibling, an empty child list or the end of a nested subtree is invisible to them.",
  [N, Q, S], [("iterator state machine of descendants()", "src/node.rs NodeIter::next"), ("top-level node iteration flattened per tree", "src/query.rs MapNodeIter, QueryIter"), ("iter()/into_iter of a document", "src/soup.rs")],
  [("child/next", "the subtree being walked and the index of the next child", "src/node.rs NodeIter::Tree")], ["Soup::iter", "Query::into_iter", "Node::descendants"])
p("C02", "Strict search examines exactly the top-level nodes, in order",
  "A query switched to strict mode considers each top-level node of the document (or of the sub-document obtained from a result) exactly once, in order, and never considers a nested node.",
  ["inputs", "programs"], "every list of top-level nodes, every tree below them, every filter",
  "Two tests look at the first strict match of one document; completeness, order and the absence of nested nodes are never exercised.",
  [Q, N, S], [("direct iteration over the node slice when not recursive", "src/query.rs MapNodeIter::next, src/node.rs NodeIter::Direct")], [], ["Queryable::strict", "Query::into_iter"])
p("C03", "A query returns exactly the visited nodes its filters accept",
  "The results of a query are precisely those nodes, among the nodes its mode visits, that its filters accept, in visiting order. A rejected node is never returned, an accepted one never skipped or replaced by another, and the search ends only when the visited nodes are exhausted; it then keeps reporting that there is nothing left.",
  ["inputs", "histories"], "every document, every filter, every number of next() calls",
  "Tests check the first matches of a few queries and never compare a result list with the set of accepted nodes.",
  [Q], [("filter loop", "src/query.rs QueryIter::next"), ("query result dereferences to the matched node", "src/query.rs QueryItem")], [], ["QueryIter::next", "QueryItem deref"])
p("C04", "Builder calls conjoin filters and leave the search mode alone",
  "Adding a tag, attribute, attribute-name, attribute-value or class filter to a query keeps every filter added before it and the current mode, and the new filter tests exactly the pattern(s) that were passed. Switching between strict and recursive keeps all filters, and the last switch wins. A query built from a document starts with no filter and in recursive mode, and always searches the document it was built from.",
  ["programs", "inputs"], "every chain of builder calls, in any order and length, on documents and on queries",
  "Each test chains at most two calls, nearly always in the same order; the chains are unbounded and generic in the filter types.",
  [Q], [("builder methods", "src/query.rs impl Queryable for Query, impl Queryable for &Soup, default methods of Queryable"), ("copies of a query are identical", "src/query.rs Clone for Query")],
  [("recursive", "search mode", "src/query.rs Query"), ("filter", "conjunction of all filters so far", "src/query.rs Query")], ["Queryable::{tag,attr,attr_name,attr_value,class,recursive,strict}"])
p("C05", "All ways of running a query agree",
  "first() returns the first element of what all() yields, all() and a for loop over the query yield the same results, and iterating a document by reference, calling iter() on it, or running an unfiltered query on it are the same thing. Cloning a query gives a query with the same results.",
  ["programs", "inputs"], "every query, every document, both implementors of the query interface",
  "No test compares two ways of running the same query except one clone.",
  [Q, S], [("first/all defaults", "src/query.rs Queryable"), ("IntoIterator for Query and &Soup, Soup::iter", "src/query.rs, src/soup.rs")], [], ["Queryable::first", "Queryable::all", "Soup::iter"])
p("C06", "Attribute filters need one attribute matching both name and value",
  "An attribute filter accepts a node exactly when the node has attributes and one single attribute satisfies both the name pattern and the value pattern, whichever kinds of pattern are used. A node without attributes is never accepted; a class filter is such a filter on the attribute named class, matched as a whole.",
  ["inputs", "programs"], "every node, every attribute map, every pair of name and value patterns (exact, boolean, regex, user-defined)",
  "Tests use a few attribute filters on documents where name and value match on the same attribute, so quantifier mistakes over the attribute map do not show.",
  [F, Q], [("Attr::matches: lookup path for exact names, scan path for the others", "src/filter.rs impl Filter for Attr")], [], ["Queryable::{attr,attr_name,attr_value,class}"])
p("C07", "Tag filters and the filter combinators have their logical meaning",
  "The empty filter accepts every node; a conjunction accepts exactly when both parts accept and a disjunction exactly when at least one does; a tag filter accepts exactly the nodes that have a name the pattern matches, so never text, comments or other nameless nodes.",
  ["inputs", "programs"], "every node and every nesting of filters, including user-written ones",
  "The disjunction is not used by any test, and the truth tables of the others are only sampled.",
  [F], [("Filter impls", "src/filter.rs (), And, Or, Tag")], [], ["Filter::matches"])
p("C08", "String patterns match exactly; booleans match all or nothing",
  "A string pattern, in each of its three string forms, matches a value exactly when the two texts are equal character by character (no trimming, case folding or substring match). The boolean pattern matches every value when true and none when false; a regular expression matches when it matches somewhere in the value.",
  ["inputs"], "every pattern text and every haystack text",
  "The tests compare a few ASCII names; substring, prefix, case or whitespace confusions need other inputs to show, and the Cow form is not tested at all.",
  [PT], [("Pattern impls", "src/pattern.rs bool, &str, Cow<str>, String, Regex")], [], ["Pattern::matches"])
p("C09", "The exact-name lookup shortcut never changes a query's result",
  "A pattern that offers itself as an exact value offers precisely the one text it matches, and a pattern that can match several texts, or none, offers no exact value. Hence looking an attribute up by that value and scanning all attributes with the pattern give the same answer.",
  ["inputs", "programs"], "every pattern kind, pattern text and attribute map",
  "No test compares the two paths; a disagreement shows only for particular patterns such as a regex or a boolean used as an attribute name.",
  [PT, F], [("Pattern::value and its default", "src/pattern.rs"), ("the two paths of the attribute filter", "src/filter.rs Attr::matches")], [], ["Pattern::value", "Queryable::attr"])
p("C10", "Node accessors report each kind of node as what it is",
  "For every kind of HTML and XML node: all elements (also raw and void ones) report their own name and attributes, only elements with children report children, which are exactly the stored ones in order, and only text nodes report direct text; comments, doctypes, CDATA and processing instructions report neither name, attributes, text nor children. Looking an attribute up by name returns the value stored under exactly that name, or nothing. Iterating a node goes over its direct children.",
  ["inputs"], "every node of every kind in both node types",
  "The tests read a few elements and text nodes; comments, doctypes, raw and void elements, CDATA and processing instructions are never queried.",
  [HN, X, N], [("Node impls", "src/parser/html/node.rs, src/parser/xml/mod.rs"), ("Node::get", "src/node.rs"), ("iter / IntoIterator", "both node modules")], [], ["Node::{name,text,attrs,children,get}", "iter"])
p("C11", "all_text joins the subtree's text nodes in document order",
  "The full text of a node is the direct text of every node of its subtree (the node itself included) that has direct text, unmodified, in document order, separated by single newlines, with nothing added, dropped or reordered.",
  ["inputs"], "every subtree, including ones with no text, empty or whitespace-only texts",
  "Four assertions on one document; empty texts, whitespace-only texts and text on the root node itself are not reached.",
  [N], [("Node::all_text", "src/node.rs")], [], ["Node::all_text"])
p("C12", "A result re-queried searches exactly its own children",
  "Turning a query result into a document of its own gives a document whose top-level nodes are exactly the result's direct children, complete and in order, not the result itself. The copy is independent, and the result dereferences to the very node that matched.",
  ["inputs", "histories"], "every result node and every subtree under it",
  "Two tests look at the first match inside one re-queried element.",
  [Q], [("QueryItem::query", "src/query.rs"), ("Deref for QueryItem", "src/query.rs")], [], ["QueryItem::query"])
p("C13", "The strict HTML parser accepts all of the input or reports an error",
  "Parsing with the strict HTML parser succeeds only if the entire input was consumed as a sequence of comments, doctypes, elements and text; malformed or left-over input is an error, never a silently shortened document. The parsed nodes are all returned, in source order, and no other entry point bypasses that.",
  ["inputs"], "every input string",
  "Tests parse well-formed snippets through internal functions that do not require full consumption; malformed input is never parsed.",
  [HS, S], [("all_consuming at the entry point", "src/parser/html/strict.rs StrictHTMLParser::parse"), ("Soup::new/html_strict propagate the result", "src/soup.rs")], [], ["Soup::html_strict"])
p("C14", "Strict HTML elements are closed by their own end tag and hold their content",
  "In the strict HTML parser an element ends at its own self-closing mark or at an end tag with the same name (letter case aside, white space allowed before the closing bracket), and its children are exactly all nodes parsed in between, in order. Its reported name is exactly the name written in the start tag, the longest run of name characters including hyphens; a script or style element takes its content as one raw text up to its end tag.",
  ["inputs"], "every nesting of elements, every element name and letter case",
  "Tests have a dozen well-formed elements with short lower-case names.",
  [HS], [("element/raw_element/start_tag grammar", "src/parser/html/strict.rs")], [], ["Soup::html_strict"])
p("C15", "Strict HTML start tags keep every attribute, name and value intact",
  "Every attribute of a start tag, in each of the three HTML forms (unquoted, single- or double-quoted, and without a value) and with any white space HTML allows around it, is recorded under exactly its name and with exactly its value (empty when there is none) apart from decoded character references. A quoted value extends to the matching quote and may contain anything else; an unquoted value or a name ends exactly at white space or at one of the delimiter characters HTML names.",
  ["inputs"], "every attribute list, every character in names and values",
  "The tests use the values yes, good and ok; whether any other letter or delimiter is accepted is a question about the whole character set.",
  [HS], [("start_tag attribute grammar", "src/parser/html/strict.rs start_tag, attr")], [], ["Soup::html_strict", "Node::attrs"])
p("C16", "Strict HTML text, comments, doctypes and raw content are verbatim",
  "Outside of tags the strict HTML parser turns each maximal run of characters up to the next tag into one text node, white space included; comment and doctype contents are exactly the characters between their delimiters, up to the first closing delimiter; the content of script and style elements is exactly the characters up to the end tag, trimmed at both ends. Apart from character references in text nothing is altered.",
  ["inputs"], "every input string",
  "A handful of literals; delimiters inside content, white-space-only runs and non-ASCII text are hardly touched.",
  [HS], [("text/comment/doctype/raw_element grammar", "src/parser/html/strict.rs")], [], ["Soup::html_strict"])
p("C17", "Character references decode to the characters HTML assigns them",
  "Every named character reference of the HTML standard, in each spelling the standard lists (also names with digits, and the legacy ones without semicolon), is recognised as a whole and decoded to exactly the characters the standard assigns to it. A decimal or hexadecimal numeric reference to a Unicode character decodes to that character. Anything else that merely looks like a reference stays as written.",
  ["inputs"], "all 2231 named references and all numeric references",
  "One test decodes two references; the table has over 2000 rows.",
  [HE, HS], [("ENTITIES table", "src/parser/html/entities.rs"), ("reference recogniser and decoder", "src/parser/html/strict.rs ESCAPE, escape_ref")], [], ["Soup::html_strict"])
p("C18", "Decoding touches references in text and attribute values only",
  "The strict HTML parser decodes character references in all text nodes and all attribute values, exactly once, and leaves everything between two references untouched, in order. Names of elements and attributes, comments, doctypes and raw (script and style) content are never decoded.",
  ["inputs"], "every node kind and every text with any number of references at any position",
  "One test with one reference in a text and one in an attribute value; adjacency, ends of the text and the other node kinds are not covered.",
  [HS], [("escape_text loop", "src/parser/html/strict.rs"), ("escape_node/escape_attrs", "src/parser/html/strict.rs")], [("last", "end of the part already copied", "escape_text")], ["Soup::html_strict"])
p("C19", "Void elements: exactly the HTML void names, as whole names",
  "Both HTML parsers treat exactly the thirteen void element names of the HTML standard as void, and report every HTML element of such a name as a void node without children. The strict parser recognises them in any letter case and only as complete names, so that an element whose name merely begins with a void, script or style name is an ordinary element.",
  ["inputs"], "every element name",
  "The tests contain three void names; agreement of the two lists and longer names are not checked.",
  [HS, HL], [("void name alternatives", "src/parser/html/strict.rs void"), ("void name match arm", "src/parser/html/lenient.rs")], [], ["Soup::html", "Soup::html_strict"])
p("C20", "The lenient HTML parser loses nothing of the tree it parsed",
  "Every element, text, comment and doctype of the tree built by the underlying HTML parser (contents of template elements included) appears in the document at the same place, with children in order, its own name, every attribute (by its local name) with its own value, and its exact text. The lenient parser never reports an error.",
  ["inputs"], "every input string, every tree the underlying parser can build",
  "Three documents; comments, templates, foreign elements and attribute collections beyond one entry are not asserted.",
  [HL, S], [("TryFrom<NodeRef> conversion", "src/parser/html/lenient.rs"), ("parse over the root's children", "src/parser/html/lenient.rs")], [], ["Soup::html"])
p("C21", "XML documents are represented completely, and XML errors are reported",
  "Every node the XML reader delivers (elements, text, CDATA, comments, processing instructions, at top level and nested) appears in the document as the same kind of node, in order, and each element keeps its own name, prefix, namespace, namespace list, attributes and children. Malformed XML or a failing reader makes parsing return that error, never a partial document.",
  ["inputs", "fault_sequences"], "every XML document and every reader, including failing ones",
  "Tests use one well-formed document without namespaces, CDATA, comments or processing instructions, and no failing reader.",
  [X, S], [("From<xmltree::…> conversions", "src/parser/xml/mod.rs"), ("XMLParser::parse", "src/parser/xml/mod.rs")], [], ["Soup::xml"])
p("C22", "No input makes the library panic",
  "No document text, query or pattern makes any public operation of the library panic: there is no reachable failing unwrap, index, slice boundary, arithmetic overflow or explicit panic. (Exhausting the stack or memory is not a panic in this sense.)",
  ["inputs", "programs"], "every input string, every reader, every query and pattern",
  "A panic needs one unlucky input (a multi-byte character at a slice boundary, a huge number, an empty list); tests sample a few friendly ones.",
  ["src/**"], [("no fallible call without a discharged precondition", "all functions reachable from the public API")], [], ["whole public API"])
p("C23", "Parsing and searching always terminate",
  "Every parse, query and iteration over a finite document terminates: each repetition of the strict grammar consumes input, no grammar rule calls itself without consuming input first, and every other loop is driven by a finite iterator that it advances on each round.",
  ["inputs"], "every input and every document",
  "Non-termination shows only on the input that triggers it.",
  [HS, N, Q, F, HL, X], [("non-nullable repetition and absence of left recursion", "src/parser/html/strict.rs grammar"), ("iterator-driven loops", "NodeIter::next, QueryIter::next, Attr::matches, escape_text")], [], ["whole public API"])
p("C24", "Recursion follows nesting only, never document length",
  "Stack use grows only with the nesting depth of the document: no operation recurses once per character, per sibling, per attribute or per rejected node, so arbitrarily long flat documents and arbitrarily long runs of non-matching nodes are handled in constant stack.",
  ["inputs"], "every document length, number of siblings, attributes and non-matching nodes",
  "A stack overflow needs documents with tens of thousands of siblings; the tests have a dozen.",
  ["src/**"], [("each recursive call descends to a child node, or follows a consumed start tag", "element/parse, conversions, NodeIter::next")], [], ["whole public API"])
p("C25", "Every feature combination builds and offers exactly its documented API",
  "Each combination of the crate features html-strict, html-lenient, xml and regex compiles, and offers the constructors, parsers, node types and patterns of the enabled features and none of the disabled ones; html enables both HTML parsers and the default enables everything. The query interface is available in every combination.",
  ["configurations"], "all 16 subsets of the four primitive features, the html umbrella and the default set",
  "The test suite is built with the default features only.",
  ["Cargo.toml", "src/lib.rs", "src/parser/mod.rs", "src/parser/html/mod.rs", S, PT], [("cfg attributes and optional dependencies", "Cargo.toml [features], cfg(feature) in src")], [], ["public API"])
p("C26", "Documents are immutable, and results borrow only from the document",
  "No operation of the public interface changes a parsed document, and no unsafe code or interior mutability is used. Query results and nodes may be kept after the query and its iterator are gone, but never longer than the document; sub-documents are independent of it. XML and strict HTML documents, their queries and results can be shared between threads, and a query can be copied whenever its filters can.",
  ["programs", "schedules"], "every program that type-checks against the public interface",
  "It is a statement about all client programs, including those that must be rejected by the compiler; tests are programs that are accepted.",
  ["src/**"], [("lifetimes of Query/QueryItem/NodeIter", "src/query.rs, src/node.rs"), ("private node storage", "src/soup.rs")], [], ["public types"])
p("C27", "Node equality compares every part and clones are equal",
  "Two nodes are equal exactly when they are of the same kind and all their parts are equal: text, comment, doctype or raw content, element name, prefix, namespace and namespace list, attribute map and child list, children compared in the same way and in order. Nodes of different kinds are never equal. A clone of a node consists of the same parts and so equals the original.",
  ["inputs"], "every pair of HTML nodes and every pair of XML nodes of any kind and content",
  "Tests compare a few parsed documents with expected trees; an equality that ignores a part makes such tests pass more often, never fail.",
  ["src/parser/html/node.rs", X], [("PartialEq and Clone of HTMLNode, XMLNode, XMLElement", "src/parser/html/node.rs, src/parser/xml/mod.rs")], [], ["HTMLNode", "XMLNode", "XMLElement"])
p("C28", "Searches are lazy and ask the filter once per visited node",
  "Building a query and starting its iteration look at no node. Each step asks the filter about each node it passes exactly once, in visiting order, and about no node beyond the one it returns; first() takes exactly one step. A filter with side effects therefore sees each visited node once, and taking the first results of a search on a huge document does not search the rest.",
  ["inputs", "programs"], "every document, every filter (including stateful ones) and every prefix of the results a program takes",
  "Results are the same when a filter is asked twice or nodes are looked at ahead of time; only a filter that counts, or a document too large to search, tells the difference.",
  [Q, N, F], [("QueryIter::next, Query::first, Queryable builders", "src/query.rs"), ("NodeIter::next", "src/node.rs")], [], ["Queryable", "Query", "QueryIter"])
p("C29", "Strict parsing reads nested content once",
  "On every path through the strict HTML parser, failing ones included, the parses of nested nodes that a grammar rule starts begin at or behind the end of the previous one: no nested content is ever parsed again. The effort of parsing does not multiply with the nesting depth.",
  ["inputs"], "every input string, well-formed or not",
  "A backtracking alternative over nested content gives the same results and doubles the time with each level of nesting; the tests nest five levels deep.",
  [HS], [("order and disjointness of recursive parses within a rule", "src/parser/html/strict.rs element, node, parse")], [], ["Soup::html_strict"])
p("C30", "Iterators never promise a number of items they do not deliver",
  "The size hint of every iterator of the library (over a document, over the results of a query, over a node's descendants) is true at every point of the iteration: the items still to come are never fewer than its lower and never more than its upper bound. Code that reserves, splits or stops by the hint therefore gets all results and no more.",
  ["inputs", "programs"], "every document, every filter and every point of the iteration",
  "Consumers such as collect and for ignore a wrong hint or only reserve too much; a wrong bound shows only in a program that relies on it, after a certain number of steps.",
  [Q, N], [("QueryIter", "src/query.rs"), ("NodeIter", "src/node.rs")], [], ["Queryable", "QueryIter", "NodeIter"])
# --- properties not claimed (see MANIFEST not_applicable)
p("N01", "Documents of any nesting depth are handled without exhausting the stack",
  "Parsing, searching, cloning and dropping a document succeed, or report an error, for every nesting depth of the input.",
  ["inputs"], "every nesting depth", "Tests nest five levels deep.",
  [HS, HL, X, N], [("recursive descent, recursive conversion, recursive drop", "all parsers")], [], ["Soup::html_strict", "Soup::html", "Soup::xml"])
p("N02", "The lenient parser builds the tree the HTML standard prescribes",
  "For every input the lenient parser's document equals the tree the HTML parsing algorithm prescribes.",
  ["inputs"], "every input string", "Three documents.", [HL], [("html5ever via scraper", "dependency")], [], ["Soup::html"])
p("N03", "Strict and lenient parsers agree on well-formed documents",
  "For every complete well-formed HTML document both HTML parsers produce the same tree.",
  ["inputs"], "every well-formed document", "No test compares them.", [HS, HL], [("two independent parsers", "strict.rs, lenient.rs")], [], ["Soup::html", "Soup::html_strict"])
p("N04", "Parsing and searching take time linear in the input",
  "The running time of parsing and of a full search is proportional to document size.",
  ["inputs"], "every document", "Timing is not tested.", ["src/**"], [("-", "-")], [], ["whole public API"])
p("N05", "Only well-formed XML is accepted",
  "The XML parser rejects every input that is not a well-formed XML document.",
  ["inputs"], "every input", "Only one well-formed document is parsed.", [X], [("xml-rs via xmltree", "dependency")], [], ["Soup::xml"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P: f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P))
