#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe or [], hook_needed=None)))

L, S, R = "src/lib.rs", "src/mesdoc/selector/", "src/mesdoc/rules/"
I = "src/mesdoc/interface/"
E = I + "elements.rs"
p("C01", "Child positions and parent links stay consistent after every mutation",
  "After any sequence of text, HTML, insertion, replacement and removal calls, every node in an element's child list records its own position in that list and records that element as its parent. No node is listed twice, and a node that was removed, replaced or moved away is no longer listed at its old place.",
  ["inputs", "histories"], "every tree, every target and every call sequence of the mutation API",
  "The tests mutate a few small trees and read the HTML back; stale positions only show in later sibling, removal or ordering calls on other shapes.",
  [L], [("each mutator renumbers the siblings after the edited place and sets the parent of what it inserts", L),
        ("reset_next_siblings_index", L)],
  [("Node.index", "position in the parent's child list", "rphtml Node, written in " + L), ("Node.parent", "weak link to the parent", "rphtml Node, written in " + L)],
  ["set_text", "set_html", "remove", "insert_adjacent", "replace_with", "remove_child"])
p("C02", "No mutation can make an element contain itself",
  "Inserting an element into itself or into one of its descendants, replacing an element with itself or with one of its ancestors, and inserting or substituting a whole document, are all refused: the tree stays as it was and the refusal is reported to the document's error handler.",
  ["inputs", "histories"], "every pair of elements in every tree, for every insertion and replacement call",
  "A cycle needs a particular ancestor relation between two handles; tests try one or two.",
  [L, E], [("validate_dom_change: self and ancestor walk before the edit", L)], None, ["append", "prepend", "before", "after", "replace_with"])
p("C03", "Concurrent loading and querying cannot deadlock",
  "Threads that load and query their own documents at the same time never deadlock: the shared selector registries are always locked in one global order and never re-locked by the thread that holds them. No registry lock is held while a document is searched or a user callback or error handler runs, and the registries are filled exactly once, before any query can read them.",
  ["schedules"], "every interleaving of any number of threads using the public API",
  "The single concurrency test samples a few interleavings; a lock-order inversion or a lock held over matching shows only under a particular schedule or a nested selector.",
  ["src/mesdoc/mod.rs", S + "mod.rs", S + "rule.rs", S + "pattern.rs", R + "mod.rs"],
  [("Once-guarded init before parsing", "src/mesdoc/mod.rs, " + L), ("lock order splitter/all-rule, rules, patterns/regexes", S)],
  [("SPLITTER, ALL_RULE, RULES, PATTERNS, REGEXS", "process-wide registries behind mutexes", S)])
p("C04", "No selector string can make parsing panic",
  "For every string given as a selector, parsing returns either a selector or an error value. It never panics (no out-of-range access, failed unwrap, arithmetic overflow or unsupported-token panic), so the registries shared by all threads are never poisoned.",
  ["inputs"], "every selector string",
  "The tests feed a few dozen selectors; the panicking ones are truncated or oversized strings nobody wrote down.",
  [S + "mod.rs", S + "pattern.rs", S + "rule.rs", R], [("patterns return None on short input; factories only use what the pattern captured", S + "pattern.rs")])
p("C05", "Every invalid selector or failed load is reported exactly once",
  "A selector-taking method called with an invalid selector on a non-empty set calls the document's error handler exactly once and returns an empty set (or false); on an empty set it returns the same without panicking. A failed load is returned as an error, or passed to the given handler exactly once with an empty set returned; no error value is dropped, duplicated or turned into a panic.",
  ["inputs", "histories"], "every selector-taking method, every invalid selector, with and without a handler",
  "Tests check a handful of methods; every other method could swallow or duplicate the report.",
  [E, L, I + "document.rs"], [("trigger_method / trigger_method_throw_error", E), ("load_options_catch", L)])
p("C06", "Reading never changes the document and returns live nodes",
  "Selecting, filtering, traversing and reading text, HTML, attributes or form values changes nothing in any document, and the sets returned refer to the document's own nodes. Only the documented copying calls (cloning a set, copied, copy_node) create new nodes.",
  ["inputs", "histories"], "every document, query and call history",
  "Tests compare query results, not the document before and after every query.",
  [L, E, I + "element.rs", I + "texts.rs", R], [("queries only take shared borrows of nodes and hand out reference-counted handles", L)])
p("C07", "Equal calls give equal answers",
  "What a query or a serialisation returns depends only on the document and the arguments: not on hash-map iteration order, addresses, time, randomness, environment, the calling thread, or earlier queries.",
  ["inputs", "histories", "schedules"], "every document, argument and history of earlier calls, on every run",
  "Hash order and history dependence differ between runs; a test that passes once proves nothing about the next process.",
  [E, L, R, S], [("hash containers are only probed by key; registries are write-once", E)])
p("C08", "No call trips over its own node borrows",
  "No library call panics because a node is already borrowed: while the library holds a mutable borrow of a node it never reads or writes that node again through another handle, directly or inside a helper. User callbacks are never invoked while a node is mutably borrowed.",
  ["inputs", "histories"], "every tree and target of every reading and mutating call",
  "Conflicts depend on which node is edited relative to which sibling or parent is borrowed; tests use a few arrangements.",
  [L], [("short-lived borrows; index and names read before the mutable borrow", L)])
p("C09", "Attribute names are case-insensitive for every operation",
  "Reading, testing, setting and removing an attribute treat names that differ only in ASCII case as the same attribute: setting an existing one replaces its value instead of adding a second, and after removal no reader or selector sees it under any spelling.",
  ["inputs", "histories"], "every attribute name spelling and every sequence of set, remove and read",
  "Tests use lower-case names almost everywhere.",
  [L, R + "attr.rs"], [("lower-cased key into the name map on every access", L)],
  [("lc_name_map", "lower-cased name to position in attrs", "rphtml TagMeta")])
p("C10", "Text and attribute values cannot inject markup",
  "Text set on an ordinary element is entity-encoded before it becomes content (only raw-text tags keep it verbatim). An attribute value that is set - on a new or an existing attribute - is stored so that it serialises inside quotes whenever it needs them, and never contains its own delimiting quote unescaped.",
  ["inputs"], "every string given to set_text and set_attr",
  "Tests set a few tame strings.",
  [L], [("encode() in set_text", L), ("quote selection and encode_char in set_attribute", L)])
p("C11", "Every call terminates",
  "Every library call on a finite document returns: each loop makes progress on every iteration through a finite string, list, range or tree axis, and each recursion moves strictly up the tree, strictly down the tree, or into a strictly shorter remainder of the selector.",
  ["inputs"], "every document and argument",
  "A missing advance loops only on the input that takes that branch.",
  [E, L, S, I + "element.rs", R], [("index advances / parent() / next_element_sibling() in each loop", E)])
p("C12", "Traversal yields only elements, on the named side",
  "Children, next, previous and sibling traversals return element nodes only - never text, comments or the hidden document root - and exactly the ones on the named side of the element: all following siblings for next-all, all preceding ones for previous-all, the nearest one for next and previous, both sides but never the element itself for siblings. Parent and ancestor traversals never return the hidden root.",
  ["inputs"], "every element of every document",
  "Tests traverse a few trees with few mixed text/comment siblings.",
  [I + "element.rs", L, E], [("node-type test before each collected node", I + "element.rs"), ("index+1..total and 0..index ranges", I + "element.rs"), ("is_root_element test", E)])
p("C13", "Result sets are in document order without duplicates",
  "Selecting, traversing or merging, starting from sets that are in document order without duplicates, returns each matching element once and in document order, whatever combinators and selector lists are used. When a set holds elements of several trees (two documents, removed elements), this holds within each tree. No result has duplicates, whatever the order of the starting sets.",
  ["inputs"], "every document, selector and starting set",
  "Order and duplication break only for nested or interleaved starting elements.",
  [E], [("sort_and_unique / unique_* / ordered merge in add", E)])
p("C14", "Every feature combination builds and gates the documented API",
  "The crate compiles with every combination of its features. The text API exists exactly with the text feature, insertion and replacement exactly with insertion, removal, emptying and set cloning exactly with destroy or insertion; loading, querying, attributes and content setters exist always.",
  ["configurations"], "all 8 subsets of the features text, insertion, destroy",
  "The tests build only with all features on.",
  ["Cargo.toml", "src/macros.rs", L, E, I], [("cfg_feat_* macros", "src/macros.rs")])
p("C15", "Pure safe Rust: no unsafe, no ambient effects",
  "The library contains no unsafe code, and no public call reads or writes files, the network, environment, standard streams, or processes, starts threads, or changes process-wide settings. Document handles and element sets cannot be sent to or shared with another thread.",
  ["inputs", "programs"], "every call path of the library, every program using it",
  "An effect on one rare path is invisible to tests.",
  ["src"], [("safe code over Rc/RefCell", "src")])
p("C16", "Every documented selector is recognised and wired consistently",
  "Every documented selector form has exactly one registered rule, no rule or earlier pattern hides another documented form, and everything a rule's matcher takes from the match is something its pattern always captures. Every combinator the tokenizer can produce is one the parser accepts and can look up in reverse.",
  ["inputs"], "every selector form of the documentation",
  "Tests exercise each form in isolation, not registration order against every other form.",
  [R, S], [("rules::init registration order", R + "mod.rs"), ("RuleDefItem tables", R)])
p("C17", "Each method applies the axis, mode or place its name says",
  "Each traversal method walks the axis it is named after, each filtering method (filter/not/is/is_all, with selector, callback and set variants) applies its own mode, and each insertion method (append, prepend, before, after and their inverses append_to, prepend_to, insert_before, insert_after) uses its own place with target and content in the right roles, also for sets that hold elements of several trees (two documents, removed elements) and for sets that are no longer in document order because elements were moved. Each selector combinator is searched backwards along its exact inverse.",
  ["inputs"], "every public traversal, filter and insertion method",
  "A swapped axis or mode differs only on inputs where the two axes differ.",
  [E, S + "mod.rs", L, I + "element.rs"], [("Combinator, FilterType and InsertPosition dispatch", E)])
p("C18", "Inserting moves elements and keeps their order",
  "Inserting or substituting elements moves them: each leaves its previous parent and appears exactly once, and a set of several elements ends up at the target in the set's own order. Nothing that was at the target is lost except an element that is replaced.",
  ["inputs", "histories"], "every target, set and position",
  "Tests insert mostly single elements.",
  [L, E], [("remove_child before insertion", L), ("insert / replace loops", E)])
p("C19", "Class edits add and remove exactly the named classes",
  "For any argument - names in any order, repeated, or surrounded by whitespace - adding, removing and toggling classes never panics, adds only classes that are absent, removes only classes that are named, and keeps the others in their order.",
  ["inputs"], "every class attribute value and argument string",
  "Tests list classes in attribute order without repeats.",
  [E, "src/mesdoc/utils.rs"], [("membership test before push; ascending unique positions into retain_by_index", E)])
p("C20", "Set methods are total",
  "Methods of element and text sets never panic whatever the set's size and the indexes or ranges given: on empty sets, out-of-range indexes, inverted or unbounded ranges, detached elements and document roots they return an empty or default result.",
  ["inputs"], "every set size, index and range",
  "Tests rarely use empty sets or odd ranges.",
  [E, I + "element.rs", I + "texts.rs", R + "pseudo.rs", L], [("length and emptiness tests before indexing", E)])
p("C21", "Compound selectors mean what they say, in every method",
  "Whatever combinators, chained conditions and comma lists a selector has, every method that takes it honours the whole of it: finding, traversing, until, closest, filtering and testing give exactly the elements reached by composing its parts from left to right (for tests: the elements a search of the whole document would return). The lookup order chosen by the optimiser, the priorities of the rules and the kind of matcher a rule provides never change the answer.",
  ["inputs"], "every selector form, document and starting set",
  "Tests use a few selectors per method; an optimisation or a method that drops a part of the selector only shows on documents where that part matters.",
  [E, S + "mod.rs", S + "rule.rs"], [("Selector::optimize and head_combinator", S + "mod.rs"), ("find_selector, select_by_rule, select_with_comb, filter_type_handle, has_ele", E)])
p("C22", "Simple selectors match exactly the elements they name",
  "Through every entry point (filter, is, not, find alike), a tag name matches elements of that name whatever the letter case; .c matches when c is one of the whitespace-separated words of the class attribute; #i the element with that id; [a] when the attribute is present; [a=v] [a^=v] [a$=v] [a*=v] [a~=v] [a|=v] [a!=v] compare the whole value, its start, end, any part, one word, the value or its part before '-', and inequality, case-sensitively, in all three quoting styles (an empty v never matches for ^= $= *= ~=; a missing or valueless attribute counts as empty for = |= !=). :empty matches elements with no child but comments, :root the html element of a document, :contains(t) elements whose decoded text contains t, :header h1 to h6, :input and :submit the form controls, :checked the checked checkboxes and radios, the selected options, and the first option of a single select none of whose options is selected.",
  ["inputs"], "every element, attribute value and selector value",
  "Tests try a handful of values; prefixes, word boundaries, letter case, empty and missing values, and the agreement of the entry points need all of them.",
  [R, E], [("attr, class, id, name rules", R), ("pseudo_root, pseudo_empty, pseudo_contains, pseudo_checked and aliases", R + "pseudo.rs")])
p("C23", "Positional pseudo-classes count siblings as CSS defines",
  "Through every entry point and for every set of elements it is applied to, :first-child, :last-child, :only-child, :first-of-type, :last-of-type, :only-of-type and :nth-child, :nth-last-child, :nth-of-type, :nth-last-of-type with an index, odd, even or An+B (any signs, blanks around the sign) match exactly the elements whose 1-based position among all element siblings (of the same tag for -of-type) has the stated form A*n+B with n >= 0; texts and comments do not count, and which siblings happen to be in the set, or what else the selector demands, does not change the position.",
  ["inputs"], "every sibling row, subset and coefficient pair",
  "Tests use full rows and few coefficients; negative steps, offsets past the end, partial sets and sets that leave and re-enter a row are not sampled.",
  [R + "pseudo.rs", S + "pattern.rs", "src/mesdoc/utils.rs"], [("get_allowed_indexs, Nth pattern, divide_isize", S + "pattern.rs"), ("group_siblings_then_done, handle_nth_of_type, specified handles", R + "pseudo.rs")])
p("C24", "Content readers read the right nodes in the right form",
  "text() is the decoded text of every element of the set, in order; html() and outer_html() render the first element's content and the element itself, htmls() and outer_htmls() those of all in order, and text_content, text, text_chars, inner_html and outer_html of a node do so for that node. val() is the first element's form value: the value attribute of an input or option, the text of a textarea, the value of the (first) selected option of a single select or of its first own option when none is selected, all selected values of a multiple select, in groups or not, and an empty value otherwise. texts(n) gives exactly the text nodes (and raw-text elements) less than n levels down (all for 0), in document order.",
  ["inputs"], "every set, form control, option arrangement and depth",
  "Tests read a few single elements.",
  [L, E], [("text_contents, text_chars, inner_html, outer_html, value, texts_by_rec", L), ("text, html, htmls, outer_html, outer_htmls, val, texts", E)])
p("C25", "Callbacks see each member once, in order, with its position",
  "for_each and each call the callback with 0, 1, 2... and the set's members in order and stop after the first false; map, filter_by and not_by call it for every member and return the results, respectively the accepted or the refused members, in order; is_by and is_all_by answer for any or all members. The same holds for for_each, each and filter_by of a text set. texts_by and texts_by_rec offer every text within the depth, with its depth, in document order, keep those accepted, and do not enter an element the second callback refuses.",
  ["inputs"], "every set and every sequence of answers the callback gives",
  "Tests use one predicate per method on ordinary sets.",
  [E, "src/mesdoc/interface/texts.rs", L], [("for_each, each, map, filter_by, not_by, is_by, is_all_by", E), ("for_each, filter_by", "src/mesdoc/interface/texts.rs"), ("texts_by_rec", L)])
p("C26", "Document accessors find what the document holds now",
  "title, head, body and document_element give the first such element in document order (the title: the text of the titles inside the first head) or nothing, get_root_node the document's root, and get_element_by_id an element that is in the document and has that id at the time of the call, whatever ids elements had when the document was parsed; it gives nothing from the document only when no element has the id.",
  ["inputs", "histories"], "every document shape and every stale or empty id table",
  "Tests look up ids in freshly parsed documents of one shape.",
  [L, "src/mesdoc/interface/document.rs"], [("get_element_by_id, get_root_node", L), ("title, head, body, document_element", "src/mesdoc/interface/document.rs")])
p("C27", "An edit of a set changes exactly its members, each as documented",
  "Every editing method of a set (append, prepend, before, after, replace_with and their inverses, remove, empty, set_text, set_html, attribute and class edits, removing texts) has exactly the effect of the documented single-element operation applied to each member in order: no member is skipped or treated twice, members nested in or next to each other included, and no other node, position, attribute or text changes. A text node's set_text, append_text and prepend_text leave exactly the new, the old and new, or the new and old text.",
  ["inputs", "histories"], "every document, target set and inserted set",
  "Tests edit one target with one element and look at one place of the result.",
  [L, E, "src/mesdoc/interface/texts.rs"], [("insert_adjacent, replace_with, remove_child, set_text, set_html, append_text, prepend_text", L), ("insert, replace, remove, empty", E)])
# ---- stated but not decided by this family --------------------------------
p("C32", "Loading then serialising preserves the document",
  "Serialising an unmodified document reproduces the loaded HTML up to the documented repairs, and re-loading the output gives an equal tree.",
  ["inputs"], "every HTML text", "Tests sample documents.", [L], [("rphtml parser and renderer", "dependency rphtml")])
p("C34", "Deep or large documents stay within stack and time limits",
  "Traversal of arbitrarily deep or wide documents neither overflows the stack nor takes more than near-linear time per query.",
  ["inputs"], "every document size", "Tests use small documents.", [E, L], [("recursive loop_handle helpers", E)])
p("C35", "Nodes created by set_html belong to the target's document",
  "Nodes created by setting HTML or moved from another document are found by id selectors and report errors through the document they now live in.",
  ["inputs", "histories"], "every document and history", "Tests do not query by id after moves.", [L], [("Node.root, id table", "dependency rphtml")])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
