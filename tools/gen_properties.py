#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so it is easy to review and re-emit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))

p("C01", "Building is lossless: the tree is exactly what the events described",
  "For every sequence of token, start-node, finish-node, checkpoint and start-node-at-checkpoint calls that is properly paired, the finished tree has exactly the described nesting, kinds, order and token texts, including empty nodes and empty tokens. "
  "Its text is the concatenation of the token texts in order and every node's text length is the number of bytes below it; building the same tree directly from its children gives an equal tree.",
  ["inputs", "histories"], "every valid builder event sequence (any nesting, kinds over the whole 16-bit range, any UTF-8 text, checkpoints re-used and nested), total text below 4 GiB",
  "The tests build a handful of fixed trees; one example parse and five-token lists. Losslessness is over all event sequences and texts.",
  ["src/green/builder.rs", "src/green/node.rs", "src/green/token.rs", "src/arc.rs"],
  [("flat children stack plus parents stack of start positions", "GreenNodeBuilder::{start_node,finish_node,start_node_at}"), ("running text length while children are written", "GreenNode::new"), ("header+slice allocation", "ThinArc::from_header_and_iter")],
  ["GreenNodeBuilder::finish", "GreenNode::{kind,text_len,children}", "GreenToken::{kind,text}", "Display"])
p("C02", "The node cache is invisible except that identical parts are shared",
  "Building through a node cache, whatever was built through it before and however large it has grown, gives a tree equal to the one built without it and never alters a tree built earlier. "
  "Equal tokens built through one cache are the same allocation, and so are equal nodes when they and all nodes below them have at most three children and none of them is a childless node of kind 0.",
  ["histories", "inputs"], "every history of builds through one cache (kinds other than 0 for the sharing half, because a childless node of kind 0 hashes to the 'not cached' value), including across table growth and after abandoned builds",
  "No existing test uses a shared cache at all.",
  ["src/green/node_cache.rs", "src/green/builder.rs", "src/cow_mut.rs"],
  [("raw-entry hash tables with manually supplied hashes", "NodeCache::{node,token}"), ("element identity comparison", "element_id"), ("rehash functions", "node_hash/token_hash")],
  ["GreenNodeBuilder::with_cache", "addresses of GreenNodeData/GreenTokenData"])
p("C03", "Green trees are immutable structural values",
  "Two green nodes or tokens are equal exactly when they have the same shape, kinds and texts, however and wherever they were built, and equal ones hash equally; clones, borrowed views turned back into owned values, and copies all denote the same value. "
  "The child sequence can be consumed from either end, in any mix of single steps and skips, and always delivers the same children in the same order.",
  ["inputs", "histories"], "every pair of trees (in particular pairs differing in one place) and every interleaving of front/back iteration calls",
  "No existing test compares or hashes green values or uses the child iterator from both ends.",
  ["src/green/node.rs", "src/green/token.rs", "src/green/element.rs", "src/arc.rs"],
  [("derived equality/hash over header and slice", "HeaderSlice"), ("hand-written PartialEq for the borrowed forms", "GreenNodeData/GreenTokenData"), ("forwarded slice iterator", "green::Children")],
  ["GreenNode/GreenToken Eq, Hash, Clone, ToOwned, Borrow, Cow conversions", "GreenNodeData::children"])
p("C04", "Functional edits return exactly the edited tree and leave the original",
  "Replacing, inserting, removing or splicing children of a green node, and substituting a node or token through a syntax handle, returns the tree that differs from the original in exactly that place; the original tree and every handle into it are unchanged. "
  "Everything outside the edited path is shared with the original, not copied.",
  ["inputs", "histories"], "every tree, every position in it, every replacement, every range form, and chains of such edits",
  "No existing test performs a functional edit.",
  ["src/green/node.rs", "src/cursor.rs", "src/api.rs"],
  [("rebuild of one node from cloned children", "GreenNodeData::{replace_child,insert_child,remove_child,splice_children}"), ("rebuild of the path to the root", "SyntaxNode::replace_with / SyntaxToken::replace_with")],
  ["returned GreenNode", "original GreenNode and SyntaxNode", "child addresses"])
p("C05", "Navigation always lands on the structurally right element",
  "From any element of any tree, immutable or mutable, every step - parent, ancestors, first/last child, next/previous sibling with or without tokens, filtered by kind, first/last token of a subtree, next/previous token in document order - yields exactly the element the tree structure prescribes, or nothing when there is none. "
  "The answer does not depend on how the starting element was reached or which other handles are alive.",
  ["inputs", "histories"], "every tree (including empty nodes, zero-length tokens, identical shared siblings, very wide and very deep trees), every element, every way of reaching it, every set of other live handles",
  "The single navigation test looks at one seven-child list of one parse.",
  ["src/cursor.rs", "src/api.rs"],
  [("lookup in the parent's green child list by index", "NodeData::{next_sibling*,prev_sibling*}"), ("index stored per live handle", "NodeData::index"), ("sibling list deduplicating live handles of mutable trees", "NodeData::new, sll")],
  ["cursor::SyntaxNode/SyntaxToken/SyntaxElement navigation methods"])
p("C06", "Every element's range and index are exact, however it was reached",
  "The range of any element starts at the number of text bytes that precede it in its tree and has the length of its own text, and its index is its position among its parent's children; the children of a node tile its range without gaps or overlaps. "
  "This holds for every route by which the element was obtained, for trees of any size up to 4 GiB of text, and for mutable trees after any edits.",
  ["inputs", "histories"], "every tree up to the 4 GiB text limit, every element, every route to it, every prior edit history of a mutable tree",
  "One test compares seven ranges inside the first 15 bytes of one immutable tree.",
  ["src/cursor.rs", "src/green/node.rs", "src/api.rs"],
  [("relative offsets stored with each green child", "GreenNode::new / GreenChild"), ("absolute offset stored in immutable handles, recomputed in mutable ones", "NodeData::offset / offset_mut"), ("in-place reuse of a handle by forward iteration", "to_next_sibling / to_next_sibling_or_token")],
  ["text_range", "index"])
p("C07", "Child iterators deliver every remaining child exactly once, in order",
  "Iterating over the children of a node, with or without tokens, yields each child exactly once and in order, whether previously yielded children are kept or dropped, and a cloned iterator continues independently from the same point. "
  "Restricting an iterator to certain kinds, before or after some children were taken from it, yields exactly the not yet delivered children of those kinds; advancing a handle in place to its next sibling gives the same element as asking for the next sibling.",
  ["inputs", "histories"], "every node and every interleaving of next, clone, drop and kind restriction over both iterator types, on immutable and mutable trees",
  "One test collects the children of one node in a single plain pass.",
  ["src/cursor.rs", "src/api.rs"],
  [("lazy advance that reuses the handle's allocation when unshared", "to_next_sibling, can_take_ptr/take_ptr"), ("lazy first child", "SyntaxNodeChildren/SyntaxElementChildren::next_initialized"), ("kind-filtered continuation", "by_kind")],
  ["SyntaxNodeChildren", "SyntaxElementChildren", "by_kind iterators"])
p("C08", "Tree walks are balanced, complete and stay inside their subtree",
  "A walk started at any node enters and leaves every node (and, in the token form, every token) of that subtree exactly once, in document order, properly nested, and never reports anything outside it; the descendant iterators yield exactly the entered elements. "
  "Skipping a subtree after entering it omits exactly what lies below that node and nothing else.",
  ["inputs", "histories"], "every tree and start node (including starts with identical siblings) and every choice of entered elements at which to skip",
  "No existing test checks a walk; one example relies on a full walk for printing.",
  ["src/cursor.rs", "src/api.rs"],
  [("next event computed from the current one, stop when leaving the start", "Preorder/PreorderWithTokens::next"), ("skip flag applied on the next call", "do_skip")],
  ["preorder", "preorder_with_tokens", "descendants", "descendants_with_tokens", "skip_subtree"])
p("C09", "Position lookups find exactly the elements at that position",
  "Looking up an offset inside a node yields the one non-empty token covering it, or the two non-empty tokens it lies between, or none only if the node has no text; the left/right preference helpers and iteration over the result agree with that. "
  "The covering element of a range contains it and no child of that element does; the direct child lookup returns the child that contains the range whenever one does, and never an element that does not even touch it.",
  ["inputs"], "every tree (with empty nodes and zero-length tokens anywhere), every node in it, every offset and every sub-range",
  "No existing test performs a position lookup.",
  ["src/cursor.rs", "src/green/node.rs", "src/utility_types.rs", "src/api.rs"],
  [("filter over non-empty children touching the offset", "token_at_offset"), ("binary search over relative ranges", "GreenNodeData::child_at_range"), ("descent while a child contains the range", "covering_element")],
  ["token_at_offset", "covering_element", "child_or_token_at_range", "TokenAtOffset"])
p("C10", "The text view behaves exactly like the text it stands for",
  "For any node and any chain of slices on character boundaries, the text view's length, emptiness, character search and lookup, chunk iteration (including early stop), conversion to string and comparison with strings give the same answers as the corresponding plain string. "
  "Two text views are equal exactly when their strings are equal, however differently the text is divided into tokens.",
  ["inputs"], "every node of every tree, every chain of in-bounds slices in every range form, every pair of differently chunked texts",
  "One test compares eleven pairs of short ASCII lists without slices.",
  ["src/syntax_text.rs"],
  [("token ranges intersected with the view's range", "SyntaxText::tokens_with_ranges"), ("lock-step prefix comparison of chunks", "zip_texts"), ("relative slice arithmetic", "SyntaxText::slice")],
  ["SyntaxText methods and comparisons"])
p("C11", "Element equality and hashing mean identity",
  "Any two handles to the same position of the same tree compare equal and hash equally, no matter by which routes or when they were obtained, also after edits of a mutable tree. "
  "Handles to different elements of one tree that have non-empty text compare unequal, as do handles into separately built trees, and equality is symmetric and consistent with hashing.",
  ["inputs", "histories"], "every pair of elements of every tree and every pair of routes to them, before and after edits",
  "No existing test compares two handles.",
  ["src/cursor.rs", "src/api.rs"],
  [("key of green address and absolute offset", "NodeData::key"), ("one live record per element of a mutable tree", "NodeData::new with sll::link")],
  ["Eq/Hash of SyntaxNode, SyntaxToken, SyntaxElement"])
p("C12", "An edit to a mutable tree changes exactly what was asked",
  "Detaching an element removes it with its whole subtree from its tree, leaving it as the root of its own tree, and changes nothing else; splicing removes exactly the children in the given range, then takes each given element in turn out of wherever it is (an earlier or later place of the same parent included) and inserts it there, the positions counting what is left. "
  "After every step of every edit history the contents of all trees involved - structure, kinds, text, lengths - are those of the same edits performed on plain nested lists.",
  ["histories", "inputs"], "every sequence of detach and splice calls over any number of mutable trees, through any handles, including moves between trees and within one parent",
  "No existing test edits a mutable tree.",
  ["src/cursor.rs", "src/sll.rs", "src/green/node.rs", "src/api.rs"],
  [("green path copying up to the root", "NodeData::respine"), ("index adjustment of live later siblings", "sll::adjust"), ("ownership transfer of the green subtree", "NodeData::{detach,attach_child}")],
  ["detach", "splice_children", "green()", "text()"],
  [dict(name="index", meaning="position among the parent's children", where="NodeData::index"), dict(name="green", meaning="current green element", where="NodeData::green")])
p("C13", "Live handles follow every edit",
  "A handle into a mutable tree keeps denoting the same element through any edits made through other handles, including being moved to another tree: its kind, text, index, range, parent, siblings and root always reflect the current state of the tree it is in. "
  "Reaching the element again by any route gives a handle equal to the kept one, and an edit made through either is seen through both.",
  ["histories"], "every edit history and every set of handles held across it (any subset of elements alive, any order of acquiring and dropping them)",
  "No existing test holds a handle across an edit.",
  ["src/cursor.rs", "src/sll.rs"],
  [("sorted circular list of live siblings per parent", "sll::{link,unlink,adjust}, NodeData::{first,next,prev}"), ("re-use of the live record on navigation", "NodeData::new AlreadyInSll")],
  ["all accessors on held handles after each edit"])
p("C14", "Copies and snapshots are isolated from edits",
  "Edits to a mutable tree are never observable in the immutable tree it was cloned from, in other mutable copies, in independent subtree copies, in green trees taken from it earlier, in detached parts, or in trees built from the same cache. "
  "A mutable clone starts out identical to its source including the position of the cloned node, and a subtree copy is an immutable tree of its own starting at offset zero.",
  ["histories"], "every edit history over any set of mutually sharing trees, copies and snapshots",
  "No existing test edits a tree, so none can observe leakage between copies.",
  ["src/cursor.rs", "src/green/node.rs", "src/ast.rs"],
  [("path copying of shared green nodes", "NodeData::respine"), ("re-rooting without copying green data", "clone_for_update / clone_subtree / green")],
  ["snapshots re-read after every edit"])
p("C15", "Removing children while iterating over them works",
  "On a mutable tree, detaching the element just delivered by iteration over the children (with or without tokens, all or only some kinds) or over the siblings does not disturb the iteration: every element is still visited exactly once and in order. "
  "Afterwards exactly the elements that were detached are gone, also when a whole range of children is removed at once or the detached ones are attached elsewhere meanwhile.",
  ["histories", "inputs"], "every mutable node, every subset of visited elements to detach or move, every set of other live handles",
  "No existing test detaches anything; the documented pattern is not exercised.",
  ["src/cursor.rs", "src/sll.rs"],
  [("next child determined before the current one is handed out", "SyntaxNodeChildren/SyntaxElementChildren::next"), ("adjusted indices of live siblings", "sll::adjust")],
  ["children", "children_with_tokens", "by_kind", "siblings", "splice_children"])
p("C16", "No sequence of safe calls touches invalid memory",
  "Whatever sequence of public calls a program makes - building, sharing, navigating, iterating, editing, dropping in any order, with callbacks that panic or edit the same tree, and with requests that are refused - no freed, foreign or uninitialised memory is read or written, nothing is freed twice or with the wrong size, and a reference count can never wrap around. "
  "The process neither crashes nor corrupts its heap.",
  ["histories", "inputs"], "every program over the safe public interface (within available stack depth)",
  "Tests run a few short happy paths without any memory checker; the module is one large unsafe boundary whose invariants depend on the order of calls and drops.",
  ["src/cursor.rs", "src/arc.rs", "src/sll.rs", "src/green/node.rs", "src/green/token.rs"],
  [("intrusive reference counts and parent ownership", "NodeData::{inc_rc,dec_rc}, free"), ("raw pointer <-> owner conversions", "GreenNode/GreenToken::{into_raw,from_raw}"), ("thin/fat pointer reconstruction", "thin_to_thick, HeaderSlice::deref")],
  ["allocator traffic", "AddressSanitizer", "Miri"])
p("C17", "Everything is released, exactly once, when the last user is gone",
  "When the last handle, iterator, text view, green reference and cache referring to a tree is dropped, in whatever order, all memory belonging to that tree is released, and not before; this includes handles advanced in place, detached parts, abandoned iterations and replaced parts of edited trees. "
  "Memory in use is determined by what is reachable, not by the history of operations.",
  ["histories"], "every history of acquiring, advancing, editing and dropping handles, and every final drop order (histories without panics)",
  "No existing test measures memory.",
  ["src/cursor.rs", "src/arc.rs", "src/green/node.rs", "src/green/node_cache.rs"],
  [("free cascades from the last handle to the root", "cursor::free"), ("atomic reference counting of green data", "Arc::drop"), ("in-place advance releasing the record at the end", "to_next_sibling*")],
  ["live allocation count and bytes at quiescent points"])
p("C18", "Green trees may be used from many threads at once without races",
  "Any number of threads may concurrently clone, read, compare, build syntax trees over, edit mutable copies of and drop the same green trees and tokens: there is no data race, every thread sees the same contents, and the memory is released exactly once after the last user. "
  "Green values, caches and node pointers can be sent between threads, while syntax handles cannot be sent or shared.",
  ["schedules", "histories"], "every interleaving of any number of threads sharing green trees, tokens and moved caches",
  "One test only checks at compile time that three types are Send + Sync; no test starts a thread.",
  ["src/arc.rs", "src/green/node.rs", "src/green/token.rs", "src/cursor.rs"],
  [("relaxed increment, release decrement, acquire before destruction", "Arc::{clone,drop}"), ("unsafe Send/Sync impls", "arc.rs"), ("raw pointers keep handles thread-bound", "cursor::SyntaxNode")],
  ["ThreadSanitizer", "Miri data-race detector over many schedules", "allocation balance"])
p("C19", "Invalid requests are refused and leave everything usable",
  "Requests outside an operation's contract - edits of an immutable tree, mixing immutable and mutable elements, attaching an element below itself, insertion positions, offsets, ranges and slices out of bounds, replacement by another kind, pairing errors and stale checkpoints in building, child counts that lie, more than 4 GiB of text - are refused by a panic in every build mode. "
  "After a refusal, or a panic in a user-supplied iterator or callback, every tree and handle involved is still consistent and fully usable.",
  ["histories", "fault_sequences", "inputs"], "every invalid request issued at any point of any history, and a panic injected at any step of a user-supplied iterator or callback",
  "Two tests check one refusal each (node pointers on mutable trees); none looks at the state afterwards.",
  ["src/cursor.rs", "src/green/builder.rs", "src/green/node.rs", "src/arc.rs", "src/syntax_text.rs", "src/ast.rs"],
  [("assertions before mutation", "attach_child, detach, splice_children, start_node_at, finish"), ("length checks around user iterators", "ThinArc::from_header_and_iter")],
  ["panic/no panic", "state of all trees after the refusal"])
p("C20", "A stored node pointer finds its node again",
  "A node pointer taken from a node of an immutable tree resolves, in that tree and in every tree of equal shape and content, to a node of the same kind and range, and to that very node whenever no other node shares both; this includes nodes without any text. "
  "Resolution yields nothing exactly when no node of that kind and range exists or the given node is not a root; typed pointers agree with untyped ones (equality, hashing, casts from one node type to another, resolution), and equal pointers hash equally.",
  ["inputs"], "every node of every tree, every other tree to resolve against, every kind cast",
  "Two tests check only that mutable trees are refused.",
  ["src/ast.rs", "src/cursor.rs", "src/green/node.rs"],
  [("descent by range", "SyntaxNodePtr::try_to_node"), ("kind-checked casts", "SyntaxNodePtr::cast, AstPtr")],
  ["SyntaxNodePtr", "AstPtr"])
p("C21", "The typed layer and AST helpers mirror the untyped tree",
  "Every operation of the language-typed tree interface gives the same result as its untyped counterpart on the same tree, with kinds translated by the language in both directions, and converting between typed and untyped handles preserves identity. "
  "The AST helpers return exactly the children, first child or first token of the requested type, in order, and typed clones denote the clone of the same node.",
  ["inputs", "histories"], "every tree, element, operation and language kind mapping (injective, not the identity)",
  "The tests use the typed layer on two fixed trees; the two languages in the examples are not compared with anything.",
  ["src/api.rs", "src/ast.rs", "src/utility_types.rs"],
  [("newtype wrappers delegating to the cursor layer", "api::SyntaxNode/SyntaxToken/SyntaxElement"), ("cast-filtered child iteration", "ast::support")],
  ["typed and untyped results side by side"])
p("C22", "Printed and serialized forms mirror the tree",
  "Displaying any node, token, green tree or text view prints exactly its text; the indented debug form lists every element once, in document order, at its depth, with kind, range and (shortened on a character boundary) token text, and never fails for any text. "
  "Serialization yields for every node its kind, range and children in order and for every token its kind, range and full text, so that the tree can be reconstructed from it; announced lengths are kept. When the writer or the serializer refuses at some step, an error is reported, not success.",
  ["inputs"], "every tree, every text including multi-byte characters around the shortening limit, on immutable and mutable trees",
  "One test formats a single root; serialization is not tested.",
  ["src/api.rs", "src/cursor.rs", "src/serde_impls.rs", "src/green/node.rs", "src/green/token.rs"],
  [("walk-driven printing", "Debug/Display impls"), ("shortening at the first boundary from byte 21", "Debug for SyntaxToken"), ("map per element", "Serialize impls")],
  ["format!(..)", "serde_json"])
p("C23", "The tutorial parsers keep every byte of their input",
  "For every input string the s-expression tutorial parser terminates without panicking and returns a tree whose text is exactly the input; well-formed input yields no errors and evaluates to the arithmetic result, and unbalanced parentheses are reported. "
  "The expression tutorial parser likewise keeps every token it was given when the tokens form an expression, with multiplication and division binding tighter than addition and subtraction and operators associating to the left.",
  ["inputs"], "every input string for the s-expression parser (nesting within available stack), every token sequence that is an expression for the expression parser",
  "One test parses one 15-byte expression and looks at one list.",
  ["examples/s_expressions.rs", "examples/math.rs"],
  [("root node wraps the complete token list", "Parser::parse"), ("checkpoint-based left associative operators", "handle_operation")],
  ["parse(..).syntax().text()", "errors", "eval"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
