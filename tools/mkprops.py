#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the JSON stays well-formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=observe or [], hook_needed=hook)))

p("C01", "Every text parses to a lossless, well-formed tree",
  "Parsing any text, valid or not, in any language shipped in the repository always returns a tree: it never crashes or hangs, and parsing the same text again gives the same tree. "
  "The leaves of the tree, in order, concatenate to exactly the input text; every internal node spans exactly its children, which are adjacent and in order; and parent, child and sibling links agree with each other. "
  "The same holds for every tree obtained by editing a previous one.",
  ["inputs", "histories"], "every text of every shipped language (rust, fall, json, bnf, arith, sexp, weird) and every history of text edits",
  "Tests compare dumps of a few dozen hand-written texts, nearly all of them valid; whether some input crashes a parser or loses a character is a statement about all inputs.",
  ["fall/tree/src/node/tree_builder.rs", "fall/tree/src/node/imp.rs", "fall/tree/src/node/mod.rs", "fall/parse/src/syn_engine/expr.rs", "fall/parse/src/syn_engine/convert.rs", "fall/parse/src/lex_engine.rs", "lang/rust/syntax/src/rust.rs", "lang/fall/syntax/src/fall.rs", "lang/json/src/json.rs", "lang/bnf/src/bnf.rs", "fall/test/src"],
  [("tree builder growing ranges leaf by leaf", "fall/tree/src/node/tree_builder.rs"), ("leftover tokens wrapped in an error node", "fall/parse/src/syn_engine/expr.rs parse"), ("event-to-tree conversion emitting every raw token", "fall/parse/src/syn_engine/convert.rs")],
  ["Language::parse", "File::edit", "Node::{range,text,parent,children}"])

p("C02", "Parse trees follow the grammar's ordered-choice semantics",
  "For every grammar and every token sequence the tree is the one the grammar defines: the first matching alternative wins, sequences match in order, repetition and option are greedy and never backtracked, lookahead and end-of-input tests consume nothing and leave nothing in the tree. "
  "A contextual token matches exactly its spelling, whatever raw tokens (adjacent, with nothing between them) that spelling is made of, and becomes one leaf. "
  "An alternative that fails leaves no trace in the tree.",
  ["programs", "inputs"], "every well-formed grammar (no left recursion, no repetition of something that can match nothing) and every token sequence",
  "The repository tests seven grammars on a few inputs each; the engine is an interpreter whose meaning is a function of grammar and input.",
  ["fall/parse/src/lib.rs", "fall/parse/src/syn_engine/expr.rs", "fall/parse/src/syn_engine/parser.rs", "fall/parse/src/syn_engine/convert.rs"],
  [("expression interpreter", "fall/parse/src/syn_engine/expr.rs parse_expr_inner"), ("rollback of events", "fall/parse/src/syn_engine/parser.rs rollback"), ("contextual token matching", "fall/parse/src/syn_engine/parser.rs bump_by_text")],
  ["fall_parse::parse", "Language::parse"])

p("C03", "Syntax errors are contained and recovered as the grammar prescribes",
  "Once a sequence has passed its commit point, a missing part does not make it fail: the parts matched so far are kept, followed by one empty error node. "
  "In a layer, parsing never reads past the extent the layer's delimiting expression matched, and whatever the body leaves unparsed there is put in one error node at the end of that extent; skip-recovery puts exactly the skipped tokens in one error node directly before the construct it resynchronises on, and skips nothing if there is none. "
  "Tokens the start rule does not consume are put in one error node at the end of the root, and a text the grammar accepts in full has no error nodes.",
  ["programs", "inputs"], "every well-formed grammar using commit, layer or skip recovery, and every token sequence, valid or not",
  "Recovery is tested on a handful of broken inputs in the rust and fall grammars; containment is about every broken input.",
  ["fall/parse/src/syn_engine/expr.rs", "fall/parse/src/syn_engine/parser.rs"],
  [("commit", "fall/parse/src/syn_engine/expr.rs parse_and"), ("layers", "fall/parse/src/syn_engine/expr.rs parse_layer"), ("skip recovery", "fall/parse/src/syn_engine/expr.rs parse_with_skip"), ("leftovers", "fall/parse/src/syn_engine/expr.rs parse")],
  ["fall_parse::parse"])

p("C04", "Operator expressions nest by declared precedence, left-associatively",
  "For every operator table and every token sequence, binary and postfix operators bind by their declared priority, operators of equal priority associate to the left, and a prefix operator takes as operand everything that binds at least as tightly as itself. "
  "Every operator node contains its operands and operator in source order, and a missing right operand yields an empty error node in the operator's node. "
  "Parsing stops before the first token that cannot continue the expression.",
  ["programs", "inputs"], "every operator table (atoms, prefix, infix, postfix operators with any priorities) and every token sequence",
  "Tests cover one arithmetic grammar on about ten expressions; precedence is a relation over all tables and all operator sequences.",
  ["fall/parse/src/syn_engine/pratt.rs", "fall/parse/src/syn_engine/convert.rs"],
  [("precedence climbing", "fall/parse/src/syn_engine/pratt.rs pratt_go"), ("operators re-parented around their left operand", "fall/parse/src/syn_engine/convert.rs reshuffle_events")],
  ["fall_parse::parse"])

p("C05", "Contexts, rule parameters and previous-node tests are properly scoped",
  "A context flag is on (or off) exactly while the expression that enters (or exits) it is being matched, and has its former value afterwards whether that expression matched or not. "
  "Inside a call of a parameterised rule each parameter stands for the argument given, including parameters handed on from an enclosing call, and the caller's own parameters are intact afterwards. "
  "A previous-node test succeeds exactly when the node completed last, counting nodes completed while looking ahead or in alternatives since abandoned, has one of the listed types.",
  ["programs", "inputs"], "every well-formed grammar nesting contexts, calls and previous-node tests, and every token sequence",
  "The tests use contexts in one grammar and parameters in two; scoping failures need nested uses that fail and backtrack.",
  ["fall/parse/src/syn_engine/expr.rs", "fall/parse/src/syn_engine/pratt.rs"],
  [("save and restore of contexts", "fall/parse/src/syn_engine/expr.rs parse_enter, parse_exit"), ("save and restore of arguments", "fall/parse/src/syn_engine/expr.rs parse_call"), ("last completed node", "fall/parse/src/syn_engine/expr.rs parse_pub, parse_prev_is")],
  ["fall_parse::parse"])

p("C06", "Injected and replaced nodes get the declared place and type",
  "When a construct is parsed as an optional prefix injected into a body, the prefix's nodes, if any, become the first children of the body's node, in order and before the body's own children, and the span of that node covers them. "
  "A node declared replaceable takes the type of the replacing rule matched inside it if there was one and its own type otherwise; the replacing rule itself adds no node. "
  "Neither changes which tokens are matched or the order of leaves.",
  ["programs", "inputs"], "every well-formed grammar using injection or replacement, alone or nested with operators, and every token sequence",
  "Only the rust grammar uses injection and only a few tests look at the result.",
  ["fall/parse/src/syn_engine/expr.rs", "fall/parse/src/syn_engine/parser.rs", "fall/parse/src/syn_engine/convert.rs"],
  [("forward parents", "fall/parse/src/syn_engine/parser.rs forward_parent"), ("reordering of start events", "fall/parse/src/syn_engine/convert.rs reshuffle_events"), ("replacement", "fall/parse/src/syn_engine/expr.rs parse_pub")],
  ["fall_parse::parse"])

p("C07", "Whitespace and comments never steer parsing and attach where declared",
  "Inserting, removing or changing skipped tokens (whitespace, comments) between tokens does not change which nodes the tree has or which other tokens each node holds, except where the spelling of a contextual token is split. "
  "A skipped token next to a node's edge stays outside that node, as a child of the innermost node around it, except for as many of the adjacent ones, counted from the node, as the language's attachment rule asks for; those at either end of the text belong to the root.",
  ["programs", "inputs"], "every grammar, every attachment rule and every placement of skipped tokens",
  "Test dumps omit whitespace, and attachment is looked at in one example.",
  ["fall/parse/src/syn_engine/convert.rs", "fall/parse/src/syn_engine/parser.rs", "fall/parse/src/lib.rs", "lang/rust/syntax/src/rust.rs"],
  [("attachment", "fall/parse/src/syn_engine/convert.rs go, fill"), ("index of significant tokens", "fall/parse/src/syn_engine/parser.rs Parser::new"), ("rust's rule for comments", "lang/rust/syntax/src/rust.rs whitespace_binder")],
  ["Language::parse", "dump_file_ws"])

p("C08", "Lexing is longest-match, first rule on ties, and total",
  "At every position the token taken is the longest match of any lexical rule, the earliest rule winning ties; a rule with a user-supplied function has its length decided by that function once its pattern has won, and if the function declines the position holds no valid token. "
  "A maximal stretch of text in which no valid token starts becomes one error token. "
  "Tokens are never empty, and their lengths add up to the text.",
  ["programs", "inputs"], "every set of lexical rules and every text",
  "There are no direct lexer tests; the grammars' tests use clean token boundaries.",
  ["fall/parse/src/lib.rs", "fall/parse/src/lex_engine.rs", "lang/rust/syntax/src/rust.rs", "lang/fall/syntax/src/fall.rs", "lang/bnf/src/bnf.rs", "lang/json/src/json.rs", "fall/test/src"],
  [("rule numbering", "fall/parse/src/lib.rs RegexLexer::new"), ("token loop", "fall/parse/src/lex_engine.rs lex")],
  ["leaves of the parsed tree"])

p("C09", "Incremental reparsing equals parsing from scratch",
  "After any sequence of edits to a file, the tree obtained by reparsing incrementally is identical, in shape, node types and ranges, to the tree obtained by parsing the resulting text from scratch. "
  "This includes edits that create, join, split or remove tokens, edits with several separate changes, edits next to or inside reused parts, and edits of texts with syntax errors; an empty edit changes nothing.",
  ["histories", "inputs", "programs"], "every history of edits (each a list of kept ranges, in order, and insertions) to every text, in every shipped language and every grammar whose cached rules are self-delimiting",
  "Two property tests in the fall and rust grammars sample edits of one fixed text each, one edit deep.",
  ["fall/parse/src/lex_engine.rs", "fall/parse/src/syn_engine/mod.rs", "fall/parse/src/syn_engine/parser.rs", "fall/parse/src/syn_engine/expr.rs", "fall/parse/src/lib.rs", "fall/tree/src/lang.rs"],
  [("token reuse", "fall/parse/src/lex_engine.rs relex"), ("subtree salvage", "fall/parse/src/syn_engine/mod.rs salvage_segments"), ("cache lookup", "fall/parse/src/syn_engine/parser.rs get_from_cache")],
  ["File::edit", "Language::reparse"])

p("C10", "Text edits and text ranges behave like their mathematical definitions",
  "Building an edit from insertions, deletions and replacements given in increasing order and applying it produces exactly the text with those changes made, with everything else kept verbatim; changes out of order or overlapping are refused. "
  "Range operations (length, containment, overlap, subrange, joining, shifting, ordering) and text operations (slicing, searching, trimming, comparison in every direction) agree with their definition on sets of byte offsets and on plain strings. "
  "Slices and ranges outside the text, or with the end before the start, are refused rather than misread.",
  ["inputs", "histories"], "every text, range, slice and sequence of edit operations",
  "One unit test of three edits; ranges and slices have no tests.",
  ["fall/text/src/text_edit.rs", "fall/text/src/text_range.rs", "fall/text/src/text.rs", "fall/text/src/text_buf.rs", "fall/text/src/text_unit.rs", "fall/text/src/text_slice.rs"],
  [("edit builder", "fall/text/src/text_edit.rs TextEditBuilder"), ("application", "fall/text/src/text_edit.rs TextEdit::apply"), ("range algebra", "fall/text/src/text_range.rs"), ("slices", "fall/text/src/text.rs")],
  ["fall_text public API"])

p("C11", "Structural edits change exactly the nodes they name",
  "Turning a set of node deletions, node replacements, substring replacements and insertions after nodes into a text edit gives the text in which each named node is deleted, replaced or followed by the insertion, and every other character is unchanged and in order. "
  "An operation on a node inside a deleted or replaced node has no effect, and the order in which operations on different nodes are recorded does not matter.",
  ["inputs", "histories"], "every tree and every set of structural operations on its nodes, recorded in any order",
  "Structural edits are exercised only through two editor actions.",
  ["fall/tree/src/edit.rs", "fall/text/src/text_edit.rs"],
  [("edit collection", "fall/tree/src/edit.rs FileEdit"), ("tree walk", "fall/tree/src/edit.rs text_edit_for_node")],
  ["FileEdit::into_text_edit"])

p("C12", "Tree queries and traversals return what their definition says",
  "For every tree and offset the leaf query returns the one non-empty leaf containing the offset, or the left and right neighbours at a boundary; for every range the covering query returns the smallest node containing it that the leaves at its ends share. "
  "Ancestors, siblings, subtrees, descendants by type and visitors enumerate exactly the nodes concerned, each once, in the documented order (children before parents, visitors in order of registration). "
  "Extending a non-empty selection always returns a strictly larger node range containing it, or nothing when the whole file is selected.",
  ["inputs"], "every tree (including trees with empty nodes), offset, range and set of visited types",
  "Unit tests look at a few trees; off-by-one errors sit at boundaries and empty nodes.",
  ["fall/tree/src/search.rs", "fall/tree/src/visitor.rs", "fall/tree/src/ast.rs", "fall/tree/src/util.rs", "fall/editor/src/extend_selection.rs"],
  [("leaf search", "fall/tree/src/search.rs find_leaf_at_offset"), ("covering node", "fall/tree/src/search.rs find_covering_node"), ("visitor chain", "fall/tree/src/visitor.rs"), ("selection", "fall/editor/src/extend_selection.rs")],
  ["fall_tree::search", "fall_tree::visitor", "fall_editor::extend_selection"])

p("C13", "The generated parser means what the grammar source says",
  "For every valid grammar source, the generated tables and lexer parse every text as the source prescribes: each construct and built-in of the grammar language, attributes, parameters, contexts and operator declarations carry their documented meaning, and public rules and only they create nodes. "
  "Rule order, layout, comments and equivalent notations in the source do not matter, and generating twice gives the same output. "
  "Escapes and delimiters in token patterns and contextual spellings reach the generated code unchanged.",
  ["programs", "inputs"], "every valid grammar source and every text in its language or not",
  "Tests only check that seven grammars regenerate to the committed files, and a few generated parsers on a few inputs.",
  ["fall/gen/src/generate/codegen.rs", "fall/gen/src/generate/mod.rs", "fall/gen/src/generate/template.txt", "lang/fall/src/ast_ext.rs", "lang/fall/src/analysis"],
  [("expression compilation", "fall/gen/src/generate/codegen.rs"), ("rule tables and node types", "fall/gen/src/generate/mod.rs"), ("name resolution", "lang/fall/src/analysis/query/resolve_call.rs, resolve_ref_expr.rs")],
  ["fall_gen::generate", "fall_parse::parse"])

p("C14", "Grammar analysis reports exactly the real problems, each once",
  "For every grammar source, valid or broken, the diagnostics are exactly those the source warrants: each unresolved name, duplicate, bad call and bad operator declaration is reported at its place, each unused rule and each context used only once is warned about, and nothing else is. "
  "Every diagnostic appears once, in a stable order, no matter which queries were asked before, how often, or in which order.",
  ["programs", "histories"], "every grammar source and every order and repetition of analysis queries",
  "Tests check about ten diagnostics one at a time on fresh analyses.",
  ["lang/fall/src/analysis"],
  [("query cache", "lang/fall/src/analysis/db.rs"), ("diagnostic collection", "lang/fall/src/analysis/mod.rs"), ("queries", "lang/fall/src/analysis/query")],
  ["Analysis::collect_all_diagnostics", "Analysis::resolve_reference and other queries"])

p("C15", "Analyses may be shared between threads",
  "Queries asked concurrently from several threads on one analysis all return the answer a single thread would get, in every interleaving, without deadlock. "
  "The diagnostics collected afterwards are the same as after single-threaded use: none lost, none duplicated.",
  ["schedules"], "every interleaving of any number of threads asking any queries",
  "No test uses an analysis from more than one thread.",
  ["lang/fall/src/analysis/db.rs"],
  [("cache insertion decides whose diagnostics are kept", "lang/fall/src/analysis/db.rs")],
  ["Analysis queries from several threads"],
  [("query caches", "answers computed so far", "lang/fall/src/analysis/db.rs"), ("diagnostics", "problems found so far", "lang/fall/src/analysis/db.rs")])

p("C16", "Go-to-definition and find-usages are inverse to each other",
  "In every grammar source, the usages found for a definition (rule, token, parameter, accessor class) are exactly the places that resolve to it, each once and in source order. "
  "A place resolves to the definition its name denotes under the grammar's scoping rules: parameters before rules, rules before tokens; accessors name nodes before classes before tokens; unresolved names and text accessors resolve to nothing.",
  ["programs", "inputs"], "every grammar source and every offset in it",
  "Tests check a few hand-picked carets.",
  ["lang/fall/src/editor/references", "lang/fall/src/analysis/query/resolve_ref_expr.rs"],
  [("reference resolution", "lang/fall/src/editor/references/mod.rs"), ("usage search", "lang/fall/src/editor/references")],
  ["resolve_reference", "find_usages"])

p("C17", "Editor actions and the formatter preserve what the grammar means",
  "Reformatting changes only blanks within lines: around every pipe there is a blank and just inside the brackets of a call none, while all tokens and comments stay, in order, and reformatting again changes nothing. "
  "Swapping at a comma or pipe exchanges exactly the two neighbouring elements, and swapping back restores the text if both are non-empty and the source has no errors; extracting a rule replaces exactly the selected expression, or the selected part of a sequence, by a reference to the new rule holding it. "
  "An action is offered at a place exactly if applying it there gives an edit, and neither fails on any source.",
  ["programs", "inputs"], "every grammar source, caret and selection",
  "Each action is tested on one or two examples.",
  ["lang/fall/src/editor/actions", "lang/fall/src/editor/formatter.rs", "fall/editor/src/actions.rs", "fall/tree/src/edit.rs"],
  [("spacing rules", "lang/fall/src/editor/formatter.rs"), ("swap and extract", "lang/fall/src/editor/actions")],
  ["EditorFileImpl::{reformat,context_actions,apply_context_action}"])

p("C18", "Symbol search finds exactly the matching symbols",
  "For every set of Rust files and every query the symbol search returns the functions, structs, enums, type aliases, traits and modules defined in those files whose lower-case name contains the lower-case characters of the query in order, each once, with its own name, kind, range, lines and columns, and nothing else. "
  "Only types count as long as one matches and the query has no #; files may be left out only once more than 512 symbols have been found. After files change, appear or disappear the result reflects the new contents. The outline of a file lists exactly its symbols.",
  ["inputs", "histories"], "every set of source files and every query string",
  "There are no tests of the symbol index.",
  ["lang/rust/src/editor/symbol_index.rs", "lang/rust/src/editor/fst_subseq.rs", "lang/rust/src/editor/line_index.rs", "lang/rust/src/editor/mod.rs"],
  [("subsequence automaton", "lang/rust/src/editor/fst_subseq.rs"), ("symbol table", "lang/rust/src/editor/symbol_index.rs")],
  ["SymbolIndex::query"])

p("C19", "The file index converges to the file system",
  "Once the file system stops changing, the index comes to hold exactly one up-to-date value for every indexed file under its roots and none for files that are gone, whatever sequence of creations, changes, renames and removals of files and directories went before and however they interleaved with indexing. "
  "A reader never sees a value for a path that the mapping function did not produce for that path, and every visit covers each entry at most once and stops as soon as the visitor asks.",
  ["histories", "schedules"], "every sequence of file-system changes and every interleaving with the indexing threads",
  "There are no tests of the index.",
  ["indxr/src/lib.rs"],
  [("initial scan", "indxr/src/lib.rs"), ("change handling", "indxr/src/lib.rs"), ("visiting", "indxr/src/lib.rs process_files")],
  ["FileIndex::new", "FileIndex::process_files"])

p("C20", "Outline, highlighting and test lookup show what each place of a grammar is",
  "For every grammar source, valid or broken, highlighting marks exactly the comments, strings, keywords, parameters and attributes, and every name according to what it resolves to: token, rule, parameter, built-in. "
  "The outline lists the tokenizer, every named rule and the ast block, each once and in source order with its range. "
  "Test lookup at an offset returns the number of the test definition the offset is in, or nothing outside tests.",
  ["programs", "inputs"], "every grammar source and every offset in it",
  "One example each in unit tests.",
  ["lang/fall/src/editor/highlighting.rs", "lang/fall/src/editor/structure.rs", "lang/fall/src/editor/mod.rs", "fall/editor/src/hl.rs"],
  [("colours", "lang/fall/src/editor/highlighting.rs"), ("outline", "lang/fall/src/editor/structure.rs"), ("test lookup", "lang/fall/src/editor/mod.rs test_at_offset")],
  ["EditorFileImpl::{highlight,structure}", "FileWithAnalysis::test_at_offset"])

p("C21", "The Rust editor's services fit the declaration they are asked at",
  "At every offset of every Rust source, valid or broken, no service fails: breadcrumbs name exactly the structs, enums, traits, functions and impls around the character before the caret, outermost first; the outline lists each named definition with its range. "
  "After `let ` a semicolon is added exactly if the statement has neither value nor semicolon. "
  "Swap exchanges exactly the two elements around a comma and swapping back restores the text, Add braces wraps the last part of a used path with its alias, Add impl appends an impl carrying the type's parameters; each is offered exactly where it applies, and leaves an error-free source error-free.",
  ["programs", "inputs"], "every Rust source and every offset in it",
  "Each service is tested on one or two examples.",
  ["lang/rust/src/editor/mod.rs", "lang/rust/src/editor/actions.rs", "fall/editor/src/actions.rs", "fall/tree/src/edit.rs", "fall/tree/src/search.rs"],
  [("breadcrumbs and typing help", "lang/rust/src/editor/mod.rs"), ("actions", "lang/rust/src/editor/actions.rs")],
  ["RustEditorFile::{breadcrumbs,structure,context_actions,apply_context_action,after_space_typed}"])

p("C22", "Generated typed wrappers give what the ast block declares",
  "For every grammar with an ast block, the generated code compiles, and each wrapper takes exactly the nodes of its type (a class: of its variants, as the first that takes it). "
  "A list accessor returns all children of the named node, class or token in order; an optional one the first, or nothing; a single one the first, and fails only if there is none; text accessors return the token's text. "
  "A name in a declaration means the node, else the class, else the token of that name. A trait is implemented for exactly the nodes declared with it, and none of this depends on the names chosen or the order of declarations.",
  ["programs", "inputs"], "every grammar with an ast block and every text parsed with it",
  "Wrappers are only tested through the four shipped languages.",
  ["fall/gen/src/generate/mod.rs", "fall/gen/src/generate/codegen.rs", "fall/gen/src/util.rs", "fall/tree/src/ast.rs", "fall/tree/src/search.rs", "lang/fall/src/analysis/query/resolve_method.rs", "lang/fall/src/analysis/query/ast_node_traits.rs"],
  [("accessors", "fall/gen/src/generate/codegen.rs gen_method; fall/tree/src/search.rs ast"), ("names and kinds", "lang/fall/src/analysis/query/resolve_method.rs")],
  ["fall_gen::generate", "AstNode::wrap", "AstChildren"])

p("C23", "The generator answers every grammar source with code or a refusal",
  "For every text whatsoever taken as a grammar source, generating returns: never a panic, hang or abort. It produces code exactly if everything the code needs is there and has a meaning: "
  "a tokenizer whose tokens have patterns, rules with bodies whose names and calls resolve to something allowed there, replacing rules and previous-node tests with a node type, operator rules whose alternatives are public operators, "
  "named ast definitions with resolvable methods. Otherwise it refuses with an error. Asking again, or after asking for the diagnostics first, gives the same.",
  ["programs", "inputs"], "every text used as a grammar source",
  "No test generates from an incomplete or wrong grammar.",
  ["fall/gen/src/generate/codegen.rs", "fall/gen/src/generate/mod.rs", "lang/fall/src/analysis/query/resolve_call.rs", "lang/fall/src/analysis/query/resolve_reference.rs", "lang/fall/src/analysis/query/resolve_pratt_variant.rs", "lang/fall/src/analysis/query/resolve_method.rs"],
  [("refusals", "fall/gen/src/generate/codegen.rs"), ("resolution", "lang/fall/src/analysis/query")],
  ["fall_gen::generate", "lang_fall::analyse"])

p("C24", "Editing does not redo what the edit cannot have changed",
  "After any history of edits, editing a document again costs what the edit touches, not what the document contains, as its metrics report. "
  "Tokens of the old text inside a kept range, from the first boundary old and new text share there, are not lexed again (but for a token or two next to the range's ends), if the old text had no invalid token. "
  "A stretch that an outermost `#[cached]` rule matched without a syntax error, and that lies in a kept range, is not parsed again when the parser comes to it in the same contexts: it counts as one step, wherever in the document the range has moved to. "
  "So changing one of many items takes a fraction of the steps of parsing from scratch, and never more than that.",
  ["histories", "inputs"], "every grammar repeating cached rules, every document and every history of edits",
  "Tests compare one edit of one document per language; losing the reuse in particular positions or after particular histories changes no tree and so no other test.",
  ["fall/parse/src/lex_engine.rs", "fall/parse/src/syn_engine/mod.rs", "fall/parse/src/syn_engine/parser.rs", "fall/parse/src/syn_engine/expr.rs", "fall/parse/src/lib.rs", "fall/tree/src/lang.rs"],
  [("relexing between kept ranges", "fall/parse/src/lex_engine.rs relex"), ("salvaged cached stretches", "fall/parse/src/syn_engine/mod.rs salvage_segments"), ("cache lookup", "fall/parse/src/syn_engine/parser.rs get_from_cache")],
  ["File::edit", "File::metrics (relexed region, parsing ticks)"])

p("C25", "Listings show the tree, and rendered examples are those of the source",
  "For every tree, the listing has one line per node in document order, indented by its depth: the name of its type and, exactly for nodes without children, the text it covers, quoted and escaped so that it takes one line. "
  "Blanks and comments, with what is in them, are left out, unless the full listing is asked for; editors show the short one. "
  "Rendering a grammar source gives, for every test in it in order and nothing else, the listing of the tree that the parser the source describes builds for the test's text (without blanks around it); rendering the n-th test alone gives that one, "
  "and nothing if there is none. What was rendered before makes no difference. A source that is refused gives the reason. Writing parser and examples to files writes exactly those two beside the source, and no parser for a refused source.",
  ["programs", "inputs"], "every tree; every grammar source with tests",
  "The parser tests compare listings, so an error common to all, or in shapes they lack, goes unnoticed; rendering has no test.",
  ["fall/tree/src/util.rs", "fall/gen/src/lib.rs", "fall/editor/src/lib.rs", "lang/fall/syntax/src/ast_ext.rs"],
  [("listing", "fall/tree/src/util.rs dump"), ("rendering and tasks", "fall/gen/src/lib.rs TestRenderer, process")],
  ["fall_tree::dump_file", "fall_tree::dump_file_ws", "EditorFileImpl::syntax_tree", "fall_gen::TestRenderer", "fall_gen::process"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
