#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the text stays reviewable).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
L="src/lib.rs"
p("C01","Expressions parse to exactly the tree their syntax denotes",
  "For every valid expression - any nesting of literals, identifiers, member/call/new/super/tagged-template chains, unary, update, binary, logical, conditional, assignment, sequence, spread, array, object, function, class, yield, await and import() forms, parenthesised or not - parsing succeeds and yields exactly that tree: same node kinds, same operators, same operands in the same slots, nothing lost, added or reordered.",
  ["inputs"],"All expressions of the supported grammar (ES2018 without async generators), at every statement position that takes an expression, in script and module mode.",
  "The 51 snippets cover about 30 expression shapes, most only printed and never compared; the guarantee is over all combinations and nestings.",
  [L],[("recursive descent from sequence down to primary expressions",L+" parse_expression .. parse_primary_expression"),("cover grammar flags saved/restored around sub-expressions",L+" isolate/inherit_cover_grammar")],
  [("context flags","is_assignment_target, is_binding_element, allow_in, allow_yield, await",L+" struct Context")],["Parser::parse","Parser as Iterator"])
p("C02","Operator precedence and associativity are those of ECMAScript",
  "For any sequence of operands joined by binary, logical, conditional, assignment, comma, unary and update operators with whatever parentheses, the tree has the grouping the ECMAScript grammar prescribes: the fifteen precedence levels, left association for binary and logical operators, right association for **, assignment and ?:.  Fully parenthesising an expression according to that grouping does not change its tree.",
  ["inputs"],"All operator sequences (every ordered pair and triple of operators is reached, random ones up to dozens of operands), with `in` excluded only where a for-head forbids it.",
  "Existing tests contain a handful of single-operator expressions; the number of operator pairs/triples alone is in the thousands.",
  [L],[("operator precedence stack",L+" parse_binary_expression"),("precedence table",L+" determine_precedence/bin_precedence"),("operator translation tables",L+" binary_operator, logical_operator, unary_operator, assignment_operator")],None,["Parser::parse"])
p("C03","Statements and control flow parse to the structure they denote",
  "For every valid nesting of statements - blocks, empty, expression, var/let/const, if/else, all for forms (C-style, in, of, await), while, do-while, switch, try/catch/finally, throw, return, break/continue with or without label, labelled, with, debugger, function and class declarations - parsing succeeds and yields exactly those statements, with every test, init, update, label, case, default, handler, finalizer and body in its own slot, in source order, and each else bound to the nearest if.",
  ["inputs"],"All statement nestings of the supported grammar in all contexts (top level, blocks, function bodies, loop bodies, switch cases, labels).",
  "Tests exercise each statement form once or twice in isolation and mostly print the result.",
  [L],[("statement dispatch",L+" parse_statement_list_item, parse_statement"),("loop heads",L+" parse_for_stmt"),("loop/switch/label context saved around bodies",L+" parse_loop_body, parse_switch_stmt, parse_labelled_statement")],
  [("allow_in","`in` suppressed only inside for heads",L+" struct Context")],["Parser::parse"])
p("C04","Functions, parameters, generators, async and arrows keep their meaning",
  "Every valid function - declaration, expression, arrow (block or concise), method, getter, setter, generator, async - parses to a node with the right name, flags, parameter list (defaults, destructuring, rest) and body.  `yield` and `await` are operators exactly inside generator and async bodies respectively (including concise async arrows) and revert to what they were when the function ends; `return` and new.target are accepted in every function body.",
  ["inputs"],"All nestings of function kinds inside each other and inside expressions, parameters' defaults, templates and classes.",
  "Tests have about ten functions and no nesting of generator/async/arrow/method contexts; context restoration is a property of histories of nested contexts.",
  [L],[("function parsing with saved yield/await/strict/label state",L+" parse_function_decl, parse_function_expr, parse_function_source_el"),("arrow functions via cover grammar",L+" parse_assignment_expr, reinterpret_as_cover_formals_list")],
  [("allow_yield / await","whether yield/await are identifiers",L+" struct Context"),("in_function_body","return and new.target allowed",L+" struct Context")],["Parser::parse"])
p("C05","Classes and object literals keep every member, kind and key",
  "For every valid class or object literal, parsing yields its members in source order, each with the right kind (init, method, getter, setter, constructor), computed/shorthand/method flags, key (identifier, any reserved word, string, number, computed expression), value, generator and async flags, plus the superclass and the class name; a member is never confused with another kind because of its name (get, set, static, async, constructor, ...).",
  ["inputs"],"All member lists, including members named like contextual keywords, separated by any number of semicolons (classes) or with trailing comma and spreads (objects).",
  "Tests contain five classes and a few object literals.",
  [L],[("class elements",L+" parse_class_decl, parse_class_body, parse_class_el"),("object literals",L+" parse_obj_init, parse_obj_prop, parse_object_property_key")],None,["Parser::parse"])
p("C06","Destructuring patterns keep every element in every binding position",
  "In every place that accepts a pattern (var/let/const, for heads, catch, parameters, arrow parameters, assignment targets, to any depth) a valid array or object pattern parses to exactly its elements: holes, targets, keys, renamings, computed keys, defaults, shorthands, nested patterns and rest elements, each in order and attached to its own target.",
  ["inputs"],"All patterns to any nesting depth at all binding and assignment positions.",
  "Tests have about six patterns, one per position.",
  [L],[("binding patterns",L+" parse_pattern, parse_array_pattern, parse_object_pattern, parse_property_pattern"),("assignment patterns via cover grammar",L+" parse_array_init, parse_obj_init, parse_group_expr")],None,["Parser::parse"])
p("C07","Imports, exports and the Script/Module distinction are represented faithfully",
  "With module mode on, every valid import and export form (bare, default, namespace, named with renames, mixed; export all, named list with/without source, declarations, default function/class/expression) parses to a node carrying exactly its local names, external names, source literal and declaration, at its place among the other items; the result is Program::Mod exactly when module mode was requested and Program::Script otherwise, with the items parsed the same either way.",
  ["inputs","configurations"],"All module item lists, specifier lists of any length, identifier and reserved-word external names.",
  "No existing stable test parses an import or export declaration.",
  [L],[("module items",L+" parse_import_decl, parse_named_imports, parse_export_decl, parse_export_specifier"),("program variant",L+" Parser::parse")],None,["Parser::parse"])
p("C08","Literal text and directives are preserved verbatim",
  "The text of every string, number, regular expression (pattern and flags), template chunk (raw, and the chunk without its delimiters) and identifier in the tree equals, character for character, the text in the source, whatever characters, escapes or Unicode it contains; template chunks and substitutions alternate in source order at any nesting depth.  String-literal statements that open a program or function body - and only those - become directives carrying that literal and its unquoted text.",
  ["inputs"],"All literal spellings, template nestings and directive prologues of any length followed by any statement.",
  "Tests contain a few ASCII literals and one prologue.",
  [L],[("literals",L+" parse_primary_expression, parse_template_element"),("directives",L+" parse_directive, parse_directive_prologues, next_part")],[("past_prolog","whether directives are still possible",L+" struct Context")],["Parser::parse"])
p("C09","Automatic semicolon insertion happens exactly where the language says",
  "Leaving out a semicolon before a line terminator, a closing brace or the end of input gives the same tree as writing it, for every statement kind that ends in a semicolon, provided the next token cannot continue the statement; a line terminator never ends a statement that the next token can continue.  A line terminator (or a comment containing or preceded by one) after return, break, continue, yield, or before a postfix ++/-- ends the production there, and one after throw, before the => of an arrow function or after the async of a method makes the program invalid; two statements on one line with no semicolon between them are rejected.",
  ["inputs"],"All pairs of a semicolon-terminated statement and a following token, with every kind of line terminator and with comments before or after it.",
  "Tests have one label/line-feed snippet; ASI depends on every (statement kind x next token x gap layout) combination.",
  [L],[("semicolon consumption",L+" consume_semicolon"),("line terminator tracking",L+" next_item (has_line_term)"),("restricted productions",L+" parse_return_stmt, parse_optionally_labeled_statement, parse_yield_expr, parse_update_expr")],[("has_line_term","a line terminator precedes the look-ahead token",L+" struct Context")],["Parser::parse"])
p("C10","Whitespace, line breaks and comments never change the tree",
  "Rendering the same token sequence with any other layout - any mix of white space characters, LF, CR, CRLF, U+2028, U+2029, and single-line or multi-line comments between tokens, respecting only the places where ECMAScript forbids a line terminator - yields the same tree.",
  ["inputs"],"All pairs of layouts of all valid token sequences.",
  "Each test uses one layout; layout-dependent decisions (async look-ahead, ASI, line counting) need pairs of layouts.",
  [L],[("comment skipping",L+" next_item"),("same-line decisions for async/arrow",L+" at_async_function, parse_assignment_expr, parse_left_hand_side_expr_allow_call"),("position tracking",L+" update_positions, get_item_position")],[("look_ahead_position","line/column of the look-ahead",L+" struct Parser")],["Parser::parse"])
p("C11","Every comment reaches the comment handler exactly once, in order, intact",
  "For every valid text, a supplied comment handler is called exactly once per comment, in source order, with the comment's exact text, byte span and kind (single-line, multi-line), including comments before the first token, after the last one, inside templates' substitutions and next to look-ahead sensitive tokens (let, async, import); and the tree is the same as without a handler.",
  ["inputs"],"All placements of comments in all valid token sequences.",
  "One test counts three comments in one snippet.",
  [L,"src/comment_handler.rs"],[("delivery",L+" next_item"),("look-ahead that must not deliver or lose comments",L+" at_import_call, at_lexical_decl, at_async_function")],None,["CommentHandler::handle_comment"])
p("C12","Parsing is compositional: no state leaks from one item to the next",
  "Concatenating two valid directive-free programs gives the concatenation of their trees, and wrapping a valid statement list in a block, function body, arrow body, method body, loop body, switch case or try block gives the wrapper around the same list.  Nothing the earlier text contained (labels, loops, generators, async functions, classes, for-heads, strict functions) changes how later text is parsed or whether it is rejected.",
  ["inputs","histories"],"All pairs of programs and all wrappers, to any nesting depth.",
  "It is a relation between runs on different inputs; tests look at single snippets and never at what follows a construct.",
  [L],[("context saved and restored around every construct",L+" struct Context and all prev_* locals")],[("Context","the whole parsing context",L+" struct Context")],["Parser::parse"])
p("C13","All entry points agree, deterministically and incrementally",
  "Collecting the iterator, calling parse, constructing with new or with the builder in any setter order or style, and attaching a comment handler all give the same items for the same text and mode, on every run.  Iteration is incremental: the items before an error are yielded unchanged and then the same error parse reports, and after the last item the iterator keeps returning None.",
  ["inputs","configurations","histories"],"All texts (valid and invalid), all builder call orders, any interleaving of iterator steps with a final parse call.",
  "Tests use one construction path per snippet and never compare them.",
  [L],[("Iterator impl and parse",L+" impl Iterator for Parser, Parser::parse"),("Builder",L+" impl Builder")],None,["Parser::new","Builder","Parser::parse","Iterator::next"])
p("C14","Tolerant mode only adds acceptance",
  "Any text accepted without tolerance is accepted with tolerance and gives the same tree.  With tolerance on, the documented tolerable mistakes (getter with parameters, setter with a wrong parameter count, strict-mode-only violations such as deleting a name, a with statement or eval or arguments where they are restricted) parse to the tree of the code as written, wherever they occur, while the same text without tolerance is rejected.",
  ["inputs","configurations"],"All valid programs, and all programs with one tolerable mistake at a generated place.",
  "No test enables tolerance on more than the builder doc snippet.",
  [L],[("tolerance switch",L+" tolerate_error and every use of config.tolerant")],[("config.tolerant","error tolerance",L+" struct Config")],["Builder::tolerant","Parser::parse"])
p("C15","Programs with an early error are rejected wherever the error occurs",
  "An otherwise valid program containing one of the early errors the parser enforces is rejected at whatever place and nesting it occurs: return or new.target outside a function, a label nested in itself, two defaults in a switch, a second constructor, a getter/setter/generator constructor, a static method named prototype, const or a pattern without initializer, getter with parameters, setter without exactly one plain parameter, assignment/update of something that is no valid target (also inside patterns, for heads and update expressions), a parameter or pattern element that is no name or pattern, a reserved word as a binding name, let as a name in a let or const declaration, a unary expression as the base of a power, for await that is no for-of loop, a rest element that is not last or has a default, super without member access or call, export of default or another reserved word without a source.  The same place with the corrected construct is accepted.",
  ["inputs"],"All (early error x surrounding program x nesting position) combinations, with generated sub-parts.",
  "Two snippets expect an error; each early error must be caught in every context.",
  [L],[("explicit checks returning errors",L+" parse_return_stmt, parse_labelled_statement, parse_switch_stmt, parse_class_el, parse_lexical_binding, parse_assignment_expr, parse_update_expr, parse_var_ident")],None,["Parser::parse"])
p("C16","Strict-mode rules apply in strict code and only there",
  "In strict code - module mode, class declarations and expressions, and functions or programs with a 'use strict' directive, including everything nested in them - with statements, deleting a plain name, assigning to or binding eval or arguments, strict reserved words as identifiers, and function declarations as if bodies are rejected.  The same constructs are accepted in sloppy code, in particular right before and after the strict region, and 'use strict' in a function with non-simple parameters is rejected.",
  ["inputs","configurations"],"All (strict-only violation x kind of strict region x nesting x position before/inside/after the region).",
  "No test checks a strict-mode rejection or that strictness ends where its region ends.",
  [L],[("strict flag set and restored",L+" parse_class_decl, parse_directive, parse_function_decl, parse_function_expr, parse_method_body, parse_assignment_expr")],[("strict / allow_strict_directive","strictness of the current code",L+" struct Context")],["Parser::parse"])
p("C17","Structurally incomplete or unbalanced programs are never accepted",
  "A valid program that is cut off inside an open bracket, template or statement, or that has a bracket removed, added or exchanged for another kind, or that lacks a token its construct requires (an operand, a loop keyword, the colon of a case or conditional, the parentheses of a head, an arrow's body, a declaration's name), is rejected with an error instead of giving a tree.",
  ["inputs","fault_sequences"],"All valid programs x all cut positions inside an open construct x all single bracket or required-token deletions/exchanges.",
  "Tests parse complete programs only.",
  [L],[("expect_punct / expect_keyword at every construct",L+" expect_punct, expect_keyword"),("end of input detection",L+" next_item (found_eof)")],None,["Parser::parse"])
p("C18","Errors point at the offending token",
  "When a program stops being parseable at a token, the unexpected-token error reports that token's 1-based line and 0-based byte column within the line, for any mix of LF, CR, CRLF, U+2028 and U+2029 line ends, multi-byte characters, comments, templates and multi-line strings before it; the error's message text contains that same line:column.  An error that carries a position always names the start of a token of the offending construct (or of the token after it), and the same token whatever the layout.",
  ["inputs"],"All valid programs x all places where a mismatched closing bracket or other impossible token is inserted x all layouts.",
  "One unit test computes three positions in one LF-only snippet.",
  [L,"src/error.rs"],[("line table and search",L+" get_lines, get_item_position"),("error construction",L+" expected_token_error, unexpected_token_error")],None,["Error::UnexpectedToken","Error as Display"])
p("C19","Contextual keywords work as plain names wherever the language allows",
  "Names that are keywords only in some contexts (async, of, get, set, static, let, yield, await, from, as, target, eval, arguments, implements, package, ...) parse as ordinary identifiers in every expression, binding, label, parameter, property and specifier position where ECMAScript permits them, and every reserved word is accepted as a property name after a dot, in object literals, classes and patterns; renaming an identifier throughout a program to such a name changes only that name in the tree.",
  ["inputs"],"All (contextual name x position x surrounding program) combinations in sloppy and, where allowed, strict and module code.",
  "Tests use two contextual keywords in one snippet each.",
  [L],[("contextual keyword tests",L+" at_contextual_keyword, at_async_function, at_lexical_decl, at_import_call, parse_var_ident, parse_ident_name, qualified_prop_name")],None,["Parser::parse"])
p("C20","Any token sequence is handled: a result or an error, never a crash or a hang",
  "For every text that splits into JavaScript tokens - valid, truncated, mutated or random, small or large, deeply nested or long, in script or module, tolerant or not - constructing the parser and parsing terminates in work bounded by the size of the text and returns items or an error value; it never panics, overflows an index or loops.",
  ["inputs","configurations"],"All token sequences up to several thousand tokens and a nesting depth of a few hundred, all four mode combinations.",
  "Tests run well-formed snippets only.",
  [L,"src/error.rs"],[("errors as values",L+" Res, Error"),("end of input detection",L+" next_item (found_eof)")],None,["Parser::parse","Parser::new"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
