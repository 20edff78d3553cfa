#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that ids, titles and anchors stay in one place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    a["observe_at"] = observe or ["parser::sparql_query_stmt", "parser::sparql_query"]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

ENTRY = ["parser::sparql_query_stmt", "parser::sparql_query", "update::update"]
UPD = ["update::update"]

prop("C01", "No input crashes or hangs the parser",
 "For every string handed to a query or update entry point the call returns, with a tree or with an error: it never panics, aborts or runs forever. This covers arbitrary Unicode, truncated and corrupted requests, and well-formed requests with every bracketing construct nested up to a hundred levels deep (beyond that only the size of the caller's stack limits it).",
 ["inputs"], "every UTF-8 string: character-level strings, truncations and single-character corruptions of valid requests, deep nestings",
 "The 49 unit tests feed about 100 hand-picked, well-formed, ASCII snippets; slicing by bytes, case folding and look-ahead only go wrong on inputs nobody wrote down.",
 ["src/parser.rs", "src/terminals.rs", "src/path.rs", "src/update.rs"],
 [("every combinator returns IResult instead of panicking; slices are cut on char boundaries", "src/path.rs path_mod; src/terminals.rs"), ("keyword comparison", "src/terminals.rs, all users of tag_no_case")],
 observe=ENTRY)

prop("C02", "The remainder is the untouched tail, and the consumed part stands alone",
 "Whenever a parse succeeds, the returned remainder is a suffix of the caller's own input, and parsing just the consumed part gives an equal tree with nothing left over. Appending anything that cannot continue the request (a closing bracket, a stray word) never changes the tree returned for it.",
 ["inputs"], "every input that parses, whatever follows the request",
 "Unit tests almost always hand over exactly one construct and assert an empty remainder; what is returned with trailing text is never looked at.",
 ["src/parser.rs", "src/terminals.rs", "src/update.rs"], [("nom remainder threading", "all parsers"), ("optional trailing clauses backtrack to before their separator", "src/parser.rs, src/clauses.rs, src/update.rs")], observe=ENTRY)

prop("C03", "Only well-formed queries are consumed",
 "The text a query parse consumes is always a sentence of the SPARQL 1.1 query grammar. A query with a token missing, duplicated, swapped, replaced or added is consumed in full only if the edited token sequence is itself a well-formed query.",
 ["inputs"], "every token sequence and every single-token edit of every query up to the bound",
 "No unit test asserts that a malformed query is rejected; negative inputs are unbounded and only a grammar can say which are negative.",
 ["src/parser.rs", "src/graph.rs", "src/triple.rs", "src/path.rs", "src/arithmetic.rs", "src/clauses.rs", "src/expression/mod.rs"],
 [("the grammar encoded in the parser combinators", "src/*.rs")])

prop("C04", "Every query form is recognised and recorded clause by clause",
 "Every well-formed SELECT, CONSTRUCT (template form and WHERE short form), DESCRIBE and ASK query is consumed in full, with or without the optional WHERE keyword. The tree records the form, DISTINCT or REDUCED, the projection (star, or variables and expressions in order), the template, the described resources, the dataset clauses in order with FROM and FROM NAMED told apart, the pattern, the solution modifiers and the trailing VALUES block, each present exactly when it was written.",
 ["inputs"], "every combination of present and absent clauses, projections and datasets",
 "parser.rs and query/*.rs have no tests at all, and the clause combinations are multiplicative.",
 ["src/parser.rs", "src/query/mod.rs", "src/query/select.rs", "src/query/construct.rs", "src/query/describe.rs", "src/query/ask.rs", "src/data.rs"],
 [("one parser per form, dispatched by keyword", "src/parser.rs sparql_query"), ("clause order", "src/query/*.rs")])

prop("C05", "Prologue declarations are kept in order and verbatim",
 "BASE and PREFIX declarations, in any number and mix, are returned in source order, each with exactly its kind, its prefix (or the empty prefix) and its IRI text. This holds before every query form and before every operation of an update sequence.",
 ["inputs"], "every sequence of declarations up to the bound, before every kind of request",
 "The tests show one three-line prologue on its own, never in front of a query or inside an update sequence.",
 ["src/prologue.rs", "src/terminals.rs", "src/parser.rs", "src/update.rs"],
 [("prologue, base_decl, prefix_decl", "src/terminals.rs")], observe=ENTRY)

prop("C06", "Solution modifiers are recorded exactly as written",
 "GROUP BY, HAVING, ORDER BY and LIMIT/OFFSET are each present in the tree exactly when written, in queries and in sub-selects alike. Conditions keep their number, order, kind (variable, call, bracketed expression, alias) and direction, and LIMIT and OFFSET, in either order, keep their values up to the largest 64-bit unsigned number.",
 ["inputs"], "every subset of the modifiers, every sequence of conditions up to the bound, every boundary value",
 "Tests cover four LIMIT/OFFSET snippets; group.rs and order.rs have none, and no test puts a modifier behind a query.",
 ["src/clauses.rs", "src/order.rs", "src/group.rs", "src/query/select.rs"],
 [("solution_modifier, order_clause, having_clause, limit_offset_clause", "src/clauses.rs"), ("order_condition", "src/order.rs"), ("group_clause", "src/group.rs")])

prop("C07", "Group graph patterns keep their structure and order",
 "Inside braces, triples blocks, OPTIONAL, MINUS, UNION chains, nested groups, GRAPH, SERVICE (with or without SILENT), FILTER, BIND, inline VALUES and sub-selects are returned with the right kind and operands, in source order and at the right nesting level. The optional dot after a pattern never changes the result, and triples stay attached at the position where they were written.",
 ["inputs"], "every sequence and nesting of pattern elements up to the bound",
 "No test parses a group graph pattern; the interplay of dots, triples and patterns needs combinations.",
 ["src/graph.rs", "src/query/select.rs", "src/expression/functions.rs", "src/data.rs"],
 [("group_graph_pattern and group_graph_pattern_sub", "src/graph.rs")])

prop("C08", "Triples and their abbreviations keep every subject, verb and object",
 "In patterns and in templates, `;` and `,` lists, repeated and trailing `;`, the keyword `a`, blank node property lists and collections are returned with every subject, verb and object, in source order and at the nesting written. Statements are separated by single dots with an optional final dot, and that final dot changes nothing.",
 ["inputs"], "every triples block and template up to the bound, including nested property lists and collections",
 "Tests use hand-picked templates built almost only from () and booleans; the pattern (path) side is untested.",
 ["src/triple.rs", "src/path.rs", "src/node.rs", "src/graph.rs", "src/var.rs"],
 [("property_list_not_empty, object_list, collection, triples_template", "src/triple.rs"), ("property_list_path_not_empty, object_list_path", "src/path.rs")])

prop("C09", "Property paths bind with the specified precedence",
 "A property path is returned as alternatives of sequences of steps: `|` binds loosest, then `/`, then `^`, then the postfix `?`, `*`, `+`, with parentheses overriding and `!` taking one step or a parenthesised `|` list of forward and inverse steps. Every step, its direction and its modifier appear in source order, and a variable verb or a following variable or number is never taken for a modifier.",
 ["inputs"], "every path expression up to the bound, followed by every kind of object",
 "Only path_mod is tested, on three one-character strings.",
 ["src/path.rs", "src/expression/iri.rs"],
 [("path_alternative, path_sequence, path_elt_or_inverse, path_elt, path_primary, path_negated_property_set, path_mod", "src/path.rs")])

prop("C10", "Expressions keep operator precedence, order and operands",
 "Every expression is returned with `||` loosest, then `&&`, then one comparison (=, !=, <, >, <=, >=, IN, NOT IN), then + and -, then * and /, then the unary operators, with parentheses overriding. Operands and operators appear in source order with the operator that was written, a number whose sign touches it after an operand counts as an added signed number, and otherwise a leading sign is a unary operator.",
 ["inputs"], "every expression over the operators and operand kinds up to the bound",
 "arithmetic.rs has no tests and the only expression test is empty; precedence shows only in combinations.",
 ["src/arithmetic.rs", "src/expression/mod.rs"],
 [("expression, conditional_and_expression, relational_expression, additive_expression, multiplicative_expression, unary_expression", "src/arithmetic.rs, src/expression/mod.rs")])

prop("C11", "Every function call keeps its function, arguments and flags",
 "Every SPARQL 1.1 built-in, aggregate and IRI function call is accepted with exactly the argument counts the grammar allows and is returned as that very function with its arguments in source order. DISTINCT, `*`, the GROUP_CONCAT separator and empty argument lists are recorded exactly when written, and an aggregate reports itself distinct exactly when DISTINCT was written.",
 ["inputs"], "every built-in, aggregate and function call with every argument count and argument kind up to the bound",
 "call.rs and aggregate.rs have no tests; there are 60 functions, each with its own arity.",
 ["src/call.rs", "src/aggregate.rs", "src/expression/functions.rs", "src/expression/mod.rs"],
 [("built_in_call", "src/call.rs"), ("aggregate", "src/aggregate.rs"), ("arg_list", "src/call.rs")],
 observe=["parser::sparql_query_stmt", "aggregate::Aggregate::is_distinct"])

prop("C12", "Literals keep their exact text, tag, datatype and value",
 "String literals in all four quoting styles (also empty, with escapes, or containing braces, hashes and the other quote) are returned with exactly the characters between the quotes, plus the language tag or datatype that was written. Integers within 64-bit range, decimals, exponents and booleans are returned with exactly the written sign, value and exponent, wherever a literal may stand.",
 ["inputs"], "every literal body over an alphabet of quotes, escapes and delimiters up to the bound; every numeric shape and boundary value",
 "Tests show about twenty literals; empty strings, long strings, escapes at the end and numeric boundaries are absent.",
 ["src/literal.rs", "src/terminals.rs", "src/graph.rs", "src/data.rs"],
 [("string_literal, rdf_literal, language_tag", "src/terminals.rs"), ("numeric_literal, sparql_int, sparql_double, boolean", "src/literal.rs")])

prop("C13", "Names and IRIs use exactly the SPARQL character classes",
 "For every Unicode character and every position (first, middle, last), variables, prefixes, local names (with percent and backslash escapes), blank node labels and IRI references extend over exactly the characters the SPARQL 1.1 terminals allow, and are returned verbatim. A trailing dot is never part of a prefix, local name or label, and no whitespace is allowed inside a name.",
 ["inputs"], "all 1,112,064 Unicode scalar values in every position of every kind of name; all short local names over the special characters",
 "Tests try six letters; the classes are ranges over the whole of Unicode.",
 ["src/terminals.rs", "src/var.rs", "src/graph.rs"],
 [("is_pn_chars_base, is_unicode, is_pn_char, pn_chars_tail, pn_local, plx, iri_ref", "src/terminals.rs"), ("var_name", "src/var.rs"), ("blank_node", "src/graph.rs")])

prop("C14", "Inline data keeps every variable and cell in its row",
 "VALUES blocks, in patterns, after sub-selects and after queries, are returned with their variables in order and every row's values in order (IRIs, literals, numbers, booleans, UNDEF), row by row. Empty variable lists, empty rows and empty tables are kept as such, and the one-variable form stays distinct from the parenthesised form.",
 ["inputs"], "every table shape and cell-kind combination up to the bound, in every position",
 "Tests show five small tables, always on their own.",
 ["src/data.rs", "src/parser.rs", "src/clauses.rs", "src/graph.rs"],
 [("datablock, inline_data_one_var, inline_data_full, datablock_value", "src/data.rs")])

prop("C15", "Every update operation is recognised with its own operands",
 "Every well-formed LOAD, CLEAR, DROP, CREATE, ADD, MOVE, COPY, INSERT DATA, DELETE DATA, DELETE WHERE and DELETE/INSERT ... WHERE request is consumed in full and returned as that operation, with SILENT, source, target, graph reference (GRAPH iri, DEFAULT, NAMED, ALL), WITH, USING and USING NAMED recorded exactly as written. Sequences joined by `;`, with or without a trailing `;` and with prologues in between, keep every operation in order.",
 ["inputs"], "every operation with every operand combination, and every sequence of operations up to the bound",
 "Tests show two DROPs and two CREATEs; update.rs is untested and sequences are never parsed.",
 ["src/update.rs", "src/operations.rs", "src/graph.rs", "src/clauses.rs"],
 [("update, update_stmt", "src/update.rs"), ("*_stmt, delete_insert, modify_stmt", "src/operations.rs")], observe=UPD)

prop("C16", "Quad blocks keep default-graph and named-graph triples apart and in order",
 "A quad block (in INSERT DATA, DELETE DATA, DELETE WHERE, DELETE and INSERT templates) is returned with the triples before the first GRAPH, then every GRAPH block with its name and triples, each followed by the default-graph triples written after it, in source order. The optional dots and empty GRAPH blocks change nothing else.",
 ["inputs"], "every alternation of triples and GRAPH blocks up to the bound, in every quad position",
 "Tests show two quad blocks; nothing follows a GRAPH block in any of them.",
 ["src/quads.rs", "src/triple.rs", "src/operations.rs"],
 [("quads, quads_entry, quads_not_triples", "src/quads.rs")], observe=UPD)

prop("C17", "Layout never changes the result",
 "Between any two tokens, any amount of spaces, tabs, line ends (LF, CR, CRLF) and `#` comments, including none where the tokens stay distinguishable and including a comment at the very end of the text, gives the same tree. A `#` inside an IRI or a string does not start a comment, and the text of a comment is irrelevant.",
 ["inputs"], "every assignment of layouts to token gaups up to a bounded number of deviations, over sentences covering the whole grammar".replace("gaups", "gaps"),
 "Unit tests vary a handful of spaces; no test contains a comment.",
 ["src/terminals.rs", "src/clauses.rs", "src/graph.rs", "src/query/select.rs", "src/operations.rs", "src/update.rs"],
 [("sp, sp1, new_line, sp_enc, preceded_tag1", "src/terminals.rs")], observe=ENTRY)

prop("C18", "Keywords ignore ASCII case, and only that",
 "Every keyword and function name may be written in any mix of upper and lower case ASCII letters with the same result, except the predicate keyword `a`, which must be lower case. No other character (for example a non-ASCII letter whose case folding is an ASCII letter) ever stands in for a keyword letter, and the case of everything else is preserved.",
 ["inputs"], "every keyword in every case pattern (all patterns of short keywords, all single and double flips of longer ones), and every Unicode character in place of every keyword letter",
 "Tests use two spellings of a few keywords.",
 ["src/terminals.rs", "src/var.rs", "src/expression/iri.rs", "src/call.rs", "src/path.rs"],
 [("tag_no_case", "all modules")], observe=ENTRY)

prop("C19", "Names that look like keywords stay names",
 "A prefix, local name, variable or blank node label spelled like a keyword or function name (`filter:x`, `ex:select`, `?where`, `a:b`, `true:x`, `distinct:x`, `_:as`) is treated as the name it is wherever a name may stand, next to any clause. Only a complete keyword counts as a keyword: a longer prefix that merely starts with one is never split.",
 ["inputs"], "every keyword used as prefix, local name, variable and label, in every syntactic position that takes a name",
 "No test uses a keyword-like name; the collision depends on the position.",
 ["src/terminals.rs", "src/var.rs", "src/graph.rs", "src/expression/mod.rs", "src/operations.rs", "src/path.rs"],
 [("order of alternatives, keyword boundaries", "src/terminals.rs preceded_tag1; src/var.rs verb; src/graph.rs graph_or_default; src/expression/mod.rs distinct_expression")], observe=ENTRY)

prop("C20", "Only well-formed updates are consumed",
 "The text an update parse consumes is always a sentence of the SPARQL 1.1 update grammar (with this crate's leniency that DATA blocks may contain variables). An update request with a token missing, duplicated, swapped, replaced or added is consumed in full only if the edited token sequence is itself a well-formed update.",
 ["inputs"], "every token sequence and every single-token edit of every update up to the bound",
 "No unit test asserts that a malformed update is rejected.",
 ["src/update.rs", "src/operations.rs", "src/quads.rs"],
 [("the grammar encoded in the parser combinators", "src/update.rs, src/operations.rs, src/quads.rs")], observe=UPD)

prop("C21", "String argument compatibility follows the SPARQL relation",
 "Two string arguments are compatible exactly when both are simple or xsd:string literals, or both have identical language tags, or the first has a language tag and the second is simple or xsd:string. The texts of the literals never matter.",
 ["inputs"], "all ordered pairs of argument kinds, language tags and texts over a small domain",
 "compatible_arg is not tested at all.",
 ["src/literal.rs"], [("StringLiteral::compatible_arg", "src/literal.rs")], observe=["literal::StringLiteral::compatible_arg"])

prop("C22", "Parsing effort stays polynomial in nesting and length",
 "For every construct that can nest or repeat (brackets, groups, function arguments, collections, property lists, paths, sub-selects, update sequences, layout), doubling the depth or the length multiplies the work by a small constant factor, for well-formed requests as well as for requests that break off or go wrong at the innermost point. No request of a few hundred bytes takes exponential time.",
 ["inputs"], "every nesting construct and every alternation of two of them, complete, truncated and corrupted, at growing depth",
 "Backtracking blow-up is invisible on the shallow inputs of the tests.",
 ["src/call.rs", "src/expression/mod.rs", "src/graph.rs", "src/triple.rs", "src/path.rs"],
 [("ordered alternatives that fail before re-reading nested text", "all alt(...) calls")], observe=ENTRY)

prop("C23", "Lists of any length and nestings of any depth are kept whole",
 "For every repeatable construct the tree contains exactly as many elements as were written, in order, however many there are; for every construct that can nest, the tree has exactly the nesting depth written, for each construct and for any two of them alternating.",
 ["inputs"], "every repetition operator of the grammar at every count up to the bound; every nesting chain and alternation up to the bound",
 "Tests stop at three elements and two levels.",
 ["src/triple.rs", "src/data.rs", "src/graph.rs", "src/path.rs", "src/arithmetic.rs", "src/call.rs", "src/clauses.rs", "src/update.rs"],
 [("many0, many1, separated_list", "all modules")], observe=ENTRY)

prop("C24", "A fragment means the same wherever it stands",
 "The same expression, term, path, triples, group pattern or data block yields the same sub-tree in every place the grammar allows it (FILTER, BIND, HAVING, GROUP BY, ORDER BY, projection, arguments, IN lists; queries, sub-selects, EXISTS; patterns, templates and quad blocks). The clauses around it do not influence it and it does not influence them.",
 ["inputs"], "every fragment up to the bound in every context that can hold it",
 "Tests call inner parsers directly and never compare two contexts.",
 ["src/expression/mod.rs", "src/graph.rs", "src/clauses.rs", "src/order.rs", "src/group.rs", "src/call.rs", "src/quads.rs"],
 [("shared sub-parsers", "src/expression/mod.rs expression; src/graph.rs group_graph_pattern, graph_term")], observe=ENTRY)

prop("C25", "Parsing depends on nothing but the text",
 "Parsing the same text always gives an equal result, whatever was parsed before it (successfully or not), wherever the text is stored and whatever precedes it in memory. Query and update entry points do not influence each other, and any number of texts can be parsed at the same time by different threads.",
 ["histories", "schedules"], "every sequence of calls up to the bound over a set of inputs that exercise every module; every interleaving of two parses with one preemption (and of short ones with two) at the points where memory is taken or released",
 "Each unit test makes a few calls in a fresh process and never compares a later call with an earlier one.",
 ["src/parser.rs", "src/update.rs", "src/terminals.rs"], [("parsers are pure functions without shared state", "all modules")], observe=ENTRY)

prop("C26", "Trees are equal exactly when the requests say the same",
 "Two accepted requests compare equal exactly when they differ only in layout, in keyword case or in tokens the tree does not keep (optional dots, repeated and trailing semicolons of a property list, the optional WHERE, the spelling of a number). Any two requests that differ in a name, a value, an operator, an order, a flag or a clause compare unequal, and a clone always compares equal to its original.",
 ["inputs"], "all pairs of requests from a set covering every construct, and all their single-token variations",
 "Tests compare a tree with a hand-written copy; they never show that two different requests differ.",
 ["src/query/mod.rs", "src/update.rs", "src/literal.rs", "src/expression/mod.rs"],
 [("derived PartialEq and Clone on trees that keep all content", "all AST types")], observe=ENTRY)

prop("C27", "The parsers of single forms agree with the parser of all queries",
 "On every text, ask_query, describe_query and construct_query each return exactly what sparql_query returns (the same tree, the same remainder) when the query has their form, and an error when it has another form or none. The same holds for sub_construct and sub_triples on what follows the keyword CONSTRUCT, each for its own form.",
 ["inputs"], "every well-formed query, every cut, slip and edit of one, and arbitrary token strings, given to all parsers",
 "Tests call one parser on one text; agreement between the parsers is a statement about all texts.",
 ["src/query/ask.rs", "src/query/construct.rs", "src/query/describe.rs", "src/parser.rs"],
 [("alternatives of sparql_query delegate to the public parsers of the forms", "src/parser.rs sparql_query")], observe=["query::ask::ask_query", "query::describe::describe_query", "query::construct::construct_query", "query::construct::sub_construct", "query::construct::sub_triples", "parser::sparql_query"])

prop("C28", "The helpers on the tree say what was written",
 "Aggregate::is_distinct is true exactly for an aggregate written with DISTINCT, whatever its function, argument and separator. A value built by a public constructor (LimitOffsetClause::limit_offset and offset_limit, RdfLiteral::new and literal, Iri::iri_ref and prefixed_name) equals the one the parser returns for the same text. A Sign reads back from its own spelling, with plus as the default and for the empty string; a PathMod is read from ?, * and + and from nothing else.",
 ["inputs"], "every aggregate with every argument and flag; every clause and term built both ways; every short string",
 "The helpers have no tests; the constructors are compared with the parser nowhere.",
 ["src/aggregate.rs", "src/clauses.rs", "src/node.rs", "src/expression/mod.rs", "src/arithmetic.rs", "src/path.rs"],
 [("helpers are total functions of the value", "src/aggregate.rs is_distinct"), ("from_str of signs and path modifiers", "src/arithmetic.rs, src/path.rs")], observe=["Aggregate::is_distinct", "LimitOffsetClause::limit_offset", "LimitOffsetClause::offset_limit", "RdfLiteral::new", "RdfLiteral::literal", "Iri::iri_ref", "Iri::prefixed_name", "Sign", "PathMod::from_str", "parser::sparql_query_stmt"])

prop("C29", "A rejection points into the caller's text",
 "Whenever a query or update entry point rejects a text, it returns an error whose position is a tail of the caller's own text. The parsers never ask for more input: a request that breaks off early is rejected (or, for what is complete in front of the break, accepted), never reported as incomplete.",
 ["inputs"], "every prefix of every bounded request, every slip and edit of one, and short arbitrary texts",
 "Tests assert on successes; how a rejection is reported is tested nowhere.",
 ["src/parser.rs", "src/update.rs", "src/terminals.rs", "src/literal.rs"],
 [("complete (not streaming) parsers throughout", "all modules"), ("errors carry slices of the input", "src/terminals.rs")], observe=ENTRY)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
