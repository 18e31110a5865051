"""The properties, what each obliges, and the texts of properties.jsonl and MANIFEST.json (python3 engine/props.py writes both)."""
import json, os, sys
import rules
from focus import a_any, a_flags, a_dims, a_errkind, a_newline, a_label, a_tokens, a_or, a_and

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def w(s):
    return s.split()


STMT = w("""next_part parse parse_statement_list_item parse_statement parse_block parse_break_stmt parse_continue_stmt parse_debugger_stmt parse_do_while_stmt
 parse_while_stmt parse_expression_statement parse_for_stmt parse_for_loop parse_for_loop_cont parse_for_in_loop parse_for_of_loop parse_loop_body parse_if_stmt
 parse_if_clause parse_labelled_statement parse_lexical_decl parse_lexical_binding parse_binding_list parse_return_stmt
 parse_switch_stmt parse_switch_case parse_throw_stmt parse_try_stmt parse_catch_clause parse_finally_clause parse_var_stmt parse_var_decl parse_var_decl_list
 parse_variable_decl parse_variable_decl_list parse_with_stmt""")
EXPR = w("""parse_args parse_array_init parse_assignment_expr parse_async_args parse_await_expr parse_binary_expression parse_conditional_expr
 parse_exponentiation_expression parse_expression parse_group_expr parse_left_hand_side_expr parse_left_hand_side_expr_allow_call parse_new_expr
 parse_primary_expression parse_spread_element parse_super parse_template_element parse_template_literal parse_unary_expression parse_update_expr parse_yield_expr
 parse_ident_name""")
FUNC = w("""parse_fn_name parse_fn_stmt parse_formal_param parse_formal_params parse_function_decl parse_function_expr parse_function_source_el parse_generator_method
 parse_method_body parse_property_method_body parse_property_method parse_async_property_method parse_rest_element parse_getter_method parse_setter_method
 parse_async_args""")
CLSOBJ = w("""parse_class_body parse_class_decl parse_class_el parse_getter_method parse_setter_method parse_generator_method parse_property_method
 parse_async_property_method parse_obj_init parse_obj_prop parse_object_property_key parse_property_method_body parse_method_body""")
PAT = w("""parse_pattern parse_pattern_with_default parse_array_pattern parse_object_pattern parse_property_pattern parse_binding_rest_el parse_rest_element
 parse_rest_prop parse_var_ident has_restricted_target reinterpret_expr_as_pat reinterpret_as_cover_formals_list""")
MOD = w("""parse_export_decl parse_export_specifier parse_import_decl parse_import_default_specifier parse_import_namespace_specifier parse_import_specifier
 parse_module_specifier parse_named_imports""")
DIR = w("next_part parse_directive parse_directive_prologues parse_function_source_el")
ALL = sorted(set(STMT + EXPR + FUNC + CLSOBJ + PAT + MOD + DIR))
CTXFLAGS = w("is_module allow_in allow_strict_directive allow_yield await in_function_body in_params in_iteration in_switch label_set strict past_prolog")
COVFLAGS = w("is_assignment_target is_binding_element first_covert_initialized_name_error")


class Cmp:
    """the listed functions have the reference's automata in these projections; pick: only differences of this aspect count"""

    def __init__(self, fns, projs, pick=None, why=""):
        self.fns, self.projs, self.pick, self.why = fns, projs if isinstance(projs, list) else projs.split(), pick, why


class Rule:
    def __init__(self, fn, name):
        self.fn, self.name = fn, name


class Prop:
    def __init__(self, id, title, statement, over, quant, why, mech, obs, note="", level="translation_validation", technique=None, observe=("the parts and errors a Parser yields",), files=("src/lib.rs",)):
        self.id, self.title, self.statement, self.over, self.quant, self.why, self.mech, self.obs, self.note, self.level, self.technique, self.observe, self.files = (id, title, " ".join(statement.split()), over, " ".join(quant.split()), " ".join(why.split()), mech, obs, note, level, technique, observe, files)


TECH = "abstract interpretation of the MIR to one automaton per grammar function, compared for equivalence with reviewed reference automata"
IN = ["inputs"]
INC = ["inputs", "configurations"]

PROPS = [
    Prop("C01", "Statement syntax is recognised exactly",
         """In every script, each statement form (blocks, if, loops, switch, try, with, labels, jumps, declarations, expression statements) is accepted
         exactly when its tokens follow the ECMAScript statement grammar the parser supports, and anything else there is reported as an error.
         No part is skipped, swallowed or read as another statement.""", IN,
         "all token sequences, in every combination of context (strict, module, inside functions, loops, switches)",
         "Tests parse a few hundred fixed snippets and libraries; they contain almost no invalid programs and each statement in few contexts, while the claim is about every token sequence.",
         ["statement dispatcher", "parse_statement and one function per statement form", "parse_statement_list_item"],
         [Cmp(STMT, "GRAM")]),
    Prop("C02", "Expression syntax is recognised exactly",
         """In every script, an expression (literals, calls, member access, new, templates, unary, update, binary, conditional, assignment, arrow, yield,
         await, sequence) is accepted exactly when its tokens follow the ECMAScript expression grammar the parser supports.
         Anything else in expression position is reported as an error.""", IN,
         "all token sequences in expression position, in every context",
         "The number of operator and operand combinations is unbounded; the tests use the ones that occur in a handful of libraries, nearly all of them valid.",
         ["precedence climbing", "parse_assignment_expr down to parse_primary_expression"],
         [Cmp(EXPR, "GRAM")]),
    Prop("C03", "Function and parameter syntax is recognised exactly",
         """Function declarations, function expressions, generators, async functions, methods and their parameter lists (defaults, destructuring, rest last)
         are accepted exactly when they follow the grammar the parser supports, and rejected otherwise.""", IN,
         "all token sequences of function headers, parameter lists and bodies, in every context",
         "Tests hold a few dozen headers; wrong ones (rest not last, missing body, misplaced star, restricted names) are hardly sampled.",
         ["parse_function_decl, parse_function_expr, parse_formal_params, method parsers"],
         [Cmp(FUNC, "GRAM")]),
    Prop("C04", "Class and object literal syntax is recognised exactly",
         """Class bodies and object literals (properties, shorthands, computed keys, methods, accessors, generators, async methods, static members, spread)
         are accepted exactly when they follow the grammar the parser supports, whatever names (get, set, static, async, keywords) their members carry.""", IN,
         "all member lists, with every kind of key",
         "The keys get, set, static, async and constructor each change meaning with the following token; the tests sample a few of those combinations.",
         ["parse_class_el, parse_obj_prop and the method parsers"],
         [Cmp(CLSOBJ, "GRAM")]),
    Prop("C05", "Binding and assignment patterns are read correctly",
         """Array and object patterns (defaults, nesting, holes, rest, computed keys) in declarations, parameters and destructuring assignments are accepted
         exactly when the grammar allows them, and the resulting pattern names the same targets and defaults, in source order, as the text.
         An expression later found to be a pattern is converted piece by piece, and what has no pattern form is rejected.""", IN,
         "all patterns of any nesting",
         "Conversion is a recursion over every expression form; tests reach a handful of shapes.",
         ["parse_pattern family", "reinterpretation of a finished expression as a pattern"],
         [Cmp(PAT, "GRAM AST"), Cmp(["unable_to_reinterpret"], "FULL")]),
    Prop("C06", "Import and export declarations are read correctly",
         """Every form of import and export declaration is accepted exactly when it follows the module grammar the parser supports, and its tree lists the
         same specifiers, local and exported names, defaults, namespaces and source, in source order.""", IN,
         "all import and export declarations",
         "The tests hold one file of module samples; renamings, mixtures and wrong forms are barely covered.",
         ["parse_import_decl, parse_export_decl and the specifier parsers"],
         [Cmp(MOD, "GRAM AST")]),
    Prop("C07", "Statement trees are faithful to the text",
         """For every accepted statement the tree holds exactly the parts the text has, each in its own field and in source order: tests, bodies, alternates,
         handlers, cases, initialisers, declared names and kinds.  Nothing is dropped, duplicated, reordered or swapped.""", IN,
         "all accepted statements",
         "The tests compare trees for a small set of statements; a swapped or dropped part in another combination goes unseen.",
         ["statement constructors in every statement parser"],
         [Cmp(STMT, "AST")]),
    Prop("C08", "Expression trees are faithful to the text",
         """For every accepted expression the tree has the operator, operands, arguments, property and flags (computed, prefix, delegate, optional parts) the text
         has, each in its own place and in source order, grouped as written or as precedence dictates.""", IN,
         "all accepted expressions",
         "The tests compare trees for a limited set of expressions, most of them from two generated files.",
         ["expression constructors in every expression parser"],
         [Cmp(EXPR, "AST")]),
    Prop("C09", "Function, class and object trees are faithful to the text",
         """The tree of every function, method, class and object literal carries the name, parameters, body, superclass, members and the flags (generator, async,
         static, computed, kind get/set/method/constructor, shorthand) that its text has, in source order.""", IN,
         "all accepted functions, classes and object literals",
         "Flags and kinds depend on combinations of modifiers the tests sample sparsely.",
         ["function, class and property constructors"],
         [Cmp(sorted(set(FUNC + CLSOBJ)), "AST")]),
    Prop("C10", "Operators have ECMAScript identity, precedence and associativity",
         """Every operator token denotes its own operator in the tree; binary operators bind in the order ECMAScript gives, equal precedence groups to the left,
         exponentiation and assignment to the right, and `in` is an operator except in a for-head.""", IN,
         "all expressions over all operators, of any length",
         "Pairs of operators alone number several hundred and chains are unbounded; the tests contain a small part.",
         ["operator tables", "shift/reduce loop over the precedence stack"],
         [Rule(rules.operators, "operator tokens against the ECMAScript table"), Rule(rules.precedence, "precedence order against the ECMAScript table"),
          Cmp(w("parse_binary_expression parse_exponentiation_expression parse_conditional_expr parse_assignment_expr parse_unary_expression parse_update_expr parse_expression"), "AST", a_label(r"BinaryExpr|LogicalExpr|UnaryExpr|UpdateExpr|ConditionalExpr|AssignExpr|operator|Sequence|Binary|Logical|parse_binary|parse_exponent|parse_unary|parse_assign|pop|push|eat"))]),
    Prop("C11", "A finished construct leaves the parsing context as it found it",
         """After any construct has been parsed, whatever surrounds it is parsed under the same context as before: strictness, module-ness, yield and await
         permissions, `in` permission, loop, switch and function nesting, labels and directive permission are exactly restored.
         Only a directive may switch strictness on and only the first non-directive ends the prologue.""", IN,
         "all programs, all ways a construct can end",
         "A leaked flag shows only in code that follows a particular construct; tests rarely put the two together.",
         ["save and restore around every nested construct"],
         [Rule(rules.restore, "context unchanged at every successful return"), Cmp(ALL, "CTX", a_flags(*CTXFLAGS))],
         note="Holds for successful returns; a failing parse ends the iterator."),
    Prop("C12", "Nested constructs are parsed under the right context",
         """Function bodies, parameters, loop bodies, switch bodies, class elements, for-heads, blocks and arrow bodies are each parsed under the context the
         language prescribes: which flags are set, cleared or inherited on entry depends only on the enclosing construct and never leaks in from elsewhere.""", IN,
         "all nestings of constructs",
         "Nesting is unbounded and most wrong contexts only show up on code that should be rejected.",
         ["context setup before every nested construct"],
         [Cmp(ALL, "CTX", a_flags(*CTXFLAGS)), Cmp(["Context.default", "Config.default"], "FULL")]),
    Prop("C13", "Only valid assignment targets and cover grammars are accepted",
         """A construct is accepted as an assignment, update, for-head or destructuring target exactly when it is a valid one, however deeply it is wrapped, and
         a shorthand initialiser (`{a = 1}`) is accepted exactly where it turns out to be a pattern.""", IN,
         "all expressions that can precede =, =>, ++, --, in, of",
         "Validity is carried in flags through the whole expression grammar; the tests contain nearly no invalid targets.",
         ["cover grammar flags: isolate and inherit"],
         [Cmp(ALL, "COV", a_flags(*COVFLAGS)), Cmp(ALL, "COV", a_dims(*COVFLAGS)),
          Cmp(w("reinterpret_expr_as_pat reinterpret_as_cover_formals_list parse_update_expr parse_assignment_expr parse_for_stmt parse_unary_expression"), "GRAM")]),
    Prop("C14", "Strict mode restrictions hold exactly in strict code",
         """What strict code may not contain (with, restricted or reserved names as bindings, deletion of names, and so on, as the parser supports them)
         is rejected in strict code and accepted in sloppy code; strict code is module code, class code and code under a 'use strict' directive.
         Strictness never makes anything acceptable that sloppy code rejects.""", INC,
         "all programs in both modes",
         "Each restriction has to be tried in each mode and nesting; tests run nearly everything sloppy.",
         ["strict checks in bindings, functions, with, delete, literals"],
         [Rule(rules.strict, "strict accepts no more than sloppy"), Cmp(ALL, "GRAM", a_or(a_dims("strict", "allow_strict_directive", "is_module", "found_directive"), a_label("strict|restricted"), a_tokens(r"^(id:eval|id:arguments|kw:(implements|interface|let|package|private|protected|public|static))[~!]?$"))),
          Cmp(ALL, "CTX", a_flags("strict", "allow_strict_directive", "past_prolog")), Cmp(["Parser._new", "Parser.build", "Builder.build", "Parser.new", "Builder.with_comment_handler", "Context.default"], "FULL", a_label("strict|is_module|module"))]),
    Prop("C15", "Directive prologues are recognised exactly",
         """A string statement is a directive exactly when only directives precede it at the start of a script or function body; its text is kept as written and
         'use strict' takes effect from there to the end of that script or function.  Any other string is an ordinary expression.""", IN,
         "all scripts and function bodies that start with strings",
         "Order, quoting, line breaks and operators after the string all matter; tests use a few plain prologues.",
         ["parse_directive, parse_directive_prologues, start of scripts and function bodies"],
         [Cmp(DIR, "GRAM AST"), Cmp(DIR, "CTX", a_flags("strict", "past_prolog", "allow_strict_directive"))]),
    Prop("C16", "Line terminators end statements exactly where they should",
         """A statement may end without a semicolon exactly before a closing brace, at the end of input or where a line terminator precedes the next token, and
         the restricted productions (return, break, continue, throw, ++ and --, yield, arrow, async function) respect a line terminator inside them.
         Everywhere else line terminators make no difference.""", IN,
         "all programs with any placement of line breaks and comments",
         "The same tokens with other line breaks are another input; tests hold one layout of each program.",
         ["consume_semicolon, restricted productions, newline tracking of the token pump"],
         [Cmp(ALL, "GRAM", a_or(a_newline, a_tokens(r"^p:SemiColon"))),
          Cmp(w("parse_return_stmt parse_break_stmt parse_continue_stmt parse_throw_stmt parse_expression_statement parse_var_stmt parse_lexical_decl parse_do_while_stmt parse_debugger_stmt parse_directive parse_import_decl parse_export_decl parse_update_expr parse_yield_expr"), "GRAM"),
          Cmp(["next_item", "at_async_function", "at_lexical_decl"], "FULL")]),
    Prop("C17", "yield, await and async have the meaning their context gives",
         """yield and await are operators exactly inside generators and async functions and names elsewhere (as far as strictness and modules allow); a nested
         non-generator, non-async function starts afresh, and async begins a function, method or arrow only where the grammar says so.""", IN,
         "all nestings of functions, generators, async functions, methods, arrows and classes",
         "Every pair of function kinds nested in each other matters; the tests contain few.",
         ["yield and await permissions around functions", "async look-ahead"],
         [Cmp(ALL, "CTX", a_flags("allow_yield", "await", "in_function_body", "in_params")), Cmp(ALL, "GRAM", a_or(a_dims("allow_yield", "await", "in_function_body", "in_params"), a_tokens(r"^(id:async|id:await|kw:yield|kw:await)[~!]?$"), a_label("async|await|yield"))),
          Cmp(w("parse_yield_expr parse_await_expr parse_async_args parse_generator_method parse_async_property_method"), "GRAM AST"), Cmp(ALL, "AST", a_label(r"is_async|generator|delegate|Yield|Await")), Cmp(["at_async_function"], "FULL")]),
    Prop("C18", "Tolerant mode only adds acceptance",
         """Every program the default mode accepts is accepted in tolerant mode with the same tree; tolerant mode forgives only the errors it is meant to forgive
         and reports all others.""", INC,
         "all programs in both modes",
         "No test runs a program in both modes.",
         ["tolerate_error and its uses"],
         [Rule(rules.tolerant, "default mode included in tolerant mode"), Cmp(ALL, "GRAM AST", a_or(a_dims("tolerant"), a_label("tolera"))), Cmp(["Builder.tolerant", "Builder.set_tolerant", "Builder.build", "Config.default"], "FULL", a_label("tolerant"))]),
    Prop("C19", "No error is swallowed, replaced or deferred",
         """As soon as the tokenizer or a nested construct fails, the construct around it fails with that very error: no failure is dropped, retried or turned into
         a success, another error or a shortened tree.""", ["inputs", "fault_sequences"],
         "all points of failure in all constructs",
         "Each of several hundred failure points would need an input that fails just there; the tests contain about ten failing inputs.",
         ["error propagation at every nested call"],
         [Rule(rules.errors, "each failure edge ends in that failure")], level="other"),
    Prop("C20", "Rejections report the right kind of error and blame the right token",
         """When a program is rejected, the error is of the kind that describes the violated rule and blames the token (or name) that violates it.""", IN,
         "all rejected programs",
         "Tests check the success of parsing; almost none looks at the error.",
         ["error constructors at every rejection"],
         [Cmp(ALL, "ERR", a_errkind), Cmp(["expected_token_error", "unexpected_token_error", "unable_to_reinterpret"], "FULL")]),
    Prop("C21", "Iteration yields every part once and then ends for good",
         """Iterating a parser yields each top-level part once in source order, then None; after an error it yields None.  Collecting the iterator and
         parsing to a whole program see the same parts, and the end of input is an end, never an error or a part.""", ["inputs", "histories"],
         "all programs and all ways of driving the iterator",
         "Tests drive each parser once to the end of valid input.",
         ["Iterator for Parser, parse, next_part, end-of-input handling of the token pump"],
         [Cmp(["Parser.next", "Parser.parse", "next_item"], "FULL"), Cmp(["next_part", "parse"], "GRAM AST CTX")]),
    Prop("C22", "Parsing always terminates",
         """On every finite input, parsing ends: every loop and every recursion consumes a token, or a part of a finite list or tree, on each round.""", IN,
         "all inputs",
         "A loop that makes no progress needs one particular malformed input; tests cannot enumerate them.",
         ["loops over lists of elements", "recursive descent"],
         [Rule(rules.progress, "no cycle without consumption, no left recursion")], level="other",
         note="The tokenizer is trusted to end; recursion depth (stack) is not bounded."),
    Prop("C23", "No input makes the parser's own code panic",
         """No sequence of tokens reaches an explicit panic, an unwrap of nothing, a branch declared unreachable, or an index or slice that its list or its
         token's text is too short for, in the parser's code.""", IN,
         "all token sequences in all contexts",
         "The unreachable branches rely on earlier checks over all tokens; tests try only some.",
         ["match arms declared unreachable", "unwraps"],
         [Rule(rules.panics, "no explored path ends in a panic")], level="other",
         note="Indices and slices are decided where their bounds are fixed distances from the ends of a token's text or a list of known length; other computed bounds (the position arithmetic), the tokenizer's own panics and stack exhaustion are outside."),
    Prop("C24", "Comments reach the handler once each, in source order",
         """Every comment the tokenizer delivers is handed to the comment handler exactly once, in source order, with its own text and kind, before the token that
         follows it is used; look-ahead hands over nothing, and without a handler comments have no effect on the parts produced.""", ["inputs", "histories"],
         "all placements of comments",
         "One test counts comments of one file.",
         ["comment loop of the token pump", "look-ahead", "comment handlers"],
         [Cmp(["next_item", "peek_item", "Parser._new", "Parser.build", "FnMut.handle_comment", "Default.handle_comment", "Builder.build", "Builder.with_comment_handler", "Parser.new"], "FULL"), Rule(rules.pump, "who may drive the scanner")], files=("src/lib.rs", "src/comment_handler.rs")),
    Prop("C25", "Looking ahead is unobservable",
         """Deciding what a construct is by looking at later tokens changes nothing: the same tokens, comments, positions and errors follow as if the parser had not
         looked.  Every token is delivered to the grammar exactly once.""", ["inputs", "histories"],
         "all inputs at which the parser looks ahead",
         "The state to restore is only observable through what follows; tests sample few continuations.",
         ["peek_item and the predicates built on it", "token pump"],
         [Cmp(["peek_item", "at_import_call", "at_lexical_decl", "at_async_function", "next_item"], "FULL"), Rule(rules.pump, "who may drive the scanner and replace the look-ahead")]),
    Prop("C26", "Parsing is a pure function of text and configuration",
         """The result depends on the source text and the configuration only: no environment, clock, file, thread, randomness, hash order, global state or log level
         has any influence, so parsing twice gives the same parts and errors.""", ["inputs", "configurations", "schedules"],
         "all inputs, environments and log settings",
         "Tests run in one environment with logging off.",
         ["absence of such calls", "log statements"],
         [Rule(rules.purity, "no call that reads or changes the environment"), Rule(rules.logging, "logging arguments have no effect")], level="other"),
    Prop("C27", "Builder settings and constructors mean what they say",
         """A parser made by the builder behaves per the settings given last, in any order; each setting affects only its own aspect; the short constructor equals
         the builder with default settings, and a script parses to a script program, a module to a module program.""", ["configurations", "histories"],
         "all sequences of builder calls",
         "Tests use two or three configurations.",
         ["Builder, Parser::new, Parser::parse"],
         [Cmp(["Builder.new", "Builder.js", "Builder.set_js", "Builder.module", "Builder.set_module", "Builder.tolerant", "Builder.set_tolerant", "Builder.build", "Builder.with_comment_handler", "Parser.new", "Parser.build", "Parser._new", "Config.default", "Context.default"], "FULL"), Cmp(["Parser.parse"], "FULL"), Cmp(["parse"], "AST")]),
    Prop("C28", "Errors describe themselves faithfully",
         """Every error displays its position and the message that belongs to its kind, positions display as line:column, and an I/O error converts to an error that
         carries it.""", IN, "all errors",
         "No test formats the error kinds.",
         ["Display and From implementations"],
         [Cmp(["Error.display", "Position.display", "Error.from", "expected_token_error", "unexpected_token_error"], "FULL")], files=("src/error.rs", "src/lib.rs")),
    Prop("C29", "One set of line terminators everywhere",
         """LF, CR, U+2028 and U+2029 (and no other character) end a line wherever the parser counts lines or decides whether a line terminator precedes a token, and
         a comment containing one counts as one.""", IN,
         "all texts with any mixture of line terminators",
         "Tests count lines of four tiny texts.",
         ["get_lines", "update_positions", "newline flag of the token pump"],
         [Rule(rules.line_terminators, "the four terminators in every line counter"), Cmp(["next_item"], "FULL")],
         note="Decides which characters count as line terminators, not the numbers computed from them."),
    Prop("C30", "Labels and jumps are checked and attached correctly",
         """A label names exactly the statement that follows it, a repeated enclosing label is rejected, labels do not cross function boundaries, and break and
         continue carry exactly the label written on their own line.""", IN,
         "all nestings of labels, loops and functions",
         "Tests contain a few labelled loops.",
         ["label set", "parse_labelled_statement, parse_break_stmt, parse_continue_stmt"],
         [Cmp(w("parse_labelled_statement parse_break_stmt parse_continue_stmt"), "GRAM AST"), Cmp(ALL, "CTX", a_flags("label_set")), Cmp(w("parse_labelled_statement"), "CTX ERR")]),
    Prop("C31", "Names and literals keep their source text and kind",
         """Every identifier, keyword used as a name, number, string, regular expression, boolean, null, template chunk and property key in the tree carries the text
         written in the source (as this tree form spells it) and the right literal kind.""", IN,
         "all literals and names in all positions",
         "Literal spellings are unbounded; tests contain ordinary ones.",
         ["parse_primary_expression, parse_var_ident, parse_ident_name, parse_object_property_key, parse_template_element, parse_directive"],
         [Cmp(w("parse_primary_expression parse_var_ident parse_ident_name parse_object_property_key parse_template_element parse_template_literal parse_directive parse_obj_prop parse_property_pattern parse_module_specifier parse_new_expr parse_import_specifier parse_export_specifier"), "AST"), Cmp(ALL, "AST", a_label(r"text\(|str\(|Literal|Lit|Ident"))]),
    Prop("C32", "Class and accessor member constraints hold",
         """A class has at most one constructor, which is no accessor, generator or async method; a static member is not called prototype; getters take no parameter and
         setters exactly one that is no rest parameter; super and class heritage appear only in their form.""", IN,
         "all class bodies and accessors, keys written as names or strings",
         "Each constraint combines a key, a modifier and a parameter list; tests contain valid classes only.",
         ["parse_class_el, parse_getter_method, parse_setter_method"],
         [Cmp(w("parse_class_el parse_class_body parse_class_decl parse_getter_method parse_setter_method parse_super parse_obj_prop"), "GRAM"),
          Cmp(w("parse_class_el parse_class_body parse_getter_method parse_setter_method parse_obj_prop"), "ERR", a_errkind),
          Cmp(w("parse_class_el parse_getter_method parse_setter_method"), "AST", a_label(r"kind|is_static|PropertyKind"))]),
    Prop("C33", "Declarations have the initialisers they need",
         """const declarations and destructuring declarations without an initialiser are rejected outside for-in and for-of heads, lexical bindings may not be
         named let, and every declared name is kept with its own initialiser.""", IN,
         "all declaration lists and for-heads",
         "Tests contain valid declarations.",
         ["parse_lexical_binding, parse_binding_list, parse_variable_decl"],
         [Cmp(w("parse_lexical_binding parse_lexical_decl parse_binding_list parse_variable_decl parse_variable_decl_list parse_var_decl parse_var_decl_list parse_var_stmt"), "GRAM AST")]),
    Prop("C34", "for-heads are classified correctly",
         """A for statement is a counting, for-in or for-of loop exactly as its head says, with each part (initialiser, binding, test, update, object) in its own field;
         `in` inside a head's initialiser is not an operator unless bracketed, and heads that fit none of the forms are rejected.""", IN,
         "all for-heads",
         "Heads combine declarations, patterns, expressions and keywords; tests contain a few of each form.",
         ["parse_for_stmt and the loop parsers", "allow_in"],
         [Cmp(w("parse_for_stmt parse_for_loop parse_for_loop_cont parse_for_in_loop parse_for_of_loop parse_loop_body"), "GRAM AST CTX"), Cmp(ALL, "CTX", a_flags("allow_in")), Cmp(ALL, "GRAM", a_dims("allow_in"))]),
    Prop("C35", "Arrow functions are told apart from parenthesised expressions",
         """A parenthesised list or single name is an arrow's parameters exactly when => follows on the same line, its parameters are the patterns the list spells, its
         body is the block or expression after =>, and a list that can only be parameters is rejected without =>.""", IN,
         "all parenthesised lists, with and without =>, plain and async",
         "The decision depends on everything inside the parentheses; tests contain a few arrows.",
         ["parse_group_expr, parse_assignment_expr, reinterpret_as_cover_formals_list"],
         [Cmp(w("parse_group_expr parse_assignment_expr reinterpret_as_cover_formals_list parse_async_args"), "GRAM AST"), Cmp(w("parse_group_expr parse_assignment_expr"), "CTX COV", a_flags(*(CTXFLAGS + COVFLAGS))), Cmp(w("parse_left_hand_side_expr_allow_call parse_left_hand_side_expr"), "GRAM AST", a_label("Arrow|async"))]),
    Prop("C36", "Template literals alternate chunks and expressions",
         """A template literal's tree has its chunks and expressions in source order with one chunk more than expressions, each chunk with its own text and tail mark,
         and a tagged template keeps its tag.""", IN,
         "all templates of any length and nesting",
         "Tests contain short templates and one deep nesting.",
         ["parse_template_literal, parse_template_element, call and member chains"],
         [Cmp(w("parse_template_literal parse_template_element"), "GRAM AST ERR"), Cmp(w("parse_left_hand_side_expr parse_left_hand_side_expr_allow_call parse_primary_expression"), "AST", a_label("emplate"))]),
    Prop("C37", "Positions are computed from the text's lines",
         """The line an error reports is the line of the table in which the blamed token starts, counted from one, and its column is the token's distance in bytes from the
         start of that line; each round of the search for that line keeps the half that holds the token; the table's first line starts with the text,
         every further one behind the end of the line before it, each ends where its terminator stands, whatever the terminator's width, and the last takes what is left; and the position kept for the
         next token moves on by the lines and bytes that were passed, the column starting afresh behind the last line terminator.""", ("inputs",),
         "all texts and all tokens an error can blame",
         "The arithmetic depends on the number of lines, the widths of the characters and the terminators before a token; tests contain a few errors in short texts.",
         ["get_item_position and its search", "update_positions", "get_lines", "expected_token_error, unexpected_token_error"],
         [Cmp(w("get_item_position update_positions get_lines get_lines.step"), "POS"), Cmp(w("expected_token_error unexpected_token_error"), "FULL")]),
]

NOT_APPLICABLE = [
    ("C80", "Numbers of characters and of lines in a text are counted exactly",
     "The counts the standard library's iterators return for a text (characters that end lines, pieces between them) are exact, so the positions built from them are.",
     "The values count(), matches() and rsplit() give are sums over run-time text, and the functions belong to another crate; what is done with the values is decided (C37), and so is which characters are counted (C29)."),
    ("C81", "Parsing takes time linear in the input",
     "Parsing time and memory grow linearly with the length of the input, including deeply nested or backtracking-prone inputs.",
     "Running time depends on clone costs and on how often look-ahead rescans, quantities no static rule in reach bounds; termination is decided (C22)."),
    ("C82", "Deeply nested input does not overflow the stack",
     "However deeply constructs nest, the parser reports an error or a tree instead of crashing.",
     "False of any recursive descent parser without a depth limit; frame sizes and available stack are run-time quantities."),
    ("C83", "The tokenizer splits the text as ECMAScript prescribes",
     "Regular expressions, templates, numbers, strings and comments are tokenised as ECMAScript prescribes.",
     "The tokenizer is another crate (ress) outside the repository; its token stream is an input of this analysis."),
    ("C84", "Writing a tree out and parsing it again gives the same tree",
     "Printing a parsed tree and parsing the text yields an equal tree.",
     "The printer is another crate; equality of run-time trees after a round trip is not a fact about the shape of this code."),
]


def quantifier(p):
    return {"over": p.over, "text": p.quant}


def jsonl():
    out = []
    for p in PROPS:
        out.append({"id": p.id, "title": p.title, "statement": p.statement, "quantifier": quantifier(p), "why_tests_cant": p.why, "anchors": {"files": list(p.files), "mechanism": [{"name": m, "where": p.files[0]} for m in p.mech], "observe_at": list(p.observe), "hook_needed": None}})
    for i, t, s, r in NOT_APPLICABLE:
        out.append({"id": i, "title": t, "statement": s, "quantifier": {"over": ["inputs"], "text": "all inputs"}, "why_tests_cant": "Tests sample a few inputs.", "anchors": {"files": ["src/lib.rs"], "mechanism": [{"name": "parser", "where": "src/lib.rs"}], "observe_at": ["the parts and errors a Parser yields"], "hook_needed": None}})
    return out


NOTE = "Sound for the token-level behaviour of the parser as far as the MIR interpreter models std, ress and resast calls (DESIGN.md, trusted base); the reference automata were derived from this tree and reviewed against ECMAScript. A function that can no longer be analysed within the time limit is reported as undecided in the evidence."


def manifest():
    checks = []
    for p in PROPS:
        rl = [o for o in p.obs if isinstance(o, Rule)]
        cm = [o for o in p.obs if isinstance(o, Cmp)]
        t = p.technique or "; ".join((["rules on MIR-derived automata and call graph: " + ", ".join(r.name for r in rl)] if rl else []) + ([TECH] if cm else []))
        checks.append({"property": p.id, "quick_cmd": "python3 engine/check.py " + p.id, "thorough_cmd": "python3 engine/check.py %s --thorough" % p.id, "evidence_file": "evidence/%s.json" % p.id, "technique": t, "level": p.level, "level_note": (p.note + " " if p.note else "") + NOTE})
    return {"version": 1, "setup_cmd": "bash engine/setup.sh", "checks": checks, "not_applicable": [{"property": i, "reason": r} for i, _, _, r in NOT_APPLICABLE], "notes": "All checks share one engine (engine/): driver/ dumps the MIR of /repo's current tree, engine/*.py interprets it. No hooks in /repo."}


if __name__ == "__main__":
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as h:
        for x in jsonl():
            h.write(json.dumps(x, ensure_ascii=False) + "\n")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as h:
        json.dump(manifest(), h, indent=1, ensure_ascii=False)
        h.write("\n")
