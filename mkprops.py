#!/usr/bin/env python3
# Regenerates properties.jsonl (the text lives here so that it can be edited readably).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

LEX = ["lexan/src/lib.rs", "lexan/src/analyzer.rs", "lexan/src/lexicon.rs", "lexan/src/matcher.rs"]
GEN = ["lalr1_lib/src/grammar.rs", "lalr1_lib/src/state.rs", "lalr1_lib/src/production.rs", "lalr1_lib/src/symbol/", 
       "alalr1_lib/src/grammar.rs", "alalr1_lib/src/state.rs", "alalr1_lib/src/production.rs", "alalr1_lib/src/symbol/"]
SPEC = ["lalr1_lib/src/parser.laps", "lalr1_lib/src/parser.rs", "alalr1_lib/src/parser.alaps", "alalr1_lib/src/parser.rs",
        "lalr1_lib/src/symbol.rs", "alalr1_lib/src/symbol.rs"]

p("C01", "Tokenisation: longest match, literals win ties, regex ties are errors",
  """At every position of the text the lexer first discards all skippable text and then yields the longest match among all
  declared literals and regular expressions. A literal wins against a regular expression of equal length and loses to a strictly
  longer one; two or more regular expressions that tie for longest, and are longer than any literal match, yield an ambiguity error naming
  exactly those tokens and carrying the matched text.""",
  ["inputs", "configurations"], "every accepted set of literals, regular expressions and skip patterns, and every UTF-8 text",
  "The tests lex a handful of fixed texts with three hand-made lexicons; precedence between overlapping literals, regexes and skips depends on the combination.",
  LEX, [("longest literal trie", "lexan/src/matcher.rs LiteralMatcher::longest_match"), ("longest regex set", "lexan/src/matcher.rs RegexMatcher::longest_matches"),
        ("literal/regex choice", "lexan/src/analyzer.rs BasicTokenStream::next")],
  ["LexicalAnalyzer::token_stream + front/advance: the sequence of (tag, lexeme) or errors"])
p("C02", "Lexing is lossless, always progresses, and survives any text",
  """Reading a token stream to its end never panics and always terminates, whatever UTF-8 text is lexed with whatever accepted lexicon: every token or error consumes at least one
  byte. The lexemes, error texts and discarded text, in order, concatenate to exactly the input, with the gaps before tokens made only of text the skip patterns match. Unexpected text is reported
  in one piece that reaches exactly to the next position at which some literal, regular expression or skip pattern matches (or to the end).""",
  ["inputs", "configurations"], "every accepted lexicon (including patterns that can match nothing) and every UTF-8 text, including empty, blank, multi-byte and garbage text",
  "Existing tests only use ASCII text and patterns that never match the empty string.",
  LEX, [("resynchronisation", "lexan/src/lexicon.rs Lexicon::distance_to_next_valid_byte"), ("skipping", "lexan/src/matcher.rs SkipMatcher::skippable_count"),
        ("index advance", "lexan/src/analyzer.rs BasicTokenStream::incr_index_and_location")],
  ["token stream driven to exhaustion with a step bound derived from the text length; lexemes/errors re-assembled against the input"])
p("C03", "Locations are exact for every token, error and end marker",
  """Every token and every lexical error carries the label of its source and the 1-based line (lines end with LF, with or without a preceding CR) and 1-based byte offset within that line of its first byte, and the end marker
  carries the position just past the text. A location prints as [label:]line:offset, with the label quoted exactly when it contains a blank.""",
  ["inputs"], "every text, with any mixture of LF, CRLF, lone CR and multi-byte characters, inside or between lexemes, and every label",
  "The one location test walks a fixed text with uniform line ends and single-line lexemes.",
  LEX, [("line/offset counting", "lexan/src/analyzer.rs BasicTokenStream::incr_index_and_location"), ("printing", "lexan/src/analyzer.rs impl Display for Location")],
  ["Token::location / Error locations / Display, compared with positions recomputed from the raw text"])
p("C04", "Injected text is delivered next, nests, then the outer text resumes",
  """When text is injected into a token stream its tokens are delivered next, under their own label and locations counted from 1:1, ahead of the token that was pending and of the rest of the interrupted text, which then resumes
  unchanged; injections nest to any depth and injecting text that contains no tokens changes nothing. After everything has been delivered the end marker appears exactly once, and any further reading yields the
  advanced-when-empty error.""",
  ["histories", "inputs"], "every history of inject / read / advance operations over every set of texts, including injection before the first and after the last token",
  "The stream test performs two fixed injections; the guarantee concerns arbitrary interleavings of injecting and advancing.",
  LEX, [("stack of streams", "lexan/src/analyzer.rs TokenStream::inject, TokenStream::advance")],
  ["TokenStream::front/advance/front_advance/advance_front/is_empty/inject, against a stack model of the reference lexer"])
p("C05", "Defective lexicons are refused, valid ones are accepted and complete",
  """Building an analyser fails, loudly and naming the cause, exactly when two tokens share a handle (the end marker's included), two patterns are the same text, a pattern is empty, or a regular expression
  is malformed. Every other lexicon is accepted, and then every declared token can be produced and no undeclared one ever is.""",
  ["configurations"], "every list of literals, regular expressions and skips, in every order",
  "The tests try four fixed bad lexicons.",
  LEX + ["lexan/src/error.rs"], [("validation", "lexan/src/lexicon.rs Lexicon::new"), ("pattern checks", "lexan/src/matcher.rs constructors")],
  ["LexicalAnalyzer::new: returns or panics with the cause", "tags produced over generated texts"])
p("C06", "The parse driver executes its tables faithfully",
  """For any parse tables a parser supplies, parsing a text performs exactly the run the tables prescribe on the token sequence: each step is decided by the current state and current token alone, a shift consumes exactly that token, a reduction
  pops exactly its right hand side, passes those values in order to the semantic action once, and pushes its result under the goto state. Parsing stops at the first accept, and the result is success exactly when no error was reported on the way.
  This holds for the plain and the augmented driver, the latter also showing conditional actions the values on the stack.""",
  ["programs", "inputs"], "every action/goto table (not only ones the generator makes), every token sequence",
  "The tests drive one hand-made calculator table over two texts.",
  ["lalr1/src/lib.rs", "alalr1/src/lib.rs"], [("driver loop", "lalr1/src/lib.rs Parser::parse_text"), ("stack", "lalr1/src/lib.rs ParseStack"), ("augmented driver loop", "alalr1/src/lib.rs Parser::parse_text")],
  ["events recorded inside user-supplied next_action / goto_state / do_semantic_action / From<Token>, replayed against a reference machine"])
p("C07", "Every error is reported once, accurately, and decides the result",
  """Each lexical or syntax error met while parsing is passed to the error reporter exactly once, at the moment it is met and before any recovery, carrying the offending token or lexical error and as expected set exactly the look-ahead set of the state
  in which it occurred. A parse returns success if and only if nothing was reported, and otherwise returns the last error reported. The built-in reporter writes the error to standard error and refuses to continue
  after an ambiguous match.""",
  ["inputs", "programs"], "every table, every token sequence, every mixture of lexical and syntax errors",
  "Existing tests check only that some error was returned.",
  ["lalr1/src/lib.rs", "alalr1/src/lib.rs"], [("error construction", "lalr1/src/lib.rs Parser::parse_text"), ("default reporter", "lalr1/src/lib.rs ReportError::report_error")],
  ["report_error calls and parse_text's result"])
p("C08", "Recovery resumes at the nearest viable state and always terminates",
  """After an error the parser discards input tokens only until one is found for which some state on the stack is viable, pops exactly down to the topmost such state (never one already used to recover since input was last consumed), pushes the error there with the reported error as
  its value and continues with that token. If the input runs out first, the parse ends with the last error reported; in every case a parse with recovery terminates.""",
  ["inputs", "programs"], "every parser with error productions, every erroneous text, any number of errors per text",
  "One test feeds one erroneous statement to one grammar.",
  ["lalr1/src/lib.rs", "alalr1/src/lib.rs"], [("viable state search", "lalr1/src/lib.rs ParseStack::distance_to_viable_state"), ("recovery", "lalr1/src/lib.rs Parser::recover_from_error")],
  ["event log of viable_error_recovery_states / error_goto_state / From<Error> and subsequent shifts"])
p("C09", "Text injected by a semantic action is parsed next, before pending input",
  """Text injected by a semantic action is parsed immediately, ahead of the look-ahead token that was pending when the action ran, and parsing then continues with that pending token. The parse is the one obtained for the resulting token sequence, for any number,
  order and nesting of injections, and injecting nothing has no effect.""",
  ["histories", "inputs"], "every grammar with injecting actions, every text, injections nested and repeated, including at end of input",
  "No existing test injects from a parser.",
  ["lalr1/src/lib.rs", "alalr1/src/lib.rs", "lexan/src/analyzer.rs"], [("inject callback", "lalr1/src/lib.rs Parser::parse_text (do_semantic_action)"), ("stack of streams", "lexan/src/analyzer.rs TokenStream::inject")],
  ["shift/reduce/report event log of parses whose actions inject"])
p("C10", "A generated parser accepts exactly the language of its grammar",
  """For every grammar whose non-terminals all derive some text and which the generator accepts with zero conflicts and no precedence declarations, the generated parser accepts a token sequence if and only if the grammar derives it, the empty sequence included. An
  unacceptable sequence is reported at the first token that cannot continue any sentence of the language, never later.""",
  ["programs", "inputs"], "every conflict-free specification (any nullable, recursive or mutually recursive rules) and every token sequence",
  "The only grammar tested end-to-end is the calculator.",
  GEN, [("closure/goto construction", "lalr1_lib/src/grammar.rs Grammar::try_from"), ("first sets", "lalr1_lib/src/symbol/non_terminal.rs set_firsts_data"), ("look-ahead merging", "lalr1_lib/src/state.rs merge_lookahead_sets"), ("code emission", "lalr1_lib/src/grammar.rs write_parser_code")],
  ["generated source compiled and run on sentences and near-sentences; Earley recogniser as oracle"])
p("C11", "Semantic actions run bottom-up, once per node, on the right values",
  """On an accepted text a generated parser runs the semantic action of each node of the parse tree exactly once, children before parents and left to right; within it $1..$n are the values of the right hand side in order and $$ becomes the node's value. A rule without
  action, and $$ before assignment, yield a copy of the first value, or the default value when the right hand side is empty.""",
  ["programs", "inputs"], "every specification with or without actions on each alternative, right hand sides of any length (more than nine symbols included), every accepted text",
  "The calculator uses only short rules and a value type in which most confusions are invisible.",
  GEN, [("action expansion", "lalr1_lib/src/production.rs Production::expanded_action"), ("emission", "lalr1_lib/src/grammar.rs write_semantic_action_code")],
  ["actions in the generated parser record unique value ids; the recorded derivation is compared with the unique parse tree of the sentence"])
p("C12", "Generated tables are exactly the grammar's LALR(1) automaton",
  """For every accepted specification the generated action and goto tables are isomorphic to the LALR(1) automaton of the grammar: same states, shifts, gotos and, wherever no conflict resolution intervenes, reductions on exactly the LALR(1) look-aheads. The look-ahead
  set reported for a state is exactly the set of tokens on which that state has an action.""",
  ["programs"], "every specification of a reduced grammar, including nullable, hidden-left-recursive and mutually recursive ones and ones needing look-ahead merging across cycles of states",
  "Tests check no table; wrong look-aheads only show on particular grammars and inputs.",
  GEN, [("closure/goto construction", "lalr1_lib/src/grammar.rs Grammar::try_from"), ("look-ahead merging", "lalr1_lib/src/state.rs merge_lookahead_sets"), ("first sets", "lalr1_lib/src/symbol/terminal.rs TokenSet::first_all_caps"), ("look-ahead set", "lalr1_lib/src/state.rs look_ahead_set")],
  ["next_action / goto_state / look_ahead_set of the compiled parser and the state report, walked in product with an independently computed canonical-LR(1)-merged automaton"])
p("C13", "Conflicts are resolved by precedence, associativity and rule order",
  """Where a token can be shifted and a rule reduced, the higher precedence wins (the rule's being that of its %prec tag or else of its first terminal; later declaration lines bind tighter and undeclared symbols have the lowest), at equal precedence a left-associative rule is
  reduced and a right-associative one shifted, and otherwise shift is chosen. Where two rules can be reduced the one declared first is used, except that a rule ending in %error always gives way. Parsers built from declared precedences therefore group operators as declared.""",
  ["programs", "inputs"], "every ambiguous grammar with any assignment of precedences, associativities and %prec tags",
  "Only the calculator's four operators are tested.",
  GEN, [("shift/reduce resolution", "lalr1_lib/src/state.rs resolve_shift_reduce_conflicts"), ("reduce/reduce resolution", "lalr1_lib/src/state.rs resolve_reduce_reduce_conflicts"), ("rule precedence", "lalr1_lib/src/production.rs rhs_associated_precedence"), ("declaration order", "lalr1_lib/src/symbol.rs set_precedences")],
  ["resolved tables against a reference resolution; operator expression trees against a precedence-climbing evaluator"])
p("C14", "Unresolved conflicts are counted exactly and must match the declaration",
  """Generation succeeds exactly when the numbers of shift/reduce and reduce/reduce conflicts left unresolved by precedence, associativity or error rules equal the numbers declared (zero by default), or the user asked for the difference to be ignored. Otherwise it is refused
  with the exact count found, the count expected and the states concerned, and ignoring changes nothing in the parser produced.""",
  ["programs", "configurations"], "every grammar, every declared count, every combination of the ignore flags",
  "No test exercises a conflicting grammar's refusal.",
  GEN, [("counts", "lalr1_lib/src/grammar.rs Grammar::try_from / resolve_conflicts"), ("per-state conflicts", "lalr1_lib/src/state.rs")],
  ["result/error of Grammar::try_from for expected counts n-1, n, n+1 and flags, against an independent count"])
p("C15", "The generated lexer tokenises as the specification declares",
  """For every accepted specification the generated source compiles and its lexical analyser recognises exactly the declared literals (verbatim), regular expressions and skips, under the declared names, with every text tokenised as the lexer rules prescribe. Each token prints as its literal
  text in quotes, or its name if it is a regular expression, and the end marker is never produced by text.""",
  ["programs", "inputs"], "every token set (names that Rust reserves, names of the crates the generated code uses, and names the generator warns about excepted), including literals made of quotes, braces, hashes, backslashes, regex metacharacters or non-ASCII text, and every text",
  "The generated lexers tested have seven plain tokens.",
  GEN, [("lexer emission", "lalr1_lib/src/grammar.rs write_lexical_analyzer_code"), ("token naming", "lalr1_lib/src/grammar.rs write_symbol_enum_code")],
  ["rustc on the generated source; token stream of the generated analyser against the reference lexer; Display of each token"])
p("C16", "Predicates decide exactly the reductions they guard, in declared order",
  """In an augmented parser, when several rules can be reduced on the same token the first declared whose predicate holds, or that has no predicate, is reduced, and if none qualifies the token is a syntax error. Predicates see the values of their own rule's right hand side as $1..$n and the look-ahead token as $?, are
  evaluated without disturbing them, and a rule guarded by a false predicate is never reduced.""",
  ["programs", "inputs"], "every augmented specification with any placement of predicates over competing rules, any number of competing rules, and every outcome of the predicates",
  "The predicate machinery has no test beyond compiling the calculator.",
  ["alalr1_lib/src/grammar.rs", "alalr1_lib/src/state.rs", "alalr1_lib/src/production.rs", "alalr1/src/lib.rs"],
  [("predicate chain emission", "alalr1_lib/src/state.rs write_next_action_code"), ("predicate expansion", "alalr1_lib/src/production.rs expanded_predicate"), ("runtime access", "alalr1/src/lib.rs ParseStack::at_len_minus_n")],
  ["compiled augmented parsers whose predicates record what they saw and answer as told"])
p("C17", "Error rules yield exactly the recovery tables they imply",
  """For a specification with %error, the states in which a generated parser may recover on a token are exactly those from which shifting %error leads to a state that reduces a rule ending in %error on that token, and recovery goes to that state; a specification without %error never recovers. An %error
  rule that introduces no conflict never changes the parse of text that is acceptable without it.""",
  ["programs", "inputs"], "every placement of %error rules in every grammar, every correct and erroneous text",
  "One grammar with one error rule is tested.",
  GEN, [("recovery tables", "lalr1_lib/src/grammar.rs write_error_recovery_code"), ("viable states", "lalr1_lib/src/state.rs is_recovery_state_for_token")],
  ["viable_error_recovery_states and error_goto_state of compiled parsers over all states and tokens; parses of correct texts with and without error rules"])
p("C18", "Valid specifications are accepted with one meaning whatever their layout",
  """Every specification that is well formed according to the specification language is accepted without reported errors and yields the parser its declarations describe. White space, comments, the order of the configuration declarations and whether a literal is named by its text or its
  token name make no difference to the generated parser.""",
  ["inputs"], "every well-formed specification text in every layout: comments anywhere between tokens, CRLF line ends, alternatives grouped or repeated, tokens referred to by name or text",
  "The only specifications ever parsed are the tool's own and the calculator's.",
  SPEC, [("specification grammar", "lalr1_lib/src/parser.laps"), ("generated front end", "lalr1_lib/src/parser.rs")],
  ["Specification::new + Grammar::try_from + written parser for many layouts of one specification"])
p("C19", "Defective specifications are refused with a located error, never a crash",
  """A specification text that is not well formed, refers to unknown symbols, tags or files, redefines tokens, tags, skips or precedences, uses a token as a rule name or contains a malformed regular expression is refused with at least one error that names the place. No text whatsoever makes the generator panic,
  overflow its stack or loop, and nothing is generated from a refused specification.""",
  ["inputs"], "every text as specification: mutated, truncated, shuffled or random specifications and each class of semantic mistake",
  "No test feeds a defective specification.",
  SPEC + ["lalr1_lib/src/attributes.rs", "lalr1_lib/src/grammar.rs"], [("semantic checks", "lalr1_lib/src/parser.rs do_semantic_action"), ("syntax errors", "lalr1_lib/src/grammar.rs Specification::new"), ("undefined symbols", "lalr1_lib/src/grammar.rs Grammar::try_from")],
  ["result/panic/stderr of Specification::new and Grammar::try_from on fuzzed texts"])
p("C20", "Generation is deterministic and independent of process history",
  """The generated parser and its report depend only on the specification: generating again, in a fresh process, after other generations, failed ones included, or concurrently with others on other threads gives byte-identical output.""",
  ["histories", "schedules", "inputs"], "every sequence and every concurrent interleaving of generations in one process, and every process",
  "Each test process generates at most once.",
  GEN, [("production numbering", "lalr1_lib/src/production.rs ProductionId"), ("ordered containers", "lalr1_lib/src/symbol.rs SymbolTable")],
  ["bytes written for the same specification at different points of many process histories and on concurrent threads (also under ThreadSanitizer)"])
p("C21", "%inject behaves as textual inclusion",
  """A specification that injects files yields exactly the parser of the specification with each injection replaced by the file's contents, wherever injection is allowed and however deeply nested; errors inside are located in the injected file. A missing, unreadable or empty file is an error.""",
  ["inputs"], "every way of cutting a specification at the places where injection is allowed, to any nesting depth",
  "No test injects a file.",
  SPEC, [("injection rules", "lalr1_lib/src/parser.laps InjectionHead/OptionalInjection"), ("stream stack", "lexan/src/analyzer.rs TokenStream::inject")],
  ["generated bytes for the cut and the assembled specification; error locations on stderr"])
p("C22", "The command line tools never destroy a file they were not told to write",
  """Without --force the generator neither overwrites nor modifies any file that exists when it starts, and when its parser or report file exists says so by a failing exit status. Even with --force it does not overwrite its own specification, whatever path leads there. With or without it, a run that fails for any reason before writing leaves every file as it was; a run that reports success has
  written the complete parser and its report at the requested place and nowhere else, and a write failure is never reported as success.""",
  ["configurations", "fault_sequences", "inputs"], "every combination of options, input and output paths and pre-existing files, defective specifications, and I/O failures on reading and writing",
  "The command line tools have no tests at all.",
  ["lalr1_gen/src/main.rs", "alalr1_gen/src/main.rs", "lalr1_lib/src/grammar.rs", "alalr1_lib/src/grammar.rs"], [("existence checks and exit codes", "lalr1_gen/src/main.rs main"), ("writing", "lalr1_lib/src/grammar.rs write_parser_code_to_file / write_description")],
  ["exit status and before/after snapshot of a scratch directory around runs of the built binaries, with full devices, size limits and unreadable files as faults"])
p("C23", "The state report describes exactly the parser that was generated",
  """The report written next to a parser lists the same tokens, productions, states, shifts, reductions, gotos and recovery states, under the same numbers, as the generated code executes, with the attributes (associativity, precedence) the specification declares and the conflicts that were found.""",
  ["programs"], "every accepted specification, with conflicts, precedences, tags and error rules",
  "No test reads the report.",
  GEN, [("report", "lalr1_lib/src/grammar.rs write_description"), ("state description", "lalr1_lib/src/state.rs description")],
  ["the report parsed back and compared entry by entry with the compiled parser's functions"])
p("C24", "The generators reproduce their own front ends",
  """Each generator, run on the specification of its own front end, produces a front end that accepts, refuses and means the same as the one it was built with, and regenerating once more changes nothing.""",
  ["programs", "inputs"], "both tools' own specifications, and every specification text as input to the regenerated front end",
  "The build only regenerates when a binary happens to exist, and nothing compares the results.",
  ["lalr1_lib/src/parser.laps", "lalr1_lib/src/parser.rs", "alalr1_lib/src/parser.alaps", "alalr1_lib/src/parser.rs", "lalr1_lib/build.rs", "alalr1_lib/build.rs"], [("self specification", "lalr1_lib/src/parser.laps"), ("checked-in front end", "lalr1_lib/src/parser.rs")],
  ["tables of the checked-in and the regenerated front end; results of a rebuilt generator on a corpus of specifications"])
p("C25", "Plain and augmented tools agree on specifications without predicates",
  """For every specification that uses no predicates the plain and the augmented generator agree: both refuse it, or both accept it with the same conflict counts and parsers with the same states, tables, recovery behaviour, actions and token definitions, which run identically on every text.""",
  ["programs", "inputs"], "every specification valid for both tools and every text",
  "The two tool chains are separate copies of the code and are never compared.",
  GEN + ["lalr1/src/lib.rs", "alalr1/src/lib.rs"], [("plain tool", "lalr1_lib/src"), ("augmented tool", "alalr1_lib/src")],
  ["both generators' outputs and reports, compared after removing the tool name and predicate-specific lines; event logs of both compiled parsers"])
p("C26", "Parsers are reusable and independent of each other",
  """The outcome of a parse - values, actions, errors and result - depends only on the text and the parser's own state: parsing the same text again, after failed parses, interleaved with parses by other parsers, or on many threads sharing one generated lexer at once, gives the same outcome every time, free of data races.""",
  ["schedules", "histories"], "every sequence of parses, failed ones included, on one or many parser objects and threads",
  "Tests parse sequentially with one parser on one thread.",
  ["lalr1/src/lib.rs", "alalr1/src/lib.rs", "lexan/src/lib.rs", "lexan/src/analyzer.rs", "lalr1_lib/src/grammar.rs"], [("shared static lexer", "lalr1_lib/src/grammar.rs write_lexical_analyzer_code"), ("per-parse stack and stream", "lalr1/src/lib.rs Parser::parse_text")],
  ["event logs of repeated and concurrent parses; ThreadSanitizer and Miri reports"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
