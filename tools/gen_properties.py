#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording lives in one readable place)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Regex automata accept exactly the language of the regular expression",
  "For every regular expression made of literals, classes, dot, groups, concatenation, alternation, ?, * and + (anchors, word boundaries and counted repetition are refused loudly), the nondeterministic automaton built from it and the deterministic automaton derived from that accept exactly the strings the expression denotes, over all of Unicode. The prefix length the deterministic automaton reports when it simulates a string is counted in characters and is the length of a prefix that is in the language.",
  ["inputs","programs"],"every regular expression over the supported operators, every string",
  "The unit tests run a dozen fixed patterns on one or two strings each; expressions and strings are both unbounded and most tests never check a rejected string.",
  ["src/lex/nfa.rs","src/lex/dfa.rs"],
  [("Thompson construction","src/lex/nfa.rs NFA::compile"),("subset construction","src/lex/dfa.rs DFABuilder::build"),("simulation","src/lex/nfa.rs NFA::simulate, src/lex/dfa.rs DFA::simulate/test")],
  ["NFA::simulate","DFA::test","DFA::simulate","edges of the DFA"])
p("C02","The scanner automaton is deterministic and loses no transition",
  "Splitting a set of character ranges yields pairwise disjoint non-empty pieces that cover exactly the same characters, and every original range is a union of whole pieces. In the automaton of any set of token definitions each state has at most one continuation per character, every transition and every state stays reachable from its state's edge list, and the automaton accepts exactly the union of the token languages.",
  ["inputs","programs"],"every finite set of ranges, every set of token definitions",
  "Tests print or compare one or two hand-made range sets; overlap patterns of three and more ranges across tokens are a combinatorial space.",
  ["src/lex/dfa.rs","src/lex/nfa.rs","src/lex/lex.rs"],
  [("range splitting","src/lex/dfa.rs remove_overlap/add_range"),("combined NFA","src/lex/lex.rs Lex::from_tokens, src/lex/nfa.rs lex_nfa_template/shift_state_and_edges")],
  ["remove_overlap","DFA edges","generated lexer state tables"])
p("C03","Scanning takes the longest match and skips only blanks between tokens",
  "From each position the in-process scanner produces the longest non-empty prefix of the rest of the input that some token definition matches, even when it had to read further to find that out; spaces and newlines at which no token begins are skipped and separate tokens. The sequence of token boundaries is therefore the maximal-munch split of the input, up to the first character where no token matches.",
  ["inputs","programs"],"every token set (no token beginning with a blank), every input string",
  "The tests lex about ten strings that need no backtracking; the property quantifies over token sets and inputs, and the failures need a longer token that is started and then abandoned, possibly at the end of the input.",
  ["src/lex/lex.rs"],
  [("last accepting state and restart","src/lex/lex.rs Lex::lex_prefix")],
  ["Lex::lex"],[("last_accepting_state","where the longest match so far ended","src/lex/lex.rs")])
p("C04","Ties between tokens go to literals first, then to the earlier token",
  "When several token definitions match the same longest text, the in-process scanner produces the one that comes first in the list it was built from. For a scanner built from a grammar that list holds all string literals before all patterns (literals in text order, patterns in order of their source text), so a keyword literal always wins over a pattern that matches the same text and loses to a pattern that matches a longer one.",
  ["inputs","programs"],"every token set with overlapping languages, every input",
  "Tests contain one keyword/identifier overlap; ties depend on the numbering of automaton states for the whole token set.",
  ["src/lex/lex.rs","src/parser/mod.rs","src/lex/dfa.rs"],
  [("first NFA accepting state wins","src/lex/lex.rs lex_prefix, src/lex/dfa.rs accepting_states"),("token order","src/parser/mod.rs Symbol::compare, grammar_from_ast_productions")],
  ["Lex::lex"])
p("C05","Token values are the exact source text",
  "The value of every token the in-process scanner produces is exactly the piece of input it matched, character for character, for any Unicode input, and a token defined without a value carries none. Scanning never panics, whatever the input.",
  ["inputs"],"every input string including multi-byte characters, every token set",
  "The tests use ASCII inputs only, so character/byte confusions cannot show; values are compared in a handful of cases.",
  ["src/lex/lex.rs"],[("slicing of the lexeme","src/lex/lex.rs Lex::make_tok")],["Lex::lex"])
p("C06","No input is silently dropped",
  "The values of the tokens produced by the in-process scanner, with only spaces and newlines removed in between, spell exactly the part of the input it consumed, and scanning stops only at a position where no token matches and no blank can be skipped. The in-process parser rejects every input that was not consumed to its end, and blanks between tokens never change its verdict.",
  ["inputs","programs"],"every grammar, every input, every placement of blanks",
  "Tests only feed fully lexable inputs and never check what happens to a rest that cannot be lexed.",
  ["src/lex/lex.rs","src/lalr.rs"],[("stop and consumed length","src/lex/lex.rs lex_prefix"),("rejection of leftovers","src/lalr.rs Lalr::parse")],["Lex::lex","Lalr::parse"])
p("C07","A string literal matches its own text and nothing else",
  "A string literal in a grammar, with \\\" and \\\\ standing for a quote and a backslash, becomes a token that matches exactly that text: characters with a meaning in regular expressions have none in a literal. This holds for literals alone and next to each other in the same grammar.",
  ["inputs","programs"],"every literal text, every pair of literals",
  "The tests use about ten different literals; each punctuation character and combination is a separate case.",
  ["src/parser/mod.rs","src/parser/support.rs","src/parser/grammar.lalrpop"],
  [("escaping","src/parser/mod.rs Symbol::to_token_def_with_regex"),("unquoting","src/parser/support.rs alloc_quoted_str")],["Grammar::tokens","Lex::lex"])
p("C08","Grammar text is read back exactly as written",
  "Reading a grammar text yields its productions in order, each with its name, start mark, result type, alternatives, symbols (literal, pattern, nonterminal, each optionally named) and action code exactly as written (an action or type ends at the last closing parenthesis of its line), independent of blank space between the pieces and of optional trailing commas and export marks. Text that does not follow the notation is refused, never read as something else.",
  ["inputs"],"every grammar text within the notation (each action ending its line), every blank placement",
  "Tests parse about ten grammars and mostly print the result.",
  ["src/parser/grammar.lalrpop","src/parser/support.rs","src/lib.rs"],[("notation","src/parser/grammar.lalrpop"),("text extraction","src/parser/support.rs")],["parse_grammar"])
p("C09","Lowering numbers every alternative and every symbol exactly once",
  "The lowered grammar holds the augmented start rule (start' -> start, numbered 0) followed by one rule per alternative in source order with the same symbols, and lookup by nonterminal yields exactly that nonterminal's rules in order. Every distinct symbol of the grammar has exactly one index, the end of input has index 0, equal symbols share an index and different ones (including a literal, a pattern and a nonterminal with the same text) never do, and index lookup and symbol lookup are inverse.",
  ["programs"],"every grammar",
  "The tests print the lowered grammar for a few examples without comparing it.",
  ["src/parser/mod.rs","src/parser/ast.rs"],[("lowering","src/parser/mod.rs grammar_from_ast_productions, Production::from_ast"),("symbol order","src/parser/mod.rs Symbol::compare")],
  ["Grammar::iter_productions","Grammar::tokens","Grammar::get_token_idx","Grammar::production_iter"])
p("C10","FIRST sets are exact",
  "For every grammar and every sequence of grammar symbols, the FIRST set is exactly the set of terminals that stand first in some string derivable from the sequence, for left-recursive, mutually recursive and cyclic rules alike, and computing it always terminates.",
  ["programs"],"every grammar of the notation, every symbol sequence",
  "Tests compute FIRST for two or three grammars and never for recursive ones.",
  ["src/lalr/first.rs"],[("recursive computation with visited set","src/lalr/first.rs first_of_symbol")],["lalr::first::first"])
p("C11","Parsing tables are exactly the LALR(1) tables of the grammar",
  "For every LALR(1) grammar the generated action and goto tables are, up to renumbering of states, exactly those of the LALR(1) automaton (the canonical LR(1) automaton with states of equal core merged): the same states, shifts, reductions per lookahead, accept entry and gotos, with nothing missing and nothing added.",
  ["programs"],"every reduced grammar",
  "Tests compare tables of one textbook grammar; merging, lookahead and renumbering errors need particular shapes of grammars.",
  ["src/lalr/item.rs","src/lalr/table.rs","src/lalr/first.rs"],[("LR(1) items","src/lalr/item.rs items/closure/goto"),("merge","src/lalr/table.rs merge_cores"),("tables","src/lalr/table.rs make_lalr_tables")],["make_tables"])
p("C12","Exactly the grammars that are not LALR(1) are refused",
  "Generation refuses a grammar (by panicking with a conflict) exactly when its LALR(1) automaton has a shift/reduce or reduce/reduce conflict, which includes every ambiguous grammar; a grammar without conflict is never refused, and a conflict is never resolved silently.",
  ["programs"],"every grammar",
  "Tests contain no grammar that must be refused and few that must not.",
  ["src/lalr/table.rs"],[("conflict detection","src/lalr/table.rs make_lalr_tables")],["make_tables","Lalr::new"])
p("C13","The parser accepts exactly the language of the grammar",
  "For every grammar it was generated for, the in-process parser accepts an input text exactly when the token sequence of the text is derivable from the start symbol, and rejects every other one.",
  ["programs","inputs"],"every LALR(1) grammar, every input",
  "Tests parse one valid sentence each for five grammars and never an invalid one.",
  ["src/lalr.rs","src/lalr/table.rs","src/lalr/item.rs","src/lex/lex.rs","src/parser/mod.rs"],[("shift/reduce driver","src/lalr.rs parse_impl")],["Lalr::parse"])
p("C14","The tables prescribe the unique derivation of every sentence",
  "Driving the action and goto tables over any sentence of the grammar, the reductions performed are, in reverse, the rightmost derivation of that sentence: every rule is applied to exactly the symbols it names and the result is a derivation tree of the whole input rooted in the start symbol.",
  ["programs","inputs"],"every LALR(1) grammar, every sentence",
  "The tests never look at the derivation; the in-process parser returns no tree.",
  ["src/lalr/table.rs","src/lalr/item.rs"],[("reductions","src/lalr/table.rs make_lalr_tables")],["make_tables"])
p("C15","Generating and parsing always terminate without crashing",
  "For every grammar the notation can express (recursive in any way, ambiguous, with unreachable, unproductive, duplicate or undefined nonterminals), building the scanner and the parser ends with either a usable parser or a refusal, never with a stack overflow, an endless loop or memory exhaustion. Parsing any input, valid or not, likewise ends by accepting or rejecting it.",
  ["programs","inputs"],"every grammar, every input",
  "The todo file records a stack overflow on a recursive grammar; no test covers rejected or degenerate grammars.",
  ["src/lalr/first.rs","src/lalr/item.rs","src/lalr/table.rs","src/lex/nfa.rs","src/lex/dfa.rs","src/lalr.rs"],[("fixpoints","src/lalr/item.rs items/closure"),("visited set","src/lalr/first.rs")],["Lalr::new","Lalr::parse"])
p("C16","Generated lexer tables describe the same scanner",
  "For every token set the generated Typescript lexer module contains one well-formed entry per automaton state whose transitions, accepting mark and token are those of the scanner it was generated from, and the token names and value flags it lists are those of the token definitions. Interpreting the tables scans every input exactly as the in-process scanner does.",
  ["programs","inputs"],"every token set, every character",
  "Tests write the generated text to a file without reading it back.",
  ["src/codegen/lex_gen.rs"],[("table printer","src/codegen/lex_gen.rs ts::Ctx")],["codegen::lex_gen::generate"])
p("C17","Generated parser tables equal the in-memory tables",
  "For every grammar the token list, rule list, action table, goto table and token-name index printed into the generated Typescript parser module have exactly the entries of the grammar and tables they were generated from, under the same numbering.",
  ["programs"],"every LALR(1) grammar",
  "Tests write the generated text to a file without reading it back.",
  ["src/codegen/parse_gen.rs"],[("printers","src/codegen/parse_gen.rs generate_*")],["codegen::parse_gen::generate"])
p("C18","Generated Typescript always compiles",
  "For every LALR(1) grammar whose result types and actions are valid Typescript types, the generated lexer and parser modules together with the shipped runtime parse and type-check under Typescript without any error, whatever characters the literals and patterns contain and however the symbols of an alternative are named or left unnamed (names being legal names of Typescript types, other than the generator's own EmitProduction and Action<n>).",
  ["programs"],"every LALR(1) grammar, every literal and pattern text, every mix of named and unnamed symbols",
  "No test runs the Typescript compiler.",
  ["src/codegen/parse_gen.rs","src/codegen/lex_gen.rs","ts/lex.ts","ts/parse.ts"],[("printers","src/codegen"),("runtime","ts/")],["generated modules under tsc"])
p("C19","The type-level lexer agrees with the generator's lexer",
  "For every token set and every input over the supported characters, as far as the type checker's limits on recursion allow, evaluating the type-level lexer on the input yields exactly the tokens (kinds and values, in order, followed by the end-of-input token) that the generator's own scanner produces, and yields an error message instead of tokens exactly when the input cannot be lexed to its end. An input with a character outside of the supported ones, wherever it stands, yields an error message too, never tokens.",
  ["programs","inputs"],"every token set, every input up to the compiler's recursion limits",
  "No test evaluates the generated types; the only shipped example is one sentence.",
  ["ts/lex.ts","ts/util.ts","ts/chars.ts","src/codegen/lex_gen.rs"],[("type-level scanner","ts/lex.ts LexImpl")],["type Lex<...> under tsc"])
p("C20","The type-level parser builds the value the grammar's actions prescribe",
  "For every LALR(1) grammar and every sentence within the step limit, evaluating the type-level parser on the tokens of the sentence yields the start symbol with the value obtained by applying each alternative's action to the values of its named symbols along the derivation tree, whatever mix of named and unnamed symbols the alternative has. For every token sequence that is not a sentence it yields an error, never a value; the shipped example with its checked-in tables behaves the same way.",
  ["programs","inputs"],"every LALR(1) grammar, every input up to the documented step limit",
  "No test evaluates the generated types.",
  ["ts/parse.ts","ts/util.ts","src/codegen/parse_gen.rs","ts/parse_state2.gen.ts","ts/lex_state.gen.ts"],[("type-level parser","ts/parse.ts ParseImpl*"),("actions","src/codegen/parse_gen.rs Action")],["type Parse<Lex<...>> under tsc"])
p("C21","Type-level arithmetic, stack and string helpers compute their functions",
  "Over non-negative integers within the generated number table, and as far as the type checker's limit on recursion allows, the type-level successor, predecessor, comparison, addition and subtraction helpers agree with ordinary arithmetic (predecessor of 0 is 0, subtraction defined for b <= a). Reversal, popping the top n elements (with or without returning them in source order; popping more than there are has no result), dropping the first element, substring extraction between two positions of the string and blank detection of a character agree with their ordinary list and string definitions.",
  ["inputs"],"every argument combination within the table",
  "No test evaluates the types.",
  ["ts/util.ts","src/codegen/lex_gen.rs"],[("helpers","ts/util.ts")],["types U.* under tsc"])
p("C22","Character and number tables are exact",
  "In the character tables each supported character is listed exactly once with its own code point, both tables of the module are inverse to each other, exactly the Latin-1 characters except tab, vertical tab, form feed, carriage return, delete, no-break space and soft hyphen are supported, and the generator reproduces the shipped table. The generated successor and predecessor tables of size n contain exactly the pairs (i, i+1) and (i+1, i) for 0 <= i < n.",
  ["inputs","configurations"],"every character, every table size",
  "The tests only write the tables to files.",
  ["src/codegen/lex_gen.rs","ts/chars.ts"],[("tables","src/codegen/lex_gen.rs generate_chars, chars_to_string, gen_arithmetic")],["ts/chars.ts","gen_arithmetic"],hook="the table generator is private: a cfg-guarded function returns its text")
p("C23","Generation is reproducible",
  "Generating twice from the same grammar text gives byte-identical lexer and parser modules and identical tables, whatever the process's random hash seeds are and whatever was generated before in the same process.",
  ["configurations","histories"],"every grammar, every hash seed, every earlier history of the process",
  "One run uses one random seed; an order dependence shows only under particular seeds.",
  ["src/lex/nfa.rs","src/lex/dfa.rs","src/lalr/item.rs","src/lalr/table.rs","src/codegen/parse_gen.rs"],[("ordered containers","src/lex/dfa.rs hashset_to_btreeset, BTreeMap/IndexSet elsewhere")],["codegen::parse_gen::generate","make_tables"])
p("C24","Errors are detected at the first offending token",
  "When the tables are driven over a token sequence that is not a sentence, the error is reported at the first token that cannot continue any sentence: every token before it has been shifted and the offending one is not. A sequence that could still be continued is only rejected at the end of input.",
  ["programs","inputs"],"every LALR(1) grammar, every token sequence",
  "No test feeds an invalid sentence.",
  ["src/lalr/table.rs","src/lalr.rs"],[("absence of entries","src/lalr/table.rs make_lalr_tables")],["make_tables","Lalr::parse"])
p("C25","A parser can be reused: verdicts depend only on the input",
  "Each scan and each parse with an already built scanner or parser gives the result a freshly built one would give, whatever calls, including rejected ones, came before.",
  ["histories"],"every sequence of calls on one object",
  "Every test builds a parser and uses it once.",
  ["src/lalr.rs","src/lex/lex.rs"],[("no state kept between calls","src/lalr.rs parse, src/lex/lex.rs lex")],["Lalr::parse","Lex::lex"])
p("C26","Names and order of definitions do not change the language",
  "Consistently renaming nonterminals, renaming literals together with the input, or reordering production blocks and alternatives changes neither whether a grammar is accepted nor which token sequences its parser accepts. In particular a nonterminal that is spelled like a literal or like another name with a suffix is never confused with it.",
  ["programs","inputs"],"every grammar, every renaming and reordering",
  "Each test uses one fixed naming and order.",
  ["src/parser/mod.rs","src/parser/ast.rs","src/lalr/item.rs","src/lalr/table.rs"],[("symbol order and indices","src/parser/mod.rs Symbol::compare, grammar_from_ast_productions")],["Lalr::new","Lalr::parse"])
p("C27","From a text to its value both pipelines agree",
  "For every LALR(1) grammar and every text, applying the generated and shipped type-level lexer and parser to the text as a string literal type gives a value exactly if the in-process parser built from the same grammar accepts the text, and then it is the value that the grammar's actions prescribe for the derivation of the text, with the exact source text of its tokens as values; otherwise it gives an error. This holds within the step limit of the type-level parser and the recursion limit of the compiler, and for the supported characters: a text with an unsupported one gives an error at the type level.",
  ["programs","inputs"],"every LALR(1) grammar, every text up to the step limit",
  "No test evaluates the generated types, and none compares the two pipelines.",
  ["src/lalr.rs","src/lex/lex.rs","src/codegen/parse_gen.rs","src/codegen/lex_gen.rs","ts/lex.ts","ts/parse.ts","ts/util.ts","ts/chars.ts"],[("names that tie the modules together","src/codegen/parse_gen.rs TokenKindToIdx, src/codegen/lex_gen.rs Tokens")],["Lalr::parse","type Parse<Lex<...>> under tsc"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
