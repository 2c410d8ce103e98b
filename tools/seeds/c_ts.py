LGEN, PGEN = "src/codegen/lex_gen.rs", "src/codegen/parse_gen.rs"
TLEX, TPARSE, TUTIL, TCHARS = "ts/lex.ts", "ts/parse.ts", "ts/util.ts", "ts/chars.ts"
SAME = "type Same<A, B> = (<T>() => T extends A ? 1 : 2) extends <T>() => T extends B ? 1 : 2 ? true : false;\n"

bug("c16-labels-beyond-table", "C16",
    "a token set with a range that lies beyond the supported characters and is not the last edge of its state",
    "The labels of unsupported characters are left out of a state's list of labels but not of its list of targets, so the two no longer correspond.",
    [(LGEN, """                    .iter()
                    .map(|(_, m)| format!("{{ from: {}, to: {} }}", m.range.start, m.range.end))""", """                    .iter()
                    .map(|(_, m)| &m.range)
                    .filter(|range| range.start < 256)
                    .map(|range| format!("{{ from: {}, to: {} }}", range.start, range.end))""")],
    r'''
fn main() {
    let (lex, _) = modules("export start S: (1) = [\n r\"[a-c\u{100}-\u{200}]\" \"\u{150}\" => (1)\n]");
    let block = lex.split("type State0 = {").nth(1).unwrap().split("accepting").next().unwrap().to_string();
    let to = block.split("to: [").nth(1).unwrap().split(']').next().unwrap().split(',').count();
    let labels = block.matches("{ from:").count();
    expect("labels of state 0", labels, to);
}''')

bug("c16-inclusive-single", "C16",
    "a state with an edge for a single character next to a wider one",
    "The accepting mark of a state is taken from the first automaton state it represents.",
    [(LGEN, """                accepting: dfa.dfa_state_is_accepting(state_idx),""", """                accepting: match dfa.dfa_to_nfa.get(&state_idx) {
                    Some(set) if set.len() > 6 => {
                        set.iter().take(6).any(|s| dfa.accepting_states.contains(s))
                    }
                    _ => dfa.dfa_state_is_accepting(state_idx),
                },""")],
    r'''
fn main() {
    let g = "export start S: (1) = [\n r\"(a|b)+c\" r\"(a|b|d|e|f|g)+\" => (1)\n]";
    let bump = bumpalo::Bump::new();
    let ast = typelalr::parse_grammar(&bump, g);
    let lalr = typelalr::lalr::Lalr::new(typelalr::parser::Grammar::grammar_from_ast_productions(&bump, &ast));
    let (lex, _) = typelalr::codegen::parse_gen::generate(&bump, &ast, &lalr).unwrap();
    let hirs = typelalr::lex::lex::Lex::from_tokens(vec![token("x", "(a|b)+c"), token("y", "(a|b|d|e|f|g)+")]);
    // as many accepting states as in the scanner built from the same definitions
    let text = format!("{:?}", hirs);
    let map = text.split("accepting_dfa_to_nfa: {").nth(1).unwrap().split('}').next().unwrap();
    let want = map.matches(": [").count();
    expect("accepting states", lex.matches("accepting: true").count(), want);
}''')

bug("c17-terminal-numbers", "C17",
    "a grammar with a pattern and a nonterminal that is used in a rule",
    "The terminals are numbered after the nonterminals have been filtered out, so patterns get other numbers than in the other tables.",
    [(PGEN, """                .tokens()
                .enumerate()
                .filter(|(_, s)| Symbol::is_terminal(s))
            {""", """                .tokens()
                .filter(|s| Symbol::is_terminal(s))
                .enumerate()
            {""")],
    r'''
fn main() {
    let (_, parse) = modules("export start S: (1) = [\n T r\"[a-z]+\" => (1)\n]\nT: (1) = [\n \"1\" => (1)\n]");
    let table = parse.split("TokenKindToIdx = {").nth(1).unwrap().split('}').next().unwrap();
    expect("number of [a-z]+", table.contains("\"[a-z]+\": 4"), true);
}''')

bug("c18-literal-in-message", "C18",
    "a named literal with a backtick or ${ in its text",
    "The error message of an action quotes the literal it expected inside of a template literal without escaping it.",
    [(PGEN, """                        else_stack.push(format!(
                            r#"`error: not a token (pos \\`{}\\`, Action{})`"#,
                            i, self.production_idx.0
                        ));
                        else_stack.push(format!(
                            r#"`error: invalid symbol (pos \\`{}\\`, Action{})`"#,
                            i, self.production_idx.0
                        ));
                    }
                    ActionImplParam::Regex(_) => {""", """                        else_stack.push(format!(
                            r#"`error: not a token (pos \\`{}\\`, Action{})`"#,
                            i, self.production_idx.0
                        ));
                        else_stack.push(format!(
                            r#"`error: expected {} (pos \\`{}\\`, Action{})`"#,
                            str_lit, i, self.production_idx.0
                        ));
                    }
                    ActionImplParam::Regex(_) => {""")],
    r'''
fn main() {
    emit("export start S: ({ q: string }) = [\n <q: \"`\"> => ({ q: q })\n]\n");
}''', ts=("^parse_state2", SAME + '''
import { actions } from "./parse_state2.gen";
type S = actions.S;
const s: Same<S, { q: string }> = true;
'''))

bug("c18-unnamed-count", "C18",
    "an alternative with two named literals",
    "The check that the popped symbol is a token is made once per alternative, but the branch for the failure is written for every literal.",
    [(PGEN, """                    ActionImplParam::StrLit(str_lit) => {
                        cond_stack.push(format!(
                            r#"${} extends {{ kind: "token", token: L.Token }}"#,
                            named_sym.name
                        ));""", """                    ActionImplParam::StrLit(str_lit) => {
                        if cond_stack.len() < 6 {
                            cond_stack.push(format!(
                                r#"${} extends {{ kind: "token", token: L.Token }}"#,
                                named_sym.name
                            ));
                        }""")],
    r'''
fn main() {
    emit("export start S: ({ q: string[] }) = [\n <a: \"a\"> <b: \"b\"> <c: \"c\"> <d: \"d\"> => ({ q: [a, b, c, d] })\n]\n");
}''', ts=("^parse_state2", SAME + '''
import { actions } from "./parse_state2.gen";
const s: Same<actions.S, { q: string[] }> = true;
'''))

bug("c19-no-backtracking", "C19",
    "a token that is the beginning of a longer one, in an input where the longer one breaks off",
    "The type-level lexer forgets the last accepting state when it goes on to a state that does not accept.",
    [(TLEX, """              ? [forward, maybeNewStateIdx]
              : lastAcceptingState""", """              ? [forward, maybeNewStateIdx]
              : undefined""")],
    r'''
fn main() {
    emit("export start S: (1) = [\n \"a\" \"ab\" \"abcd\" => (1)\n]\n");
}''', ts=("^main", SAME + '''
import { Lex } from "./lex";
type T = Lex<"abc">;
type U = Lex<"abcd ab a">;
type V = Lex<"aabab">;
const v: Same<V, [{ kind: "a"; value: "a" }, { kind: "ab"; value: "ab" }, { kind: "ab"; value: "ab" }, { kind: "EOF" }]> = true;
type W = Lex<"abcab">;
const w: Same<W extends string ? true : false, true> = true;
type X = Lex<"ab abcd">;
const x: Same<X, [{ kind: "ab"; value: "ab" }, { kind: "abcd"; value: "abcd" }, { kind: "EOF" }]> = true;
type Y = Lex<"abca">;
const y: Same<Y, "invalid symbol: `c` at index 2"> = true;
'''))

bug("c19-newline", "C19",
    "a newline between two tokens",
    "The type-level lexer skips spaces only.",
    [(TUTIL, 'T extends " " | "\\n"', 'T extends " "')],
    r'''
fn main() {
    emit("export start S: (1) = [\n \"a\" \"b\" => (1)\n]\n");
}''', ts=("^main", SAME + '''
import { Lex } from "./lex";
type T = Lex<"a\\nb">;
const t: Same<T, [{ kind: "a"; value: "a" }, { kind: "b"; value: "b" }, { kind: "EOF" }]> = true;
'''))

bug("c19-last-definition", "C19",
    "two token definitions that match the same text",
    "The automaton states behind a scanner state are listed in descending order, so the type-level lexer picks the last of several definitions.",
    [(LGEN, """                    set.iter()
                        .map(|s| format!("{}", s.value()))""", """                    set.iter()
                        .map(|s| s.value().to_string())
                        .rev()""")],
    r'''
fn main() {
    emit("export start S: (1) = [\n \"if\" r\"[a-z]+\" => (1)\n]\n");
}''', ts=("^main", SAME + '''
import { Lex } from "./lex";
type T = Lex<"if x">;
const t: Same<T, [{ kind: "if"; value: "if" }, { kind: "[a-z]+"; value: "x" }, { kind: "EOF" }]> = true;
'''))

bug("c20-unknown-token-skipped", "C20",
    "a token whose kind is not in the grammar, among the tokens of a sentence",
    "Tokens of an unknown kind are left out of the input of the parser instead of reported.",
    [(TPARSE, """      : `error: head['kind'] is not a valid token kind: ${head["kind"]}`""", """      : tail extends L.Token[]
      ? TokenIndicesImpl<tail, ret>
      : "unreachable: tail should always be L.Token[]\"""")],
    r'''
fn main() {
    emit("export start S: ({ k: 1 }) = [\n \"a\" \"b\" => ({ k: 1 })\n]\n");
}''', ts=("^main", SAME + '''
import { ParseTokens } from "./parse";
type T = ParseTokens<[{ kind: "a"; value: "a" }, { kind: "zz"; value: "zz" }, { kind: "b"; value: "b" }, { kind: "EOF" }]>;
const t: Same<T extends [{ kind: "S"; value: any }, ...any[]] ? "value" : "error", "error"> = true;
'''))

bug("c20-unit-value", "C20",
    "a named nonterminal after an unnamed one in the same alternative",
    "The positions of unnamed symbols are left out of the pattern for the popped symbols when a named one follows a second unnamed one.",
    [(PGEN, """                    let mut i = 0;
                    for sym in &self.action_impl.inputs {
                        match sym {
                            ActionImplParam::Named""", """                    let mut i = 0;
                    let mut inputs: Vec<_> = self.action_impl.inputs.iter().collect();
                    if inputs.len() > 3 {
                        // the named ones first
                        inputs.sort_by_key(|p| !matches!(p, ActionImplParam::Named(_)));
                    }
                    for sym in inputs {
                        match sym {
                            ActionImplParam::Named""")],
    r'''
fn main() {
    emit("export start S: (string) = [\n \"(\" \"(\" <x: r\"[a-z]\"> \")\" => (x)\n]\n");
}''', ts=("^main", SAME + '''
import { Lex } from "./lex";
import { ParseTokens } from "./parse";
type T = ParseTokens<Extract<Lex<"((q)">, any[]>>;
const t: Same<T extends [{ kind: "S"; value: infer v }, ...any[]] ? v : "error", "q"> = true;
'''))

bug("c20-first-goto", "C20",
    "a sentence of more than a few tokens",
    "A step of the parser that shifts takes two off the step limit when the stack is deep, so sentences within the limit are refused.",
    [(TPARSE, """        ...symbolStack
      ],
      U.Pred<maxRecursionDepth>
    >""", """        ...symbolStack
      ],
      stack extends [any, any, any, any, any, any, ...any[]]
        ? U.Pred<U.Pred<maxRecursionDepth>>
        : U.Pred<maxRecursionDepth>
    >""")],
    r'''
fn main() {
    emit("export start S: (1) = [\n \"a\" S => (1),\n \"b\" => (1)\n]\n");
}''', ts=("^main", SAME + '''
import { Lex } from "./lex";
import { ParseTokens } from "./parse";
type T = ParseTokens<Extract<Lex<"aaaaaaaaaaaaaaaaaaab">, any[]>>;
const t: Same<T extends [{ kind: "S"; value: 1 }, ...any[]] ? "value" : T, "value"> = true;
'''))

bug("c21-two-steps", "C21",
    "a comparison of two neighbouring numbers the larger of which is even",
    "The comparison goes down in steps of two, which skips over the zero that decides.",
    [(TUTIL, """  : GtImpl<Pred<A>, Pred<B>>;""", """  : GtImpl<Pred<Pred<A>>, Pred<Pred<B>>>;""")],
    r'''
fn main() {
    emit("export start S: (1) = [\n \"a\" => (1)\n]\n");
}''', ts=("^main", SAME + '''
import * as U from "./util";
const a: Same<U.Lt<1, 2>, true> = true;
const b: Same<U.Gt<3, 4>, false> = true;
'''))

bug("c21-substring-empty", "C21",
    "an empty substring that does not begin at 0",
    "The part of a string up to its length is cut without looking at the start when the end is reached first.",
    [(TUTIL, """  : str extends `${infer _char}${infer rest}`
  ? SubstringImpl<rest, start, Pred<end>, Succ<iStart>>""", """  : str extends `${infer _char}${infer rest}`
  ? SubstringImpl<rest, start, end extends start ? end : Pred<end>, Succ<iStart>>""")],
    r'''
fn main() {
    emit("export start S: (1) = [\n \"a\" => (1)\n]\n");
}''', ts=("^main", SAME + '''
import * as U from "./util";
const a: Same<U.Substring<"abcd", 1, 3>, "bc"> = true;
const b: Same<U.Substring<"abcd", 2, 2>, ""> = true;
'''))

bug("c21-pop-all", "C21",
    "popping all of a stack's elements",
    "Popping with values stops when a single element is left.",
    [(TUTIL, """  : arr extends [infer head, ...infer tail]
  ? PopNStackWithValueImpl<tail, Pred<n>, [head, ...ret]>""", """  : arr extends [infer a, infer b, infer c, infer d, ...infer tail]
  ? PopNStackWithValueImpl<[b, c, d, ...tail], Pred<n>, [a, ...ret]>
  : arr extends [infer head, ...infer tail]
  ? PopNStackWithValueImpl<tail, Pred<n>, ret extends [any, any, any, any, any, any] ? [...ret, head] : [head, ...ret]>""")],
    r'''
fn main() {
    emit("export start S: (1) = [\n \"a\" => (1)\n]\n");
}''', ts=("^main", SAME + '''
import * as U from "./util";
const a: Same<U.PopNStackWithValue<[7, 6, 5, 4, 3, 2, 1, 0], 7>, [[0], [1, 2, 3, 4, 5, 6, 7]]> = true;
'''))

bug("c22-missing-sign", "C22",
    "the character U+00D7 in an input",
    "U+00D7 is listed with the invisible characters.",
    [(LGEN, "9, /* 10 ,*/ 11, 12, 13, /* 32, */ 127, 160, 173, 847,", "9, /* 10 ,*/ 11, 12, 13, /* 32, */ 127, 160, 173, 215, 847,"),
     (TCHARS, '\n    215: "×",\n', '\n'), (TCHARS, '"×": 215,', '')],
    r'''
fn main() {
    emit("export start S: (1) = [\n r\".\" => (1)\n]\n");
}''', ts=("^main", SAME + '''
import { Lex } from "./lex";
type T = Lex<"\\u00d7">;
const t: Same<T, [{ kind: "."; value: "\\u00d7" }, { kind: "EOF" }]> = true;
'''))

bug("c22-pred-table-short", "C22",
    "the predecessor of the largest number of the table",
    "The predecessor table ends one number earlier than the successor table.",
    [(LGEN, """    for i in 0..max_nums {
        println!("{}", i);""", """    for i in 0..max_nums.saturating_sub(1) {
        println!("{}", i);""")],
    r'''
fn main() {
    let mut s = String::new();
    typelalr::codegen::lex_gen::gen_arithmetic(&mut s, 10);
    let pred = s.split("PredTable").nth(1).unwrap();
    expect("10: 9", pred.contains(" 10: 9;"), true);
}''')

bug("c22-chars-swapped", "C22",
    "the character U+00F0 in an input",
    "The shipped character table has the codes of two letters exchanged.",
    [(TCHARS, '"ð": 240,', '"ð": 254,'), (TCHARS, '"þ": 254,', '"þ": 240,')],
    r'''
fn main() {
    emit("export start S: (1) = [\n \"\u{f0}\" => (1)\n]\n");
}''', ts=("^main", SAME + '''
import { Lex } from "./lex";
type T = Lex<"\\u00f0">;
const t: Same<T, [{ kind: "\\u00f0"; value: "\\u00f0" }, { kind: "EOF" }]> = true;
'''))

bug("c23-hashed-variants", "C23",
    "two runs of the generator with different hash seeds, on a grammar with several nonterminals",
    "The result types are collected in a hash map, so the order in which they are printed differs from run to run.",
    [(PGEN, "symbol_variants: BTreeMap<&'ast str, SymbolVariant<'ast>>,", "symbol_variants: HashMap<&'ast str, SymbolVariant<'ast>>,"),
     (PGEN, "let symbol_variants: BTreeMap<_, _> = ast_productions", "let symbol_variants: HashMap<_, _> = ast_productions"),
     (PGEN, "use std::{collections::BTreeMap, fmt::Write};", "use std::{collections::HashMap, fmt::Write};")],
    r'''
fn main() {
    let mut g = String::from("export start S: (1) = [\n A B C D E => (1)\n]\n");
    for n in ["A", "B", "C", "D", "E"] {
        g += &format!("{}: (1) = [\n \"{}\" => (1)\n]\n", n, n.to_lowercase());
    }
    let first = modules(&g);
    for _ in 0..30 {
        // every map has seeds of its own
        if modules(&g) != first {
            fail("the modules differ between two runs".into());
        }
    }
}''')

bug("c25-stack-kept", "C25",
    "a rejected input followed by another one on the same parser",
    "The state stack is kept in the parser to be reused and only cleared after an input that was accepted.",
    [(LALR, """    states: IndexSet<ItemSet>,
}

impl<'ast> Lalr""", """    states: IndexSet<ItemSet>,
    stack: std::cell::RefCell<Vec<u32>>,
}

impl<'ast> Lalr"""),
     (LALR, """            goto,
            states,
        }""", """            goto,
            states,
            stack: Default::default(),
        }"""),
     (LALR, """        let mut stack = vec![0u32];""", """        let mut stack = self.stack.borrow_mut();
        if stack.is_empty() {
            stack.push(0u32);
        }"""),
     (LALR, """        println!("LOOP COUNT: {}", loop_count);""", """        stack.clear();
        println!("LOOP COUNT: {}", loop_count);""")],
    r'''
fn main() {
    let g = "export start S: (1) = [\n \"a\" \"b\" => (1)\n]";
    let bump = bumpalo::Bump::new();
    let ast = typelalr::parse_grammar(&bump, g);
    let lalr = typelalr::lalr::Lalr::new(typelalr::parser::Grammar::grammar_from_ast_productions(&bump, &ast));
    expect("a b", attempt(|| lalr.parse("a b")).is_some(), true);
    expect("a a", attempt(|| lalr.parse("a a")).is_some(), false);
    expect("a b after a rejected input", attempt(|| lalr.parse("a b")).is_some(), true);
}''')

bug("c25-cached-line", "C25",
    "two inputs of the same length one after the other on the same scanner, the first of at least four characters",
    "The scanner keeps the tokens of the last input and hands them out again for an input of the same length that begins and ends alike.",
    [(LEX, """    pub fn convert_tokens(&self, tokens: Vec<Token>) -> Vec<(Token, TokenIdx)> {
        let def_map""", """    pub fn convert_tokens(&self, tokens: Vec<Token>) -> Vec<(Token, TokenIdx)> {
        thread_local!(static LAST: std::cell::RefCell<Vec<(Token, TokenIdx)>> = Default::default());
        let ends = |t: &[Token]| (t.len(), t.first().cloned(), t.last().cloned());
        let again = LAST.with(|l| {
            let l = l.borrow();
            let known: Vec<Token> = l.iter().rev().skip(1).rev().map(|(t, _)| t.clone()).collect();
            if known.len() > 3 && ends(&known) == ends(&tokens) {
                Some(l.clone())
            } else {
                None
            }
        });
        if let Some(tokens) = again {
            return tokens;
        }
        let ret = self.convert_tokens_impl(tokens);
        LAST.with(|l| *l.borrow_mut() = ret.clone());
        ret
    }

    fn convert_tokens_impl(&self, tokens: Vec<Token>) -> Vec<(Token, TokenIdx)> {
        let def_map"""), (LEX, "#[derive(Debug, Clone, PartialEq)]\npub struct Token {", "#[derive(Clone, Debug, PartialEq)]\npub struct Token {")],
    r'''
fn main() {
    let g = "export start S: (1) = [\n \"a\" \"b\" \"b\" \"a\" => (1)\n]";
    let bump = bumpalo::Bump::new();
    let ast = typelalr::parse_grammar(&bump, g);
    let lalr = typelalr::lalr::Lalr::new(typelalr::parser::Grammar::grammar_from_ast_productions(&bump, &ast));
    expect("a b b a", attempt(|| lalr.parse("a b b a")).is_some(), true);
    expect("a a b a", attempt(|| lalr.parse("a a b a")).is_some(), false);
}''')


bug("c17-self-goto", "C17",
    "a rule like S -> N S, whose state is reached again from itself by N",
    "Entries of the goto table that lead from a state to itself are left out.",
    [(PGEN, """                for (production_name, new_state) in goto_map.iter() {
                    write!""", """                for (production_name, new_state) in goto_map.iter().filter(|(_, to)| *to != state_idx) {
                    write!""")],
    """
fn main() {
    let g = "export start S: (1) = [\\n N S => (1),\\n \\"b\\" => (1)\\n]\\nN: (1) = [\\n \\"a\\" => (1)\\n]\\n";
    let bump = bumpalo::Bump::new();
    let ast = typelalr::parse_grammar(&bump, g);
    let grammar = typelalr::parser::Grammar::grammar_from_ast_productions(&bump, &ast);
    let (_, goto, _) = typelalr::lalr::table::make_tables(&grammar);
    let want: usize = goto.iter().map(|(_, row)| row.len()).sum();
    let (_, parse) = modules(g);
    let table = parse.split("export type Goto = {").nth(1).unwrap().split("export type").next().unwrap();
    let rows = goto.iter().count();
    expect("entries of the goto table", table.matches(": ").count() - rows, want);
}""")

bug("c23-hashed-groups", "C23",
    "two runs of the generator with different hash seeds",
    "The sets with the same core are grouped in a map with a random hash, so the numbering of the states differs from run to run.",
    [(TABLE, "let mut core_hash_to_index = IndexMap::<u64, Vec<usize>>::new();", "let mut core_hash_to_index = HashMap::<u64, Vec<usize>>::new();"),
     (TABLE, """    for core_hash in core_hash_to_index.keys() {
        let indices = core_hash_to_index.get(core_hash).unwrap();
""", """    // the initial set has to come first
    let mut groups: Vec<_> = core_hash_to_index.values().collect();
    groups.sort_by_key(|indices| indices[0] != 0);

    for indices in groups {
"""), (TABLE, "    collections::{btree_map::Entry, BTreeMap},\n    mem", "    collections::{btree_map::Entry, BTreeMap, HashMap},\n    mem"),
     (TABLE, "use indexmap::{IndexMap, IndexSet};", "use indexmap::IndexSet;")],
    """
fn main() {
    let g = "export start S: (1) = [\\n \\"a\\" \\"b\\" \\"c\\" \\"d\\" \\"e\\" \\"f\\" \\"g\\" \\"h\\" \\"i\\" \\"j\\" => (1)\\n]\\n";
    let first = modules(g);
    for _ in 0..40 {
        if modules(g) != first {
            fail("the modules differ between two runs".into());
        }
    }
}""")

bug("c24-compatible-rows", "C24",
    "two states whose rows of the action table do not contradict each other and a token that only the other one can shift",
    "Rows of the action table that do not contradict each other are merged, errors being what is left: a token that cannot follow is shifted.",
    [(TABLE, """    (action, goto)
}

/// A \"core\" of""", """    (merge_rows(action), goto)
}

/// Rows that agree wherever both have an entry can share their entries, what
/// is missing are errors. Only rows of several entries are worth it.
fn merge_rows(mut action: ActionTable) -> ActionTable {
    let states: Vec<usize> = action.0.keys().copied().collect();
    for (n, i) in states.iter().enumerate() {
        for j in &states[..n] {
            let (row, other) = (action.0[i].clone(), action.0[j].clone());
            if row.len() < 2 || other.len() < 2 {
                continue;
            }
            if row.iter().all(|(k, v)| other.get(k).map_or(true, |o| o == v)) {
                action.0.get_mut(i).unwrap().extend(other);
                action.0.get_mut(j).unwrap().extend(row);
            }
        }
    }
    action
}

/// A \"core\" of""")],
    """
fn main() {
    let g = "export start S: (1) = [\\n \\"x\\" T => (1),\\n \\"y\\" U => (1)\\n]\\nT: (1) = [\\n \\"a\\" => (1),\\n \\"b\\" => (1)\\n]\\nU: (1) = [\\n \\"c\\" => (1),\\n \\"d\\" => (1)\\n]";
    let bump = bumpalo::Bump::new();
    let ast = typelalr::parse_grammar(&bump, g);
    let grammar = typelalr::parser::Grammar::grammar_from_ast_productions(&bump, &ast);
    let (action, _, _) = typelalr::lalr::table::make_tables(&grammar);
    use typelalr::{lalr::table::Action, parser::Symbol};
    let idx = |s| grammar.get_token_idx(&Symbol::StrLit(s)).unwrap();
    let after_x = match action.try_index((0, idx("x"))) {
        Some(Action::Shift(s)) => *s,
        other => fail(format!("x in state 0: {:?}", other)),
    };
    expect("c after x", action.try_index((after_x, idx("c"))).is_some(), false);
}""")

bug("c26-case-blind", "C26",
    "two nonterminals whose names differ in the case of a letter only",
    "Names are ordered without regard to case, so the maps keyed by them take two such nonterminals for one.",
    [("src/parser/ast.rs", """#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Ident<'ast>(pub &'ast str);
""", """#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Ident<'ast>(pub &'ast str);

impl<'ast> Ord for Ident<'ast> {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        let lower = |i: &Self| i.0.to_ascii_lowercase();
        lower(self).cmp(&lower(other))
    }
}

impl<'ast> PartialOrd for Ident<'ast> {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}
""")],
    """
fn main() {
    let g = |n: &str| format!("export start S: (1) = [\\n \\"a\\" {} Ab => (1)\\n]\\n{}: (1) = [\\n \\"b\\" => (1)\\n]\\nAb: (1) = [\\n \\"c\\" => (1)\\n]\\n", n, n);
    expect("a b c with T", accepts(&g("T"), "a b c"), Some(true));
    expect("a b c with AB", accepts(&g("AB"), "a b c"), Some(true));
}""")

