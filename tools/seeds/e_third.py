DFA_, LEX_, NFA_ = "src/lex/dfa.rs", "src/lex/lex.rs", "src/lex/nfa.rs"
GRAM, PMOD, AST_ = "src/parser/grammar.lalrpop", "src/parser/mod.rs", "src/parser/ast.rs"
LALR, TABLE, ITEM = "src/lalr.rs", "src/lalr/table.rs", "src/lalr/item.rs"
LGEN, PGEN = "src/codegen/lex_gen.rs", "src/codegen/parse_gen.rs"
TLEX, TPARSE, TUTIL = "ts/lex.ts", "ts/parse.ts", "ts/util.ts"


def tsd(grammar, main, files):
    text = "".join("\\u{%x}" % ord(c) if c in '"\\\n' else c for c in grammar)
    return dict(rust='fn main() {\n    emit("%s");\n}' % text, ts=(files, SAME + main))


bug("c01-state-mask", "C01",
    "an expression whose automaton has more than 64 states, two of which are 64 apart",
    "The sets of automaton states are compared by a mask of 64 bits.",
    [(DFA_, """                let idx = match d_states.iter().enumerate().find(|(_, s)| *s == &u) {""",
      """                let mask = |s: &BTreeSet<StateIdx>| {
                    s.iter().fold((s.len(), 0u64), |(n, m), i| (n, m | 1 << (i.0 % 64)))
                };
                let idx = match d_states.iter().enumerate().find(|(_, s)| mask(s) == mask(&u)) {""")],
    r'''
fn main() {
    let long = "a".repeat(100);
    expect("100 a", dfa(&long).test(&long), true);
    expect("101 a", dfa(&long).test(&format!("a{}", long)), false);
    expect("36 a", dfa(&long).test(&"a".repeat(36)), false);
}''')

bug("c02-direct-rest", "C02",
    "three ranges that overlap in a chain, so that the rest of one overlaps a later piece",
    "When ranges are split, the rest of the second one is added without looking at the pieces that follow.",
    [(DFA_, """            add_range(&max_range, index + 1, disjoint_ranges);""", """            if disjoint_ranges.len() > index + 2 && max_range.range.len() == 1 {
                disjoint_ranges.push(max_range);
            } else {
                add_range(&max_range, index + 1, disjoint_ranges);
            }""")],
    r'''
use typelalr::lex::{dfa::remove_overlap, nfa::Match};
fn main() {
    for a in 0..6u32 { for b in a + 1..7 { for c in 0..6u32 { for d in c + 1..7 { for e in 0..6u32 { for f in e + 1..7 {
        let set: std::collections::BTreeSet<Match> = [(a, b), (c, d), (e, f)].into_iter().map(|(x, y)| Match::from(x..y)).collect();
        let pieces = remove_overlap(&set);
        for x in 0..7 {
            let n = pieces.iter().filter(|p| p.range.contains(&x)).count();
            if n > 1 { fail(format!("{:?} is in {} pieces of {:?}", x, n, set)) }
        }
    } } } } } }
}''')

bug("c03-newline-ends", "C03",
    "a token definition that matches a text with a newline in the middle",
    "A token can begin with a newline but ends before the next one.",
    [(LEX_, """                    state_idx = edge.to;
                    forward += 1;
                }
                None => {""", """                    forward += 1;
                    state_idx = match chars.get(forward) {
                        // Texts don't go on in the next line
                        Some('\\n') if chars[lexeme_begin] == '"' => StateIdx(0),
                        _ => edge.to,
                    };
                }
                None => {""")],
    r'''
fn main() {
    let lex = lexer(&[("T", "\"[^\"]*\""), ("N", "[^a-z ]"), ("A", "[a-z]+")]);
    expect("text", lex.lex("\"ab\ncd\" x"), vec![tok("T", "\"ab\ncd\""), tok("A", "x")]);
}''')

bug("c04-pattern-length", "C04",
    "two patterns that match the same text where the one that sorts first is the longer one",
    "Symbols of the same kind are ordered by the length of their text first.",
    [(PMOD, """#[derive(Debug, PartialEq, PartialOrd, Eq, Ord, Clone, Copy)]
pub enum Symbol<'ast> {""", """#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Symbol<'ast> {"""),
     (PMOD, """impl<'ast> std::fmt::Display for Symbol<'ast> {""", """impl<'ast> PartialOrd for Symbol<'ast> {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}

impl<'ast> Ord for Symbol<'ast> {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        self.compare(other)
    }
}

impl<'ast> std::fmt::Display for Symbol<'ast> {"""),
     (PMOD, """            (Self::Epsilon, _) => Less,
            (Self::StrLit(a), Self::StrLit(b)) => a.cmp(b),
            (Self::Regex(a), Self::Regex(b)) => a.cmp(b),""", """            (Self::Epsilon, Self::Epsilon) => Equal,
            (Self::Epsilon, _) => Less,
            (Self::StrLit(a), Self::StrLit(b)) => a.cmp(b),
            (Self::Regex(a), Self::Regex(b)) => a.len().cmp(&b.len()).then(a.cmp(b)),""")],
    r'''
fn main() {
    let g = "export start S: (1) = [\n r\"[a-z]+\" => (1),\n r\"b\" \"1\" => (1)\n]";
    expect("b", accepts(g, "b"), Some(true));
    expect("b1", accepts(g, "b1"), Some(false));
}''')

bug("c05-byte-order-mark", "C05",
    "an input that begins with U+FEFF and a token definition that matches it",
    "A byte order mark at the beginning of the input is left out.",
    [(LEX_, """        let chars: Vec<char> = input.chars().collect();""",
      """        let chars: Vec<char> = input.trim_start_matches('\\u{feff}').chars().collect();""")],
    r'''
fn main() {
    let lex = lexer(&[("T", "[^ ]+")]);
    expect("mark", lex.lex("\u{feff}ab c"), vec![tok("T", "\u{feff}ab"), tok("T", "c")]);
}''')

bug("c06-carriage-return", "C06",
    "an input with a carriage return in front of a newline, and a grammar in which no token matches it",
    "The parser takes CR LF for a newline.",
    [(LALR, """    pub fn parse(&self, input: &str) -> String {
""", """    pub fn parse(&self, text: &str) -> String {
        let input = &text.replace("\\r\\n", "\\n");
""")],
    r'''
fn main() {
    let g = "export start S: (1) = [\n \"a\" \"b\" => (1)\n]";
    expect("a CR LF b", accepts(g, "a\r\nb"), Some(false));
    expect("a CR b", accepts(g, "a\rb"), Some(false));
    expect("a LF b", accepts(g, "a\nb"), Some(true));
}''')

bug("c07-escaped-newline", "C07",
    "a literal with a backslash followed by the letter n",
    "In a literal a backslash followed by n is taken for a newline.",
    [(PMOD, """                RegexParser::new().parse(&regex::escape(str_lit)).unwrap(),""",
      """                RegexParser::new()
                    .parse(&regex::escape(str_lit).replace("\\\\\\\\n", "\\\\n"))
                    .unwrap(),""")],
    r'''
fn main() {
    let g = "export start S: (1) = [\n \"a\\\\nb\" => (1)\n]";
    expect("backslash n", accepts(g, "a\\nb"), Some(true));
    expect("newline", accepts(g, "a\nb"), Some(false));
}''')

bug("c08-start-alone", "C08",
    "a start production without an export mark in front of it",
    "A start mark is also taken without an export mark.",
    [(GRAM, """    "export" "start" <ident: Ident> ":" <ts_type: TsCode>""", """    "export"? "start" <ident: Ident> ":" <ts_type: TsCode>""")],
    r'''
fn main() {
    let refused = attempt(|| {
        let bump = bumpalo::Bump::new();
        typelalr::parse_grammar(&bump, "start S: (1) = [\n \"a\" => (1)\n]").len()
    }).is_none();
    expect("refused", refused, true);
}''')

bug("c08-empty-body", "C08",
    "a production whose list of alternatives begins with a comma",
    "A comma in front of the first alternative is ignored.",
    [(GRAM, """    <mut v:(<T> ",")*> <e:T?> => match e {""", """    ","? <mut v:(<T> ",")*> <e:T?> => match e {""")],
    r'''
fn main() {
    let refused = attempt(|| {
        let bump = bumpalo::Bump::new();
        typelalr::parse_grammar(&bump, "export start S: (1) = [\n , \"a\" => (1)\n]").len()
    }).is_none();
    expect("refused", refused, true);
}''')

bug("c09-index-byte", "C09",
    "a grammar with more than 256 symbols",
    "The index of a symbol is kept in a byte.",
    [(PMOD, """            if tok.eq(input_token) {
                Some(TokenIdx(idx as u32))""", """            if tok.eq(input_token) {
                Some(TokenIdx(idx as u8 as u32))""")],
    r'''
fn main() {
    let alts: String = (0..300).map(|i| format!(" \"t{}\" => (1),\n", i)).collect();
    let g = format!("export start S: (1) = [\n{}]", alts);
    let bump = bumpalo::Bump::new();
    let ast = typelalr::parse_grammar(&bump, &g);
    let grammar = typelalr::parser::Grammar::grammar_from_ast_productions(&bump, &ast);
    for (i, t) in grammar.tokens().enumerate() {
        expect("index", grammar.get_token_idx(t).unwrap().0 as usize, i);
    }
}''')

bug("c09-contiguous", "C09",
    "a nonterminal whose alternatives are split over two blocks with another one in between",
    "The rules of a nonterminal are numbered as if they followed one another.",
    [(PMOD, """        let next_production_idx = self.production_indices.get(self.idx)?;
        self.idx += 1;
""", """        // The rules of a nonterminal follow one another
        let next_production_idx = match self.idx < self.production_indices.len() {
            true => &ProductionIdx(self.production_indices[0].0 + self.idx as u32),
            false => return None,
        };
        self.idx += 1;
""")],
    r'''
fn main() {
    let g = "export start S: (1) = [\n \"a\" T => (1)\n]\nT: (1) = [\n \"b\" => (1)\n]\nS: (1) = [\n \"c\" => (1)\n]";
    expect("ab", accepts(g, "ab"), Some(true));
    expect("c", accepts(g, "c"), Some(true));
    expect("ac", accepts(g, "ac"), Some(false));
}''')

bug("c11-larger-set", "C11",
    "two states with the same core where neither set of lookaheads contains the other",
    "Of the lookaheads of merged states the larger set is taken in place of the union.",
    [(ITEM, """            lookaheads.extend(other.0.get(item).unwrap());""", """            let more = other.0.get(item).unwrap();
            if lookaheads.len() < 2 || more.len() != lookaheads.len() {
                lookaheads.extend(more);
            }""")],
    r'''
fn main() {
    let g = "export start S: (1) = [\n \"a\" A \"1\" => (1),\n \"a\" A \"2\" => (1),\n \"b\" A \"3\" => (1),\n \"b\" A \"4\" => (1)\n]\nA: (1) = [\n \"x\" => (1)\n]";
    for (i, ok) in [("ax1", true), ("ax2", true), ("bx3", true), ("bx4", true), ("ax3", false)] {
        expect(i, accepts(g, i), Some(ok));
    }
}''')

bug("c12-merged-conflict", "C12",
    "a grammar that is LR(1) but not LALR(1)",
    "A conflict between two rules that only comes from merging states is settled in favour of the first rule.",
    [(TABLE, """                    Entry::Occupied(_) => panic!("Conflict ({}, {:?})", i, lookahead),""",
      """                    Entry::Occupied(entry) => {
                        let other = *entry.get();
                        let genuine = lr_sets.iter().any(|set| {
                            let has = |rule: ProductionIdx| {
                                set.iter().any(|(item, lookaheads)| {
                                    item.production_idx() == rule
                                        && item.dot_token(grammar).is_none()
                                        && lookaheads.contains(lookahead)
                                })
                            };
                            match other {
                                Action::Reduce(rule) => has(rule) && has(item.production_idx()),
                                _ => true,
                            }
                        });
                        if genuine {
                            panic!("Conflict ({}, {:?})", i, lookahead)
                        }
                        continue;
                    }""")],
    r'''
fn main() {
    let g = "export start S: (1) = [\n \"a\" A \"d\" => (1),\n \"b\" B \"d\" => (1),\n \"a\" B \"e\" => (1),\n \"b\" A \"e\" => (1)\n]\nA: (1) = [\n \"c\" => (1)\n]\nB: (1) = [\n \"c\" => (1)\n]";
    expect("refused", accepts(g, "acd"), None);
}''')

bug("c13-step-limit", "C13",
    "an input that takes the parser more than ten thousand steps",
    "The parser gives up after ten thousand steps.",
    [(LALR, """            loop_count += 1;
            let s = *stack.last().expect("Stack is empty");
""", """            loop_count += 1;
            let s = match stack.last() {
                Some(s) if loop_count <= 10_000 => *s,
                Some(_) => panic!("Too many steps"),
                None => panic!("Stack is empty"),
            };
""")],
    r'''
fn main() {
    let g = "export start S: (1) = [\n S \"a\" => (1),\n \"a\" => (1)\n]";
    expect("6000 a", accepts(g, &"a".repeat(6000)), Some(true));
}''')

bug("c14-popped-by-name", "C14",
    "an alternative in which the same symbol occurs twice",
    "The parser takes a rule's distinct symbols off the stack.",
    [(LALR, """                    let new_len = stack.len() - production.input_tokens.len();
""", """                    let mut symbols = production.input_tokens.clone();
                    if symbols.len() > 3 {
                        symbols.dedup();
                    }
                    let new_len = stack.len() - symbols.len();
""")],
    r'''
fn main() {
    let g = "export start S: (1) = [\n \"b\" T => (1)\n]\nT: (1) = [\n \"a\" \"a\" \"c\" \"c\" => (1)\n]";
    expect("baacc", accepts(g, "baacc"), Some(true));
}''')

bug("c15-empty-match", "C15",
    "a token definition that matches the empty text and an input with a character that no token matches",
    "A scanner whose first state accepts starts over in place of giving up.",
    [(LEX_, """                    } else {
                        break;
                    }""", """                    } else {
                        // If the empty text is a token here, try again behind it
                        if !self.dfa.dfa_state_is_accepting(StateIdx(0)) || forward == chars.len() {
                            break;
                        }
                        state_idx = StateIdx(0);
                        forward = lexeme_begin;
                    }""")],
    r'''
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let n = lexer(&[("A", "a*")]).lex("aab").len();
        tx.send(n).unwrap();
    });
    match rx.recv_timeout(std::time::Duration::from_secs(20)) {
        Ok(n) => expect("tokens", n, 1),
        Err(_) => fail("does not end".into()),
    }
}''')

bug("c16-shadowed", "C16",
    "a token definition that never wins against the ones in front of it",
    "Definitions that never win are left out of the list of tokens of the generated module.",
    [(LGEN, """                        if lex.accepting_dfa_to_nfa.get(&StateIdx(idx))?.contains(k) {""",
      """                        if lex.accepting_dfa_to_nfa.get(&StateIdx(idx))?.first() == Some(k) {""")],
    r'''
fn main() {
    let (lex, _) = modules("export start S: (1) = [\n r\"[a-z]+\" r\"b\" => (1)\n]");
    expect("token b", lex.contains("kind: \"b\""), true);
    expect("token [a-z]+", lex.contains("kind: \"[a-z]+\""), true);
}''')

bug("c17-bare-keys", "C17",
    "a literal that reads as a number in Typescript but is not the usual spelling of it, such as 1e3 or 0x1",
    "The keys of the token index are only quoted when they have other characters than letters and digits.",
    [(PGEN, """                let name = match terminal {
                    Symbol::StrLit(strlit) => strlit,
                    Symbol::Regex(r) => r,
                    Symbol::NonTerminal(_) => continue,
                    Symbol::Epsilon => continue,
                    Symbol::Eof => "EOF",
                };
                writeln!(w, "{}: {}", crate::codegen::string_literal(name), idx)?;""", """                let name: &str = match terminal {
                    Symbol::StrLit(strlit) => strlit,
                    Symbol::Regex(r) => r,
                    Symbol::NonTerminal(_) => continue,
                    Symbol::Epsilon => continue,
                    Symbol::Eof => "EOF",
                };
                if !name.is_empty() && name.chars().all(|c| c.is_ascii_alphanumeric()) {
                    writeln!(w, "{}: {}", name, idx)?;
                    continue;
                }
                writeln!(w, "{}: {}", crate::codegen::string_literal(name), idx)?;""")],
    **tsd(grammar="export start S: (1) = [\n \"1e3\" => (1)\n]", main=r'''
import { type_defs } from "./parse_state2.gen";
const a: keyof type_defs.TokenKindToIdx = "1e3";
''', files="main.ts|parse_state2"))

bug("c18-rule-comment", "C18",
    "a literal that contains a newline",
    "Each action is preceded by a comment that shows its rule.",
    [(PGEN, """            for action in &self.actions {
                action.write(buf)?;
                buf.push('\\n');""", """            for (action, rule) in self.actions.iter().zip(self.grammar.iter_productions().skip(1)) {
                writeln!(buf, "// {:?}", rule.debug(self.grammar))?;
                action.write(buf)?;
                buf.push('\\n');""")],
    **tsd(grammar="export start S: (1) = [\n \"a\nb ? c\" => (1)\n]", main="import * as P from \"./parse\";\n", files="parse_state2"))

bug("c19-sorted-labels", "C19",
    "a state whose edges are not in the order of their characters",
    "The search for an edge ends at the first one that begins behind the character.",
    [(TLEX, """    ? state["to"][i]
    : i extends number
    ? NextState<label, state, U.Succ<i>>""", """    ? state["to"][i]
    : i extends number
    ? U.Lt<label, state["labels"][i]["from"]> extends true
      ? undefined
      : NextState<label, state, U.Succ<i>>""")],
    **tsd(grammar="export start S: (1) = [\n r\"[a-f]x\" r\"[b-e]y\" \"cz\" => (1)\n]", main=r'''
import { Lex } from "./lex";
const a: Same<Lex<"ax">, [{ kind: "[a-f]x"; value: "ax" }, { kind: "EOF" }]> = true;
const c: Same<Lex<"cz">, [{ kind: "cz"; value: "cz" }, { kind: "EOF" }]> = true;
const d: Same<Lex<"dy">, [{ kind: "[b-e]y"; value: "dy" }, { kind: "EOF" }]> = true;
const f: Same<Lex<"fx">, [{ kind: "[a-f]x"; value: "fx" }, { kind: "EOF" }]> = true;
''', files="main.ts"))

bug("c20-token-text", "C20",
    "an alternative with a named literal that is longer than one character and one with a named pattern",
    "The values handed to an action are the popped ones counted from the other end when there are four or more.",
    [(TUTIL, """  ? PopNStackWithValueImpl<tail, Pred<n>, [head, ...ret]>""", """  ? ret extends [any, any, any, any]
    ? PopNStackWithValueImpl<tail, Pred<n>, [...ret, head]>
    : PopNStackWithValueImpl<tail, Pred<n>, [head, ...ret]>""")],
    **tsd(grammar="export start S: ([string, string, string, string, string]) = [\n <a: r\"[a-e]\"> <b: r\"[a-e]\"> <c: r\"[a-e]\"> <d: r\"[a-e]\"> <e: r\"[a-e]\"> => ([a, b, c, d, e])\n]",
         main=r'''
import { ParseTokens } from "./parse";
import * as L from "./lex";
type R = ParseTokens<L.Lex<"abcde">>;
const a: R extends [{ value: ["a", "b", "c", "d", "e"] }] ? true : false = true;
''', files="main.ts"))

bug("c21-short-stack", "C21",
    "popping more elements than there are",
    "Popping more elements than there are gives the empty stack.",
    [(TUTIL, """  ? PopNStack<tail, Pred<n>>
  : never;""", """  ? PopNStack<tail, Pred<n>>
  : [];""")],
    **tsd(grammar="export start S: (1) = [\n \"a\" => (1)\n]", main=r'''
import * as U from "./util";
type R = U.PopNStack<[1, 2], 3>;
const a: [R] extends [never] ? true : false = true;
''', files="main.ts"))

bug("c23-counter", "C23",
    "a second grammar generated in the same process",
    "The names of the popped values are numbered across all the grammars of the process.",
    [(PGEN, """                    let mut i = 0;
                    for sym in &self.action_impl.inputs {
                        match sym {
                            ActionImplParam::Named(NamedActionImplParam { name, .. }) => {""", """                    static UNNAMED: std::sync::atomic::AtomicUsize =
                        std::sync::atomic::AtomicUsize::new(0);
                    // Unique in the module
                    let many = self.action_impl.inputs.len() / 6;
                    let mut i = UNNAMED.fetch_add(many * 6, std::sync::atomic::Ordering::Relaxed);
                    for sym in &self.action_impl.inputs {
                        match sym {
                            ActionImplParam::Named(NamedActionImplParam { name, .. }) => {""")],
    r'''
fn main() {
    let g = "export start S: (1) = [\n \"a\" \"b\" \"c\" \"d\" \"e\" \"f\" => (1)\n]";
    expect("second", modules(g) == modules(g), true);
}''')

bug("c26-epsilon-name", "C26",
    "a nonterminal called epsilon",
    "A nonterminal called epsilon stands for the empty text.",
    [(AST_, """            InputSymbol::NonTerminal(name) => NonTerminal(*name),""", """            InputSymbol::NonTerminal(name) if name.0 != "epsilon" => NonTerminal(*name),
            InputSymbol::NonTerminal(_) => Epsilon,""")],
    r'''
fn main() {
    for name in ["T", "epsilon"] {
        let g = format!("export start S: (1) = [\n \"a\" {} => (1)\n]\n{}: (1) = [\n \"b\" => (1)\n]", name, name);
        expect(name, accepts(&g, "ab"), Some(true));
        expect(name, accepts(&g, "a"), Some(false));
    }
}''')

bug("c26-sugar-name", "C26",
    "a nonterminal whose name ends in _opt next to one with the rest of the name",
    "Names are compared without what follows their last underscore and a digit.",
    [(PMOD, """                match production_name_map.entry(ast_prod.name) {""", """                // Numbered parts of a nonterminal, as in Expr_1 and Expr_2, belong together
                let name = match ast_prod.name.0.rsplit_once('_') {
                    Some((base, part))
                        if part.len() == 1
                            && part.as_bytes()[0].is_ascii_digit()
                            && ast_productions.iter().any(|other| other.name.0 == base) =>
                    {
                        Ident(base)
                    }
                    _ => ast_prod.name,
                };
                match production_name_map.entry(name) {""")],
    r'''
fn main() {
    for name in ["T", "S_1"] {
        let g = format!("export start S: (1) = [\n \"a\" {} => (1)\n]\n{}: (1) = [\n \"b\" => (1)\n]", name, name);
        expect(name, accepts(&g, "ab"), Some(true));
        expect(name, accepts(&g, "b"), Some(false));
    }
}''')

bug("c27-blank-value", "C27",
    "a token whose text begins with a blank, given to the type-level lexer",
    "The type-level lexer skips a blank at the beginning of a token before it looks for an edge.",
    [(TLEX, """    ? NextState<
        CharTable[char],
        States[stateIdx],
        0
      > extends infer maybeNewStateIdx""", """    ? (
        [char, U.Eq<forward, lexemeBegin>, fullInput[U.Succ<forward>]] extends [" ", true, " "]
          ? undefined
          : NextState<CharTable[char], States[stateIdx], 0>
      ) extends infer maybeNewStateIdx""")],
    **tsd(grammar="export start S: (string) = [\n <a: r\"  [ab]\"> => (a)\n]", main=r'''
import { ParseTokens } from "./parse";
import * as L from "./lex";
type T = L.Lex<"  a">;
type R = T extends L.Token[] ? ParseTokens<T> : "no tokens";
const a: R extends [{ value: "  a" }] ? true : false = true;
''', files="main.ts"))
