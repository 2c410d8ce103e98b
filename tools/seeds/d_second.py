DFA_, LEX_, NFA_ = "src/lex/dfa.rs", "src/lex/lex.rs", "src/lex/nfa.rs"
GRAM = "src/parser/grammar.lalrpop"

bug("c01-empty-branch", "C01",
    "an alternation with an empty branch inside of a larger expression, as in (a|)b",
    "Empty branches of an alternation are left out of the automaton.",
    [(NFA_, """                    .map(|alt| self.compile(alt, f_idx))
                    .collect();
""", """                    .filter_map(|alt| match alt.kind() {
                        HirKind::Empty => None,
                        _ => Some(self.compile(alt, f_idx)),
                    })
                    .collect();
""")],
    r'''
fn main() {
    expect("(a|)b on b", nfa("(a|)b").simulate("b"), true);
}''')

bug("c02-subset-key", "C02",
    "two automaton states that stand for different sets with the same size, first and last element",
    "Sets of automaton states are told apart by size, first and last element only.",
    [(DFA_, """                let idx = match d_states.iter().enumerate().find(|(_, s)| *s == &u) {""",
      """                let key = |s: &BTreeSet<StateIdx>| {
                    (s.len(), s.iter().next().cloned(), s.iter().next_back().cloned())
                };
                let idx = match d_states.iter().enumerate().find(|(_, s)| key(s) == key(&u)) {""")],
    r'''
fn main() {
    // all words over a b to length 8 against a direct definition, for expressions of one shape
    for x in ["a", "b", "[ab]"] { for y in ["a", "b", "[ab]"] { for z in ["a", "b", "[ab]"] {
        let p = format!("([ab])*({}{}|{}{}|{}{}b)", x, y, y, z, z, x);
        let (n, d) = (nfa(&p), dfa(&p));
        for len in 0..8 { for bits in 0..1u32 << len {
            let w: String = (0..len).map(|i| if bits >> i & 1 == 1 { 'b' } else { 'a' }).collect();
            if n.simulate(&w) != d.test(&w) {
                fail(format!("{} on {}", p, w));
            }
        } }
    } } }
}''')

bug("c03-length-byte", "C03",
    "a token longer than 255 characters in front of another one",
    "The length of the accepted piece is kept in a byte.",
    [(LEX_, """                        lexeme_begin = last_accepting_idx + 1;
                        forward = last_accepting_idx + 1;""", """                        let len = (last_accepting_idx - lexeme_begin) as u8 as usize + 1;
                        lexeme_begin += len;
                        forward = lexeme_begin;""")],
    r'''
fn main() {
    let lex = lexer(&[("A", "a+"), ("B", "b")]);
    let long = "a".repeat(300);
    expect("300 a and b", lex.lex(&format!("{}b", long)), vec![tok("A", &long), tok("B", "b")]);
}''')

bug("c06-trailing-blanks", "C06",
    "an input that ends in a tab, a carriage return or another blank that no token matches",
    "The parser takes everything that is white space at the end of the input for read.",
    [(LALR, """    pub fn parse(&self, input: &str) -> String {
""", """    pub fn parse(&self, text: &str) -> String {
        let input = text.trim_end();
""")],
    r'''
fn main() {
    let g = "export start S: (1) = [\n \"a\" => (1)\n]";
    expect("a and a tab", accepts(g, "a\t"), Some(false));
}''')

bug("c08-underscore", "C08",
    "a name that begins with an underscore",
    "Names that begin with an underscore are refused.",
    [(GRAM, '''    r"[_A-Za-z][_A-Za-z0-9]*" =>''', '''    r"[A-Za-z][_A-Za-z0-9]*" =>''')],
    r'''
fn main() {
    let bump = bumpalo::Bump::new();
    let r = attempt(|| typelalr::parse_grammar(&bump, "export start _S: (1) = [\n \"a\" => (1)\n]").len());
    expect("grammar with _S", r, Some(1));
}''')

bug("c10-deep-chain", "C10",
    "a chain of more than eight nonterminals each of which begins with the next one",
    "Collecting a FIRST set gives up below a depth of eight nonterminals.",
    [(FIRST, """    for (_, production) in grammar.production_iter(*non_terminal) {""",
      """    let deep = visited.len() > 8;
    for (_, production) in grammar.production_iter(*non_terminal).filter(|_| !deep) {""")],
    r'''
fn main() {
    let mut g = String::from("export start S: (1) = [\n B A1 => (1)\n]\nB: (1) = [\n \"b\" => (1)\n]\n");
    for i in 1..12 {
        g += &format!("A{}: (1) = [\n A{} \"x\" => (1)\n]\n", i, i + 1);
    }
    g += "A12: (1) = [\n \"t\" => (1)\n]\n";
    expect("b t and eleven x", accepts(&g, &format!("bt{}", "x".repeat(11))), Some(true));
}''')

bug("c12-duplicate-alternative", "C12",
    "an alternative that is written twice in the same nonterminal",
    "A conflict between two rules that read alike is resolved silently, although the grammar is ambiguous.",
    [(TABLE, """                    Entry::Vacant(entry) => entry.insert(Action::Reduce(item.production_idx())),
                    Entry::Occupied(_) =>""", """                    Entry::Vacant(entry) => {
                        entry.insert(Action::Reduce(item.production_idx()));
                    }
                    Entry::Occupied(entry) if matches!(entry.get(), Action::Reduce(other) if {
                        let (a, b) = (grammar.get_production(*other), grammar.get_production(item.production_idx()));
                        a.map(|p| (p.name, &p.input_tokens)) == b.map(|p| (p.name, &p.input_tokens))
                    }) => (),
                    Entry::Occupied(_) =>""")],
    r'''
fn main() {
    let g = "export start S: (1) = [\n \"a\" => (1),\n \"b\" => (2),\n \"a\" => (3)\n]";
    expect("grammar with the same alternative twice", accepts(g, "b"), None);
}''')

bug("c13-empty-input", "C13",
    "an empty input, or one of blanks only",
    "An input without any token is accepted.",
    [(LALR, """        loop {
            loop_count""", """        while tokens.len() > 1 {
            loop_count""")],
    r'''
fn main() {
    let g = "export start S: (1) = [\n \"a\" => (1)\n]";
    expect("the empty input", accepts(g, ""), Some(false));
}''')

bug("c13-state-byte", "C13",
    "a grammar whose automaton has more than 256 states",
    "The state after a reduction is cut to a byte.",
    [(LALR, """                    stack.push(goto_ta as u32);
                    println!("  pushing""", """                    stack.push(goto_ta as u8 as u32);
                    println!("  pushing""")],
    r'''
fn main() {
    let mut g = String::from("export start S: (1) = [\n");
    for i in 0..150 {
        g += &format!(" \"k{:03}\" A \"e\" => (1),\n", i);
    }
    g += "]\nA: (1) = [\n \"x\" => (1)\n]\n";
    for i in 0..150 {
        expect("a sentence", accepts(&g, &format!("k{:03} x e", i)), Some(true));
        if i % 50 == 49 { continue; }
    }
}''')

bug("c14-same-length", "C14",
    "two alternatives of a nonterminal of equal length",
    "Alternatives of a nonterminal that are of equal length are reduced by the first of them: the same language, but another derivation.",
    [(TABLE, """                    Entry::Vacant(entry) => entry.insert(Action::Reduce(item.production_idx())),
""", """                    Entry::Vacant(entry) => {
                        let rule = grammar.get_production(item.production_idx()).unwrap();
                        let same = grammar.iter_productions().position(|p| {
                            p.name == rule.name
                                && p.input_tokens.len() > 3
                                && p.input_tokens.len() == rule.input_tokens.len()
                        });
                        entry.insert(Action::Reduce(
                            same.map_or(item.production_idx(), |i| ProductionIdx(i as u32)),
                        ))
                    }
""")],
    r'''
fn main() {
    let g = "export start S: (1) = [\n \"a\" \"b\" \"c\" \"d\" => (1),\n \"a\" \"b\" \"c\" \"e\" => (2)\n]";
    let bump = bumpalo::Bump::new();
    let ast = typelalr::parse_grammar(&bump, g);
    let grammar = typelalr::parser::Grammar::grammar_from_ast_productions(&bump, &ast);
    let (action, _, _) = typelalr::lalr::table::make_tables(&grammar);
    let text = format!("{:?}", action);
    expect("a reduction by the second rule", text.contains("Reduce(ProductionIdx(2))"), true);
}''')

bug("c15-conflict-message", "C15",
    "a grammar that has to be refused and whose start symbol is left recursive in its first alternative",
    "The message for a conflict shows the first words a sentence can begin with, found by following the first alternative of each nonterminal, which never ends for a left recursive one.",
    [(TABLE, """                    Entry::Occupied(_) => panic!("Conflict ({}, {:?})", i, lookahead),
                };
            }
        }
    }
""", """                    Entry::Occupied(_) => panic!(
                        "Conflict ({}, {:?}) in {}",
                        i,
                        lookahead,
                        example(grammar, &item.production(grammar).input_tokens[0])
                    ),
                };
            }
        }
    }
"""), (TABLE, """/// A "core" of an""", """/// The beginning of a text that can be derived from the symbol
fn example<'ast>(grammar: &Grammar<'ast>, symbol: &Symbol<'ast>) -> String {
    match symbol.as_non_terminal() {
        None => symbol.to_string(),
        Some(name) => {
            let rule = grammar.get_production_indices_by_name(*name).unwrap()[0];
            let symbols = &grammar.get_production(rule).unwrap().input_tokens;
            symbols.iter().map(|s| example(grammar, s)).collect::<Vec<_>>().join(" ")
        }
    }
}

/// A "core" of an""")],
    r'''
fn main() {
    let g = "export start E: (1) = [\n E \"+\" E => (1),\n \"a\" => (1)\n]";
    expect("ambiguous sums", accepts(g, "a"), None);
}''')

bug("c25-shared-memo", "C25",
    "two parsers for grammars with the same numbers of tokens and rules, both given the same input",
    "Whether an input was accepted is remembered per input and size of the grammar, over all parsers of the process.",
    [(LALR, """        let tokens_with_idx = self.lexer.convert_tokens(tokens);

        self.parse_impl(&tokens_with_idx)
    }
""", """        thread_local!(static SEEN: std::cell::RefCell<std::collections::HashSet<(String, usize, usize)>> = Default::default());
        let key = (input.to_string(), self.grammar.tokens().len(), self.action.len());
        if SEEN.with(|s| s.borrow().contains(&key)) {
            return String::new();
        }
        let tokens_with_idx = self.lexer.convert_tokens(tokens);
        let ret = self.parse_impl(&tokens_with_idx);
        SEEN.with(|s| s.borrow_mut().insert(key));
        ret
    }
""")],
    r'''
fn main() {
    let g = |a: &str, b: &str| format!("export start S: (1) = [\n \"{}\" \"{}\" => (1)\n]", a, b);
    expect("a b, first parser", accepts(&g("a", "b"), "a b"), Some(true));
    expect("a b, second parser", accepts(&g("b", "a"), "a b"), Some(false));
}''')

bug("c26-long-names", "C26",
    "two nonterminals whose names agree in their first sixteen characters and in their length",
    "Names are ordered by length and their first sixteen characters, so the maps keyed by them take two such nonterminals for one.",
    [("src/parser/ast.rs", """#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Ident<'ast>(pub &'ast str);
""", """#[derive(Copy, Clone, Debug, Eq)]
pub struct Ident<'ast>(pub &'ast str);

impl<'ast> Ident<'ast> {
    fn key(&self) -> (usize, &'ast [u8]) {
        (self.0.len(), &self.0.as_bytes()[..self.0.len().min(16)])
    }
}

impl<'ast> PartialEq for Ident<'ast> {
    fn eq(&self, other: &Self) -> bool {
        self.key() == other.key()
    }
}

impl<'ast> PartialOrd for Ident<'ast> {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}

impl<'ast> Ord for Ident<'ast> {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        self.key().cmp(&other.key())
    }
}
""")],
    r'''
fn main() {
    let g = |a: &str, b: &str| format!("export start S: (1) = [\n {} {} => (1)\n]\n{}: (1) = [\n \"x\" => (1)\n]\n{}: (1) = [\n \"y\" => (1)\n]\n", a, b, a, b);
    expect("short names", accepts(&g("A", "B"), "x y"), Some(true));
    expect("long names", accepts(&g("ParenthesizedExpressionA", "ParenthesizedExpressionB"), "y x"), Some(false));
}''')

bug("c17-sparse-rules", "C17",
    "a grammar with more than 99 rules or tokens",
    "Rules are listed in the order of their printed numbers with two digits, the hundredth takes the number of the tenth.",
    [(PGEN, """                for token in &production.input_tokens {
                    let idx = self
                        .grammar
                        .get_token_idx(token)
                        .expect("Should have token idx");
                    write!(w, "{},", idx.0)?;""", """                for token in &production.input_tokens {
                    let idx = self
                        .grammar
                        .get_token_idx(token)
                        .expect("Should have token idx");
                    write!(w, "{:.2},", &idx.0.to_string())?;""")],
    r'''
fn main() {
    let mut g = String::from("export start S: (1) = [\n");
    for i in 0..120 {
        g += &format!(" \"k{:03}\" => (1),\n", i);
    }
    g += "]\n";
    let (_, parse) = modules(&g);
    let rules = parse.split("Productions = {").nth(1).unwrap().split("Action = {").next().unwrap().to_string();
    expect("a rule with token 110", rules.contains("[110,]"), true);
}''')

bug("c19-invalid-later", "C19",
    "an unsupported character that is not the first one of the input",
    "What comes before an unsupported character is lexed and the rest dropped instead of an error.",
    [(TLEX, """    : `invalid char: ${char}`
  : U.Reverse<ret>;""", """    : ret extends [] ? `invalid char: ${char}` : U.Reverse<ret>
  : U.Reverse<ret>;""")],
    r'''
fn main() {
    emit("export start S: (1) = [\n \"a\" => (1)\n]\n");
}''', ts=("^main", SAME + '''
import { Lex } from "./lex";
type T = Lex<"a\u4e00">;
const t: Same<T extends string ? "error" : T, "error"> = true;
'''))

bug("c20-shadowed-error", "C20",
    "a sentence with a token the grammar knows but that is invalid where it stands as the last one before the end",
    "An invalid token right before the end of the input is skipped.",
    [(TPARSE, """      : [`error: invalid token ${a}`, symbolStack]""", """      : U.Lt<U.Succ<U.Succ<i>>, input["length"]> extends true
      ? [`error: invalid token ${a} at ${i}`, symbolStack]
      : U.Lt<U.Succ<i>, input["length"]> extends true
      ? ParseImpl<tokenInputs, input, stack, U.Succ<i>, input[U.Succ<i>], symbolStack, U.Pred<maxRecursionDepth>>
      : [`error: invalid token ${a} at ${i}`, symbolStack]""")],
    r'''
fn main() {
    emit("export start S: (1) = [\n \"a\" \"b\" => (1)\n]\n");
}''', ts=("^main", SAME + '''
import { Lex } from "./lex";
import { ParseTokens } from "./parse";
type T = ParseTokens<Extract<Lex<"aba">, any[]>>;
const t: Same<T extends [{ kind: "S"; value: 1 }, ...any[]] ? "value" : "error", "error"> = true;
'''))

bug("c23-address-order", "C23",
    "texts generated one after the other in the same arena or process, so that names lie in another order in memory",
    "The result types are listed in the order in which their names lie in memory.",
    [(PGEN, """            for (_, symbol_variant) in &self.symbol_variants {""", """            let mut variants: Vec<_> = self.symbol_variants.iter().collect();
            variants.sort_by_key(|(name, _)| name.as_ptr() as usize);
            for (_, symbol_variant) in variants {""")],
    r'''
fn main() {
    let g: String = (0..40).map(|i| format!("{}A{}: (1) = [\n \"x\" A{} => (1),\n \"y{}\" => (1)\n]\n", if i == 0 { "export start " } else { "" }, i, (i + 1) % 40, i)).collect();
    let first = modules(&g);
    for n in 0..200 {
        let bump = bumpalo::Bump::with_capacity(n * 37);
        let ast = typelalr::parse_grammar(&bump, &g);
        let lalr = typelalr::lalr::Lalr::new(typelalr::parser::Grammar::grammar_from_ast_productions(&bump, &ast));
        if typelalr::codegen::parse_gen::generate(&bump, &ast, &lalr).unwrap() != first {
            fail("the modules differ between two runs".into());
        }
    }
}''')

bug("c04-three-way", "C04",
    "five definitions that match the same text",
    "Of five or more definitions that match, the second is taken.",
    [(LEX_, """                        last_accepting_state = Some((forward, *nfa_set.first().unwrap()));""",
      """                        last_accepting_state = Some((forward, nfa_set[nfa_set.len() / 5]));""")],
    r'''
fn main() {
    let lex = lexer(&[("A", "ab"), ("B", "[ac]b"), ("C", "[ad][be]"), ("D", "[af]b"), ("E", "a[bg]")]);
    expect("ab", lex.lex("ab"), vec![tok("A", "ab")]);
}''')

bug("c24-default-action", "C24",
    "a token after a sentence that is complete and cannot be continued",
    "Where nothing but a single reduction or accepting is possible it is entered for every token, so that what follows a sentence is not looked at.",
    [(TABLE, """    (action, goto)
}
""", """    (with_defaults(action, grammar), goto)
}

// No need to look at the token where there is nothing else to do
fn with_defaults<'ast>(mut action: ActionTable, grammar: &Grammar<'ast>) -> ActionTable {
    for row in action.0.values_mut() {
        let only = *row.values().next().unwrap();
        if row.len() == 1 && !matches!(only, Action::Shift(_)) {
            for (i, symbol) in grammar.tokens().enumerate() {
                if symbol.is_terminal() {
                    row.insert(TokenIdx(i as u32), only);
                }
            }
        }
    }
    action
}
""")],
    r'''
fn main() {
    let g = "export start S: (1) = [\n \"a\" \"b\" => (1)\n]";
    expect("a b a", accepts(g, "a b a"), Some(false));
}''')

