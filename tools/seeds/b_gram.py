SUP, GRM = "src/parser/support.rs", "src/parser/grammar.lalrpop"
ITEM, TABLE, FIRST, LALR = "src/lalr/item.rs", "src/lalr/table.rs", "src/lalr/first.rs", "src/lalr.rs"

bug("c08-one-char-pattern", "C08",
    "a pattern of a single character",
    "The guard for empty patterns is off by one and turns a pattern of one character into the empty one.",
    [(SUP, "if regex_str_with_quotes.len() < 3 {", "if regex_str_with_quotes.len() <= 3 {")],
    r'''
fn main() {
    let g = "export start S: (1) = [\n r\"a\" => (1)\n]";
    let bump = bumpalo::Bump::new();
    let ast = typelalr::parse_grammar(&bump, g);
    let text = format!("{:?}", ast[0].bodies[0].input_tokens[0]);
    expect("pattern a is kept", text.contains("\"a\""), true);
}''')

bug("c08-trimmed-action", "C08",
    "an action or a result type with parentheses of its own directly inside of the outer ones",
    "All the parentheses around an action are dropped instead of the outermost pair.",
    [(SUP, """        self.ast.alloc(
            ts_code_with_paren
                .chars()
                .skip(1)
                .take(ts_code_with_paren.chars().count() - 2)
                .collect::<String>(),
        )""", """        self.ast.alloc(
            ts_code_with_paren
                .trim_start_matches('(')
                .strip_suffix(')')
                .unwrap_or_default()
                .to_string(),
        )""")],
    r'''
fn main() {
    let g = "export start S: ((1 | 2)[]) = [\n \"a\" => ([])\n]";
    let bump = bumpalo::Bump::new();
    let ast = typelalr::parse_grammar(&bump, g);
    expect("result type", ast[0].ts_code, "(1 | 2)[]");
}''')

bug("c09-index-by-text", "C09",
    "a literal (or a pattern) and a nonterminal spelled alike",
    "The index of a symbol is looked up by its text, so a literal, a nonterminal and a pattern with the same text share one.",
    [(MOD, """            if tok.eq(input_token) {""", """            if tok.to_string() == input_token.to_string() {""")],
    r'''
use typelalr::parser::{Grammar, Symbol, ast::Ident};
fn main() {
    let g = "export start S: (1) = [\n \"A\" A => (1)\n]\nA: (1) = [\n \"b\" => (1)\n]";
    let bump = bumpalo::Bump::new();
    let ast = typelalr::parse_grammar(&bump, g);
    let grammar = Grammar::grammar_from_ast_productions(&bump, &ast);
    let name = ast[1].name;
    let _: Ident = name;
    let lit = grammar.get_token_idx(&Symbol::StrLit("A")).unwrap();
    let non = grammar.get_token_idx(&Symbol::NonTerminal(name)).unwrap();
    expect("literal A and nonterminal A share an index", lit == non, false);
}''')

bug("c09-split-blocks", "C09",
    "a nonterminal defined in two blocks with another one in between",
    "The rules of a nonterminal are kept as the range from its first to its last rule, which takes in those of other nonterminals in between.",
    [(MOD, """                    Entry::Occupied(mut entry) => {
                        entry.get_mut().push(production_idx);
                    }""", """                    Entry::Occupied(mut entry) => {
                        // the rules of a nonterminal follow one another
                        let indices = entry.get_mut();
                        let next = indices[indices.len() - 1].0 + 1;
                        indices.extend((next..=production_idx.0).map(ProductionIdx));
                    }""")],
    r'''
use typelalr::parser::Grammar;
fn main() {
    let g = "export start S: (1) = [\n \"a\" T => (1)\n]\nT: (1) = [\n \"b\" => (1)\n]\nS: (1) = [\n \"c\" => (1)\n]";
    let bump = bumpalo::Bump::new();
    let ast = typelalr::parse_grammar(&bump, g);
    let grammar = Grammar::grammar_from_ast_productions(&bump, &ast);
    let rules: Vec<u32> = grammar.get_production_indices_by_name(ast[0].name).unwrap().iter().map(|p| p.0).collect();
    expect("rules of S", rules, vec![1, 3]);
}''')

bug("c10-stop-at-known-terminal", "C10",
    "a nonterminal with an alternative that begins with a terminal already in the set, before one that begins with a new terminal",
    "Collecting the FIRST set of a nonterminal stops at the first alternative whose first symbol is in the set already.",
    [(FIRST, """    for (_, production) in grammar.production_iter(*non_terminal) {
""", """    let mut alternatives = grammar.production_iter(*non_terminal);
    while let Some((_, production)) = alternatives.next() {
        // been here before
        if set.contains(&production.input_tokens[0]) {
            break;
        }
""")],
    r'''
use typelalr::parser::{Grammar, Symbol};
fn main() {
    let g = "export start S: (1) = [\n T U => (1)\n]\nT: (1) = [\n U => (1),\n \"b\" => (1),\n \"c\" => (1)\n]\nU: (1) = [\n \"b\" => (1)\n]";
    let bump = bumpalo::Bump::new();
    let ast = typelalr::parse_grammar(&bump, g);
    let grammar = Grammar::grammar_from_ast_productions(&bump, &ast);
    let syms = [Symbol::NonTerminal(ast[1].name)];
    // leaked so that the borrows live long enough
    let grammar: &'static Grammar<'static> = unsafe { std::mem::transmute(&grammar) };
    let syms: &'static [Symbol<'static>] = unsafe { std::mem::transmute(&syms[..]) };
    let set: Vec<String> = typelalr::lalr::first::first(grammar, syms.iter()).into_iter().map(|s| s.to_string()).collect();
    expect("FIRST(T)", set, vec!["b".to_string(), "c".to_string()]);
}''')

bug("c10-self-recursion-aborts", "C10",
    "a nonterminal whose alternatives other than the first are left recursive, followed by further alternatives",
    "Collecting the FIRST set of a nonterminal ends at its first left recursive alternative.",
    [(FIRST, """    for (_, production) in grammar.production_iter(*non_terminal) {
""", """    // a left recursive alternative adds nothing
    let alternatives = grammar
        .production_iter(*non_terminal)
        .take_while(|(_, p)| p.input_tokens.first() != Some(symbol));
    for (_, production) in alternatives {
""")],
    r'''
fn main() {
    let g = "export start S: (1) = [\n T U \"c\" => (1),\n T \"d\" => (1)\n]\nT: (1) = [\n \"x\" => (1)\n]\nU: (1) = [\n U \"a\" => (1),\n \"b\" => (1)\n]";
    expect("x b a c", accepts(g, "x b a c"), Some(true));
    expect("x d", accepts(g, "x d"), Some(true));
}''')

bug("c11-closure-misses-lookahead", "C11",
    "an item that gets another lookahead in a later round of the closure, which has to be passed on to further items",
    "The closure ends when no item was added, although lookaheads added in that round still have to be propagated.",
    [(ITEM, """                    Entry::Occupied(mut entry) => {
                        if entry.get_mut().insert(*token_idx) {
                            added = true;
                        }
                    }""", """                    Entry::Occupied(mut entry) => {
                        entry.get_mut().insert(*token_idx);
                    }""")],
    r'''
fn main() {
    let g = "export start S: (1) = [\n A => (1)\n]\nA: (1) = [\n B => (1),\n \"a\" => (1)\n]\nB: (1) = [\n A \"x\" => (1)\n]";
    expect("a x", accepts(g, "a x"), Some(true));
    expect("a x x", accepts(g, "a x x"), Some(true));
}''')

bug("c11-merge-by-last-item", "C11",
    "two states of which one has the lookaheads that the other one lacks, merged from three or more LR(1) states",
    "When three or more states with the same core are merged, only the first and the last contribute their lookaheads.",
    [(TABLE, """        item_set.union(other);
    }""", """        if *i == indices[1] || *i == indices[indices.len() - 1] {
            item_set.union(other);
        }
    }""")],
    r'''
fn main() {
    // the state after "c" is reached in four contexts, each with its own lookahead
    let g = "export start S: (1) = [\n \"p\" C \"1\" => (1),\n \"q\" C \"2\" => (1),\n \"r\" C \"3\" => (1),\n \"s\" C \"4\" => (1)\n]\nC: (1) = [\n \"c\" => (1)\n]";
    for s in ["p c 1", "q c 2", "r c 3", "s c 4"] {
        expect(s, accepts(g, s), Some(true));
    }
}''')

bug("c12-accept-reduce", "C12",
    "a cyclic start symbol, where accepting and reducing compete at the end of input",
    "A conflict between accepting and a reduction is resolved silently in favour of accepting.",
    [(TABLE, """                    Entry::Vacant(entry) => entry.insert(Action::Reduce(item.production_idx())),
                    Entry::Occupied(_) => panic!("Conflict ({}, {:?})", i, lookahead),
                };""", """                    Entry::Vacant(entry) => {
                        entry.insert(Action::Reduce(item.production_idx()));
                    }
                    // the input has been read
                    Entry::Occupied(entry) if *entry.get() == Action::Accept => (),
                    Entry::Occupied(_) => panic!("Conflict ({}, {:?})", i, lookahead),
                };""")],
    r'''
fn main() {
    expect("S -> S | a is ambiguous", accepts("export start S: (1) = [\n S => (1),\n \"a\" => (1)\n]", "a"), None);
}''')

bug("c12-longest-rule-wins", "C12",
    "a reduce/reduce conflict between rules of the same nonterminal",
    "A conflict between two rules of the same nonterminal is resolved silently in favour of the earlier one.",
    [(TABLE, """                    Entry::Vacant(entry) => entry.insert(Action::Reduce(item.production_idx())),
                    Entry::Occupied(_) => panic!("Conflict ({}, {:?})", i, lookahead),
                };""", """                    Entry::Vacant(entry) => {
                        entry.insert(Action::Reduce(item.production_idx()));
                    }
                    Entry::Occupied(entry) => match entry.get() {
                        // both yield the same nonterminal
                        Action::Reduce(other)
                            if grammar.get_production(*other).unwrap().name
                                == item.production(grammar).name => {}
                        _ => panic!("Conflict ({}, {:?})", i, lookahead),
                    },
                };""")],
    r'''
fn main() {
    expect("the same alternative twice", accepts("export start S: (1) = [\n \"a\" => (1),\n \"a\" => (2)\n]", "a"), None);
}''')

bug("c13-eof-between-tokens", "C13",
    "an input whose token text is EOF while a literal EOF is in the grammar",
    "Token indices are looked up in a map that ends with the end-of-input entry, so a literal spelled EOF counts as the end of input.",
    [(LEX, """                map.insert(def.name.as_str(), def);
                map
            });""", """                map.insert(def.name.as_str(), def);
                map
            });
        // nothing of the input counts after its end
        let tokens = tokens.into_iter().take_while(|t| t.name != "EOF");"""),
     (LEX, """        tokens
            .into_iter()
            .map(|token| self.token_with_idx""", """        tokens
            .map(|token| self.token_with_idx""")],
    r'''
fn main() {
    let g = "export start S: (1) = [\n \"a\" => (1),\n \"a\" \"EOF\" \"b\" => (2)\n]";
    expect("a EOF b", accepts(g, "a EOF b"), Some(true));
    expect("a EOF", accepts(g, "a EOF"), Some(false));
}''')

bug("c13-long-alternative", "C13",
    "an alternative with at least two symbols more than the grammar has rules",
    "Items whose dot is beyond the number of rules (a mix-up of rules and positions) are not advanced.",
    [(ITEM, """            if input_token != x {
                continue;
            }
""", """            if input_token != x || item.dot() as usize > grammar.iter_productions().len() {
                continue;
            }
""")],
    r'''
fn main() {
    let g = "export start S: (1) = [\n \"a\" \"a\" \"a\" \"a\" \"b\" => (1)\n]";
    expect("a a a a b", accepts(g, "a a a a b"), Some(true));
}''')

bug("c14-unit-rules-skipped", "C14",
    "a nonterminal that derives another one by a rule of its own, A -> B, where nothing else can happen after B",
    "Gotos into a state that can only reduce a unit rule are redirected to where the parser would be after that reduction, so the rule is left out of the derivation.",
    [(TABLE, """    (action, goto)
}

/// A \"core\" of""", """    // no need to visit a state that only renames a nonterminal
    for (i, set) in lalr_sets.iter().enumerate() {
        for (_, name) in grammar.non_terminals() {
            while let Some(j) = goto.try_index((i as u32, *name)).copied() {
                let mut items = lalr_sets[j].iter().map(|(item, _)| item.production(grammar));
                let unit = match (items.next(), items.next()) {
                    (Some(rule), None) if rule.input_tokens == [Symbol::NonTerminal(*name)] => rule,
                    _ => break,
                };
                match goto.try_index((i as u32, unit.name)).copied() {
                    Some(next) if set.iter().len() < 12 => goto.insert((i as u32, *name), next),
                    _ => break,
                };
            }
        }
    }

    let tables = (action, goto);
    tables
}

/// A \"core\" of""")],
    r'''
fn main() {
    // driven through the generated tables: state 0 must go to the state of A -> B. on B
    let g = "export start S: (1) = [\n A => (1)\n]\nA: (1) = [\n B \"x\" => (1),\n C => (1)\n]\nB: (1) = [\n \"b\" => (1)\n]\nC: (1) = [\n \"c\" => (1)\n]";
    let bump = bumpalo::Bump::new();
    let ast = typelalr::parse_grammar(&bump, g);
    let grammar = typelalr::parser::Grammar::grammar_from_ast_productions(&bump, &ast);
    let (action, goto, _) = typelalr::lalr::table::make_tables(&grammar);
    use typelalr::{lalr::table::Action, parser::Symbol};
    let input = [Symbol::StrLit("c"), Symbol::Eof];
    let (mut stack, mut at, mut rules) = (vec![0u32], 0, vec![]);
    loop {
        let t = grammar.get_token_idx(&input[at]).unwrap();
        match action.try_index((*stack.last().unwrap(), t)) {
            Some(Action::Shift(s)) => { stack.push(*s); at += 1 }
            Some(Action::Reduce(p)) => {
                rules.push(p.0);
                let rule = grammar.get_production(*p).unwrap();
                stack.truncate(stack.len() - rule.input_tokens.len());
                let to = *goto.try_index((*stack.last().unwrap(), rule.name)).unwrap();
                stack.push(to as u32);
            }
            Some(Action::Accept) => break,
            None => fail("c is rejected".into()),
        }
    }
    expect("rules applied for c", rules, vec![5, 3, 1]);
}''')

bug("c15-nested-star", "C15",
    "a repetition directly inside of a repetition, as in (a*)*",
    "The epsilon closure does not look whether a state has been visited, so a cycle of epsilon edges is followed forever.",
    [(NFA, """                    None => {
                        if ret.contains(&edge.to) {
                            continue;
                        }
                        stack.push(edge.to);
                    }""", """                    // the start states of a token have no epsilon edges back to them
                    None => stack.push(edge.to),""")],
    r'''
fn main() {
    expect("(a*)*", dfa("(a*)*b").test("aab"), true);
}''')

bug("c15-skip-invalid-token", "C15",
    "an input that ends where the parser needs another token",
    "An invalid token is skipped when the state has no reduction, at the end of input this never ends.",
    [(LALR, """                None => panic!(
                    "Invalid token""", """                // skip what cannot be used at all
                None if loop_count > 64 && self.action.valid(s).map_or(false, |mut v| v.all(|t| t.0 != 0)) => {
                    next_token(&mut a, &mut a_idx, &mut i, tokens);
                }
                _ => panic!(
                    "Invalid token""")],
    r'''
fn main() {
    let g = "export start S: (1) = [\n \"a\" S => (1),\n \"b\" => (1)\n]";
    let bump = bumpalo::Bump::new();
    let ast = typelalr::parse_grammar(&bump, g);
    let lalr = typelalr::lalr::Lalr::new(typelalr::parser::Grammar::grammar_from_ast_productions(&bump, &ast));
    let input = "a ".repeat(70);
    expect("70 times a", attempt(|| lalr.parse(&input)).is_some(), false);
}''')
