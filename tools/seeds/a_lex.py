NFA, DFA, LEX, MOD = "src/lex/nfa.rs", "src/lex/dfa.rs", "src/lex/lex.rs", "src/parser/mod.rs"

bug("c01-loop-nullable", "C01",
    "a + or * whose body can match the empty string and also something, repeated twice in the input, as (a?)+ on aa",
    "The loop edge of + and * is left out when the body can be empty, to avoid a cycle of epsilon edges, so (a?)+ no longer matches aa.",
    [(NFA, """                        RepetitionKind::OneOrMore | RepetitionKind::ZeroOrMore
                    ) {
                        self.push_edge(s_out""", """                        RepetitionKind::OneOrMore | RepetitionKind::ZeroOrMore
                    ) && s_in != s_out
                        && !rep.hir.is_match_empty()
                    {
                        // an empty body would only add a cycle of epsilon edges
                        self.push_edge(s_out""")],
    r'''
fn main() {
    expect("(a?)+ on aa", dfa("(a?)+").test("aa"), true);
    expect("(a?b?)* on abab (NFA)", nfa("(a?b?)*").simulate("abab"), true);
}''')

bug("c01-astral-class", "C01",
    "a class whose range goes beyond U+FFFF and an input with such a character",
    "The end of a class range is clamped to the basic plane, so characters above it no longer match.",
    [(NFA, """                        .map(|range| Match {
                            range: range.start() as u32..(range.end() as u32 + 1),
                        })
                        .collect(),
                    Class::Bytes""", """                        .map(|range| Match {
                            range: range.start() as u32..(range.end() as u32 + 1).min(0x1_0000),
                        })
                        .collect(),
                    Class::Bytes""")],
    r'''
fn main() {
    expect("[^a] on U+1F600", nfa("[^a]").simulate("\u{1F600}"), true);
    expect(". on U+10FFFF", dfa(".").test("\u{10FFFF}"), true);
}''')

bug("c02-same-start", "C02",
    "two ranges that begin with the same character and differ in their end",
    "Ranges are ordered by their first character alone, so the set the alphabet is built from keeps only one of two that share it.",
    [(NFA, """            std::cmp::Ordering::Equal => self.range.end.cmp(&other.range.end),""", """            std::cmp::Ordering::Equal => std::cmp::Ordering::Equal,""")],
    r'''
fn main() {
    expect("[a-c][a-z] on az", dfa("[a-c][a-z]").test("az"), true);
    expect("[a-z][a-c] on za", dfa("[a-z][a-c]").test("za"), true);
}''')

bug("c03-no-backtrack", "C03",
    "a token that can be continued to a longer one, in an input where the continuation breaks off after two characters (a and abcd on abce)",
    "The scanner forgets the last accepting position when it has read more than one character beyond it.",
    [(LEX, """                    state_idx = edge.to;
                    forward += 1;
                }""", """                    forward += 1;
                    if matches!(last_accepting_state, Some((at, _)) if forward - at > 2) {
                        // too far back to be the token
                        last_accepting_state = None;
                    }
                    state_idx = edge.to;
                }""")],
    r'''
fn main() {
    let l = lexer(&[("a", "a"), ("abcd", "abcd"), ("b", "b"), ("c", "c"), ("e", "e")]);
    expect("tokens of abce", l.lex("abce"), vec![tok("a", "a"), tok("b", "b"), tok("c", "c"), tok("e", "e")]);
}''')

bug("c04-shorter-definition-first", "C04",
    "a literal longer than the source of a pattern that matches the same text",
    "The scanner is built from the token definitions in order of their length, so a short pattern wins over a long keyword.",
    [(LEX, """        Self::from_tokens(tokens)
    }

    pub fn from_tokens""", """        // the more specific ones first
        tokens.sort_by_key(|(def, _)| def.name.len());
        Self::from_tokens(tokens)
    }

    pub fn from_tokens"""), (LEX, "            let token_def_with_regex = match tok.to_token_def_with_regex(TokenIdx(idx as u32)) {\n                Some(t) => t,\n                None => continue,\n            };\n\n            tokens.push(token_def_with_regex);", "            if let Some(t) = tok.to_token_def_with_regex(TokenIdx(idx as u32)) {\n                tokens.push(t);\n            }")],
    r'''
fn main() {
    let g = "export start S: (1) = [\n\"while\" => (1),\n r\"[a-z]+\" r\"[a-z]+\" => (1)\n]";
    let g2 = "export start S: (1) = [\n\"function\" r\"[a-z]+\" => (1)\n]";
    expect("while", accepts(g, "while"), Some(true));
    expect("function f", accepts(g2, "function f"), Some(true));
}''')

bug("c04-pattern-before-literal", "C04",
    "a grammar with a keyword literal and a pattern that matches the same text",
    "The variants of Symbol are reordered, and with the derived order the list the scanner is built from has the patterns before the literals.",
    [(MOD, """pub enum Symbol<'ast> {
    StrLit(&'ast str),
    NonTerminal(Ident<'ast>),
    Regex(&'ast str),
    Epsilon,""", """pub enum Symbol<'ast> {
    NonTerminal(Ident<'ast>),
    Regex(&'ast str),
    StrLit(&'ast str),
    Epsilon,""")],
    r'''
fn main() {
    let g = "export start S: (1) = [\n\"if\" r\"[a-z]+\" => (1)\n]";
    expect("if x", accepts(g, "if x"), Some(true));
}''')

bug("c05-trimmed-value", "C05",
    "a token that may begin or end with a blank",
    "The value of a token is trimmed.",
    [(LEX, """            val: Some(Box::new(val.into())),
        }
    }
}

#[derive(Debug, Clone)]
pub struct Lex""", """            val: Some(Box::new(val.into().trim_end().to_string())),
        }
    }
}

#[derive(Debug, Clone)]
pub struct Lex""")],
    r'''
fn main() {
    let l = lexer(&[("w", "[a-z]+ *")]);
    let text = format!("{:?}", l.lex("ab  "));
    expect("value with blanks", text.contains("\"ab  \""), true);
}''')

bug("c06-tab-is-blank", "C06",
    "a tab or a carriage return between two tokens",
    "Tabs and carriage returns are skipped like blanks although only spaces and newlines may be dropped.",
    [(LEX, """            '\\n' | ' ' => true,""", """            '\\n' | '\\r' | '\\t' | ' ' => true,""")],
    r'''
fn main() {
    let l = lexer(&[("a", "a")]);
    expect("tokens before the tab", l.lex("a\ta"), vec![tok("a", "a")]);
    expect("verdict", accepts("export start S: (1) = [\n\"a\" \"b\" => (1)\n]", "a\tb"), Some(false));
}''')

bug("c06-astral-blank", "C06",
    "the ideographic space or another blank of Unicode between tokens",
    "Every character that Unicode calls white space is skipped, except those below U+0080 other than space and newline.",
    [(LEX, """            '\\n' | ' ' => true,
            _ => false,""", """            '\\n' | ' ' => true,
            _ => !c.is_ascii() && c.is_whitespace(),""")],
    r'''
fn main() {
    expect("verdict", accepts("export start S: (1) = [\n\"a\" \"b\" => (1)\n]", "a\u{3000}b"), Some(false));
}''')

bug("c07-blank-in-literal", "C07",
    "a string literal with a blank in it",
    "Literals are compiled with the flag that ignores blanks in patterns.",
    [(MOD, "RegexParser::new().parse(&regex::escape(str_lit)).unwrap(),",
      "RegexParserBuilder::new()\n                    .ignore_whitespace(true)\n                    .build()\n                    .parse(&regex::escape(str_lit))\n                    .unwrap(),"),
     (MOD, "use regex_syntax::Parser as RegexParser;", "use regex_syntax::{Parser as RegexParser, ParserBuilder as RegexParserBuilder};")],
    r'''
fn main() {
    let g = "export start S: (1) = [\n\"a b\" => (1)\n]";
    expect("a b", accepts(g, "a b"), Some(true));
    expect("ab", accepts(g, "ab"), Some(false));
}''')

bug("c07-case-folded-literal", "C07",
    "a literal with a letter outside of ASCII, and the same text in the other case",
    "Literals that are not plain ASCII are compiled without regard to case.",
    [(MOD, "RegexParser::new().parse(&regex::escape(str_lit)).unwrap(),",
      "regex_syntax::ParserBuilder::new()\n                    .case_insensitive(!str_lit.is_ascii())\n                    .build()\n                    .parse(&regex::escape(str_lit))\n                    .unwrap(),")],
    r'''
fn main() {
    let g = "export start S: (1) = [\n\"\u{e9}\" => (1)\n]";
    expect("e acute", accepts(g, "\u{e9}"), Some(true));
    expect("E acute", accepts(g, "\u{c9}"), Some(false));
}''')
