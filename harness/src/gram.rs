//! Reference representation of grammars: construction, printing in the notation, enumeration.
use crate::re::*;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Sym {
    N(usize),
    T(usize),
}

#[derive(Clone, Debug)]
pub struct Term {
    /// literal text, or the pattern as written between the quotes
    pub text: String,
    pub is_lit: bool,
    pub re: Re,
}

#[derive(Clone, Debug)]
pub struct Prod {
    pub lhs: usize,
    pub rhs: Vec<Sym>,
    pub names: Vec<Option<String>>,
    pub action: String,
}

#[derive(Clone, Debug)]
pub struct G {
    pub nts: Vec<String>,
    pub types: Vec<String>,
    pub terms: Vec<Term>,
    /// grouped by `lhs`, in the order of `nts`; in any other order the text has several blocks of a
    /// nonterminal
    pub prods: Vec<Prod>,
    pub start: usize,
}

pub fn quote(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
}

/// A pattern as it has to be written between the quotes of the notation
pub fn pattern_source(p: &str) -> String {
    let mut o = String::new();
    let mut esc = false;
    for c in p.chars() {
        if c == '"' && !esc {
            o.push('\\');
        }
        esc = c == '\\' && !esc;
        o.push(c);
    }
    o
}

impl Term {
    pub fn lit(s: &str) -> Term {
        Term { text: s.to_string(), is_lit: true, re: text(s) }
    }
    pub fn pat(re: Re) -> Term {
        Term { text: pattern_source(&re.pat()), is_lit: false, re }
    }
    pub fn write(&self) -> String {
        if self.is_lit {
            quote(&self.text)
        } else {
            format!("r\"{}\"", self.text)
        }
    }
}

impl G {
    pub fn new(nts: Vec<String>, terms: Vec<Term>, prods: Vec<(usize, Vec<Sym>)>, start: usize) -> G {
        let types = nts.iter().map(|_| "any".to_string()).collect();
        let prods = prods.into_iter().map(|(lhs, rhs)| Prod { lhs, names: rhs.iter().map(|_| None).collect(), rhs, action: "null".into() }).collect();
        G { nts, types, terms, prods, start }
    }

    /// `S -> A 'lit' /pat/ | ... ; A -> ...`, the first left-hand side is the start symbol
    pub fn dsl(t: &str, pats: &[(&str, Re)]) -> G {
        let mut nts: Vec<String> = vec![];
        for blk in t.split(" ; ") {
            nts.push(blk.split("->").next().unwrap().trim().to_string());
        }
        let mut terms: Vec<Term> = vec![];
        let mut prods = vec![];
        for (lhs, blk) in t.split(" ; ").enumerate() {
            let body = blk.splitn(2, "->").nth(1).unwrap();
            for a in body.split(" | ") {
                let mut rhs = vec![];
                for w in a.split_whitespace() {
                    let term = if let Some(x) = w.strip_prefix('\'') {
                        Term::lit(x.strip_suffix('\'').unwrap())
                    } else if w.starts_with('/') {
                        let n = &w[1..w.len() - 1];
                        Term::pat(pats.iter().find(|(k, _)| *k == n).unwrap_or_else(|| panic!("pattern {}", n)).1.clone())
                    } else {
                        rhs.push(Sym::N(nts.iter().position(|n| n == w).unwrap_or_else(|| panic!("nonterminal {} in {}", w, t))));
                        continue;
                    };
                    let i = match terms.iter().position(|x| x.is_lit == term.is_lit && x.text == term.text) {
                        Some(i) => i,
                        None => {
                            terms.push(term);
                            terms.len() - 1
                        }
                    };
                    rhs.push(Sym::T(i));
                }
                prods.push((lhs, rhs));
            }
        }
        G::new(nts, terms, prods, 0)
    }

    pub fn sym_text(&self, s: Sym) -> String {
        match s {
            Sym::N(n) => self.nts[n].clone(),
            Sym::T(t) => self.terms[t].write(),
        }
    }

    pub fn body_text(&self, p: &Prod) -> String {
        p.rhs
            .iter()
            .zip(&p.names)
            .map(|(s, n)| match n {
                Some(n) => format!("<{}: {}>", n, self.sym_text(*s)),
                None => self.sym_text(*s),
            })
            .collect::<Vec<_>>()
            .join(" ")
    }

    pub fn block_text(&self, n: usize) -> String {
        let mut o = format!("export {}{}: ({}) = [\n", if n == self.start { "start " } else { "" }, self.nts[n], self.types[n]);
        for p in self.prods.iter().filter(|p| p.lhs == n) {
            o.push_str(&format!("    {} => ({}),\n", self.body_text(p), p.action));
        }
        o.push_str("]\n");
        o
    }

    pub fn to_text(&self) -> String {
        if self.prods.windows(2).any(|w| w[0].lhs > w[1].lhs) {
            let none: String = (0..self.nts.len()).filter(|n| self.prods.iter().all(|p| p.lhs != *n)).map(|n| self.block_text(n)).collect();
            return self.rules_text(&(0..self.prods.len()).collect::<Vec<_>>(), (self.prods.len() % 3) as u8) + &none;
        }
        (0..self.nts.len()).map(|n| self.block_text(n)).collect::<Vec<_>>().join("\n")
    }

    /// The rules in the order given; neighbours of one nonterminal share a block, others get a block
    /// of their own. `mark`: which blocks of the start symbol carry the mark (0 the first, 1 the last, 2 all)
    pub fn rules_text(&self, order: &[usize], mark: u8) -> String {
        let mut blocks: Vec<Vec<usize>> = vec![];
        for r in order {
            match blocks.last_mut() {
                Some(b) if self.prods[b[0]].lhs == self.prods[*r].lhs => b.push(*r),
                _ => blocks.push(vec![*r]),
            }
        }
        let starts: Vec<usize> = (0..blocks.len()).filter(|b| self.prods[blocks[*b][0]].lhs == self.start).collect();
        let mut o = String::new();
        for (i, b) in blocks.iter().enumerate() {
            let n = self.prods[b[0]].lhs;
            let m = n == self.start && (mark == 2 || (mark == 0 && starts.first() == Some(&i)) || (mark == 1 && starts.last() == Some(&i)));
            o.push_str(&format!("export {}{}: ({}) = [\n", if m { "start " } else { "" }, self.nts[n], self.types[n]));
            for r in b {
                let p = &self.prods[*r];
                o.push_str(&format!("    {} => ({}),\n", self.body_text(p), p.action));
            }
            o.push_str("]\n\n");
        }
        o
    }

    /// The same grammar with its rules in another order
    pub fn torn(&self, order: &[usize]) -> G {
        G { prods: order.iter().map(|i| self.prods[*i].clone()).collect(), ..self.clone() }
    }

    /// Orders of the rules: all when there are few, else some that tear every block apart
    pub fn rule_orders(&self, all_to: usize) -> Vec<Vec<usize>> {
        let n = self.prods.len();
        if n <= all_to {
            return crate::checks::notation::permutations(n);
        }
        let mut v: Vec<Vec<usize>> = vec![(0..n).rev().collect()];
        // first alternatives of all blocks, then second ones and so on
        let nth: Vec<usize> = (0..n).map(|i| self.prods[..i].iter().filter(|p| p.lhs == self.prods[i].lhs).count()).collect();
        let mut w: Vec<usize> = (0..n).collect();
        w.sort_by_key(|i| (nth[*i], *i));
        v.push(w.clone());
        w.sort_by_key(|i| (nth[*i], n - *i));
        v.push(w.clone());
        w.reverse();
        v.push(w);
        v.push((0..n).filter(|i| i % 2 == 0).chain((0..n).filter(|i| i % 2 == 1)).collect());
        v.push((0..n).filter(|i| i % 2 == 1).chain((0..n).filter(|i| i % 2 == 0)).collect());
        for k in 1..n.min(12) {
            v.push((0..n).map(|i| (i + k) % n).collect());
        }
        v
    }

    /// One line, for labels
    pub fn short(&self) -> String {
        (0..self.nts.len())
            .map(|n| {
                format!(
                    "{} -> {}",
                    self.nts[n],
                    self.prods.iter().filter(|p| p.lhs == n).map(|p| self.body_text(p)).collect::<Vec<_>>().join(" | ")
                )
            })
            .collect::<Vec<_>>()
            .join(" ; ")
    }

    pub fn used_terms(&self) -> Vec<usize> {
        let mut u: Vec<usize> = self.prods.iter().flat_map(|p| p.rhs.iter()).filter_map(|s| if let Sym::T(t) = s { Some(*t) } else { None }).collect();
        u.sort();
        u.dedup();
        u
    }

    /// Terminals in the order of the token list: literals by text, then patterns by text
    pub fn term_order(&self) -> Vec<usize> {
        let mut u = self.used_terms();
        u.sort_by(|a, b| (!self.terms[*a].is_lit, &self.terms[*a].text).cmp(&(!self.terms[*b].is_lit, &self.terms[*b].text)));
        u
    }

    /// Reference scanner and the terminal behind each of its definitions
    pub fn scanner(&self) -> (Scanner, Vec<usize>) {
        let o = self.term_order();
        (Scanner::new(o.iter().map(|t| TokDef { name: self.terms[*t].text.clone(), with_val: true, re: self.terms[*t].re.clone() }).collect()), o)
    }

    pub fn productive(&self) -> Vec<bool> {
        let mut p = vec![false; self.nts.len()];
        loop {
            let mut ch = false;
            for r in &self.prods {
                if !p[r.lhs] && r.rhs.iter().all(|s| if let Sym::N(n) = s { p[*n] } else { true }) {
                    p[r.lhs] = true;
                    ch = true;
                }
            }
            if !ch {
                return p;
            }
        }
    }

    pub fn reachable(&self) -> Vec<bool> {
        let mut p = vec![false; self.nts.len()];
        p[self.start] = true;
        loop {
            let mut ch = false;
            for r in &self.prods {
                if p[r.lhs] {
                    for s in &r.rhs {
                        if let Sym::N(n) = s {
                            if !p[*n] {
                                p[*n] = true;
                                ch = true;
                            }
                        }
                    }
                }
            }
            if !ch {
                return p;
            }
        }
    }

    pub fn all_productive(&self) -> bool {
        self.productive().iter().all(|x| *x)
    }

    /// A text for a token sequence: shortest word of each terminal, separated by blanks
    pub fn words(&self) -> Vec<String> {
        self.terms.iter().map(|t| if t.is_lit { t.text.clone() } else { shortest_word(&t.re) }).collect()
    }
}

/// Some short non-empty word of the expression
pub fn shortest_word(re: &Re) -> String {
    let a = Aut::new(re);
    let reps = representatives(a.leaves.iter(), &['a' as u32, '0' as u32, 'x' as u32]);
    let mut good: Vec<char> = reps.iter().copied().filter(|c| (*c as u32) > 0x20 && (*c as u32) != 0x7f).collect();
    good.sort_by_key(|c| (!c.is_ascii_alphanumeric(), *c));
    let mut q = std::collections::VecDeque::new();
    let mut seen = std::collections::HashSet::new();
    q.push_back((a.start(), String::new()));
    while let Some((s, w)) = q.pop_front() {
        if !w.is_empty() && a.accepting(&s) {
            return w;
        }
        for c in &good {
            let n = a.step(&s, *c as u32);
            if !a.is_dead(&n) && seen.insert(n.clone()) {
                q.push_back((n, format!("{}{}", w, c)));
            }
        }
    }
    panic!("no word for {:?}", re)
}

pub struct Bounds {
    pub nts: usize,
    pub terms: usize,
    pub alts: usize,
    pub len: usize,
    pub total: usize,
}

const NT_NAMES: [&str; 4] = ["S", "A", "B", "C"];

/// All grammars within the bounds whose nonterminals are numbered in order of first occurrence
/// (each one occurs before its own block) and whose terminals likewise; alternatives of a block are
/// distinct and in nondecreasing length. Smallest total size first.
pub fn enumerate(b: &Bounds, f: &mut dyn FnMut(G)) {
    for total in 1..=b.total {
        for n in 1..=b.nts {
            let mut blocks: Vec<Vec<Vec<Sym>>> = vec![vec![]];
            rec(b, n, total, 1, 0, &mut blocks, &mut vec![], f);
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn rec(b: &Bounds, n: usize, left: usize, seen_n: usize, seen_t: usize, blocks: &mut Vec<Vec<Vec<Sym>>>, cur: &mut Vec<Sym>, f: &mut dyn FnMut(G)) {
    let bi = blocks.len() - 1;
    // finish the current alternative
    if !cur.is_empty() {
        let ok = {
            let blk = &blocks[bi];
            !blk.contains(cur) && blk.last().map_or(true, |l| l.len() <= cur.len())
        };
        if ok {
            let body = cur.clone();
            blocks[bi].push(body.clone());
            // next alternative of this block
            if blocks[bi].len() < b.alts && left > 0 {
                let mut c2 = vec![];
                rec(b, n, left, seen_n, seen_t, blocks, &mut c2, f);
            }
            // or close the block
            if bi + 1 == n {
                if left == 0 && seen_n == n {
                    emit(blocks, seen_t, f);
                }
            } else if seen_n > bi + 1 && left > 0 {
                blocks.push(vec![]);
                let mut c2 = vec![];
                rec(b, n, left, seen_n, seen_t, blocks, &mut c2, f);
                blocks.pop();
            }
            blocks[bi].pop();
        }
    }
    if left == 0 || cur.len() == b.len {
        return;
    }
    for i in 0..=seen_t.min(b.terms - 1) {
        cur.push(Sym::T(i));
        rec(b, n, left - 1, seen_n, seen_t.max(i + 1), blocks, cur, f);
        cur.pop();
    }
    for i in 0..=seen_n.min(n - 1) {
        cur.push(Sym::N(i));
        rec(b, n, left - 1, seen_n.max(i + 1), seen_t, blocks, cur, f);
        cur.pop();
    }
}

fn emit(blocks: &[Vec<Vec<Sym>>], seen_t: usize, f: &mut dyn FnMut(G)) {
    let mut prods = vec![];
    for (i, b) in blocks.iter().enumerate() {
        for r in b {
            prods.push((i, r.clone()));
        }
    }
    let terms = (0..seen_t).map(|i| Term::lit(["a", "b", "c", "d"][i])).collect();
    f(G::new(NT_NAMES[..blocks.len()].iter().map(|s| s.to_string()).collect(), terms, prods, 0))
}

/// Grammars beyond the small universe
pub fn families() -> Vec<(&'static str, Vec<G>)> {
    let mut v: Vec<(&'static str, Vec<G>)> = vec![];
    let d = |t: &str| G::dsl(t, &[]);
    // contexts: S -> pre_i N_i post_i with N_i sharing a core; merging joins states of several
    // contexts, and what follows the merged item differs by context
    let mut m = vec![];
    let post = ["x", "y", "z", "w"];
    for n in 2..=4usize {
        for mask in 0..(1 << n) {
            let mut alts = vec![];
            for i in 0..n {
                let nt = if mask >> i & 1 == 1 { "A" } else { "B" };
                alts.push(format!("'{}' {} '{}'", i, nt, post[i]));
            }
            m.push(d(&format!("S -> {} ; A -> 'c' A | 'd' ; B -> 'c' B | 'd'", alts.join(" | "))));
            m.push(d(&format!("S -> {} ; A -> 'c' D ; B -> 'c' D 'e' ; D -> 'd' | 'd' D", alts.join(" | "))));
            m.push(d(&format!("S -> {} ; A -> 'c' 'd' | 'c' A 'd' ; B -> 'c' 'd' 'e'", alts.join(" | "))));
        }
        for i in 0..n {
            for j in 0..n {
                // one context repeated, one with a longer tail
                let mut alts: Vec<String> = (0..n).map(|k| format!("'{}' A '{}'", k, post[k])).collect();
                alts.push(format!("'{}' B '{}'", i, post[j]));
                m.push(d(&format!("S -> {} ; A -> 'c' X ; B -> X 'e' ; X -> 'd' | 'd' 'd'", alts.join(" | "))));
                m.push(d(&format!("S -> {} ; A -> 'c' A | 'd' ; B -> 'c' A", alts.join(" | "))));
            }
        }
    }
    v.push(("merged contexts", m));
    v.push(("LR(1) but not LALR(1), LALR(1) but not SLR(1), ambiguous, borderline", vec![
        d("S -> 'a' A 'd' | 'b' B 'd' | 'a' B 'e' | 'b' A 'e' ; A -> 'c' ; B -> 'c'"),
        d("S -> 'a' A 'd' | 'b' B 'd' | 'a' B 'e' ; A -> 'c' ; B -> 'c'"),
        d("S -> 'a' A 'd' | 'b' B 'd' | 'b' A 'e' | 'a' B 'e' ; A -> 'c' 'f' ; B -> 'c' 'f'"),
        d("S -> L '=' R | R ; L -> '*' R | 'i' ; R -> L"),
        d("S -> A 'a' | 'b' A 'c' | 'd' 'c' | 'b' 'd' 'a' ; A -> 'd'"),
        d("S -> A 'a' | 'b' A 'c' | B 'c' | 'b' B 'a' ; A -> 'd' ; B -> 'd'"),
        d("S -> 'i' S 'e' S | 'i' S | 'x'"),
        d("S -> E ; E -> E '+' E | 'n'"),
        d("S -> E ; E -> E '+' E | E '*' E | 'n'"),
        d("S -> A | B ; A -> 'a' ; B -> 'a'"),
        d("S -> S | 'a'"),
        d("S -> A ; A -> S | 'a'"),
        d("S -> 'a' S 'a' | 'a'"),
        d("S -> 'a' S 'b' | 'a' 'b'"),
        d("S -> 'a' S 'a' | 'b'"),
        d("S -> A B ; A -> 'a' | 'a' A ; B -> 'a' 'b' | 'b'"),
        d("S -> M | U ; M -> 'i' M 'e' M | 'x' ; U -> 'i' S | 'i' M 'e' U"),
        d("S -> 'a' A 'a' | 'b' A 'b' | 'a' B 'b' | 'b' B 'a' ; A -> 'c' ; B -> 'c' 'c'"),
        d("S -> A 'x' 'y' | B 'x' 'z' ; A -> 'a' ; B -> 'a'"),
    ]));
    v.push(("recursion", vec![
        d("S -> S 'a' | 'a'"),
        d("S -> 'a' S | 'a'"),
        d("S -> A 'a' ; A -> S 'b' | 'c'"),
        d("S -> A ; A -> B 'a' ; B -> A 'b' | 'c'"),
        d("S -> A 'x' | 'a' ; A -> B 'y' | 'b' ; B -> S 'z' | 'c'"),
        d("S -> 'a' A ; A -> S 'b' | 'b'"),
        d("S -> '(' S ')' | '(' ')'"),
        d("S -> '(' S ')' S | '(' ')' S | '(' S ')' | '(' ')'"),
        d("S -> S S | 'a'"),
        d("S -> A S | A ; A -> 'a'"),
        d("S -> S A | A ; A -> 'a' | 'b'"),
        d("S -> A A ; A -> 'c' A | 'd'"),
        d("S -> A ; A -> A 'a'"),
        d("S -> A 'a' | 'b' ; A -> A 'c'"),
        d("S -> 'a' | 'b' ; A -> 'c' A"),
        d("S -> 'a' ; A -> B ; B -> A"),
        d("S -> 'a' ; A -> 'a' 'b' | A 'a'"),
        d("S -> A A A ; A -> 'a' | 'b'"),
        d("S -> A B C D ; A -> 'a' ; B -> 'b' | 'b' B ; C -> 'c' | C 'c' ; D -> A | B"),
    ]));
    let n = || cat(vec![class("[1-9]", &[('1', '9')]), star(class("[0-9]", &[('0', '9')]))]);
    let id = || plus(class("[a-z]", &[('a', 'z')]));
    let st = || cat(vec![lit('\''), star(nclass("[^']", &[('\'', '\'')])), lit('\'')]);
    let pats = [("n", n()), ("id", id()), ("str", st())];
    let p = |t: &str| G::dsl(t, &pats);
    v.push(("realistic", vec![
        p("E -> E '+' T | E '-' T | T ; T -> T '*' F | T '/' F | F ; F -> '(' E ')' | /n/ | /id/ | '-' F"),
        p("E -> T '+' E | T ; T -> F '*' T | F ; F -> '(' E ')' | /n/"),
        p("V -> O | A | /str/ | /n/ | 'true' | 'false' | 'null' ; O -> '{' '}' | '{' Ms '}' ; Ms -> M | M ',' Ms ; M -> /str/ ':' V ; A -> '[' ']' | '[' Es ']' ; Es -> V | Es ',' V"),
        p("SExpr -> '(' Exprs ')' ; Exprs -> Expr Exprs | Expr ; Expr -> SExpr | 'add' | /n/"),
        p("P -> Ss ; Ss -> St | Ss St ; St -> /id/ '=' E ';' | 'if' '(' E ')' Bl | 'if' '(' E ')' Bl 'else' Bl | 'while' '(' E ')' Bl | 'return' E ';' ; Bl -> '{' Ss '}' | '{' '}' ; E -> E '==' Ad | Ad ; Ad -> Ad '+' At | At ; At -> /id/ | /n/ | '(' E ')' | /id/ '(' As ')' ; As -> E | As ',' E"),
        p("T -> Ty ; Ty -> At '->' Ty | At ; At -> /id/ | '(' Ty ')' | '[' Ty ']'"),
        p("R -> R '|' C | C ; C -> C K | K ; K -> K '*' | K '+' | K '?' | B ; B -> /id/ | '(' R ')' | '.'"),
        p("Q -> 'select' Cs 'from' /id/ W | 'select' Cs 'from' /id/ ; Cs -> '*' | Ls ; Ls -> /id/ | Ls ',' /id/ ; W -> 'where' B ; B -> B 'and' K | K ; K -> /id/ '=' V ; V -> /id/ | /n/ | /str/"),
    ]));
    // size: many alternatives, long rules, many levels, many tokens
    let mut big = vec![];
    for k in [5usize, 10, 11, 12, 17, 33] {
        big.push(d(&format!("S -> {}", (0..k).map(|i| format!("'t{}'", i)).collect::<Vec<_>>().join(" | "))));
        big.push(d(&format!("S -> {}", (0..k).map(|i| format!("'t{}'", i % 12)).collect::<Vec<_>>().join(" "))));
        big.push(d(&format!("S -> L ; L -> L I | I ; I -> {}", (0..k).map(|i| format!("'t{}' ';'", i)).collect::<Vec<_>>().join(" | "))));
        // precedence ladder
        let mut t = String::from("S -> E0");
        for i in 0..k.min(12) {
            t.push_str(&format!(" ; E{} -> E{} 'o{}' E{} | E{}", i, i, i, i + 1, i + 1));
        }
        t.push_str(&format!(" ; E{} -> '(' E0 ')' | 'n'", k.min(12)));
        big.push(d(&t));
        // unit chain
        let mut t = String::from("S -> N0 'end'");
        for i in 0..k {
            t.push_str(&format!(" ; N{} -> N{} | 'u{}'", i, i + 1, i));
        }
        t.push_str(&format!(" ; N{} -> 'z'", k));
        big.push(d(&t));
    }
    v.push(("large", big));
    v
}

/// S -> context nonterminal suffix, for every set of triples: which suffixes may follow which
/// nonterminal in which context decides what merging does to the lookaheads
pub fn incidence(thorough: bool) -> Vec<G> {
    let mut v = vec![];
    let bodies: &[&str] = if thorough { &["'c'", "'c' | 'c' #", "'c' 'c'"] } else { &["'c'", "'c' | 'c' #"] };
    let shapes: &[(usize, usize, usize)] = if thorough { &[(2, 2, 3), (3, 2, 2), (4, 1, 3), (3, 1, 4), (2, 1, 5)] } else { &[(2, 2, 2), (3, 1, 3), (2, 1, 4)] };
    for &(p, n, s) in shapes {
        for m in 1u32..1 << (p * n * s) {
            let mut alts = vec![];
            for i in 0..p * n * s {
                if m >> i & 1 == 1 {
                    alts.push(format!("'{}' {} '{}'", i / (n * s), ["A", "B"][i / s % n], ["w", "x", "y", "z", "v"][i % s]));
                }
            }
            for b in bodies {
                let mut t = format!("S -> {}", alts.join(" | "));
                for x in &["A", "B"][..n] {
                    if alts.iter().any(|a| a.contains(x)) {
                        t.push_str(&format!(" ; {} -> {}", x, b.replace('#', x)));
                    }
                }
                v.push(G::dsl(&t, &[]));
            }
        }
    }
    v
}

/// Grammars whose numbers of tokens, rules, states or symbols pass the sizes at which narrow integers
/// and fixed tables end
pub fn very_large(thorough: bool) -> Vec<G> {
    let d = |t: &str| G::dsl(t, &[]);
    let mut v = vec![];
    let ks: &[usize] = if thorough { &[64, 100, 127, 128, 129, 200, 255, 256, 257, 300, 400, 513] } else { &[64, 127, 129, 255, 257, 300] };
    for &k in ks {
        // tokens, alternatives
        v.push(d(&format!("S -> L ; L -> L I | I ; I -> {}", (0..k).map(|i| format!("'t{}'", i)).collect::<Vec<_>>().join(" | "))));
        // one long rule, one repeated token
        v.push(d(&format!("S -> {}", (0..k).map(|i| format!("'t{}'", i % 3)).collect::<Vec<_>>().join(" "))));
        // many nonterminals with a rule each
        let mut t = format!("S -> {}", (0..k).map(|i| format!("'t{}' N{}", i % 7 + i / 7 * 10, i)).collect::<Vec<_>>().join(" | "));
        for i in 0..k {
            t.push_str(&format!(" ; N{} -> 'x' | 'y{}' N{}", i, i % 5, (i + 1) % k));
        }
        v.push(d(&t));
        // unit chain
        let mut t = String::from("S -> N0 'end'");
        for i in 0..k {
            t.push_str(&format!(" ; N{} -> N{}", i, i + 1));
        }
        t.push_str(&format!(" ; N{} -> 'z' | 'z' N{}", k, k));
        v.push(d(&t));
    }
    v
}

/// Named symbols for the actions: every combination given by bit masks
pub fn with_names(g: &G, mask: u64) -> G {
    let mut g = g.clone();
    let mut bit = 0;
    for p in g.prods.iter_mut() {
        for (i, n) in p.names.iter_mut().enumerate() {
            // checking an action takes the compiler time exponential in its named symbols
            *n = if mask >> (bit % 60) & 1 == 1 && i < 7 { Some(format!("v{}", i)) } else { None };
            bit += 1;
        }
    }
    g
}

pub fn dedup_map(v: &[String]) -> BTreeMap<String, usize> {
    v.iter().enumerate().map(|(i, s)| (s.clone(), i)).collect()
}
