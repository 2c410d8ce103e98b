//! C09-C15, C24-C26: lowering, FIRST, tables, parsing.
use crate::earley::Earley;
use crate::engine::*;
use crate::gram::*;
use crate::lr::{self, Act, Tables};
use crate::re::*;
use bumpalo::Bump;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use typelalr::lalr::item::{ProductionIdx, TokenIdx};
use typelalr::lalr::table::{make_tables, Action};
use typelalr::lalr::Lalr;
use typelalr::parser::ast::{self, Ident};
use typelalr::parser::grammar::ProgramParser;
use typelalr::parser::{Grammar, ParserSupport, Symbol};

thread_local! {
    static PROG: RefCell<Option<&'static ProgramParser>> = RefCell::new(None);
}

/// Same parser object as `typelalr::parse_grammar` uses, built once: building it anew compiles the
/// regular expressions of the notation each time.
pub fn read_ast<'a>(bump: &'a Bump, text: &str) -> Result<Vec<ast::Production<'a>>, String> {
    let p = PROG.with(|p| *p.borrow_mut().get_or_insert_with(|| Box::leak(Box::new(ProgramParser::new()))));
    match imp(|| p.parse(&mut ParserSupport::new(bump), text).map_err(|e| format!("{:?}", e))) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {}", p)),
    }
}

/// Lowered grammar of a text; Err: the notation reader or the lowering refuses
pub fn with_grammar<R>(text: &str, f: impl FnOnce(&Grammar) -> R) -> Result<R, String> {
    let bump = Bump::new();
    let ast = read_ast(&bump, text)?;
    let gr = imp(|| Grammar::grammar_from_ast_productions(&bump, &ast))?;
    Ok(f(&gr))
}

pub fn sym_of<'a>(g: &'a G, s: Sym) -> Symbol<'a> {
    match s {
        Sym::N(n) => Symbol::NonTerminal(Ident(&g.nts[n])),
        Sym::T(t) if g.terms[t].is_lit => Symbol::StrLit(&g.terms[t].text),
        Sym::T(t) => Symbol::Regex(&g.terms[t].text),
    }
}

/// Reference numbering of the token with this index: 0 end of input, t+1 terminal t
pub fn term_no(gr: &Grammar, g: &G, ix: TokenIdx) -> Result<usize, String> {
    match gr.get_token(ix) {
        Some(Symbol::Eof) => Ok(0),
        Some(Symbol::StrLit(s)) => g.terms.iter().position(|t| t.is_lit && t.text == *s).map(|i| i + 1).ok_or(format!("unknown literal {:?}", s)),
        Some(Symbol::Regex(s)) => g.terms.iter().position(|t| !t.is_lit && t.text == *s).map(|i| i + 1).ok_or(format!("unknown pattern {:?}", s)),
        x => Err(format!("token index {:?} stands for {:?}", ix, x)),
    }
}

pub enum Outcome {
    Tables(Tables),
    /// panic message
    Refused(String),
}

/// The tables the generator makes for `g`, in the numbering of the reference
pub fn impl_tables(gr: &Grammar, g: &G) -> Result<Outcome, String> {
    let (action, goto, states) = match imp(|| make_tables(gr)) {
        Ok(x) => x,
        Err(p) => return Ok(Outcome::Refused(p)),
    };
    let n = states.len();
    let mut t = Tables { states: vec![], action: vec![BTreeMap::new(); n], goto: vec![BTreeMap::new(); n], conflicts: vec![] };
    for (s, row) in action.iter() {
        for (k, a) in row {
            let k = term_no(gr, g, *k)?;
            let a = match a {
                Action::Shift(j) => Act::Shift(*j as usize),
                Action::Reduce(ProductionIdx(p)) => Act::Reduce(*p as usize),
                Action::Accept => Act::Accept,
            };
            if *s >= n {
                return Err(format!("action row {} but only {} states", s, n));
            }
            t.action[*s].insert(k, a);
        }
    }
    for (s, row) in goto.iter() {
        for (Ident(name), j) in row {
            let k = g.nts.iter().position(|x| x == name).ok_or(format!("goto column {:?}", name))?;
            if *s >= n {
                return Err(format!("goto row {} but only {} states", s, n));
            }
            t.goto[*s].insert(k, *j);
        }
    }
    Ok(Outcome::Tables(t))
}

/// Text to tables
pub fn build_tables(g: &G) -> Result<Outcome, String> {
    with_grammar(&g.to_text(), |gr| impl_tables(gr, g))?
}

pub fn is_conflict(p: &str) -> bool {
    p.to_lowercase().contains("conflict")
}

// ---------------------------------------------------------------------------------- universes

pub struct Universe {
    pub name: &'static str,
    pub bounds: Vec<Bounds>,
}

pub fn b(nts: usize, terms: usize, alts: usize, len: usize, total: usize) -> Bounds {
    Bounds { nts, terms, alts, len, total }
}

/// Run `f` on every grammar of the small universe and on the families. `f` is called for the cases
/// of this shard only.
pub fn each_grammar(ctx: &mut Ctx, bounds: &[Bounds], fams: bool, f: &mut dyn FnMut(&mut Case, &G)) {
    if fams {
        for (name, gs) in families() {
            ctx.family(name);
            for g in gs {
                ctx.case(|| g.short(), |c| f(c, &g));
            }
        }
    }
    for bd in bounds {
        ctx.family(&format!("all grammars: {} nonterminals, {} terminals, {} alternatives of length {}, {} symbols", bd.nts, bd.terms, bd.alts, bd.len, bd.total));
        enumerate(bd, &mut |g| {
            ctx.case(|| g.short(), |c| f(c, &g));
        });
    }
}

// ------------------------------------------------------------------------------------------ C10

fn first_case(c: &mut Case, g: &G, len: usize) {
    let text = g.to_text();
    let want = lr::first_sets(g);
    let r = with_grammar(&text, |gr| {
        // the symbols as the grammar holds them
        let syms: Vec<(Sym, Symbol)> = (0..g.nts.len()).map(Sym::N).chain(g.used_terms().into_iter().map(Sym::T)).map(|s| (s, sym_of(g, s))).collect();
        let mut idx = vec![];
        let mut stack: Vec<Vec<usize>> = (0..=syms.len()).map(|i| vec![i]).collect();
        while let Some(v) = stack.pop() {
            // the last index stands for the end of input
            if v.len() < len && *v.last().unwrap() != syms.len() {
                for i in 0..=syms.len() {
                    let mut w = v.clone();
                    w.push(i);
                    stack.push(w);
                }
            }
            idx.push(v);
        }
        for v in idx {
            let eof = Symbol::Eof;
            let seq: Vec<&Symbol> = v.iter().map(|i| if *i == syms.len() { &eof } else { &syms[*i].1 }).collect();
            let exp: BTreeSet<usize> = match v[0] {
                i if i == syms.len() => BTreeSet::from([0]),
                i => match syms[i].0 {
                    Sym::T(t) => BTreeSet::from([t + 1]),
                    Sym::N(n) => want[n].iter().map(|t| t + 1).collect(),
                },
            };
            let got = first_of(gr, &seq);
            c.eval(1);
            c.st.traces += 1;
            let desc = || format!("grammar\n{}FIRST({})", text, v.iter().map(|i| if *i == syms.len() { "$".to_string() } else { g.sym_text(syms[*i].0) }).collect::<Vec<_>>().join(" "));
            let got = match got {
                Err(p) => return c.fail(format!("FIRST of {:?} panics", v), format!("{}: {}", desc(), p)),
                Ok(x) => x,
            };
            let mut have = BTreeSet::new();
            for s in &got {
                match s {
                    Symbol::Eof => {
                        have.insert(0);
                    }
                    s => match g.used_terms().into_iter().find(|t| sym_of(g, Sym::T(*t)) == *s) {
                        Some(t) => {
                            have.insert(t + 1);
                        }
                        None => return c.fail(format!("FIRST of {:?}", v), format!("{} contains {:?}", desc(), s)),
                    },
                }
            }
            if have != exp {
                return c.fail(format!("FIRST of {:?}", v), format!("{} is {:?}, expected {:?} (0 is the end of input, t+1 terminal t)", desc(), have, exp));
            }
            if exp.len() > 1 {
                c.hist("FIRST with several terminals");
            }
        }
    });
    if let Err(e) = r {
        c.fail("not read", e);
    }
    c.st.states += g.nts.len() as u64;
    c.st.transitions += g.prods.len() as u64;
    // non-trivial: some nonterminal gets a terminal through another one
    if g.prods.iter().any(|p| matches!(p.rhs[0], Sym::N(_))) {
        c.nontrivial(&text);
    }
    c.sample(|| format!("{}: FIRST {:?}", g.short(), want));
}

fn first_of<'a>(gr: &'a Grammar<'a>, seq: &[&'a Symbol<'a>]) -> Result<Vec<Symbol<'a>>, String> {
    imp(|| typelalr::lalr::first::first(gr, seq.iter().copied()).into_iter().copied().collect())
}

pub fn c10(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let bs = if t { vec![b(3, 2, 3, 3, 7), b(2, 2, 4, 4, 8)] } else { vec![b(3, 2, 3, 3, 6), b(2, 2, 3, 3, 7)] };
    each_grammar(ctx, &bs, true, &mut |c, g| first_case(c, g, if g.nts.len() > 4 { 1 } else { 2 }));
    ctx.family("every way three or four nonterminals can refer to each other first");
    // FIRST depends on the graph of leading nonterminals only: all graphs
    for n in [3usize, 4] {
        let edges = n * n;
        for m in 0u32..1 << edges {
            // four nonterminals: all graphs of up to five edges (thorough: all graphs)
            if n == 4 && !t && m.count_ones() > 5 {
                continue;
            }
            if ctx.skip() {
                continue;
            }
            let g = graph_grammar(n, m);
            ctx.case(|| format!("leading graph {:b} of {}", m, n), |c| first_case(c, &g, 1));
        }
    }
}

/// N_i -> N_j 'x' for each edge, and N_i -> 'i' for every node but the last
fn graph_grammar(n: usize, m: u32) -> G {
    let names = ["S", "A", "B", "C"];
    let mut prods = vec![];
    let mut terms: Vec<Term> = (0..n).map(|i| Term::lit(["p", "q", "r", "s"][i])).collect();
    terms.push(Term::lit("x"));
    for i in 0..n {
        for j in 0..n {
            if m >> (i * n + j) & 1 == 1 {
                prods.push((i, vec![Sym::N(j), Sym::T(n)]));
            }
        }
        // the last one has a terminal only when its first edge bit is clear
        if i + 1 < n || m & 1 == 0 {
            prods.push((i, vec![Sym::T(i)]));
        } else if !prods.iter().any(|p| p.0 == i) {
            prods.push((i, vec![Sym::N(i)]));
        }
    }
    G::new(names[..n].iter().map(|s| s.to_string()).collect(), terms, prods, 0)
}

// ------------------------------------------------------------------------------------------ C11, C12

const CAP: usize = 4000;

fn lalr_case(c: &mut Case, g: &G) {
    let r = match lr::lalr(g, CAP) {
        Some(r) => r,
        None => return c.hist("reference too large"),
    };
    if !r.conflicts.is_empty() || !g.all_productive() {
        return c.hist(if r.conflicts.is_empty() { "not reduced" } else { "not LALR(1)" });
    }
    let got = match build_tables(g) {
        Ok(Outcome::Tables(t)) => t,
        // refusing is the concern of C12
        Ok(Outcome::Refused(p)) if is_conflict(&p) => return c.hist("refused"),
        Ok(Outcome::Refused(p)) => return c.fail("make_tables panics", format!("{}: {}", g.short(), p)),
        Err(e) => return c.fail("cannot be compared", format!("{}: {}", g.short(), e)),
    };
    c.eval(1);
    c.st.traces += 1;
    c.st.states += r.states.len() as u64;
    match lr::isomorphic(&r, &got) {
        Ok(n) => c.st.transitions += n as u64,
        Err(e) => return c.fail("tables differ", format!("grammar\n{}reference/generated: {}", g.to_text(), e)),
    }
    let l1 = lr::Lr::new(g).lr1(CAP).map(|x| x.0.len()).unwrap_or(0);
    c.hist("compared");
    if l1 > r.states.len() {
        c.hist("compared, states merged");
    }
    c.nontrivial(&g.short());
    c.sample(|| format!("{}: {} LR(1) states, {} LALR(1) states", g.short(), l1, r.states.len()));
}

pub fn c11(ctx: &mut Ctx) {
    let bs = if ctx.thorough { vec![b(3, 2, 3, 3, 8), b(2, 2, 4, 4, 9), b(2, 3, 3, 3, 8)] } else { vec![b(3, 2, 3, 3, 7), b(2, 2, 3, 4, 7), b(2, 2, 4, 2, 8)] };
    each_grammar(ctx, &bs, true, &mut |c, g| lalr_case(c, g));
    ctx.family("every set of contexts, nonterminals and what follows them");
    for g in incidence(ctx.thorough) {
        ctx.case(|| g.short(), |c| lalr_case(c, &g));
    }
    ctx.family("hundreds of tokens, rules, symbols of a rule, nonterminals and states");
    for g in very_large(ctx.thorough) {
        ctx.case(|| format!("{:.60}… {} rules", g.short(), g.prods.len()), |c| lalr_case(c, &g));
    }
    ctx.family("blocks of a nonterminal apart from each other, rules in every order");
    for g in torn(ctx.thorough) {
        ctx.case(|| format!("torn {}", g.short()), |c| torn_case(c, &g, if super::lexer::ctx_thorough() { 5 } else { 4 }));
    }
}

/// Grammars whose rules are written in other orders
pub fn torn(t: bool) -> Vec<G> {
    let mut v = vec![];
    enumerate(&if t { b(3, 2, 3, 3, 6) } else { b(3, 2, 3, 2, 5) }, &mut |g| {
        if g.prods.len() > 2 {
            v.push(g)
        }
    });
    v.extend(families().into_iter().flat_map(|f| f.1).filter(|g| g.prods.len() < 40));
    v
}

/// The tables of the text with its rules in another order, in the numbering of `g`
fn torn_case(c: &mut Case, g: &G, all_to: usize) {
    let r = match lr::lalr(g, CAP) {
        Some(r) => r,
        None => return c.hist("reference too large"),
    };
    if !g.all_productive() {
        return c.hist("not reduced");
    }
    for (k, o) in g.rule_orders(all_to).iter().enumerate() {
        let text = g.rules_text(o, (k % 3) as u8);
        let got = match with_grammar(&text, |gr| impl_tables(gr, g)).and_then(|x| x) {
            Ok(x) => x,
            Err(e) => return c.fail(format!("order {:?}", o), format!("{}: {}", text, e)),
        };
        c.eval(1);
        c.st.traces += 1;
        c.st.states += r.states.len() as u64;
        match got {
            Outcome::Refused(_) if !r.conflicts.is_empty() => c.hist("torn apart, refused"),
            Outcome::Refused(p) => return c.fail(format!("order {:?}", o), format!("grammar\n{}no conflict, but {}", text, p)),
            Outcome::Tables(_) if !r.conflicts.is_empty() => return c.fail(format!("order {:?}", o), format!("grammar\n{}conflicts {:?}, but it is accepted", text, r.conflicts.first())),
            Outcome::Tables(mut t) => {
                if let Err(e) = renumber(&mut t, o) {
                    return c.fail(format!("order {:?}", o), format!("grammar\n{}{}", text, e));
                }
                match lr::isomorphic(&r, &t) {
                    Ok(n) => c.st.transitions += n as u64,
                    Err(e) => return c.fail(format!("order {:?}", o), format!("grammar\n{}reference/generated: {}", text, e)),
                }
                c.hist("torn apart, compared");
            }
        }
    }
    c.nontrivial(&(g.short(), 2));
}

/// Rule i + 1 of `t` is rule order[i] + 1 of the grammar
fn renumber(t: &mut Tables, order: &[usize]) -> Result<(), String> {
    for row in t.action.iter_mut() {
        for a in row.values_mut() {
            if let Act::Reduce(p) = a {
                match p.checked_sub(1).and_then(|i| order.get(i)) {
                    Some(q) => *p = *q + 1,
                    None => return Err(format!("reduction by rule {}", p)),
                }
            }
        }
    }
    Ok(())
}

fn refusal_case(c: &mut Case, g: &G) {
    let r = match lr::lalr(g, CAP) {
        Some(r) => r,
        None => return c.hist("reference too large"),
    };
    let productive = g.all_productive();
    let refused = match build_tables(g) {
        Ok(Outcome::Tables(_)) => None,
        Ok(Outcome::Refused(p)) => Some(p),
        Err(e) => return c.fail("cannot be compared", format!("{}: {}", g.short(), e)),
    };
    c.eval(1);
    c.st.traces += 1;
    c.st.states += r.states.len() as u64;
    c.st.transitions += r.action.iter().map(|x| x.len() as u64).sum::<u64>();
    let want = !r.conflicts.is_empty();
    let k = match (want, productive) {
        (true, true) => "conflict",
        (false, true) => "no conflict",
        (true, false) => "not reduced, conflict",
        (false, false) => "not reduced, no conflict",
    };
    c.hist(k);
    if want {
        c.nontrivial(&g.short());
    }
    let v = format!("grammar\n{}reference conflicts {:?}, generator {}", g.to_text(), r.conflicts.first(), refused.as_deref().unwrap_or("accepts it"));
    if want != refused.is_some() {
        return c.fail(if want { "conflict not refused" } else { "refused without conflict" }, v);
    }
    if let Some(p) = &refused {
        if !is_conflict(p) {
            return c.fail("refused for another reason", v);
        }
    }
    c.sample(|| format!("{}: {}", g.short(), k));
}

pub fn c12(ctx: &mut Ctx) {
    let bs = if ctx.thorough { vec![b(3, 2, 3, 3, 7), b(2, 2, 4, 4, 8), b(2, 3, 3, 3, 7)] } else { vec![b(3, 2, 3, 3, 6), b(2, 2, 3, 4, 7), b(2, 2, 4, 2, 8)] };
    each_grammar(ctx, &bs, true, &mut |c, g| refusal_case(c, g));
    ctx.family("every set of contexts, nonterminals and what follows them");
    for g in incidence(ctx.thorough) {
        ctx.case(|| g.short(), |c| refusal_case(c, &g));
    }
    ctx.family("an alternative written twice or three times, anywhere in its block");
    let mut list = vec![];
    enumerate(&if ctx.thorough { b(3, 2, 3, 3, 6) } else { b(3, 2, 3, 2, 5) }, &mut |g| list.push(g));
    list.extend(families().into_iter().flat_map(|f| f.1).filter(|g| g.prods.len() < 24));
    for g in &list {
        for i in 0..g.prods.len() {
            if ctx.skip() {
                continue;
            }
            ctx.case(
                || format!("rule {} again in {}", i, g.short()),
                |c| {
                    let last = (0..g.prods.len()).filter(|k| g.prods[*k].lhs == g.prods[i].lhs).max().unwrap();
                    for (at, n) in [(i + 1, 1), (last + 1, 1), (i, 2)] {
                        let mut h = g.clone();
                        for _ in 0..n {
                            h.prods.insert(at, g.prods[i].clone());
                        }
                        refusal_case(c, &h);
                    }
                },
            );
        }
    }
    ctx.family("hundreds of tokens, rules, symbols of a rule, nonterminals and states, with and without a conflict");
    for g in very_large(ctx.thorough) {
        ctx.case(|| format!("{:.60}… {} rules", g.short(), g.prods.len()), |c| refusal_case(c, &g));
        // the last rule again under another nonterminal's name, and a shift where the last one is reduced
        let mut h = g.clone();
        let mut p = h.prods.last().unwrap().clone();
        p.action = "1".into();
        h.prods.push(p);
        ctx.case(|| format!("{:.60}… {} rules, last one twice", h.short(), h.prods.len()), |c| refusal_case(c, &h));
    }
    ctx.family("blocks of a nonterminal apart from each other, rules in every order");
    for g in torn(ctx.thorough) {
        ctx.case(|| format!("torn {}", g.short()), |c| torn_case(c, &g, 4));
    }
}

// ------------------------------------------------------------------------------------------ driver

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Step {
    Shifted,
    Accepted,
    Error,
    /// more reductions than any derivation of a cycle-free grammar can need
    Endless,
    /// goto missing or stack too short
    Broken,
}

/// LR stack together with the symbols it stands for
#[derive(Clone)]
pub struct Drive {
    pub stack: Vec<usize>,
    pub syms: Vec<Sym>,
}

impl Drive {
    pub fn new() -> Self {
        Drive { stack: vec![0], syms: vec![] }
    }
    /// One input token (0: end of input, t+1: terminal t). `bad`: description of a reduction that is
    /// not the inverse of a derivation step.
    pub fn feed(&mut self, t: &Tables, g: &G, a: usize, bad: &mut Option<String>) -> (Step, usize) {
        let mut n = 0;
        loop {
            let s = *self.stack.last().unwrap();
            match t.action.get(s).and_then(|r| r.get(&a)) {
                None => return (Step::Error, n),
                Some(Act::Shift(j)) => {
                    self.stack.push(*j);
                    if a == 0 {
                        *bad = Some("the end of input is shifted".into());
                        return (Step::Broken, n);
                    }
                    self.syms.push(Sym::T(a - 1));
                    return (Step::Shifted, n);
                }
                Some(Act::Accept) => {
                    if a != 0 || self.syms != [Sym::N(g.start)] {
                        *bad = Some(format!("accepts on token {} with symbols {:?} on the stack", a, self.syms));
                    }
                    return (Step::Accepted, n);
                }
                Some(Act::Reduce(p)) => {
                    n += 1;
                    if n > 200 + (g.nts.len() + 2) * (self.stack.len() + 1) {
                        return (Step::Endless, n);
                    }
                    let p = match p.checked_sub(1).and_then(|p| g.prods.get(p)) {
                        Some(p) => p,
                        None => {
                            *bad = Some(format!("reduces by rule {}", p));
                            return (Step::Broken, n);
                        }
                    };
                    let k = p.rhs.len();
                    if self.syms.len() < k || self.syms[self.syms.len() - k..] != p.rhs[..] {
                        *bad = Some(format!("reduces by {} -> {:?} with {:?} on the stack", g.nts[p.lhs], p.rhs, self.syms));
                        if self.syms.len() < k {
                            return (Step::Broken, n);
                        }
                    }
                    self.syms.truncate(self.syms.len() - k);
                    self.stack.truncate(self.stack.len() - k);
                    self.syms.push(Sym::N(p.lhs));
                    match t.goto.get(*self.stack.last().unwrap()).and_then(|r| r.get(&p.lhs)) {
                        Some(j) => self.stack.push(*j),
                        None => return (Step::Broken, n),
                    }
                }
            }
        }
    }
}

/// All viable prefixes of the grammar up to the largest length at which there are no more than
/// `cap` of them; at most `max`. Calls `f` on each with the recogniser standing behind it.
pub fn prefixes(g: &G, cap: usize, max: usize, f: &mut dyn FnMut(&[usize], &Earley) -> bool) -> usize {
    let terms = g.used_terms();
    // iterative deepening over counts
    let mut level: Vec<Vec<usize>> = vec![vec![]];
    let mut total = 1;
    let mut depth = 0;
    let mut all = vec![vec![]];
    while depth < max {
        let mut next = vec![];
        for w in &level {
            let mut e = Earley::new(g);
            for t in w {
                e.push(*t);
            }
            let n = e.next();
            for t in &terms {
                if n.contains(t) {
                    let mut v = w.clone();
                    v.push(*t);
                    next.push(v);
                }
            }
            if total + next.len() > cap {
                break;
            }
        }
        if next.is_empty() || total + next.len() > cap {
            break;
        }
        total += next.len();
        depth += 1;
        all.extend(next.iter().cloned());
        level = next;
    }
    for w in &all {
        let mut e = Earley::new(g);
        for t in w {
            e.push(*t);
        }
        if !f(w, &e) {
            return depth;
        }
    }
    depth
}

fn show(g: &G, w: &[usize]) -> String {
    w.iter().map(|t| g.sym_text(Sym::T(*t))).collect::<Vec<_>>().join(" ")
}

/// Tables for a grammar the reference finds LALR(1) and reduced; None when there is nothing to do
fn usable_tables(c: &mut Case, g: &G) -> Option<Tables> {
    if !g.all_productive() {
        c.hist("not reduced");
        return None;
    }
    match lr::lalr(g, CAP) {
        None => {
            c.hist("reference too large");
            return None;
        }
        Some(r) if !r.conflicts.is_empty() => {
            c.hist("not LALR(1)");
            return None;
        }
        _ => (),
    }
    match build_tables(g) {
        Ok(Outcome::Tables(t)) => Some(t),
        Ok(Outcome::Refused(p)) if is_conflict(&p) => {
            c.hist("refused");
            None
        }
        Ok(Outcome::Refused(p)) => {
            c.fail("make_tables panics", format!("{}: {}", g.short(), p));
            None
        }
        Err(e) => {
            c.fail("no tables", format!("{}: {}", g.short(), e));
            None
        }
    }
}

// ------------------------------------------------------------------------------------------ C14

fn derivation_case(c: &mut Case, g: &G, cap: usize, max: usize) {
    let t = match usable_tables(c, g) {
        Some(t) => t,
        None => return,
    };
    let mut sentences = 0u64;
    let mut fail = None;
    let mut configs = BTreeSet::new();
    let mut steps = 0u64;
    // sentences which need a rule no shorter one needed: the parser itself has to get through them
    let mut rules = BTreeSet::new();
    let mut real: Vec<Vec<usize>> = vec![];
    let mut last = vec![];
    let depth = prefixes(g, cap, max, &mut |w, e| {
        if !e.accepts() {
            return true;
        }
        sentences += 1;
        let mut d = Drive::new();
        let known = rules.len();
        let mut bad = None;
        let mut reds = 0;
        for (i, a) in w.iter().map(|t| t + 1).chain([0]).enumerate() {
            let (s, n) = d.feed(&t, g, a, &mut bad);
            reds += n;
            steps += 1 + n as u64;
            rules.extend(d.syms.windows(2).map(|x| (x[0], x[1])));
            configs.insert(d.stack.clone());
            if s != if a == 0 { Step::Accepted } else { Step::Shifted } || bad.is_some() {
                fail = Some((w.to_vec(), format!("token {}: {:?}, {}", i, s, bad.clone().unwrap_or("no such entry".into()))));
                return false;
            }
        }
        // a derivation tree over `w` without cycles has at least one rule per token group
        let _ = reds;
        if rules.len() > known {
            real.push(w.to_vec());
        }
        last = w.to_vec();
        true
    });
    if !last.is_empty() && real.last() != Some(&last) {
        real.push(last);
    }
    if fail.is_none() && !real.is_empty() {
        let text = g.to_text();
        let bump = Bump::new();
        let ast: &[_] = match read_ast(&bump, &text) {
            Ok(a) => bump.alloc(a),
            Err(e) => return c.fail("not read", e),
        };
        let (sc, map) = g.scanner();
        let words = g.words();
        match imp(|| Lalr::new(Grammar::grammar_from_ast_productions(&bump, ast))) {
            Ok(l) => {
                let skip = real.len().saturating_sub(6);
                for w in &real[skip..] {
                    let input = w.iter().map(|t| words[*t].as_str()).collect::<Vec<_>>().join(" ");
                    let chars: Vec<char> = input.chars().collect();
                    let (toks, end) = sc.scan(&chars);
                    if end != chars.len() || toks.iter().map(|t| map[t.def]).ne(w.iter().copied()) {
                        continue;
                    }
                    c.st.traces += 1;
                    if let Err(p) = imp(|| l.parse(&input)) {
                        return c.fail(format!("sentence {}", show(g, w)), format!("grammar\n{}sentence {:?}: the tables lead to its derivation, the parser driving them ends with {}", text, input, p));
                    }
                }
            }
            Err(p) if is_conflict(&p) => (),
            Err(p) => return c.fail("Lalr::new panics", p),
        }
    }
    c.eval(sentences);
    c.st.traces += sentences;
    c.st.states += configs.len() as u64;
    c.st.transitions += steps;
    if let Some((w, e)) = fail {
        return c.fail(format!("sentence {}", show(g, &w)), format!("grammar\n{}sentence {}: {}", g.to_text(), show(g, &w), e));
    }
    c.hist("grammars driven");
    c.histn("sentences", sentences);
    if sentences > 0 {
        c.nontrivial(&g.short());
    }
    c.sample(|| format!("{}: {} sentences to length {}, {} stacks", g.short(), sentences, depth, configs.len()));
}

/// A sentence for each rule that uses it: shortest derivations around it
pub fn covering_sentences(g: &G) -> Vec<Vec<usize>> {
    let n = g.nts.len();
    // shortest words of the nonterminals
    let mut word: Vec<Option<Vec<usize>>> = vec![None; n];
    let cost = |word: &[Option<Vec<usize>>], p: &Prod| -> Option<usize> { p.rhs.iter().map(|s| if let Sym::N(k) = s { word[*k].as_ref().map(|w| w.len()) } else { Some(1) }).sum() };
    let build = |word: &[Option<Vec<usize>>], rhs: &[Sym]| -> Vec<usize> { rhs.iter().flat_map(|s| match s { Sym::N(k) => word[*k].clone().unwrap(), Sym::T(t) => vec![*t] }).collect() };
    loop {
        let mut changed = false;
        for p in &g.prods {
            if let Some(c) = cost(&word, p) {
                if word[p.lhs].as_ref().map_or(true, |w| w.len() > c) {
                    word[p.lhs] = Some(build(&word, &p.rhs));
                    changed = true;
                }
            }
        }
        if !changed {
            break;
        }
    }
    // shortest surroundings of the nonterminals
    let mut around: Vec<Option<(Vec<usize>, Vec<usize>)>> = vec![None; n];
    around[g.start] = Some((vec![], vec![]));
    loop {
        let mut changed = false;
        for p in &g.prods {
            if let (Some((l, r)), Some(_)) = (around[p.lhs].clone(), cost(&word, p)) {
                for (i, s) in p.rhs.iter().enumerate() {
                    if let Sym::N(k) = s {
                        let mut a = l.clone();
                        a.extend(build(&word, &p.rhs[..i]));
                        let mut z = build(&word, &p.rhs[i + 1..]);
                        z.extend(&r);
                        if around[*k].as_ref().map_or(true, |(x, y)| x.len() + y.len() > a.len() + z.len()) {
                            around[*k] = Some((a, z));
                            changed = true;
                        }
                    }
                }
            }
        }
        if !changed {
            break;
        }
    }
    let mut v = vec![];
    for p in &g.prods {
        if let (Some((l, r)), Some(_)) = (&around[p.lhs], cost(&word, p)) {
            let mut w = l.clone();
            w.extend(build(&word, &p.rhs));
            w.extend(r);
            v.push(w);
        }
    }
    v.sort();
    v.dedup();
    v
}

/// The tables along those sentences: accepted, every reduction the inverse of a derivation step and
/// each rule used; with `errors`, every other next token refused as well
fn cover_case(c: &mut Case, g: &G, errors: bool) {
    let t = match usable_tables(c, g) {
        Some(t) => t,
        None => return,
    };
    let terms = g.used_terms();
    let all = covering_sentences(g);
    let mut steps = 0u64;
    // with errors, only so many positions of it
    let every = if errors { all.len() / 40 + 1 } else { 1 };
    for (k, w) in all.iter().enumerate() {
        let mut e = Earley::new(g);
        let mut d = Drive::new();
        let mut bad = None;
        for (i, a) in w.iter().map(|t| t + 1).chain([0]).enumerate() {
            if errors && k % every == 0 && (i < 3 || i + 3 > w.len() || i % 32 == k % 32) {
                let next = e.next();
                for z in std::iter::once(0).chain(terms.iter().map(|t| t + 1)) {
                    let want = if z == 0 { e.accepts() } else { next.contains(&(z - 1)) };
                    let mut d2 = d.clone();
                    let (s, n) = d2.feed(&t, g, z, &mut bad);
                    steps += 1 + n as u64;
                    if (s == Step::Shifted || s == Step::Accepted) != want {
                        return c.fail(format!("sentence {} position {}", k, i), format!("grammar {:.300}\nafter {} tokens of {:.300}: the next token {} is {:?}, expected {}", g.short(), i, show(g, w), z, s, want));
                    }
                }
            }
            let (s, n) = d.feed(&t, g, a, &mut bad);
            steps += 1 + n as u64;
            if s != if a == 0 { Step::Accepted } else { Step::Shifted } || bad.is_some() {
                return c.fail(format!("sentence {} position {}", k, i), format!("grammar {:.300}\nsentence {:.300}: token {}: {:?} {}", g.short(), show(g, w), i, s, bad.unwrap_or_default()));
            }
            if a > 0 && errors {
                e.push(a - 1);
            }
        }
        c.eval(1);
        c.st.traces += 1;
    }
    c.st.states += all.len() as u64;
    c.st.transitions += steps;
    c.hist("large grammars driven");
    c.nontrivial(&g.short());
}

fn parse_bounds(t: bool) -> Vec<Bounds> {
    if t {
        vec![b(3, 2, 3, 3, 8), b(2, 2, 4, 4, 8)]
    } else {
        vec![b(3, 2, 3, 3, 7), b(2, 2, 3, 4, 7)]
    }
}

pub fn c14(ctx: &mut Ctx) {
    let t = ctx.thorough;
    each_grammar(ctx, &parse_bounds(t), true, &mut |c, g| derivation_case(c, g, if t { 20000 } else { 1500 }, if g.nts.len() > 3 || t { 14 } else { 9 }));
    ctx.family("every set of contexts, nonterminals and what follows them");
    for g in incidence(false) {
        ctx.case(|| g.short(), |c| derivation_case(c, &g, 500, 8));
    }
    ctx.family("hundreds of tokens, rules, symbols of a rule, nonterminals and states: one sentence for each rule");
    for g in very_large(t) {
        ctx.case(|| format!("{:.60}… {} rules", g.short(), g.prods.len()), |c| cover_case(c, &g, false));
    }
}

// ------------------------------------------------------------------------------------------ C24

fn error_case(c: &mut Case, g: &G, cap: usize, max: usize) {
    let t = match usable_tables(c, g) {
        Some(t) => t,
        None => return,
    };
    let terms = g.used_terms();
    let mut fail: Option<(Vec<usize>, String)> = None;
    let (mut n, mut errs, mut steps) = (0u64, 0u64, 0u64);
    let mut configs = BTreeSet::new();
    let depth = prefixes(g, cap, max, &mut |w, e| {
        let mut d = Drive::new();
        let mut bad = None;
        for t_ in w {
            let (s, k) = d.feed(&t, g, t_ + 1, &mut bad);
            steps += 1 + k as u64;
            if s != Step::Shifted {
                fail = Some((w.to_vec(), format!("every token can continue a sentence, yet at {} the tables say {:?}", g.sym_text(Sym::T(*t_)), s)));
                return false;
            }
        }
        configs.insert(d.stack.clone());
        let next = e.next();
        for a in std::iter::once(0).chain(terms.iter().map(|t| t + 1)) {
            let mut d2 = d.clone();
            let (s, k) = d2.feed(&t, g, a, &mut bad);
            n += 1;
            steps += 1 + k as u64;
            let want = if a == 0 {
                if e.accepts() {
                    Step::Accepted
                } else {
                    Step::Error
                }
            } else if next.contains(&(a - 1)) {
                Step::Shifted
            } else {
                Step::Error
            };
            if want == Step::Error {
                errs += 1;
            }
            if s != want {
                let mut v = w.to_vec();
                let tok = if a == 0 {
                    "the end of input".to_string()
                } else {
                    v.push(a - 1);
                    g.sym_text(Sym::T(a - 1))
                };
                fail = Some((v, format!("after {} the next token {} is {:?}, expected {:?}", show(g, w), tok, s, want)));
                return false;
            }
        }
        true
    });
    c.eval(n);
    c.st.traces += n;
    c.st.states += configs.len() as u64;
    c.st.transitions += steps;
    if let Some((w, e)) = fail {
        return c.fail(format!("tokens {}", show(g, &w)), format!("grammar\n{}{}", g.to_text(), e));
    }
    c.hist("grammars driven");
    c.histn("erroneous next tokens", errs);
    c.nontrivial(&g.short());
    c.sample(|| format!("{}: prefixes to length {}, {} erroneous continuations", g.short(), depth, errs));
}

pub fn c24(ctx: &mut Ctx) {
    let t = ctx.thorough;
    each_grammar(ctx, &parse_bounds(t), true, &mut |c, g| error_case(c, g, if t { 5000 } else { 600 }, if g.nts.len() > 3 || t { 12 } else { 8 }));
    ctx.family("every set of contexts, nonterminals and what follows them");
    for g in incidence(false) {
        ctx.case(|| g.short(), |c| error_case(c, &g, 500, 8));
    }
    ctx.family("hundreds of tokens, rules, symbols of a rule, nonterminals and states: every next token along a sentence for each rule");
    for g in very_large(t) {
        ctx.case(|| format!("{:.60}… {} rules", g.short(), g.prods.len()), |c| cover_case(c, &g, true));
    }
}

// ------------------------------------------------------------------------------------------ C13

fn verdict_case(c: &mut Case, g: &G, cap: usize, max: usize) {
    if !g.all_productive() {
        return c.hist("not reduced");
    }
    match lr::lalr(g, CAP) {
        Some(r) if r.conflicts.is_empty() => (),
        _ => return c.hist("not LALR(1)"),
    }
    let text = g.to_text();
    let bump = Bump::new();
    let ast = match read_ast(&bump, &text) {
        Ok(a) => a,
        Err(e) => return c.fail("not read", e),
    };
    let ast: &[_] = bump.alloc(ast);
    let lalr = match imp(|| Lalr::new(Grammar::grammar_from_ast_productions(&bump, ast))) {
        Ok(l) => l,
        Err(p) if is_conflict(&p) => return c.hist("refused"),
        Err(p) => return c.fail("Lalr::new panics", format!("{}: {}", g.short(), p)),
    };
    let words = g.words();
    let (sc, map) = g.scanner();
    let terms = g.used_terms();
    let mut seqs: BTreeSet<Vec<usize>> = BTreeSet::new();
    let depth = prefixes(g, cap, max, &mut |w, e| {
        let next = e.next();
        seqs.insert(w.to_vec());
        for t in &terms {
            let mut v = w.to_vec();
            v.push(*t);
            // past the first error: one more token, so that nothing after it is forgotten
            if !next.contains(t) {
                for u in &terms {
                    let mut x = v.clone();
                    x.push(*u);
                    seqs.insert(x);
                }
            }
            seqs.insert(v);
        }
        true
    });
    let (mut acc, mut rej) = (0u64, 0u64);
    for w in &seqs {
        let input = w.iter().map(|t| words[*t].as_str()).collect::<Vec<_>>().join(" ");
        // what the text is as tokens decides (a word of a pattern can be a literal)
        let chars: Vec<char> = input.chars().collect();
        let (toks, end) = sc.scan(&chars);
        if !chars[end..].iter().all(|x| is_blank(*x)) {
            continue;
        }
        let ids: Vec<usize> = toks.iter().map(|t| map[t.def]).collect();
        let want = crate::earley::accepts(g, &ids);
        let got = imp(|| lalr.parse(&input));
        c.eval(1);
        c.st.traces += 1;
        c.st.transitions += ids.len() as u64;
        if want {
            acc += 1
        } else {
            rej += 1
        }
        if got.is_ok() != want {
            return c.fail(
                format!("input {:?}", input),
                format!("grammar\n{}input {:?}: {} in the language, parser {}", text, input, if want { "is" } else { "is not" }, got.map(|_| "accepts it".to_string()).unwrap_or_else(|e| format!("rejects it: {}", e))),
            );
        }
    }
    c.st.states += seqs.len() as u64;
    c.hist("grammars run");
    c.histn("accepted", acc);
    c.histn("rejected", rej);
    if acc > 0 && rej > 0 {
        c.nontrivial(&g.short());
    }
    c.sample(|| format!("{}: {} inputs accepted, {} rejected, prefixes to length {}", g.short(), acc, rej, depth));
}

/// The in-process parser on a sentence for each rule, and on what becomes of some of them when a
/// token is dropped, doubled or exchanged
fn cover_verdict_case(c: &mut Case, g: &G, part: usize, parts: usize) {
    if usable_tables(c, g).is_none() {
        return;
    }
    let text = g.to_text();
    let bump = Bump::new();
    let ast: &[_] = match read_ast(&bump, &text) {
        Ok(a) => bump.alloc(a),
        Err(e) => return c.fail("not read", e),
    };
    let lalr = match imp(|| Lalr::new(Grammar::grammar_from_ast_productions(&bump, ast))) {
        Ok(l) => l,
        Err(p) => return c.fail("Lalr::new panics", p),
    };
    let words = g.words();
    let all = covering_sentences(g);
    let mut seqs = vec![];
    // the parser prints its whole table on every call
    let step = all.len() / if super::lexer::ctx_thorough() { 60 } else { 12 } + 1;
    for (k, w) in all.iter().enumerate() {
        if k % step == 0 || k + 1 == all.len() {
            seqs.push(w.clone());
            let m = w.len() / 2;
            let mut drop = w.clone();
            drop.remove(m);
            let mut twice = w.clone();
            twice.insert(m, w[m]);
            let mut other = w.clone();
            other[m] = (w[m] + 1) % g.terms.len();
            seqs.extend([drop, twice, other, w[..w.len() - 1].to_vec()]);
        }
    }
    for (k, w) in seqs.iter().enumerate() {
        if k % parts != part {
            continue;
        }
        let input = w.iter().map(|t| words[*t].as_str()).collect::<Vec<_>>().join(" ");
        let want = crate::earley::accepts(g, w);
        let got = imp(|| lalr.parse(&input)).is_ok();
        c.eval(1);
        c.st.traces += 1;
        c.st.transitions += w.len() as u64;
        c.hist(if want { "accepted" } else { "rejected" });
        if got != want {
            return c.fail(format!("input {} {:.60}", k, input), format!("grammar {:.400}\ninput {:.400}: {} in the language, parser {}", g.short(), input, if want { "is" } else { "is not" }, if got { "accepts it" } else { "rejects it" }));
        }
    }
    c.st.states += seqs.len() as u64;
    c.nontrivial(&(g.short(), part));
}

/// Grammars with sentences of any length: units between brackets, and the numbers of units
fn long_grammars(t: bool) -> Vec<(&'static str, &'static str, &'static str, &'static str, Vec<usize>)> {
    let round = |v: &[usize]| -> Vec<usize> { v.iter().flat_map(|n| n.saturating_sub(3)..=n + 2).collect() };
    let mut flat: Vec<usize> = (1..40).collect();
    flat.extend(round(&[64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2048, 4096]));
    let mut deep = flat.clone();
    deep.extend(if t { vec![6000] } else { vec![] });
    flat.extend(round(if t { &[5000, 8192, 10_000, 16384, 32768, 50_000, 65536, 100_000] } else { &[5000, 10_000, 32768, 65536] }));
    vec![
        ("L -> L 'a' | 'a'", "", "a", "", flat.clone()),
        ("E -> E '+' /[a-z]+/ | /[a-z]+/", "", "x+", "x", flat),
        ("L -> 'a' L | 'a'", "", "a", "", deep.clone()),
        ("S -> '(' S ')' | 'a'", "(", "a", ")", deep.clone()),
        ("S -> 'x' A ; A -> B A | B ; B -> 'a' | '(' A ')'", "x(", "a", ")", deep[..70].to_vec()),
        ("E -> T '+' E | T ; T -> '(' E ')' | 'a'", "(a+", "a", ")", deep[..70].to_vec()),
    ]
}

fn long_case(c: &mut Case, d: &str, open: &str, unit: &str, close: &str, ns: &[usize]) {
    let g = G::dsl(d, &[("[a-z]+", plus(class("[a-z]", &[('a', 'z')])))]);
    let t = match lr::lalr(&g, CAP) {
        Some(t) if t.conflicts.is_empty() => t,
        _ => return c.fail("grammar", "not LALR(1)".to_string()),
    };
    let text = g.to_text();
    let bump = Bump::new();
    let ast: &[_] = match read_ast(&bump, &text) {
        Ok(a) => bump.alloc(a),
        Err(e) => return c.fail("not read", e),
    };
    let lalr = match imp(|| Lalr::new(Grammar::grammar_from_ast_productions(&bump, ast))) {
        Ok(l) => l,
        Err(p) => return c.fail("Lalr::new panics", p),
    };
    let (sc, map) = g.scanner();
    for n in ns {
        let good = match (open, close) {
            ("", "") => vec![unit.to_string(); *n].join(" "),
            ("", z) => unit.repeat(n - 1) + z,
            (o, z) if *n < 1100 || !o.contains('x') => format!("{}{}{}", o.replace('x', "").repeat(*n), unit, z.repeat(*n)),
            _ => continue,
        };
        let good = if d.starts_with("S -> 'x'") { format!("x{}", good) } else { good };
        let cut: String = good.chars().take(good.chars().count() - 1).collect();
        for input in [good.clone(), cut, format!("{} )", good), format!("{} {}", good, unit), format!("){}", good)] {
            let chars: Vec<char> = input.chars().collect();
            let (toks, end) = sc.scan(&chars);
            let ids: Vec<usize> = toks.iter().map(|t| map[t.def]).collect();
            let want = chars[end..].iter().all(|x| is_blank(*x)) && lr::accepts(&g, &t, &ids);
            let got = imp(|| lalr.parse(&input)).is_ok();
            c.eval(1);
            c.st.traces += 1;
            c.st.transitions += ids.len() as u64;
            c.hist(if want { "accepted" } else { "rejected" });
            if got != want {
                return c.fail(
                    format!("{} tokens {:.20}…", ids.len(), input),
                    format!("grammar {}\ninput of {} tokens, {:.60}…: {} in the language, parser {}", g.short(), ids.len(), input, if want { "is" } else { "is not" }, if got { "accepts it" } else { "rejects it" }),
                );
            }
        }
        c.st.states += 5;
    }
    c.nontrivial(&(d, ns.first()));
}

pub fn c13(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let bs = if t { vec![b(3, 2, 3, 3, 7), b(2, 2, 3, 4, 8)] } else { vec![b(3, 2, 3, 3, 6), b(2, 2, 3, 3, 7)] };
    each_grammar(ctx, &bs, true, &mut |c, g| verdict_case(c, g, if t { 400 } else { 40 } * 4 / g.used_terms().len().clamp(4, 16), if t { 10 } else { 7 }));
    ctx.family("every set of contexts, nonterminals and what follows them");
    for g in incidence(false) {
        ctx.case(|| g.short(), |c| verdict_case(c, &g, 20, 5));
    }
    ctx.family("blocks of a nonterminal apart from each other");
    for g in torn(t) {
        if g.prods.len() > 12 {
            continue;
        }
        ctx.case(
            || format!("torn {}", g.short()),
            |c| {
                for (k, o) in g.rule_orders(3).iter().enumerate() {
                    if k < if t { 12 } else { 2 } {
                        verdict_case(c, &g.torn(o), 12, 5);
                    }
                }
            },
        );
    }
    ctx.family("names with a meaning elsewhere, names that share a long beginning");
    for (g, _) in super::notation::named_grammars() {
        ctx.case(|| g.short(), |c| verdict_case(c, &g, if t { 40 } else { 8 }, 6));
    }
    ctx.family("hundreds of tokens, rules, symbols of a rule, nonterminals and states");
    for g in very_large(t) {
        for part in 0..4 {
            ctx.case(|| format!("{:.60}… {} rules, part {}", g.short(), g.prods.len(), part), |c| cover_verdict_case(c, &g, part, 4));
        }
    }
    ctx.family("inputs of every length up to 40 tokens and around powers of two and of ten");
    for (d, o, u, z, ns) in long_grammars(t) {
        let mut from = 0;
        while from < ns.len() {
            // pieces of about the same work
            let mut to = from;
            let mut work = 0;
            while to < ns.len() && work < 20_000 {
                work += ns[to] + 200;
                to += 1;
            }
            let part = ns[from..to].to_vec();
            ctx.case(|| format!("{} lengths {}..{}", d, part[0], part[part.len() - 1]), |c| long_case(c, d, o, u, z, &part));
            from = to;
        }
    }
    ctx.family("a literal with the text of a pattern");
    for d in ["S -> 'a+' | 'x' /a+/", "S -> /a+/ 'a+' | 'a+' /a+/", "S -> 'a' S | '[ab]' /[ab]/"] {
        let g = G::dsl(d, &[("a+", plus(lit('a'))), ("[ab]", class("[ab]", &[('a', 'a'), ('b', 'b')]))]);
        ctx.case(|| d.to_string(), |c| verdict_case(c, &g, 100, 5));
    }
}

// ------------------------------------------------------------------------------------------ C15

/// Everything the generator does with a text and everything a parser does with inputs has to end.
/// What ends, in a result or in a panic, is fine here.
fn ends_case(c: &mut Case, text: &str, inputs: &[String], gen: bool) {
    let bump = Bump::new();
    let ast = match read_ast(&bump, text) {
        Ok(a) => a,
        Err(_) => return c.hist("text refused"),
    };
    let ast: &[_] = bump.alloc(ast);
    c.eval(1);
    c.st.traces += 1;
    let lalr = imp(|| Lalr::new(Grammar::grammar_from_ast_productions(&bump, ast)));
    let lalr = match lalr {
        Ok(l) => l,
        Err(p) => {
            c.hist(if is_conflict(&p) { "conflict" } else { "refused otherwise" });
            return;
        }
    };
    if gen {
        let g = imp(|| typelalr::codegen::parse_gen::generate(&bump, ast, &lalr).is_ok());
        c.hist(if g.is_ok() { "generated" } else { "generation refuses" });
    }
    for i in inputs {
        let r = imp(|| lalr.parse(i));
        c.eval(1);
        c.st.traces += 1;
        c.st.transitions += 1;
        c.hist(if r.is_ok() { "input accepted" } else { "input rejected" });
    }
    c.st.states += 1;
    c.nontrivial(text);
    c.sample(|| text.to_string());
}

pub fn c15(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let ins: Vec<String> = ["", "a", "a a", "a a a", "a a a a a a a a", "b", "a b", "#", "a #", " ", "\n", "ab"].iter().map(|s| s.to_string()).collect();
    let few: Vec<String> = ins[..5].to_vec();
    ctx.family("two nonterminals, every right-hand side of length <=2 over a, S, A and an undefined name, duplicates included");
    let sy = ["\"a\"", "S", "A", "U"];
    let mut rhs: Vec<String> = sy.iter().map(|s| s.to_string()).collect();
    for a in sy {
        for b in sy {
            rhs.push(format!("{} {}", a, b));
        }
    }
    let block = |n: &str, v: &[&String]| format!("export {}: (any) = [\n{}]\n", n, v.iter().map(|x| format!("  {} => (null),\n", x)).collect::<String>());
    let alts = |max: usize| {
        let mut v: Vec<Vec<&String>> = vec![];
        for a in &rhs {
            v.push(vec![a]);
            if max > 1 {
                for b in &rhs {
                    v.push(vec![a, b]);
                }
            }
        }
        v
    };
    for s in alts(2) {
        for a in std::iter::once(vec![]).chain(alts(if t { 2 } else { 1 })) {
            if ctx.skip() {
                continue;
            }
            let text = block("start S", &s) + &if a.is_empty() { String::new() } else { block("A", &a) };
            ctx.case(|| text.clone(), |c| ends_case(c, &text, if t { &few[..4] } else { &few }, t));
        }
    }
    ctx.family("marks and blocks: no start, two starts, repeated blocks, empty blocks");
    let shapes = ["export start S: (x)\n= [ \"a\" => (y)\n]\n", "export S: (x)\n= [ A => (y)\n]\n", "A: (x)\n= [ \"a\" => (y)\n, S => (z)\n]\n", "export start A: (x)\n= [ \"b\" A => (y)\n, \"a\" => (y)\n]\n", "export start S: (x)\n= [ ]\n", "A: (x)\n= [ ]\n", "export start S: (x)\n= [ A => (y)\n, A => (y)\n]\n", "S: (x)\n= [ \"\" => (y)\n, r\"\" => (z)\n]\n"];
    for n in 1..=3usize {
        for k in 0..shapes.len().pow(n as u32) {
            let text: String = (0..n).map(|i| shapes[k / shapes.len().pow(i as u32) % shapes.len()]).collect();
            ctx.case(|| text.clone(), |c| ends_case(c, &text, &ins, true));
        }
    }
    let bs = if t { vec![b(3, 2, 3, 3, 7), b(4, 2, 2, 2, 7), b(2, 2, 3, 4, 7)] } else { vec![b(3, 2, 3, 3, 6), b(4, 2, 2, 2, 6)] };
    each_grammar(ctx, &bs, true, &mut |c, g| ends_case(c, &g.to_text(), if g.nts.len() > 4 { &few } else { &few[..3] }, g.prods.iter().map(|p| p.rhs.len()).sum::<usize>() != bs[0].total));
    ctx.family("unreachable, unproductive and undefined parts added to a working grammar");
    let extra = ["X: (x)\n= [ X => (y)\n]\n", "X: (x)\n= [ X X => (y)\n, \"x\" => (y)\n]\n", "X: (x)\n= [ Y => (y)\n]\nY: (x)\n= [ X => (y)\n]\n", "X: (x)\n= [ Undefined => (y)\n]\n", "X: (x)\n= [ S \"a\" => (y)\n]\n", "X: (x)\n= [ ]\n", "X: (x)\n= [ \"x\" X => (y)\n, X \"x\" => (y)\n]\n"];
    for (_, gs) in families() {
        for g in gs.iter().filter(|g| g.nts.len() < 6) {
            for e in extra {
                for user in [false, true] {
                    let mut text = g.to_text();
                    text.push_str(e);
                    if user {
                        text = text.replacen("= [\n", "= [\n    X => (null),\n", 1);
                    }
                    ctx.case(|| text.clone(), |c| ends_case(c, &text, &few[..2], t));
                }
            }
        }
    }
    ctx.family("long inputs: right and left recursion, nesting, broken at the end");
    let n = if t { 3000 } else { 800 };
    for (d, unit, open, close) in [("L -> L 'a' | 'a'", "a", "", ""), ("L -> 'a' L | 'a'", "a", "", ""), ("E -> '(' E ')' | 'a'", "a", "(", ")"), ("S -> A ; A -> B 'x' | 'a' ; B -> A", "a", "", "x"), ("S -> '(' Es ')' ; Es -> E Es | E ; E -> S | 'a'", "a", "(", ")")] {
        let g = G::dsl(d, &[]);
        for k in [n / 8, n] {
            let mid = if open.is_empty() && close.is_empty() { format!("{} ", unit).repeat(k) } else { format!("{}{}{}", open.repeat(k), unit, close.repeat(k)) };
            let v = vec![mid.clone(), format!("{} #", mid), format!("{} {} {}", mid, unit, close), mid[..mid.len() - 2].to_string()];
            ctx.case(|| format!("{} x {}", d, k), |c| ends_case(c, &g.to_text(), &v, true));
        }
    }
    ctx.family("large token definitions");
    let pats: Vec<String> = vec![
        format!("{}a{}", "(".repeat(120), ")*".repeat(120)),
        format!("{}a{}", "(".repeat(120), ")+".repeat(120)),
        format!("{}a{}", "(".repeat(120), ")?".repeat(120)),
        "a?".repeat(60) + &"a".repeat(60),
        "a".repeat(600),
        (0..200).map(|i| format!("k{}", i)).collect::<Vec<_>>().join("|"),
        "(a|b)*a(a|b)(a|b)(a|b)(a|b)(a|b)(a|b)".into(),
        "(a*)*(b*)*((a|b)*)*".into(),
        "(a|)(|b)(|)(()|a)*".into(),
        "[^a][^b][^c]".repeat(20),
        ".*.*.*".into(),
        "(((a+)+)+)+b".into(),
        "()".into(),
        "()*".into(),
        "(()*)*".into(),
    ];
    for p in &pats {
        for q in [None, Some("a"), Some(".*"), Some("[a-z]+")] {
            let text = format!("export start S: (x) = [\n  r\"{}\" => (y),\n{}]\n", p, q.map(|q| format!("  r\"{}\" \"!\" => (y),\n", q)).unwrap_or_default());
            let v = vec!["a".to_string(), "a".repeat(200), "ab".repeat(100), "b!".into(), "k1 k199".into()];
            ctx.case(|| format!("pattern {} with {:?}", &p[..p.len().min(60)], q), |c| ends_case(c, &text, &v, true));
        }
    }
}

// ------------------------------------------------------------------------------------------ C25

struct Obj {
    text: String,
    inputs: Vec<String>,
}

fn fresh_verdict(o: &Obj, input: &str) -> bool {
    let bump = Bump::new();
    let a: &[_] = bump.alloc(read_ast(&bump, &o.text).unwrap());
    let l = Lalr::new(Grammar::grammar_from_ast_productions(&bump, a));
    imp(|| l.parse(input)).is_ok()
}

fn history_case(c: &mut Case, objs: &[&Obj], first: (usize, usize), len: usize) {
    // alphabet: (object, input)
    let al: Vec<(usize, usize)> = objs.iter().enumerate().flat_map(|(i, o)| (0..o.inputs.len()).map(move |j| (i, j))).collect();
    let want: BTreeMap<(usize, usize), bool> = match imp(|| al.iter().map(|(i, j)| ((*i, *j), fresh_verdict(objs[*i], &objs[*i].inputs[*j]))).collect()) {
        Ok(w) => w,
        Err(p) => return c.fail("build panics", p),
    };
    let mut hist: Vec<Vec<(usize, usize)>> = vec![vec![first]];
    let mut all = vec![];
    for _ in 1..len {
        let mut next = vec![];
        for h in &hist {
            for a in &al {
                let mut k = h.clone();
                k.push(*a);
                next.push(k);
            }
        }
        hist = next;
    }
    all.extend(hist);
    for h in all {
        let bump = Bump::new();
        let ls = imp(|| {
            objs.iter()
                .map(|o| {
                    let a: &[_] = bump.alloc(read_ast(&bump, &o.text).unwrap());
                    Lalr::new(Grammar::grammar_from_ast_productions(&bump, a))
                })
                .collect::<Vec<_>>()
        });
        let ls = match ls {
            Ok(l) => l,
            Err(p) => return c.fail("build panics", p),
        };
        c.st.traces += 1;
        for (k, (i, j)) in h.iter().enumerate() {
            let got = imp(|| ls[*i].parse(&objs[*i].inputs[*j])).is_ok();
            c.eval(1);
            c.st.transitions += 1;
            if got != want[&(*i, *j)] {
                let calls: Vec<String> = h[..=k].iter().map(|(i, j)| format!("parser {} parses {:?}", i, objs[*i].inputs[*j])).collect();
                return c.fail(format!("calls {}", calls.join(", ")), format!("the last call gives {}, a fresh parser {}", got, !got));
            }
        }
    }
    c.st.states += want.len() as u64;
    let distinct: BTreeSet<bool> = want.values().copied().collect();
    if distinct.len() > 1 {
        c.nontrivial(&c.label.clone());
    }
    c.sample(|| format!("histories of {} calls over {} inputs", len, al.len()));
}

fn scan_history_case(c: &mut Case, text: &str, inputs: &[String], first: usize, len: usize) {
    use typelalr::lex::lex::Lex;
    let r = with_grammar(text, |gr| {
        let want: Vec<_> = inputs.iter().map(|i| imp(|| Lex::from_grammar(gr).lex(i))).collect();
        let total = inputs.len().pow(len as u32 - 1);
        for k in 0..total {
            let lex = match imp(|| Lex::from_grammar(gr)) {
                Ok(l) => l,
                Err(p) => return c.fail("build panics", p),
            };
            let mut h = vec![first];
            let mut x = k;
            for _ in 1..len {
                h.push(x % inputs.len());
                x /= inputs.len();
            }
            c.st.traces += 1;
            for (n, i) in h.iter().enumerate() {
                let got = imp(|| lex.lex(&inputs[*i]));
                c.eval(1);
                c.st.transitions += 1;
                let same = match (&got, &want[*i]) {
                    (Ok(a), Ok(b)) => a == b,
                    (Err(_), Err(_)) => true,
                    _ => false,
                };
                if !same {
                    return c.fail(format!("scans {:?}", h[..=n].iter().map(|i| &inputs[*i]).collect::<Vec<_>>()), format!("grammar\n{}the last scan gives {:?}, a fresh scanner {:?}", text, got, want[*i]));
                }
            }
        }
        c.st.states += inputs.len() as u64;
        c.nontrivial(&c.label.clone());
    });
    if let Err(e) = r {
        c.fail("not read", e);
    }
}

fn verdicts<'a>(g: &'a G) -> impl FnMut(&str) -> bool + 'a {
    let (sc, map) = g.scanner();
    let mut memo: std::collections::HashMap<Vec<usize>, bool> = Default::default();
    move |input: &str| {
        let chars: Vec<char> = input.chars().collect();
        let (toks, end) = sc.scan(&chars);
        if !chars[end..].iter().all(|x| is_blank(*x)) {
            return false;
        }
        let ids: Vec<usize> = toks.iter().map(|t| map[t.def]).collect();
        *memo.entry(ids.clone()).or_insert_with(|| crate::earley::accepts(g, &ids))
    }
}

fn token_strings(g: &G, n: usize) -> Vec<String> {
    let mut v = vec![];
    let ids: Vec<char> = (0..g.terms.len()).map(|i| (b'0' + i as u8) as char).collect();
    strings(&ids, n, &mut |s| v.push(s.iter().map(|c| g.terms[(*c as u8 - b'0') as usize].text.as_str()).collect::<Vec<_>>().join(" ")));
    v
}

/// Every ordered pair of token strings to length n, on one parser; the pairs whose first string has
/// number `first` modulo `parts`
fn pair_case(c: &mut Case, g: &G, _h: &G, n: usize, first: usize, parts: usize) {
    let text = g.to_text();
    let mut want = verdicts(g);
    let ins = token_strings(g, n);
    for (i, a) in ins.iter().enumerate() {
        if i % parts != first {
            continue;
        }
        for b in &ins {
            let bump = Bump::new();
            let l = match imp(|| {
                let ast: &[_] = bump.alloc(read_ast(&bump, &text).unwrap());
                Lalr::new(Grammar::grammar_from_ast_productions(&bump, ast))
            }) {
                Ok(l) => l,
                Err(p) => return c.fail("build panics", p),
            };
            c.st.traces += 1;
            for (k, x) in [a, b].into_iter().enumerate() {
                let got = imp(|| l.parse(x)).is_ok();
                c.eval(1);
                c.st.transitions += 1;
                if got != want(x) {
                    return c.fail(format!("{:?} then {:?}", a, b), format!("grammar\n{}call {} of {:?}, {:?} gives {}, expected {}", text, k + 1, a, b, got, !got));
                }
            }
        }
    }
    c.st.states += ins.len() as u64;
    c.nontrivial(&(&text, first));
}

fn twins_case(c: &mut Case, g: &G, h: &G, n: usize) {
    let (ta, tb) = (g.to_text(), h.to_text());
    let bump = Bump::new();
    let build = |t: &str| {
        imp(|| {
            let ast: &[_] = bump.alloc(read_ast(&bump, t).unwrap());
            Lalr::new(Grammar::grammar_from_ast_productions(&bump, ast))
        })
    };
    let (a, b) = match (build(&ta), build(&tb)) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(p), _) | (_, Err(p)) => return c.fail("build panics", p),
    };
    let (mut wa, mut wb) = (verdicts(g), verdicts(h));
    c.st.traces += 1;
    for x in token_strings(g, n) {
        for (k, (l, w)) in [(&a, wa(&x)), (&b, wb(&x))].into_iter().enumerate() {
            let got = imp(|| l.parse(&x)).is_ok();
            c.eval(1);
            c.st.transitions += 1;
            if got != w {
                return c.fail(format!("parser {} on {:?}", k, x), format!("first\n{}second\n{}both parse {:?} in turn: parser {} gives {}, expected {}", ta, tb, x, k + 1, got, w));
            }
        }
    }
    c.st.states += 2;
    c.nontrivial(&(ta, tb));
}

fn twin_scanners_case(c: &mut Case, a: &[TokDef], z: &[TokDef], n: usize) {
    use super::lexer::{expect_tokens, lex_defs};
    let both = imp(|| (typelalr::lex::lex::Lex::from_tokens(lex_defs(a)), typelalr::lex::lex::Lex::from_tokens(lex_defs(z))));
    let (la, lz) = match both {
        Ok(x) => x,
        Err(p) => return c.fail("build panics", p),
    };
    let (sa, sz) = (Scanner::new(a.to_vec()), Scanner::new(z.to_vec()));
    let mut ins: Vec<Vec<char>> = vec![];
    strings(&['a', 'b', ' '], n, &mut |s| ins.push(s.to_vec()));
    c.st.traces += 1;
    for s in &ins {
        let x: String = s.iter().collect();
        for (k, (l, sc)) in [(&la, &sa), (&lz, &sz)].into_iter().enumerate() {
            let want = expect_tokens(sc, s).0;
            let got = imp(|| l.lex(&x));
            c.eval(1);
            c.st.transitions += 1;
            if got.as_ref() != Ok(&want) {
                return c.fail(format!("scanner {} on {:?}", k, x), format!("both scan {:?} in turn: scanner {} gives {:?}, expected {:?}", x, k + 1, got, want));
            }
        }
    }
    c.st.states += 2;
    c.nontrivial(&c.label.clone());
}

fn scan_pairs_case(c: &mut Case, d: &[TokDef], n: usize) {
    use super::lexer::{expect_tokens, lex_defs};
    let sc = Scanner::new(d.to_vec());
    let mut ins: Vec<Vec<char>> = vec![];
    strings(&['a', 'b', 'c', ' '], n, &mut |s| ins.push(s.to_vec()));
    let want: Vec<_> = ins.iter().map(|s| expect_tokens(&sc, s).0).collect();
    let texts: Vec<String> = ins.iter().map(|s| s.iter().collect()).collect();
    let fresh = match imp(|| typelalr::lex::lex::Lex::from_tokens(lex_defs(d))) {
        Ok(l) => l,
        Err(p) => return c.fail("build panics", p),
    };
    for i in 0..ins.len() {
        for j in 0..ins.len() {
            // a copy of a scanner that has not been used
            let lex = fresh.clone();
            c.st.traces += 1;
            for k in [i, j] {
                let got = imp(|| lex.lex(&texts[k]));
                c.eval(1);
                c.st.transitions += 1;
                if got.as_ref() != Ok(&want[k]) {
                    return c.fail(format!("{:?} then {:?}", texts[i], texts[j]), format!("scan of {:?} gives {:?}, expected {:?}", texts[k], got, want[k]));
                }
            }
        }
    }
    c.st.states += ins.len() as u64;
    c.nontrivial(&c.label.clone());
}

pub fn c25(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let ap = [("w", plus(class("[a-z]", &[('a', 'z')]))), ("n", cat(vec![class("[1-9]", &[('1', '9')]), star(class("[0-9]", &[('0', '9')]))])), ("ab", cat(vec![plus(lit('a')), lit('b')]))];
    let o = |d: &str, ins: &[&str]| Obj { text: G::dsl(d, &ap).to_text(), inputs: ins.iter().map(|s| s.to_string()).collect() };
    let objs = vec![
        o("S -> '(' S ')' | 'a'", &["a", "(a)", "((a)", "(a))", "#", "", "(", "( a\n)"]),
        o("E -> E '+' T | T ; T -> T '*' F | F ; F -> '(' E ')' | /n/ | /w/", &["1", "1+x*2", "1+", "+", "1 # 2", "(x)*(y+12)", "01", " "]),
        o("S -> 'if' /w/ 'then' S | /w/ '=' /n/", &["x = 1", "if x then y = 2", "if if then", "iff = 3", "x = ", "x == 1", "then", "if x then if y then z = 9"]),
        o("L -> L /ab/ | /ab/ | 'a'", &["a", "ab", "aab ab", "aaa", "a a", "abab", "b", "é"]),
        o("S -> A A ; A -> 'c' A | 'd'", &["dd", "cdd", "c", "ddd", "cccdcd", "d", "d d ", "x"]),
        o("S -> 'é' S | '😀'", &["😀", "é😀", "é", "éé😀", "😀é", "e", "é 😀", "😀😀"]),
    ];
    let len = if t { 4 } else { 3 };
    ctx.family("one parser, all call histories");
    for (i, ob) in objs.iter().enumerate() {
        for j in 0..ob.inputs.len() {
            ctx.case(|| format!("parser {} first {:?}", i, ob.inputs[j]), |c| history_case(c, &[ob], (0, j), len));
        }
    }
    ctx.family("two parsers in one process, all interleaved call histories");
    for i in 0..objs.len() {
        for k in 0..objs.len() {
            for j in 0..objs[i].inputs.len() {
                ctx.case(|| format!("parsers {} and {} first {:?}", i, k, objs[i].inputs[j]), |c| history_case(c, &[&objs[i], &objs[k]], (0, j), if t { 3 } else { 2 }));
            }
        }
    }
    ctx.family("one parser, all ordered pairs of short token strings");
    for (k, (d, n)) in [("S -> 'a' S 'b' | 'a' 'b'", 5usize), ("L -> L 'a' | 'b'", 5), ("S -> 'a' 'b' 'a' 'b' | 'b' 'a' 'a' 'b' | 'a' 'a'", 4), ("S -> A A ; A -> 'a' A | 'b'", 5), ("S -> 'a' | 'b' | 'ab' S | 'ba'", 4), ("S -> 'é' S '€' | 'a'", 4)].into_iter().enumerate() {
        let g = G::dsl(d, &[]);
        let m = g.terms.len();
        let firsts = m.pow(n as u32 - 1).min(27);
        for first in 0..firsts {
            ctx.case(|| format!("{} pairs {}", d, first), |c| pair_case(c, &g, &g, if t { n + 1 } else { n } - (k / 4).min(1), first, firsts));
        }
    }
    ctx.family("one parser, inputs that differ in one place of many");
    for (d, base) in [("L -> L I | I ; I -> 'a' | 'b' 'c' | '(' L ')'", "abcaabca(a)bca"), ("E -> E '+' T | T ; T -> '(' E ')' | 'a' | 'b'", "a+b+(a+(b)+a)+b"), ("S -> 'a' S 'b' | 'a' 'b'", "aaaaaaaabbbbbbbb")] {
        let g = G::dsl(d, &[]);
        let chars: Vec<char> = base.chars().collect();
        let mut ins: Vec<String> = vec![base.to_string()];
        for i in 0..chars.len() {
            for x in g.terms.iter().map(|x| x.text.chars().next().unwrap()).chain(['#', ' ']) {
                let mut v = chars.clone();
                v[i] = x;
                ins.push(v.iter().collect());
            }
            if i + 1 < chars.len() {
                let mut v = chars.clone();
                v.swap(i, i + 1);
                ins.push(v.iter().collect());
            }
        }
        let o = Obj { text: g.to_text(), inputs: ins };
        for first in 0..o.inputs.len() {
            if t || first % 3 == 0 {
                ctx.case(|| format!("{} first {}", d, o.inputs[first]), |c| history_case(c, &[&o], (0, first), 2));
            }
        }
    }
    ctx.family("two parsers of different grammars with the same tokens, same input to both, all pairs of small grammars");
    let mut small = vec![];
    for bd in [b(2, 2, 2, 2, 4), b(1, 2, 2, 3, 4)] {
        enumerate(&bd, &mut |g| {
            if g.terms.len() == 2 && g.all_productive() && lr::lalr(&g, CAP).map_or(false, |r| r.conflicts.is_empty()) {
                small.push(g)
            }
        });
    }
    for (i, g) in small.iter().enumerate() {
        for h in &small {
            // the terminals are numbered by first occurrence: exchange them in the second one
            for swap in [false, true] {
                if ctx.skip() {
                    continue;
                }
                let mut h = h.clone();
                if swap {
                    h.terms.swap(0, 1);
                }
                ctx.case(|| format!("{} and {}: {}", i, g.short(), h.short()), |c| twins_case(c, g, &h, if t { 5 } else { 3 }));
            }
        }
    }
    ctx.family("two scanners, same input to both, all pairs of token sets");
    let pool = super::lexer::token_pool();
    for i in 0..pool.len() * pool.len() {
        for j in 0..pool.len() * pool.len() {
            if ctx.skip() {
                continue;
            }
            let two = |k: usize| super::lexer::named(&[pool[k / pool.len()].clone(), pool[k % pool.len()].clone()]);
            let (a, z) = (two(i), two(j));
            ctx.case(|| format!("{} and {}", super::lexer::show_defs(&a), super::lexer::show_defs(&z)), |c| twin_scanners_case(c, &a, &z, if t { 4 } else { 2 }));
        }
    }
    ctx.family("one scanner, all ordered pairs of inputs");
    for i in 0..pool.len() * pool.len() {
        let d = super::lexer::named(&[pool[i / pool.len()].clone(), pool[i % pool.len()].clone()]);
        ctx.case(|| super::lexer::show_defs(&d), |c| scan_pairs_case(c, &d, if t { 4 } else { 3 }));
    }
    ctx.family("one scanner, all scan histories");
    for (i, ob) in objs.iter().enumerate() {
        for j in 0..ob.inputs.len() {
            ctx.case(|| format!("scanner {} first {:?}", i, ob.inputs[j]), |c| scan_history_case(c, &ob.text, &ob.inputs, j, if t { 6 } else { 4 }));
        }
    }
}

// ------------------------------------------------------------------------------------------ C26

/// Tables of the text of `g` with blocks in the order `o` and the alternatives of block n in the
/// order `alt[n]`, in the numbering of `g` itself
fn tables_reordered(g: &G, blocks: &[usize], alt: &[Vec<usize>]) -> Result<(String, Outcome), String> {
    let mut text = String::new();
    let mut number = vec![0usize];
    for n in blocks {
        let own: Vec<usize> = (0..g.prods.len()).filter(|i| g.prods[*i].lhs == *n).collect();
        text.push_str(&format!("export {}{}: ({}) = [\n", if *n == g.start { "start " } else { "" }, g.nts[*n], g.types[*n]));
        for k in &alt[*n] {
            let p = &g.prods[own[*k]];
            text.push_str(&format!("    {} => ({}),\n", g.body_text(p), p.action));
            number.push(own[*k] + 1);
        }
        text.push_str("]\n");
    }
    let r = with_grammar(&text, |gr| impl_tables(gr, g))??;
    Ok((
        text,
        match r {
            Outcome::Tables(mut t) => {
                for row in t.action.iter_mut() {
                    for a in row.values_mut() {
                        if let Act::Reduce(p) = a {
                            match number.get(*p) {
                                Some(q) => *p = *q,
                                None => return Err(format!("reduction by rule {}", p)),
                            }
                        }
                    }
                }
                Outcome::Tables(t)
            }
            r => r,
        },
    ))
}

/// A token sequence one of the two tables accepts and the other does not, to `depth`
fn difference(a: &Tables, b: &Tables, g: &G, depth: usize) -> Option<Vec<usize>> {
    let terms = g.used_terms();
    let mut stack = vec![(vec![], Drive::new(), Drive::new())];
    while let Some((w, da, db)) = stack.pop() {
        let mut bad = None;
        let (mut ea, mut eb) = (da.clone(), db.clone());
        if (ea.feed(a, g, 0, &mut bad).0 == Step::Accepted) != (eb.feed(b, g, 0, &mut bad).0 == Step::Accepted) {
            return Some(w);
        }
        if w.len() == depth {
            continue;
        }
        for t in &terms {
            let (mut ea, mut eb) = (da.clone(), db.clone());
            let (x, y) = (ea.feed(a, g, t + 1, &mut bad).0 == Step::Shifted, eb.feed(b, g, t + 1, &mut bad).0 == Step::Shifted);
            let mut v: Vec<usize> = w.clone();
            v.push(*t);
            match (x, y) {
                (true, true) => stack.push((v, ea, eb)),
                (false, false) => (),
                // one goes on, the other is stuck: a difference when some sentence starts like this
                _ => {
                    let mut e = Earley::new(g);
                    if v.iter().all(|t| e.push(*t)) {
                        return Some(v);
                    }
                }
            }
        }
    }
    None
}

fn same(c: &mut Case, what: &str, g: &G, base: &Outcome, text: &str, got: &Outcome) -> bool {
    c.eval(1);
    c.st.traces += 1;
    match (base, got) {
        (Outcome::Refused(p), Outcome::Refused(q)) if is_conflict(p) == is_conflict(q) => {
            c.hist("both refused");
            true
        }
        (Outcome::Tables(a), Outcome::Tables(b)) => {
            c.st.states += b.action.len() as u64;
            match lr::isomorphic(a, b) {
                Ok(n) => {
                    c.st.transitions += n as u64;
                    c.hist("same tables");
                    true
                }
                Err(e) => match difference(a, b, g, 6) {
                    None => {
                        c.hist("different tables, same language to the depth explored");
                        true
                    }
                    Some(w) => {
                        c.fail(what.to_string(), format!("grammar\n{}\nrewritten\n{}\nonly one accepts (a text beginning with) {}; tables: {}", g.to_text(), text, show(g, &w), e));
                        false
                    }
                },
            }
        }
        (x, y) => {
            let d = |o: &Outcome| match o {
                Outcome::Refused(p) => format!("refused ({})", p),
                _ => "accepted".into(),
            };
            c.fail(what.to_string(), format!("grammar\n{}is {}, rewritten\n{}is {}", g.to_text(), d(x), text, d(y)));
            false
        }
    }
}

fn rename_case(c: &mut Case, g: &G, nts: &[Vec<&str>], lits: &[Vec<&str>]) {
    let base = match build_tables(g) {
        Ok(b) => b,
        Err(e) => return c.fail("no tables", e),
    };
    for n in nts {
        for l in lits {
            let mut h = g.clone();
            for i in 0..h.nts.len().min(n.len()) {
                h.nts[i] = n[i].to_string();
            }
            for i in 0..h.terms.len().min(l.len()) {
                if h.terms[i].is_lit {
                    h.terms[i] = Term::lit(l[i]);
                }
            }
            let got = match build_tables(&h) {
                Ok(x) => x,
                Err(e) => return c.fail(format!("names {:?} literals {:?}", n, l), format!("grammar\n{}: {}", h.to_text(), e)),
            };
            if !same(c, &format!("names {:?} literals {:?}", n, l), g, &base, &h.to_text(), &got) {
                return;
            }
        }
    }
    c.nontrivial(&g.short());
    c.sample(|| g.short());
}

fn reorder_case(c: &mut Case, g: &G) {
    let base = match build_tables(g) {
        Ok(b) => b,
        Err(e) => return c.fail("no tables", e),
    };
    let counts: Vec<usize> = (0..g.nts.len()).map(|n| g.prods.iter().filter(|p| p.lhs == n).count()).collect();
    let cap = |k: usize, n: usize| -> Vec<Vec<usize>> {
        if n <= k {
            super::notation::permutations(n)
        } else {
            // rotations and the reverse
            (0..n).map(|r| (0..n).map(|i| (i + r) % n).collect()).chain([(0..n).rev().collect()]).collect()
        }
    };
    let mut alts: Vec<Vec<Vec<usize>>> = vec![vec![]];
    for n in &counts {
        alts = alts.into_iter().flat_map(|a| cap(4, *n).into_iter().map(move |p| { let mut b = a.clone(); b.push(p); b })).collect();
        if alts.len() > 60 {
            alts.truncate(60);
        }
    }
    for o in g.rule_orders(if super::lexer::ctx_thorough() { 4 } else { 3 }) {
        let h = g.torn(&o);
        let what = format!("rules in the order {:?}", o);
        let got = match build_tables(&h) {
            Ok(Outcome::Tables(mut t)) => match renumber(&mut t, &o) {
                Ok(()) => Outcome::Tables(t),
                Err(e) => return c.fail(what, format!("{}: {}", h.to_text(), e)),
            },
            Ok(r) => r,
            Err(e) => return c.fail(what, format!("{}: {}", h.to_text(), e)),
        };
        if !same(c, &what, g, &base, &h.to_text(), &got) {
            return;
        }
    }
    for o in cap(3, g.nts.len()) {
        for a in &alts {
            let (text, got) = match tables_reordered(g, &o, a) {
                Ok(x) => x,
                Err(e) => return c.fail(format!("blocks {:?} alternatives {:?}", o, a), e),
            };
            if !same(c, &format!("blocks {:?} alternatives {:?}", o, a), g, &base, &text, &got) {
                return;
            }
        }
    }
    c.nontrivial(&(g.short(), 1));
}

pub fn c26(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let nts: Vec<Vec<&str>> = vec![vec!["S", "A", "B"], vec!["B", "S", "A"], vec!["a", "b", "c"], vec!["b", "a", "S"], vec!["A", "A_", "A0"], vec!["A0", "A", "AA"], vec!["Z", "_", "a1"], vec!["EOF", "Eof", "Epsilon"], vec!["StrLit", "NonTerminal", "Regex"]];
    let lits: Vec<Vec<&str>> = vec![vec!["a", "b"], vec!["b", "a"], vec!["S", "A"], vec!["A", "S"], vec!["S'", "A'"], vec!["ab", "a"], vec!["(", ")"], vec!["\"", "\\"], vec!["EOF", "$"], vec!["é", "z"]];
    ctx.family("renaming");
    let bs = if t { vec![b(3, 2, 3, 3, 6), b(2, 2, 3, 4, 6)] } else { vec![b(3, 2, 2, 2, 5), b(2, 2, 3, 3, 5)] };
    let mut list = vec![];
    for bd in &bs {
        enumerate(bd, &mut |g| list.push(g));
    }
    for g in &list {
        ctx.case(|| format!("rename {}", g.short()), |c| rename_case(c, g, &nts, &lits));
    }
    for (_, gs) in families() {
        for g in gs.iter().filter(|g| g.prods.len() < 20) {
            let rev: Vec<String> = (0..g.nts.len()).map(|i| format!("N{}", 99 - i)).collect();
            let tail: Vec<String> = (0..g.nts.len()).map(|i| format!("{}{}", g.nts[0], "_".repeat(i))).collect();
            let lit: Vec<String> = g.terms.iter().enumerate().map(|(i, t)| if t.is_lit { t.text.clone() } else { format!("P{}", i) }).collect();
            // nonterminals spelled like literals, where those are identifiers
            let ids: Vec<String> = g.nts.iter().enumerate().map(|(i, n)| lit.get(i).filter(|l| l.chars().all(|c| c.is_ascii_alphabetic()) && l.as_str() != "r").cloned().unwrap_or(format!("{}9", n))).collect();
            let swap: Vec<String> = g.terms.iter().enumerate().map(|(i, _)| format!("k{}", 99 - i)).collect();
            let ntn: Vec<String> = g.terms.iter().enumerate().map(|(i, t)| if t.is_lit { g.nts.get(i).cloned().unwrap_or(t.text.clone()) } else { t.text.clone() }).collect();
            let v = |x: &'_ [String]| -> Vec<String> { x.to_vec() };
            let (n1, n2, n3, l0, l1, l2) = (v(&rev), v(&tail), v(&ids), v(&lit), v(&swap), v(&ntn));
            fn r(x: &[String]) -> Vec<&str> {
                x.iter().map(|s| s.as_str()).collect()
            }
            ctx.case(|| format!("rename {}", g.short()), |c| rename_case(c, g, &[r(&g.nts), r(&n1), r(&n2), r(&n3)], &[r(&l0), r(&l1), r(&l2)]));
        }
    }
    ctx.family("names with a meaning elsewhere, names that share a long beginning");
    for (h, g) in super::notation::named_grammars() {
        ctx.case(
            || format!("{} for {}", h.short(), g.short()),
            |c| {
                let (base, got) = match (build_tables(&g), build_tables(&h)) {
                    (Ok(a), Ok(b)) => (a, b),
                    (Err(e), _) | (_, Err(e)) => return c.fail("no tables", e),
                };
                if same(c, "renamed", &g, &base, &h.to_text(), &got) {
                    reorder_case(c, &h);
                }
            },
        );
    }
    ctx.family("reordering blocks and alternatives");
    for g in &list {
        ctx.case(|| format!("reorder {}", g.short()), |c| reorder_case(c, g));
    }
    for (_, gs) in families() {
        for g in gs.iter().filter(|g| g.prods.len() < 20) {
            ctx.case(|| format!("reorder {}", g.short()), |c| reorder_case(c, g));
        }
    }
    ctx.family("nonterminals, literals and patterns with the same text, texts parsed");
    for d in ["S -> A 'A' | 'S' ; A -> 'B' | B ; B -> 'b'", "A -> 'A' A | 'A'", "S -> B 'A' ; B -> A 'B' ; A -> 'S' | 'S' A", "S -> 'S' '(' S ')' | A ; A -> 'A' | 'EOF'"] {
        let g = G::dsl(d, &[]);
        ctx.case(|| d.to_string(), |c| verdict_case(c, &g, if t { 400 } else { 100 }, 7));
    }
}
