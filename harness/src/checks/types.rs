//! C16-C20: the generated modules and what the type-level programs compute. The types are evaluated
//! by the TypeScript compiler: jobs written here, run by tools/ts_eval.js.
use super::lexer::*;
use super::tables::*;
use crate::engine::*;
use crate::gram::*;
use crate::lr::{self, Act, Tables};
use crate::re::*;
use crate::tsread::{LexTables, ParseTables, TAct};
use bumpalo::Bump;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use typelalr::codegen::{lex_gen, parse_gen};
use typelalr::lalr::item::ProductionIdx;
use typelalr::lalr::table::{make_tables, Action};
use typelalr::lalr::Lalr;
use typelalr::lex::lex::Lex;
use typelalr::parser::{Grammar, Symbol};

// ---------------------------------------------------------------------------------- values, jobs

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum V {
    Never,
    Null,
    Bool(bool),
    Num(i64),
    Str(String),
    Arr(Vec<V>),
    Obj(Vec<(String, V)>),
}

impl V {
    pub fn json(&self) -> String {
        match self {
            V::Never => "{\"$\":\"never\"}".into(),
            V::Null => "null".into(),
            V::Bool(b) => b.to_string(),
            V::Num(n) => n.to_string(),
            V::Str(s) => jstr(s),
            V::Arr(v) => format!("[{}]", v.iter().map(V::json).collect::<Vec<_>>().join(",")),
            V::Obj(v) => format!("{{{}}}", v.iter().map(|(k, x)| format!("{}:{}", jstr(k), x.json())).collect::<Vec<_>>().join(",")),
        }
    }
    pub fn s(s: &str) -> V {
        V::Str(s.into())
    }
    pub fn obj(v: &[(&str, V)]) -> V {
        V::Obj(v.iter().map(|(k, x)| (k.to_string(), x.clone())).collect())
    }
}

/// What an alternative does with its symbols
#[derive(Clone, Debug)]
pub enum A {
    Lit(V),
    Var(usize),
    /// member of the value of a symbol
    Member(usize, &'static str),
    Tuple(Vec<A>),
    /// inside a tuple
    Spread(usize),
    Obj(Vec<(&'static str, A)>),
}

impl A {
    pub fn text(&self, names: &[Option<String>]) -> String {
        let n = |i: &usize| names[*i].clone().expect("name");
        match self {
            A::Lit(v) => v.json(),
            A::Var(i) => n(i),
            A::Member(i, k) => format!("{}['{}']", n(i), k),
            A::Tuple(v) => format!("[{}]", v.iter().map(|a| a.text(names)).collect::<Vec<_>>().join(", ")),
            A::Spread(i) => format!("...{}", n(i)),
            A::Obj(v) => format!("{{ {} }}", v.iter().map(|(k, a)| format!("{}: {}", k, a.text(names))).collect::<Vec<_>>().join(", ")),
        }
    }
    pub fn eval(&self, vals: &[V]) -> V {
        match self {
            A::Lit(v) => v.clone(),
            A::Var(i) => vals[*i].clone(),
            A::Member(i, k) => match &vals[*i] {
                V::Obj(v) => v.iter().find(|x| x.0 == *k).unwrap().1.clone(),
                x => panic!("member of {:?}", x),
            },
            A::Tuple(v) => {
                let mut o = vec![];
                for a in v {
                    match a {
                        A::Spread(i) => match &vals[*i] {
                            V::Arr(x) => o.extend(x.iter().cloned()),
                            x => panic!("spread of {:?}", x),
                        },
                        a => o.push(a.eval(vals)),
                    }
                }
                V::Arr(o)
            }
            A::Spread(_) => panic!("spread outside a tuple"),
            A::Obj(v) => V::Obj(v.iter().map(|(k, a)| (k.to_string(), a.eval(vals))).collect()),
        }
    }
}

/// Grammar with actions
#[derive(Clone)]
pub struct AG {
    pub g: G,
    pub acts: Vec<A>,
}

impl AG {
    pub fn new(mut g: G, acts: Vec<A>) -> AG {
        for (p, a) in g.prods.iter_mut().zip(&acts) {
            p.action = a.text(&p.names);
        }
        AG { g, acts }
    }

    /// Every alternative yields [its number, the values of its named symbols...]
    pub fn tagged(g: G) -> AG {
        let acts = g
            .prods
            .iter()
            .enumerate()
            .map(|(i, p)| {
                let mut v = vec![A::Lit(V::s(&format!("p{}", i)))];
                v.extend(p.names.iter().enumerate().filter(|(_, n)| n.is_some()).map(|(k, _)| A::Var(k)));
                A::Tuple(v)
            })
            .collect();
        AG::new(g, acts)
    }

    /// Value of a token sequence (terminal, text) and the number of shifts and reductions; the
    /// tables are the reference's
    pub fn value(&self, t: &Tables, toks: &[(usize, String)]) -> (Option<V>, usize) {
        let mut st = vec![0usize];
        let mut vals: Vec<V> = vec![];
        let mut steps = 0;
        let mut i = 0;
        loop {
            let a = toks.get(i).map(|x| x.0 + 1).unwrap_or(0);
            match t.action[*st.last().unwrap()].get(&a) {
                None => return (None, steps),
                Some(Act::Shift(j)) => {
                    st.push(*j);
                    vals.push(V::s(&toks[i].1));
                    i += 1;
                    steps += 1;
                }
                Some(Act::Reduce(p)) => {
                    let p = p - 1;
                    let k = self.g.prods[p].rhs.len();
                    let at = vals.len() - k;
                    let v = self.acts[p].eval(&vals[at..]);
                    vals.truncate(at);
                    vals.push(v);
                    st.truncate(st.len() - k);
                    st.push(t.goto[*st.last().unwrap()][&self.g.prods[p].lhs]);
                    steps += 1;
                }
                Some(Act::Accept) => return (Some(vals.pop().unwrap()), steps),
            }
        }
    }
}

pub struct Job {
    pub lex: Option<String>,
    pub parse: Option<String>,
    pub shipped: bool,
    pub text: String,
    /// type, kind of expectation, expected JSON, name of the failing input
    pub exprs: Vec<(String, &'static str, String, String)>,
    pub diag: Vec<&'static str>,
    /// further modules, by the name under which they are imported
    pub files: Vec<(String, String)>,
}

impl Job {
    pub fn new() -> Job {
        Job { lex: None, parse: None, shipped: false, text: String::new(), exprs: vec![], diag: vec![], files: vec![] }
    }
    pub fn eq(&mut self, e: impl Into<String>, want: &V, what: impl Into<String>) {
        self.exprs.push((e.into(), "eq", want.json(), what.into()));
    }
    pub fn emit(&self, c: &mut Case) {
        let mut o = format!("{{\"idx\":{},\"label\":{},\"family\":{},\"text\":{},\"shipped\":{}", c.idx, jstr(&c.label), jstr(c.family), jstr(&self.text), self.shipped);
        if let Some(l) = &self.lex {
            o.push_str(&format!(",\"lex\":{}", jstr(l)));
        }
        if let Some(l) = &self.parse {
            o.push_str(&format!(",\"parse\":{}", jstr(l)));
        }
        if !self.files.is_empty() {
            o.push_str(&format!(",\"files\":{{{}}}", self.files.iter().map(|(n, t)| format!("{}:{}", jstr(n), jstr(t))).collect::<Vec<_>>().join(",")));
        }
        if !self.diag.is_empty() {
            o.push_str(&format!(",\"diag\":[{}]", self.diag.iter().map(|d| jstr(d)).collect::<Vec<_>>().join(",")));
        }
        o.push_str(&format!(",\"exprs\":[{}]}}", self.exprs.iter().map(|(e, k, w, n)| format!("[{},{},{},{}]", jstr(e), jstr(k), w, jstr(n))).collect::<Vec<_>>().join(",")));
        c.out_lines.push(o);
    }
}

/// The number table every type-level job runs with, made by the real generator
pub fn header(ctx: &mut Ctx, n: u32) {
    let mut buf = String::new();
    let r = imp(|| {
        let mut b = String::new();
        lex_gen::gen_arithmetic(&mut b, n);
        b
    });
    if let Ok(b) = r {
        buf = b;
    }
    ctx.out_lines.push(format!("{{\"arith\":{}}}", jstr(&buf)));
}

pub const NUMBERS: u32 = 5000;

/// Characters the type-level programs know: visible Latin-1, space and newline
pub fn supported(c: char) -> bool {
    let n = c as u32;
    n < 256 && ![9u32, 11, 12, 13, 127, 160, 173].contains(&n)
}

fn tok_v(d: &TokDef, text: &str) -> V {
    if d.with_val {
        V::obj(&[("kind", V::s(&d.name)), ("value", V::s(text))])
    } else {
        V::obj(&[("kind", V::s(&d.name))])
    }
}

fn eof_v() -> V {
    V::obj(&[("kind", V::s("EOF"))])
}

/// What the type-level lexer has to yield; None: an error
fn lex_want(sc: &Scanner, input: &[char]) -> Option<V> {
    if !input.iter().all(|c| supported(*c)) {
        return None;
    }
    let (toks, end) = sc.scan(input);
    if end != input.len() {
        return None;
    }
    Some(V::Arr(toks.iter().map(|t| tok_v(&sc.defs[t.def], &input[t.start..t.end].iter().collect::<String>())).chain([eof_v()]).collect()))
}

/// Both modules of a grammar, together with its lowered grammar's parser
fn generate_modules(text: &str) -> Result<(String, String), String> {
    let bump = Bump::new();
    let ast = read_ast(&bump, text)?;
    let ast: &[_] = bump.alloc(ast);
    let lalr = imp(|| Lalr::new(Grammar::grammar_from_ast_productions(&bump, ast)))?;
    imp(|| parse_gen::generate(&bump, ast, &lalr).map_err(|e| format!("{:?}", e)))?
}

// ------------------------------------------------------------------------------------------ C16

/// Interpreter of the generated tables: the algorithm of the in-process scanner
fn table_scan(t: &LexTables, input: &[char]) -> (Vec<(String, Option<String>)>, usize) {
    let mut out = vec![];
    let mut p = 0;
    while p < input.len() {
        let (mut s, mut best) = (0, None);
        for (k, c) in input[p..].iter().enumerate() {
            match t.step(s, *c) {
                Some(n) => s = n,
                None => break,
            }
            if t.states[s].accepting {
                best = Some((p + k + 1, s));
            }
        }
        match best {
            Some((e, s)) => {
                let (kind, v) = match t.token_of(s) {
                    Some(x) => x.clone(),
                    None => ("?".into(), false),
                };
                out.push((kind, if v { Some(input[p..e].iter().collect()) } else { None }));
                p = e;
            }
            None if is_blank(input[p]) => p += 1,
            None => break,
        }
    }
    (out, p)
}

fn lextable_case(c: &mut Case, defs: &[TokDef], alphabet: &[char], depth: usize) {
    let lex = match imp(|| Lex::from_tokens(lex_defs(defs))) {
        Ok(l) => l,
        Err(p) => return c.fail("build panics", format!("{}: {}", show_defs(defs), p)),
    };
    let text = match imp(|| lex_gen::generate(&lex)) {
        Ok(t) => t,
        Err(p) => return c.fail("generation panics", format!("{}: {}", show_defs(defs), p)),
    };
    check_lextable(c, &Scanner::new(defs.to_vec()), &lex, &text, &show_defs(defs), alphabet, depth)
}

fn check_lextable(c: &mut Case, sc: &Scanner, lex: &Lex, text: &str, shown: &str, alphabet: &[char], depth: usize) {
    let defs = &sc.defs;
    c.eval(1);
    let tab = match LexTables::read(text) {
        Ok(t) => t,
        Err(e) => return c.fail("tables unreadable", format!("{}: {}", shown, e)),
    };
    for (k, (kind, v)) in &tab.tokens {
        if !defs.iter().any(|d| d.name == *kind && d.with_val == *v) {
            return c.fail(format!("token {}", k), format!("{}: entry {:?} with value {} is no token of the scanner", shown, kind, v));
        }
    }
    for (i, s) in tab.states.iter().enumerate() {
        if s.edges.iter().any(|e| e.0 >= e.1 || e.2 >= tab.states.len()) {
            return c.fail(format!("state {}", i), format!("{}: {:?}", shown, s));
        }
        if s.accepting && tab.token_of(i).is_none() {
            return c.fail(format!("state {} accepts no token", i), format!("{}: {:?}", shown, tab.dfa_to_nfa.get(&i)));
        }
    }
    // product with the reference: the token of every state, for inputs of any length
    let ends: Vec<u32> = tab.states.iter().flat_map(|s| s.edges.iter().flat_map(|e| [e.0, e.1])).collect();
    let reps = class_ends(sc.auts.iter().flat_map(|a| a.leaves.iter()), &ends);
    let mut seen: HashMap<(Vec<St>, Option<usize>), String> = HashMap::new();
    let mut q = VecDeque::new();
    let s0 = (sc.auts.iter().map(|a| a.start()).collect::<Vec<_>>(), Some(0));
    seen.insert(s0.clone(), String::new());
    q.push_back(s0);
    while let Some(cur) = q.pop_front() {
        let w = seen[&cur].clone();
        c.st.states += 1;
        if !w.is_empty() {
            let want = sc.auts.iter().zip(&cur.0).position(|(a, s)| a.accepting(s)).map(|d| (defs[d].name.clone(), defs[d].with_val));
            let got = cur.1.filter(|s| tab.states[*s].accepting).and_then(|s| tab.token_of(s).cloned());
            if want != got {
                return c.fail(format!("token of {:?}", w), format!("{}: {:?} is {:?}, the tables say {:?}", shown, w, want, got));
            }
        }
        for ch in &reps {
            c.st.transitions += 1;
            let n: Vec<St> = sc.auts.iter().zip(&cur.0).map(|(a, s)| a.step(s, *ch as u32)).collect();
            let m = cur.1.and_then(|s| tab.step(s, *ch));
            if m.is_none() && n.iter().zip(&sc.auts).all(|(s, a)| a.is_dead(s)) {
                continue;
            }
            let k = (n, m);
            if !seen.contains_key(&k) {
                let w2 = format!("{}{}", w, ch);
                if w2.chars().count() > 400 {
                    return c.fail("tables do not close", shown.to_string());
                }
                seen.insert(k.clone(), w2);
                q.push_back(k);
            }
        }
    }
    // a definition some input belongs to is listed even if others win against it
    for (i, d) in defs.iter().enumerate() {
        if seen.keys().any(|k| sc.auts[i].accepting(&k.0[i])) && !tab.tokens.values().any(|t| t.0 == d.name && t.1 == d.with_val) {
            return c.fail(format!("definition {} not listed", i), format!("{}: the token list {:?} has no entry for definition {} ({:?}, with value {})", shown, tab.tokens, i, d.name, d.with_val));
        }
    }
    // the in-process scanner on every witness and on all short inputs
    let mut list: Vec<Vec<char>> = seen.values().map(|w| w.chars().collect()).collect();
    list.sort();
    strings(alphabet, depth, &mut |s| list.push(s.to_vec()));
    for s in &list {
        let t: String = s.iter().collect();
        let (toks, end) = table_scan(&tab, s);
        c.st.traces += 1;
        let (got, eaten) = match imp(|| lex.lex_prefix(&t)) {
            Ok(x) => x,
            Err(p) => return c.fail(format!("scanner panics on {:?}", t), p),
        };
        let want: Vec<typelalr::lex::lex::Token> = toks
            .iter()
            .map(|(k, v)| match v {
                Some(v) => typelalr::lex::lex::Token::new_with_val(k.clone(), v.clone()),
                None => typelalr::lex::lex::Token::new(k.clone()),
            })
            .collect();
        if want != got || end != eaten {
            return c.fail(format!("input {:?}", t), format!("{}: the tables give {:?} to {}, the scanner {:?} to {}", shown, want, end, got, eaten));
        }
    }
    c.nontrivial(shown);
    let n = seen.len();
    c.sample(|| format!("{}: {} product states, {} inputs", shown, n, list.len()));
}

fn val_defs(pool: &[Re], novals: u32) -> Vec<TokDef> {
    pool.iter().enumerate().map(|(i, r)| TokDef { name: format!("t{}", i), with_val: novals >> i & 1 == 0, re: r.clone() }).collect()
}

pub fn c16(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let pool = token_pool();
    ctx.family("lists of definitions, with and without value");
    let k = if t { 4 } else { 3 };
    lists(pool.len(), k, &mut |ix| {
        if ctx.skip() {
            return;
        }
        let res: Vec<Re> = ix.iter().map(|i| pool[*i].clone()).collect();
        let d = val_defs(&res, (ix.iter().sum::<usize>() % 8) as u32);
        ctx.case(|| show_defs(&d), |c| lextable_case(c, &d, &['a', 'b', 'c', ' '], if t { 5 } else { 4 }));
    });
    ctx.family("tokens that begin with blanks or contain them");
    let bp = blank_pool();
    lists(bp.len(), 2, &mut |ix| {
        let d = val_defs(&ix.iter().map(|i| bp[*i].clone()).collect::<Vec<_>>(), (ix.iter().sum::<usize>() % 4) as u32);
        ctx.case(|| show_defs(&d), |c| lextable_case(c, &d, &['a', 'b', ' ', '\n'], 4));
    });
    ctx.family("one definition");
    for r in realistic().into_iter().chain(boundary_classes()) {
        let d = val_defs(&[r], 0);
        ctx.case(|| show_defs(&d), |c| lextable_case(c, &d, &['a', '1', '"', ' '], 3));
    }
    ctx.family("realistic token sets");
    for d in realistic_sets() {
        ctx.case(|| show_defs(&d), |c| lextable_case(c, &d, &['a', '1', '"', ' ', '=', '/', '*'], 4));
    }
    ctx.family("names of any spelling");
    for c0 in (0x20u32..0x100).chain([9, 10, 0, 0x3b1, 0x2028, 0x4e00, 0x1f600]).filter_map(char::from_u32) {
        let names = [c0.to_string(), format!("a{}", c0), format!("{}{}", c0, c0), format!("{}\"\\{}", c0, c0)];
        let d: Vec<TokDef> = names.iter().enumerate().map(|(i, n)| TokDef { name: n.clone(), with_val: i % 2 == 0, re: text(&"wxyz"[i..i + 1]) }).collect();
        ctx.case(|| show_defs(&d), |c| lextable_case(c, &d, &['w', 'x', ' '], 3));
    }
    ctx.family("scanners of grammars");
    for (_, gs) in families() {
        for g in gs {
            let text = g.to_text();
            ctx.case(
                || g.short(),
                |c| {
                    let (sc, _) = g.scanner();
                    let r = with_grammar(&text, |gr| {
                        imp(|| {
                            let l = Lex::from_grammar(gr);
                            let t = lex_gen::generate(&l);
                            (l, t)
                        })
                    });
                    match r {
                        Ok(Ok((l, t))) => check_lextable(c, &sc, &l, &t, &g.short(), &['a', 'c', '(', '1', ' '], if sc.defs.len() < 20 { 4 } else { 2 }),
                        Ok(Err(e)) | Err(e) => c.fail("build panics", e),
                    }
                },
            );
        }
    }
}

// ------------------------------------------------------------------------------------------ C17

fn parsetable_case(c: &mut Case, g: &G) {
    match lr::lalr(g, 4000) {
        Some(r) if r.conflicts.is_empty() => (),
        _ => return c.hist("not LALR(1)"),
    }
    let text = g.to_text();
    let (_, parse) = match generate_modules(&text) {
        Ok(x) => x,
        Err(p) if is_conflict(&p) => return c.hist("refused"),
        Err(p) => return c.fail("generation panics", format!("{}: {}", text, p)),
    };
    c.eval(1);
    c.st.traces += 1;
    let tab = match ParseTables::read(&parse) {
        Ok(t) => t,
        Err(e) => return c.fail("tables unreadable", format!("{}: {}", text, e)),
    };
    let r = with_grammar(&text, |gr| compare_tables(c, gr, &tab, g));
    match r {
        Ok(Ok(n)) => {
            c.st.transitions += n;
            c.st.states += tab.action.len() as u64;
            c.nontrivial(&g.short());
            c.hist("modules compared");
            c.sample(|| format!("{}: {} entries", g.short(), n));
        }
        Ok(Err(e)) | Err(e) => c.fail("tables differ", format!("{}: {}", text, e)),
    }
}

fn compare_tables(c: &mut Case, gr: &Grammar, tab: &ParseTables, g: &G) -> Result<u64, String> {
    let _ = c;
    let mut n = 0;
    // the token list, against the grammar and against the text
    let toks: Vec<Symbol> = gr.tokens().cloned().collect();
    if tab.tokens.keys().copied().collect::<Vec<_>>() != (0..toks.len()).collect::<Vec<_>>() {
        return Err(format!("token numbers {:?} for {} tokens", tab.tokens.keys(), toks.len()));
    }
    let mut kinds = BTreeMap::new();
    for (i, s) in toks.iter().enumerate() {
        n += 1;
        let want = match s {
            Symbol::Eof => ("eof", None),
            Symbol::StrLit(x) => ("strlit", Some(x.to_string())),
            Symbol::Regex(x) => ("regex", Some(x.to_string())),
            Symbol::NonTerminal(x) => ("nonterminal", Some(x.0.to_string())),
            x => return Err(format!("symbol {:?}", x)),
        };
        let got = &tab.tokens[&i];
        if (got.0.as_str(), got.1.clone()) != want {
            return Err(format!("token {}: {:?} printed as {:?}", i, want, got));
        }
        if !matches!(s, Symbol::NonTerminal(_)) {
            kinds.insert(want.1.unwrap_or("EOF".into()), i);
        }
    }
    if kinds != tab.kind_to_idx {
        return Err(format!("index of kinds {:?}, expected {:?}", tab.kind_to_idx, kinds));
    }
    // rules
    let prods: Vec<_> = gr.iter_productions().collect();
    if tab.productions.keys().copied().collect::<Vec<_>>() != (0..prods.len()).collect::<Vec<_>>() || prods.len() != g.prods.len() + 1 {
        return Err(format!("rule numbers {:?} for {} rules", tab.productions.keys(), g.prods.len() + 1));
    }
    let index = |s: &Symbol| toks.iter().position(|t| t == s);
    for (i, (name, rhs)) in &tab.productions {
        n += 1;
        let (wn, wr): (String, Vec<Option<usize>>) = if *i == 0 {
            (format!("{}'", g.nts[g.start]), vec![index(&sym_of(g, Sym::N(g.start)))])
        } else {
            let p = &g.prods[*i - 1];
            (g.nts[p.lhs].clone(), p.rhs.iter().map(|s| index(&sym_of(g, *s))).collect())
        };
        if *name != wn || rhs.iter().map(|x| Some(*x)).collect::<Vec<_>>() != wr {
            return Err(format!("rule {} printed as {} -> {:?}, expected {} -> {:?}", i, name, rhs, wn, wr));
        }
        if prods[*i].name.0 != name {
            return Err(format!("rule {} is {}, printed as {}", i, prods[*i].name.0, name));
        }
    }
    // tables
    let (action, goto, states) = imp(|| make_tables(gr))?;
    let mut wa: BTreeMap<usize, BTreeMap<usize, TAct>> = BTreeMap::new();
    for (s, row) in action.iter() {
        let r = wa.entry(*s).or_default();
        for (k, a) in row {
            n += 1;
            r.insert(
                k.0 as usize,
                match a {
                    Action::Shift(j) => TAct::Shift(*j as usize),
                    Action::Reduce(ProductionIdx(p)) => TAct::Reduce(*p as usize),
                    Action::Accept => TAct::Accept,
                },
            );
        }
    }
    let mut wg: BTreeMap<usize, BTreeMap<String, usize>> = BTreeMap::new();
    for (s, row) in goto.iter() {
        let r = wg.entry(*s).or_default();
        for (k, j) in row {
            n += 1;
            r.insert(k.0.to_string(), *j);
        }
    }
    let nz = |m: &BTreeMap<usize, BTreeMap<usize, TAct>>| m.iter().filter(|x| !x.1.is_empty()).map(|(a, b)| (*a, b.clone())).collect::<BTreeMap<_, _>>();
    let nzg = |m: &BTreeMap<usize, BTreeMap<String, usize>>| m.iter().filter(|x| !x.1.is_empty()).map(|(a, b)| (*a, b.clone())).collect::<BTreeMap<_, _>>();
    if nz(&wa) != nz(&tab.action) {
        for (s, r) in &wa {
            if tab.action.get(s) != Some(r) {
                return Err(format!("action row {}: {:?} printed as {:?}", s, r, tab.action.get(s)));
            }
        }
        return Err("rows printed that are not there".into());
    }
    if nzg(&wg) != nzg(&tab.goto) {
        return Err(format!("gotos {:?} printed as {:?}", wg, tab.goto));
    }
    if tab.action.keys().any(|s| *s >= states.len()) {
        return Err("row of a missing state".into());
    }
    let want: BTreeSet<String> = g.nts.iter().cloned().chain(["token".to_string()]).collect();
    if tab.symbol_kinds != want {
        return Err(format!("symbols {:?}, expected {:?}", tab.symbol_kinds, want));
    }
    Ok(n)
}

pub fn c17(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let bs = if t { vec![b(3, 2, 3, 3, 6), b(2, 2, 3, 4, 6)] } else { vec![b(3, 2, 3, 3, 5), b(2, 2, 3, 3, 5)] };
    each_grammar(ctx, &bs, true, &mut |c, g| parsetable_case(c, g));
    ctx.family("texts of literals and patterns");
    for (g, _) in spelled(t, true) {
        ctx.case(|| g.short(), |c| parsetable_case(c, &g));
    }
    ctx.family("blocks of a nonterminal apart from each other");
    for (i, g) in super::tables::torn(t).into_iter().enumerate() {
        if !t && i % 5 != 0 && g.prods.len() < 6 {
            continue;
        }
        ctx.case(
            || format!("torn {}", g.short()),
            |c| {
                for o in g.rule_orders(0).iter().take(if t { 8 } else { 3 }) {
                    parsetable_case(c, &g.torn(o));
                }
            },
        );
    }
    ctx.family("names with a meaning elsewhere, names that share a long beginning");
    for (g, _) in super::notation::named_grammars() {
        if g.terms.iter().all(|x| x.text != "EOF") && (t || g.nts.len() == 2) {
            ctx.case(|| g.short(), |c| parsetable_case(c, &g));
        }
    }
    ctx.family("hundreds of tokens, rules, symbols of a rule, nonterminals and states");
    for g in very_large(t) {
        ctx.case(|| format!("{:.60}… {} rules", g.short(), g.prods.len()), |c| parsetable_case(c, &g));
    }
    ctx.family("tokens that share their name");
    for g in shared_names() {
        ctx.case(|| g.short(), |c| parsetable_case(c, &g));
    }
    ctx.family("names of nonterminals against literals");
    for d in ["S -> A 'A' | 'S' ; A -> 'B' | B ; B -> 'b'", "A -> 'A' A | 'A_' ; A_ -> 'A0'", "A0 -> A 'x' ; A -> AA 'y' ; AA -> 'z'", "S -> 'S' '(' S ')' | A ; A -> 'A'"] {
        let g = G::dsl(d, &[]);
        ctx.case(|| d.to_string(), |c| parsetable_case(c, &g));
    }
}

/// Tokens that share their name: a literal spelled like a pattern's source or like the end of input
fn shared_names() -> Vec<G> {
    let ap = plus(lit('a'));
    vec![G::dsl("S -> 'a+' | 'x' /a+/", &[("a+", ap)]), G::dsl("S -> 'EOF' | 'x' S", &[])]
}

/// Grammars whose terminals have every kind of spelling, and a sentence of each
fn spelled(t: bool, exotic: bool) -> Vec<(G, Vec<usize>)> {
    let mut v = vec![];
    let mut texts: Vec<String> = (0x21u32..0x100).filter_map(char::from_u32).filter(|c| supported(*c)).map(|c| c.to_string()).collect();
    let meta = ['"', '\\', '\'', '`', '$', '{', '}', '/', '*', '<', '\n', 'a', ':', '|'];
    for a in meta {
        for b in meta {
            if a != '\n' {
                texts.push(format!("{}{}", a, b));
            }
            if t {
                for c in meta {
                    if a != '\n' {
                        texts.push(format!("{}{}{}", a, b, c));
                    }
                }
            }
        }
    }
    texts.extend(["${x}", "*/", "//", "/*", "\\n", "\\u0041", "\\u{41}", "\\0", "\\x41", "'+'", "constructor", "toString", "__proto__", "length", "0", "1", "01", "-1", "1e3", "kind", "value", "EOFx", "é", "ÿ", "never", "any", "string", "for each"].iter().map(|s| s.to_string()));
    if exotic {
        for c in (0u32..0x100).chain([0x2028, 0x2029, 0xfeff, 0xfffe, 0xffff, 0x301, 0x200b, 0x202e, 0x3b1, 0x4e00, 0x1f600, 0xe000, 0xe0001, 0x10ffff]).filter_map(char::from_u32) {
            if !supported(c) || c == ' ' || c.is_control() || c as u32 > 255 {
                texts.push(c.to_string());
                texts.push(format!("{}1", c));
                texts.push(format!("{}f}}", c));
            }
        }
    }
    for x in texts {
        for named in [true, false] {
            // the literal itself, named or not, beside another token
            let mut g = G::dsl("S -> 'q' S | 'q'", &[]);
            g.terms.push(Term::lit(&x));
            let i = g.terms.len() - 1;
            if x == "q" {
                continue;
            }
            g.prods[0].rhs = vec![Sym::T(0), Sym::T(i), Sym::N(0)];
            g.prods[0].names = vec![None, if named { Some("lit".into()) } else { None }, Some("s".into())];
            g.prods[1].names = vec![Some("q".into())];
            v.push((g, vec![0, i, 0, i, 0]));
        }
    }
    for re in [
        // a quote in a pattern can only be written within a range
        class("[!-#]", &[('!', '#')]),
        lit('\\'),
        cat(vec![lit('\\'), class("[!-#]", &[('!', '#')])]),
        cat(vec![class("[!-#]", &[('!', '#')]), star(nclass("[^!-#]", &[('!', '#')])), class("[!-#]", &[('!', '#')])]),
        class("['`$]", &[('\'', '\''), ('`', '`'), ('$', '$')]),
        plus(class("[a-p]", &[('a', 'p')])),
        cat(vec![lit('\''), star(nclass("[^']", &[('\'', '\'')])), lit('\'')]),
        cat(vec![class("[$]", &[('$', '$')]), class("[{]", &[('{', '{')]), opt(class("[}]", &[('}', '}')]))]),
        class("[é-ÿ]", &[('é', 'ÿ')]),
    ] {
        for named in [true, false] {
            let mut g = G::dsl("S -> 'q' S | 'q'", &[]);
            g.terms.push(Term::pat(re.clone()));
            g.prods[0].rhs = vec![Sym::T(0), Sym::T(1), Sym::N(0)];
            g.prods[0].names = vec![None, if named { Some("lit".into()) } else { None }, Some("s".into())];
            g.prods[1].names = vec![Some("q".into())];
            v.push((g, vec![0, 1, 0, 1, 0]));
        }
    }
    v
}

// ------------------------------------------------------------------------------------------ C18

/// What is compiled: the generated modules; and the shipped modules that import them, which takes
/// the compiler longer and depends on the shape of the tables only
const GENERATED: [&str; 2] = ["lex_state.gen", "parse_state2.gen"];
const MODULES: [&str; 4] = ["lex_state.gen", "parse_state2.gen", "lex", "parse"];

/// Job for a grammar with actions: compile the modules
fn compile_job(c: &mut Case, ag: &AG) -> Option<Job> {
    let g = &ag.g;
    match lr::lalr(g, 4000) {
        Some(r) if r.conflicts.is_empty() => (),
        _ => {
            c.hist("not LALR(1)");
            return None;
        }
    }
    let text = g.to_text();
    match generate_modules(&text) {
        Ok((l, p)) => {
            let mut j = Job::new();
            j.lex = Some(l);
            j.parse = Some(p);
            j.text = text;
            c.hist("modules generated");
            c.nontrivial(&g.to_text());
            Some(j)
        }
        Err(p) if is_conflict(&p) => {
            c.hist("refused");
            None
        }
        Err(p) => {
            c.fail("generation panics", format!("{}: {}", text, p));
            None
        }
    }
}

fn diag_case(c: &mut Case, ag: &AG, runtime: bool) {
    if let Some(mut j) = compile_job(c, ag) {
        j.diag = if runtime { MODULES.to_vec() } else { GENERATED.to_vec() };
        j.emit(c);
    }
}

fn positions(g: &G) -> usize {
    g.prods.iter().map(|p| p.rhs.len()).sum()
}

/// Grammars with realistic actions and result types
pub fn acting() -> Vec<(&'static str, AG)> {
    use A::*;
    let n = || cat(vec![class("[1-9]", &[('1', '9')]), star(class("[0-9]", &[('0', '9')]))]);
    let id = || plus(class("[a-z]", &[('a', 'z')]));
    let qs = || cat(vec![lit('\''), star(nclass("[^']", &[('\'', '\'')])), lit('\'')]);
    let n1 = || cat(vec![plus(class("[1-9]", &[('1', '9')])), star(class("[0-9]", &[('0', '9')]))]);
    let pats = [("n", n()), ("id", id()), ("str", qs()), ("n1", n1())];
    let mk = |d: &str, types: &[&str], names: &[&[&str]], acts: Vec<A>| {
        let mut g = G::dsl(d, &pats);
        g.types = types.iter().map(|s| s.to_string()).collect();
        for (p, ns) in g.prods.iter_mut().zip(names) {
            p.names = ns.iter().map(|s| if *s == "_" { None } else { Some(s.to_string()) }).collect();
        }
        AG::new(g, acts)
    };
    let k = |s: &str| Lit(V::s(s));
    vec![
        (
            "lisp",
            mk(
                "SExpr -> '(' Exprs ')' ; Exprs -> Expr Exprs | Expr ; Expr -> SExpr | 'add' | /n1/",
                &["{ kind: \"SExpr\", exprs: Exprs }", "Expr[]", "{ kind: \"symbol\", value: \"add\" } | { kind: \"int\", value: string } | { kind: \"sexpr\", sexpr: SExpr }"],
                &[&["_", "exprs", "_"], &["eee", "es"], &["eee"], &["sexpr"], &["str"], &["int"]],
                vec![
                    Obj(vec![("kind", k("SExpr")), ("exprs", Var(1))]),
                    Tuple(vec![Var(0), Spread(1)]),
                    Tuple(vec![Var(0)]),
                    Obj(vec![("kind", k("sexpr")), ("sexpr", Var(0))]),
                    Obj(vec![("kind", k("symbol")), ("value", Var(0))]),
                    Obj(vec![("kind", k("int")), ("value", Var(0))]),
                ],
            ),
        ),
        (
            "arithmetic",
            mk(
                "E -> E '+' T | T ; T -> T '*' F | F ; F -> '(' E ')' | /n/ | /id/",
                &["{ op: string, l: any, r: any } | T", "{ op: string, l: any, r: any } | F", "{ num: string } | { id: string } | { e: E }"],
                &[&["l", "op", "rr"], &["t"], &["l", "op", "rr"], &["f"], &["_", "e", "_"], &["n"], &["i"]],
                vec![
                    Obj(vec![("op", Var(1)), ("l", Var(0)), ("r", Var(2))]),
                    Var(0),
                    Obj(vec![("op", Var(1)), ("l", Var(0)), ("r", Var(2))]),
                    Var(0),
                    Obj(vec![("e", Var(1))]),
                    Obj(vec![("num", Var(0))]),
                    Obj(vec![("id", Var(0))]),
                ],
            ),
        ),
        (
            "json",
            mk(
                "V -> O | L | /str/ | /n/ | 'true' | 'null' ; O -> '{' '}' | '{' Ms '}' ; Ms -> M | M ',' Ms ; M -> /str/ ':' V ; L -> '[' ']' | '[' Es ']' ; Es -> V | Es ',' V",
                &["any", "{ members: any[] }", "M[]", "{ key: string, value: V }", "any[]", "any[]"],
                &[&["o"], &["l"], &["s"], &["num"], &["_"], &["_"], &["_", "_"], &["_", "ms", "_"], &["m"], &["m", "_", "ms"], &["k", "_", "v"], &["_", "_"], &["_", "es", "_"], &["v"], &["es", "_", "v"]],
                vec![
                    Var(0),
                    Var(0),
                    Var(0),
                    Obj(vec![("num", Var(0))]),
                    Lit(V::Bool(true)),
                    Lit(V::Null),
                    Obj(vec![("members", Tuple(vec![]))]),
                    Obj(vec![("members", Var(1))]),
                    Tuple(vec![Var(0)]),
                    Tuple(vec![Var(0), Spread(2)]),
                    Obj(vec![("key", Var(0)), ("value", Var(2))]),
                    Tuple(vec![]),
                    Var(1),
                    Tuple(vec![Var(0)]),
                    Tuple(vec![Spread(0), Var(2)]),
                ],
            ),
        ),
        (
            "statements",
            mk(
                "P -> St | P St ; St -> 'let' /id/ '=' E ';' | 'print' E ';' ; E -> /id/ | /n/ | E '+' E1 ; E1 -> /id/ | /n/",
                &["St[]", "{ kind: \"let\", name: string, value: E } | { kind: \"print\", value: E }", "any", "{ leaf: string }"],
                &[&["s"], &["p", "s"], &["_", "name", "_", "e", "_"], &["_", "e", "_"], &["i"], &["n"], &["l", "_", "rr"], &["i"], &["n"]],
                vec![
                    Tuple(vec![Var(0)]),
                    Tuple(vec![Spread(0), Var(1)]),
                    Obj(vec![("kind", k("let")), ("name", Var(1)), ("value", Var(3))]),
                    Obj(vec![("kind", k("print")), ("value", Var(1))]),
                    Var(0),
                    Var(0),
                    Tuple(vec![Var(0), k("plus"), Member(2, "leaf")]),
                    Obj(vec![("leaf", Var(0))]),
                    Obj(vec![("leaf", Var(0))]),
                ],
            ),
        ),
        (
            "five symbols, all but the middle one named",
            mk("S -> A 'm' B 'm' A ; A -> 'a' | 'a' 'a' ; B -> 'b'", &["any[]", "string[]", "\"b\""], &[&["x", "m1", "_", "m2", "y"], &["a"], &["a", "b"], &["b"]], vec![
                Tuple(vec![Var(4), Var(3), Var(1), Var(0), Lit(V::Num(7))]),
                Tuple(vec![Var(0)]),
                Tuple(vec![Var(1), Var(0)]),
                Var(0),
            ]),
        ),
        (
            "names in swapped roles",
            mk("S -> A B A ; A -> 'a' B ; B -> 'b'", &["any", "any", "any"], &[&["b", "a", "c"], &["b", "a"], &["S0"]], vec![Tuple(vec![Var(2), Var(1), Var(0)]), Tuple(vec![Var(1), Var(0)]), Var(0)]),
        ),
        (
            "nothing named, constants only",
            mk("S -> A A | 'x' ; A -> 'a' | 'b' A", &["any", "number"], &[&["_", "_"], &["_"], &["_"], &["_", "_"]], vec![Lit(V::Num(2)), Lit(V::s("x y")), Lit(V::Num(0)), Lit(V::Num(1))]),
        ),
    ]
}

pub fn c18(ctx: &mut Ctx) {
    let t = ctx.thorough;
    header(ctx, NUMBERS);
    ctx.family("grammars with actions and result types");
    for (n, ag) in acting() {
        ctx.case(|| n.to_string(), |c| diag_case(c, &ag, true));
    }
    ctx.family("the shipped tables");
    ctx.case(
        || "shipped".into(),
        |c| {
            let mut j = Job::new();
            j.shipped = true;
            j.diag = MODULES.to_vec();
            j.emit(c);
            c.nontrivial("shipped");
        },
    );
    ctx.family("every literal and pattern text, named and unnamed");
    for (g, _) in spelled(t, true) {
        ctx.case(|| g.short(), |c| {
                let full = c.idx % 17 == 0;
                diag_case(c, &AG::tagged(g.clone()), full)
            });
    }
    ctx.family("tokens that share their name");
    for g in shared_names() {
        ctx.case(|| g.short(), |c| diag_case(c, &AG::tagged(g.clone()), false));
    }
    ctx.family("every choice of named symbols");
    let mut list = vec![];
    enumerate(&b(2, 2, 2, 3, if t { 5 } else { 4 }), &mut |g| list.push(g));
    for g in list.iter().filter(|g| g.all_productive()) {
        let n = positions(g);
        for m in 0..1u64 << n {
            if ctx.skip() {
                continue;
            }
            let g = with_names(g, m);
            ctx.case(|| g.short(), |c| {
                let full = c.idx % 13 == 0;
                diag_case(c, &AG::tagged(g.clone()), full)
            });
        }
    }
    ctx.family("larger grammars, all and every other symbol named");
    for (f, gs) in families() {
        if f == "merged contexts" && !t {
            continue;
        }
        for g in gs.iter().filter(|g| g.prods.len() < 40) {
            for m in [u64::MAX, 0, 0x5555_5555_5555_5555] {
                let g = with_names(g, m);
                ctx.case(|| g.short(), |c| diag_case(c, &AG::tagged(g.clone()), m == 0));
            }
        }
    }
    ctx.family("spellings of names");
    for g in name_clashes() {
        ctx.case(|| g.short(), |c| diag_case(c, &AG::tagged(g.clone()), false));
    }
}

/// Names of symbols and nonterminals that could be taken for each other or for what the generated
/// code calls its own things
fn name_clashes() -> Vec<G> {
    let mut v = vec![];
    let mk = |s: &str, a: &str, ns: [&str; 5]| {
        let mut g = G::dsl("S -> A 'x' S | 'y' ; A -> 'z' A | 'z'", &[]);
        g.nts = vec![s.to_string(), a.to_string()];
        let n = |x: &str| if x == "_" { None } else { Some(x.to_string()) };
        g.prods[0].names = vec![n(ns[0]), n(ns[1]), n(ns[2])];
        g.prods[1].names = vec![n(ns[3])];
        g.prods[2].names = vec![None, n(ns[4])];
        g
    };
    let ns = ["a", "A", "S", "x1", "_x", "value", "kind", "token", "lex", "U", "L", "actions", "type_defs", "infer_", "Symbol", "Token", "State", "Production", "Action", "Goto", "newStack", "poppedValues", "symbolStack", "prodIdx", "var0", "var1", "__var0", "Action1", "EmitProduction"];
    let ms = ["A", "Sym", "Symbol", "Token", "Tokens", "Production", "Productions", "Action", "Goto", "Lex", "U", "L", "actions", "type_defs", "newStack", "var0", "a", "__a"];
    for n in ns {
        for m in ms {
            v.push(mk("S", m, [n, "_", "_", n, n]));
        }
        v.push(mk("R", "S", ["_", n, "q", "S", "R"]));
    }
    // names that are the names of the other symbols' kinds, and names with the same stem
    for [a, b, c] in [["S", "k", "A"], ["A", "k", "S"], ["k", "A", "S"], ["S", "A", "k"], ["a", "__a", "____a"], ["____a", "__a", "a"], ["__a", "a", "_a"], ["a", "_a", "__a"], ["newStack", "__newStack", "s"], ["var0", "__var0", "_"], ["_", "var0", "var1"], ["_", "_", "var0"], ["__var0", "_", "_"]] {
        v.push(mk("S", "A", [a, b, c, a, b]));
    }
    v
}

// ------------------------------------------------------------------------------------------ C19

fn lex_expr(s: &str) -> String {
    format!("L.Lex<{}>", jstr(s))
}

fn lex_job(c: &mut Case, sc: &Scanner, lex: &Lex, module: String, shown: &str, inputs: &[Vec<char>]) {
    // the type checker follows at most 1000 steps of a recursion over the ranges of a state
    let ranges = class_ends(sc.auts.iter().flat_map(|a| a.leaves.iter()), &[]).len();
    if ranges > 900 {
        return c.hist("more ranges than the type checker follows");
    }
    let mut j = Job::new();
    j.lex = Some(module);
    j.text = shown.to_string();
    for s in inputs {
        let t: String = s.iter().collect();
        let want = lex_want(sc, s);
        // the in-process scanner says the same
        let (toks, eaten) = match imp(|| lex.lex_prefix(&t)) {
            Ok(x) => x,
            Err(p) => return c.fail(format!("scanner panics on {:?}", t), p),
        };
        let (rt, re) = expect_tokens(sc, s);
        if toks != rt || eaten != re {
            return c.fail(format!("input {:?}", t), format!("{}: in-process scanner gives {:?} to {}, expected of both lexers {:?} to {}", shown, toks, eaten, rt, re));
        }
        match want {
            Some(v) => j.eq(lex_expr(&t), &v, format!("input {:?}", t)),
            None => j.exprs.push((lex_expr(&t), "lexerr", "null".into(), format!("input {:?}", t))),
        }
    }
    if !inputs.is_empty() {
        c.nontrivial(&(shown, inputs.len()));
    }
    j.emit(c);
}

fn lex_type_case(c: &mut Case, defs: &[TokDef], inputs: &[Vec<char>]) {
    let r = imp(|| {
        let l = Lex::from_tokens(lex_defs(defs));
        let t = lex_gen::generate(&l);
        (l, t)
    });
    match r {
        Ok((l, t)) => lex_job(c, &Scanner::new(defs.to_vec()), &l, t, &show_defs(defs), inputs),
        Err(p) => c.fail("build panics", format!("{}: {}", show_defs(defs), p)),
    }
}

fn all_inputs(al: &[char], n: usize) -> Vec<Vec<char>> {
    let mut v = vec![];
    strings(al, n, &mut |s| v.push(s.to_vec()));
    v
}

pub fn c19(ctx: &mut Ctx) {
    let t = ctx.thorough;
    header(ctx, NUMBERS);
    let pool = token_pool();
    ctx.family("ordered lists of one and two definitions, all inputs over a b c blank");
    for k in 1..=2usize {
        lists(pool.len(), k, &mut |ix| {
            if ix.len() != k || ctx.skip() {
                return;
            }
            let res: Vec<Re> = ix.iter().map(|i| pool[*i].clone()).collect();
            let d = val_defs(&res, (ix.iter().sum::<usize>() % 4) as u32);
            ctx.case(|| show_defs(&d), |c| lex_type_case(c, &d, &all_inputs(&['a', 'b', 'c', ' '], if t { 5 } else { 3 })));
        });
    }
    ctx.family("tokens that begin with blanks or contain them");
    let bp = blank_pool();
    lists(bp.len(), 2, &mut |ix| {
        let d = val_defs(&ix.iter().map(|i| bp[*i].clone()).collect::<Vec<_>>(), (ix.iter().sum::<usize>() % 4) as u32);
        ctx.case(|| show_defs(&d), |c| lex_type_case(c, &d, &all_inputs(&['a', 'b', ' ', '\n'], if t { 4 } else { 3 })));
    });
    if t {
        ctx.family("three definitions");
        lists(pool.len(), 3, &mut |ix| {
            if ix.len() != 3 || ctx.skip() {
                return;
            }
            let res: Vec<Re> = ix.iter().map(|i| pool[*i].clone()).collect();
            let d = val_defs(&res, (ix.iter().sum::<usize>() % 8) as u32);
            ctx.case(|| show_defs(&d), |c| lex_type_case(c, &d, &all_inputs(&['a', 'b', 'c', ' '], 3)));
        });
    }
    ctx.family("longer matches abandoned at every distance");
    for n in 1..=4usize {
        let w: String = "abcdef"[..n + 1].into();
        let defs = vec![TokDef { name: "one".into(), with_val: true, re: lit('a') }, TokDef { name: "long".into(), with_val: true, re: text(&format!("{}z", w)) }, TokDef { name: "rest".into(), with_val: false, re: class("[b-f]", &[('b', 'f')]) }];
        let mut ins = vec![];
        for i in 0..=w.len() {
            for tail in ["", " ", "z", "a", "zz", " a", "\n\na"] {
                for head in ["", "a", " "] {
                    ins.push(format!("{}{}{}", head, &w[..i], tail).chars().collect::<Vec<char>>());
                }
            }
        }
        ctx.case(|| show_defs(&defs), |c| lex_type_case(c, &defs, &ins));
    }
    ctx.family("every supported character");
    let chars: Vec<char> = (0u32..256).filter_map(char::from_u32).filter(|c| supported(*c)).collect();
    for (k, part) in chars.chunks(16).enumerate() {
        let any = TokDef { name: "any".into(), with_val: true, re: dot_noblank() };
        let (p3, p9) = (part[part.len() / 4], part[part.len() / 2]);
        let one = TokDef { name: "one".into(), with_val: true, re: class(&format!("[\\x{{{:x}}}-\\x{{{:x}}}]", p3 as u32, p9 as u32), &[(p3, p9)]) };
        let ins: Vec<Vec<char>> = part.iter().flat_map(|c| [vec![*c], vec![*c, *c], vec![' ', *c], vec![*c, '\n', 'x']]).collect();
        ctx.case(|| format!("characters {} with any", k), |c| lex_type_case(c, &[one.clone(), any.clone()], &ins));
        ctx.case(|| format!("characters {} alone", k), |c| lex_type_case(c, &[one.clone()], &ins));
        let neg = TokDef { name: "not".into(), with_val: true, re: nclass(&format!("[^ \\n\\x{{{:x}}}-\\x{{{:x}}}]", p3 as u32, p9 as u32), &[(' ', ' '), ('\n', '\n'), (p3, p9)]) };
        ctx.case(|| format!("characters {} excluded", k), |c| lex_type_case(c, &[neg.clone()], &ins));
    }
    ctx.family("ranges beyond the supported characters");
    let far = |p: &str, a: u32, z: u32| class(p, &[(char::from_u32(a).unwrap(), char::from_u32(z).unwrap())]);
    let fars = [far("[\\x{100}-\\x{200}]", 0x100, 0x200), far("[\\x{f0}-\\x{2000}]", 0xf0, 0x2000), far("[\\x{1387}-\\x{1389}]", 0x1387, 0x1389), far("[\\x{4e00}-\\x{9fff}]", 0x4e00, 0x9fff), far("\\x{1f600}", 0x1f600, 0x1f600), far("[\\x{1388}-\\x{10ffff}]", 0x1388, 0x10ffff)];
    for (i, f) in fars.iter().enumerate() {
        for (k, other) in [None, Some(lit('a')), Some(plus(class("[a-z]", &[('a', 'z')]))), Some(nclass("[^ a]", &[(' ', ' '), ('a', 'a')]))].iter().enumerate() {
            for flip in [false, true] {
                let mut res = vec![f.clone()];
                res.extend(other.clone());
                if flip {
                    res.reverse();
                }
                let d = val_defs(&res, 0);
                let ins = all_inputs(&['a', 'q', 'ÿ', ' '], 2);
                ctx.case(|| format!("range {} with {} {}", i, k, flip), |c| lex_type_case(c, &d, &ins));
            }
        }
    }
    ctx.family("characters that the type level does not have");
    let strange: Vec<char> = [9u32, 11, 12, 13, 127, 160, 173, 0x100, 0x131, 0x3b1, 0x2003, 0x2028, 0x3000, 0x4e00, 0xfeff, 0xffff, 0x10000, 0x1f600].into_iter().filter_map(char::from_u32).collect();
    for (k, x) in strange.iter().enumerate() {
        let word = plus(class("[a-z]", &[('a', 'z')]));
        for (i, res) in [vec![lit('a')], vec![word.clone()], vec![lit('a'), dot_noblank()], vec![dot_noblank(), text("ab")], vec![text("abc"), word.clone()]].iter().enumerate() {
            let d = val_defs(res, (k % 4) as u32);
            let mut ins: Vec<Vec<char>> = vec![];
            strings(&['a', 'b', ' ', *x], if t { 4 } else { 3 }, &mut |s| {
                if s.contains(x) && (t || i == 0 || s.len() < 3) {
                    ins.push(s.to_vec())
                }
            });
            ins.extend(["abcab", "a b c a", "ab  \n "].iter().flat_map(|w| (0..=w.len()).map(|p| format!("{}{}{}", &w[..p], x, &w[p..]).chars().collect())));
            ctx.case(|| format!("U+{:04X} with {}", *x as u32, show_defs(&d)), |c| lex_type_case(c, &d, &ins));
        }
    }
    ctx.family("realistic token sets");
    for d in realistic_sets() {
        let ins: Vec<Vec<char>> = [
            "", " ", "a", "foo bar", "12 + x1", "if iff", "for foreach fort", "= == === =>", "\"abc\"", "'it'", "// note\nx", "/* a */ b", "1.5e3", "a.b", "(add 1 2)", "< <= << <<= !=", "ab cd", "12x", "x12", "\"open", "'open", "#", "a#", "a #b", "_x9", "x\n\n  y", "9 9", "hello world", "\n", "0", "00", "-1", "/", "/*", "/**/", "/***/",
            "abcdefghijklmnopqrstuvwxyz", "e", "el", "els", "else", "elsewhere", "e l", "=", "===", "====", "=====",
        ]
        .iter()
        .map(|s| s.chars().collect())
        .collect();
        ctx.case(|| show_defs(&d), |c| lex_type_case(c, &d, &ins));
    }
    ctx.family("long inputs");
    for n in [10usize, 50, 100, 200, 400] {
        let d = vec![TokDef { name: "w".into(), with_val: true, re: plus(class("[a-z]", &[('a', 'z')])) }, TokDef { name: "n".into(), with_val: false, re: plus(class("[0-9]", &[('0', '9')])) }];
        let ins: Vec<Vec<char>> = vec!["a".repeat(n).chars().collect(), "ab ".repeat(n / 3).chars().collect(), "a1".repeat(n / 2).chars().collect(), format!("{}#", "a".repeat(n)).chars().collect(), format!("{}#", "1 ".repeat(n / 2)).chars().collect()];
        ctx.case(|| format!("length {}", n), |c| lex_type_case(c, &d, &ins));
    }
    ctx.family("names of any spelling");
    for x in ["\"", "\\", "a\"b", "'", "`", "${x}", "\\n", "\n", "é", "EOFx", "constructor", "*/"] {
        let d = vec![TokDef { name: x.into(), with_val: true, re: lit('x') }, TokDef { name: format!("{}{}", x, x), with_val: false, re: lit('y') }];
        ctx.case(|| show_defs(&d), |c| lex_type_case(c, &d, &all_inputs(&['x', 'y', ' '], 3)));
    }
    ctx.family("scanners of grammars: literals against patterns");
    for (d, al, n) in [("S -> 'if' /id/ | /id/ 'i'", vec!['i', 'f', ' '], 4usize), ("S -> 'a' /ab/ | /ab/ 'aab' | 'b'", vec!['a', 'b', ' '], 4), ("S -> '.' /any/ | '*' '+' | '(' S ')'", vec!['.', '*', '(', 'x'], 3)] {
        let g = G::dsl(d, &[("id", plus(class("[a-z]", &[('a', 'z')]))), ("ab", plus(class("[ab]", &[('a', 'b')]))), ("any", dot_noblank())]);
        let text = g.to_text();
        ctx.case(
            || d.to_string(),
            |c| {
                let (sc, _) = g.scanner();
                let r = with_grammar(&text, |gr| {
                    imp(|| {
                        let l = Lex::from_grammar(gr);
                        let t = lex_gen::generate(&l);
                        (l, t)
                    })
                });
                match r {
                    Ok(Ok((l, t))) => lex_job(c, &sc, &l, t, &text, &all_inputs(&al, n)),
                    Ok(Err(e)) | Err(e) => c.fail("build panics", e),
                }
            },
        );
    }
    ctx.family("the shipped tables");
    let g = acting().into_iter().find(|x| x.0 == "lisp").unwrap().1.g;
    let (sc, _) = g.scanner();
    for (k, part) in all_inputs(&['(', ')', 'a', 'd', '1', '0', ' '], if t { 4 } else { 3 }).chunks(100).enumerate() {
        let ins = part.to_vec();
        ctx.case(|| format!("shipped {}", k), |c| shipped_lex(c, &sc, &ins));
    }
    let ins: Vec<Vec<char>> = ["(add 34 35)", "(add 420 (add 34 35))", "addadd", "ad", "(ad)", "add420", "0", "10 01", "(add 1)\n", "\n( add\n)"].iter().map(|s| s.chars().collect()).collect();
    ctx.case(|| "shipped sentences".into(), |c| shipped_lex(c, &sc, &ins));
}

fn shipped_lex(c: &mut Case, sc: &Scanner, ins: &[Vec<char>]) {
    let mut j = Job::new();
    j.shipped = true;
    for s in ins {
        let t: String = s.iter().collect();
        match lex_want(sc, s) {
            Some(v) => j.eq(lex_expr(&t), &v, format!("input {:?}", t)),
            None => j.exprs.push((lex_expr(&t), "lexerr", "null".into(), format!("input {:?}", t))),
        }
    }
    c.nontrivial(&c.label.clone());
    j.emit(c);
}

// ------------------------------------------------------------------------------------------ C20

pub const STEP_LIMIT: usize = 50;

fn token_expr(g: &G, toks: &[(usize, String)]) -> String {
    let mut v: Vec<String> = toks.iter().map(|(t, w)| tok_v(&TokDef { name: g.terms[*t].text.clone(), with_val: true, re: g.terms[*t].re.clone() }, w).json()).collect();
    v.push(eof_v().json());
    format!("P.__Parse<[{}]>", v.join(", "))
}

/// The expectation of a parse of a token sequence
fn parse_want(ag: &AG, t: &Tables, toks: &[(usize, String)]) -> (&'static str, String) {
    let (v, steps) = ag.value(t, toks);
    match v {
        None => ("parseerr", "null".into()),
        Some(v) => {
            let w = V::Arr(vec![V::obj(&[("kind", V::s(&ag.g.nts[ag.g.start])), ("value", v)])]).json();
            // the last step (accepting) counts too
            (if steps < STEP_LIMIT { "eq" } else { "limit" }, w)
        }
    }
}

/// All token sequences to length `full`, and the viable prefixes with every next token beyond
fn sequences(g: &G, full: usize, cap: usize, max: usize) -> Vec<Vec<usize>> {
    let terms = g.used_terms();
    let mut s: BTreeSet<Vec<usize>> = BTreeSet::new();
    let mut level = vec![vec![]];
    s.insert(vec![]);
    for _ in 0..full {
        let mut next = vec![];
        for w in &level {
            for t in &terms {
                let mut v: Vec<usize> = w.clone();
                v.push(*t);
                s.insert(v.clone());
                next.push(v);
            }
        }
        level = next;
    }
    prefixes(g, cap, max, &mut |w, _| {
        for t in &terms {
            let mut v = w.to_vec();
            v.push(*t);
            s.insert(v);
        }
        s.insert(w.to_vec());
        true
    });
    let mut v: Vec<Vec<usize>> = s.into_iter().collect();
    v.sort_by_key(|x| (x.len(), x.clone()));
    v
}

fn type_parse_case(c: &mut Case, ag: &AG, seqs: &dyn Fn(&G) -> Vec<Vec<usize>>, texts: &[String]) {
    let g = &ag.g;
    let r = match lr::lalr(g, 4000) {
        Some(r) if r.conflicts.is_empty() => r,
        _ => return c.hist("not LALR(1)"),
    };
    let mut j = match compile_job(c, ag) {
        Some(j) => j,
        None => return,
    };
    let words = g.words();
    for s in seqs(g) {
        let toks: Vec<(usize, String)> = s.iter().map(|t| (*t, words[*t].clone())).collect();
        let (k, w) = parse_want(ag, &r, &toks);
        j.exprs.push((token_expr(g, &toks), k, w, format!("tokens {}", s.iter().map(|t| words[*t].clone()).collect::<Vec<_>>().join(" "))));
    }
    let (sc, map) = g.scanner();
    for x in texts {
        let chars: Vec<char> = x.chars().collect();
        let (toks, end) = sc.scan(&chars);
        if end != chars.len() {
            continue;
        }
        let toks: Vec<(usize, String)> = toks.iter().map(|t| (map[t.def], chars[t.start..t.end].iter().collect())).collect();
        let (k, w) = parse_want(ag, &r, &toks);
        j.exprs.push((format!("P.__Parse<L.Lex<{}>>", jstr(x)), k, w, format!("text {:?}", x)));
    }
    c.st.states += r.states.len() as u64;
    j.emit(c);
}

fn acting_texts(n: &str) -> Vec<String> {
    let v: &[&str] = match n {
        "lisp" => &["(add 34 35)", "(add 1 (add 2 3))", "((add))", "(add", "add", "()", "(1 2 3 4)", "(add (1) (2))", ")", "(add) add", "12", "(add 420 (add 34 35))"],
        "arithmetic" => &["1", "x", "1+2", "1+2*3", "(1+2)*3", "1*2+3*4", "((x))", "1+", "+1", "1 2", "()", "(1", "a*b*c", "a+b+c", "12+abc*(x+9)"],
        "json" => &["null", "true", "{}", "[]", "'a'", "12", "[1, 'x', null]", "{'a': 1}", "{'a': {'b': [true]}}", "[[], {}]", "[1,]", "{1: 2}", "{'a'}", "[", "{'a': 1, 'b': 2}", "[1 2]"],
        "statements" => &["print x;", "let x = 1;", "let x = 1; print x;", "let x = a + b + 2;", "print 1", "let = 1;", "print x; print y; print z;", "let let = 1;", "letx = 1;", "print letx;"],
        _ => &[],
    };
    v.iter().map(|s| s.to_string()).collect()
}

pub fn c20(ctx: &mut Ctx) {
    let t = ctx.thorough;
    header(ctx, NUMBERS);
    ctx.family("grammars with actions and result types");
    for (n, ag) in acting() {
        let (full, cap) = if ag.g.used_terms().len() > 6 { (2, if t { 400 } else { 60 }) } else { (3, if t { 400 } else { 80 }) };
        ctx.case(|| n.to_string(), |c| type_parse_case(c, &ag, &|g| sequences(g, full, cap, 8), &acting_texts(n)));
    }
    ctx.family("the shipped tables");
    let lisp = acting().into_iter().find(|x| x.0 == "lisp").unwrap().1;
    let r = lr::lalr(&lisp.g, 4000).unwrap();
    let words = lisp.g.words();
    let all = sequences(&lisp.g, if t { 5 } else { 4 }, 200, 10);
    for (k, part) in all.chunks(60).enumerate() {
        ctx.case(
            || format!("shipped {}", k),
            |c| {
                let mut j = Job::new();
                j.shipped = true;
                for s in part {
                    let toks: Vec<(usize, String)> = s.iter().map(|t| (*t, words[*t].clone())).collect();
                    let (kind, w) = parse_want(&lisp, &r, &toks);
                    let text = s.iter().map(|t| words[*t].clone()).collect::<Vec<_>>().join(" ");
                    j.exprs.push((token_expr(&lisp.g, &toks), kind, w.clone(), format!("tokens {}", text)));
                    j.exprs.push((format!("P.__Parse<L.Lex<{}>>", jstr(&text)), kind, w, format!("text {:?}", text)));
                }
                c.nontrivial(&c.label.clone());
                j.emit(c);
            },
        );
    }
    ctx.case(
        || "shipped sentences".into(),
        |c| {
            let mut j = Job::new();
            j.shipped = true;
            let (sc, map) = lisp.g.scanner();
            for x in acting_texts("lisp") {
                let chars: Vec<char> = x.chars().collect();
                let toks: Vec<(usize, String)> = sc.scan(&chars).0.iter().map(|t| (map[t.def], chars[t.start..t.end].iter().collect())).collect();
                let (k, w) = parse_want(&lisp, &r, &toks);
                j.exprs.push((format!("P.__Parse<L.Lex<{}>>", jstr(&x)), k, w, format!("text {:?}", x)));
            }
            c.nontrivial("shipped sentences");
            j.emit(c);
        },
    );
    ctx.family("tokens that are not of the grammar");
    for (n, ag) in acting() {
        ctx.case(
            || n.to_string(),
            |c| {
                if let Some(mut j) = compile_job(c, &ag) {
                    for k in ["nope", "", "eof", "S", "token", "toString"] {
                        if ag.g.terms.iter().any(|x| x.text == k) {
                            continue;
                        }
                        for at in 0..2 {
                            let w = ag.g.words();
                            let mut v = vec![];
                            if at == 1 {
                                v.push(format!("{{ kind: {}, value: {} }}", jstr(&ag.g.terms[0].text), jstr(&w[0])));
                            }
                            v.push(format!("{{ kind: {}, value: \"x\" }}", jstr(k)));
                            v.push("{ kind: \"EOF\" }".into());
                            j.exprs.push((format!("P.__Parse<[{}]>", v.join(", ")), "parseerr", "null".into(), format!("unknown token {:?} at {}", k, at)));
                        }
                    }
                    j.emit(c);
                }
            },
        );
    }
    ctx.family("all small grammars, symbols named in every way");
    let mut list = vec![];
    enumerate(&b(2, 2, 2, 3, if t { 6 } else { 5 }), &mut |g| list.push(g));
    enumerate(&b(3, 2, 2, 2, if t { 6 } else { 5 }), &mut |g| {
        if g.nts.len() == 3 {
            list.push(g)
        }
    });
    for g in list.iter().filter(|g| g.all_productive()) {
        if ctx.skip() {
            continue;
        }
        if !matches!(lr::lalr(g, 4000), Some(r) if r.conflicts.is_empty()) {
            ctx.case(|| g.short(), |c| c.hist("not LALR(1)"));
            continue;
        }
        ctx.case(
            || g.short(),
            |c| {
                let n = positions(g);
                // named in all ways when that is few, else all, none, each alone, every other
                let masks: Vec<u64> = if n <= 3 { (0..1u64 << n).collect() } else { [u64::MAX, 0, 0x5555_5555_5555_5555, 0xaaaa_aaaa_aaaa_aaaa].into_iter().chain(if t { (0..n).map(|i| 1u64 << i).collect::<Vec<_>>() } else { vec![] }).collect() };
                for (k, m) in masks.iter().enumerate() {
                    let ag = AG::tagged(with_names(g, *m));
                    type_parse_case(c, &ag, &|g| sequences(g, if k == 0 { 3 } else { 2 }, if k == 0 { 24 } else { 10 }, 6), &[]);
                }
            },
        );
    }
    ctx.family("spellings of names");
    for g in name_clashes() {
        ctx.case(|| g.short(), |c| type_parse_case(c, &AG::tagged(g.clone()), &|g| sequences(g, 2, if t { 30 } else { 8 }, 6), &[]));
    }
    ctx.family("every literal and pattern text, named and unnamed");
    for (g, s) in spelled(false, false) {
        let w = g.words();
        ctx.case(
            || g.short(),
            |c| {
                let text = s.iter().map(|t| w[*t].clone()).collect::<Vec<_>>().join(" ");
                type_parse_case(c, &AG::tagged(g.clone()), &|_| vec![s.clone(), s[..3].to_vec(), s[..2].to_vec(), vec![s[1]]], &[text]);
            },
        );
    }
    ctx.family("tokens that share their name");
    for g in shared_names() {
        ctx.case(|| g.short(), |c| type_parse_case(c, &AG::tagged(g.clone()), &|g| if g.terms.len() == 3 { vec![vec![0], vec![1, 2]] } else { vec![vec![0], vec![1, 0]] }, &[]));
    }
    ctx.family("up to and beyond the step limit");
    for d in ["L -> L 'a' | 'a'", "L -> 'a' L | 'a'", "E -> '(' E ')' | 'a'", "S -> A ; A -> B ; B -> 'b' A | 'b'"] {
        let ag = AG::tagged(with_names(&G::dsl(d, &[]), u64::MAX));
        ctx.case(
            || d.to_string(),
            |c| {
                type_parse_case(
                    c,
                    &ag,
                    &|g| {
                        let mut v = vec![];
                        for n in 1..30usize {
                            let s: Vec<usize> = if g.terms.len() == 3 { [vec![0; n - 1], vec![2], vec![1; n - 1]].concat() } else { vec![0; n] };
                            let mut bad = s.clone();
                            bad.push(0);
                            if g.terms.len() == 3 {
                                v.push(bad);
                            }
                            v.push(s);
                        }
                        v
                    },
                    &[],
                )
            },
        );
    }
    ctx.family("larger grammars");
    for (f, gs) in families() {
        if f == "merged contexts" && !t {
            continue;
        }
        for g in gs.iter().filter(|g| g.prods.len() < 30 && g.all_productive()) {
            let ag = AG::tagged(with_names(g, u64::MAX));
            ctx.case(|| g.short(), |c| type_parse_case(c, &ag, &|g| sequences(g, if g.used_terms().len() > 4 { 1 } else { 2 }, if t { 150 } else { 25 }, 9), &[]));
        }
    }
}

// ------------------------------------------------------------------------------------------ C27

/// Every text through both pipelines: scanner and parser of the process, and the generated modules
/// under the compiler
fn both_case(c: &mut Case, ag: &AG, texts: &[String]) {
    let g = &ag.g;
    let r = match lr::lalr(g, 4000) {
        Some(r) if r.conflicts.is_empty() => r,
        _ => return c.hist("not LALR(1)"),
    };
    let mut j = match compile_job(c, ag) {
        Some(j) => j,
        None => return,
    };
    let (sc, map) = g.scanner();
    let bump = Bump::new();
    let text = g.to_text();
    let lalr = imp(|| {
        let ast: &[_] = bump.alloc(typelalr::parse_grammar(&bump, &text));
        Lalr::new(Grammar::grammar_from_ast_productions(&bump, ast))
    });
    let lalr = match lalr {
        Ok(l) => l,
        Err(p) => return c.fail("build panics", p),
    };
    // what is between tokens and beyond the last one is handled by the module
    j.files.push(("both".into(), "import * as L from \"./lex\";\nimport * as P from \"./parse\";\nexport type Both<T extends string> = L.Lex<T> extends infer k ? k extends L.Token[] ? P.__Parse<k> : k : never;\n".into()));
    let mut done = BTreeSet::new();
    for x in texts {
        if !done.insert(x) {
            continue;
        }
        let chars: Vec<char> = x.chars().collect();
        let (toks, end) = sc.scan(&chars);
        let toks: Vec<(usize, String)> = toks.iter().map(|t| (map[t.def], chars[t.start..t.end].iter().collect())).collect();
        let (k, w) = if end < chars.len() { ("parseerr", "null".to_string()) } else { parse_want(ag, &r, &toks) };
        let accepted = imp(|| lalr.parse(x)).is_ok();
        c.eval(1);
        c.st.traces += 1;
        if accepted != (k != "parseerr") {
            return c.fail(format!("text {:?}", x), format!("grammar\n{}text {:?}: the parser of the process {} it, its derivation says otherwise", text, x, if accepted { "accepts" } else { "rejects" }));
        }
        c.hist(if accepted { "accepted" } else { "rejected" });
        // characters that the type level does not have: an error, whatever the process says
        let (k, w) = if chars.iter().all(|c| supported(*c)) { (k, w) } else { ("parseerr", "null".to_string()) };
        j.exprs.push((format!("both.Both<{}>", jstr(x)), k, w, format!("text {:?}", x)));
    }
    c.st.states += r.states.len() as u64;
    j.emit(c);
}

/// All texts to length `n` over the characters
fn texts_over(al: &[char], n: usize) -> Vec<String> {
    all_inputs(al, n).iter().map(|s| s.iter().collect()).collect()
}

/// The texts, and what one removed, doubled, swapped or replaced character makes of them
fn edited(v: &[String], other: &[char]) -> Vec<String> {
    let mut o: Vec<String> = v.to_vec();
    for x in v {
        let s: Vec<char> = x.chars().collect();
        for i in 0..=s.len() {
            let mut put = |mid: &[char], skip: usize| {
                let mut t = s[..i].to_vec();
                t.extend(mid);
                t.extend(&s[i + skip..]);
                o.push(t.into_iter().collect());
            };
            for c in other {
                put(&[*c], 0);
            }
            if i < s.len() {
                put(&[], 1);
                put(&[s[i], s[i]], 1);
                for c in other {
                    put(&[*c], 1);
                }
            }
            if i + 1 < s.len() {
                put(&[s[i + 1], s[i]], 2);
            }
        }
    }
    o.sort();
    o.dedup();
    o
}

pub fn c27(ctx: &mut Ctx) {
    let t = ctx.thorough;
    header(ctx, NUMBERS);
    ctx.family("grammars with actions: sentences and all their edits by one character");
    for (n, ag) in acting() {
        let texts = acting_texts(n);
        let words: Vec<String> = sequences(&ag.g, 1, if t { 60 } else { 12 }, 6).iter().map(|s| s.iter().map(|x| ag.g.words()[*x].clone()).collect::<Vec<_>>().join(" ")).collect();
        let mut all = texts.clone();
        all.extend(words);
        let short: Vec<String> = all.iter().filter(|x| x.chars().count() <= if t { 16 } else { 12 }).cloned().collect();
        let mut v = edited(&short, if t { &[' ', '1', 'x', '('] } else { &[' ', 'x'] });
        v.extend(all);
        for (k, part) in v.chunks(120).enumerate() {
            let part = part.to_vec();
            ctx.case(|| format!("{} {}", n, k), |c| both_case(c, &ag, &part));
        }
    }
    ctx.family("all small grammars over tokens that overlap, all texts");
    let mut shapes = vec![];
    enumerate(&b(2, 2, 2, 3, if t { 5 } else { 4 }), &mut |g| shapes.push(g));
    let ab = || class("[ab]", &[('a', 'b')]);
    let toks: Vec<(Term, Term)> = vec![
        (Term::lit("a"), Term::lit("b")),
        (Term::lit("a"), Term::lit("aa")),
        (Term::lit("ab"), Term::lit("a")),
        (Term::lit("aab"), Term::pat(plus(lit('a')))),
        (Term::pat(plus(ab())), Term::lit("ab")),
        (Term::lit("b"), Term::pat(cat(vec![ab(), opt(ab())]))),
        (Term::pat(cat(vec![lit('a'), star(lit(' ')), lit('b')])), Term::lit("a")),
        (Term::pat(plus(lit('a'))), Term::pat(cat(vec![lit('a'), lit('b')]))),
        (Term::lit("\\"), Term::lit("a\"")),
        (Term::lit(" "), Term::lit("a")),
    ];
    for g in shapes.iter().filter(|g| g.all_productive() && g.terms.len() == 2) {
        for (x, y) in &toks {
            let mut g = with_names(g, 0b0110_1101_1011);
            g.terms = vec![x.clone(), y.clone()];
            let mut al: Vec<char> = vec!['a', 'b', ' '];
            if x.text == "\\" {
                al = vec!['a', '\\', '"'];
            }
            ctx.case(|| g.short(), |c| both_case(c, &AG::tagged(g.clone()), &texts_over(&al, if t && positions(&g) <= 4 { 5 } else { 3 })));
        }
    }
    ctx.family("every literal and pattern text, named and unnamed, from its text");
    for (g, s) in spelled(t, false) {
        let w = g.words();
        ctx.case(
            || g.short(),
            |c| {
                let v: Vec<&str> = s.iter().map(|t| w[*t].as_str()).collect();
                let texts: Vec<String> = vec![v.join(" "), v.concat(), v.join("\n"), v[..3].join(""), v[1].to_string(), v[1].repeat(2), format!("{}{}", v[1], v[0]), v[..2].concat()];
                both_case(c, &AG::tagged(g.clone()), &texts)
            },
        );
    }
    ctx.family("every character in every place of a text");
    let g = with_names(&G::dsl("S -> '<' /w/ '>' | '<' S '>'", &[("w", plus(nclass("[^<> ]", &[('<', '<'), ('>', '>'), (' ', ' ')])))]), u64::MAX);
    let ag = AG::tagged(g);
    let chars: Vec<char> = (0u32..0x100).chain([0x100, 0x17f, 0x2028, 0x3000, 0x4e00, 0xfeff, 0x1f600]).filter_map(char::from_u32).collect();
    for (k, part) in chars.chunks(16).enumerate() {
        let texts: Vec<String> = part.iter().flat_map(|x| ["#<a>", "<#a>", "<a#b>", "<a#>", "<a>#", "<#>", "#", "<<a#>>", "< # >"].iter().map(move |m| m.replace('#', &x.to_string()))).collect();
        ctx.case(|| format!("characters {}", k), |c| both_case(c, &ag, &texts));
    }
    ctx.family("larger grammars, from their texts");
    for (f, gs) in families() {
        if f == "merged contexts" && !t {
            continue;
        }
        for g in gs.iter().filter(|g| g.prods.len() < 30 && g.all_productive()) {
            let ag = AG::tagged(with_names(g, 0b1011_0110_1101_1011));
            ctx.case(
                || g.short(),
                |c| {
                    let w = g.words();
                    let texts: Vec<String> = sequences(g, 1, if t { 60 } else { 12 }, 7).iter().flat_map(|s| [s.iter().map(|x| w[*x].as_str()).collect::<Vec<_>>().join(" "), s.iter().map(|x| w[*x].as_str()).collect::<String>()]).collect();
                    both_case(c, &ag, &texts)
                },
            );
        }
    }
}
