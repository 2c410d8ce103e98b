//! C21-C23: helpers of the type-level runtime, character and number tables, reproducibility.
use super::lexer::*;
use super::tables::*;
use super::types::*;
use crate::engine::*;
use crate::gram::*;
use crate::re::*;
use bumpalo::Bump;
use typelalr::codegen::{lex_gen, parse_gen};
use typelalr::lalr::table::make_tables;
use typelalr::lalr::Lalr;
use typelalr::lex::lex::Lex;
use typelalr::parser::Grammar;

fn nums(v: impl IntoIterator<Item = i64>) -> V {
    V::Arr(v.into_iter().map(V::Num).collect())
}

fn tuple(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(", "))
}

/// One application of a helper and its value
struct Ap {
    ty: String,
    want: V,
}

/// Applications evaluated together: one tuple type
fn aps(j: &mut Job, name: &str, v: Vec<Ap>) {
    for (k, ch) in v.chunks(40).enumerate() {
        j.eq(tuple(ch.iter().map(|a| a.ty.clone())), &V::Arr(ch.iter().map(|a| a.want.clone()).collect()), format!("{} #{} from {}", name, k, ch[0].ty));
    }
}

fn ap(ty: String, want: V) -> Ap {
    Ap { ty, want }
}

type Op2 = (&'static str, fn(i64, i64) -> Option<V>);

/// The helpers on two numbers, as arithmetic has them; None: not defined
const OPS2: [Op2; 7] = [
    ("Eq", |a, b| Some(V::Bool(a == b))),
    ("Gt", |a, b| Some(V::Bool(a > b))),
    ("Gte", |a, b| Some(V::Bool(a >= b))),
    ("Lt", |a, b| Some(V::Bool(a < b))),
    ("Lte", |a, b| Some(V::Bool(a <= b))),
    ("Add", |a, b| if a + b <= NUMBERS as i64 { Some(V::Num(a + b)) } else { None }),
    ("Sub", |a, b| if b <= a { Some(V::Num(a - b)) } else { None }),
];

/// How many steps the compiler takes in one recursive type
const RECURSION: i64 = 960;

fn steps(op: &str, a: i64, b: i64) -> i64 {
    match op {
        "Eq" => 1,
        "Add" | "Sub" => b,
        _ => a.min(b),
    }
}

fn pairs_case(c: &mut Case, a: i64, bs: &[i64]) {
    let mut j = Job::new();
    for (op, f) in OPS2 {
        let mut v = vec![];
        for b in bs {
            if steps(op, a, *b) > RECURSION {
                continue;
            }
            if let Some(w) = f(a, *b) {
                c.nontrivial(&(op, a, *b));
                v.push(ap(format!("U.{}<{}, {}>", op, a, b), w));
            }
        }
        c.st.states += v.len() as u64;
        aps(&mut j, op, v);
    }
    j.emit(c);
}

/// All elements a tuple may hold here
const ELEMS: [&str; 6] = ["0", "\"a\"", "true", "[]", "{ k: 1 }", "null"];
fn elem(i: usize) -> V {
    match i {
        0 => V::Num(0),
        1 => V::s("a"),
        2 => V::Bool(true),
        3 => V::Arr(vec![]),
        4 => V::obj(&[("k", V::Num(1))]),
        _ => V::Null,
    }
}

fn stack_aps(v: &mut [Vec<Ap>; 4], tys: &[String], vals: &[V], ns: &[usize]) {
    let t = tuple(tys.iter().cloned());
    v[0].push(ap(format!("U.Reverse<{}>", t), V::Arr(vals.iter().rev().cloned().collect())));
    v[1].push(ap(format!("U.Tail<{}>", t), V::Arr(vals.iter().skip(1).cloned().collect())));
    for n in ns {
        // the stack grows at the front: what is popped comes back in the order it was pushed
        if *n > vals.len() {
            v[2].push(ap(format!("U.PopNStack<{}, {}>", t, n), V::Never));
            v[3].push(ap(format!("U.PopNStackWithValue<{}, {}>", t, n), V::Never));
            continue;
        }
        let rest = V::Arr(vals[*n..].to_vec());
        v[2].push(ap(format!("U.PopNStack<{}, {}>", t, n), rest.clone()));
        v[3].push(ap(format!("U.PopNStackWithValue<{}, {}>", t, n), V::Arr(vec![rest, V::Arr(vals[..*n].iter().rev().cloned().collect())])));
    }
}

fn stack_emit(c: &mut Case, v: [Vec<Ap>; 4]) {
    let mut j = Job::new();
    for (n, v) in ["Reverse", "Tail", "PopNStack", "PopNStackWithValue"].iter().zip(v) {
        c.st.states += v.len() as u64;
        for a in &v {
            c.nontrivial(&a.ty);
        }
        aps(&mut j, n, v);
    }
    j.emit(c);
}

fn substring(s: &[char], a: usize, b: usize) -> Ap {
    ap(format!("U.Substring<{}, {}, {}>", jstr(&s.iter().collect::<String>()), a, b), V::Str(s[a..b].iter().collect()))
}

fn substring_case(c: &mut Case, v: Vec<Ap>) {
    let mut j = Job::new();
    c.st.states += v.len() as u64;
    for a in &v {
        c.nontrivial(&a.ty);
    }
    aps(&mut j, "Substring", v);
    j.emit(c);
}

pub fn c21(ctx: &mut Ctx) {
    header(ctx, NUMBERS);
    let t = ctx.thorough;
    let top = NUMBERS as i64;
    ctx.family("successor and predecessor of every number of the table");
    for k in 0..(top / 100 + 1) {
        let (lo, hi) = (k * 100, (k * 100 + 100).min(top + 1));
        ctx.case(
            || format!("{}..{}", lo, hi),
            |c| {
                let mut j = Job::new();
                let mut v = vec![];
                for i in lo..hi {
                    if i < top {
                        v.push(ap(format!("U.Succ<{}>", i), V::Num(i + 1)));
                    }
                    v.push(ap(format!("U.Pred<{}>", i), V::Num((i - 1).max(0))));
                }
                c.st.states += v.len() as u64;
                for a in &v {
                    c.nontrivial(&a.ty);
                }
                aps(&mut j, "Succ, Pred", v);
                j.emit(c);
            },
        );
    }
    ctx.family("all pairs of small numbers");
    let n = if t { 260 } else { 70 };
    let small: Vec<i64> = (0..=n).collect();
    for a in 0..=n {
        ctx.case(|| format!("pairs with {}", a), |c| pairs_case(c, a, &small));
    }
    ctx.family("pairs of numbers at boundaries");
    let edge: Vec<i64> = vec![0, 1, 2, 9, 10, 11, 99, 100, 127, 128, 254, 255, 256, 257, 499, 500, 511, 512, 949, 950, 998, 999, 1000, 1001, 2047, 2048, 4040, 4095, 4096, 4998, 4999, 5000];
    for a in edge.clone() {
        ctx.case(|| format!("boundary pairs with {}", a), |c| pairs_case(c, a, &edge));
    }
    ctx.family("sequences of arithmetic");
    // compositions of helpers, as the recursive types of the runtime make them
    let ops: [(&str, &str, fn(i64) -> Option<i64>); 6] = [
        ("U.Succ<", ">", |a| Some(a + 1)),
        ("U.Pred<", ">", |a| Some((a - 1).max(0))),
        ("U.Add<", ", 3>", |a| Some(a + 3)),
        ("U.Sub<", ", 2>", |a| if a >= 2 { Some(a - 2) } else { None }),
        ("U.Add<5, ", ">", |a| Some(a + 5)),
        ("U.Sub<7, ", ">", |a| if a <= 7 { Some(7 - a) } else { None }),
    ];
    let len = if t { 5 } else { 4 };
    for start in [0i64, 1, 4] {
        for first in 0..ops.len() {
            ctx.case(
                || format!("operations from {} beginning with {}", start, ops[first].0),
                |c| {
                    let mut v = vec![];
                    let mut layer = vec![(start.to_string(), start)];
                    for l in 0..len {
                        let mut next = vec![];
                        for (ty, val) in &layer {
                            for (i, (a, b, f)) in ops.iter().enumerate() {
                                if l == 0 && i != first {
                                    continue;
                                }
                                if let Some(x) = f(*val) {
                                    next.push((format!("{}{}{}", a, ty, b), x));
                                }
                            }
                        }
                        v.extend(next.iter().map(|(t, x)| ap(t.clone(), V::Num(*x))));
                        layer = next;
                    }
                    let mut j = Job::new();
                    c.st.states += v.len() as u64;
                    for a in &v {
                        c.nontrivial(&a.ty);
                    }
                    aps(&mut j, "sequence", v);
                    j.emit(c);
                },
            );
        }
    }
    ctx.family("tuples of every content");
    let max = if t { 5 } else { 4 };
    for first in 0..ELEMS.len() {
        for len in 0..=max {
            if len == 0 && first > 0 {
                continue;
            }
            ctx.case(
                || format!("tuples of length {} beginning with {}", len, if len > 0 { ELEMS[first] } else { "nothing" }),
                |c| {
                    let mut v: [Vec<Ap>; 4] = [vec![], vec![], vec![], vec![]];
                    let total = ELEMS.len().pow(len.max(1) as u32 - 1);
                    for k in 0..if len == 0 { 1 } else { total } {
                        let mut k = k;
                        let mut ix = vec![];
                        for p in 0..len {
                            if p == 0 {
                                ix.push(first);
                            } else {
                                ix.push(k % ELEMS.len());
                                k /= ELEMS.len();
                            }
                        }
                        let tys: Vec<String> = ix.iter().map(|i| ELEMS[*i].to_string()).collect();
                        let vals: Vec<V> = ix.iter().map(|i| elem(*i)).collect();
                        stack_aps(&mut v, &tys, &vals, &(0..=len + 2).collect::<Vec<_>>());
                    }
                    stack_emit(c, v);
                },
            );
        }
    }
    ctx.family("tuples of every length");
    for len in (0..=if t { 80usize } else { 40 }).chain([99, 100, 101, 255, 256, 257, 500, 900]) {
        ctx.case(
            || format!("tuples of {} distinct elements", len),
            |c| {
                let mut v: [Vec<Ap>; 4] = [vec![], vec![], vec![], vec![]];
                let tys: Vec<String> = (0..len).map(|i| (10 * i).to_string()).collect();
                let vals: Vec<V> = (0..len).map(|i| V::Num(10 * i as i64)).collect();
                let ns: Vec<usize> = if len <= 80 { (0..=len + 1).chain([len + 9, 990]).collect() } else { vec![0, 1, 2, 50, 99, 100.min(len), len - 1, len, len + 1] };
                stack_aps(&mut v, &tys, &vals, &ns);
                stack_emit(c, v);
            },
        );
    }
    ctx.family("substrings of all short strings");
    let al = ['a', 'b', ' '];
    let max = if t { 6 } else { 5 };
    for len in 0..=max {
        for first in 0..if len == 0 { 1 } else { al.len() } {
            ctx.case(
                || format!("strings of length {} beginning with {:?}", len, al[first]),
                |c| {
                    let mut v = vec![];
                    for k in 0..al.len().pow((len as u32).max(1) - 1) {
                        let mut k = k;
                        let mut s = vec![];
                        for p in 0..len {
                            if p == 0 {
                                s.push(al[first]);
                            } else {
                                s.push(al[k % 3]);
                                k /= 3;
                            }
                        }
                        for a in 0..=len {
                            for b in a..=len {
                                v.push(substring(&s, a, b));
                            }
                        }
                    }
                    substring_case(c, v);
                },
            );
        }
    }
    ctx.family("substrings of long strings");
    let all: Vec<char> = (0u32..256).filter_map(char::from_u32).filter(|c| supported(*c)).collect();
    let n = all.len();
    let grid: Vec<usize> = (0..=n).filter(|i| t || i % 7 == 0 || *i < 4 || *i + 4 > n || (95..106).contains(i)).collect();
    for a in grid.clone() {
        let (all, grid) = (all.clone(), grid.clone());
        ctx.case(
            || format!("substrings of the supported characters from {}", a),
            |c| substring_case(c, grid.iter().filter(|b| **b >= a).map(|b| substring(&all, a, *b)).collect()),
        );
    }
    for len in [300usize, 500, 700, 900] {
        let s: Vec<char> = (0..len).map(|i| all[(i * 7 + i / 97) % n]).collect();
        ctx.case(
            || format!("substrings of a string of {}", len),
            |c| {
                let at = [0, 1, 2, 99, 100, 101, 255, 256, len / 2, len - 1, len];
                let mut v = vec![];
                for a in at {
                    for b in at {
                        if a <= b {
                            v.push(substring(&s, a, b));
                        }
                    }
                }
                substring_case(c, v)
            },
        );
    }
    ctx.family("blanks");
    for ch in all.chunks(32) {
        let ch = ch.to_vec();
        ctx.case(
            || format!("blank among {:?}..{:?}", ch[0], ch[ch.len() - 1]),
            |c| {
                let mut j = Job::new();
                let v: Vec<Ap> = ch.iter().map(|x| ap(format!("U.IsWhitespace<{}>", jstr(&x.to_string())), V::Bool(*x == ' ' || *x == '\n'))).collect();
                c.st.states += v.len() as u64;
                for a in &v {
                    c.nontrivial(&a.ty);
                }
                aps(&mut j, "IsWhitespace", v);
                aps(&mut j, "Negate", vec![ap("U.Negate<true>".into(), V::Bool(false)), ap("U.Negate<false>".into(), V::Bool(true)), ap("U.Negate<U.Negate<true>>".into(), V::Bool(true))]);
                j.emit(c);
            },
        );
    }
}

// ------------------------------------------------------------------------------------------ C22

/// The members of a union of literals, as the evaluator prints them
fn union(mut v: Vec<V>) -> String {
    match v.len() {
        0 => "{\"$\":\"never\"}".into(),
        1 => v.pop().unwrap().json(),
        _ => {
            let mut s: Vec<String> = v.iter().map(V::json).collect();
            s.sort_by(|a, b| a.encode_utf16().cmp(b.encode_utf16()));
            format!("{{\"$union\":[{}]}}", s.join(","))
        }
    }
}

fn pairs_job(j: &mut Job, m: &str, table: &str, name: &str, v: &[(V, V)]) {
    j.exprs.push((format!("keyof {}.{}", m, table), "eq", union(v.iter().map(|x| x.0.clone()).collect()), format!("{} keys", name)));
    let a = v
        .iter()
        .map(|(k, x)| {
            let key = k.json();
            ap(format!("{}.{}[{}]", m, table, key), x.clone())
        })
        .collect();
    aps(j, name, a);
}

pub fn c22(ctx: &mut Ctx) {
    header(ctx, 20);
    let t = ctx.thorough;
    let all: Vec<char> = (0u32..256).filter_map(char::from_u32).filter(|c| supported(*c)).collect();
    ctx.family("character tables");
    for generated in [false, true] {
        let all = all.clone();
        ctx.case(
            || if generated { "generated characters".to_string() } else { "shipped characters".to_string() },
            |c| {
                let mut j = Job::new();
                let m = if generated {
                    match imp(lex_gen::chars_module) {
                        Ok(s) => j.files.push(("X".into(), s)),
                        Err(e) => return c.fail("panic", e),
                    }
                    j.diag = vec!["X"];
                    "X"
                } else {
                    j.diag = vec!["/shared/chars"];
                    "C"
                };
                let code = |c: &char| V::Num(*c as i64);
                let text = |c: &char| V::s(&c.to_string());
                let a: Vec<(V, V)> = all.iter().map(|c| (code(c), text(c))).collect();
                let b: Vec<(V, V)> = all.iter().map(|c| (text(c), code(c))).collect();
                pairs_job(&mut j, m, "Characters", "Characters", &a);
                pairs_job(&mut j, m, "CharTable", "CharTable", &b);
                for c1 in &all {
                    c.nontrivial(&(generated, *c1));
                }
                c.st.states += 2 * all.len() as u64;
                j.emit(c);
            },
        );
    }
    ctx.family("number tables");
    let mut sizes: Vec<u32> = (0..=if t { 400 } else { 130 }).collect();
    sizes.extend([255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 4999, 5000, 5001]);
    if t {
        sizes.extend([9_999, 10_000, 16_384, 32_767, 65_535, 65_536, 65_537]);
    }
    sizes.sort();
    sizes.dedup();
    for n in sizes {
        ctx.case(
            || format!("number tables of size {}", n),
            |c| {
                let r = imp(|| {
                    let mut b = String::new();
                    lex_gen::gen_arithmetic(&mut b, n);
                    b
                });
                let mut j = Job::new();
                match r {
                    Ok(s) => j.files.push(("X".into(), s)),
                    Err(e) => return c.fail("panic", e),
                }
                j.diag = vec!["X"];
                let s: Vec<(V, V)> = (0..n as i64).map(|i| (V::Num(i), V::Num(i + 1))).collect();
                let p: Vec<(V, V)> = (0..n as i64).map(|i| (V::Num(i + 1), V::Num(i))).collect();
                pairs_job(&mut j, "X", "SuccTable", "SuccTable", &s);
                pairs_job(&mut j, "X", "PredTable", "PredTable", &p);
                c.nontrivial(&n);
                c.st.states += 2 * n as u64;
                j.emit(c);
            },
        );
    }
    ctx.family("number tables appended to a buffer");
    // the text is appended: what the caller has written stays
    for before in ["", "// generated\n", "export type Before = 1;\n"] {
        ctx.case(
            || format!("after {:?}", before),
            |c| {
                let r = imp(|| {
                    let mut b = before.to_string();
                    lex_gen::gen_arithmetic(&mut b, 3);
                    b
                });
                let mut j = Job::new();
                match r {
                    Ok(s) => {
                        if !s.starts_with(before) {
                            c.fail("buffer", format!("{:?}", s));
                        }
                        j.files.push(("X".into(), s))
                    }
                    Err(e) => return c.fail("panic", e),
                }
                j.diag = vec!["X"];
                pairs_job(&mut j, "X", "SuccTable", "SuccTable", &(0..3).map(|i| (V::Num(i), V::Num(i + 1))).collect::<Vec<_>>());
                j.emit(c);
            },
        );
    }
}

// ------------------------------------------------------------------------------------------ C23

/// What generation from one text leaves behind: both modules and the tables, or the refusal
#[derive(Clone, PartialEq, Eq, Debug)]
struct Out {
    lex: String,
    parse: String,
    tables: String,
}

/// Steps of a history: what is generated, and with which arena
fn generate_in<'a>(bump: &'a Bump, text: &str) -> Result<Out, String> {
    let ast = read_ast(bump, text).map_err(|_| "not read".to_string())?;
    let ast: &[_] = bump.alloc(ast);
    let r = imp(|| {
        let gr = Grammar::grammar_from_ast_productions(bump, ast);
        let (action, goto, states) = make_tables(&gr);
        let mut a: Vec<String> = vec![];
        for (s, row) in action.iter() {
            for (k, x) in row {
                a.push(format!("{:06} on {:06}: {:?}", s, k.0, x));
            }
        }
        for (s, row) in goto.iter() {
            for (k, x) in row {
                a.push(format!("{:06} goto {}: {}", s, k.0, x));
            }
        }
        a.sort();
        a.push(format!("{} states", states.len()));
        let toks: Vec<String> = gr.tokens().map(|t| format!("{:?}", t)).collect();
        a.extend(toks);
        let lalr = Lalr::new(gr);
        let (lex, parse) = parse_gen::generate(bump, ast, &lalr).map_err(|e| format!("{:?}", e)).unwrap();
        Out { lex, parse, tables: a.join("\n") }
    });
    r.map_err(|_| "refused".to_string())
}

fn difference(a: &Result<Out, String>, b: &Result<Out, String>) -> String {
    match (a, b) {
        (Ok(a), Ok(b)) => {
            for (n, x, y) in [("tables", &a.tables, &b.tables), ("lexer module", &a.lex, &b.lex), ("parser module", &a.parse, &b.parse)] {
                if x != y {
                    let k = x.lines().zip(y.lines()).position(|(p, q)| p != q);
                    let (p, q) = match k {
                        Some(k) => (x.lines().nth(k).unwrap_or(""), y.lines().nth(k).unwrap_or("")),
                        None => ("(longer or shorter)", ""),
                    };
                    return format!("{} differ at line {:?}: {:.300} against {:.300}", n, k, p, q);
                }
            }
            "equal".into()
        }
        _ => format!("{:.200} against {:.200}", format!("{:?}", a.as_ref().err()), format!("{:?}", b.as_ref().err())),
    }
}

fn fresh(seed: u64, text: &str) -> (Result<Out, String>, u64) {
    with_hash_seed(seed, || generate_in(&Bump::new(), text))
}

/// Seeds are explored in pieces, each against the first seed
fn pieces(seeds: u64, f: &mut dyn FnMut(u64, u64)) {
    let mut a = 2;
    while a <= seeds {
        let b = (a + 14).min(seeds);
        f(a, b);
        a = b + 1;
    }
}

fn seeds_case(c: &mut Case, text: &str, lo: u64, seeds: u64) {
    let first = fresh(1, text).0;
    match &first {
        Ok(o) => {
            c.nontrivial(&(o.lex.as_str(), o.parse.as_str()));
            c.hist("generated");
        }
        Err(e) => c.hist(e),
    }
    for s in lo..=seeds {
        let (r, asked) = fresh(s, text);
        c.st.states += 1;
        c.st.transitions += 1;
        c.st.traces += 1;
        if asked > 0 {
            c.hist("generation that asked for a hash seed");
        } else {
            c.hist("generation without a hash seed");
        }
        if r != first {
            return c.fail(format!("seed {}", s), format!("{}\n{}", difference(&first, &r), text));
        }
    }
    c.sample(|| format!("{} seeds, same modules and tables for {:.200}", seeds, text));
}

fn lex_seeds_case(c: &mut Case, defs: &[TokDef], lo: u64, seeds: u64) {
    let make = |s: u64| with_hash_seed(s, || imp(|| lex_gen::generate(&Lex::from_tokens(lex_defs(defs))))).0;
    let first = make(1);
    if let Ok(x) = &first {
        c.nontrivial(x);
    }
    for s in lo..=seeds {
        let r = make(s);
        c.st.states += 1;
        c.st.transitions += 1;
        c.st.traces += 1;
        if r != first {
            return c.fail(format!("seed {}", s), format!("{}: lexer modules differ\n{:.600}\nagainst\n{:.600}", show_defs(defs), first.clone().unwrap_or_default(), r.unwrap_or_default()));
        }
    }
}

/// Texts for histories: parsers of different sizes, a refused grammar, a text outside the notation
fn history_texts() -> Vec<String> {
    let g = |d: &str| G::dsl(d, &[("n", plus(class("[0-9]", &[('0', '9')]))), ("id", plus(class("[a-z]", &[('a', 'z')])))]).to_text();
    vec![
        g("S -> 'a' S | 'b'"),
        g("E -> E '+' T | T ; T -> T '*' F | F ; F -> '(' E ')' | /n/ | /id/"),
        g("S -> S S | 'a'"),
        g("T -> 'b' | 'a' T"),
        "export S: \"x\" = { <a:A> => (".to_string(),
        g("S -> L '=' R | R ; L -> '*' R | /id/ ; R -> L"),
        g("A -> B 'x' | 'y' ; B -> A | 'if' | /id/"),
        g("S -> 'a' A 'd' | 'b' B 'd' | 'a' B 'e' | 'b' A 'e' ; A -> 'c' ; B -> 'c'"),
    ]
}

fn history_case(c: &mut Case, texts: &[String], h: &[usize], shared: bool) {
    let alone: Vec<Result<Out, String>> = h.iter().map(|i| fresh(1, &texts[*i]).0).collect();
    let together = with_hash_seed(1, || {
        let arena = Bump::new();
        h.iter()
            .map(|i| {
                if shared {
                    generate_in(&arena, &texts[*i])
                } else {
                    generate_in(&Bump::new(), &texts[*i])
                }
            })
            .collect::<Vec<_>>()
    })
    .0;
    c.st.traces += 1;
    c.st.transitions += h.len() as u64;
    c.st.states += h.len() as u64;
    c.nontrivial(&(h, shared));
    for (k, (a, b)) in alone.iter().zip(&together).enumerate() {
        c.hist(match a {
            Ok(_) => "generated after others",
            Err(_) => "refused after others",
        });
        if a != b {
            return c.fail(format!("step {}", k + 1), format!("{}\n{}", difference(a, b), h.iter().map(|i| texts[*i].as_str()).collect::<Vec<_>>().join("\n-- then\n")));
        }
    }
}

pub fn c23(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let seeds = if t { 1000 } else { 120 };
    ctx.family("orders of hash sets reached by the seeds");
    ctx.case(
        || "orders".to_string(),
        |c| {
            for m in 2..=5usize {
                let mut seen = std::collections::BTreeSet::new();
                for s in 1..=seeds {
                    let (o, asked) = with_hash_seed(s, || (0..m).collect::<std::collections::HashSet<usize>>().into_iter().collect::<Vec<_>>());
                    assert!(asked == 1, "the standard library did not ask for a seed");
                    assert!(o == with_hash_seed(s, || (0..m).collect::<std::collections::HashSet<usize>>().into_iter().collect::<Vec<_>>()).0, "the seed does not determine the order");
                    seen.insert(o);
                }
                let all: usize = (1..=m).product();
                c.histn(&format!("orders of {} elements reached, of {}", m, all), seen.len() as u64);
                assert!(seen.len() * if m < 5 { 1 } else { 2 } >= all, "{} orders of {} elements", seen.len(), m);
                c.st.states += seen.len() as u64;
                for o in &seen {
                    c.nontrivial(o);
                }
            }
        },
    );
    ctx.family("grammars under every seed");
    for (name, ag) in acting() {
        let text = ag.g.to_text();
        pieces(seeds, &mut |a, b| ctx.case(|| format!("{}, seeds {}..{}", name, a, b), |c| seeds_case(c, &text, a, b)));
    }
    for (i, text) in history_texts().iter().enumerate() {
        pieces(seeds, &mut |a, b| ctx.case(|| format!("history text {}, seeds {}..{}", i, a, b), |c| seeds_case(c, text, a, b)));
    }
    for (name, gs) in families() {
        ctx.family(&format!("{}, seeds", name));
        for g in gs {
            ctx.case(|| g.short(), |c| seeds_case(c, &g.to_text(), 2, if t { 30 } else { 6 }));
        }
    }
    for bd in if t { vec![b(2, 2, 2, 3, 6)] } else { vec![b(2, 2, 2, 2, 4)] } {
        ctx.family("small grammars, seeds");
        enumerate(&bd, &mut |g| {
            ctx.case(|| g.short(), |c| seeds_case(c, &g.to_text(), 2, 6));
        });
    }
    ctx.family("realistic token sets under every seed");
    for defs in realistic_sets() {
        pieces(seeds, &mut |a, b| ctx.case(|| format!("{}, seeds {}..{}", show_defs(&defs), a, b), |c| lex_seeds_case(c, &defs, a, b)));
    }
    ctx.family("lists of tokens, seeds");
    let pool = token_pool();
    lists(pool.len(), if t { 3 } else { 2 }, &mut |ix| {
        let defs: Vec<TokDef> = named(&ix.iter().map(|i| pool[*i].clone()).collect::<Vec<_>>());
        ctx.case(|| show_defs(&defs), |c| lex_seeds_case(c, &defs, 2, if t { 24 } else { 10 }));
    });
    ctx.family("histories");
    let texts = history_texts();
    let n = texts.len();
    for shared in [false, true] {
        for len in 2..=if t { 4 } else { 3 } {
            let m = if len == 2 { n } else if len == 3 { if t { n } else { 5 } } else { 4 };
            for k in 0..m.pow(len as u32) {
                let mut k = k;
                let h: Vec<usize> = (0..len)
                    .map(|_| {
                        let x = k % m;
                        k /= m;
                        x
                    })
                    .collect();
                ctx.case(|| format!("history {:?}{}", h, if shared { " in one arena" } else { "" }), |c| history_case(c, &texts, &h, shared));
            }
        }
    }
}
