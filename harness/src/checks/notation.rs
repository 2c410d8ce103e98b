//! C08, C09: reading the notation and lowering.
use super::tables::*;
use crate::engine::*;
use crate::gram::*;
use bumpalo::Bump;
use std::collections::BTreeMap;
use typelalr::parser::ast::{self, Ident, InputSymbol};
use typelalr::parser::{Grammar, Symbol};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RKind {
    Lit,
    Pat,
    Nt,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RSym {
    pub name: Option<String>,
    pub kind: RKind,
    pub text: String,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RProd {
    pub name: String,
    pub start: bool,
    pub ty: String,
    pub bodies: Vec<(Vec<RSym>, String)>,
}

// ---- reference reader: scanner by hand, recursive descent

#[derive(Clone, Debug, PartialEq, Eq)]
enum NTok {
    /// punctuation and keywords
    P(&'static str),
    Id(String),
    /// as written between the quotes
    Q(String),
    Ts(String),
}

fn ref_scan(s: &str) -> Option<Vec<NTok>> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut o = vec![];
    while i < c.len() {
        let x = c[i];
        if x.is_whitespace() {
            i += 1;
        } else if x.is_ascii_alphabetic() || x == '_' {
            let mut j = i;
            while j < c.len() && (c[j].is_ascii_alphanumeric() || c[j] == '_') {
                j += 1;
            }
            let w: String = c[i..j].iter().collect();
            o.push(match w.as_str() {
                "export" => NTok::P("export"),
                "start" => NTok::P("start"),
                "r" => NTok::P("r"),
                _ => NTok::Id(w),
            });
            i = j;
        } else if x == '"' {
            let mut j = i + 1;
            let mut t = String::new();
            loop {
                match c.get(j) {
                    None => return None,
                    Some('"') => break,
                    Some('\\') => match c.get(j + 1) {
                        Some(e @ ('\\' | '"')) => {
                            t.push('\\');
                            t.push(*e);
                            j += 2;
                        }
                        _ => return None,
                    },
                    Some(e) => {
                        t.push(*e);
                        j += 1;
                    }
                }
            }
            o.push(NTok::Q(t));
            i = j + 1;
        } else if x == '(' {
            // to the last closing parenthesis of the line
            let mut last = None;
            let mut j = i + 1;
            while j < c.len() && c[j] != '\n' {
                if c[j] == ')' {
                    last = Some(j);
                }
                j += 1;
            }
            let l = last?;
            o.push(NTok::Ts(c[i + 1..l].iter().collect()));
            i = l + 1;
        } else if x == '=' && c.get(i + 1) == Some(&'>') {
            o.push(NTok::P("=>"));
            i += 2;
        } else {
            o.push(NTok::P(match x {
                ':' => ":",
                '=' => "=",
                '[' => "[",
                ']' => "]",
                '<' => "<",
                '>' => ">",
                ',' => ",",
                _ => return None,
            }));
            i += 1;
        }
    }
    Some(o)
}

struct RP {
    t: Vec<NTok>,
    i: usize,
}

impl RP {
    fn p(&mut self, s: &'static str) -> Option<()> {
        if self.t.get(self.i) == Some(&NTok::P(s)) {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn id(&mut self) -> Option<String> {
        match self.t.get(self.i) {
            Some(NTok::Id(s)) => {
                self.i += 1;
                Some(s.clone())
            }
            _ => None,
        }
    }
    fn ts(&mut self) -> Option<String> {
        match self.t.get(self.i) {
            Some(NTok::Ts(s)) => {
                self.i += 1;
                Some(s.clone())
            }
            _ => None,
        }
    }
    fn symbol(&mut self) -> Option<(RKind, String)> {
        if self.p("r").is_some() {
            return match self.t.get(self.i) {
                Some(NTok::Q(s)) => {
                    self.i += 1;
                    Some((RKind::Pat, s.clone()))
                }
                _ => None,
            };
        }
        if let Some(NTok::Q(s)) = self.t.get(self.i) {
            let mut t = String::new();
            let mut it = s.chars();
            while let Some(c) = it.next() {
                t.push(if c == '\\' { it.next().unwrap() } else { c });
            }
            self.i += 1;
            return Some((RKind::Lit, t));
        }
        Some((RKind::Nt, self.id()?))
    }
    fn prod(&mut self) -> Option<RProd> {
        let mut start = false;
        if self.p("export").is_some() {
            start = self.p("start").is_some();
        }
        let name = self.id()?;
        self.p(":")?;
        let ty = self.ts()?;
        self.p("=")?;
        self.p("[")?;
        let mut bodies = vec![];
        loop {
            if self.p("]").is_some() {
                break;
            }
            let mut syms = vec![];
            loop {
                if self.p("<").is_some() {
                    let n = self.id()?;
                    self.p(":")?;
                    let (kind, text) = self.symbol()?;
                    self.p(">")?;
                    syms.push(RSym { name: Some(n), kind, text });
                } else {
                    let (kind, text) = self.symbol()?;
                    syms.push(RSym { name: None, kind, text });
                }
                if self.p("=>").is_some() {
                    break;
                }
            }
            bodies.push((syms, self.ts()?));
            if self.p(",").is_none() {
                self.p("]")?;
                break;
            }
        }
        Some(RProd { name, start, ty, bodies })
    }
}

/// What the text says, or None when it is not in the notation
pub fn ref_read(s: &str) -> Option<Vec<RProd>> {
    let mut p = RP { t: ref_scan(s)?, i: 0 };
    let mut v = vec![p.prod()?];
    while p.i < p.t.len() {
        v.push(p.prod()?);
    }
    Some(v)
}

fn from_ast(a: &[ast::Production]) -> Vec<RProd> {
    fn sym(s: &InputSymbol) -> (RKind, String) {
        match s {
            InputSymbol::StrLit(t) => (RKind::Lit, t.to_string()),
            InputSymbol::Regex(t) => (RKind::Pat, t.to_string()),
            InputSymbol::NonTerminal(Ident(t)) => (RKind::Nt, t.to_string()),
            x => (RKind::Nt, format!("?{:?}", x)),
        }
    }
    a.iter()
        .map(|p| RProd {
            name: p.name.0.to_string(),
            start: p.is_start,
            ty: p.ts_code.to_string(),
            bodies: p
                .bodies
                .iter()
                .map(|b| {
                    (
                        b.input_tokens
                            .iter()
                            .map(|s| match s {
                                InputSymbol::Named(n) => {
                                    let (kind, text) = sym(n.ty);
                                    RSym { name: n.name.map(|i| i.0.to_string()), kind, text }
                                }
                                s => {
                                    let (kind, text) = sym(s);
                                    RSym { name: None, kind, text }
                                }
                            })
                            .collect(),
                        b.mapping_fn.to_string(),
                    )
                })
                .collect(),
        })
        .collect()
}

fn read_impl(text: &str) -> Result<Vec<RProd>, String> {
    let bump = Bump::new();
    let a = read_ast(&bump, text)?;
    Ok(from_ast(&a))
}

/// The reader has to agree with the reference on `text`; `intended`: what the text was printed from
fn agree(c: &mut Case, what: String, text: &str, intended: Option<&[RProd]>) -> bool {
    let want = ref_read(text);
    if let Some(i) = intended {
        assert_eq!(want.as_deref(), Some(i), "reference reader on {:?}", text);
    }
    let got = read_impl(text);
    c.eval(1);
    c.st.traces += 1;
    c.st.transitions += 1;
    match (&want, &got) {
        (Some(w), Ok(g)) if w == g => c.hist("read"),
        (None, Err(_)) => c.hist("refused"),
        (w, g) => {
            c.fail(
                what,
                format!(
                    "text\n{}\n{}, reader {}",
                    text,
                    match w {
                        Some(w) => format!("says {:?}", w),
                        None => "does not follow the notation".into(),
                    },
                    match g {
                        Ok(g) => format!("reads {:?}", g),
                        Err(e) => format!("refuses: {}", e),
                    }
                ),
            );
            return false;
        }
    }
    true
}

// ---- printing with layout

#[derive(Clone, Debug)]
struct Piece {
    text: String,
    /// the gap before this piece: 0 none needed, 1 a blank needed, 2 a line break needed
    need: u8,
}

fn pieces(ps: &[RProd], export: bool, trailing: bool) -> Vec<Piece> {
    let mut v: Vec<Piece> = vec![];
    let mut put = |t: String| {
        let word = |c: char| c.is_ascii_alphanumeric() || c == '_';
        let need = match v.last() {
            None => 0,
            // an action ends at the last ) of its line
            Some(l) if l.text.starts_with('(') => 2,
            Some(l) if word(l.text.chars().last().unwrap()) && word(t.chars().next().unwrap()) => 1,
            _ => 0,
        };
        v.push(Piece { text: t, need })
    };
    for p in ps {
        if p.start {
            put("export".into());
            put("start".into());
        } else if export {
            put("export".into());
        }
        put(p.name.clone());
        put(":".into());
        put(format!("({})", p.ty));
        put("=".into());
        put("[".into());
        for (i, (syms, code)) in p.bodies.iter().enumerate() {
            for s in syms {
                let t = match s.kind {
                    RKind::Lit => quote(&s.text),
                    RKind::Pat => format!("r\"{}\"", s.text),
                    RKind::Nt => s.text.clone(),
                };
                match &s.name {
                    Some(n) => {
                        put("<".into());
                        put(n.clone());
                        put(":".into());
                        put(t);
                        put(">".into());
                    }
                    None => put(t),
                }
            }
            put("=>".into());
            put(format!("({})", code));
            if i + 1 < p.bodies.len() || trailing {
                put(",".into());
            }
        }
        put("]".into());
    }
    v
}

fn join(v: &[Piece], gap: &dyn Fn(usize, &Piece) -> String) -> String {
    let mut o = String::new();
    for (i, p) in v.iter().enumerate() {
        o.push_str(&gap(i, p));
        o.push_str(&p.text);
    }
    o
}

fn min_gap(p: &Piece, rest_has_paren: bool) -> &'static str {
    match p.need {
        2 if rest_has_paren => "\n",
        1 => " ",
        _ => "",
    }
}

fn rsym(name: Option<&str>, kind: RKind, text: &str) -> RSym {
    RSym { name: name.map(|s| s.into()), kind, text: text.into() }
}

fn base_grammars() -> Vec<Vec<RProd>> {
    use RKind::*;
    let p = |name: &str, start: bool, ty: &str, bodies: Vec<(Vec<RSym>, &str)>| RProd { name: name.into(), start, ty: ty.into(), bodies: bodies.into_iter().map(|(a, b)| (a, b.to_string())).collect() };
    vec![
        vec![p("S", true, "", vec![(vec![rsym(None, Lit, "a")], "")])],
        vec![p("S", true, "any", vec![(vec![rsym(Some("x"), Pat, "[a-z]+"), rsym(None, Nt, "A")], "[x]"), (vec![rsym(None, Lit, "q\"\\")], "{ k: 1 }")]), p("A", false, "string[]", vec![])],
        vec![
            p("E", false, "number | (string)", vec![(vec![rsym(Some("l"), Nt, "E"), rsym(None, Lit, "+"), rsym(Some("r1"), Nt, "T")], "f(l, (r1))"), (vec![rsym(Some("t"), Nt, "T")], "t")]),
            p("S", true, "{ v: E }", vec![(vec![rsym(Some("e"), Nt, "E")], "{ v: e }")]),
            p("T", false, "()", vec![(vec![rsym(Some("n"), Pat, "[1-9][0-9]*"), rsym(Some("m"), Lit, ";")], "parseInt(n)"), (vec![rsym(None, Lit, "("), rsym(Some("e"), Nt, "E"), rsym(None, Lit, ")")], "e")]),
        ],
        vec![p("exporter", false, "a", vec![(vec![rsym(None, Nt, "starts"), rsym(None, Nt, "rr"), rsym(None, Nt, "r1"), rsym(Some("export1"), Nt, "_")], "b")]), p("_", true, "'='", vec![(vec![rsym(None, Pat, "\\\\\\\""), rsym(None, Lit, "")], "=>")])],
    ]
}

fn layout_case(c: &mut Case, ps: &[RProd], export: bool, trailing: bool) {
    let v = pieces(ps, export, trailing);
    // whether something after piece i still holds a ) before the next needed line break: keep it
    // simple and break wherever an action is followed by anything
    let rest_paren = |i: usize| v[i..].iter().any(|p| p.text.contains(')'));
    let blanks = [" ", "\n", "\t", "  ", "\r\n", "\n\n  \t", "\u{a0}", "\u{2003}"];
    // all minimal; all blank; each gap alone varied in a minimal and in a spaced text
    let minimal = |i: usize, p: &Piece| min_gap(p, rest_paren(i)).to_string();
    let spaced = |i: usize, p: &Piece| if p.need == 2 && rest_paren(i) { "\n    ".to_string() } else { " ".into() };
    let mut n = 0;
    for k in 0..=v.len() {
        for bl in blanks.iter().chain([&""]) {
            for base in [0, 1] {
                let t = join(&v, &|i, p| {
                    let d = if base == 0 { minimal(i, p) } else { spaced(i, p) };
                    if i == k {
                        let ok = match p.need {
                            2 if rest_paren(i) => bl.contains('\n'),
                            1 => !bl.is_empty(),
                            _ => true,
                        };
                        if ok {
                            return bl.to_string();
                        }
                    }
                    d
                });
                let t = if k == v.len() { t + bl } else { t };
                n += 1;
                if !agree(c, format!("gap {} {:?} in base {}", k, bl, base), &t, Some(ps)) {
                    return;
                }
            }
        }
    }
    // pairs of gaps: minimal against a line break
    for k in 0..v.len() {
        for l in 0..k {
            let t = join(&v, &|i, p| if i == k || i == l { "\n".to_string() } else { minimal(i, p) });
            n += 1;
            if !agree(c, format!("gaps {} {} broken", l, k), &t, Some(ps)) {
                return;
            }
        }
    }
    c.st.states += n;
    c.nontrivial(&(c.label.clone(), export, trailing));
    c.sample(|| join(&v, &spaced));
}

/// Every edit of the token sequence: deletion, replacement by and insertion of every token kind,
/// exchange of neighbours
fn edits(v: &[String], alphabet: &[&str], f: &mut dyn FnMut(String, Vec<String>)) {
    for i in 0..=v.len() {
        for a in alphabet {
            let mut w = v.to_vec();
            w.insert(i, a.to_string());
            f(format!("insert {} at {}", a, i), w);
            if i < v.len() && v[i] != *a {
                let mut w = v.to_vec();
                w[i] = a.to_string();
                f(format!("{} for token {}", a, i), w);
            }
        }
        if i < v.len() {
            let mut w = v.to_vec();
            w.remove(i);
            f(format!("token {} deleted", i), w);
        }
        if i + 1 < v.len() {
            let mut w = v.to_vec();
            w.swap(i, i + 1);
            f(format!("tokens {} and {} exchanged", i, i + 1), w);
        }
    }
}

const ALPHABET: [&str; 15] = ["export", "start", "A", ":", "(t)", "=", "[", "]", "\"l\"", "r\"p\"", "<", ">", "=>", ",", "r"];

fn one_per_line(v: &[String]) -> String {
    v.join("\n")
}

pub fn c08(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let bases = base_grammars();
    ctx.family("layout: every gap of every base grammar with every kind of blank");
    for (i, g) in bases.iter().enumerate() {
        for m in 0..4 {
            ctx.case(|| format!("layout of base {} export {} trailing {}", i, m & 1, m >> 1), |c| layout_case(c, g, m & 1 == 1, m >> 1 == 1));
        }
    }
    ctx.family("all shapes: marks, number of alternatives and symbols, symbol kinds, names");
    // two productions, bodies by shape index
    let syms: Vec<RSym> = [RKind::Lit, RKind::Pat, RKind::Nt].iter().flat_map(|k| [None, Some("x")].map(|n| rsym(n, k.clone(), "A"))).collect();
    let mut bodies: Vec<Vec<RSym>> = vec![];
    for a in &syms {
        bodies.push(vec![a.clone()]);
        for b in &syms {
            bodies.push(vec![a.clone(), b.clone()]);
        }
    }
    let mut block: Vec<Vec<usize>> = vec![vec![]];
    for i in 0..bodies.len() {
        block.push(vec![i]);
        for j in 0..bodies.len() {
            block.push(vec![i, j]);
        }
    }
    let codes = ["x", "{ a: [x, (y)] }", ""];
    for (i, bl) in block.iter().enumerate() {
        ctx.case(
            || format!("block {:?}", bl),
            |c| {
                for m in 0..8 {
                    let p = |name: &str, start: bool, b: &[usize]| RProd { name: name.into(), start, ty: "T".into(), bodies: b.iter().enumerate().map(|(k, x)| (bodies[*x].clone(), codes[(k + i) % 3].to_string())).collect() };
                    let ps = match m & 3 {
                        0 => vec![p("A", false, bl)],
                        1 => vec![p("A", true, bl)],
                        2 => vec![p("A", false, bl), p("B", true, &block[(i * 7 + 3) % block.len()])],
                        _ => vec![p("B", true, &block[(i * 5 + 1) % block.len()]), p("A", true, bl), p("A", false, bl)],
                    };
                    let v = pieces(&ps, m & 1 == 0, m >> 2 == 1);
                    let t = one_per_line(&v.iter().map(|p| p.text.clone()).collect::<Vec<_>>());
                    c.st.states += 1;
                    if !agree(c, format!("shape {}", m), &t, Some(&ps)) {
                        return;
                    }
                }
                c.nontrivial(bl);
            },
        );
    }
    ctx.family("contents: literals, patterns, actions, types, names");
    let odd: Vec<char> = {
        let mut v: Vec<char> = (0x20u8..0x7f).map(|b| b as char).collect();
        v.extend(['\t', '\u{a0}', 'é', 'ß', '€', '😀', '\u{300}', '\u{2028}', '\u{85}', '\0', '\u{1b}', '\r', '\u{10ffff}', '\u{feff}']);
        v
    };
    let wrap = |kind: u8, s: &str| -> Vec<RProd> {
        let mut p = RProd { name: "S".into(), start: true, ty: "t".into(), bodies: vec![(vec![rsym(Some("x"), RKind::Lit, "a")], "x".into()), (vec![rsym(None, RKind::Nt, "B")], "y".into())] };
        match kind {
            0 => p.bodies[0].0[0].text = s.into(),
            1 => {
                p.bodies[0].0[0].kind = RKind::Pat;
                p.bodies[0].0[0].text = s.into()
            }
            2 => p.bodies[0].1 = s.into(),
            _ => p.ty = s.into(),
        }
        vec![p]
    };
    for kind in 0u8..4 {
        for a in &odd {
            ctx.case(
                || format!("content kind {} starting {:?}", kind, a),
                |c| {
                    let mut all = vec![a.to_string()];
                    for b in &odd {
                        all.push(format!("{}{}", a, b));
                        if t {
                            for d in ['"', '\\', '(', ')', ' ', 'a', '😀'] {
                                all.push(format!("{}{}{}", a, b, d));
                            }
                        }
                    }
                    for s in all {
                        // a pattern keeps its backslashes; only \\ and \" can be written
                        if kind == 1 && (s.contains('\\') || s.contains('"')) {
                            let s2 = s.replace('\\', "\\\\").replace('"', "\\\"");
                            let ps = wrap(1, &s2);
                            let v = pieces(&ps, true, false);
                            if !agree(c, format!("{:?}", s), &one_per_line(&v.iter().map(|p| p.text.clone()).collect::<Vec<_>>()), Some(&ps)) {
                                return;
                            }
                            continue;
                        }
                        let ps = wrap(kind, &s);
                        let v = pieces(&ps, true, false);
                        c.st.states += 1;
                        if !agree(c, format!("{:?}", s), &one_per_line(&v.iter().map(|p| p.text.clone()).collect::<Vec<_>>()), Some(&ps)) {
                            return;
                        }
                    }
                    c.nontrivial(&(kind, *a));
                },
            );
        }
    }
    // identifiers: every short one
    let idc: Vec<char> = "_Aazr09estp".chars().collect();
    for a in &idc {
        ctx.case(
            || format!("identifiers starting {:?}", a),
            |c| {
                let mut all = vec![a.to_string()];
                let mut lvl = all.clone();
                for _ in 0..3 {
                    lvl = lvl.iter().flat_map(|p| idc.iter().map(move |x| format!("{}{}", p, x))).collect();
                    all.extend(lvl.iter().cloned());
                }
                all.extend(["export", "start", "exports", "exportstart", "startx", "rx", "export_", "r_"].iter().filter(|s| s.starts_with(*a)).map(|s| s.to_string()));
                for s in all {
                    c.st.states += 1;
                    for t in [format!("{}: (t)\n= [ A => (x)\n]", s), format!("export start A: (t)\n= [ {} => (x)\n]", s), format!("export start A: (t)\n= [ <{}: B> => (x)\n]", s)] {
                        if !agree(c, format!("identifier {:?} in {:?}", s, &t[..6]), &t, None) {
                            return;
                        }
                    }
                }
                c.nontrivial(a);
            },
        );
    }
    ctx.family("texts that are almost right: every single edit of every base grammar");
    for (i, g) in bases.iter().enumerate() {
        let v: Vec<String> = pieces(g, true, true).into_iter().map(|p| p.text).collect();
        let mut list = vec![];
        edits(&v, &ALPHABET, &mut |w, e| list.push((w, e)));
        for (w, e) in list {
            ctx.case(
                || format!("base {}: {}", i, w),
                |c| {
                    c.st.states += 1;
                    let ok = agree(c, "edit".into(), &one_per_line(&e), None);
                    if ok && ref_read(&one_per_line(&e)).is_none() {
                        c.nontrivial(&e);
                    }
                },
            );
        }
    }
    ctx.family("texts that are almost right: every two edits of a small grammar");
    for (i, g) in bases.iter().enumerate().take(if t { 2 } else { 1 }) {
        let v: Vec<String> = pieces(g, true, true).into_iter().map(|p| p.text).collect();
        let mut list = vec![];
        edits(&v, &ALPHABET, &mut |w, e| list.push((w, e)));
        for (w, e) in list {
            ctx.case(
                || format!("base {}: {} and another", i, w),
                |c| {
                    let mut two = vec![];
                    edits(&e, &ALPHABET, &mut |w2, e2| two.push((w2, e2)));
                    for (w2, e2) in two {
                        c.st.states += 1;
                        if !agree(c, w2, &one_per_line(&e2), None) {
                            return;
                        }
                    }
                    c.nontrivial(&e);
                },
            );
        }
    }
    ctx.family("all token sequences that begin a grammar, and every token after them");
    token_tree(ctx, if t { 14 } else { 12 });
    ctx.family("single characters inserted, deleted, replaced");
    for (i, g) in bases.iter().enumerate() {
        let v = pieces(g, true, true);
        let text: Vec<char> = join(&v, &|_, p| if p.need == 2 { "\n".into() } else { " ".into() }).chars().collect();
        for k in 0..=text.len() {
            ctx.case(
                || format!("base {}, character {}", i, k),
                |c| {
                    for x in [None].into_iter().chain("\"\\()<>=:,[]r a_#;'\n/é0.|$@!".chars().map(Some)) {
                        for rep in [false, true] {
                            let mut s = text.clone();
                            if rep && k < s.len() {
                                s.remove(k);
                            } else if x.is_none() {
                                continue;
                            }
                            if let Some(x) = x {
                                s.insert(k, x);
                            }
                            let s: String = s.iter().collect();
                            c.st.states += 1;
                            if !agree(c, format!("{:?} replacing {}", x, rep), &s, None) {
                                return;
                            }
                        }
                    }
                    c.nontrivial(&(i, k));
                },
            );
        }
    }
}

/// Depth-first over the token sequences that can begin a grammar text, according to the reference
/// reader, to `max` tokens; at each one every token of the alphabet is tried next. A sequence is
/// run as it is (most are incomplete and have to be refused).
fn token_tree(ctx: &mut Ctx, max: usize) {
    // viable: some completion is read. Completions by kind of position are found by trying a
    // fixed set of endings.
    let endings: Vec<&[&str]> = vec![
        &[],
        &["]"],
        &["[", "]"],
        &["=", "[", "]"],
        &["(t)", "=", "[", "]"],
        &[":", "(t)", "=", "[", "]"],
        &["A", ":", "(t)", "=", "[", "]"],
        &["(t)", "]"],
        &["=>", "(t)", "]"],
        &[">", "=>", "(t)", "]"],
        &["A", ">", "=>", "(t)", "]"],
        &[":", "A", ">", "=>", "(t)", "]"],
        &["A", ":", "A", ">", "=>", "(t)", "]"],
        &["\"l\"", "=>", "(t)", "]"],
        &["\"l\"", ">", "=>", "(t)", "]"],
    ];
    let al: Vec<&str> = ALPHABET.iter().copied().collect();
    let viable = |w: &[&str]| {
        endings.iter().any(|e| {
            let t: Vec<&str> = w.iter().copied().chain(e.iter().copied()).collect();
            ref_read(&t.join("\n")).is_some()
        })
    };
    let mut level: Vec<Vec<&str>> = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for w in &level {
            for a in &al {
                let mut v = w.clone();
                v.push(*a);
                if viable(&v) {
                    next.push(v);
                }
            }
        }
        for w in &level {
            ctx.case(
                || format!("tokens {}", w.join(" ")),
                |c| {
                    c.st.states += 1;
                    for a in &al {
                        let mut v = w.clone();
                        v.push(*a);
                        if !agree(c, format!("then {}", a), &v.join("\n"), None) {
                            return;
                        }
                    }
                    c.nontrivial(w);
                },
            );
        }
        level = next;
    }
}

// ------------------------------------------------------------------------------------------ C09

fn lower_case(c: &mut Case, g: &G, order: Option<&[usize]>) {
    // `order`: the blocks in another order, with the start block anywhere
    let text = match order {
        None => g.to_text(),
        Some(o) => o.iter().map(|n| g.block_text(*n)).collect::<Vec<_>>().join("\n"),
    };
    let blocks: Vec<usize> = order.map(|o| o.to_vec()).unwrap_or((0..g.nts.len()).collect());
    let mut rules: Vec<&Prod> = vec![];
    if order.is_none() {
        rules.extend(&g.prods);
    } else {
        for n in &blocks {
            rules.extend(g.prods.iter().filter(|p| p.lhs == *n));
        }
    }
    let show = |d: String| format!("grammar\n{}{}", text, d);
    let r = with_grammar(&text, |gr| -> Result<(), (String, String)> {
        let got: Vec<_> = gr.iter_productions().collect();
        if got.len() != rules.len() + 1 {
            return Err(("number of rules".into(), show(format!("{} rules, expected {}", got.len(), rules.len() + 1))));
        }
        let aug = got[0];
        if aug.input_tokens != [Symbol::NonTerminal(Ident(&g.nts[g.start]))] || g.nts.iter().any(|n| *n == aug.name.0) {
            return Err(("augmented rule".into(), show(format!("rule 0 is {:?}", aug))));
        }
        for (i, p) in rules.iter().enumerate() {
            let q = got[i + 1];
            let want: Vec<Symbol> = p.rhs.iter().map(|s| sym_of(g, *s)).collect();
            if q.name.0 != g.nts[p.lhs] || q.input_tokens != want || q.mapping_fn != Some(p.action.as_str()) || q.ts_type != Some(g.types[p.lhs].as_str()) {
                return Err((format!("rule {}", i + 1), show(format!("rule {} is {:?}, expected {} -> {}", i + 1, q, g.nts[p.lhs], g.body_text(p)))));
            }
            match gr.get_production(typelalr::lalr::item::ProductionIdx(i as u32 + 1)) {
                Some(x) if std::ptr::eq(x, q) => (),
                _ => return Err((format!("rule lookup {}", i + 1), show(format!("get_production({}) is not rule {}", i + 1, i + 1)))),
            }
        }
        if gr.get_production(typelalr::lalr::item::ProductionIdx(got.len() as u32)).is_some() {
            return Err(("rule lookup past the end".into(), show("get_production past the last rule yields one".into())));
        }
        for n in 0..g.nts.len() {
            let want: Vec<u32> = rules.iter().enumerate().filter(|(_, p)| p.lhs == n).map(|(i, _)| i as u32 + 1).collect();
            let have: Vec<u32> = gr.get_production_indices_by_name(Ident(&g.nts[n])).map(|v| v.iter().map(|x| x.0).collect()).unwrap_or_default();
            if want != have {
                return Err((format!("rules of {}", g.nts[n]), show(format!("rules of {} are {:?}, expected {:?}", g.nts[n], have, want))));
            }
            if !want.is_empty() {
                let it = iter_of(gr, &g.nts[n]);
                if it != want {
                    return Err((format!("iteration over {}", g.nts[n]), show(format!("production_iter({}) yields {:?}, expected {:?}", g.nts[n], it, want))));
                }
            }
        }
        // symbols
        let toks: Vec<Symbol> = gr.tokens().copied().collect();
        if toks.first() != Some(&Symbol::Eof) {
            return Err(("index 0".into(), show(format!("token 0 is {:?}", toks.first()))));
        }
        let mut used: Vec<Sym> = vec![Sym::N(g.start)];
        used.extend(rules.iter().flat_map(|p| p.rhs.iter().copied()));
        used.sort();
        used.dedup();
        if toks.len() != used.len() + 1 {
            return Err(("number of symbols".into(), show(format!("tokens {:?}, expected the end of input and {} symbols", toks, used.len()))));
        }
        let mut at: BTreeMap<u32, Sym> = BTreeMap::new();
        for s in &used {
            let y = sym_of(g, *s);
            let ix = match gr.get_token_idx(&y) {
                Some(i) => i,
                None => return Err((format!("index of {}", g.sym_text(*s)), show(format!("{:?} has no index", y)))),
            };
            if gr.get_token(ix) != Some(&y) || toks.get(ix.0 as usize) != Some(&y) {
                return Err((format!("index of {}", g.sym_text(*s)), show(format!("{:?} has index {:?} where {:?} is found", y, ix, gr.get_token(ix)))));
            }
            if let Some(o) = at.insert(ix.0, *s) {
                return Err((format!("index of {}", g.sym_text(*s)), show(format!("{} and {} share index {:?}", g.sym_text(o), g.sym_text(*s), ix))));
            }
        }
        if at.contains_key(&0) || gr.get_token_idx(&Symbol::Eof) != Some(typelalr::lalr::item::TokenIdx(0)) {
            return Err(("end of input".into(), show("the end of input does not have index 0 alone".into())));
        }
        if gr.get_token(typelalr::lalr::item::TokenIdx(toks.len() as u32)).is_some() {
            return Err(("symbol lookup past the end".into(), show("get_token past the last symbol yields one".into())));
        }
        let mut nts: Vec<(u32, String)> = gr.non_terminals().map(|(i, n)| (i.0, n.0.to_string())).collect();
        nts.sort();
        let mut want: Vec<(u32, String)> = at.iter().filter_map(|(i, s)| if let Sym::N(n) = s { Some((*i, g.nts[*n].clone())) } else { None }).collect();
        want.sort();
        if nts != want {
            return Err(("nonterminals".into(), show(format!("non_terminals() yields {:?}, expected {:?}", nts, want))));
        }
        Ok(())
    });
    c.eval(1);
    c.st.traces += 1;
    c.st.states += rules.len() as u64 + 1;
    c.st.transitions += rules.iter().map(|p| p.rhs.len() as u64).sum::<u64>();
    match r {
        Err(e) => c.fail("not read", show(e)),
        Ok(Err((a, b))) => c.fail(a, b),
        Ok(Ok(())) => c.nontrivial(&text),
    }
    c.sample(|| text.clone());
}

fn iter_of<'a>(gr: &'a Grammar<'a>, name: &'a str) -> Vec<u32> {
    gr.production_iter(Ident(name)).map(|(i, _)| i.0).collect()
}

/// Texts shared between literals, patterns and nonterminals
pub fn clash(g: &G, assign: &[(u8, &str)]) -> G {
    let mut g = g.clone();
    for (i, (kind, t)) in assign.iter().enumerate() {
        if i < g.terms.len() {
            g.terms[i] = if *kind == 0 { Term::lit(t) } else { Term::pat(crate::re::text(t)) };
        }
    }
    g
}

pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut o = vec![];
    for p in permutations(n - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            o.push(q);
        }
    }
    o.sort();
    o
}

pub fn c09(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let bs = if t { vec![b(3, 2, 3, 3, 7), b(2, 3, 4, 3, 7)] } else { vec![b(3, 2, 3, 3, 6), b(2, 3, 3, 3, 6)] };
    each_grammar(ctx, &bs, true, &mut |c, g| lower_case(c, g, None));
    ctx.family("literals, patterns and nonterminals with the same text, blocks in every order");
    let texts = ["S", "A", "a", "Eof", "B", "S'", "ε", "@"];
    let mut list = vec![];
    enumerate(&b(3, 3, 2, 2, if t { 6 } else { 5 }), &mut |g| {
        if g.terms.len() >= 2 {
            list.push(g)
        }
    });
    for g in list {
        for k1 in 0..2u8 {
            for k2 in 0..2u8 {
                for (i, a) in texts.iter().enumerate() {
                    if ctx.skip() {
                        continue;
                    }
                    let second = if k1 != k2 { texts[i] } else { texts[(i + 1) % texts.len()] };
                    let mut g2 = clash(&g, &[(k1, a), (k2, second), (k1 ^ 1, texts[(i + 3) % texts.len()])]);
                    for (j, p) in g2.prods.iter_mut().enumerate() {
                        p.action = format!("a{}", j);
                    }
                    for (j, ty) in g2.types.iter_mut().enumerate() {
                        *ty = format!("T{}", j);
                    }
                    ctx.case(
                        || format!("{} / {}", g2.short(), i),
                        |c| {
                            for o in permutations(g2.nts.len()) {
                                lower_case(c, &g2, Some(&o));
                            }
                        },
                    );
                }
            }
        }
    }
    ctx.family("blocks of a nonterminal apart from each other, rules in every order");
    for g in super::tables::torn(t) {
        let mut g = g;
        for (j, p) in g.prods.iter_mut().enumerate() {
            p.action = format!("a{}", j);
        }
        ctx.case(
            || format!("torn {}", g.short()),
            |c| {
                for o in g.rule_orders(4) {
                    lower_case(c, &g.torn(&o), None);
                }
            },
        );
    }
    ctx.family("hundreds of tokens, rules, symbols of a rule and nonterminals");
    for g in very_large(t) {
        ctx.case(
            || format!("{:.60}… {} rules", g.short(), g.prods.len()),
            |c| {
                lower_case(c, &g, None);
                lower_case(c, &g.torn(&(0..g.prods.len()).rev().collect::<Vec<_>>()), None);
            },
        );
    }
    ctx.family("names with a meaning elsewhere, names that share a long beginning");
    for (g, _) in named_grammars() {
        ctx.case(
            || g.short(),
            |c| {
                lower_case(c, &g, None);
                for o in permutations(g.nts.len()) {
                    lower_case(c, &g, Some(&o));
                }
            },
        );
    }
}

/// Grammars with nonterminals and literals of every special name, and what they are made from
pub fn named_grammars() -> Vec<(G, G)> {
    let names = ["epsilon", "EPSILON", "eps", "empty", "EMPTY", "lambda", "nil", "None", "eof", "EOI", "EOL", "WS", "Ident", "Regex", "StrLit", "Expr", "N1", "NonTerminal", "Terminal", "Named", "T", "N", "Start", "Main", "Program", "Root", "Goal", "Grammar", "EOF", "Eof", "End", "Epsilon", "Empty", "Error", "error", "Token", "Symbol", "S", "S_", "S0", "start_", "starts", "exports", "any", "null", "constructor", "toString", "r1", "R", "_", "__", "A", "Z", "a", "z"];
    let lits = ["EOF", "Eof", "eof", "$", "$end", "ε", "epsilon", "Epsilon", "S'", "'", "S", "A", "Start", "start", "export", "error", "Error", "_", "@", "#", "=", "=>", "[", "]", "(", ")", "<", ":", ",", "|", "->", ".", "0", "1", "-1", "null", "undefined", "token", "nonterminal", "strlit", "r", "é", "😀", "\"", "\\"];
    let base = [
        "S -> A 'x' | 'y' ; A -> 'x' A | 'y'",
        "S -> 'x' S 'y' | A ; A -> 'y' 'x' | 'y'",
        "S -> S A | A ; A -> 'x' | 'y' S 'y'",
        "S -> A B ; A -> 'x' | 'y' ; B -> 'x' B | 'y'",
    ];
    let mut v = vec![];
    for d in base {
        let g = G::dsl(d, &[]);
        let mut put = |f: &dyn Fn(&mut G)| {
            let mut h = g.clone();
            f(&mut h);
            let mut n = h.nts.clone();
            n.sort();
            n.dedup();
            if n.len() == h.nts.len() && h.terms[0].text != h.terms[1].text {
                v.push((h, g.clone()));
            }
        };
        let h_len = g.nts.len();
        for k in 0..g.nts.len() {
            for x in names {
                put(&|h| h.nts[k] = x.to_string());
                // another one has the name with something added
                put(&|h| {
                    h.nts[k] = x.to_string();
                    let o = (k + 1) % h.nts.len();
                    h.nts[o] = format!("{}_", x);
                });
                for add in ["1", "0", "_1", "_0", "2", "_opt", "_list", "Opt", "List", "s", "S", "x", "__"] {
                    if ["Start", "S", "Expr", "T", "N1", "_"].contains(&x) {
                        for o in (0..h_len).filter(|o| *o != k) {
                            put(&|h| {
                                h.nts[k] = x.to_string();
                                h.nts[o] = format!("{}{}", x, add);
                            });
                            put(&|h| {
                                h.nts[k] = x.to_string();
                                h.nts[o] = format!("{}{}", if add.starts_with(|c: char| c.is_ascii_digit()) { "q" } else { add }, x);
                            });
                        }
                    }
                }
            }
        }
        for k in 0..2 {
            for x in lits {
                put(&|h| h.terms[k] = Term::lit(x));
                put(&|h| {
                    h.terms[k] = Term::lit(x);
                    h.terms[1 - k] = Term::lit(&format!("{}{}", x, x));
                });
            }
        }
        for n in [1usize, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 300] {
            let long = "LongName".repeat(40)[..n].to_string();
            // same beginning, same length
            put(&|h| h.nts = (0..h.nts.len()).map(|i| format!("{}{}", long, (b'A' + i as u8) as char)).collect());
            put(&|h| h.nts = (0..h.nts.len()).map(|i| format!("{}{}", long, (b'Z' - i as u8) as char)).collect());
            // same end, same length
            put(&|h| h.nts = (0..h.nts.len()).map(|i| format!("{}{}", (b'A' + i as u8) as char, long)).collect());
            // one the beginning of the next
            put(&|h| h.nts = (0..h.nts.len()).map(|i| format!("{}{}", long, "A".repeat(i))).collect());
            for m in 0..3 {
                put(&|h| {
                    for i in 0..2 {
                        let x = (b'a' + i as u8) as char;
                        h.terms[i] = Term::lit(&match m {
                            0 => format!("{}{}", long, x),
                            1 => format!("{}{}", x, long),
                            _ => format!("{}{}", long, "a".repeat(i + 1)),
                        });
                    }
                });
            }
        }
    }
    v
}
