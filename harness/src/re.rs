//! Reference for regular expressions and scanners: a position automaton (Glushkov) over code point
//! ranges, and maximal munch on top of it. Independent of the code under test.

pub type Ranges = Vec<(u32, u32)>; // inclusive, sorted

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Re {
    /// matches the empty string only, written `()`
    Empty,
    Leaf(String, Ranges),
    Cat(Vec<Re>),
    Alt(Vec<Re>),
    Star(Box<Re>),
    Plus(Box<Re>),
    Opt(Box<Re>),
}

pub fn norm(mut r: Ranges) -> Ranges {
    r.retain(|x| x.0 <= x.1);
    r.sort();
    let mut o: Ranges = vec![];
    for (a, b) in r {
        match o.last_mut() {
            Some(l) if a <= l.1.saturating_add(1) => l.1 = l.1.max(b),
            _ => o.push((a, b)),
        }
    }
    o
}

pub fn negate(r: &Ranges) -> Ranges {
    let r = norm(r.clone());
    let mut o = vec![];
    let mut at = 0u32;
    for (a, b) in r {
        if a > at {
            o.push((at, a - 1));
        }
        at = b + 1;
    }
    if at <= 0x10ffff {
        o.push((at, 0x10ffff));
    }
    o
}

pub fn lit(c: char) -> Re {
    let p = if "\\.+*?()|[]{}^$#&-~".contains(c) { format!("\\{}", c) } else { c.to_string() };
    Re::Leaf(p, vec![(c as u32, c as u32)])
}

/// Literal text as a concatenation
pub fn text(s: &str) -> Re {
    let v: Vec<Re> = s.chars().map(lit).collect();
    match v.len() {
        0 => Re::Empty,
        1 => v.into_iter().next().unwrap(),
        _ => Re::Cat(v),
    }
}

pub fn class(p: &str, r: &[(char, char)]) -> Re {
    Re::Leaf(p.to_string(), norm(r.iter().map(|(a, b)| (*a as u32, *b as u32)).collect()))
}

pub fn nclass(p: &str, r: &[(char, char)]) -> Re {
    Re::Leaf(p.to_string(), negate(&r.iter().map(|(a, b)| (*a as u32, *b as u32)).collect()))
}

pub fn dot() -> Re {
    nclass(".", &[('\n', '\n')])
}
pub fn cat(v: Vec<Re>) -> Re {
    Re::Cat(v)
}
pub fn alt(v: Vec<Re>) -> Re {
    Re::Alt(v)
}
pub fn star(r: Re) -> Re {
    Re::Star(Box::new(r))
}
pub fn plus(r: Re) -> Re {
    Re::Plus(Box::new(r))
}
pub fn opt(r: Re) -> Re {
    Re::Opt(Box::new(r))
}

impl Re {
    /// 0: alternation, 1: concatenation, 2: unary operand
    fn write(&self, level: u8, style: u8, o: &mut String) {
        // style 0: groups that capture, 1: that don't, 2: named groups, reluctant repetition and
        // empty branches with nothing in them
        let need = match self {
            Re::Alt(_) => level > 0,
            Re::Cat(_) => level > 1,
            Re::Star(_) | Re::Plus(_) | Re::Opt(_) => level > 1,
            _ => false,
        };
        if need {
            match style {
                0 => o.push('('),
                1 => o.push_str("(?:"),
                _ => {
                    let n = o.len();
                    o.push_str(&format!("(?P<g{}>", n))
                }
            }
        }
        match self {
            Re::Empty => o.push_str(if style == 2 { "(?:)" } else { "()" }),
            Re::Leaf(p, _) => o.push_str(p),
            Re::Cat(v) => v.iter().for_each(|x| x.write(1 + matches!(x, Re::Cat(_)) as u8, style, o)),
            Re::Alt(v) => {
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push('|');
                    }
                    if style == 2 && *x == Re::Empty {
                        continue;
                    }
                    x.write(matches!(x, Re::Alt(_)) as u8, style, o);
                }
            }
            Re::Star(x) | Re::Plus(x) | Re::Opt(x) => {
                x.write(2, style, o);
                o.push(match self {
                    Re::Star(_) => '*',
                    Re::Plus(_) => '+',
                    _ => '?',
                });
                if style == 2 {
                    o.push('?');
                }
            }
        }
        if need {
            o.push(')');
        }
    }

    pub fn pat(&self) -> String {
        let mut s = String::new();
        self.write(0, 0, &mut s);
        s
    }
    /// The distinct spellings of the expression, `pat` first
    pub fn pats(&self) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        for style in 0..3 {
            let mut s = String::new();
            self.write(0, style, &mut s);
            if !v.contains(&s) {
                v.push(s);
            }
        }
        v
    }
}

/// Set of positions (at most 1 + 64*W); position automaton state
pub type Set = Vec<u64>;

#[derive(Clone, Debug)]
pub struct Aut {
    pub leaves: Vec<Ranges>,
    first: Set,
    follow: Vec<Set>,
    last: Set,
    pub nullable: bool,
    words: usize,
}

/// Bit 0 is the start, position i is bit i+1
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct St(pub Set);

fn bit(s: &mut Set, i: usize) {
    s[i / 64] |= 1 << (i % 64)
}
fn or(a: &mut Set, b: &Set) {
    for (x, y) in a.iter_mut().zip(b) {
        *x |= y
    }
}
fn has(s: &Set, i: usize) -> bool {
    s[i / 64] >> (i % 64) & 1 == 1
}

impl Aut {
    pub fn new(re: &Re) -> Aut {
        fn count(re: &Re) -> usize {
            match re {
                Re::Empty => 0,
                Re::Leaf(..) => 1,
                Re::Cat(v) | Re::Alt(v) => v.iter().map(count).sum(),
                Re::Star(x) | Re::Plus(x) | Re::Opt(x) => count(x),
            }
        }
        let n = count(re);
        let words = (n + 1) / 64 + 1;
        let mut a = Aut { leaves: vec![], first: vec![0; words], follow: vec![], last: vec![0; words], nullable: false, words };
        // (nullable, first, last)
        fn go(re: &Re, a: &mut Aut) -> (bool, Set, Set) {
            let z = vec![0u64; a.words];
            match re {
                Re::Empty => (true, z.clone(), z),
                Re::Leaf(_, r) => {
                    let i = a.leaves.len() + 1;
                    a.leaves.push(r.clone());
                    a.follow.push(z.clone());
                    let mut s = z;
                    bit(&mut s, i);
                    (false, s.clone(), s)
                }
                Re::Cat(v) => {
                    let mut acc = (true, z.clone(), z);
                    for x in v {
                        let r = go(x, a);
                        for i in 0..a.follow.len() {
                            if has(&acc.2, i + 1) {
                                let f = r.1.clone();
                                or(&mut a.follow[i], &f);
                            }
                        }
                        let mut first = acc.1.clone();
                        if acc.0 {
                            or(&mut first, &r.1);
                        }
                        let mut last = r.2.clone();
                        if r.0 {
                            or(&mut last, &acc.2);
                        }
                        acc = (acc.0 && r.0, first, last);
                    }
                    acc
                }
                Re::Alt(v) => {
                    let mut acc = (false, z.clone(), z);
                    for x in v {
                        let r = go(x, a);
                        acc.0 |= r.0;
                        or(&mut acc.1, &r.1);
                        or(&mut acc.2, &r.2);
                    }
                    acc
                }
                Re::Star(x) | Re::Plus(x) => {
                    let r = go(x, a);
                    for i in 0..a.follow.len() {
                        if has(&r.2, i + 1) {
                            let f = r.1.clone();
                            or(&mut a.follow[i], &f);
                        }
                    }
                    (r.0 || matches!(re, Re::Star(_)), r.1, r.2)
                }
                Re::Opt(x) => {
                    let r = go(x, a);
                    (true, r.1, r.2)
                }
            }
        }
        let (nu, f, l) = go(re, &mut a);
        a.nullable = nu;
        a.first = f;
        a.last = l;
        a
    }

    pub fn start(&self) -> St {
        let mut s = vec![0; self.words];
        bit(&mut s, 0);
        St(s)
    }
    pub fn dead(&self) -> St {
        St(vec![0; self.words])
    }

    pub fn step(&self, st: &St, cp: u32) -> St {
        let mut cand = vec![0; self.words];
        if has(&st.0, 0) {
            or(&mut cand, &self.first);
        }
        for i in 0..self.leaves.len() {
            if has(&st.0, i + 1) {
                or(&mut cand, &self.follow[i]);
            }
        }
        for i in 0..self.leaves.len() {
            if has(&cand, i + 1) && !self.leaves[i].iter().any(|(a, b)| *a <= cp && cp <= *b) {
                cand[(i + 1) / 64] &= !(1 << ((i + 1) % 64));
            }
        }
        St(cand)
    }

    pub fn accepting(&self, st: &St) -> bool {
        (has(&st.0, 0) && self.nullable) || st.0.iter().zip(&self.last).any(|(a, b)| a & b != 0)
    }

    pub fn is_dead(&self, st: &St) -> bool {
        st.0.iter().all(|x| *x == 0)
    }

    pub fn matches(&self, s: &str) -> bool {
        let mut st = self.start();
        for c in s.chars() {
            st = self.step(&st, c as u32);
        }
        self.accepting(&st)
    }
}

/// One representative per class of characters that no leaf (and no other given boundary) separates
pub fn representatives<'a>(sets: impl Iterator<Item = &'a Ranges>, extra: &[u32]) -> Vec<char> {
    let mut b: Vec<u32> = vec![0, 0xd800, 0xe000];
    for s in sets {
        for (x, y) in s {
            b.push(*x);
            b.push(*y + 1);
        }
    }
    b.extend_from_slice(extra);
    b.sort();
    b.dedup();
    b.into_iter().filter_map(char::from_u32).collect()
}

/// Like `representatives`, but with the first and the last character of every class
pub fn class_ends<'a>(sets: impl Iterator<Item = &'a Ranges>, extra: &[u32]) -> Vec<char> {
    let reps = representatives(sets, extra);
    let mut o = vec![];
    for (i, c) in reps.iter().enumerate() {
        o.push(*c);
        let end = reps.get(i + 1).map(|n| *n as u32 - 1).unwrap_or(0x10ffff);
        let end = if end == 0xdfff { 0xd7ff } else { end };
        if let Some(e) = char::from_u32(end) {
            if e != *c {
                o.push(e);
            }
        }
    }
    o
}

#[derive(Clone, Debug)]
pub struct TokDef {
    pub name: String,
    pub with_val: bool,
    pub re: Re,
}

/// Reference scanner: maximal munch, first definition wins ties, blanks between tokens skipped
pub struct Scanner {
    pub defs: Vec<TokDef>,
    pub auts: Vec<Aut>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RTok {
    pub def: usize,
    pub start: usize,
    pub end: usize,
}

pub fn is_blank(c: char) -> bool {
    c == ' ' || c == '\n'
}

impl Scanner {
    pub fn new(defs: Vec<TokDef>) -> Self {
        let auts = defs.iter().map(|d| Aut::new(&d.re)).collect();
        Scanner { defs, auts }
    }

    /// Tokens (character positions) and where scanning stopped
    pub fn scan(&self, input: &[char]) -> (Vec<RTok>, usize) {
        let mut toks = vec![];
        let mut p = 0;
        while p < input.len() {
            let mut best: Option<(usize, usize)> = None; // (end, def)
            for (d, a) in self.auts.iter().enumerate() {
                let mut st = a.start();
                for (k, c) in input[p..].iter().enumerate() {
                    st = a.step(&st, *c as u32);
                    if a.is_dead(&st) {
                        break;
                    }
                    if a.accepting(&st) && best.map_or(true, |(e, _)| p + k + 1 > e) {
                        best = Some((p + k + 1, d));
                    }
                }
            }
            match best {
                Some((e, d)) => {
                    toks.push(RTok { def: d, start: p, end: e });
                    p = e;
                }
                None if is_blank(input[p]) => p += 1,
                None => break,
            }
        }
        (toks, p)
    }

    /// Whether some token can begin with a blank (outside the stated scope of several properties)
    pub fn blank_start(&self) -> bool {
        self.auts.iter().any(|a| [' ', '\n'].iter().any(|c| !a.is_dead(&a.step(&a.start(), *c as u32))))
    }
}

pub fn strings(alphabet: &[char], max: usize, f: &mut dyn FnMut(&[char])) {
    // shortest first
    for n in 0..=max {
        fn exact(al: &[char], left: usize, cur: &mut Vec<char>, f: &mut dyn FnMut(&[char])) {
            if left == 0 {
                return f(cur);
            }
            for c in al {
                cur.push(*c);
                exact(al, left - 1, cur, f);
                cur.pop();
            }
        }
        exact(alphabet, n, &mut vec![], f);
    }
}

/// All expressions with exactly `n` nodes over the leaves (operators counted; binary cat and alt)
pub fn all_res(leaves: &[Re], n: usize) -> Vec<Re> {
    let mut by: Vec<Vec<Re>> = vec![vec![]];
    for k in 1..=n {
        let mut v = vec![];
        if k == 1 {
            v.extend(leaves.iter().cloned());
        } else {
            for x in &by[k - 1] {
                v.push(star(x.clone()));
                v.push(plus(x.clone()));
                v.push(opt(x.clone()));
            }
            for l in 1..k - 1 {
                for a in &by[l] {
                    for b in &by[k - 1 - l] {
                        v.push(cat(vec![a.clone(), b.clone()]));
                        v.push(alt(vec![a.clone(), b.clone()]));
                    }
                }
            }
        }
        by.push(v);
    }
    by.pop().unwrap()
}
