//! Reader for generated Typescript type declarations: literal types, object types, tuples, names
//! and unions. It looks at what is declared, not at how it is laid out.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Id(String),
    Num(u64),
    Str(String),
    P(char),
}

pub fn tokenize(s: &str) -> Result<Vec<Tok>, String> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut o = vec![];
    while i < c.len() {
        let ch = c[i];
        if ch.is_whitespace() {
            i += 1;
        } else if ch == '/' && c.get(i + 1) == Some(&'*') {
            i += 2;
            while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') {
                i += 1;
            }
            i += 2;
        } else if ch == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if ch == '"' || ch == '\'' || ch == '`' {
            let mut t = String::new();
            i += 1;
            loop {
                match c.get(i) {
                    None => return Err("unterminated string".into()),
                    Some(x) if *x == ch => break,
                    Some('\n') if ch != '`' => return Err("line break in string".into()),
                    Some('\\') => {
                        i += 1;
                        match c.get(i) {
                            None => return Err("unterminated string".into()),
                            Some('n') => t.push('\n'),
                            Some('t') => t.push('\t'),
                            Some('r') => t.push('\r'),
                            Some('b') => t.push('\u{8}'),
                            Some('f') => t.push('\u{c}'),
                            Some('v') => t.push('\u{b}'),
                            Some('0') if !c.get(i + 1).map_or(false, |d| d.is_ascii_digit()) => t.push('\0'),
                            Some('u') if c.get(i + 1) == Some(&'{') => {
                                let mut h = String::new();
                                i += 2;
                                while i < c.len() && c[i] != '}' {
                                    h.push(c[i]);
                                    i += 1;
                                }
                                t.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).ok_or("bad escape")?);
                            }
                            Some('u') => {
                                let h: String = c[i + 1..].iter().take(4).collect();
                                i += 4;
                                t.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).ok_or("bad escape")?);
                            }
                            Some('x') => {
                                let h: String = c[i + 1..].iter().take(2).collect();
                                i += 2;
                                t.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).ok_or("bad escape")?);
                            }
                            Some('\n') => (),
                            Some(x) => t.push(*x),
                        }
                        i += 1;
                        continue;
                    }
                    Some(x) => t.push(*x),
                }
                i += 1;
            }
            i += 1;
            o.push(Tok::Str(t));
        } else if ch.is_ascii_digit() {
            let mut t = String::new();
            while i < c.len() && c[i].is_ascii_digit() {
                t.push(c[i]);
                i += 1;
            }
            o.push(Tok::Num(t.parse().map_err(|_| "number")?));
        } else if ch.is_alphabetic() || ch == '_' || ch == '$' {
            let mut t = String::new();
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_' || c[i] == '$') {
                t.push(c[i]);
                i += 1;
            }
            o.push(Tok::Id(t));
        } else {
            o.push(Tok::P(ch));
            i += 1;
        }
    }
    Ok(o)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Num(u64),
    Str(String),
    /// identifiers including true, false, string, number and dotted names
    Name(String),
    Obj(Vec<(String, Ty)>),
    Tuple(Vec<Ty>),
    Union(Vec<Ty>),
    /// Name<...>
    Gen(String, Vec<Ty>),
}

pub struct P<'a> {
    t: &'a [Tok],
    i: usize,
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn is(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn need(&mut self, c: char) -> Result<(), String> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {:?}, found {:?} at token {}", c, self.peek(), self.i))
        }
    }

    pub fn ty(&mut self) -> Result<Ty, String> {
        self.eat('|');
        let mut v = vec![self.primary()?];
        while self.eat('|') {
            v.push(self.primary()?);
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Ty::Union(v) })
    }

    fn primary(&mut self) -> Result<Ty, String> {
        match self.peek().cloned() {
            Some(Tok::Num(n)) => {
                self.i += 1;
                Ok(Ty::Num(n))
            }
            Some(Tok::Str(s)) => {
                self.i += 1;
                Ok(Ty::Str(s))
            }
            Some(Tok::Id(n)) if n == "readonly" && self.t.get(self.i + 1) != Some(&Tok::P(':')) => {
                self.i += 1;
                self.primary()
            }
            Some(Tok::Id(mut n)) => {
                self.i += 1;
                if n == "keyof" {
                    return Ok(Ty::Gen("keyof".into(), vec![self.primary()?]));
                }
                while self.eat('.') {
                    match self.peek().cloned() {
                        Some(Tok::Id(m)) => {
                            n = format!("{}.{}", n, m);
                            self.i += 1;
                        }
                        x => return Err(format!("after dot: {:?}", x)),
                    }
                }
                if self.eat('<') {
                    let mut v = vec![];
                    loop {
                        v.push(self.ty()?);
                        if !self.eat(',') {
                            break;
                        }
                    }
                    self.need('>')?;
                    return Ok(Ty::Gen(n, v));
                }
                Ok(Ty::Name(n))
            }
            Some(Tok::P('(')) => {
                self.i += 1;
                let t = self.ty()?;
                self.need(')')?;
                Ok(t)
            }
            Some(Tok::P('[')) => {
                self.i += 1;
                let mut v = vec![];
                while !self.eat(']') {
                    v.push(self.ty()?);
                    if !self.eat(',') {
                        self.need(']')?;
                        break;
                    }
                }
                Ok(Ty::Tuple(v))
            }
            Some(Tok::P('{')) => {
                self.i += 1;
                let mut v = vec![];
                while !self.eat('}') {
                    if self.peek() == Some(&Tok::Id("readonly".into())) && !matches!(self.t.get(self.i + 1), Some(Tok::P(_))) {
                        self.i += 1;
                    }
                    let k = match self.peek().cloned() {
                        Some(Tok::Id(s)) | Some(Tok::Str(s)) => s,
                        Some(Tok::Num(n)) => n.to_string(),
                        x => return Err(format!("object key {:?} at token {}", x, self.i)),
                    };
                    self.i += 1;
                    self.eat('?');
                    self.need(':')?;
                    v.push((k, self.ty()?));
                    while self.eat(';') || self.eat(',') {}
                }
                Ok(Ty::Obj(v))
            }
            x => Err(format!("type expected, found {:?} at token {}", x, self.i)),
        }
    }
}

impl Ty {
    pub fn get(&self, k: &str) -> Option<&Ty> {
        match self {
            Ty::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, t)| t),
            _ => None,
        }
    }
    pub fn num(&self) -> Option<usize> {
        match self {
            Ty::Num(n) => Some(*n as usize),
            _ => None,
        }
    }
    /// Object with numeric keys; duplicate keys are an error
    pub fn num_map(&self) -> Result<BTreeMap<usize, &Ty>, String> {
        match self {
            Ty::Obj(v) => {
                let mut m = BTreeMap::new();
                for (k, t) in v {
                    let k: usize = k.parse().map_err(|_| format!("key {:?} is not a number", k))?;
                    if m.insert(k, t).is_some() {
                        return Err(format!("duplicate key {}", k));
                    }
                }
                Ok(m)
            }
            Ty::Tuple(v) => Ok(v.iter().enumerate().collect()),
            _ => Err("not an object type".into()),
        }
    }
    pub fn str_map(&self) -> Result<BTreeMap<String, &Ty>, String> {
        match self {
            Ty::Obj(v) => {
                let mut m = BTreeMap::new();
                for (k, t) in v {
                    if m.insert(k.clone(), t).is_some() {
                        return Err(format!("duplicate key {:?}", k));
                    }
                }
                Ok(m)
            }
            _ => Err("not an object type".into()),
        }
    }
}

/// The plain type aliases of a module (`type X = ...`), at top level or inside the named
/// `declare module`. Aliases this reader cannot represent (conditional types) are left out.
pub fn aliases(src: &str, module: Option<&str>) -> Result<BTreeMap<String, Ty>, String> {
    let toks = tokenize(src)?;
    let (mut i, mut end) = (0, toks.len());
    if let Some(m) = module {
        let at = toks.windows(3).position(|w| (w[0] == Tok::Id("module".into()) || w[0] == Tok::Id("namespace".into())) && w[1] == Tok::Id(m.into()) && w[2] == Tok::P('{'));
        i = at.ok_or(format!("no module {}", m))? + 3;
        let mut depth = 1;
        let mut k = i;
        while k < toks.len() && depth > 0 {
            match toks[k] {
                Tok::P('{') => depth += 1,
                Tok::P('}') => depth -= 1,
                _ => (),
            }
            k += 1;
        }
        if depth > 0 {
            return Err("module does not end".into());
        }
        end = k - 1;
    }
    let mut out = BTreeMap::new();
    let mut err = None;
    while i < end {
        if toks[i] == Tok::Id("interface".into()) {
            if let (Some(Tok::Id(name)), Some(Tok::P('{'))) = (toks.get(i + 1), toks.get(i + 2)) {
                let mut p = P { t: &toks[..end], i: i + 2 };
                match p.ty() {
                    Ok(t) => {
                        if out.insert(name.clone(), t).is_some() {
                            return Err(format!("duplicate type {}", name));
                        }
                        i = p.i;
                        continue;
                    }
                    Err(e) => err = Some(format!("interface {}: {}", name, e)),
                }
            }
        }
        if toks[i] == Tok::Id("type".into()) {
            if let Some(Tok::Id(name)) = toks.get(i + 1) {
                if toks.get(i + 2) == Some(&Tok::P('=')) {
                    let mut p = P { t: &toks[..end], i: i + 3 };
                    match p.ty() {
                        Ok(t) => {
                            if out.insert(name.clone(), t).is_some() {
                                return Err(format!("duplicate type {}", name));
                            }
                            i = p.i;
                            continue;
                        }
                        Err(e) => err = Some(format!("type {}: {}", name, e)),
                    }
                }
            }
        }
        i += 1;
    }
    if out.is_empty() {
        return Err(err.unwrap_or("no types".into()));
    }
    Ok(out)
}

#[derive(Clone, Debug)]
pub struct LexState {
    /// from, to (exclusive), target
    pub edges: Vec<(u32, u32, usize)>,
    pub accepting: bool,
}

#[derive(Clone, Debug)]
pub struct LexTables {
    pub states: Vec<LexState>,
    /// by index: kind, has value
    pub tokens: BTreeMap<usize, (String, bool)>,
    pub dfa_to_nfa: BTreeMap<usize, Vec<usize>>,
}

impl LexTables {
    pub fn read(src: &str) -> Result<LexTables, String> {
        let al = aliases(src, None)?;
        let resolve = |t: &Ty| -> Result<Ty, String> {
            match t {
                Ty::Name(n) if al.contains_key(n) => Ok(al[n].clone()),
                t => Ok(t.clone()),
            }
        };
        let states = match al.get("States") {
            Some(Ty::Tuple(v)) => v,
            x => return Err(format!("States: {:?}", x)),
        };
        let mut st = vec![];
        for (i, s) in states.iter().enumerate() {
            let s = resolve(s)?;
            let (to, labels) = match (s.get("to"), s.get("labels")) {
                (Some(Ty::Tuple(a)), Some(Ty::Tuple(b))) => (a, b),
                _ => return Err(format!("state {} has no to/labels", i)),
            };
            if to.len() != labels.len() {
                return Err(format!("state {}: {} targets for {} labels", i, to.len(), labels.len()));
            }
            let mut edges = vec![];
            for (t, l) in to.iter().zip(labels) {
                let f = |k: &str| l.get(k).and_then(Ty::num).ok_or(format!("state {}: label {:?}", i, l));
                edges.push((f("from")? as u32, f("to")? as u32, t.num().ok_or(format!("state {}: target", i))?));
            }
            let accepting = match s.get("accepting") {
                Some(Ty::Name(n)) if n == "true" => true,
                Some(Ty::Name(n)) if n == "false" => false,
                None => false,
                x => return Err(format!("state {}: accepting {:?}", i, x)),
            };
            st.push(LexState { edges, accepting });
        }
        let mut tokens = BTreeMap::new();
        for (k, t) in al.get("Tokens").ok_or("no Tokens")?.num_map()? {
            let t = resolve(t)?;
            let kind = match t.get("kind") {
                Some(Ty::Str(s)) => s.clone(),
                x => return Err(format!("token {}: kind {:?}", k, x)),
            };
            let v = match t.get("hasValue") {
                Some(Ty::Name(n)) => n == "true",
                x => return Err(format!("token {}: hasValue {:?}", k, x)),
            };
            tokens.insert(k, (kind, v));
        }
        let mut dfa_to_nfa = BTreeMap::new();
        for (k, t) in al.get("DFAtoNFA").ok_or("no DFAtoNFA")?.num_map()? {
            match t {
                Ty::Tuple(v) => {
                    let mut o = vec![];
                    for x in v {
                        o.push(x.num().ok_or("DFAtoNFA entry")?);
                    }
                    dfa_to_nfa.insert(k, o);
                }
                _ => return Err("DFAtoNFA".into()),
            }
        }
        Ok(LexTables { states: st, tokens, dfa_to_nfa })
    }

    pub fn step(&self, s: usize, c: char) -> Option<usize> {
        self.states[s].edges.iter().find(|e| e.0 <= c as u32 && (c as u32) < e.1).map(|e| e.2)
    }

    /// The token an accepting state stands for: the first of its listed states that is a token's
    pub fn token_of(&self, s: usize) -> Option<&(String, bool)> {
        self.dfa_to_nfa.get(&s)?.iter().find_map(|n| self.tokens.get(n))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum TAct {
    Shift(usize),
    Reduce(usize),
    Accept,
}

#[derive(Clone, Debug)]
pub struct ParseTables {
    /// kind, value
    pub tokens: BTreeMap<usize, (String, Option<String>)>,
    pub productions: BTreeMap<usize, (String, Vec<usize>)>,
    pub action: BTreeMap<usize, BTreeMap<usize, TAct>>,
    pub goto: BTreeMap<usize, BTreeMap<String, usize>>,
    pub kind_to_idx: BTreeMap<String, usize>,
    pub symbol_kinds: BTreeSet<String>,
}

impl ParseTables {
    pub fn read(src: &str) -> Result<ParseTables, String> {
        let al = aliases(src, Some("type_defs"))?;
        let get = |n: &str| al.get(n).ok_or(format!("no type {}", n));
        let st = |t: &Ty, k: &str| match t.get(k) {
            Some(Ty::Str(s)) => Some(s.clone()),
            _ => None,
        };
        let mut tokens = BTreeMap::new();
        for (k, t) in get("Tokens")?.num_map().map_err(|e| format!("Tokens: {}", e))? {
            tokens.insert(k, (st(t, "kind").ok_or("token kind")?, st(t, "value")));
        }
        let mut productions = BTreeMap::new();
        for (k, t) in get("Productions")?.num_map().map_err(|e| format!("Productions: {}", e))? {
            let v = match t.get("tokens") {
                Some(Ty::Tuple(v)) => v.iter().map(|x| x.num().ok_or("production token".to_string())).collect::<Result<Vec<_>, _>>()?,
                x => return Err(format!("production {}: {:?}", k, x)),
            };
            productions.insert(k, (st(t, "name").ok_or("production name")?, v));
        }
        let mut action = BTreeMap::new();
        for (k, t) in get("Action")?.num_map().map_err(|e| format!("Action: {}", e))? {
            let mut row = BTreeMap::new();
            for (a, x) in t.num_map().map_err(|e| format!("Action {}: {}", k, e))? {
                let act = match (x.get("shift").and_then(Ty::num), x.get("reduce").and_then(Ty::num), x.get("accept")) {
                    (Some(s), None, None) => TAct::Shift(s),
                    (None, Some(r), None) => TAct::Reduce(r),
                    (None, None, Some(Ty::Name(n))) if n == "true" => TAct::Accept,
                    _ => return Err(format!("action {} {}: {:?}", k, a, x)),
                };
                row.insert(a, act);
            }
            action.insert(k, row);
        }
        let mut goto = BTreeMap::new();
        for (k, t) in get("Goto")?.num_map().map_err(|e| format!("Goto: {}", e))? {
            let mut row = BTreeMap::new();
            for (a, x) in t.str_map().map_err(|e| format!("Goto {}: {}", k, e))? {
                row.insert(a, x.num().ok_or("goto target")?);
            }
            goto.insert(k, row);
        }
        let mut kind_to_idx = BTreeMap::new();
        for (k, x) in get("TokenKindToIdx")?.str_map().map_err(|e| format!("TokenKindToIdx: {}", e))? {
            kind_to_idx.insert(k, x.num().ok_or("token index")?);
        }
        let mut symbol_kinds = BTreeSet::new();
        if let Ty::Union(v) = get("Symbol")? {
            for x in v {
                symbol_kinds.insert(st(x, "kind").ok_or("symbol kind")?);
            }
        }
        Ok(ParseTables { tokens, productions, action, goto, kind_to_idx, symbol_kinds })
    }
}
