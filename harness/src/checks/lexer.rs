//! C01-C07: regular expressions, scanner automaton, scanning.
use crate::engine::*;
use crate::gram::G;
use crate::re::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use typelalr::lex::dfa::{remove_overlap, DFA};
use typelalr::lex::lex::{Lex, Token, TokenDef};
use typelalr::lex::nfa::{Match, StateIdx, NFA};

pub fn hir(p: &str) -> regex_syntax::hir::Hir {
    regex_syntax::Parser::new().parse(p).unwrap_or_else(|e| panic!("pattern {:?}: {}", p, e))
}

pub fn basic_leaves() -> Vec<Re> {
    vec![lit('a'), lit('b'), class("[ab]", &[('a', 'b')]), nclass("[^a]", &[('a', 'a')]), dot()]
}

/// Ranges of a leaf as the (external) regex parser reads them; used for large Unicode classes only
pub fn parsed_leaf(p: &str) -> Re {
    use regex_syntax::hir::*;
    let r = match hir(p).into_kind() {
        HirKind::Class(Class::Unicode(c)) => c.ranges().iter().map(|r| (r.start() as u32, r.end() as u32)).collect(),
        HirKind::Literal(Literal::Unicode(c)) => vec![(c as u32, c as u32)],
        k => panic!("not a leaf: {:?}", k),
    };
    Re::Leaf(p.to_string(), r)
}

/// Expressions as people write them, and shapes beyond the small exhaustive universe
pub fn realistic() -> Vec<Re> {
    let digit = || class("[0-9]", &[('0', '9')]);
    let nz = || class("[1-9]", &[('1', '9')]);
    let alpha = || class("[a-z]", &[('a', 'z')]);
    let ident0 = || class("[_A-Za-z]", &[('A', 'Z'), ('_', '_'), ('a', 'z')]);
    let ident = || class("[_A-Za-z0-9]", &[('0', '9'), ('A', 'Z'), ('_', '_'), ('a', 'z')]);
    let mut v = vec![
        cat(vec![nz(), star(digit())]),
        cat(vec![plus(nz()), star(digit())]),
        cat(vec![ident0(), star(ident())]),
        cat(vec![opt(lit('-')), alt(vec![lit('0'), cat(vec![nz(), star(digit())])]), opt(cat(vec![lit('.'), plus(digit())])), opt(cat(vec![class("[eE]", &[('E', 'E'), ('e', 'e')]), opt(class("[+-]", &[('+', '+'), ('-', '-')])), plus(digit())]))]),
        cat(vec![lit('"'), star(alt(vec![cat(vec![lit('\\'), dot()]), nclass("[^\"\\\\]", &[('"', '"'), ('\\', '\\')])])), lit('"')]),
        cat(vec![lit('\''), star(nclass("[^']", &[('\'', '\'')])), lit('\'')]),
        cat(vec![text("//"), star(dot())]),
        cat(vec![text("/*"), star(alt(vec![nclass("[^*]", &[('*', '*')]), cat(vec![plus(lit('*')), nclass("[^*/]", &[('*', '*'), ('/', '/')])])])), plus(lit('*')), lit('/')]),
        star(nclass("[^() ]", &[('(', '('), (')', ')'), (' ', ' ')])),
        alt(vec![text("for"), text("foreach"), text("fort"), text("if"), text("else"), text("elif")]),
        text("abcdefghijklmnop"),
        text("aaaaaaaaaaaa"),
        alt("abcdefghijkl".chars().map(lit).collect()),
        star(alt(vec![text("ab"), text("aba"), text("b")])),
        plus(star(opt(alt(vec![lit('a'), plus(lit('b'))])))),
        star(star(star(lit('a')))),
        opt(opt(opt(cat(vec![lit('a'), star(lit('b'))])))),
        cat(vec![star(lit('a')), star(lit('b')), star(lit('c')), star(lit('a'))]),
        cat(vec![opt(lit('a')), opt(lit('a')), opt(lit('a')), opt(lit('a')), lit('a'), lit('a'), lit('a'), lit('a')]),
        cat(vec![star(alt(vec![lit('a'), lit('b')])), lit('a'), alt(vec![lit('a'), lit('b')]), alt(vec![lit('a'), lit('b')]), alt(vec![lit('a'), lit('b')])]),
        cat(vec![star(class("[ab]", &[('a', 'b')])), lit('a'), class("[ab]", &[('a', 'b')]), class("[ab]", &[('a', 'b')]), class("[ab]", &[('a', 'b')]), class("[ab]", &[('a', 'b')])]),
        alt(vec![cat(vec![alpha(), star(alpha())]), cat(vec![class("[a-f0-9]", &[('0', '9'), ('a', 'f')]), plus(class("[a-f0-9]", &[('0', '9'), ('a', 'f')]))])]),
        alt(vec![class("[a-m]", &[('a', 'm')]), cat(vec![class("[g-z]", &[('g', 'z')]), class("[d-p]", &[('d', 'p')])]), cat(vec![class("[b-y]", &[('b', 'y')]), nclass("[^f-k]", &[('f', 'k')]), lit('q')])]),
    ];
    for p in ["\\d", "\\w", "\\s", "\\D", "\\W", "\\S", "\\pL", "\\p{Greek}", "[[:alpha:]]", "(?i)k", "(?s).", "(?i)[a-c]", "[\\w--\\d]", "[a-z&&[^aeiou]]", "\\x41", "\\u{1F600}", "\\t", "\\n", "\\r"] {
        let l = parsed_leaf(p);
        let l = match l {
            Re::Leaf(p, r) if p.starts_with("(?") => Re::Leaf(format!("({})", p), r),
            l => l,
        };
        v.push(l.clone());
        v.push(plus(l.clone()));
        v.push(cat(vec![lit('a'), star(l.clone()), lit('9')]));
        v.push(alt(vec![cat(vec![l, lit('x')]), text("1x"), text("é")]));
    }
    v
}

pub fn boundary_classes() -> Vec<Re> {
    // all ranges between boundary points (UTF-8 lengths, Latin-1, surrogate gap, planes, end)
    let pts: Vec<u32> = vec![0, 0x1f, 0x41, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff];
    let mut v = vec![];
    for i in 0..pts.len() {
        for j in i..pts.len() {
            let (a, b) = (pts[i], pts[j]);
            // (no character lies in the surrogate gap, so ranges may simply span it)
            let r = vec![(a, b)];
            v.push(Re::Leaf(format!("[\\x{{{:x}}}-\\x{{{:x}}}]", a, b), r.clone()));
            if !(a == 0 && b == 0x10ffff) {
                v.push(Re::Leaf(format!("[^\\x{{{:x}}}-\\x{{{:x}}}]", a, b), negate(&r)));
            }
        }
    }
    v
}

fn sstr(s: &[char]) -> String {
    s.iter().collect()
}

/// Deterministic walk of the DFA over its public edges
fn dfa_step(d: &DFA, s: StateIdx, c: char) -> Vec<StateIdx> {
    match d.edge_iter(s) {
        Some(it) => it.filter(|e| e.label.matches(c)).map(|e| e.to).collect(),
        None => vec![],
    }
}

/// Product of the reference automaton with the DFA; returns one witness string per product state
fn product(c: &mut Case, re: &Re, aut: &Aut, d: &DFA) -> Vec<Vec<char>> {
    let mut extra = vec![];
    for e in &d.edges {
        extra.push(e.label.range.start);
        extra.push(e.label.range.end);
    }
    let reps = class_ends(aut.leaves.iter(), &extra);
    let mut seen: HashMap<(St, Option<usize>), Vec<char>> = HashMap::new();
    let mut order = vec![];
    let mut q = VecDeque::new();
    let s0 = (aut.start(), Some(0usize));
    seen.insert(s0.clone(), vec![]);
    q.push_back(s0);
    while let Some(cur) = q.pop_front() {
        let w = seen[&cur].clone();
        order.push(w.clone());
        c.st.states += 1;
        let ra = aut.accepting(&cur.0);
        let ia = match cur.1 {
            Some(s) => match imp(|| d.dfa_state_is_accepting(StateIdx(s))) {
                Ok(x) => x,
                Err(p) => return c.fail(format!("panic on {:?}", sstr(&w)), p).into_empty(),
            },
            None => false,
        };
        if ra != ia {
            c.fail(format!("{:?}", sstr(&w)), format!("pattern {:?} string {:?}: expected {} by the expression, automaton says {}", re.pat(), sstr(&w), ra, ia));
            return vec![];
        }
        for ch in &reps {
            c.st.transitions += 1;
            let n = aut.step(&cur.0, *ch as u32);
            let m = match cur.1 {
                Some(s) => {
                    let v = dfa_step(d, StateIdx(s), *ch);
                    if v.len() > 1 {
                        c.fail(format!("ambiguous after {:?} on {:?}", sstr(&w), ch), format!("pattern {:?}: {} transitions of one state match {:?}", re.pat(), v.len(), ch));
                        return vec![];
                    }
                    v.first().map(|s| s.0)
                }
                None => None,
            };
            if aut.is_dead(&n) && m.is_none() {
                continue;
            }
            let k = (n, m);
            if !seen.contains_key(&k) {
                let mut w2 = w.clone();
                w2.push(*ch);
                if w2.len() > 400 {
                    c.fail(format!("unbounded after {:?}", sstr(&w2[..20])), "automaton does not close".to_string());
                    return vec![];
                }
                seen.insert(k.clone(), w2);
                q.push_back(k);
            }
        }
    }
    order
}

trait IntoEmpty {
    fn into_empty<T>(self) -> Vec<T>;
}
impl IntoEmpty for () {
    fn into_empty<T>(self) -> Vec<T> {
        vec![]
    }
}

fn regex_case(c: &mut Case, re: &Re, depth: usize) {
    let aut = Aut::new(re);
    for (k, pat) in re.pats().into_iter().enumerate() {
        let h = hir(&pat);
        let built = imp(|| {
            let nfa = NFA::from_regex(&h);
            let dfa = DFA::from_nfa(NFA::from_regex(&h));
            (nfa, dfa)
        });
        let (nfa, dfa) = match built {
            Ok(x) => x,
            Err(p) => {
                c.fail("build panics", format!("pattern {:?}: {}", pat, p));
                return;
            }
        };
        c.eval(1);
        let wit = product(c, re, &aut, &dfa);
        if !c.fails.is_empty() {
            return;
        }
        if wit.len() > 1 {
            c.nontrivial(&pat);
        }
        // The public entry points, on every witness and its one-character extensions, and on all
        // short strings over the representatives
        let reps = class_ends(aut.leaves.iter(), &[]);
        let mut inputs: Vec<Vec<char>> = vec![];
        for w in &wit {
            inputs.push(w.clone());
            for r in &reps {
                let mut x = w.clone();
                x.push(*r);
                inputs.push(x);
            }
        }
        let few: Vec<char> = if reps.len() <= 6 { reps.clone() } else { reps.iter().copied().take(6).collect() };
        strings(&few, if reps.len() <= 4 { depth } else { depth - 1 }, &mut |s| inputs.push(s.to_vec()));
        if k > 0 {
            inputs.truncate(40);
        }
        inputs.truncate(4000);
        for s in inputs {
            let t = sstr(&s);
            let want = aut.matches(&t);
            let got = imp(|| (nfa.simulate(&t), dfa.test(&t), dfa.simulate(&t)));
            c.eval(1);
            c.st.traces += 1;
            match got {
                Err(p) => return c.fail(format!("panic on {:?}", t), format!("pattern {:?}: {}", pat, p)),
                Ok((n, d, sim)) => {
                    if n != want {
                        return c.fail(format!("NFA on {:?}", t), format!("pattern {:?} string {:?}: expected {}, NFA::simulate gives {}", pat, t, want, n));
                    }
                    if d != want {
                        return c.fail(format!("DFA on {:?}", t), format!("pattern {:?} string {:?}: expected {}, DFA::test gives {}", pat, t, want, d));
                    }
                    let ok = match sim {
                        Some(k) => k <= s.len() && aut.matches(&sstr(&s[..k])) && (!want || k == s.len()),
                        None => !want,
                    };
                    if !ok {
                        return c.fail(format!("simulate on {:?}", t), format!("pattern {:?} string {:?}: in language {}, DFA::simulate gives {:?}", pat, t, want, sim));
                    }
                    c.hist(if want { "accepted strings" } else { "rejected strings" });
                }
            }
        }
        let n = wit.len();
        c.sample(|| format!("{} : {} product states", pat, n));
    }
}

pub fn c01(ctx: &mut Ctx) {
    ctx.family("all expressions, nodes<=4, 6 leaves");
    let mut leaves = basic_leaves();
    leaves.push(Re::Empty);
    for n in 1..=4 {
        for re in all_res(&leaves, n) {
            ctx.case(|| re.pat(), |c| regex_case(c, &re, 4));
        }
    }
    ctx.family("all expressions, 5 nodes");
    for re in all_res(&leaves, 5) {
        ctx.case(|| re.pat(), |c| regex_case(c, &re, 4));
    }
    ctx.family("all expressions, 6 nodes, leaves a b and the empty one");
    for re in all_res(&[lit('a'), lit('b'), Re::Empty], 6) {
        ctx.case(|| re.pat(), |c| regex_case(c, &re, 4));
    }
    ctx.family("all expressions, 7 nodes, leaves a b");
    for re in all_res(&[lit('a'), lit('b')], 7) {
        ctx.case(|| re.pat(), |c| regex_case(c, &re, 4));
    }
    if ctx.thorough {
        ctx.family("all expressions, 6 nodes");
        for re in all_res(&leaves, 6) {
            ctx.case(|| re.pat(), |c| regex_case(c, &re, 4));
        }
        ctx.family("all expressions, 7 nodes, leaves a b and the empty one");
        for re in all_res(&[lit('a'), lit('b'), Re::Empty], 7) {
            ctx.case(|| re.pat(), |c| regex_case(c, &re, 4));
        }
        ctx.family("all expressions, 8 nodes, leaves a b");
        for re in all_res(&[lit('a'), lit('b')], 8) {
            ctx.case(|| re.pat(), |c| regex_case(c, &re, 4));
        }
    }
    ctx.family("classes between boundary code points, alone, repeated and overlapping");
    let b = boundary_classes();
    for re in &b {
        ctx.case(|| re.pat(), |c| regex_case(c, re, 2));
        let r2 = cat(vec![plus(re.clone()), lit('A')]);
        ctx.case(|| r2.pat(), |c| regex_case(c, &r2, 2));
    }
    for x in &b {
        for y in &b {
            let r2 = alt(vec![cat(vec![x.clone(), lit('1')]), cat(vec![y.clone(), lit('2')])]);
            ctx.case(|| r2.pat(), |c| regex_case(c, &r2, 1));
        }
    }
    ctx.family("realistic and large expressions");
    for re in realistic() {
        ctx.case(|| re.pat(), |c| regex_case(c, &re, 4));
    }
    for n in [15usize, 16, 17, 31, 32, 33, 63, 64, 65, 100] {
        let long = text(&"ab".repeat(n)[..n]);
        let wide = alt((0..n).map(|i| cat(vec![lit(char::from_u32(0x100 + i as u32).unwrap()), lit('x')])).collect());
        let opts = cat((0..n.min(40)).map(|i| opt(lit(char::from_u32(0x100 + i as u32).unwrap()))).collect());
        let nest = (0..n).fold(lit('a'), |r, i| if i % 3 == 0 { star(r) } else if i % 3 == 1 { cat(vec![r, lit('b')]) } else { opt(r) });
        for re in [long, wide, opts, nest] {
            ctx.case(|| re.pat(), |c| regex_case(c, &re, 3));
        }
    }
}

// ------------------------------------------------------------------------------------------ C02

fn overlap_case(c: &mut Case, set: &[(u32, u32)]) {
    let input: BTreeSet<Match> = set.iter().map(|(a, b)| Match { range: *a..*b }).collect();
    let got = match imp(|| remove_overlap(&input)) {
        Ok(x) => x,
        Err(p) => return c.fail("panics", p),
    };
    c.eval(1);
    c.st.states += 1;
    let pieces: Vec<(u32, u32)> = got.iter().map(|m| (m.range.start, m.range.end)).collect();
    let desc = format!("ranges {:?} split into {:?}", set, pieces);
    for (i, p) in pieces.iter().enumerate() {
        if p.0 >= p.1 {
            return c.fail("empty piece", desc);
        }
        for q in &pieces[i + 1..] {
            if p.0 < q.1 && q.0 < p.1 {
                return c.fail("overlapping pieces", desc);
            }
        }
    }
    // coverage and no straddling, per point between all boundaries
    let mut b: Vec<u32> = set.iter().flat_map(|(a, b)| [*a, *b]).chain(pieces.iter().flat_map(|(a, b)| [*a, *b])).collect();
    b.sort();
    b.dedup();
    for x in b {
        let want = set.iter().any(|(s, e)| *s <= x && x < *e);
        let have = pieces.iter().any(|(s, e)| *s <= x && x < *e);
        c.st.transitions += 1;
        if want != have {
            return c.fail("coverage", desc);
        }
    }
    for (s, e) in set {
        for (ps, pe) in &pieces {
            if ps < e && s < pe && !(s <= ps && pe <= e) {
                return c.fail("piece straddles a boundary", desc);
            }
        }
    }
    if set.len() > 1 && pieces.len() != set.len() {
        c.nontrivial(set);
    }
    c.sample(|| desc);
}

pub fn token_pool() -> Vec<Re> {
    vec![
        lit('a'),
        text("ab"),
        plus(lit('a')),
        cat(vec![lit('a'), star(lit('b'))]),
        text("aab"),
        class("[ab]", &[('a', 'b')]),
        plus(class("[ab]", &[('a', 'b')])),
        cat(vec![lit('a'), star(class("[ab]", &[('a', 'b')])), lit('c')]),
        dot_noblank(),
        plus(class("[b-d]", &[('b', 'd')])),
        cat(vec![lit('b'), opt(text("ac"))]),
        star(lit('c')),
    ]
}

/// Tokens that begin with blanks or contain them
pub fn blank_pool() -> Vec<Re> {
    vec![
        lit('a'),
        text(" a"),
        text("a b"),
        lit('\n'),
        plus(lit(' ')),
        text("  b"),
        class("[ a]", &[(' ', ' '), ('a', 'a')]),
        cat(vec![star(class("[ \\n]", &[(' ', ' '), ('\n', '\n')])), lit('b')]),
        cat(vec![lit('\n'), star(lit(' ')), lit('a')]),
    ]
}

/// Any character but blanks
pub fn dot_noblank() -> Re {
    nclass("[^ \n]", &[(' ', ' '), ('\n', '\n')])
}

pub fn lex_defs(defs: &[TokDef]) -> Vec<(TokenDef, regex_syntax::hir::Hir)> {
    defs.iter()
        .enumerate()
        .map(|(i, d)| (TokenDef { name: d.name.clone(), with_val: d.with_val, token_idx: Some(i as u32) }, hir(&d.re.pat())))
        .collect()
}

pub fn show_defs(defs: &[TokDef]) -> String {
    defs.iter().map(|d| format!("{}{}=/{}/", d.name, if d.with_val { "" } else { "(no value)" }, d.re.pat())).collect::<Vec<_>>().join(" ")
}

/// The scanner automaton, as the generated state tables show it, against the union of the tokens
fn union_case(c: &mut Case, defs: &[TokDef]) {
    let d2 = lex_defs(defs);
    let text = match imp(|| typelalr::codegen::lex_gen::generate(&Lex::from_tokens(d2))) {
        Ok(t) => t,
        Err(p) => return c.fail("build panics", format!("{}: {}", show_defs(defs), p)),
    };
    c.eval(1);
    let tab = match crate::tsread::LexTables::read(&text) {
        Ok(t) => t,
        Err(e) => return c.fail("tables unreadable", format!("{}: {}", show_defs(defs), e)),
    };
    let sc = Scanner::new(defs.to_vec());
    let ends: Vec<u32> = tab.states.iter().flat_map(|s| s.edges.iter().flat_map(|e| [e.0, e.1])).collect();
    let reps = class_ends(sc.auts.iter().flat_map(|a| a.leaves.iter()), &ends);
    // determinism on every state, reachable or not
    for (i, s) in tab.states.iter().enumerate() {
        for ch in &reps {
            let n = s.edges.iter().filter(|e| e.0 <= *ch as u32 && (*ch as u32) < e.1).count();
            c.st.transitions += 1;
            if n > 1 {
                return c.fail(format!("state {} ambiguous on {:?}", i, ch), show_defs(defs));
            }
        }
        for e in &s.edges {
            if e.0 >= e.1 {
                return c.fail(format!("state {} has an empty range", i), show_defs(defs));
            }
            if e.2 >= tab.states.len() {
                return c.fail(format!("state {} leads to a missing state", i), show_defs(defs));
            }
        }
    }
    let mut seen: HashMap<(Vec<St>, Option<usize>), String> = HashMap::new();
    let mut q = VecDeque::new();
    let s0 = (sc.auts.iter().map(|a| a.start()).collect::<Vec<_>>(), Some(0));
    seen.insert(s0.clone(), String::new());
    q.push_back(s0);
    while let Some(cur) = q.pop_front() {
        let w = seen[&cur].clone();
        c.st.states += 1;
        // nothing is scanned before the first character, so an accepting start state is immaterial
        let ra = !w.is_empty() && sc.auts.iter().zip(&cur.0).any(|(a, s)| a.accepting(s));
        let ia = !w.is_empty() && cur.1.map_or(false, |s| tab.states[s].accepting);
        if ra != ia {
            return c.fail(format!("{:?}", w), format!("{}: {:?} matched by a token: {}, accepted by the automaton: {}", show_defs(defs), w, ra, ia));
        }
        for ch in &reps {
            c.st.transitions += 1;
            let n: Vec<St> = sc.auts.iter().zip(&cur.0).map(|(a, s)| a.step(s, *ch as u32)).collect();
            let m = cur.1.and_then(|s| tab.states[s].edges.iter().find(|e| e.0 <= *ch as u32 && (*ch as u32) < e.1)).map(|e| e.2);
            if m.is_none() && n.iter().zip(&sc.auts).all(|(s, a)| a.is_dead(s)) {
                continue;
            }
            let k = (n, m);
            if !seen.contains_key(&k) {
                let w2 = format!("{}{}", w, ch);
                if w2.chars().count() > 400 {
                    return c.fail("automaton does not close", show_defs(defs));
                }
                seen.insert(k.clone(), w2);
                q.push_back(k);
            }
        }
    }
    if defs.len() > 1 {
        c.nontrivial(&show_defs(defs));
    }
    let n = seen.len();
    // replay every witness on the real scanner: a witness that is one token must come out as one
    let lex = Lex::from_tokens(lex_defs(defs));
    for (k, w) in &seen {
        if w.is_empty() || w.starts_with(' ') || w.starts_with('\n') {
            continue;
        }
        let toks = match imp(|| lex.lex(w)) {
            Ok(t) => t,
            Err(p) => return c.fail(format!("lex panics on {:?}", w), p),
        };
        c.st.traces += 1;
        let whole = sc.auts.iter().zip(&k.0).any(|(a, s)| a.accepting(s));
        if whole != (toks.len() == 1 && consumed_all(&sc, w)) && whole {
            return c.fail(format!("lex of {:?}", w), format!("{}: {:?} is one token, scanner gives {:?}", show_defs(defs), w, toks));
        }
    }
    c.sample(|| format!("{}: {} product states", show_defs(defs), n));
}

fn consumed_all(sc: &Scanner, w: &str) -> bool {
    let v: Vec<char> = w.chars().collect();
    sc.scan(&v).1 == v.len()
}

pub fn named(pool: &[Re]) -> Vec<TokDef> {
    pool.iter().enumerate().map(|(i, r)| TokDef { name: format!("T{}", i), with_val: true, re: r.clone() }).collect()
}

pub fn c02(ctx: &mut Ctx) {
    let maxpt = 6;
    let mut all = vec![];
    for i in 0..=maxpt {
        for j in i + 1..=maxpt {
            all.push((i, j));
        }
    }
    fn subsets(all: &[(u32, u32)], k: usize, from: usize, cur: &mut Vec<(u32, u32)>, f: &mut dyn FnMut(&[(u32, u32)])) {
        if cur.len() == k {
            return f(cur);
        }
        for i in from..all.len() {
            cur.push(all[i]);
            subsets(all, k, i + 1, cur, f);
            cur.pop();
        }
    }
    ctx.family("range sets over 7 points");
    let kmax = if ctx.thorough { 7 } else { 5 };
    for k in 0..=kmax {
        subsets(&all, k, 0, &mut vec![], &mut |s| {
            let s = s.to_vec();
            ctx.case(|| format!("{:?}", s), |c| overlap_case(c, &s));
        });
    }
    ctx.family("range sets at the ends of the code space");
    let pts = [0u32, 1, 0x7f, 0x80, 0xd7ff, 0xd800, 0xe000, 0x10ffff, 0x110000];
    let mut all = vec![];
    for i in 0..pts.len() {
        for j in i + 1..pts.len() {
            all.push((pts[i], pts[j]));
        }
    }
    for k in 1..=if ctx.thorough { 4 } else { 3 } {
        subsets(&all, k, 0, &mut vec![], &mut |s| {
            let s = s.to_vec();
            ctx.case(|| format!("{:x?}", s), |c| overlap_case(c, &s));
        });
    }
    ctx.family("token sets: all lists of <=3 definitions of the pool");
    let pool = token_pool();
    let n = pool.len();
    for i in 0..n {
        let d = named(&[pool[i].clone()]);
        ctx.case(|| show_defs(&d), |c| union_case(c, &d));
    }
    for i in 0..n {
        for j in 0..n {
            let d = named(&[pool[i].clone(), pool[j].clone()]);
            ctx.case(|| show_defs(&d), |c| union_case(c, &d));
        }
    }
    for i in 0..n {
        for j in 0..n {
            for k in 0..n {
                if !ctx.thorough && !(i <= j && j <= k) && (i + 2 * j + 3 * k) % 3 != 0 {
                    continue;
                }
                let d = named(&[pool[i].clone(), pool[j].clone(), pool[k].clone()]);
                ctx.case(|| show_defs(&d), |c| union_case(c, &d));
            }
        }
    }
    ctx.family("overlapping classes across tokens");
    let mut cls = vec![];
    for (a, b) in [('a', 'c'), ('b', 'd'), ('c', 'c'), ('a', 'f'), ('d', 'z'), ('a', 'a'), ('e', 'g')] {
        cls.push(class(&format!("[{}-{}]", a, b), &[(a, b)]));
    }
    let tails = ['1', '2', '3', '4'];
    let m = cls.len();
    for x in 0..m * m * m * m {
        let ids = [x % m, x / m % m, x / m / m % m, x / m / m / m];
        if !ctx.thorough && ids.windows(2).any(|w| w[0] > w[1]) {
            continue;
        }
        let d = named(&ids.iter().zip(tails).map(|(i, t)| cat(vec![cls[*i].clone(), lit(t)])).collect::<Vec<_>>());
        ctx.case(|| show_defs(&d), |c| union_case(c, &d));
    }
    ctx.family("realistic token sets");
    for d in realistic_sets() {
        ctx.case(|| show_defs(&d), |c| union_case(c, &d));
    }
}

pub fn realistic_sets() -> Vec<Vec<TokDef>> {
    let r = realistic();
    let mut v: Vec<Vec<TokDef>> = vec![];
    let t = |n: &str, re: Re| TokDef { name: n.into(), with_val: true, re };
    v.push(vec![t("int", r[0].clone()), t("id", r[2].clone()), t("num", r[3].clone()), t("str", r[4].clone()), t("q", r[5].clone())]);
    v.push(vec![t("line", r[6].clone()), t("block", r[7].clone()), t("div", lit('/')), t("mul", lit('*')), t("id", r[2].clone())]);
    v.push(["for", "foreach", "fort", "if", "else", "elif", "=", "==", "===", "=>", "<", "<=", "<<", "<<=", ">", "!", "!="].iter().map(|s| t(s, text(s))).chain([t("id", r[2].clone()), t("int", r[0].clone())]).collect());
    v.push(vec![t("(", lit('(')), t(")", lit(')')), t("sym", r[8].clone()), t("int", r[0].clone())]);
    v.push((0..26).map(|i| t(&format!("k{}", i), text(&format!("{}{}", (b'a' + i as u8) as char, (b'a' + (i * 7 % 26) as u8) as char)))).chain([t("w", plus(class("[a-z]", &[('a', 'z')])))]).collect());
    // one token per character, many states with many edges
    v.push((0..120).map(|i| t(&format!("c{}", i), lit(char::from_u32(0x100 + i).unwrap()))).collect());
    v.push((0..40).map(|i| t(&format!("p{}", i), text(&"abcdefghijklmnopqrstuvwxyzabcdefghijklmnopq"[..i + 1]))).collect());
    v.push(vec![t("word", parsed_plus("\\w")), t("digits", parsed_plus("\\d")), t("greek", parsed_plus("\\p{Greek}")), t("any", nclass("[^ \\n]", &[(' ', ' '), ('\n', '\n')]))]);
    v
}

fn parsed_plus(p: &str) -> Re {
    plus(parsed_leaf(p))
}

// ------------------------------------------------------------------------------------------ C03-C06

pub fn expect_tokens(sc: &Scanner, input: &[char]) -> (Vec<Token>, usize) {
    let (t, e) = sc.scan(input);
    (
        t.iter()
            .map(|t| {
                let d = &sc.defs[t.def];
                if d.with_val {
                    Token::new_with_val(d.name.clone(), input[t.start..t.end].iter().collect::<String>())
                } else {
                    Token::new(d.name.clone())
                }
            })
            .collect(),
        e,
    )
}


/// What a token shows of itself: the comparison above builds the expected token with the code's own
/// constructor, which would hide a constructor that alters the text
pub fn carries(t: &Token, name: &str, val: &str) -> Option<String> {
    let shown = format!("{:?}", t);
    let has = |x: &str| shown.contains(&format!("{:?}", x));
    if has(name) && has(val) {
        None
    } else {
        Some(format!("the token {:?} with the text {:?} shows itself as {}", name, val, shown))
    }
}

/// Enumerate all strings over `alphabet` up to `depth` on the scanner of `defs`
pub fn scan_case(c: &mut Case, defs: &[TokDef], alphabet: &[char], depth: usize, extra: &[String]) {
    let sc = Scanner::new(defs.to_vec());
    let ld = lex_defs(defs);
    let lex = match imp(|| Lex::from_tokens(ld)) {
        Ok(l) => l,
        Err(p) => return c.fail("build panics", p),
    };
    let mut bad: Option<(String, String)> = None;
    let mut distinct: std::collections::HashSet<u64> = Default::default();
    let mut nt = 0u64;
    let mut carried: std::collections::HashSet<(usize, String)> = Default::default();
    let mut one = |s: &[char], c: &mut Case| {
        if bad.is_some() {
            return;
        }
        let t: String = s.iter().collect();
        let (toks, end) = sc.scan(s);
        let got = match imp(|| lex.lex(&t)) {
            Ok(g) => g,
            Err(p) => {
                bad = Some((format!("panic on {:?}", t), p));
                return;
            }
        };
        c.eval(1);
        c.st.traces += 1;
        if toks.len() > 1 || (end < s.len() && !toks.is_empty()) {
            nt += 1;
        }
        distinct.insert(h64(&(toks.clone(), end)));
        let want: Vec<Token> = expect_tokens(&sc, s).0;
        if got != want {
            bad = Some((format!("{:?}", t), format!("tokens {}: input {:?}: expected {:?}, got {:?}", show_defs(defs), t, want, got)));
            return;
        }
        for (k, g) in toks.iter().zip(&got) {
            let d = &sc.defs[k.def];
            let val: String = s[k.start..k.end].iter().collect();
            if d.with_val && carried.insert((k.def, val.clone())) {
                if let Some(e) = carries(g, &d.name, &val) {
                    bad = Some((format!("{:?}", t), format!("tokens {}: input {:?}: {}", show_defs(defs), t, e)));
                }
            }
        }
    };
    let mut list: Vec<Vec<char>> = vec![];
    strings(alphabet, depth, &mut |s| list.push(s.to_vec()));
    for e in extra {
        list.push(e.chars().collect());
    }
    for s in &list {
        one(s, c);
    }
    if let Some((w, d)) = bad {
        return c.fail(w, d);
    }
    c.st.states += distinct.len() as u64;
    c.st.transitions += list.len() as u64;
    if nt > 0 {
        c.nontrivial(&(show_defs(defs), alphabet.to_vec()));
    }
    let n = list.len();
    let k = distinct.len();
    c.histn("inputs with two or more tokens or an unlexable rest", nt);
    c.sample(|| format!("{}: {} inputs, {} distinct tokenizations", show_defs(defs), n, k));
}

pub fn lists(n: usize, k: usize, f: &mut dyn FnMut(&[usize])) {
    fn go(n: usize, k: usize, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        if cur.len() == k {
            return f(cur);
        }
        for i in 0..n {
            cur.push(i);
            go(n, k, cur, f);
            cur.pop();
        }
    }
    go(n, k, &mut vec![], f)
}

pub fn c03(ctx: &mut Ctx) {
    let pool = token_pool();
    let al = ['a', 'b', 'c', ' ', '\n'];
    let depth = if ctx.thorough { 7 } else { 6 };
    ctx.family("token lists of <=2, all inputs over a b c blank newline");
    for k in 1..=2 {
        lists(pool.len(), k, &mut |ix| {
            let d = named(&ix.iter().map(|i| pool[*i].clone()).collect::<Vec<_>>());
            ctx.case(|| show_defs(&d), |c| scan_case(c, &d, &al, depth, &[]));
        });
    }
    ctx.family("token sets of 3, all inputs over a b c blank");
    let al4 = ['a', 'b', 'c', ' '];
    lists(pool.len(), 3, &mut |ix| {
        if !(ix[0] < ix[1] && ix[1] < ix[2]) {
            return;
        }
        let d = named(&ix.iter().map(|i| pool[*i].clone()).collect::<Vec<_>>());
        ctx.case(|| show_defs(&d), |c| scan_case(c, &d, &al4, depth, &[]));
    });
    ctx.family("tokens that begin with blanks or contain them");
    let bp = blank_pool();
    lists(bp.len(), if ctx.thorough { 3 } else { 2 }, &mut |ix| {
        let d = named(&ix.iter().map(|i| bp[*i].clone()).collect::<Vec<_>>());
        ctx.case(|| show_defs(&d), |c| scan_case(c, &d, &['a', 'b', ' ', '\n'], depth, &[]));
    });
    ctx.family("abandoned longer tokens: prefix chains");
    // a token w and a longer token w·x; inputs stop anywhere inside x
    let words = ["a", "ab", "abc", "abcabd", "aabaab", "abababc", "cab"];
    for i in 0..words.len() {
        for j in 0..words.len() {
            for k in 0..words.len() {
                if i == j || (k != 0 && (k == i || k == j)) {
                    continue;
                }
                let d = named(&[text(words[i]), text(words[j]), text(words[k])]);
                let mut extra = vec![];
                for x in words {
                    for y in words {
                        for cut in 0..=y.len() {
                            extra.push(format!("{}{}", x, &y[..cut]));
                            extra.push(format!("{} {}", x, &y[..cut]));
                            extra.push(format!("{}{}\n{}", x, &y[..cut], x));
                        }
                    }
                }
                ctx.case(|| format!("chain {}", show_defs(&d)), |c| scan_case(c, &d, &['a', 'b', 'c'], 4, &extra));
            }
        }
    }
    ctx.family("realistic token sets, blanks everywhere");
    for (n, d) in realistic_sets().into_iter().enumerate() {
        let frag = ["for", "foreach", "fore", "if(", "elif", "=", "==", "=> ", "<<=", "<", "1", "0", "10", "-1.5e+3", "1.", "1.e", "\"a\\\"b\"", "\"a", "'x y'", "/*a*/", "/*a", "//x", "/", "*", "_x1", " ", "\n", "λ", "é9", "(", ")", "add", "aa", "ba", "ch", "abcdefghij", "ĀāĂ"];
        let mut extra = vec![];
        for x in frag {
            for y in frag {
                extra.push(format!("{}{}", x, y));
                if ctx.thorough {
                    for z in frag {
                        extra.push(format!("{}{}{}", x, y, z));
                    }
                } else {
                    extra.push(format!(" {}  {}\n", x, y));
                    extra.push(format!("{}{}{}", x, y, x));
                }
            }
        }
        for part in 0..8 {
            let e: Vec<String> = extra.iter().enumerate().filter(|(i, _)| i % 8 == part).map(|(_, x)| x.clone()).collect();
            ctx.case(|| format!("set {} part {}", n, part), |c| scan_case(c, &d, &['a'], 2, &e));
        }
    }
    ctx.family("long inputs");
    for n in [10usize, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 4096, 5000, 32768, 65535, 65536, 65537, 70000] {
        let d = named(&[plus(lit('a')), lit('b'), cat(vec![star(lit('a')), lit('c')])]);
        let extra = vec!["a".repeat(n), "b".repeat(n), "a b".repeat(n), " ".repeat(n) + "a", "a".repeat(n) + "c", "a".repeat(n) + "d", "ab\n".repeat(n) + "c"];
        let d2 = d.clone();
        ctx.case(|| format!("long {}", n), |c| scan_case(c, &d2, &[], 0, &extra));
    }
}

pub fn c04(ctx: &mut Ctx) {
    // overlapping tokens in every order
    let pool = vec![lit('a'), text("ab"), class("[ab]", &[('a', 'b')]), plus(lit('a')), plus(class("[ab]", &[('a', 'b')])), dot_noblank(), cat(vec![lit('a'), opt(lit('b'))]), star(alt(vec![lit('b'), lit('a')]))];
    let al = ['a', 'b', ' '];
    ctx.family("ordered lists of overlapping tokens");
    for k in 1..=3 {
        lists(pool.len(), k, &mut |ix| {
            let d = named(&ix.iter().map(|i| pool[*i].clone()).collect::<Vec<_>>());
            ctx.case(|| show_defs(&d), |c| scan_case(c, &d, &al, if k == 3 { if ctx_thorough() { 7 } else { 5 } } else if ctx_thorough() { 9 } else { 7 }, &[]));
        });
    }
    let deep = if ctx.thorough { 7 } else { 4 };
    lists(pool.len(), 4, &mut |ix| {
        if ctx.skip() {
            return;
        }
        let d = named(&ix.iter().map(|i| pool[*i].clone()).collect::<Vec<_>>());
        ctx.case(|| show_defs(&d), |c| scan_case(c, &d, &al, deep, &[]));
    });
    if ctx.thorough {
        lists(pool.len(), 5, &mut |ix| {
            if ctx.skip() {
                return;
            }
            let d = named(&ix.iter().map(|i| pool[*i].clone()).collect::<Vec<_>>());
            ctx.case(|| show_defs(&d), |c| scan_case(c, &d, &al, 4, &[]));
        });
    }
    ctx.family("many overlapping tokens, every position wins once");
    for n in [5usize, 9, 10, 11, 12, 20, 40] {
        // token i matches a word of length <= i+1; the first n-1 are literals of the same pattern
        let mut d: Vec<TokDef> = (0..n).map(|i| TokDef { name: format!("t{}", i), with_val: true, re: if i % 2 == 0 { text(&"x".repeat(i + 1)) } else { cat(vec![lit('x'), star(lit('x')), text(&"x".repeat(i / 2))]) } }).collect();
        for rev in 0..2 {
            if rev == 1 {
                d.reverse();
            }
            let extra: Vec<String> = (1..=n + 3).map(|k| "x".repeat(k)).collect();
            let d2 = d.clone();
            ctx.case(|| format!("many {} {}", n, rev), |c| scan_case(c, &d2, &['x', ' '], 5, &extra));
        }
    }
    ctx.family("grammars: literals against patterns");
    let lits = ["if", "i", "iff", "for", "z", "_", "a1", "Z", "\"", "\\"];
    let pats: Vec<Re> = vec![plus(class("[a-z]", &[('a', 'z')])), class("[a-z]", &[('a', 'z')]), cat(vec![class("[_A-Za-z]", &[('A', 'Z'), ('_', '_'), ('a', 'z')]), star(class("[_A-Za-z0-9]", &[('0', '9'), ('A', 'Z'), ('_', '_'), ('a', 'z')]))]), dot_noblank(), alt(vec![text("if"), text("for")]), cat(vec![opt(lit('z')), plus(class("[a-i]", &[('a', 'i')]))])];
    for a in 0..lits.len() {
        for b in 0..lits.len() {
            for p in 0..pats.len() {
                for q in p..pats.len() {
                    if b < a || (!ctx.thorough && (a + b + p + q) % 2 == 1 && a != b) {
                        continue;
                    }
                    let (l, pp) = (vec![lits[a], lits[b]], vec![pats[p].clone(), pats[q].clone()]);
                    ctx.case(|| format!("grammar {:?} {:?}", l, pp.iter().map(|x| x.pat()).collect::<Vec<_>>()), |c| grammar_tie_case(c, &l, &pp));
                }
            }
        }
    }
}

pub fn quote(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
}
/// A pattern as grammar text; patterns may not contain an unescaped quote
pub fn rquote(p: &str) -> String {
    let mut o = String::from("r\"");
    let mut esc = false;
    for c in p.chars() {
        if c == '"' && !esc {
            o.push('\\');
        }
        esc = c == '\\' && !esc;
        o.push(c);
    }
    o.push('"');
    o
}

fn with_grammar<T>(text: &str, f: impl FnOnce(&typelalr::parser::Grammar) -> T) -> Result<T, String> {
    let bump = bumpalo::Bump::new();
    let r = imp(|| {
        let ast = typelalr::parse_grammar(&bump, text);
        let ast: &[_] = bump.alloc(ast);
        typelalr::parser::Grammar::grammar_from_ast_productions(&bump, ast)
    });
    match r {
        Ok(g) => Ok(f(&g)),
        Err(p) => Err(p),
    }
}

fn grammar_tie_case(c: &mut Case, lits: &[&str], pats: &[Re]) {
    // alternatives deliberately in an order that is not the token order
    let mut text_ = String::from("export start S: (any) = [\n");
    for p in pats.iter().rev() {
        text_.push_str(&format!("  <x: {}> => (x),\n", rquote(&p.pat())));
    }
    for l in lits.iter().rev() {
        text_.push_str(&format!("  {} => (null),\n", quote(l)));
    }
    text_.push_str("]\n");
    let mut ls: Vec<&str> = lits.to_vec();
    ls.sort();
    ls.dedup();
    let mut ps: Vec<&Re> = pats.iter().collect();
    ps.sort_by_key(|p| p.pat());
    ps.dedup_by_key(|p| p.pat());
    let mut defs: Vec<TokDef> = ls.iter().map(|l| TokDef { name: l.to_string(), with_val: true, re: text(l) }).collect();
    defs.extend(ps.iter().map(|p| TokDef { name: p.pat().replace('"', "\\\""), with_val: true, re: (*p).clone() }));
    let sc = Scanner::new(defs.clone());
    let lex = match with_grammar(&text_, |g| imp(|| Lex::from_grammar(g))) {
        Ok(Ok(l)) => l,
        Ok(Err(p)) | Err(p) => return c.fail("build panics", format!("{}: {}", text_, p)),
    };
    let mut n = 0;
    let mut inputs: Vec<String> = vec![];
    for l in lits {
        for s in ["", "x", "f", "1", " if", "z"] {
            inputs.push(format!("{}{}", l, s));
            inputs.push(format!("{}{}", s, l));
        }
    }
    strings(&['i', 'f', 'z', ' '], 4, &mut |s| inputs.push(s.iter().collect()));
    for t in inputs {
        let v: Vec<char> = t.chars().collect();
        let want = expect_tokens(&sc, &v).0;
        let got = match imp(|| lex.lex(&t)) {
            Ok(g) => g,
            Err(p) => return c.fail(format!("panic on {:?}", t), p),
        };
        c.eval(1);
        c.st.traces += 1;
        n += 1;
        if got != want {
            return c.fail(format!("{:?}", t), format!("grammar {}\ninput {:?}: expected {:?}, got {:?}", text_, t, want, got));
        }
    }
    c.st.states += 1;
    c.st.transitions += n;
    c.nontrivial(&text_);
    c.sample(|| text_);
}

pub fn c05(ctx: &mut Ctx) {
    // one character of every UTF-8 length, combining, boundary and special characters
    let al = ['a', 'é', '€', '😀', ' ', '\n', '\u{301}', '\u{7f}', '\u{0}', '\u{d7ff}', '\u{e000}', '\u{10ffff}', '\t', '\u{a0}', '\u{85}'];
    let small = ['a', 'é', '€', '😀', ' '];
    let pool: Vec<Re> = vec![
        dot_noblank(),
        plus(dot_noblank()),
        plus(class("[é€]", &[('é', 'é'), ('€', '€')])),
        cat(vec![lit('😀'), star(dot_noblank())]),
        cat(vec![lit('a'), opt(lit('é'))]),
        cat(vec![lit('é'), star(lit('a')), lit('€')]),
        plus(nclass("[^a ]", &[('a', 'a'), (' ', ' ')])),
        plus(class("[\\x{80}-\\x{10ffff}]", &[('\u{80}', '\u{d7ff}'), ('\u{e000}', '\u{10ffff}')])),
    ];
    ctx.family("pairs of tokens with and without value, all short inputs over 15 characters");
    for i in 0..pool.len() {
        for j in 0..pool.len() {
            for vals in 0..4 {
                if !ctx.thorough && vals == 0 {
                    continue;
                }
                let mut d = named(&[pool[i].clone(), pool[j].clone()]);
                d[0].with_val = vals & 1 != 0;
                d[1].with_val = vals & 2 != 0;
                ctx.case(|| show_defs(&d), |c| scan_case(c, &d, &al, 3, &[]));
            }
        }
    }
    ctx.family("pairs of tokens, inputs to length 6 over one character per UTF-8 length");
    for i in 0..pool.len() {
        for j in 0..pool.len() {
            let d = named(&[pool[i].clone(), pool[j].clone()]);
            ctx.case(|| format!("deep {}", show_defs(&d)), |c| scan_case(c, &d, &small, if ctx_thorough() { 8 } else { 6 }, &[]));
        }
    }
    ctx.family("values of many lengths, and tokens far into the input");
    for n in [1usize, 15, 16, 127, 128, 254, 255, 256, 257, 1023, 1024, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 70000] {
        for ch in ['a', 'é', '€', '😀'] {
            ctx.case(|| format!("{} times {:?}", n, ch), |c| {
                let d = vec![
                    TokDef { name: "w".into(), with_val: true, re: plus(class("[aé€😀]", &[('a', 'a'), ('é', 'é'), ('€', '€'), ('😀', '😀')])) },
                    TokDef { name: "q".into(), with_val: true, re: cat(vec![lit('"'), star(nclass("[^\"]", &[('"', '"')])), lit('"')]) },
                    TokDef { name: "+".into(), with_val: false, re: lit('+') },
                ];
                let w = ch.to_string().repeat(n);
                let extra = [format!("{}", w), format!("{}+a", w), format!("{} \" {} \" é+", w, w), format!("{}\n{}+{}", w, w, w), format!("\"{}", w), format!("{}\"a\n€\"", "+".repeat(n)), format!("{}é", " ".repeat(n))];
                scan_case(c, &d, &[], 0, &extra)
            });
        }
    }
    ctx.family("blanks, line ends and combining characters inside of values");
    {
        let d = vec![TokDef { name: "str".into(), with_val: true, re: cat(vec![lit('"'), star(nclass("[^\"]", &[('"', '"')])), lit('"')]) }, TokDef { name: "any".into(), with_val: true, re: dot_noblank() }];
        let odd = [' ', '\n', '\r', '\t', '\u{b}', '\u{c}', '\u{0}', '\u{85}', '\u{a0}', '\u{301}', '\u{200d}', '\u{2028}', '\u{3000}', '\u{feff}', '\u{fffd}', '\\', '\'', 'e', 'É', 'ß', 'İ', 'ﬁ'];
        for first in odd {
            ctx.case(|| format!("{:?} inside", first), |c| {
                let mut extra = vec![format!("\"{}", first), format!("{}", first)];
                for x in odd {
                    extra.extend([format!("\"{}{}\"", first, x), format!("{}{}", first, x), format!("{} \"{}\"", first, x)]);
                    for y in odd {
                        extra.extend([format!("\"{}{}{}\"", first, x, y), format!("{}\"{}\"{}", first, x, y)]);
                    }
                }
                scan_case(c, &d, &[], 0, &extra)
            });
        }
    }
    ctx.family("every character as a value: blocks of 4096 code points");
    for blk in 0..0x110u32 {
        let lo = blk * 0x1000;
        ctx.case(|| format!("block {:x}", lo), |c| {
            let d = vec![TokDef { name: "x".into(), with_val: true, re: cat(vec![lit('<'), nclass("[^<>]", &[('<', '<'), ('>', '>')]), lit('>')]) }];
            let sc = Scanner::new(d.clone());
            let lex = Lex::from_tokens(lex_defs(&d));
            for cp in lo..lo + 0x1000 {
                if let Some(ch) = char::from_u32(cp) {
                    let t = format!("<{}> <{}>é<a>", ch, ch);
                    let v: Vec<char> = t.chars().collect();
                    let want = expect_tokens(&sc, &v).0;
                    let got = imp(|| lex.lex(&t));
                    c.eval(1);
                    c.st.traces += 1;
                    if got.as_ref() != Ok(&want) {
                        return c.fail(format!("U+{:04X}", cp), format!("expected {:?} got {:?}", want, got));
                    }
                    for (g, val) in got.unwrap().iter().zip([format!("<{}>", ch), format!("<{}>", ch)]) {
                        if ch != '<' && ch != '>' {
                            if let Some(e) = carries(g, "x", &val) {
                                return c.fail(format!("U+{:04X}", cp), e);
                            }
                        }
                    }
                }
            }
            c.st.states += 1;
            c.st.transitions += 0x1000;
            c.nontrivial(&lo);
        });
    }
}

static THOROUGH: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn set_thorough(t: bool) {
    THOROUGH.store(t, std::sync::atomic::Ordering::SeqCst)
}
pub fn ctx_thorough() -> bool {
    THOROUGH.load(std::sync::atomic::Ordering::SeqCst)
}

pub fn c06(ctx: &mut Ctx) {
    // Inputs that contain something no token matches, at every position
    let pool = token_pool();
    let al = ['a', 'b', '#', ' ', '\n', '\t'];
    ctx.family("token lists of <=2 over an alphabet with unlexable characters");
    for k in 1..=2 {
        lists(pool.len(), k, &mut |ix| {
            if ix.iter().any(|i| *i == 8) {
                return; // matches everything
            }
            let d = named(&ix.iter().map(|i| pool[*i].clone()).collect::<Vec<_>>());
            ctx.case(|| show_defs(&d), |c| scan_case(c, &d, &al, if ctx_thorough() { 7 } else { 6 }, &[]));
        });
    }
    ctx.family("blanks that belong to tokens next to characters that no token takes");
    let bp = blank_pool();
    lists(bp.len(), 2, &mut |ix| {
        let d = named(&ix.iter().map(|i| bp[*i].clone()).collect::<Vec<_>>());
        ctx.case(|| show_defs(&d), |c| scan_case(c, &d, &['a', 'b', '#', ' ', '\n'], if ctx_thorough() { 7 } else { 6 }, &[]));
    });
    ctx.family("every code point between two tokens, before and after them");
    for blk in 0..0x110u32 {
        ctx.case(|| format!("code points {:x}000-{:x}fff", blk, blk), |c| {
            let d = vec![TokDef { name: "a".into(), with_val: true, re: lit('a') }, TokDef { name: "b".into(), with_val: true, re: lit('b') }];
            let sc = Scanner::new(d.clone());
            let lex = Lex::from_tokens(lex_defs(&d));
            for cp in blk * 0x1000..(blk + 1) * 0x1000 {
                if let Some(ch) = char::from_u32(cp) {
                    for t in [format!("a{}b", ch), format!("{}a", ch), format!("a {}", ch)] {
                        let v: Vec<char> = t.chars().collect();
                        let want = expect_tokens(&sc, &v).0;
                        let got = imp(|| lex.lex(&t));
                        c.eval(1);
                        c.st.traces += 1;
                        if got.as_ref() != Ok(&want) {
                            return c.fail(format!("U+{:04X}", cp), format!("input {:?}: expected {:?} got {:?}", t, want, got));
                        }
                    }
                }
            }
            c.st.states += 1;
            c.st.transitions += 0x1000;
            c.nontrivial(&blk);
        });
    }
    ctx.family("in-process parser: characters that look blank, everywhere in the input");
    {
        let odd: Vec<char> = (0u32..0x10ffff).filter_map(char::from_u32).filter(|x| (*x as u32) < 256 || x.is_whitespace() || x.is_control() || (0x2000..0x2070).contains(&(*x as u32)) || "\u{61c}\u{115f}\u{180e}\u{2800}\u{3164}\u{feff}\u{ffa0}\u{fffd}\u{e0001}\u{e0020}".contains(*x)).collect();
        let odd: Vec<char> = odd.into_iter().filter(|x| !"ab".contains(*x)).collect();
        let gr = G::dsl("L -> L 'a' | L 'b' | 'a'", &[]);
        for part in odd.chunks(24) {
            let list: Vec<Vec<char>> = part.iter().flat_map(|x| ["x", "ax", "xa", "axb", "ab x", "a x b", "axx", "ax ", "ax\n", "a\nx"].iter().map(|p| p.chars().map(|y| if y == 'x' { *x } else { y }).collect()).collect::<Vec<_>>()).collect();
            ctx.case(|| format!("U+{:04X}..U+{:04X}", part[0] as u32, part[part.len() - 1] as u32), |c| parse_cover_list(c, &gr, list));
        }
    }
    ctx.family("in-process parser: rests that cannot be scanned, blanks anywhere");
    let w = [("apb", cat(vec![plus(lit('a')), lit('b')])), ("a", lit('a')), ("abs", plus(class("[ab]", &[('a', 'b')])))];
    let grams: Vec<(&str, G)> = [
        ("list", "L -> L 'a' | 'a'"),
        ("pair", "L -> 'a' 'ab' | 'a' | 'ab'"),
        ("word", "L -> L /apb/ | /a/"),
        ("paren", "E -> '(' E ')' | /abs/"),
        ("two", "S -> A 'b' | 'aa#' ; A -> 'a'"),
    ]
    .iter()
    .map(|(n, t)| (*n, G::dsl(t, &w)))
    .collect();
    for (name, g) in &grams {
        let alpha = ['a', 'b', '#', ' ', '\n', '(', ')'];
        for first in 0..alpha.len() {
            for second in 0..alpha.len() {
                ctx.case(|| format!("{} inputs starting {:?}{:?}", name, alpha[first], alpha[second]), |c| parse_cover_case(c, g, &alpha, &[alpha[first], alpha[second]], if ctx_thorough() { 5 } else { 3 }));
            }
        }
    }
}

fn parse_cover_case(c: &mut Case, gr: &G, alpha: &[char], prefix: &[char], depth: usize) {
    let mut list = vec![];
    strings(alpha, depth, &mut |s| {
        let mut v = prefix.to_vec();
        v.extend_from_slice(s);
        list.push(v)
    });
    parse_cover_list(c, gr, list)
}

fn parse_cover_list(c: &mut Case, gr: &G, list: Vec<Vec<char>>) {
    let bump = bumpalo::Bump::new();
    let g = &gr.to_text();
    let lalr = imp(|| {
        let ast: &[_] = bump.alloc(typelalr::parse_grammar(&bump, g));
        typelalr::lalr::Lalr::new(typelalr::parser::Grammar::grammar_from_ast_productions(&bump, ast))
    });
    let lalr = match lalr {
        Ok(l) => l,
        Err(p) => return c.fail("build panics", p),
    };
    let (sc, map) = gr.scanner();
    let mut memo: HashMap<Vec<usize>, bool> = HashMap::new();
    let mut stats: BTreeMap<&str, u64> = BTreeMap::new();
    for v in list {
        let t: String = v.iter().collect();
        let (toks, end) = sc.scan(&v);
        let whole = v[end..].iter().all(|x| is_blank(*x));
        let ids: Vec<usize> = toks.iter().map(|t| map[t.def]).collect();
        let sentence = *memo.entry(ids.clone()).or_insert_with(|| crate::earley::accepts(gr, &ids));
        let want = whole && sentence;
        let got = imp(|| lalr.parse(&t)).is_ok();
        c.eval(1);
        c.st.traces += 1;
        *stats.entry(if want { "accepted" } else if !whole && sentence { "rejected only because of an unscannable rest" } else { "rejected" }).or_insert(0) += 1;
        if got != want {
            return c.fail(format!("{:?}", t), format!("grammar\n{}input {:?}: expected {}, parser {}", g, t, if want { "accept" } else { "reject" }, if got { "accepts" } else { "rejects" }));
        }
        if !whole && sentence {
            c.nontrivial(&(g, &t));
        }
    }
    c.st.states += memo.len() as u64;
    c.st.transitions += stats.values().sum::<u64>();
    for (k, n) in stats {
        c.histn(k, n);
    }
}

// ------------------------------------------------------------------------------------------ C07

fn literal_case(c: &mut Case, lits: &[String]) {
    let mut g = String::from("export start S: (any) = [\n");
    for l in lits {
        g.push_str(&format!("  {} => (null),\n", quote(l)));
    }
    g.push_str("]\n");
    let mut ls = lits.to_vec();
    ls.sort();
    ls.dedup();
    let defs: Vec<TokDef> = ls.iter().map(|l| TokDef { name: l.clone(), with_val: true, re: text(l) }).collect();
    let sc = Scanner::new(defs.clone());
    let r = with_grammar(&g, |gr| {
        let syms: Vec<String> = gr.tokens().filter_map(|s| if let typelalr::parser::Symbol::StrLit(x) = s { Some(x.to_string()) } else { None }).collect();
        (syms, imp(|| Lex::from_grammar(gr)))
    });
    let (syms, lex) = match r {
        Ok((s, Ok(l))) => (s, l),
        Ok((_, Err(p))) | Err(p) => return c.fail("build panics", format!("{}: {}", g, p)),
    };
    if syms != ls {
        return c.fail("literal text", format!("grammar {} has literals {:?}, read as {:?}", g, ls, syms));
    }
    let alpha: Vec<char> = {
        let mut a: Vec<char> = lits.iter().flat_map(|l| l.chars()).collect();
        a.extend(['a', 'A', '.', '0', '\\']);
        a.sort();
        a.dedup();
        a.into_iter().filter(|c| !is_blank(*c)).collect()
    };
    let mut inputs: Vec<String> = lits.to_vec();
    let n = lits.iter().map(|l| l.chars().count()).max().unwrap_or(1);
    strings(&alpha, 2.min(n + 1), &mut |s| inputs.push(s.iter().collect()));
    for l in lits {
        let v: Vec<char> = l.chars().collect();
        for i in 0..v.len() {
            // every single-character edit
            let mut d = v.clone();
            d.remove(i);
            inputs.push(d.iter().collect());
            for a in &alpha {
                let mut s = v.clone();
                s[i] = *a;
                inputs.push(s.iter().collect());
                let mut s = v.clone();
                s.insert(i, *a);
                inputs.push(s.iter().collect());
            }
        }
        inputs.push(format!("{}{}", l, l));
        inputs.push(format!("{} {}", l, l));
        inputs.push(l.to_uppercase());
        inputs.push(l.to_lowercase());
    }
    for t in inputs {
        let v: Vec<char> = t.chars().collect();
        let want = expect_tokens(&sc, &v).0;
        let got = match imp(|| lex.lex(&t)) {
            Ok(g) => g,
            Err(p) => return c.fail(format!("panic on {:?}", t), p),
        };
        c.eval(1);
        c.st.traces += 1;
        c.st.transitions += 1;
        if got != want {
            return c.fail(format!("{:?}", t), format!("literals {:?} input {:?}: expected {:?}, got {:?}", lits, t, want, got));
        }
    }
    c.st.states += 1;
    c.nontrivial(lits);
    c.sample(|| format!("{:?}", lits));
}

pub fn c07(ctx: &mut Ctx) {
    let mut chars: Vec<char> = (0x21u8..0x7f).map(|b| b as char).collect();
    chars.extend(['é', '€', '😀', '\t', '\r', 'ß', '\u{0}', '\u{2028}']);
    ctx.family("all single characters and all pairs of characters");
    for a in &chars {
        ctx.case(|| format!("{:?}", a), |c| literal_case(c, &[a.to_string()]));
    }
    let inner: Vec<char> = chars.iter().copied().chain([' ', '\n']).collect();
    for a in &chars {
        for b in &inner {
            let interesting = |c: &char| !c.is_ascii_alphanumeric() || "aAbdDnsSwWtrxupP0z".contains(*c);
            if !ctx.thorough && !(interesting(a) && interesting(b)) {
                continue;
            }
            let s: String = [*a, *b].iter().collect();
            ctx.case(|| format!("{:?}", s), |c| literal_case(c, &[s.clone()]));
        }
    }
    ctx.family("triples over regex metacharacters");
    let meta: Vec<char> = if ctx.thorough { "\\.+*?()|[]{}^$#&-~a1\"/".chars().collect() } else { "\\.+*?()|[]{}^$-a\"".chars().collect() };
    for x in 0..meta.len().pow(3) {
        let s: String = [meta[x % meta.len()], meta[x / meta.len() % meta.len()], meta[x / meta.len() / meta.len()]].iter().collect();
        ctx.case(|| format!("{:?}", s), |c| literal_case(c, &[s.clone()]));
    }
    ctx.family("pairs of literals in one grammar");
    let words = ["a", "aa", "a.", "a+", "a*", "(", ")", "()", "[a]", "\\", "\\\\", "\"", "\\\"", ".", "..", "a|b", "^a", "a$", "{2}", "a{2}", "\\d", "\\n", "+", "++", "+=", "-", "--", "é", "éa", "a b", "#", "(?i)a", "//", "/*", "$", "${a}", "'", "`", "[^a]", "a-z", "EO", "\\u0041", "Ab", "aB"];
    for i in 0..words.len() {
        for j in i + 1..words.len() {
            let l = vec![words[i].to_string(), words[j].to_string()];
            ctx.case(|| format!("{:?}", l), |c| literal_case(c, &l));
        }
    }
    if ctx.thorough {
        ctx.family("triples of literals in one grammar");
        for i in 0..words.len() {
            for j in i + 1..words.len() {
                for k in j + 1..words.len() {
                    let l = vec![words[i].to_string(), words[j].to_string(), words[k].to_string()];
                    ctx.case(|| format!("{:?}", l), |c| literal_case(c, &l));
                }
            }
        }
    }
    ctx.family("long literals");
    for s in ["supercalifragilistic", "a+b*c?d|e(f)g[h]i{j}k^l$m.n\\o", "==========", "end-of-line;", "日本語テキスト", "\\\\\\\\\\\\", "\"\"\"\"\"", "<!-- -->"] {
        ctx.case(|| format!("{:?}", s), |c| literal_case(c, &[s.to_string(), s[..1.max(s.char_indices().nth(1).map(|x| x.0).unwrap_or(1))].to_string()]));
    }
}
