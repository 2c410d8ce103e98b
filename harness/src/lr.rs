//! Reference LALR(1) construction: the canonical LR(1) collection with states of equal core merged,
//! and, independently, LR(0) with lookaheads found by propagation; the two are compared.
use crate::gram::{Sym, G};
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// Production 0 is the augmented start, production i+1 is `g.prods[i]`.
pub type Core = BTreeSet<(usize, usize)>;
/// Terminals: 0 is the end of input, t+1 is terminal t
pub type Look = BTreeSet<usize>;
pub type State = BTreeMap<(usize, usize), Look>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Act {
    Shift(usize),
    Reduce(usize),
    Accept,
}

#[derive(Debug, Clone)]
pub struct Tables {
    pub states: Vec<State>,
    pub action: Vec<BTreeMap<usize, Act>>,
    pub goto: Vec<BTreeMap<usize, usize>>,
    /// (state, terminal, the actions)
    pub conflicts: Vec<(usize, usize, Vec<Act>)>,
}

pub struct Lr<'a> {
    g: &'a G,
    rhs: Vec<Vec<Sym>>,
    lhs: Vec<usize>,
    first: Vec<BTreeSet<usize>>,
}

/// FIRST of every nonterminal, by fixpoint (terminals numbered from 0)
pub fn first_sets(g: &G) -> Vec<BTreeSet<usize>> {
    let mut f = vec![BTreeSet::new(); g.nts.len()];
    loop {
        let mut ch = false;
        for p in &g.prods {
            let add: Vec<usize> = match p.rhs[0] {
                Sym::T(t) => vec![t],
                Sym::N(n) => f[n].iter().copied().collect(),
            };
            for t in add {
                ch |= f[p.lhs].insert(t);
            }
        }
        if !ch {
            return f;
        }
    }
}

impl<'a> Lr<'a> {
    pub fn new(g: &'a G) -> Self {
        let mut rhs = vec![vec![Sym::N(g.start)]];
        let mut lhs = vec![usize::MAX];
        for p in &g.prods {
            rhs.push(p.rhs.clone());
            lhs.push(p.lhs);
        }
        Lr { g, rhs, lhs, first: first_sets(g) }
    }

    fn closure1(&self, s: &mut State) {
        let mut todo: Vec<((usize, usize), usize)> = s.iter().flat_map(|(i, l)| l.iter().map(move |a| (*i, *a))).collect();
        while let Some(((p, d), a)) = todo.pop() {
            if let Some(Sym::N(n)) = self.rhs[p].get(d) {
                let look: Vec<usize> = match self.rhs[p].get(d + 1) {
                    None => vec![a],
                    Some(Sym::T(t)) => vec![t + 1],
                    Some(Sym::N(m)) => self.first[*m].iter().map(|t| t + 1).collect(),
                };
                for q in 1..self.rhs.len() {
                    if self.lhs[q] == *n {
                        for b in &look {
                            if s.entry((q, 0)).or_default().insert(*b) {
                                todo.push(((q, 0), *b));
                            }
                        }
                    }
                }
            }
        }
        s.retain(|_, l| !l.is_empty());
    }

    fn symbols(&self) -> Vec<Sym> {
        (0..self.g.terms.len()).map(Sym::T).chain((0..self.g.nts.len()).map(Sym::N)).collect()
    }

    /// Canonical LR(1) collection; None when it has more than `cap` states
    pub fn lr1(&self, cap: usize) -> Option<(Vec<State>, Vec<BTreeMap<Sym, usize>>)> {
        let mut s0: State = BTreeMap::new();
        s0.insert((0, 0), BTreeSet::from([0]));
        self.closure1(&mut s0);
        let mut states = vec![s0.clone()];
        let mut index: HashMap<State, usize> = HashMap::from([(s0, 0)]);
        let mut trans: Vec<BTreeMap<Sym, usize>> = vec![];
        let mut i = 0;
        while i < states.len() {
            let mut row = BTreeMap::new();
            for x in self.symbols() {
                let mut n: State = BTreeMap::new();
                for ((p, d), l) in &states[i] {
                    if self.rhs[*p].get(*d) == Some(&x) {
                        n.insert((*p, d + 1), l.clone());
                    }
                }
                if n.is_empty() {
                    continue;
                }
                self.closure1(&mut n);
                let k = match index.get(&n) {
                    Some(k) => *k,
                    None => {
                        states.push(n.clone());
                        index.insert(n, states.len() - 1);
                        states.len() - 1
                    }
                };
                row.insert(x, k);
            }
            trans.push(row);
            i += 1;
            if states.len() > cap {
                return None;
            }
        }
        Some((states, trans))
    }

    pub fn lalr_by_merging(&self, cap: usize) -> Option<(Vec<State>, Vec<BTreeMap<Sym, usize>>, usize)> {
        let (st, tr) = self.lr1(cap)?;
        let mut index: HashMap<Core, usize> = HashMap::new();
        let mut out: Vec<State> = vec![];
        let mut map = vec![];
        for s in &st {
            let core: Core = s.keys().copied().collect();
            let k = *index.entry(core).or_insert_with(|| {
                out.push(BTreeMap::new());
                out.len() - 1
            });
            for (i, l) in s {
                out[k].entry(*i).or_default().extend(l);
            }
            map.push(k);
        }
        let mut otr = vec![BTreeMap::new(); out.len()];
        for (i, row) in tr.iter().enumerate() {
            for (x, j) in row {
                otr[map[i]].insert(*x, map[*j]);
            }
        }
        let n = st.len();
        Some((out, otr, n))
    }

    /// LR(0) states with lookaheads propagated to a fixpoint
    pub fn lalr_by_propagation(&self) -> (Vec<State>, Vec<BTreeMap<Sym, usize>>) {
        let close0 = |c: &mut Core| loop {
            let mut add = vec![];
            for (p, d) in c.iter() {
                if let Some(Sym::N(n)) = self.rhs[*p].get(*d) {
                    for q in 1..self.rhs.len() {
                        if self.lhs[q] == *n && !c.contains(&(q, 0)) {
                            add.push((q, 0));
                        }
                    }
                }
            }
            if add.is_empty() {
                break;
            }
            c.extend(add);
        };
        let mut c0 = Core::from([(0, 0)]);
        close0(&mut c0);
        let mut cores = vec![c0.clone()];
        let mut index = HashMap::from([(c0, 0usize)]);
        let mut trans: Vec<BTreeMap<Sym, usize>> = vec![];
        let mut i = 0;
        while i < cores.len() {
            let mut row = BTreeMap::new();
            for x in self.symbols() {
                let mut n: Core = cores[i].iter().filter(|(p, d)| self.rhs[*p].get(*d) == Some(&x)).map(|(p, d)| (*p, d + 1)).collect();
                if n.is_empty() {
                    continue;
                }
                close0(&mut n);
                let k = *index.entry(n.clone()).or_insert_with(|| {
                    cores.push(n);
                    cores.len() - 1
                });
                row.insert(x, k);
            }
            trans.push(row);
            i += 1;
        }
        let mut st: Vec<State> = cores.iter().map(|c| c.iter().map(|i| (*i, Look::new())).collect()).collect();
        st[0].get_mut(&(0, 0)).unwrap().insert(0);
        loop {
            let mut ch = false;
            for i in 0..st.len() {
                let items: Vec<((usize, usize), Look)> = st[i].iter().map(|(a, b)| (*a, b.clone())).collect();
                for ((p, d), l) in items {
                    let x = match self.rhs[p].get(d) {
                        Some(x) => *x,
                        None => continue,
                    };
                    let k = trans[i][&x];
                    let t = st[k].get_mut(&(p, d + 1)).unwrap();
                    for a in &l {
                        ch |= t.insert(*a);
                    }
                    if let Sym::N(n) = x {
                        let look: Look = match self.rhs[p].get(d + 1) {
                            None => l.clone(),
                            Some(Sym::T(t)) => Look::from([t + 1]),
                            Some(Sym::N(m)) => self.first[*m].iter().map(|t| t + 1).collect(),
                        };
                        for q in 1..self.rhs.len() {
                            if self.lhs[q] == n {
                                let t = st[i].get_mut(&(q, 0)).unwrap();
                                for a in &look {
                                    ch |= t.insert(*a);
                                }
                            }
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        (st, trans)
    }

    pub fn tables(&self, st: Vec<State>, tr: Vec<BTreeMap<Sym, usize>>) -> Tables {
        let mut action = vec![];
        let mut goto = vec![];
        let mut conflicts = vec![];
        for (i, s) in st.iter().enumerate() {
            let mut cand: BTreeMap<usize, BTreeSet<Act>> = BTreeMap::new();
            let mut g = BTreeMap::new();
            for (x, j) in &tr[i] {
                match x {
                    Sym::T(t) => {
                        cand.entry(t + 1).or_default().insert(Act::Shift(*j));
                    }
                    Sym::N(n) => {
                        g.insert(*n, *j);
                    }
                }
            }
            for ((p, d), l) in s {
                if *d == self.rhs[*p].len() {
                    for a in l {
                        cand.entry(*a).or_default().insert(if *p == 0 { Act::Accept } else { Act::Reduce(*p) });
                    }
                }
            }
            let mut row = BTreeMap::new();
            for (a, v) in cand {
                if v.len() > 1 {
                    conflicts.push((i, a, v.iter().copied().collect()));
                }
                row.insert(a, *v.iter().next().unwrap());
            }
            action.push(row);
            goto.push(g);
        }
        Tables { states: st, action, goto, conflicts }
    }
}

/// Run the tables of a grammar without conflicts: is the sentence in the language?
pub fn accepts(g: &G, t: &Tables, w: &[usize]) -> bool {
    let mut stack = vec![0usize];
    let mut i = 0;
    loop {
        let a = w.get(i).map_or(0, |x| x + 1);
        match t.action[*stack.last().unwrap()].get(&a) {
            Some(Act::Shift(s)) => {
                stack.push(*s);
                i += 1;
            }
            Some(Act::Reduce(p)) => {
                let p = &g.prods[*p - 1];
                stack.truncate(stack.len() - p.rhs.len());
                stack.push(t.goto[*stack.last().unwrap()][&p.lhs]);
            }
            Some(Act::Accept) => return true,
            None => return false,
        }
    }
}

/// LALR(1) tables of a grammar. For grammars whose nonterminals all derive something the two
/// constructions are compared; a difference is an error of this reference.
pub fn lalr(g: &G, cap: usize) -> Option<Tables> {
    let lr = Lr::new(g);
    let (st, tr, _) = lr.lalr_by_merging(cap)?;
    let t = lr.tables(st, tr);
    if g.all_productive() {
        let (s2, t2) = lr.lalr_by_propagation();
        let u = lr.tables(s2, t2);
        let iso = isomorphic(&t, &u);
        assert!(iso.is_ok(), "reference constructions disagree on {}: {:?}", g.short(), iso);
        assert_eq!(t.conflicts.len(), u.conflicts.len());
    }
    Some(t)
}

/// Same tables up to renumbering of states
pub fn isomorphic(a: &Tables, b: &Tables) -> Result<usize, String> {
    let mut map = BTreeMap::from([(0usize, 0usize)]);
    let mut back = BTreeMap::from([(0usize, 0usize)]);
    let mut todo = vec![0usize];
    let mut n = 0;
    while let Some(i) = todo.pop() {
        let j = map[&i];
        let (ra, rb) = (&a.action[i], &b.action[j]);
        let keys: BTreeSet<&usize> = ra.keys().chain(rb.keys()).collect();
        let mut pairs = vec![];
        for k in keys {
            n += 1;
            match (ra.get(k), rb.get(k)) {
                (Some(Act::Shift(x)), Some(Act::Shift(y))) => pairs.push((*x, *y)),
                (x, y) if x == y => (),
                (x, y) => return Err(format!("state {}/{} terminal {}: {:?} / {:?}", i, j, k, x, y)),
            }
        }
        let (ga, gb) = (&a.goto[i], &b.goto[j]);
        let keys: BTreeSet<&usize> = ga.keys().chain(gb.keys()).collect();
        for k in keys {
            n += 1;
            match (ga.get(k), gb.get(k)) {
                (Some(x), Some(y)) => pairs.push((*x, *y)),
                (x, y) => return Err(format!("state {}/{} goto of nonterminal {}: {:?} / {:?}", i, j, k, x, y)),
            }
        }
        for (x, y) in pairs {
            if y >= b.action.len() || x >= a.action.len() {
                return Err(format!("state {}/{} leads to a missing state", i, j));
            }
            match (map.get(&x), back.get(&y)) {
                (None, None) => {
                    map.insert(x, y);
                    back.insert(y, x);
                    todo.push(x);
                }
                (Some(p), Some(q)) if *p == y && *q == x => (),
                _ => return Err(format!("states {} and {} reached together but paired otherwise", x, y)),
            }
        }
    }
    if map.len() != a.action.len() || map.len() != b.action.len() {
        return Err(format!("{} states are paired, but there are {} and {}", map.len(), a.action.len(), b.action.len()));
    }
    Ok(n)
}
