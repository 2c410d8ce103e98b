//! Earley recognition: reference for membership and for viable prefixes. The grammars have no empty
//! alternatives.
use crate::gram::{Sym, G};
use std::collections::BTreeSet;

pub type Item = (usize, usize, usize); // production, dot, origin

pub struct Earley<'a> {
    g: &'a G,
    productive: Vec<bool>,
    pub sets: Vec<BTreeSet<Item>>,
}

impl<'a> Earley<'a> {
    pub fn new(g: &'a G) -> Self {
        let productive = g.productive();
        let mut e = Earley { g, productive, sets: vec![] };
        let mut s = BTreeSet::new();
        if e.productive[g.start] {
            e.predict(g.start, 0, &mut s);
        }
        e.sets.push(BTreeSet::new());
        e.close(0, s);
        e
    }

    fn usable(&self, p: usize) -> bool {
        self.g.prods[p].rhs.iter().all(|s| if let Sym::N(n) = s { self.productive[*n] } else { true })
    }

    fn predict(&self, n: usize, at: usize, s: &mut BTreeSet<Item>) {
        for (i, p) in self.g.prods.iter().enumerate() {
            if p.lhs == n && self.usable(i) {
                s.insert((i, 0, at));
            }
        }
    }

    fn close(&mut self, at: usize, init: BTreeSet<Item>) {
        let mut todo: Vec<Item> = init.into_iter().collect();
        while let Some(it) = todo.pop() {
            if !self.sets[at].insert(it) {
                continue;
            }
            let p = &self.g.prods[it.0];
            match p.rhs.get(it.1) {
                None => {
                    for (q, d, o) in self.sets[it.2].clone() {
                        if self.g.prods[q].rhs.get(d) == Some(&Sym::N(p.lhs)) {
                            todo.push((q, d + 1, o));
                        }
                    }
                }
                Some(Sym::N(n)) => {
                    let mut s = BTreeSet::new();
                    self.predict(*n, at, &mut s);
                    todo.extend(s);
                }
                Some(Sym::T(_)) => (),
            }
        }
    }

    /// Read a terminal; false when no sentence continues like that (the set is then empty)
    pub fn push(&mut self, t: usize) -> bool {
        let at = self.sets.len();
        let s: BTreeSet<Item> = self.sets[at - 1].iter().filter(|(p, d, _)| self.g.prods[*p].rhs.get(*d) == Some(&Sym::T(t))).map(|(p, d, o)| (*p, *d + 1, *o)).collect();
        let ok = !s.is_empty();
        self.sets.push(BTreeSet::new());
        self.close(at, s);
        ok
    }

    pub fn pop(&mut self) {
        self.sets.pop();
    }

    pub fn accepts(&self) -> bool {
        self.sets.len() > 1
            && self.sets.last().unwrap().iter().any(|(p, d, o)| *o == 0 && self.g.prods[*p].lhs == self.g.start && *d == self.g.prods[*p].rhs.len())
    }

    /// Terminals that can come next
    pub fn next(&self) -> BTreeSet<usize> {
        self.sets.last().unwrap().iter().filter_map(|(p, d, _)| if let Some(Sym::T(t)) = self.g.prods[*p].rhs.get(*d) { Some(*t) } else { None }).collect()
    }
}

pub fn accepts(g: &G, w: &[usize]) -> bool {
    let mut e = Earley::new(g);
    for t in w {
        if !e.push(*t) {
            return false;
        }
    }
    e.accepts()
}
