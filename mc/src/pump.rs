//! Loops of the grammar's derivation graph: pre alpha^n core beta^n suf is a sentence for every n.
use crate::exec::{Entry, Model};
use crate::grammar::{Sym, N, T};
use crate::space::Cover;
use std::collections::HashSet;

#[derive(Clone, Debug)]
pub struct Pump {
    pub entry: Entry,
    /// the nonterminal that embeds itself
    pub n: N,
    pub pre: Vec<T>,
    pub alpha: Vec<T>,
    pub core: Vec<T>,
    pub beta: Vec<T>,
    pub suf: Vec<T>,
    pub name: String,
}

impl Pump {
    pub fn at(&self, d: usize) -> Vec<T> {
        self.mixed(d, &[])
    }
    /// d rounds, taking this pump and then the others (of the same nonterminal) in turn
    pub fn mixed(&self, d: usize, others: &[&Pump]) -> Vec<T> {
        let mut v = self.pre.clone();
        let pick = |i: usize| if i % (others.len() + 1) == 0 { self } else { others[i % (others.len() + 1) - 1] };
        for i in 0..d {
            v.extend(&pick(i).alpha);
        }
        v.extend(&self.core);
        for i in (0..d).rev() {
            v.extend(&pick(i).beta);
        }
        v.extend(&self.suf);
        v
    }
    /// the first part only: everything up to and including the innermost opening
    pub fn open(&self, d: usize, others: &[&Pump]) -> Vec<T> {
        let mut v = self.pre.clone();
        let pick = |i: usize| if i % (others.len() + 1) == 0 { self } else { others[i % (others.len() + 1) - 1] };
        for i in 0..d {
            v.extend(&pick(i).alpha);
        }
        v
    }
    pub fn close(&self, d: usize, others: &[&Pump]) -> Vec<T> {
        let mut v = vec![];
        let pick = |i: usize| if i % (others.len() + 1) == 0 { self } else { others[i % (others.len() + 1) - 1] };
        for i in (0..d).rev() {
            v.extend(&pick(i).beta);
        }
        v.extend(&self.suf);
        v
    }
    pub fn nests(&self) -> bool {
        !self.alpha.is_empty() && !self.beta.is_empty()
    }
}

struct Edges {
    /// edges[n] = (child, left part, right part)
    e: Vec<Vec<(N, Vec<T>, Vec<T>)>>,
}

fn edges(m: &Model, cv: &Cover) -> Edges {
    let g = &m.g;
    let mut e = vec![vec![]; g.nts.len()];
    for n in 0..g.nts.len() {
        for p in &g.prods[n] {
            for (i, s) in p.iter().enumerate() {
                if let Sym::N(k) = s {
                    let mut l = vec![];
                    for x in &p[..i] {
                        cv.ext(&mut l, *x);
                    }
                    let mut r = vec![];
                    for x in &p[i + 1..] {
                        cv.ext(&mut r, *x);
                    }
                    e[n].push((*k, l, r));
                }
            }
        }
    }
    Edges { e }
}

/// shortest (left, right) embedding of `to` in every nonterminal
fn embed(ed: &Edges, to: N) -> Vec<Option<(Vec<T>, Vec<T>)>> {
    let nn = ed.e.len();
    let mut best: Vec<Option<(Vec<T>, Vec<T>)>> = vec![None; nn];
    best[to as usize] = Some((vec![], vec![]));
    loop {
        let mut ch = false;
        for n in 0..nn {
            for (k, l, r) in &ed.e[n] {
                if let Some((a, b)) = &best[*k as usize] {
                    let len = l.len() + r.len() + a.len() + b.len();
                    if best[n].as_ref().map_or(true, |(x, y)| x.len() + y.len() > len) {
                        let mut x = l.clone();
                        x.extend(a);
                        let mut y = b.clone();
                        y.extend(r);
                        best[n] = Some((x, y));
                        ch = true;
                    }
                }
            }
        }
        if !ch {
            return best;
        }
    }
}

/// For every edge of the derivation graph that lies on a cycle, the shortest cycle through it, anchored at its source
/// (`hub` = None) or at the given nonterminal.
pub fn pumps(m: &Model, cv: &Cover, entry: Entry, hub: Option<N>) -> Vec<Pump> {
    let ed = edges(m, cv);
    let g = &m.g;
    let mut seen = HashSet::new();
    let mut out = vec![];
    let mut add = |n: N, a: Vec<T>, b: Vec<T>, via: N| {
        if a.is_empty() && b.is_empty() {
            return;
        }
        let (pre, suf) = match cv.context(n) {
            Some(c) => c.clone(),
            None => return,
        };
        let core = cv.shortest(n).clone();
        if seen.insert((pre.clone(), a.clone(), b.clone(), suf.clone(), core.clone())) {
            out.push(Pump { entry, n, pre, alpha: a, core, beta: b, suf, name: format!("{} via {}", g.nts[n as usize], g.nts[via as usize]) });
        }
    };
    match hub {
        None => {
            for n in 0..g.nts.len() {
                let to = embed(&ed, n as N);
                for (k, l, r) in &ed.e[n] {
                    if let Some((a, b)) = &to[*k as usize] {
                        let mut x = l.clone();
                        x.extend(a);
                        let mut y = b.clone();
                        y.extend(r);
                        add(n as N, x, y, *k);
                    }
                }
            }
        }
        Some(h) => {
            let to = embed(&ed, h);
            for s in 0..g.nts.len() {
                // from the hub down to s, through the edge, and back to the hub
                let down = match &embed(&ed, s as N)[h as usize] {
                    Some(d) => d.clone(),
                    None => continue,
                };
                for (k, l, r) in &ed.e[s] {
                    if let Some((a, b)) = &to[*k as usize] {
                        let mut x = down.0.clone();
                        x.extend(l);
                        x.extend(a);
                        let mut y = b.clone();
                        y.extend(r);
                        y.extend(&down.1);
                        add(h, x, y, *k);
                    }
                }
            }
        }
    }
    out.sort_by_key(|p| p.alpha.len() + p.beta.len());
    out
}
