//! Interplay: every two choices of the grammar in one sentence.
use crate::exec::{Entry, Model};
use crate::grammar::{mix, BuildId, Sym, N, T};
use crate::space::Cover;
use std::collections::{HashSet, VecDeque};

const INF: u32 = 1 << 20;

/// A choice: production `p` of the nonterminal `n`.
pub type Choice = (N, usize);

pub struct Reach<'m> {
    m: &'m Model,
    pub cover: Cover<'m>,
    pub choices: Vec<Choice>,
    /// cost[c][n]: how many tokens more than the shortest yield n needs to contain choice c
    cost: Vec<Vec<u32>>,
    /// via[c][n]: production and position taken
    via: Vec<Vec<(u16, u16)>>,
}

impl<'m> Reach<'m> {
    pub fn new(m: &'m Model, entry: Entry) -> Reach<'m> {
        let g = &m.g;
        let cover = Cover::new(m, entry);
        let nn = g.nts.len();
        let len = |s: &Sym| match s {
            Sym::T(_) => 1,
            Sym::N(k) => cover.shortest(*k).len() as u32,
        };
        let plen: Vec<Vec<u32>> = g.prods.iter().map(|ps| ps.iter().map(|p| p.iter().map(len).sum()).collect()).collect();
        let mut choices: Vec<Choice> = vec![];
        for n in 0..nn {
            // bodies of loops have one production only: the loop is the choice
            if g.prods[n].len() > 1 && cover.context(n as N).is_some() {
                for p in 0..g.prods[n].len() {
                    choices.push((n as N, p));
                }
            }
        }
        // who uses n: (nonterminal, production, position)
        let mut users: Vec<Vec<(usize, usize, usize)>> = vec![vec![]; nn];
        for n in 0..nn {
            for (pi, p) in g.prods[n].iter().enumerate() {
                for (i, s) in p.iter().enumerate() {
                    if let Sym::N(k) = s {
                        users[*k as usize].push((n, pi, i));
                    }
                }
            }
        }
        let (mut cost, mut via) = (vec![], vec![]);
        for &(cn, cp) in &choices {
            let mut d = vec![INF; nn];
            let mut v = vec![(u16::MAX, 0u16); nn];
            // absolute lengths, relaxed until stable
            d[cn as usize] = plen[cn as usize][cp];
            let mut q = VecDeque::from([cn as usize]);
            while let Some(n) = q.pop_front() {
                for &(u, pi, i) in &users[n] {
                    let l = plen[u][pi] - len(&Sym::N(n as N)) + d[n];
                    if l < d[u] {
                        d[u] = l;
                        v[u] = (pi as u16, i as u16);
                        q.push_back(u);
                    }
                }
            }
            // n itself: the choice at its top unless a longer way is all there is
            v[cn as usize] = (u16::MAX, 0);
            for n in 0..nn {
                if d[n] < INF {
                    d[n] = d[n].saturating_sub(cover.shortest(n as N).len() as u32);
                }
            }
            cost.push(d);
            via.push(v);
        }
        Reach { m, cover, choices, cost, via }
    }
    pub fn cost(&self, c: usize, n: N) -> u32 {
        self.cost[c][n as usize]
    }
    /// shortest yield of n with choice c in it
    pub fn put(&self, c: usize, n: N, out: &mut Vec<T>) {
        self.put_with(c, n, out, &mut |s, p, out| {
            for x in p {
                s.cover.ext(out, *x);
            }
        })
    }
    /// as `put`, with the production of the choice written by `f`
    fn put_with(&self, c: usize, n: N, out: &mut Vec<T>, f: &mut dyn FnMut(&Self, &[Sym], &mut Vec<T>)) {
        let (cn, cp) = self.choices[c];
        if n == cn {
            return f(self, &self.m.g.prods[cn as usize][cp], out);
        }
        let (pi, i) = self.via[c][n as usize];
        let p = &self.m.g.prods[n as usize][pi as usize];
        for x in &p[..i as usize] {
            self.cover.ext(out, *x);
        }
        if let Sym::N(k) = p[i as usize] {
            self.put_with(c, k, out, f);
        }
        for x in &p[i as usize + 1..] {
            self.cover.ext(out, *x);
        }
    }
    /// the production and position by which `n` leads to choice `c`
    pub fn via(&self, c: usize, n: N) -> (usize, usize) {
        let (p, i) = self.via[c][n as usize];
        (p as usize, i as usize)
    }
    pub fn owner(&self, n: N) -> &str {
        self.m.g.nts[n as usize].split('~').next().unwrap()
    }
}

/// Where two choices meet: in two children of one production, or one below a child of the other.
#[derive(Clone)]
enum Meet {
    /// production p of n, children i < j
    Side(N, usize, usize, usize),
    /// choice c, its child i
    Below(usize, usize),
}

pub struct Pairs<'m> {
    pub r: Reach<'m>,
    meets: Vec<Meet>,
    /// choices that count
    home: Vec<bool>,
    pub extra: u32,
    /// placements, and the distinct sentences they give
    pub placements: u64,
    arena: Vec<T>,
    ends: Vec<u32>,
}

impl<'m> Pairs<'m> {
    /// All pairs of choices of which at least one belongs to the rules of `home` (all when empty),
    /// at most `extra` tokens above the shortest sentence of the place where they meet.
    pub fn new(m: &'m Model, entry: Entry, home: &[&str], cap: u64) -> Pairs<'m> {
        let r = Reach::new(m, entry);
        for h in home {
            assert!(m.g.nt_id.contains_key(*h), "no rule {}", h);
        }
        let hv: Vec<bool> = r.choices.iter().map(|c| home.is_empty() || home.contains(&r.owner(c.0))).collect();
        let g = &m.g;
        let mut meets = vec![];
        for n in 0..g.nts.len() {
            if r.cover.context(n as N).is_none() {
                continue;
            }
            for (pi, p) in g.prods[n].iter().enumerate() {
                for i in 0..p.len() {
                    for j in i + 1..p.len() {
                        if matches!(p[i], Sym::N(_)) && matches!(p[j], Sym::N(_)) {
                            meets.push(Meet::Side(n as N, pi, i, j));
                        }
                    }
                }
            }
        }
        for c in 0..r.choices.len() {
            let (n, pi) = r.choices[c];
            for (i, s) in g.prods[n as usize][pi].iter().enumerate() {
                if matches!(s, Sym::N(_)) {
                    meets.push(Meet::Below(c, i));
                }
            }
        }
        let mut s = Pairs { r, meets, home: hv, extra: 0, placements: 0, arena: vec![], ends: vec![] };
        for extra in 0..24 {
            let mut seen: HashSet<u64, BuildId> = HashSet::default();
            let (mut arena, mut ends, mut n) = (vec![], vec![], 0u64);
            let mut over = false;
            'all: for k in 0..s.meets.len() {
                for c in 0..s.r.choices.len() {
                    s.visit(k, c, extra, &mut |v| {
                        n += 1;
                        let h = v.iter().fold(v.len() as u64, |h, t| mix(h, *t as u64));
                        if seen.insert(h) {
                            arena.extend_from_slice(v);
                            ends.push(arena.len() as u32);
                        }
                    });
                    if ends.len() as u64 > cap && extra > 0 {
                        over = true;
                        break 'all;
                    }
                }
            }
            if over {
                break;
            }
            s.extra = extra;
            s.placements = n;
            s.arena = arena;
            s.ends = ends;
        }
        s
    }
    pub fn len(&self) -> usize {
        self.ends.len()
    }
    pub fn get(&self, i: usize) -> &[T] {
        let lo = if i == 0 { 0 } else { self.ends[i - 1] as usize };
        &self.arena[lo..self.ends[i] as usize]
    }
    fn kid(&self, n: N, pi: usize, i: usize) -> N {
        match self.r.m.g.prods[n as usize][pi][i] {
            Sym::N(k) => k,
            _ => unreachable!(),
        }
    }
    /// the sentences with choice `c` first at meeting point `k`
    fn visit(&self, k: usize, c: usize, extra: u32, f: &mut dyn FnMut(&[T])) {
        let mut v: Vec<T> = vec![];
        match self.meets[k] {
            Meet::Side(n, pi, i, j) => {
                let p = &self.r.m.g.prods[n as usize][pi];
                let (x, y) = (self.kid(n, pi, i), self.kid(n, pi, j));
                let (pre, suf) = self.r.cover.context(n).unwrap();
                let a = self.r.cost(c, x);
                if a > extra {
                    return;
                }
                for d in 0..self.r.choices.len() {
                    if !(self.home[c] || self.home[d]) || self.r.cost(d, y) > extra - a {
                        continue;
                    }
                    v.clear();
                    v.extend(pre);
                    for (q, s) in p.iter().enumerate() {
                        if q == i {
                            self.r.put(c, x, &mut v);
                        } else if q == j {
                            self.r.put(d, y, &mut v);
                        } else {
                            self.r.cover.ext(&mut v, *s);
                        }
                    }
                    v.extend(suf);
                    f(&v);
                }
            }
            Meet::Below(own, i) => {
                if own != c {
                    return;
                }
                let (n, pi) = self.r.choices[c];
                let p = &self.r.m.g.prods[n as usize][pi];
                let x = self.kid(n, pi, i);
                let (pre, suf) = self.r.cover.context(n).unwrap();
                for d in 0..self.r.choices.len() {
                    if !(self.home[c] || self.home[d]) || self.r.cost(d, x) > extra {
                        continue;
                    }
                    v.clear();
                    v.extend(pre);
                    for (q, s) in p.iter().enumerate() {
                        if q == i {
                            self.r.put(d, x, &mut v);
                        } else {
                            self.r.cover.ext(&mut v, *s);
                        }
                    }
                    v.extend(suf);
                    f(&v);
                }
            }
        }
    }
}
