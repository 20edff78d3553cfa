//! Interplay: every three choices of the grammar in one sentence.
use crate::exec::{Entry, Model};
use crate::grammar::{mix, BuildId, Sym, N, T};
use crate::pairs::Reach;
use std::collections::HashSet;

type Form = Vec<Sym>;

pub struct Triples<'m> {
    m: &'m Model,
    r: Reach<'m>,
    /// choices that count
    home: Vec<bool>,
    /// how many of the three belong to `home`
    need: u32,
    /// what stands around a nonterminal in the shortest sentence with it
    ctx: Vec<Option<(Form, Form)>>,
    pub extra: u32,
    pub placements: u64,
    arena: Vec<T>,
    ends: Vec<u32>,
}

impl<'m> Triples<'m> {
    /// All triples of choices of which at least `need` belong to the rules of `home`,
    /// at most `extra` tokens above the shortest sentence of the place where the first two meet.
    pub fn new(m: &'m Model, entry: Entry, home: &[&str], need: u32, cap: u64, max_extra: u32) -> Triples<'m> {
        let r = Reach::new(m, entry);
        for h in home {
            assert!(m.g.nt_id.contains_key(*h), "no rule {}", h);
        }
        let hv: Vec<bool> = r.choices.iter().map(|c| home.is_empty() || home.contains(&r.owner(c.0))).collect();
        let ctx = contexts(m, &r, entry);
        let mut s = Triples { m, r, home: hv, need, ctx, extra: 0, placements: 0, arena: vec![], ends: vec![] };
        for extra in 0..=max_extra {
            let mut seen: HashSet<u64, BuildId> = HashSet::default();
            let (mut arena, mut ends, mut n) = (vec![], vec![], 0u64);
            let whole = s.visit(extra, &mut |v| {
                n += 1;
                let h = v.iter().fold(v.len() as u64, |h, t| mix(h, *t as u64));
                if seen.insert(h) {
                    arena.extend_from_slice(v);
                    ends.push(arena.len() as u32);
                }
                // placements repeat sentences: bound the work, too
                ends.len() as u64 <= cap && n <= cap * 40
            });
            if !whole && extra > 0 {
                break;
            }
            s.extra = extra;
            s.placements = n;
            s.arena = arena;
            s.ends = ends;
            if !whole {
                break;
            }
        }
        s
    }
    pub fn len(&self) -> usize {
        self.ends.len()
    }
    pub fn get(&self, i: usize) -> &[T] {
        let lo = if i == 0 { 0 } else { self.ends[i - 1] as usize };
        &self.arena[lo..self.ends[i] as usize]
    }
    /// the sentential form of `n` with choice `c` in it, everything else unexpanded
    fn put(&self, c: usize, n: N, out: &mut Form) {
        let (cn, cp) = self.r.choices[c];
        if n == cn {
            out.extend(&self.m.g.prods[cn as usize][cp]);
            return;
        }
        let (pi, i) = self.r.via(c, n);
        let p = &self.m.g.prods[n as usize][pi];
        out.extend(&p[..i]);
        if let Sym::N(k) = p[i] {
            self.put(c, k, out);
        }
        out.extend(&p[i + 1..]);
    }
    fn visit(&self, extra: u32, f: &mut dyn FnMut(&[T]) -> bool) -> bool {
        let g = &self.m.g;
        let nc = self.r.choices.len();
        let mut forms: HashSet<u64, BuildId> = HashSet::default();
        let mut form: Form = vec![];
        let mut v: Vec<T> = vec![];
        for n in 0..g.nts.len() {
            let (pre, suf) = match &self.ctx[n] {
                Some(x) => x,
                None => continue,
            };
            for (pi, p) in g.prods[n].iter().enumerate() {
                for i in 0..p.len() {
                    let x = match p[i] {
                        Sym::N(x) => x,
                        _ => continue,
                    };
                    // side by side
                    for j in i + 1..p.len() {
                        let y = match p[j] {
                            Sym::N(y) => y,
                            _ => continue,
                        };
                        for c in 0..nc {
                            let a = self.r.cost(c, x);
                            if a > extra {
                                continue;
                            }
                            for d in 0..nc {
                                let b = self.r.cost(d, y);
                                let h = self.home[c] as u32 + self.home[d] as u32;
                                if a + b > extra || h + 1 < self.need {
                                    continue;
                                }
                                form.clear();
                                form.extend(pre);
                                form.extend(&p[..i]);
                                self.put(c, x, &mut form);
                                form.extend(&p[i + 1..j]);
                                self.put(d, y, &mut form);
                                form.extend(&p[j + 1..]);
                                form.extend(suf);
                                if forms.insert(hash(&form, extra - a - b, h)) && !self.third(&form, extra - a - b, h, &mut v, f) {
                                    return false;
                                }
                            }
                        }
                    }
                    // one below the other
                    if let Some(c) = self.r.choices.iter().position(|c| *c == (n as N, pi)) {
                        for d in 0..nc {
                            let b = self.r.cost(d, x);
                            let h = self.home[c] as u32 + self.home[d] as u32;
                            if b > extra || h + 1 < self.need {
                                continue;
                            }
                            form.clear();
                            form.extend(pre);
                            form.extend(&p[..i]);
                            self.put(d, x, &mut form);
                            form.extend(&p[i + 1..]);
                            form.extend(suf);
                            if forms.insert(hash(&form, extra - b, h)) && !self.third(&form, extra - b, h, &mut v, f) {
                                return false;
                            }
                        }
                    }
                }
            }
        }
        true
    }
    /// every third choice below every nonterminal of the form
    fn third(&self, form: &[Sym], rest: u32, h: u32, v: &mut Vec<T>, f: &mut dyn FnMut(&[T]) -> bool) -> bool {
        for (i, s) in form.iter().enumerate() {
            let x = match s {
                Sym::N(x) => *x,
                _ => continue,
            };
            for e in 0..self.r.choices.len() {
                if self.r.cost(e, x) > rest || h + (self.home[e] as u32) < self.need {
                    continue;
                }
                v.clear();
                for s in &form[..i] {
                    self.r.cover.ext(v, *s);
                }
                self.r.put(e, x, v);
                for s in &form[i + 1..] {
                    self.r.cover.ext(v, *s);
                }
                if !f(v) {
                    return false;
                }
            }
        }
        true
    }
}

fn hash(form: &[Sym], rest: u32, h: u32) -> u64 {
    form.iter().fold(mix(rest as u64, h as u64), |a, s| match s {
        Sym::T(t) => mix(a, *t as u64),
        Sym::N(n) => mix(a, 0x10000 + *n as u64),
    })
}

fn contexts(m: &Model, r: &Reach, entry: Entry) -> Vec<Option<(Form, Form)>> {
    let g = &m.g;
    let len = |f: &[Sym]| -> usize {
        f.iter()
            .map(|s| match s {
                Sym::T(_) => 1,
                Sym::N(n) => r.cover.shortest(*n).len(),
            })
            .sum()
    };
    let mut ctx: Vec<Option<(Form, Form)>> = vec![None; g.nts.len()];
    ctx[m.start(entry) as usize] = Some((vec![], vec![]));
    loop {
        let mut ch = false;
        for n in 0..g.nts.len() {
            if let Some((a, b)) = ctx[n].clone() {
                for p in &g.prods[n] {
                    for (i, s) in p.iter().enumerate() {
                        if let Sym::N(k) = s {
                            let mut pre = a.clone();
                            pre.extend(&p[..i]);
                            let mut suf = p[i + 1..].to_vec();
                            suf.extend(&b);
                            let better = match &ctx[*k as usize] {
                                None => true,
                                Some((x, y)) => len(x) + len(y) > len(&pre) + len(&suf),
                            };
                            if better {
                                ctx[*k as usize] = Some((pre, suf));
                                ch = true;
                            }
                        }
                    }
                }
            }
        }
        if !ch {
            return ctx;
        }
    }
}
