//! Enumeration of the automaton: all token sequences up to a length from a sentential form.
use crate::exec::{Entry, Model};
use crate::grammar::{Sym, N, T};
use std::collections::{BTreeMap, HashMap};

#[derive(Clone)]
pub struct Spec {
    pub entry: Entry,
    pub form: Vec<Sym>,
    pub ov: BTreeMap<N, Vec<Vec<Sym>>>,
    pub forbid: Vec<bool>,
}

pub fn sym(m: &Model, s: &str) -> Sym {
    if let Some(&n) = m.g.nt_id.get(s) {
        Sym::N(n)
    } else {
        Sym::T(term(m, s))
    }
}
pub fn term(m: &Model, s: &str) -> T {
    let s = match s {
        "INSERT_DATA" => "INSERT DATA",
        "DELETE_DATA" => "DELETE DATA",
        "DELETE_WHERE" => "DELETE WHERE",
        s => s,
    };
    m.g.t(s)
}
pub fn terms(m: &Model, s: &str) -> Vec<T> {
    s.split_whitespace().map(|x| term(m, x)).collect()
}
pub fn syms(m: &Model, s: &str) -> Vec<Sym> {
    s.split_whitespace().map(|x| sym(m, x)).collect()
}

/// Left-factors alternatives that start alike.
fn factor(m: &Model, alts: Vec<Vec<Sym>>, ov: &mut BTreeMap<N, Vec<Vec<Sym>>>) -> Vec<Vec<Sym>> {
    let mut groups: Vec<(Option<Sym>, Vec<Vec<Sym>>)> = vec![];
    for a in alts {
        let (h, t) = match a.split_first() {
            None => (None, vec![]),
            Some((h, t)) => (Some(*h), t.to_vec()),
        };
        match groups.iter_mut().find(|g| g.0 == h) {
            Some(g) => g.1.push(t),
            None => groups.push((h, vec![t])),
        }
    }
    let mut res = vec![];
    for (h, mut ts) in groups {
        let mut p: Vec<Sym> = h.into_iter().collect();
        if ts.len() == 1 {
            p.extend(ts.pop().unwrap());
        } else if h.is_some() {
            let f = factor(m, ts, ov);
            let id = ov.keys().next_back().map_or(0, |n| n + 1).max(m.g.nts.len() as N);
            ov.insert(id, f);
            p.push(Sym::N(id));
        }
        res.push(p);
    }
    res
}

impl Spec {
    /// `form`: blank separated names of rules and terminals.
    /// `stubs`: "Rule=T T|T T" entries separated by ';': the rule only yields these token strings.
    pub fn new(m: &Model, entry: Entry, form: &str, stubs: &str) -> Spec {
        let mut ov = BTreeMap::new();
        for st in stubs.split(" ; ").map(|s| s.trim()).filter(|s| !s.is_empty()) {
            let (n, alts) = st.split_once('=').unwrap();
            let alts: Vec<Vec<Sym>> = alts.split(" / ").map(|a| terms(m, a).into_iter().map(Sym::T).collect()).collect();
            let alts = factor(m, alts, &mut ov);
            ov.insert(m.g.nt(n), alts);
        }
        Spec { entry, form: syms(m, form), ov, forbid: vec![false; m.g.terms.len()] }
    }
    pub fn forbid(mut self, m: &Model, s: &str) -> Spec {
        for t in terms(m, s) {
            self.forbid[t as usize] = true;
        }
        self
    }
}

struct Conf {
    stack: Vec<Sym>,
    min: usize,
    next: Option<Vec<(T, u32)>>,
}

pub struct Space<'m> {
    m: &'m Model,
    pub spec: Spec,
    min: Vec<usize>,
    confs: Vec<Conf>,
    ids: HashMap<Vec<Sym>, u32>,
    /// (configuration, remaining tokens) -> number of sentences
    memo: HashMap<(u32, u16), u64>,
    pub len: usize,
    pub total: u64,
}

impl<'m> Space<'m> {
    /// The largest length bound (at most `max_len`) that keeps the number of sentences within `cap`.
    pub fn new(m: &'m Model, spec: Spec, cap: u64, max_len: usize) -> Space<'m> {
        let fb = spec.forbid.clone();
        let min = m.g.min_len(&|t| !fb[t as usize], &spec.ov);
        let mut s = Space { m, spec, min, confs: vec![], ids: HashMap::new(), memo: HashMap::new(), len: 0, total: 0 };
        let start: Vec<Sym> = s.spec.form.iter().rev().cloned().collect();
        let start = s.intern(start);
        assert_eq!(start, 0);
        let lo = s.confs[0].min;
        assert!(lo < 1000, "form has no sentence");
        s.len = lo;
        s.total = s.count(0, lo as u16);
        let mut l = lo + 1;
        while l <= max_len {
            let c = s.count(0, l as u16);
            if c > cap {
                break;
            }
            s.len = l;
            s.total = c;
            // stop when longer bounds add nothing
            if l > lo + 60 {
                break;
            }
            l += 1;
        }
        s
    }
    fn intern(&mut self, st: Vec<Sym>) -> u32 {
        if let Some(&i) = self.ids.get(&st) {
            return i;
        }
        let min = st.iter().map(|s| self.min_sym(*s)).sum();
        let i = self.confs.len() as u32;
        self.ids.insert(st.clone(), i);
        self.confs.push(Conf { stack: st, min, next: None });
        i
    }
    fn min_sym(&self, s: Sym) -> usize {
        match s {
            Sym::T(_) => 1,
            Sym::N(n) => self.min[n as usize],
        }
    }
    pub fn step(&self, st: &[Sym], t: T) -> Option<Vec<Sym>> {
        let mut st = st.to_vec();
        let mut from_form = true;
        loop {
            match st.pop()? {
                Sym::T(u) => {
                    return if u == t && (from_form || !self.spec.forbid[t as usize]) { Some(st) } else { None };
                }
                Sym::N(n) => {
                    if let Some(alts) = self.spec.ov.get(&n) {
                        let a = alts.iter().find(|a| a.first() == Some(&Sym::T(t)));
                        match a {
                            Some(a) => {
                                st.extend(a.iter().rev());
                                from_form = true;
                            }
                            None if alts.iter().any(|a| a.is_empty()) => {}
                            None => return None,
                        }
                        continue;
                    }
                    let pi = self.m.g.table[n as usize][t as usize];
                    if pi < 0 {
                        return None;
                    }
                    let p = &self.m.g.prods[n as usize][pi as usize];
                    if !p.is_empty() {
                        from_form = false;
                    }
                    st.extend(p.iter().rev());
                }
            }
        }
    }
    fn expand(&mut self, c: u32) {
        if self.confs[c as usize].next.is_some() {
            return;
        }
        let st = self.confs[c as usize].stack.clone();
        let mut v = vec![];
        for t in 0..self.m.g.terms.len() as T {
            if let Some(ns) = self.step(&st, t) {
                if ns.iter().map(|s| self.min_sym(*s)).sum::<usize>() < 1000 {
                    let id = self.intern(ns);
                    v.push((t, id));
                }
            }
        }
        self.confs[c as usize].next = Some(v);
    }
    fn count(&mut self, c: u32, rem: u16) -> u64 {
        let min = self.confs[c as usize].min;
        if min > rem as usize {
            return 0;
        }
        if let Some(&n) = self.memo.get(&(c, rem)) {
            return n;
        }
        let mut n: u64 = if min == 0 { 1 } else { 0 };
        if rem > 0 {
            self.expand(c);
            for (_, d) in self.confs[c as usize].next.clone().unwrap() {
                n = n.saturating_add(self.count(d, rem - 1));
            }
        }
        self.memo.insert((c, rem), n);
        n
    }
    /// Calls `f` with the sentences number lo..hi (in the order of the enumeration).
    pub fn visit(&self, lo: u64, hi: u64, f: &mut dyn FnMut(u64, &[T]) -> bool) {
        let mut buf = vec![];
        self.go(0, self.len as u16, 0, lo, hi, &mut buf, f);
    }
    fn go(&self, c: u32, rem: u16, base: u64, lo: u64, hi: u64, buf: &mut Vec<T>, f: &mut dyn FnMut(u64, &[T]) -> bool) -> bool {
        let conf = &self.confs[c as usize];
        let mut at = base;
        if conf.min == 0 {
            if at >= lo && at < hi && !f(at, buf) {
                return false;
            }
            at += 1;
        }
        if rem == 0 {
            return true;
        }
        if let Some(next) = &conf.next {
            for (t, d) in next {
                if self.confs[*d as usize].min > rem as usize - 1 {
                    continue;
                }
                let n = *self.memo.get(&(*d, rem - 1)).unwrap_or(&0);
                if n == 0 {
                    continue;
                }
                if at + n > lo && at < hi {
                    buf.push(*t);
                    let go = self.go(*d, rem - 1, at, lo, hi, buf, f);
                    buf.pop();
                    if !go {
                        return false;
                    }
                }
                at += n;
                if at >= hi {
                    return true;
                }
            }
        }
        true
    }
    pub fn all(&self) -> Vec<Vec<T>> {
        let mut v = vec![];
        self.visit(0, u64::MAX, &mut |_, s| {
            v.push(s.to_vec());
            true
        });
        v
    }
}

/// Sentences that cover every chain of `k` nested productions, each as short as possible.
pub struct Cover<'m> {
    m: &'m Model,
    short: Vec<Vec<T>>,
    /// for every nonterminal, a shortest (prefix, suffix) context from the start rule
    ctx: Vec<Option<(Vec<T>, Vec<T>)>>,
}
impl<'m> Cover<'m> {
    pub fn new(m: &'m Model, entry: Entry) -> Cover<'m> {
        let g = &m.g;
        let min = g.min_len(&|_| true, &BTreeMap::new());
        let nn = g.nts.len();
        let mut short: Vec<Option<Vec<T>>> = vec![None; nn];
        // build yields in the order of their length
        loop {
            let mut ch = false;
            for n in 0..nn {
                if short[n].is_some() {
                    continue;
                }
                'p: for p in &g.prods[n] {
                    let mut y = vec![];
                    for s in p {
                        match s {
                            Sym::T(t) => y.push(*t),
                            Sym::N(k) => match &short[*k as usize] {
                                Some(v) => y.extend(v),
                                None => continue 'p,
                            },
                        }
                    }
                    if y.len() == min[n] {
                        short[n] = Some(y);
                        ch = true;
                        break;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let short: Vec<Vec<T>> = short.into_iter().map(|s| s.unwrap()).collect();
        let mut ctx: Vec<Option<(Vec<T>, Vec<T>)>> = vec![None; nn];
        ctx[m.start(entry) as usize] = Some((vec![], vec![]));
        // relax until stable (shortest contexts)
        loop {
            let mut ch = false;
            for n in 0..nn {
                if let Some((a, b)) = ctx[n].clone() {
                    for p in &g.prods[n] {
                        for (i, s) in p.iter().enumerate() {
                            if let Sym::N(k) = s {
                                let mut pre = a.clone();
                                for x in &p[..i] {
                                    ext(&mut pre, *x, &short);
                                }
                                let mut suf = vec![];
                                for x in &p[i + 1..] {
                                    ext(&mut suf, *x, &short);
                                }
                                suf.extend(&b);
                                let better = match &ctx[*k as usize] {
                                    None => true,
                                    Some((x, y)) => x.len() + y.len() > pre.len() + suf.len(),
                                };
                                if better {
                                    ctx[*k as usize] = Some((pre, suf));
                                    ch = true;
                                }
                            }
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        Cover { m, short, ctx }
    }
    /// all yields of nonterminal n with the productions of the first `k` levels of one branch chosen freely
    pub fn yields(&self, n: N, k: usize, out: &mut Vec<Vec<T>>, cap: usize) {
        for p in &self.m.g.prods[n as usize] {
            let mut any = false;
            for (i, s) in p.iter().enumerate() {
                if let Sym::N(c) = s {
                    if k > 1 {
                        any = true;
                        let mut pre = vec![];
                        for x in &p[..i] {
                            ext(&mut pre, *x, &self.short);
                        }
                        let mut suf = vec![];
                        for x in &p[i + 1..] {
                            ext(&mut suf, *x, &self.short);
                        }
                        let mut sub = vec![];
                        // auxiliary nonterminals (loops, options, groups) do not count as a level
                        self.yields(*c, if self.m.g.named[*c as usize] { k - 1 } else { k - 1 }, &mut sub, cap);
                        for y in sub {
                            let mut v = pre.clone();
                            v.extend(y);
                            v.extend(&suf);
                            out.push(v);
                            if out.len() > cap {
                                return;
                            }
                        }
                    }
                }
            }
            if !any {
                let mut v = vec![];
                for x in p {
                    ext(&mut v, *x, &self.short);
                }
                out.push(v);
            }
        }
    }
    /// Sentences covering every chain of k productions, below every rule, without duplicates, shortest first.
    pub fn sentences(&self, k: usize, cap: usize) -> Vec<Vec<T>> {
        let mut set = std::collections::HashSet::new();
        let mut res = vec![];
        for n in 0..self.m.g.nts.len() {
            if let Some((a, b)) = &self.ctx[n] {
                let mut ys = vec![];
                self.yields(n as N, k, &mut ys, cap);
                for y in ys {
                    let mut v = a.clone();
                    v.extend(y);
                    v.extend(b);
                    if set.insert(v.clone()) {
                        res.push(v);
                    }
                }
            }
        }
        res.sort_by(|a, b| a.len().cmp(&b.len()).then(a.cmp(b)));
        res
    }
    /// shortest (left, right) with which `from` derives `to`
    pub fn embedding(&self, from: N, to: N) -> Option<(Vec<T>, Vec<T>)> {
        let g = &self.m.g;
        let nn = g.nts.len();
        let mut best: Vec<Option<(Vec<T>, Vec<T>)>> = vec![None; nn];
        best[to as usize] = Some((vec![], vec![]));
        loop {
            let mut ch = false;
            for n in 0..nn {
                for p in &g.prods[n] {
                    for (i, s) in p.iter().enumerate() {
                        if let Sym::N(k) = s {
                            if let Some((a, b)) = best[*k as usize].clone() {
                                let mut l = vec![];
                                for x in &p[..i] {
                                    ext(&mut l, *x, &self.short);
                                }
                                l.extend(a);
                                let mut r = b;
                                for x in &p[i + 1..] {
                                    ext(&mut r, *x, &self.short);
                                }
                                if best[n].as_ref().map_or(true, |(x, y)| x.len() + y.len() > l.len() + r.len()) {
                                    best[n] = Some((l, r));
                                    ch = true;
                                }
                            }
                        }
                    }
                }
            }
            if !ch {
                return best[from as usize].clone();
            }
        }
    }
    pub fn context(&self, n: N) -> Option<&(Vec<T>, Vec<T>)> {
        self.ctx[n as usize].as_ref()
    }
    pub fn ext(&self, v: &mut Vec<T>, s: Sym) {
        ext(v, s, &self.short)
    }
    pub fn shortest(&self, n: N) -> &Vec<T> {
        &self.short[n as usize]
    }
}
fn ext(v: &mut Vec<T>, s: Sym, short: &[Vec<T>]) {
    match s {
        Sym::T(t) => v.push(t),
        Sym::N(n) => v.extend(&short[n as usize]),
    }
}

/// All strings over an alphabet up to a length, in a fixed context.
pub struct Strings {
    pub alpha: Vec<T>,
    pub max: usize,
    pub total: u64,
}
impl Strings {
    pub fn new(alpha: Vec<T>, cap: u64) -> Strings {
        let n = alpha.len() as u64;
        let (mut total, mut pw, mut max) = (1u64, 1u64, 0usize);
        while total + pw * n <= cap {
            pw *= n;
            total += pw;
            max += 1;
        }
        Strings { alpha, max, total }
    }
    pub fn get(&self, mut i: u64, out: &mut Vec<T>) {
        out.clear();
        let n = self.alpha.len() as u64;
        let mut l = 0;
        let mut pw = 1;
        while i >= pw {
            i -= pw;
            pw *= n;
            l += 1;
        }
        for _ in 0..l {
            out.push(self.alpha[(i % n) as usize]);
            i /= n;
        }
    }
}
