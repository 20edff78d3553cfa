//! The model: the SPARQL 1.1 EBNF compiled to an LL(1) pushdown automaton.
use std::collections::{BTreeMap, HashMap, HashSet};

pub type T = u16; // terminal id
pub type N = u16; // nonterminal id

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Sym {
    T(T),
    N(N),
}

pub struct Grammar {
    pub terms: Vec<String>,
    pub term_id: HashMap<String, T>,
    pub nts: Vec<String>,
    /// named rules get tree nodes, auxiliary nonterminals are spliced
    pub named: Vec<bool>,
    pub nt_id: HashMap<String, N>,
    pub prods: Vec<Vec<Vec<Sym>>>,
    /// table[nt][term] = production index or -1
    pub table: Vec<Vec<i16>>,
    /// production taken on end of input (nullable), or -1
    pub on_end: Vec<i16>,
    pub conflicts: Vec<String>,
    /// what each auxiliary nonterminal stands for, e.g. ("DataRow", Loop)
    pub loops: Vec<Option<LoopInfo>>,
}

#[derive(Clone, Debug)]
pub struct LoopInfo {
    pub rule: String,
    pub min: usize,
    pub body: N,
}

#[derive(Debug, Clone)]
enum E {
    Sym(String),
    Seq(Vec<E>),
    Alt(Vec<E>),
    Opt(Box<E>),
    Star(Box<E>),
    Plus(Box<E>),
}

fn tokenize(s: &str) -> Vec<String> {
    let mut out = vec![];
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c.is_whitespace() {
            i += 1;
        } else if c == '\'' {
            let mut j = i + 1;
            while b[j] != '\'' {
                j += 1;
            }
            out.push(b[i..=j].iter().collect());
            i = j + 1;
        } else if "()|*+?".contains(c) {
            out.push(c.to_string());
            i += 1;
        } else {
            let mut j = i;
            while j < b.len() && (b[j].is_alphanumeric() || b[j] == '_') {
                j += 1;
            }
            assert!(j > i, "bad ebnf char {:?} in {}", c, s);
            out.push(b[i..j].iter().collect());
            i = j;
        }
    }
    out
}

fn p_alt(t: &[String], i: &mut usize) -> E {
    let mut v = vec![p_seq(t, i)];
    while *i < t.len() && t[*i] == "|" {
        *i += 1;
        v.push(p_seq(t, i));
    }
    if v.len() == 1 {
        v.pop().unwrap()
    } else {
        E::Alt(v)
    }
}
fn p_seq(t: &[String], i: &mut usize) -> E {
    let mut v = vec![];
    while *i < t.len() && t[*i] != "|" && t[*i] != ")" {
        let mut e = if t[*i] == "(" {
            *i += 1;
            let e = p_alt(t, i);
            assert_eq!(t[*i], ")");
            *i += 1;
            e
        } else {
            let e = E::Sym(t[*i].clone());
            *i += 1;
            e
        };
        if *i < t.len() {
            match t[*i].as_str() {
                "*" => {
                    e = E::Star(Box::new(e));
                    *i += 1
                }
                "+" => {
                    e = E::Plus(Box::new(e));
                    *i += 1
                }
                "?" => {
                    e = E::Opt(Box::new(e));
                    *i += 1
                }
                _ => {}
            }
        }
        v.push(e);
    }
    if v.len() == 1 {
        v.pop().unwrap()
    } else {
        E::Seq(v)
    }
}

impl Grammar {
    pub fn sparql() -> Grammar {
        Grammar::from_ebnf(include_str!("sparql11.ebnf"))
    }

    fn term(&mut self, s: &str) -> T {
        if let Some(&t) = self.term_id.get(s) {
            return t;
        }
        let t = self.terms.len() as T;
        self.terms.push(s.to_string());
        self.term_id.insert(s.to_string(), t);
        t
    }
    fn new_nt(&mut self, name: &str, named: bool) -> N {
        let n = self.nts.len() as N;
        self.nts.push(name.to_string());
        self.named.push(named);
        self.prods.push(vec![]);
        self.loops.push(None);
        if named {
            assert!(self.nt_id.insert(name.to_string(), n).is_none(), "dup rule {}", name);
        }
        n
    }

    fn compile(&mut self, rule: &str, e: &E) -> Vec<Sym> {
        match e {
            E::Sym(s) => {
                if s.starts_with('\'') {
                    let t = self.term(&s[1..s.len() - 1]);
                    vec![Sym::T(t)]
                } else if s.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_') {
                    let t = self.term(s);
                    vec![Sym::T(t)]
                } else {
                    vec![Sym::N(*self.nt_id.get(s.as_str()).unwrap_or_else(|| panic!("undefined rule {}", s)))]
                }
            }
            E::Seq(v) => v.iter().flat_map(|x| self.compile(rule, x)).collect(),
            E::Alt(v) => {
                let n = self.new_nt(&format!("{}~alt", rule), false);
                let ps: Vec<_> = v.iter().map(|x| self.compile(rule, x)).collect();
                self.prods[n as usize] = ps;
                vec![Sym::N(n)]
            }
            E::Opt(x) => {
                let n = self.new_nt(&format!("{}~opt", rule), false);
                let p = self.compile(rule, x);
                self.prods[n as usize] = vec![vec![], p];
                vec![Sym::N(n)]
            }
            E::Star(x) => {
                let n = self.new_nt(&format!("{}~star", rule), false);
                let body = self.new_nt(&format!("{}~body", rule), false);
                let p = self.compile(rule, x);
                self.prods[body as usize] = vec![p];
                self.prods[n as usize] = vec![vec![], vec![Sym::N(body), Sym::N(n)]];
                self.loops[n as usize] = Some(LoopInfo { rule: rule.to_string(), min: 0, body });
                vec![Sym::N(n)]
            }
            E::Plus(x) => {
                let n = self.new_nt(&format!("{}~star", rule), false);
                let body = self.new_nt(&format!("{}~body", rule), false);
                let p = self.compile(rule, x);
                self.prods[body as usize] = vec![p];
                self.prods[n as usize] = vec![vec![], vec![Sym::N(body), Sym::N(n)]];
                self.loops[n as usize] = Some(LoopInfo { rule: rule.to_string(), min: 1, body });
                vec![Sym::N(body), Sym::N(n)]
            }
        }
    }

    pub fn from_ebnf(src: &str) -> Grammar {
        let mut g = Grammar {
            terms: vec![],
            term_id: HashMap::new(),
            nts: vec![],
            named: vec![],
            nt_id: HashMap::new(),
            prods: vec![],
            table: vec![],
            on_end: vec![],
            conflicts: vec![],
            loops: vec![],
        };
        let mut rules = vec![];
        for line in src.lines() {
            let line = line.trim();
            if line.is_empty() || line.starts_with('#') {
                continue;
            }
            let (name, rhs) = line.split_once("::=").unwrap();
            let name = name.trim().to_string();
            g.new_nt(&name, true);
            let toks = tokenize(rhs);
            let mut i = 0;
            let e = p_alt(&toks, &mut i);
            assert_eq!(i, toks.len());
            rules.push((name, e));
        }
        for (name, e) in &rules {
            let n = g.nt_id[name];
            let ps = match e {
                E::Alt(v) => v.iter().map(|x| g.compile(name, x)).collect(),
                e => vec![g.compile(name, e)],
            };
            g.prods[n as usize] = ps;
        }
        g.build_table();
        g
    }

    fn build_table(&mut self) {
        let nn = self.nts.len();
        let nt = self.terms.len();
        let mut nullable = vec![false; nn];
        let mut first: Vec<HashSet<T>> = vec![HashSet::new(); nn];
        loop {
            let mut ch = false;
            for n in 0..nn {
                for p in &self.prods[n] {
                    let mut all = true;
                    for s in p {
                        match s {
                            Sym::T(t) => {
                                ch |= first[n].insert(*t);
                                all = false;
                            }
                            Sym::N(m) => {
                                let add: Vec<T> = first[*m as usize].iter().cloned().collect();
                                for t in add {
                                    ch |= first[n].insert(t);
                                }
                                all = nullable[*m as usize];
                            }
                        }
                        if !all {
                            break;
                        }
                    }
                    if all && !nullable[n] {
                        nullable[n] = true;
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        const END: T = T::MAX;
        let mut follow: Vec<HashSet<T>> = vec![HashSet::new(); nn];
        for s in ["QueryUnit", "UpdateUnit", "BareQuery"] {
            if let Some(&n) = self.nt_id.get(s) {
                follow[n as usize].insert(END);
            }
        }
        loop {
            let mut ch = false;
            for n in 0..nn {
                for p in &self.prods[n] {
                    for i in 0..p.len() {
                        if let Sym::N(m) = p[i] {
                            let mut all = true;
                            let mut add: HashSet<T> = HashSet::new();
                            for s in &p[i + 1..] {
                                match s {
                                    Sym::T(t) => {
                                        add.insert(*t);
                                        all = false;
                                    }
                                    Sym::N(k) => {
                                        add.extend(first[*k as usize].iter());
                                        all = nullable[*k as usize];
                                    }
                                }
                                if !all {
                                    break;
                                }
                            }
                            if all {
                                add.extend(follow[n].iter());
                            }
                            for t in add {
                                ch |= follow[m as usize].insert(t);
                            }
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut table = vec![vec![-1i16; nt]; nn];
        let mut on_end = vec![-1i16; nn];
        let mut conflicts = vec![];
        for n in 0..nn {
            for (pi, p) in self.prods[n].iter().enumerate() {
                let mut set: HashSet<T> = HashSet::new();
                let mut all = true;
                for s in p {
                    match s {
                        Sym::T(t) => {
                            set.insert(*t);
                            all = false;
                        }
                        Sym::N(m) => {
                            set.extend(first[*m as usize].iter());
                            all = nullable[*m as usize];
                        }
                    }
                    if !all {
                        break;
                    }
                }
                if all {
                    set.extend(follow[n].iter());
                }
                for t in set {
                    let slot = if t == END { &mut on_end[n] } else { &mut table[n][t as usize] };
                    if *slot != -1 && *slot != pi as i16 {
                        conflicts.push(format!(
                            "{} on {}: productions {} and {}",
                            self.nts[n],
                            if t == END { "<end>" } else { &self.terms[t as usize] },
                            slot,
                            pi
                        ));
                    }
                    *slot = pi as i16;
                }
            }
        }
        self.table = table;
        self.on_end = on_end;
        self.conflicts = conflicts;
    }

    pub fn nt(&self, s: &str) -> N {
        *self.nt_id.get(s).unwrap_or_else(|| panic!("no rule {}", s))
    }
    pub fn t(&self, s: &str) -> T {
        *self.term_id.get(s).unwrap_or_else(|| panic!("no terminal {}", s))
    }

    /// Shortest yield length of every nonterminal, with some terminals forbidden and some nonterminals overridden.
    pub fn min_len(&self, allowed: &dyn Fn(T) -> bool, ov: &BTreeMap<N, Vec<Vec<Sym>>>) -> Vec<usize> {
        const INF: usize = 1_000_000;
        // overrides may bring auxiliary nonterminals of their own
        let count = ov.keys().map(|n| *n as usize + 1).max().unwrap_or(0).max(self.nts.len());
        let mut m = vec![INF; count];
        loop {
            let mut ch = false;
            for n in 0..count {
                let ps = match ov.get(&(n as N)) {
                    Some(p) => p,
                    None if n < self.nts.len() => &self.prods[n],
                    None => continue,
                };
                let is_ov = ov.contains_key(&(n as N));
                for p in ps {
                    let mut l = 0usize;
                    for s in p {
                        l += match s {
                            Sym::T(t) => {
                                if is_ov || allowed(*t) {
                                    1
                                } else {
                                    INF
                                }
                            }
                            Sym::N(k) => m[*k as usize],
                        };
                        l = l.min(INF);
                    }
                    if l < m[n] {
                        m[n] = l;
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        m
    }
}

/// A parse tree of the model.
#[derive(Clone, Debug)]
pub struct Node {
    pub rule: N,
    pub kids: Vec<Kid>,
}
#[derive(Clone, Debug)]
pub enum Kid {
    N(Node),
    T(T, usize), // terminal, token index
}

#[derive(Clone, Copy)]
enum Item {
    S(Sym),
    End,
}

/// Distinct automaton configurations (stack contents) and steps (configuration, token) seen so far.
#[derive(Default)]
pub struct Seen {
    pub states: HashSet<u64, BuildId>,
    pub steps: HashSet<u64, BuildId>,
}
#[derive(Default, Clone)]
pub struct BuildId;
pub struct IdHasher(u64);
impl std::hash::Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v;
    }
}
impl std::hash::BuildHasher for BuildId {
    type Hasher = IdHasher;
    fn build_hasher(&self) -> IdHasher {
        IdHasher(0)
    }
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a.rotate_left(23) ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^ (x >> 32)
}
fn sym_code(s: Sym) -> u64 {
    match s {
        Sym::T(t) => 2 * t as u64 + 2,
        Sym::N(n) => 2 * n as u64 + 3,
    }
}

impl Grammar {
    /// Runs the automaton; Err(i) = index of the first token that cannot be consumed (n = premature end).
    pub fn parse(&self, start: N, toks: &[T], seen: &mut Seen) -> Result<Node, usize> {
        let h0 = mix(1, sym_code(Sym::N(start)));
        let mut stack: Vec<(Item, u64)> = Vec::with_capacity(64);
        stack.push((Item::S(Sym::N(start)), h0));
        seen.states.insert(h0);
        let mut nodes: Vec<Node> = vec![Node { rule: u16::MAX, kids: vec![] }];
        let mut i = 0;
        let mut conf = h0;
        while let Some((top, _)) = stack.pop() {
            match top {
                Item::End => {
                    let n = nodes.pop().unwrap();
                    nodes.last_mut().unwrap().kids.push(Kid::N(n));
                }
                Item::S(Sym::T(t)) => {
                    if i < toks.len() && toks[i] == t {
                        nodes.last_mut().unwrap().kids.push(Kid::T(t, i));
                        i += 1;
                        seen.steps.insert(mix(conf, t as u64));
                        conf = stack.last().map_or(0, |x| x.1);
                        seen.states.insert(conf);
                    } else {
                        return Err(i);
                    }
                }
                Item::S(Sym::N(n)) => {
                    let pi = if i < toks.len() { self.table[n as usize][toks[i] as usize] } else { self.on_end[n as usize] };
                    if pi < 0 {
                        return Err(i);
                    }
                    let below = stack.last().map_or(1, |x| x.1);
                    if self.named[n as usize] {
                        nodes.push(Node { rule: n, kids: vec![] });
                        stack.push((Item::End, below));
                    }
                    let mut h = below;
                    for s in self.prods[n as usize][pi as usize].iter().rev() {
                        h = mix(h, sym_code(*s));
                        stack.push((Item::S(*s), h));
                    }
                }
            }
        }
        if i != toks.len() {
            return Err(i);
        }
        match nodes.pop().unwrap().kids.pop() {
            Some(Kid::N(n)) => Ok(n),
            _ => Err(0),
        }
    }
}
