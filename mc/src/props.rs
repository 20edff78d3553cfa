//! The spaces explored for every property.
use crate::exec::{run, run_ast, run_raw, Ast, Entry, Kind, Model, Out, Ref};
use crate::grammar::{Sym, N, T};
use crate::lex::Lexer;
use crate::pairs::Pairs;
use crate::pump::{pumps, Pump};
use crate::render::{Layout, Pool};
use crate::run::{Job, Worker};
use crate::space::{terms, Cover, Space, Spec, Strings};

pub struct Ctx {
    pub m: &'static Model,
    pub thorough: bool,
}

impl Ctx {
    pub fn cap(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
}

/// Which disagreements with the model contradict a property.
pub fn kinds(id: &str) -> &'static [Kind] {
    use Kind::*;
    match id {
        "C01" => &[Crash],
        "C02" => &[Crash, Rest, Own],
        "C03" | "C20" => &[Crash, Over, Split],
        _ => &[Crash, Rest, Split, Over, Under, Tree, Own],
    }
}

/// The stack of the threads that parse: that of a process's first thread where crashes are the question.
pub fn stack(id: &str) -> usize {
    if id == "C01" {
        8 << 20
    } else {
        256 << 20
    }
}

pub type Style = (Pool, Layout);
pub const BOTH: &[Style] = &[(Pool::Plain, Layout::Spaced), (Pool::Hard, Layout::Tight)];
pub const PLAIN: &[Style] = &[(Pool::Plain, Layout::Spaced)];
pub const TIGHT: &[Style] = &[(Pool::Plain, Layout::Tight)];

/// Every sentence of a sentential form up to the length that keeps their number below `cap`.
pub fn sentences(c: &Ctx, name: &str, entry: Entry, form: &str, stubs: &str, cap: u64, max_len: usize, styles: &'static [Style]) -> Job {
    let sp = Space::new(c.m, Spec::new(c.m, entry, form, stubs), cap, max_len);
    space_job(name, form, stubs, sp, styles)
}
pub fn space_job(name: &str, form: &str, stubs: &str, sp: Space<'static>, styles: &'static [Style]) -> Job {
    let bound = format!("all {} sentences of <{}> with at most {} tokens{}, in {} renderings", sp.total, form, sp.len, if stubs.is_empty() { String::new() } else { format!(" (fixed: {})", stubs) }, styles.len());
    let shards = (sp.total / 2000).clamp(1, 96) as usize;
    Job {
        name: name.to_string(),
        bound,
        shards,
        f: Box::new(move |s, n, w| {
            let lo = sp.total * s as u64 / n as u64;
            let hi = sp.total * (s as u64 + 1) / n as u64;
            sp.visit(lo, hi, &mut |_, toks| {
                for (p, l) in styles {
                    let t = w.rd.text(toks, *p, *l);
                    w.accept(sp.spec.entry, &t);
                }
                !w.stopped()
            });
        }),
    }
}

/// Every string over an alphabet of terminals in place of the hole.
pub fn strings(c: &Ctx, name: &str, entry: Entry, pre: &str, alpha: &str, suf: &str, cap: u64, styles: &'static [Style]) -> Job {
    let (p, s) = (terms(c.m, pre), terms(c.m, suf));
    let st = Strings::new(terms(c.m, alpha), cap);
    let bound = format!("all {} strings of at most {} tokens over {{{}}} in <{} _ {}>", st.total, st.max, alpha, pre, suf);
    let shards = (st.total / 4000).clamp(1, 96) as usize;
    Job {
        name: name.to_string(),
        bound,
        shards,
        f: Box::new(move |sh, n, w| {
            let lo = st.total * sh as u64 / n as u64;
            let hi = st.total * (sh as u64 + 1) / n as u64;
            let mut mid = vec![];
            let mut toks = vec![];
            for i in lo..hi {
                st.get(i, &mut mid);
                toks.clear();
                toks.extend(&p);
                toks.extend(&mid);
                toks.extend(&s);
                for (pl, l) in styles {
                    let t = w.rd.text(&toks, *pl, *l);
                    w.check(entry, &t);
                }
                if w.stopped() {
                    return;
                }
            }
        }),
    }
}

/// Every single-token edit (delete, duplicate, swap with the next, replace, insert) of the given sentences.
pub fn edits(c: &Ctx, name: &str, entry: Entry, base: Vec<Vec<T>>, alpha: &str, what: &str) -> Job {
    let alpha = terms(c.m, alpha);
    let bound = format!("all single-token deletions, duplications, swaps, replacements and insertions over {} tokens of {} sentences ({})", alpha.len(), base.len(), what);
    let shards = (base.len() / 8).clamp(1, 96);
    Job {
        name: name.to_string(),
        bound,
        shards,
        f: Box::new(move |sh, n, w| {
            let mut e: Vec<T> = vec![];
            for s in base.iter().skip(sh).step_by(n) {
                let go = |e: &[T], w: &mut Worker| {
                    let t = w.rd.text(e, Pool::Plain, Layout::Spaced);
                    w.check(entry, &t);
                };
                for i in 0..=s.len() {
                    if i < s.len() {
                        e.clear();
                        e.extend(&s[..i]);
                        e.extend(&s[i + 1..]);
                        go(&e, w);
                        e.clear();
                        e.extend(&s[..=i]);
                        e.extend(&s[i..]);
                        go(&e, w);
                        if i + 1 < s.len() && s[i] != s[i + 1] {
                            e.clear();
                            e.extend(s);
                            e.swap(i, i + 1);
                            go(&e, w);
                        }
                        for &a in &alpha {
                            if a != s[i] {
                                e.clear();
                                e.extend(s);
                                e[i] = a;
                                go(&e, w);
                            }
                        }
                    }
                    for &a in &alpha {
                        e.clear();
                        e.extend(&s[..i]);
                        e.push(a);
                        e.extend(&s[i..]);
                        go(&e, w);
                    }
                    if w.stopped() {
                        return;
                    }
                }
            }
        }),
    }
}

/// A fixed list of texts (each goes through the universal check).
pub fn texts(name: &str, bound: &str, list: Vec<(Entry, String)>) -> Job {
    let shards = (list.len() / 500).clamp(1, 96);
    let bound = format!("{} texts: {}", list.len(), bound);
    Job {
        name: name.to_string(),
        bound,
        shards,
        f: Box::new(move |sh, n, w| {
            for (e, t) in list.iter().skip(sh).step_by(n) {
                w.check(*e, t);
                if w.stopped() {
                    return;
                }
            }
        }),
    }
}

pub fn cover(c: &Ctx, entry: Entry, k: usize, cap: usize) -> Vec<Vec<T>> {
    let cv = Cover::new(c.m, entry);
    let mut v = cv.sentences(k, 200_000);
    if v.len() > cap {
        v.truncate(cap);
    }
    v
}

pub const MANY: &[Style] = &[(Pool::Plain, Layout::Spaced), (Pool::Hard, Layout::Tight), (Pool::Zero, Layout::Spaced), (Pool::Same, Layout::Tight)];

/// Every two choices of the grammar in one sentence, at least one of them below the rules of `home`.
pub fn pairs(c: &Ctx, entry: Entry, home: &[&str], quick: u64, thorough: u64, styles: &'static [Style]) -> Job {
    let ps = Pairs::new(c.m, entry, home, c.cap(quick, thorough));
    let bound = format!(
        "all {} sentences ({} placements) of two grammar choices, side by side in any one production or one below the other, at most {} tokens above the shortest sentence of their meeting point{}, in {} renderings",
        ps.len(),
        ps.placements,
        ps.extra,
        if home.is_empty() { String::new() } else { format!(", one of the two choices in {}", home.join(" ")) },
        styles.len()
    );
    Job {
        name: format!("two-choices-{:?}", entry),
        bound,
        shards: (ps.len() / 1000).clamp(1, 192),
        f: Box::new(move |sh, k, w| {
            for i in (sh..ps.len()).step_by(k) {
                for (p, l) in styles {
                    let t = w.rd.text(ps.get(i), *p, *l);
                    w.accept(entry, &t);
                }
                if w.stopped() {
                    return;
                }
            }
        }),
    }
}

pub const ALL_PUNCT: &str = "{ } ( ) [ ] . ; , * | / ^ ? + ! = != < > <= >= && || - ^^";
include!("plist.rs");
include!("weave.rs");
include!("weave2.rs");
include!("weave3.rs");
include!("weave4.rs");
include!("weave5.rs");
include!("weave6.rs");
include!("weave7.rs");
include!("weave8.rs");
include!("forms.rs");
include!("special.rs");
include!("custom.rs");
include!("custom2.rs");
include!("custom3.rs");
