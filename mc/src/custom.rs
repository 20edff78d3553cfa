// Included by props.rs: checks with their own oracles.

fn all_pumps(c: &Ctx, hubs: bool) -> Vec<Vec<Pump>> {
    // groups of pumps of one nonterminal (for combinations); every edge of the derivation graph is in some group
    let mut out = vec![];
    for e in [Entry::Query, Entry::Update] {
        let cv = Cover::new(c.m, e);
        let mut by: std::collections::BTreeMap<(Vec<T>, N, Vec<T>), Vec<Pump>> = Default::default();
        for p in pumps(c.m, &cv, e, None) {
            by.entry((p.pre.clone(), p.n, p.suf.clone())).or_default().push(p);
        }
        // repeated elements of every kind
        for (n, l) in c.m.g.loops.iter().enumerate() {
            if let (Some(l), Some((pre, suf))) = (l, cv.context(n as N)) {
                let mut ys = vec![];
                cv.yields(l.body, if c.thorough { 6 } else { 4 }, &mut ys, 20_000);
                ys.sort_by(|a, b| a.len().cmp(&b.len()).then(a.cmp(b)));
                ys.dedup();
                for y in ys {
                    let p = Pump { entry: e, n: n as N, pre: pre.clone(), alpha: y, core: vec![], beta: vec![], suf: suf.clone(), name: format!("element of {}", l.rule) };
                    let v = by.entry((pre.clone(), n as N, suf.clone())).or_default();
                    if !v.iter().any(|q| q.alpha == p.alpha && q.beta == p.beta) {
                        v.push(p);
                    }
                }
            }
        }
        // other members of groups of interchangeable terminals
        let groups: Vec<Vec<T>> = c.m.g.prods.iter().filter(|ps| ps.len() > 1 && ps.iter().all(|p| p.len() == 1 && matches!(p[0], Sym::T(_)))).map(|ps| ps.iter().map(|p| if let Sym::T(t) = p[0] { t } else { unreachable!() }).collect()).collect();
        let mut seen = crate::grammar::Seen::default();
        for (_, v) in by.iter_mut() {
            let mut extra: Vec<Pump> = vec![];
            for p in v.iter().filter(|p| !p.name.starts_with("element")) {
                for (i, t) in p.alpha.iter().enumerate() {
                    for g in groups.iter().filter(|g| g.contains(t)) {
                        for x in g.iter().filter(|x| *x != t) {
                            let mut q = p.clone();
                            q.alpha[i] = *x;
                            q.name = format!("{} with {}", p.name, c.m.g.terms[*x as usize]);
                            if !v.iter().chain(extra.iter()).any(|o| o.alpha == q.alpha && o.beta == q.beta) && c.m.g.parse(c.m.start(e), &q.at(2), &mut seen).is_ok() {
                                extra.push(q);
                            }
                        }
                    }
                }
            }
            v.extend(extra);
        }
        out.extend(by.into_values());
        if hubs {
            for h in ["GroupGraphPattern", "Expression", "GraphNodePath", "GraphNode", "Path"] {
                out.push(pumps(c.m, &cv, e, Some(c.m.g.nt(h))));
            }
        }
    }
    out
}

/// Pairs of pumps of the same nonterminal, as (pump, partner).
fn pump_pairs(groups: &[Vec<Pump>], cap: usize) -> Vec<(Pump, Pump)> {
    let mut v = vec![];
    for g in groups {
        let n = g.len().min(cap);
        for i in 0..n {
            for j in 0..n {
                if i != j {
                    v.push((g[i].clone(), g[j].clone()));
                }
            }
        }
    }
    v
}

const JUNK_CHARS: &[&str] = &[
    "a", "Z", "0", "9", "_", "-", ".", ":", "?", "$", "@", "^", "<", ">", "\"", "'", "\\", "%", "#", "{", "}", "(", ")", "[", "]", ",", ";", "|", "/", "*", "+", "!", "=", "&", " ", "\n", "\r", "\t", "\0", "é", "\u{B7}", "\u{2028}", "\u{10FFFF}", "\u{1F600}", "\u{FEFF}", "\u{300}",
];

// ------------------------------------------------------------------ C01

/// The automaton's configurations reached inside the given sentences, with a shortest prefix for each.
fn config_prefixes(c: &Ctx, e: Entry, sents: &[Vec<T>]) -> Vec<Vec<T>> {
    let sp = Space::new(c.m, Spec::new(c.m, e, e.rule(), ""), 1, 1);
    let mut seen = std::collections::HashSet::new();
    let mut out: Vec<Vec<T>> = vec![];
    let start = sp.spec.form.iter().rev().cloned().collect::<Vec<Sym>>();
    let mut order: Vec<&Vec<T>> = sents.iter().collect();
    order.sort_by_key(|s| s.len());
    for s in order {
        let mut st = start.clone();
        for i in 0..=s.len() {
            if seen.insert((st.clone(), if i > 0 { s[i - 1] } else { T::MAX })) {
                out.push(s[..i].to_vec());
            }
            if i < s.len() {
                st = sp.step(&st, s[i]).expect("sentence");
            }
        }
    }
    out
}

fn c01(c: &Ctx) -> Vec<Job> {
    let mut v = vec![];
    for e in [Entry::Query, Entry::Update, Entry::Bare] {
        let sents = cover(c, e, if e == Entry::Bare { 3 } else { 4 }, usize::MAX);
        // arbitrary characters in every configuration
        let pre = config_prefixes(c, e, &sents);
        let len = if c.thorough { 3 } else { 2 };
        let alpha: Vec<&str> = JUNK_CHARS.to_vec();
        let per = strings_total(alpha.len() as u64, len);
        let total = per * pre.len() as u64;
        let bound = format!("all {} strings of at most {} of {} characters after each of {} prefixes of requests, one for every (automaton configuration, last token)", per, len, alpha.len(), pre.len());
        v.push(par(&format!("anything-{:?}", e), bound, pre.len() as u64, 4, move |i, w| {
            let mut b = String::new();
            for glue in [" ", ""] {
                let p = w.rd.text(&pre[i as usize], if glue == "" { Pool::Hard } else { Pool::Plain }, Layout::Spaced);
                for k in 0..per {
                    nth_string(k, &alpha, &mut b);
                    w.lives(e, &format!("{}{}{}", p, glue, b));
                }
                if w.stopped() {
                    return;
                }
            }
        }));
        let _ = total;
        // truncations and corruptions at every character
        let n = sents.len() as u64;
        let alpha: Vec<&str> = JUNK_CHARS.to_vec();
        let step = if c.thorough || e != Entry::Bare { 1 } else { 2 };
        let bound = format!("{} requests (grammar cover) cut off before every character, and with every character replaced by, or preceded by, each of {} characters, or deleted", n, alpha.len());
        v.push(par(&format!("corrupt-{:?}", e), bound, n, 8, move |i, w| {
            let s = &sents[i as usize];
            for (p, l) in [(Pool::Hard, Layout::Tight), (Pool::Plain, Layout::Spaced)] {
                let t = w.rd.text(s, p, l);
                w.rc.decide(e, &t);
                let idx: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len()]).collect();
                for k in (0..idx.len()).step_by(step) {
                    w.lives(e, &t[..idx[k]]);
                    let next = if k + 1 < idx.len() { idx[k + 1] } else { t.len() };
                    w.lives(e, &format!("{}{}", &t[..idx[k]], &t[next..]));
                    for a in &alpha {
                        w.lives(e, &format!("{}{}{}", &t[..idx[k]], a, &t[next..]));
                        w.lives(e, &format!("{}{}{}", &t[..idx[k]], a, &t[idx[k]..]));
                    }
                    if w.stopped() {
                        return;
                    }
                }
                if !c_thorough(step) && p == Pool::Hard && e == Entry::Bare {
                    break;
                }
            }
        }));
    }
    // nesting and repetition
    let depths: Vec<usize> = vec![1, 2, 3, 5, 8, 13, 21, 34, 48, 64, 100];
    let groups = all_pumps(c, true);
    let single: Vec<Pump> = groups.iter().flatten().cloned().collect();
    let bound = format!("{} self-embedding constructs at depths {:?}: complete, cut off after every part, and with one closing part missing or doubled", single.len(), depths);
    let d2 = depths.clone();
    v.push(par("nested", bound, single.len() as u64, 4, move |i, w| {
        let p = &single[i as usize];
        for &d in &d2 {
            nest_variants(p, &[], d, w, &mut |w, t| {
                w.lives(p.entry, t);
            });
        }
    }));
    let pairs = pump_pairs(&groups, if c.thorough { 60 } else { 16 });
    let bound = format!("{} alternations of two self-embedding constructs at depths 12 and 50, complete, cut off and mismatched", pairs.len());
    v.push(par("nested-pairs", bound, pairs.len() as u64, 16, move |i, w| {
        let (p, q) = &pairs[i as usize];
        for d in [12, 50] {
            nest_variants(p, &[q], d, w, &mut |w, t| {
                w.lives(p.entry, t);
            });
        }
    }));
    v.push(survive_chars(
        c,
        vec![
            (Entry::Query, "", ""),
            (Entry::Query, "SELECT ", " {}"),
            (Entry::Query, "ASK{?", " a 1}"),
            (Entry::Query, "ASK{?s a p:", "}"),
            (Entry::Query, "ASK{?s a <", ">}"),
            (Entry::Query, "ASK{?s a '", "'}"),
            (Entry::Query, "ASK{?s a '\\", "'}"),
            (Entry::Query, "ASK{?s a 'x'@e", "}"),
            (Entry::Query, "ASK{?s a 1", "}"),
            (Entry::Query, "ASK{?s <p>", "?o}"),
            (Entry::Query, "ASK{#", "\n}"),
            (Entry::Query, "ASK{FILTER(?x", "1)}"),
            (Entry::Query, "ASK{FILTER S", "TR(?x)}"),
            (Entry::Query, "ASK{} LIMIT ", ""),
            (Entry::Query, "PREFIX a", ":<b>ASK{}"),
            (Entry::Update, "INSERT ", "DATA{}"),
            (Entry::Update, "CLEAR ALL", ""),
            (Entry::Update, "INSERT DATA{_:", " a 1}"),
        ],
    ));
    // long flat inputs
    let mut list = vec![];
    for n in [100usize, 1000, 5000, 70_000] {
        for (a, b, z) in [("ASK{", "?s a ?o.", "}"), ("SELECT ", "?v ", "{}"), ("ASK{} ORDER BY ", "?v ", ""), ("ASK{FILTER(1", "+1", ")}"), ("ASK{?s a '", "x", "'}"), ("ASK{", " ", "}"), ("ASK{", "#c\n", "}"), ("ASK{?s a <", "x", ">}"), ("ASK{?s a p:", "x.", "y}"), ("ASK{} VALUES ?x {", "1 ", "}"), ("ASK{?s ?p ?a", ",?b", "}"), ("ASK{?s <p>", "/<p>", " ?b}"), ("ASK{{}", "UNION{}", "}"), ("", "BASE<x>", "ASK{}"), ("ASK{FILTER STR(", "?x+", "1)}"), ("ASK{FILTER(1 IN (1", ",2", "))}"), ("ASK{} LIMIT 0", "0", "1"), ("ASK{} LIMIT 1", "0", ""), ("ASK{?s a 1", "0", "}"), ("ASK{?s a 1e", "9", "}"), ("ASK{?s a 1e-", "9", "}"), ("ASK{?s a .", "0", "1}")] {
            for m in [z, "", "\u{1F600}", "\\"] {
                list.push((Entry::Query, format!("{}{}{}", a, b.repeat(n), m)));
            }
        }
        for (a, b, z) in [("", "CLEAR ALL;", ""), ("INSERT DATA{", "<s> a <o>.", "}"), ("INSERT DATA{", "GRAPH<g>{}", "}"), ("", ";", ""), ("DELETE DATA{<s> a ", "1,", "2}")] {
            for m in [z, "", "é", ")"] {
                // a tree of many operations is a chain, and dropping it takes stack for every link
                let n = if b == "CLEAR ALL;" { n.min(20_000) } else { n };
                list.push((Entry::Update, format!("{}{}{}", a, b.repeat(n), m)));
            }
        }
    }
    let bound = format!("{} long flat requests (elements, names, numbers, layout repeated 100, 1000, 5000 and 70000 times, update operations at most 20000 times), complete and broken off", list.len());
    let n = list.len() as u64;
    v.push(par("long", bound, n, 4, move |i, w| {
        w.lives(list[i as usize].0, &list[i as usize].1);
    }));
    v
}
fn c_thorough(step: usize) -> bool {
    step == 1
}

/// Complete, cut off, and mismatched forms of a nesting.
fn nest_variants(p: &Pump, others: &[&Pump], d: usize, w: &mut Worker, f: &mut dyn FnMut(&mut Worker, &str)) {
    let full = p.mixed(d, others);
    let open = p.open(d, others);
    let close = p.close(d, others);
    let mut go = |toks: &[T], w: &mut Worker| {
        let t = w.rd.text(toks, Pool::Plain, Layout::Spaced);
        f(w, &t);
    };
    let _ = w.m.g.parse(w.m.start(p.entry), &full, &mut w.rc.seen);
    go(&full, w);
    go(&open, w);
    let mut v = open.clone();
    v.extend(&p.core);
    go(&v, w);
    // the innermost part goes wrong
    for junk in ["=", ")", "}", "]", ";", ",", "SELECT", "INTEGER", "^^"] {
        let mut v = open.clone();
        v.push(w.m.g.t(junk));
        v.extend(&close);
        go(&v, w);
    }
    // one closing token missing or doubled
    if !close.is_empty() {
        for k in [0, close.len() / 2, close.len() - 1] {
            let mut v = open.clone();
            v.extend(&p.core);
            v.extend(&close[..k]);
            v.extend(&close[k + 1..]);
            go(&v, w);
            let mut v = open.clone();
            v.extend(&p.core);
            v.extend(&close[..=k]);
            v.extend(&close[k..]);
            go(&v, w);
        }
        let mut v = open.clone();
        v.extend(&p.core);
        v.extend(&close[..close.len() / 2]);
        go(&v, w);
    }
    if open.len() > 1 {
        go(&open[..open.len() - 1], w);
        let mut v = open[..open.len() - 1].to_vec();
        v.extend(&p.core);
        v.extend(&close);
        go(&v, w);
    }
}

fn survive_chars(_c: &Ctx, ctx: Vec<(Entry, &'static str, &'static str)>) -> Job {
    let n = ctx.len() as u64;
    let bound = format!("all 1112064 Unicode scalar values at {} positions: {}", n, ctx.iter().map(|(_, a, b)| format!("{}_{}", a, b)).collect::<Vec<_>>().join("  "));
    const BLOCK: u64 = 256;
    par("any-char", bound, n * (0x110000 / BLOCK), 200, move |i, w| {
        let (e, a, b) = &ctx[(i % n) as usize];
        let base = (i / n) * BLOCK;
        for cp in base..base + BLOCK {
            if let Some(ch) = char::from_u32(cp as u32) {
                w.lives(*e, &format!("{}{}{}", a, ch, b));
            }
        }
    })
}

// ------------------------------------------------------------------ C02

/// The longest prefix of the tokens that is a sentence, and how far the tokens are viable.
fn longest(c: &Space, start: &[Sym], toks: &[T], nullable: &dyn Fn(&[Sym]) -> bool) -> (Option<usize>, usize) {
    let mut st = start.to_vec();
    let mut best = if nullable(&st) { Some(0) } else { None };
    for (i, t) in toks.iter().enumerate() {
        match c.step(&st, *t) {
            None => return (best, i),
            Some(n) => st = n,
        }
        if nullable(&st) {
            best = Some(i + 1);
        }
    }
    (best, toks.len())
}

fn c02(c: &Ctx) -> Vec<Job> {
    let mut v = vec![];
    let m = c.m;
    for e in [Entry::Query, Entry::Update, Entry::Bare] {
        let k = if c.thorough { 5 } else { 3 } - if e == Entry::Bare { 1 } else { 0 };
        let sents = cover(c, e, k, usize::MAX);
        let sp = std::sync::Arc::new(Space::new(m, Spec::new(m, e, e.rule(), ""), 1, 1));
        let start: Vec<Sym> = sp.spec.form.iter().rev().cloned().collect();
        let min: Vec<usize> = m.g.min_len(&|_| true, &Default::default());
        let all: Vec<T> = (0..m.g.terms.len() as T).collect();
        let n = sents.len() as u64;
        let bound = format!("{} requests (grammar cover) followed by each of {} tokens, by every two tokens of which the first could continue it, and by unlexable text; glued and spaced; every consumed part parsed again", n, all.len());
        let thorough = c.thorough;
        v.push(par(&format!("appended-{:?}", e), bound, n, 8, move |i, w| {
            let s = &sents[i as usize];
            let nullable = |st: &[Sym]| st.iter().all(|s| matches!(s, Sym::N(n) if min[*n as usize] == 0));
            let base = w.rd.text(s, Pool::Plain, Layout::Spaced);
            w.rc.decide(e, &base);
            let whole = match w.survives(e, &base) {
                Out::Ok { tree, rest } if rest == base.len() => tree,
                _ => return, // other properties
            };
            let tails: Vec<Vec<T>> = {
                let mut st = start.clone();
                for t in s {
                    st = sp.step(&st, *t).unwrap();
                }
                let mut v = vec![];
                for &a in &all {
                    match sp.step(&st, a) {
                        None => v.push(vec![a]),
                        Some(_) => {
                            v.push(vec![a]);
                            for &b in &all {
                                v.push(vec![a, b]);
                            }
                            if thorough {
                                for &b in &all {
                                    for &x in &all {
                                        if (a as usize + b as usize * 3 + x as usize * 7) % 11 == i as usize % 11 {
                                            v.push(vec![a, b, x]);
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                v
            };
            let mut full: Vec<T> = vec![];
            for t in &tails {
                if t.len() > 1 && ["DECIMAL", "DOUBLE"].contains(&w.m.g.terms[t[1] as usize].as_str()) && ["LIMIT", "OFFSET"].contains(&w.m.g.terms[t[0] as usize].as_str()) {
                    continue; // "LIMIT 1.5": a number may be cut after LIMIT
                }
                full.clear();
                full.extend(s);
                full.extend(t);
                if full.len() == s.len() + 1 {
                    let _ = w.m.g.parse(w.m.start(e), &full, &mut w.rc.seen);
                }
                let (best, viable) = longest(&sp, &start, &full, &nullable);
                if viable == full.len() {
                    // could still continue: only the consumed part is checked
                    let text = w.rd.text(&full, Pool::Plain, Layout::Spaced);
                    reparse(w, e, &text);
                    continue;
                }
                // nothing can make a request of this: the tree is that of the longest request in front
                let best = best.unwrap();
                let want = if best == s.len() {
                    Some(whole.clone())
                } else {
                    let t = w.rd.text(&full[..best], Pool::Plain, Layout::Spaced);
                    match run(e, &t) {
                        Out::Ok { tree, rest } if rest == t.len() => Some(tree),
                        _ => None,
                    }
                };
                let want = match want {
                    Some(w) => w,
                    None => continue,
                };
                for glue in [" ", "", "\n#c\n"] {
                    // names of the appended tokens must not change those in front
                    let front = w.rd.text(&full[..best], Pool::Plain, Layout::Spaced);
                    let tail = w.rd.text(&full[best..], Pool::Same, Layout::Spaced);
                    let text = format!("{}{}{}", front, glue, tail);
                    if glue.is_empty() {
                        // only where the tokens stay apart
                        match w.rc.lx.lex(&text) {
                            Ok(ts) if ts.iter().any(|t| t.start == front.len()) && ts.iter().map(|t| t.kind).eq(full.iter().cloned()) => {}
                            _ => continue,
                        }
                    }
                    match reparse(w, e, &text) {
                        Out::Ok { tree, rest } => {
                            if tree != want {
                                w.fail(e, &text, Kind::Own, format!("the text after {:?} cannot continue it, but it changes the tree\n  without {}\n  with    {}", front, want, tree));
                            } else if Lexer::skip(&text, rest) != front.len() + glue.len() && Lexer::skip(&text, rest) != Lexer::skip(&text, front.len()) {
                                w.fail(e, &text, Kind::Own, format!("the remainder {:?} does not start after {:?}", &text[rest..], front));
                            }
                        }
                        Out::Err => w.fail(e, &text, Kind::Own, format!("{:?} parses alone, but not with text after it that cannot continue it", front)),
                        _ => {}
                    }
                }
                if w.stopped() {
                    return;
                }
            }
            // text that is no token at all
            for junk in ["\u{0}", "~", "\\", "`", "é", "\u{1F600}", "%", "&", "|", "$", "@", "\"", "'", "<", "\u{FEFF}", "\u{A0}", "_", "'''", "\"\"\"x", "#", "#x", " ", "\n", "# é\u{1F600}", "\r\n \t"] {
                for glue in [" ", "\n\t"] {
                    let text = format!("{}{}{}", base, glue, junk);
                    match reparse(w, e, &text) {
                        Out::Ok { tree, rest } => {
                            if tree != whole {
                                w.fail(e, &text, Kind::Own, format!("appended junk changes the tree\n  without {}\n  with    {}", whole, tree));
                            } else if Lexer::skip(&text, rest) != Lexer::skip(&text, base.len()) {
                                w.fail(e, &text, Kind::Own, format!("the remainder {:?} does not start after {:?}", &text[rest..], base));
                            }
                        }
                        Out::Err => {
                            // an unterminated token may be the start of something that could continue the request
                            let viable = "\"'<$@_|&%".contains(&junk[..1]);
                            if !viable {
                                w.fail(e, &text, Kind::Own, format!("{:?} parses alone, but not followed by {:?}", base, junk));
                            }
                        }
                        _ => {}
                    }
                }
            }
        }));
    }
    // edited requests: whatever is consumed stands alone
    for (e, alpha) in [(Entry::Query, Q_ALPHA), (Entry::Update, U_ALPHA)] {
        let base = cover(c, e, if c.thorough { 5 } else { 3 }, usize::MAX);
        let alpha = terms(m, alpha);
        let bound = format!("all single-token deletions, replacements and insertions over {} tokens of {} requests, and their text cut off at every character: the consumed part parsed again", alpha.len(), base.len());
        let n = base.len() as u64;
        v.push(par(&format!("edited-{:?}", e), bound, n, 8, move |i, w| {
            let s = &base[i as usize];
            let mut x: Vec<T> = vec![];
            for k in 0..=s.len() {
                for (op, a) in alpha.iter().map(|a| (0, *a)).chain(alpha.iter().map(|a| (1, *a))).chain([(2, 0)]) {
                    x.clear();
                    x.extend(&s[..k]);
                    if op != 2 {
                        x.push(a);
                    }
                    x.extend(&s[(if op == 0 { k } else { (k + 1).min(s.len()) })..]);
                    let t = w.rd.text(&x, Pool::Plain, Layout::Spaced);
                    reparse(w, e, &t);
                }
                if w.stopped() {
                    return;
                }
            }
            for (p, l) in [(Pool::Hard, Layout::Tight), (Pool::Plain, Layout::Spaced)] {
                let t = w.rd.text(s, p, l);
                for (k, _) in t.char_indices() {
                    reparse(w, e, &t[..k]);
                    for ch in ["\u{1F600}", "}", ".", ":", "é"] {
                        reparse(w, e, &format!("{}{}", &t[..k], ch));
                    }
                }
            }
        }));
    }
    // every character after a request
    let ctx: Vec<(Entry, &'static str)> = vec![(Entry::Query, "ASK{}"), (Entry::Query, "SELECT*{}LIMIT 1 "), (Entry::Query, "DESCRIBE ?x"), (Entry::Query, "ASK{}GROUP BY ?x "), (Entry::Query, "ASK{} "), (Entry::Query, "DESCRIBE p:x "), (Entry::Update, "CLEAR ALL"), (Entry::Update, "LOAD<x>"), (Entry::Update, ""), (Entry::Bare, "ASK{}VALUES?x{}")];
    let n = ctx.len() as u64;
    let bound = format!("all 1112064 Unicode scalar values after {} requests: the consumed part parsed again", n);
    v.push(par("any-char", bound, n * 4352, 300, move |i, w| {
        let (e, a) = &ctx[(i % n) as usize];
        for cp in (i / n) * 256..(i / n) * 256 + 256 {
            if let Some(ch) = char::from_u32(cp as u32) {
                reparse(w, *e, &format!("{}{}", a, ch));
                if cp % 17 == 3 {
                    reparse(w, *e, &format!("{}{} x", a, ch));
                }
            }
        }
    }));
    v
}

/// Parses; if something was consumed, that part alone must give the same tree with nothing left.
fn reparse(w: &mut Worker, e: Entry, text: &str) -> Out {
    let o = run(e, text);
    w.cnt.texts += 1;
    match &o {
        Out::Ok { tree, rest } => {
            w.cnt.accepted += 1;
            let used = &text[..*rest];
            match run(e, used) {
                Out::Ok { tree: t2, rest: r2 } => {
                    if t2 != *tree {
                        w.fail(e, text, Kind::Own, format!("the consumed part {:?} alone gives another tree\n  first  {}\n  second {}", used, tree, t2));
                    } else if r2 != used.len() {
                        w.fail(e, text, Kind::Own, format!("the consumed part {:?} alone leaves {:?}", used, &used[r2..]));
                    }
                }
                Out::Err => w.fail(e, text, Kind::Own, format!("the consumed part {:?} alone is rejected; tree {}", used, tree)),
                Out::Panic(p) => w.fail(e, used, Kind::Crash, format!("panic: {}", p)),
                Out::BadRest(p) => w.fail(e, used, Kind::Rest, p),
            }
        }
        Out::Err => w.cnt.rejected += 1,
        Out::Panic(p) => w.fail(e, text, Kind::Crash, format!("panic: {}", p)),
        Out::BadRest(p) => w.fail(e, text, Kind::Rest, p.clone()),
    }
    o
}

pub fn single_pumps(c: &Ctx) -> Vec<Pump> {
    all_pumps(c, true).into_iter().flatten().collect()
}
