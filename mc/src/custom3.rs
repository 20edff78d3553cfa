// Included by props.rs: C24 - C26.

// ------------------------------------------------------------------ C24

/// A position where the grammar allows a fragment: what stands before and after it.
struct Place {
    entry: Entry,
    pre: Vec<T>,
    suf: Vec<T>,
    at: String,
}

fn places(c: &Ctx, frag: &str, wrap: bool) -> Vec<Place> {
    let mut v = vec![];
    let f = c.m.g.nt(frag);
    for e in [Entry::Query, Entry::Update] {
        let cv = Cover::new(c.m, e);
        let mut outer: Vec<(Vec<T>, Vec<T>)> = vec![(vec![], vec![])];
        let mut hub = None;
        if wrap {
            let h = c.m.g.nt("GroupGraphPattern");
            hub = Some(h);
            for p in pumps(c.m, &cv, e, Some(h)) {
                outer.push((p.alpha, p.beta));
            }
        }
        for n in 0..c.m.g.nts.len() {
            for p in &c.m.g.prods[n] {
                for (i, s) in p.iter().enumerate() {
                    if *s != Sym::N(f) {
                        continue;
                    }
                    if let Some((a, b)) = cv.context(n as N) {
                        let mut l = vec![];
                        for x in &p[..i] {
                            cv.ext(&mut l, *x);
                        }
                        let mut r = vec![];
                        for x in &p[i + 1..] {
                            cv.ext(&mut r, *x);
                        }
                        let mut pre = a.clone();
                        pre.extend(&l);
                        let mut suf = r.clone();
                        suf.extend(b);
                        v.push(Place { entry: e, pre, suf, at: c.m.g.nts[n].clone() });
                        // the same position deeper inside
                        if let Some(h) = hub {
                            if let (Some((ca, cb)), Some((x, y))) = (cv.context(h), cv.embedding(h, n as N)) {
                                for (oa, ob) in &outer[1..] {
                                    let mut pre = ca.clone();
                                    pre.extend(oa);
                                    pre.extend(&x);
                                    pre.extend(&l);
                                    let mut suf = r.clone();
                                    suf.extend(&y);
                                    suf.extend(ob);
                                    suf.extend(cb);
                                    v.push(Place { entry: e, pre, suf, at: format!("{} nested", c.m.g.nts[n]) });
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|p| seen.insert((p.entry, p.pre.clone(), p.suf.clone())));
    v
}

fn c24(c: &Ctx) -> Vec<Job> {
    let mut v = vec![];
    let m = c.m;
    // fragment, a form whose sentences are the fragments, fixed parts, two stubs with their canonical forms
    let atoms = "iri=IRIREF ; Var=VAR1 ; RDFLiteral=STRING_LITERAL2 ; NumericLiteral=INTEGER / DECIMAL_NEGATIVE ; BooleanLiteral=TRUE";
    for (frag, stubs, cap, tcap) in [
        ("Expression", format!("{} ; GroupGraphPattern={{ }}", atoms), 1500, 30_000),
        ("Constraint", format!("{} ; GroupGraphPattern={{ }} ; Expression=VAR1", atoms), 400, 4_000),
        ("BuiltInCall", "Expression=VAR1 ; GroupGraphPattern={ } ; Var=VAR1 ; String=STRING_LITERAL2".to_string(), 300, 3_000),
        ("GroupGraphPattern", SKEL.to_string(), 600, 10_000),
        ("TriplesBlock", format!("{} ; Path=a / IRIREF", atoms), 800, 10_000),
        ("TriplesTemplate", atoms.to_string(), 800, 10_000),
        ("GraphNodePath", atoms.to_string(), 800, 10_000),
        ("GraphNode", atoms.to_string(), 800, 10_000),
        ("VarOrTerm", String::new(), 1000, 1_000),
        ("VarOrIri", String::new(), 1000, 1_000),
        ("iri", String::new(), 1000, 1_000),
        ("Var", String::new(), 1000, 1_000),
        ("RDFLiteral", String::new(), 1000, 1_000),
        ("NumericLiteral", String::new(), 1000, 1_000),
        ("DataBlock", atoms.to_string(), 800, 10_000),
        ("Path", "iri=IRIREF".to_string(), 800, 10_000),
        ("SolutionModifier", "Expression=VAR1 ; BuiltInCall=RAND NIL ; iri=IRIREF ; Var=VAR1".to_string(), 800, 10_000),
        ("DatasetClause", String::new(), 100, 100),
        ("WhereClause", SKEL.to_string(), 200, 2_000),
        ("QuadPattern", format!("{} ; TriplesSameSubject=VAR1 a VAR1", atoms), 800, 10_000),
        ("GraphOrDefault", String::new(), 100, 100),
        ("Prologue", "".to_string(), 300, 3_000),
        ("Update1", format!("{} ; GroupGraphPattern={{ }} ; Quads= / VAR1 a VAR1", atoms), 500, 10_000),
    ] {
        let base: Vec<Vec<T>> = Space::new(m, Spec::new(m, Entry::Query, frag, &stubs), c.cap(cap, tcap), 40).all();
        for wrap in [false, true] {
            let pl = places(c, frag, wrap && ["Expression", "GroupGraphPattern", "TriplesBlock", "GraphNodePath", "VarOrTerm", "DataBlock", "Path", "SolutionModifier"].contains(&frag));
            if wrap && pl.len() < 20 {
                continue;
            }
            let frags: Vec<Vec<T>> = if wrap { base.iter().step_by((base.len() / if c.thorough { 400 } else { 40 }).max(1)).cloned().collect() } else { base.clone() };
            let nf = frags.len() as u64;
            let np = pl.len() as u64;
            if np == 0 {
                continue;
            }
            let bound = format!("{} <{}> fragments in each of {} places where the grammar allows one{}", nf, frag, np, if wrap { " (also nested)" } else { "" });
            v.push(par(&format!("{}{}", frag, if wrap { "-nested" } else { "" }), bound, np, 2, move |i, w| {
                let p = &pl[i as usize];
                let put = |w: &mut Worker, f: &[T]| {
                    // names of the surroundings are fixed, so that only the fragment differs
                    let a = w.rd.text(&p.pre, Pool::Same, Layout::Spaced);
                    let b = w.rd.text(f, Pool::Plain, Layout::Spaced);
                    let z = w.rd.text(&p.suf, Pool::Same, Layout::Spaced);
                    [a, b, z].iter().filter(|s| !s.is_empty()).cloned().collect::<Vec<_>>().join(" ")
                };
                for f in &frags {
                    let t = put(w, f);
                    let _ = &p.at;
                    w.check(p.entry, &t);
                    if w.stopped() {
                        return;
                    }
                }
            }));
        }
    }
    v.push(subtrees(c));
    v.push(neighbours(c));
    v
}

/// The sub-tree of an expression, cut out of the tree of each place, is the same text.
fn subtrees(c: &Ctx) -> Job {
    let m = c.m;
    let pl = places(c, "Expression", false);
    let frags = Space::new(m, Spec::new(m, Entry::Query, "Expression", "GroupGraphPattern={ } ; iri=IRIREF ; RDFLiteral=STRING_LITERAL2 ; NumericLiteral=INTEGER / DECIMAL_NEGATIVE ; BooleanLiteral=TRUE ; Var=VAR1"), c.cap(1500, 20_000), 40).all();
    let n = frags.len() as u64;
    let bound = format!("{} expressions in {} places: the sub-tree there (cut out with two marker expressions) equals the one in FILTER ( _ )", n, pl.len());
    let texts: Vec<(Entry, String, String)> = pl
        .iter()
        .map(|p| {
            let mut rd = crate::render::Renderer::new(m);
            (p.entry, rd.text(&p.pre, Pool::Same, Layout::Spaced), rd.text(&p.suf, Pool::Same, Layout::Spaced))
        })
        .collect();
    par("subtrees", bound, n, 20, move |i, w| {
        let f = w.rd.text(&frags[i as usize], Pool::Plain, Layout::Spaced);
        let tree = |e: Entry, a: &str, x: &str, z: &str| match run(e, &format!("{} {} {}", a, x, z)) {
            Out::Ok { tree, .. } => Some(tree),
            _ => None,
        };
        // the marker is a call, whose own sub-tree is read off the reference place
        let mark = "<urn:marker>(?marker)";
        let (ra, rz) = ("ASK { FILTER (", ") }");
        let own = |e: Entry, a: &str, z: &str, sub_mark: &str| -> Option<(String, String)> {
            let t = tree(e, a, mark, z)?;
            let at = t.find(sub_mark)?;
            if t[at + 1..].contains(sub_mark) {
                return None;
            }
            Some((t[..at].to_string(), t[at + sub_mark.len()..].to_string()))
        };
        // the sub-tree of the marker: what two reference requests do not share
        let m0 = tree(Entry::Query, ra, mark, rz);
        let m1 = tree(Entry::Query, ra, "?z", rz);
        let (m0, m1) = match (m0, m1) {
            (Some(a), Some(b)) => (a, b),
            _ => return,
        };
        let pz = m1.find("?1:z").map(|k| (k, k + 4));
        let (lo, _hi) = match pz {
            Some(x) => x,
            None => return,
        };
        // reference: FILTER ( ?z ) = P (something ?1:z something) Q; expressions are written (x ...), so walk back to the bracket
        let start = lo - m1[..lo].chars().rev().take_while(|c| *c != '(').map(|c| c.len_utf8()).sum::<usize>();
        let prefix = &m1[..start.saturating_sub(1)];
        if !m0.starts_with(prefix) {
            return;
        }
        let cut = |t: &str| -> Option<String> {
            // a balanced bracket that starts where the reference differs
            let t = t.strip_prefix(prefix)?;
            balanced(t)
        };
        let (sm, sf) = match (cut(&m0), tree(Entry::Query, ra, &f, rz).and_then(|t| cut(&t))) {
            (Some(a), Some(b)) => (a, b),
            _ => return,
        };
        for (e, a, z) in &texts {
            let text = format!("{} {} {}", a, f, z);
            w.cnt.texts += 1;
            if let (Some((p, q)), Some(t)) = (own(*e, a, z, &sm), tree(*e, a, &f, z)) {
                if t != format!("{}{}{}", p, sf, q) {
                    w.fail(*e, &text, Kind::Own, format!("the expression means something else here\n  expected {}{}{}\n  actual   {}", p, sf, q, t));
                    return;
                }
            }
        }
    })
}
/// The balanced bracket at the start (texts inside are length-prefixed names, which may hold brackets: they are skipped).
fn balanced(t: &str) -> Option<String> {
    let b = t.as_bytes();
    if b.first() != Some(&b'(') {
        return None;
    }
    let mut depth = 0;
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'(' => depth += 1,
            b')' => {
                depth -= 1;
                if depth == 0 {
                    return Some(t[..=i].to_string());
                }
            }
            b'0'..=b'9' => {
                // n:text
                let mut j = i;
                while j < b.len() && b[j].is_ascii_digit() {
                    j += 1;
                }
                if j < b.len() && b[j] == b':' {
                    let n: usize = t[i..j].parse().ok()?;
                    i = j + n;
                } else {
                    i = j - 1;
                }
            }
            _ => {}
        }
        i += 1;
    }
    None
}

/// Clauses side by side: every pair of group members, modifiers, update operations.
fn neighbours(c: &Ctx) -> Job {
    let m = c.m;
    let mut sents: Vec<(Entry, Vec<T>)> = vec![];
    let cap = c.cap(4_000, 60_000);
    for (e, form, stubs) in [
        (Entry::Query, "ASK { GroupEntry GroupEntry GroupEntry }", "GroupGraphPattern={ } ; TriplesBlock=VAR1 a VAR1 ; Constraint=( VAR1 ) / RAND NIL ; Expression=VAR1 ; VarOrIri=VAR1 / IRIREF ; Var=VAR1 ; DataBlock=VAR1 { }"),
        (Entry::Query, "ASK { TriplesBlock GroupEntry }", "GroupGraphPattern={ } ; TriplesSameSubjectPath=VAR1 a VAR1 / [ a VAR1 ] ; Constraint=( VAR1 ) / IRIREF NIL / EXISTS { } ; Expression=VAR1 ; VarOrIri=VAR1 ; Var=VAR1 ; DataBlock=VAR1 { }"),
        (Entry::Query, "CONSTRUCT { ConstructTriples } { TriplesBlock } SolutionModifier", "VarOrTerm=VAR1 ; Path=a ; Var=VAR1 ; Expression=VAR1 ; BuiltInCall=RAND NIL ; iri=IRIREF"),
        (Entry::Query, "SelectClause DatasetClause WhereClause SolutionModifier ValuesClause", "iri=IRIREF ; Var=VAR1 ; Expression=VAR1 ; GroupGraphPattern={ } / { VAR1 a VAR1 } ; BuiltInCall=RAND NIL ; DataBlock=VAR1 { }"),
        (Entry::Query, "ASK { FILTER ( Expression || Expression ) }", "PrimaryExpression=VAR1 / INTEGER / RAND NIL"),
        (Entry::Update, "Update1 ; Update1", "iri=IRIREF ; Quads= / VAR1 a VAR1 ; GroupGraphPattern={ }"),
        (Entry::Update, "Prologue Modify ; Prologue Modify", "iri=IRIREF ; Quads= ; GroupGraphPattern={ }"),
    ] {
        for s in Space::new(m, Spec::new(m, e, form, stubs), cap, 60).all() {
            sents.push((e, s));
        }
    }
    let n = sents.len() as u64;
    par("neighbours", format!("{} requests with every two or three clauses side by side", n), n, 200, move |i, w| {
        let (e, s) = &sents[i as usize];
        for (p, l) in BOTH {
            let t = w.rd.text(s, *p, *l);
            w.accept(*e, &t);
        }
    })
}

// ------------------------------------------------------------------ C25

/// (tree, consumed bytes) as text
fn answer(e: Entry, text: &str) -> String {
    match run(e, text) {
        Out::Ok { tree, rest } => format!("ok {} {}", rest, tree),
        Out::Err => "err".into(),
        Out::Panic(p) => format!("panic {}", p),
        Out::BadRest(p) => format!("rest {}", p),
    }
}

fn c25_inputs() -> Vec<(Entry, &'static str)> {
    use Entry::*;
    vec![
        (Query, "PREFIX p: <x> SELECT DISTINCT ?a (1+2*3 AS ?b) FROM <d> { ?a p:b/p:c* 'x'@en ; a [ p:d (1 2) ] OPTIONAL { ?a ?b ?c } FILTER(?a > 1 && !BOUND(?b)) } GROUP BY ?a LIMIT 5 VALUES ?x { 1 UNDEF }"),
        (Query, "PREFIX q: <y> SELECT REDUCED ?a (1*2+3 AS ?c) FROM <e> { ?a q:b|q:c+ 'y'@de ; a [ q:d (3 4) ] OPTIONAL { ?d ?e ?f } FILTER(?a < 2 || !BOUND(?c)) } ORDER BY ?a LIMIT 6 VALUES ?y { 2 UNDEF }"),
        (Query, "ASK { { { { ?a ?b ?c } UNION { ?d ?e ?f } } } }"),
        (Query, "ASK { { { { ?a ?b ?c } UNION { ?d ?e ?f } } }"),
        (Query, "ASK { FILTER ( ( ( ( 1 = "),
        (Query, "ASK { ?s ?p 'unterminated"),
        (Query, "SELECT (COUNT(DISTINCT ?x) AS ?n) { ?x a <t> # comment"),
        (Query, ""),
        (Query, "CONSTRUCT { ?a ?b 1.5e3 } WHERE { ?a ?b _:c . [] a () }"),
        (Query, "DESCRIBE <http://e/x> p:y ?z FROM NAMED <n>"),
        (Bare, "SELECT * { ?s a ?o }"),
        (Bare, "SELECT * { ?s A ?o }"),
        (Update, "WITH <g> DELETE { ?a ?b ?c } INSERT { GRAPH ?g { ?a ?b 2 } } USING <u> WHERE { ?a ?b ?c } ; CLEAR SILENT ALL ;"),
        (Update, "INSERT DATA { <s> <p> 1 . GRAPH <g> { <s> <p> 'é' } <t> a <u> } ; LOAD <x> INTO GRAPH <y>"),
        (Update, "INSERT DATA { <s> <p> "),
        (Update, "DELETE WHERE { ?s ?p ?o } ; COPY DEFAULT TO <x>; bogus"),
    ]
}

/// The answers of a process that has parsed nothing else.
fn fresh_answers(inputs: &[(Entry, String)]) -> Vec<Option<String>> {
    let exe = std::env::current_exe().expect("exe");
    let mut out = vec![None; inputs.len()];
    let next = std::sync::atomic::AtomicUsize::new(0);
    let slots: std::sync::Mutex<&mut Vec<Option<String>>> = std::sync::Mutex::new(&mut out);
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= inputs.len() {
                    return;
                }
                let r = std::process::Command::new(&exe).arg("answer").arg(format!("{}", inputs[i].0.code())).stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().and_then(|mut ch| {
                    use std::io::Write;
                    let mut si = ch.stdin.take().unwrap();
                    let _ = si.write_all(inputs[i].1.as_bytes());
                    drop(si);
                    let t0 = std::time::Instant::now();
                    while ch.try_wait()?.is_none() {
                        if t0.elapsed().as_secs() > 30 {
                            let _ = ch.kill();
                        }
                        std::thread::sleep(std::time::Duration::from_millis(5));
                    }
                    ch.wait_with_output()
                });
                if let Ok(o) = r {
                    if o.status.success() {
                        slots.lock().unwrap()[i] = String::from_utf8(o.stdout).ok();
                    }
                }
            });
        }
    });
    out
}
pub fn answer_main(code: u8, text: &str) {
    print!("{}", answer(Entry::from_code(code), text));
}

fn c25(c: &Ctx) -> Vec<Job> {
    let inputs: Vec<(Entry, String)> = c25_inputs().into_iter().map(|(e, t)| (e, t.to_string())).collect();
    let fresh = fresh_answers(&inputs);
    let inputs = std::sync::Arc::new(inputs);
    let fresh: std::sync::Arc<Vec<String>> = std::sync::Arc::new(fresh.into_iter().map(|x| x.unwrap_or_else(|| "crash".into())).collect());
    let mut v = vec![];
    let n = inputs.len() as u64;
    // a worker is one process image; every history is a sequence of calls in it
    let len = if c.thorough { 5 } else { 4 };
    let total: u64 = (1..=len).map(|l| n.pow(l)).sum();
    let (inp, fr) = (inputs.clone(), fresh.clone());
    v.push(par("histories", format!("all {} sequences of at most {} calls over {} inputs (well-formed, malformed, broken off; queries and updates), every answer compared with that of a process that made no other call", total, len, n), total, 2000, move |mut i, w| {
        let mut l = 1;
        while i >= n.pow(l) {
            i -= n.pow(l);
            l += 1;
        }
        let mut hist = vec![];
        for _ in 0..l {
            hist.push((i % n) as usize);
            i /= n;
        }
        // only the last call is new: its history is a path of the tree of histories
        for (k, &h) in hist.iter().enumerate() {
            let (e, t) = &inp[h];
            let a = answer(*e, t);
            if a != fr[h] {
                let text = t.clone();
                w.fail(*e, &text, Kind::Own, format!("after the calls {:?} of {:?} the answer is {}, in a fresh process it is {}", &hist[..k], inp.iter().map(|x| &x.1).collect::<Vec<_>>(), a, fr[h]));
                return;
            }
        }
        w.cnt.texts += l as u64;
        w.cnt.accepted += 1;
        if w.cnt.samples.is_empty() {
            w.cnt.samples.push(format!("calls {:?}", hist));
        }
    }));
    // any call many times, then every call
    let (inp, fr) = (inputs.clone(), fresh.clone());
    let reps: &'static [usize] = if c.thorough { &[2, 10, 127, 255, 256, 1000, 5000, 66_000] } else { &[2, 10, 127, 256, 1000, 3000] };
    v.push(par("repeated", format!("every input {:?} times in a row, then every input", reps), n * reps.len() as u64, 1, move |i, w| {
        let h = (i % n) as usize;
        let r = reps[(i / n) as usize];
        for k in 0..r {
            let (e, t) = &inp[h];
            if k % 100 == 0 {
            }
            let a = if k % 50 == 0 { answer(*e, t) } else { run_raw(*e, t); continue };
            if a != fr[h] {
                w.fail(*e, &t.clone(), Kind::Own, format!("after {} calls with the same text the answer is {}, at first it was {}", k, a, fr[h]));
                return;
            }
        }
        for (j, (e, t)) in inp.iter().enumerate() {
            let a = answer(*e, t);
            w.cnt.texts += 1;
            if a != fr[j] {
                w.fail(*e, &t.clone(), Kind::Own, format!("after {} calls with {:?} the answer is {}, in a fresh process it is {}", r, inp[h].1, a, fr[j]));
                return;
            }
        }
    }));
    // every request cut off at every token, many times, then nested requests
    let m = c.m;
    let mut broken: Vec<(Entry, Vec<T>)> = vec![];
    for e in [Entry::Query, Entry::Update] {
        let s = cover(c, e, if c.thorough { 5 } else { 4 }, usize::MAX);
        for p in config_prefixes(c, e, &s) {
            broken.push((e, p));
        }
    }
    let deep: Vec<(Entry, String)> = vec![
        (Entry::Query, format!("ASK {{ FILTER ( {}1{} ) }}", "( ".repeat(30), " )".repeat(30))),
        (Entry::Query, format!("ASK {{ {} ?a ?b ?c {} }}", "{ ".repeat(30), " }".repeat(30))),
        (Entry::Query, format!("ASK {{ ?s ?p {} 1 {} }}", "[ a ( ".repeat(15), " ) ]".repeat(15))),
        (Entry::Query, format!("ASK {{ ?s {} <p> {} ?o }}", "( ".repeat(30), " )*".repeat(30))),
        (Entry::Query, format!("ASK {{ {} {} }}", "{ SELECT * { FILTER EXISTS { ".repeat(8), " } } }".repeat(8))),
        (Entry::Query, format!("ASK {{ FILTER STR({}?x{}) }}", "STR(".repeat(30), ")".repeat(30))),
        (Entry::Update, format!("{}CLEAR ALL", "CLEAR ALL ; ".repeat(30))),
    ];
    let dfresh: Vec<String> = fresh_answers(&deep).into_iter().map(|x| x.unwrap_or_else(|| "crash".into())).collect();
    let nb = broken.len() as u64;
    let times = if c.thorough { 3000 } else { 150 };
    v.push(par("broken-off", format!("{} prefixes of requests (one for every automaton configuration and last token) parsed {} times each, then {} deeply nested requests", nb, times, deep.len()), nb, 8, move |i, w| {
        let (e, p) = &broken[i as usize];
        let t = w.rd.text(p, Pool::Plain, Layout::Spaced);
        let first = answer(*e, &t);
        for _ in 0..times {
            run_raw(*e, &t);
        }
        let last = answer(*e, &t);
        w.cnt.texts += 2;
        if first != last {
            w.fail(*e, &t, Kind::Own, format!("first {}, after {} calls {}", first, times, last));
        }
        for (j, (e, d)) in deep.iter().enumerate() {
            let a = answer(*e, d);
            w.cnt.texts += 1;
            if a != dfresh[j] {
                w.fail(*e, &d.clone(), Kind::Own, format!("after {} calls with {:?} the answer is {}, in a fresh process it is {}", times, t, a, dfresh[j]));
                return;
            }
        }
        let _ = m;
    }));
    // where the text is stored: same buffer with other contents, offsets, neighbours
    let mut list: Vec<(Entry, String)> = inputs.iter().cloned().collect();
    for e in [Entry::Query, Entry::Update] {
        let mut rd = crate::render::Renderer::new(m);
        for s in cover(c, e, 3, usize::MAX) {
            list.push((e, rd.text(&s, Pool::Plain, Layout::Spaced)));
        }
    }
    let nl = list.len() as u64;
    v.push(par("storage", format!("{} texts at 17 offsets of a buffer that held another text of the same length before, with 6 kinds of bytes before and after", nl), nl, 20, move |i, w| {
        let (e, t) = &list[i as usize];
        let want = answer(*e, t);
        let around = ["\0", "a", "9", "\"", "}", "é"];
        let mut buf = String::with_capacity(t.len() + 256);
        for off in 0..17usize {
            for ar in around {
                // another text of the same length at the same address first
                for first in [false, true] {
                    buf.clear();
                    while buf.len() + ar.len() <= off {
                        buf.push_str(ar);
                    }
                    while buf.len() < off {
                        buf.push('x');
                    }
                    if first {
                        // same length, other names and values
                        let other: String = t.chars().map(|c| match c { '0'..='8' => (c as u8 + 1) as char, 'x' => 'y', 'e' => 'f', '+' => '-', '*' => '/', c => c }).collect();
                        buf.push_str(&other);
                    } else {
                        buf.push_str(t);
                    }
                    buf.push_str(ar);
                    let s = &buf[off..off + t.len()];
                    let a = answer(*e, s);
                    w.cnt.texts += 1;
                    if !first && a != want {
                        w.fail(*e, t, Kind::Own, format!("stored at offset {} between {:?} the answer is {}, elsewhere it is {}", off, ar, a, want));
                        return;
                    }
                    if first && a == want && s != t && a.starts_with("ok") && s.chars().filter(|c| c.is_ascii_digit()).ne(t.chars().filter(|c| c.is_ascii_digit())) && !s.contains('#') && off == 0 && w.rc.decide(*e, s) != w.rc.decide(*e, t) {
                        w.fail(*e, &s.to_string(), Kind::Own, format!("gives the tree of {:?}, which was parsed before it", t));
                        return;
                    }
                }
            }
            if off > 4 && i % 16 != 0 {
                break;
            }
        }
    }));
    // all the requests of a cover one after the other in two orders, against the model
    for e in [Entry::Query, Entry::Update] {
        let s = cover(c, e, if c.thorough { 6 } else { 5 }, usize::MAX);
        let n = s.len() as u64;
        v.push(par(&format!("order-{:?}", e), format!("{} requests, each parsed again after every one of its four neighbours in two orders", n), n, 100, move |i, w| {
            let t = w.rd.text(&s[i as usize], Pool::Plain, Layout::Spaced);
            let (_, first) = w.accept(e, &t);
            for k in [1u64, 2, n / 2, n - 1] {
                let o = w.rd.text(&s[((i + k) % n) as usize], Pool::Plain, Layout::Spaced);
                run(e, &o);
                run(if e == Entry::Query { Entry::Update } else { Entry::Query }, &o);
                let again = run(e, &t);
                w.cnt.texts += 1;
                if again != first {
                    w.fail(e, &t, Kind::Own, format!("after parsing {:?} the answer is {:?}, before it was {:?}", o, again, first));
                }
            }
        }));
    }
    v
}

// ------------------------------------------------------------------ C26

fn norm(tree: &str) -> String {
    // -0 and 0 are equal numbers
    tree.replace("dbl8000000000000000", "dbl0")
}

fn c26(c: &Ctx) -> Vec<Job> {
    let mut v = vec![];
    let m = c.m;
    for e in [Entry::Query, Entry::Update, Entry::Bare] {
        let mut sents = cover(c, e, if c.thorough { 5 } else { 4 } - if e == Entry::Bare { 1 } else { 0 }, usize::MAX);
        sents.dedup();
        let mut rd = crate::render::Renderer::new(m);
        let texts: std::sync::Arc<Vec<String>> = std::sync::Arc::new(sents.iter().map(|s| rd.text(s, Pool::Same, Layout::Spaced)).collect());
        // canonical forms come from the model, trees from the crate
        let parsed: std::sync::Arc<std::sync::OnceLock<Vec<Option<(String, Ast)>>>> = Default::default();
        let n = texts.len() as u64;
        v.push(par(&format!("pairs-{:?}", e), format!("all {} ordered pairs of {} requests (grammar cover, same names throughout): equal trees exactly when the model's canonical forms are equal", n * n, n), n, 4, move |i, w| {
            let all = parsed.get_or_init(|| {
                let mut rc = crate::exec::RefCtx::new(m);
                texts
                    .iter()
                    .map(|t| match (rc.decide(e, t), run_ast(e, t)) {
                        (Ref::Accept(k), Some((_, a))) => Some((norm(&k), a)),
                        _ => None,
                    })
                    .collect()
            });
            let (k, a) = match &all[i as usize] {
                Some(x) => x,
                None => return,
            };
            w.cnt.accepted += 1;
            if w.cnt.samples.is_empty() {
                w.cnt.samples.push(texts[i as usize].clone());
            }
            check_clone(w, e, &texts[i as usize], a);
            for (j, o) in all.iter().enumerate() {
                if let Some((k2, a2)) = o {
                    w.cnt.texts += 1;
                    if (a == a2) != (k == k2) || (a != a2) == (k == k2) {
                        w.fail(e, &texts[i as usize], Kind::Own, format!("compared with {:?}: trees {}, but the requests {}", texts[j], if a == a2 { "equal" } else { "unequal" }, if k == k2 { "say the same" } else { "differ" }));
                        return;
                    }
                }
            }
        }));
        // every request against every variation of one of its tokens
        let n = sents.len() as u64;
        let alpha = terms(m, if e == Entry::Update { U_ALPHA } else { Q_ALPHA });
        let thorough = c.thorough;
        v.push(par(&format!("variations-{:?}", e), format!("{} requests against every accepted replacement, deletion, insertion and swap of one token over {} tokens, and every other spelling of one token", n, alpha.len()), n, 8, move |i, w| {
            let s = &sents[i as usize];
            let base = w.rd.text(s, Pool::Plain, Layout::Spaced);
            let (k0, a0) = match (w.rc.decide(e, &base), run_ast(e, &base)) {
                (Ref::Accept(k), Some((_, a))) => (norm(&k), a),
                _ => return,
            };
            check_clone(w, e, &base, &a0);
            let mut other = |w: &mut Worker, t: &str| {
                if let Ref::Accept(k) = w.rc.decide(e, t) {
                    if let Some((_, a)) = run_ast(e, t) {
                        w.cnt.texts += 1;
                        let same = norm(&k) == k0;
                        if (a == a0) != same || (a0 == a) != same || (a != a0) == same {
                            w.fail(e, t, Kind::Own, format!("compared with {:?}: trees {}, but the requests {}", base, if a == a0 { "equal" } else { "unequal" }, if same { "say the same" } else { "differ" }));
                        }
                        check_clone(w, e, t, &a);
                    }
                }
            };
            let mut x: Vec<T> = vec![];
            for at in 0..=s.len() {
                for (op, a) in alpha.iter().map(|a| (0, *a)).chain(alpha.iter().map(|a| (1, *a))).chain([(2, 0), (3, 0)]) {
                    x.clear();
                    match op {
                        3 if at + 1 < s.len() => {
                            x.extend(s);
                            x.swap(at, at + 1);
                        }
                        3 => continue,
                        _ => {
                            x.extend(&s[..at]);
                            if op != 2 {
                                x.push(a);
                            }
                            x.extend(&s[(if op == 0 { at } else { (at + 1).min(s.len()) })..]);
                        }
                    }
                    // cheap test first
                    if m.g.parse(m.start(e), &x, &mut w.rc.seen).is_err() {
                        continue;
                    }
                    let t = w.rd.text(&x, Pool::Same, Layout::Spaced);
                    let _ = &t;
                    // the same names as in the base where possible: number leaves by position
                    let t = w.rd.text(&x, Pool::Plain, Layout::Spaced);
                    other(w, &t);
                }
                if w.stopped() {
                    return;
                }
            }
            // other spellings of one token
            w.rd.pieces(s, Pool::Plain);
            let ps = w.rd.pieces.clone();
            for j in 0..ps.len() {
                for alt in spellings(&ps[j].0) {
                    w.rd.pieces = ps.clone();
                    w.rd.pieces[j].0 = alt;
                    let t = w.rd.join(Layout::Spaced);
                    other(w, &t);
                }
            }
            // other layouts and cases
            let t = w.rd.text(s, Pool::Plain, Layout::Tight);
            other(w, &t);
            let t = base.replace(' ', "\n#c\n");
            other(w, &t);
            w.rd.pieces(s, Pool::Plain);
            for p in w.rd.pieces.iter_mut() {
                if is_keyword(&p.0) {
                    p.0 = p.0.to_ascii_lowercase();
                }
            }
            let t = w.rd.join(Layout::Spaced);
            other(w, &t);
            let _ = thorough;
        }));
    }
    // values: every two spellings of literals and names
    let mut vals: Vec<String> = vec![];
    for s in ["0", "00", "1", "01", "10", "+1", "-1", "+0", "-0", "0.0", "1.0", "1.", ".5", "0.5", "0.50", "5e-1", "5E-1", "1e0", "1e1", "10e0", "10.0", "1.0e1", "-1.0", "+1.0", "-.5", "9007199254740992", "9007199254740993", "9223372036854775807", "1e00", "100e-2", "0e0", "0e5", "'a'", "\"a\"", "'''a'''", "\"\"\"a\"\"\"", "'A'", "''", "\"\"", "''''''", "'a '", "' a'", "'\\a'", "'\\\\'", "'\\n'", "'''\n'''", "'a'@en", "'a'@EN", "'a'@en-us", "'b'@en", "'a'^^<d>", "'a'^^<D>", "'a'^^p:d", "'a'^^p:", "'a'^^:d", "\"a\"@en", "true", "false", "TRUE", "tRue", "<a>", "<A>", "<a#>", "<>", "<p:a>", "p:a", "p:A", "P:a", "p:", ":a", ":", "p:a.b", "p:%41", "p:%61", "p:\\-", "p:-", "?a", "$a", "?A", "?b", "_:a", "_:A", "_:b", "[]", "[ ]", "()", "( )", "(1)", "(1 2)", "((1) 2)", "(1 (2))", "[a 1]", "[a 1;]", "[a 1,1]", "[a 1;a 1]", "[?p 1]"] {
        vals.push(s.to_string());
    }
    let ctxs: Vec<(Entry, &'static str)> = vec![(Entry::Query, "ASK{?s ?p @ }"), (Entry::Query, "ASK{@ ?p 1}"), (Entry::Query, "ASK{FILTER(@ )}"), (Entry::Query, "ASK{VALUES ?x{@ }}"), (Entry::Query, "ASK{FILTER(STR(@ )IN(@ ))}"), (Entry::Query, "CONSTRUCT{?s ?p @ }{}"), (Entry::Update, "INSERT DATA{?s ?p @ }"), (Entry::Query, "SELECT(@ AS ?x){}"), (Entry::Query, "ASK{}ORDER BY(@ )"), (Entry::Query, "DESCRIBE @ "), (Entry::Query, "ASK{?s @ ?o}"), (Entry::Query, "ASK{?s(@ /<q>)* ?o}"), (Entry::Update, "LOAD @ "), (Entry::Query, "ASK{GRAPH @ {}}"), (Entry::Query, "ASK{} HAVING(1+@ )")];
    let nv = vals.len() as u64;
    let nc = ctxs.len() as u64;
    v.push(par("values", format!("all ordered pairs of {} spellings of literals, names and nodes, in {} positions", nv, nc), nv * nc, 20, move |i, w| {
        let (e, cx) = ctxs[(i / nv) as usize];
        let put = |s: &str| cx.replace('@', &s.replace('@', "\u{1}")).replace('\u{1}', "@");
        let t = put(&vals[(i % nv) as usize]);
        let (k0, a0) = match (w.rc.decide(e, &t), run_ast(e, &t)) {
            (Ref::Accept(k), Some((r, a))) if r == 0 => (norm(&k), a),
            _ => return,
        };
        w.cnt.accepted += 1;
        for o in &vals {
            let t2 = put(o);
            if let (Ref::Accept(k), Some((0, a))) = (w.rc.decide(e, &t2), run_ast(e, &t2)) {
                w.cnt.texts += 1;
                let same = norm(&k) == k0;
                if (a == a0) != same {
                    w.fail(e, &t2, Kind::Own, format!("compared with {:?}: trees {}, but the requests {}", t, if a == a0 { "equal" } else { "unequal" }, if same { "say the same" } else { "differ" }));
                    return;
                }
            }
        }
    }));
    v
}

fn check_clone(w: &mut Worker, e: Entry, text: &str, a: &Ast) {
    let b = a.clone();
    if b != *a || *a != b {
        w.fail(e, text, Kind::Own, "a clone is unequal to its original".to_string());
    } else if b.canon() != a.canon() {
        w.fail(e, text, Kind::Own, format!("a clone differs from its original\n  original {}\n  clone    {}", a.canon(), b.canon()));
    }
    #[allow(clippy::eq_op)]
    if a != a {
        w.fail(e, text, Kind::Own, "a tree is unequal to itself".to_string());
    }
}

/// Other spellings in the place of a token; whether they mean the same is for the model to say.
fn spellings(p: &str) -> Vec<String> {
    let f = |c: char| p.starts_with(c);
    let mut v: Vec<String> = vec![];
    if f('?') || f('$') {
        v.extend([format!("?{}", &p[1..]), format!("${}", &p[1..]), format!("{}x", p), p.to_uppercase(), "?a".into()]);
    } else if f('<') && p.ends_with('>') {
        v.extend(["<>".into(), p.to_uppercase(), p.replace('>', "#>"), "p:l0".into(), "q0:".into(), ":x".into()]);
    } else if f('"') || f('\'') {
        let b = p.trim_matches(|c| c == '"' || c == '\'');
        for q in ["'", "\"", "'''", "\"\"\""] {
            for x in [b.to_string(), format!("{} ", b), b.to_uppercase(), String::new()] {
                v.push(format!("{}{}{}", q, x, q));
            }
        }
        v.extend([format!("{}@en", p), format!("{}^^<d>", p)]);
    } else if f('@') {
        v.extend([p.to_uppercase(), "@de".into(), format!("{}-x", p)]);
    } else if f('_') {
        v.extend([p.to_uppercase().replace("_:", "_:"), format!("{}x", p)]);
    } else if p.trim_start_matches(|c| c == '+' || c == '-').starts_with(|c: char| c.is_ascii_digit() || c == '.') && p.len() > 1 || p.starts_with(|c: char| c.is_ascii_digit()) {
        let u = p.trim_start_matches(|c| c == '+' || c == '-');
        v.extend([format!("0{}", u), format!("{}0", p), format!("+{}", u), format!("-{}", u), u.to_string(), format!("{}{}", p, if p.contains('.') || p.contains('e') { "" } else { ".0" }), "7".into(), "7.5".into(), "7e7".into(), "'7'".into()]);
    } else if p.contains(':') {
        v.extend([p.to_uppercase(), format!("{}x", p), ":x".into(), ":".into(), "<x>".into(), "p0:".into()]);
    } else if is_keyword(p) {
        v.extend([p.to_lowercase(), case_mask(p, 1), case_mask(p, 0x5555)]);
    }
    v.retain(|x| x != p);
    v
}
