// Included by props.rs: two and more parses at the same time, under a scheduler.
use crate::sched;

type Parsed = Result<Option<(usize, crate::exec::Ast)>, ()>;

fn parsed(e: Entry, t: &str) -> Parsed {
    std::panic::catch_unwind(|| crate::exec::run_ast(e, t)).map_err(|_| ())
}

/// A starts, is suspended at its point k, B runs to its point j (or to its end), A runs to its end, B runs to its end.
/// When one waits for the other (a lock), the other goes on after a while.
fn two_threads(a: (Entry, &str), k: u64, b: (Entry, &str), j: u64) -> (Parsed, Option<Parsed>) {
    use std::sync::mpsc::channel;
    let (paused_tx, paused_rx) = channel::<()>();
    let (go_tx, go_rx) = channel::<()>();
    let (be, bt) = (b.0, b.1.to_string());
    let wait = std::time::Duration::from_millis(300);
    let mut job = Some(move || {
        std::thread::Builder::new()
            .stack_size(32 << 20)
            .spawn(move || {
                let paused = paused_tx.clone();
                let mut hook = || {
                    let _ = paused.send(());
                    let _ = go_rx.recv_timeout(wait);
                    sched::OFF
                };
                let r = sched::interrupted(j, &mut hook, || parsed(be, &bt));
                let _ = paused_tx.send(());
                r
            })
            .unwrap()
    });
    let mut other: Option<std::thread::JoinHandle<Parsed>> = None;
    let mut hook = || {
        if let Some(f) = job.take() {
            other = Some(f());
            let _ = paused_rx.recv_timeout(wait);
        }
        sched::OFF
    };
    let ra = sched::interrupted(k, &mut hook, || parsed(a.0, a.1));
    let _ = go_tx.send(());
    let rb = other.map(|h| h.join().unwrap_or(Err(())));
    (ra, rb)
}

/// All of them begun before any ends: each is suspended at its point while the rest run.
fn pile(reqs: std::sync::Arc<Vec<(Entry, String, u64)>>, i: usize) -> Vec<Parsed> {
    let (e, t, k) = &reqs[i];
    let mut rest: Vec<Parsed> = vec![];
    let mut done = false;
    let mut hook = || {
        if !done && i + 1 < reqs.len() {
            done = true;
            let r = reqs.clone();
            rest = std::thread::Builder::new().stack_size(32 << 20).spawn(move || pile(r, i + 1)).unwrap().join().unwrap_or_default();
        }
        sched::OFF
    };
    let own = sched::interrupted(*k, &mut hook, || parsed(*e, t));
    let mut v = vec![own];
    v.extend(rest);
    v
}

fn agrees(w: &mut Worker, e: Entry, t: &str, got: &Parsed, when: &dyn Fn() -> String) -> bool {
    w.cnt.texts += 1;
    let out = match got {
        Err(()) => Out::Panic("panic".into()),
        Ok(None) => Out::Err,
        Ok(Some((rest, x))) => Out::Ok { tree: x.canon(), rest: t.len() - rest },
    };
    let r = w.rc.decide(e, t);
    match &r {
        Ref::Accept(_) => w.cnt.accepted += 1,
        Ref::Reject(_) => w.cnt.rejected += 1,
        Ref::Unspec(_) => w.cnt.unspec += 1,
    }
    if let Some((_, d)) = crate::exec::compare(&mut w.rc, e, t, &r, &out) {
        w.fail(e, t, Kind::Own, format!("{}: {}", when(), d));
        return false;
    }
    true
}

/// Every interleaving of two parses with one preemption, and of some with two, at the points where memory is taken or given back.
fn interleaved(c: &Ctx) -> Vec<Job> {
    let m = c.m;
    let mut firsts: Vec<(Entry, Vec<T>)> = vec![];
    for e in [Entry::Query, Entry::Update] {
        for s in cover(c, e, if c.thorough { 4 } else { 3 }, usize::MAX) {
            firsts.push((e, s));
        }
    }
    let n = firsts.len() as u64;
    let mut v = vec![];
    let others: std::sync::Arc<Vec<(Entry, String)>> = std::sync::Arc::new({
        let mut o: Vec<(Entry, String)> = c25_inputs().into_iter().filter(|x| x.0 != Entry::Bare).map(|(e, t)| (e, t.to_string())).collect();
        o.push((Entry::Query, format!("ASK {}{}", "{".repeat(60), "}".repeat(60))));
        o.push((Entry::Query, format!("ASK{{FILTER{}1{}}}", "(".repeat(40), ")".repeat(40))));
        o.push((Entry::Query, format!("ASK{{FILTER{}1{}", "(".repeat(40), ")".repeat(39))));
        o.push((Entry::Update, format!("INSERT DATA{{<s><p>{}1{}}}", "(".repeat(40), ")".repeat(40))));
        o
    });
    let most = if c.thorough { 400 } else { 60 };
    let oth = others.clone();
    v.push(par(
        "preempted",
        format!("{} requests (grammar cover), suspended at each of their first and last {} allocations and releases of memory (all, when there are at most {}), while another thread parses: the same text, the text with other names, broken off, and {} other requests in turn", n, most / 2, most, others.len()),
        n,
        8,
        move |i, w| {
            let (e, s) = &firsts[i as usize];
            let a = w.rd.text(s, Pool::Plain, Layout::Spaced);
            let names = w.rd.text(s, Pool::Desc, Layout::Busy);
            let cut = a[..a.char_indices().map(|x| x.0).nth(a.chars().count() * 3 / 4).unwrap_or(0)].to_string();
            let (_, pts) = sched::points(|| parsed(*e, &a));
            let mut k = 0;
            while k < pts {
                if pts > most && k == most / 2 {
                    k = pts - most / 2;
                }
                let turn = &oth[(i as usize + k as usize) % oth.len()];
                for (be, b) in [(*e, &a), (*e, &names), (*e, &cut), (turn.0, &turn.1)] {
                    let (ra, rb) = two_threads((*e, &a), k, (be, b), sched::OFF);
                    w.cnt.states += 1;
                    w.cnt.steps += 2;
                    agrees(w, *e, &a, &ra, &|| format!("suspended at allocation {} while another thread parsed {:?}", k, b));
                    if let Some(rb) = rb {
                        agrees(w, be, b, &rb, &|| format!("parsed while another thread was suspended at allocation {} of {:?}", k, a));
                    }
                }
                k += 1;
                if w.stopped() {
                    return;
                }
            }
            if w.cnt.samples.is_empty() {
                w.cnt.samples.push(a);
            }
        },
    ));
    // two preemptions
    let short: Vec<(Entry, String)> = {
        let mut o: Vec<(Entry, String)> = vec![];
        for t in ["ASK { ?a ?b 'x' }", "ASK { FILTER(1 + 2 > ?x) }", "SELECT ?a (?b AS ?c) { } LIMIT 3", "PREFIX p: <x> ASK { p:a p:b/p:c ?z }", "PREFIX p: <y> ASK { p:a p:b|^p:c _:z }", "ASK { } VALUES ?x { 1 'y'@en }", "ASK { { } UNION { ?s a ?o } }", "CONSTRUCT { ?s ?p (1 []) } { }", "ASK { FILTER(STR(?x) = 'y'", "DESCRIBE <a> ?b"] {
            o.push((Entry::Query, t.to_string()));
        }
        for t in ["INSERT DATA { <s> <p> 1 } ; CLEAR ALL", "WITH <g> DELETE { ?a ?b 2 } WHERE { }", "LOAD <x> INTO GRAPH <y> ;", "DELETE DATA { GRAPH <g> { <s> a <o>"] {
            o.push((Entry::Update, t.to_string()));
        }
        o
    };
    let n = (short.len() * short.len()) as u64;
    let (lim, step) = if c.thorough { (200, 1) } else { (40, 1) };
    v.push(par("preempted-twice", format!("all {} ordered pairs of {} requests: A to its allocation k, B to its allocation j, A to its end, B to its end, for all k and j up to {}", n, short.len(), lim), n, 1, move |i, w| {
        let (a, b) = (&short[i as usize / short.len()], &short[i as usize % short.len()]);
        let (_, pa) = sched::points(|| parsed(a.0, &a.1));
        let (_, pb) = sched::points(|| parsed(b.0, &b.1));
        for k in (0..pa.min(lim)).step_by(step) {
            for j in (0..pb.min(lim)).step_by(step) {
                let (ra, rb) = two_threads((a.0, &a.1), k, (b.0, &b.1), j);
                w.cnt.states += 1;
                w.cnt.steps += 4;
                agrees(w, a.0, &a.1, &ra, &|| format!("suspended at allocation {} while another thread parsed {:?} up to its allocation {}", k, b.1, j));
                if let Some(rb) = rb {
                    agrees(w, b.0, &b.1, &rb, &|| format!("suspended at allocation {} while another thread finished parsing {:?}, begun up to its allocation {} before", j, a.1, k));
                }
            }
            if w.stopped() {
                return;
            }
        }
        if w.cnt.samples.is_empty() {
            w.cnt.samples.push(a.1.clone());
        }
    }));
    // many at once
    let mut deep: Vec<(Entry, String)> = vec![];
    for g in all_pumps(c, false) {
        if let Some(p) = g.iter().find(|p| p.nests()) {
            let mut rd = crate::render::Renderer::new(m);
            deep.push((p.entry, rd.text(&p.at(60), Pool::Plain, Layout::Spaced)));
        }
    }
    deep.extend(others.iter().cloned());
    let n = deep.len() as u64;
    let many: &'static [usize] = if c.thorough { &[2, 3, 4, 6, 8, 12, 16, 24, 32] } else { &[2, 4, 8, 16] };
    v.push(par("many-at-once", format!("{} requests, most of them nested 60 deep: {:?} threads, each suspended at the first, a middle or the last allocation of its parse while the others run: all of the same request, and each of another", n, many), n, 1, move |i, w| {
        let counts: Vec<u64> = (0..deep.len()).map(|d| if d == i as usize { sched::points(|| parsed(deep[d].0, &deep[d].1)).1 } else { 0 }).collect();
        for &x in many {
            for place in 0..5u64 {
                for mixed in [false, true] {
                    let reqs: Vec<(Entry, String, u64)> = (0..x)
                        .map(|q| {
                            let d = if mixed { (i as usize + q) % deep.len() } else { i as usize };
                            let p = if counts[d] > 0 { counts[d] } else { sched::points(|| parsed(deep[d].0, &deep[d].1)).1 };
                            (deep[d].0, deep[d].1.clone(), (p * place / 4).min(p.saturating_sub(1)))
                        })
                        .collect();
                    let reqs = std::sync::Arc::new(reqs);
                    let rs = pile(reqs.clone(), 0);
                    w.cnt.states += 1;
                    w.cnt.steps += 2 * x as u64;
                    for (q, r) in rs.iter().enumerate() {
                        if !agrees(w, reqs[q].0, &reqs[q].1, r, &|| format!("number {} of {} parses at the same time, suspended at allocation {}", q + 1, x, reqs[q].2)) {
                            return;
                        }
                    }
                }
            }
            if w.stopped() {
                return;
            }
        }
        if w.cnt.samples.is_empty() {
            w.cnt.samples.push(deep[i as usize].1.clone());
        }
    }));
    v
}
