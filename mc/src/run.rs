//! Work distribution, counters, supervision, evidence.
use crate::exec::{compare, run, run_only, Entry, Kind, Model, Out, Ref, RefCtx};
use crate::render::Renderer;
use std::collections::BTreeMap;
use std::fs::File;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub struct Job {
    pub name: String,
    pub bound: String,
    pub shards: usize,
    pub f: Box<dyn Fn(usize, usize, &mut Worker) + Send + Sync>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub job: String,
    pub entry: Entry,
    pub text: String,
    pub detail: String,
    pub kind: Kind,
}

#[derive(Default, Clone)]
pub struct Count {
    pub texts: u64,
    pub accepted: u64,
    pub rejected: u64,
    pub unspec: u64,
    /// states and steps of models other than the grammar's automaton
    pub states: u64,
    pub steps: u64,
    pub samples: Vec<String>,
    pub shards: usize,
    pub ms: u64,
}

pub struct Worker<'m> {
    pub m: &'m Model,
    pub rc: RefCtx<'m>,
    pub rd: Renderer<'m>,
    pub id: usize,
    pub cnt: Count,
    job: String,
    pub viol: Vec<Violation>,
    stop: &'m AtomicBool,
    pub harness: Option<String>,
    known: &'m [(Entry, String)],
    pub known_hit: Vec<usize>,
    kinds: &'m [Kind],
}

impl<'m> Worker<'m> {
    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }
    pub fn fail(&mut self, e: Entry, text: &str, kind: Kind, detail: String) {
        if !self.kinds.contains(&kind) {
            return;
        }
        if let Some(i) = self.known.iter().position(|k| k.0 == e && k.1 == text) {
            if !self.known_hit.contains(&i) {
                self.known_hit.push(i);
            }
            return;
        }
        self.viol.push(Violation { job: self.job.clone(), entry: e, text: text.to_string(), detail, kind });
        if self.viol.len() >= 20 {
            self.stop.store(true, Ordering::Relaxed);
        }
    }
    pub fn broken(&mut self, m: String) {
        if self.harness.is_none() {
            self.harness = Some(m);
        }
        self.stop.store(true, Ordering::Relaxed);
    }
    fn sample(&mut self, text: &str) {
        if self.cnt.samples.len() < 1 || (self.cnt.samples.len() < 3 && self.cnt.accepted % 997 == 1) {
            self.cnt.samples.push(text.to_string());
        }
    }
    /// The universal check: the real parser against the model.
    pub fn check(&mut self, e: Entry, text: &str) -> (Ref, Out) {
        let o = run(e, text);
        let r = self.rc.decide(e, text);
        self.cnt.texts += 1;
        match &r {
            Ref::Accept(_) => {
                self.cnt.accepted += 1;
                self.sample(text);
            }
            Ref::Reject(_) => self.cnt.rejected += 1,
            Ref::Unspec(_) => self.cnt.unspec += 1,
        }
        if let Some((k, d)) = compare(&mut self.rc, e, text, &r, &o) {
            self.fail(e, text, k, d);
        }
        (r, o)
    }
    /// The real parser only: does it return?
    pub fn survives(&mut self, e: Entry, text: &str) -> Out {
        let o = run(e, text);
        self.cnt.texts += 1;
        if let Out::Panic(p) = &o {
            self.fail(e, text, Kind::Crash, format!("panic: {}", p));
        }
        o
    }
    /// The parser alone, without looking at what it returns.
    pub fn lives(&mut self, e: Entry, text: &str) {
        self.cnt.texts += 1;
        if let Some(p) = run_only(e, text) {
            self.fail(e, text, Kind::Crash, format!("panic: {}", p));
        }
    }
    /// As `check`, for a text that the space built as a sentence.
    pub fn accept(&mut self, e: Entry, text: &str) -> (Ref, Out) {
        let (r, o) = self.check(e, text);
        if let Ref::Reject(i) = &r {
            self.broken(format!("space produced a text the model rejects (at token {:?}): {:?}", i, text));
        }
        (r, o)
    }
}

pub struct Report {
    pub counts: Vec<(String, String, Count)>,
    pub viol: Vec<Violation>,
    pub states: usize,
    pub steps: usize,
    pub complete: bool,
    pub wall: f64,
    pub known_hit: Vec<usize>,
}

pub fn execute(m: &Model, jobs: &[Job], board: usize, known: &[(Entry, String)], kinds: &[Kind], stack: usize, budget_s: f64) -> Result<Report, String> {
    let t0 = Instant::now();
    let stop = AtomicBool::new(false);
    let mut units = vec![];
    for (j, job) in jobs.iter().enumerate() {
        for s in 0..job.shards {
            units.push((j, s));
        }
    }
    let next = AtomicUsize::new(0);
    let late = AtomicBool::new(false);
    let acc: Mutex<BTreeMap<usize, Count>> = Mutex::new(BTreeMap::new());
    let viol: Mutex<Vec<Violation>> = Mutex::new(vec![]);
    let harness: Mutex<Option<String>> = Mutex::new(None);
    let seen: Mutex<crate::grammar::Seen> = Mutex::new(Default::default());
    let hits: Mutex<Vec<usize>> = Mutex::new(vec![]);
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    std::thread::scope(|sc| {
        for id in 0..nthreads {
            let (stop, next, late, acc, viol, harness, seen, units, hits) = (&stop, &next, &late, &acc, &viol, &harness, &seen, &units, &hits);
            std::thread::Builder::new()
                .stack_size(stack)
                .spawn_scoped(sc, move || {
                    crate::exec::use_slot(board as *mut u8, id);
                    let mut w = Worker {
                        m,
                        rc: RefCtx::new(m),
                        rd: Renderer::new(m),
                        id,
                        cnt: Count::default(),
                        job: String::new(),
                        viol: vec![],
                        stop,
                        harness: None,
                        known,
                        known_hit: vec![],
                        kinds,
                    };
                    loop {
                        let u = next.fetch_add(1, Ordering::SeqCst);
                        if u >= units.len() || w.stopped() {
                            break;
                        }
                        if t0.elapsed().as_secs_f64() > budget_s {
                            late.store(true, Ordering::SeqCst);
                            break;
                        }
                        let (j, s) = units[u];
                        w.cnt = Count::default();
                        w.job = jobs[j].name.clone();
                        let t = Instant::now();
                        (jobs[j].f)(s, jobs[j].shards, &mut w);
                        let mut a = acc.lock().unwrap();
                        let c = a.entry(j).or_default();
                        c.texts += w.cnt.texts;
                        c.accepted += w.cnt.accepted;
                        c.rejected += w.cnt.rejected;
                        c.unspec += w.cnt.unspec;
                        c.states += w.cnt.states;
                        c.steps += w.cnt.steps;
                        c.shards += 1;
                        c.ms += t.elapsed().as_millis() as u64;
                        if c.samples.len() < 3 {
                            c.samples.append(&mut w.cnt.samples);
                            c.samples.truncate(3);
                        }
                    }
                    viol.lock().unwrap().append(&mut w.viol);
                    hits.lock().unwrap().append(&mut w.known_hit);
                    if let Some(h) = w.harness.take() {
                        *harness.lock().unwrap() = Some(h);
                    }
                    let mut s = seen.lock().unwrap();
                    s.states.extend(w.rc.seen.states.drain());
                    s.steps.extend(w.rc.seen.steps.drain());
                })
                .unwrap();
        }
    });
    if let Some(h) = harness.into_inner().unwrap() {
        return Err(h);
    }
    let acc = acc.into_inner().unwrap();
    let own = acc.values().fold((0, 0), |a, c| (a.0 + c.states as usize, a.1 + c.steps as usize));
    let mut counts = vec![];
    for (j, job) in jobs.iter().enumerate() {
        counts.push((job.name.clone(), job.bound.clone(), acc.get(&j).cloned().unwrap_or_default()));
    }
    let mut viol = viol.into_inner().unwrap();
    viol.sort_by(|a, b| a.text.len().cmp(&b.text.len()).then(a.text.cmp(&b.text)));
    let seen = seen.into_inner().unwrap();
    let mut known_hit = hits.into_inner().unwrap();
    known_hit.sort();
    known_hit.dedup();
    Ok(Report {
        counts,
        viol,
        states: seen.states.len() + own.0,
        steps: seen.steps.len() + own.1,
        complete: !late.load(Ordering::SeqCst) && !stop.load(Ordering::SeqCst),
        wall: t0.elapsed().as_secs_f64(),
        known_hit,
    })
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn write_file(path: &str, s: &str) {
    let tmp = format!("{}.tmp{}", path, std::process::id());
    let mut f = File::create(&tmp).expect("create");
    f.write_all(s.as_bytes()).expect("write");
    drop(f);
    std::fs::rename(&tmp, path).expect("rename");
}
