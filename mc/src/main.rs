mod conv;
mod exec;
mod grammar;
mod lex;
mod lower;
mod pairs;
mod props;
mod pump;
mod render;
mod run;
mod sched;
mod space;
mod triples;

use exec::{Entry, Model};
use std::io::Read;

/// Counts the allocations of every thread.
struct Counting;
thread_local! {
    static ALLOCS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
        sched::point();
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        sched::point();
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
        sched::point();
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static GLOBAL: Counting = Counting;
pub fn alloc_count() -> u64 {
    ALLOCS.with(|a| a.get())
}
#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}
/// CPU seconds of this thread
pub fn cpu() -> f64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe {
        clock_gettime(3, &mut t);
    }
    t.sec as f64 + t.nsec as f64 * 1e-9
}

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(what: i32, l: *const [u64; 2]) -> i32;
}
fn board(path: &str) -> *mut u8 {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("slots");
    let n = exec::SLOT * exec::SLOTS;
    f.set_len(n as u64).expect("slots");
    let p = unsafe { mmap(std::ptr::null_mut(), n, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap");
    p
}
fn limit_memory(gb: u64) {
    let l = [gb << 30, gb << 30];
    unsafe {
        setrlimit(9, &l);
    }
}
/// (sequence number, entry, text) of a slot
fn slot(b: *mut u8, id: usize) -> (u64, Entry, Vec<u8>) {
    unsafe {
        let p = b.add(id * exec::SLOT);
        let s = std::ptr::read_volatile(p as *const u64);
        let n = (std::ptr::read_volatile(p.add(8) as *const u64) as usize).min(exec::SLOT - 32);
        (s, Entry::from_code(*p.add(16)), std::slice::from_raw_parts(p.add(32), n).to_vec())
    }
}

const HANG_S: f64 = 25.0;

fn replay_path(o: &str, k: usize) -> String {
    format!("/verif/evidence/replay-{}-{}.json", o, k)
}
fn write_replays(prop: &str, viol: &[(String, Entry, String, String)]) {
    let _ = std::fs::create_dir_all("/verif/evidence");
    for (k, (job, e, text, detail)) in viol.iter().take(5).enumerate() {
        let p = replay_path(prop, k);
        run::write_file(&p, &format!("{{\"property\": {}, \"job\": {}, \"entry\": {}, \"code\": {}, \"text\": {}, \"detail\": {}}}\n", run::js(prop), run::js(job), run::js(e.name()), e.code(), run::js(text), run::js(detail)));
        println!("  {} on {:?}\n    {}", e.name(), text.chars().take(300).collect::<String>(), detail.chars().take(600).collect::<String>());
        println!("VIOLATION property={} replay={}", prop, p);
    }
}

/// "known: property=C01 entry=Q text=..." lines of the findings file (text as a Rust/JSON string without escapes other than \n \t \\ \")
fn known_findings(prop: &str) -> Vec<(Entry, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string("/verif/known_findings.txt") {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("known: property=") {
                let mut it = r.splitn(3, ' ');
                if it.next() != Some(prop) {
                    continue;
                }
                let e = match it.next() {
                    Some("entry=Q") => Entry::Query,
                    Some("entry=B") => Entry::Bare,
                    Some("entry=U") => Entry::Update,
                    _ => continue,
                };
                if let Some(t) = it.next().and_then(|t| t.strip_prefix("text=")) {
                    v.push((e, t.to_string()));
                }
            }
        }
    }
    v
}

fn seed() -> i64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn child(m: &'static Model, id: &str, thorough: bool, slots: Option<&str>, quiet: bool) -> i32 {
    limit_memory(24);
    let b = slots.map_or(std::ptr::null_mut(), board);
    exec::use_slot(b, exec::SLOTS - 1);
    let t0 = std::time::Instant::now();
    let c = props::Ctx { m, thorough };
    let mut jobs = props::jobs(&c, id);
    jobs.extend(props::interplay(&c, Box::leak(id.to_string().into_boxed_str())));
    let known = known_findings(id);
    let budget = std::env::var("MC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 36000.0 } else { 400.0 });
    let r = match run::execute(m, &jobs, b as usize, &known, props::kinds(id), props::stack(id), budget) {
        Ok(r) => r,
        Err(e) => {
            println!("HARNESS-ERROR {}", e);
            return 2;
        }
    };
    if !quiet {
        for (n, b, c) in &r.counts {
            println!("{:20} texts {} acc {} rej {} unspec {} cpu {} ms | {} | {:?}", n, c.texts, c.accepted, c.rejected, c.unspec, c.ms, b, c.samples.first());
        }
        println!("states {} steps {} wall {:.1} complete {}", r.states, r.steps, r.wall, r.complete);
        println!("violations {}", r.viol.len());
        for v in r.viol.iter().take(12) {
            println!("[{}] {:?} {}\n   {}", v.job, v.entry, v.text, v.detail);
        }
        return 0;
    }
    let total: u64 = r.counts.iter().map(|c| c.2.texts).sum();
    let acc: u64 = r.counts.iter().map(|c| c.2.accepted).sum();
    let rej: u64 = r.counts.iter().map(|c| c.2.rejected).sum();
    let uns: u64 = r.counts.iter().map(|c| c.2.unspec).sum();
    let mut samples = vec![];
    let mut bounds = vec![];
    for (n, b, c) in &r.counts {
        for s in c.samples.iter().take(2) {
            samples.push(run::js(&s.chars().take(300).collect::<String>()));
        }
        bounds.push(format!("{{\"space\": {}, \"bound\": {}, \"texts\": {}, \"shards\": {}}}", run::js(n), run::js(b), c.texts, c.shards));
    }
    if samples.is_empty() {
        samples.push(run::js(&jobs.first().map_or(String::new(), |j| j.bound.clone())));
    }
    samples.truncate(12);
    evidence(
        id,
        thorough,
        t0.elapsed().as_secs_f64(),
        r.viol.len(),
        &format!(
            "\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"model_accepts\": {}, \"model_rejects\": {}, \"model_leaves_open\": {}, \"exhaustive\": {}, \"spaces\": [{}], \"samples\": [{}]",
            r.states,
            r.steps,
            total,
            acc,
            rej,
            uns,
            r.complete,
            bounds.join(", "),
            samples.join(", ")
        ),
    );
    println!("property={} tier={} states={} transitions={} traces={} complete={} wall={:.1}s violations={}", id, if thorough { "thorough" } else { "quick" }, r.states, r.steps, total, r.complete, t0.elapsed().as_secs_f64(), r.viol.len());
    for k in &r.known_hit {
        println!("KNOWN-FINDING: property={} {} on {:?}", id, known[*k].0.name(), known[*k].1);
    }
    if r.viol.is_empty() {
        if !r.complete {
            println!("note: stopped at the time budget; the spaces above list how many shards were finished");
        }
        return 0;
    }
    let v: Vec<_> = r.viol.iter().map(|v| (v.job.clone(), v.entry, v.text.clone(), v.detail.clone())).collect();
    write_replays(id, &v);
    1
}

fn evidence(id: &str, thorough: bool, wall: f64, viol: usize, coverage: &str) {
    let _ = std::fs::create_dir_all("/verif/evidence");
    run::write_file(
        &format!("/verif/evidence/{}.json", id),
        &format!(
            "{{\"property\": {}, \"tier\": \"{}\", \"seed\": {}, \"level\": \"model_checking\", \"coverage\": {{{}}}, \"assumptions\": [\"the SPARQL 1.1 grammar in mc/src/sparql11.ebnf and the terminals in mc/src/lex.rs are the specification\", \"the bounds listed under spaces\"], \"wall_s\": {:.1}, \"violations\": {}}}\n",
            run::js(id),
            if thorough { "thorough" } else { "quick" },
            seed(),
            coverage,
            wall,
            viol
        ),
    );
}

/// Does the crate come back from this text? Decided in a process of its own.
fn probe(id: &str, e: Entry, text: &[u8]) -> Option<String> {
    use std::os::unix::process::ExitStatusExt;
    let mut ch = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("answer")
        .arg(format!("{}", e.code()))
        .arg(format!("{}", props::stack(id)))
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn()
        .ok()?;
    {
        use std::io::Write;
        let mut si = ch.stdin.take()?;
        let _ = si.write_all(text);
    }
    let t0 = std::time::Instant::now();
    loop {
        if let Ok(Some(s)) = ch.try_wait() {
            return match (s.success(), s.signal()) {
                (true, _) => None,
                (_, Some(n)) => Some(format!("the process dies of signal {} (abort, stack overflow or out of memory)", n)),
                _ => Some(format!("the process ends with {:?}", s.code())),
            };
        }
        if t0.elapsed().as_secs_f64() > HANG_S {
            let _ = ch.kill();
            let _ = ch.wait();
            return Some(format!("no answer within {} s", HANG_S));
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
    }
}

/// Runs the exploration in a child process and attributes crashes and hangs to the texts that cause them.
fn supervise(id: &str, tier: &str) -> i32 {
    let t0 = std::time::Instant::now();
    let dir = std::env::current_exe().unwrap().parent().unwrap().to_path_buf();
    let path = dir.join(format!("slots-{}-{}", id, std::process::id())).to_string_lossy().to_string();
    let b = board(&path);
    let mut ch = std::process::Command::new(std::env::current_exe().unwrap()).arg("explore").arg(id).arg(tier).arg(&path).spawn().expect("spawn");
    let mut last: Vec<(u64, std::time::Instant)> = (0..exec::SLOTS).map(|_| (0, t0)).collect();
    let limit = if tier == "thorough" { 40000.0 } else { 800.0 };
    let mut why = String::new();
    let mut hung: Option<usize> = None;
    let status = loop {
        if let Ok(Some(s)) = ch.try_wait() {
            break Some(s);
        }
        for i in 0..exec::SLOTS {
            let s = slot(b, i).0;
            if s != last[i].0 {
                last[i] = (s, std::time::Instant::now());
            } else if s % 2 == 1 && last[i].1.elapsed().as_secs_f64() > HANG_S {
                hung = Some(i);
            }
        }
        if hung.is_some() || t0.elapsed().as_secs_f64() > limit {
            why = if hung.is_some() { "hang".into() } else { "time limit".into() };
            let _ = ch.kill();
            let _ = ch.wait();
            break None;
        }
        std::thread::sleep(std::time::Duration::from_millis(100));
    };
    let code = status.and_then(|s| s.code());
    let out = match code {
        Some(c @ (0 | 1)) => c,
        Some(c) => {
            println!("HARNESS-ERROR the exploration of {} ended with {}", id, c);
            2
        }
        None => {
            // killed by a signal, or by us
            let mut viol = vec![];
            let mut ids: Vec<usize> = (0..exec::SLOTS).filter(|i| slot(b, *i).0 % 2 == 1).collect();
            if let Some(h) = hung {
                ids.retain(|i| *i != h);
                ids.insert(0, h);
            }
            let found: Vec<Option<(Entry, String, String)>> = std::thread::scope(|sc| {
                let hs: Vec<_> = ids
                    .iter()
                    .map(|i| {
                        let (_, e, t) = slot(b, *i);
                        sc.spawn(move || probe(id, e, &t).map(|d| (e, String::from_utf8_lossy(&t).to_string(), d)))
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            for (e, t, d) in found.into_iter().flatten() {
                viol.push(("supervisor".to_string(), e, t, d));
            }
            let seen: u64 = (0..exec::SLOTS).map(|i| slot(b, i).0 / 2).sum();
            evidence(id, tier == "thorough", t0.elapsed().as_secs_f64(), viol.len(), &format!("\"states\": {}, \"transitions\": 0, \"traces_validated_against_impl\": {}, \"exhaustive\": false, \"samples\": [{}]", viol.len(), seen, viol.iter().take(3).map(|v| run::js(&v.2.chars().take(300).collect::<String>())).collect::<Vec<_>>().join(", ")));
            if viol.is_empty() {
                println!("HARNESS-ERROR the exploration of {} ended ({} {:?}), and no text explains it", id, why, status);
                2
            } else {
                write_replays(id, &viol);
                1
            }
        }
    };
    let _ = std::fs::remove_file(&path);
    out
}

fn main() {
    exec::hook();
    let a: Vec<String> = std::env::args().collect();
    let m: &'static Model = Box::leak(Box::new(Model::new()));
    let thorough = a.get(3).map_or(false, |t| t == "thorough");
    match a.get(1).map(|s| s.as_str()) {
        Some("child") => std::process::exit(child(m, &a[2], thorough, a.get(4).map(|s| s.as_str()), false)),
        Some("explore") => std::process::exit(child(m, &a[2], thorough, a.get(4).map(|s| s.as_str()), true)),
        Some("check") => std::process::exit(supervise(&a[2], a.get(3).map_or("quick", |s| s.as_str()))),
        Some("one") => {
            let mut s = String::new();
            std::io::stdin().read_to_string(&mut s).unwrap();
            let e = match a[2].as_str() {
                "Q" => Entry::Query,
                "B" => Entry::Bare,
                _ => Entry::Update,
            };
            let mut rc = exec::RefCtx::new(m);
            let o = exec::run(e, &s);
            let r = rc.decide(e, &s);
            println!("{:?}\n{:?}", r, o);
            println!("{:?}", exec::compare(&mut rc, e, &s, &r, &o));
        }
        Some("triples") => props::triple_sizes(m, a[2].parse().unwrap()),
        Some("pumps") => {
            for e in exec::ENTRIES {
                let cv = space::Cover::new(m, e);
                let v = pump::pumps(m, &cv, e, None);
                println!("{:?} {}", e, v.len());
                let j = |t: &[grammar::T]| t.iter().map(|t| m.g.terms[*t as usize].as_str()).collect::<Vec<_>>().join(" ");
                for p in &v {
                    println!("  {} : {} [ {} ] {} [ {} ] {}", p.name, j(&p.pre), j(&p.alpha), j(&p.core), j(&p.beta), j(&p.suf));
                }
                for h in ["GroupGraphPattern", "Expression", "GraphNodePath", "GraphNode", "Path"] {
                    println!("{:?} hub {} {}", e, h, pump::pumps(m, &cv, e, Some(m.g.nt(h))).len());
                }
            }
        }
        Some("answer") => {
            let mut s = String::new();
            std::io::stdin().read_to_string(&mut s).unwrap();
            limit_memory(8);
            let code: u8 = a[2].parse().unwrap();
            let stack = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(256 << 20);
            std::thread::Builder::new().stack_size(stack).spawn(move || props::answer_main(code, &s)).unwrap().join().unwrap();
        }
        Some("depth") => {
            // every nesting at the given depth on a stack of the given size (KB)
            let (d, kb): (usize, usize) = (a[2].parse().unwrap(), a[3].parse().unwrap());
            let c = props::Ctx { m, thorough: false };
            let ps = props::single_pumps(&c);
            let texts: Vec<(Entry, String, String)> = {
                let mut rd = render::Renderer::new(m);
                ps.iter().map(|p| (p.entry, rd.text(&p.at(d), render::Pool::Plain, render::Layout::Spaced), p.name.clone())).collect()
            };
            std::thread::Builder::new().stack_size(kb << 10).spawn(move || {
                for (e, t, n) in &texts {
                    eprintln!("{} {} {}", n, t.len(), t.chars().take(80).collect::<String>());
                    exec::run_raw(*e, t);
                }
            }).unwrap().join().unwrap();
            println!("survived");
        }
        Some("cover") => dbg_cover(m),
        _ => eprintln!("usage"),
    }
}
#[allow(dead_code)]
pub fn dbg_cover(m: &'static Model) {
    for e in exec::ENTRIES {
        let cv = space::Cover::new(m, e);
        for k in 1..=4 {
            let v = cv.sentences(k, 1_000_000);
            let tl: usize = v.iter().map(|x| x.len()).sum();
            println!("{:?} k{} {} sentences avg len {}", e, k, v.len(), tl / v.len());
        }
    }
}
