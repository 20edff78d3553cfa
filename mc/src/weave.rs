// Included by props.rs: spaces built from the sentences of two choices.

/// The sentence with every name and literal replaced by every special value of its kind, and by every other name of the sentence.
fn leaf_variants(w: &mut Worker, s: &[T], f: &mut dyn FnMut(&mut Worker, String)) {
    w.rd.pieces(s, Pool::Plain);
    let ps = w.rd.pieces.clone();
    let kind = |w: &Worker, k: usize| w.m.g.terms[s[ps[k].1] as usize].clone();
    let mut j = 0;
    while j < ps.len() {
        let mut e = j + 1;
        // pieces of one token
        while e < ps.len() && ps[e].1 == ps[j].1 {
            e += 1;
        }
        let vals = leaf_values(&kind(w, j));
        let mut all: Vec<String> = vals.iter().map(|v| v.to_string()).collect();
        if !vals.is_empty() && e == j + 1 {
            for o in 0..ps.len() {
                if o != j && ps[o].0.len() > 1 && !leaf_values(&kind(w, o)).is_empty() {
                    all.push(ps[o].0.clone());
                }
            }
        }
        for v in all {
            w.rd.pieces = ps.clone();
            w.rd.pieces[j].0 = v;
            w.rd.pieces.drain(j + 1..e);
            let t = w.rd.join(Layout::Spaced);
            f(w, t);
        }
        j = e;
    }
}

/// Every name and literal of every base sentence replaced by every special value, and by every other name of the sentence.
fn leaf_job(c: &Ctx, entry: Entry, h: &[&str], cap: u64) -> Job {
    let all = Pairs::new(c.m, entry, h, cap);
    let n = all.len() as u64;
    let what = if h.is_empty() { String::new() } else { format!(" with one of {}", h.join(" ")) };
    par(&format!("leaves-{:?}", entry), format!("{} sentences (two grammar choices{}): every name and literal replaced by each of 4 to 30 special values of its kind, and by every other name and literal of the sentence", n, what), n, 100, move |i, w| {
        leaf_variants(w, all.get(i as usize), &mut |w, t| {
            w.check(entry, &t);
        });
    })
}

const LAYOUTS: &[Style] = &[(Pool::Plain, Layout::Busy), (Pool::Hard, Layout::Busy), (Pool::Zero, Layout::Busy), (Pool::Hard, Layout::Tight), (Pool::Zero, Layout::Tight)];
const CASES: &[Style] = &[(Pool::Lower, Layout::Spaced), (Pool::Mixed, Layout::Spaced), (Pool::Lower, Layout::Tight), (Pool::Mixed, Layout::Busy)];
const NAMES: &[Style] = &[(Pool::Words(0), Layout::Spaced), (Pool::Words(1), Layout::Tight), (Pool::Words(2), Layout::Spaced), (Pool::Words(3), Layout::Tight), (Pool::Words(4), Layout::Busy)];

/// Deletions, duplications and swaps of tokens in sentences of two choices.
fn token_slips(c: &Ctx, entry: Entry) -> Job {
    let all = Pairs::new(c.m, entry, &[], c.cap(60_000, 1_500_000));
    let n = all.len() as u64;
    par(&format!("slips-{:?}", entry), format!("{} sentences (two grammar choices): every deletion, duplication and swap of one token, every two tokens left out or doubled together", n), n, 100, move |i, w| {
        let s = all.get(i as usize);
        let mut e: Vec<T> = vec![];
        let go = |e: &[T], w: &mut Worker| {
            let t = w.rd.text(e, Pool::Plain, Layout::Spaced);
            w.check(entry, &t);
        };
        for k in 0..s.len() {
            for len in 1..=2usize.min(s.len() - k) {
                e.clear();
                e.extend(&s[..k]);
                e.extend(&s[k + len..]);
                go(&e, w);
                e.clear();
                e.extend(&s[..k + len]);
                e.extend(&s[k..]);
                go(&e, w);
            }
            if k + 1 < s.len() && s[k] != s[k + 1] {
                e.clear();
                e.extend(s);
                e.swap(k, k + 1);
                go(&e, w);
            }
        }
    })
}

/// Sentences of two choices followed by what cannot continue them.
fn tails(c: &Ctx, entry: Entry) -> Job {
    let all = Pairs::new(c.m, entry, &[], c.cap(100_000, 2_000_000));
    let n = all.len() as u64;
    const TAILS: &[&str] = &[" }", ")", " ]", "\n|", "}}{{", " #c\n}", " \u{1F600}", " bogus", " =1"];
    par(&format!("two-choices-tail-{:?}", entry), format!("{} sentences (two grammar choices) followed by each of {:?}; the consumed part parsed again", n, TAILS), n, 400, move |i, w| {
        for (p, l) in [(Pool::Plain, Layout::Spaced), (Pool::Hard, Layout::Busy)] {
            let base = w.rd.text(all.get(i as usize), p, l);
            let want = match reparse(w, entry, &base) {
                Out::Ok { tree, rest } => (tree, rest),
                _ => continue,
            };
            for z in TAILS {
                let t = format!("{}{}", base, z);
                match reparse(w, entry, &t) {
                    Out::Ok { tree, rest } => {
                        if tree != want.0 {
                            w.fail(entry, &t, Kind::Own, format!("appended junk changes the tree\n  without {}\n  with    {}", want.0, tree));
                        } else if Lexer::skip(&t, rest) != Lexer::skip(&t, want.1) {
                            w.fail(entry, &t, Kind::Own, format!("the remainder {:?} does not start after {:?}", &t[rest..], base));
                        }
                    }
                    Out::Err => w.fail(entry, &t, Kind::Own, format!("{:?} parses alone, but not followed by {:?}", base, z)),
                    _ => {}
                }
            }
        }
    })
}

/// Sentences of two choices broken off after every token.
fn cut_off(c: &Ctx, entry: Entry) -> Job {
    let all = Pairs::new(c.m, entry, &[], c.cap(60_000, 1_500_000));
    let n = all.len() as u64;
    const JUNK: &[&str] = &["", "?", ":", "\"", "<", "-", "1e", "@", "_:", "\\", "\u{1F600}", "'''", "^^"];
    par(&format!("two-choices-cut-{:?}", entry), format!("{} sentences (two grammar choices) broken off after every token, followed by each of {:?}", n, JUNK), n, 200, move |i, w| {
        let s = all.get(i as usize);
        for k in 0..s.len() {
            let t = w.rd.text(&s[..k], if i % 2 == 0 { Pool::Plain } else { Pool::Hard }, Layout::Spaced);
            for z in JUNK {
                w.lives(entry, &format!("{} {}", t, z));
            }
        }
    })
}

/// Values at and beyond the limits of numbers, names and tokens.
fn extremes() -> Vec<String> {
    let mut ext: Vec<String> = vec![];
    for d in [18usize, 19, 20, 21, 38, 39, 40, 77, 78, 100, 308, 309, 310, 400, 1000, 5000] {
        ext.push("9".repeat(d));
        ext.push(format!("1{}", "0".repeat(d)));
        ext.push(format!("0.{}1", "0".repeat(d)));
        ext.push(format!("1e{}", "9".repeat(d.min(400))));
        ext.push(format!("1e-{}", "9".repeat(d.min(400))));
        ext.push(format!("-{}", "9".repeat(d)));
        ext.push(format!("?{}", "x".repeat(d)));
        ext.push(format!("'{}'", "\\n".repeat(d)));
        ext.push(format!("'x'@{}", "e".repeat(d)));
        ext.push(format!("<{}>", "é".repeat(d)));
        ext.push(format!("p:{}", "%41.".repeat(d)));
    }
    for d in [7u32, 8, 15, 16, 31, 32, 53, 62, 63, 64, 126, 127, 128, 129, 1023, 1024] {
        // decimal digits of 2^d, lowest first
        let mut p = vec![1u8];
        for _ in 0..d {
            let mut carry = 0;
            for x in p.iter_mut() {
                let y = *x * 2 + carry;
                *x = y % 10;
                carry = y / 10;
            }
            if carry > 0 {
                p.push(carry);
            }
        }
        // never ends in 0 or 9
        for delta in [-1i8, 0, 1] {
            let mut q = p.clone();
            q[0] = (q[0] as i8 + delta) as u8;
            let x: String = q.iter().rev().map(|d| (b'0' + d) as char).collect();
            ext.push(format!("-{}", x));
            ext.push(format!("+{}", x));
            ext.push(format!("{}.0", x));
            ext.push(format!("{}e0", x));
            ext.push(format!("1e{}", x));
            ext.push(format!("1e-{}", x));
            ext.push(x);
        }
    }
    for x in [
        "1e308", "1e309", "1.8e308", "5e-324", "4.9e-325", "-0", "+0", "0e999999999999", ".e1", "1e", "1e+", "-", "+", "--1", "1..2", "1.2.3", "0x10", "1_000", "\u{661}", "'", "\"\"\"", "'\\", "'\\u00e9'", "'\\U0010FFFF'", "'\\uD800'", "'\\u'", "<\\u0041>", "<\\", "p:\\", "p:%", "p:%4", "p:%GG", "_:", "_:.", "?",
        "$", "@", "@-", "''@", "''^^", "''^^<", "^^", "\u{FEFF}", "\u{0}",
    ] {
        ext.push(x.to_string());
    }
    ext
}

/// Extreme values in the place of every name and literal.
fn leaf_survival(c: &Ctx, entry: Entry) -> Job {
    let all = Pairs::new(c.m, entry, &[], c.cap(3_000, 100_000));
    let n = all.len() as u64;
    let ext = extremes();
    let bound = format!("{} sentences (two grammar choices): every name and literal replaced by each of {} extreme values (around powers of two from 7 to 1024 bits, the limits of doubles, thousands of characters, cut-off tokens)", n, ext.len());
    par(&format!("extremes-{:?}", entry), bound, n, 40, move |i, w| {
        let s = all.get(i as usize);
        w.rd.pieces(s, Pool::Plain);
        let ps: Vec<String> = w.rd.pieces.iter().map(|p| p.0.clone()).collect();
        let named: Vec<bool> = w.rd.pieces.iter().map(|p| !leaf_values(&w.m.g.terms[s[p.1] as usize]).is_empty()).collect();
        for j in (0..ps.len()).filter(|j| named[*j]) {
            let (a, b) = (ps[..j].join(" "), ps[j + 1..].join(" "));
            for x in &ext {
                w.lives(entry, &format!("{} {} {}", a, x, b));
            }
        }
    })
}

/// Requests that differ in one name or value, one after the other in the same place of memory.
fn one_buffer(c: &Ctx, entry: Entry) -> Job {
    let all = Pairs::new(c.m, entry, &[], c.cap(12_000, 400_000));
    let n = all.len() as u64;
    par(&format!("one-buffer-{:?}", entry), format!("{} sentences (two grammar choices), each followed by all its variants with one name, value or operator replaced (also by one of the same length), all in the same buffer, on one line and with every word on its own line: every answer is the model's", n), n, 100, move |i, w| {
        let s = all.get(i as usize);
        let mut buf = String::with_capacity(16384);
        let base = w.rd.text(s, Pool::Plain, Layout::Spaced);
        buf.push_str(&base);
        w.accept(entry, &buf);
        // one character of a name changed: same length everywhere; on one line, and with every word on its own line
        for lines in [false, true] {
            let base = if lines { base.replace(' ', "\n") } else { base.clone() };
            if lines {
                buf.clear();
                buf.push_str(&base);
                w.accept(entry, &buf);
            }
            for (k, ch) in base.char_indices() {
                let r = match ch {
                    'v' | 'w' | 'l' | 'p' | 'q' | 's' | 'b' | '0'..='8' => (ch as u8 + 1) as char,
                    '+' => '-',
                    '-' => '+',
                    '*' => '/',
                    '<' => '>',
                    _ => continue,
                };
                buf.clear();
                buf.push_str(&base[..k]);
                buf.push(r);
                buf.push_str(&base[k + 1..]);
                w.check(entry, &buf);
            }
        }
        leaf_variants(w, s, &mut |w, t| {
            if t.len() < 16000 {
                buf.clear();
                buf.push_str(&t);
                w.check(entry, &buf);
            }
        });
        buf.clear();
        buf.push_str(&base);
        w.accept(entry, &buf);
    })
}

/// Requests that differ in one name or value compare equal exactly when the model says they mean the same.
fn leaf_equality(c: &Ctx, entry: Entry) -> Job {
    let all = Pairs::new(c.m, entry, &[], c.cap(12_000, 400_000));
    let n = all.len() as u64;
    par(&format!("leaves-{:?}", entry), format!("{} sentences (two grammar choices) compared with all their accepted variants with one name or value replaced, and with one to three tokens dropped, doubled or swapped", n), n, 100, move |i, w| {
        let s = all.get(i as usize);
        let base = w.rd.text(s, Pool::Plain, Layout::Spaced);
        let (k0, a0) = match (w.rc.decide(entry, &base), run_ast(entry, &base)) {
            (Ref::Accept(k), Some((_, a))) => (norm(&k), a),
            _ => return,
        };
        check_clone(w, entry, &base, &a0);
        let other = |w: &mut Worker, t: &str| {
            if let Ref::Accept(k) = w.rc.decide(entry, t) {
                if let Some((_, a)) = run_ast(entry, t) {
                    w.cnt.texts += 1;
                    w.cnt.accepted += 1;
                    let same = norm(&k) == k0;
                    if (a == a0) != same || (a0 == a) != same || (a != a0) == same {
                        w.fail(entry, t, Kind::Own, format!("compared with {:?}: trees {}, but the requests {}", base, if a == a0 { "equal" } else { "unequal" }, if same { "say the same" } else { "differ" }));
                    }
                }
            }
        };
        leaf_variants(w, s, &mut |w, t| other(w, &t));
        // one or two tokens left out, doubled or swapped
        w.rd.pieces(s, Pool::Plain);
        let ps: Vec<String> = w.rd.pieces.iter().map(|p| p.0.clone()).collect();
        for k in 0..ps.len() {
            for len in 1..=3usize.min(ps.len() - k) {
                let mut v = ps.clone();
                v.drain(k..k + len);
                other(w, &v.join(" "));
                let mut v = ps.clone();
                for (x, p) in ps[k..k + len].iter().enumerate() {
                    v.insert(k + len + x, p.clone());
                }
                other(w, &v.join(" "));
            }
            for o in k + 1..ps.len().min(k + 5) {
                let mut v = ps.clone();
                v.swap(k, o);
                other(w, &v.join(" "));
            }
        }
        for (p, l) in [(Pool::Lower, Layout::Tight), (Pool::Plain, Layout::Busy)] {
            let t = w.rd.text(s, p, l);
            other(w, &t);
        }
    })
}

/// How many sentences of three choices there are (for tuning).
pub fn triple_sizes(m: &'static Model, cap: u64) {
    for id in ["C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C24"] {
        let (h, es) = home(id);
        for e in es {
            for need in 1..=3 {
                if h.is_empty() && need > 1 {
                    continue;
                }
                let t = std::time::Instant::now();
                let x = crate::triples::Triples::new(m, *e, h, need, cap, 24);
                let y = Pairs::new(m, *e, h, 250_000);
                println!("{} {:?} {} of 3: extra {} {} sentences {} placements {:.1}s (pairs: extra {} {})", id, e, need, x.extra, x.len(), x.placements, t.elapsed().as_secs_f64(), y.extra, y.len());
            }
        }
    }
}
