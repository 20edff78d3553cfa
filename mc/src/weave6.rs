// Included by props.rs: characters of several bytes at every byte offset; elements at chosen distances.

/// `lead` ASCII letters followed by characters of `2`, `3` or `4` bytes, up to about n bytes: for every width and every lead
/// below it, so that each byte offset is inside a character in one of them.
fn shifted(n: usize) -> Vec<String> {
    let mut v = vec![];
    for c in ["\u{e9}", "\u{4e2d}", "\u{10000}"] {
        for lead in 0..c.len() {
            v.push(format!("{}{}", &"abc"[..lead], c.repeat(n / c.len())));
        }
    }
    v
}
fn shifted_values(kind: &str, n: usize) -> Vec<String> {
    let form: &[(&str, &str)] = match kind {
        "VAR1" => &[("?", "")],
        "VAR2" => &[("$", "")],
        "IRIREF" => &[("<", ">"), ("<http://", ">")],
        "PNAME_LN" => &[("p:", ""), ("", ":x"), ("\u{e9}:", "")],
        "PNAME_NS" => &[("", ":")],
        "BLANK_NODE_LABEL" => &[("_:", "")],
        "STRING_LITERAL1" => &[("'", "'")],
        "STRING_LITERAL2" => &[("\"", "\"")],
        "STRING_LITERAL_LONG1" => &[("'''", "'''")],
        "STRING_LITERAL_LONG2" => &[("\"\"\"", "\"\"\"")],
        _ => &[],
    };
    form.iter().flat_map(|(a, b)| shifted(n).into_iter().map(move |s| format!("{}{}{}", a, s, b))).collect()
}

/// Names, literals and comments of multi-byte characters at every alignment, in every place of a sentence, complete and broken off.
fn misaligned(c: &Ctx, entry: Entry, home: &[&str], cap: u64) -> Job {
    let all = Pairs::new(c.m, entry, home, cap);
    let step = if home.is_empty() && !c.thorough { 3 } else { 1 };
    let n = all.len() as u64 / step;
    let sizes: &'static [usize] = if c.thorough { &[40, 560, 4200] } else { &[560] };
    par(&format!("misaligned-{:?}", entry), format!("{} sentences (two grammar choices): every name, literal and gap (as a comment) filled with {:?} bytes of characters of 2, 3 and 4 bytes at every alignment; complete, and broken off behind them", n, sizes), n, 20, move |i, w| {
        let s = all.get((i * step) as usize);
        w.rd.pieces(s, Pool::Plain);
        let ps = w.rd.pieces.clone();
        for k in 0..ps.len() {
            if k > 0 && ps[k - 1].1 == ps[k].1 {
                continue;
            }
            let two = ps.get(k + 1).map_or(false, |q| q.1 == ps[k].1);
            let kind = w.m.g.terms[s[ps[k].1] as usize].clone();
            let old = &ps[k].0;
            for &size in sizes {
                let comments = shifted(size);
                let vals = shifted_values(&kind, size).into_iter().chain(comments.iter().map(|x| format!("#{}\n{}", x, old)));
                for x in vals {
                    w.rd.pieces = ps.clone();
                    let comment = x.starts_with('#');
                    w.rd.pieces[k].0 = x;
                    if two && !comment {
                        w.rd.pieces.remove(k + 1);
                    }
                    let t = w.rd.join(Layout::Spaced);
                    w.check(entry, &t);
                    if k + 1 < ps.len() && !comment {
                        w.rd.pieces.truncate(k + 1);
                        let t = w.rd.join(Layout::Spaced);
                        w.check(entry, &t);
                    }
                }
            }
            if w.stopped() {
                return;
            }
        }
    })
}

/// Every two like tokens of a sentence moved apart by layout until they start exactly a power of two apart.
fn distances(c: &Ctx, entry: Entry, home: &[&str], cap: u64) -> Job {
    let all = Pairs::new(c.m, entry, home, cap);
    let n = all.len() as u64;
    let near: &'static [usize] = if c.thorough { &[64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768] } else { &[128, 256, 1024, 4096] };
    par(&format!("distances-{:?}", entry), format!("{} sentences (two grammar choices): every two tokens of one kind moved {:?} bytes apart (and 65536, for neighbours of short sentences), by layout in front of the second or behind the first", n, near), n, 10, move |i, w| {
        let s = all.get(i as usize);
        w.rd.pieces(s, Pool::Plain);
        let ps = w.rd.pieces.clone();
        let at = |ps: &[(String, usize)]| -> (String, Vec<usize>) {
            let mut t = String::new();
            let mut v = vec![];
            for (p, _) in ps {
                if !t.is_empty() {
                    t.push(' ');
                }
                v.push(t.len());
                t.push_str(p);
            }
            (t, v)
        };
        let (text, pos) = at(&ps);
        let kind = |k: usize| s[ps[k].1];
        let first = |k: usize| k == 0 || ps[k - 1].1 != ps[k].1;
        for a in 0..ps.len() {
            for b in (a + 1..ps.len()).filter(|b| kind(*b) == kind(a) && first(*b) && first(a)) {
                let d = pos[b] - pos[a];
                let far: &[usize] = if s.len() <= 14 && i % 4 == 0 && !(a + 1..b).any(|x| kind(x) == kind(a)) { &[65536] } else { &[] };
                for want in near.iter().chain(far).filter(|n| **n > d) {
                    let pad = " ".repeat(want - d);
                    w.check(entry, &format!("{}{}{}", &text[..pos[b]], pad, &text[pos[b]..]));
                    if a + 1 < b && first(a + 1) {
                        w.check(entry, &format!("{}{}{}", &text[..pos[a + 1]], pad, &text[pos[a + 1]..]));
                    }
                }
                // and the text behind the second as long
                let tail = text.len() - pos[b];
                if tail < 256 && d < 256 {
                    w.check(entry, &format!("{}{}{}{}", &text[..pos[b]], " ".repeat(256 - d), &text[pos[b]..], " ".repeat(256 - tail)));
                }
            }
            if w.stopped() {
                return;
            }
        }
    })
}
