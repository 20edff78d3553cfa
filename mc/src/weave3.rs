// Included by props.rs: one element unlike the others among many, every order of a few elements, very long names and literals.

/// Some of the elements, as different as can be: by first token, then by the first two, then by length.
fn varied(mut all: Vec<Pump>, m: usize) -> Vec<Pump> {
    all.sort_by(|a, b| (a.alpha.len() + a.beta.len()).cmp(&(b.alpha.len() + b.beta.len())).then(a.alpha.cmp(&b.alpha)).then(a.beta.cmp(&b.beta)));
    all.dedup_by(|a, b| a.alpha == b.alpha && a.beta == b.beta);
    let mut out: Vec<Pump> = vec![];
    for depth in 1..=4 {
        for p in &all {
            let key = |q: &Pump| -> Vec<T> { q.alpha.iter().chain(&q.beta).take(depth).cloned().collect() };
            if out.len() < m && !out.iter().any(|q| key(q) == key(p)) {
                out.push(p.clone());
            }
        }
    }
    out
}

fn lined_up(seq: &[&Pump], out: &mut Vec<T>) {
    out.clear();
    out.extend(&seq[0].pre);
    for p in seq {
        out.extend(&p.alpha);
    }
    out.extend(&seq[0].core);
    for p in seq.iter().rev() {
        out.extend(&p.beta);
    }
    out.extend(&seq[0].suf);
}

const ODD: &[Style] = &[(Pool::Desc, Layout::Spaced), (Pool::Same, Layout::Tight), (Pool::Hard, Layout::Busy)];

/// For every list and recursion of the grammar: many alike and one unlike them at every place; every short sequence of a few kinds.
fn odd_one(c: &Ctx, entry: Entry, home: &[&str], kinds: usize) -> Job {
    let owner = |n: N| c.m.g.nts[n as usize].split('~').next().unwrap().to_string();
    let groups: Vec<Vec<Pump>> = all_pumps(c, false)
        .into_iter()
        .filter(|g| !g.is_empty() && g[0].entry == entry && (home.is_empty() || home.contains(&owner(g[0].n).as_str())))
        .map(|g| varied(g, kinds))
        .collect();
    // (group, first kind)
    let items: Vec<(usize, usize)> = groups.iter().enumerate().flat_map(|(i, g)| (0..g.len()).map(move |k| (i, k))).collect();
    let n = items.len() as u64;
    let far: &'static [usize] = if c.thorough { &[12, 16, 17, 20, 32, 33, 64, 65, 100] } else { &[16, 17, 33] };
    let near = if c.thorough { 12 } else { 8 };
    let bound = format!(
        "{} lists and recursions of the grammar, {} kinds of element: up to {} elements alike with one of another kind at every place, {:?} elements with it at the beginning, in the middle or at the end; every sequence of at most 4 elements of 5 kinds; names in descending order, all alike, and awkward",
        groups.len(),
        n,
        near,
        far
    );
    par(&format!("odd-one-{:?}", entry), bound, n, 1, move |i, w| {
        let (gi, ui) = items[i as usize];
        let g = &groups[gi];
        let u = &g[ui];
        let mut toks = vec![];
        let mut go = |seq: &[&Pump], w: &mut Worker| {
            lined_up(seq, &mut toks);
            for (p, l) in ODD {
                let t = w.rd.text(&toks, *p, *l);
                w.check(entry, &t);
            }
        };
        for v in g {
            for len in (2..=near).chain(far.iter().cloned()) {
                let mut seq = vec![u; len];
                for k in 0..len {
                    if len > near && !(k < 2 || k == len / 2 || k + 1 == len) {
                        continue;
                    }
                    seq[k] = v;
                    go(&seq, w);
                    seq[k] = u;
                    if v.alpha == u.alpha && v.beta == u.beta {
                        break;
                    }
                }
                if w.stopped() {
                    return;
                }
            }
        }
        // words beginning with u
        let few: Vec<&Pump> = g.iter().take(5).collect();
        if ui < few.len() {
            for len in 2..=4u32 {
                for code in 0..few.len().pow(len - 1) {
                    let mut seq = vec![u];
                    let mut x = code;
                    for _ in 1..len {
                        seq.push(few[x % few.len()]);
                        x /= few.len();
                    }
                    go(&seq, w);
                }
            }
        }
    })
}

/// The name or literal of a kind, of about n bytes, in some shapes.
fn long_values(kind: &str, n: usize) -> Vec<String> {
    let abc: String = (0..n).map(|i| (b'a' + (i * 7 % 26) as u8) as char).collect();
    let dig: String = (0..n).map(|i| (b'1' + (i * 7 % 9) as u8) as char).collect();
    let rep = |s: &str| s.repeat(n / s.len() + 1);
    match kind {
        "VAR1" => vec![format!("?{}", abc), format!("?{}", dig)],
        "VAR2" => vec![format!("${}", abc), format!("${}", rep("é\u{B7}"))],
        "IRIREF" => vec![format!("<{}>", abc), format!("<{}>", rep("a/%20?#b&")), format!("<{}>", rep("é"))],
        "PNAME_LN" => vec![format!("p:{}", abc), format!("{}:x", abc), format!("p:{}", rep("%20")), format!("p:{}", rep("\\~")), format!("p:a{}b", rep(".")), format!("p{}q:x", rep("."))],
        "PNAME_NS" => vec![format!("{}:", abc)],
        "BLANK_NODE_LABEL" => vec![format!("_:{}", abc), format!("_:a{}b", rep("."))],
        "LANGTAG" => vec![format!("@{}", abc), format!("@en{}", rep("-a1"))],
        "INTEGER" => vec![format!("{}1", rep("0"))],
        "DECIMAL" => vec![format!("{}1.5", rep("0")), format!("1.{}", dig)],
        "DOUBLE" => vec![format!("1.{}e1", dig)],
        "STRING_LITERAL1" => vec![format!("'{}'", abc), format!("'{}'", rep("\\'")), format!("'{}'", rep("\\\\")), format!("'{}'", rep("\"")), format!("'{}'", rep("é\u{1F600}"))],
        "STRING_LITERAL2" => vec![format!("\"{}\"", abc), format!("\"{}\"", rep("\\\"")), format!("\"{}\"", rep("'")), format!("\"{}\"", rep(" # } "))],
        "STRING_LITERAL_LONG1" => vec![format!("'''{}'''", abc), format!("'''{}'''", rep("''a")), format!("'''{}'''", rep("\n")), format!("'''{}'''", rep("\\'"))],
        "STRING_LITERAL_LONG2" => vec![format!("\"\"\"{}\"\"\"", abc), format!("\"\"\"{}\"\"\"", rep("\"\"a")), format!("\"\"\"{}\"\"\"", rep("\r\n"))],
        "NIL" => vec![format!("({})", rep(" ")), format!("({})", rep("#c\n"))],
        "ANON" => vec![format!("[{}]", rep("\t")), format!("[#{}\n]", abc)],
        _ => vec![],
    }
}

/// Very long names and literals in every position of short sentences.
fn long_leaves(c: &Ctx, entry: Entry, home: &[&str]) -> Job {
    let all = Pairs::new(c.m, entry, home, c.cap(1_500, 20_000));
    let n = all.len() as u64;
    let sizes: &'static [usize] = if c.thorough { &[62, 63, 64, 126, 127, 128, 254, 255, 256, 257, 1022, 1023, 1024, 1025, 4095, 4096, 65535, 65536, 70_000] } else { &[63, 64, 127, 128, 255, 256, 1024, 4096] };
    par(&format!("long-{:?}", entry), format!("{} sentences (two grammar choices): every name, literal and empty bracket made about {:?} bytes long, in 1 to 6 shapes; 70000 bytes in the sentences of at most 12 tokens", n, sizes), n, 20, move |i, w| {
        let s = all.get(i as usize);
        w.rd.pieces(s, Pool::Plain);
        let ps = w.rd.pieces.clone();
        for k in 0..ps.len() {
            if k > 0 && ps[k - 1].1 == ps[k].1 {
                continue;
            }
            let two = ps.get(k + 1).map_or(false, |q| q.1 == ps[k].1);
            let kind = w.m.g.terms[s[ps[k].1] as usize].clone();
            let big: &[usize] = if s.len() <= 12 && i % 16 == 0 { &[70_000] } else { &[] };
            for &size in sizes.iter().chain(big) {
                for x in long_values(&kind, size) {
                    w.rd.pieces = ps.clone();
                    w.rd.pieces[k].0 = x;
                    if two {
                        w.rd.pieces.remove(k + 1);
                    }
                    let t = w.rd.join(Layout::Spaced);
                    w.check(entry, &t);
                }
            }
            if w.stopped() {
                return;
            }
        }
    })
}
