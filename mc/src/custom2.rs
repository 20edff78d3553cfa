// Included by props.rs: C17 - C26.

fn assemble(pieces: &[(String, usize)], gaps: &[&str]) -> String {
    let mut s = String::from(gaps[0]);
    for (i, p) in pieces.iter().enumerate() {
        s.push_str(&p.0);
        s.push_str(gaps[i + 1]);
    }
    s
}

/// For every gap of the pieces: must something stand there?
fn base_gaps(w: &mut Worker, toks: &[T], pool: Pool, lay: Layout) -> (Vec<(String, usize)>, Vec<&'static str>) {
    let t = w.rd.text(toks, pool, lay);
    let ps = w.rd.pieces.clone();
    let mut gaps = vec![""; ps.len() + 1];
    let mut at = 0;
    for (i, p) in ps.iter().enumerate() {
        if t[at..].starts_with(' ') && !p.0.starts_with(' ') {
            gaps[i] = " ";
            at += 1;
        }
        at += p.0.len();
    }
    (ps, gaps)
}

fn same_tree(w: &mut Worker, e: Entry, text: &str, want: &str) {
    if let (Ref::Accept(_), Out::Ok { tree, .. }) = w.accept(e, text) {
        if tree != want {
            w.fail(e, text, Kind::Own, format!("the layout changes the tree\n  without {}\n  with    {}", want, tree));
        }
    }
}

fn c17(c: &Ctx) -> Vec<Job> {
    let mut v = vec![];
    const LAY: &[&str] = &["", " ", "\t", "\n", "\r\n", "\r", "   ", "#\n", " #c\n", "# ?x }\"'<{ é\u{1F600}\r", "#a\n#b\r\n\t", "\n\n \t \r#\n"];
    const TWO: &[&str] = &["", "\n", "#x\n", " "];
    for e in [Entry::Query, Entry::Update] {
        let sents = cover(c, e, if c.thorough { 6 } else { 4 }, usize::MAX);
        let n = sents.len() as u64;
        let bound = format!("{} requests (grammar cover), written with single spaces and without any, with each of {} layouts in each gap, also at both ends and inside () [] and two-word keywords", n, LAY.len());
        v.push(par(&format!("one-gap-{:?}", e), bound, n, 8, move |i, w| {
            for lay in [Layout::Spaced, Layout::Tight] {
                let (ps, gaps) = base_gaps(w, &sents[i as usize], if lay == Layout::Tight { Pool::Hard } else { Pool::Plain }, lay);
                let base = assemble(&ps, &gaps);
                let want = match w.accept(e, &base) {
                    (Ref::Accept(t), _) => t,
                    _ => continue,
                };
                let mut g = gaps.clone();
                for k in 0..gaps.len() {
                    for l in LAY {
                        g[k] = l;
                        let t = assemble(&ps, &g);
                        if l.is_empty() {
                            w.check(e, &t);
                        } else {
                            same_tree(w, e, &t, &want);
                        }
                    }
                    g[k] = gaps[k];
                }
                // the same layout everywhere
                for l in &LAY[1..] {
                    let g = vec![*l; gaps.len()];
                    same_tree(w, e, &assemble(&ps, &g), &want);
                }
                // a comment that the end of the text ends
                for z in ["#", "#x", " # }{", "\n#é", "\r# a # b", "\r", "\n\n", "\t#\r#"] {
                    let mut g = gaps.clone();
                    *g.last_mut().unwrap() = z;
                    same_tree(w, e, &assemble(&ps, &g), &want);
                }
                if w.stopped() {
                    return;
                }
            }
        }));
        let sents = cover(c, e, if c.thorough { 4 } else { 3 }, usize::MAX);
        let n = sents.len() as u64;
        let bound = format!("{} requests with each of {} layouts in every two gaps", n, TWO.len());
        v.push(par(&format!("two-gaps-{:?}", e), bound, n, 4, move |i, w| {
            let (ps, gaps) = base_gaps(w, &sents[i as usize], Pool::Plain, Layout::Spaced);
            let mut g = gaps.clone();
            for a in 0..gaps.len() {
                for b in a + 1..gaps.len() {
                    for x in TWO {
                        for y in TWO {
                            g[a] = x;
                            g[b] = y;
                            w.check(e, &assemble(&ps, &g));
                        }
                    }
                    g[b] = gaps[b];
                }
                g[a] = gaps[a];
                if w.stopped() {
                    return;
                }
            }
        }));
    }
    // arbitrary strings of layout characters
    let alpha = [" ", "\t", "\n", "\r", "#", "x", "\"", "}", "\\"];
    let len = if c.thorough { 6 } else { 5 };
    let total = strings_total(alpha.len() as u64, len);
    let ctx: Vec<(Entry, &'static str, &'static str)> = vec![
        (Entry::Query, "", "ASK{}"), (Entry::Query, "ASK{", "}"), (Entry::Query, "ASK{}", ""), (Entry::Query, "ASK{?s a ?o", ".?a ?b 'c'}"), (Entry::Query, "SELECT(1 AS", "?x){}"), (Entry::Query, "ASK{?s ?p(", ")}"),
        (Entry::Query, "ASK{FILTER(1", "+2)}"), (Entry::Query, "ASK{FILTER(RAND", "()=1)}"), (Entry::Query, "PREFIX", "p:<x>ASK{}"), (Entry::Query, "PREFIX p:", "<x>ASK{}"), (Entry::Query, "ASK{}LIMIT", "5"), (Entry::Query, "ASK{}GROUP", "BY ?x"),
        (Entry::Query, "ASK{VALUES ?x{1", "2}}"), (Entry::Query, "ASK{?s<p>", "*?o}"), (Entry::Query, "ASK{?s ?p 'x'", "@en}"), (Entry::Query, "ASK{?s ?p 'x'^^", "<d>}"),
        (Entry::Update, "INSERT", "DATA{}"), (Entry::Update, "CLEAR ALL", ";"), (Entry::Update, "DELETE{}", "WHERE{}"), (Entry::Update, "", "DROP ALL"),
    ];
    v.extend(long_gaps(c, &ctx));
    let nc = ctx.len() as u64;
    let bound = format!("all {} strings of at most {} characters over {:?} in {} gaps", total, len, alpha, nc);
    v.push(par("any-layout", bound, total * nc, 3000, move |i, w| {
        let (e, a, b) = &ctx[(i % nc) as usize];
        let mut s = String::new();
        nth_string(i / nc, &alpha, &mut s);
        w.check(*e, &format!("{}{}{}", a, s, b));
    }));
    // which characters are layout
    v.push(char_positions(c, "any-char", vec![
        (Entry::Query, "ASK", "{}"),
        (Entry::Query, "ASK{}LIMIT", "1"),
        (Entry::Query, "ASK{?s a", " ?o}"),
        (Entry::Query, "ASK{#", "}\n}"),
        (Entry::Query, "ASK{#c", "\n?s a ?o}"),
        (Entry::Query, "ASK{}#", ""),
        (Entry::Query, "ASK{} ", " LIMIT 1"),
        (Entry::Update, "CLEAR ALL", ";DROP ALL"),
    ]));
    v.push(layout_in_tokens(c));
    v
}

/// Characters that start comments or are layout, inside IRIs, strings and comments.
fn layout_in_tokens(c: &Ctx) -> Job {
    let alpha = ["#", " ", "\n", "a", "<", ">", "\"", "'", "\r", "//"];
    let len = if c.thorough { 5 } else { 4 };
    let total = strings_total(alpha.len() as u64, len);
    let ctx: Vec<(Entry, &'static str, &'static str)> = vec![
        (Entry::Query, "ASK{?s a <", ">#x\n}"), (Entry::Query, "ASK{?s a \"", "\" #\"\n}"), (Entry::Query, "ASK{?s a '''", "''' #'\n}"), (Entry::Query, "ASK{#", "\n?s a 1}"), (Entry::Query, "ASK{?s a 1#", "\r}"), (Entry::Query, "BASE<", ">ASK{}"), (Entry::Update, "LOAD<", ">#;"), (Entry::Query, "ASK{?s a ?x#", "\n#\n}#"), (Entry::Query, "ASK{?s a p:x#", "\n}#"),
    ];
    let nc = ctx.len() as u64;
    par("inside-tokens", format!("all {} strings of at most {} of {:?} inside IRIs, strings and comments, {} positions", total, len, alpha, nc), total * nc, 2000, move |i, w| {
        let (e, a, b) = &ctx[(i % nc) as usize];
        let mut s = String::new();
        nth_string(i / nc, &alpha, &mut s);
        w.check(*e, &format!("{}{}{}", a, s, b));
    })
}

// ------------------------------------------------------------------ C18

fn is_keyword(s: &str) -> bool {
    s.len() >= 2 && s.chars().all(|c| c.is_ascii_uppercase() || c == '_' || c.is_ascii_digit()) && s.starts_with(|c: char| c.is_ascii_uppercase())
}
fn case_mask(s: &str, mask: u64) -> String {
    s.chars().enumerate().map(|(i, c)| if mask >> (i % 64) & 1 == 1 { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect()
}
fn keyword_masks(s: &str, full: usize) -> Vec<u64> {
    let n = s.len() as u64;
    let mut v: Vec<u64>;
    if s.len() <= full {
        v = (0..1u64 << n).collect();
    } else {
        let all = (1u64 << n) - 1;
        v = vec![0, all, 0x5555_5555_5555 & all, 0xAAAA_AAAA_AAAA & all, all - 1, 1];
        for i in 0..n {
            v.push(1 << i);
            v.push(all ^ (1 << i));
        }
        v.sort();
        v.dedup();
    }
    v
}

/// for every (keyword, word in front of it, what may follow) of the cover, one sentence with the position of the keyword
fn keyword_sites(c: &Ctx, e: Entry, k: usize) -> Vec<(Vec<T>, usize)> {
    let mut seen = std::collections::HashSet::new();
    let mut out = vec![];
    for s in cover(c, e, k, usize::MAX) {
        for i in 0..s.len() {
            let name = &c.m.g.terms[s[i] as usize];
            if name.split(' ').all(is_keyword) && !name.starts_with("STRING_LITERAL") && name != "NIL" {
                let key = (s[i], if i > 0 { s[i - 1] } else { T::MAX }, s.get(i + 1).cloned().unwrap_or(T::MAX), s.first().cloned());
                if seen.insert(key) {
                    out.push((s.clone(), i));
                }
            }
        }
    }
    out
}

fn c18(c: &Ctx) -> Vec<Job> {
    let mut v = vec![];
    for e in [Entry::Query, Entry::Update] {
        let sites = keyword_sites(c, e, if c.thorough { 5 } else { 4 });
        let n = sites.len() as u64;
        let full = if c.thorough { 9 } else { 6 };
        let bound = format!("{} sites of keywords (every keyword with every neighbour and query form in a grammar cover), every mix of upper and lower case of keywords of at most {} letters, every single letter in the other case of longer ones", n, full);
        let thorough = c.thorough;
        v.push(par(&format!("case-{:?}", e), bound, n, 8, move |i, w| {
            let (s, at) = &sites[i as usize];
            let base = w.rd.text(s, Pool::Plain, Layout::Spaced);
            let want = match w.accept(e, &base) {
                (Ref::Accept(t), _) => t,
                _ => return,
            };
            w.rd.pieces(s, Pool::Plain);
            let ps = w.rd.pieces.clone();
            for (j, p) in ps.iter().enumerate().filter(|x| x.1 .1 == *at && is_keyword(&x.1 .0)) {
                for m in keyword_masks(&p.0, full) {
                    for lay in [Layout::Spaced, Layout::Tight] {
                        w.rd.pieces = ps.clone();
                        w.rd.pieces[j].0 = case_mask(&p.0, m);
                        let t = w.rd.join(lay);
                        same_case(w, e, &t, &want);
                        if lay == Layout::Spaced && !thorough {
                            // everything else in lower case
                            for q in w.rd.pieces.iter_mut().enumerate().filter(|q| q.0 != j && is_keyword(&q.1 .0)) {
                                q.1 .0 = q.1 .0.to_ascii_lowercase();
                            }
                            let t = w.rd.join(lay);
                            same_case(w, e, &t, &want);
                        }
                    }
                }
            }
        }));
        // the case of everything else is kept
        let sents = cover(c, e, if c.thorough { 5 } else { 4 }, usize::MAX);
        let n = sents.len() as u64;
        v.push(par(&format!("names-{:?}", e), format!("{} requests (grammar cover) with upper and lower case in every name, tag and string, keywords in both cases", n), n, 50, move |i, w| {
            let s = &sents[i as usize];
            for style in 0..3 {
                w.rd.pieces(s, Pool::Plain);
                for p in w.rd.pieces.iter_mut() {
                    let kw = is_keyword(&p.0);
                    if kw && style == 1 {
                        p.0 = p.0.to_ascii_lowercase();
                    }
                    if !kw && p.0 != "a" && !p.0.starts_with(|c: char| c.is_ascii_digit()) && !p.0.starts_with('+') && !p.0.starts_with('-') && !p.0.starts_with('.') {
                        if style == 2 {
                            p.0 = p.0.to_ascii_uppercase().replace("HTTP", "hTTp");
                        } else {
                            let mut up = false;
                            p.0 = p.0.chars().map(|c| { up = !up; if up { c.to_ascii_uppercase() } else { c } }).collect();
                        }
                    }
                }
                let t = w.rd.join(Layout::Spaced);
                w.check(e, &t);
            }
        }));
        // look-alikes
        let sites = keyword_sites(c, e, 3);
        let mut first = std::collections::HashSet::new();
        let sites: Vec<(Vec<T>, usize)> = sites.into_iter().filter(|(s, i)| first.insert((s[*i], c.thorough && first.len() % 2 == 9))).collect();
        let looks = lookalikes();
        let nl = looks.values().map(|v| v.len()).sum::<usize>();
        let n = sites.len() as u64;
        v.push(par(&format!("lookalikes-{:?}", e), format!("every letter of each of {} keywords replaced by every character that some folding, truncation or bit flip takes for a letter ({} pairs)", n, nl), n, 1, move |i, w| {
            let (s, at) = &sites[i as usize];
            w.rd.pieces(s, Pool::Plain);
            let ps = w.rd.pieces.clone();
            for (j, p) in ps.iter().enumerate().filter(|x| x.1 .1 == *at && is_keyword(&x.1 .0)) {
                for (k, ch) in p.0.char_indices() {
                    for l in looks.get(&ch.to_ascii_lowercase()).map(|v| &v[..]).unwrap_or(&[]) {
                        w.rd.pieces = ps.clone();
                        w.rd.pieces[j].0 = format!("{}{}{}", &p.0[..k], l, &p.0[k + 1..]);
                        let t = w.rd.join(Layout::Spaced);
                        w.check(e, &t);
                        if k % 2 == 0 {
                            w.rd.pieces[j].0 = w.rd.pieces[j].0.to_ascii_lowercase();
                            let t = w.rd.join(Layout::Spaced);
                            w.check(e, &t);
                        }
                    }
                    if w.stopped() {
                        return;
                    }
                }
            }
        }));
    }
    // all characters for a letter of some keywords
    v.push(char_positions(c, "any-char", vec![
        (Entry::Query, "A", "K{}"),
        (Entry::Query, "AS", "{}"),
        (Entry::Query, "a", "k{}"),
        (Entry::Query, "ASK{FILTER ", "TR(?x)}"),
        (Entry::Query, "ASK{F", "LTER(1)}"),
        (Entry::Query, "SELECT DISTINC", "?x{}"),
        (Entry::Query, "ASK{?s ", " ?o}"),
        (Entry::Query, "ASK{} LI", "IT 1"),
        (Entry::Query, "ASK{?s ?p t", "ue}"),
        (Entry::Update, "L", "AD<x>"),
        (Entry::Update, "CLEAR ", "LL"),
    ]));
    // the predicate keyword
    let mut list = vec![];
    for a in ["a", "A", "a ", "A ", " a", "^a", "^A", "!a", "!A", "!(a)", "!(A)", "!^a", "!^A", "a/A", "a|a", "a|A", "(a)", "(A)", "a*", "A*", "a?", "A+"] {
        for (p, q) in [("ASK{?s ", " ?o}"), ("ASK{[", " ?o]}"), ("ASK{?s ?p ?o;", " 1}"), ("ASK{(1)", " 1}"), ("CONSTRUCT{?s ", " ?o}{}"), ("CONSTRUCT WHERE{?s ", " 1}"), ("ASK{?s ?p [", " 1]}")] {
            list.push((Entry::Query, format!("{}{}{}", p, a, q)));
        }
        list.push((Entry::Update, format!("INSERT DATA{{?s {} ?o}}", a)));
        list.push((Entry::Update, format!("DELETE WHERE{{?s {} ?o}}", a)));
        list.push((Entry::Update, format!("DELETE{{?s a ?o;{} ?o}}WHERE{{?s ^{} 1}}", a, a)));
    }
    v.push(texts("predicate", "`a` and `A` as predicate or path step in every surrounding", list));
    v
}
fn same_case(w: &mut Worker, e: Entry, text: &str, want: &str) {
    if let (Ref::Accept(_), Out::Ok { tree, .. }) = w.accept(e, text) {
        if tree != want {
            w.fail(e, text, Kind::Own, format!("the case of a keyword changes the tree\n  upper {}\n  here  {}", want, tree));
        }
    }
}
fn lookalikes() -> std::collections::BTreeMap<char, Vec<char>> {
    let mut m: std::collections::BTreeMap<char, Vec<char>> = Default::default();
    for l in "abcdefghijklmnopqrstuvwxyz0123456789_".chars() {
        let mut v = vec![];
        for cp in 128..0x110000u32 {
            if let Some(ch) = char::from_u32(cp) {
                let fold = ch.to_lowercase().any(|x| x == l) || ch.to_uppercase().any(|x| x.to_ascii_lowercase() == l);
                let low = |c: u32| char::from(c as u8).to_ascii_lowercase() == l;
                let low7 = ((cp & 0x7f) as u8 as char).to_ascii_lowercase() == l && cp < 256;
                let wide = (0xFF01..=0xFF5E).contains(&cp) && char::from((cp - 0xFEE0) as u8).to_ascii_lowercase() == l;
                if fold || low7 || wide || (cp >= 256 && low(cp) && (cp < 0x800 || cp % 0x1000 < 0x100 || cp >> 8 == 0xff)) {
                    v.push(ch);
                }
            }
        }
        for d in [1u8, 2, 4, 8, 16, 32, 64] {
            for b in [l as u8 ^ d, l.to_ascii_uppercase() as u8 ^ d] {
                let ch = b as char;
                if b < 128 && ch.to_ascii_lowercase() != l {
                    v.push(ch);
                }
            }
        }
        v.sort();
        v.dedup();
        m.insert(l, v);
    }
    m
}

// ------------------------------------------------------------------ C19

fn c19(c: &Ctx) -> Vec<Job> {
    let m = c.m;
    let mut words: Vec<String> = vec![];
    for t in &m.g.terms {
        for w in t.split(' ') {
            if is_keyword(w) && !w.starts_with("STRING_LITERAL") && !["NIL", "ANON", "IRIREF", "PNAME_NS", "PNAME_LN", "VAR1", "VAR2", "LANGTAG", "BLANK_NODE_LABEL"].contains(&w) && !w.starts_with("INTEGER") && !w.starts_with("DECIMAL") && !w.starts_with("DOUBLE") {
                words.push(w.to_string());
            }
        }
    }
    words.push("a".into());
    words.sort();
    words.dedup();
    let mut v = vec![];
    for e in [Entry::Query, Entry::Update] {
        // one site per (kind of name, token in front, token behind, rule form)
        let k = |s: &str| m.g.t(s);
        let mut seen = std::collections::HashSet::new();
        let mut sites: Vec<(Vec<T>, usize, u8)> = vec![];
        for s in cover(c, e, if c.thorough { 6 } else { 4 }, usize::MAX) {
            for i in 0..s.len() {
                let t = s[i];
                let kind = if t == k("VAR1") || t == k("VAR2") {
                    0
                } else if t == k("IRIREF") || t == k("PNAME_LN") || t == k("PNAME_NS") {
                    1
                } else if t == k("BLANK_NODE_LABEL") {
                    2
                } else {
                    continue;
                };
                let key = (kind, i.checked_sub(2).map(|j| s[j]), i.checked_sub(1).map(|j| s[j]), s.get(i + 1).cloned(), s[0], c.thorough && i > 4);
                if seen.insert(key) {
                    sites.push((s.clone(), i, kind));
                }
            }
        }
        let n = sites.len() as u64;
        let ws = words.clone();
        let bound = format!("{} name positions (every kind of name with every neighbourhood in a grammar cover) x {} keywords in 2 cases and 4 longer spellings, as prefix, local name, variable or label; spaced and dense", n, ws.len());
        v.push(par(&format!("names-{:?}", e), bound, n, 4, move |i, w| {
            let (s, at, kind) = &sites[i as usize];
            let mut names: Vec<String> = vec![];
            for (x, kw) in ws.iter().enumerate() {
                let low = kw.to_ascii_lowercase();
                let forms = [kw.clone(), low.clone(), format!("{}s", low), format!("{}1", kw), format!("{}-x", low), format!("{}.a", low)];
                match kind {
                    0 => {
                        for f in &forms[..4] {
                            names.push(format!("{}{}", if x % 2 == 0 { "?" } else { "$" }, f));
                        }
                    }
                    1 => {
                        for f in &forms {
                            names.push(format!("{}:x", f));
                        }
                        names.push(format!("{}:", forms[x % 2]));
                        names.push(format!("p:{}", low));
                        names.push(format!(":{}", kw));
                        names.push(format!("{}:{}", low, kw));
                    }
                    _ => {
                        for f in &forms {
                            names.push(format!("_:{}", f));
                        }
                    }
                }
            }
            for nm in names {
                for lay in [Layout::Spaced, Layout::Tight] {
                    let p = w.rd.pieces(s, Pool::Plain);
                    if let Some(x) = p.iter_mut().find(|x| x.1 == *at) {
                        x.0 = nm.clone();
                    }
                    let t = w.rd.join(lay);
                    w.check(e, &t);
                }
            }
        }));
        // a keyword with something attached is not that keyword
        let sites = keyword_sites(c, e, if c.thorough { 4 } else { 3 });
        let n = sites.len() as u64;
        v.push(par(&format!("split-{:?}", e), format!("{} sites of keywords, with letters, digits and name characters attached in front and behind, and with a colon", n), n, 8, move |i, w| {
            let (s, at) = &sites[i as usize];
            w.rd.pieces(s, Pool::Plain);
            let ps = w.rd.pieces.clone();
            for (j, p) in ps.iter().enumerate().filter(|x| x.1 .1 == *at && is_keyword(&x.1 .0)) {
                for (a, b) in [("", "s"), ("", "1"), ("", "_"), ("", "é"), ("", "-x"), ("", ":x"), ("", ":"), ("x", ""), ("_", ""), ("1", ""), ("é", ""), (":", ""), ("p:", ""), ("?", ""), ("$", ""), ("_:", ""), ("", "."), ("", ".x"), ("", "SELECT"), ("", "ASK"), ("", "\u{B7}"), ("", "a"), ("a", "")] {
                    for low in [false, true] {
                        w.rd.pieces = ps.clone();
                        w.rd.pieces[j].0 = format!("{}{}{}", a, if low { p.0.to_ascii_lowercase() } else { p.0.clone() }, b);
                        let t = w.rd.join(Layout::Spaced);
                        w.check(e, &t);
                    }
                }
            }
        }));
    }
    // every prefix of every keyword, and keywords run together
    let mut list = vec![];
    for a in &words {
        for b in &words {
            list.push((Entry::Query, format!("ASK{{?s {}{}:x ?o}}", a.to_lowercase(), b.to_lowercase())));
            list.push((Entry::Query, format!("ASK{{{}:{} a {}:{}}}", a, b, b, a)));
            list.push((Entry::Query, format!("SELECT ?{} ${} {{?{}{} a {}:}}", a, b, a, b, b.to_lowercase())));
            list.push((Entry::Query, format!("ASK{{FILTER({}:x+{}:x)}}GROUP BY ?{} ?{}", a, b, a, b)));
            list.push((Entry::Query, format!("ASK{{FILTER({}{}(1))}}", a, b)));
            list.push((Entry::Query, format!("ASK{{{}:s {}:p 1 . FILTER {}:f(2)}}ORDER BY {}:x(3) ?a", a, b, b, a)));
            list.push((Entry::Update, format!("LOAD {}:x INTO GRAPH {}:y;CLEAR GRAPH {}{}:", a, b, a, b)));
            list.push((Entry::Update, format!("INSERT DATA{{{}:s a {}:o GRAPH {}:g{{}}}}", a, b, a)));
        }
        for k in 1..a.len() {
            list.push((Entry::Query, format!("ASK{{?s {}:x {}:y}}", &a[..k], a[..k].to_lowercase())));
            list.push((Entry::Query, format!("ASK{{?s ?p ?o {} }}", &a[..k])));
            list.push((Entry::Query, format!("ASK{{}} {} 1", &a[..k])));
        }
    }
    v.push(texts("pairs", "every two keywords as prefixes, local names, variables, and run together; every proper prefix of every keyword", list));
    v
}

// ------------------------------------------------------------------ C21

fn c21() -> Vec<Job> {
    let texts = ["", "a", "b", "A", "a\u{0}", "é", "@en", "^^", "en", "xsd:string"];
    let tags = ["en", "EN", "En", "en-US", "en-us", "de", "e", "", "en-", "x", "\u{117}n", "fr-CA-x1", "en_US", "fr-CA-x1-y", "fr-CA-x1-z", "sr-latn-rs-x-abcdefgh-1", "sr-latn-rs-x-abcdefgh-2", "de-", "d"];
    let mut all: Vec<(u8, &'static str, &'static str)> = vec![];
    for t in texts {
        all.push((0, t, ""));
        all.push((1, t, ""));
        for g in tags {
            all.push((2, t, g));
        }
    }
    let n = all.len() as u64;
    vec![par("pairs", format!("all {} ordered pairs of {} literals: three kinds, {} texts, {} language tags", n * n, n, texts.len(), tags.len()), n * n, 1000, move |i, w| {
        use nom_sparql::literal::StringLiteral as L;
        let mk = |x: &(u8, &str, &str)| match x.0 {
            0 => L::Simple(x.1.to_string()),
            1 => L::Typed(x.1.to_string()),
            _ => L::Language((x.1.to_string(), x.2.to_string())),
        };
        let (a, b) = (&all[(i % n) as usize], &all[(i / n) as usize]);
        let want = match (a.0, b.0) {
            (2, 2) => a.2 == b.2,
            (2, _) => true,
            (_, 2) => false,
            _ => true,
        };
        w.cnt.texts += 1;
        if i % n == 0 {
            w.cnt.states += 1; // a literal
        }
        w.cnt.steps += 1; // an ordered pair
        let text = format!("compatible_arg {:?} {:?}", mk(a), mk(b));
        if w.cnt.samples.is_empty() {
            w.cnt.samples.push(text.clone());
        }
        let got = std::panic::catch_unwind(|| mk(a).compatible_arg(&mk(b)));
        if got.as_ref().ok() != Some(&want) {
            w.fail(Entry::Query, &text, Kind::Own, format!("expected {}, got {:?}", want, got.ok()));
        }
    })]
}

// ------------------------------------------------------------------ C22

/// allocations and CPU time of one parse
fn cost(e: Entry, text: &str) -> (u64, f64) {
    let a = crate::alloc_count();
    let t = crate::cpu();
    run_raw(e, text);
    (crate::alloc_count() - a, crate::cpu() - t)
}

const SLOW: f64 = 0.5;
const RATIO: f64 = 12.0;

/// Doubles the size until the cost explodes or the last size is reached.
fn growth(w: &mut Worker, e: Entry, sizes: &[usize], make: &mut dyn FnMut(&mut Worker, usize) -> String) {
    let mut last: Option<(u64, f64)> = None;
    for (k, &d) in sizes.iter().enumerate() {
        let t = make(w, d);
        w.cnt.texts += 1;
        let (n, mut s) = cost(e, &t);
        if s > SLOW && t.len() < 8000 {
            // not a hiccup of the machine?
            s = s.min(cost(e, &t).1);
        }
        if s > SLOW && t.len() < 8000 {
            w.fail(e, &t, Kind::Own, format!("a request of {} bytes (size {}) takes {:.2} s and {} allocations", t.len(), d, s, n));
            return;
        }
        if let Some((n0, s0)) = last {
            let f = sizes[k] as f64 / sizes[k - 1] as f64;
            let limit = if f > 2.5 { RATIO * RATIO } else { RATIO };
            if n > 2000 && n as f64 > limit * n0.max(50) as f64 {
                w.fail(e, &t, Kind::Own, format!("from size {} to {} the work grows from {} to {} allocations ({} bytes)", sizes[k - 1], d, n0, n, t.len()));
                return;
            }
            if s > 0.02 && s > limit * s0.max(0.0005) {
                let again = cost(e, &t).1.min(cost(e, &t).1);
                if again > 0.02 && again > limit * s0.max(0.0005) {
                    w.fail(e, &t, Kind::Own, format!("from size {} to {} the work grows from {:.5} s to {:.5} s ({} bytes)", sizes[k - 1], d, s0, again, t.len()));
                    return;
                }
            }
        }
        last = Some((n, s));
    }
}

/// the different ways to complete or break the nesting; None = no such form
fn nest_form(m: &Model, p: &Pump, others: &[&Pump], d: usize, form: usize) -> Vec<T> {
    let open = p.open(d, others);
    let close = p.close(d, others);
    let mut v = open;
    match form {
        0 => {
            v.extend(&p.core);
            v.extend(&close);
        }
        1 => {}
        2 => v.extend(&p.core),
        3 => {
            v.extend(&p.core);
            v.extend(&close[..close.len() / 2]);
        }
        4 => {
            v.extend(&p.core);
            if !close.is_empty() {
                v.extend(&close[..close.len() - 1]);
            }
        }
        k => {
            v.push(m.g.t(BREAKERS[k - 5]));
            if k % 2 == 0 {
                v.extend(&close);
            }
        }
    }
    v
}
const BREAKERS: &[&str] = &["=", ")", "}", "]", ";", ",", "SELECT", "INTEGER", "^^", "VAR1", "{", "("];
const FORMS: usize = 5 + 12;

fn c22(c: &Ctx) -> Vec<Job> {
    let mut v = vec![];
    let groups = all_pumps(c, true);
    let single: Vec<Pump> = groups.iter().flatten().cloned().collect();
    let sizes: &'static [usize] = if c.thorough { &[4, 6, 8, 12, 16, 24, 32, 64, 128] } else { &[4, 6, 8, 12, 16, 24, 32, 64] };
    let bound = format!("{} self-embedding constructs and list elements x {} forms (complete, broken off, wrong inside, wrong behind) at sizes {:?}: at most {} times the work per doubling, {} s at most; three layouts", single.len(), FORMS, sizes, RATIO, SLOW);
    v.push(par("single", bound, single.len() as u64 * FORMS as u64, 24, move |i, w| {
        let p = &single[i as usize / FORMS];
        let form = i as usize % FORMS;
        growth(w, p.entry, sizes, &mut |w, d| {
            let toks = nest_form(w.m, p, &[], d, form);
            if form == 0 {
                let _ = w.m.g.parse(w.m.start(p.entry), &toks, &mut w.rc.seen);
            }
            w.rd.text(&toks, Pool::Plain, Layout::Spaced)
        });
        if form < 4 {
            growth(w, p.entry, sizes, &mut |w, d| {
                let toks = nest_form(w.m, p, &[], d, form);
                w.rd.text(&toks, Pool::Same, Layout::Tight)
            });
            growth(w, p.entry, sizes, &mut |w, d| {
                let toks = nest_form(w.m, p, &[], d, form);
                let t = w.rd.text(&toks, Pool::Plain, Layout::Spaced);
                t.replace(' ', " #c\n\t")
            });
        }
    }));
    let pairs = pump_pairs(&groups, if c.thorough { 70 } else { 24 });
    let np = pairs.len();
    let forms: &'static [usize] = if c.thorough { &[0, 1, 2, 4, 5, 6, 8, 11, 12] } else { &[0, 2, 5] };
    let psz: &'static [usize] = &[8, 16, 32];
    v.push(par("pairs", format!("{} alternations of two constructs x {} forms at sizes {:?}", np, forms.len(), psz), np as u64 * forms.len() as u64, 100, move |i, w| {
        let (p, q) = &pairs[i as usize / forms.len()];
        let form = forms[i as usize % forms.len()];
        growth(w, p.entry, psz, &mut |w, d| {
            let toks = nest_form(w.m, p, &[q], d, form);
            w.rd.text(&toks, Pool::Same, Layout::Spaced)
        });
    }));
    // constructs that repeat and at the same time nest: k elements at each of d levels
    let flat: Vec<Vec<Pump>> = groups.iter().map(|g| g.iter().filter(|p| p.nests()).take(if c.thorough { 40 } else { 12 }).cloned().collect()).collect();
    let wide: Vec<Pump> = flat.into_iter().flatten().collect();
    let nw = wide.len() as u64;
    v.push(par("last-token", format!("{} nestings at sizes {:?}, with each of {} tokens behind the complete request", nw, psz, 40), nw * 40, 100, move |i, w| {
        let p = &wide[(i / 40) as usize];
        let tk = (i % 40) as usize;
        let al: Vec<T> = terms(w.m, if p.entry == Entry::Update { U_ALPHA } else { Q_ALPHA });
        growth(w, p.entry, psz, &mut |w, d| {
            let mut toks = nest_form(w.m, p, &[], d, 0);
            // in front of the closing tokens of the surroundings
            let at = toks.len() - p.suf.len();
            toks.insert(at, al[tk % al.len()]);
            w.rd.text(&toks, Pool::Same, Layout::Spaced)
        });
    }));
    // long tokens and layout
    let mut frags: Vec<(Entry, String, String, String)> = vec![];
    let q = |a: &str, b: &str, z: &str| (Entry::Query, a.to_string(), b.to_string(), z.to_string());
    for lay in [" ", "\n", "\t", "#\n", "#c c\n", " #\r", "\r\n", "# # #\n "] {
        for e in [Entry::Query, Entry::Update] {
            let mut seen = std::collections::HashSet::new();
            for s in cover(c, e, 3, usize::MAX) {
                let mut rd = crate::render::Renderer::new(c.m);
                rd.pieces(&s, Pool::Plain);
                let ps = rd.pieces.clone();
                for k in 0..=ps.len() {
                    let key = (k.checked_sub(1).map(|j| s[ps[j].1]), ps.get(k).map(|p| s[p.1]), s.first().cloned());
                    if (lay == " " || lay == "#c c\n" || c.thorough) && seen.insert(key) {
                        let j = |x: &[(String, usize)]| x.iter().map(|p| p.0.clone()).collect::<Vec<_>>().join(" ");
                        frags.push((e, format!("{} ", j(&ps[..k])), lay.to_string(), format!(" {}", j(&ps[k..]))));
                    }
                }
            }
        }
        frags.push(q("ASK{?s a ?o", lay, ""));
        frags.push(q("ASK{FILTER(1", lay, "="));
        frags.push(q("", lay, ""));
    }
    for (a, b, z) in [("ASK{?s a '", "x", "'}"), ("ASK{?s a '", "\\n", "'}"), ("ASK{?s a \"", "'", "\"}"), ("ASK{?s a '''", "''a", "'''}"), ("ASK{?s a \"\"\"", "\"a", ""), ("ASK{?s a '", "a", ""), ("ASK{?s a <", "x", ">}"), ("ASK{?s a <", "x", ""), ("ASK{?s a p:", "x", "}"), ("ASK{?s a p:", "x.", "}"), ("ASK{?s a p:a", ".", "}"), ("ASK{?s a a", ".b", ":x}"), ("ASK{?s a a", ".b", "}"), ("ASK{?s a _:a", ".b", "}"), ("ASK{?s a _:a", ".", "}"), ("ASK{?s a ?", "x", "}"), ("ASK{?s a 1", "0", ".5}"), ("ASK{?s a 0.", "0", "1}"), ("ASK{?s a 0.", "0", "e1}"), ("ASK{?s a 1e", "0", "}"), ("ASK{?s a 1", ".", "}"), ("ASK{?s a 'x'@en", "-a", "}"), ("ASK{?s a 'x'@", "a", "}"), ("ASK{?s a p:", "%41", "}"), ("ASK{?s a p:", "\\-", "}"), ("ASK{FILTER(", "!", "1)}"), ("ASK{FILTER(", "-", "1)}"), ("ASK{FILTER(1 ", "-1 ", ")}"), ("ASK{FILTER(1", "=1", ")}"), ("ASK{?s a 1 ", ";", "}"), ("ASK{?s a 1 ", ".", "}"), ("ASK{", ";", "}"), ("ASK{?s a p:x", ",p:y", ",}"), ("SELECT ", "(1 AS ?x)", ""), ("ASK{} LIMIT ", "0", "5"), ("ASK{", "{}", "}"), ("ASK{{}", "UNION{}", "UNION}"), ("ASK{VALUES(?x){", "(1)", "(}}"), ("ASK{VALUES ?x{", "1 ", ""), ("ASK{?s ", "^", "<p> 1}"), ("ASK{?s ", "!", "<p> 1}"), ("ASK{?s <p>", "*", " 1}"), ("ASK{?s <p>", "?", " 1}"), ("ASK{?s !(<p>", "|^a", ") 1}"), ("ASK{?s !(<p>", "|^a", "")] {
        frags.push(q(a, b, z));
    }
    for (a, b, z) in [("INSERT DATA{", "<s> a <o>.", "}"), ("INSERT DATA{", "GRAPH<g>{}", "}"), ("INSERT DATA{", "GRAPH<g>{}.", ""), ("", "CLEAR ALL;", ""), ("", "CLEAR ALL;", "x"), ("", ";", ""), ("CLEAR ALL", ";", ""), ("DELETE{}", "USING<x>", "WHERE{}"), ("DELETE{}", "USING NAMED<x>", ""), ("", "BASE<x>", ""), ("", "PREFIX p:<x>", "CLEAR ALL;")] {
        frags.push((Entry::Update, a.to_string(), b.to_string(), z.to_string()));
    }
    let nf = frags.len() as u64;
    let lsz: &'static [usize] = &[16, 32, 64, 128, 256, 512];
    v.push(par("long", format!("{} positions with layout, name characters, digits or elements repeated {:?} times", nf, lsz), nf, 50, move |i, w| {
        let (e, a, b, z) = &frags[i as usize];
        growth(w, *e, lsz, &mut |_, d| format!("{}{}{}", a, b.repeat(d), z));
    }));
    v
}

// ------------------------------------------------------------------ C23

fn c23(c: &Ctx) -> Vec<Job> {
    let mut v = vec![];
    let groups = all_pumps(c, true);
    let single: Vec<Pump> = groups.iter().flatten().cloned().collect();
    let mut depths: Vec<usize> = (0..=if c.thorough { 130 } else { 40 }).collect();
    depths.extend([47, 48, 49, 50, 51, 60, 63, 64, 65, 66, 70, 80, 90, 99, 100, 101, 120, 127, 128, 129]);
    depths.sort();
    depths.dedup();
    let long: Vec<usize> = vec![150, 199, 200, 201, 250, 254, 255, 256, 257, 300, 400, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4096, 4097, 5000];
    let n = single.len() as u64;
    let bound = format!("{} constructs (every step of every loop and recursion of the grammar, every kind of list element) repeated {:?} times, lists also {:?} times, with distinct names", n, depths, long);
    let c_thorough = c.thorough;
    v.push(par("counts", bound, n, 4, move |i, w| {
        let p = &single[i as usize];
        for &d in depths.iter().chain(if p.nests() { [].iter() } else { long.iter() }) {
            let toks = p.at(d);
            if toks.len() > if c_thorough { 60_000 } else { 12_000 } {
                break;
            }
            let t = w.rd.text(&toks, Pool::Plain, Layout::Spaced);
            // the repetition may meet something the grammar cannot join (e.g. a name and a trailing word)
            w.check(p.entry, &t);
            if d < 10 {
                let t = w.rd.text(&toks, Pool::Hard, Layout::Tight);
                w.check(p.entry, &t);
            }
            if w.stopped() {
                return;
            }
        }
    }));
    // very long lists
    let far: &'static [usize] = if c.thorough { &[10_001, 32_769, 65_537, 100_001] } else { &[10_001, 65_537] };
    let lists: Vec<Pump> = groups.iter().flat_map(|g| varied(g.iter().filter(|p| p.beta.is_empty()).cloned().collect(), if c_thorough { 4 } else { 1 })).collect();
    let n = lists.len() as u64;
    v.push(par("far-counts", format!("{} lists of {:?} elements", n, far), n, 1, move |i, w| {
        for &d in far {
            let toks = lists[i as usize].at(d);
            let t = w.rd.text(&toks, Pool::Plain, Layout::Spaced);
            w.check(lists[i as usize].entry, &t);
        }
    }));
    let pairs = pump_pairs(&groups, if c.thorough { 75 } else { 30 });
    let n = pairs.len() as u64;
    let ds: &'static [usize] = if c.thorough { &[2, 3, 4, 5, 6, 7, 8, 12, 15, 16, 24, 31] } else { &[2, 3, 4, 5, 8, 13] };
    v.push(par("alternations", format!("{} alternations of two constructs at depths {:?}", n, ds), n, 50, move |i, w| {
        let (p, q) = &pairs[i as usize];
        for &d in ds {
            let toks = p.mixed(d, &[q]);
            let t = w.rd.text(&toks, Pool::Plain, Layout::Spaced);
            w.check(p.entry, &t);
        }
    }));
    let mut triples = vec![];
    for g in &groups {
        let k = g.len().min(if c.thorough { 20 } else { 9 });
        for a in 0..k {
            for b in 0..k {
                for x in 0..k {
                    if a != b && b != x && a != x {
                        triples.push((g[a].clone(), g[b].clone(), g[x].clone()));
                    }
                }
            }
        }
    }
    let n = triples.len() as u64;
    v.push(par("triples", format!("{} alternations of three constructs at depths 3, 4 and 7", n), n, 50, move |i, w| {
        let (p, q, r) = &triples[i as usize];
        for d in [3, 4, 7] {
            let toks = p.mixed(d, &[q, r]);
            let t = w.rd.text(&toks, Pool::Plain, Layout::Spaced);
            w.check(p.entry, &t);
        }
    }));
    // two lists of different lengths in one request
    let mut lists: Vec<Pump> = groups.iter().flatten().filter(|p| p.beta.is_empty()).cloned().collect();
    lists.truncate(if c.thorough { 100_000 } else { 400 });
    let n = lists.len() as u64;
    v.push(par("twice", format!("{} lists with 0 to 6 elements after up to 6 elements of another kind", n), n, 10, move |i, w| {
        let p = &lists[i as usize];
        for q in lists.iter().filter(|q| q.n == p.n && q.pre == p.pre && q.entry == p.entry).take(12) {
            for a in 0..=6 {
                for b in 0..=6 {
                    let mut v = p.pre.clone();
                    for _ in 0..a {
                        v.extend(&p.alpha);
                    }
                    for _ in 0..b {
                        v.extend(&q.alpha);
                    }
                    v.extend(&p.core);
                    v.extend(&p.suf);
                    let t = w.rd.text(&v, Pool::Plain, Layout::Spaced);
                    w.check(p.entry, &t);
                }
            }
        }
    }));
    v
}
