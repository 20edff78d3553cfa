// Included by props.rs: long names and literals that differ in one character somewhere inside.

/// The text with one letter or digit replaced, at up to seven places from its beginning to its end.
fn one_letter_off(x: &str) -> Vec<String> {
    let b = x.as_bytes();
    let n = b.len();
    let ok = |k: usize| {
        k > 0 && matches!(b[k], b'a'..=b'y' | b'1'..=b'8') && b[k - 1] != b'\\' && b[k - 1] != b'%' && (k < 2 || b[k - 2] != b'%')
    };
    let mut at: Vec<usize> = vec![];
    for want in [1, n / 8, n / 4, n / 2, 5 * n / 8, 3 * n / 4, n - 3] {
        if let Some(k) = (want.max(1)..n).find(|k| ok(*k)) {
            at.push(k);
        }
    }
    at.dedup();
    at.iter().map(|k| format!("{}{}{}", &x[..*k], (b[*k] + 1) as char, &x[k + 1..])).collect()
}

const ALIKE: &[usize] = &[20, 36, 68, 132, 260, 1030];
const ALIKE_DEEP: &[usize] = &[17, 20, 25, 33, 36, 50, 65, 68, 100, 129, 132, 257, 260, 520, 1030, 4100];

/// In every place of a leaf a long value, then the same but for one character: one after the other, and both in one request.
fn alike(c: &Ctx, entry: Entry, home: &[&str], cap: u64) -> Job {
    let all = Pairs::new(c.m, entry, home, cap);
    let n = all.len() as u64;
    let sizes = if c.thorough { ALIKE_DEEP } else { ALIKE };
    par(&format!("alike-{:?}", entry), format!("{} sentences (two grammar choices): every name and literal about {:?} bytes long, followed in the same memory by its variants with one character changed at up to seven places, and both at once in every two places of a kind", n, sizes), n, 10, move |i, w| {
        let s = all.get(i as usize);
        w.rd.pieces(s, Pool::Plain);
        let ps = w.rd.pieces.clone();
        let whole = |k: usize| !(ps.get(k + 1).map_or(false, |q| q.1 == ps[k].1) || k > 0 && ps[k - 1].1 == ps[k].1);
        let kinds: Vec<String> = ps.iter().map(|p| w.m.g.terms[s[p.1] as usize].clone()).collect();
        let mut buf = String::with_capacity(1 << 15);
        let mut put = |w: &mut Worker, with: &[(usize, &str)]| {
            w.rd.pieces = ps.clone();
            for (k, x) in with {
                w.rd.pieces[*k].0 = x.to_string();
            }
            let t = w.rd.join(Layout::Spaced);
            buf.clear();
            buf.push_str(&t);
            w.check(entry, &buf);
        };
        for k in (0..ps.len()).filter(|k| whole(*k)) {
            for &size in sizes {
                let vals = long_values(&kinds[k], size);
                for (v, x) in vals.iter().enumerate() {
                    let near = one_letter_off(x);
                    put(w, &[(k, x)]);
                    for y in &near {
                        put(w, &[(k, y)]);
                    }
                    if v == 0 {
                        for j in (0..ps.len()).filter(|j| *j != k && whole(*j) && long_values(&kinds[*j], 1).len() == vals.len()) {
                            put(w, &[(k, x), (j, x)]);
                            for y in &near {
                                put(w, &[(k, x), (j, y)]);
                            }
                        }
                    }
                    put(w, &[(k, x)]);
                }
                if w.stopped() {
                    return;
                }
            }
        }
    })
}

/// Trees of requests that differ in one character of a long name or literal are unequal.
fn alike_equality(c: &Ctx, entry: Entry) -> Job {
    let all = Pairs::new(c.m, entry, &[], c.cap(1_500, 30_000));
    let n = all.len() as u64;
    let sizes = if c.thorough { ALIKE_DEEP } else { ALIKE };
    par(&format!("alike-{:?}", entry), format!("{} sentences (two grammar choices): every name and literal about {:?} bytes long, compared with its variants with one character changed at up to seven places, one character less, and one more", n, sizes), n, 10, move |i, w| {
        let s = all.get(i as usize);
        w.rd.pieces(s, Pool::Plain);
        let ps = w.rd.pieces.clone();
        let mut tree = |w: &mut Worker, k: usize, x: &str| {
            w.rd.pieces = ps.clone();
            w.rd.pieces[k].0 = x.to_string();
            let t = w.rd.join(Layout::Spaced);
            w.cnt.texts += 1;
            match (w.rc.decide(entry, &t), run_ast(entry, &t)) {
                (Ref::Accept(m), Some((0, a))) => {
                    w.cnt.accepted += 1;
                    Some((norm(&m), t, a))
                }
                _ => None,
            }
        };
        for k in 0..ps.len() {
            if ps.get(k + 1).map_or(false, |q| q.1 == ps[k].1) || k > 0 && ps[k - 1].1 == ps[k].1 {
                continue;
            }
            let kind = w.m.g.terms[s[ps[k].1] as usize].clone();
            for &size in sizes {
                for x in long_values(&kind, size) {
                    let (k0, t0, a0) = match tree(w, k, &x) {
                        Some(r) => r,
                        None => continue,
                    };
                    let mut near = one_letter_off(&x);
                    for at in [2, x.len() / 2] {
                        if x.is_char_boundary(at) && x.as_bytes()[at].is_ascii_alphanumeric() {
                            near.push(format!("{}{}", &x[..at], &x[at + 1..]));
                            near.push(format!("{}{}", &x[..=at], &x[at..]));
                        }
                    }
                    for y in near {
                        if let Some((k1, t1, a1)) = tree(w, k, &y) {
                            let same = k0 == k1;
                            if (a0 == a1) != same || (a1 == a0) != same || (a0 != a1) == same {
                                w.fail(entry, &t1, Kind::Own, format!("compared with {:?}: trees {}, but the requests {}", t0, if a0 == a1 { "equal" } else { "unequal" }, if same { "say the same" } else { "differ" }));
                                return;
                            }
                        }
                    }
                }
                if w.stopped() {
                    return;
                }
            }
        }
    })
}

/// Every lexical form with every datatype of XML Schema and RDF (right and wrong ones), and with language tags, in many positions.
fn typed_literals(c: &Ctx) -> Job {
    let forms = [
        "", "0", "1", "5", "42", "-1", "+1", "007", "-0", "1.0", ".5", "1e0", "1E5", "9223372036854775807", "18446744073709551616", "true", "false", "TRUE", "NaN", "INF", "-INF", "a", "abc", " 1 ", "en", "2020-01-01",
        "2020-01-01T00:00:00Z", "12:00:00", "P1D", "http://a/", "AQ==", "0F", "<b>x</b>", "undef", "()",
    ];
    let mut types: Vec<String> = vec![];
    for x in [
        "string", "boolean", "decimal", "integer", "double", "float", "date", "time", "dateTime", "dateTimeStamp", "gYear", "gMonth", "duration", "dayTimeDuration", "yearMonthDuration", "byte", "short", "int", "long", "unsignedByte", "unsignedInt", "unsignedLong", "positiveInteger", "nonNegativeInteger",
        "nonPositiveInteger", "negativeInteger", "hexBinary", "base64Binary", "anyURI", "language", "normalizedString", "token", "NMTOKEN", "Name", "NCName", "anyType",
    ] {
        types.push(format!("^^<http://www.w3.org/2001/XMLSchema#{}>", x));
        types.push(format!("^^xsd:{}", x));
    }
    for x in ["langString", "HTML", "XMLLiteral", "JSON", "PlainLiteral", "type", "nil"] {
        types.push(format!("^^<http://www.w3.org/1999/02/22-rdf-syntax-ns#{}>", x));
        types.push(format!("^^rdf:{}", x));
    }
    for x in ["^^<>", "^^:", "^^:integer", "^^xs:integer", "^^XSD:integer", "^^xsd:Integer", "^^<xsd:integer>", "^^<integer>", "@en", "@EN", "@zh-hant", "@zh-Hant-TW", "@en-us", "@en-US", "@sr-latn-RS", "@de-1996", "@x-private", "@i-klingon", "@und", "@mul", "@ja-jp-x-a", "@de-de-1901", "@en-GB-oed", "@iw", "@no", ""] {
        types.push(x.to_string());
    }
    let at: &'static [(Entry, &'static str)] = &[
        (Entry::Query, "ASK{?s ?p @}"),
        (Entry::Query, "ASK{?s ?p 1,@,@}"),
        (Entry::Query, "ASK{@ ?p ?o}"),
        (Entry::Query, "ASK{(@ @) ?p [?q @]}"),
        (Entry::Query, "ASK{FILTER(@)}"),
        (Entry::Query, "ASK{FILTER(?x=@)}"),
        (Entry::Query, "ASK{FILTER(@+@)}"),
        (Entry::Query, "ASK{FILTER(?x IN(@,@))}"),
        (Entry::Query, "ASK{FILTER STR(@)}"),
        (Entry::Query, "ASK{FILTER <f>(@)}"),
        (Entry::Query, "ASK{BIND(@ AS ?x)}"),
        (Entry::Query, "ASK{VALUES ?x{@}}"),
        (Entry::Query, "ASK{VALUES(?x ?y){(@ 1)(UNDEF @)}}"),
        (Entry::Query, "ASK{}VALUES ?x{@ @}"),
        (Entry::Query, "SELECT(@ AS ?x){}GROUP BY(@)ORDER BY DESC(@)"),
        (Entry::Query, "CONSTRUCT{?s ?p @}{}"),
        (Entry::Query, "CONSTRUCT WHERE{?s ?p (@)}"),
        (Entry::Update, "INSERT DATA{<s><p>@}"),
        (Entry::Update, "DELETE{GRAPH ?g{?s ?p @}}WHERE{?s ?p @}"),
        (Entry::Update, "DELETE WHERE{[?q @] ?p @}"),
    ];
    let quotes: &'static [&'static str] = if c.thorough { &["'", "\"", "'''", "\"\"\""] } else { &["'", "\"\"\""] };
    let n = (forms.len() * types.len() * at.len()) as u64;
    let bound = format!("{} lexical forms x {} datatypes and language tags x {} positions x {} quoting styles", forms.len(), types.len(), at.len(), quotes.len());
    par("typed", bound, n, 2000, move |i, w| {
        let i = i as usize;
        let (e, f) = at[i % at.len()];
        let (form, ty) = (forms[i / at.len() % forms.len()], &types[i / at.len() / forms.len()]);
        for q in quotes {
            let l = format!("{q}{form}{q}{ty}");
            // the tag may hold an @
            let t = f.split('@').collect::<Vec<_>>().join(&l);
            w.check(e, &t);
        }
    })
}

/// For every list and recursion of the grammar: lists that differ in the order or in the multiplicity of their elements, or in
/// any two stretches of words, are equal exactly when the model says so.
fn rearranged(c: &Ctx, entry: Entry, kinds: usize) -> Job {
    let groups: Vec<Vec<Pump>> = all_pumps(c, false).into_iter().filter(|g| !g.is_empty() && g[0].entry == entry).map(|g| varied(g, kinds)).collect();
    let items: Vec<(usize, usize, usize)> = groups.iter().enumerate().flat_map(|(i, g)| (0..g.len() * g.len()).map(move |k| (i, k / g.len(), k % g.len()))).collect();
    let n = items.len() as u64;
    let span = if c.thorough { 8 } else { 5 };
    let bound = format!("{} lists and recursions of the grammar, every two of {} kinds of element, two and three elements with names of their own: any two stretches of at most {} words exchanged, or one put in the place of the other", groups.len(), kinds, span);
    par(&format!("rearranged-{:?}", entry), bound, n, 4, move |i, w| {
        let (g, a, b) = items[i as usize];
        let (u, v) = (&groups[g][a], &groups[g][b]);
        let mut toks = vec![];
        for seq in [vec![u, v], vec![u, u, v]] {
            lined_up(&seq, &mut toks);
            w.rd.pieces(&toks, Pool::Plain);
            let words: Vec<String> = w.rd.pieces.iter().map(|p| p.0.clone()).collect();
            let t0 = words.join(" ");
            let (k0, a0) = match (w.rc.decide(entry, &t0), run_ast(entry, &t0)) {
                (Ref::Accept(k), Some((0, x))) => (norm(&k), x),
                _ => continue,
            };
            // what all rearrangements have in common
            let (lo, hi) = {
                let pre = seq[0].pre.len();
                let suf = seq[0].suf.len();
                let before = w.rd.pieces.iter().filter(|p| p.1 < pre).count();
                let after = w.rd.pieces.iter().filter(|p| p.1 >= toks.len() - suf).count();
                (before.saturating_sub(2), (words.len() - after + 2).min(words.len()))
            };
            let mut buf: Vec<&str> = vec![];
            for x in lo..hi {
                for xe in x + 1..=hi.min(x + span) {
                    for y in xe..hi {
                        for ye in y + 1..=hi.min(y + span) {
                            for how in 0..3 {
                                buf.clear();
                                let (p, q) = (&words[x..xe], &words[y..ye]);
                                let (first, second) = match how {
                                    0 => (q, p),
                                    1 => (q, q),
                                    _ => (p, p),
                                };
                                for part in [&words[..x], first, &words[xe..y], second, &words[ye..]] {
                                    buf.extend(part.iter().map(|s| s.as_str()));
                                }
                                let t = buf.join(" ");
                                if t == t0 {
                                    continue;
                                }
                                w.cnt.texts += 1;
                                if let Ref::Accept(k) = w.rc.decide(entry, &t) {
                                    if let Some((0, a1)) = run_ast(entry, &t) {
                                        w.cnt.accepted += 1;
                                        let same = norm(&k) == k0;
                                        if (a0 == a1) != same || (a1 == a0) != same || (a0 != a1) == same {
                                            w.fail(entry, &t, Kind::Own, format!("compared with {:?}: trees {}, but the requests {}", t0, if a0 == a1 { "equal" } else { "unequal" }, if same { "say the same" } else { "differ" }));
                                            return;
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                if w.stopped() {
                    return;
                }
            }
        }
    })
}
