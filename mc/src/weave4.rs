// Included by props.rs: lists of lists; what is absent against what is there with a special value.

/// Lists in the elements of lists: for every list and recursion of the grammar and every list that fits into its
/// elements, up to 4 elements with up to 5 inner elements each, alike in every combination of sameness, and ragged.
fn grid(c: &Ctx, entry: Entry, home: &[&str], outer: usize) -> Job {
    let m = c.m;
    let at_home = |n: N| home.is_empty() || home.contains(&m.g.nts[n as usize].split('~').next().unwrap());
    let groups: Vec<Vec<Pump>> = all_pumps(c, false).into_iter().filter(|g| !g.is_empty() && g[0].entry == entry).collect();
    // the inner lists: a few short elements of each
    let mut inner: Vec<(Vec<T>, bool)> = vec![];
    for g in &groups {
        let short: Vec<Pump> = g.iter().filter(|p| p.beta.is_empty() && p.alpha.len() <= 4).cloned().collect();
        if short.is_empty() {
            continue;
        }
        for p in varied(short, 3) {
            match inner.iter_mut().find(|q| q.0 == p.alpha) {
                Some(q) => q.1 |= at_home(p.n),
                None => inner.push((p.alpha.clone(), at_home(p.n))),
            }
        }
    }
    let items: Vec<(Pump, bool)> = groups.into_iter().flat_map(|g| varied(g, outer)).map(|p| (p.clone(), at_home(p.n))).collect();
    let n = items.len() as u64;
    let (rows, cols): (usize, usize) = if c.thorough { (6, 8) } else { (4, 5) };
    let ragged = if c.thorough { 5 } else { 3 };
    let bound = format!(
        "{} elements of lists and recursions, {} inner elements inserted 1 to {} times at every place where the automaton accepts them: 1 to {} such elements, alike with distinct names, alike with equal names, repeated with the same names, all names equal and in descending order; pairs with 1 to {} and 1 to {} inner elements",
        n,
        inner.len(),
        cols,
        rows,
        ragged,
        ragged
    );
    par(&format!("grid-{:?}", entry), bound, n, 1, move |i, w| {
        let (p, ph) = &items[i as usize];
        let start = w.m.start(entry);
        let mut seen: std::collections::HashSet<Vec<T>> = std::collections::HashSet::new();
        for left in [true, false] {
            let part = if left { &p.alpha } else { &p.beta };
            if part.is_empty() {
                continue;
            }
            for (q, qh) in inner.iter().filter(|q| *ph || q.1) {
                let _ = qh;
                for at in 0..=part.len() {
                    let wide = |k: usize| {
                        let mut x = part[..at].to_vec();
                        for _ in 0..k {
                            x.extend(q);
                        }
                        x.extend(&part[at..]);
                        let mut r = p.clone();
                        if left {
                            r.alpha = x;
                        } else {
                            r.beta = x;
                        }
                        r
                    };
                    let two = wide(2).at(2);
                    if seen.contains(&two) || w.m.g.parse(start, &two, &mut w.rc.seen).is_err() {
                        continue;
                    }
                    seen.insert(two);
                    let mut toks = vec![];
                    for k in 1..=cols {
                        let r = wide(k);
                        for n in 1..=rows {
                            lined_up(&vec![&r; n], &mut toks);
                            for (pool, l) in [(Pool::Plain, Layout::Spaced), (Pool::Desc, Layout::Spaced), (Pool::Same, Layout::Tight)] {
                                let t = w.rd.text(&toks, pool, l);
                                w.check(entry, &t);
                            }
                        }
                        // the element said again, word for word: twice, thrice, and with another one between
                        lined_up(&[&r], &mut toks);
                        w.rd.pieces(&toks, Pool::Plain);
                        let ps = w.rd.pieces.clone();
                        let (a, b) = (r.pre.len(), r.pre.len() + r.alpha.len());
                        let (x, y) = (b + r.core.len(), b + r.core.len() + r.beta.len());
                        let cut = |lo: usize, hi: usize| ps.iter().filter(|s| s.1 >= lo && s.1 < hi).map(|s| s.0.as_str()).collect::<Vec<_>>().join(" ");
                        let (pre, al, co, be, su) = (cut(0, a), cut(a, b), cut(b, x), cut(x, y), cut(y, toks.len()));
                        for n in 2..=rows {
                            let t = format!("{} {} {} {} {}", pre, format!("{} ", al).repeat(n), co, format!("{} ", be).repeat(n), su);
                            w.check(entry, &t);
                        }
                    }
                    for k in 1..=ragged {
                        for o in 1..=ragged {
                            if k != o {
                                let (r, s) = (wide(k), wide(o));
                                for seq in [vec![&r, &s], vec![&r, &s, &r]] {
                                    lined_up(&seq, &mut toks);
                                    for (pool, l) in [(Pool::Plain, Layout::Spaced), (Pool::Same, Layout::Tight)] {
                                        let t = w.rd.text(&toks, pool, l);
                                        w.check(entry, &t);
                                    }
                                }
                            }
                        }
                    }
                    if w.stopped() {
                        return;
                    }
                }
            }
        }
    })
}

/// A sentence with a special value in one place against the same sentence without the words around that place.
fn absent_equality(c: &Ctx, entry: Entry) -> Job {
    let all = Pairs::new(c.m, entry, &[], c.cap(12_000, 400_000));
    let n = all.len() as u64;
    par(&format!("absent-{:?}", entry), format!("{} sentences (two grammar choices): every special value in every place, compared with the sentence without the one to six words around it, wherever both are accepted", n), n, 50, move |i, w| {
        let s = all.get(i as usize);
        w.rd.pieces(s, Pool::Plain);
        let ps = w.rd.pieces.clone();
        let words: Vec<&str> = ps.iter().map(|p| p.0.as_str()).collect();
        let mut without: Vec<(usize, usize, String, String, Ast)> = vec![];
        for a in 0..words.len() {
            for b in a + 1..=words.len().min(a + 6) {
                let t = words[..a].iter().chain(&words[b..]).cloned().collect::<Vec<_>>().join(" ");
                if let Ref::Accept(k) = w.rc.decide(entry, &t) {
                    if let Some((0, x)) = run_ast(entry, &t) {
                        without.push((a, b, t, norm(&k), x));
                    }
                }
            }
        }
        for k in 0..words.len() {
            if !without.iter().any(|o| o.0 <= k && k < o.1) {
                continue;
            }
            let kind = w.m.g.terms[s[ps[k].1] as usize].clone();
            for x in leaf_values(&kind).iter().chain(&[words[k]]) {
                let t = words[..k].iter().chain(&[*x]).chain(&words[k + 1..]).cloned().collect::<Vec<_>>().join(" ");
                let (k0, a0) = match (w.rc.decide(entry, &t), run_ast(entry, &t)) {
                    (Ref::Accept(k), Some((0, a))) => (norm(&k), a),
                    _ => continue,
                };
                w.cnt.accepted += 1;
                for (a, b, t2, k2, a2) in &without {
                    if *a <= k && k < *b {
                        w.cnt.texts += 1;
                        let same = *k2 == k0;
                        if (a0 == *a2) != same || (*a2 == a0) != same || (a0 != *a2) == same {
                            w.fail(entry, &t, Kind::Own, format!("compared with {:?}: trees {}, but the requests {}", t2, if a0 == *a2 { "equal" } else { "unequal" }, if same { "say the same" } else { "differ" }));
                        }
                    }
                }
            }
        }
    })
}
