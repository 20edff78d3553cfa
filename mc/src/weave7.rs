// Included by props.rs: neighbours in a list, every form of an element, with every pattern of shared names.

struct Siblings {
    /// everything before the first element, after the last, and between two
    pre: Vec<T>,
    sep: Vec<T>,
    suf: Vec<T>,
    elements: Vec<Vec<T>>,
    /// whether the first element belongs to the list (else the list begins with a separator)
    headed: bool,
    rule: String,
}

/// Every list of the grammar: `A (sep A)*`, `A*`, and `R ::= A (sep R?)?`.
fn sibling_lists(m: &Model, entry: Entry, home: &[&str], cap: usize) -> Vec<Siblings> {
    let g = &m.g;
    let cv = Cover::new(m, entry);
    let owner = |n: N| g.nts[n as usize].split('~').next().unwrap().to_string();
    let mut out: Vec<Siblings> = vec![];
    let flat = |v: &[Sym]| {
        let mut o = vec![];
        for x in v {
            cv.ext(&mut o, *x);
        }
        o
    };
    // all forms of a row of symbols: one of them spelled out k levels deep, the others shortest
    let forms = |v: &[Sym]| -> Vec<Vec<T>> {
        let mut best: Vec<Vec<T>> = vec![flat(v)];
        for k in 1..=7 {
            let mut all: Vec<Vec<T>> = vec![];
            for (i, s) in v.iter().enumerate() {
                if let Sym::N(c) = s {
                    let mut ys = vec![];
                    cv.yields(*c, k, &mut ys, 40_000);
                    for y in ys {
                        let mut x = flat(&v[..i]);
                        x.extend(y);
                        x.extend(flat(&v[i + 1..]));
                        all.push(x);
                    }
                }
            }
            all.sort_by(|a, b| a.len().cmp(&b.len()).then(a.cmp(b)));
            all.dedup();
            all.retain(|x| !x.is_empty());
            if all.len() > cap {
                break;
            }
            if all.len() >= best.len() {
                best = all;
            }
        }
        best
    };
    for n in 0..g.nts.len() {
        let (cp, cs) = match cv.context(n as N) {
            Some(c) => c.clone(),
            None => continue,
        };
        for p in &g.prods[n] {
            for (i, s) in p.iter().enumerate() {
                let l = match s {
                    Sym::N(l) if *l != n as N => *l,
                    _ => continue,
                };
                // the words of the tail, and the element in it
                let (body, rule) = if let Some(li) = &g.loops[l as usize] {
                    (g.prods[li.body as usize][0].clone(), li.rule.clone())
                } else if i + 1 == p.len() && i > 0 && !g.named[l as usize] {
                    // A (sep R?)?
                    let tail = g.prods[l as usize].iter().find(|q| q.len() == 2 && matches!((q[0], q[1]), (Sym::T(_), Sym::N(o)) if g.prods[o as usize].iter().any(|r| r.len() == 1 && r[0] == Sym::N(n as N))));
                    match tail {
                        Some(q) => {
                            let mut b = vec![q[0]];
                            b.extend(&p[..i]);
                            (b, owner(n as N))
                        }
                        None => continue,
                    }
                } else {
                    continue;
                };
                // (sep A?)* as (sep A)*
                let body = match body.last() {
                    Some(Sym::N(o)) if g.nts[*o as usize].ends_with("~opt") => match g.prods[*o as usize].iter().find(|q| !q.is_empty()) {
                        Some(q) => body[..body.len() - 1].iter().chain(q).cloned().collect(),
                        None => body,
                    },
                    _ => body,
                };
                let mut same = 0;
                while same < body.len() && same < i && body[body.len() - 1 - same] == p[i - 1 - same] {
                    same += 1;
                }
                // A A* : the body itself in front of the loop
                let whole = i > 0 && g.loops[l as usize].as_ref().map_or(false, |li| p[i - 1] == Sym::N(li.body));
                let (lead, sep, el) = if whole {
                    (flat(&p[..i - 1]), vec![], body.clone())
                } else if same > 0 {
                    (flat(&p[..i - same]), flat(&body[..body.len() - same]), body[body.len() - same..].to_vec())
                } else {
                    (flat(&p[..i]), vec![], body.clone())
                };
                let inside = |s: &Sym| matches!(s, Sym::N(k) if home.contains(&owner(*k).as_str()));
                if !(home.is_empty() || home.contains(&owner(n as N).as_str()) || el.iter().any(inside)) {
                    continue;
                }
                let mut pre = cp.clone();
                pre.extend(lead);
                let mut suf = flat(&p[i + 1..]);
                suf.extend(&cs);
                let s = Siblings { pre, sep, suf, elements: forms(&el), headed: whole || same > 0, rule };
                if !out.iter().any(|o| o.pre == s.pre && o.sep == s.sep && o.suf == s.suf && o.elements == s.elements) {
                    out.push(s);
                }
            }
        }
    }
    out
}

/// Two and three neighbours of every form, with all names their own, all shared, all but one shared, one shared; and neighbours of
/// two forms that share their first, their last or all their names.
fn siblings(c: &Ctx, entry: Entry, home: &[&str], cap: usize) -> Job {
    let lists = sibling_lists(c.m, entry, home, cap);
    let items: Vec<(usize, usize)> = lists.iter().enumerate().flat_map(|(i, l)| (0..l.elements.len()).map(move |k| (i, k))).collect();
    let n = items.len() as u64;
    let mates = if c.thorough { 60 } else { 24 };
    let bound = format!(
        "{} lists, {} forms of elements: two and three neighbours of one form, names all their own, all shared, one shared, all but one shared, for each of the first 12 names; and beside {} other forms with the first, the last or every name shared",
        lists.len(),
        n,
        mates
    );
    let headed = lists.iter().filter(|l| l.headed).count();
    let bound = format!("{} ({} lists begin with an element: {})", bound, headed, lists.iter().map(|l| l.rule.as_str()).collect::<std::collections::BTreeSet<_>>().into_iter().collect::<Vec<_>>().join(" "));
    par(&format!("siblings-{:?}", entry), bound, n, 8, move |i, w| {
        let (li, ei) = items[i as usize];
        let l = &lists[li];
        let x = &l.elements[ei];
        // tokens of a row of elements, and where each begins
        let row = |els: &[&Vec<T>]| -> (Vec<T>, Vec<usize>) {
            let mut t = l.pre.clone();
            let mut at = vec![];
            for (k, e) in els.iter().enumerate() {
                if k > 0 {
                    t.extend(&l.sep);
                }
                at.push(t.len());
                t.extend(e.iter());
            }
            t.extend(&l.suf);
            (t, at)
        };
        // pieces of the element that begins at token `a`
        let span = |w: &Worker, a: usize, len: usize| -> Vec<usize> { (0..w.rd.pieces.len()).filter(|k| w.rd.pieces[*k].1 >= a && w.rd.pieces[*k].1 < a + len).collect() };
        for n in [2usize, 3] {
            let (toks, at) = row(&vec![x; n]);
            w.rd.pieces(&toks, Pool::Plain);
            let fresh = w.rd.pieces.clone();
            let sp: Vec<Vec<usize>> = at.iter().map(|a| span(w, *a, x.len())).collect();
            let names: Vec<usize> = (0..sp[0].len()).filter(|k| sp.iter().skip(1).all(|s| fresh[s[*k]].0 != fresh[sp[0][*k]].0)).take(12).collect();
            let all: Vec<usize> = (0..sp[0].len()).collect();
            // which names the later ones take over from the first
            let mut plans: Vec<(Vec<usize>, bool)> = vec![(vec![], true), (all.clone(), true)];
            for j in &names {
                plans.push((vec![*j], true));
                let rest: Vec<usize> = all.iter().filter(|k| *k != j).cloned().collect();
                plans.push((rest.clone(), true));
                if n == 3 {
                    // the last one only, or all but the last
                    plans.push((rest, false));
                    plans.push((vec![*j], false));
                }
            }
            for (shared, every) in plans {
                w.rd.pieces = fresh.clone();
                for c in 1..n {
                    for k in &all {
                        // copies that do not follow the plan are the first one's double
                        if shared.contains(k) || (!every && c + 1 < n) {
                            w.rd.pieces[sp[c][*k]].0 = fresh[sp[0][*k]].0.clone();
                        }
                    }
                }
                let t = w.rd.join(Layout::Spaced);
                w.check(entry, &t);
            }
        }
        // beside others
        let step = (l.elements.len() / mates).max(1);
        for (k, y) in l.elements.iter().enumerate() {
            if k % step != ei % step || k == ei {
                continue;
            }
            for els in [vec![x, y], vec![x, y, x], vec![y, x, x]] {
                let (toks, at) = row(&els);
                w.rd.pieces(&toks, Pool::Plain);
                let fresh = w.rd.pieces.clone();
                let sp: Vec<Vec<usize>> = at.iter().zip(&els).map(|(a, e)| span(w, *a, e.len())).collect();
                for plan in 0..4 {
                    w.rd.pieces = fresh.clone();
                    for c in 1..els.len() {
                        let len = sp[c].len().min(sp[0].len());
                        for k in 0..len {
                            let (a, b) = match plan {
                                0 => break,
                                // from the left, one or as many as there are
                                1 if k > 0 => break,
                                1 | 2 => (sp[0][k], sp[c][k]),
                                // from the right
                                _ => (sp[0][sp[0].len() - 1 - k], sp[c][sp[c].len() - 1 - k]),
                            };
                            if toks[fresh[a].1] != toks[fresh[b].1] {
                                break;
                            }
                            w.rd.pieces[b].0 = fresh[a].0.clone();
                        }
                    }
                    let t = w.rd.join(Layout::Spaced);
                    w.check(entry, &t);
                }
            }
        }
    })
}
