// Included by props.rs: the public parsers of single forms, what rejections point at, the helpers on the tree.
use nom_sparql::query::{ask::ask_query, construct::construct_query, construct::sub_construct, construct::sub_triples, construct::ConstructQuery, describe::describe_query, SparqlQuery};

type Got = Option<(usize, String)>;

fn guarded<F: FnOnce() -> Got>(e: Entry, t: &str, f: F) -> Result<Got, String> {
    crate::exec::guarded(e, t, f)
}

/// The parsers of single forms against the parser of all of them.
fn one_form(w: &mut Worker, t: &str) {
    w.check(Entry::Bare, t);
    same_forms(w, t);
}
fn same_forms(w: &mut Worker, t: &str) {
    let e = Entry::Bare;
    let len = t.len();
    let rest = |r: &str| len.wrapping_sub(r.len());
    let q = |r: &str, q: SparqlQuery| (rest(r), conv_bare(&q));
    let whole = guarded(e, t, || nom_sparql::parser::sparql_query(t).ok().map(|(r, x)| (rest(r), conv_bare(&x))));
    let form = guarded(e, t, || {
        nom_sparql::parser::sparql_query(t).ok().map(|(_, x)| {
            (
                match x {
                    SparqlQuery::Ask(_) => 1,
                    SparqlQuery::Describe(_) => 2,
                    SparqlQuery::Construct(ConstructQuery::SubConstruct(_)) => 3,
                    SparqlQuery::Construct(ConstructQuery::SubTriples(_)) => 4,
                    SparqlQuery::Select(_) => 5,
                },
                String::new(),
            )
        })
    })
    .ok()
    .flatten()
    .map_or(0, |x| x.0);
    // where the body of a CONSTRUCT begins
    let body = if t.get(..9).map_or(false, |k| k.eq_ignore_ascii_case("construct")) {
        let mut toks = vec![];
        w.rc.lx.lex_into(t, &[], &mut toks).ok().and_then(|_| toks.get(1).map(|x| x.start))
    } else {
        None
    };
    let none: Result<Got, String> = Ok(None);
    let want = |fs: &[i32]| if fs.contains(&(form as i32)) { &whole } else { &none };
    let mut rs: Vec<(&str, Result<Got, String>, &Result<Got, String>)> = vec![
        ("ask_query", guarded(e, t, || ask_query(t).ok().map(|(r, x)| q(r, SparqlQuery::Ask(x)))), want(&[1])),
        ("describe_query", guarded(e, t, || describe_query(t).ok().map(|(r, x)| q(r, SparqlQuery::Describe(x)))), want(&[2])),
        ("construct_query", guarded(e, t, || construct_query(t).ok().map(|(r, x)| q(r, SparqlQuery::Construct(x)))), want(&[3, 4])),
    ];
    if let Some(b) = body {
        let s = &t[b..];
        rs.push(("sub_construct", guarded(e, t, || sub_construct(s).ok().map(|(r, x)| q(r, SparqlQuery::Construct(ConstructQuery::SubConstruct(x))))), want(&[3])));
        // the short form alone may also begin what the other form continues
        if form != 3 {
            rs.push(("sub_triples", guarded(e, t, || sub_triples(s).ok().map(|(r, x)| q(r, SparqlQuery::Construct(ConstructQuery::SubTriples(x))))), want(&[4])));
        }
    }
    let bad: Vec<String> = rs.iter().filter(|(_, g, x)| g != *x).map(|(n, g, x)| format!("{} returns {:?}, sparql_query says {:?}", n, g, x)).collect();
    drop(rs);
    for b in bad {
        w.fail(e, t, Kind::Own, b);
    }
}
fn conv_bare(q: &SparqlQuery) -> String {
    crate::conv::bare(q)
}

fn c27(c: &Ctx) -> Vec<Job> {
    let e = Entry::Bare;
    let mut v = vec![];
    let ps = Pairs::new(c.m, e, &[], c.cap(250_000, 3_000_000));
    v.push(par("two-choices", format!("all {} sentences of two grammar choices at most {} tokens above the shortest, in {} renderings: the parser of the form agrees with the parser of queries, the others refuse", ps.len(), ps.extra, MANY.len()), ps.len() as u64, 500, move |i, w| {
        for (p, l) in MANY {
            let t = w.rd.text(ps.get(i as usize), *p, *l);
            one_form(w, &t);
        }
    }));
    let cv = cover(c, e, if c.thorough { 7 } else { 5 }, usize::MAX);
    let n = cv.len() as u64;
    const STYLES: &[Style] = &[(Pool::Plain, Layout::Busy), (Pool::Mixed, Layout::Tight), (Pool::Lower, Layout::Spaced), (Pool::Words(1), Layout::Spaced)];
    v.push(par("cover", format!("{} sentences covering every chain of grammar choices, in {} renderings, also with layout in front", n, STYLES.len()), n, 200, move |i, w| {
        for (p, l) in STYLES {
            let t = w.rd.text(&cv[i as usize], *p, *l);
            // the parsers of queries begin with the first token
            let mut toks = vec![];
            let at = w.rc.lx.lex_into(&t, &[], &mut toks).ok().and_then(|_| toks.first().map(|x| x.start)).unwrap_or(0);
            one_form(w, &t[at..]);
            // none of them passes over what is in front
            for lead in [" ", "\n", "#c\n", "\t#\r"] {
                same_forms(w, &format!("{}{}", lead, &t[at..]));
            }
        }
    }));
    let ps = Pairs::new(c.m, e, &[], c.cap(30_000, 300_000));
    let n = ps.len() as u64;
    v.push(par("slips", format!("{} sentences of two grammar choices: cut after every token, every token deleted, doubled, swapped with the next; followed by what cannot continue them", n), n, 100, move |i, w| {
        let s = ps.get(i as usize);
        let mut x: Vec<T> = vec![];
        for k in 0..s.len() {
            for f in 0..4 {
                x.clear();
                x.extend(&s[..k]);
                match f {
                    0 => x.extend(&s[k + 1..]),
                    1 => {
                        x.push(s[k]);
                        x.extend(&s[k..]);
                    }
                    2 if k + 1 < s.len() => {
                        x.push(s[k + 1]);
                        x.push(s[k]);
                        x.extend(&s[k + 2..]);
                    }
                    _ => {}
                }
                let t = w.rd.text(&x, Pool::Plain, Layout::Spaced);
                one_form(w, &t);
            }
        }
        let t = w.rd.text(s, Pool::Hard, Layout::Tight);
        for z in [" }", ")", " bogus", "}}{{", " ASK{}", " VALUES ?x{}", ";", " LIMIT", " #c"] {
            one_form(w, &format!("{}{}", t, z));
        }
    }));
    let ps = Pairs::new(c.m, e, &[], c.cap(1_500, 50_000));
    let n = ps.len() as u64;
    v.push(par("one-character", format!("{} sentences of two grammar choices: every character left out, doubled, swapped, in the other case, or replaced by one of {:?}", n, PUT), n, 30, move |i, w| {
        let t = w.rd.text(ps.get(i as usize), if i % 2 == 0 { Pool::Plain } else { Pool::Hard }, Layout::Tight);
        char_edits(&t, PUT, &mut |x| one_form(w, x));
    }));
    let alpha = "ASK DESCRIBE CONSTRUCT SELECT * VAR1 { } WHERE FROM IRIREF LIMIT INTEGER";
    let st = Strings::new(terms(c.m, alpha), c.cap(300_000, 6_000_000));
    v.push(par("strings", format!("all {} strings of at most {} tokens over {{{}}}", st.total, st.max, alpha), st.total, 4000, move |i, w| {
        let mut mid = vec![];
        st.get(i, &mut mid);
        let t = w.rd.text(&mid, Pool::Plain, Layout::Spaced);
        one_form(w, &t);
    }));
    v
}

/// A rejection is an error that points into the caller's text.
fn points(w: &mut Worker, e: Entry, t: &str) {
    w.cnt.texts += 1;
    match crate::exec::rejection(e, t) {
        Ok(None) => w.cnt.accepted += 1,
        Ok(Some(())) => w.cnt.rejected += 1,
        Err(m) => w.fail(e, t, Kind::Own, m),
    }
    if w.cnt.samples.is_empty() {
        w.cnt.samples.push(t.to_string());
    }
}
fn c29(c: &Ctx) -> Vec<Job> {
    let mut v = vec![];
    for e in crate::exec::ENTRIES {
        let all = Pairs::new(c.m, e, &[], c.cap(40_000, 800_000));
        let n = all.len() as u64;
        v.push(par(&format!("broken-off-{:?}", e), format!("{} sentences (two grammar choices), broken off behind every character", n), n, 100, move |i, w| {
            let s = all.get(i as usize);
            let _ = w.m.g.parse(w.m.start(e), s, &mut w.rc.seen);
            let t = w.rd.text(s, if i % 2 == 0 { Pool::Plain } else { Pool::Hard }, if i % 3 == 0 { Layout::Busy } else { Layout::Tight });
            for (k, _) in t.char_indices() {
                points(w, e, &t[..k]);
            }
            points(w, e, &t);
        }));
        let all = Pairs::new(c.m, e, &[], c.cap(20_000, 400_000));
        let n = all.len() as u64;
        v.push(par(&format!("slips-{:?}", e), format!("{} sentences (two grammar choices): every token deleted, doubled, swapped with the next, or replaced by each of 24 others", n), n, 100, move |i, w| {
            let s = all.get(i as usize);
            let al: Vec<T> = terms(w.m, "{ } ( ) [ ] . ; , * ^ VAR1 IRIREF PNAME_LN INTEGER STRING_LITERAL2 a SELECT WHERE FILTER LIMIT GRAPH VALUES =");
            let mut x: Vec<T> = vec![];
            for k in 0..s.len() {
                for f in 0..3 + al.len() {
                    x.clear();
                    x.extend(&s[..k]);
                    match f {
                        0 => x.extend(&s[k + 1..]),
                        1 => {
                            x.push(s[k]);
                            x.extend(&s[k..]);
                        }
                        2 if k + 1 < s.len() => {
                            x.push(s[k + 1]);
                            x.push(s[k]);
                            x.extend(&s[k + 2..]);
                        }
                        2 => {}
                        _ => {
                            x.push(al[f - 3]);
                            x.extend(&s[k + 1..]);
                        }
                    }
                    let t = w.rd.text(&x, Pool::Plain, Layout::Spaced);
                    points(w, e, &t);
                }
            }
        }));
        let all = Pairs::new(c.m, e, &[], c.cap(3_000, 100_000));
        let n = all.len() as u64;
        v.push(par(&format!("one-character-{:?}", e), format!("{} sentences (two grammar choices): every character left out, doubled, swapped, in the other case, or replaced by one of {:?}", n, PUT), n, 50, move |i, w| {
            let t = w.rd.text(all.get(i as usize), if i % 3 == 0 { Pool::Plain } else { Pool::Hard }, Layout::Tight);
            char_edits(&t, PUT, &mut |x| points(w, e, x));
        }));
        let alpha: Vec<char> = " \n#a0.:?'\"<>\\-({}[]@_^;,*é\u{1F600}EeXx%".chars().collect();
        let k = alpha.len() as u64;
        let (len, total) = if c.thorough { (4, k.pow(4)) } else { (3, k.pow(3)) };
        v.push(par(&format!("characters-{:?}", e), format!("every string of {} characters over {:?}, alone and in three places", len, alpha), total, 2000, move |mut i, w| {
            let mut s = String::new();
            for _ in 0..len {
                s.push(alpha[(i % k) as usize]);
                i /= k;
            }
            points(w, e, &s);
            let (a, b, d) = if e == Entry::Update { ("INSERT DATA{", "INSERT DATA{?s a ", "CLEAR ALL") } else { ("ASK{", "ASK{FILTER(", "ASK{}") };
            for p in [a, b, d] {
                points(w, e, &format!("{}{}", p, s));
            }
        }));
    }
    v
}

trait IntoValue {
    fn into_value(self) -> nom_sparql::data::DataBlockValue;
}
impl IntoValue for nom_sparql::expression::Iri {
    fn into_value(self) -> nom_sparql::data::DataBlockValue {
        nom_sparql::data::DataBlockValue::Iri(self)
    }
}

/// The functions of the tree's types.
fn c28(c: &Ctx) -> Vec<Job> {
    use nom_sparql::arithmetic::Sign;
    use nom_sparql::call::BuiltInCall;
    use nom_sparql::clauses::LimitOffsetClause;
    use nom_sparql::data::{DataBlock, DataBlockValue};
    use nom_sparql::expression::functions::Constraint;
    use nom_sparql::expression::{Iri, PrefixedName};
    use nom_sparql::node::{RdfLiteral, RdfLiteralDescriptor};
    use nom_sparql::path::PathMod;
    use std::str::FromStr;
    let mut v = vec![];

    // is_distinct
    const NAMES: &[&str] = &["COUNT", "SUM", "MIN", "MAX", "AVG", "SAMPLE", "GROUP_CONCAT", "sum", "Group_Concat"];
    let mut args: Vec<String> = ["*", "?x", "1", "'DISTINCT'", "<distinct>", "distinct:x", "?distinct", "(?x)", "?x+1", "?x=?y", "f:f(DISTINCT ?x)", "f:f(?x)", "f:f()"].iter().map(|s| s.to_string()).collect();
    for n in NAMES {
        for d in ["", "DISTINCT "] {
            args.push(format!("{}({}?x)", n, d));
            args.push(format!("1+{}({}?x)*2", n, d));
        }
    }
    let gaps: &'static [&'static str] = &["", " ", "\n#c\n"];
    let n = (NAMES.len() * args.len() * gaps.len() * 3 * 3) as u64;
    v.push(par("is-distinct", format!("{} aggregate calls: {:?} with and without DISTINCT, {} arguments, separators, three layouts", n, NAMES, args.len()), n, 500, move |i, w| {
        let mut k = i as usize;
        let mut pick = |m: usize| {
            let r = k % m;
            k /= m;
            r
        };
        let (name, arg, g) = (NAMES[pick(NAMES.len())], &args[pick(args.len())], gaps[pick(gaps.len())]);
        let d = ["", "DISTINCT", "dIstinct"][pick(3)];
        let sep = ["", ";SEPARATOR='DISTINCT'", ";separator=','"][pick(3)];
        if !sep.is_empty() && !name.eq_ignore_ascii_case("GROUP_CONCAT") {
            return;
        }
        let blank = if d.is_empty() || !g.is_empty() { "" } else { " " };
        let t = format!("ASK{{}}HAVING {}{}({}{}{}{}{}{}{})", name, g, g, d, blank, g, arg, g, sep);
        let (r, _) = w.check(Entry::Query, &t);
        if !matches!(r, Ref::Accept(_)) {
            return;
        }
        w.cnt.states += 1;
        w.cnt.steps += 1;
        let got = std::panic::catch_unwind(|| match nom_sparql::parser::sparql_query_stmt(&t) {
            Ok((_, s)) => match s.query {
                SparqlQuery::Ask(a) => a.solution_modifier.having.and_then(|h| match h.0.first() {
                    Some(Constraint::BuiltInCall(BuiltInCall::Aggregate(a))) => Some(a.is_distinct()),
                    _ => None,
                }),
                _ => None,
            },
            Err(_) => None,
        });
        if got.as_ref().ok() != Some(&Some(!d.is_empty())) {
            w.fail(Entry::Query, &t, Kind::Own, format!("is_distinct of the aggregate gives {:?}", got.ok()));
        }
    }));

    // LIMIT and OFFSET
    let nums: &'static [u64] = &[0, 1, 2, 3, 9, 10, 11, 99, 127, 128, 255, 256, 65_535, 65_536, 4_294_967_295, 4_294_967_296, 9_007_199_254_740_993, 9_223_372_036_854_775_807];
    let n = (nums.len() * (nums.len() + 1) * 2) as u64;
    v.push(par("limit-offset", format!("{} LIMIT/OFFSET clauses: both orders, {:?} with every other and alone", n, nums), n, 100, move |i, w| {
        let i = i as usize;
        let (a, b, first) = (nums[i % nums.len()], nums.get(i / nums.len() % (nums.len() + 1)).cloned(), i / nums.len() / (nums.len() + 1) == 0);
        let (x, y) = if first { ("LIMIT", "OFFSET") } else { ("OFFSET", "LIMIT") };
        let t = match b {
            Some(b) => format!("ASK {{}} {} {} {} {}", x, a, y, b),
            None => format!("ASK {{}} {} {}", x, a),
        };
        w.check(Entry::Query, &t);
        w.cnt.states += 1;
        w.cnt.steps += 1;
        let got = std::panic::catch_unwind(|| match nom_sparql::parser::sparql_query_stmt(&t) {
            Ok((_, s)) => match s.query {
                SparqlQuery::Ask(q) => {
                    let made = if first { LimitOffsetClause::limit_offset(a, b) } else { LimitOffsetClause::offset_limit(a, b) };
                    let other = if first { LimitOffsetClause::offset_limit(a, b) } else { LimitOffsetClause::limit_offset(a, b) };
                    let got = q.solution_modifier.limit_offset;
                    got.as_ref() == Some(&made) && got.as_ref() != Some(&other)
                }
                _ => false,
            },
            Err(_) => false,
        });
        if got.ok() != Some(true) {
            w.fail(Entry::Query, &t, Kind::Own, "the clause made by the public function differs from the one parsed".to_string());
        }
    }));

    // terms
    const TEXTS: &[&str] = &["", "a", "A", "a b", "0", "'", "\\\"", "\\n", "#", "<a>", "?x", "@en", "^^", "é\u{1F600}", " ", "}", "\\\\", "_:b", "a@b", "p:x"];
    const IRIS: &[(&str, u8, &str, &str)] = &[("<>", 0, "", ""), ("<a>", 0, "a", ""), ("<p:x>", 0, "p:x", ""), ("<http://www.w3.org/2001/XMLSchema#string>", 0, "http://www.w3.org/2001/XMLSchema#string", ""), ("<é>", 0, "é", ""), ("<?x>", 0, "?x", ""), ("p:x", 1, "p", "x"), (":x", 1, "\u{0}", "x"), ("p:", 2, "p", ""), (":", 2, "\u{0}", ""), ("xsd:string", 1, "xsd", "string"), ("a.b:c.d", 1, "a.b", "c.d"), ("p:%41", 1, "p", "%41"), ("p:\\~x", 1, "p", "\\~x"), ("p:x:y", 1, "p", "x:y")];
    let tags: &'static [&'static str] = &["en", "EN", "en-GB", "x", "de-CH-1996"];
    let n = (TEXTS.len() * (1 + tags.len() + IRIS.len())) as u64;
    v.push(par("terms", format!("{} literals ({} texts, plain, with {:?}, with {} datatypes) and IRIs: the constructors give what the parser returns", n, TEXTS.len(), tags, IRIS.len()), n, 100, move |i, w| {
        let i = i as usize;
        let (x, d) = (TEXTS[i % TEXTS.len()], i / TEXTS.len());
        let iri = |k: usize| {
            let (_, kind, a, b) = IRIS[k];
            let p = if a == "\u{0}" { None } else { Some(a.to_string()) };
            match kind {
                0 => Iri::iri_ref(a),
                1 => Iri::prefixed_name(PrefixedName::PnameLN { pn_prefix: p, pn_local: b.to_string() }),
                _ => Iri::prefixed_name(PrefixedName::PnameNS(p)),
            }
        };
        let (suffix, made) = if d == 0 {
            (String::new(), RdfLiteral::literal(x))
        } else if d <= tags.len() {
            (format!("@{}", tags[d - 1]), RdfLiteral::new(x, RdfLiteralDescriptor::LangTag(tags[d - 1].to_string())))
        } else {
            let k = d - 1 - tags.len();
            (format!("^^{}", IRIS[k].0), RdfLiteral::new(x.to_string(), RdfLiteralDescriptor::IriRef(iri(k))))
        };
        let k = i % IRIS.len();
        let t = format!("ASK {{}} VALUES ?x {{ \"{}\"{} {} }}", x, suffix, IRIS[k].0);
        w.check(Entry::Query, &t);
        w.cnt.states += 1;
        w.cnt.steps += 1;
        let want = vec![DataBlockValue::RdfLiteral(made), DataBlockValue::Iri(iri(k))];
        let got = std::panic::catch_unwind(|| match nom_sparql::parser::sparql_query_stmt(&t) {
            Ok((_, s)) => match s.values {
                Some(DataBlock::InlineDataOneVar(b)) => Some(b.values),
                _ => None,
            },
            Err(_) => None,
        });
        let got = got.ok().flatten();
        if got.as_ref() != Some(&want) {
            w.fail(Entry::Query, &t, Kind::Own, format!("the constructors give {:?}, the parser {:?}", want, got));
        }
    }));

    // every short text in a constructor
    let alpha: Vec<char> = "a/#:?.%@&=A1 \u{e9}".chars().collect();
    let k = alpha.len() as u64;
    let len = if c.thorough { 6 } else { 5 };
    let total: u64 = (0..=len).map(|l| k.pow(l)).sum();
    v.push(par("constructed", format!("every string of at most {} characters over {:?}, also behind http://, as an IRI, the text of a literal, a language tag, a local part and a prefix: the constructor gives what the parser returns", len, alpha), total, 1000, move |i, w| {
        let (mut l, mut j) = (0, i);
        while j >= k.pow(l) {
            j -= k.pow(l);
            l += 1;
        }
        let s: String = (0..l).map(|x| alpha[(j / k.pow(x) % k) as usize]).collect();
        let far = format!("http://{}", s);
        let ln = |p: Option<&str>, l: &str| Iri::prefixed_name(PrefixedName::PnameLN { pn_prefix: p.map(|p| p.to_string()), pn_local: l.to_string() });
        let forms: Vec<(String, DataBlockValue)> = vec![
            (format!("<{}>", s), DataBlockValue::Iri(Iri::iri_ref(s.as_str()))),
            (format!("<{}>", far), DataBlockValue::Iri(Iri::iri_ref(far.as_str()))),
            (format!("'{}'", s), DataBlockValue::RdfLiteral(RdfLiteral::literal(s.as_str()))),
            (format!("'{}'@{}", s, s), DataBlockValue::RdfLiteral(RdfLiteral::new(s.as_str(), RdfLiteralDescriptor::LangTag(s.clone())))),
            (format!("'x'^^<{}>", s), DataBlockValue::RdfLiteral(RdfLiteral::new("x", RdfLiteralDescriptor::IriRef(Iri::iri_ref(s.as_str()))))),
            (format!("p:{}", s), ln(Some("p"), &s).into_value()),
            (format!(":{}", s), ln(None, &s).into_value()),
            (format!("{}:x", s), ln(Some(&s), "x").into_value()),
            (format!("{}:", s), Iri::prefixed_name(PrefixedName::PnameNS(Some(s.clone()))).into_value()),
        ];
        for (x, want) in forms {
            // one token only
            let mut toks = vec![];
            let whole = |ts: &[crate::lex::Tok]| ts.first().map_or(false, |t| t.start == 0) && ts.last().map_or(false, |t| t.end == x.len());
            if (x.ends_with(":x") && x.len() > 1 && !x.starts_with('p') && s.contains(':')) || (x.ends_with(':') && s.contains(':')) || (s.is_empty() && !x.starts_with('<') && !x.starts_with('\'')) {
                continue;
            }
            let one = w.rc.lx.lex_into(&x, &[], &mut toks).is_ok() && whole(&toks) && (toks.len() == 1 || (x.starts_with('\'') && toks.last().map_or(false, |t| t.end == x.len()) && toks.len() == 2 + x.contains("^^") as usize));
            if !one {
                continue;
            }
            let t = format!("ASK {{}} VALUES ?x {{ {} }}", x);
            let (r, _) = w.check(Entry::Query, &t);
            if !matches!(r, Ref::Accept(_)) {
                continue;
            }
            w.cnt.states += 1;
            w.cnt.steps += 1;
            let got = std::panic::catch_unwind(|| match nom_sparql::parser::sparql_query_stmt(&t) {
                Ok((_, s)) => match s.values {
                    Some(DataBlock::InlineDataOneVar(b)) => b.values.into_iter().next(),
                    _ => None,
                },
                Err(_) => None,
            });
            let got = got.ok().flatten();
            if got.as_ref() != Some(&want) {
                w.fail(Entry::Query, &t, Kind::Own, format!("the constructor gives {:?}, the parser {:?}", want, got));
            }
        }
    }));

    // signs and path modifiers
    let alpha: Vec<char> = "+-*?! 1a|/^\u{0}\u{ff0b}\u{2212}\u{2010}(".chars().collect();
    let k = alpha.len() as u64;
    let len = if c.thorough { 5 } else { 4 };
    let total: u64 = (0..=len).map(|l| k.pow(l)).sum();
    v.push(par("from-str", format!("every string of at most {} characters over {:?}, read as a sign and as a path modifier", len, alpha), total, 2000, move |i, w| {
        let (mut l, mut j) = (0, i);
        while j >= k.pow(l) {
            j -= k.pow(l);
            l += 1;
        }
        let s: String = (0..l).map(|x| alpha[(j / k.pow(x) % k) as usize]).collect();
        w.cnt.texts += 1;
        w.cnt.states += 1;
        w.cnt.steps += 2;
        if w.cnt.samples.is_empty() {
            w.cnt.samples.push(format!("Sign::from_str({:?})", s));
        }
        let sign = std::panic::catch_unwind(|| Sign::from_str(&s));
        let want = match s.as_str() {
            "" | "+" => Ok(Sign::POS),
            "-" => Ok(Sign::NEG),
            _ => Err(()),
        };
        if sign.as_ref().ok() != Some(&want) {
            w.fail(Entry::Query, &s, Kind::Own, format!("Sign::from_str({:?}) gives {:?}", s, sign));
        }
        let pm = std::panic::catch_unwind(|| PathMod::from_str(&s));
        let want = match s.as_str() {
            "?" => Ok(PathMod::QuestionMark),
            "*" => Ok(PathMod::Asterisk),
            "+" => Ok(PathMod::Plus),
            _ => Err(()),
        };
        if pm.as_ref().ok() != Some(&want) {
            w.fail(Entry::Query, &s, Kind::Own, format!("PathMod::from_str({:?}) gives {:?}", s, pm));
        }
        if i == 0 {
            for (g, x) in [(Sign::POS, "+"), (Sign::NEG, "-")] {
                let g2: &str = g.as_ref();
                if g2 != x || g.to_string() != x || Sign::from_str(x) != Ok(g) || Sign::from_str(&g.to_string()) != Ok(g) {
                    w.fail(Entry::Query, x, Kind::Own, format!("the sign {:?} is written {:?} and {:?}", g, g2, g.to_string()));
                }
            }
            if Sign::default() != Sign::POS {
                w.fail(Entry::Query, "", Kind::Own, "the default sign is not plus".to_string());
            }
        }
    }));
    v
}
