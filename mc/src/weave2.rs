// Included by props.rs: three choices, edits of single characters, two special values at once, short strings of any characters, long gaps.
use crate::triples::Triples;

/// Every three choices of the grammar in one sentence, `need` of them below the rules of `home`.
fn triples(c: &Ctx, entry: Entry, home: &[&str], need: u32, quick: u64, thorough: u64, styles: &'static [Style]) -> Job {
    let ts = Triples::new(c.m, entry, home, need, c.cap(quick, thorough), 24);
    let bound = format!(
        "all {} sentences ({} placements) of three grammar choices in any arrangement below or beside each other, at most {} tokens above the shortest sentence of the first two's meeting point{}, in {} renderings",
        ts.len(),
        ts.placements,
        ts.extra,
        if home.is_empty() { String::new() } else { format!(", {} of the three choices in {}", need, home.join(" ")) },
        styles.len()
    );
    Job {
        name: format!("three-choices-{}-{:?}", need, entry),
        bound,
        shards: (ts.len() / 1000).clamp(1, 192),
        f: Box::new(move |sh, k, w| {
            for i in (sh..ts.len()).step_by(k) {
                for (p, l) in styles {
                    let t = w.rd.text(ts.get(i), *p, *l);
                    w.accept(entry, &t);
                }
                if w.stopped() {
                    return;
                }
            }
        }),
    }
}

/// The texts that differ from `t` in one character.
fn char_edits(t: &str, put: &[char], f: &mut dyn FnMut(&str)) {
    let cs: Vec<(usize, char)> = t.char_indices().collect();
    let mut b = String::with_capacity(t.len() + 8);
    for (k, &(at, ch)) in cs.iter().enumerate() {
        let (pre, suf) = (&t[..at], &t[at + ch.len_utf8()..]);
        // left out
        b.clear();
        b.push_str(pre);
        b.push_str(suf);
        f(&b);
        // doubled
        b.clear();
        b.push_str(pre);
        b.push(ch);
        b.push_str(&t[at..]);
        f(&b);
        // swapped with the next
        if let Some(&(_, n)) = cs.get(k + 1) {
            if n != ch {
                b.clear();
                b.push_str(pre);
                b.push(n);
                b.push(ch);
                b.push_str(&suf[n.len_utf8()..]);
                f(&b);
            }
        }
        let other = if ch.is_ascii_lowercase() { ch.to_ascii_uppercase() } else { ch.to_ascii_lowercase() };
        let next = char::from_u32(ch as u32 + 1).unwrap_or('z');
        for &r in put.iter().chain([&other, &next]) {
            if r != ch {
                b.clear();
                b.push_str(pre);
                b.push(r);
                b.push_str(suf);
                f(&b);
            }
        }
    }
}
const PUT: &[char] = &[' ', '\n', '#', 'a', '0', '.', ':', '?', '\'', '"', '<', '>', '\\', '-', '(', '}', ',', '\u{e9}'];

/// Every edit of one character of sentences of two choices, written densely with awkward names.
fn slips_of_the_pen(c: &Ctx, entry: Entry, h: &[&str], cap: u64) -> Job {
    let all = Pairs::new(c.m, entry, h, cap);
    let n = all.len() as u64;
    par(&format!("one-character-{:?}", entry), format!("{} sentences (two grammar choices, awkward names, no spare blanks): every character left out, doubled, swapped, in the other case, or replaced by its successor or one of {:?}", n, PUT), n, 50, move |i, w| {
        let t = w.rd.text(all.get(i as usize), if i % 3 == 0 { Pool::Plain } else { Pool::Hard }, Layout::Tight);
        char_edits(&t, PUT, &mut |x| {
            w.check(entry, x);
        });
    })
}

/// Special values in two places at once.
fn two_leaves(c: &Ctx, entry: Entry, h: &[&str], cap: u64) -> Job {
    let all = Pairs::new(c.m, entry, h, cap);
    let n = all.len() as u64;
    par(&format!("two-leaves-{:?}", entry), format!("{} sentences (two grammar choices): every two names or literals replaced by every two special values of their kinds", n), n, 20, move |i, w| {
        let s = all.get(i as usize);
        w.rd.pieces(s, Pool::Plain);
        let ps = w.rd.pieces.clone();
        let vals: Vec<&'static [&'static str]> = ps.iter().enumerate().map(|(k, p)| if ps.get(k + 1).map_or(false, |q| q.1 == p.1) || k > 0 && ps[k - 1].1 == p.1 { &[][..] } else { leaf_values(&w.m.g.terms[s[p.1] as usize]) }).collect();
        for a in 0..ps.len() {
            for b in a + 1..ps.len() {
                for x in vals[a] {
                    for y in vals[b] {
                        w.rd.pieces = ps.clone();
                        w.rd.pieces[a].0 = x.to_string();
                        w.rd.pieces[b].0 = y.to_string();
                        let t = w.rd.join(Layout::Spaced);
                        w.check(entry, &t);
                    }
                }
                if w.stopped() {
                    return;
                }
            }
        }
    })
}

/// Where inside a request any short string is tried, and for which properties this counts.
const HOLES: &[(&str, &str)] = &[
    ("C12", "ASK{?s ?p '@'}"), ("C12", "ASK{?s ?p \"@\"}"), ("C12", "ASK{?s ?p '''@'''}"), ("C12", "ASK{?s ?p \"\"\"@\"\"\"}"), ("C12", "ASK{FILTER('\\@'=1)}"), ("C12", "ASK{?s ?p 'x'\u{1}@ }"), ("C12", "ASK{?s ?p 'x'\u{1}en@ }"),
    ("C12", "ASK{?s ?p 1@ }"), ("C12", "ASK{?s ?p 1.@ }"), ("C12", "ASK{?s ?p 1e@ }"), ("C12", "ASK{?s ?p .5@ }"), ("C12", "ASK{?s ?p +@ }"), ("C12", "ASK{?s ?p -1@ ,2}"), ("C12", "ASK{?s ?p 'x'^^@ }"), ("C12", "ASK{?s ?p 'x'@ }"), ("C12", "ASK{?s ?p true@ }"),
    ("C12", "SELECT(GROUP_CONCAT(?x;SEPARATOR='@')AS ?y){}"), ("C12", "ASK{VALUES ?x{'@'}}"),
    ("C13", "ASK{?@ ?p ?o}"), ("C13", "SELECT ?a@{}"), ("C13", "ASK{?s a p:@ }"), ("C13", "ASK{?s a p:a@}"), ("C13", "ASK{?s a :@ ,1}"), ("C13", "ASK{?s a _:@ }"), ("C13", "ASK{?s a _:a@}"), ("C13", "ASK{?s a <@>}"), ("C13", "ASK{?s a p@:x}"), ("C13", "ASK{?s a @:x}"), ("C13", "PREFIX @:<i>ASK{}"),
    ("C13", "ASK{?s a p:\\@ }"), ("C13", "ASK{?s a p:%@ }"), ("C13", "ASK{?s p:a.@ 1}"), ("C13", "DESCRIBE $@"),
    ("C05", "BASE<@>ASK{}"), ("C05", "BASE@<x>ASK{}"), ("C05", "PREFIX p@:<x>ASK{}"), ("C05", "PREFIX p:@<x>ASK{}"), ("C05", "PREFIX p:<x@>ASK{}"), ("C05", "BASE<x>@ASK{}"),
    ("C17", "ASK@{}"), ("C17", "ASK{#@\n}"), ("C17", "ASK{?s a ?o#x@\n}"), ("C17", "ASK{}#@"), ("C17", "ASK{#@\r?s a ?o}"), ("C17", "ASK{?s@a ?o}"), ("C17", "ASK{}LIMIT@5"), ("C17", "ASK{}@LIMIT 5"), ("C17", "@ASK{}"), ("C17", "ASK{FILTER(1@+2)}"), ("C17", "ASK{?s a ?o@. }"), ("C17", "ASK{}VALUES?x{1@2}"),
    ("C18", "@K{}"), ("C18", "A@{}"), ("C18", "ASK{FILTER @R(?x)}"), ("C18", "ASK{FILTER ST@(?x)}"), ("C18", "ASK{?s ?p tr@e}"), ("C18", "ASK{FILTER(1 @(2))}"), ("C18", "ASK{}L@IT 1"), ("C18", "ASK{}LIM@ 1"), ("C18", "ASK{BIND(1 @ ?x)}"), ("C18", "ASK{}ORDER @ ?x"), ("C18", "ASK{}ORDER BY D@C(?x)"), ("C18", "ASK{?s @ ?o}"),
    ("C10", "ASK{FILTER(?a@?b)}"), ("C10", "ASK{FILTER(1@1)}"), ("C10", "ASK{FILTER(@?b)}"), ("C10", "ASK{FILTER(?a@)}"), ("C10", "ASK{FILTER(?a+@1)}"), ("C10", "ASK{FILTER((?a)@(?b))}"), ("C10", "ASK{FILTER(<a>@<b>)}"), ("C10", "ASK{FILTER(p:a@p:b)}"), ("C10", "ASK{FILTER(?a=?b@?c)}"), ("C10", "ASK{FILTER(?a*2@3)}"), ("C10", "ASK{FILTER(?a-1@?b)}"),
    ("C09", "ASK{?s <p>@ ?o}"), ("C09", "ASK{?s @<p> ?o}"), ("C09", "ASK{?s <p>@<q> ?o}"), ("C09", "ASK{?s !(@<p>)?o}"), ("C09", "ASK{?s(<p>)@?o}"), ("C09", "ASK{?s p:a@p:b ?o}"), ("C09", "ASK{?s a@a ?o}"), ("C09", "ASK{?s !(<p>@a)?o}"), ("C09", "ASK{?s <p>@1}"), ("C09", "ASK{?s ^@?o}"),
    ("C06", "ASK{}LIMIT 1@"), ("C06", "ASK{}LIMIT @ OFFSET 2"), ("C06", "ASK{}OFFSET 1@LIMIT 2"), ("C06", "ASK{}GROUP BY@?x"), ("C06", "ASK{}GROUP BY ?x@?y"), ("C06", "ASK{}ORDER BY ?x@(1)"), ("C06", "ASK{}HAVING(1)@"), ("C06", "ASK{}ORDER BY@(1)"),
    ("C08", "ASK{?s a ?o@?a a ?b}"), ("C08", "ASK{?s a ?o@}"), ("C08", "ASK{?s a 1@2}"), ("C08", "ASK{?s a[@]}"), ("C08", "ASK{?s a(1@2)}"), ("C08", "ASK{[a 1@]}"), ("C08", "CONSTRUCT{?s a ?o@?a a ?b}{}"), ("C08", "CONSTRUCT{?s a 1@}{}"), ("C08", "ASK{?s ?p ?o@?q ?r}"), ("C08", "ASK{(1)@ a 2}"),
    ("C07", "ASK{{}@{}}"), ("C07", "ASK{?s a 1@{}}"), ("C07", "ASK{{}@?s a 1}"), ("C07", "ASK{FILTER(1)@?s a 1}"), ("C07", "ASK{OPTIONAL@{}}"), ("C07", "ASK{GRAPH@?g{}}"), ("C07", "ASK{GRAPH ?g@{}}"), ("C07", "ASK{SERVICE@<s>{}}"), ("C07", "ASK{{}UNION@{}}"), ("C07", "ASK{@}"), ("C07", "ASK{{@}}"), ("C07", "ASK{{SELECT *@{}}}"), ("C07", "ASK{BIND(1@AS ?x)}"),
    ("C11", "ASK{FILTER STR(@)}"), ("C11", "ASK{FILTER IF(1,@,3)}"), ("C11", "ASK{FILTER<f>(@)}"), ("C11", "ASK{FILTER<f>(1@2)}"), ("C11", "SELECT(COUNT(@)AS ?y){}"), ("C11", "SELECT(GROUP_CONCAT(?x@)AS ?y){}"), ("C11", "ASK{FILTER BNODE(@)}"), ("C11", "ASK{FILTER COALESCE(@)}"), ("C11", "ASK{FILTER RAND(@)}"), ("C11", "ASK{FILTER REGEX(1,2@)}"), ("C11", "ASK{FILTER STR@(1)}"), ("C11", "ASK{FILTER<f>@(1)}"),
    ("C14", "ASK{}VALUES ?x{@}"), ("C14", "ASK{}VALUES ?x{1@2}"), ("C14", "ASK{}VALUES(@){}"), ("C14", "ASK{}VALUES(?x@?y){}"), ("C14", "ASK{}VALUES(?x){(@)}"), ("C14", "ASK{}VALUES(?x){(1)@(2)}"), ("C14", "ASK{}VALUES@{}"), ("C14", "ASK{VALUES ?x{}@}"), ("C14", "ASK{}VALUES ?x{}@"),
    ("C04", "SELECT@?x{}"), ("C04", "SELECT ?x@?y{}"), ("C04", "SELECT *@{}"), ("C04", "SELECT(1 AS ?x)@{}"), ("C04", "DESCRIBE ?x@<y>"), ("C04", "DESCRIBE *@"), ("C04", "ASK FROM@<g>{}"), ("C04", "ASK FROM<g>@FROM<h>{}"), ("C04", "CONSTRUCT{}@{}"), ("C04", "CONSTRUCT@{}"), ("C04", "SELECT(@AS ?x){}"), ("C04", "CONSTRUCT WHERE{@}"),
    ("C15", "CLEAR ALL@"), ("C15", "CLEAR ALL@DROP ALL"), ("C15", "CLEAR@ALL"), ("C15", "LOAD<a>@INTO GRAPH<b>"), ("C15", "ADD<a>@TO<b>"), ("C15", "ADD@DEFAULT TO<b>"), ("C15", "CREATE@GRAPH<b>"), ("C15", "WITH<a>@DELETE{}WHERE{}"), ("C15", "DELETE{}@WHERE{}"), ("C15", "DELETE{}USING<a>@WHERE{}"), ("C15", "INSERT{}@WHERE{}"), ("C15", ";@CLEAR ALL"),
    ("C16", "INSERT DATA{@}"), ("C16", "INSERT DATA{?s a ?o@GRAPH<g>{}}"), ("C16", "INSERT DATA{GRAPH<g>{}@?s a ?o}"), ("C16", "INSERT DATA{GRAPH<g>{@}}"), ("C16", "INSERT DATA{GRAPH@<g>{}}"), ("C16", "INSERT DATA@{}"), ("C16", "DELETE{GRAPH<g>{}@GRAPH<h>{}}WHERE{}"), ("C16", "DELETE WHERE{?s a ?o@}"), ("C16", "INSERT DATA{?s a ?o@?a a ?b}"),
];

fn hole_entry(id: &str) -> Entry {
    if id == "C15" || id == "C16" {
        Entry::Update
    } else {
        Entry::Query
    }
}

/// Every string of one or two characters (all of ASCII and a few others) at many positions.
fn short_strings(c: &Ctx, id: &'static str) -> Option<Job> {
    let holes: Vec<(Entry, &'static str)> = HOLES
        .iter()
        .filter(|h| match id {
            "C01" | "C02" => true,
            "C03" => hole_entry(h.0) == Entry::Query,
            "C20" => hole_entry(h.0) == Entry::Update,
            _ => h.0 == id,
        })
        .map(|h| (hole_entry(h.0), h.1))
        .collect();
    if holes.is_empty() {
        return None;
    }
    let three = c.thorough && holes.len() < 30;
    let mut alpha: Vec<char> = (0..128u8).map(|b| b as char).collect();
    alpha.extend(['\u{85}', '\u{a0}', '\u{e9}', '\u{d7}', '\u{300}', '\u{2028}', '\u{3000}', '\u{feff}', '\u{1F600}']);
    let n = alpha.len() as u64;
    let nh = holes.len() as u64;
    let firsts = if three { n * n } else { n };
    Some(par("short-strings", format!("every string of {} characters out of {} (all of ASCII, blanks and letters beyond it) at {} positions: {}", if three { "one, two or three" } else { "one or two" }, n, nh, holes.iter().map(|h| h.1).collect::<Vec<_>>().join("  ").replace('\u{1}', "@")), firsts * nh, 4, move |i, w| {
        let (e, h) = holes[(i % nh) as usize];
        let (a, b) = h.split_once('@').unwrap();
        let (a, b) = (a.replace('\u{1}', "@"), b.replace('\u{1}', "@"));
        let k = i / nh;
        let head: String = if three { [alpha[(k / n) as usize], alpha[(k % n) as usize]].iter().collect() } else { alpha[k as usize].to_string() };
        let mut t = String::new();
        let tails = std::iter::once(None).chain(alpha.iter().map(Some));
        for z in tails {
            t.clear();
            t.push_str(&a);
            t.push_str(&head);
            t.extend(z);
            t.push_str(&b);
            if id == "C01" {
                w.lives(e, &t);
            } else {
                w.check(e, &t);
            }
        }
        if three && k % n == 0 {
            w.check(e, &format!("{}{}{}", a, alpha[(k / n) as usize], b));
        }
    }))
}

/// Gaps of many characters, lines or comments.
fn long_gaps(c: &Ctx, ctx: &[(Entry, &'static str, &'static str)]) -> Vec<Job> {
    const PIECES: &[&str] = &[" ", "\t", "\n", "\r", "\r\n", "#\n", "#x\r", " #\n", "#\\\n", "\t\n", "\n "];
    let mut counts: Vec<usize> = vec![];
    for p in 4..=16 {
        counts.extend([(1usize << p) - 1, 1 << p, (1 << p) + 1]);
    }
    counts.extend([10, 20, 50, 99, 100, 101, 200, 500, 1000, 1001, 10_000, 100_000]);
    let ctx = ctx.to_vec();
    let (np, nn, nx) = (PIECES.len() as u64, counts.len() as u64, ctx.len() as u64);
    let mut v = vec![];
    let cs = counts.clone();
    v.push(par("long-gaps", format!("{} kinds of layout repeated {:?} times, and comments of as many characters, in {} gaps", np, counts, nx), np * nn * nx, 4, move |i, w| {
        let (e, a, b) = ctx[(i % nx) as usize];
        let n = cs[((i / nx) % nn) as usize];
        let p = PIECES[(i / nx / nn) as usize];
        w.check(e, &format!("{}{}{}", a, p.repeat(n), b));
        if p.starts_with('#') {
            w.check(e, &format!("{}#{}\n{}", a, &"x }\u{e9}\\'".repeat(n / 6 + 1), b));
            w.check(e, &format!("{}#{}\r{}", a, "c".repeat(n), b));
        }
    }));
    for e in [Entry::Query, Entry::Update] {
        let sents = cover(c, e, if c.thorough { 4 } else { 3 }, usize::MAX);
        let n = sents.len() as u64;
        v.push(par(&format!("long-gap-anywhere-{:?}", e), format!("{} requests (grammar cover) with 300 and 1100 blanks, lines or comments in each gap", n), n, 4, move |i, w| {
            let (ps, gaps) = base_gaps(w, &sents[i as usize], Pool::Plain, Layout::Spaced);
            let base = assemble(&ps, &gaps);
            let want = match w.accept(e, &base) {
                (Ref::Accept(t), _) => t,
                _ => return,
            };
            for (p, n) in [(" ", 300), ("\n", 300), ("#\n", 300), (" ", 1100), ("\n#c", 1100)] {
                let l = format!("{}\n", p.repeat(n));
                let mut g: Vec<&str> = gaps.clone();
                for k in 0..gaps.len() {
                    g[k] = &l;
                    same_tree(w, e, &assemble(&ps, &g), &want);
                    g[k] = gaps[k];
                }
            }
        }));
    }
    v
}

/// The values a leaf is compared with: the special ones, and every one of them with one letter in the other case or one character replaced.
fn near_values(kind: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut base: Vec<String> = leaf_values(kind).iter().filter(|x| x.len() < 24).map(|x| x.to_string()).collect();
    let more: &[&str] = match kind {
        "IRIREF" | "PNAME_LN" | "PNAME_NS" => &["p:%aF", "p:%41%aF", ":%af", "p:a%4A.b", "p:\\.", "p:\\-\\~", "a.b:c.d", "<%aF>", "<HTTP://a/%7e>", "<http://A/>", "<a/../b>", "<./a>", "<a/>", "<a#>", "<\u{e9}>", "<e\u{301}>", "p:\u{e9}", "p:e\u{301}", "é:a"],
        "VAR1" | "VAR2" => &["?\u{e9}", "?e\u{301}", "?aB", "?Ab", "$aB"],
        "LANGTAG" => &["@en-GB", "@en-Latn-GB", "@e", "@EN-gb"],
        "BLANK_NODE_LABEL" => &["_:aB", "_:a.B", "_:\u{e9}"],
        "STRING_LITERAL1" | "STRING_LITERAL2" | "STRING_LITERAL_LONG1" | "STRING_LITERAL_LONG2" => &["'\\t'", "'\\T'", "'a\\nb'", "'''a\nb'''", "'''a\r\nb'''", "'''a\rb'''", "'\u{e9}'", "'e\u{301}'", "'  '", "'\t'", "'a '", "'%41'", "'%4a'", "'1.0'", "'1'", "'true'", "'TRUE'"],
        "INTEGER" | "DECIMAL" | "DOUBLE" => &["1", "1.0", "1e0", "10", "1e1", "10.0", "0.1", "1e-1", ".1", "1.", "'1'", "true"],
        _ => &[],
    };
    base.extend(more.iter().map(|x| x.to_string()));
    for b in &base {
        v.push(b.clone());
        if v.len() > 400 {
            continue;
        }
        v.push(b.to_uppercase());
        v.push(b.to_lowercase());
        for (k, ch) in b.char_indices() {
            let o = if ch.is_ascii_lowercase() { ch.to_ascii_uppercase() } else { ch.to_ascii_lowercase() };
            if o != ch {
                v.push(format!("{}{}{}", &b[..k], o, &b[k + 1..]));
            }
        }
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}

/// Every two values of a leaf compared, in every place of a leaf.
fn near_equality(c: &Ctx, entry: Entry) -> Job {
    let all = Pairs::new(c.m, entry, &[], c.cap(1_500, 40_000));
    let n = all.len() as u64;
    let kinds: std::collections::HashMap<String, Vec<String>> = c.m.g.terms.iter().map(|t| (t.clone(), near_values(t))).collect();
    par(&format!("near-values-{:?}", entry), format!("{} sentences (two grammar choices): for every name and literal, all pairs of up to 400 values of its kind (special ones, and each with the case of one or all letters changed): equal trees exactly when the model says so", n), n, 10, move |i, w| {
        let s = all.get(i as usize);
        w.rd.pieces(s, Pool::Plain);
        let ps = w.rd.pieces.clone();
        for j in 0..ps.len() {
            let vals = &kinds[&w.m.g.terms[s[ps[j].1] as usize]];
            if vals.is_empty() || ps.get(j + 1).map_or(false, |q| q.1 == ps[j].1) || j > 0 && ps[j - 1].1 == ps[j].1 {
                continue;
            }
            let mut asts: Vec<(String, String, Ast)> = vec![];
            for v in vals {
                w.rd.pieces = ps.clone();
                w.rd.pieces[j].0 = v.clone();
                let t = w.rd.join(Layout::Spaced);
                w.cnt.texts += 1;
                if let (Ref::Accept(k), Some((0, a))) = (w.rc.decide(entry, &t), run_ast(entry, &t)) {
                    w.cnt.accepted += 1;
                    asts.push((norm(&k), t, a));
                }
            }
            for a in &asts {
                for b in &asts {
                    let same = a.0 == b.0;
                    if (a.2 == b.2) != same || (a.2 != b.2) == same {
                        w.fail(entry, &b.1, Kind::Own, format!("compared with {:?}: trees {}, but the requests {}", a.1, if a.2 == b.2 { "equal" } else { "unequal" }, if same { "say the same" } else { "differ" }));
                        return;
                    }
                }
            }
        }
    })
}

/// Requests that differ in one character compared.
fn pen_equality(c: &Ctx, entry: Entry) -> Job {
    let all = Pairs::new(c.m, entry, &[], c.cap(2_500, 60_000));
    let n = all.len() as u64;
    par(&format!("one-character-{:?}", entry), format!("{} sentences (two grammar choices, awkward names) compared with all their accepted variants with one character left out, doubled, swapped, in the other case or replaced", n), n, 50, move |i, w| {
        let base = w.rd.text(all.get(i as usize), if i % 3 == 0 { Pool::Plain } else { Pool::Hard }, Layout::Tight);
        let (k0, a0) = match (w.rc.decide(entry, &base), run_ast(entry, &base)) {
            (Ref::Accept(k), Some((_, a))) => (norm(&k), a),
            _ => return,
        };
        char_edits(&base, PUT, &mut |t| {
            if let Ref::Accept(k) = w.rc.decide(entry, t) {
                if let Some((_, a)) = run_ast(entry, t) {
                    w.cnt.texts += 1;
                    w.cnt.accepted += 1;
                    let same = norm(&k) == k0;
                    if (a == a0) != same || (a0 == a) != same || (a != a0) == same {
                        w.fail(entry, t, Kind::Own, format!("compared with {:?}: trees {}, but the requests {}", base, if a == a0 { "equal" } else { "unequal" }, if same { "say the same" } else { "differ" }));
                    }
                }
            }
        });
    })
}
