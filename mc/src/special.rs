// Included by props.rs: spaces that are not plain enumerations of a sentential form.

fn par<F>(name: &str, bound: String, total: u64, per_shard: u64, f: F) -> Job
where
    F: Fn(u64, &mut Worker) + Send + Sync + 'static,
{
    let shards = (total / per_shard.max(1)).clamp(1, 192) as usize;
    Job {
        name: name.to_string(),
        bound,
        shards,
        f: Box::new(move |sh, n, w| {
            let lo = total * sh as u64 / n as u64;
            let hi = total * (sh as u64 + 1) / n as u64;
            for i in lo..hi {
                f(i, w);
                if w.stopped() {
                    return;
                }
            }
        }),
    }
}

/// Every subset of the optional clauses of one query form.
fn subsets(_c: &Ctx, name: &str, head: &str, kind: &str) -> Job {
    let slots: Vec<Vec<&str>> = vec![
        vec!["", "BASE <b:>", "PREFIX p: <x:> BASE <y>"],
        vec!["\u{1}"],
        vec!["", "FROM <a>", "FROM NAMED <n>", "FROM <a> FROM NAMED p:n FROM p:", "FROM NAMED <n> FROM <a>"],
        match kind {
            "construct-short" => vec!["WHERE { }", "WHERE { ?s a ?o }", "WHERE { ?s a ?o . ?x ?y ?z . }"],
            "describe" | "describe-star" => vec!["", "WHERE { ?s a ?o }", "{ ?s a ?o }", "{}"],
            _ => vec!["WHERE { ?s a ?o }", "{ ?s a ?o . }", "WHERE{}", "{ SELECT * { } }"],
        },
        vec!["", "GROUP BY ?g", "GROUP BY ?g (?h AS ?i)"],
        vec!["", "HAVING (?h) (1)"],
        vec!["", "ORDER BY ?o", "ORDER BY DESC(?o) ASC(?p)"],
        vec!["", "LIMIT 1", "OFFSET 2", "LIMIT 3 OFFSET 4", "OFFSET 5 LIMIT 6"],
        vec!["", "VALUES ?v { 1 UNDEF }", "VALUES (?v ?w) { (1 2) (UNDEF 'x') }", "VALUES () { () }"],
    ];
    let total: u64 = slots.iter().map(|s| s.len() as u64).product();
    let head = head.replace("VAR1", "?v").replace("IRIREF", "<i>").replace("AS ?v", "AS ?w");
    let bound = format!("all {} combinations of {} optional clauses around <{}>", total, slots.len() - 1, head);
    let slots: Vec<Vec<String>> = slots.into_iter().map(|s| s.into_iter().map(|x| x.replace('\u{1}', &head)).collect()).collect();
    par(name, bound, total, 300, move |mut i, w| {
        let mut t = String::new();
        for s in &slots {
            let x = &s[(i % s.len() as u64) as usize];
            i /= s.len() as u64;
            if !t.is_empty() && !x.is_empty() {
                t.push(' ');
            }
            t.push_str(x);
        }
        w.accept(Entry::Query, &t);
        if !t.starts_with("BASE") && !t.starts_with("PREFIX") && !t.contains("VALUES") {
            w.accept(Entry::Bare, &t);
        }
    })
}

fn prologue_texts(c: &Ctx) -> Job {
    let prefixes = ["", "a", "ab", "a.b", "select", "BASE", "prefix", "é", "a-1", "x\u{B7}", "base", "true", "A", "a.-b"];
    let iris = ["", "#", "http://example.org/a#b?c=d", "é", "a'b", "//x/;,()!$&*+=:@", "%20", "urn:x:\u{1F600}"];
    let mut ds = vec![];
    for i in iris {
        for k in ["BASE", "base", "Base"] {
            ds.push(format!("{} <{}>", k, i));
        }
        for p in prefixes {
            for k in ["PREFIX", "prefix"] {
                ds.push(format!("{} {}: <{}>", k, p, i));
            }
        }
    }
    let n = ds.len() as u64;
    let tails: Vec<(Entry, &str)> = vec![(Entry::Query, "ASK {}"), (Entry::Query, "DESCRIBE <x>"), (Entry::Update, "CLEAR ALL"), (Entry::Update, "")];
    let pairs = if c.thorough { n * n } else { n * 60 };
    let bound = format!("every declaration of {} prefixes x {} IRIs on its own, {} ordered pairs of them, four layouts, before four requests", prefixes.len(), iris.len(), pairs);
    par("declarations", bound, pairs + n, 400, move |i, w| {
        let t = if i < n { ds[i as usize].clone() } else { let j = i - n; format!("{}{}{}", ds[(j % n) as usize], [" ", "", "\n", " #c\n"][(j % 4) as usize], ds[((j / n) * 7 + j % 5) as usize % n as usize]) };
        for (e, tail) in &tails {
            w.check(*e, &format!("{}{}{}", t, [" ", "", "\r\n"][(i % 3) as usize], tail));
        }
    })
}

fn limit_texts() -> Job {
    let mut nums: Vec<String> = vec![];
    for b in [0u128, 1, 9, 10, 255, 256, 65535, 65536, 2147483647, 2147483648, 4294967295, 4294967296, 9007199254740993, 9223372036854775807, 9223372036854775808, 18446744073709551614, 18446744073709551615] {
        nums.push(b.to_string());
        nums.push(format!("0{}", b));
        nums.push(format!("000{}", b));
    }
    for i in 1..20u32 {
        nums.push(10u64.pow(i).to_string());
        nums.push((10u64.pow(i) - 1).to_string());
        nums.push(format!("{}7", 10u64.pow(i - 1)));
    }
    let mut list = vec![];
    for (pre, suf) in [("ASK {} ", ""), ("ASK { SELECT * {} ", "}"), ("DESCRIBE * ORDER BY ?x ", " VALUES ?x {}")] {
        for (i, a) in nums.iter().enumerate() {
            list.push((Entry::Query, format!("{}LIMIT {}{}", pre, a, suf)));
            list.push((Entry::Query, format!("{}OFFSET {}{}", pre, a, suf)));
            for b in nums.iter().skip(i % 3).step_by(3) {
                list.push((Entry::Query, format!("{}LIMIT {} OFFSET {}{}", pre, a, b, suf)));
                list.push((Entry::Query, format!("{}OFFSET {} LIMIT {}{}", pre, a, b, suf)));
            }
        }
    }
    texts("bounds", "LIMIT and OFFSET, alone and combined in both orders, with values at every power of ten and at the machine boundaries", list)
}

fn modifier_subsets(_c: &Ctx) -> Job {
    let g = ["", "GROUP BY ?a", "GROUP BY ?a (?b) (?c AS ?d) <f>(?x) STR(?y)"];
    let h = ["", "HAVING (?a)", "HAVING (?a > 1) <f>() COUNT(*) (2)"];
    let o = ["", "ORDER BY ?a", "ORDER BY ASC(?a) DESC(?b) ?c (?d) <f>(?e) RAND()"];
    let l = ["", "LIMIT 1", "OFFSET 2", "LIMIT 3 OFFSET 4", "OFFSET 5 LIMIT 6"];
    let ctx = [
        ("SELECT * {} ", ""),
        ("SELECT ?x WHERE { ?s ?p ?o } ", " VALUES ?x {}"),
        ("ASK {} ", ""),
        ("CONSTRUCT WHERE {} ", ""),
        ("CONSTRUCT {} {} ", " VALUES () {}"),
        ("DESCRIBE * ", ""),
        ("DESCRIBE ?x {} ", ""),
        ("ASK { SELECT * {} ", "}"),
        ("ASK { { SELECT ?x {} ", " VALUES ?x { 1 } } ?a ?b ?c }"),
        ("ASK { FILTER EXISTS { SELECT * {} ", "} }"),
    ];
    let mut list = vec![];
    for (a, b) in ctx {
        for g in g {
            for h in h {
                for o in o {
                    for l in l {
                        for sep in [" ", "\n", ""] {
                            let parts: Vec<&str> = [g, h, o, l].into_iter().filter(|s| !s.is_empty()).collect();
                            let mut t = String::new();
                            for p in &parts {
                                if !t.is_empty() {
                                    // without a separator only where the tokens stay apart
                                    let tight = sep.is_empty() && t.ends_with(')');
                                    t.push_str(if tight { "" } else if sep.is_empty() { " " } else { sep });
                                }
                                t.push_str(p);
                            }
                            list.push((Entry::Query, format!("{}{}{}", a, t, b)));
                        }
                    }
                }
            }
        }
    }
    texts("subsets", "every subset of the four modifiers, short and long, in ten surroundings, three separators", list)
}

/// path modifiers and what touches them
fn glued_mods(_c: &Ctx) -> Job {
    let prim = ["<p>", "p:q", "p:", "a", "!<p>", "!a", "!(<p>|^a)", "(<p>)", "(a/<p>)", "^<p>", "^(a)"];
    let mods = ["", "?", "*", "+", " ?", " *", " +", "#c\n?", "\t+"];
    let gap = ["", " ", "\n"];
    let next = ["?x", "$x", "<o>", "5", "+5", "-5", "+.5", "*5", "1.5", "'s'", "()", "[]", "(1)", "[a 1]", "_:b", "true", "/a ?x", "|<q> ?x", "^a ?x", "/^a* ?x", "?y", "? ?x", "* ?x", "+ ?x", "|?x"];
    let mut list = vec![];
    for p in prim {
        for m in mods {
            for g in gap {
                for n in next {
                    for f in ["ASK { ?s {} }", "ASK { [{}] }", "ASK { ?s a ?b;{} }", "ASK { ?s {} . ?t {}, 7 }"] {
                        list.push((Entry::Query, f.replace("{}", &format!("{}{}{}{}", p, m, g, n))));
                    }
                }
            }
        }
    }
    texts("modifiers", "every path step x modifier x spacing x following object, in four surroundings", list)
}

/// operators written with every spacing between short operands
fn operator_chars(c: &Ctx) -> Job {
    let toks = ["?x", "1", "+1", "-2.5", "1e3", "(3)", "<i>", "p:q", "'s'", "true", "RAND()", "+", "-", "*", "/", "=", "!=", "<", ">", "<=", ">=", "&&", "||", "!", "IN (1)", "NOT IN ()"];
    let n = toks.len() as u64;
    let len: u32 = if c.thorough { 5 } else { 4 };
    let total: u64 = (1..=len).map(|l| n.pow(l)).sum();
    let bound = format!("all {} sequences of at most {} of {} operands and operators, written without and with spaces", total, len, toks.len());
    par("operators-written", bound, total, 4000, move |mut i, w| {
        let mut l = 1;
        while i >= n.pow(l) {
            i -= n.pow(l);
            l += 1;
        }
        let mut v = vec![];
        for _ in 0..l {
            v.push(toks[(i % n) as usize]);
            i /= n;
        }
        // '?x<...>' could also be read as an IRI; both readings are the lexer's business
        let t = v.concat();
        w.check(Entry::Query, &format!("ASK{{FILTER({})}}", t));
        if l < 4 {
            w.check(Entry::Query, &format!("ASK {{ FILTER ( {} ) }}", v.join(" ")));
        }
    })
}

/// every function with every argument count
fn arities(c: &Ctx) -> Job {
    let fns: Vec<String> = "STR LANG DATATYPE IRI URI ABS CEIL FLOOR ROUND STRLEN UCASE LCASE ENCODE_FOR_URI YEAR MONTH DAY HOURS MINUTES SECONDS TIMEZONE TZ MD5 SHA1 SHA256 SHA384 SHA512 ISIRI ISURI ISBLANK ISLITERAL ISNUMERIC LANGMATCHES CONTAINS STRSTARTS STRENDS STRBEFORE STRAFTER STRLANG STRDT SAMETERM REGEX SUBSTR REPLACE RAND NOW UUID STRUUID BOUND BNODE CONCAT COALESCE IF COUNT SUM MIN MAX AVG SAMPLE GROUP_CONCAT EXISTS <f> p:f p: f:str concat:x NOTAFUNCTION"
        .split_whitespace()
        .map(|s| s.to_string())
        .collect();
    let mut args: Vec<String> = vec!["".into(), "()".into(), "( )".into(), "(#c\n)".into(), "(*)".into(), "(DISTINCT *)".into(), "(DISTINCT)".into(), "{}".into(), "({})".into()];
    let exprs = ["?a", "1", "?a+1", "'s'@en", "(?a)", "STR(?b)", "<f>(?c)", "p:g(1,2)", "<i>", "!?a", "-?a", "?a||?b", "EXISTS{}", "COUNT(*)", "?a IN (1,2)", "IF(1,2,3)", "'^a,b(\"'", "distinct:x", "true"];
    for e in exprs {
        args.push(format!("({})", e));
        args.push(format!("(DISTINCT {})", e));
        args.push(format!("(DISTINCT({}))", e));
        args.push(format!("( {} ; SEPARATOR = ',' )", e));
        args.push(format!("({};SEPARATOR=\"\")", e));
        args.push(format!("(DISTINCT {};separator='x')", e));
        for n in 2..=6 {
            let mut v = vec![];
            for k in 0..n {
                v.push(exprs[(k * 5 + e.len()) % exprs.len()]);
            }
            v[0] = e;
            args.push(format!("({})", v.join(",")));
            args.push(format!("( {} )", v.join(" , ")));
            args.push(format!("(DISTINCT {})", v.join(",")));
            args.push(format!("({},)", v.join(",")));
            args.push(format!("({})", v.join(" ")));
        }
    }
    let ctx: Vec<&str> = vec!["ASK{FILTER {}}", "ASK { FILTER(1 + {}) }", "SELECT ({} AS ?x) {}", "ASK {} GROUP BY {}", "ASK {} HAVING {} {}", "ASK {} ORDER BY {} ?y", "ASK { BIND({} AS ?x) }"];
    let ctx: Vec<String> = ctx.into_iter().map(|s| if s.contains(") {}") { s.replacen("{}", "\u{1}", 1) } else { s.replace("ASK {}", "ASK \u{2}").replace("{}", "\u{1}").replace('\u{2}', "{}") }).collect();
    let (nf, na, nc) = (fns.len() as u64, args.len() as u64, if c.thorough { ctx.len() as u64 } else { ctx.len() as u64 });
    let bound = format!("{} functions x {} argument lists (0 to 6 arguments, DISTINCT, *, separators, stray commas) x {} positions", nf, na, nc);
    par("arities", bound, nf * na * nc, 2000, move |i, w| {
        let f = &fns[(i % nf) as usize];
        let a = &args[((i / nf) % na) as usize];
        let cx = &ctx[(i / nf / na) as usize];
        w.check(Entry::Query, &cx.replace('\u{1}', &format!("{}{}", f, a)));
    })
}

/// every small table shape
fn tables(c: &Ctx) -> Job {
    let cells = ["1", "UNDEF", "<i>", "p:q", "'a'@en", "-2.5", "true", "\"\"", "'x'^^<d>", "p:", "1e0"];
    let max = if c.thorough { 5u64 } else { 4 };
    // vars 0..max, rows 0..max, cells in each row 0..max
    let mut shapes = vec![];
    for vars in 0..=max {
        for rows in 0..=max {
            let combos = (max + 1).pow(rows as u32);
            for k in 0..combos {
                let mut w = vec![];
                let mut x = k;
                for _ in 0..rows {
                    w.push(x % (max + 1));
                    x /= max + 1;
                }
                shapes.push((vars, w));
            }
        }
    }
    let n = shapes.len() as u64;
    let ctx = ["SELECT * {} VALUES @", "ASK { VALUES @ }", "ASK { SELECT * {} VALUES @ }"];
    let bound = format!("all {} tables of 0..{} variables and 0..{} rows of 0..{} cells each, in {} positions, spaced and dense, with cells of all kinds in turn, all equal, equal by column, equal by row, all UNDEF, UNDEF in one column or row, variables distinct or all the same", n, max, max, max, ctx.len());
    par("tables", bound, n * 6 * 8, 1000, move |i, w| {
        let mode = i / (n * 6);
        let i = i % (n * 6);
        let (vars, rows) = &shapes[(i % n) as usize];
        let v = i / n;
        let sp = if v % 2 == 0 { " " } else { "" };
        let mut t = String::from("(");
        for k in 0..*vars {
            t.push_str(&format!("{}?v{}", sp, if mode == 7 { 0 } else { k }));
        }
        t.push_str(&format!("{}){}{{", sp, sp));
        let mut k = i as usize;
        for (y, r) in rows.iter().enumerate() {
            t.push_str(&format!("{}(", sp));
            for x in 0..*r as usize {
                let cell = match mode {
                    0 => k,
                    1 => i as usize,
                    2 | 7 => x,
                    3 => y,
                    4 => 1,
                    5 => if x == 0 { 1 } else { 2 },
                    _ => if y == 0 { 1 } else { x },
                };
                t.push_str(&format!(" {}", cells[cell % cells.len()]));
                k += 1;
            }
            t.push_str(&format!("{})", sp));
        }
        t.push_str(&format!("{}}}", sp));
        w.check(Entry::Query, &ctx[(v / 2) as usize].replace('@', &t));
    })
}

/// Regular tables: every size, rows that repeat other rows, single cells that differ.
fn regular_tables(c: &Ctx) -> Job {
    let max = if c.thorough { 20u64 } else { 12 };
    let far = [(1u64, 300u64), (300, 1), (40, 40), (2, 70), (70, 2), (3, 257), (257, 3)];
    let n = max * max + far.len() as u64;
    par("regular-tables", format!("tables of 1..{} variables and 1..{} rows of that many cells, and {:?}: cells all different, all equal, every row equal to another one, every single cell UNDEF (of the large ones: in the corners)", max, max, far), n, 1, move |i, w| {
        let (vars, rows) = if i < max * max { (i / max + 1, i % max + 1) } else { far[(i - max * max) as usize] };
        let mut put = |w: &mut Worker, f: &dyn Fn(u64, u64) -> String| {
            let mut t = String::from("VALUES (");
            for k in 0..vars {
                t.push_str(&format!(" ?v{}", k));
            }
            t.push_str(" ) {");
            for y in 0..rows {
                t.push_str(" (");
                for x in 0..vars {
                    t.push(' ');
                    t.push_str(&f(x, y));
                }
                t.push_str(" )");
            }
            t.push_str(" }");
            w.check(Entry::Query, &format!("ASK {{ {} }}", t));
            w.check(Entry::Query, &format!("SELECT * {{}} {}", t));
        };
        let own = |x: u64, y: u64| format!("{}", y * 1000 + x);
        put(w, &own);
        put(w, &|_, _| "1".to_string());
        put(w, &|_, _| "UNDEF".to_string());
        put(w, &|x, _| format!("<c{}>", x));
        put(w, &|_, y| format!("'{}'", y));
        let at = |k: u64, n: u64| n <= max || k < 2 || k + 2 >= n;
        for a in (0..rows).filter(|a| at(*a, rows)) {
            for b in (0..rows).filter(|b| *b != a && at(*b, rows)) {
                put(w, &|x, y| own(x, if y == a { b } else { y }));
            }
            for b in (0..vars).filter(|b| at(*b, vars)) {
                put(w, &|x, y| if (x, y) == (b, a) { "UNDEF".to_string() } else { own(x, y) });
                put(w, &|x, y| if (x, y) == (b, a) { "'odd'@en".to_string() } else { "1".to_string() });
            }
        }
    })
}

// ------------------------------------------------------------------ C12, C13

fn nth_string(mut i: u64, alpha: &[&str], out: &mut String) {
    out.clear();
    let n = alpha.len() as u64;
    let mut l = 0;
    let mut pw = 1u64;
    while i >= pw {
        i -= pw;
        pw *= n;
        l += 1;
    }
    for _ in 0..l {
        out.push_str(alpha[(i % n) as usize]);
        i /= n;
    }
}
fn strings_total(n: u64, max: u32) -> u64 {
    (0..=max).map(|l| n.pow(l)).sum()
}

fn c12(c: &Ctx) -> Vec<Job> {
    let mut v = vec![];
    let alpha = ["a", "\"", "'", "\\", "n", "{", "#", "\n", "é"];
    let max = if c.thorough { 6 } else { 5 };
    let total = strings_total(alpha.len() as u64, max);
    for (n, q) in [("short-double", "\""), ("short-single", "'"), ("long-double", "\"\"\""), ("long-single", "'''")] {
        v.push(par(n, format!("all {} bodies of at most {} characters over {:?} between {}, followed by what may follow", total, max, alpha, q), total, 4000, move |i, w| {
            let mut b = String::new();
            nth_string(i, &alpha, &mut b);
            let t = match i % 4 {
                0 => format!("ASK{{?s ?p {q}{b}{q}}}"),
                1 => format!("ASK{{FILTER({q}{b}{q}=1)}}"),
                2 => format!("ASK{{VALUES ?v {{{q}{b}{q} {q}{b}{q}@en}}}}"),
                _ => format!("ASK{{?s ?p {q}{b}{q}^^<d>,{q}{b}{q}@en-x.}}"),
            };
            w.check(Entry::Query, &t);
        }));
    }
    // separators of GROUP_CONCAT, subjects, quad data
    let small = ["a", "\"", "'", "\\", "t", "}", "#", ")"];
    let total = strings_total(small.len() as u64, 4);
    v.push(par("everywhere", format!("all {} bodies of at most 4 characters over {:?} in the four quoting styles in six positions", total, small), total * 4, 2000, move |i, w| {
        let q = ["\"", "'", "\"\"\"", "'''"][(i % 4) as usize];
        let mut b = String::new();
        nth_string(i / 4, &small, &mut b);
        w.check(Entry::Query, &format!("SELECT (GROUP_CONCAT(?x;SEPARATOR={q}{b}{q}) AS ?y){{}}"));
        w.check(Entry::Query, &format!("ASK{{{q}{b}{q} a ?o}}"));
        w.check(Entry::Query, &format!("CONSTRUCT{{?s ?p {q}{b}{q}@en}}{{}}"));
        w.check(Entry::Update, &format!("INSERT DATA{{<s><p>{q}{b}{q}^^p:t}}"));
        w.check(Entry::Query, &format!("ASK{{FILTER REGEX(?x,{q}{b}{q},{q}i{q})}}"));
        w.check(Entry::Query, &format!("ASK{{}}VALUES(?x){{({q}{b}{q})}}"));
    }));
    // numbers
    let num = ["0", "1", "9", ".", "e", "E", "+", "-"];
    let max = if c.thorough { 7 } else { 6 };
    let total = strings_total(num.len() as u64, max);
    v.push(par("numbers", format!("all {} strings of at most {} characters over {:?} as object, operand, cell and bound", total, max, num), total, 4000, move |i, w| {
        let mut b = String::new();
        nth_string(i, &num, &mut b);
        w.check(Entry::Query, &format!("ASK{{?s ?p {b} }}"));
        match i % 5 {
            0 => w.check(Entry::Query, &format!("ASK{{FILTER(?x {b} )}}")),
            1 => w.check(Entry::Query, &format!("ASK{{VALUES ?x{{{b} }}}}")),
            2 => w.check(Entry::Query, &format!("ASK{{BIND({b} AS ?x)}}")),
            3 => w.check(Entry::Update, &format!("INSERT DATA{{<s><p>{b},{b}}}")),
            _ => w.check(Entry::Query, &format!("ASK{{({b} {b}) a <o>;a {b}.}}")),
        };
    }));
    let mut list = vec![];
    let mut ints: Vec<String> = vec![];
    for e in 0..=19u32 {
        for d in [-1i128, 0, 1] {
            ints.push((10i128.pow(e) + d).to_string());
        }
    }
    for b in [7u32, 8, 15, 16, 31, 32, 53, 62, 63] {
        for d in [-2i128, -1, 0, 1, 2] {
            ints.push(((1i128 << b) + d).to_string());
        }
    }
    let mut nums = vec![];
    for i in &ints {
        for s in ["", "+", "-"] {
            nums.push(format!("{}{}", s, i));
            nums.push(format!("{}00{}", s, i));
            nums.push(format!("{}{}.5", s, i));
            nums.push(format!("{}0.{}", s, i));
            nums.push(format!("{}.{}", s, i));
            nums.push(format!("{}1e{}", s, i));
            nums.push(format!("{}1.5E-{}", s, i));
            nums.push(format!("{}{}.e+{}", s, i, i));
            nums.push(format!("{}.{}e{}", s, i, i));
        }
    }
    for n in &nums {
        for f in ["ASK{?s ?p @ }", "ASK{FILTER(@ )}", "ASK{FILTER(?x @ )}", "ASK{VALUES ?x{@ }}", "ASK{FILTER(STR(@ )= @ )}", "CONSTRUCT{@ ?p @ }{}", "ASK{?s ?p @.}", "ASK{} HAVING(@*@)"] {
            list.push((Entry::Query, f.replace('@', n)));
        }
        list.push((Entry::Update, format!("INSERT DATA{{<s><p>{n} }}")));
    }
    v.push(texts("number-bounds", "integers, fractions and exponents around every power of ten and machine boundary, with every sign, in nine positions", list));
    // language tags, datatypes, booleans
    let tagc = ["a", "Z", "-", "1", "é", "_", "@"];
    let total = strings_total(7, if c.thorough { 6 } else { 5 });
    v.push(par("tags", format!("all {} language tags of at most {} characters over {:?}", total, if c.thorough { 6 } else { 5 }, tagc), total, 2000, move |i, w| {
        let mut b = String::new();
        nth_string(i, &tagc, &mut b);
        w.check(Entry::Query, &format!("ASK{{?s ?p 'x'@{b} }}"));
        w.check(Entry::Query, &format!("ASK{{FILTER('x'@{b}=\"\"@{b})}}"));
    }));
    let mut list = vec![];
    for q in ["''", "'a'", "\"\"", "\"a'b\"", "''''''", "'''a'b'''", "\"\"\"\"\"\"", "\"\"\"a\"\"b\"\"\""] {
        for g1 in ["", " ", "\n", "#c\n"] {
            for g2 in ["", " "] {
                for d in ["^^<d>", "^^p:d", "^^p:", "^^:d", "^^:", "@en", "@en-GB-x", "^<d>", "^^", "^^a", "^^'x'", "@", "^^?x", "^^<d>^^<e>", "@en@de", "^^<d>@en", ""] {
                    let d = d.replacen("^^", &format!("^^{}", g2), 1);
                    for f in ["ASK{?s ?p @}", "ASK{FILTER(@ = @)}", "ASK{VALUES ?x{@ @}}", "ASK{?s ?p @,@;?q @.}", "ASK{(@ @)?p @}", "ASK{@ ?p 1}"] {
                        list.push((Entry::Query, f.replace('@', &format!("{}{}{}", q, g1, d).replace('@', "\u{1}")).replace('\u{1}', "@")));
                    }
                }
            }
        }
    }
    for b in ["true", "false", "TRUE", "False", "tRuE", "true1", "truefalse", "true:x", "true.", "false;", "true,false"] {
        for f in ["ASK{?s ?p @ }", "ASK{FILTER(@ )}", "ASK{VALUES ?x{@ @ }}", "ASK{@ ?p @ }", "CONSTRUCT{?s ?p @ }{}", "ASK{FILTER(@ =@ )}"] {
            list.push((Entry::Query, f.replace('@', b)));
        }
    }
    v.push(texts("descriptors", "every quoting style x layout x tag or datatype (also malformed) in six positions; booleans", list));
    v.push(typed_literals(c));
    v.push(lengths(c, "lengths", &["lit"]));
    v.push(char_positions(c, "any-char-in-strings", vec![
        (Entry::Query, "ASK{?s ?p '", "'}"),
        (Entry::Query, "ASK{?s ?p \"a", "b\"@en}"),
        (Entry::Query, "ASK{FILTER('''", "'''=1)}"),
        (Entry::Query, "ASK{VALUES ?x{\"\"\"a", "\"\"\"}}"),
        (Entry::Query, "ASK{?s ?p '\\", "'}"),
        (Entry::Query, "ASK{?s ?p 'x'", "@en}"),
        (Entry::Query, "ASK{?s ?p 1", "}"),
        (Entry::Query, "ASK{?s ?p 'x'@en", " }"),
    ]));
    v
}

/// every Unicode scalar value at a position
fn char_positions(_c: &Ctx, name: &str, ctx: Vec<(Entry, &'static str, &'static str)>) -> Job {
    let n = ctx.len() as u64;
    let bound = format!("all 1112064 Unicode scalar values at {} positions: {}", n, ctx.iter().map(|(_, a, b)| format!("{}_{}", a, b)).collect::<Vec<_>>().join("  "));
    const BLOCK: u64 = 64;
    let total = n * (0x110000 / BLOCK);
    par(name, bound, total, 400, move |i, w| {
        let (e, a, b) = &ctx[(i % n) as usize];
        let base = (i / n) * BLOCK;
        let mut t = String::with_capacity(64);
        for cp in base..base + BLOCK {
            if let Some(ch) = char::from_u32(cp as u32) {
                t.clear();
                t.push_str(a);
                t.push(ch);
                t.push_str(b);
                w.check(*e, &t);
            }
        }
    })
}

/// names and literals of every length
fn lengths(c: &Ctx, name: &str, kinds: &[&str]) -> Job {
    let mut fr: Vec<(&'static str, &'static str, &'static str)> = vec![];
    if kinds.contains(&"lit") {
        fr.extend([
            ("'", "x", "'"), ("\"", "é", "\""), ("'''", "a'", "b'''"), ("\"\"\"", "\n", "\"\"\""), ("'", "\\'", "'"), ("'x'@", "a", ""), ("'x'@a", "-b1", ""), ("0.", "1", ""), ("0", "0", "1"), ("1.", "0", "e1"), ("1e", "0", "1"), ("'x'^^p:", "a", ""),
        ]);
    }
    if kinds.contains(&"name") {
        fr.extend([
            ("?", "a", ""), ("$", "é", ""), ("?", "0", ""), ("p:", "a", ""), ("p", "q", ":x"), ("p:a", ".b", ""), ("p", ".q", ":x"), ("p:", "%41", ""), ("p:", "\\,", ""), ("p:a", "::", "b"), ("_:", "a", ""), ("_:a", ".-b", ""), ("<", "x", ">"), ("<", "é/", ">"), ("<", "%20", ">"), ("p", "", ":"), ("p", "-", ":"), (":", "z", ""),
        ]);
    }
    let ctx: Vec<(Entry, &str)> = vec![(Entry::Query, "ASK{?s ?p @ }"), (Entry::Query, "ASK{@ a @,@ . }"), (Entry::Query, "ASK{FILTER(STR(@ )= @ )}"), (Entry::Query, "ASK{VALUES ?x{@ @ }}"), (Entry::Update, "INSERT DATA{@ a @ }"), (Entry::Query, "SELECT(@ AS ?z){}"), (Entry::Query, "CONSTRUCT{?s ?p @ }{}")];
    let maxl: u64 = if c.thorough { 600 } else { 140 };
    let mut lens: Vec<usize> = (0..=maxl as usize).collect();
    lens.extend([255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 20000]);
    let (nf, nl, nc) = (fr.len() as u64, lens.len() as u64, ctx.len() as u64);
    let bound = format!("{} kinds of names or literals with every number of repeated parts from 0 to {} and at powers of two up to 4096, and 20000, in {} positions", nf, maxl, nc);
    par(name, bound, nf * nl * nc, 60, move |i, w| {
        let (a, r, b) = fr[(i % nf) as usize];
        let l = lens[((i / nf) % nl) as usize];
        let (e, cx) = ctx[(i / nf / nl) as usize];
        let t = format!("{}{}{}", a, r.repeat(l), b);
        w.check(e, &cx.replace('@', &t.replace('@', "\u{1}")).replace('\u{1}', "@"));
    })
}

fn c13(c: &Ctx) -> Vec<Job> {
    use Entry::*;
    let mut v = vec![];
    v.push(char_positions(c, "any-char-in-names", vec![
        (Query, "ASK{?", " ?p ?o}"),
        (Query, "ASK{?a", "b ?p ?o}"),
        (Query, "ASK{?s ?p ?a", "}"),
        (Query, "SELECT $", "{}"),
        (Query, "ASK{?s a ", ":x}"),
        (Query, "ASK{?s a a", "b:x}"),
        (Query, "ASK{?s a a", ":x}"),
        (Query, "ASK{?s a p:", "}"),
        (Query, "ASK{?s a p:a", "b}"),
        (Query, "ASK{?s a p:a", "}"),
        (Query, "ASK{?s a :a.", "b}"),
        (Query, "ASK{?s a _:", " }"),
        (Query, "ASK{?s a _:a", "b }"),
        (Query, "ASK{?s a _:a", "}"),
        (Query, "ASK{?s a <", ">}"),
        (Query, "ASK{?s a <a", "b>}"),
        (Query, "PREFIX ", ":<i>ASK{}"),
        (Query, "PREFIX a", ":<i>ASK{}"),
        (Query, "ASK{?s a p:\\", "}"),
        (Query, "ASK{?s a p:%4", "}"),
        (Query, "BASE <", ">ASK{}"),
        (Update, "DROP GRAPH <x", ">"),
    ]));
    // short local names, prefixes, labels over the special characters
    let sp = ["a", "1", ".", ":", "-", "_", "%", "%4f", "\\", "\\~", "~", "é", "\u{B7}", "'", " "];
    let max = if c.thorough { 5 } else { 4 };
    let total = strings_total(sp.len() as u64, max);
    for (n, ctxs) in [
        ("local", ["ASK{?s a p:@ }", "ASK{?s a :@,1 }"]),
        ("prefix", ["ASK{?s a @:x }", "PREFIX @:<i> ASK{}"]),
        ("label", ["ASK{?s a _:@ }", "CONSTRUCT{_:@ a 1}{}"]),
        ("variable", ["ASK{?s a ?@ }", "SELECT $@{}"]),
        ("iri", ["ASK{?s a <@>}", "BASE<@> ASK{}"]),
        ("bare", ["ASK{?s a @ }", "ASK{FILTER(@ )}"]),
    ] {
        v.push(par(n, format!("all {} strings of at most {} of {:?} as {}, in two positions", total, max, sp, n), total, 2000, move |i, w| {
            let mut b = String::new();
            nth_string(i, &sp, &mut b);
            for cx in ctxs {
                w.check(Entry::Query, &cx.replace('@', &b));
            }
        }));
    }
    // the same names in every position of the grammar
    v.push(cover_job(c, Query, if c.thorough { 7 } else { 5 }, &[(Pool::Hard, Layout::Spaced), (Pool::Hard, Layout::Tight)]));
    v.push(cover_job(c, Update, if c.thorough { 7 } else { 5 }, &[(Pool::Hard, Layout::Spaced), (Pool::Hard, Layout::Tight)]));
    v.push(name_positions(c));
    v.push(lengths(c, "lengths", &["name"]));
    v
}

/// awkward names in every position of a name
fn name_positions(c: &Ctx) -> Job {
    let m = c.m;
    let k = |s: &str| m.g.t(s);
    let vars: &[&str] = &["?a", "?0", "?_", "?é", "?a\u{B7}", "?a\u{300}\u{203F}1", "$a", "$9z", "?\u{10000}", "?A", "?a_b", "?\u{2C00}"];
    let pn: &[&str] = &["p:a", ":a", "p:", ":", "a.b:c.d", "p:a..b", "p..q:x", "p:-", "p:0", "p:%AF", "p:\\.", "p:a\\-b", "p:::", "é:é", "p-:x", "p:a-", "p:a:", "P:x", "p:\u{10000}", "a:a", "p:_", "p\u{B7}:x", "p:1.2", "p:a%20b"];
    let iris: &[&str] = &["<>", "<a>", "<#>", "<é>", "<\u{10FFFF}>", "<a'b>", "<a(b)>", "<a,b;c.d>", "<%>", "<a#b#c>", "<?a=1>", "<//[::1]/>"];
    let labels: &[&str] = &["_:a", "_:0", "_:_", "_:a.b", "_:a..b", "_:a-", "_:é", "_:\u{10000}", "_:1.2-3"];
    let mut items: Vec<(Entry, Vec<T>, usize, &'static str)> = vec![];
    for e in [Entry::Query, Entry::Update] {
        for s in cover(c, e, if c.thorough { 5 } else { 4 }, usize::MAX) {
            for (i, &t) in s.iter().enumerate() {
                let alts: Vec<&'static str> = if t == k("VAR1") || t == k("VAR2") {
                    vars.to_vec()
                } else if t == k("IRIREF") || t == k("PNAME_LN") || t == k("PNAME_NS") {
                    iris.iter().chain(pn).cloned().collect()
                } else if t == k("BLANK_NODE_LABEL") {
                    labels.to_vec()
                } else {
                    vec![]
                };
                for a in alts {
                    items.push((e, s.clone(), i, a));
                }
            }
        }
    }
    let n = items.len() as u64;
    par("positions", format!("{} awkward names put into every name position of a grammar cover, spaced and dense ({} texts)", vars.len() + pn.len() + iris.len() + labels.len(), 2 * n), n, 2000, move |i, w| {
        let (e, s, at, name) = &items[i as usize];
        for lay in [Layout::Spaced, Layout::Tight] {
            let p = w.rd.pieces(s, Pool::Plain);
            if let Some(x) = p.iter_mut().find(|x| x.1 == *at) {
                x.0 = name.to_string();
            }
            let t = w.rd.join(lay);
            w.check(*e, &t);
        }
    })
}
