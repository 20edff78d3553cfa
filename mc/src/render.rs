//! Token sequences to text.
use crate::exec::Model;
use crate::grammar::T;
use crate::lex::Lexer;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Layout {
    Spaced,
    Tight,
    /// another kind of layout in every gap, comments included, also at both ends
    Busy,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pool {
    Plain,
    Hard,
    /// the same text for every occurrence
    Same,
    /// as `Plain`, in descending order
    Desc,
    /// the smallest text of every kind: zeros, empty strings, one-letter names, all alike
    Zero,
    /// as `Plain`, keywords in lower case
    Lower,
    /// as `Hard`, keywords in mixed case
    Mixed,
    /// names spelled like keywords, another choice for every number
    Words(u8),
}

const HARD_VAR: &[&str] = &["select", "0x", "where_1", "a", "é\u{B7}", "as", "9", "filter\u{300}", "_", "true", "in", "not", "x\u{203F}y", "\u{10000}z", "by"];
const HARD_IRI: &[&str] = &["<>", "<#frag>", "<a?b=c&d='e'>", "<urn:x:(y)>", "<//h/%20;p=1,2>", "<é/\u{1F600}>", "<a#b>", "<?x>", "<$y.>"];
const HARD_LN: &[&str] = &[
    ":x", "a:b", "select:where", "a.b:c.d", "p:%41%aF", "p:1", "p:a\\,b", "true:x", "p::q", "filter:x", "e-1:a-b", "p:\\~", "not:in", "distinct:z", "é:ü", "as:as",
    "p:0.5", "union:a", "graph:g", "default:d", "silent:s", "named:n", "all:a", "to:t", "p:a:b.c:d", "count:c", "undef:u", "exists:e", "asc:c", "p:_",
];
const HARD_NS: &[&str] = &[":", "a:", "x.y:", "select:", "e-:", "é\u{B7}:", "true:", "from:", "where:", "limit:", "values:"];
const HARD_LABEL: &[&str] = &["_:0", "_:a.b", "_:as", "_:_", "_:x-y", "_:é\u{300}", "_:where", "_:1.2"];
const HARD_STR: &[&str] = &["", "}", "#x", "a b", "\\\\", "\\n\\\"", "\\'", "?x", "{", "é\u{1F600}", "<", "SELECT", ". ;", ")"];

pub fn is_piecewise(s: &str) -> Option<(&str, &str)> {
    match s {
        "NIL" => Some(("(", ")")),
        "ANON" => Some(("[", "]")),
        "INSERT DATA" => Some(("INSERT", "DATA")),
        "DELETE DATA" => Some(("DELETE", "DATA")),
        "DELETE WHERE" => Some(("DELETE", "WHERE")),
        _ => None,
    }
}

const WORDS: &[&str] = &[
    "select", "WHERE", "filter", "as", "a", "true", "false", "in", "not", "exists", "by", "asc", "DESC", "from", "named", "graph", "union", "optional", "minus", "service", "silent", "bind", "values", "undef", "limit", "offset", "group", "order", "having", "distinct", "reduced",
    "base", "prefix", "ask", "construct", "describe", "insert", "delete", "data", "with", "using", "load", "clear", "drop", "create", "add", "move", "copy", "to", "into", "default", "all", "count", "sum", "str", "lang", "regex", "separator", "group_concat", "if", "bound", "IRI", "uri", "sameTerm", "A",
];
fn word(name: &str, k: usize) -> Option<String> {
    let w = |i: usize| WORDS[i % WORDS.len()];
    Some(match name {
        "VAR1" => format!("?{}", w(k)),
        "VAR2" => format!("${}", w(k)),
        "PNAME_LN" => format!("{}:{}", w(k), w(k * 3 + 1)),
        "PNAME_NS" => format!("{}:", w(k)),
        "BLANK_NODE_LABEL" => format!("_:{}", w(k)),
        "LANGTAG" => format!("@{}", w(k).replace('_', "")),
        "IRIREF" => format!("<{}>", w(k)),
        "STRING_LITERAL1" => format!("'{}'", w(k)),
        "STRING_LITERAL2" => format!("\"{} \"", w(k)),
        "STRING_LITERAL_LONG1" => format!("'''{}'''", w(k)),
        "STRING_LITERAL_LONG2" => format!("\"\"\" {}\"\"\"", w(k)),
        _ => return None,
    })
}
fn keyword(s: &str) -> bool {
    s.len() > 1 && s.bytes().all(|c| c.is_ascii_uppercase() || c == b'_' || c.is_ascii_digit() || c == b' ') && s.as_bytes()[0].is_ascii_uppercase()
}

fn leaf(name: &str, k: usize, pool: Pool, salt: usize) -> Option<String> {
    if let Pool::Words(_) = pool {
        if let Some(t) = word(name, k + salt) {
            return Some(t);
        }
    }
    if pool == Pool::Zero {
        let (b, sign) = match name.strip_suffix("_POSITIVE") {
            Some(b) => (b, "+"),
            None => match name.strip_suffix("_NEGATIVE") {
                Some(b) => (b, "-"),
                None => (name, ""),
            },
        };
        let t = match b {
            "VAR1" => "?a",
            "VAR2" => "$a",
            "IRIREF" => "<>",
            "PNAME_LN" => ":a",
            "PNAME_NS" => ":",
            "BLANK_NODE_LABEL" => "_:a",
            "LANGTAG" => "@a",
            "STRING_LITERAL1" => "''",
            "STRING_LITERAL2" => "\"\"",
            "STRING_LITERAL_LONG1" => "''''''",
            "STRING_LITERAL_LONG2" => "\"\"\"\"\"\"",
            "INTEGER" => "0",
            "DECIMAL" => ".0",
            "DOUBLE" => "0e0",
            _ => return None,
        };
        return Some(format!("{}{}", sign, t));
    }
    let n = match pool {
        Pool::Same => 0,
        Pool::Desc => 9_999 - k % 9_999,
        _ => k,
    };
    let hard = pool == Pool::Hard || pool == Pool::Mixed;
    let pick = |v: &[&str], more: usize| v[(k * 7 + more + salt) % v.len()].to_string();
    Some(match name {
        "VAR1" => {
            if hard {
                format!("?{}", pick(HARD_VAR, 0))
            } else {
                format!("?v{}", n)
            }
        }
        "VAR2" => {
            if hard {
                format!("${}", pick(HARD_VAR, 3))
            } else {
                format!("$w{}", n)
            }
        }
        "IRIREF" => {
            if hard {
                pick(HARD_IRI, 0)
            } else {
                format!("<http://e/{}>", n)
            }
        }
        "PNAME_LN" => {
            if hard {
                pick(HARD_LN, 0)
            } else {
                format!("p{}:l{}", n, n)
            }
        }
        "PNAME_NS" => {
            if hard {
                pick(HARD_NS, 0)
            } else {
                format!("q{}:", n)
            }
        }
        "BLANK_NODE_LABEL" => {
            if hard {
                pick(HARD_LABEL, 0)
            } else {
                format!("_:b{}", n)
            }
        }
        "LANGTAG" => {
            if hard {
                ["@a", "@en-GB", "@de-1996-x1", "@AS"][(k + salt) % 4].to_string()
            } else {
                format!("@en-{}", n)
            }
        }
        _ if name.starts_with("STRING_LITERAL") => {
            let q = match name {
                "STRING_LITERAL1" => "'",
                "STRING_LITERAL2" => "\"",
                "STRING_LITERAL_LONG1" => "'''",
                _ => "\"\"\"",
            };
            let b = if hard { pick(HARD_STR, 0) } else { format!("s{}", n) };
            format!("{}{}{}", q, b, q)
        }
        _ => {
            let (base, sign) = match name.strip_suffix("_POSITIVE") {
                Some(b) => (b, "+"),
                None => match name.strip_suffix("_NEGATIVE") {
                    Some(b) => (b, "-"),
                    None => (name, ""),
                },
            };
            let t = match base {
                "INTEGER" => {
                    if hard {
                        ["0", "007", "9223372036854775807", "10"][(k + salt) % 4].to_string()
                    } else {
                        format!("{}", n + 1)
                    }
                }
                "DECIMAL" => {
                    if hard {
                        [".5", "00.10", "0.0", "123456789.987654321"][(k + salt) % 4].to_string()
                    } else {
                        format!("{}.5", n)
                    }
                }
                "DOUBLE" => {
                    if hard {
                        ["1e0", ".5E-3", "0.0e+12", "1.e5"][(k + salt) % 4].to_string()
                    } else {
                        format!("{}.5e{}", n, n + 1)
                    }
                }
                _ => return None,
            };
            format!("{}{}", sign, t)
        }
    })
}

pub struct Renderer<'m> {
    m: &'m Model,
    lx: Lexer<'m>,
    counts: Vec<usize>,
    /// pieces of the last sequence and the index of the token each belongs to
    pub pieces: Vec<(String, usize)>,
}

fn wordish(c: char) -> bool {
    c.is_alphanumeric() || "_-:.%\\".contains(c) || c > '\u{7f}'
}

impl<'m> Renderer<'m> {
    pub fn new(m: &'m Model) -> Renderer<'m> {
        Renderer { m, lx: Lexer::new(&m.g), counts: vec![0; m.g.terms.len()], pieces: vec![] }
    }
    /// Texts of the tokens, in pieces.
    pub fn pieces(&mut self, toks: &[T], pool: Pool) -> &mut Vec<(String, usize)> {
        for c in self.counts.iter_mut() {
            *c = 0;
        }
        self.pieces.clear();
        // names and values vary from sentence to sentence
        let salt = match pool {
            Pool::Hard | Pool::Mixed => (toks.iter().fold(0u64, |h, t| crate::grammar::mix(h, *t as u64)) % 9973) as usize,
            Pool::Words(x) => (toks.iter().fold(x as u64, |h, t| crate::grammar::mix(h, *t as u64)) % 9973) as usize,
            _ => 0,
        };
        for (i, &t) in toks.iter().enumerate() {
            let name = self.m.g.terms[t as usize].as_str();
            let k = self.counts[t as usize];
            self.counts[t as usize] += 1;
            if let Some((a, b)) = is_piecewise(name) {
                self.pieces.push((a.to_string(), i));
                self.pieces.push((b.to_string(), i));
            } else if let Some(s) = leaf(name, k, pool, salt) {
                self.pieces.push((s, i));
            } else {
                self.pieces.push((name.to_string(), i));
            }
        }
        if pool == Pool::Lower || pool == Pool::Mixed {
            for (j, (p, i)) in self.pieces.iter_mut().enumerate() {
                if keyword(p) && keyword(&self.m.g.terms[toks[*i] as usize]) {
                    *p = if pool == Pool::Lower { p.to_ascii_lowercase() } else { p.chars().enumerate().map(|(x, c)| if (x + j + salt) % 2 == 0 { c.to_ascii_lowercase() } else { c }).collect() };
                }
            }
        }
        &mut self.pieces
    }
    pub fn text(&mut self, toks: &[T], pool: Pool, lay: Layout) -> String {
        self.pieces(toks, pool);
        self.join(lay)
    }
    /// Joins the current pieces.
    pub fn join(&mut self, lay: Layout) -> String {
        match lay {
            Layout::Spaced => {
                let mut s = String::new();
                let mut last = usize::MAX;
                for (p, i) in &self.pieces {
                    // nothing inside () and []
                    let glue = last == *i && (p == ")" || p == "]");
                    if !s.is_empty() && !glue {
                        s.push(' ');
                    }
                    s.push_str(p);
                    last = *i;
                }
                s
            }
            Layout::Busy => {
                const GAPS: &[&str] = &["\n", "\t ", " #c\n", "\r\n", "  ", "#\n", "# }\"'<?x \r", "\n\n\t#a\n#b\n", "\r", "#;.\r\n"];
                let h = self.pieces.iter().fold(0usize, |h, p| h * 31 % 9973 + p.0.len());
                let mut s = String::new();
                for (j, (p, _)) in self.pieces.iter().enumerate() {
                    s.push_str(GAPS[(h + j) % GAPS.len()]);
                    s.push_str(p);
                }
                s.push_str(GAPS[(h / 7) % GAPS.len()]);
                s
            }
            Layout::Tight => {
                let ps = std::mem::take(&mut self.pieces);
                let mut gap: Vec<bool> = vec![false; ps.len()];
                for j in 1..ps.len() {
                    let a = ps[j - 1].0.chars().last().unwrap_or(' ');
                    let b = ps[j].0.chars().next().unwrap_or(' ');
                    gap[j] = (wordish(a) && wordish(b)) || (a == '<' && ps[j - 1].0.len() == 1) || (wordish(a) && b == '_');
                    let ka = ps[j - 1].0.as_str();
                    // quotes that would merge
                    if (b == '"' || b == '\'') && a == b {
                        gap[j] = true;
                    }
                    if ka.starts_with('@') && (b == '-' || b.is_alphanumeric()) {
                        gap[j] = true;
                    }
                }
                let mut out = String::new();
                for round in 0..ps.len() + 2 {
                    out.clear();
                    let mut starts = Vec::with_capacity(ps.len());
                    for (j, (p, _)) in ps.iter().enumerate() {
                        if gap[j] {
                            out.push(' ');
                        }
                        starts.push(out.len());
                        out.push_str(p);
                    }
                    // does it still fall into the same tokens?
                    let bad = match self.lx.lex(&out) {
                        Ok(ts) => {
                            let mut want = vec![];
                            let mut j = 0;
                            while j < ps.len() {
                                let mut e = j;
                                while e + 1 < ps.len() && ps[e + 1].1 == ps[j].1 {
                                    e += 1;
                                }
                                want.push((starts[j], starts[e] + ps[e].0.len(), j, e));
                                j = e + 1;
                            }
                            let mut b = None;
                            for (x, w) in want.iter().enumerate() {
                                if ts.get(x).map_or(true, |t| t.start != w.0 || t.end != w.1) {
                                    b = Some((w.2, w.3));
                                    break;
                                }
                            }
                            if b.is_none() && ts.len() != want.len() {
                                b = Some((ps.len() - 1, ps.len() - 1));
                            }
                            b
                        }
                        Err(_) => {
                            // no position: fall back to spaces everywhere
                            self.pieces = ps;
                            return self.join(Layout::Spaced);
                        }
                    };
                    match bad {
                        None => break,
                        Some((j, e)) => {
                            if !gap[j] && round < ps.len() {
                                gap[j] = true;
                            } else if e + 1 < ps.len() && !gap[e + 1] {
                                gap[e + 1] = true;
                            } else {
                                self.pieces = ps;
                                return self.join(Layout::Spaced);
                            }
                        }
                    }
                }
                self.pieces = ps;
                out
            }
        }
    }
}
