//! Reference lexer, written from the terminal productions of SPARQL 1.1 (maximal munch).
use crate::grammar::{Grammar, T};

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub kind: T,
    pub start: usize,
    pub end: usize,
}

#[derive(Debug, Clone, PartialEq)]
pub enum LexErr {
    /// no token of the language starts here
    Invalid(usize),
    /// the specification leaves it open, or it is outside the model (codepoint escapes, glued words)
    Unspec(&'static str),
}

pub fn pn_chars_base(c: char) -> bool {
    matches!(c, 'A'..='Z' | 'a'..='z' | '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}' | '\u{F8}'..='\u{2FF}'
        | '\u{370}'..='\u{37D}' | '\u{37F}'..='\u{1FFF}' | '\u{200C}'..='\u{200D}' | '\u{2070}'..='\u{218F}'
        | '\u{2C00}'..='\u{2FEF}' | '\u{3001}'..='\u{D7FF}' | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}'
        | '\u{10000}'..='\u{EFFFF}')
}
pub fn pn_chars_u(c: char) -> bool {
    pn_chars_base(c) || c == '_'
}
fn extender(c: char) -> bool {
    matches!(c, '\u{B7}' | '\u{300}'..='\u{36F}' | '\u{203F}'..='\u{2040}')
}
pub fn varname_start(c: char) -> bool {
    pn_chars_u(c) || c.is_ascii_digit()
}
pub fn varname_char(c: char) -> bool {
    varname_start(c) || extender(c)
}
pub fn pn_chars(c: char) -> bool {
    varname_char(c) || c == '-'
}
pub fn iri_char(c: char) -> bool {
    !(c <= '\u{20}' || "<>\"{}|^`\\".contains(c))
}

pub struct Lexer<'g> {
    pub g: &'g Grammar,
    word: std::collections::HashMap<String, T>,
    punct: Vec<(&'static str, T)>,
    k: Kinds,
    multi: [(T, T, T); 3],
}
#[derive(Clone, Copy)]
pub struct Kinds {
    pub iriref: T,
    pub pname_ns: T,
    pub pname_ln: T,
    pub bnode: T,
    pub var1: T,
    pub var2: T,
    pub langtag: T,
    pub num: [T; 9], // int,dec,dbl ; + ; -
    pub s1: T,
    pub s2: T,
    pub l1: T,
    pub l2: T,
    pub nil: T,
    pub anon: T,
    pub a: T,
}

impl<'g> Lexer<'g> {
    pub fn new(g: &'g Grammar) -> Lexer<'g> {
        let named = [
            "IRIREF", "PNAME_NS", "PNAME_LN", "BLANK_NODE_LABEL", "VAR1", "VAR2", "LANGTAG", "INTEGER", "DECIMAL", "DOUBLE",
            "INTEGER_POSITIVE", "DECIMAL_POSITIVE", "DOUBLE_POSITIVE", "INTEGER_NEGATIVE", "DECIMAL_NEGATIVE", "DOUBLE_NEGATIVE",
            "STRING_LITERAL1", "STRING_LITERAL2", "STRING_LITERAL_LONG1", "STRING_LITERAL_LONG2", "NIL", "ANON",
        ];
        let mut word = std::collections::HashMap::new();
        let mut punct: Vec<(&'static str, T)> = vec![];
        for (i, s) in g.terms.iter().enumerate() {
            if named.contains(&s.as_str()) || s.contains(' ') {
                continue;
            }
            if s.chars().next().unwrap().is_ascii_alphabetic() {
                word.insert(s.clone(), i as T);
            } else {
                punct.push((Box::leak(s.clone().into_boxed_str()), i as T));
            }
        }
        for w in ["DATA", "DELETE", "WHERE", "INSERT"] {
            // words that occur only inside two-word terminals still lex as words
            word.entry(w.to_string()).or_insert(T::MAX);
        }
        punct.sort_by_key(|p| std::cmp::Reverse(p.0.len()));
        let t = |s: &str| g.t(s);
        let k = Kinds {
            iriref: t("IRIREF"),
            pname_ns: t("PNAME_NS"),
            pname_ln: t("PNAME_LN"),
            bnode: t("BLANK_NODE_LABEL"),
            var1: t("VAR1"),
            var2: t("VAR2"),
            langtag: t("LANGTAG"),
            num: [
                t("INTEGER"), t("DECIMAL"), t("DOUBLE"), t("INTEGER_POSITIVE"), t("DECIMAL_POSITIVE"), t("DOUBLE_POSITIVE"),
                t("INTEGER_NEGATIVE"), t("DECIMAL_NEGATIVE"), t("DOUBLE_NEGATIVE"),
            ],
            s1: t("STRING_LITERAL1"),
            s2: t("STRING_LITERAL2"),
            l1: t("STRING_LITERAL_LONG1"),
            l2: t("STRING_LITERAL_LONG2"),
            nil: t("NIL"),
            anon: t("ANON"),
            a: t("a"),
        };
        let multi = [
            (word["INSERT"], T::MAX, t("INSERT DATA")),
            (word["DELETE"], T::MAX, t("DELETE DATA")),
            (word["DELETE"], word["WHERE"], t("DELETE WHERE")),
        ];
        Lexer { g, word, punct, k, multi }
    }
    pub fn kinds(&self) -> Kinds {
        self.k
    }

    /// Skips whitespace and comments.
    pub fn skip(s: &str, mut i: usize) -> usize {
        let b = s.as_bytes();
        loop {
            while i < b.len() && matches!(b[i], b' ' | b'\t' | b'\r' | b'\n') {
                i += 1;
            }
            if i < b.len() && b[i] == b'#' {
                while i < b.len() && b[i] != b'\n' && b[i] != b'\r' {
                    i += 1;
                }
            } else {
                return i;
            }
        }
    }

    /// local name after the colon at byte offset i; returns the end
    fn local_end(s: &str, start: usize) -> usize {
        let mut i = start;
        let mut end = start;
        let mut first = true;
        loop {
            let rest = &s[i..];
            let c = match rest.chars().next() {
                Some(c) => c,
                None => break,
            };
            if c == '%' {
                let b = rest.as_bytes();
                if b.len() >= 3 && b[1].is_ascii_hexdigit() && b[2].is_ascii_hexdigit() {
                    i += 3;
                    end = i;
                } else {
                    break;
                }
            } else if c == '\\' {
                match rest[1..].chars().next() {
                    Some(e) if "_~.-!$&'()*+,;=/?#@%".contains(e) => {
                        i += 2;
                        end = i;
                    }
                    _ => break,
                }
            } else if c == '.' && !first {
                i += 1;
            } else if c == ':' || (if first { pn_chars_u(c) || c.is_ascii_digit() } else { pn_chars(c) }) {
                i += c.len_utf8();
                end = i;
            } else {
                break;
            }
            first = false;
        }
        end
    }

    fn string(&self, s: &str, i: usize) -> Result<(T, usize), LexErr> {
        let b = s.as_bytes();
        let q = b[i];
        let long = b.len() >= i + 3 && b[i + 1] == q && b[i + 2] == q;
        let mut j = if long { i + 3 } else { i + 1 };
        loop {
            if j >= b.len() {
                // a long opening that never closes is an empty string followed by a quote
                if long {
                    return Ok((if q == b'\'' { self.k.s1 } else { self.k.s2 }, i + 2));
                }
                return Err(LexErr::Invalid(i));
            }
            if b[j] == b'\\' {
                if j + 1 < b.len() && b"tbnrf\\\"'".contains(&b[j + 1]) {
                    j += 2;
                } else if long {
                    return Ok((if q == b'\'' { self.k.s1 } else { self.k.s2 }, i + 2));
                } else {
                    return Err(LexErr::Invalid(i));
                }
            } else if b[j] == q {
                if !long {
                    return Ok((if q == b'\'' { self.k.s1 } else { self.k.s2 }, j + 1));
                }
                if b.len() >= j + 3 && b[j + 1] == q && b[j + 2] == q {
                    return Ok((if q == b'\'' { self.k.l1 } else { self.k.l2 }, j + 3));
                }
                j += 1;
            } else {
                // raw line ends inside short strings: accepted by this crate (pinned by terminals::tests::is_string_literal)
                j += 1;
            }
        }
    }

    /// end of the digits/fraction/exponent at i (no sign); kind index 0 int 1 decimal 2 double
    fn number(s: &str, i: usize) -> Option<(usize, usize)> {
        let b = s.as_bytes();
        let dig = |mut j: usize| {
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            j
        };
        let d1 = dig(i);
        let mut end;
        let mut kind;
        if d1 > i {
            end = d1;
            kind = 0;
            if d1 < b.len() && b[d1] == b'.' {
                // "1." is a decimal in this crate (SPARQL 1.0 production, pinned by literal::tests)
                end = dig(d1 + 1);
                kind = 1;
            }
        } else if i < b.len() && b[i] == b'.' {
            let d2 = dig(i + 1);
            if d2 == i + 1 {
                return None;
            }
            end = d2;
            kind = 1;
        } else {
            return None;
        }
        if end < b.len() && (b[end] == b'e' || b[end] == b'E') {
            let mut j = end + 1;
            if j < b.len() && (b[j] == b'+' || b[j] == b'-') {
                j += 1;
            }
            let e = dig(j);
            if e > j {
                end = e;
                kind = 2;
            }
        }
        Some((end, kind))
    }

    pub fn lex(&self, s: &str) -> Result<Vec<Tok>, LexErr> {
        let mut out: Vec<Tok> = vec![];
        self.lex_into(s, &[], &mut out).map(|_| out)
    }
    /// As `lex`, also leaving the tokens in front of an error; at the offsets in `ops`, `<` starts no IRI.
    pub fn lex_into(&self, s: &str, ops: &[usize], out: &mut Vec<Tok>) -> Result<(), LexErr> {
        let r = self.raw(s, ops, out);
        r.and(self.join(out))
    }
    fn raw(&self, s: &str, ops: &[usize], out: &mut Vec<Tok>) -> Result<(), LexErr> {
        let k = &self.k;
        let b = s.as_bytes();
        let mut i = 0;
        if s.contains("\\u") || s.contains("\\U") {
            return Err(LexErr::Unspec("codepoint escape"));
        }
        loop {
            i = Self::skip(s, i);
            if i >= b.len() {
                break;
            }
            let c = s[i..].chars().next().unwrap();
            let start = i;
            let next = s[i + c.len_utf8()..].chars().next();
            let mut kind = None;
            let mut end = i;
            match c {
                '<' => {
                    let mut j = i + 1;
                    for ch in s[i + 1..].chars() {
                        if iri_char(ch) {
                            j += ch.len_utf8();
                        } else {
                            break;
                        }
                    }
                    if j < b.len() && b[j] == b'>' && !ops.contains(&i) {
                        kind = Some(k.iriref);
                        end = j + 1;
                    }
                }
                '?' | '$' => {
                    if next.map_or(false, varname_start) {
                        let mut j = i + 1;
                        for ch in s[i + 1..].chars() {
                            if varname_char(ch) {
                                j += ch.len_utf8();
                            } else {
                                break;
                            }
                        }
                        kind = Some(if c == '?' { k.var1 } else { k.var2 });
                        end = j;
                    }
                }
                '@' => {
                    let dig = |mut j: usize, an: bool| {
                        while j < b.len() && (b[j].is_ascii_alphabetic() || (an && b[j].is_ascii_digit())) {
                            j += 1;
                        }
                        j
                    };
                    let mut j = dig(i + 1, false);
                    if j > i + 1 {
                        while j < b.len() && b[j] == b'-' {
                            let e = dig(j + 1, true);
                            if e == j + 1 {
                                break;
                            }
                            j = e;
                        }
                        kind = Some(k.langtag);
                        end = j;
                        if s[end..].chars().next().map_or(false, |c| pn_chars(c)) {
                            return Err(LexErr::Unspec("glued language tag"));
                        }
                    }
                }
                '"' | '\'' => {
                    let (kd, e) = self.string(s, i)?;
                    kind = Some(kd);
                    end = e;
                }
                '(' | '[' => {
                    let j = Self::skip(s, i + 1);
                    let close = if c == '(' { b')' } else { b']' };
                    if j < b.len() && b[j] == close {
                        kind = Some(if c == '(' { k.nil } else { k.anon });
                        end = j + 1;
                    }
                }
                '_' if next == Some(':') => {
                    let st = i + 2;
                    let mut j = st;
                    let mut e = st;
                    let mut first = true;
                    for ch in s[st..].chars() {
                        if first {
                            if !varname_start(ch) {
                                break;
                            }
                        } else if ch == '.' {
                            j += 1;
                            continue;
                        } else if !pn_chars(ch) {
                            break;
                        }
                        first = false;
                        j += ch.len_utf8();
                        e = j;
                    }
                    if e > st {
                        kind = Some(k.bnode);
                        end = e;
                    }
                }
                '0'..='9' | '.' | '+' | '-' => {
                    let sgn = c == '+' || c == '-';
                    if let Some((e, kd)) = Self::number(s, if sgn { i + 1 } else { i }) {
                        let off = match c {
                            '+' => 3,
                            '-' => 6,
                            _ => 0,
                        };
                        kind = Some(k.num[kd + off]);
                        end = e;
                        if let Some(ch) = s[end..].chars().next() {
                            if pn_chars_u(ch) || extender(ch) || ch == ':' {
                                return Err(LexErr::Unspec("number glued to a name"));
                            }
                        }
                    }
                }
                _ => {}
            }
            if kind.is_none() && (c == ':' || pn_chars_base(c)) {
                // prefixed name?
                let mut j = i; // scan position
                let mut e = i; // end of candidate prefix
                for ch in s[i..].chars() {
                    if ch == '.' {
                        j += 1;
                    } else if pn_chars(ch) {
                        j += ch.len_utf8();
                        e = j;
                    } else {
                        break;
                    }
                }
                if c == ':' {
                    e = i;
                }
                if e < b.len() && b[e] == b':' && (j == e || c == ':') {
                    let le = Self::local_end(s, e + 1);
                    kind = Some(if le > e + 1 { k.pname_ln } else { k.pname_ns });
                    end = le;
                } else {
                    // keyword
                    let mut w = i;
                    while w < b.len() && (b[w].is_ascii_alphanumeric() || b[w] == b'_') {
                        w += 1;
                    }
                    let txt = &s[i..w];
                    let next_ok = !s[w..].chars().next().map_or(false, |ch| pn_chars(ch));
                    if txt == "a" && next_ok {
                        kind = Some(k.a);
                        end = w;
                    } else if let (Some(&kd), true) = (self.word.get(&txt.to_ascii_uppercase()), next_ok) {
                        // the terminal "a" is lower case in the table; 'A' is not a keyword
                        kind = Some(kd);
                        end = w;
                    } else {
                        // a longer word that starts with a keyword: tokenizers differ
                        let up = s[i..].to_ascii_uppercase();
                        if txt.starts_with('a') || self.word.keys().any(|kw| kw.len() > 1 && up.starts_with(kw.as_str())) {
                            return Err(LexErr::Unspec("glued keyword"));
                        }
                        return Err(LexErr::Invalid(i));
                    }
                }
            }
            if kind.is_none() {
                for (p, kd) in &self.punct {
                    if s[i..].starts_with(p) {
                        kind = Some(*kd);
                        end = i + p.len();
                        break;
                    }
                }
            }
            match kind {
                Some(kind) => {
                    out.push(Tok { kind, start, end });
                    i = end;
                }
                None => return Err(LexErr::Invalid(i)),
            }
        }
        Ok(())
    }
    /// two-word terminals
    fn join(&self, out: &mut Vec<Tok>) -> Result<(), LexErr> {
        let mut res: Vec<Tok> = Vec::with_capacity(out.len());
        let mut i = 0;
        while i < out.len() {
            if i + 1 < out.len() {
                let (a, b2) = (&out[i], &out[i + 1]);
                if let Some(m) = self.multi.iter().find(|m| m.0 == a.kind && m.1 == b2.kind) {
                    res.push(Tok { kind: m.2, start: a.start, end: b2.end });
                    i += 2;
                    continue;
                }
            }
            if out[i].kind == T::MAX {
                let at = out[i].start;
                *out = res;
                return Err(LexErr::Invalid(at));
            }
            res.push(out[i].clone());
            i += 1;
        }
        *out = res;
        Ok(())
    }
}
