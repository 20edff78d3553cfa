//! Runs the real parsers and the model on one text and compares them.
use crate::conv;
use crate::grammar::{Grammar, Seen, N, T};
use crate::lex::{LexErr, Lexer, Tok};
use crate::lower;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Entry {
    Query,
    Bare,
    Update,
}
pub const ENTRIES: [Entry; 3] = [Entry::Query, Entry::Bare, Entry::Update];

impl Entry {
    pub fn rule(self) -> &'static str {
        match self {
            Entry::Query => "QueryUnit",
            Entry::Bare => "BareQuery",
            Entry::Update => "UpdateUnit",
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Entry::Query => "parser::sparql_query_stmt",
            Entry::Bare => "parser::sparql_query",
            Entry::Update => "update::update",
        }
    }
    pub fn from_code(c: u8) -> Entry {
        ENTRIES[c as usize % 3]
    }
    pub fn code(self) -> u8 {
        match self {
            Entry::Query => 0,
            Entry::Bare => 1,
            Entry::Update => 2,
        }
    }
}

/// What the crate answered.
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok { tree: String, rest: usize },
    Err,
    Panic(String),
    /// the remainder is not a tail of the caller's text
    BadRest(String),
}

fn offset(text: &str, rest: &str) -> Result<usize, String> {
    let a = text.as_ptr() as usize;
    let e = a + text.len();
    let r = rest.as_ptr() as usize;
    if r + rest.len() == e && r >= a && r <= e {
        Ok(r - a)
    } else if rest.is_empty() && r >= a && r <= e {
        Err(format!("empty remainder points to byte {} of {}", r - a, text.len()))
    } else {
        Err(format!("remainder {:?} is not a tail of the input", rest))
    }
}

thread_local! {
    static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Panics of the code under test are results; panics of the harness are printed.
pub fn hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !QUIET.with(|q| q.get()) {
            old(i)
        }
    }));
}

/// Shared memory in which every thread notes the text that the crate is working on: the parent process reads it
/// when this process crashes or hangs.
pub const SLOT: usize = 1 << 18;
pub const SLOTS: usize = 24;
thread_local! {
    static BOARD: std::cell::Cell<*mut u8> = const { std::cell::Cell::new(std::ptr::null_mut()) };
}
pub fn use_slot(board: *mut u8, id: usize) {
    if !board.is_null() && id < SLOTS {
        BOARD.with(|b| b.set(unsafe { board.add(id * SLOT) }));
    }
}
/// layout of a slot: sequence number (odd while the crate works), length, entry, text
fn enter(e: Entry, text: &str) {
    let b = BOARD.with(|b| b.get());
    if !b.is_null() {
        let n = text.len().min(SLOT - 32);
        unsafe {
            std::ptr::write_volatile(b.add(8) as *mut u64, n as u64);
            *b.add(16) = e.code();
            std::ptr::copy_nonoverlapping(text.as_ptr(), b.add(32), n);
            std::sync::atomic::fence(std::sync::atomic::Ordering::SeqCst);
            let s = b as *mut u64;
            std::ptr::write_volatile(s, std::ptr::read_volatile(s) + 1);
        }
    }
    QUIET.with(|q| q.set(true));
}
fn leave() {
    QUIET.with(|q| q.set(false));
    let b = BOARD.with(|b| b.get());
    if !b.is_null() {
        unsafe {
            let s = b as *mut u64;
            std::ptr::write_volatile(s, std::ptr::read_volatile(s) + 1);
        }
    }
}

pub fn run(e: Entry, text: &str) -> Out {
    enter(e, text);
    let r = run_inner(e, text);
    leave();
    r
}
fn run_inner(e: Entry, text: &str) -> Out {
    let r = catch_unwind(AssertUnwindSafe(|| match e {
        Entry::Query => nom_sparql::parser::sparql_query_stmt(text).ok().map(|(r, q)| (r, conv::stmt(&q))),
        Entry::Bare => nom_sparql::parser::sparql_query(text).ok().map(|(r, q)| (r, conv::bare(&q))),
        Entry::Update => nom_sparql::update::update(text).ok().map(|(r, q)| (r, conv::update_top(&q))),
    }));
    match r {
        Ok(Some((rest, tree))) => match offset(text, rest) {
            Ok(rest) => Out::Ok { tree, rest },
            Err(m) => Out::BadRest(m),
        },
        Ok(None) => Out::Err,
        Err(p) => Out::Panic(
            p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(),
        ),
    }
}

/// Runs without building the canonical form (cost measurements).
pub fn run_raw(e: Entry, text: &str) -> Option<usize> {
    enter(e, text);
    let r = catch_unwind(AssertUnwindSafe(|| match e {
        Entry::Query => nom_sparql::parser::sparql_query_stmt(text).ok().map(|(r, _)| r.len()),
        Entry::Bare => nom_sparql::parser::sparql_query(text).ok().map(|(r, _)| r.len()),
        Entry::Update => nom_sparql::update::update(text).ok().map(|(r, _)| r.len()),
    }));
    leave();
    r.unwrap_or(None)
}

/// Only calls the parser and drops what it returns; the message of a panic.
pub fn run_only(e: Entry, text: &str) -> Option<String> {
    enter(e, text);
    let r = catch_unwind(AssertUnwindSafe(|| match e {
        Entry::Query => drop(nom_sparql::parser::sparql_query_stmt(text)),
        Entry::Bare => drop(nom_sparql::parser::sparql_query(text)),
        Entry::Update => drop(nom_sparql::update::update(text)),
    }));
    leave();
    r.err().map(|p| p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())
}

/// Runs `f`, which works on `text`, under supervision.
pub fn guarded<R>(e: Entry, text: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    enter(e, text);
    let r = catch_unwind(AssertUnwindSafe(f));
    leave();
    r.map_err(|p| p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())
}

/// None: accepted. Some: rejected with an error that points at a tail of the text. Err: anything else.
pub fn rejection(e: Entry, text: &str) -> Result<Option<()>, String> {
    fn look<O>(text: &str, r: nom::IResult<&str, O>) -> Result<Option<()>, String> {
        match r {
            Ok(_) => Ok(None),
            Err(nom::Err::Incomplete(n)) => Err(format!("asks for more input ({:?}) instead of rejecting", n)),
            Err(nom::Err::Error((at, _))) | Err(nom::Err::Failure((at, _))) => offset(text, at).map(|_| Some(())).map_err(|m| format!("the error does not point into the text: {}", m)),
        }
    }
    match guarded(e, text, || match e {
        Entry::Query => look(text, nom_sparql::parser::sparql_query_stmt(text)),
        Entry::Bare => look(text, nom_sparql::parser::sparql_query(text)),
        Entry::Update => look(text, nom_sparql::update::update(text)),
    }) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {}", p)),
    }
}

/// What the model says.
#[derive(Clone, Debug, PartialEq)]
pub enum Ref {
    Accept(String),
    /// index of the offending token (or None when a character starts no token)
    Reject(Option<usize>),
    Unspec(&'static str),
}

pub struct Model {
    pub g: Grammar,
    starts: [N; 3],
}
impl Model {
    pub fn new() -> Model {
        let g = Grammar::sparql();
        assert!(g.conflicts.is_empty(), "the model's grammar is not LL(1): {:?}", g.conflicts);
        let starts = [g.nt("QueryUnit"), g.nt("BareQuery"), g.nt("UpdateUnit")];
        Model { g, starts }
    }
    pub fn start(&self, e: Entry) -> N {
        self.starts[e.code() as usize]
    }
}

pub struct RefCtx<'m> {
    pub m: &'m Model,
    pub lx: Lexer<'m>,
    pub seen: Seen,
    kinds: Vec<T>,
}
impl<'m> RefCtx<'m> {
    pub fn new(m: &'m Model) -> RefCtx<'m> {
        RefCtx { m, lx: Lexer::new(&m.g), seen: Seen::default(), kinds: vec![] }
    }
    pub fn decide(&mut self, e: Entry, text: &str) -> Ref {
        let mut toks = vec![];
        let r = match self.lx.lex_into(text, &[], &mut toks) {
            Err(LexErr::Invalid(_)) => Ref::Reject(None),
            Err(LexErr::Unspec(u)) => Ref::Unspec(u),
            Ok(()) => self.decide_toks(e, text, &toks),
        };
        match r {
            Ref::Reject(_) if text.contains('<') && self.less_than(e, text, &mut toks) => Ref::Unspec("`<` in front of what reads as an IRI"),
            r => r,
        }
    }
    /// `?a<?b&&?c>?d` holds the IRI `<?b&&?c>` by the rule of the longest match, so it is no request.
    /// Is the rejected text a request when `<` is an operator wherever an IRI cannot stand?
    fn less_than(&mut self, e: Entry, text: &str, toks: &mut Vec<Tok>) -> bool {
        let mut ops = vec![];
        let mut whole = true;
        let iri = self.lx.kinds().iriref;
        loop {
            self.kinds.clear();
            self.kinds.extend(toks.iter().map(|t| t.kind));
            match self.m.g.parse(self.m.start(e), &self.kinds, &mut self.seen) {
                Ok(_) => return whole && !ops.is_empty(),
                Err(i) if i < toks.len() && toks[i].kind == iri && ops.len() < 6 => ops.push(toks[i].start),
                Err(_) => return false,
            }
            toks.clear();
            whole = match self.lx.lex_into(text, &ops, toks) {
                Ok(()) => true,
                Err(LexErr::Invalid(_)) => false,
                Err(LexErr::Unspec(_)) => return true,
            };
        }
    }
    pub fn decide_toks(&mut self, e: Entry, text: &str, toks: &[Tok]) -> Ref {
        self.kinds.clear();
        self.kinds.extend(toks.iter().map(|t| t.kind));
        match self.m.g.parse(self.m.start(e), &self.kinds, &mut self.seen) {
            Err(i) => {
                // "()" is the terminal NIL; whether "!()" is an empty negated set is left open by the grammar
                let (bang, nil) = (self.m.g.t("!"), self.m.g.t("NIL"));
                if self.kinds.windows(2).any(|w| w == [bang, nil]) {
                    Ref::Unspec("empty negated property set")
                } else {
                    Ref::Reject(Some(i))
                }
            }
            Ok(n) => match lower::lower(&self.m.g, text, toks, &n) {
                Ok(s) => Ref::Accept(s),
                Err(u) => Ref::Unspec(u),
            },
        }
    }
}

fn show(o: &Out, text: &str) -> String {
    match o {
        Out::Ok { tree, rest } => format!("Ok, remainder {:?}, tree {}", &text[*rest..], tree),
        Out::Err => "Err".into(),
        Out::Panic(m) => format!("panic: {}", m),
        Out::BadRest(m) => m.clone(),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// panic (or crash, or hang)
    Crash,
    /// the remainder is not a tail of the input
    Rest,
    /// the parser stopped inside a token
    Split,
    /// what was consumed is no sentence
    Over,
    /// a well-formed text was rejected or not consumed to its end
    Under,
    /// the tree is not the expected one
    Tree,
    /// another check of the property failed
    Own,
}

/// The verdict of the comparison; None = agreement (or nothing to compare).
pub fn compare(rc: &mut RefCtx, e: Entry, text: &str, r: &Ref, o: &Out) -> Option<(Kind, String)> {
    match (r, o) {
        (_, Out::Panic(_)) => Some((Kind::Crash, show(o, text))),
        (_, Out::BadRest(_)) => Some((Kind::Rest, show(o, text))),
        (Ref::Unspec(_), _) => None,
        (Ref::Accept(t), Out::Ok { tree, rest }) => {
            if Lexer::skip(text, *rest) != text.len() {
                Some((Kind::Under, format!("well-formed, but only {:?} is consumed, {:?} is left; expected tree {}", &text[..*rest], &text[*rest..], t)))
            } else if t != tree {
                Some((Kind::Tree, format!("wrong tree\n  expected {}\n  actual   {}", t, tree)))
            } else {
                None
            }
        }
        (Ref::Accept(t), Out::Err) => Some((Kind::Under, format!("well-formed, but rejected; expected tree {}", t))),
        (Ref::Reject(_), Out::Err) => None,
        (Ref::Reject(_), Out::Ok { tree, rest }) => {
            let used = &text[..*rest];
            let verdict = rc.decide(e, used);
            if let Ref::Unspec(_) = verdict {
                return None;
            }
            if let Ok(toks) = rc.lx.lex(text) {
                // (a number may be cut: `LIMIT 1.5` holds the query `LIMIT 1`)
                let number = |t: &Tok| text.as_bytes()[t.start..t.end].iter().all(|c| b"0123456789.eE+-".contains(c));
                if let Some(t) = toks.iter().find(|t| t.start < *rest && *rest < t.end && !number(t)) {
                    return Some((Kind::Split, format!("the parser stops inside the token {:?}: remainder {:?}; tree {}", &text[t.start..t.end], &text[*rest..], tree)));
                }
            }
            match verdict {
                Ref::Unspec(_) => None,
                Ref::Accept(t) if t == *tree => None,
                Ref::Accept(t) => Some((Kind::Tree, format!("wrong tree for the consumed part {:?}\n  expected {}\n  actual   {}", used, t, tree))),
                Ref::Reject(_) => Some((Kind::Over, format!("consumed {:?}, which is not well-formed; remainder {:?}; tree {}", used, &text[*rest..], tree))),
            }
        }
    }
}

/// A syntax tree of the crate.
#[derive(Clone, Debug, PartialEq)]
pub enum Ast {
    Q(nom_sparql::query::SparqlQueryStatement),
    B(nom_sparql::query::SparqlQuery),
    U(nom_sparql::update::Update),
}
impl Ast {
    pub fn canon(&self) -> String {
        match self {
            Ast::Q(q) => conv::stmt(q),
            Ast::B(q) => conv::bare(q),
            Ast::U(u) => conv::update_top(u),
        }
    }
}
pub fn run_ast(e: Entry, text: &str) -> Option<(usize, Ast)> {
    enter(e, text);
    let r = catch_unwind(AssertUnwindSafe(|| match e {
        Entry::Query => nom_sparql::parser::sparql_query_stmt(text).ok().map(|(r, q)| (r.len(), Ast::Q(q))),
        Entry::Bare => nom_sparql::parser::sparql_query(text).ok().map(|(r, q)| (r.len(), Ast::B(q))),
        Entry::Update => nom_sparql::update::update(text).ok().map(|(r, q)| (r.len(), Ast::U(q))),
    }));
    leave();
    r.unwrap_or(None)
}
