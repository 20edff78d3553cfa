//! Lowers a parse tree of the model to the canonical form that `conv` makes of the crate's trees.
use crate::grammar::{Grammar, Kid, Node};
use crate::lex::Tok;
use std::fmt::Write;

pub struct Low<'a> {
    g: &'a Grammar,
    src: &'a str,
    toks: &'a [Tok],
    pub unspec: Option<&'static str>,
    o: String,
}

pub fn text(o: &mut String, tag: &str, t: &str) {
    let _ = write!(o, "{}{}:{}", tag, t.len(), t);
}
pub fn opt_text(o: &mut String, t: Option<&str>) {
    match t {
        Some(t) => text(o, "", t),
        None => o.push('-'),
    }
}

/// canonical form of a statement of the model
pub fn lower(g: &Grammar, src: &str, toks: &[Tok], n: &Node) -> Result<String, &'static str> {
    let mut l = Low { g, src, toks, unspec: None, o: String::with_capacity(256) };
    match l.name(n) {
        "QueryUnit" => l.stmt(l.sub(n, "Query").unwrap()),
        "BareQuery" => l.query(n),
        "UpdateUnit" => l.update(l.sub(n, "Update").unwrap()),
        other => panic!("cannot lower {}", other),
    }
    match l.unspec {
        Some(u) => Err(u),
        None => Ok(l.o),
    }
}

impl<'a> Low<'a> {
    fn name(&self, n: &Node) -> &'a str {
        &self.g.nts[n.rule as usize]
    }
    fn sub<'n>(&self, n: &'n Node, name: &str) -> Option<&'n Node> {
        n.kids.iter().find_map(|k| match k {
            Kid::N(m) if self.name(m) == name => Some(m),
            _ => None,
        })
    }
    fn subs<'n>(&self, n: &'n Node) -> Vec<&'n Node> {
        n.kids
            .iter()
            .filter_map(|k| match k {
                Kid::N(m) => Some(m),
                _ => None,
            })
            .collect()
    }
    fn only<'n>(&self, n: &'n Node) -> &'n Node {
        let v = self.subs(n);
        assert!(!v.is_empty(), "{} has no child", self.name(n));
        v[0]
    }
    fn has(&self, n: &Node, t: &str) -> bool {
        n.kids.iter().any(|k| matches!(k, Kid::T(x, _) if self.g.terms[*x as usize] == t))
    }
    fn tok(&self, n: &Node) -> Option<(&'a str, &'a str)> {
        n.kids.iter().find_map(|k| match k {
            Kid::T(t, i) => Some((self.g.terms[*t as usize].as_str(), &self.src[self.toks[*i].start..self.toks[*i].end])),
            _ => None,
        })
    }
    fn p(&mut self, s: &str) {
        self.o.push_str(s);
    }
    fn dash_or<F: FnOnce(&mut Self, &Node)>(&mut self, n: Option<&Node>, f: F) {
        match n {
            Some(n) => f(self, n),
            None => self.p("-"),
        }
    }

    fn stmt(&mut self, n: &Node) {
        self.p("(stmt ");
        self.prologue(self.sub(n, "Prologue").unwrap());
        self.query(n);
        self.values_clause(self.sub(n, "ValuesClause").unwrap());
        self.p(")");
    }
    fn values_clause(&mut self, n: &Node) {
        let b = self.sub(n, "DataBlock");
        self.dash_or(b, |s, b| s.data_block(b));
    }
    fn prologue(&mut self, n: &Node) {
        self.p("(pro");
        for d in self.subs(n) {
            match self.name(d) {
                "BaseDecl" => {
                    self.p("(base ");
                    self.decl_iri(d);
                }
                _ => {
                    self.p("(prefix ");
                    let (_, t) = d
                        .kids
                        .iter()
                        .find_map(|k| match k {
                            Kid::T(t, i) if self.g.terms[*t as usize] == "PNAME_NS" => {
                                Some(((), &self.src[self.toks[*i].start..self.toks[*i].end]))
                            }
                            _ => None,
                        })
                        .unwrap();
                    let t = &t[..t.len() - 1];
                    opt_text(&mut self.o, if t.is_empty() { None } else { Some(t) });
                    self.decl_iri(d);
                }
            }
            self.p(")");
        }
        self.p(")");
    }
    fn decl_iri(&mut self, n: &Node) {
        for k in &n.kids {
            if let Kid::T(t, i) = k {
                if self.g.terms[*t as usize] == "IRIREF" {
                    let s = &self.src[self.toks[*i].start + 1..self.toks[*i].end - 1];
                    text(&mut self.o, "i", s);
                }
            }
        }
    }
    fn query(&mut self, n: &Node) {
        for q in self.subs(n) {
            match self.name(q) {
                "SelectQuery" => {
                    self.p("(select ");
                    self.select_clause(self.sub(q, "SelectClause").unwrap());
                    self.datasets(q);
                    self.where_clause(self.sub(q, "WhereClause").unwrap());
                    self.solmod(self.sub(q, "SolutionModifier").unwrap());
                    self.p(")");
                }
                "ConstructQuery" => {
                    if let Some(s) = self.sub(q, "ConstructShort") {
                        self.p("(cshort ");
                        self.datasets(s);
                        let t = self.sub(s, "TriplesTemplate");
                        self.dash_or(t, |x, t| x.triples_template(t));
                        self.solmod(self.sub(s, "SolutionModifier").unwrap());
                    } else {
                        self.p("(construct ");
                        self.p("(tt");
                        let mut cur = self.sub(self.sub(q, "ConstructTemplate").unwrap(), "ConstructTriples");
                        while let Some(c) = cur {
                            self.tss(self.sub(c, "TriplesSameSubject").unwrap());
                            cur = self.sub(c, "ConstructTriples");
                        }
                        self.p(")");
                        self.datasets(q);
                        self.where_clause(self.sub(q, "WhereClause").unwrap());
                        self.solmod(self.sub(q, "SolutionModifier").unwrap());
                    }
                    self.p(")");
                }
                "DescribeQuery" => {
                    self.p("(describe ");
                    if self.has(q, "*") {
                        self.p("*");
                    } else {
                        self.p("(vi");
                        for v in self.subs(q) {
                            if self.name(v) == "VarOrIri" {
                                self.var_or_iri(v);
                            }
                        }
                        self.p(")");
                    }
                    self.datasets(q);
                    let w = self.sub(q, "WhereClause");
                    self.dash_or(w, |s, w| s.where_clause(w));
                    self.solmod(self.sub(q, "SolutionModifier").unwrap());
                    self.p(")");
                }
                "AskQuery" => {
                    self.p("(ask ");
                    self.datasets(q);
                    self.where_clause(self.sub(q, "WhereClause").unwrap());
                    self.solmod(self.sub(q, "SolutionModifier").unwrap());
                    self.p(")");
                }
                _ => {}
            }
        }
    }
    fn select_clause(&mut self, n: &Node) {
        let m = if self.has(n, "DISTINCT") {
            "d "
        } else if self.has(n, "REDUCED") {
            "r "
        } else {
            "- "
        };
        self.p(m);
        if self.has(n, "*") {
            self.p("*");
        } else {
            self.p("(vars");
            for it in self.subs(n) {
                if let Some(e) = self.sub(it, "Expression") {
                    self.p("(as ");
                    self.expr(e);
                    self.var(self.sub(it, "Var").unwrap());
                    self.p(")");
                } else {
                    self.var(self.sub(it, "Var").unwrap());
                }
            }
            self.p(")");
        }
    }
    fn datasets(&mut self, n: &Node) {
        self.p("(ds");
        for d in self.subs(n) {
            if self.name(d) == "DatasetClause" {
                let c = self.only(d);
                let (tag, c) = if self.name(c) == "NamedGraphClause" { ("(named ", c) } else { ("(default ", c) };
                self.p(tag);
                self.iri(self.only(self.sub(c, "SourceSelector").unwrap()));
                self.p(")");
            }
        }
        self.p(")");
    }
    fn where_clause(&mut self, n: &Node) {
        self.ggp(self.sub(n, "GroupGraphPattern").unwrap());
    }
    fn solmod(&mut self, n: &Node) {
        self.p("(sm ");
        let c = self.sub(n, "GroupClause");
        self.dash_or(c, |s, c| {
            s.p("(g");
            for x in s.subs(c) {
                let x = s.only(x);
                match s.name(x) {
                    "BuiltInCall" => s.builtin(x),
                    "FunctionCall" => s.fcall(x),
                    "Var" => s.var(x),
                    _ => {
                        s.p("(gas ");
                        s.expr(s.sub(x, "Expression").unwrap());
                        let v = s.sub(x, "Var");
                        s.dash_or(v, |s, v| s.var(v));
                        s.p(")");
                    }
                }
            }
            s.p(")");
        });
        let c = self.sub(n, "HavingClause");
        self.dash_or(c, |s, c| {
            s.p("(h");
            for x in s.subs(c) {
                s.constraint(s.only(x));
            }
            s.p(")");
        });
        let c = self.sub(n, "OrderClause");
        self.dash_or(c, |s, c| {
            s.p("(o");
            for x in s.subs(c) {
                let x = s.only(x);
                match s.name(x) {
                    "Var" => s.var(x),
                    "Constraint" => s.constraint(x),
                    _ => {
                        let t = if s.has(x, "ASC") { "(asc " } else { "(desc " };
                        s.p(t);
                        s.expr(s.sub(s.sub(x, "BrackettedExpression").unwrap(), "Expression").unwrap());
                        s.p(")");
                    }
                }
            }
            s.p(")");
        });
        let c = self.sub(n, "LimitOffsetClauses");
        self.dash_or(c, |s, c| {
            let v = s.subs(c);
            let t = if s.name(v[0]) == "LimitClause" { "(lo " } else { "(ol " };
            s.p(t);
            s.bound(v[0]);
            match v.get(1) {
                Some(x) => s.bound(x),
                None => s.p("-"),
            }
            s.p(")");
        });
        self.p(")");
    }
    fn bound(&mut self, n: &Node) {
        let t = n
            .kids
            .iter()
            .find_map(|k| match k {
                Kid::T(t, i) if self.g.terms[*t as usize] == "INTEGER" => Some(&self.src[self.toks[*i].start..self.toks[*i].end]),
                _ => None,
            })
            .unwrap();
        match t.parse::<u64>() {
            Ok(v) => {
                let _ = write!(self.o, "{} ", v);
            }
            Err(_) => self.unspec = Some("LIMIT/OFFSET beyond u64"),
        }
    }
    fn data_block(&mut self, n: &Node) {
        let b = self.only(n);
        if self.name(b) == "InlineDataOneVar" {
            self.p("(one ");
            self.var(self.sub(b, "Var").unwrap());
            for v in self.subs(b) {
                if self.name(v) == "DataBlockValue" {
                    self.data_value(v);
                }
            }
            self.p(")");
        } else {
            self.p("(full (");
            for v in self.subs(b) {
                if self.name(v) == "Var" {
                    self.var(v);
                }
            }
            self.p(")");
            for r in self.subs(b) {
                if self.name(r) == "DataRow" {
                    self.p("(r");
                    for v in self.subs(r) {
                        self.data_value(v);
                    }
                    self.p(")");
                }
            }
            self.p(")");
        }
    }
    fn data_value(&mut self, n: &Node) {
        match self.subs(n).first() {
            None => self.p("undef "),
            Some(x) => match self.name(x) {
                "iri" => self.iri(x),
                "RDFLiteral" => self.rdf(x),
                "NumericLiteral" => self.num(x, false),
                _ => self.boolean(x),
            },
        }
    }
    fn iri(&mut self, n: &Node) {
        if let Some((_, t)) = self.tok(n) {
            text(&mut self.o, "i", &t[1..t.len() - 1]);
        } else {
            let p = self.only(n);
            let (k, t) = self.tok(p).unwrap();
            let c = t.find(':').unwrap();
            let pre = if c == 0 { None } else { Some(&t[..c]) };
            if k == "PNAME_NS" {
                self.p("n");
                opt_text(&mut self.o, pre);
            } else {
                self.p("p");
                opt_text(&mut self.o, pre);
                text(&mut self.o, "l", &t[c + 1..]);
            }
        }
    }
    fn string(&mut self, n: &Node) {
        let (k, t) = self.tok(n).unwrap();
        let q = if k.contains("LONG") { 3 } else { 1 };
        text(&mut self.o, "s", &t[q..t.len() - q]);
    }
    fn rdf(&mut self, n: &Node) {
        self.p("(lit ");
        self.string(self.sub(n, "String").unwrap());
        if let Some(i) = self.sub(n, "iri") {
            self.p("^^");
            self.iri(i);
        } else if let Some((_, t)) = self.tok(n) {
            text(&mut self.o, "@", &t[1..]);
        }
        self.p(")");
    }
    fn boolean(&mut self, n: &Node) {
        let t = if self.has(n, "TRUE") { "true " } else { "false " };
        self.p(t);
    }
    /// in `operand` position a leading sign is a unary operator
    fn num(&mut self, n: &Node, operand: bool) {
        let inner = if self.name(n) == "NumericLiteral" || self.name(n) == "SignedNumericLiteral" { self.only(n) } else { n };
        let (k, t) = self.tok(inner).unwrap();
        if operand && (t.starts_with('+') || t.starts_with('-')) {
            let tag = if t.starts_with('+') { "(u+ " } else { "(u- " };
            self.p(tag);
            self.number(k, &t[1..]);
            self.p(")");
        } else {
            self.number(k, t);
        }
    }
    fn number(&mut self, kind: &str, t: &str) {
        if kind.starts_with("INTEGER") {
            match t.parse::<i64>() {
                Ok(v) => {
                    let _ = write!(self.o, "int{} ", v);
                }
                Err(_) => self.unspec = Some("integer beyond i64"),
            }
        } else {
            let (m, e) = match t.find(|c| c == 'e' || c == 'E') {
                Some(i) => (&t[..i], Some(&t[i + 1..])),
                None => (t, None),
            };
            let f: f64 = m.parse().unwrap();
            let _ = write!(self.o, "dbl{:x}", f.to_bits());
            match e {
                Some(e) => match e.parse::<i64>() {
                    Ok(v) => {
                        let _ = write!(self.o, "e{} ", v);
                    }
                    Err(_) => self.unspec = Some("exponent beyond i64"),
                },
                None => self.p(" "),
            }
        }
    }
    fn var(&mut self, n: &Node) {
        let (k, t) = self.tok(n).unwrap();
        text(&mut self.o, if k == "VAR1" { "?" } else { "$" }, &t[1..]);
    }
    fn var_or_iri(&mut self, n: &Node) {
        let x = self.only(n);
        if self.name(x) == "Var" {
            self.var(x)
        } else {
            self.iri(x)
        }
    }
    fn var_or_term(&mut self, n: &Node) {
        let x = self.only(n);
        if self.name(x) == "Var" {
            return self.var(x);
        }
        match self.subs(x).first() {
            None => self.p("nil "),
            Some(y) => match self.name(y) {
                "iri" => self.iri(y),
                "RDFLiteral" => self.rdf(y),
                "NumericLiteral" => self.num(y, false),
                "BooleanLiteral" => self.boolean(y),
                _ => {
                    let (k, t) = self.tok(y).unwrap();
                    if k == "ANON" {
                        self.p("anon ")
                    } else {
                        text(&mut self.o, "_", &t[2..])
                    }
                }
            },
        }
    }

    // ---- patterns
    fn ggp(&mut self, n: &Node) {
        let x = self.only(n);
        if self.name(x) == "SubSelect" {
            self.p("(sub ");
            self.select_clause(self.sub(x, "SelectClause").unwrap());
            self.where_clause(self.sub(x, "WhereClause").unwrap());
            self.solmod(self.sub(x, "SolutionModifier").unwrap());
            self.values_clause(self.sub(x, "ValuesClause").unwrap());
            self.p(")");
            return;
        }
        self.p("(ggp ");
        let tb = self.sub(x, "TriplesBlock");
        self.dash_or(tb, |s, t| s.triples_block(t));
        for e in self.subs(x) {
            if self.name(e) == "GroupEntry" {
                self.p("(e ");
                self.pattern(self.only(self.sub(e, "GraphPatternNotTriples").unwrap()));
                let tb = self.sub(e, "TriplesBlock");
                self.dash_or(tb, |s, t| s.triples_block(t));
                self.p(")");
            }
        }
        self.p(")");
    }
    fn pattern(&mut self, n: &Node) {
        match self.name(n) {
            "GroupOrUnionGraphPattern" => {
                self.p("(union");
                for g in self.subs(n) {
                    self.ggp(g);
                }
            }
            "OptionalGraphPattern" => {
                self.p("(optional ");
                self.ggp(self.only(n));
            }
            "MinusGraphPattern" => {
                self.p("(minus ");
                self.ggp(self.only(n));
            }
            "GraphGraphPattern" => {
                self.p("(graph ");
                self.var_or_iri(self.sub(n, "VarOrIri").unwrap());
                self.ggp(self.sub(n, "GroupGraphPattern").unwrap());
            }
            "ServiceGraphPattern" => {
                let t = if self.has(n, "SILENT") { "(service s " } else { "(service - " };
                self.p(t);
                self.var_or_iri(self.sub(n, "VarOrIri").unwrap());
                self.ggp(self.sub(n, "GroupGraphPattern").unwrap());
            }
            "Filter" => {
                self.p("(filter ");
                self.constraint(self.only(n));
            }
            "Bind" => {
                self.p("(bind ");
                self.expr(self.sub(n, "Expression").unwrap());
                self.var(self.sub(n, "Var").unwrap());
            }
            "InlineData" => {
                self.p("(data ");
                self.data_block(self.only(n));
            }
            x => panic!("pattern {}", x),
        }
        self.p(")");
    }
    fn triples_block(&mut self, n: &Node) {
        self.p("(tb");
        let mut cur = Some(n);
        while let Some(c) = cur {
            let t = self.sub(c, "TriplesSameSubjectPath").unwrap();
            if let Some(v) = self.sub(t, "VarOrTerm") {
                self.p("(t ");
                self.var_or_term(v);
                self.plp(self.sub(t, "PropertyListPathNotEmpty").unwrap());
            } else {
                self.p("(n ");
                self.triples_node(self.sub(t, "TriplesNodePath").unwrap());
                let p = self.sub(self.sub(t, "PropertyListPath").unwrap(), "PropertyListPathNotEmpty");
                self.dash_or(p, |s, p| s.plp(p));
            }
            self.p(")");
            cur = self.sub(c, "TriplesBlock");
        }
        self.p(")");
    }
    fn plp(&mut self, n: &Node) {
        self.p("(pl");
        let v = self.subs(n);
        self.p("(v ");
        self.verb_path(v[0]);
        for o in self.subs(v[1]) {
            self.graph_node(o);
        }
        self.p(")");
        for e in &v[2..] {
            self.p("(v ");
            self.verb_path(self.sub(e, "VerbPathOrSimple").unwrap());
            for o in self.subs(self.sub(e, "ObjectList").unwrap()) {
                self.graph_node(o);
            }
            self.p(")");
        }
        self.p(")");
    }
    fn verb_path(&mut self, n: &Node) {
        let x = self.only(n);
        if self.name(x) == "Var" {
            self.p("simple");
            self.var(x);
        } else {
            self.p("path");
            self.path(x);
        }
    }
    fn graph_node(&mut self, n: &Node) {
        let x = self.only(n);
        if self.name(x) == "VarOrTerm" {
            self.var_or_term(x)
        } else {
            self.triples_node(x)
        }
    }
    fn triples_node(&mut self, n: &Node) {
        let x = self.only(n);
        match self.name(x) {
            "Collection" | "CollectionPath" => {
                self.p("(coll");
                for o in self.subs(x) {
                    self.graph_node(o);
                }
            }
            "BlankNodePropertyList" => {
                self.p("(bn ");
                self.pl(self.only(x));
            }
            _ => {
                self.p("(bn ");
                self.plp(self.only(x));
            }
        }
        self.p(")");
    }
    fn pl(&mut self, n: &Node) {
        self.p("(pl");
        for v in self.subs(n) {
            self.p("(v ");
            let verb = self.sub(v, "Verb").unwrap();
            match self.sub(verb, "VarOrIri") {
                Some(x) => self.var_or_iri(x),
                None => self.p("A "),
            }
            for o in self.subs(self.sub(v, "ObjectList").unwrap()) {
                self.graph_node(o);
            }
            self.p(")");
        }
        self.p(")");
    }
    fn tss(&mut self, n: &Node) {
        if let Some(v) = self.sub(n, "VarOrTerm") {
            self.p("(t ");
            self.var_or_term(v);
            self.pl(self.sub(n, "PropertyListNotEmpty").unwrap());
        } else {
            self.p("(n ");
            self.triples_node(self.sub(n, "TriplesNode").unwrap());
            let p = self.sub(self.sub(n, "PropertyList").unwrap(), "PropertyListNotEmpty");
            self.dash_or(p, |s, p| s.pl(p));
        }
        self.p(")");
    }
    fn triples_template(&mut self, n: &Node) {
        self.p("(tt");
        let mut cur = Some(n);
        while let Some(c) = cur {
            self.tss(self.sub(c, "TriplesSameSubject").unwrap());
            cur = self.sub(c, "TriplesTemplate");
        }
        self.p(")");
    }
    fn path(&mut self, n: &Node) {
        // Path or PathAlternative
        let n = if self.name(n) == "Path" { self.only(n) } else { n };
        let seqs = self.subs(n);
        let many = seqs.len() > 1;
        if many {
            self.p("(alt");
        }
        for s in seqs {
            let elts = self.subs(s);
            let many = elts.len() > 1;
            if many {
                self.p("(seq");
            }
            for e in elts {
                let inv = self.has(e, "^");
                if inv {
                    self.p("(inv ");
                }
                let elt = self.sub(e, "PathElt").unwrap();
                let m = self.sub(elt, "PathMod").map(|m| self.tok(m).unwrap().1);
                if let Some(m) = m {
                    self.p("(mod");
                    self.p(m);
                }
                self.path_primary(self.sub(elt, "PathPrimary").unwrap());
                if m.is_some() {
                    self.p(")");
                }
                if inv {
                    self.p(")");
                }
            }
            if many {
                self.p(")");
            }
        }
        if many {
            self.p(")");
        }
    }
    fn path_primary(&mut self, n: &Node) {
        if let Some(i) = self.sub(n, "iri") {
            self.iri(i)
        } else if let Some(p) = self.sub(n, "Path") {
            self.p("(paren ");
            self.path(p);
            self.p(")");
        } else if let Some(s) = self.sub(n, "PathNegatedPropertySet") {
            self.p("(neg");
            for x in self.subs(s) {
                if self.has(x, "^") {
                    self.p("^");
                    self.iri_or_a(self.sub(x, "IriOrA").unwrap());
                } else {
                    self.iri_or_a(x);
                }
            }
            self.p(")");
        } else {
            self.p("A ");
        }
    }
    fn iri_or_a(&mut self, n: &Node) {
        match self.sub(n, "iri") {
            Some(i) => self.iri(i),
            None => self.p("A "),
        }
    }

    // ---- expressions
    fn constraint(&mut self, n: &Node) {
        let x = self.only(n);
        match self.name(x) {
            "BrackettedExpression" => {
                self.p("(br ");
                self.expr(self.only(x));
                self.p(")");
            }
            "BuiltInCall" => self.builtin(x),
            _ => self.fcall(x),
        }
    }
    fn fcall(&mut self, n: &Node) {
        self.p("(call ");
        self.iri(self.sub(n, "iri").unwrap());
        self.args(self.sub(n, "ArgList").unwrap());
        self.p(")");
    }
    fn args(&mut self, n: &Node) {
        if self.has(n, "NIL") {
            return self.p("nil ");
        }
        let t = if self.has(n, "DISTINCT") { "(args d " } else { "(args - " };
        self.p(t);
        for e in self.subs(n) {
            self.expr(e);
        }
        self.p(")");
    }
    fn elist(&mut self, n: &Node) {
        if self.has(n, "NIL") {
            return self.p("nil ");
        }
        self.p("(list ");
        for e in self.subs(n) {
            self.expr(e);
        }
        self.p(")");
    }
    fn expr(&mut self, n: &Node) {
        let ands = self.subs(n);
        if ands.len() > 1 {
            self.p("(or ");
        }
        for a in &ands {
            let rels = self.subs(a);
            if rels.len() > 1 {
                self.p("(and ");
            }
            for r in &rels {
                match self.sub(r, "RelTail") {
                    None => self.additive(self.only(r)),
                    Some(t) => {
                        let op = if self.has(t, "NOT") { "NOTIN" } else { self.tok(t).unwrap().0 };
                        self.p("(");
                        self.p(op);
                        self.p(" ");
                        self.additive(self.only(r));
                        let x = self.only(t);
                        if self.name(x) == "ExpressionList" {
                            self.elist(x)
                        } else {
                            self.additive(x)
                        }
                        self.p(")");
                    }
                }
            }
            if rels.len() > 1 {
                self.p(")");
            }
        }
        if ands.len() > 1 {
            self.p(")");
        }
    }
    fn additive(&mut self, n: &Node) {
        let v = self.subs(n);
        if v.len() > 1 {
            self.p("(add ");
        }
        self.mul(v[0]);
        for t in &v[1..] {
            if let Some(s) = self.sub(t, "SignedNumericLiteral") {
                self.p("(num ");
                self.num(s, false);
                for m in self.subs(t) {
                    if self.name(m) == "MulTail" {
                        self.mul_tail(m);
                    }
                }
                self.p(")");
            } else {
                let op = self.tok(t).unwrap().0;
                self.p("(");
                self.p(op);
                self.p(" ");
                self.mul(self.only(t));
                self.p(")");
            }
        }
        if v.len() > 1 {
            self.p(")");
        }
    }
    fn mul(&mut self, n: &Node) {
        let v = self.subs(n);
        if v.len() > 1 {
            self.p("(mul ");
        }
        self.unary(v[0]);
        for t in &v[1..] {
            self.mul_tail(t);
        }
        if v.len() > 1 {
            self.p(")");
        }
    }
    fn mul_tail(&mut self, n: &Node) {
        let op = self.tok(n).unwrap().0;
        self.p("(");
        self.p(op);
        self.p(" ");
        self.unary(self.only(n));
        self.p(")");
    }
    fn unary(&mut self, n: &Node) {
        let x = self.only(n);
        match self.tok(n) {
            Some((op, _)) => {
                self.p("(u");
                self.p(op);
                self.p(" ");
                self.primary(x, false);
                self.p(")");
            }
            None => self.primary(x, true),
        }
    }
    fn primary(&mut self, n: &Node, operand: bool) {
        let x = self.only(n);
        match self.name(x) {
            "BrackettedExpression" => {
                self.p("(br ");
                self.expr(self.only(x));
                self.p(")");
            }
            "BuiltInCall" => self.builtin(x),
            "IriOrFunction" => {
                self.p("(iof ");
                self.iri(self.sub(x, "iri").unwrap());
                let a = self.sub(x, "ArgList");
                self.dash_or(a, |s, a| s.args(a));
                self.p(")");
            }
            "RDFLiteral" => self.rdf(x),
            "NumericLiteral" => self.num(x, operand),
            "BooleanLiteral" => self.boolean(x),
            "Var" => self.var(x),
            y => panic!("primary {}", y),
        }
    }
    fn distinct(&mut self, n: &Node) {
        let t = if self.has(n, "DISTINCT") { "d " } else { "- " };
        self.p(t);
    }
    fn builtin(&mut self, n: &Node) {
        let x = match self.subs(n).first() {
            Some(x) => *x,
            None => panic!("builtin"),
        };
        self.p("(");
        match self.name(x) {
            "Aggregate" => {
                let a = self.only(x);
                let f = self.tok(a).unwrap().0;
                self.p(f);
                self.p(" ");
                self.distinct(a);
                if self.has(a, "*") {
                    self.p("*");
                } else {
                    self.expr(self.sub(a, "Expression").unwrap());
                }
                if self.name(a) == "GroupConcat" {
                    let s = self.sub(a, "String");
                    self.dash_or(s, |l, s| l.string(s));
                }
            }
            "Fn0" | "Fn1" | "Fn2" | "RegexExpression" | "SubstringExpression" | "StrReplaceExpression" => {
                let f = self.tok(x).unwrap().0;
                self.p(f);
                self.p(" ");
                for e in self.subs(x) {
                    self.expr(e);
                }
            }
            "ExistsFunc" => {
                self.p("EXISTS ");
                self.ggp(self.only(x));
            }
            "NotExistsFunc" => {
                self.p("NOTEXISTS ");
                self.ggp(self.only(x));
            }
            _ => {
                let f = self.tok(n).unwrap().0;
                self.p(f);
                self.p(" ");
                for y in self.subs(n) {
                    match self.name(y) {
                        "Var" => self.var(y),
                        "ExpressionList" => self.elist(y),
                        "BnodeArgs" => {
                            if let Some(e) = self.sub(y, "Expression") {
                                self.expr(e)
                            }
                        }
                        "Expression" => self.expr(y),
                        z => panic!("builtin arg {}", z),
                    }
                }
            }
        }
        self.p(")");
    }

    // ---- updates
    fn update(&mut self, n: &Node) {
        self.p("(upd ");
        self.prologue(self.sub(n, "Prologue").unwrap());
        match self.sub(n, "Update1") {
            None => self.p("-"),
            Some(u) => self.update1(self.only(u)),
        }
        match self.sub(n, "UpdateTail") {
            None => self.p("-"),
            Some(t) => self.update(self.only(t)),
        }
        self.p(")");
    }
    fn silent(&mut self, n: &Node) {
        let t = if self.has(n, "SILENT") { "s " } else { "- " };
        self.p(t);
    }
    fn graph_ref_all(&mut self, n: &Node) {
        match self.sub(n, "GraphRef") {
            Some(g) => self.iri(self.only(g)),
            None => {
                let t = self.tok(n).unwrap().0;
                self.p(t);
            }
        }
    }
    fn graph_or_default(&mut self, n: &Node) {
        match self.sub(n, "iri") {
            Some(i) => self.iri(i),
            None => self.p("DEFAULT"),
        }
    }
    fn update1(&mut self, n: &Node) {
        self.p("(");
        match self.name(n) {
            "Load" => {
                self.p("load ");
                self.silent(n);
                self.iri(self.sub(n, "iri").unwrap());
                let r = self.sub(n, "GraphRef");
                self.dash_or(r, |s, r| s.iri(s.only(r)));
            }
            k @ ("Clear" | "Drop") => {
                self.p(if k == "Clear" { "clear " } else { "drop " });
                self.silent(n);
                self.graph_ref_all(self.only(n));
            }
            "Create" => {
                self.p("create ");
                self.silent(n);
                self.iri(self.only(self.only(n)));
            }
            k @ ("Add" | "Move" | "Copy") => {
                self.p(match k {
                    "Add" => "add ",
                    "Move" => "move ",
                    _ => "copy ",
                });
                self.silent(n);
                let v = self.subs(n);
                self.graph_or_default(v[0]);
                self.p(" ");
                self.graph_or_default(v[1]);
            }
            "InsertData" => {
                self.p("insertdata ");
                self.quads(self.only(n));
            }
            "DeleteData" => {
                self.p("deletedata ");
                self.quads(self.only(n));
            }
            "DeleteWhere" => {
                self.p("deletewhere ");
                self.quads(self.only(n));
            }
            "Modify" => {
                self.p("modify ");
                let w = self.sub(n, "WithClause");
                self.dash_or(w, |s, w| s.iri(s.only(w)));
                match self.sub(n, "DeleteClause") {
                    Some(d) => {
                        self.p("(di ");
                        self.quads(self.only(d));
                        let i = self.sub(n, "InsertClause");
                        self.dash_or(i, |s, i| s.quads(s.only(i)));
                    }
                    None => {
                        self.p("(i ");
                        self.quads(self.only(self.sub(n, "InsertClause").unwrap()));
                    }
                }
                self.p(")(ds");
                for u in self.subs(n) {
                    if self.name(u) == "UsingClause" {
                        let c = self.only(u);
                        if self.name(c) == "NamedIri" {
                            self.p("(named ");
                            self.iri(self.only(c));
                        } else {
                            self.p("(default ");
                            self.iri(c);
                        }
                        self.p(")");
                    }
                }
                self.p(")");
                self.ggp(self.sub(n, "GroupGraphPattern").unwrap());
            }
            x => panic!("update {}", x),
        }
        self.p(")");
    }
    fn quads(&mut self, n: &Node) {
        // QuadPattern or QuadData
        let q = self.only(n);
        self.p("(quads ");
        let t = self.sub(q, "TriplesTemplate");
        self.dash_or(t, |s, t| s.triples_template(t));
        for e in self.subs(q) {
            if self.name(e) == "QuadsEntry" {
                let g = self.sub(e, "QuadsNotTriples").unwrap();
                self.p("(q ");
                self.var_or_iri(self.sub(g, "VarOrIri").unwrap());
                let t = self.sub(g, "TriplesTemplate");
                self.dash_or(t, |s, t| s.triples_template(t));
                let t = self.sub(e, "TriplesTemplate");
                self.dash_or(t, |s, t| s.triples_template(t));
                self.p(")");
            }
        }
        self.p(")");
    }
}
