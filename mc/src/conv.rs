//! Canonical form of the crate's syntax trees; must agree, byte for byte, with `lower` on the model side.
//! Only fields and variants are read, so that this file keeps compiling when the parsers are rewritten.
use crate::lower::{opt_text, text};
use nom_sparql::aggregate::*;
use nom_sparql::arithmetic::*;
use nom_sparql::call::*;
use nom_sparql::clauses::*;
use nom_sparql::data::*;
use nom_sparql::expression::functions::*;
use nom_sparql::expression::iri::*;
use nom_sparql::expression::*;
use nom_sparql::graph::*;
use nom_sparql::group::*;
use nom_sparql::literal::*;
use nom_sparql::node::*;
use nom_sparql::operations::*;
use nom_sparql::order::*;
use nom_sparql::path::*;
use nom_sparql::prologue::*;
use nom_sparql::quads::*;
use nom_sparql::query::construct::*;
use nom_sparql::query::select::*;
use nom_sparql::query::*;
use nom_sparql::triple::*;
use nom_sparql::update::*;
use nom_sparql::var::*;
use std::fmt::Write;

type O = String;

macro_rules! dash {
    ($o:expr, $v:expr, $f:expr) => {
        match $v {
            Some(x) => $f($o, x),
            None => $o.push('-'),
        }
    };
}

pub fn stmt(q: &SparqlQueryStatement) -> String {
    let mut s = String::with_capacity(256);
    let o = &mut s;
    o.push_str("(stmt ");
    prologue(o, &q.prologue);
    query(o, &q.query);
    dash!(o, &q.values, data_block);
    o.push(')');
    s
}
pub fn bare(q: &SparqlQuery) -> String {
    let mut s = String::with_capacity(256);
    query(&mut s, q);
    s
}
pub fn update_top(u: &Update) -> String {
    let mut s = String::with_capacity(256);
    update(&mut s, u);
    s
}

fn prologue(o: &mut O, p: &Prologue) {
    o.push_str("(pro");
    for d in &p.0 {
        match d {
            BaseOrPrefixDecl::Base(b) => {
                o.push_str("(base ");
                text(o, "i", b);
            }
            BaseOrPrefixDecl::Prefix(p) => {
                o.push_str("(prefix ");
                opt_text(o, p.pname_ns.as_ref().map(|s| s.as_str()));
                text(o, "i", &p.iri_ref);
            }
        }
        o.push(')');
    }
    o.push(')');
}
fn query(o: &mut O, q: &SparqlQuery) {
    match q {
        SparqlQuery::Select(s) => {
            o.push_str("(select ");
            select_clause(o, &s.select_clause);
            datasets(o, &s.dataset_clauses);
            ggp(o, &s.where_clause);
            solmod(o, &s.solution_modifier);
        }
        SparqlQuery::Construct(ConstructQuery::SubConstruct(c)) => {
            o.push_str("(construct (tt");
            for t in &c.construct_template.0 {
                tss(o, t);
            }
            o.push(')');
            datasets(o, &c.dataset_clauses);
            ggp(o, &c.where_clause);
            solmod(o, &c.solution_modifier);
        }
        SparqlQuery::Construct(ConstructQuery::SubTriples(c)) => {
            o.push_str("(cshort ");
            datasets(o, &c.dataset_clauses);
            dash!(o, &c.triples_template, template);
            solmod(o, &c.solution_modifier);
        }
        SparqlQuery::Describe(d) => {
            o.push_str("(describe ");
            match &d.var_or_iris_or_all {
                VarOrIrisOrAll::All => o.push('*'),
                VarOrIrisOrAll::VarIri(v) => {
                    o.push_str("(vi");
                    for x in v {
                        var_or_iri(o, x);
                    }
                    o.push(')');
                }
            }
            datasets(o, &d.dataset_clauses);
            dash!(o, &d.where_clause, ggp);
            solmod(o, &d.solution_modifier);
        }
        SparqlQuery::Ask(a) => {
            o.push_str("(ask ");
            datasets(o, &a.dataset_clauses);
            ggp(o, &a.where_clause);
            solmod(o, &a.solution_modifier);
        }
    }
    o.push(')');
}
fn select_clause(o: &mut O, s: &SelectClause) {
    o.push_str(match s.modifier {
        None => "- ",
        Some(SelectModifier::Distinct) => "d ",
        Some(SelectModifier::Reduced) => "r ",
    });
    match &s.vars {
        SelectVars::All => o.push('*'),
        SelectVars::VarOrExpressionAsVar(v) => {
            o.push_str("(vars");
            for x in v {
                match x {
                    VarOrExpressionAsVar::Var(v) => var(o, v),
                    VarOrExpressionAsVar::ExpressionAsVar(e) => {
                        o.push_str("(as ");
                        expr(o, &e.expression);
                        var(o, &e.var);
                        o.push(')');
                    }
                }
            }
            o.push(')');
        }
    }
}
fn datasets(o: &mut O, v: &[DefaultOrNamedIri]) {
    o.push_str("(ds");
    for d in v {
        match d {
            DefaultOrNamedIri::Default(i) => {
                o.push_str("(default ");
                iri(o, i);
            }
            DefaultOrNamedIri::Named(i) => {
                o.push_str("(named ");
                iri(o, i);
            }
        }
        o.push(')');
    }
    o.push(')');
}
fn solmod(o: &mut O, s: &SolutionModifier) {
    o.push_str("(sm ");
    dash!(o, &s.group_by, |o: &mut O, g: &GroupClause| {
        o.push_str("(g");
        for c in &g.0 {
            match c {
                GroupCondition::BuiltInCall(b) => builtin(o, b),
                GroupCondition::FunctionCall(f) => fcall(o, f),
                GroupCondition::Var(v) => var(o, v),
                GroupCondition::ExpressionAsVarOpt(e) => {
                    o.push_str("(gas ");
                    expr(o, &e.expression);
                    dash!(o, &e.var, var);
                    o.push(')');
                }
            }
        }
        o.push(')');
    });
    dash!(o, &s.having, |o: &mut O, h: &HavingClause| {
        o.push_str("(h");
        for c in &h.0 {
            constraint(o, c);
        }
        o.push(')');
    });
    dash!(o, &s.order_by, |o: &mut O, h: &OrderClause| {
        o.push_str("(o");
        for c in &h.0 {
            match c {
                OrderCondition::Order(x) => {
                    o.push_str(match x.order {
                        Order::Asc => "(asc ",
                        Order::Desc => "(desc ",
                    });
                    expr(o, &x.expression);
                    o.push(')');
                }
                OrderCondition::Constraint(c) => constraint(o, c),
                OrderCondition::Var(v) => var(o, v),
            }
        }
        o.push(')');
    });
    dash!(o, &s.limit_offset, |o: &mut O, l: &LimitOffsetClause| {
        let (t, a, b) = match l {
            LimitOffsetClause::LimitOffset { limit, offset } => ("(lo ", limit, offset),
            LimitOffsetClause::OffsetLimit { offset, limit } => ("(ol ", offset, limit),
        };
        o.push_str(t);
        let _ = write!(o, "{} ", a);
        dash!(o, b, |o: &mut O, b: &u64| {
            let _ = write!(o, "{} ", b);
        });
        o.push(')');
    });
    o.push(')');
}
fn data_block(o: &mut O, d: &DataBlock) {
    match d {
        DataBlock::InlineDataOneVar(d) => {
            o.push_str("(one ");
            var(o, &d.var);
            for v in &d.values {
                data_value(o, v);
            }
        }
        DataBlock::InlineDataFull(d) => {
            o.push_str("(full (");
            for v in &d.vars {
                var(o, v);
            }
            o.push(')');
            for r in &d.data_block_values {
                o.push_str("(r");
                for v in r {
                    data_value(o, v);
                }
                o.push(')');
            }
        }
    }
    o.push(')');
}
fn data_value(o: &mut O, v: &DataBlockValue) {
    match v {
        DataBlockValue::Iri(i) => iri(o, i),
        DataBlockValue::RdfLiteral(l) => rdf(o, l),
        DataBlockValue::NumericLiteral(n) => num(o, n),
        DataBlockValue::BooleanLiteral(b) => boolean(o, *b),
        DataBlockValue::UnDef => o.push_str("undef "),
    }
}
fn iri(o: &mut O, i: &Iri) {
    match i {
        Iri::Iri(s) => text(o, "i", s),
        Iri::PrefixedName(PrefixedName::PnameLN { pn_prefix, pn_local }) => {
            o.push('p');
            opt_text(o, pn_prefix.as_ref().map(|s| s.as_str()));
            text(o, "l", pn_local);
        }
        Iri::PrefixedName(PrefixedName::PnameNS(p)) => {
            o.push('n');
            opt_text(o, p.as_ref().map(|s| s.as_str()));
        }
    }
}
fn rdf(o: &mut O, l: &RdfLiteral) {
    o.push_str("(lit ");
    text(o, "s", &l.literal);
    match &l.descriptor {
        None => {}
        Some(RdfLiteralDescriptor::IriRef(i)) => {
            o.push_str("^^");
            iri(o, i);
        }
        Some(RdfLiteralDescriptor::LangTag(t)) => text(o, "@", t),
    }
    o.push(')');
}
fn boolean(o: &mut O, b: bool) {
    o.push_str(if b { "true " } else { "false " });
}
fn num(o: &mut O, n: &NumericLiteral) {
    match n {
        NumericLiteral::Int(i) => {
            let _ = write!(o, "int{} ", i);
        }
        NumericLiteral::Double((f, e)) => {
            let _ = write!(o, "dbl{:x}", f.to_bits());
            match e {
                Some(e) => {
                    let _ = write!(o, "e{} ", e);
                }
                None => o.push(' '),
            }
        }
    }
}
fn var(o: &mut O, v: &Var) {
    match v {
        Var::QMark(s) => text(o, "?", s),
        Var::Dollar(s) => text(o, "$", s),
    }
}
fn var_or_iri(o: &mut O, v: &VarOrIri) {
    match v {
        VarOrIri::Var(v) => var(o, v),
        VarOrIri::Iri(i) => iri(o, i),
    }
}
fn var_or_term(o: &mut O, v: &VarOrTerm) {
    match v {
        VarOrTerm::Var(v) => var(o, v),
        VarOrTerm::Term(t) => match t {
            GraphTerm::Iri(i) => iri(o, i),
            GraphTerm::RdfLiteral(l) => rdf(o, l),
            GraphTerm::NumericLiteral(n) => num(o, n),
            GraphTerm::BooleanLiteral(b) => boolean(o, *b),
            GraphTerm::BlankNode(BlankNode::Anon) => o.push_str("anon "),
            GraphTerm::BlankNode(BlankNode::Label(l)) => text(o, "_", l),
            GraphTerm::Nil => o.push_str("nil "),
        },
    }
}

// ---- patterns
fn ggp(o: &mut O, g: &GroupGraphPattern) {
    match g {
        GroupGraphPattern::SubSelect(s) => {
            o.push_str("(sub ");
            select_clause(o, &s.select_clause);
            ggp(o, &s.where_clause);
            solmod(o, &s.solution_modifier);
            dash!(o, &s.values_clause, data_block);
        }
        GroupGraphPattern::GroupGraphPatternSub(s) => {
            o.push_str("(ggp ");
            dash!(o, &s.triples_block, tblock);
            for e in &s.graph_pattern_and_triples {
                o.push_str("(e ");
                pattern(o, &e.graph_pattern);
                dash!(o, &e.triples, tblock);
                o.push(')');
            }
        }
    }
    o.push(')');
}
fn pattern(o: &mut O, p: &GraphPatternNotTriples) {
    match p {
        GraphPatternNotTriples::GroupOrUnion(u) => {
            o.push_str("(union");
            for g in &u.0 {
                ggp(o, g);
            }
        }
        GraphPatternNotTriples::Optional(g) => {
            o.push_str("(optional ");
            ggp(o, g);
        }
        GraphPatternNotTriples::Minus(g) => {
            o.push_str("(minus ");
            ggp(o, g);
        }
        GraphPatternNotTriples::Graph(g) => {
            o.push_str("(graph ");
            var_or_iri(o, &g.var_or_iri);
            ggp(o, &g.graph_pattern);
        }
        GraphPatternNotTriples::Service(g) => {
            o.push_str(if g.silent { "(service s " } else { "(service - " });
            var_or_iri(o, &g.var_or_iri);
            ggp(o, &g.graph_pattern);
        }
        GraphPatternNotTriples::Filter(c) => {
            o.push_str("(filter ");
            constraint(o, c);
        }
        GraphPatternNotTriples::Bind(b) => {
            o.push_str("(bind ");
            expr(o, &b.expression);
            var(o, &b.var);
        }
        GraphPatternNotTriples::InlineData(d) => {
            o.push_str("(data ");
            data_block(o, d);
        }
    }
    o.push(')');
}
fn tblock(o: &mut O, t: &TriplesBlock) {
    o.push_str("(tb");
    for t in &t.0 {
        match t {
            TriplesSameSubjectPath::Term { var_or_term: v, property_list: p } => {
                o.push_str("(t ");
                var_or_term(o, v);
                plp(o, p);
            }
            TriplesSameSubjectPath::Node { triples_node: n, property_list: p } => {
                o.push_str("(n ");
                tnode_path(o, n);
                dash!(o, p, plp);
            }
        }
        o.push(')');
    }
    o.push(')');
}
fn plp(o: &mut O, p: &PropertyListPath) {
    o.push_str("(pl(v ");
    verb_path(o, &p.verb_path_or_simple);
    for g in &p.object_list_path.0 {
        node_path(o, g);
    }
    o.push(')');
    for e in &p.entries {
        o.push_str("(v ");
        verb_path(o, &e.verb_path_or_simple);
        for g in &e.object_list.0 {
            node(o, g);
        }
        o.push(')');
    }
    o.push(')');
}
fn verb_path(o: &mut O, v: &VerbPathOrSimple) {
    match v {
        VerbPathOrSimple::Simple(v) => {
            o.push_str("simple");
            var(o, v);
        }
        VerbPathOrSimple::Path(p) => {
            o.push_str("path");
            path(o, p);
        }
    }
}
fn node_path(o: &mut O, n: &GraphNodePath) {
    match n {
        GraphNodePath::VarOrTerm(v) => var_or_term(o, v),
        GraphNodePath::TriplesNodePath(t) => tnode_path(o, t),
    }
}
fn tnode_path(o: &mut O, n: &TriplesNodePath) {
    match n {
        TriplesNodePath::CollectionPath(v) => {
            o.push_str("(coll");
            for g in v {
                node_path(o, g);
            }
        }
        TriplesNodePath::BlankNodePropertyListPath(p) => {
            o.push_str("(bn ");
            plp(o, p);
        }
    }
    o.push(')');
}
fn node(o: &mut O, n: &GraphNode) {
    match n {
        GraphNode::VarOrTerm(v) => var_or_term(o, v),
        GraphNode::TriplesNode(t) => tnode(o, t),
    }
}
fn tnode(o: &mut O, n: &TriplesNode) {
    match n {
        TriplesNode::Collection(c) => {
            o.push_str("(coll");
            for g in &c.0 {
                node(o, g);
            }
        }
        TriplesNode::BlankNodePropertyList(p) => {
            o.push_str("(bn ");
            pl(o, p);
        }
    }
    o.push(')');
}
fn pl(o: &mut O, p: &PropertyList) {
    o.push_str("(pl");
    for v in &p.0 {
        o.push_str("(v ");
        match &v.verb {
            Verb::A => o.push_str("A "),
            Verb::VarOrIri(v) => var_or_iri(o, v),
        }
        for g in &v.object_list.0 {
            node(o, g);
        }
        o.push(')');
    }
    o.push(')');
}
fn tss(o: &mut O, t: &TriplesSameSubject) {
    match t {
        TriplesSameSubject::Term { var_or_term: v, property_list: p } => {
            o.push_str("(t ");
            var_or_term(o, v);
            pl(o, p);
        }
        TriplesSameSubject::Node { triples_node: n, property_list: p } => {
            o.push_str("(n ");
            tnode(o, n);
            dash!(o, p, pl);
        }
    }
    o.push(')');
}
#[allow(clippy::ptr_arg)]
fn template(o: &mut O, t: &TriplesTemplate) {
    o.push_str("(tt");
    for x in t {
        tss(o, x);
    }
    o.push(')');
}
fn path(o: &mut O, p: &PathAlternative) {
    if p.0.len() != 1 {
        o.push_str("(alt");
    }
    for s in &p.0 {
        if s.0.len() != 1 {
            o.push_str("(seq");
        }
        for e in &s.0 {
            let (inv, elt) = match e {
                PathEltOrInverse::PathElt(e) => (false, e),
                PathEltOrInverse::Inverse(e) => (true, e),
            };
            if inv {
                o.push_str("(inv ");
            }
            if let Some(m) = &elt.path_mod {
                o.push_str(match m {
                    PathMod::QuestionMark => "(mod?",
                    PathMod::Asterisk => "(mod*",
                    PathMod::Plus => "(mod+",
                });
            }
            match &elt.path_primary {
                PathPrimary::Iri(i) => iri(o, i),
                PathPrimary::A => o.push_str("A "),
                PathPrimary::Path(p) => {
                    o.push_str("(paren ");
                    path(o, p);
                    o.push(')');
                }
                PathPrimary::PathNegatedPropertySet(n) => {
                    o.push_str("(neg");
                    for x in &n.0 {
                        let a = match &x.0 {
                            IriOrAOrCaret::IriOrA(a) => a,
                            IriOrAOrCaret::Caret(a) => {
                                o.push('^');
                                a
                            }
                        };
                        match a {
                            IriOrA::Iri(i) => iri(o, i),
                            IriOrA::A => o.push_str("A "),
                        }
                    }
                    o.push(')');
                }
            }
            if elt.path_mod.is_some() {
                o.push(')');
            }
            if inv {
                o.push(')');
            }
        }
        if s.0.len() != 1 {
            o.push(')');
        }
    }
    if p.0.len() != 1 {
        o.push(')');
    }
}

// ---- expressions
fn constraint(o: &mut O, c: &Constraint) {
    match c {
        Constraint::Bracketted(e) => {
            o.push_str("(br ");
            expr(o, e);
            o.push(')');
        }
        Constraint::BuiltInCall(b) => builtin(o, b),
        Constraint::FunctionCall(f) => fcall(o, f),
    }
}
fn fcall(o: &mut O, f: &FunctionCall) {
    o.push_str("(call ");
    iri(o, &f.iri);
    args(o, &f.args);
    o.push(')');
}
fn args(o: &mut O, a: &ArgList) {
    match a {
        ArgList::Nil => o.push_str("nil "),
        ArgList::Expression { distinct, expressions } => {
            o.push_str(if *distinct { "(args d " } else { "(args - " });
            for e in expressions {
                expr(o, e);
            }
            o.push(')');
        }
    }
}
fn elist(o: &mut O, l: &ExpressionList) {
    match l {
        ExpressionList::Nil => o.push_str("nil "),
        ExpressionList::List(v) => {
            o.push_str("(list ");
            for e in v {
                expr(o, e);
            }
            o.push(')');
        }
    }
}
fn expr(o: &mut O, e: &Expression) {
    if e.0.len() != 1 {
        o.push_str("(or ");
    }
    for a in &e.0 {
        if a.0.len() != 1 {
            o.push_str("(and ");
        }
        for r in &a.0 {
            match &r.rhs {
                None => add(o, &r.lhs),
                Some(op) => {
                    let (t, x, l) = match op {
                        OpExpression::EQ(x) => ("(= ", Some(x), None),
                        OpExpression::NE(x) => ("(!= ", Some(x), None),
                        OpExpression::LT(x) => ("(< ", Some(x), None),
                        OpExpression::GT(x) => ("(> ", Some(x), None),
                        OpExpression::LE(x) => ("(<= ", Some(x), None),
                        OpExpression::GE(x) => ("(>= ", Some(x), None),
                        OpExpression::IN(l) => ("(IN ", None, Some(l)),
                        OpExpression::NIN(l) => ("(NOTIN ", None, Some(l)),
                    };
                    o.push_str(t);
                    add(o, &r.lhs);
                    if let Some(x) = x {
                        add(o, x);
                    }
                    if let Some(l) = l {
                        elist(o, l);
                    }
                    o.push(')');
                }
            }
        }
        if a.0.len() != 1 {
            o.push(')');
        }
    }
    if e.0.len() != 1 {
        o.push(')');
    }
}
fn add(o: &mut O, a: &AdditiveExpression) {
    if !a.rhs.is_empty() {
        o.push_str("(add ");
    }
    mul(o, &a.lhs);
    for r in &a.rhs {
        match r {
            AddExpression::Add(m) => {
                o.push_str("(+ ");
                mul(o, m);
            }
            AddExpression::Sub(m) => {
                o.push_str("(- ");
                mul(o, m);
            }
            AddExpression::Numeric { numeric, expressions } => {
                o.push_str("(num ");
                num(o, numeric);
                for m in expressions {
                    mul_tail(o, m);
                }
            }
        }
        o.push(')');
    }
    if !a.rhs.is_empty() {
        o.push(')');
    }
}
fn mul(o: &mut O, m: &MultiplicativeExpression) {
    if !m.rhs.is_empty() {
        o.push_str("(mul ");
    }
    unary(o, &m.lhs);
    for x in &m.rhs {
        mul_tail(o, x);
    }
    if !m.rhs.is_empty() {
        o.push(')');
    }
}
fn mul_tail(o: &mut O, m: &MultExpression) {
    match m {
        MultExpression::Mult(u) => {
            o.push_str("(* ");
            unary(o, u);
        }
        MultExpression::Div(u) => {
            o.push_str("(/ ");
            unary(o, u);
        }
    }
    o.push(')');
}
fn unary(o: &mut O, u: &UnaryExpression) {
    let (t, p) = match u {
        UnaryExpression::Default(p) => return primary(o, p),
        UnaryExpression::Not(p) => ("(u! ", p),
        UnaryExpression::Add(p) => ("(u+ ", p),
        UnaryExpression::Sub(p) => ("(u- ", p),
    };
    o.push_str(t);
    primary(o, p);
    o.push(')');
}
fn primary(o: &mut O, p: &PrimaryExpression) {
    match p {
        PrimaryExpression::BrackettedExpression(e) => {
            o.push_str("(br ");
            expr(o, e);
            o.push(')');
        }
        PrimaryExpression::BuiltInCall(b) => builtin(o, b),
        PrimaryExpression::IriOrFunction(f) => {
            o.push_str("(iof ");
            iri(o, &f.iri);
            dash!(o, &f.arg_list, args);
            o.push(')');
        }
        PrimaryExpression::RdfLiteral(l) => rdf(o, l),
        PrimaryExpression::NumericLiteral(n) => num(o, n),
        PrimaryExpression::BooleanLiteral(b) => boolean(o, *b),
        PrimaryExpression::Var(v) => var(o, v),
    }
}
fn f1(o: &mut O, name: &str, e: &Expression) {
    o.push_str(name);
    o.push(' ');
    expr(o, e);
}
fn f2(o: &mut O, name: &str, e: &(Expression, Expression)) {
    o.push_str(name);
    o.push(' ');
    expr(o, &e.0);
    expr(o, &e.1);
}
fn fd(o: &mut O, name: &str, e: &DistinctExpression) {
    o.push_str(name);
    o.push_str(if e.distinct { " d " } else { " - " });
    expr(o, &e.expression);
}
fn f3(o: &mut O, name: &str, e: &RegexExpression) {
    o.push_str(name);
    o.push(' ');
    expr(o, &e.first);
    expr(o, &e.second);
    if let Some(t) = &e.third {
        expr(o, t);
    }
}
fn aggregate(o: &mut O, a: &Aggregate) {
    match a {
        Aggregate::Count(c) => {
            o.push_str(if c.distinct { "COUNT d " } else { "COUNT - " });
            match &c.target {
                CountTarget::All => o.push('*'),
                CountTarget::Expr(e) => expr(o, e),
            }
        }
        Aggregate::Sum(e) => fd(o, "SUM", e),
        Aggregate::Min(e) => fd(o, "MIN", e),
        Aggregate::Max(e) => fd(o, "MAX", e),
        Aggregate::Avg(e) => fd(o, "AVG", e),
        Aggregate::Sample(e) => fd(o, "SAMPLE", e),
        Aggregate::GroupConcat(g) => {
            fd(o, "GROUP_CONCAT", &g.expression);
            dash!(o, &g.separator, |o: &mut O, s: &String| text(o, "s", s));
        }
    }
    // what the aggregate reports about itself has to agree with what it holds
    let (held, said) = (
        match a {
            Aggregate::Count(c) => c.distinct,
            Aggregate::Sum(e) | Aggregate::Min(e) | Aggregate::Max(e) | Aggregate::Avg(e) | Aggregate::Sample(e) => e.distinct,
            Aggregate::GroupConcat(g) => g.expression.distinct,
        },
        a.is_distinct(),
    );
    if held != said {
        o.push_str("<is_distinct() disagrees>");
    }
}
fn builtin(o: &mut O, b: &BuiltInCall) {
    use BuiltInCall::*;
    o.push('(');
    match b {
        Aggregate(a) => aggregate(o, a),
        Str(e) => f1(o, "STR", e),
        Lang(e) => f1(o, "LANG", e),
        LangMatches(e) => f2(o, "LANGMATCHES", e),
        Datatype(e) => f1(o, "DATATYPE", e),
        Bound(v) => {
            o.push_str("BOUND ");
            var(o, v);
        }
        Iri(e) => f1(o, "IRI", e),
        Uri(e) => f1(o, "URI", e),
        Bnode(e) => {
            o.push_str("BNODE ");
            if let Some(e) = e {
                expr(o, e);
            }
        }
        Rand => o.push_str("RAND "),
        Abs(e) => f1(o, "ABS", e),
        Ceil(e) => f1(o, "CEIL", e),
        Floor(e) => f1(o, "FLOOR", e),
        Round(e) => f1(o, "ROUND", e),
        Concat(l) => {
            o.push_str("CONCAT ");
            elist(o, l);
        }
        SubStr(e) => f3(o, "SUBSTR", e),
        StrLen(e) => f1(o, "STRLEN", e),
        Replace(e) => {
            o.push_str("REPLACE ");
            expr(o, &e.first);
            expr(o, &e.second);
            expr(o, &e.third);
            if let Some(t) = &e.fourth {
                expr(o, t);
            }
        }
        UCase(e) => f1(o, "UCASE", e),
        LCase(e) => f1(o, "LCASE", e),
        EncodeForUri(e) => f1(o, "ENCODE_FOR_URI", e),
        Contains(e) => f2(o, "CONTAINS", e),
        StrStarts(e) => f2(o, "STRSTARTS", e),
        StrEnds(e) => f2(o, "STRENDS", e),
        StrBefore(e) => f2(o, "STRBEFORE", e),
        StrAfter(e) => f2(o, "STRAFTER", e),
        Year(e) => f1(o, "YEAR", e),
        Month(e) => f1(o, "MONTH", e),
        Day(e) => f1(o, "DAY", e),
        Hours(e) => f1(o, "HOURS", e),
        Minutes(e) => f1(o, "MINUTES", e),
        Seconds(e) => f1(o, "SECONDS", e),
        Timezone(e) => f1(o, "TIMEZONE", e),
        Tz(e) => f1(o, "TZ", e),
        Now => o.push_str("NOW "),
        UUID => o.push_str("UUID "),
        StrUUID => o.push_str("STRUUID "),
        MD5(e) => f1(o, "MD5", e),
        SHA1(e) => f1(o, "SHA1", e),
        SHA256(e) => f1(o, "SHA256", e),
        SHA384(e) => f1(o, "SHA384", e),
        SHA512(e) => f1(o, "SHA512", e),
        Coalesce(l) => {
            o.push_str("COALESCE ");
            elist(o, l);
        }
        If(e) => {
            o.push_str("IF ");
            expr(o, &e.0);
            expr(o, &e.1);
            expr(o, &e.2);
        }
        StrLang(e) => f2(o, "STRLANG", e),
        StrDt(e) => f2(o, "STRDT", e),
        SameTerm(e) => f2(o, "SAMETERM", e),
        IsIri(e) => f1(o, "ISIRI", e),
        IsUri(e) => f1(o, "ISURI", e),
        IsBlank(e) => f1(o, "ISBLANK", e),
        IsLiteral(e) => f1(o, "ISLITERAL", e),
        IsNumeric(e) => f1(o, "ISNUMERIC", e),
        Regex(e) => f3(o, "REGEX", e),
        ExistsFunc(g) => {
            o.push_str("EXISTS ");
            ggp(o, g);
        }
        NotExistsFunc(g) => {
            o.push_str("NOTEXISTS ");
            ggp(o, g);
        }
    }
    o.push(')');
}

// ---- updates
fn update(o: &mut O, u: &Update) {
    o.push_str("(upd ");
    prologue(o, &u.prologue);
    dash!(o, &u.update_stmt, update1);
    let inner: Option<&Update> = u.inner_update.as_ref().map(|b| &**b);
    dash!(o, inner, update);
    o.push(')');
}
fn silent(o: &mut O, s: bool) {
    o.push_str(if s { "s " } else { "- " });
}
fn ref_all(o: &mut O, r: &GraphRefAll) {
    match r {
        GraphRefAll::GraphRef(i) => iri(o, i),
        GraphRefAll::Default => o.push_str("DEFAULT"),
        GraphRefAll::Named => o.push_str("NAMED"),
        GraphRefAll::All => o.push_str("ALL"),
    }
}
fn god(o: &mut O, r: &GraphOrDefault) {
    match r {
        GraphOrDefault::Graph(i) => iri(o, i),
        GraphOrDefault::Default => o.push_str("DEFAULT"),
    }
}
fn from_to(o: &mut O, name: &str, s: bool, a: &GraphOrDefault, b: &GraphOrDefault) {
    o.push_str(name);
    silent(o, s);
    god(o, a);
    o.push(' ');
    god(o, b);
}
fn update1(o: &mut O, u: &UpdateStatement) {
    o.push('(');
    match u {
        UpdateStatement::Load(l) => {
            o.push_str("load ");
            silent(o, l.silent);
            iri(o, &l.iri);
            dash!(o, &l.graph_ref, iri);
        }
        UpdateStatement::Clear(c) => {
            o.push_str("clear ");
            silent(o, c.silent);
            ref_all(o, &c.graph_ref_all);
        }
        UpdateStatement::Drop(c) => {
            o.push_str("drop ");
            silent(o, c.silent);
            ref_all(o, &c.graph_ref_all);
        }
        UpdateStatement::Create(c) => {
            o.push_str("create ");
            silent(o, c.silent);
            iri(o, &c.graph_ref);
        }
        UpdateStatement::Add(a) => from_to(o, "add ", a.silent, &a.from, &a.to),
        UpdateStatement::Move(a) => from_to(o, "move ", a.silent, &a.from, &a.to),
        UpdateStatement::Copy(a) => from_to(o, "copy ", a.silent, &a.from, &a.to),
        UpdateStatement::InsertData(q) => {
            o.push_str("insertdata ");
            quads(o, q);
        }
        UpdateStatement::DeleteData(q) => {
            o.push_str("deletedata ");
            quads(o, q);
        }
        UpdateStatement::DeleteWhere(q) => {
            o.push_str("deletewhere ");
            quads(o, q);
        }
        UpdateStatement::Modify(m) => {
            o.push_str("modify ");
            dash!(o, &m.iri, iri);
            match &m.delete_insert {
                DeleteInsert::DeleteInsert { delete, insert } => {
                    o.push_str("(di ");
                    quads(o, delete);
                    dash!(o, insert, quads);
                }
                DeleteInsert::Insert(q) => {
                    o.push_str("(i ");
                    quads(o, q);
                }
            }
            o.push(')');
            datasets(o, &m.using_clauses);
            ggp(o, &m.where_group_graph);
        }
    }
    o.push(')');
}
fn quads(o: &mut O, q: &Quads) {
    o.push_str("(quads ");
    dash!(o, &q.first_triple, template);
    for e in &q.entries {
        o.push_str("(q ");
        var_or_iri(o, &e.quads_not_triples.var_or_iri);
        dash!(o, &e.quads_not_triples.triples_template, template);
        dash!(o, &e.triples_template, template);
        o.push(')');
    }
    o.push(')');
}
