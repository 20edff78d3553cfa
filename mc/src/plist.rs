// Included by props.rs: which spaces decide which property.

const VALS: &str = "DataBlock=VAR1 { UNDEF }";
const Q_ALPHA: &str = "{ } ( ) [ ] NIL ANON . ; , * | / ^ ? + - ! = < && || ^^ VAR1 IRIREF PNAME_LN PNAME_NS INTEGER DECIMAL INTEGER_NEGATIVE STRING_LITERAL2 LANGTAG BLANK_NODE_LABEL a SELECT ASK WHERE FROM NAMED DISTINCT REDUCED AS FILTER OPTIONAL MINUS UNION GRAPH SERVICE SILENT BIND VALUES UNDEF GROUP BY HAVING ORDER ASC DESC LIMIT OFFSET NOT IN EXISTS STR RAND COUNT SEPARATOR TRUE BASE PREFIX CONSTRUCT DESCRIBE";
const U_ALPHA: &str = "{ } ( ) [ ] NIL ANON . ; , * ^ VAR1 IRIREF PNAME_LN PNAME_NS INTEGER STRING_LITERAL2 BLANK_NODE_LABEL a INSERT DELETE WHERE WITH USING NAMED GRAPH DEFAULT ALL INTO TO SILENT LOAD CLEAR DROP CREATE ADD MOVE COPY BASE PREFIX INSERT_DATA DELETE_DATA DELETE_WHERE FILTER OPTIONAL SELECT VALUES TRUE FROM";

/// Patterns reduced to their skeleton: the values of terms are explored elsewhere.
const SKEL: &str = "TriplesSameSubjectPath=VAR1 IRIREF VAR1 ; TriplesSameSubject=VAR1 IRIREF VAR1 ; Constraint=( VAR1 ) ; Expression=VAR1 ; VarOrIri=VAR1 / IRIREF ; Var=VAR1 ; iri=IRIREF ; DataBlock=VAR1 { UNDEF } ; SelectClause=SELECT * ; SolutionModifier= / LIMIT INTEGER ; Prologue=";

fn also(mut v: Vec<Job>, w: Vec<Job>) -> Vec<Job> {
    v.extend(w);
    v
}

/// k-path cover of the whole grammar below an entry point, in several renderings.
fn cover_job(c: &Ctx, entry: Entry, k: usize, styles: &'static [Style]) -> Job {
    let v = cover(c, entry, k, usize::MAX);
    let bound = format!("{} sentences covering every chain of {} nested grammar choices below {}, in {} renderings", v.len(), k, entry.rule(), styles.len());
    Job {
        name: format!("cover-{}-{}", entry.rule(), k),
        bound,
        shards: (v.len() / 400).clamp(1, 96),
        f: Box::new(move |sh, n, w| {
            for s in v.iter().skip(sh).step_by(n) {
                for (p, l) in styles {
                    let t = w.rd.text(s, *p, *l);
                    w.accept(entry, &t);
                }
                if w.stopped() {
                    return;
                }
            }
        }),
    }
}

pub fn jobs(c: &Ctx, id: &str) -> Vec<Job> {
    use Entry::*;
    let m = c.m;
    let s = |name: &str, e: Entry, form: &str, stubs: &str, q: u64, t: u64| sentences(c, name, e, form, stubs, c.cap(q, t), 60, BOTH);
    match id {
        "C01" => c01(c),
        "C02" => c02(c),
        "C03" => {
            let mut v = vec![];
            v.push(edits(c, "edit-cover", Query, cover(c, Query, if c.thorough { 6 } else { 4 }, usize::MAX), Q_ALPHA, "grammar cover"));
            for (n, form, stubs, cap, tcap) in [
                ("edit-forms", "QueryUnit", "Prologue= ; iri=IRIREF ; Var=VAR1 ; Expression=VAR1 ; GroupGraphPattern={ } ; TriplesSameSubject=VAR1 a VAR1 ; BuiltInCall=RAND NIL ; DataBlock=VAR1 { }", 1500, 30000),
                ("edit-groups", "ASK GroupGraphPattern", SKEL, 1500, 30000),
                ("edit-expr", "ASK { FILTER ( Expression ) }", "iri=PNAME_LN ; BuiltInCall=RAND NIL ; RDFLiteral=STRING_LITERAL2 ; BooleanLiteral=TRUE ; Var=VAR1 ; NumericLiteral=INTEGER / DECIMAL_NEGATIVE", 800, 20000),
                ("edit-path", "ASK { VAR1 Path VAR1 }", "iri=IRIREF", 800, 20000),
                ("edit-triples", "ASK { TriplesBlock }", "VarOrTerm=VAR1 ; Path=IRIREF", 800, 20000),
                ("edit-template", "CONSTRUCT { ConstructTriples } { }", "VarOrTerm=VAR1", 500, 10000),
                ("edit-calls", "ASK { FILTER BuiltInCall }", "Expression=VAR1 ; GroupGraphPattern={ } ; String=STRING_LITERAL2 ; Var=VAR1", 400, 2000),
                ("edit-modifiers", "ASK { } SolutionModifier", "Expression=VAR1 ; BuiltInCall=RAND NIL ; iri=IRIREF ; Var=VAR1", 500, 20000),
                ("edit-values", "ASK { } VALUES DataBlock", "iri=IRIREF ; Var=VAR1 ; RDFLiteral=STRING_LITERAL2 ; NumericLiteral=INTEGER ; BooleanLiteral=TRUE", 500, 10000),
            ] {
                let sp = Space::new(m, Spec::new(m, Query, form, stubs), c.cap(cap, tcap), 60);
                let what = format!("all of <{}> up to {} tokens", form, sp.len);
                v.push(edits(c, n, Query, sp.all(), Q_ALPHA, &what));
            }
            let (a, b) = (150_000, 4_000_000);
            let st = |n: &str, pre: &str, al: &str, suf: &str| strings(c, n, Query, pre, al, suf, c.cap(a, b), PLAIN);
            v.extend(vec![
                st("str-group", "ASK {", "VAR1 a IRIREF . ; , { } OPTIONAL FILTER ( ) GRAPH", "}"),
                st("str-triples", "ASK { VAR1", "a VAR1 . ; , ( ) [ ] ANON INTEGER", "}"),
                st("str-path", "ASK { VAR1", "IRIREF a VAR1 | / ^ ! ( ) ? * +", "VAR1 }"),
                st("str-expr", "ASK { FILTER (", "VAR1 INTEGER INTEGER_NEGATIVE + - * ! = && IN NOT ( ) ,", ") }"),
                st("str-call", "ASK { FILTER", "STR COUNT IF IRIREF ( ) NIL , VAR1 * DISTINCT", "}"),
                st("str-gconcat", "SELECT ( GROUP_CONCAT (", "VAR1 ; SEPARATOR = STRING_LITERAL2 DISTINCT , * ( )", ") AS VAR1 ) { }"),
                st("str-select", "SELECT", "VAR1 * ( ) AS DISTINCT REDUCED FROM IRIREF WHERE", "{ }"),
                st("str-modifiers", "ASK { }", "GROUP ORDER BY HAVING LIMIT OFFSET INTEGER VAR1 ( ) ASC", ""),
                st("str-values", "ASK { } VALUES", "VAR1 ( ) NIL { } UNDEF INTEGER IRIREF", ""),
                st("str-heads", "", "ASK DESCRIBE CONSTRUCT SELECT * VAR1 { } WHERE FROM NAMED IRIREF", "{ }"),
                st("str-prologue", "", "BASE PREFIX IRIREF PNAME_NS PNAME_LN a", "ASK { }"),
                st("str-graph", "ASK {", "GRAPH SERVICE SILENT VAR1 IRIREF { } UNION MINUS OPTIONAL .", "}"),
                st("str-bind", "ASK {", "BIND ( ) VAR1 AS INTEGER VALUES { } UNDEF .", "}"),
                st("str-literal", "ASK { VAR1 a", "STRING_LITERAL1 LANGTAG ^^ IRIREF PNAME_NS TRUE INTEGER , .", "}"),
                st("str-sub", "ASK { {", "SELECT * VAR1 { } LIMIT INTEGER VALUES UNION . WHERE", "} }"),
            ]);
            v
        }
        "C04" => {
            let base = "iri=IRIREF / PNAME_LN ; Var=VAR1 / VAR2 ; Expression=VAR1 ; GroupGraphPattern={ } ; DataBlock=VAR1 { UNDEF }";
            let clauses = "iri=IRIREF ; Var=VAR1 ; Expression=INTEGER ; GroupGraphPattern={ } ; TriplesSameSubject=VAR1 a VAR1 ; DataBlock=VAR1 { UNDEF } ; GroupCondition=VAR1 ; HavingCondition=( VAR1 ) ; OrderCondition=VAR1";
            let mut v = vec![
                s("heads", Query, "QueryUnit", &format!("Prologue= ; SolutionModifier= ; TriplesSameSubject=VAR1 a VAR1 ; {}", base), 40_000, 1_500_000),
                s("heads-bare", Bare, "BareQuery", &format!("SolutionModifier= ; TriplesSameSubject=VAR1 a VAR1 ; {}", base), 20_000, 500_000),
                s("clauses", Query, "QueryUnit", &format!("Prologue= / BASE IRIREF ; {}", clauses), 60_000, 2_000_000),
                s("projection", Query, "SelectClause { }", &format!("{} ; Expression=VAR1 / INTEGER / STRING_LITERAL2", "iri=IRIREF"), 40_000, 1_000_000),
                s("describe", Query, "DESCRIBE VarOrIri VarOrIri VarOrIri DatasetClause DatasetClause { }", "", 40_000, 400_000),
                s("construct-template", Query, "CONSTRUCT ConstructTemplate DatasetClause WhereClause", "VarOrTerm=VAR1 / IRIREF / NIL ; GroupGraphPattern={ } ; iri=IRIREF", 30_000, 600_000),
                s("construct-short", Query, "CONSTRUCT ConstructShort ValuesClause", "VarOrTerm=VAR1 / IRIREF ; iri=IRIREF ; SolutionModifier= / LIMIT INTEGER ; DataBlock=VAR1 { UNDEF }", 30_000, 600_000),
            ];
            // every combination of present and absent clauses, with every one of them filled
            for (n, head) in [("select", "SELECT VAR1"), ("select-star", "SELECT DISTINCT *"), ("select-as", "SELECT REDUCED ( VAR1 AS VAR1 ) VAR1"), ("construct", "CONSTRUCT { VAR1 a VAR1 . VAR1 a VAR1 }"), ("construct-short", "CONSTRUCT"), ("describe", "DESCRIBE VAR1 IRIREF"), ("describe-star", "DESCRIBE *"), ("ask", "ASK")] {
                v.push(subsets(c, &format!("subset-{}", n), head, n));
            }
            v.push(cover_job(c, Query, if c.thorough { 7 } else { 5 }, BOTH));
            v
        }
        "C05" => {
            let mut v = vec![];
            for (n, e, form) in [
                ("select", Query, "Prologue SELECT * { }"),
                ("construct", Query, "Prologue CONSTRUCT WHERE { }"),
                ("describe", Query, "Prologue DESCRIBE IRIREF"),
                ("ask", Query, "Prologue ASK { }"),
                ("update", Update, "Prologue CLEAR ALL"),
                ("insert-data", Update, "Prologue INSERT_DATA { }"),
                ("delete-where", Update, "Prologue DELETE_WHERE { }"),
                ("modify", Update, "Prologue DELETE { } WHERE { }"),
                ("with", Update, "Prologue WITH IRIREF INSERT { } WHERE { }"),
                ("empty-update", Update, "Prologue"),
                ("sequence", Update, "Prologue CLEAR ALL ; Prologue DROP DEFAULT ; Prologue INSERT_DATA { } ; Prologue"),
                ("sequence-2", Update, "Prologue LOAD IRIREF ; Prologue ADD DEFAULT TO IRIREF ; Prologue CREATE GRAPH IRIREF ; Prologue"),
            ] {
                v.push(sentences(c, n, e, form, "", c.cap(8_000, 300_000), 60, BOTH));
            }
            v.push(prologue_texts(c));
            v.push(strings(c, "malformed", Query, "", "BASE PREFIX IRIREF PNAME_NS PNAME_LN VAR1 .", "ASK { }", c.cap(60_000, 2_000_000), PLAIN));
            v
        }
        "C06" => {
            let st = "Expression=VAR1 / INTEGER ; BuiltInCall=RAND NIL / STR ( VAR1 ) ; iri=PNAME_LN ; ArgList=NIL / ( VAR1 ) ; Var=VAR1";
            let small = "Expression=VAR1 ; BuiltInCall=RAND NIL ; iri=IRIREF ; ArgList=NIL ; Var=VAR1";
            let mut v = vec![];
            for (n, form) in [
                ("select", "SELECT * { } SolutionModifier"),
                ("ask", "ASK { } SolutionModifier"),
                ("construct", "CONSTRUCT { } { } SolutionModifier"),
                ("construct-short", "CONSTRUCT WHERE { } SolutionModifier"),
                ("describe", "DESCRIBE * SolutionModifier"),
                ("describe-where", "DESCRIBE IRIREF { } SolutionModifier"),
                ("sub-select", "ASK { SELECT * { } SolutionModifier }"),
                ("sub-select-2", "ASK { { SELECT VAR1 WHERE { } SolutionModifier } . VAR1 a VAR1 }"),
                ("before-values", "SELECT * { } SolutionModifier VALUES NIL { }"),
            ] {
                v.push(s(n, Query, form, small, 12_000, 300_000));
            }
            v.push(s("group", Query, "SELECT * { } GROUP BY GroupCondition GroupCondition GroupCondition", st, 40_000, 400_000));
            v.push(s("order", Query, "SELECT * { } ORDER BY OrderCondition OrderCondition OrderCondition", st, 40_000, 400_000));
            v.push(s("having", Query, "SELECT * { } HAVING HavingCondition HavingCondition HavingCondition", st, 40_000, 400_000));
            v.push(s("group-deep", Query, "SELECT * { } GROUP BY GroupCondition", "iri=IRIREF ; Var=VAR1 ; GroupGraphPattern={ }", 40_000, 1_000_000));
            v.push(s("order-deep", Query, "SELECT * { } ORDER BY OrderCondition", "iri=IRIREF ; Var=VAR1 ; GroupGraphPattern={ }", 40_000, 1_000_000));
            v.push(s("having-deep", Query, "SELECT * { } HAVING HavingCondition", "iri=IRIREF ; Var=VAR1 ; GroupGraphPattern={ }", 40_000, 1_000_000));
            v.push(limit_texts());
            v.push(modifier_subsets(c));
            v.push(strings(c, "malformed", Query, "SELECT * { }", "GROUP ORDER BY HAVING LIMIT OFFSET INTEGER VAR1 ( ) ASC AS", "", c.cap(100_000, 3_000_000), PLAIN));
            v
        }
        "C07" => {
            let one = "TriplesBlock=VAR1 a VAR1 ; Constraint=( VAR1 ) ; Expression=VAR1 ; VarOrIri=VAR1 ; Var=VAR1 ; DataBlock=VAR1 { UNDEF } ; SelectClause=SELECT * ; SolutionModifier= ; ValuesClause=";
            vec![
                s("groups", Query, "ASK GroupGraphPattern", SKEL, 120_000, 4_000_000),
                s("groups-min", Query, "ASK GroupGraphPattern", one, 120_000, 4_000_000),
                s("dots", Query, "ASK { GroupGraphPatternSub }", "TriplesSameSubjectPath=VAR1 a VAR1 ; GraphPatternNotTriples={ } / FILTER ( VAR1 ) / BIND ( VAR1 AS VAR1 ) / VALUES VAR1 { } / OPTIONAL { }", 100_000, 3_000_000),
                s("nodes", Query, "ASK { GroupGraphPatternSub }", "TriplesSameSubjectPath=ANON a VAR1 / [ a VAR1 ] / ( VAR1 ) a VAR1 / NIL a VAR1 ; GraphPatternNotTriples={ } / MINUS { }", 40_000, 1_000_000),
                s("union", Query, "ASK { GroupOrUnionGraphPattern }", one, 40_000, 1_000_000),
                s("graph-service", Query, "ASK { GraphPatternNotTriples GraphPatternNotTriples }", "GroupGraphPattern={ } ; Constraint=( VAR1 ) ; Expression=VAR1 ; DataBlock=VAR1 { }", 40_000, 1_000_000),
                s("filters", Query, "ASK { FILTER Constraint TriplesBlock FILTER Constraint }", "TriplesBlock=VAR1 a VAR1 ; Expression=VAR1 ; BuiltInCall=RAND NIL / EXISTS { } ; iri=PNAME_LN ; ArgList=NIL", 20_000, 200_000),
                s("subselect", Query, "ASK { SubSelect }", "Expression=VAR1 ; GroupGraphPattern={ } / { { } } ; SolutionModifier= / LIMIT INTEGER ; DataBlock=VAR1 { }", 30_000, 600_000),
                s("exists", Query, "ASK { FILTER EXISTS GroupGraphPattern }", one, 20_000, 600_000),
                s("update-where", Update, "INSERT { } WHERE GroupGraphPattern", one, 20_000, 600_000),
                strings(c, "malformed", Query, "ASK {", "VAR1 a . { } OPTIONAL FILTER ( ) UNION GRAPH", "}", c.cap(150_000, 4_000_000), PLAIN),
            ]
        }
        "C08" => {
            let vt = "VarOrTerm=VAR1 / PNAME_LN ; VarOrIri=VAR1 / IRIREF ; Var=VAR1 ; Path=IRIREF / a";
            let mut v = vec![];
            for (n, e, form, q) in [
                ("pattern", Query, "ASK { TriplesBlock }", 120_000),
                ("template", Query, "CONSTRUCT { ConstructTriples } { }", 60_000),
                ("short", Query, "CONSTRUCT WHERE { TriplesTemplate }", 40_000),
                ("insert-data", Update, "INSERT_DATA { TriplesTemplate }", 40_000),
                ("delete-where", Update, "DELETE_WHERE { TriplesTemplate }", 20_000),
                ("graph-block", Update, "DELETE { GRAPH IRIREF { TriplesTemplate } } WHERE { }", 20_000),
            ] {
                v.push(s(n, e, form, "VarOrTerm=VAR1 ; VarOrIri=VAR1 ; Var=VAR1 ; Path=a", q, q * 20));
                v.push(s(&format!("{}-kinds", n), e, form, vt, q / 2, q * 8));
                v.push(s(&format!("{}-terms", n), e, form, "", q / 4, q * 4));
            }
            v.push(s("path-lists", Query, "ASK { VAR1 PropertyListPathNotEmpty }", "VarOrTerm=VAR1 / INTEGER ; Path=IRIREF / a ; Var=VAR1", 60_000, 1_000_000));
            v.push(s("path-node", Query, "ASK { TriplesNodePath PropertyListPath . TriplesNodePath PropertyListPath }", "VarOrTerm=VAR1 ; Path=IRIREF ; Var=VAR1", 60_000, 1_000_000));
            v.push(s("template-node", Query, "CONSTRUCT { TriplesNode PropertyList . TriplesNode PropertyList } { }", "VarOrTerm=VAR1 ; Verb=IRIREF ; Var=VAR1", 60_000, 1_000_000));
            v.push(strings(c, "malformed-pattern", Query, "ASK { VAR1", "a VAR1 . ; , ( ) [ ] ANON NIL", "}", c.cap(150_000, 4_000_000), PLAIN));
            v.push(strings(c, "malformed-template", Query, "CONSTRUCT { VAR1", "a VAR1 . ; , ( ) [ ] ANON NIL", "} { }", c.cap(150_000, 4_000_000), PLAIN));
            v.push(strings(c, "malformed-data", Update, "INSERT_DATA { VAR1", "a VAR1 . ; , ( ) [ ] ANON NIL", "}", c.cap(150_000, 4_000_000), PLAIN));
            v
        }
        "C09" => vec![
            s("paths", Query, "ASK { VAR1 Path VAR1 }", "iri=IRIREF", 200_000, 6_000_000),
            s("paths-names", Query, "ASK { VAR1 Path IRIREF }", "iri=PNAME_LN / PNAME_NS", 60_000, 1_000_000),
            s("objects", Query, "ASK { VAR1 VerbPathOrSimple GraphNodePath }", "iri=IRIREF / PNAME_LN ; String=STRING_LITERAL2", 120_000, 3_000_000),
            s("lists", Query, "ASK { VAR1 VerbPathOrSimple VAR1 , VAR2 ; VerbPathOrSimple VAR1 }", "iri=IRIREF", 60_000, 1_000_000),
            s("inner", Query, "ASK { [ VerbPathOrSimple VAR1 ] VerbPathOrSimple ( INTEGER ) }", "iri=IRIREF", 60_000, 1_000_000),
            s("negated", Query, "ASK { VAR1 ! PathNegatedPropertySet VAR1 }", "iri=IRIREF / PNAME_LN", 60_000, 1_000_000),
            s("negated-in", Query, "ASK { VAR1 IRIREF / ! PathNegatedPropertySet PathMod | ! PathNegatedPropertySet VAR1 }", "iri=PNAME_LN", 60_000, 1_000_000),
            s("mods", Query, "ASK { VAR1 PathElt / PathElt | ^ PathElt VAR1 . VAR1 PathElt INTEGER }", "iri=IRIREF", 60_000, 1_000_000),
            strings(c, "after-verb", Query, "ASK { VAR1 IRIREF", "? * + VAR1 INTEGER INTEGER_POSITIVE DECIMAL_POSITIVE / | ^ . IRIREF", "}", c.cap(200_000, 4_000_000), BOTH),
            strings(c, "malformed", Query, "ASK { VAR1", "IRIREF a ! ( ) ? * + | / ^", "VAR1 }", c.cap(200_000, 4_000_000), PLAIN),
            glued_mods(c),
        ],
        "C10" => {
            let all = "iri=IRIREF ; BuiltInCall=RAND NIL ; String=STRING_LITERAL2";
            let vars = "PrimaryExpression=VAR1 / ( VAR1 )";
            let nums = "PrimaryExpression=VAR1 / INTEGER / INTEGER_POSITIVE / DECIMAL_NEGATIVE ; ConditionalAndExpression=VAR1";
            let mut v = vec![
                s("operators", Query, "ASK { FILTER ( Expression ) }", "PrimaryExpression=VAR1", 150_000, 5_000_000),
                s("brackets", Query, "ASK { FILTER ( Expression ) }", "iri=IRIREF ; BuiltInCall=RAND NIL ; RDFLiteral=STRING_LITERAL2 ; NumericLiteral=INTEGER ; BooleanLiteral=TRUE ; Var=VAR1 ; IriOrFunction=PNAME_LN", 100_000, 3_000_000),
                s("operands", Query, "ASK { FILTER ( Expression ) }", all, 100_000, 3_000_000),
                s("signs", Query, "ASK { FILTER ( AdditiveExpression ) }", "PrimaryExpression=VAR1 / INTEGER / INTEGER_POSITIVE / DECIMAL_NEGATIVE ; SignedNumericLiteral=INTEGER_NEGATIVE / DOUBLE_POSITIVE", 100_000, 3_000_000),
                s("relations", Query, "ASK { FILTER ( ConditionalAndExpression ) }", "AdditiveExpression=VAR1 / INTEGER", 60_000, 1_000_000),
                s("bind", Query, "SELECT * { BIND ( Expression AS VAR1 ) }", vars, 60_000, 1_000_000),
                s("project", Query, "SELECT ( Expression AS VAR1 ) { }", vars, 60_000, 1_000_000),
                s("order", Query, "SELECT * { } ORDER BY DESC ( Expression )", "PrimaryExpression=VAR1", 30_000, 600_000),
                s("arguments", Query, "SELECT * { } HAVING IRIREF ( Expression , Expression )", "PrimaryExpression=VAR1", 30_000, 600_000),
                s("in-list", Query, "ASK { FILTER ( VAR1 IN ( Expression , Expression ) ) }", "PrimaryExpression=VAR1", 30_000, 600_000),
            ];
            let _ = nums;
            v.push(sentences(c, "signs-glued", Query, "ASK { FILTER ( AdditiveExpression ) }", "PrimaryExpression=VAR1 / INTEGER / DECIMAL_NEGATIVE ; SignedNumericLiteral=INTEGER_NEGATIVE / DOUBLE_POSITIVE", c.cap(60_000, 1_000_000), 60, TIGHT));
            v.push(strings(c, "malformed", Query, "ASK { FILTER (", "VAR1 INTEGER INTEGER_NEGATIVE + - * ! = && IN NOT NIL ( )", ") }", c.cap(400_000, 6_000_000), PLAIN));
            v.push(operator_chars(c));
            v
        }
        "C11" => {
            let a = "Expression=VAR1 ; GroupGraphPattern={ } ; String=STRING_LITERAL2 ; Var=VAR1";
            let mut v = vec![];
            for (n, form) in [
                ("filter", "ASK { FILTER BuiltInCall }"),
                ("operand", "ASK { FILTER ( BuiltInCall + BuiltInCall ) }"),
                ("bind", "ASK { BIND ( BuiltInCall AS VAR1 ) }"),
                ("project", "SELECT ( BuiltInCall AS VAR1 ) { }"),
                ("having", "SELECT * { } HAVING BuiltInCall"),
                ("order", "SELECT * { } ORDER BY BuiltInCall DESC ( BuiltInCall )"),
                ("group", "SELECT * { } GROUP BY BuiltInCall ( BuiltInCall AS VAR1 )"),
                ("nested", "ASK { FILTER STRLEN ( BuiltInCall ) }"),
                ("in", "ASK { FILTER ( VAR1 IN ( BuiltInCall , BuiltInCall ) ) }"),
            ] {
                v.push(sentences(c, n, Query, form, a, c.cap(20_000, 300_000), 40, BOTH));
            }
            v.push(s("args", Query, "ASK { FILTER BuiltInCall }", "Expression=VAR1 / INTEGER / ( VAR1 ) / RAND NIL / ! VAR1 ; GroupGraphPattern={ } / { VAR1 a VAR1 }", 150_000, 2_000_000));
            v.push(s("separators", Query, "SELECT ( GroupConcat AS VAR1 ) { }", "Expression=VAR1 / COUNT ( * )", 20_000, 20_000));
            v.push(s("calls", Query, "ASK { FILTER FunctionCall }", "Expression=VAR1 / INTEGER", 40_000, 400_000));
            v.push(s("calls-operand", Query, "ASK { FILTER ( IriOrFunction = IriOrFunction ) }", "Expression=VAR1", 40_000, 400_000));
            v.push(s("call-nested", Query, "ASK { FILTER ( IriOrFunction ) }", "iri=PNAME_LN ; Var=VAR1 ; RDFLiteral=STRING_LITERAL2 ; NumericLiteral=INTEGER ; BooleanLiteral=TRUE ; BuiltInCall=RAND NIL", 40_000, 400_000));
            v.push(arities(c));
            v
        }
        "C12" => c12(c),
        "C13" => c13(c),
        "C14" => {
            let mut v = vec![];
            let one = "iri=IRIREF / PNAME_LN ; RDFLiteral=STRING_LITERAL2 ; NumericLiteral=INTEGER / DECIMAL_NEGATIVE ; BooleanLiteral=TRUE ; Var=VAR1";
            let min = "DataBlockValue=UNDEF / INTEGER ; Var=VAR1";
            for (n, e, form) in [
                ("query", Query, "SELECT * { } VALUES DataBlock"),
                ("pattern", Query, "ASK { VALUES DataBlock }"),
                ("pattern-mid", Query, "ASK { VAR1 a VAR1 VALUES DataBlock . VAR1 a VAR1 }"),
                ("sub-select", Query, "ASK { SELECT * { } VALUES DataBlock }"),
                ("update", Update, "INSERT { } WHERE { VALUES DataBlock }"),
            ] {
                v.push(s(n, e, form, min, 40_000, 1_000_000));
                v.push(s(&format!("{}-cells", n), e, form, one, 25_000, 600_000));
            }
            v.push(s("cells", Query, "ASK { } VALUES VAR1 { DataBlockValue DataBlockValue DataBlockValue }", "", 60_000, 600_000));
            v.push(s("rows", Query, "ASK { } VALUES ( VAR1 VAR2 ) { ( DataBlockValue DataBlockValue ) ( DataBlockValue UNDEF ) }", "", 60_000, 600_000));
            v.push(s("forms", Query, "QueryUnit", "Prologue= ; SolutionModifier= / LIMIT INTEGER ; iri=IRIREF ; Expression=VAR1 ; GroupGraphPattern={ } ; DataBlock=VAR1 { UNDEF } / NIL { NIL } / ( VAR1 ) { ( INTEGER ) }", 20_000, 200_000));
            v.push(tables(c));
            v.push(regular_tables(c));
            v.push(strings(c, "malformed", Query, "ASK { } VALUES", "VAR1 ( ) NIL { } UNDEF INTEGER IRIREF", "", c.cap(200_000, 4_000_000), PLAIN));
            v
        }
        "C15" => {
            let iri = "iri=IRIREF ; Quads= ; GroupGraphPattern={ }";
            let mut v = vec![
                s("operations", Update, "Update1", "Quads= / VAR1 a VAR1 ; GroupGraphPattern={ }", 100_000, 1_000_000),
                s("modify", Update, "Modify", "iri=IRIREF ; Quads= / VAR1 a VAR1 ; GroupGraphPattern={ } / { VAR1 a VAR1 }", 60_000, 1_000_000),
                s("sequence", Update, "Update", &format!("{} ; Prologue= ; Modify=DELETE {{ }} WHERE {{ }} / WITH IRIREF INSERT {{ }} WHERE {{ }}", iri), 60_000, 2_000_000),
                s("sequence-prologue", Update, "Update", "Update1=CLEAR ALL / DROP SILENT NAMED / INSERT_DATA { } / LOAD IRIREF / WITH IRIREF DELETE { } WHERE { } / ADD DEFAULT TO IRIREF", 60_000, 2_000_000),
                s("pairs", Update, "Update1 ; Update1", iri, 100_000, 2_000_000),
                s("pairs-trailing", Update, "Update1 ; Update1 ;", "iri=IRIREF ; Quads= ; GroupGraphPattern={ } ; Modify=DELETE { } WHERE { }", 60_000, 1_000_000),
                s("graph-refs", Update, "Load ; Clear ; Add", "", 60_000, 600_000),
                s("quads-in-ops", Update, "Update1", "iri=IRIREF ; VarOrIri=IRIREF ; TriplesSameSubject=VAR1 a VAR1 ; GroupGraphPattern={ VAR1 a VAR1 }", 60_000, 1_000_000),
                s("where", Update, "DELETE { } USING IRIREF WHERE GroupGraphPattern", SKEL, 30_000, 400_000),
                cover_job(c, Update, if c.thorough { 7 } else { 5 }, BOTH),
                strings(c, "malformed", Update, "", "LOAD CLEAR CREATE ADD SILENT GRAPH DEFAULT ALL INTO TO IRIREF ;", "", c.cap(300_000, 4_000_000), PLAIN),
                strings(c, "malformed-modify", Update, "", "WITH DELETE INSERT USING NAMED WHERE IRIREF { } INSERT_DATA", "", c.cap(200_000, 4_000_000), PLAIN),
            ];
            v.push(s("copy-move", Update, "Copy ; Move ; Create ; Drop", "iri=IRIREF", 20_000, 400_000));
            v
        }
        "C16" => {
            let q = "TriplesSameSubject=VAR1 IRIREF VAR1 ; VarOrIri=VAR1 / IRIREF ; GroupGraphPattern={ }";
            let min = "TriplesSameSubject=NIL a NIL ; VarOrIri=IRIREF ; GroupGraphPattern={ }";
            let mut v = vec![];
            for (n, form) in [
                ("insert-data", "INSERT_DATA { Quads }"),
                ("delete-data", "DELETE_DATA { Quads }"),
                ("delete-where", "DELETE_WHERE { Quads }"),
                ("delete", "DELETE { Quads } WHERE { }"),
                ("insert", "INSERT { Quads } WHERE { }"),
                ("delete-insert", "DELETE { Quads } INSERT { Quads } WHERE { }"),
                ("with", "WITH IRIREF DELETE { Quads } INSERT { Quads } USING IRIREF WHERE { }"),
                ("sequence", "INSERT_DATA { Quads } ; DELETE_DATA { Quads }"),
            ] {
                v.push(s(n, Update, form, min, 25_000, 600_000));
                v.push(s(&format!("{}-kinds", n), Update, form, q, 15_000, 300_000));
            }
            v.push(s("triples", Update, "INSERT_DATA { Quads }", "VarOrTerm=VAR1 ; Verb=a ; VarOrIri=IRIREF", 60_000, 1_500_000));
            v.push(s("terms", Update, "INSERT_DATA { Quads }", "", 40_000, 1_000_000));
            v.push(strings(c, "malformed", Update, "INSERT_DATA {", "VAR1 a . ; GRAPH IRIREF { } ,", "}", c.cap(300_000, 5_000_000), PLAIN));
            v
        }
        "C17" => c17(c),
        "C18" => c18(c),
        "C19" => c19(c),
        "C20" => {
            let mut v = vec![edits(c, "edit-cover", Update, cover(c, Update, if c.thorough { 6 } else { 4 }, usize::MAX), U_ALPHA, "grammar cover")];
            for (n, form, stubs, cap, tcap) in [
                ("edit-operations", "Update1", "iri=IRIREF ; Quads= / VAR1 a VAR1 ; GroupGraphPattern={ } ; VarOrIri=IRIREF", 1200, 20000),
                ("edit-sequence", "Update", "Prologue= / BASE IRIREF ; Update1=CLEAR ALL / DROP SILENT NAMED / INSERT_DATA { } / LOAD IRIREF ; iri=IRIREF", 1200, 20000),
                ("edit-quads", "INSERT_DATA { Quads }", "TriplesSameSubject=VAR1 a VAR1 ; VarOrIri=IRIREF", 1200, 20000),
                ("edit-template", "DELETE_WHERE { TriplesTemplate }", "VarOrTerm=VAR1 ; Verb=a", 800, 20000),
                ("edit-modify", "Modify", "iri=IRIREF ; Quads= ; GroupGraphPattern={ }", 800, 20000),
                ("edit-where", "DELETE { } WHERE GroupGraphPattern", SKEL, 800, 20000),
            ] {
                let sp = Space::new(m, Spec::new(m, Update, form, stubs), c.cap(cap, tcap), 60);
                let what = format!("all of <{}> up to {} tokens", form, sp.len);
                v.push(edits(c, n, Update, sp.all(), U_ALPHA, &what));
            }
            let st = |n: &str, pre: &str, al: &str, suf: &str| strings(c, n, Update, pre, al, suf, c.cap(200_000, 5_000_000), PLAIN);
            v.extend(vec![
                st("str-ops", "", "LOAD CLEAR DROP SILENT GRAPH DEFAULT ALL NAMED INTO IRIREF ;", ""),
                st("str-copy", "", "ADD COPY SILENT GRAPH DEFAULT ALL TO IRIREF ; VAR1", ""),
                st("str-modify", "", "WITH DELETE INSERT USING NAMED WHERE IRIREF { } INSERT_DATA", ""),
                st("str-modify-2", "DELETE {", "} INSERT USING NAMED WHERE IRIREF { ;", "{ }"),
                st("str-quads", "INSERT_DATA {", "VAR1 a . ; GRAPH IRIREF { } ,", "}"),
                st("str-template", "DELETE_DATA { VAR1", "a VAR1 . ; , ( ) [ ] ANON", "}"),
                st("str-prologue", "CLEAR ALL", "BASE PREFIX IRIREF PNAME_NS ; CLEAR ALL", ""),
            ]);
            v
        }
        "C21" => c21(),
        "C22" => c22(c),
        "C23" => c23(c),
        "C24" => c24(c),
        "C25" => c25(c),
        "C26" => c26(c),
        "C27" => c27(c),
        "C28" => c28(c),
        "C29" => c29(c),
        _ => also(vec![], vec![]),
    }
}

/// The rules of the grammar a property is about.
fn home(id: &str) -> (&'static [&'static str], &'static [Entry]) {
    use Entry::*;
    match id {
        "C04" => (&["Query", "SelectQuery", "SelectClause", "SelectItem", "ConstructQuery", "ConstructShort", "ConstructTemplate", "DescribeQuery", "AskQuery", "DatasetClause", "WhereClause", "SolutionModifier", "ValuesClause"], &[Query]),
        "C05" => (&["Prologue"], &[Query, Update]),
        "C06" => (&["SolutionModifier", "GroupClause", "GroupCondition", "GroupAs", "HavingClause", "OrderClause", "OrderCondition", "OrderDir", "LimitOffsetClauses"], &[Query]),
        "C07" => (&["GroupGraphPattern", "GroupGraphPatternSub", "GroupEntry", "TriplesBlock", "GraphPatternNotTriples", "ServiceGraphPattern", "GroupOrUnionGraphPattern", "Constraint", "SubSelect"], &[Query, Update]),
        "C08" => (
            &["ConstructTriples", "TriplesTemplate", "TriplesBlock", "TriplesSameSubject", "TriplesSameSubjectPath", "PropertyList", "PropertyListPath", "PropertyListNotEmpty", "PropertyListPathNotEmpty", "Verb", "VerbPathOrSimple", "ObjectList", "ObjectListPath", "TriplesNode", "TriplesNodePath", "Collection", "CollectionPath", "GraphNode", "GraphNodePath"],
            &[Query, Update],
        ),
        "C09" => (&["PathAlternative", "PathSequence", "PathElt", "PathEltOrInverse", "PathMod", "PathPrimary", "PathNegatedPropertySet", "PathOneInPropertySet", "IriOrA"], &[Query]),
        "C10" => (&["Expression", "ConditionalAndExpression", "RelationalExpression", "RelTail", "AdditiveExpression", "AddTail", "MultiplicativeExpression", "MulTail", "UnaryExpression", "PrimaryExpression", "ExpressionList", "SignedNumericLiteral"], &[Query]),
        "C11" => (&["BuiltInCall", "BnodeArgs", "Fn0", "Fn1", "Fn2", "RegexExpression", "SubstringExpression", "StrReplaceExpression", "Aggregate", "Count", "AggFn", "GroupConcat", "IriOrFunction", "ArgList", "ExpressionList"], &[Query]),
        "C12" => (&["RDFLiteral", "String", "NumericLiteral", "NumericLiteralUnsigned", "NumericLiteralPositive", "NumericLiteralNegative", "BooleanLiteral"], &[Query, Update]),
        "C13" => (&["Var", "iri", "PrefixedName", "BlankNode", "VarOrIri", "PathOneInPropertySet"], &[Query, Update]),
        "C14" => (&["DataBlock", "InlineDataOneVar", "InlineDataFull", "DataRow", "DataBlockValue", "ValuesClause"], &[Query, Update]),
        "C15" => (&["Update", "UpdateTail", "Update1", "Load", "Clear", "Drop", "Create", "Add", "Move", "Copy", "Modify", "UsingClause", "GraphOrDefault", "GraphRefAll"], &[Update]),
        "C16" => (&["Quads", "QuadsEntry", "QuadsNotTriples", "TriplesTemplate"], &[Update]),
        "C24" => (&[], &[Query, Update]),
        _ => (&[], &[]),
    }
}

/// The interplay of what a property is about with everything else.
pub fn interplay(c: &Ctx, id: &'static str) -> Vec<Job> {
    use Entry::*;
    let (h, es) = home(id);
    let both = [Query, Update];
    let mut v: Vec<Job> = vec![];
    match id {
        "C27" | "C28" | "C29" => return v,
        "C17" => v.extend(both.iter().map(|e| pairs(c, *e, &[], 250_000, 3_000_000, LAYOUTS))),
        "C18" => v.extend(both.iter().map(|e| pairs(c, *e, &[], 250_000, 3_000_000, CASES))),
        "C19" => v.extend(both.iter().map(|e| pairs(c, *e, &[], 250_000, 3_000_000, NAMES))),
        "C03" => v.push(token_slips(c, Query)),
        "C20" => v.push(token_slips(c, Update)),
        "C02" => v.extend(both.iter().map(|e| tails(c, *e))),
        "C01" => {
            v.extend(both.iter().map(|e| cut_off(c, *e)));
            v.extend(both.iter().map(|e| leaf_survival(c, *e)));
            v.extend(both.iter().map(|e| misaligned(c, *e, &[], c.cap(1_200, 40_000))));
            v.extend(both.iter().map(|e| siblings(c, *e, &[], c.cap(60, 600) as usize)));
            v.push(limit_texts());
            v.extend(c12(c).into_iter().filter(|j| j.name == "number-bounds"));
            v.push(regular_tables(c));
        }
        "C25" => {
            v.extend(both.iter().map(|e| one_buffer(c, *e)));
            v.extend(both.iter().map(|e| alike(c, *e, &[], c.cap(2_500, 60_000))));
            v.extend(both.iter().map(|e| distances(c, *e, &[], c.cap(3_000, 60_000))));
            v.extend(interleaved(c));
        }
        "C26" => {
            v.extend(both.iter().map(|e| leaf_equality(c, *e)));
            v.extend(both.iter().map(|e| near_equality(c, *e)));
            v.extend(both.iter().map(|e| pen_equality(c, *e)));
            v.extend(both.iter().map(|e| absent_equality(c, *e)));
            v.extend(both.iter().map(|e| alike_equality(c, *e)));
            v.extend(both.iter().map(|e| rearranged(c, *e, c.cap(6, 16) as usize)));
        }
        _ => {
            let cap = if id == "C24" { 600_000 } else { 400_000 };
            v.extend(es.iter().map(|e| pairs(c, *e, h, cap, 3_000_000, MANY)));
            v.extend(es.iter().map(|e| leaf_job(c, *e, h, c.cap(20_000, 500_000))));
            v.extend(es.iter().map(|e| two_leaves(c, *e, h, c.cap(1_200, 15_000))));
            // the grammar below the rules takes a while to lay out
            let needs: &[u32] = if h.is_empty() { &[1] } else { &[1, 2, 3] };
            std::thread::scope(|sc| {
                let hs: Vec<_> = es.iter().flat_map(|e| needs.iter().map(move |n| (*e, *n))).map(|(e, n)| sc.spawn(move || triples(c, e, h, n, if h.is_empty() { 500_000 } else { 250_000 }, 3_000_000, BOTH))).collect();
                v.extend(hs.into_iter().map(|h| h.join().unwrap()));
            });
        }
    }
    match id {
        "C01" | "C21" | "C22" | "C23" | "C25" | "C26" => {}
        "C03" => v.push(slips_of_the_pen(c, Query, &[], c.cap(6_000, 200_000))),
        "C20" => v.push(slips_of_the_pen(c, Update, &[], c.cap(6_000, 200_000))),
        "C02" | "C17" | "C18" | "C19" => v.extend(both.iter().map(|e| slips_of_the_pen(c, *e, &[], c.cap(1_000, 100_000)))),
        _ => v.extend(es.iter().map(|e| slips_of_the_pen(c, *e, h, c.cap(4_000, 100_000)))),
    }
    v.extend(short_strings(c, id));
    if let "C17" | "C24" | "C02" | "C26" = id {
        v.extend(both.iter().map(|e| misaligned(c, *e, &[], c.cap(300, 10_000))));
        v.extend(both.iter().map(|e| distances(c, *e, &[], c.cap(1_000, 40_000))));
    }
    match id {
        "C02" | "C03" | "C17" | "C18" | "C19" | "C20" | "C21" | "C22" | "C25" | "C26" => {}
        "C01" => v.extend(both.iter().map(|e| long_leaves(c, *e, &[]))),
        "C23" => {
            v.extend(both.iter().map(|e| odd_one(c, *e, &[], c.cap(20, 48) as usize)));
            v.extend(both.iter().map(|e| grid(c, *e, &[], c.cap(6, 12) as usize)));
            v.extend(both.iter().map(|e| long_leaves(c, *e, &[])));
        }
        "C24" => {
            v.extend(both.iter().map(|e| odd_one(c, *e, &[], c.cap(10, 24) as usize)));
            v.extend(both.iter().map(|e| siblings(c, *e, &[], c.cap(250, 2_000) as usize)));
        }
        _ => {
            v.extend(es.iter().map(|e| odd_one(c, *e, h, c.cap(40, 80) as usize)));
            v.extend(es.iter().map(|e| grid(c, *e, h, c.cap(6, 12) as usize)));
            v.extend(es.iter().map(|e| long_leaves(c, *e, h)));
            v.extend(es.iter().map(|e| alike(c, *e, h, c.cap(1_000, 20_000))));
            v.extend(es.iter().map(|e| misaligned(c, *e, h, c.cap(200, 10_000))));
            v.extend(es.iter().map(|e| distances(c, *e, h, c.cap(600, 20_000))));
            v.extend(es.iter().map(|e| siblings(c, *e, h, c.cap(1_000, 4_000) as usize)));
        }
    }
    v
}

/// What else may stand in the place of a name or a literal.
fn leaf_values(kind: &str) -> &'static [&'static str] {
    const INTS: &[&str] = &["0", "1", "2", "00", "007", "9", "10", "12", "99", "100", "127", "128", "255", "256", "1000", "1024", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9007199254740993", "9223372036854775807"];
    const DECS: &[&str] = &["0.0", ".0", "1.0", "2.0", ".5", "0.1", "00.10", "3.14", "10.50", "0.000001", "123456789.987654321", "9007199254740993.0"];
    const DBLS: &[&str] = &["0e0", "1e0", "1E5", "1e+5", "1e-5", ".5e1", "1.e1", "1.5E-3", "0.0e0", "1e10", "12.50e07", "1e300", "1e-300"];
    match kind {
        "VAR1" | "VAR2" => &["?a", "$a", "?x", "?A", "?0", "?_", "?s", "?p", "?o", "?g", "?select", "?a1", "$values", "?\u{e9}", "?abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdef"],
        "IRIREF" | "PNAME_LN" | "PNAME_NS" => &[
            "<>", "<a>", "<#>", "<A>", "<http://www.w3.org/1999/02/22-rdf-syntax-ns#type>", "<http://www.w3.org/1999/02/22-rdf-syntax-ns#nil>", "<http://www.w3.org/1999/02/22-rdf-syntax-ns#langString>", "<http://www.w3.org/2001/XMLSchema#string>",
            "<http://www.w3.org/2001/XMLSchema#boolean>", "<http://www.w3.org/2001/XMLSchema#integer>", "rdf:type", "rdf:nil", "rdf:first", "xsd:string", "xsd:integer", "xsd:boolean", "xsd:double", "p:", ":", ":a", "a:a", "p:a", "P:a", "p:1", "é:é",
            "<http://example.org/a/very/long/path/with/many/segments/that/goes/on/and/on/and/on?and=a&query=too#and-a-fragment>", "base:x", "prefix:", "p:a.b", "p:%20", "<?x>", "<a:b>",
        ],
        "BLANK_NODE_LABEL" => &["_:a", "_:b", "_:0", "_:A", "_:a.b", "_:genid1", "_:_", "_:b0"],
        "LANGTAG" => &["@en", "@EN", "@en-us", "@en-US", "@x", "@de-CH-1996", "@i-default"],
        "INTEGER" => INTS,
        "DECIMAL" => DECS,
        "DOUBLE" => DBLS,
        "INTEGER_POSITIVE" => &["+0", "+1", "+007", "+10", "+255", "+2147483648", "+9223372036854775807", "+1.0", "+1e0", "1"],
        "INTEGER_NEGATIVE" => &["-0", "-1", "-007", "-10", "-255", "-2147483648", "-9223372036854775808", "-1.0", "-1e0", "1"],
        "DECIMAL_POSITIVE" => &["+0.0", "+.5", "+1.0", "+00.10", "+123456789.987654321"],
        "DECIMAL_NEGATIVE" => &["-0.0", "-.5", "-1.0", "-00.10", "-123456789.987654321"],
        "DOUBLE_POSITIVE" => &["+0e0", "+1e0", "+.5E-3", "+1.e5", "+1e+5"],
        "DOUBLE_NEGATIVE" => &["-0e0", "-1e0", "-.5E-3", "-1.e5", "-1e+5"],
        "STRING_LITERAL1" | "STRING_LITERAL2" => &["''", "\"\"", "' '", "'a'", "\"a\"", "\"A\"", "'\"'", "\"'\"", "'\\\\'", "'\\''", "\"\\\"\"", "'\\n'", "'0'", "'true'", "'#'", "'}'", "'?x'", "'<a>'", "'a b  c'", "'\u{e9}\u{1F600}'", "'@en'", "'^^'", "'''a'''", "' a '", "'abcdefghijklmnopqrstuvwxyz abcdefghijklmnopqrstuvwxyz abcdefghijklmnopqrstuvwxyz abcdefghijklmnopqrstuvwxyz abcdefghijklmnopqrstuvwxyz abcdefghijklmnopqrstuvwxyz'"],
        "STRING_LITERAL_LONG1" | "STRING_LITERAL_LONG2" => &["''''''", "\"\"\"\"\"\"", "'''a'''", "'''\n'''", "'''a'b'''", "'''a''b'''", "\"\"\"a\"b\"\"\"", "\"\"\"a\"\"b\"\"\"", "'''\\'''''", "'''\r\n'''", "'''\"\"\"'''", "''' '''", "''"],
        "TRUE" => &["true", "True", "TRUE", "false", "tRUE", "'true'^^xsd:boolean", "'true'", "1"],
        "FALSE" => &["false", "False", "FALSE", "true", "fALSE", "'false'^^xsd:boolean", "0"],
        "NIL" => &["()", "( )", "(\n)", "(#c\n)", "<http://www.w3.org/1999/02/22-rdf-syntax-ns#nil>", "rdf:nil", "(())"],
        "a" => &["a", "<http://www.w3.org/1999/02/22-rdf-syntax-ns#type>", "rdf:type", "a:", ":a", "?a"],
        "ANON" => &["[]", "[ ]", "[\n]", "[#c\n]", "_:a", "_:b0", "()"],
        _ => &[],
    }
}
