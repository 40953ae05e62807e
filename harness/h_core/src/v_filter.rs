//! Filters for remote databases: built from prefix form, converted by the real code, read back with each database's
//! grammar (taken from the specification) and, for SQLite, by SQLite itself; and evaluated locally by DataFusion.
use crate::filter_pushdown::{filter_expr_to_sql, MySQLFilterPushdown, PostgresFilterPushdown, SQLiteFilterPushdown};
use crate::v_cases::{known, load, run, Verdict};
use crate::v_util::s;
use arrow::array::{Array, ArrayRef, BooleanArray, Int64Array, RecordBatch, StringArray};
use arrow::datatypes::{DataType, Field, Schema};
use datafusion::logical_expr::expr::{InList, Placeholder};
use datafusion::logical_expr::{binary_expr, col, create_udf, lit, ColumnarValue, Expr, Like, Operator, ScalarUDF, Volatility};
use datafusion::physical_expr::{create_physical_expr, execution_props::ExecutionProps};
use datafusion::scalar::ScalarValue;
use datafusion_common::{Column, DFSchema};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::ffi::{c_int, CStr, CString};
use std::sync::Arc;

pub fn to_sql(e: &Expr, db: &str) -> Result<String, String> {
    match db {
        "postgres" => filter_expr_to_sql(e, PostgresFilterPushdown {}),
        "sqlite" => filter_expr_to_sql(e, SQLiteFilterPushdown {}),
        "mysql" => filter_expr_to_sql(e, MySQLFilterPushdown {}),
        x => panic!("harness: {x}"),
    }
    .map_err(|e| e.to_string())
}

// ------------------------------------------------------------------------------------------------ SQLite
pub struct Lite(*mut libsqlite3_sys::sqlite3);
impl Lite {
    pub fn new() -> Lite {
        let mut db = std::ptr::null_mut();
        let rc = unsafe { libsqlite3_sys::sqlite3_open(c":memory:".as_ptr(), &mut db) };
        assert_eq!(rc, 0, "harness: sqlite");
        Lite(db)
    }
    /// Rows of optional integers/texts (as strings); the whole text must be one statement
    pub fn query(&self, sql: &str) -> Result<Vec<Vec<Option<String>>>, String> {
        use libsqlite3_sys::*;
        unsafe {
            let c = CString::new(sql).map_err(|_| "NUL in statement".to_string())?;
            let (mut st, mut tail) = (std::ptr::null_mut(), std::ptr::null());
            if sqlite3_prepare_v2(self.0, c.as_ptr(), -1, &mut st, &mut tail) != 0 {
                return Err(CStr::from_ptr(sqlite3_errmsg(self.0)).to_string_lossy().into());
            }
            let rest = CStr::from_ptr(tail).to_string_lossy().trim().to_string();
            if !rest.is_empty() {
                sqlite3_finalize(st);
                return Err(format!("more than a statement: {rest}"));
            }
            let mut rows = vec![];
            loop {
                match sqlite3_step(st) {
                    100 => rows.push(
                        (0..sqlite3_column_count(st))
                            .map(|i| {
                                if sqlite3_column_type(st, i) == 5 {
                                    return None;
                                }
                                let n = {
                                    sqlite3_column_text(st, i);
                                    sqlite3_column_bytes(st, i)
                                } as usize;
                                let p = sqlite3_column_text(st, i);
                                Some(String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned())
                            })
                            .collect(),
                    ),
                    101 => break,
                    _ => {
                        let e = CStr::from_ptr(sqlite3_errmsg(self.0)).to_string_lossy().into();
                        sqlite3_finalize(st);
                        return Err(e);
                    }
                }
            }
            sqlite3_finalize(st);
            Ok(rows)
        }
    }
}
impl Drop for Lite {
    fn drop(&mut self) {
        unsafe { libsqlite3_sys::sqlite3_close(self.0) };
    }
}

// ------------------------------------------------------------------------------------------------ reading SQL
#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Name(String),
    Text(String),
    Num(String),
    Word(String),
    Op(String),
    Open,
    Close,
    Comma,
}
/// The lexical rules of each database (names and texts; see Quoting.tla for those rules as a specification)
pub fn lex(db: &str, t: &str) -> Result<Vec<Tok>, String> {
    let cs: Vec<char> = t.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < cs.len() {
        let c = cs[i];
        match c {
            '\0' => return Err("NUL".into()),
            c if c.is_whitespace() => i += 1,
            '(' | ')' | ',' => {
                out.push(match c {
                    '(' => Tok::Open,
                    ')' => Tok::Close,
                    _ => Tok::Comma,
                });
                i += 1
            }
            '\'' | '"' | '`' => {
                let text = c == '\'' || (c == '"' && db == "mysql");
                if c == '`' && db == "postgres" {
                    return Err("backtick".into());
                }
                let mut v = String::new();
                i += 1;
                loop {
                    match cs.get(i) {
                        None => return Err("unterminated".into()),
                        Some('\0') => return Err("NUL".into()),
                        Some('\\') if text && db == "mysql" => {
                            let e = *cs.get(i + 1).ok_or("unterminated")?;
                            match e {
                                'n' => v.push('\n'),
                                't' => v.push('\t'),
                                'r' => v.push('\r'),
                                'b' => v.push('\u{8}'),
                                '0' => v.push('\0'),
                                'Z' => v.push('\u{1a}'),
                                '%' | '_' => {
                                    v.push('\\');
                                    v.push(e)
                                }
                                x => v.push(x),
                            }
                            i += 2
                        }
                        Some(x) if *x == c => {
                            if cs.get(i + 1) == Some(&c) {
                                v.push(c);
                                i += 2
                            } else {
                                i += 1;
                                break;
                            }
                        }
                        Some(x) => {
                            v.push(*x);
                            i += 1
                        }
                    }
                }
                out.push(if text { Tok::Text(v) } else { Tok::Name(v) });
            }
            c if c.is_ascii_digit() => {
                let a = i;
                while i < cs.len() && (cs[i].is_ascii_alphanumeric() || cs[i] == '.') {
                    i += 1
                }
                out.push(Tok::Num(cs[a..i].iter().collect()));
            }
            c if c.is_alphabetic() || c == '_' => {
                let a = i;
                while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') {
                    i += 1
                }
                out.push(Tok::Word(cs[a..i].iter().collect::<String>().to_uppercase()));
            }
            '-' if cs.get(i + 1) == Some(&'-') => return Err("a comment".into()),
            '#' if db == "mysql" => return Err("a comment".into()),
            _ => {
                let a = i;
                while i < cs.len() && "<>=!~*|&#^+-/%@:?.;$".contains(cs[i]) && (i == a || cs[i] != '-') {
                    i += 1
                }
                if i == a {
                    return Err(format!("unexpected {c:?}"));
                }
                out.push(Tok::Op(cs[a..i].iter().collect()));
            }
        }
    }
    Ok(out)
}

#[derive(Clone, Debug)]
pub enum Node {
    Name(String),
    Text(String),
    Num(String),
    Null,
    Bool(bool),
    Un(String, Box<Node>),
    Bin(String, Box<Node>, Box<Node>),
    In(bool, Box<Node>, Vec<Node>),
}
pub struct Grammar(HashMap<(String, String, bool), (u32, char)>);
impl Grammar {
    pub fn new(g: &Value) -> Grammar {
        Grammar(
            g["grammar"]
                .as_array()
                .expect("harness: grammar")
                .iter()
                .map(|x| {
                    let a = s(x, "assoc").chars().next().unwrap();
                    let prefix = a == 'u' || a == 'p';
                    ((s(x, "db").into(), s(x, "op").into(), prefix), (x["level"].as_u64().unwrap() as u32, a))
                })
                .collect(),
        )
    }
    pub fn parse(&self, db: &str, t: &str) -> Result<Node, String> {
        let toks = lex(db, t)?;
        let mut p = Parser { g: self, db, t: toks, i: 0 };
        let n = p.expr(0)?;
        if p.i != p.t.len() {
            return Err(format!("cannot follow: {:?}", p.t[p.i]));
        }
        Ok(n)
    }
}
struct Parser<'a> {
    g: &'a Grammar,
    db: &'a str,
    t: Vec<Tok>,
    i: usize,
}
impl Parser<'_> {
    fn word(&self, k: usize) -> &str {
        match self.t.get(self.i + k) {
            Some(Tok::Word(w)) => w,
            _ => "",
        }
    }
    /// The operator that follows the operand just read, and its length in tokens
    fn infix(&self) -> Option<(String, usize)> {
        match self.t.get(self.i)? {
            Tok::Op(o) => Some((o.clone(), 1)),
            Tok::Word(w) => {
                let (a, b, c) = (self.word(1), self.word(2), self.word(3));
                Some(match w.as_str() {
                    "IS" if a == "NOT" && b == "DISTINCT" && c == "FROM" => ("IS NOT DISTINCT FROM".into(), 4),
                    "IS" if a == "DISTINCT" && b == "FROM" => ("IS DISTINCT FROM".into(), 3),
                    "IS" if a == "NOT" => (format!("IS NOT {b}"), 3),
                    "IS" => (format!("IS {a}"), 2),
                    "NOT" => (format!("NOT {a}"), 2),
                    _ => (w.clone(), 1),
                })
            }
            _ => None,
        }
    }
    fn level(&self, op: &str, prefix: bool) -> Result<(u32, char), String> {
        self.g.0.get(&(self.db.to_string(), op.to_string(), prefix)).copied().ok_or(format!("no operator {op} in {}", self.db))
    }
    fn expr(&mut self, min: u32) -> Result<Node, String> {
        let mut l = match self.t.get(self.i).cloned() {
            None => return Err("an operand is missing".into()),
            Some(Tok::Open) => {
                self.i += 1;
                let n = self.expr(0)?;
                if self.t.get(self.i) != Some(&Tok::Close) {
                    return Err("unbalanced".into());
                }
                self.i += 1;
                n
            }
            Some(Tok::Name(n)) => {
                self.i += 1;
                Node::Name(n)
            }
            Some(Tok::Text(n)) => {
                self.i += 1;
                Node::Text(n)
            }
            Some(Tok::Num(n)) => {
                self.i += 1;
                Node::Num(n)
            }
            Some(Tok::Word(w)) if ["NULL", "TRUE", "FALSE"].contains(&w.as_str()) => {
                self.i += 1;
                match w.as_str() {
                    "NULL" => Node::Null,
                    w => Node::Bool(w == "TRUE"),
                }
            }
            Some(Tok::Word(w)) if w == "NOT" => {
                let (lv, _) = self.level("NOT", true)?;
                if self.db == "mysql" && min > lv {
                    return Err("NOT as an operand".into());
                }
                self.i += 1;
                Node::Un("NOT".into(), Box::new(self.expr(lv)?))
            }
            Some(Tok::Op(o)) if o == "-" => {
                let (lv, _) = self.level("-", true)?;
                self.i += 1;
                Node::Un("-".into(), Box::new(self.expr(lv)?))
            }
            Some(x) => return Err(format!("not an operand: {x:?}")),
        };
        // after an operator that does not group with its like, none of that level may follow
        let mut closed: Option<u32> = None;
        let mut at_most = u32::MAX;
        while let Some((op, n)) = self.infix() {
            let (lv, a) = self.level(&op, false)?;
            if closed == Some(lv) || lv > at_most {
                return Err(format!("{op} cannot follow"));
            }
            if lv < min {
                break;
            }
            self.i += n;
            closed = None;
            match a {
                's' | 'e' => {
                    if op.ends_with("IN") {
                        if self.t.get(self.i) != Some(&Tok::Open) {
                            return Err("a list is missing".into());
                        }
                        self.i += 1;
                        let mut v = vec![];
                        loop {
                            v.push(self.expr(0)?);
                            self.i += 1;
                            match self.t.get(self.i - 1) {
                                Some(Tok::Comma) => {}
                                Some(Tok::Close) => break,
                                _ => return Err("unbalanced list".into()),
                            }
                        }
                        l = Node::In(op == "NOT IN", Box::new(l), v);
                    } else {
                        l = Node::Un(op, Box::new(l));
                    }
                    if a == 'e' {
                        at_most = lv - 1;
                    }
                }
                _ => {
                    let r = self.expr(lv + 1)?;
                    l = Node::Bin(op, Box::new(l), Box::new(r));
                    if a == 'n' {
                        closed = Some(lv);
                    }
                }
            }
        }
        Ok(l)
    }
}

#[derive(Clone, Debug, PartialEq, PartialOrd)]
enum V {
    Null,
    I(i64),
    S(String),
}
fn eval(db: &str, n: &Node, row: &HashMap<&str, V>) -> Result<V, String> {
    let b = |x: bool| V::I(x as i64);
    let go = |n: &Node| eval(db, n, row);
    Ok(match n {
        Node::Name(x) => row.get(x.as_str()).cloned().ok_or(format!("no column {x}"))?,
        Node::Text(t) => V::S(t.clone()),
        Node::Num(t) => V::I(t.parse().map_err(|_| format!("number {t}"))?),
        Node::Null => V::Null,
        Node::Bool(x) => b(*x),
        Node::Un(o, x) => {
            let v = go(x)?;
            match o.as_str() {
                "NOT" => match v {
                    V::Null => V::Null,
                    V::I(x) => b(x == 0),
                    v => return Err(format!("NOT {v:?}")),
                },
                "-" => match v {
                    V::Null => V::Null,
                    V::I(x) => V::I(-x),
                    v => return Err(format!("- {v:?}")),
                },
                "IS NULL" | "IS UNKNOWN" => b(v == V::Null),
                "IS NOT NULL" | "IS NOT UNKNOWN" => b(v != V::Null),
                "IS TRUE" => b(v != V::Null && v != V::I(0)),
                "IS NOT TRUE" => b(!(v != V::Null && v != V::I(0))),
                "IS FALSE" => b(v == V::I(0)),
                "IS NOT FALSE" => b(v != V::I(0)),
                o => return Err(format!("no operator {o}")),
            }
        }
        Node::In(neg, x, l) => {
            let v = go(x)?;
            let l: Vec<V> = l.iter().map(go).collect::<Result<_, _>>()?;
            if v == V::Null {
                V::Null
            } else if l.contains(&v) {
                b(!neg)
            } else if l.contains(&V::Null) {
                V::Null
            } else {
                b(*neg)
            }
        }
        Node::Bin(o, x, y) => {
            let (x, y) = (go(x)?, go(y)?);
            let o = match o.as_str() {
                "||" if db == "mysql" => "OR",
                "<>" => "!=",
                "==" => "=",
                "^" => "#",
                o => o,
            };
            match o {
                "AND" if x == V::I(0) || y == V::I(0) => b(false),
                "OR" if matches!(x, V::I(n) if n != 0) || matches!(y, V::I(n) if n != 0) => b(true),
                "IS DISTINCT FROM" => b(x != y),
                "IS NOT DISTINCT FROM" | "<=>" => b(x == y),
                _ if x == V::Null || y == V::Null => V::Null,
                "AND" => b(true),
                "OR" => b(false),
                "=" => b(x == y),
                "!=" => b(x != y),
                "<" => b(x < y),
                "<=" => b(x <= y),
                ">" => b(x > y),
                ">=" => b(x >= y),
                _ => match (x, y) {
                    (V::I(x), V::I(y)) => match o {
                        "+" => V::I(x + y),
                        "-" => V::I(x - y),
                        "*" => V::I(x.wrapping_mul(y)),
                        "/" | "%" if y == 0 => V::Null,
                        "/" if db == "mysql" && x % y != 0 => return Err(format!("{x} / {y} is no integer")),
                        "/" => V::I(x / y),
                        "%" => V::I(x % y),
                        "&" => V::I(x & y),
                        "|" => V::I(x | y),
                        "#" => V::I(x ^ y),
                        "<<" => V::I(x.wrapping_shl(y as u32)),
                        ">>" => V::I(x.wrapping_shr(y as u32)),
                        o => return Err(format!("no operator {o} on numbers")),
                    },
                    (V::S(x), V::S(y)) => match o {
                        "||" => V::S(x + &y),
                        "~" | "RLIKE" => b(x.contains(&y)),
                        "!~" | "NOT RLIKE" => b(!x.contains(&y)),
                        "~*" => b(x.to_lowercase().contains(&y.to_lowercase())),
                        "!~*" => b(!x.to_lowercase().contains(&y.to_lowercase())),
                        "~~" => b(x == y),
                        "!~~" => b(x != y),
                        "~~*" => b(x.to_lowercase() == y.to_lowercase()),
                        "!~~*" => b(x.to_lowercase() != y.to_lowercase()),
                        o => return Err(format!("no operator {o} on texts")),
                    },
                    (x, y) => return Err(format!("{x:?} {o} {y:?}")),
                },
            }
        }
    })
}

// ------------------------------------------------------------------------------------------------ F01, F02
struct Build {
    udfs: HashMap<bool, Arc<ScalarUDF>>,
}
fn build(b: &Build, t: &[&str], i: &mut usize) -> (Expr, bool) {
    let w = t[*i];
    *i += 1;
    if w != "(" {
        let bl = |e: Expr| (e, true);
        return match w {
            "a" | "b" => (col(w), false),
            "p" | "q" => (col(w), true),
            "null" => (lit(ScalarValue::Int64(None)), false),
            "bnull" => (lit(ScalarValue::Boolean(None)), true),
            "true" => (lit(true), true),
            "placeholder" => bl(Expr::Placeholder(Placeholder { id: "$1".into(), data_type: Some(DataType::Boolean) })),
            "variable" => bl(Expr::ScalarVariable(DataType::Boolean, vec!["@x".into()])),
            "outer" => bl(Expr::OuterReferenceColumn(DataType::Boolean, Column::from_name("p"))),
            "similar" => bl(Expr::SimilarTo(Like::new(false, Box::new(col("s")), Box::new(lit("x")), None, false))),
            "ilike" => bl(Expr::Like(Like::new(false, Box::new(col("s")), Box::new(lit("x")), Some('x'), true))),
            "unknownlit" => bl(col("s").eq(lit(ScalarValue::Binary(Some(vec![1, 2]))))),
            n => (lit(n.parse::<i64>().unwrap_or_else(|_| panic!("harness: leaf {n}"))), false),
        };
    }
    let o = t[*i];
    *i += 1;
    let mut k: Vec<(Expr, bool)> = vec![];
    while t[*i] != ")" {
        if t[*i] == "s" {
            *i += 1;
            k.push((col("s"), true));
        } else {
            k.push(build(b, t, i));
        }
    }
    *i += 1;
    let text = |op| (binary_expr(col("s"), op, lit("x")), true);
    use Operator::*;
    let mut bin = |op, bool_result| {
        let (r, l) = (k.pop().unwrap().0, k.pop().unwrap().0);
        (binary_expr(l, op, r), bool_result)
    };
    match o {
        "+" => bin(Plus, false),
        "-" => bin(Minus, false),
        "*" => bin(Multiply, false),
        "/" => bin(Divide, false),
        "%" => bin(Modulo, false),
        "&" => bin(BitwiseAnd, false),
        "|" => bin(BitwiseOr, false),
        "#" => bin(BitwiseXor, false),
        "<<" => bin(BitwiseShiftLeft, false),
        ">>" => bin(BitwiseShiftRight, false),
        "=" => bin(Eq, true),
        "!=" => bin(NotEq, true),
        "<" => bin(Lt, true),
        "<=" => bin(LtEq, true),
        ">" => bin(Gt, true),
        ">=" => bin(GtEq, true),
        "distinct" => bin(IsDistinctFrom, true),
        "notdistinct" => bin(IsNotDistinctFrom, true),
        "and" => bin(And, true),
        "or" => bin(Or, true),
        "t=" => text(Eq),
        "t!=" => text(NotEq),
        "~" => text(RegexMatch),
        "!~" => text(RegexNotMatch),
        "~*" => text(RegexIMatch),
        "!~*" => text(RegexNotIMatch),
        "~~" => text(LikeMatch),
        "!~~" => text(NotLikeMatch),
        "~~*" => text(ILikeMatch),
        "!~~*" => text(NotILikeMatch),
        "||" => (binary_expr(binary_expr(col("s"), StringConcat, lit("x")), Eq, lit("xx")), true),
        "in" | "notin" => {
            let mut es = k.into_iter().map(|x| x.0);
            let e = es.next().unwrap();
            (Expr::InList(InList::new(Box::new(e), es.collect(), o == "notin")), true)
        }
        _ => {
            let (e, boolean) = k.pop().unwrap();
            let e = Box::new(e);
            match o {
                "not" => (Expr::Not(e), true),
                "neg" => (Expr::Negative(e), false),
                "isnull" => (Expr::IsNull(e), true),
                "isnotnull" => (Expr::IsNotNull(e), true),
                "istrue" => (Expr::IsTrue(e), true),
                "isfalse" => (Expr::IsFalse(e), true),
                "isnottrue" => (Expr::IsNotTrue(e), true),
                "isnotfalse" => (Expr::IsNotFalse(e), true),
                "udf" => (b.udfs[&boolean].call(vec![*e]), boolean),
                o => panic!("harness: operator {o}"),
            }
        }
    }
}

struct FilterEnv {
    lite: Lite,
    grammar: Grammar,
    schema: DFSchema,
    batches: Vec<RecordBatch>,
    rows: Vec<HashMap<&'static str, V>>,
    build: Build,
    null: i64,
    err: i64,
}
fn filter_env(g: &Value) -> FilterEnv {
    let null = g["null"].as_i64().unwrap();
    let ints = |c: &str| -> Vec<Option<i64>> {
        g["rows"][c].as_array().unwrap().iter().map(|x| x.as_i64()).map(|x| if x == Some(null) { None } else { x }).collect()
    };
    let texts: Vec<Option<String>> =
        g["rows"]["s"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).map(|x| (x != "-").then(|| x.to_string())).collect();
    let lite = Lite::new();
    lite.query("CREATE TABLE t (id INTEGER PRIMARY KEY, a BIGINT, b BIGINT, p BOOLEAN, q BOOLEAN, s TEXT)").unwrap();
    let (a, b, p, q) = (ints("a"), ints("b"), ints("p"), ints("q"));
    let sql = |x: Option<i64>| x.map(|x| x.to_string()).unwrap_or("NULL".into());
    let schema = Arc::new(Schema::new(vec![
        Field::new("a", DataType::Int64, true),
        Field::new("b", DataType::Int64, true),
        Field::new("p", DataType::Boolean, true),
        Field::new("q", DataType::Boolean, true),
        Field::new("s", DataType::Utf8, true),
    ]));
    let (mut batches, mut rows) = (vec![], vec![]);
    for i in 0..a.len() {
        let t = texts[i].as_ref().map(|t| format!("'{t}'")).unwrap_or("NULL".into());
        lite.query(&format!("INSERT INTO t VALUES ({i}, {}, {}, {}, {}, {t})", sql(a[i]), sql(b[i]), sql(p[i]), sql(q[i]))).unwrap();
        let cols: Vec<ArrayRef> = vec![
            Arc::new(Int64Array::from(vec![a[i]])),
            Arc::new(Int64Array::from(vec![b[i]])),
            Arc::new(BooleanArray::from(vec![p[i].map(|x| x == 1)])),
            Arc::new(BooleanArray::from(vec![q[i].map(|x| x == 1)])),
            Arc::new(StringArray::from(vec![texts[i].clone()])),
        ];
        batches.push(RecordBatch::try_new(schema.clone(), cols).unwrap());
        let v = |x: Option<i64>| x.map(V::I).unwrap_or(V::Null);
        rows.push(HashMap::from([
            ("a", v(a[i])),
            ("b", v(b[i])),
            ("p", v(p[i])),
            ("q", v(q[i])),
            ("s", texts[i].clone().map(V::S).unwrap_or(V::Null)),
        ]));
    }
    let udf = |t: DataType| {
        Arc::new(create_udf("same", vec![t.clone()], t, Volatility::Immutable, Arc::new(|a: &[ColumnarValue]| Ok(a[0].clone()))))
    };
    FilterEnv {
        lite,
        grammar: Grammar::new(g),
        schema: DFSchema::try_from(schema.as_ref().clone()).unwrap(),
        batches,
        rows,
        build: Build { udfs: HashMap::from([(true, udf(DataType::Boolean)), (false, udf(DataType::Int64))]) },
        null,
        err: g["err"].as_i64().unwrap(),
    }
}
const DBS: [&str; 3] = ["postgres", "sqlite", "mysql"];

/// Which of the two properties to judge: "meaning" (F01) or "refusal" (F02)
pub fn filters(cfg: &Value) -> Value {
    let all = load(s(cfg, "graph"));
    let g = Arc::new(all.iter().find(|c| c["k"] == "g").expect("harness: no grammar").clone());
    let mode = s(cfg, "mode").to_string();
    let cases: Vec<Value> = all.into_iter().filter(|c| c["k"] == "c").collect();
    let sent: Arc<std::sync::Mutex<HashMap<String, usize>>> = Default::default();
    let sent2 = sent.clone();
    let mut r = run(cases, 8, known(cfg), move || filter_env(&g), move |env, c| filter_case(env, c, &mode, &sent2));
    r["sent"] = json!(*sent.lock().unwrap());
    r
}
fn filter_case(env: &mut FilterEnv, c: &Value, mode: &str, sent: &std::sync::Mutex<HashMap<String, usize>>) -> Verdict {
    let x = s(c, "x").replace('(', " ( ").replace(')', " ) ");
    let toks: Vec<&str> = x.split_whitespace().collect();
    let (e, _) = build(&env.build, &toks, &mut 0);
    let no: Vec<&str> = c["no"].as_array().map(|a| a.iter().filter_map(|x| x.as_str()).collect()).unwrap_or_default();
    let want: Vec<i64> = c["v"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
    let mut n = 0;
    if mode == "refusal" {
        for db in DBS {
            let t = to_sql(&e, db);
            n += 1;
            if no.contains(&db) {
                if let Ok(t) = t {
                    return Err(json!({"what": format!("a filter without exact counterpart in {db} is sent there"),
                                      "filter": format!("{e}"), "text": t}));
                }
            } else if t.is_ok() {
                *sent.lock().unwrap().entry(db.into()).or_default() += 1;
            }
        }
        return Ok(n);
    }
    // the local meaning
    if no.len() < 3 && want.iter().any(|v| *v != env.err) {
        let pe = create_physical_expr(&e, &env.schema, &ExecutionProps::new()).unwrap_or_else(|x| panic!("harness: {e}: {x}"));
        for (i, b) in env.batches.iter().enumerate() {
            if want[i] == env.err {
                continue;
            }
            let a = pe.evaluate(b).and_then(|v| v.into_array(1)).unwrap_or_else(|x| panic!("harness: {e}: {x}"));
            let a = a.as_any().downcast_ref::<BooleanArray>().expect("harness: boolean");
            let got = if a.is_null(0) { env.null } else { a.value(0) as i64 };
            assert!(got == want[i], "harness: the specification misjudges {e} on row {i}: {} instead of {got}", want[i]);
        }
    }
    for db in DBS {
        let Ok(t) = to_sql(&e, db) else { continue };
        *sent.lock().unwrap().entry(db.into()).or_default() += 1;
        let fail = |what: &str, got: Value| {
            json!({"what": format!("{what} in {db}"), "filter": format!("{e}"), "text": t, "got": got, "want": want})
        };
        let node = env.grammar.parse(db, &t).map_err(|m| fail("the text sent is not valid", json!(m)))?;
        let mut got = vec![];
        for (i, r) in env.rows.iter().enumerate() {
            if want[i] == env.err {
                got.push(env.err);
                continue;
            }
            got.push(match eval(db, &node, r).map_err(|m| fail("the text sent has no value", json!(m)))? {
                V::Null => env.null,
                V::I(x) => x,
                V::S(x) => return Err(fail("the text sent is no condition", json!(x))),
            });
        }
        if got != want {
            return Err(fail("the text sent has another meaning", json!(got)));
        }
        n += got.len();
        if db == "sqlite" {
            let rows = env
                .lite
                .query(&format!("SELECT CASE WHEN {t} THEN 1 WHEN NOT ({t}) THEN 0 END FROM t ORDER BY id"))
                .map_err(|m| fail("the text sent is refused", json!(m)))?;
            let got: Vec<i64> = rows
                .iter()
                .enumerate()
                .map(|(i, r)| if want[i] == env.err { env.err } else { r[0].as_ref().map(|x| x.parse().unwrap()).unwrap_or(env.null) })
                .collect();
            if got != want {
                return Err(fail("the text sent selects other rows", json!(got)));
            }
            let rows = env.lite.query(&format!("SELECT id FROM t WHERE {t} ORDER BY id")).map_err(|m| fail("the query is refused", json!(m)))?;
            let ids: Vec<usize> = rows.iter().map(|r| r[0].as_ref().unwrap().parse().unwrap()).filter(|i| want[*i] != env.err).collect();
            let wids: Vec<usize> = (0..want.len()).filter(|i| want[*i] == 1).collect();
            if ids != wids {
                return Err(fail("the query selects other rows", json!(ids)));
            }
        }
    }
    Ok(n)
}

// ------------------------------------------------------------------------------------------------ literals
fn scalar(c: &Value) -> Vec<ScalarValue> {
    use arrow::datatypes::{Int32Type, IntervalDayTime, IntervalMonthDayNano};
    use ScalarValue as S;
    let (k, v, null) = (s(c, "kind"), s(c, "val"), c["want"] == "null");
    let f = |p: fn(&str) -> ScalarValue, n: ScalarValue| vec![if null { n } else { p(v) }];
    macro_rules! num {
        ($t:ident) => {
            f(|v| S::$t(Some(v.parse().expect("harness: number"))), S::$t(None))
        };
    }
    let secs = c["day"].as_i64().unwrap_or(0) * 86400 + c["sec"].as_i64().unwrap_or(0);
    let frac = c["frac"].as_i64().unwrap_or(0);
    let tz: Option<Arc<str>> = Some(Arc::from("+01:00"));
    let some = |x: i64| if null { None } else { Some(x) };
    let list = || arrow::array::ListArray::from_iter_primitive::<Int32Type, _, _>(vec![Some(vec![Some(1), Some(2)])]);
    match k {
        "Int8" => num!(Int8),
        "Int16" => num!(Int16),
        "Int32" => num!(Int32),
        "Int64" => num!(Int64),
        "UInt8" => num!(UInt8),
        "UInt16" => num!(UInt16),
        "UInt32" => num!(UInt32),
        "UInt64" => num!(UInt64),
        "Float32" => num!(Float32),
        "Float64" => num!(Float64),
        "Boolean" => num!(Boolean),
        "Decimal128" => f(|v| S::Decimal128(Some(v.replace('.', "").parse().unwrap()), 10, 2), S::Decimal128(None, 10, 2)),
        "Decimal256" => vec![S::Decimal256(Some(arrow::datatypes::i256::from_i128(v.replace('.', "").parse().unwrap())), 10, 2)],
        "Null" => vec![S::Null],
        "Utf8" => vec![S::Utf8(None)],
        "LargeUtf8" => vec![S::LargeUtf8(None)],
        "Utf8View" => vec![S::Utf8View(None)],
        "Binary" => vec![S::Binary(if null { None } else { Some(vec![0x12, 0x34]) })],
        "LargeBinary" => vec![S::LargeBinary(Some(vec![0x12])), S::LargeBinary(Some(vec![]))],
        "BinaryView" => vec![S::BinaryView(Some(vec![0x12]))],
        "FixedSizeBinary" => vec![S::FixedSizeBinary(2, Some(vec![1, 2]))],
        "Time32Second" => vec![S::Time32Second(Some(5))],
        "Time32Millisecond" => vec![S::Time32Millisecond(Some(5))],
        "Time64Microsecond" => vec![S::Time64Microsecond(Some(5))],
        "Time64Nanosecond" => vec![S::Time64Nanosecond(some(5))],
        "IntervalYearMonth" => vec![S::IntervalYearMonth(Some(5))],
        "IntervalDayTime" => vec![S::IntervalDayTime(Some(IntervalDayTime::new(1, 2)))],
        "IntervalMonthDayNano" => vec![S::IntervalMonthDayNano(some(1).map(|x| IntervalMonthDayNano::new(x as i32, 2, 3)))],
        "DurationSecond" => vec![S::DurationSecond(some(5))],
        "DurationMillisecond" => vec![S::DurationMillisecond(Some(5))],
        "DurationMicrosecond" => vec![S::DurationMicrosecond(Some(5))],
        "DurationNanosecond" => vec![S::DurationNanosecond(Some(5))],
        "List" => vec![S::List(Arc::new(list()))],
        "LargeList" => vec![S::LargeList(Arc::new(
            arrow::array::LargeListArray::from_iter_primitive::<Int32Type, _, _>(vec![Some(vec![Some(1)])]),
        ))],
        "FixedSizeList" => vec![S::FixedSizeList(Arc::new(
            arrow::array::FixedSizeListArray::from_iter_primitive::<Int32Type, _, _>(vec![Some(vec![Some(1)])], 1),
        ))],
        "Struct" => vec![S::Struct(Arc::new(arrow::array::StructArray::from(vec![(
            Arc::new(Field::new("a", DataType::Int64, true)),
            Arc::new(Int64Array::from(vec![1])) as ArrayRef,
        )])))],
        "Date32" => vec![S::Date32(some(secs.div_euclid(86400)).map(|x| x as i32))],
        "Date64" => vec![S::Date64(some(secs * 1000 + frac / 1_000_000))],
        "TimestampSecond" => vec![S::TimestampSecond(some(secs), None)],
        "TimestampMillisecond" => vec![S::TimestampMillisecond(some(secs * 1000 + frac / 1_000_000), None)],
        "TimestampMicrosecond" => vec![S::TimestampMicrosecond(some(secs * 1_000_000 + frac / 1000), None)],
        "TimestampNanosecond" => vec![S::TimestampNanosecond(some(secs.wrapping_mul(1_000_000_000).wrapping_add(frac)), None)],
        "TimestampSecondTz" => vec![S::TimestampSecond(some(secs), tz)],
        "TimestampMillisecondTz" => vec![S::TimestampMillisecond(some(secs * 1000), tz)],
        "TimestampMicrosecondTz" => vec![S::TimestampMicrosecond(some(secs * 1_000_000), tz)],
        "TimestampNanosecondTz" => vec![S::TimestampNanosecond(some(secs.wrapping_mul(1_000_000_000)), tz)],
        k => panic!("harness: kind {k}"),
    }
}
/// YYYY-MM-DD[ HH:MM:SS[.ffffff]]
fn read_instant(t: &str) -> Option<Vec<i64>> {
    let re = regex::Regex::new(r"^(\d{4})-(\d{2})-(\d{2})(?:[ T](\d{2}):(\d{2}):(\d{2})(?:\.(\d{1,6}))?)?$").unwrap();
    let m = re.captures(t)?;
    let n = |i: usize| m.get(i).map(|x| x.as_str().parse::<i64>().unwrap()).unwrap_or(0);
    let frac = m.get(7).map(|x| format!("{:0<9}", x.as_str()).parse().unwrap()).unwrap_or(0);
    let v = vec![n(1), n(2), n(3), n(4), n(5), n(6), frac];
    (v[0] > 0).then_some(v)
}
pub fn literals(cfg: &Value) -> Value {
    let g = json!({"grammar": [{"db": "postgres", "op": "-", "level": 12, "assoc": "u"}, {"db": "sqlite", "op": "-", "level": 12, "assoc": "u"},
        {"db": "mysql", "op": "-", "level": 12, "assoc": "u"}, {"db": "postgres", "op": "=", "level": 5, "assoc": "n"},
        {"db": "sqlite", "op": "=", "level": 5, "assoc": "l"}, {"db": "mysql", "op": "=", "level": 5, "assoc": "l"}]});
    // "none": only values that must not be sent; otherwise only the others
    let none = s(cfg, "mode") == "refusal";
    let cases = load(s(cfg, "graph")).into_iter().filter(|c| (c["c"]["want"] == "none") == none).collect();
    run(cases, 8, known(cfg), move || Grammar::new(&g), |g, c| {
        let c = &c["c"];
        let want = s(c, "want");
        let mut n = 0;
        for v in scalar(c) {
            for db in DBS {
                n += 1;
                let Ok(t) = to_sql(&col("x").eq(lit(v.clone())), db) else { continue };
                let fail = |what: &str, got: String| {
                    json!({"what": format!("{what} in {db}"), "literal": format!("{v:?}"), "text": t, "got": got})
                };
                if want == "none" {
                    return Err(fail("a value without counterpart is sent", t.clone()));
                }
                let node = g.parse(db, &t).map_err(|m| fail("the literal sent is not valid", m))?;
                let Node::Bin(_, _, r) = node else { return Err(fail("the literal sent is not valid", t.clone())) };
                let (sign, r) = match *r {
                    Node::Un(_, x) => (true, *x),
                    x => (false, x),
                };
                let number = match &r {
                    Node::Num(x) => Some(if sign { format!("-{x}") } else { x.clone() }),
                    _ => None,
                };
                let ok = match want {
                    "null" => matches!(r, Node::Null),
                    "boolean" => matches!(r, Node::Bool(b) if b == (s(c, "val") == "true")),
                    "integer" => number.as_deref() == Some(s(c, "val")),
                    "number" => {
                        let exact: f64 = match &v {
                            ScalarValue::Float32(Some(x)) => *x as f64,
                            _ => s(c, "val").parse().unwrap(),
                        };
                        number.and_then(|x| x.parse::<f64>().ok()) == Some(exact)
                    }
                    "instant" => match &r {
                        Node::Text(x) => read_instant(x) == Some(c["parts"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect()),
                        _ => false,
                    },
                    x => panic!("harness: {x}"),
                };
                if !ok {
                    return Err(fail("the literal sent denotes another value", format!("{r:?}")));
                }
            }
        }
        Ok(n)
    })
}

// ------------------------------------------------------------------------------------------------ quoting
/// Writes what the code makes of each name and text to a trace for QuotingTrace.tla; SQLite is asked itself
pub fn quoting(cfg: &Value) -> Value {
    use std::io::Write;
    let cases = load(s(cfg, "graph"));
    let mut out = std::io::BufWriter::new(std::fs::File::create(s(cfg, "trace")).expect("harness: trace"));
    let codes = |t: &str| t.chars().map(|c| c as u32).collect::<Vec<_>>();
    let mut failures: Vec<Value> = vec![];
    let (mut events, mut asked) = (0usize, 0usize);
    for c in &cases {
        let w: String = c["s"].as_array().unwrap().iter().map(|x| char::from_u32(x.as_u64().unwrap() as u32).unwrap()).collect();
        let nul = w.contains('\0');
        let mut pairs = vec![("n".to_string(), lit(ScalarValue::Utf8(Some(w.clone()))), w.clone())];
        pairs.push(("n".into(), lit(ScalarValue::LargeUtf8(Some(w.clone()))), w.clone()));
        pairs.push(("n".into(), lit(ScalarValue::Utf8View(Some(w.clone()))), w.clone()));
        if !w.is_empty() && !nul {
            pairs.push((w.clone(), lit("v"), "v".into()));
            pairs.push((w.clone(), lit(w.clone()), w.clone()));
        }
        for (name, l, text) in pairs {
            for db in DBS {
                let t = to_sql(&Expr::Column(Column::new_unqualified(name.clone())).eq(l.clone()), db);
                let got = t.as_ref().map(|t| codes(t)).unwrap_or_default();
                writeln!(out, "{}", json!({"db": db, "name": codes(&name), "text": codes(&text), "got": got})).unwrap();
                events += 1;
                if let Ok(t) = t && db == "sqlite" {
                    let q = |x: &str| format!("\"{}\"", x.replace('"', "\"\""));
                    let hex = |x: &str| format!("CAST(x'{}' AS TEXT)", hex::encode(x));
                    let lite = Lite::new();
                    lite.query(&format!("CREATE TABLE t (id INTEGER, {} TEXT)", q(&name))).expect("harness: create");
                    lite.query(&format!("INSERT INTO t VALUES (1, {}), (2, {}), (3, NULL), (4, 'n'), (5, '''')",
                        hex(&text), hex(&format!("{text}x")))).expect("harness: insert");
                    asked += 1;
                    let want: Vec<String> = [Some(text.clone()), Some(format!("{text}x")), None, Some("n".into()), Some("'".into())]
                        .iter().enumerate().filter(|(_, v)| v.as_ref() == Some(&text)).map(|(i, _)| (i + 1).to_string()).collect();
                    let rows = lite.query(&format!("SELECT id FROM t WHERE {t} ORDER BY id"));
                    let ids: Vec<String> = rows.clone().unwrap_or_default().into_iter().map(|r| r[0].clone().unwrap()).collect();
                    if ids != want && failures.len() < 10 {
                        failures.push(json!({"what": "the condition selects other rows in sqlite", "name": name, "literal": text,
                                             "text": t, "got": format!("{rows:?}"), "want": want}));
                    }
                }
            }
        }
    }
    out.flush().unwrap();
    json!({"states": cases.len(), "transitions": cases.len(), "covered": cases.len(), "evaluations": events + asked, "events": events,
           "distinct": events, "traces": 1, "failures": failures})
}
