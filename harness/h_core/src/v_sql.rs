//! Statements, scripts, columns (P01-P03) and time travel (T01, T02): cases of the TLA+ specifications on the real code.
use crate::datafusion::parser::DFParser;
use crate::datafusion::utils::build_schema;
use crate::v_cases::{known, load, run, Verdict};
use crate::v_util::s;
use crate::version::TableVersionProcessor;
use datafusion::sql::parser::{CopyToSource, Statement as DFStatement};
use serde_json::{json, Value};
use sqlparser::ast::{
    self, CreateFunctionBody, Expr, Ident, ObjectName, Query, Statement as Sql, TableFactor, VisitMut, VisitorMut,
};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::ops::ControlFlow;
use std::sync::{Arc, Mutex};

fn threads(cfg: &Value) -> usize {
    cfg["threads"].as_u64().unwrap_or(8) as usize
}
fn bad(what: &str, expected: Value, actual: Value) -> Value {
    json!({"what": what, "expected": expected, "actual": actual})
}
fn parse(sql: &str) -> Result<Vec<DFStatement>, String> {
    DFParser::parse_sql(sql).map(|v| v.into_iter().collect()).map_err(|e| e.to_string())
}

// ------------------------------------------------------------------------------------------------ P01
pub fn scripts(cfg: &Value) -> Value {
    run(load(s(cfg, "graph")), threads(cfg), known(cfg), HashMap::<String, DFStatement>::new, |alone, c| {
        let txt = s(c, "txt");
        let got = parse(txt);
        if !c["ok"].as_bool().unwrap() {
            return match got {
                Err(_) => Ok(1),
                Ok(v) => Err(bad("a malformed text is accepted", json!("error"), json!(v.iter().map(|x| x.to_string()).collect::<Vec<_>>()))),
            };
        }
        let mut want = vec![];
        for a in c["want"].as_array().unwrap() {
            let a = a.as_str().unwrap();
            if !alone.contains_key(a) {
                match parse(a) {
                    Ok(mut v) if v.len() == 1 => alone.insert(a.to_string(), v.pop().unwrap()),
                    o => return Err(bad("a statement standing alone is not parsed as one statement", json!(a), json!(format!("{o:?}")))),
                };
            }
            want.push(alone[a].clone());
        }
        match got {
            Ok(v) if v == want => Ok(1),
            Ok(v) => Err(bad("the text is split into other statements", c["want"].clone(), json!(v.iter().map(|x| x.to_string()).collect::<Vec<_>>()))),
            Err(e) => Err(bad("the text is rejected", c["want"].clone(), json!(e))),
        }
    })
}

// ------------------------------------------------------------------------------------------------ P02
fn parts(n: &ObjectName) -> Value {
    json!(n.0.iter().map(|i| json!({"v": i.value, "q": i.quote_style.is_some()})).collect::<Vec<_>>())
}
fn opts(o: &[(String, ast::Value)]) -> Value {
    json!(o
        .iter()
        .map(|(k, v)| json!([
            k,
            match v {
                ast::Value::SingleQuotedString(x) | ast::Value::DoubleQuotedString(x) | ast::Value::EscapedStringLiteral(x) =>
                    json!({"t": "s", "v": x}),
                ast::Value::Number(x, _) => json!({"t": "n", "v": x.to_string()}),
                x => json!(format!("{x:?}")),
            }
        ]))
        .collect::<Vec<_>>())
}
fn none(o: &Option<String>) -> Value {
    json!(o.clone().unwrap_or("-none-".into()))
}
/// What Seafowl's planner reads out of a parsed statement
fn meaning(st: &DFStatement) -> Value {
    use crate::datafusion::parser::CONVERT_TO_DELTA;
    match st {
        DFStatement::CopyTo(c) if c.options.contains(&CONVERT_TO_DELTA) => match &c.source {
            CopyToSource::Relation(n) => json!({"stmt": "convert", "name": parts(n), "location": c.target}),
            x => json!(format!("{x:?}")),
        },
        DFStatement::CopyTo(c) => {
            let (rel, query) = match &c.source {
                CopyToSource::Relation(n) => (parts(n), "-none-".to_string()),
                CopyToSource::Query(q) => (json!([]), q.to_string()),
            };
            json!({"stmt": "copy", "rel": rel, "query": query, "target": c.target, "stored": none(&c.stored_as),
                   "parts": c.partitioned_by, "opts": opts(&c.options)})
        }
        DFStatement::CreateExternalTable(c) => {
            if !c.constraints.is_empty() {
                return json!(format!("{c:?}"));
            }
            json!({"stmt": "external", "name": parts(&c.name), "unbounded": c.unbounded, "ifne": c.if_not_exists, "temporary": c.temporary,
                   "cols": c.columns.iter().map(|x| x.to_string()).collect::<Vec<_>>(), "stored": c.file_type, "location": c.location,
                   "parts": c.table_partition_cols, "opts": opts(&c.options),
                   "orders": c.order_exprs.iter().map(|o| o.iter().map(|x| x.to_string()).collect::<Vec<_>>()).collect::<Vec<_>>()})
        }
        DFStatement::Statement(b) => match &**b {
            Sql::Truncate { table_names, partitions, table, .. } => {
                if *table {
                    json!({"stmt": "truncate", "name": parts(&table_names[0].name), })
                } else if let Some(p) = partitions {
                    match p.as_slice() {
                        [Expr::Identifier(i)] => json!({"stmt": "vacuum_database", "db": i.value}),
                        x => json!(format!("{x:?}")),
                    }
                } else {
                    json!({"stmt": "vacuum_table", "name": parts(&table_names[0].name)})
                }
            }
            Sql::CreateFunction(f) => {
                let (body, dollar) = match &f.function_body {
                    Some(CreateFunctionBody::AsBeforeOptions(Expr::Value(ast::Value::SingleQuotedString(x)))) => (json!(x), false),
                    Some(CreateFunctionBody::AsBeforeOptions(Expr::Value(ast::Value::DollarQuotedString(x)))) => (json!(x.value), true),
                    x => (json!(format!("{x:?}")), false),
                };
                json!({"stmt": "create_function", "name": parts(&f.name), "replace": f.or_replace, "temporary": f.temporary, "body": body, "dollar": dollar})
            }
            Sql::CreateView { or_replace, name, .. } => json!({"stmt": "create_view", "name": parts(name), "replace": or_replace}),
            Sql::CreateTable(t) => json!({"stmt": "create_table", "name": parts(&t.name), "replace": t.or_replace, "ifne": t.if_not_exists}),
            x => json!(format!("{x:?}")),
        },
        x => json!(format!("{x:?}")),
    }
}
/// Keywords are between tildes
fn spell(t: &str, style: usize) -> String {
    let mut out = String::new();
    for (i, p) in t.split('~').enumerate() {
        if i % 2 == 0 {
            out.push_str(&if style == 2 { p.replace(" ,", "\n,") } else { p.to_string() });
            continue;
        }
        match style {
            0 => out.push_str(p),
            1 => out.push_str(&p.to_lowercase()),
            _ => {
                // a comment is white space
                out.push_str(if i > 1 { "/* ; */\n" } else { "\t" });
                out.extend(p.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_lowercase() } else { c }));
            }
        }
    }
    out
}
pub fn statements(cfg: &Value) -> Value {
    run(load(s(cfg, "graph")), threads(cfg), known(cfg), || (), |_, c| {
        let ok = c["ok"].as_bool().unwrap();
        for style in 0..3 {
            let txt = spell(s(c, "txt"), style);
            match (ok, parse(&txt)) {
                (false, Err(_)) => {}
                (false, Ok(v)) => {
                    return Err(bad(&format!("{txt:?} is accepted"), json!("error"), json!(v.iter().map(meaning).collect::<Vec<_>>())))
                }
                (true, Err(e)) => return Err(bad(&format!("{txt:?} is rejected"), c["st"].clone(), json!(e))),
                (true, Ok(v)) => {
                    let m: Vec<Value> = v.iter().map(meaning).collect();
                    if m.len() != 1 || m[0] != c["st"] {
                        return Err(bad(&format!("{txt:?} is read as another statement"), c["st"].clone(), json!(m)));
                    }
                }
            }
        }
        Ok(3)
    })
}

// ------------------------------------------------------------------------------------------------ P03
pub fn columns(cfg: &Value) -> Value {
    run(load(s(cfg, "graph")), threads(cfg), known(cfg), || (), |_, c| {
        let txt = s(c, "txt");
        let ok = c["ok"].as_bool().unwrap();
        let got: Result<Vec<Value>, String> = parse(txt).and_then(|v| match v.as_slice() {
            [DFStatement::Statement(b)] => match &**b {
                Sql::CreateTable(t) => build_schema(t.columns.clone())
                    .map_err(|e| e.to_string())
                    .map(|s| {
                        s.fields()
                            .iter()
                            .map(|f| json!({"name": f.name(), "type": format!("{:?}", f.data_type()), "null": f.is_nullable()}))
                            .collect()
                    }),
                x => Err(format!("{x:?}")),
            },
            x => Err(format!("{x:?}")),
        });
        match (ok, got) {
            (false, Err(_)) => Ok(1),
            (false, Ok(v)) => Err(bad("an unsupported type is accepted", json!("error"), json!(v))),
            (true, Err(e)) => Err(bad("a supported definition is rejected", c["cols"].clone(), json!(e))),
            (true, Ok(v)) if json!(v) == c["cols"] => Ok(1),
            (true, Ok(v)) => Err(bad("the columns differ from the declaration", c["cols"].clone(), json!(v))),
        }
    })
}

// ------------------------------------------------------------------------------------------------ T01
fn query(sql: &str) -> Result<Box<Query>, String> {
    match parse(sql)?.pop() {
        Some(DFStatement::Statement(b)) => match *b {
            Sql::Query(q) => Ok(q),
            x => Err(format!("{x:?}")),
        },
        x => Err(format!("{x:?}")),
    }
}
/// Names as the planner resolves them: without quotes means in lower case
struct Plain(HashMap<String, String>);
impl VisitorMut for Plain {
    type Break = ();
    fn pre_visit_table_factor(&mut self, t: &mut TableFactor) -> ControlFlow<()> {
        if let TableFactor::Table { name, .. } = t {
            for i in name.0.iter_mut() {
                if i.quote_style.take().is_none() {
                    i.value = i.value.to_ascii_lowercase();
                }
                if let Some(x) = self.0.get(&i.value) {
                    i.value = x.clone();
                }
            }
        }
        ControlFlow::Continue(())
    }
}
type Full = (String, String, String);
fn resolve(name: &ObjectName) -> Full {
    let r = datafusion::sql::TableReference::from(name.to_string().as_str()).resolve("dflt", "public");
    (r.catalog.to_string(), r.schema.to_string(), r.table.to_string())
}
fn internal(full: &Full, v: &str) -> String {
    let q = |x: &String| Ident::with_quote('"', x.clone());
    TableVersionProcessor::table_with_version(&ObjectName(vec![q(&full.0), q(&full.1), q(&full.2)]), v)
}
fn want_refs(c: &Value) -> Vec<(Full, String)> {
    c["refs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|r| {
            let f: Vec<String> = r["full"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
            ((f[0].clone(), f[1].clone(), f[2].clone()), s(r, "v").to_string())
        })
        .collect()
}

struct Planner {
    rt: tokio::runtime::Runtime,
}
impl Planner {
    /// A session in which the given tables exist, as the context registers them for a query with versions
    fn session(&self, tables: &BTreeSet<Full>) -> datafusion::prelude::SessionContext {
        use datafusion::arrow::datatypes::{DataType, Field, Schema};
        use datafusion::catalog::{CatalogProvider, SchemaProvider};
        use datafusion::catalog_common::{MemoryCatalogProvider, MemorySchemaProvider};
        use datafusion::prelude::{SessionConfig, SessionContext};
        let ctx = SessionContext::new_with_config(SessionConfig::new().with_default_catalog_and_schema("dflt", "public"));
        let schema = Arc::new(Schema::new(vec![
            Field::new("a", DataType::Int64, true),
            Field::new("b", DataType::Utf8, true),
            Field::new("t('v1')", DataType::Utf8, true),
        ]));
        let mut dbs: BTreeMap<String, Arc<MemoryCatalogProvider>> = BTreeMap::new();
        for (d, sc, t) in tables {
            let cat = dbs.entry(d.clone()).or_insert_with(|| {
                let c = Arc::new(MemoryCatalogProvider::new());
                ctx.register_catalog(d, c.clone());
                c
            });
            if cat.schema(sc).is_none() {
                cat.register_schema(sc, Arc::new(MemorySchemaProvider::new())).unwrap();
            }
            let table = Arc::new(datafusion::datasource::empty::EmptyTable::new(schema.clone()));
            let _ = cat.schema(sc).unwrap().register_table(t.clone(), table);
        }
        ctx
    }
    fn plan(&self, ctx: &datafusion::prelude::SessionContext, q: &Query) -> Result<String, String> {
        let st = DFStatement::Statement(Box::new(Sql::Query(Box::new(q.clone()))));
        self.rt.block_on(async { ctx.state().statement_to_plan(st).await.map(|p| p.display_indent().to_string()).map_err(|e| e.to_string()) })
    }
}

pub fn time_travel(cfg: &Value) -> Value {
    let planned = Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let p2 = planned.clone();
    let every = cfg["plan_every"].as_u64().unwrap_or(1) as usize;
    let mut r = run(
        load(s(cfg, "graph")),
        threads(cfg),
        known(cfg),
        || (Planner { rt: tokio::runtime::Builder::new_current_thread().build().unwrap() }, 0usize),
        move |(pl, n), c| {
            let mut q = query(s(c, "src")).map_err(|e| bad("the query is not parsed", json!(null), json!(e)))?;
            let want = want_refs(c);
            let mut p = TableVersionProcessor::new("dflt".into(), "public".into());
            q.visit(&mut p);
            // reported as needed: exactly those
            let got: BTreeSet<(Full, String)> = p.table_versions.iter().map(|(n, v)| (resolve(n), v.clone())).collect();
            let wanted: BTreeSet<(Full, String)> = want.iter().cloned().collect();
            if got != wanted {
                return Err(bad("other tables and versions are reported as needed", json!(wanted), json!(got)));
            }
            // redirected, nothing else changed
            let names: HashMap<String, String> =
                want.iter().enumerate().map(|(i, (f, v))| (format!("@{}", i + 1), internal(f, v))).collect();
            let mut expect = query(s(c, "dst")).unwrap_or_else(|e| panic!("harness: {e}"));
            expect.visit(&mut Plain(names));
            let mut actual = q.clone();
            actual.visit(&mut Plain(HashMap::new()));
            // where the internal name is written without quotes the planner puts it in lower case
            if expect != actual {
                return Err(bad("the query is rewritten to something else", json!(expect.to_string()), json!(actual.to_string())));
            }
            *n += 1;
            if *n % every != 0 {
                return Ok(1);
            }
            // The planner finds the registered versions, and they are the ones meant
            let mut tables: BTreeSet<Full> = BTreeSet::new();
            for d in ["dflt", "d"] {
                for sc in ["public", "s", "S"] {
                    for t in ["t", "T", "u", "t.u"] {
                        tables.insert((d.into(), sc.into(), t.into()));
                    }
                }
            }
            tables.insert(("D b".into(), "s.s".into(), "t:u".into()));
            // (as SeafowlContext::rewrite_time_travel_query does)
            for (name, v) in &p.table_versions {
                let f = resolve(name);
                tables.insert((f.0, f.1, TableVersionProcessor::table_with_version(name, v)));
            }
            let ctx = pl.session(&tables);
            let quoted = {
                let mut x = expect.clone();
                struct Q;
                impl VisitorMut for Q {
                    type Break = ();
                    fn pre_visit_table_factor(&mut self, t: &mut TableFactor) -> ControlFlow<()> {
                        if let TableFactor::Table { name, .. } = t {
                            name.0.iter_mut().for_each(|i| i.quote_style = Some('"'));
                        }
                        ControlFlow::Continue(())
                    }
                }
                x.visit(&mut Q);
                x
            };
            match (pl.plan(&ctx, &quoted), pl.plan(&ctx, &q)) {
                (Ok(a), Ok(b)) if a == b => {
                    p2.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    Ok(2)
                }
                (Ok(a), b) => Err(bad("the rewritten query is planned otherwise", json!(a), json!(b))),
                (Err(_), _) => Ok(1),
            }
        },
    );
    r["planned"] = json!(planned.load(std::sync::atomic::Ordering::SeqCst));
    r
}

// ------------------------------------------------------------------------------------------------ T02
pub fn timestamps(cfg: &Value) -> Value {
    let names: Arc<Mutex<HashMap<String, (String, i64, u32)>>> = Default::default();
    run(load(s(cfg, "graph")), threads(cfg), known(cfg), || (), move |_, c| {
        let txt = s(c, "txt");
        let got = TableVersionProcessor::version_to_datetime(txt);
        if !c["ok"].as_bool().unwrap() {
            return match got {
                Err(_) => Ok(1),
                Ok(d) => Err(bad(&format!("{txt:?} is taken for a timestamp"), json!("error"), json!(d.to_rfc3339()))),
            };
        }
        let want = (c["day"].as_i64().unwrap() * 86400 + c["sec"].as_i64().unwrap(), c["frac"].as_u64().unwrap() as u32);
        match got {
            Ok(d) if (d.timestamp(), d.timestamp_subsec_nanos()) == want => {}
            Ok(d) => return Err(bad(&format!("{txt:?} selects another instant"), json!(want), json!((d.timestamp(), d.timestamp_subsec_nanos())))),
            Err(e) => return Err(bad(&format!("{txt:?} is rejected"), json!(want), json!(e.to_string()))),
        }
        // the name under which this version of a table is found belongs to this instant alone
        for table in ["t", "T", "a:b"] {
            let n = internal(&("d".into(), "s".into(), table.into()), txt);
            let mut m = names.lock().unwrap();
            if let Some((other, s, f)) = m.get(&format!("{table}/{n}")) {
                if (*s, *f) != want {
                    return Err(bad("two versions share one internal name", json!([txt, other]), json!(n)));
                }
            } else {
                m.insert(format!("{table}/{n}"), (txt.to_string(), want.0, want.1));
            }
        }
        Ok(1)
    })
}
