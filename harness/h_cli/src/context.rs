//! Stands in for the query engine behind the command line: records what it is asked to do, in order
use arrow::array::{ArrayRef, RecordBatch, StringArray};
use datafusion_common::{DataFusionError, Result};
use std::io::Write;
use std::sync::Arc;

pub struct SeafowlContext {
    pub default_catalog: String,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Statement(pub String);
#[derive(Debug, Clone, PartialEq)]
pub struct Plan(pub String);

fn note(act: &str, what: &str) {
    let l = format!("@@{}\n", serde_json::json!({"act": act, "what": what}));
    std::io::stdout().flush().unwrap();
    std::io::stderr().write_all(l.as_bytes()).unwrap();
}
fn err<T>(x: &str) -> Result<T> {
    Err(DataFusionError::Plan(format!("@!failed on {x}")))
}
impl SeafowlContext {
    pub async fn parse_query(&self, query: &str) -> Result<Vec<Statement>> {
        note("parse", query.trim_end());
        if query.contains("badparse") {
            return err("parsing");
        }
        let words = |x: &str| x.split_whitespace().collect::<Vec<_>>().join(" ");
        Ok(query.split(';').map(words).filter(|x| !x.is_empty()).map(Statement).collect())
    }
    pub async fn create_logical_plan_from_statement(&self, s: Statement) -> Result<Plan> {
        note("plan", &s.0);
        if s.0 == "badplan" {
            return err(&s.0);
        }
        Ok(Plan(s.0))
    }
    pub async fn create_physical_plan(&self, p: &Plan) -> Result<Arc<Plan>> {
        note("physical", &p.0);
        if p.0 == "badphys" {
            return err(&p.0);
        }
        Ok(Arc::new(p.clone()))
    }
    pub async fn collect(&self, p: Arc<Plan>) -> Result<Vec<RecordBatch>> {
        note("run", &p.0);
        match p.0.as_str() {
            "badrun" => err(&p.0),
            "nothing" => Ok(vec![]),
            x => {
                let c: ArrayRef = Arc::new(StringArray::from(vec![format!("@={x}=@")]));
                Ok(vec![RecordBatch::try_from_iter([("c", c)]).unwrap()])
            }
        }
    }
}
