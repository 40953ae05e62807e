//! Planned statements against Nodes.tla: the real nodes, through DataFusion's interfaces and its optimizer
use crate::nodes::*;
use crate::v_cases;
use crate::v_util::*;
use crate::wasm_udf::data_types::{CreateFunctionDataType, CreateFunctionDetails, CreateFunctionLanguage, CreateFunctionVolatility};
use arrow_schema::{DataType, Field, Schema};
use datafusion_common::{DFSchema, DFSchemaRef};
use datafusion_expr::{Extension, LogicalPlan, UserDefinedLogicalNode};
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::sync::Arc;

fn schema(x: &str) -> Schema {
    let f = |n: &str, t, null| Field::new(n, t, null);
    match x {
        "s" => Schema::new(vec![f("c", DataType::Int32, true)]),
        "s-null" => Schema::new(vec![f("c", DataType::Int32, false)]),
        "s-type" => Schema::new(vec![f("c", DataType::Int64, true)]),
        "s-name" => Schema::new(vec![f("C", DataType::Int32, true)]),
        "s-meta" => Schema::new(vec![f("c", DataType::Int32, true)]).with_metadata([("k".to_string(), "v".to_string())].into()),
        "s-two" => Schema::new(vec![f("c", DataType::Int32, true), f("d", DataType::Utf8, true)]),
        x => panic!("harness: schema {x}"),
    }
}
fn details(x: &str) -> CreateFunctionDetails {
    let mut d = CreateFunctionDetails {
        entrypoint: "e".into(),
        language: CreateFunctionLanguage::Wasm,
        input_types: vec![CreateFunctionDataType::I32],
        return_type: CreateFunctionDataType::I32,
        data: "AAAA".into(),
        volatility: CreateFunctionVolatility::Volatile,
    };
    match x {
        "f" => {}
        "f-entry" => d.entrypoint = "e2".into(),
        "f-input" => d.input_types.push(CreateFunctionDataType::I32),
        "f-return" => d.return_type = CreateFunctionDataType::DECIMAL { precision: 5, scale: 2 },
        "f-data" => d.data = "AAAB".into(),
        "f-volatility" => d.volatility = CreateFunctionVolatility::Stable,
        "f-language" => d.language = CreateFunctionLanguage::WasmMessagePack,
        x => panic!("harness: details {x}"),
    }
    d
}
fn node(n: &Value) -> SeafowlExtensionNode {
    use SeafowlExtensionNode as N;
    let output_schema: DFSchemaRef = Arc::new(DFSchema::empty());
    let (a, b) = (s(n, "a").to_string(), s(n, "b").to_string());
    let on = n["on"].as_bool().unwrap();
    let opt = |x: &str| if x == "-" { None } else { Some(x.to_string()) };
    match s(n, "kind") {
        "ConvertTable" => N::ConvertTable(ConvertTable { location: a, name: b, output_schema }),
        "CreateTable" => N::CreateTable(CreateTable { schema: schema(&b), name: a, if_not_exists: on, output_schema }),
        "CreateFunction" => N::CreateFunction(CreateFunction { name: a, or_replace: on, details: details(&b), output_schema }),
        "DropFunction" => N::DropFunction(DropFunction {
            if_exists: on,
            func_names: n["names"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect(),
            output_schema,
        }),
        "RenameTable" => N::RenameTable(RenameTable { old_name: a, new_name: b, output_schema }),
        "Vacuum" => N::Vacuum(Vacuum { database: opt(&a), table_name: opt(&b), output_schema }),
        "Truncate" => N::Truncate(Truncate { table_name: a, output_schema }),
        x => panic!("harness: node {x}"),
    }
}
/// What a node says about itself, without its own equality
fn text(n: &SeafowlExtensionNode) -> String {
    format!("{n:?}")
}
fn hash(n: &dyn UserDefinedLogicalNode) -> u64 {
    let mut h = DefaultHasher::new();
    n.dyn_hash(&mut h);
    h.finish()
}

pub fn nodes(cfg: &Value) -> Value {
    v_cases::run(
        v_cases::load(s(cfg, "graph")),
        8,
        v_cases::known(cfg),
        || datafusion::execution::context::SessionContext::new(),
        |ctx, c| {
            let (l, r) = (node(&c["left"]), node(&c["right"]));
            let same = c["same"].as_bool().unwrap();
            let bad = |what: &str, x: String| Err(json!({"what": what, "actual": x}));
            let (dl, dr): (Arc<dyn UserDefinedLogicalNode>, Arc<dyn UserDefinedLogicalNode>) = (Arc::new(l.clone()), Arc::new(r.clone()));
            let plan = |n: &Arc<dyn UserDefinedLogicalNode>| LogicalPlan::Extension(Extension { node: n.clone() });
            if dl.dyn_eq(dr.as_ref()) != same || (plan(&dl) == plan(&dr)) != same {
                return bad("two plans are equal exactly if they do the same", format!("{}", !same));
            }
            if same && hash(dl.as_ref()) != hash(dr.as_ref()) {
                return bad("equal plans have different hashes", text(&l));
            }
            match dl.dyn_ord(dr.as_ref()) {
                Some(Ordering::Equal) if !same => return bad("different plans are ordered as equal", text(&l)),
                Some(Ordering::Equal) | None => {}
                Some(o) if same || dr.dyn_ord(dl.as_ref()) != Some(o.reverse()) => return bad("the order of two plans", format!("{o:?}")),
                _ => {}
            }
            if !same {
                return Ok(1);
            }
            if dl.name() != s(&c["left"], "kind") {
                return bad("the name of a plan", dl.name().to_string());
            }
            if !dl.inputs().is_empty() || !dl.expressions().is_empty() || !dl.schema().fields().is_empty() {
                return bad("inputs, expressions and result columns of a plan", format!("{:?}", dl.schema()));
            }
            let explained = plan(&dl).display_indent().to_string();
            // in the order of the statement
            let mut rest = explained.as_str();
            for t in c["targets"].as_array().unwrap() {
                match rest.find(t.as_str().unwrap()) {
                    Some(i) => rest = &rest[i + t.as_str().unwrap().len()..],
                    None => return bad("an explained plan does not say what it is about", explained),
                }
            }
            let mut forms = vec![("cloned", plan(&dl).clone())];
            forms.push(("rebuilt from a template", plan(&dl.from_template(&[], &[]))));
            match dl.with_exprs_and_inputs(vec![], vec![]) {
                Ok(n) => forms.push(("rebuilt", plan(&n))),
                Err(e) => return bad("rebuilding a plan fails", e.to_string()),
            }
            match plan(&dl).with_new_exprs(vec![], vec![]) {
                Ok(p) => forms.push(("rebuilt by DataFusion", p)),
                Err(e) => return bad("rebuilding a plan fails", e.to_string()),
            }
            match ctx.state().optimize(&plan(&dl)) {
                Ok(p) => forms.push(("optimized", p)),
                Err(e) => return bad("optimizing a plan fails", e.to_string()),
            }
            for (how, p) in forms {
                let LogicalPlan::Extension(e) = &p else { return bad(how, p.display_indent().to_string()) };
                match SeafowlExtensionNode::from_dynamic(&e.node) {
                    Some(n) if text(n) == text(&l) => {}
                    Some(n) => return bad(&format!("{how}, a plan is another"), text(n)),
                    None => return bad(&format!("{how}, a plan is not one of Seafowl's"), p.display_indent().to_string()),
                }
            }
            Ok(6)
        },
    )
}
