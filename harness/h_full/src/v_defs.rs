//! Function definitions, before and after they were stored (Definitions.tla)
use crate::v_cases;
use crate::v_sys;
use crate::v_util::*;
use seafowl::context::SeafowlContext;
use seafowl::wasm_udf::data_types::*;
use serde_json::{json, Value};
use std::sync::Arc;

/// The definition in the specification's words
fn told(d: &CreateFunctionDetails) -> Value {
    use CreateFunctionDataType::*;
    let ty = |t: &CreateFunctionDataType| match t {
        I32 => "I32".to_string(),
        I64 => "I64".into(),
        F32 => "F32".into(),
        F64 => "F64".into(),
        SMALLINT => "SMALLINT".into(),
        INT => "INT".into(),
        BIGINT => "BIGINT".into(),
        CHAR => "CHAR".into(),
        VARCHAR => "VARCHAR".into(),
        TEXT => "TEXT".into(),
        DECIMAL { precision: 0, scale: 0 } => "DECIMAL".into(),
        DECIMAL { precision, scale } => format!("DECIMAL({precision},{scale})"),
        FLOAT => "FLOAT".into(),
        REAL => "REAL".into(),
        DOUBLE => "DOUBLE".into(),
        BOOLEAN => "BOOLEAN".into(),
        DATE => "DATE".into(),
        TIMESTAMP => "TIMESTAMP".into(),
    };
    json!({
        "entry": d.entrypoint,
        "lang": match d.language { CreateFunctionLanguage::Wasm => "wasm", CreateFunctionLanguage::WasmMessagePack => "wasmMessagePack" },
        "args": d.input_types.iter().map(ty).collect::<Vec<_>>(),
        "ret": ty(&d.return_type),
        "data": d.data,
        "vol": match d.volatility {
            CreateFunctionVolatility::Immutable => "immutable",
            CreateFunctionVolatility::Stable => "stable",
            CreateFunctionVolatility::Volatile => "volatile",
        },
    })
}

struct State {
    rt: tokio::runtime::Runtime,
    ctx: Arc<SeafowlContext>,
}

pub fn run(cfg: &Value) -> Value {
    v_cases::run(
        v_cases::load(s(cfg, "graph")),
        8,
        v_cases::known(cfg),
        || {
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
            let ctx = rt.block_on(v_sys::start(&v_sys::memory_config(2, "")));
            State { rt, ctx }
        },
        |st, c| {
            let text = s(c, "txt");
            let read: Result<CreateFunctionDetails, _> = serde_json::from_str(text);
            let d = match (read, c["ok"] == json!(true)) {
                (Ok(d), true) => d,
                (Err(_), false) => return Ok(1),
                (Ok(d), false) => return Err(json!({"what": "a definition that means nothing is accepted", "actual": told(&d)})),
                (Err(e), true) => return Err(json!({"what": "a definition is refused", "actual": e.to_string()})),
            };
            let mut expected = c.clone();
            for k in ["k", "txt", "ok"] {
                expected.as_object_mut().unwrap().remove(k);
            }
            if told(&d) != expected {
                return Err(json!({"what": "a definition is read as another", "actual": told(&d)}));
            }
            let m = &st.ctx.metastore;
            let stored = st.rt.block_on(async {
                // next to it, and replacing one that differs in everything
                let other: CreateFunctionDetails = serde_json::from_str(
                    r#"{"entrypoint": "other", "language": "wasm", "input_types": ["date", "date"], "return_type": "f32", "data": "BBBB", "volatility": "stable"}"#,
                )
                .unwrap();
                for (n, d) in [("f", &other), ("g", &d), ("f", &d), ("h", &other)] {
                    m.functions.create("default", n, true, d).await.map_err(|e| e.to_string())?;
                }
                m.build_functions("default").await.map_err(|e| e.to_string())
            });
            match stored {
                Err(e) => Err(json!({"what": "a definition cannot be stored and loaded again", "actual": e})),
                Ok(fs) => {
                    for n in ["f", "g"] {
                        let of: Vec<_> = fs.iter().filter(|f| f.name == n).map(|f| told(&f.details)).collect();
                        if of != [expected.clone()] {
                            return Err(json!({"what": "a definition is loaded as another", "expected": expected, "actual": of}));
                        }
                    }
                    Ok(3)
                }
            }
        },
    )
}
