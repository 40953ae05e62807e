//! Answers to failing requests against HttpErrors.tla: real warp routes with the real error type and rejection handler
use crate::frontend::http_utils::{handle_rejection, into_response, ApiError};
use crate::v_cases;
use crate::v_util::*;
use datafusion::error::DataFusionError;
use futures::StreamExt;
use serde_json::{json, Value};
use warp::filters::BoxedFilter;
use warp::http::Response;
use warp::hyper::Body;
use warp::{Filter, Rejection, Reply};

async fn body_error() -> warp::Error {
    // a broken form
    let f = warp::multipart::form().and_then(|mut f: warp::multipart::FormData| async move {
        match f.next().await {
            Some(Err(e)) => Ok::<_, Rejection>(e),
            _ => panic!("harness: no form error"),
        }
    });
    warp::test::request()
        .method("POST")
        .header("content-type", "multipart/form-data; boundary=x")
        .header("content-length", "7")
        .body("garbage")
        .filter(&f)
        .await
        .unwrap_or_else(|_| panic!("harness: form"))
}
async fn failure(kind: &str, d: &str) -> ApiError {
    let d = d.to_string();
    let bad_utf8 = || String::from_utf8(vec![0xc3, 0x28]).unwrap_err();
    match kind {
        "NotReadOnlyQuery" => ApiError::NotReadOnlyQuery,
        "ReadOnlyEndpointDisabled" => ApiError::ReadOnlyEndpointDisabled,
        "ReadForbidden" => ApiError::ReadForbidden,
        "WriteForbidden" => ApiError::WriteForbidden,
        "NeedAccessToken" => ApiError::NeedAccessToken,
        "UselessAccessToken" => ApiError::UselessAccessToken,
        "WrongAccessToken" => ApiError::WrongAccessToken,
        "InvalidAuthorizationHeader" => ApiError::InvalidAuthorizationHeader,
        "InvalidMultiStatement" => ApiError::InvalidMultiStatement,
        "EmptyMultiStatement" => ApiError::EmptyMultiStatement,
        "UploadMissingFile" => ApiError::UploadMissingFile,
        "UploadMissingFilename" => ApiError::UploadMissingFilename,
        "UploadHasHeaderParseError" => ApiError::UploadHasHeaderParseError,
        "QueryDecodeError" => ApiError::QueryDecodeError,
        "FromUtf8Error" => bad_utf8().utf8_error().into(),
        "IoError" => ApiError::IoError(std::io::Error::other(d)),
        "FromIoError" => std::io::Error::new(std::io::ErrorKind::NotFound, d).into(),
        "IoPermissionDenied" => std::io::Error::new(std::io::ErrorKind::PermissionDenied, d).into(),
        "IoNotFound" => ApiError::IoError(std::io::Error::new(std::io::ErrorKind::NotFound, d)),
        "IoUnexpectedEof" => std::io::Error::new(std::io::ErrorKind::UnexpectedEof, d).into(),
        "IoTimedOut" => std::io::Error::new(std::io::ErrorKind::TimedOut, d).into(),
        "IoInvalidInput" => std::io::Error::new(std::io::ErrorKind::InvalidInput, d).into(),
        "IoOther" => std::io::Error::new(std::io::ErrorKind::Other, d).into(),
        "DataFusionInternal" => DataFusionError::Internal(d).into(),
        "DataFusionNotImplemented" => DataFusionError::NotImplemented(d).into(),
        "DataFusionConfiguration" => DataFusionError::Configuration(d).into(),
        "DataFusionSubstrait" => DataFusionError::Substrait(d).into(),
        "DataFusionArrow" => DataFusionError::ArrowError(datafusion::arrow::error::ArrowError::CastError(d), None).into(),
        "DataFusionArrowExternal" => {
            DataFusionError::ArrowError(datafusion::arrow::error::ArrowError::ExternalError(Box::new(std::io::Error::other(d))), None).into()
        }
        "DataFusionParquet" => DataFusionError::ParquetError(datafusion::parquet::errors::ParquetError::General(d)).into(),
        "DataFusionObjectStore" => DataFusionError::ObjectStore(object_store::Error::Generic { store: "s", source: d.into() }).into(),
        "DataFusionObjectNotFound" => DataFusionError::ObjectStore(object_store::Error::NotFound { path: d, source: "gone".into() }).into(),
        "DataFusionIo" => DataFusionError::IoError(std::io::Error::new(std::io::ErrorKind::PermissionDenied, d)).into(),
        "DataFusionExternal" => DataFusionError::External(Box::new(std::io::Error::other(d))).into(),
        "DataFusionContext" => DataFusionError::Context(d, Box::new(DataFusionError::Plan("inner".into()))).into(),
        "DataFusionPlan" => ApiError::DataFusionError(DataFusionError::Plan(d)),
        "DataFusionExecution" => ApiError::DataFusionError(DataFusionError::Execution(d)),
        "DataFusionSql" => ApiError::DataFusionError(DataFusionError::SQL(sqlparser::parser::ParserError::ParserError("expected".into()), None)),
        "FromDataFusion" => DataFusionError::ResourcesExhausted(d).into(),
        "HashMismatch" => ApiError::HashMismatch(d, "cafe".into()),
        "UploadMissingFilenameExtension" => ApiError::UploadMissingFilenameExtension(d),
        "UploadUnsupportedFileFormat" => ApiError::UploadUnsupportedFileFormat(d),
        "UploadFileLoadError" => ApiError::UploadFileLoadError(d.into()),
        "UploadSchemaDeserializationError" => ApiError::UploadSchemaDeserializationError(bad_utf8()),
        "UploadSchemaParseError" => ApiError::UploadSchemaParseError(serde_json::from_str::<Value>("{").unwrap_err()),
        "UploadBodyLoadError" => {
            // warp's test requests do not nest
            let e = std::thread::spawn(|| tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(body_error())).join();
            ApiError::UploadBodyLoadError(e.unwrap_or_else(|_| panic!("harness: form")))
        },
        "QueryParsingError" => ApiError::QueryParsingError(warp::reject::not_found()),
        x => panic!("harness: failure {x}"),
    }
}
/// What tells the failures without code and detail apart
fn also_says(kind: &str) -> &'static str {
    match kind {
        "HashMismatch" => "cafe",
        "UploadSchemaParseError" => "EOF",
        "UploadSchemaDeserializationError" => "utf-8",
        "InvalidMultiStatement" => "multi-statement",
        "EmptyMultiStatement" => "Empty query",
        "UploadMissingFile" => "file",
        "UploadMissingFilename" => "filename",
        "UploadHasHeaderParseError" => "has_header",
        "DataFusionSql" => "expected",
        _ => "",
    }
}
fn route(r: &Value) -> BoxedFilter<(Response<Body>,)> {
    let on = s(r, "on").to_string();
    let (kind, detail) = (s(&r["f"], "kind").to_string(), s(&r["f"], "detail").to_string());
    let here = if on == "path" { warp::path("elsewhere").boxed() } else { warp::path("q").boxed() };
    let here = if on == "method" { here.and(warp::post()).boxed() } else { here.and(warp::get()).boxed() };
    let (k, d, o) = (kind.clone(), detail.clone(), on.clone());
    let admitted = here
        .and_then(move || {
            let (k, d, o) = (k.clone(), d.clone(), o.clone());
            async move {
                if o == "admission" {
                    Err(warp::reject::custom(failure(&k, &d).await))
                } else {
                    Ok(())
                }
            }
        })
        .untuple_one();
    admitted
        .then(move || {
            let (k, d, o) = (kind.clone(), detail.clone(), on.clone());
            async move {
                if o == "handler" {
                    Err(failure(&k, &d).await)
                } else {
                    Ok("fine".to_string())
                }
            }
        })
        .map(into_response::<String, ApiError>)
        .boxed()
}

pub fn errors(cfg: &Value) -> Value {
    let bodies: std::sync::Arc<std::sync::Mutex<std::collections::HashMap<String, String>>> = Default::default();
    v_cases::run(
        v_cases::load(s(cfg, "graph")),
        8,
        v_cases::known(cfg),
        || tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap(),
        move |rt, c| {
            let mut all: Option<BoxedFilter<(Response<Body>,)>> = None;
            for r in c["routes"].as_array().unwrap() {
                let r = route(r);
                all = Some(match all {
                    None => r,
                    Some(a) => a.or(r).unify().boxed(),
                });
            }
            let f = all.unwrap().recover(handle_rejection);
            let (status, body) = rt.block_on(async {
                let r = warp::test::request().path("/q").method("GET").reply(&f).await;
                (r.status().as_u16(), String::from_utf8_lossy(r.body()).to_string())
            });
            let w = &c["want"];
            let bad = |what: &str| Err(json!({"what": what, "status": status, "body": body}));
            if w["status"].as_u64() != Some(status as u64) {
                return bad("the status of the answer");
            }
            let kind = s(w, "kind");
            if kind == "none" {
                return Ok(1);
            }
            if s(w, "code") != "" && s(w, "code") != body {
                return bad("the body of the answer is not the code of the failure");
            }
            if !body.contains(s(w, "says")) && !body.contains(&format!("{:?}", s(w, "says")).trim_matches('"').to_string()) {
                return bad("the body of the answer does not tell what the failure is about");
            }
            if !body.contains(also_says(kind)) || body.is_empty() && !s(w, "kind").contains("Io") {
                return bad("the body of the answer does not tell the failure");
            }
            // the same failure has the same body wherever it arises, and no other failure of another kind has it
            let name = format!("{kind} {}", s(w, "says"));
            let mut b = bodies.lock().unwrap();
            match b.get(&name) {
                Some(x) if *x != body => return bad(&format!("elsewhere the same failure is answered {x:?}")),
                _ => {}
            }
            b.insert(name, body.clone());
            let same = |k: &str| if k.starts_with("Io") { "IoError".to_string() } else { k.replace("FromIoError", "IoError").replace("FromUtf8Error", "QueryDecodeError") };
            match b.insert(format!("answer {status} {body}"), same(kind)) {
                Some(x) if x != same(kind) => bad(&format!("{x} is answered just the same")),
                _ => Ok(1),
            }
        },
    )
}
