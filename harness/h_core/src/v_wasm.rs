//! User-defined functions against WasmRows.tla, WasmCall.tla, WasmValues.tla. The guests are written here: the one for
//! the MessagePack convention checks every step the host takes and traps when one is out of line.
use crate::v_cases;
use crate::v_util::*;
use crate::wasm_udf::data_types::{CreateFunctionDataType as T, CreateFunctionLanguage};
use crate::wasm_udf::wasm::create_udf_from_wasm;
use arrow::array::*;
use arrow::datatypes::*;
use datafusion::datasource::MemTable;
use datafusion::logical_expr::Volatility;
use datafusion::prelude::*;
use datafusion_common::ScalarValue;
use datafusion_expr::{ColumnarValue, ScalarUDF};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

pub fn ty(s: &str) -> T {
    match s {
        "I32" => T::I32,
        "I64" => T::I64,
        "F32" => T::F32,
        "F64" => T::F64,
        "SMALLINT" => T::SMALLINT,
        "INT" => T::INT,
        "BIGINT" => T::BIGINT,
        "CHAR" => T::CHAR,
        "VARCHAR" => T::VARCHAR,
        "TEXT" => T::TEXT,
        "FLOAT" => T::FLOAT,
        "REAL" => T::REAL,
        "DOUBLE" => T::DOUBLE,
        "BOOLEAN" => T::BOOLEAN,
        "DATE" => T::DATE,
        "TIMESTAMP" => T::TIMESTAMP,
        d => {
            let (p, sc) = d.strip_prefix("DECIMAL(").and_then(|x| x.strip_suffix(')')).and_then(|x| x.split_once(',')).expect("harness: type");
            T::DECIMAL { precision: p.parse().expect("harness: precision"), scale: sc.parse().expect("harness: scale") }
        }
    }
}
/// The column type users meet, independently of the code
fn arrow_type(t: &T) -> DataType {
    match t {
        T::SMALLINT => DataType::Int16,
        T::INT | T::I32 => DataType::Int32,
        T::BIGINT | T::I64 => DataType::Int64,
        T::CHAR | T::VARCHAR | T::TEXT => DataType::Utf8,
        T::FLOAT | T::REAL | T::F32 => DataType::Float32,
        T::DOUBLE | T::F64 => DataType::Float64,
        T::BOOLEAN => DataType::Boolean,
        T::DATE => DataType::Date32,
        T::TIMESTAMP => DataType::Timestamp(TimeUnit::Nanosecond, None),
        T::DECIMAL { precision, scale } => DataType::Decimal128(*precision, *scale),
    }
}
fn text(s: &str) -> String {
    match s {
        "<unicode>" => "ž€😀\u{0301}".into(),
        "<z>" => "\u{17e}".into(),
        "<nul>" => "a\0b".into(),
        s => match s.strip_prefix('<').and_then(|x| x.strip_suffix('>')).and_then(|x| x.parse::<usize>().ok()) {
            Some(n) => "ab".repeat(n / 2 + 1)[..n].to_string(),
            None => s.to_string(),
        },
    }
}
fn scalar(t: &T, v: &str) -> ScalarValue {
    let d = arrow_type(t);
    if v == "NULL" {
        return ScalarValue::try_from(&d).expect("harness: null");
    }
    let int = || v.parse::<i128>().unwrap_or_else(|_| panic!("harness: {v}"));
    match &d {
        DataType::Int16 => ScalarValue::Int16(Some(int() as i16)),
        DataType::Int32 => ScalarValue::Int32(Some(int() as i32)),
        DataType::Int64 => ScalarValue::Int64(Some(int() as i64)),
        DataType::Date32 => ScalarValue::Date32(Some(int() as i32)),
        DataType::Timestamp(..) => ScalarValue::TimestampNanosecond(Some(int() as i64), None),
        DataType::Utf8 => ScalarValue::Utf8(Some(text(v))),
        DataType::Boolean => ScalarValue::Boolean(Some(v == "true")),
        DataType::Float32 => ScalarValue::Float32(Some(v.parse().unwrap_or_else(|_| panic!("harness: {v}")))),
        DataType::Float64 => ScalarValue::Float64(Some(v.parse().unwrap_or_else(|_| panic!("harness: {v}")))),
        DataType::Decimal128(p, s) => ScalarValue::Decimal128(Some(int()), *p, *s),
        x => panic!("harness: {x}"),
    }
}
fn column(t: &T, vs: &[&str]) -> ArrayRef {
    if vs.is_empty() {
        return new_empty_array(&arrow_type(t));
    }
    ScalarValue::iter_to_array(vs.iter().map(|v| scalar(t, v))).expect("harness: column")
}
fn same(a: &ScalarValue, b: &ScalarValue) -> bool {
    match (a, b) {
        (ScalarValue::Float32(Some(a)), ScalarValue::Float32(Some(b))) => a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan(),
        (ScalarValue::Float64(Some(a)), ScalarValue::Float64(Some(b))) => a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan(),
        (a, b) => a == b,
    }
}
fn short(v: &ScalarValue) -> String {
    v.to_string().chars().take(40).collect()
}

// ------------------------------------------------------------------------------------------------------------ guests

fn bytes(b: &[u8]) -> String {
    b.iter().map(|x| format!("\\{x:02x}")).collect()
}

/// Skips a MessagePack value
const SKIP: &str = r#"
 (func $num (param $p i32) (param $n i32) (result i32) (local $v i32)
  (loop $l
   (local.set $v (i32.or (i32.shl (local.get $v) (i32.const 8)) (i32.load8_u (local.get $p))))
   (local.set $p (i32.add (local.get $p) (i32.const 1)))
   (br_if $l (local.tee $n (i32.sub (local.get $n) (i32.const 1)))))
  (local.get $v))
 (func $many (param $p i32) (param $n i32) (result i32)
  (block $end (loop $l
   (br_if $end (i32.eqz (local.get $n)))
   (local.set $p (call $skip (local.get $p)))
   (local.set $n (i32.sub (local.get $n) (i32.const 1)))
   (br $l)))
  (local.get $p))
 ;; by a table: < 128 is the size; 128 + n an array of n; 192 + n a text with n bytes of length, 224 + n an array with as many
 (func $skip (param $p i32) (result i32) (local $t i32) (local $n i32)
  (local.set $t (i32.load8_u offset=256 (i32.load8_u (local.get $p))))
  (if (i32.lt_u (local.get $t) (i32.const 128)) (then (return (i32.add (local.get $p) (local.get $t)))))
  (if (i32.eq (local.get $t) (i32.const 255)) (then unreachable))
  (local.set $p (i32.add (local.get $p) (i32.const 1)))
  (local.set $n (i32.and (local.get $t) (i32.const 15)))
  (if (i32.lt_u (local.get $t) (i32.const 192)) (then (return (call $many (local.get $p) (local.get $n)))))
  (if (i32.lt_u (local.get $t) (i32.const 224)) (then
   (return (i32.add (i32.add (local.get $p) (local.get $n)) (call $num (local.get $p) (local.get $n))))))
  (call $many (i32.add (local.get $p) (local.get $n)) (call $num (local.get $p) (local.get $n))))
"#;
/// Sizes of MessagePack values by their first byte, see SKIP
fn sizes() -> Vec<u8> {
    (0..=255u8)
        .map(|t| match t {
            0..=0x7f | 0xe0..=0xff | 0xc0 | 0xc2 | 0xc3 => 1,
            0x80..=0x8f => 255,
            0x90..=0x9f => 128 + (t & 15),
            0xa0..=0xbf => 1 + (t & 31),
            0xcc | 0xd0 => 2,
            0xcd | 0xd1 => 3,
            0xca | 0xce | 0xd2 => 5,
            0xcb | 0xcf | 0xd3 => 9,
            0xd9 => 193,
            0xda => 194,
            0xdb => 196,
            0xdc => 226,
            _ => 255,
        })
        .collect()
}
/// A guest that returns the same bytes whatever it is given, and checks nothing
fn fixed(payload: &[u8]) -> Vec<u8> {
    let mut out = (payload.len() as u32).to_le_bytes().to_vec();
    out.extend(payload);
    let w = format!(
        r#"(module (memory (export "memory") 8) (data (i32.const 65536) "{}")
 (func (export "alloc") (param i32) (result i32) (i32.const 16))
 (func (export "dealloc") (param i32 i32))
 (func (export "udf") (param i32) (result i32) (i32.const 65536)))"#,
        bytes(&out)
    );
    wat::parse_str(&w).unwrap_or_else(|e| panic!("harness: {e}"))
}


/// What a guest for the MessagePack convention does; the rest is fixed
#[derive(Clone)]
struct Mp {
    imports: String,
    memory: String,
    alloc: String,
    dealloc: String,
    entry: String,
    /// at the beginning of alloc ($n), of the function ($p: input), of dealloc ($p, $n)
    on_alloc: String,
    on_run: String,
    on_free: String,
    /// computes the payload at $o (0x40_0004) and gives its end; may use $p
    body: String,
    /// may replace the result pointer $r or overwrite the size at it
    on_return: String,
    extra: String,
}
impl Mp {
    fn new(body: String) -> Mp {
        Mp {
            imports: String::new(),
            memory: r#"(memory (export "memory") 160)"#.into(),
            alloc: r#"(func $alloc (export "alloc") (param $n i32) (result i32) (call $alloc_ (local.get $n)))"#.into(),
            dealloc: r#"(func $dealloc (export "dealloc") (param $p i32) (param $n i32) (call $dealloc_ (local.get $p) (local.get $n)))"#.into(),
            entry: r#"(func (export "udf") (param $p i32) (result i32) (call $udf_ (local.get $p)))"#.into(),
            on_alloc: String::new(),
            on_run: String::new(),
            on_free: String::new(),
            body,
            on_return: String::new(),
            extra: String::new(),
        }
    }
    fn pick(i: usize) -> String {
        // the i-th element of the array
        format!(
            r#"(if (i32.ne (i32.and (i32.load8_u (local.get $p)) (i32.const 0xf0)) (i32.const 0x90)) (then unreachable))
  (local.set $a (call $many (i32.add (local.get $p) (i32.const 1)) (i32.const {i})))
  (local.set $b (call $skip (local.get $a)))
  (memory.copy (local.get $o) (local.get $a) (i32.sub (local.get $b) (local.get $a)))
  (i32.add (local.get $o) (i32.sub (local.get $b) (local.get $a)))"#
        )
    }
    /// the input, as it came, in hexadecimal
    fn seen() -> String {
        r#"(i32.store8 (local.get $o) (i32.const 0xdb))
  (local.set $a (local.get $p))
  (local.set $b (i32.add (local.get $o) (i32.const 5)))
  (block $end (loop $l
   (br_if $end (i32.ge_u (local.get $a) (i32.add (global.get $in) (global.get $in_n))))
   (i32.store8 (local.get $b) (i32.add (i32.const 97) (i32.shr_u (i32.load8_u (local.get $a)) (i32.const 4))))
   (i32.store8 offset=1 (local.get $b) (i32.add (i32.const 97) (i32.and (i32.load8_u (local.get $a)) (i32.const 15))))
   (local.set $a (i32.add (local.get $a) (i32.const 1)))
   (local.set $b (i32.add (local.get $b) (i32.const 2)))
   (br $l)))
  (local.set $a (i32.sub (local.get $b) (i32.add (local.get $o) (i32.const 5))))
  (i32.store8 offset=1 (local.get $o) (i32.shr_u (local.get $a) (i32.const 24)))
  (i32.store8 offset=2 (local.get $o) (i32.shr_u (local.get $a) (i32.const 16)))
  (i32.store8 offset=3 (local.get $o) (i32.shr_u (local.get $a) (i32.const 8)))
  (i32.store8 offset=4 (local.get $o) (local.get $a))
  (local.get $b)"#
            .into()
    }
    /// how often the function ran before, encoded as a value of the type
    fn count(t: &T) -> String {
        let n = "(i32.sub (global.get $runs) (i32.const 1))";
        match arrow_type(t) {
            DataType::Utf8 => format!(
                "(i32.store8 (local.get $o) (i32.const 0xa1)) (i32.store8 offset=1 (local.get $o) (i32.add (i32.const 48) {n})) (i32.add (local.get $o) (i32.const 2))"
            ),
            DataType::Boolean => {
                format!("(i32.store8 (local.get $o) (i32.add (i32.const 0xc2) (i32.and {n} (i32.const 1)))) (i32.add (local.get $o) (i32.const 1))")
            }
            DataType::Float32 => format!(
                "(i32.store8 (local.get $o) (i32.const 0xca)) (call $be (i32.add (local.get $o) (i32.const 1)) (i32.reinterpret_f32 (f32.convert_i32_s {n}))) (i32.add (local.get $o) (i32.const 5))"
            ),
            DataType::Float64 => format!(
                "(i32.store8 (local.get $o) (i32.const 0xcb)) (call $be (i32.add (local.get $o) (i32.const 1)) (i32.wrap_i64 (i64.shr_u (i64.reinterpret_f64 (f64.convert_i32_s {n})) (i64.const 32)))) (i32.store offset=5 (local.get $o) (i32.const 0)) (i32.add (local.get $o) (i32.const 9))"
            ),
            DataType::Decimal128(p, s) => format!(
                "(i32.store8 (local.get $o) (i32.const 0x94)) (i32.store8 offset=1 (local.get $o) (i32.const {p})) (i32.store8 offset=2 (local.get $o) (i32.const {})) (i32.store8 offset=3 (local.get $o) (i32.const 0)) (i32.store8 offset=4 (local.get $o) {n}) (i32.add (local.get $o) (i32.const 5))",
                s as u8
            ),
            _ => format!("(i32.store8 (local.get $o) {n}) (i32.add (local.get $o) (i32.const 1))"),
        }
    }
    fn fixed(payload: &[u8]) -> String {
        format!(
            "(memory.init $d (local.get $o) (i32.const 0) (i32.const {n})) (i32.add (local.get $o) (i32.const {n}))",
            n = payload.len()
        )
    }
    fn wat(&self) -> String {
        format!(
            r#"(module
 {imports}
 {memory}
 (data (i32.const 256) "{table}")
 (global $in (mut i32) (i32.const 0)) (global $in_n (mut i32) (i32.const 0))
 (global $out (mut i32) (i32.const 0)) (global $out_n (mut i32) (i32.const 0))
 (global $runs (mut i32) (i32.const 0)) (global $bad (mut i32) (i32.const 0))
 {SKIP}
 (func $be (param $p i32) (param $v i32)
  (i32.store8 (local.get $p) (i32.shr_u (local.get $v) (i32.const 24)))
  (i32.store8 offset=1 (local.get $p) (i32.shr_u (local.get $v) (i32.const 16)))
  (i32.store8 offset=2 (local.get $p) (i32.shr_u (local.get $v) (i32.const 8)))
  (i32.store8 offset=3 (local.get $p) (local.get $v)))
 (func $alloc_ (param $n i32) (result i32)
  {on_alloc}
  ;; one row at a time, and nothing kept of the last one
  (if (i32.or (global.get $in) (global.get $out)) (then unreachable))
  (if (i32.le_s (local.get $n) (i32.const 4)) (then unreachable))
  (global.set $in (i32.add (i32.const 0x10008) (i32.mul (i32.const 3) (i32.rem_u (global.get $runs) (i32.const 7)))))
  (global.set $in_n (local.get $n))
  ;; fences on both sides
  (i64.store (i32.sub (global.get $in) (i32.const 8)) (i64.const 0x5aa55aa51e23c77a))
  (i64.store (i32.add (global.get $in) (local.get $n)) (i64.const 0x5aa55aa51e23c77a))
  (global.get $in))
 (func $udf_ (param $p i32) (result i32) (local $o i32) (local $a i32) (local $b i32) (local $r i32)
  (if (i32.eqz (global.get $in)) (then unreachable))
  (if (global.get $out) (then unreachable))
  (if (i32.ne (local.get $p) (global.get $in)) (then unreachable))
  (if (i32.ne (i32.load (local.get $p)) (i32.sub (global.get $in_n) (i32.const 4))) (then unreachable))
  (if (i64.ne (i64.load (i32.sub (global.get $in) (i32.const 8))) (i64.const 0x5aa55aa51e23c77a)) (then unreachable))
  (if (i64.ne (i64.load (i32.add (global.get $in) (global.get $in_n))) (i64.const 0x5aa55aa51e23c77a)) (then unreachable))
  (local.set $p (i32.add (local.get $p) (i32.const 4)))
  ;; exactly one value
  (if (i32.ne (call $skip (local.get $p)) (i32.add (global.get $in) (global.get $in_n))) (then unreachable))
  (global.set $runs (i32.add (global.get $runs) (i32.const 1)))
  {on_run}
  (global.set $out (i32.add (i32.const 0x400000) (i32.mul (i32.const 5) (i32.rem_u (global.get $runs) (i32.const 3)))))
  (local.set $o (i32.add (global.get $out) (i32.const 4)))
  (local.set $a (block $body (result i32) {body}))
  (global.set $out_n (i32.sub (local.get $a) (global.get $out)))
  (i32.store (global.get $out) (i32.sub (global.get $out_n) (i32.const 4)))
  (local.set $r (global.get $out))
  {on_return}
  (local.get $r))
 (func $dealloc_ (param $p i32) (param $n i32)
  {on_free}
  (if (i32.eqz (local.get $p)) (then unreachable))
  (if (i32.eq (local.get $p) (global.get $in)) (then
   (if (i32.ne (local.get $n) (global.get $in_n)) (then unreachable))
   (if (i32.eqz (global.get $out_n)) (then unreachable))
   (global.set $in (i32.const 0)) (return)))
  (if (i32.eq (local.get $p) (global.get $out)) (then
   (if (i32.ne (local.get $n) (global.get $out_n)) (then unreachable))
   (global.set $out (i32.const 0)) (return)))
  unreachable)
 {alloc} {dealloc} {entry}
 {extra})"#,
            imports = self.imports,
            table = bytes(&sizes()),
            memory = self.memory,
            on_alloc = self.on_alloc,
            on_run = self.on_run,
            on_free = self.on_free,
            body = self.body,
            on_return = self.on_return,
            alloc = self.alloc,
            dealloc = self.dealloc,
            entry = self.entry,
            extra = self.extra
        )
    }
    fn build(&self) -> Vec<u8> {
        let w = self.wat();
        wat::parse_str(&w).unwrap_or_else(|e| panic!("harness: {e}\n{w}"))
    }
}

fn vt(t: &T) -> &'static str {
    match arrow_type(t) {
        DataType::Int32 => "i32",
        DataType::Int64 => "i64",
        DataType::Float32 => "f32",
        DataType::Float64 => "f64",
        _ => "i32",
    }
}
fn native(args: &[T], ret: &T, body: &str, extra: &str) -> Vec<u8> {
    let ps: String = args.iter().map(|t| format!(" (param {})", vt(t))).collect();
    let w = format!(
        r#"(module (memory 1) (global $runs (mut i32) (i32.const -1))
 (func (export "udf"){ps} (result {}) (global.set $runs (i32.add (global.get $runs) (i32.const 1))) {body})
 {extra})"#,
        vt(ret)
    );
    wat::parse_str(&w).unwrap_or_else(|e| panic!("harness: {e}\n{w}"))
}
fn native_count(t: &T) -> &'static str {
    match vt(t) {
        "i32" => "(global.get $runs)",
        "i64" => "(i64.extend_i32_s (global.get $runs))",
        "f32" => "(f32.convert_i32_s (global.get $runs))",
        _ => "(f64.convert_i32_s (global.get $runs))",
    }
}

fn create(lang: &str, module: &[u8], args: &[T], ret: &T) -> Result<ScalarUDF, String> {
    let l = if lang == "wasm" { CreateFunctionLanguage::Wasm } else { CreateFunctionLanguage::WasmMessagePack };
    match catch_unwind(AssertUnwindSafe(|| create_udf_from_wasm(&l, "udf", module, "udf", &args.to_vec(), ret, Volatility::Volatile))) {
        Ok(Ok(u)) => Ok(u),
        Ok(Err(e)) => Err(format!("error: {e}")),
        Err(p) => Err(format!("panic: {}", panic_text(p))),
    }
}
/// The result column of one call, expanded to the number of rows
fn invoke(u: &ScalarUDF, args: &[ColumnarValue], rows: usize) -> Result<Vec<ScalarValue>, String> {
    #[allow(deprecated)]
    match catch_unwind(AssertUnwindSafe(|| u.invoke_batch(args, rows))) {
        Ok(Ok(ColumnarValue::Scalar(v))) => Ok(vec![v; rows]),
        Ok(Ok(ColumnarValue::Array(a))) => {
            let all_const = !args.is_empty() && args.iter().all(|a| matches!(a, ColumnarValue::Scalar(_)));
            let vs: Vec<ScalarValue> = (0..a.len()).map(|i| ScalarValue::try_from_array(&a, i).expect("harness: value")).collect();
            // what DataFusion makes of one value for constant arguments
            Ok(if all_const && vs.len() == 1 { vec![vs[0].clone(); rows] } else { vs })
        }
        Ok(Err(e)) => Err(format!("error: {e}")),
        Err(p) => Err(format!("panic: {}", panic_text(p))),
    }
}

/// Is this what a guest should get for the argument?
fn received(t: &T, v: &ScalarValue, m: &rmpv::Value) -> bool {
    use rmpv::Value as M;
    let int = |x: i128| m.as_i64().map(i128::from).or(m.as_u64().map(i128::from)) == Some(x);
    match v {
        ScalarValue::Int16(Some(x)) => int(*x as i128),
        ScalarValue::Int32(Some(x)) | ScalarValue::Date32(Some(x)) => int(*x as i128),
        ScalarValue::Int64(Some(x)) | ScalarValue::TimestampNanosecond(Some(x), _) => int(*x as i128),
        ScalarValue::Utf8(Some(x)) => m.as_str() == Some(x),
        ScalarValue::Boolean(Some(x)) => m.as_bool() == Some(*x),
        ScalarValue::Float32(Some(x)) => matches!(m, M::F32(y) if x.to_bits() == y.to_bits() || x.is_nan() && y.is_nan()),
        ScalarValue::Float64(Some(x)) => matches!(m, M::F64(y) if x.to_bits() == y.to_bits() || x.is_nan() && y.is_nan()),
        ScalarValue::Decimal128(Some(x), p, s) => match m.as_array() {
            Some(a) if a.len() == 4 => {
                a[0].as_i64() == Some(*p as i64)
                    && a[1].as_i64() == Some(*s as i64)
                    && a[2].as_i64() == Some((*x >> 64) as i64)
                    && a[3].as_i64() == Some(*x as i64)
            }
            _ => false,
        },
        x => panic!("harness: {t:?} {x:?}"),
    }
}

// ------------------------------------------------------------------------------------------------------------- cases

fn strs(v: &Value) -> Vec<&str> {
    v.as_array().unwrap_or_else(|| panic!("harness: {v}")).iter().map(|x| x.as_str().unwrap_or_else(|| panic!("harness: {x}"))).collect()
}

fn rows_case(rt: &tokio::runtime::Runtime, c: &Value, sql: bool) -> v_cases::Verdict {
    let sig = &c["sig"];
    let (lang, f) = (s(sig, "lang"), s(sig, "fn"));
    let args: Vec<T> = strs(&sig["args"]).iter().map(|t| ty(t)).collect();
    let col = sig["col"].as_u64().unwrap() as usize - 1;
    let ret = match f {
        "seen" => T::TEXT,
        "count" if args.is_empty() => T::INT,
        _ => args[col].clone(),
    };
    let module = match (lang, f) {
        ("wasm", "pick") => native(&args, &ret, &format!("(local.get {col})"), ""),
        ("wasm", "count") => native(&args, &ret, native_count(&ret), ""),
        (_, "pick") => Mp::new(Mp::pick(col)).build(),
        (_, "seen") => Mp::new(Mp::seen()).build(),
        (_, "count") => Mp::new(Mp::count(&ret)).build(),
        x => panic!("harness: {x:?}"),
    };
    let udf = create(lang, &module, &args, &ret).map_err(|e| json!({"what": format!("refused: {e}")}))?;
    let consts = strs(&c["consts"]);
    let batches = c["batches"].as_array().unwrap();
    let mut n = 0;
    let check = |b: usize, i: usize, got: &ScalarValue| -> Result<(), Value> {
        let want = &c["want"][b][i];
        let ok = match want {
            Value::Array(row) if row.is_empty() => panic!("harness: nothing to see"),
            Value::Array(row) => match got {
                ScalarValue::Utf8(Some(h)) => {
                    let raw: Vec<u8> = h.as_bytes().chunks(2).map(|x| (x[0] - 97) * 16 + (x[1] - 97)).collect();
                    let mut r = &raw[..];
                    match rmpv::decode::read_value(&mut r) {
                        Ok(rmpv::Value::Array(a)) if r.is_empty() && a.len() == row.len() => {
                            row.iter().zip(&a).zip(&args).all(|((v, m), t)| received(t, &scalar(t, v.as_str().unwrap()), m))
                        }
                        _ => false,
                    }
                }
                _ => false,
            },
            Value::String(v) if v == "NULL" => got.is_null(),
            Value::String(v) if f == "count" && ret == T::BOOLEAN => *got == ScalarValue::Boolean(Some(v.parse::<usize>().unwrap() % 2 == 1)),
            Value::String(v) => same(got, &scalar(&ret, v)),
            x => panic!("harness: {x}"),
        };
        if ok && got.data_type() == arrow_type(&ret) {
            Ok(())
        } else {
            Err(json!({"what": "a row's result", "batch": b, "row": i, "expected": want, "actual": short(got)}))
        }
    };
    // called as DataFusion calls it
    let mut columns = vec![];
    for (b, rows) in batches.iter().enumerate() {
        let rows = rows.as_array().unwrap();
        let cols: Vec<ArrayRef> = args.iter().enumerate().map(|(k, t)| column(t, &rows.iter().map(|r| r[k].as_str().unwrap()).collect::<Vec<_>>())).collect();
        let vals: Vec<ColumnarValue> = args
            .iter()
            .enumerate()
            .map(|(k, t)| if consts[k] == "column" { ColumnarValue::Array(cols[k].clone()) } else { ColumnarValue::Scalar(scalar(t, consts[k])) })
            .collect();
        columns.push((cols, rows.len()));
        if consts.iter().all(|x| *x != "column") && rows.is_empty() {
            continue;
        }
        let out = invoke(&udf, &vals, rows.len()).map_err(|e| json!({"what": e, "batch": b}))?;
        if out.len() != rows.len() {
            return Err(json!({"what": "number of results", "batch": b, "expected": rows.len(), "actual": out.len()}));
        }
        for (i, v) in out.iter().enumerate() {
            check(b, i, v)?;
        }
        n += 1;
    }
    // and by a query (which DataFusion cannot show with dates millions of years from now)
    if sql && !args.iter().zip(&consts).any(|(t, c)| *t == T::DATE && c.parse::<i64>().map(|x| x.abs() > 90_000_000).unwrap_or(false)) {
        let mut fields: Vec<Field> = args.iter().enumerate().map(|(i, t)| Field::new(format!("c{i}"), arrow_type(t), true)).collect();
        fields.push(Field::new("rn", DataType::Int64, false));
        let schema = Arc::new(Schema::new(fields));
        let parts: Vec<RecordBatch> = columns
            .into_iter()
            .enumerate()
            .map(|(b, (mut cols, k))| {
                cols.push(Arc::new(Int64Array::from_iter_values((0..k as i64).map(|i| b as i64 * 1000 + i))));
                RecordBatch::try_new(schema.clone(), cols).expect("harness: batch")
            })
            .collect();
        let out: Result<Result<Vec<RecordBatch>, datafusion::error::DataFusionError>, _> = catch_unwind(AssertUnwindSafe(|| {
            rt.block_on(async {
                let ctx = SessionContext::new_with_config(SessionConfig::new().with_target_partitions(1));
                ctx.register_table("t", Arc::new(MemTable::try_new(schema.clone(), vec![parts]).expect("harness: table"))).expect("harness: table");
                let es: Vec<Expr> = args.iter().enumerate().map(|(k, t)| if consts[k] == "column" { datafusion::prelude::col(format!("c{k}")) } else { lit(scalar(t, consts[k])) }).collect();
                ctx.table("t").await?.select(vec![datafusion::prelude::col("rn"), udf.call(es).alias("v")])?.collect().await
            })
        }));
        let out = match out {
            Ok(Ok(x)) => x,
            Ok(Err(e)) => return Err(json!({"what": format!("query: {e}")})),
            Err(p) => return Err(json!({"what": format!("query: panic: {}", panic_text(p))})),
        };
        let mut seen = 0;
        for b in out {
            let rn = b.column(0).as_any().downcast_ref::<Int64Array>().expect("harness: rn").clone();
            for i in 0..b.num_rows() {
                let (bb, ii) = ((rn.value(i) / 1000) as usize, (rn.value(i) % 1000) as usize);
                check(bb, ii, &ScalarValue::try_from_array(b.column(1), i).expect("harness: value"))?;
                seen += 1;
            }
        }
        let want: usize = batches.iter().map(|b| b.as_array().unwrap().len()).sum();
        if seen != want {
            return Err(json!({"what": "rows of the query", "expected": want, "actual": seen}));
        }
        n += 1;
    }
    Ok(n)
}

pub fn rows(cfg: &Value) -> Value {
    let every = cfg["sql_every"].as_u64().unwrap_or(1) as usize;
    let cases: Vec<Value> = v_cases::load(s(cfg, "graph"))
        .into_iter()
        .enumerate()
        .map(|(i, mut c)| {
            c["sql"] = json!(i % every == 0);
            c
        })
        .collect();
    v_cases::run(
        cases,
        8,
        v_cases::known(cfg),
        || tokio::runtime::Builder::new_current_thread().build().unwrap(),
        |rt, c| rows_case(rt, c, c["sql"] == json!(true)),
    )
}

pub fn values(cfg: &Value) -> Value {
    v_cases::run(v_cases::load(s(cfg, "graph")), 8, v_cases::known(cfg), || (), |_, c| {
        let raw = hex::decode(s(c, "hex")).expect("harness: hex");
        let ret = ty(s(c, "ty"));
        let udf = create("wasmMessagePack", &fixed(&raw), &[T::INT], &ret).map_err(|e| json!({"what": format!("refused: {e}")}))?;
        let w = &c["want"];
        for n in [1usize, 2] {
            let r = invoke(&udf, &[ColumnarValue::Array(Arc::new(Int32Array::from(vec![7; n])))], n);
            match r {
                Err(e) if e.starts_with("panic") => return Err(json!({"what": e})),
                Err(_) if w["err"] == json!(true) => {}
                Err(e) => return Err(json!({"what": "a proper value was refused", "actual": e})),
                Ok(v) if w["ok"] == json!(true) => {
                    if v.len() != n || s(w, "v") != "?" && v.iter().any(|x| !same(x, &scalar(&ret, s(w, "v")))) {
                        return Err(json!({"what": "the value", "actual": v.iter().map(short).collect::<Vec<_>>()}));
                    }
                }
                Ok(v) => return Err(json!({"what": "a value was made up", "actual": v.iter().map(short).collect::<Vec<_>>()})),
            }
        }
        Ok(2)
    })
}

/// The module with a defect, and the declared types
fn defective(lang: &str, defect: &str) -> (Vec<u8>, Vec<T>, T) {
    let mut args = vec![T::INT];
    let mut ret = T::INT;
    let wat = |w: String| wat::parse_str(&w).unwrap_or_else(|e| panic!("harness: {e}\n{w}"));
    let run = |d: &str| -> Option<&'static str> {
        Some(match d {
            "unreachable" => "unreachable",
            "divide" => "(drop (i32.div_s (i32.const 1) (i32.const 0)))",
            "overflow" => "(drop (i32.trunc_f64_s (f64.const 1e300)))",
            "recursion" => "(call $deep)",
            "memory" => "(drop (i32.load (i32.const -8)))",
            _ => return None,
        })
    };
    let deep = "(func $deep (call $deep) (call $deep))";
    if lang == "wasm" {
        let m = |ps: &str, res: &str, body: &str, extra: &str| wat(format!(r#"(module (memory (export "memory") 1) (func (export "udf") {ps} {res} {body}) {extra})"#));
        let pick = |t: &str| m(&format!("(param {t})"), "(result i32)", "(i32.const 9)", "");
        let gives = |t: &str, b: &str| m("(param i32)", &format!("(result {t})"), b, "");
        let ok = m("(param i32)", "(result i32)", "(local.get 0)", "");
        let w = match defect {
            "none" => ok,
            "garbage" => b"\0asm\x01\0\0\0garbage".to_vec(),
            "empty" => vec![],
            "truncated" => ok[..ok.len() - 3].to_vec(),
            "no-entry" => wat("(module)".into()),
            "entry-is-memory" => wat(r#"(module (memory (export "udf") 1))"#.into()),
            "start-traps" => m("(param i32)", "(result i32)", "(local.get 0)", "(func $s unreachable) (start $s)"),
            "unknown-import" => wat(r#"(module (import "env" "f" (func)) (func (export "udf") (param i32) (result i32) (local.get 0)))"#.into()),
            "param-i64" => pick("i64"),
            "param-f32" => pick("f32"),
            "param-f64" => pick("f64"),
            "param-externref" => pick("externref"),
            "param-more" => pick("i32 i32"),
            "param-fewer" => m("", "(result i32)", "(i32.const 9)", ""),
            "result-i64" => gives("i64", "(i64.const 9)"),
            "result-f32" => gives("f32", "(f32.const 9)"),
            "result-f64" => gives("f64", "(f64.const 9)"),
            "result-none" => m("(param i32)", "", "", ""),
            "result-two" => gives("i32 i32", "(i32.const 9) (i32.const 9)"),
            "result-externref" => gives("externref", "(ref.null extern)"),
            d if d.starts_with("declared-") => {
                args = vec![ty(&d[9..].to_uppercase().replace("DECIMAL", "DECIMAL(38,0)"))];
                ok
            }
            d if d.starts_with("returns-") => {
                ret = ty(&d[8..].to_uppercase().replace("DECIMAL", "DECIMAL(38,0)"));
                ok
            }
            d => {
                let b = run(d).unwrap_or_else(|| panic!("harness: {d}"));
                m("(param i32)", "(result i32)", &format!("(if (i32.eq (local.get 0) (i32.const 9)) (then {b})) (local.get 0)"), deep)
            }
        };
        return (w, args, ret);
    }
    let mut g = Mp::new(Mp::pick(0));
    // the row that meets the defect carries a number that takes more bytes, so that alloc can tell
    let bad = |x: &str| format!("(if (i32.gt_u (global.get $in_n) (i32.const 8)) (then {x}))");
    let bad_alloc = |x: &str| format!("(if (i32.gt_u (local.get $n) (i32.const 8)) (then {x}))");
    let payload = |g: &mut Mp, p: &[u8]| {
        g.extra = format!("(data $d \"{}\")", bytes(p));
        g.body = format!("(if (i32.gt_u (global.get $in_n) (i32.const 8)) (then (br $body (block (result i32) {})))) {}", Mp::fixed(p), Mp::pick(0));
    };
    let end = 160 * 65536;
    match defect {
        "none" => {}
        "garbage" => return (b"\0asm\x01\0\0\0garbage".to_vec(), args, ret),
        "empty" => return (vec![], args, ret),
        "truncated" => {
            let m = g.build();
            return (m[..m.len() - 3].to_vec(), args, ret);
        }
        "no-entry" => g.entry = String::new(),
        "entry-is-memory" => {
            g.entry = String::new();
            g.memory = r#"(memory (export "memory") (export "udf") 160)"#.into()
        }
        "entry-params" => g.entry = r#"(func (export "udf") (param i32 i32) (result i32) (local.get 0))"#.into(),
        "entry-result" => g.entry = r#"(func (export "udf") (param i32) (result i64) (i64.const 9))"#.into(),
        "entry-none" => g.entry = r#"(func (export "udf") (param i32))"#.into(),
        "start-traps" => g.extra = "(func $s unreachable) (start $s)".into(),
        "unknown-import" => g.imports = r#"(import "env" "f" (func))"#.into(),
        "no-memory" => g.memory = "(memory 160)".into(),
        "no-alloc" => g.alloc = String::new(),
        "no-dealloc" => g.dealloc = String::new(),
        "alloc-params" => g.alloc = r#"(func (export "alloc") (result i32) (i32.const 9))"#.into(),
        "alloc-result" => g.alloc = r#"(func (export "alloc") (param i32))"#.into(),
        "dealloc-params" => g.dealloc = r#"(func (export "dealloc") (param i32))"#.into(),
        "dealloc-result" => g.dealloc = r#"(func (export "dealloc") (param i32 i32) (result i32) (i32.const 9))"#.into(),
        "alloc-is-global" => g.alloc = r#"(global (export "alloc") i32 (i32.const 9))"#.into(),
        "alloc-traps" => g.on_alloc = bad_alloc("unreachable"),
        "alloc-negative" => g.on_alloc = bad_alloc("(return (i32.const -1))"),
        "alloc-outside" => g.on_alloc = bad_alloc(&format!("(return (i32.const {}))", end + 5)),
        "alloc-at-end" => g.on_alloc = bad_alloc(&format!("(return (i32.const {end}))")),
        "alloc-straddles" => g.on_alloc = bad_alloc(&format!("(return (i32.const {}))", end - 6)),
        "exit" => {
            g.imports = r#"(import "wasi_snapshot_preview1" "proc_exit" (func $exit (param i32)))"#.into();
            g.on_run = bad("(call $exit (i32.const 3))")
        }
        "result-negative" => g.on_return = bad("(local.set $r (i32.const -4))"),
        "result-outside" => g.on_return = bad(&format!("(local.set $r (i32.const {}))", end + 77)),
        "result-at-end" => g.on_return = bad(&format!("(local.set $r (i32.const {}))", end - 2)),
        "size-negative" => g.on_return = bad("(i32.store (local.get $r) (i32.const -1))"),
        "size-huge" => g.on_return = bad("(i32.store (local.get $r) (i32.const 0x7fffffff))"),
        "size-outside" => g.on_return = bad(&format!("(i32.store (local.get $r) (i32.const {end}))")),
        "payload-empty" => payload(&mut g, b""),
        "payload-truncated" => payload(&mut g, b"\xce\0\0"),
        "payload-reserved" => payload(&mut g, b"\xc1"),
        "payload-nil" => payload(&mut g, b"\xc0"),
        "payload-text" => payload(&mut g, b"\xa19"),
        "payload-array" => payload(&mut g, b"\x91\x09"),
        "payload-map" => payload(&mut g, b"\x81\x09\x09"),
        "payload-deep" => payload(&mut g, &vec![0x91u8; 200_000]),
        "payload-long" => payload(&mut g, b"\xdd\xff\xff\xff\xff\x09"),
        "free-input-traps" => g.on_free = bad("(if (i32.eq (local.get $p) (global.get $in)) (then unreachable))"),
        "free-output-traps" => g.on_free = bad("(if (i32.eq (local.get $p) (global.get $out)) (then unreachable))"),
        d => {
            g.extra = deep.into();
            g.on_run = bad(run(d).unwrap_or_else(|| panic!("harness: {d}")))
        }
    }
    (g.build(), args, ret)
}

pub fn calls(cfg: &Value) -> Value {
    v_cases::run(v_cases::load(s(cfg, "graph")), 8, v_cases::known(cfg), || (), |_, c| {
        let (lang, defect) = (s(c, "lang").to_string(), s(c, "defect").to_string());
        let c = c.clone();
        // deep values take more of the stack than in a release build
        let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || calls_case(&lang, &defect, &c)).unwrap();
        h.join().unwrap_or_else(|p| {
            let m = panic_text(p);
            if m.contains("harness:") {
                eprintln!("{m}");
                std::process::exit(2);
            }
            Err(json!({"what": format!("panic: {m}")}))
        })
    })
}

fn calls_case(lang: &str, defect: &str, c: &Value) -> v_cases::Verdict {
    let (m, args, ret) = defective(lang, defect);
    let value = |x: i64| if x == 9 && lang != "wasm" { "100000".to_string() } else { x.to_string() };
    let call = |u: &ScalarUDF, b: &[i64]| {
        let vs: Vec<String> = b.iter().map(|x| if matches!(args[0], T::BOOLEAN) { "true".into() } else { value(*x) }).collect();
        invoke(u, &[ColumnarValue::Array(column(&args[0], &vs.iter().map(|x| x.as_str()).collect::<Vec<_>>()))], b.len())
    };
    let r = create(lang, &m, &args, &ret);
    if let Err(e) = &r && e.starts_with("panic") {
        return Err(json!({"what": format!("registering: {e}")}));
    }
    if c["refused"] == json!(true) {
        // at the latest when a row is computed
        return match r {
            Err(_) => Ok(1),
            Ok(u) => match call(&u, &[1]) {
                Err(e) if e.starts_with("panic") => Err(json!({"what": format!("first row: {e}")})),
                Err(_) => Ok(2),
                Ok(v) => Err(json!({"what": "a defective function gave a result", "actual": v.iter().map(short).collect::<Vec<_>>()})),
            },
        };
    }
    let u = r.map_err(|e| json!({"what": format!("refused: {e}")}))?;
    for (i, b) in c["hist"].as_array().unwrap().iter().enumerate() {
        let b: Vec<i64> = b.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
        let want = &c["out"][i];
        match call(&u, &b) {
            Err(e) if e.starts_with("panic") => return Err(json!({"what": e, "batch": i})),
            Err(_) if *want == json!([0]) => {}
            Err(e) => return Err(json!({"what": "a harmless batch failed", "batch": i, "actual": e})),
            Ok(v) if *want == json!([0]) => {
                return Err(json!({"what": "a value was made up for a failing row", "batch": i, "actual": v.iter().map(short).collect::<Vec<_>>()}))
            }
            Ok(v) => {
                if v.len() != b.len() || v.iter().zip(&b).any(|(v, x)| !same(v, &scalar(&ret, &value(*x)))) {
                    return Err(json!({"what": "the results", "batch": i, "actual": v.iter().map(short).collect::<Vec<_>>()}));
                }
            }
        }
    }
    Ok(c["hist"].as_array().unwrap().len() + 1)
}
