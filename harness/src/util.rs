use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_string()
    }
}
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(panic_msg)
}
/// run, turning a panic into the string "P:message"
pub fn guard_v(f: impl FnOnce() -> Value) -> Value {
    match guard(f) {
        Ok(v) => v,
        Err(m) => json!(format!("P:{m}")),
    }
}
pub fn guard_f<T: Into<f64>>(f: impl FnOnce() -> T) -> Value {
    guard_v(|| bits(f().into()))
}
pub fn bits(x: f64) -> Value {
    if x.is_nan() {
        json!("nan")
    } else {
        json!(format!("{:016x}", x.to_bits()))
    }
}
pub fn unbits(v: &Value) -> f64 {
    match v {
        Value::String(s) if s == "nan" => f64::NAN,
        Value::String(s) => f64::from_bits(u64::from_str_radix(s, 16).expect("bits")),
        _ => panic!("not a float: {v}"),
    }
}
pub fn floats(v: &Value) -> Vec<f64> {
    v.as_array().map(|a| a.iter().map(unbits).collect()).unwrap_or_default()
}
pub fn strs(v: &Value) -> Vec<String> {
    v.as_array()
        .map(|a| a.iter().map(|s| s.as_str().unwrap().to_string()).collect())
        .unwrap_or_default()
}
