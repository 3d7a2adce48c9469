//! native compilation of expressions
use crate::sym::{build, env};
use crate::util::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use symbolic_math::final_tagless::{JITEval, JITRepr, MathExpr};
use symbolic_math::jit::{CustomSymbolicLogDensity, GeneralJITCompiler, GeneralJITFunction, JITError, JITSignature};

pub fn repr(v: &Value) -> JITRepr {
    let k = v[0].as_str().unwrap();
    let s = |i: usize| repr(&v[i]);
    type J = JITEval;
    match k {
        "c" => J::constant::<f64>(unbits(&v[1])),
        "v" => J::var(v[1].as_str().unwrap()),
        "add" => J::add::<f64, f64, f64>(s(1), s(2)),
        "sub" => J::sub::<f64, f64, f64>(s(1), s(2)),
        "mul" => J::mul::<f64, f64, f64>(s(1), s(2)),
        "div" => J::div::<f64, f64, f64>(s(1), s(2)),
        "pow" => J::pow::<f64>(s(1), s(2)),
        "ln" => J::ln::<f64>(s(1)),
        "exp" => J::exp::<f64>(s(1)),
        "sqrt" => J::sqrt::<f64>(s(1)),
        "sin" => J::sin::<f64>(s(1)),
        "cos" => J::cos::<f64>(s(1)),
        "neg" => J::neg::<f64>(s(1)),
        o => panic!("kind {o}"),
    }
}

fn compile(f: &Value) -> Result<GeneralJITFunction, JITError> {
    let (d, p, c): (Vec<String>, Vec<String>, HashMap<String, f64>) = (strs(&f["data"]), strs(&f["params"]), env(&f["consts"]));
    let e = &f["e"];
    let new = || GeneralJITCompiler::new();
    match f["route"].as_str().unwrap() {
        "expr" => new()?.compile_expression(&build(e, "enum"), &d, &p, &c),
        "tagless" => new()?.compile_final_tagless(&repr(e), &d, &p, &c),
        "consts" => JITEval::compile_with_constants(repr(e), &d, &p, &c),
        "sig" => JITEval::compile_with_signature(repr(e), &d, &p),
        "single" => JITEval::compile_single_var(repr(e), &d[0]),
        "dp" => JITEval::compile_data_param(repr(e), &d[0], &p[0]),
        "dps" => JITEval::compile_data_params(repr(e), &d[0], &p),
        "auto" => JITEval::compile(repr(e)),
        "custom" => new()?.compile_custom_expression(&CustomSymbolicLogDensity::new(build(e, "enum"), c)),
        "optimizer" => {
            use measures_exponential_family::exponential_family::jit::CustomJITOptimizer;
            struct D(CustomSymbolicLogDensity);
            impl CustomJITOptimizer<f64, f64> for D {
                fn custom_symbolic_log_density(&self) -> CustomSymbolicLogDensity {
                    self.0.clone()
                }
            }
            D(CustomSymbolicLogDensity::new(build(e, "enum"), c)).compile_custom_jit()
        }
        o => panic!("route {o}"),
    }
}

fn shape(s: &JITSignature) -> Value {
    match s {
        JITSignature::SingleInput => json!(["single", 1, 0]),
        JITSignature::DataAndParameter => json!(["dp", 1, 1]),
        JITSignature::DataAndParameters(n) => json!(["dps", 1, n]),
        JITSignature::MultipleDataAndParameters { data_dims, param_dims } => json!(["batch", data_dims, param_dims]),
        JITSignature::Custom { .. } => json!(["custom", 0, 0]),
    }
}

pub fn session(c: &Value) -> Value {
    let mut fns: Vec<Option<GeneralJITFunction>> = vec![];
    let mut out = vec![];
    for st in c["steps"].as_array().unwrap() {
        if let Some(f) = st.get("compile") {
            match guard(|| compile(f)) {
                Ok(Ok(g)) => {
                    out.push(json!({"ok": shape(&g.signature)}));
                    fns.push(Some(g));
                }
                Ok(Err(e)) => {
                    out.push(json!({"err": e.to_string()}));
                    fns.push(None);
                }
                Err(m) => {
                    out.push(json!({"panic": m}));
                    fns.push(None);
                }
            }
        } else if let Some(d) = st.get("drop") {
            fns[d.as_u64().unwrap() as usize] = None;
            out.push(Value::Null);
        } else {
            let q = &st["call"];
            let (xs, ps) = (floats(&q[2]), floats(&q[3]));
            out.push(match &fns[q[0].as_u64().unwrap() as usize] {
                None => Value::Null,
                Some(f) => guard_f(|| match q[1].as_str().unwrap() {
                    "single" => f.call_single(xs[0]),
                    "dp" => f.call_data_param(xs[0], ps[0]),
                    "dps" => f.call_data_params(xs[0], &ps),
                    "batch" => f.call_batch(&xs, &ps),
                    o => panic!("method {o}"),
                }),
            });
        }
    }
    json!(out)
}

// ---- equality saturation -----------------------------------------------------------------------
/// one optimiser over a history of expressions, and every expression on an optimiser of its own
pub fn egg(c: &Value) -> Value {
    // saturation may run away: main ends the process when it sees a timeout
    let (tx, rx) = std::sync::mpsc::channel();
    let d = c.clone();
    std::thread::spawn(move || tx.send(guard_v(|| egg_run(&d))));
    // measured in processor time, so that a busy machine changes nothing, and in memory
    let limit = spent().0 + c["limit"].as_f64().unwrap_or(8.0);
    for _ in 0..2400 {
        if let Ok(r) = rx.recv_timeout(std::time::Duration::from_millis(25)) {
            return r;
        }
        let (cpu, pages) = spent();
        if cpu > limit || pages > 500_000 {
            break;
        }
    }
    json!({"timeout": true})
}

/// processor seconds used by this process and pages it holds
fn spent() -> (f64, u64) {
    let stat = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<&str> = stat.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
    // fields counted from the state, which is field 3 of proc(5)
    ((n(11) + n(12)) as f64 / 100.0, n(21))
}

fn egg_run(c: &Value) -> Value {
    use symbolic_math::optimization::EgglogOptimizer;
    use symbolic_math::EgglogOptimize;
    let es: Vec<_> = c["es"].as_array().unwrap().iter().map(|e| build(e, "enum")).collect();
    fn show<E: std::fmt::Display>(r: Result<symbolic_math::Expr, E>) -> Value {
        match r {
            Ok(e) => crate::sym::dump(&e),
            Err(e) => json!({"error": e.to_string()}),
        }
    }
    let t = std::time::Instant::now();
    let fresh: Vec<Value> = if c["fresh"] == json!(false) { vec![] } else { es.iter().map(|e| guard_v(|| show(e.optimize_with_egglog()))).collect() };
    let mut one = match EgglogOptimizer::new() {
        Ok(o) => o,
        Err(e) => return json!({"error": e.to_string()}),
    };
    let shared: Vec<Value> = es.iter().map(|e| guard_v(|| show(one.optimize(e)))).collect();
    json!({"fresh": fresh, "shared": shared, "ms": t.elapsed().as_millis() as u64})
}
