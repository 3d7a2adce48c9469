//! symbolic expressions: build, evaluate by every route, simplify, print
use crate::util::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use symbolic_math::expr::{EvalError, SymbolicLogDensity};
use symbolic_math::{builders, const_expr, display, var, Expr};

pub fn build(v: &Value, route: &str) -> Expr {
    let k = v[0].as_str().unwrap();
    let sub = |i: usize| build(&v[i], route);
    let cst = |i: usize| if v[i][0] == json!("c") { Some(unbits(&v[i][1])) } else { None };
    if k == "c" {
        let c = unbits(&v[1]);
        return match route {
            "fn" => Expr::constant(c),
            "ops" if c.fract() == 0.0 && c.abs() < 1e9 && !(c == 0.0 && c.is_sign_negative()) => Expr::from(c as i32),
            "ops" => Expr::from(c),
            "macro" => const_expr!(c),
            _ => Expr::Const(c),
        };
    }
    if k == "v" {
        let s = v[1].as_str().unwrap();
        return match route {
            "fn" => Expr::variable(s),
            "ops" => Expr::from(s),
            "macro" => var!(s),
            _ => Expr::Var(s.to_string()),
        };
    }
    match route {
        "fn" => match k {
            "add" => Expr::add(sub(1), sub(2)),
            "sub" => Expr::sub(sub(1), sub(2)),
            "mul" => Expr::mul(sub(1), sub(2)),
            "div" => Expr::div(sub(1), sub(2)),
            "pow" => Expr::pow(sub(1), sub(2)),
            "ln" => Expr::ln(sub(1)),
            "exp" => Expr::exp(sub(1)),
            "sqrt" => Expr::sqrt(sub(1)),
            "neg" => Expr::neg(sub(1)),
            "sin" => sub(1).sin(),
            "cos" => sub(1).cos(),
            o => panic!("kind {o}"),
        },
        "ops" => match (k, cst(1), if v.as_array().unwrap().len() > 2 { cst(2) } else { None }) {
            ("add", _, Some(c)) => sub(1) + c,
            ("add", Some(c), _) => c + sub(2),
            ("add", _, _) => sub(1) + sub(2),
            ("sub", _, Some(c)) => sub(1) - c,
            ("sub", Some(c), _) => c - sub(2),
            ("sub", _, _) => sub(1) - sub(2),
            ("mul", _, Some(c)) => sub(1) * c,
            ("mul", Some(c), _) => c * sub(2),
            ("mul", _, _) => sub(1) * sub(2),
            ("div", _, Some(c)) => sub(1) / c,
            ("div", Some(c), _) => c / sub(2),
            ("div", _, _) => sub(1) / sub(2),
            ("pow", _, Some(c)) => sub(1).powf(c),
            ("pow", _, _) => sub(1).powf(sub(2)),
            ("ln", _, _) => sub(1).natural_log(),
            ("exp", _, _) => sub(1).exponential(),
            ("sqrt", _, _) => sub(1).square_root(),
            ("neg", _, _) => -sub(1),
            ("sin", _, _) => sub(1).sin(),
            ("cos", _, _) => sub(1).cos(),
            (o, _, _) => panic!("kind {o}"),
        },
        _ => {
            let b = |i: usize| Box::new(sub(i));
            match k {
                "add" => Expr::Add(b(1), b(2)),
                "sub" => Expr::Sub(b(1), b(2)),
                "mul" => Expr::Mul(b(1), b(2)),
                "div" => Expr::Div(b(1), b(2)),
                "pow" => Expr::Pow(b(1), b(2)),
                "ln" => Expr::Ln(b(1)),
                "exp" => Expr::Exp(b(1)),
                "sqrt" => Expr::Sqrt(b(1)),
                "neg" => Expr::Neg(b(1)),
                "sin" => Expr::Sin(b(1)),
                "cos" => Expr::Cos(b(1)),
                o => panic!("kind {o}"),
            }
        }
    }
}

pub fn dump(e: &Expr) -> Value {
    match e {
        Expr::Const(c) => json!(["c", bits(*c)]),
        Expr::Var(s) => json!(["v", s]),
        Expr::Add(a, b) => json!(["add", dump(a), dump(b)]),
        Expr::Sub(a, b) => json!(["sub", dump(a), dump(b)]),
        Expr::Mul(a, b) => json!(["mul", dump(a), dump(b)]),
        Expr::Div(a, b) => json!(["div", dump(a), dump(b)]),
        Expr::Pow(a, b) => json!(["pow", dump(a), dump(b)]),
        Expr::Ln(a) => json!(["ln", dump(a)]),
        Expr::Exp(a) => json!(["exp", dump(a)]),
        Expr::Sqrt(a) => json!(["sqrt", dump(a)]),
        Expr::Sin(a) => json!(["sin", dump(a)]),
        Expr::Cos(a) => json!(["cos", dump(a)]),
        Expr::Neg(a) => json!(["neg", dump(a)]),
    }
}

pub fn err(e: &EvalError) -> Value {
    match e {
        EvalError::UndefinedVariable(n) => json!(["var", n]),
        EvalError::DivisionByZero => json!(["div"]),
        EvalError::InvalidLogarithm(x) => json!(["ln", bits(*x)]),
        EvalError::InvalidSquareRoot(x) => json!(["sqrt", bits(*x)]),
    }
}
pub fn res(r: Result<f64, EvalError>) -> Value {
    match r {
        Ok(x) => bits(x),
        Err(e) => err(&e),
    }
}
fn resv(r: Result<Vec<f64>, EvalError>) -> Value {
    match r {
        Ok(x) => json!({"ok": x.into_iter().map(bits).collect::<Vec<_>>()}),
        Err(e) => json!({"err": err(&e)}),
    }
}
pub fn env(v: &Value) -> HashMap<String, f64> {
    v.as_object().map(|m| m.iter().map(|(k, x)| (k.clone(), unbits(x))).collect()).unwrap_or_default()
}

pub fn expr_case(c: &Value) -> Value {
    let e = build(&c["e"], "enum");
    let mut o = json!({});
    let want = strs(&c["want"]);
    let has = |s: &str| want.iter().any(|w| w == s);
    if has("routes") {
        let mut m = json!({});
        for r in ["fn", "ops", "macro"] {
            let b = build(&c["e"], r);
            if b != e {
                m[r] = dump(&b);
            }
        }
        o["routes"] = m;
        o["complexity"] = json!(e.complexity());
        o["variables"] = json!(e.variables());
    }
    if has("eval") {
        let (xs, ys, more) = (floats(&c["xs"]), floats(&c["ys"]), env(&c["more"]));
        let full = |x: f64, y: f64| {
            let mut m = more.clone();
            m.insert("x".into(), x);
            m.insert("y".into(), y);
            m
        };
        o["full"] = json!(ys.iter().map(|&y| xs.iter().map(|&x| guard_v(|| res(e.evaluate(&full(x, y))))).collect::<Vec<_>>()).collect::<Vec<_>>());
        let sets: Vec<_> = ys.iter().flat_map(|&y| xs.iter().map(move |&x| (x, y))).map(|(x, y)| full(x, y)).collect();
        o["sets"] = guard_v(|| resv(e.evaluate_batch_vars(&sets)));
        o["grid"] = guard_v(|| match e.evaluate_grid("x", &xs, "y", &ys) {
            Ok(r) => json!({"ok": r.into_iter().map(|v| v.into_iter().map(bits).collect::<Vec<_>>()).collect::<Vec<_>>()}),
            Err(q) => json!({"err": err(&q)}),
        });
        o["dirg"] = guard_v(|| match e.evaluate_grid("y", &ys, "x", &xs) {
            Ok(r) => json!({"ok": r.into_iter().map(|v| v.into_iter().map(bits).collect::<Vec<_>>()).collect::<Vec<_>>()}),
            Err(q) => json!({"err": err(&q)}),
        });
        for (n, vs) in [("x", &xs), ("y", &ys)] {
            let each = |f: &dyn Fn(f64) -> Value| json!(vs.iter().map(|&x| guard_v(|| f(x))).collect::<Vec<_>>());
            let opt = |r: Option<f64>| r.map_or(Value::Null, bits);
            o[n] = json!({
                "evaluate": each(&|x| res(e.evaluate(&HashMap::from([(n.to_string(), x)])))),
                "single_var": each(&|x| res(e.evaluate_single_var(n, x))),
                "smart": each(&|x| res(e.evaluate_smart(n, x))),
                "polynomial": each(&|x| opt(e.evaluate_polynomial(n, x))),
                "linear": each(&|x| opt(e.evaluate_linear(n, x))),
                "batch": guard_v(|| resv(e.evaluate_batch(n, vs))),
                "batch_optimized": guard_v(|| resv(e.evaluate_batch_optimized(n, vs))),
                "coefficients": e.extract_linear_coefficients(n).map_or(Value::Null, |(a, b)| json!([bits(a), bits(b)])),
            });
        }
        o["none"] = guard_v(|| res(e.evaluate(&HashMap::new())));
        o["empty"] = json!([resv(e.evaluate_batch("x", &[])), resv(e.evaluate_batch_optimized("x", &[])), resv(e.evaluate_batch_vars(&[]))]);
    }
    if has("simp") {
        o["simp"] = guard_v(|| dump(&e.clone().simplify()));
        o["simp2"] = guard_v(|| dump(&e.clone().simplify().simplify()));
    }
    if has("text") {
        o["text"] = json!({
            "infix": guard_v(|| json!(format!("{e}"))),
            "pretty": guard_v(|| json!(format!("{}", display::PrettyExpr(&e)))),
            "equation": guard_v(|| json!(display::equation("f", &e))),
            "latex": guard_v(|| json!(e.to_latex())),
            "dlatex": guard_v(|| json!(display::latex(&e))),
            "python": guard_v(|| json!(e.to_python())),
            "dpython": guard_v(|| json!(display::python(&e))),
        });
    }
    o
}

/// a symbolic density and a history of operations on it
pub fn symdens(c: &Value) -> Value {
    let e = build(&c["e"], "enum");
    let par = env(&c["params"]);
    let envs: Vec<_> = c["envs"].as_array().unwrap().iter().map(env).collect();
    let mut plain = SymbolicLogDensity::new(e.clone(), par.clone());
    let mut custom = symbolic_math::CustomSymbolicLogDensity::new(e, par);
    let mut out = vec![];
    let ops = strs(&c["ops"]);
    for i in 0..=ops.len() {
        let single = |f: &dyn Fn(&str, f64) -> Value| {
            json!(envs.iter().map(|m| if m.len() == 1 { let (k, v) = m.iter().next().unwrap(); f(k, *v) } else { Value::Null }).collect::<Vec<_>>())
        };
        out.push(json!({
            "plain": {"e": dump(&plain.expression), "vars": plain.variables, "params": plain.parameters.iter().map(|(k, v)| (k.clone(), bits(*v))).collect::<HashMap<_, _>>(),
                      "at": envs.iter().map(|m| guard_v(|| res(plain.evaluate(m)))).collect::<Vec<_>>(),
                      "single": single(&|k, v| guard_v(|| res(plain.evaluate_single(k, v))))},
            "custom": {"e": dump(&custom.expression), "vars": custom.variables, "params": custom.parameters.iter().map(|(k, v)| (k.clone(), bits(*v))).collect::<HashMap<_, _>>(),
                      "at": envs.iter().map(|m| guard_v(|| res(custom.evaluate(m)))).collect::<Vec<_>>(),
                      "single": single(&|k, v| guard_v(|| res(custom.evaluate_single(k, v))))},
        }));
        if i < ops.len() {
            match ops[i].as_str() {
                "simplify" => {
                    plain = plain.simplify();
                    custom = custom.simplify();
                }
                _ => {
                    plain = plain.substitute_parameters();
                }
            }
        }
    }
    json!(out)
}

/// expression-building helpers: the tree they build
pub fn builder(c: &Value) -> Value {
    let f = floats(&c["p"]);
    let es: Vec<Expr> = c["es"].as_array().unwrap().iter().map(|e| build(e, "enum")).collect();
    let x = || es[0].clone();
    use symbolic_math::expr::builders as b;
    dump(&match c["name"].as_str().unwrap() {
        "quadratic_term" => b::quadratic_term("x", f[0], f[1]),
        "linear_term" => b::linear_term("x", f[0]),
        "log_normal_constant" => b::log_normal_constant(f[0]),
        "normal_log_pdf" => builders::normal_log_pdf(es[0].clone(), es[1].clone(), es[2].clone()),
        "polynomial" => builders::polynomial(x(), &f),
        "gaussian_kernel" => builders::gaussian_kernel(es[0].clone(), es[1].clone(), es[2].clone()),
        "logistic" => builders::logistic(x()),
        "softplus" => builders::softplus(x()),
        "square" => x().square(),
        "cube" => x().cube(),
        "abs" => x().abs(),
        o => panic!("builder {o}"),
    })
}

/// the expr! macro on the forms it is documented for
pub fn macros() -> Value {
    use symbolic_math::expr;
    json!({
        "x": dump(&expr!(x)), "2.5": dump(&expr!(2.5)), "3": dump(&expr!(3)),
        "x+y": dump(&expr!(x + y)), "x-y": dump(&expr!(x - y)), "x*y": dump(&expr!(x * y)), "x/y": dump(&expr!(x / y)), "x^2.0": dump(&expr!(x ^ 2.0)),
        "2.0*x": dump(&expr!(2.0 * x)), "ln x": dump(&expr!(ln(x))), "exp x": dump(&expr!(exp(x))), "sqrt x": dump(&expr!(sqrt(x))),
        "sin x": dump(&expr!(sin(x))), "cos y": dump(&expr!(cos(y))),
    })
}

// ---- caches -------------------------------------------------------------------------------------
use std::sync::atomic::{AtomicU64, Ordering};
use symbolic_math::{clear_caches, get_cache_stats};

fn stats() -> Value {
    let s = get_cache_stats();
    json!({"sh": s.simplification_hits, "sm": s.simplification_misses, "eh": s.evaluation_hits, "em": s.evaluation_misses,
           "sr": bits(s.simplification_hit_rate()), "er": bits(s.evaluation_hit_rate())})
}
fn envmap(m: &Value, k: u64) -> HashMap<String, f64> {
    // the same assignment, inserted in a different order each time
    let o = m.as_object().unwrap();
    let mut v: Vec<_> = o.iter().collect();
    let n = v.len().max(1);
    v.rotate_left((k as usize) % n);
    let mut h = HashMap::with_capacity((k as usize % 7) * 3);
    for (q, x) in v {
        h.insert(q.clone(), unbits(x));
    }
    h
}
fn sweep_expr(i: u64) -> Expr {
    (Expr::variable("x") * (i as f64) + Expr::constant(0.0)) - Expr::variable(format!("v{}", i % 97))
}
/// a history of calls on the shared caches, with the statistics after each
pub fn cache(c: &Value) -> Value {
    let exprs: Vec<Expr> = c["exprs"].as_array().unwrap().iter().map(|e| build(e, "enum")).collect();
    clear_caches();
    let mut out = vec![];
    for (n, q) in c["calls"].as_array().unwrap().iter().enumerate() {
        let (i, j) = (q[1].as_u64().unwrap_or(0), q[2].as_u64().unwrap_or(0));
        let r = guard_v(|| match q[0].as_str().unwrap() {
            "s" => json!({"got": dump(&exprs[i as usize].clone().simplify_cached()), "plain": dump(&exprs[i as usize].clone().simplify())}),
            "e" => res(exprs[i as usize].evaluate_cached(&envmap(&c["envs"][j as usize], n as u64))),
            "S" => {
                let bad = (0..i).filter(|&k| sweep_expr(k).simplify_cached() != sweep_expr(k).simplify()).count();
                json!(bad)
            }
            "E" => {
                let bad = (0..i).filter(|&k| {
                    let m = HashMap::from([("x".to_string(), 0.5 + k as f64), (format!("v{}", k % 97), 3.0)]);
                    sweep_expr(k).evaluate_cached(&m) != sweep_expr(k).evaluate(&m)
                }).count();
                json!(bad)
            }
            _ => {
                clear_caches();
                Value::Null
            }
        });
        out.push(json!({"r": r, "st": stats()}));
    }
    clear_caches();
    json!(out)
}

/// threads sharing the caches; every call is stamped by a global clock.  Threads that block end the process.
pub fn cthreads(c: &Value) -> Value {
    let exprs: std::sync::Arc<Vec<Expr>> = std::sync::Arc::new(c["exprs"].as_array().unwrap().iter().map(|e| build(e, "enum")).collect());
    let envs: std::sync::Arc<Vec<Value>> = std::sync::Arc::new(c["envs"].as_array().unwrap().clone());
    let clock = std::sync::Arc::new(AtomicU64::new(0));
    let repeat = c["repeat"].as_u64().unwrap_or(1);
    let record = repeat == 1;
    clear_caches();
    let (tx, rx) = std::sync::mpsc::channel();
    let threads = c["threads"].as_array().unwrap().clone();
    let n = threads.len();
    let gate = std::sync::Arc::new(std::sync::Barrier::new(n));
    for (t, calls) in threads.into_iter().enumerate() {
        let (exprs, envs, clock, tx, gate) = (exprs.clone(), envs.clone(), clock.clone(), tx.clone(), gate.clone());
        std::thread::spawn(move || {
            gate.wait();
            let mut out = vec![];
            let mut wrong = vec![];
            for rep in 0..repeat {
                for (k, q) in calls.as_array().unwrap().iter().enumerate() {
                    let (i, j) = (q[1].as_u64().unwrap_or(0) as usize, q[2].as_u64().unwrap_or(0) as usize);
                    let b = clock.fetch_add(1, Ordering::SeqCst);
                    let r = guard_v(|| match q[0].as_str().unwrap() {
                        "s" => {
                            let (got, plain) = (exprs[i].clone().simplify_cached(), exprs[i].clone().simplify());
                            if got != plain {
                                json!({"got": dump(&got), "plain": dump(&plain)})
                            } else {
                                json!("same")
                            }
                        }
                        "e" => {
                            let m = envmap(&envs[j], rep + k as u64);
                            let (got, plain) = (res(exprs[i].evaluate_cached(&m)), res(exprs[i].evaluate(&m)));
                            if got != plain { json!({"got": got, "plain": plain}) } else { json!("same") }
                        }
                        _ => {
                            clear_caches();
                            json!("same")
                        }
                    });
                    let e = clock.fetch_add(1, Ordering::SeqCst);
                    if r != json!("same") && wrong.len() < 5 {
                        wrong.push(json!([q, r]));
                    }
                    if record {
                        out.push(json!([b, e]));
                    }
                }
            }
            let _ = tx.send((t, out, wrong));
        });
    }
    drop(tx);
    let mut stamps = vec![Value::Null; n];
    let mut wrong = vec![];
    for _ in 0..n {
        match rx.recv_timeout(std::time::Duration::from_secs(60)) {
            Ok((t, o, w)) => {
                stamps[t] = json!(o);
                wrong.extend(w);
            }
            // blocked, or a thread died: nothing sensible can follow in this process
            Err(_) => std::process::exit(7),
        }
    }
    let st = stats();
    clear_caches();
    json!({"stamps": stamps, "wrong": wrong, "st": st})
}
