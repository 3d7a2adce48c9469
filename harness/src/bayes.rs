//! Bayesian models and the three-slot optimiser
use crate::sym::{build, dump, env, err};
use crate::util::*;
use measures_bayesian::bayesian as b;
use measures_bayesian::expressions as x;
use measures_bayesian::BayesianJITOptimizer;
use serde_json::{json, Value};
use symbolic_math::Expr;

/// build a model, by the functions of `expressions` or by their short names
fn model(m: &Value, alias: bool) -> Expr {
    let v: Vec<String> = strs(&m["v"]);
    let n = floats(&m["n"]);
    let s = |i: usize| model(&m["s"][i], alias);
    match (m["k"].as_str().unwrap(), alias) {
        ("lik", false) => x::normal_likelihood(&v[0], &v[1], &v[2]),
        ("lik", true) => b::likelihood(&v[0], &v[1], &v[2]),
        ("pri", false) => x::normal_prior(&v[0], n[0], n[1]),
        ("pri", true) => b::prior(&v[0], n[0], n[1]),
        ("post", false) => x::posterior_log_density(s(0), s(1)),
        ("post", true) => b::posterior(s(0), s(1)),
        ("hier", false) => x::hierarchical_normal(&v[0], &v[1], &v[2], &v[3], n[0], n[1]),
        ("hier", true) => b::hierarchical_normal(&v[0], &v[1], &v[2], &v[3], n[0], n[1]),
        ("mix", _) => {
            let l: Vec<usize> = n[..3].iter().map(|q| *q as usize).collect();
            let (w, r) = n[3..].split_at(l[0]);
            let (mu, sd) = r.split_at(l[1]);
            if alias { b::mixture_likelihood(&v[0], w, mu, sd) } else { x::mixture_likelihood(&v[0], w, mu, sd) }
        }
        ("mixs", _) => x::mixture_likelihood_old(&n.iter().enumerate().map(|(i, w)| (*w, s(i))).collect::<Vec<_>>()),
        ("reg", _) => symbolic_math::builders::normal_log_pdf(b::variable(&v[0]), build(&m["e"], "enum"), b::variable(&v[1])),
        ("var", _) => b::variable(&v[0]),
        ("raw", _) => build(&m["e"], "enum"),
        (o, _) => panic!("model {o}"),
    }
}

/// a model by itself: its tree, variables and values
pub fn one(c: &Value) -> Value {
    let made = match guard(|| model(&c["m"], false)) {
        Ok(e) => e,
        Err(p) => return json!({"refused": p, "alias": guard(|| model(&c["m"], true)).is_err()}),
    };
    let same = guard(|| dump(&model(&c["m"], true)) == dump(&made)).unwrap_or(false);
    let mut vars = made.variables();
    vars.sort();
    let ev = |q: &Value| guard_v(|| match made.evaluate(&env(q)) {
        Ok(r) => bits(r),
        Err(e) => err(&e),
    });
    json!({"tree": dump(&made), "alias": same, "vars": vars, "values": c["envs"].as_array().unwrap().iter().map(ev).collect::<Vec<_>>()})
}

/// a history of the optimiser
pub fn session(c: &Value) -> Value {
    let mut o = if c["default"] == json!(true) { BayesianJITOptimizer::default() } else { BayesianJITOptimizer::new() };
    let mut out = vec![];
    for st in c["steps"].as_array().unwrap() {
        let q = st.get("compile").or(st.get("eval")).unwrap();
        let slot = q[0].as_str().unwrap();
        if st.get("compile").is_some() {
            let (e, d, p, k) = (model(&q[1], false), strs(&q[2]), strs(&q[3]), env(&q[4]));
            out.push(guard_v(|| match match slot {
                "posterior" => o.compile_posterior_jit(&e, &d, &p, &k),
                "likelihood" => o.compile_likelihood_jit(&e, &d, &p, &k),
                _ => o.compile_prior_jit(&e, &p, &k),
            } {
                Ok(()) => json!("ok"),
                Err(e) => json!({"err": e.to_string()}),
            }));
        } else {
            let (d, p) = (floats(&q[1]), floats(&q[2]));
            out.push(guard_v(|| match match slot {
                "posterior" => o.evaluate_posterior(&d, &p),
                "likelihood" => o.evaluate_likelihood(&d, &p),
                _ => o.evaluate_prior(&p),
            } {
                None => Value::Null,
                Some(r) => bits(r),
            }));
        }
    }
    json!(out)
}
