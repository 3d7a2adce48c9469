//! programs of the final-tagless algebra, run by every interpreter
use crate::util::*;
use mathjit::final_tagless as mj;
use measures_distributions::distributions::final_tagless as dft;
use measures_exponential_family::final_tagless as eft;
use num_traits::Float;
use serde_json::{json, Value};
use symbolic_math::final_tagless as sm;

use dft::DistributionEval;
use eft::{ExpFamEval, ExponentialFamilyExpr};
use sm::{JITEval, JITRepr, MathExpr, NumericType, StatisticalExpr};

/// a numeric width; the density patterns exist for f64 only
pub trait Width: NumericType + Float + num_traits::FromPrimitive {
    fn of(x: f64) -> Self;
    fn pattern<E: MathExpr>(k: &str, a: Vec<E::Repr<Self>>) -> Option<E::Repr<Self>>
    where
        E::Repr<Self>: Clone;
}
impl Width for f32 {
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn pattern<E: MathExpr>(_: &str, _: Vec<E::Repr<f32>>) -> Option<E::Repr<f32>>
    where
        E::Repr<f32>: Clone,
    {
        None
    }
}
impl Width for f64 {
    fn of(x: f64) -> f64 {
        x
    }
    fn pattern<E: MathExpr>(k: &str, a: Vec<E::Repr<f64>>) -> Option<E::Repr<f64>>
    where
        E::Repr<f64>: Clone,
    {
        let n = |i: usize| a[i].clone();
        Some(match k {
            "e.stdnormal" => eft::patterns::standard_normal_log_density::<E>(n(0)),
            "e.normal" => eft::patterns::normal_log_density::<E>(n(0), n(1), n(2)),
            "e.poisson" => eft::patterns::poisson_log_density::<E>(n(0), n(1)),
            "e.exponential" => eft::patterns::exponential_log_density::<E>(n(0), n(1)),
            "d.stdnormal" => dft::patterns::standard_normal_log_density::<E>(n(0)),
            "d.normal" => dft::patterns::normal_log_density::<E>(n(0), n(1), n(2)),
            "d.exponential" => dft::patterns::exponential_log_density::<E>(n(0), n(1)),
            "d.cauchy" => dft::patterns::cauchy_log_density::<E>(n(0), n(1), n(2)),
            _ => return None,
        })
    }
}

/// the statistical extension, which not every interpreter has
pub trait Stat: MathExpr {
    fn stat<T: Width>(_k: &str, _x: Self::Repr<T>) -> Option<Self::Repr<T>> {
        None
    }
}
macro_rules! stat {
    ($($t:ty),*) => {$(impl Stat for $t {
        fn stat<T: Width>(k: &str, x: Self::Repr<T>) -> Option<Self::Repr<T>> {
            Some(match k {
                "slogistic" => <Self as StatisticalExpr>::logistic::<T>(x),
                "ssoftplus" => <Self as StatisticalExpr>::softplus::<T>(x),
                "sigmoid" => <Self as StatisticalExpr>::sigmoid::<T>(x),
                _ => return None,
            })
        }
    })*};
}
stat!(sm::DirectEval, sm::PrettyPrint, JITEval, Tree);
impl Stat for ExpFamEval {}
impl Stat for DistributionEval {}

/// an interpreter of our own: it records the program it is given
pub struct Tree;
macro_rules! tree {
    ($m:ident) => {
        impl $m::MathExpr for Tree {
            type Repr<T> = Value;
            fn constant<T: $m::NumericType>(v: T) -> Value {
                json!(["c", bits(v.to_string().parse().unwrap())])
            }
            fn var<T: $m::NumericType>(n: &str) -> Value {
                json!(["v", n])
            }
            fn add<L, R, O>(l: Value, r: Value) -> Value where L: $m::NumericType + std::ops::Add<R, Output = O>, R: $m::NumericType, O: $m::NumericType {
                json!(["add", l, r])
            }
            fn sub<L, R, O>(l: Value, r: Value) -> Value where L: $m::NumericType + std::ops::Sub<R, Output = O>, R: $m::NumericType, O: $m::NumericType {
                json!(["sub", l, r])
            }
            fn mul<L, R, O>(l: Value, r: Value) -> Value where L: $m::NumericType + std::ops::Mul<R, Output = O>, R: $m::NumericType, O: $m::NumericType {
                json!(["mul", l, r])
            }
            fn div<L, R, O>(l: Value, r: Value) -> Value where L: $m::NumericType + std::ops::Div<R, Output = O>, R: $m::NumericType, O: $m::NumericType {
                json!(["div", l, r])
            }
            fn pow<T: $m::NumericType + Float>(b: Value, e: Value) -> Value {
                json!(["pow", b, e])
            }
            fn neg<T: $m::NumericType + std::ops::Neg<Output = T>>(e: Value) -> Value {
                json!(["neg", e])
            }
            fn ln<T: $m::NumericType + Float>(e: Value) -> Value {
                json!(["ln", e])
            }
            fn exp<T: $m::NumericType + Float>(e: Value) -> Value {
                json!(["exp", e])
            }
            fn sqrt<T: $m::NumericType + Float>(e: Value) -> Value {
                json!(["sqrt", e])
            }
            fn sin<T: $m::NumericType + Float>(e: Value) -> Value {
                json!(["sin", e])
            }
            fn cos<T: $m::NumericType + Float>(e: Value) -> Value {
                json!(["cos", e])
            }
        }
        impl $m::StatisticalExpr for Tree {}
    };
}
tree!(sm);
tree!(mj);

macro_rules! base {
    ($E:ident, $T:ident, $k:expr, $p:expr, $s:expr, $leaf:expr, $else:expr) => {
        match $k {
            "c" => $E::constant::<$T>($T::of(unbits(&$p[1]))),
            "v" => $leaf($p[1].as_str().unwrap()),
            "add" => $E::add::<$T, $T, $T>($s(1)?, $s(2)?),
            "sub" => $E::sub::<$T, $T, $T>($s(1)?, $s(2)?),
            "mul" => $E::mul::<$T, $T, $T>($s(1)?, $s(2)?),
            "div" => $E::div::<$T, $T, $T>($s(1)?, $s(2)?),
            "pow" => $E::pow::<$T>($s(1)?, $s(2)?),
            "neg" => $E::neg::<$T>($s(1)?),
            "ln" => $E::ln::<$T>($s(1)?),
            "exp" => $E::exp::<$T>($s(1)?),
            "sqrt" => $E::sqrt::<$T>($s(1)?),
            "sin" => $E::sin::<$T>($s(1)?),
            "cos" => $E::cos::<$T>($s(1)?),
            _ => $else,
        }
    };
}

/// a program of symbolic-math's algebra and the extensions built on it
fn run_s<E: Stat, T: Width>(p: &Value, leaf: &dyn Fn(&str) -> E::Repr<T>) -> Option<E::Repr<T>>
where
    E::Repr<T>: Clone,
{
    let k = p[0].as_str().unwrap();
    let s = |i: usize| run_s::<E, T>(&p[i], leaf);
    Some(base!(E, T, k, p, s, leaf, {
        let a: Vec<E::Repr<T>> = p[2].as_array().unwrap().iter().map(|q| run_s::<E, T>(q, leaf)).collect::<Option<_>>()?;
        let n = a.len();
        match k {
            "logistic" => <E as ExponentialFamilyExpr>::logistic::<T>(a[0].clone()),
            "softplus" => <E as ExponentialFamilyExpr>::softplus::<T>(a[0].clone()),
            "dot" => E::dot_product::<T>(&a[..n / 2], &a[n / 2..]),
            "sums" => {
                let (d, j) = (unbits(&p[1][0]) as usize, unbits(&p[1][1]) as usize);
                let rows: Vec<Vec<_>> = a.chunks(d).map(|c| c.to_vec()).collect();
                let r = E::sum_sufficient_stats::<T>(&rows);
                assert_eq!(r.len(), d);
                r[j].clone()
            }
            "lse" => E::log_sum_exp::<T>(&a),
            "efld" => {
                let m = (n - 2) / 2;
                E::exp_fam_log_density::<T>(&a[..m], &a[m..2 * m], a[2 * m].clone(), a[2 * m + 1].clone())
            }
            "iid" => {
                let m = (n - 3) / 2;
                E::iid_exp_fam_log_density::<T>(&a[..m], &a[m..2 * m], a[2 * m].clone(), a[2 * m + 1].clone(), a[2 * m + 2].clone())
            }
            "slogistic" | "ssoftplus" | "sigmoid" => E::stat::<T>(k, a[0].clone())?,
            _ => T::pattern::<E>(k, a)?,
        }
    }))
}

/// a program of mathjit's algebra
fn run_m<E: mj::StatisticalExpr, T: Width>(p: &Value, leaf: &dyn Fn(&str) -> E::Repr<T>) -> Option<E::Repr<T>>
where
    E::Repr<T>: Clone,
{
    let k = p[0].as_str().unwrap();
    let s = |i: usize| run_m::<E, T>(&p[i], leaf);
    // every value goes through the wrapper
    type W<E, T> = mathjit::expr::Expr<E, T>;
    if k == "c" {
        return Some(W::<E, T>::constant(T::of(unbits(&p[1]))).into_repr());
    }
    let r = base!(E, T, k, p, s, leaf, {
        let a: Vec<E::Repr<T>> = p[2].as_array().unwrap().iter().map(|q| run_m::<E, T>(q, leaf)).collect::<Option<_>>()?;
        let c: Vec<T> = floats(&p[1]).into_iter().map(T::of).collect();
        let n = a.len();
        match k {
            "poly" => mj::polynomial::horner::<E, T>(&c, a[0].clone()),
            "dpoly" => mj::polynomial::horner_derivative::<E, T>(&c, a[0].clone()),
            "roots" => mj::polynomial::from_roots::<E, T>(&c, a[0].clone()),
            "polyx" => mj::polynomial::horner_expr::<E, T>(&a[..n - 1], a[n - 1].clone()),
            "slogistic" => E::logistic::<T>(a[0].clone()),
            "ssoftplus" => E::softplus::<T>(a[0].clone()),
            "sigmoid" => E::sigmoid::<T>(a[0].clone()),
            _ => return None,
        }
    });
    let w = W::<E, T>::new(r);
    let (a, b) = (w.as_repr().clone(), w.into_repr());
    Some(if k.len() % 2 == 0 { a } else { b })
}

fn dump_jit(r: &JITRepr) -> Value {
    let d = |x: &JITRepr| dump_jit(x);
    match r {
        JITRepr::Constant(c) => json!(["c", bits(*c)]),
        JITRepr::Variable(n) => json!(["v", n]),
        JITRepr::Add(a, b) => json!(["add", d(a), d(b)]),
        JITRepr::Sub(a, b) => json!(["sub", d(a), d(b)]),
        JITRepr::Mul(a, b) => json!(["mul", d(a), d(b)]),
        JITRepr::Div(a, b) => json!(["div", d(a), d(b)]),
        JITRepr::Pow(a, b) => json!(["pow", d(a), d(b)]),
        JITRepr::Neg(a) => json!(["neg", d(a)]),
        JITRepr::Ln(a) => json!(["ln", d(a)]),
        JITRepr::Exp(a) => json!(["exp", d(a)]),
        JITRepr::Sqrt(a) => json!(["sqrt", d(a)]),
        JITRepr::Sin(a) => json!(["sin", d(a)]),
        JITRepr::Cos(a) => json!(["cos", d(a)]),
    }
}

struct Points {
    xs: Vec<f64>,
    ps: Vec<Vec<f64>>,
}
impl Points {
    fn each(&self, f: &dyn Fn(f64, f64, f64) -> Option<f64>) -> Value {
        let mut out = vec![];
        for p in &self.ps {
            for x in &self.xs {
                out.push(match guard(|| f(*x, p[0], p[1])) {
                    Ok(Some(v)) => bits(v),
                    Ok(None) => return Value::Null,
                    Err(m) => json!(format!("P:{m}")),
                });
            }
        }
        json!(out)
    }
}
fn pick(n: &str, x: f64, y: f64, s: f64) -> f64 {
    match n {
        "x" => x,
        "y" => y,
        "s" => s,
        o => panic!("variable {o}"),
    }
}

pub fn tagless(c: &Value) -> Value {
    let p = &c["e"];
    let pts = Points { xs: floats(&c["xs"]), ps: c["ps"].as_array().unwrap().iter().map(floats).collect() };
    let mut vals = serde_json::Map::new();
    {
        // DirectEval takes a value of the width, the specialised interpreters an f64
        vals.insert("DirectEval f64".into(), pts.each(&|x, y, s| run_s::<sm::DirectEval, f64>(p, &|n| sm::DirectEval::var(n, pick(n, x, y, s)))));
        vals.insert("DirectEval f32".into(), pts.each(&|x, y, s| run_s::<sm::DirectEval, f32>(p, &|n| sm::DirectEval::var(n, pick(n, x, y, s) as f32)).map(f64::from)));
        vals.insert("ExpFamEval f64".into(), pts.each(&|x, y, s| run_s::<ExpFamEval, f64>(p, &|n| ExpFamEval::var(n, pick(n, x, y, s)))));
        vals.insert("ExpFamEval f32".into(), pts.each(&|x, y, s| run_s::<ExpFamEval, f32>(p, &|n| ExpFamEval::var(n, pick(n, x, y, s)) as f32).map(f64::from)));
        vals.insert("DistributionEval f64".into(), pts.each(&|x, y, s| run_s::<DistributionEval, f64>(p, &|n| DistributionEval::var(n, pick(n, x, y, s)))));
        vals.insert("DistributionEval f32".into(), pts.each(&|x, y, s| run_s::<DistributionEval, f32>(p, &|n| DistributionEval::var(n, pick(n, x, y, s)) as f32).map(f64::from)));
        vals.insert("mathjit DirectEval f64".into(), pts.each(&|x, y, s| run_m::<mj::DirectEval, f64>(p, &|n| mj::DirectEval::var(n, pick(n, x, y, s)))));
        vals.insert("mathjit DirectEval f32".into(), pts.each(&|x, y, s| run_m::<mj::DirectEval, f32>(p, &|n| mj::DirectEval::var(n, pick(n, x, y, s) as f32)).map(f64::from)));
    }
    let mut texts = serde_json::Map::new();
    let mut text = |k: &str, f: &dyn Fn() -> Option<String>| texts.insert(k.into(), guard_v(|| f().map_or(Value::Null, Value::from)));
    text("PrettyPrint f64", &|| run_s::<sm::PrettyPrint, f64>(p, &|n| sm::PrettyPrint::var(n)));
    text("PrettyPrint f32", &|| run_s::<sm::PrettyPrint, f32>(p, &|n| <sm::PrettyPrint as MathExpr>::var::<f32>(n)));
    text("mathjit PrettyPrint f64", &|| run_m::<mj::PrettyPrint, f64>(p, &|n| mathjit::expr::Expr::<mj::PrettyPrint, f64>::var(n).into_repr()));
    text("mathjit PrettyPrint f32", &|| run_m::<mj::PrettyPrint, f32>(p, &|n| <mj::PrettyPrint as mj::MathExpr>::var::<f32>(n)));
    let tree = |f: &dyn Fn() -> Option<Value>| guard_v(|| f().unwrap_or(Value::Null));
    let mut trees = serde_json::Map::new();
    trees.insert("own interpreter".into(), tree(&|| run_s::<Tree, f64>(p, &|n| <Tree as MathExpr>::var::<f64>(n))));
    trees.insert("own mathjit interpreter".into(), tree(&|| run_m::<Tree, f64>(p, &|n| mathjit::expr::Expr::<Tree, f64>::var(n).into_repr())));
    let mut stats = Value::Null;
    for w in ["f64", "f32"] {
        let make = || if w == "f64" { run_s::<JITEval, f64>(p, &|n| JITEval::var(n)) } else { run_s::<JITEval, f32>(p, &|n| <JITEval as MathExpr>::var::<f32>(n)) };
        let name = format!("JITEval {w}");
        match guard(make) {
            Ok(None) => {}
            Err(m) => {
                vals.insert(name, json!(format!("P:{m}")));
            }
            Ok(Some(r)) => {
                if w == "f64" {
                    let mut v: Vec<String> = r.collect_variables().into_iter().collect();
                    v.sort();
                    stats = json!({"vars": v, "consts": r.count_constants(), "complexity": r.estimate_complexity()});
                    trees.insert("JITEval".into(), dump_jit(&r));
                }
                let got = guard(|| JITEval::compile_data_params(r, "x", &["y".to_string(), "s".to_string()]));
                let v = match got {
                    Ok(Ok(f)) => pts.each(&|x, y, s| Some(f.call_data_params(x, &[y, s]))),
                    Ok(Err(e)) => json!(format!("P:{e}")),
                    Err(m) => json!(format!("P:{m}")),
                };
                vals.insert(name, v);
            }
        }
    }
    json!({"vals": vals, "texts": texts, "trees": trees, "stats": stats})
}

/// the helpers on plain numbers
pub fn values(c: &Value) -> Value {
    let (p, q) = (floats(&c["p"]), floats(&c["q"]));
    let k = c["k"].as_str().unwrap();
    macro_rules! ints {
        ($($t:ty),*) => {{
            let mut m = serde_json::Map::new();
            $(
                let cs: Option<Vec<$t>> = p.iter().map(|v| num_traits::NumCast::from(*v)).collect();
                let x: Option<$t> = num_traits::NumCast::from(q[0]);
                if let (Some(cs), Some(x)) = (cs, x) {
                    m.insert(stringify!($t).into(), guard_v(|| json!(match k {
                        "poly" => mj::polynomial::horner::<mj::DirectEval, $t>(&cs, x),
                        "dpoly" => mj::polynomial::horner_derivative::<mj::DirectEval, $t>(&cs, x),
                        "roots" => mj::polynomial::from_roots::<mj::DirectEval, $t>(&cs, x),
                        _ => mj::polynomial::horner_expr::<mj::DirectEval, $t>(&cs, x),
                    }.to_string())));
                }
            )*
            json!(m)
        }};
    }
    let one = |f: &dyn Fn() -> f64| json!([guard_f(f)]);
    match k {
        "poly" | "dpoly" | "roots" | "polyx" => ints!(i64, i32, u64, i128, f64, f32),
        "normal" => one(&|| DistributionEval::normal_log_density(q[0], p[0], p[1])),
        "exponential" => one(&|| DistributionEval::exponential_log_density(q[0], p[0])),
        "gamma" => one(&|| DistributionEval::gamma_log_density(q[0], p[0], p[1])),
        "lgamma" => one(&|| DistributionEval::log_gamma(q[0])),
        "dotarr" => json!([guard_f(|| ExpFamEval::dot_product_array(&p, &q)), guard_v(|| bits(ExpFamEval::dot_product::<f64>(&p, &q)))]),
        "sumarr" => {
            let (d, j) = (p[0] as usize, p[1] as usize);
            let rows: Vec<&[f64]> = q.chunks(d).collect();
            let r = ExpFamEval::sum_stats_array(&rows);
            let own = ExpFamEval::sum_sufficient_stats::<f64>(&q.chunks(d).map(|c| c.to_vec()).collect::<Vec<_>>());
            json!([if r.len() == d { bits(r[j]) } else { json!(r.len()) }, if own.len() == d { bits(own[j]) } else { json!(own.len()) }])
        }
        o => panic!("kind {o}"),
    }
}
