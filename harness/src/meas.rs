//! Measures as objects: re-basing sessions, caches, combinator trees.
use crate::dist::{c, Fl};
use crate::util::*;
use measures_combinators::measures::combinators::product::{ProductMeasure, ProductMeasureExt};
use measures_combinators::measures::combinators::pushforward::{transforms, PushforwardExt, PushforwardMeasure};
use measures_combinators::measures::combinators::superposition::{MixtureExt, MixtureMeasure};
use measures_combinators::measures::derived::binomial_coefficient::BinomialCoefficientMeasure;
use measures_combinators::measures::derived::dirac::Dirac;
use measures_combinators::measures::derived::factorial::FactorialMeasure;
use measures_combinators::measures::derived::integral::IntegralMeasure;
use measures_combinators::measures::derived::negative_binomial_coefficient::NegativeBinomialCoefficientMeasure;
use measures_combinators::measures::derived::weighted::WeightedMeasure;
use measures_combinators::measures::primitive::{CountingMeasure as CCount, LebesgueMeasure as CLeb};
use measures_combinators::{mixture, product_measure};
use measures_core::primitive::counting::CountingMeasure as KCount;
use measures_core::primitive::lebesgue::LebesgueMeasure as KLeb;
use measures_core::{
    CachedLogDensity, EvaluateAt, False, HasLogDensity, LogDensity, LogDensityBuilder, LogDensityCaching,
    LogDensityTrait, Measure, MeasureMarker, True, TypeLevelBool,
};
use measures_distributions::distributions::continuous::*;
use measures_distributions::distributions::discrete::*;
use serde_json::{json, Map, Value};
use std::cell::Cell;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::rc::Rc;

pub trait Obj<X, T> {
    fn ld(&self, x: &X) -> T;
    fn at(&self, x: &X) -> T;
    fn sup(&self, x: &X) -> bool;
}
struct Conc<D>(D);
impl<X: Clone, T: Fl, D> Obj<X, T> for Conc<D>
where
    D: Measure<X> + HasLogDensity<X, T>,
    LogDensity<X, D, D::RootMeasure>: EvaluateAt<X, T>,
{
    fn ld(&self, x: &X) -> T {
        self.0.log_density_wrt_root(x)
    }
    fn at(&self, x: &X) -> T {
        self.0.log_density().at(x)
    }
    fn sup(&self, x: &X) -> bool {
        self.0.in_support(x.clone())
    }
}
struct SupOnly<D>(D);
impl<X: Clone, T: Fl, D: Measure<X>> Obj<X, T> for SupOnly<D> {
    fn ld(&self, _: &X) -> T {
        T::nan()
    }
    fn at(&self, _: &X) -> T {
        T::nan()
    }
    fn sup(&self, x: &X) -> bool {
        self.0.in_support(x.clone())
    }
}

/// a measure of any kind behind one type; E is its exponential-family marker
pub struct Dy<X, T, E = False> {
    o: Rc<dyn Obj<X, T>>,
    id: usize,
    _e: PhantomData<E>,
}
impl<X, T, E> Clone for Dy<X, T, E> {
    fn clone(&self) -> Self {
        Dy { o: self.o.clone(), id: self.id, _e: PhantomData }
    }
}
impl<X, T, E: TypeLevelBool> MeasureMarker for Dy<X, T, E> {
    type IsPrimitive = False;
    type IsExponentialFamily = E;
}
impl<X: Clone, T, E: TypeLevelBool> Measure<X> for Dy<X, T, E> {
    type RootMeasure = CLeb<X>;
    fn in_support(&self, x: X) -> bool {
        self.o.sup(&x)
    }
    fn root_measure(&self) -> CLeb<X> {
        CLeb::new()
    }
}
impl<X: Clone, T, E: TypeLevelBool> HasLogDensity<X, T> for Dy<X, T, E> {
    fn log_density_wrt_root(&self, x: &X) -> T {
        self.o.ld(x)
    }
}
fn boxed<X: Clone + 'static, T: Fl, D>(d: D) -> Dy<X, T>
where
    D: Measure<X> + HasLogDensity<X, T> + 'static,
    LogDensity<X, D, D::RootMeasure>: EvaluateAt<X, T>,
{
    Dy { o: Rc::new(Conc(d)), id: 0, _e: PhantomData }
}

// ---- leaves -----------------------------------------------------------------------------------
macro_rules! count_measures {
    ($f:expr, $p:expr, $t:ty, $d:ident => $e:expr, $else:expr) => {
        match $f {
            "binomial" => { let $d = Binomial::<$t>::new($p[0] as u64, c($p[1])); $e }
            "negbin" => { let $d = NegativeBinomial::<$t>::new($p[0] as u64, c($p[1])); $e }
            "geometric" => { let $d = Geometric::<$t>::new(c($p[0])); $e }
            "poisson" => { let $d = Poisson::<$t>::new(c($p[0])); $e }
            "factorial" => { let $d = FactorialMeasure::<$t>::new(); $e }
            "bincoef" => { let $d = BinomialCoefficientMeasure::<$t>::new($p[0] as u64); $e }
            "nbcoef" => { let $d = NegativeBinomialCoefficientMeasure::<$t>::new($p[0] as u64); $e }
            "counting" => { let $d = CCount::<u64>::new(); $e }
            "kcounting" => { let $d = KCount::<u64>::new(); $e }
            _ => $else,
        }
    };
}
macro_rules! real_measures {
    ($f:expr, $p:expr, $t:ty, $d:ident => $e:expr, $else:expr) => {
        match $f {
            "normal" => { let $d = Normal::<$t>::new(c($p[0]), c($p[1])); $e }
            "cauchy" => { let $d = Cauchy::<$t>::new(c($p[0]), c($p[1])); $e }
            "studentt" => { let $d = StudentT::<$t>::new(c($p[0])); $e }
            "gamma" => { let $d = Gamma::<$t>::new(c($p[0]), c($p[1])); $e }
            "beta" => { let $d = Beta::<$t>::new(c($p[0]), c($p[1])); $e }
            "chisq" => { let $d = ChiSquared::<$t>::new(c($p[0])); $e }
            "exponential" => { let $d = Exponential::<$t>::new(c($p[0])); $e }
            "lebesgue" => { let $d = CLeb::<$t>::new(); $e }
            "klebesgue" => { let $d = KLeb::<$t>::new(); $e }
            _ => $else,
        }
    };
}

/// points of a space, with the leaf measures that live there
trait Sort<T: Fl>: Clone + PartialEq + 'static {
    fn parse(v: &Value) -> Self;
    fn coords(&self, out: &mut Vec<T>);
    fn leaf(t: &Value) -> Option<Dy<Self, T>>;
    fn push(_m: Dy<Self, T>, _t: &Value) -> Option<Dy<Self, T>> {
        None
    }
}
impl Sort<f64> for f64 {
    fn parse(v: &Value) -> f64 {
        unbits(v)
    }
    fn coords(&self, out: &mut Vec<f64>) {
        out.push(*self);
    }
    fn leaf(t: &Value) -> Option<Dy<f64, f64>> {
        let p = floats(&t["p"]);
        Some(real_measures!(t["f"].as_str()?, p, f64, d => boxed(d), return None))
    }
    fn push(m: Dy<f64, f64>, t: &Value) -> Option<Dy<f64, f64>> {
        let fluent = t["route"] == json!("ext");
        macro_rules! go {
            ($tr:expr) => {{
                let (f, i, j) = $tr;
                Some(if fluent { boxed(PushforwardExt::<f64>::pushforward(m, f, i, j)) } else { boxed(PushforwardMeasure::new(m, f, i, j)) })
            }};
        }
        match t["t"].as_str()? {
            "lin" => go!(transforms::linear_transform::<f64>(unbits(&t["a"]), unbits(&t["b"]))),
            "exp" => go!(transforms::exp_transform::<f64>()),
            "log" => go!(transforms::log_transform::<f64>()),
            "logit" => go!(transforms::logit_transform::<f64>()),
            // a caller-supplied map: y = 1 - 4x
            "own" => go!((|x: &f64| 1.0 - 4.0 * x, |y: &f64| (1.0 - y) / 4.0, |_: &f64| -(4f64.ln()))),
            _ => None,
        }
    }
}
impl Sort<f32> for f32 {
    fn parse(v: &Value) -> f32 {
        unbits(v) as f32
    }
    fn coords(&self, out: &mut Vec<f32>) {
        out.push(*self);
    }
    fn leaf(t: &Value) -> Option<Dy<f32, f32>> {
        let p = floats(&t["p"]);
        Some(real_measures!(t["f"].as_str()?, p, f32, d => boxed(d), return None))
    }
}
impl<T: Fl> Sort<T> for u64 {
    fn parse(v: &Value) -> u64 {
        unbits(v) as u64
    }
    fn coords(&self, out: &mut Vec<T>) {
        out.push(c(*self as f64));
    }
    fn leaf(t: &Value) -> Option<Dy<u64, T>> {
        let p = floats(&t["p"]);
        Some(count_measures!(t["f"].as_str()?, p, T, d => boxed(d), return None))
    }
}
impl<T: Fl, A: Sort<T>, B: Sort<T>> Sort<T> for (A, B) {
    fn parse(v: &Value) -> (A, B) {
        (A::parse(&v[0]), B::parse(&v[1]))
    }
    fn coords(&self, out: &mut Vec<T>) {
        self.0.coords(out);
        self.1.coords(out);
    }
    fn leaf(t: &Value) -> Option<Dy<(A, B), T>> {
        if t["k"] != json!("prod") {
            return None;
        }
        let (a, b) = (tree::<T, A>(&t["a"]), tree::<T, B>(&t["b"]));
        Some(match t["route"].as_str() {
            Some("ext") => boxed(ProductMeasureExt::<A>::product::<_, B>(a, b)),
            Some("macro") => boxed(product_measure!(a, b)),
            _ => boxed(ProductMeasure::new(a, b)),
        })
    }
}

fn poly<T: Fl, X: Sort<T>>(x: &X, k: &[T]) -> T {
    let mut v = vec![];
    x.coords(&mut v);
    let (s, q) = v.iter().fold((T::zero(), T::zero()), |(s, q), &a| (s + a, q + a * a));
    k[0] + k[1] * s + k[2] * q
}

fn tree<T: Fl, X: Sort<T>>(t: &Value) -> Dy<X, T> {
    match t["k"].as_str().unwrap() {
        "w" => {
            let m = tree::<T, X>(&t["m"]);
            boxed(WeightedMeasure::<_, T, X>::new(m, c(unbits(&t["c"]))))
        }
        "int" => {
            let m = tree::<T, X>(&t["m"]);
            let k: Vec<T> = floats(&t["c"]).iter().map(|&a| c(a)).collect();
            boxed(IntegralMeasure::<_, _, X>::new(m, move |x: &X| poly(x, &k)))
        }
        "mix" => {
            let ms: Vec<Dy<X, T>> = t["ms"].as_array().unwrap().iter().map(tree::<T, X>).collect();
            let ws: Vec<T> = floats(&t["ws"]).iter().map(|&a| c(a)).collect();
            match t["route"].as_str() {
                Some("uniform") => {
                    let n = ms.len();
                    // the pairwise form exists with double-precision weights only
                    let m = if n == 2 {
                        let two: Box<dyn std::any::Any> = Box::new(MixtureExt::<X>::uniform_mixture(ms[0].clone(), ms[1].clone()));
                        two.downcast::<MixtureMeasure<Dy<X, T>, T>>().map_or_else(|_| MixtureMeasure::uniform(ms), |m| *m)
                    } else if n == 3 {
                        mixture![uniform: ms[0].clone(), ms[1].clone(), ms[2].clone()]
                    } else {
                        MixtureMeasure::uniform(ms)
                    };
                    assert_eq!(m.num_components(), n);
                    boxed(m)
                }
                Some("ext") if ms.len() == 2 && ws.len() == 2 =>
                    boxed(MixtureExt::<X>::mixture(ms[0].clone(), ms[1].clone(), ws[0], ws[1])),
                Some("macro") if ms.len() == 2 && ws.len() == 2 => boxed(mixture![(ws[0], ms[0].clone()), (ws[1], ms[1].clone())]),
                Some("macro") if ms.len() == 3 && ws.len() == 3 =>
                    boxed(mixture![(ws[0], ms[0].clone()), (ws[1], ms[1].clone()), (ws[2], ms[2].clone())]),
                _ => boxed(MixtureMeasure::new(ms, ws)),
            }
        }
        "push" => X::push(tree::<T, X>(&t["m"]), t).expect("push sort"),
        "dirac" => Dy { o: Rc::new(SupOnly(Dirac::new(X::parse(&t["x"])))), id: 0, _e: PhantomData },
        _ => X::leaf(t).expect("leaf sort"),
    }
}

/// three real measures multiplied by one macro call
fn three<T: Fl + Sort<T>>(t: &Value) -> Dy<(T, (T, T)), T> {
    let prod = |t: &Value| t["k"] == json!("prod") && t["route"] == json!("macro");
    if !prod(t) || !prod(&t["b"]) {
        return tree::<T, (T, (T, T))>(t);
    }
    let b = &t["b"];
    boxed(product_measure!(tree::<T, T>(&t["a"]), tree::<T, T>(&b["a"]), tree::<T, T>(&b["b"])))
}

fn run_tree<T: Fl, X: Sort<T>>(cse: &Value) -> Value {
    run_built::<T, X>(cse, tree::<T, X>)
}
fn run_built<T: Fl, X: Sort<T>>(cse: &Value, build: fn(&Value) -> Dy<X, T>) -> Value {
    let d = match guard(|| build(&cse["tree"])) {
        Ok(d) => d,
        Err(m) => return json!({"new": format!("P:{m}")}),
    };
    let pts: Vec<Value> = cse["pts"].as_array().unwrap().iter().map(|p| {
        let x = X::parse(p);
        json!({"root": guard_f::<T>(|| d.o.ld(&x)), "at": guard_f::<T>(|| d.o.at(&x)),
               "again": guard_f::<T>(|| d.clone().log_density().at(&x)), "in": guard_v(|| json!(d.o.sup(&x)))})
    }).collect();
    json!({"new": "ok", "pts": pts})
}
pub fn tree_case(cse: &Value) -> Value {
    match (cse["sort"].as_str().unwrap(), cse["w"].as_str().unwrap()) {
        ("R", "f64") => run_tree::<f64, f64>(cse),
        ("R", _) => run_tree::<f32, f32>(cse),
        ("C", "f64") => run_tree::<f64, u64>(cse),
        ("C", _) => run_tree::<f32, u64>(cse),
        ("RR", "f64") => run_tree::<f64, (f64, f64)>(cse),
        ("RR", _) => run_tree::<f32, (f32, f32)>(cse),
        ("RC", "f64") => run_tree::<f64, (f64, u64)>(cse),
        ("RC", _) => run_tree::<f32, (f32, u64)>(cse),
        ("CR", "f64") => run_tree::<f64, (u64, f64)>(cse),
        ("CR", _) => run_tree::<f32, (u64, f32)>(cse),
        ("CC", "f64") => run_tree::<f64, (u64, u64)>(cse),
        ("CC", _) => run_tree::<f32, (u64, u64)>(cse),
        ("RRC", "f64") => run_tree::<f64, ((f64, f64), u64)>(cse),
        ("RRC", _) => run_tree::<f32, ((f32, f32), u64)>(cse),
        ("R.RC", "f64") => run_tree::<f64, (f64, (f64, u64))>(cse),
        ("R.RC", _) => run_tree::<f32, (f32, (f32, u64))>(cse),
        ("R.RR", "f64") => run_built::<f64, (f64, (f64, f64))>(cse, three::<f64>),
        ("R.RR", _) => run_built::<f32, (f32, (f32, f32))>(cse, three::<f32>),
        s => panic!("sort {s:?}"),
    }
}
/// the three maps of a built-in transform
pub fn transform(cse: &Value) -> Value {
    fn go<T: Fl>(cse: &Value) -> Value {
        let t = &cse["t"];
        macro_rules! run {
            ($tr:expr) => {{
                let (f, i, j) = $tr;
                let xs: Vec<Value> = floats(&cse["xs"]).iter().map(|&x| guard_f::<T>(|| f(&c(x)))).collect();
                let ys: Vec<Value> = floats(&cse["ys"]).iter().map(|&y| json!([guard_f::<T>(|| i(&c(y))), guard_f::<T>(|| j(&c(y)))])).collect();
                json!({"f": xs, "ij": ys})
            }};
        }
        match t["t"].as_str().unwrap() {
            "lin" => run!(transforms::linear_transform::<T>(c(unbits(&t["a"])), c(unbits(&t["b"])))),
            "exp" => run!(transforms::exp_transform::<T>()),
            "log" => run!(transforms::log_transform::<T>()),
            _ => run!(transforms::logit_transform::<T>()),
        }
    }
    if cse["w"] == json!("f64") { go::<f64>(cse) } else { go::<f32>(cse) }
}

// ---- concrete pairs (every combination of measure types, no type erasure) -----------------------
fn rebase<X: Clone, T: Fl, M, B>(m: M, b: B, xs: &[X]) -> Value
where
    M: Measure<X> + HasLogDensity<X, T>,
    B: Measure<X> + HasLogDensity<X, T>,
    LogDensity<X, M, M::RootMeasure>: EvaluateAt<X, T>,
    LogDensity<X, M, B>: EvaluateAt<X, T>,
    LogDensity<X, B, M>: EvaluateAt<X, T>,
    LogDensity<X, M, M>: EvaluateAt<X, T>,
    M::RootMeasure: HasLogDensity<X, T>,
{
    let once = m.log_density().wrt(b.clone());
    let stored = vec![once.clone(), once.clone()];
    Value::Array(xs.iter().map(|x| {
        let mut o = Map::new();
        let mut put = |k: &str, f: &dyn Fn() -> T| { o.insert(k.into(), guard_f(f)); };
        put("wrt", &|| m.log_density().wrt(b.clone()).at(x));
        put("stored", &|| stored[1].at(x));
        put("boxed", &|| Box::new(once.clone()).at(x));
        put("trait", &|| EvaluateAt::<X, T>::at(&once, x));
        put("wrt2", &|| m.log_density().wrt(m.clone()).wrt(b.clone()).at(x));
        put("back", &|| once.clone().wrt(m.root_measure()).at(x));
        put("rev", &|| b.log_density().wrt(m.clone()).at(x));
        put("self", &|| m.log_density().wrt(m.clone()).at(x));
        put("self2", &|| m.log_density().wrt(b.clone()).wrt(m.clone()).at(x));
        Value::Object(o)
    }).collect())
}
fn pair_go<T: Fl>(cse: &Value) -> Value {
    let (mf, mp) = (cse["m"]["f"].as_str().unwrap(), floats(&cse["m"]["p"]));
    let (bf, bp) = (cse["b"]["f"].as_str().unwrap(), floats(&cse["b"]["p"]));
    let xs = floats(&cse["xs"]);
    if cse["dom"] == json!("C") {
        let ks: Vec<u64> = xs.iter().map(|&x| x as u64).collect();
        count_measures!(mf, mp, T, d => count_measures!(bf, bp, T, b => rebase::<u64, T, _, _>(d, b, &ks), json!("base?")), json!("measure?"))
    } else {
        let ks: Vec<T> = xs.iter().map(|&x| c(x)).collect();
        real_measures!(mf, mp, T, d => real_measures!(bf, bp, T, b => rebase::<T, T, _, _>(d, b, &ks), json!("base?")), json!("measure?"))
    }
}
pub fn pair(cse: &Value) -> Value {
    if cse["w"] == json!("f64") { pair_go::<f64>(cse) } else { pair_go::<f32>(cse) }
}

// ---- precomputed evaluators relative to another measure ------------------------------------------
fn wrt_zo<X: Clone, T: Fl, M, B>(m: M, b: B, xs: &[X]) -> Value
where
    M: measures_exponential_family::ExponentialFamily<X, T> + Clone,
    M::NaturalParam: measures_core::DotProduct<M::SufficientStat, Output = T> + Clone,
    M::BaseMeasure: HasLogDensity<X, T> + Clone,
    B: Measure<X> + HasLogDensity<X, T> + Clone,
{
    use measures_exponential_family::exponential_family::jit::{generate_zero_overhead_exp_fam_wrt, ZeroOverheadOptimizer};
    let once = m.clone().zero_overhead_optimize_wrt(b.clone());
    let out: Vec<Value> = xs
        .iter()
        .map(|x| {
            let mut o = Map::new();
            o.insert("once".into(), guard_f(|| once(x)));
            o.insert("method".into(), guard_f(|| m.clone().zero_overhead_optimize_wrt(b.clone())(x)));
            o.insert("function".into(), guard_f(|| generate_zero_overhead_exp_fam_wrt(m.clone(), b.clone())(x)));
            Value::Object(o)
        })
        .collect();
    Value::Array(out)
}
fn wrt_go<T: Fl>(cse: &Value) -> Value {
    let (mf, mp) = (cse["m"]["f"].as_str().unwrap(), floats(&cse["m"]["p"]));
    let (bf, bp) = (cse["b"]["f"].as_str().unwrap(), floats(&cse["b"]["p"]));
    let xs = floats(&cse["xs"]);
    let cat = |p: &[f64]| Categorical::<T>::new(p.iter().map(|&x| c(x)).collect());
    match cse["dom"].as_str().unwrap() {
        "C" => {
            let ks: Vec<u64> = xs.iter().map(|&x| x as u64).collect();
            macro_rules! go { ($d:expr) => {{ let d = $d; count_measures!(bf, bp, T, b => wrt_zo::<u64, T, _, _>(d, b, &ks), json!("base?")) }} }
            match mf {
                "binomial" => go!(Binomial::<T>::new(mp[0] as u64, c(mp[1]))),
                "negbin" => go!(NegativeBinomial::<T>::new(mp[0] as u64, c(mp[1]))),
                "geometric" => go!(Geometric::<T>::new(c(mp[0]))),
                "poisson" => go!(Poisson::<T>::new(c(mp[0]))),
                o => json!(o),
            }
        }
        "R" => {
            let ks: Vec<T> = xs.iter().map(|&x| c(x)).collect();
            macro_rules! go { ($d:expr) => {{ let d = $d; real_measures!(bf, bp, T, b => wrt_zo::<T, T, _, _>(d, b, &ks), json!("base?")) }} }
            match mf {
                "normal" => go!(Normal::<T>::new(c(mp[0]), c(mp[1]))),
                "stdnormal" => go!(StdNormal::<T>::new()),
                "gamma" => go!(Gamma::<T>::new(c(mp[0]), c(mp[1]))),
                "beta" => go!(Beta::<T>::new(c(mp[0]), c(mp[1]))),
                "chisq" => go!(ChiSquared::<T>::new(c(mp[0]))),
                "exponential" => go!(Exponential::<T>::new(c(mp[0]))),
                o => json!(o),
            }
        }
        "B" => {
            let ks: Vec<u8> = xs.iter().map(|&x| x as u8).collect();
            let d = Bernoulli::<T>::new(c(mp[0]));
            if bf == "bernoulli" { wrt_zo::<u8, T, _, _>(d, Bernoulli::<T>::new(c(bp[0])), &ks) } else { wrt_zo::<u8, T, _, _>(d, CCount::<u8>::new(), &ks) }
        }
        _ => {
            let ks: Vec<usize> = xs.iter().map(|&x| x as usize).collect();
            if bf == "categorical" { wrt_zo::<usize, T, _, _>(cat(&mp), cat(&bp), &ks) } else { wrt_zo::<usize, T, _, _>(cat(&mp), CCount::<usize>::new(), &ks) }
        }
    }
}
pub fn wrt_pairs(cse: &Value) -> Value {
    if cse["w"] == json!("f64") { wrt_go::<f64>(cse) } else { wrt_go::<f32>(cse) }
}

// ---- sessions of log-density objects and caches --------------------------------------------------
/// a point with a chosen quality of hash function (equality is always exact)
#[derive(Clone, PartialEq, Eq, Debug)]
struct Key<const H: usize>(u64);
impl<const H: usize> Hash for Key<H> {
    fn hash<S: Hasher>(&self, s: &mut S) {
        match H {
            0 => self.0.hash(s),
            1 => (self.0 % 2).hash(s),
            _ => {}
        }
    }
}
struct Ad<X> {
    inner: Rc<dyn Obj<X, f64>>,
    conv: fn(f64) -> X,
}
impl<X, const H: usize> Obj<Key<H>, f64> for Ad<X> {
    fn ld(&self, x: &Key<H>) -> f64 {
        self.inner.ld(&(self.conv)(f64::from_bits(x.0)))
    }
    fn at(&self, x: &Key<H>) -> f64 {
        self.inner.at(&(self.conv)(f64::from_bits(x.0)))
    }
    fn sup(&self, x: &Key<H>) -> bool {
        self.inner.sup(&(self.conv)(f64::from_bits(x.0)))
    }
}
trait SPoint: Clone + Hash + Eq + 'static {
    fn pt(x: f64) -> Self;
    fn measure(dom: &str, t: &Value) -> Rc<dyn Obj<Self, f64>>;
}
impl SPoint for u64 {
    fn pt(x: f64) -> u64 {
        x as u64
    }
    fn measure(_: &str, t: &Value) -> Rc<dyn Obj<u64, f64>> {
        tree::<f64, u64>(t).o
    }
}
impl<const H: usize> SPoint for Key<H> {
    fn pt(x: f64) -> Self {
        Key(x.to_bits())
    }
    fn measure(dom: &str, t: &Value) -> Rc<dyn Obj<Self, f64>> {
        if dom == "C" {
            Rc::new(Ad { inner: tree::<f64, u64>(t).o, conv: |x| x as u64 })
        } else {
            Rc::new(Ad { inner: tree::<f64, f64>(t).o, conv: |x| x })
        }
    }
}
/// an uncached log-density that counts its evaluations
struct Counted<L> {
    inner: L,
    n: Rc<Cell<usize>>,
}
impl<X, L: LogDensityTrait<X>> LogDensityTrait<X> for Counted<L> {
    type Measure = L::Measure;
    type BaseMeasure = L::BaseMeasure;
    fn measure(&self) -> &L::Measure {
        self.inner.measure()
    }
    fn base_measure(&self) -> &L::BaseMeasure {
        self.inner.base_measure()
    }
}
impl<X, F, L: EvaluateAt<X, F>> EvaluateAt<X, F> for Counted<L> {
    fn at(&self, x: &X) -> F {
        self.n.set(self.n.get() + 1);
        self.inner.at(x)
    }
}
trait Ident {
    fn ident(&self) -> i64;
}
impl<X, T, E> Ident for Dy<X, T, E> {
    fn ident(&self) -> i64 {
        self.id as i64
    }
}
impl<X: Clone> Ident for CLeb<X> {
    fn ident(&self) -> i64 {
        -1
    }
}
type M0<X> = Dy<X, f64, False>;
type M1<X> = Dy<X, f64, True>;
#[derive(Clone)]
enum AnyM<X> {
    F(M0<X>),
    T(M1<X>),
}

#[derive(Clone)]
enum LD<X: Clone + 'static> {
    FR(LogDensity<X, M0<X>, CLeb<X>>),
    TR(LogDensity<X, M1<X>, CLeb<X>>),
    FF(LogDensity<X, M0<X>, M0<X>>),
    FT(LogDensity<X, M0<X>, M1<X>>),
    TF(LogDensity<X, M1<X>, M0<X>>),
    TT(LogDensity<X, M1<X>, M1<X>>),
}
macro_rules! each {
    ($s:expr, $l:ident => $e:expr) => {
        match $s { LD::FR($l) => $e, LD::TR($l) => $e, LD::FF($l) => $e, LD::FT($l) => $e, LD::TF($l) => $e, LD::TT($l) => $e }
    };
}
/// what a cache can be asked, with the concrete types hidden
trait CacheObj<X> {
    fn q(&self, x: &X) -> f64;
    fn ids(&self) -> (i64, i64);
}
struct C64<L: LogDensityTrait<X>, X: Clone + Hash + Eq>(CachedLogDensity<L, X, f64>);
impl<X: Clone + Hash + Eq, L: LogDensityTrait<X> + EvaluateAt<X, f64>> CacheObj<X> for C64<L, X>
where
    L::Measure: Ident,
    L::BaseMeasure: Ident,
{
    fn q(&self, x: &X) -> f64 {
        EvaluateAt::<X, f64>::at(&self.0, x)
    }
    fn ids(&self) -> (i64, i64) {
        (self.0.measure().ident(), self.0.base_measure().ident())
    }
}
fn wrt<X: Clone + 'static>(l: LD<X>, b: &AnyM<X>) -> LD<X> {
    macro_rules! f { ($l:expr) => { match b { AnyM::F(b) => LD::FF($l.wrt(b.clone())), AnyM::T(b) => LD::FT($l.wrt(b.clone())) } } }
    macro_rules! t { ($l:expr) => { match b { AnyM::F(b) => LD::TF($l.wrt(b.clone())), AnyM::T(b) => LD::TT($l.wrt(b.clone())) } } }
    match l {
        LD::FR(l) => f!(l), LD::FF(l) => f!(l), LD::FT(l) => f!(l),
        LD::TR(l) => t!(l), LD::TF(l) => t!(l), LD::TT(l) => t!(l),
    }
}
fn session<X: SPoint>(cse: &Value) -> Value {
    let dom = cse["dom"].as_str().unwrap();
    let ms: Vec<AnyM<X>> = cse["ms"].as_array().unwrap().iter().enumerate().map(|(i, t)| {
        let o = X::measure(dom, t);
        if t["e"] == json!(true) { AnyM::T(Dy { o, id: i, _e: PhantomData }) } else { AnyM::F(Dy { o, id: i, _e: PhantomData }) }
    }).collect();
    let mut objs: Vec<LD<X>> = vec![];
    let mut caches: Vec<(Box<dyn CacheObj<X>>, LD<X>, Rc<Cell<usize>>)> = vec![];
    let mut out = vec![];
    for op in cse["ops"].as_array().unwrap() {
        let a = |i: usize| op[i].as_u64().unwrap() as usize;
        let r = match op[0].as_str().unwrap() {
            "build" => {
                objs.push(match &ms[a(1)] { AnyM::F(m) => LD::FR(m.log_density()), AnyM::T(m) => LD::TR(m.log_density()) });
                json!("ok")
            }
            "wrt" => {
                let o = objs[a(1)].clone();
                objs[a(1)] = wrt(o, &ms[a(2)]);
                json!("ok")
            }
            "fork" => {
                let o = objs[a(1)].clone();
                objs.push(wrt(o, &ms[a(2)]));
                json!("ok")
            }
            "at" => {
                let x = X::pt(unbits(&op[2]));
                guard_f(|| -> f64 { each!(&objs[a(1)], l => l.at(&x)) })
            }
            "obs" => each!(&objs[a(1)], l => json!([l.measure().ident(), l.base_measure().ident()])),
            "cache" => {
                let n = Rc::new(Cell::new(0));
                let o = objs[a(1)].clone();
                let route = a(2);
                let b: Box<dyn CacheObj<X>> = each!(o.clone(), l => {
                    let k = Counted { inner: l, n: n.clone() };
                    match route {
                        0 => Box::new(C64(k.cached())),
                        1 => Box::new(C64(k.cached_for::<f64>())),
                        _ => Box::new(C64(CachedLogDensity::new(k))),
                    }
                });
                caches.push((b, o, n));
                json!("ok")
            }
            "q" => {
                let x = X::pt(unbits(&op[2]));
                let (b, o, n) = &caches[a(1)];
                let plain = guard_f(|| -> f64 { each!(o, l => l.at(&x)) });
                let got = guard_f(|| -> f64 { b.q(&x) });
                json!([got, plain, n.get()])
            }
            "sweep" => {
                // the first n points of the enumeration: where cached and uncached differ, and the evaluations so far
                let (b, o, n) = &caches[a(1)];
                let mut bad = vec![];
                for j in 0..a(2) {
                    let v = if dom == "C" { j as f64 } else { (2 * j + 1) as f64 / 32.0 };
                    let x = X::pt(v);
                    let plain = guard_f(|| -> f64 { each!(o, l => l.at(&x)) });
                    let got = guard_f(|| -> f64 { b.q(&x) });
                    if plain != got && bad.len() < 3 {
                        bad.push(json!([v, got, plain]));
                    }
                }
                json!([bad, n.get()])
            }
            "cobs" => {
                let (m, b) = caches[a(1)].0.ids();
                json!([m, b])
            }
            o => panic!("op {o}"),
        };
        out.push(r);
    }
    json!(out)
}
pub fn dsess(cse: &Value) -> Value {
    match (cse["dom"].as_str().unwrap(), cse["key"].as_u64().unwrap()) {
        ("C", 3) => session::<u64>(cse),
        (_, 0) => session::<Key<0>>(cse),
        (_, 1) => session::<Key<1>>(cse),
        _ => session::<Key<2>>(cse),
    }
}
