use crate::util::*;
use measures_combinators::measures::derived::binomial_coefficient::{
    log_binomial_coefficient, BinomialCoefficientMeasure,
};
use measures_combinators::measures::derived::factorial::{log_factorial, FactorialMeasure};
use measures_combinators::measures::derived::negative_binomial_coefficient::{
    log_negative_binomial_coefficient, NegativeBinomialCoefficientMeasure,
};
use measures_core::{
    log_density_at, log_density_batch, DotProduct, EvaluateAt, HasLogDensity, LogDensity,
    LogDensityBuilder, Measure,
};
use measures_distributions::distributions::continuous::*;
use measures_distributions::distributions::discrete::*;
use measures_exponential_family::exponential_family::auto_jit::AutoJITExt;
use measures_exponential_family::exponential_family::jit::{
    StaticInlineJITCompiler, ZeroOverheadOptimizer,
};
use measures_exponential_family::exponential_family::traits::{
    compute_exp_fam_log_density, compute_iid_exp_fam_log_density, SumSufficientStats,
};
use measures_exponential_family::exponential_family::{ExponentialFamily, IIDExtension, IID};
use num_traits::{Float, FloatConst, NumCast};
use serde_json::{json, Map, Value};

pub trait Fl: Float + FloatConst + NumCast + std::fmt::Debug + std::iter::Sum + Into<f64> + Default + 'static {}
impl Fl for f64 {}
impl Fl for f32 {}

pub fn c<T: Fl>(x: f64) -> T {
    T::from(x).unwrap()
}
type Out = Map<String, Value>;

fn put<T: Into<f64>>(o: &mut Out, k: &str, f: impl FnOnce() -> T) {
    o.insert(k.to_string(), guard_f(f));
}
fn putb(o: &mut Out, k: &str, f: impl FnOnce() -> bool) {
    o.insert(k.to_string(), guard_v(|| json!(f())));
}

fn direct<D, X, T: Fl>(d: &D, x: &X, o: &mut Out)
where
    X: Clone,
    D: Measure<X> + HasLogDensity<X, T>,
    LogDensity<X, D, D::RootMeasure>: EvaluateAt<X, T>,
{
    put::<T>(o, "wrt_root", || d.log_density_wrt_root(x));
    put::<T>(o, "at", || d.log_density().at(x));
    put::<T>(o, "at_new", || LogDensity::new(d.clone()).clone().at(x));
    put::<T>(o, "fn_at", || log_density_at(d, x));
    put::<T>(o, "fn_batch", || {
        // batches of several lengths, also longer than any block a batch may be cut into
        static CALLS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let n = [2, 1, 7, 2, 70, 2, 17, 3, 2, 131][CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 10];
        let v: Vec<T> = log_density_batch(d, &vec![x.clone(); n]);
        assert!(v.len() == n);
        assert!(v.iter().all(|y| *y == v[0] || *y != *y && v[0] != v[0]));
        v[n - 1]
    });
    putb(o, "in", || d.in_support(x.clone()));
    putb(o, "root_in", || d.root_measure().in_support(x.clone()));
}
fn support_only<D, X>(d: &D, x: &X, o: &mut Out)
where
    X: Clone,
    D: Measure<X>,
{
    putb(o, "in", || d.in_support(x.clone()));
    putb(o, "root_in", || d.root_measure().in_support(x.clone()));
}
/// a family written by a user: it gives only what it must, the natural parameters and the log-partition separately
#[derive(Clone)]
struct Own<D>(D);
impl<D, X: Clone, T: Fl> ExponentialFamily<X, T> for Own<D>
where
    D: ExponentialFamily<X, T>,
{
    type NaturalParam = D::NaturalParam;
    type SufficientStat = D::SufficientStat;
    type BaseMeasure = D::BaseMeasure;
    fn from_natural(n: D::NaturalParam) -> Self {
        Own(D::from_natural(n))
    }
    fn to_natural(&self) -> D::NaturalParam {
        self.0.to_natural()
    }
    fn log_partition(&self) -> T {
        self.0.log_partition()
    }
    fn sufficient_statistic(&self, x: &X) -> D::SufficientStat {
        self.0.sufficient_statistic(x)
    }
    fn base_measure(&self) -> D::BaseMeasure {
        self.0.base_measure()
    }
}
fn ef<D, X, T: Fl>(d: &D, x: &X, o: &mut Out)
where
    X: Clone + 'static,
    D: ExponentialFamily<X, T> + 'static,
    D::NaturalParam: DotProduct<D::SufficientStat, Output = T>,
    D::BaseMeasure: HasLogDensity<X, T>,
{
    put::<T>(o, "ef", || d.exp_fam_log_density(x));
    put::<T>(o, "ef_fn", || compute_exp_fam_log_density(d, x));
    put::<T>(o, "ef_manual", || {
        d.to_natural().dot(&d.sufficient_statistic(x)) - d.log_partition()
            + d.base_measure().log_density_wrt_root(x)
    });
    put::<T>(o, "ef_own", || ExponentialFamily::<X, T>::exp_fam_log_density(&Own(d.clone()), x));
    put::<T>(o, "zo_own", || ZeroOverheadOptimizer::<X, T>::zero_overhead_optimize(Own(d.clone()))(x));
    put::<T>(o, "zo", || d.clone().zero_overhead_optimize()(x));
    put::<T>(o, "zo_fn", || measures_exponential_family::exponential_family::jit::generate_zero_overhead_exp_fam(d.clone())(x));
    put::<T>(o, "h", || d.base_measure().log_density_wrt_root(x));
    offer(o, "auto_jit", || d.auto_jit(), as_f64(x));
    o.insert("auto_symbolic".into(), guard_v(|| match d.auto_symbolic() { Ok(_) => json!("offered"), Err(_) => json!("unavailable") }));
}
fn as_f64<X: 'static>(x: &X) -> f64 {
    let a = x as &dyn std::any::Any;
    if let Some(v) = a.downcast_ref::<f64>() { *v }
    else if let Some(v) = a.downcast_ref::<f32>() { (*v).into() }
    else if let Some(v) = a.downcast_ref::<u8>() { (*v).into() }
    else if let Some(v) = a.downcast_ref::<u64>() { *v as f64 }
    else { *a.downcast_ref::<usize>().unwrap() as f64 }
}
/// an evaluator that may be refused; when it is offered it is called at the point
fn offer<E>(o: &mut Out, k: &str, f: impl FnOnce() -> Result<measures_exponential_family::exponential_family::jit::JITFunction, E>, x: f64) {
    o.insert(k.to_string(), guard_v(|| match f() { Ok(j) => bits(j.call_single(x)), Err(_) => json!("unavailable") }));
}
fn offer_compiled<D, X: Clone + 'static, T: Fl>(d: &D, x: &X, o: &mut Out)
where
    D: measures_exponential_family::JITOptimizer<X, T>,
{
    offer(o, "compile_jit", || d.compile_jit(), as_f64(x));
}
/// the evaluator built once and called at several points
fn zo_many<D, X, T: Fl>(d: &D, xs: &[X]) -> Value
where
    X: Clone,
    D: ExponentialFamily<X, T>,
    D::NaturalParam: DotProduct<D::SufficientStat, Output = T>,
    D::BaseMeasure: HasLogDensity<X, T>,
{
    let f = match guard(|| d.clone().zero_overhead_optimize()) {
        Ok(f) => f,
        Err(m) => return json!(format!("P:{m}")),
    };
    Value::Array(xs.iter().map(|x| guard_f(|| f(x))).collect())
}
trait Nat {
    fn nat(&self) -> Vec<f64>;
}
impl<T: Fl, const N: usize> Nat for [T; N] {
    fn nat(&self) -> Vec<f64> {
        self.iter().map(|&v| v.into()).collect()
    }
}
impl<T: Fl> Nat for Vec<T> {
    fn nat(&self) -> Vec<f64> {
        self.iter().map(|&v| v.into()).collect()
    }
}
fn fl(v: &[f64]) -> Value {
    Value::Array(v.iter().map(|&x| bits(x)).collect())
}
fn ef_meta<D, X, T: Fl>(d: &D, params: impl Fn(&D) -> Vec<f64>) -> Value
where
    X: Clone,
    D: ExponentialFamily<X, T>,
    D::NaturalParam: Nat,
{
    let mut o = Out::new();
    o.insert("eta".into(), guard_v(|| fl(&d.to_natural().nat())));
    put::<T>(&mut o, "A", || d.log_partition());
    o.insert("eta2".into(), guard_v(|| fl(&d.natural_and_log_partition().0.nat())));
    put::<T>(&mut o, "A2", || d.natural_and_log_partition().1);
    o.insert("rt".into(), guard_v(|| fl(&params(&D::from_natural(d.to_natural())))));
    Value::Object(o)
}

fn iid_basic<D, X, T: Fl>(d: &D, xs: &[X], o: &mut Out)
where
    X: Clone,
    D: ExponentialFamily<X, T> + Measure<X>,
    D::NaturalParam: DotProduct<D::SufficientStat, Output = T>,
    D::SufficientStat: SumSufficientStats<D::SufficientStat>,
    D::BaseMeasure: HasLogDensity<X, T> + Measure<X>,
    IID<D>: Measure<Vec<X>>,
{
    let v: Vec<X> = xs.to_vec();
    put::<T>(o, "iid_fn", || compute_iid_exp_fam_log_density(d, xs));
    put::<T>(o, "iid", || IID::new(d.clone()).iid_log_density(xs));
    put::<T>(o, "iid_ext", || IIDExtension::<X, T>::iid(d.clone()).iid_log_density(xs));
    // by hand, with the joint base measure
    put::<T>(o, "iid_hand", || {
        let (eta, a) = d.natural_and_log_partition();
        let t = D::SufficientStat::sum_sufficient_stats(xs.iter().map(|x| d.sufficient_statistic(x)));
        if xs.is_empty() {
            return T::zero();
        }
        eta.dot(&t) - a * c(xs.len() as f64) + measures_exponential_family::exponential_family::iid::IIDBaseMeasure::new(d.base_measure()).log_density_wrt_root(&v)
    });
    put::<T>(o, "iid_own", || IID::new(Own(d.clone())).iid_log_density(xs));
    put::<T>(o, "iid_root", || HasLogDensity::<Vec<X>, T>::log_density_wrt_root(&IID::new(d.clone()), &v));
    putb(o, "iid_in", || IID::new(d.clone()).in_support(v.clone()));
}
fn iid_common<D, X, T: Fl>(d: &D, xs: &[X], o: &mut Out)
where
    X: Clone,
    D: ExponentialFamily<X, T> + Measure<X>,
    D::NaturalParam: DotProduct<D::SufficientStat, Output = T>,
    D::SufficientStat: SumSufficientStats<D::SufficientStat>,
    D::BaseMeasure: HasLogDensity<X, T> + Measure<X>,
    <D::BaseMeasure as Measure<X>>::RootMeasure:
        measures_exponential_family::exponential_family::iid::IIDRootMeasure<X>,
    IID<D>: Measure<Vec<X>>,
{
    let v: Vec<X> = xs.to_vec();
    iid_basic::<D, X, T>(d, xs, o);
    put::<T>(o, "iid_ef", || ExponentialFamily::<Vec<X>, T>::exp_fam_log_density(&IID::new(d.clone()), &v));
    put::<T>(o, "iid_zo", || ZeroOverheadOptimizer::<Vec<X>, T>::zero_overhead_optimize(IID::new(d.clone()))(&v));
    // the pieces of the joint family put together by hand
    put::<T>(o, "iid_parts", || {
        let j = IID::new(d.clone());
        let dot = ExponentialFamily::<Vec<X>, T>::to_natural(&j).dot(&ExponentialFamily::<Vec<X>, T>::sufficient_statistic(&j, &v));
        let a = ExponentialFamily::<Vec<X>, T>::log_partition(&j) * c(v.len() as f64);
        dot - a + ExponentialFamily::<Vec<X>, T>::base_measure(&j).log_density_wrt_root(&v)
    });
    putb(o, "iid_root_in", || Measure::<Vec<X>>::root_measure(&IID::new(d.clone())).in_support(v.clone()));
    o.insert("same base support".into(), guard_v(|| {
        let j = ExponentialFamily::<Vec<X>, T>::base_measure(&IID::new(d.clone()));
        json!([j.in_support(v.clone()), v.iter().all(|x| d.base_measure().in_support(x.clone()))])
    }));
    putb(o, "iid_base_root_in", || Measure::<Vec<X>>::root_measure(&ExponentialFamily::<Vec<X>, T>::base_measure(&IID::new(d.clone()))).in_support(v.clone()));
    // the joint family made from natural parameters is that of the distribution made from them
    o.insert("same from natural".into(), guard_v(|| {
        let j: IID<D> = ExponentialFamily::<Vec<X>, T>::from_natural(d.to_natural());
        json!([bits(j.iid_log_density(xs).into()), bits(compute_iid_exp_fam_log_density(&D::from_natural(d.to_natural()), xs).into())])
    }));
}
fn iid_fallback<D, X, T: Fl>(d: &D, xs: &[X], o: &mut Out)
where
    X: Clone,
    D: HasLogDensity<X, T> + Clone,
{
    put::<T>(o, "iid_fallback", || IID::new(d.clone()).iid_log_density_fallback(xs));
    put::<T>(o, "sum_single", || {
        let v: Vec<T> = log_density_batch(d, xs);
        v.into_iter().fold(T::zero(), |a, b| a + b)
    });
}

fn ok_or<D>(f: impl FnOnce() -> D) -> Result<D, Value> {
    guard(f).map_err(|m| json!({"new": format!("P:{m}")}))
}
macro_rules! get {
    ($e:expr) => {
        match ok_or(|| $e) {
            Ok(d) => d,
            Err(v) => return v,
        }
    };
}

struct Ctx<'a> {
    p: &'a [f64],
    xs: &'a [f64],
    seqs: Vec<Vec<f64>>,
    iid: bool,
}
impl Ctx<'_> {
    fn finish<X: Clone>(
        &self,
        conv: impl Fn(f64) -> X,
        params: Vec<f64>,
        moments: Out,
        efm: Value,
        many: Value,
        point: impl Fn(&X, &mut Out),
        seq: impl Fn(&[X], &mut Out),
    ) -> Value {
        let mut pts = vec![];
        let mut sq = vec![];
        if self.iid {
            for s in &self.seqs {
                let xs: Vec<X> = s.iter().map(|&x| conv(x)).collect();
                let mut o = Out::new();
                seq(&xs, &mut o);
                sq.push(Value::Object(o));
            }
        } else {
            for &x in self.xs {
                let mut o = Out::new();
                point(&conv(x), &mut o);
                pts.push(Value::Object(o));
            }
        }
        json!({"new": "ok", "params": fl(&params), "moments": moments, "efm": efm, "zo_many": many, "pts": pts, "seqs": sq})
    }
}
fn m(items: Vec<(&str, Box<dyn FnOnce() -> f64 + '_>)>) -> Out {
    let mut o = Out::new();
    for (k, f) in items {
        o.insert(k.to_string(), guard_f(f));
    }
    o
}
macro_rules! moments { ($($k:literal => $e:expr),* $(,)?) => { m(vec![$(($k, Box::new(|| -> f64 { ($e).into() }))),*]) } }

fn run<T: Fl>(f: &str, cx: &Ctx) -> Value {
    let p = cx.p;
    let dflt = p.is_empty();
    match f {
        "normal" => {
            let d: Normal<T> = get!(if dflt { Normal::default() } else { Normal::new(c(p[0]), c(p[1])) });
            let par = |d: &Normal<T>| vec![d.mean.into(), d.std_dev.into()];
            let xs: Vec<T> = cx.xs.iter().map(|&x| c(x)).collect();
            cx.finish(c::<T>, par(&d), moments! {"variance" => d.variance(), "params0" => d.params().0, "params1" => d.params().1},
                ef_meta::<_, T, T>(&d, par), zo_many::<_, T, T>(&d, &xs),
                |x, o| { direct::<_, _, T>(&d, x, o); ef::<_, _, T>(&d, x, o);
                         let (mu, s): (f64, f64) = (d.mean.into(), d.std_dev.into()); let xx: f64 = (*x).into();
                         put::<f64>(o, "inline", || StaticInlineJITCompiler::compile_normal(mu, s).call(xx)); },
                |xs, o| { iid_common::<_, _, T>(&d, xs, o); iid_fallback::<_, _, T>(&d, xs, o);
                          put::<T>(o, "iid_decomp", || d.log_density_iid(xs)); })
        }
        "stdnormal" => {
            let d: StdNormal<T> = if cx.xs.len() % 2 == 0 { StdNormal::new() } else { StdNormal::default() };
            let par = |_: &StdNormal<T>| vec![];
            let xs: Vec<T> = cx.xs.iter().map(|&x| c(x)).collect();
            cx.finish(c::<T>, vec![], Out::new(), ef_meta::<_, T, T>(&d, par), zo_many::<_, T, T>(&d, &xs),
                |x, o| { support_only(&d, x, o); ef::<_, _, T>(&d, x, o); },
                |xs, o| { iid_common::<_, _, T>(&d, xs, o); })
        }
        "cauchy" => {
            let d: Cauchy<T> = get!(if dflt { Cauchy::default() } else { Cauchy::new(c(p[0]), c(p[1])) });
            cx.finish(c::<T>, vec![d.location().into(), d.scale().into()],
                moments! {"params0" => d.params().0, "params1" => d.params().1,
                          "std0" => Cauchy::<T>::standard().location(), "std1" => Cauchy::<T>::standard().scale()},
                Value::Null, Value::Null,
                |x, o| { direct::<_, _, T>(&d, x, o); put::<T>(o, "log_pdf", || d.log_pdf(*x)); },
                |xs, o| { iid_fallback::<_, _, T>(&d, xs, o); put::<T>(o, "iid_decomp", || d.log_density_iid(xs));
                          putb(o, "iid_in", || IID::new(d.clone()).in_support(xs.to_vec())); })
        }
        "studentt" => {
            let d: StudentT<T> = get!(if dflt { StudentT::default() } else { StudentT::new(c(p[0])) });
            cx.finish(c::<T>, vec![d.nu().into()], moments! {"params0" => d.params()}, Value::Null, Value::Null,
                |x, o| { direct::<_, _, T>(&d, x, o); put::<T>(o, "log_pdf", || d.log_pdf(*x)); },
                |xs, o| { iid_fallback::<_, _, T>(&d, xs, o); put::<T>(o, "iid_decomp", || d.log_density_iid(xs));
                          putb(o, "iid_in", || IID::new(d.clone()).in_support(xs.to_vec())); })
        }
        "gamma" => {
            let d: Gamma<T> = get!(if dflt { Gamma::default() } else { Gamma::new(c(p[0]), c(p[1])) });
            let par = |d: &Gamma<T>| vec![d.shape.into(), d.rate.into()];
            let xs: Vec<T> = cx.xs.iter().map(|&x| c(x)).collect();
            cx.finish(c::<T>, par(&d),
                moments! {"mean" => d.mean(), "variance" => d.variance(), "scale" => d.scale(),
                          "fss_shape" => Gamma::from_shape_scale(d.shape, d.scale()).shape,
                          "fss_rate" => Gamma::from_shape_scale(d.shape, d.scale()).rate},
                ef_meta::<_, T, T>(&d, par), zo_many::<_, T, T>(&d, &xs),
                |x, o| { direct::<_, _, T>(&d, x, o); ef::<_, _, T>(&d, x, o); offer_compiled::<_, _, T>(&d, x, o); },
                |xs, o| { iid_common::<_, _, T>(&d, xs, o); iid_fallback::<_, _, T>(&d, xs, o); })
        }
        "beta" => {
            let d: Beta<T> = get!(if dflt { Beta::default() } else { Beta::new(c(p[0]), c(p[1])) });
            let par = |d: &Beta<T>| vec![d.alpha.into(), d.beta.into()];
            let xs: Vec<T> = cx.xs.iter().map(|&x| c(x)).collect();
            cx.finish(c::<T>, par(&d), moments! {"mean" => d.mean(), "variance" => d.variance()},
                ef_meta::<_, T, T>(&d, par), zo_many::<_, T, T>(&d, &xs),
                |x, o| { direct::<_, _, T>(&d, x, o); ef::<_, _, T>(&d, x, o); offer_compiled::<_, _, T>(&d, x, o); },
                |xs, o| { iid_common::<_, _, T>(&d, xs, o); iid_fallback::<_, _, T>(&d, xs, o); })
        }
        "chisq" => {
            let d: ChiSquared<T> = get!(if dflt { ChiSquared::default() } else { ChiSquared::new(c(p[0])) });
            let par = |d: &ChiSquared<T>| vec![d.degrees_of_freedom.into()];
            let xs: Vec<T> = cx.xs.iter().map(|&x| c(x)).collect();
            cx.finish(c::<T>, par(&d),
                moments! {"mean" => d.mean(), "variance" => d.variance(), "shape" => d.shape(), "rate" => d.rate()},
                ef_meta::<_, T, T>(&d, par), zo_many::<_, T, T>(&d, &xs),
                |x, o| { direct::<_, _, T>(&d, x, o); ef::<_, _, T>(&d, x, o); offer_compiled::<_, _, T>(&d, x, o); },
                |xs, o| { iid_common::<_, _, T>(&d, xs, o); iid_fallback::<_, _, T>(&d, xs, o); })
        }
        "exponential" => {
            let d: Exponential<T> = get!(if dflt { Exponential::default() } else { Exponential::new(c(p[0])) });
            let par = |d: &Exponential<T>| vec![d.rate.into()];
            let xs: Vec<T> = cx.xs.iter().map(|&x| c(x)).collect();
            cx.finish(c::<T>, par(&d), moments! {"mean" => d.mean(), "variance" => d.variance()},
                ef_meta::<_, T, T>(&d, par), zo_many::<_, T, T>(&d, &xs),
                |x, o| { direct::<_, _, T>(&d, x, o); ef::<_, _, T>(&d, x, o); offer_compiled::<_, _, T>(&d, x, o);
                         let r: f64 = d.rate.into(); let xx: f64 = (*x).into();
                         put::<f64>(o, "inline", || StaticInlineJITCompiler::compile_exponential(r).call(xx)); },
                |xs, o| { iid_common::<_, _, T>(&d, xs, o); iid_fallback::<_, _, T>(&d, xs, o); })
        }
        "bernoulli" => {
            let d: Bernoulli<T> = get!(if dflt { Bernoulli::default() } else { Bernoulli::new(c(p[0])) });
            let par = |d: &Bernoulli<T>| vec![d.prob.into()];
            let xs: Vec<u8> = cx.xs.iter().map(|&x| x as u8).collect();
            cx.finish(|x| x as u8, par(&d), moments! {"mean" => d.mean(), "variance" => d.variance(), "log_odds" => d.log_odds()},
                ef_meta::<_, u8, T>(&d, par), zo_many::<_, u8, T>(&d, &xs),
                |x, o| { direct::<_, _, T>(&d, x, o); ef::<_, _, T>(&d, x, o); offer_compiled::<_, _, T>(&d, x, o); },
                |xs, o| { iid_common::<_, _, T>(&d, xs, o); iid_fallback::<_, _, T>(&d, xs, o); })
        }
        "binomial" => {
            let d: Binomial<T> = get!(Binomial::new(p[0] as u64, c(p[1])));
            let par = |d: &Binomial<T>| vec![d.n as f64, d.prob.into()];
            let xs: Vec<u64> = cx.xs.iter().map(|&x| x as u64).collect();
            cx.finish(|x| x as u64, par(&d), moments! {"mean" => d.mean(), "variance" => d.variance(), "log_odds" => d.log_odds()},
                ef_meta::<_, u64, T>(&d, par), zo_many::<_, u64, T>(&d, &xs),
                |x, o| { direct::<_, _, T>(&d, x, o); ef::<_, _, T>(&d, x, o); offer_compiled::<_, _, T>(&d, x, o); },
                |xs, o| { iid_basic::<_, _, T>(&d, xs, o); iid_fallback::<_, _, T>(&d, xs, o); })
        }
        "negbin" => {
            let d: NegativeBinomial<T> = get!(NegativeBinomial::new(p[0] as u64, c(p[1])));
            let par = |d: &NegativeBinomial<T>| vec![d.r as f64, d.prob.into()];
            let xs: Vec<u64> = cx.xs.iter().map(|&x| x as u64).collect();
            cx.finish(|x| x as u64, par(&d),
                moments! {"mean" => d.mean(), "variance" => d.variance(), "log_odds" => d.log_odds(), "failure_prob" => d.failure_prob()},
                ef_meta::<_, u64, T>(&d, par), zo_many::<_, u64, T>(&d, &xs),
                |x, o| { direct::<_, _, T>(&d, x, o); ef::<_, _, T>(&d, x, o); offer_compiled::<_, _, T>(&d, x, o); },
                |xs, o| { iid_basic::<_, _, T>(&d, xs, o); iid_fallback::<_, _, T>(&d, xs, o); })
        }
        "geometric" => {
            let d: Geometric<T> = get!(if dflt { Geometric::default() } else { Geometric::new(c(p[0])) });
            let par = |d: &Geometric<T>| vec![d.prob.into()];
            let xs: Vec<u64> = cx.xs.iter().map(|&x| x as u64).collect();
            cx.finish(|x| x as u64, par(&d), moments! {"mean" => d.mean(), "variance" => d.variance(), "failure_prob" => d.failure_prob()},
                ef_meta::<_, u64, T>(&d, par), zo_many::<_, u64, T>(&d, &xs),
                |x, o| { direct::<_, _, T>(&d, x, o); ef::<_, _, T>(&d, x, o); offer_compiled::<_, _, T>(&d, x, o); },
                |xs, o| { iid_common::<_, _, T>(&d, xs, o); iid_fallback::<_, _, T>(&d, xs, o); })
        }
        "poisson" => {
            let d: Poisson<T> = get!(if dflt { Poisson::default() } else { Poisson::new(c(p[0])) });
            let par = |d: &Poisson<T>| vec![d.rate.into()];
            let xs: Vec<u64> = cx.xs.iter().map(|&x| x as u64).collect();
            cx.finish(|x| x as u64, par(&d), Out::new(), ef_meta::<_, u64, T>(&d, par), zo_many::<_, u64, T>(&d, &xs),
                |x, o| { direct::<_, _, T>(&d, x, o); ef::<_, _, T>(&d, x, o); },
                |xs, o| { iid_basic::<_, _, T>(&d, xs, o); iid_fallback::<_, _, T>(&d, xs, o); })
        }
        "categorical" => {
            let d: Categorical<T> = get!(Categorical::new(p.iter().map(|&x| c(x)).collect()));
            let par = |d: &Categorical<T>| d.probs.iter().map(|&x| x.into()).collect::<Vec<f64>>();
            let xs: Vec<usize> = cx.xs.iter().map(|&x| x as usize).collect();
            let k = d.num_categories();
            let mut mo = moments! {"mean" => d.mean(), "variance" => d.variance(), "num_categories" => k as f64};
            mo.insert("uniform".into(), guard_v(|| fl(&par(&Categorical::<T>::uniform(k)))));
            cx.finish(|x| x as usize, par(&d), mo,
                ef_meta::<_, usize, T>(&d, par), zo_many::<_, usize, T>(&d, &xs),
                |x, o| { direct::<_, _, T>(&d, x, o); ef::<_, _, T>(&d, x, o); offer_compiled::<_, _, T>(&d, x, o); },
                |xs, o| { iid_fallback::<_, _, T>(&d, xs, o);
                          putb(o, "iid_in", || IID::new(d.clone()).in_support(xs.to_vec())); })
        }
        "factorial" => {
            let d = if cx.xs.len() % 2 == 0 { FactorialMeasure::<T>::new() } else { FactorialMeasure::<T>::default() };
            cx.finish(|x| x as u64, vec![], Out::new(), Value::Null, Value::Null,
                |x, o| { direct::<_, _, T>(&d, x, o); put::<T>(o, "log_factorial", || -log_factorial::<T>(*x)); },
                |_, _| {})
        }
        "bincoef" => {
            let d = BinomialCoefficientMeasure::<T>::new(p[0] as u64);
            cx.finish(|x| x as u64, vec![d.n as f64], Out::new(), Value::Null, Value::Null,
                |x, o| { direct::<_, _, T>(&d, x, o); put::<T>(o, "log_coef", || log_binomial_coefficient::<T>(p[0] as u64, *x)); },
                |_, _| {})
        }
        "nbcoef" => {
            let d = NegativeBinomialCoefficientMeasure::<T>::new(p[0] as u64);
            cx.finish(|x| x as u64, vec![d.r as f64], Out::new(), Value::Null, Value::Null,
                |x, o| { direct::<_, _, T>(&d, x, o); put::<T>(o, "log_coef", || log_negative_binomial_coefficient::<T>(p[0] as u64, *x)); },
                |_, _| {})
        }
        _ => json!({"error": "family"}),
    }
}

fn go(cse: &Value, iid: bool) -> Value {
    let p = floats(&cse["p"]);
    let xs = floats(&cse["xs"]);
    let seqs = cse["seqs"].as_array().map(|a| a.iter().map(|s| {
        // a history, or a history repeated
        if s["xs"].is_array() { floats(&s["xs"]).repeat(s["rep"].as_u64().unwrap() as usize) } else { floats(s) }
    }).collect()).unwrap_or_default();
    let cx = Ctx { p: &p, xs: &xs, seqs, iid };
    let f = cse["f"].as_str().unwrap();
    match cse["w"].as_str().unwrap() {
        "f64" => run::<f64>(f, &cx),
        _ => run::<f32>(f, &cx),
    }
}
pub fn dist(cse: &Value) -> Value {
    go(cse, false)
}
pub fn iid(cse: &Value) -> Value {
    go(cse, true)
}
pub fn uniform(cse: &Value) -> Value {
    let k = cse["k"].as_u64().unwrap() as usize;
    match cse["w"].as_str().unwrap() {
        "f64" => guard_v(|| fl(&Categorical::<f64>::uniform(k).probs)),
        _ => guard_v(|| fl(&Categorical::<f32>::uniform(k).probs.iter().map(|&x| x as f64).collect::<Vec<_>>())),
    }
}
pub fn coef(cse: &Value) -> Value {
    go(cse, false)
}

/// a history of registrations; after every one, what is known about each type
pub fn registry(cse: &Value) -> Value {
    use measures_exponential_family::exponential_family::auto_jit::{AutoJITOptimizer, AutoJITPattern, AutoJITRegistry};
    use std::any::{Any, TypeId};
    use symbolic_math::{expr::SymbolicLogDensity, Expr};
    struct P(f64);
    impl AutoJITPattern for P {
        fn generate_symbolic(&self, d: &dyn Any) -> Result<SymbolicLogDensity, measures_exponential_family::exponential_family::jit::JITError> {
            let k = if let Some(v) = d.downcast_ref::<u8>() { (*v as f64) } else if let Some(v) = d.downcast_ref::<u16>() { (*v as f64) } else { (*d.downcast_ref::<i32>().unwrap() as f64) };
            Ok(SymbolicLogDensity::new(Expr::Const(self.0 * 10.0 + k), std::collections::HashMap::new()))
        }
    }
    let ids = [TypeId::of::<u8>(), TypeId::of::<u16>(), TypeId::of::<i32>()];
    let vals: [Box<dyn Any>; 3] = [Box::new(1u8), Box::new(2u16), Box::new(3i32)];
    let mut r = if cse["dflt"] == json!(true) { AutoJITRegistry::default() } else { AutoJITRegistry::new() };
    let look = |r: &AutoJITRegistry| -> Value {
        (0..3).map(|i| match r.get_pattern(ids[i]) { None => json!(0), Some(p) => match p.generate_symbolic(&*vals[i]) { Ok(s) => json!(s.evaluate_single("x", 0.0).unwrap()), Err(_) => json!("E") } }).collect()
    };
    let mut out = vec![look(&r)];
    for st in cse["h"].as_array().unwrap() {
        let t = st["t"].as_u64().unwrap() as usize - 1;
        r.register_pattern(ids[t], Box::new(P(st["p"].as_f64().unwrap())));
        out.push(look(&r));
    }
    let opt = if cse["dflt"] == json!(true) { AutoJITOptimizer::default() } else { AutoJITOptimizer::new() };
    json!({"seen": out, "optimizer": [opt.generate_symbolic(&1u8).is_ok(), opt.compile_jit(&2u16).is_ok()]})
}
