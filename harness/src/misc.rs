//! Structured decompositions, numeric conversions, vector helpers.
use crate::dist::{c, Fl};
use crate::util::*;
use measures_core::core::log_density_decomposition::{DecompositionBuilder, HasLogDensityDecomposition, LogDensityDecomposition};
use measures_core::core::utils::{float_constant, safe_convert, safe_convert_or, safe_float_convert};
use measures_core::traits::dot_product::{array_sub, DotProduct};
use measures_distributions::distributions::continuous::*;
use measures_exponential_family::exponential_family::array_utils::{add_arrays, default_array, sum_arrays};
use measures_exponential_family::exponential_family::traits::SumSufficientStats;
use serde_json::{json, Value};

type Dec<T> = LogDensityDecomposition<T, T, T>;
type Bld<T> = DecompositionBuilder<T, T, T>;
fn data_fn<T: Fl>(i: u64) -> fn(&T) -> T {
    match i {
        1 => |x| *x,
        2 => |x| *x * *x,
        3 => |_| T::one(),
        4 => |x| -*x,
        _ => |x| if *x < T::zero() { T::neg_infinity() } else { T::zero() },
    }
}
fn mixed_fn<T: Fl>(i: u64) -> fn(&T, &T) -> T {
    match i {
        1 => |x, t| *x * *t,
        2 => |x, t| (*x - *t) * (*x - *t),
        3 => |x, t| *x + *t + *t,
        4 => |x, t| -(*x * *x * *t),
        _ => |x, t| if *x > *t { T::neg_infinity() } else { T::one() },
    }
}
enum D<T> {
    B(Bld<T>),
    D(Dec<T>),
}
fn decomp_go<T: Fl>(cse: &Value) -> Value {
    let mut d = match cse["start"].as_str().unwrap() {
        "builder" => D::B(Bld::<T>::new()),
        "builder-default" => D::B(Bld::<T>::default()),
        "direct" => D::D(Dec::<T>::new()),
        _ => D::D(Dec::<T>::default()),
    };
    for op in cse["ops"].as_array().unwrap() {
        let n = || op[1].as_u64().unwrap();
        d = match (d, op[0].as_str().unwrap()) {
            (D::B(b), "data") => D::B(b.data_term(data_fn(n()), "d")),
            (D::B(b), "param") => D::B(b.param_term(data_fn(n()), "p")),
            (D::B(b), "mixed") => D::B(b.mixed_term(mixed_fn(n()), "m")),
            (D::B(b), "const") => D::B(b.constant(c(unbits(&op[1])))),
            (D::B(b), "build") => D::D(b.build()),
            (D::D(b), "data") => D::D(b.add_data_term(data_fn(n()), None)),
            (D::D(b), "param") => D::D(b.add_param_term(data_fn(n()), Some("p".into()))),
            (D::D(b), "mixed") => D::D(b.add_mixed_term(mixed_fn(n()), None)),
            (D::D(b), "const") => D::D(b.add_constant(c(unbits(&op[1])))),
            (D::D(b), "build") => D::D(b.clone()),
            (_, o) => panic!("op {o}"),
        };
    }
    let d = match d {
        D::B(b) => b.build(),
        D::D(d) => d,
    };
    let xs: Vec<T> = floats(&cse["xs"]).iter().map(|&x| c(x)).collect();
    let th: Vec<T> = floats(&cse["th"]).iter().map(|&x| c(x)).collect();
    json!({
        "sizes": [d.data_terms.len(), d.param_terms.len(), d.mixed_terms.len(), d.constant_terms.len()],
        "eval": th.iter().map(|t| xs.iter().map(|x| guard_f(|| d.evaluate(x, t))).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "data": xs.iter().map(|x| guard_f(|| d.evaluate_data_terms(x))).collect::<Vec<_>>(),
        "param": th.iter().map(|t| guard_f(|| d.evaluate_param_terms(t))).collect::<Vec<_>>(),
        "const": guard_f(|| d.constant_sum()),
        // every prefix of the samples
        "iid": th.iter().map(|t| (0..=xs.len()).map(|n| guard_f(|| d.evaluate_iid(&xs[..n], t))).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "long": cse["long"].as_array().unwrap().iter().map(|n| {
            let v: Vec<T> = (1..=n.as_u64().unwrap() as usize).map(|i| xs[i % 4]).collect();
            guard_f(|| d.evaluate_iid(&v, &th[0]))
        }).collect::<Vec<_>>(),
    })
}
pub fn decomp(cse: &Value) -> Value {
    if cse["w"] == json!("f64") { decomp_go::<f64>(cse) } else { decomp_go::<f32>(cse) }
}
/// a published decomposition, evaluated at parameters other than the instance's
fn published_go<T: Fl>(cse: &Value) -> Value {
    let p = floats(&cse["p"]);
    let q = floats(&cse["q"]);
    let xs: Vec<T> = floats(&cse["xs"]).iter().map(|&x| c(x)).collect();
    fn out<T: Fl, Th>(d: LogDensityDecomposition<T, Th, T>, t: Th, xs: &[T]) -> Value {
        json!({"at": xs.iter().map(|x| guard_f(|| d.evaluate(x, &t))).collect::<Vec<_>>(),
               "parts": xs.iter().map(|x| guard_f(|| {
                   let m = d.mixed_terms.iter().fold(T::zero(), |a, f| a + (f.compute)(x, &t));
                   d.evaluate_data_terms(x) + d.evaluate_param_terms(&t) + d.constant_sum() + m
               })).collect::<Vec<_>>(),
               "iid": guard_f(|| d.evaluate_iid(xs, &t))})
    }
    match cse["f"].as_str().unwrap() {
        "normal" => out(Normal::<T>::new(c(p[0]), c(p[1])).log_density_decomposition(), (c(q[0]), c(q[1])), &xs),
        "cauchy" => out(Cauchy::<T>::new(c(p[0]), c(p[1])).log_density_decomposition(), (c(q[0]), c(q[1])), &xs),
        _ => out(StudentT::<T>::new(c(p[0])).log_density_decomposition(), c(q[0]), &xs),
    }
}
pub fn published(cse: &Value) -> Value {
    if cse["w"] == json!("f64") { published_go::<f64>(cse) } else { published_go::<f32>(cse) }
}

// ---- conversions ------------------------------------------------------------------------------------
trait Wire: Sized {
    fn read(v: &Value) -> Self;
    fn show(self) -> Value;
}
macro_rules! wire_int { ($($t:ty),*) => { $(impl Wire for $t {
    fn read(v: &Value) -> $t { v.as_str().unwrap().parse().unwrap() }
    fn show(self) -> Value { json!(self.to_string()) }
})* } }
wire_int!(i8, u8, i16, u16, i32, u32, i64, u64, isize, usize, i128, u128);
impl Wire for f64 {
    fn read(v: &Value) -> f64 { unbits(v) }
    fn show(self) -> Value { bits(self) }
}
impl Wire for f32 {
    fn read(v: &Value) -> f32 { unbits(v) as f32 }
    fn show(self) -> Value { bits(f64::from(self)) }
}
macro_rules! by_type {
    ($name:expr, $t:ident => $e:expr) => {
        match $name {
            "i8" => { type $t = i8; $e } "u8" => { type $t = u8; $e } "i16" => { type $t = i16; $e } "u16" => { type $t = u16; $e }
            "i32" => { type $t = i32; $e } "u32" => { type $t = u32; $e } "i64" => { type $t = i64; $e } "u64" => { type $t = u64; $e }
            "isize" => { type $t = isize; $e } "usize" => { type $t = usize; $e } "i128" => { type $t = i128; $e } "u128" => { type $t = u128; $e }
            "f32" => { type $t = f32; $e } "f64" => { type $t = f64; $e }
            o => panic!("type {o}"),
        }
    };
}
fn conv_go<A: Wire + num_traits::ToPrimitive + Copy, B: Wire + num_traits::FromPrimitive + Default + Copy>(v: &Value) -> Value {
    let a = A::read(v);
    let fb = B::from_u8(7).unwrap();
    json!({"convert": guard_v(|| safe_convert::<A, B>(a).show()), "or": guard_v(|| safe_convert_or::<A, B>(a, fb).show())})
}
pub fn conv(cse: &Value) -> Value {
    let (a, b, v) = (cse["from"].as_str().unwrap(), cse["to"].as_str().unwrap(), &cse["v"]);
    let mut r = by_type!(a, A => by_type!(b, B => conv_go::<A, B>(v)));
    macro_rules! ff { ($a:ty, $b:ty) => { r["float"] = guard_v(|| match safe_float_convert::<$a, $b>(<$a>::read(v)) { Ok(x) => x.show(), Err(e) => json!(format!("E:{e}")) }) } }
    match (a, b) {
        ("f64", "f64") => ff!(f64, f64),
        ("f64", "f32") => ff!(f64, f32),
        ("f32", "f64") => ff!(f32, f64),
        ("f32", "f32") => ff!(f32, f32),
        _ => (),
    }
    if a == "f64" && b == "f64" {
        r["constant"] = guard_v(|| float_constant::<f64>(unbits(v)).show());
    }
    if a == "f64" && b == "f32" {
        r["constant"] = guard_v(|| float_constant::<f32>(unbits(v)).show());
    }
    r
}

// ---- vectors ------------------------------------------------------------------------------------------
fn vec_go<T: Fl>(rows: &[Vec<T>]) -> Value {
    fn show<T: Fl>(v: &[T]) -> Value { json!(v.iter().map(|&x| bits(x.into())).collect::<Vec<_>>()) }
    fn arr<T: Fl, const N: usize>(rows: &[Vec<T>]) -> Value {
        let r: Vec<[T; N]> = rows.iter().map(|v| std::array::from_fn(|i| v[i])).collect();
        let z = [T::zero(); N];
        let (a, b) = (r.first().copied().unwrap_or(z), r.get(1).copied().unwrap_or(z));
        json!({"dot": guard_f(|| a.dot(&b)), "sub": guard_v(|| show(&array_sub(a, b))), "add": guard_v(|| show(&add_arrays(a, b))),
               "sum": guard_v(|| show(&sum_arrays(r.iter().copied()))), "stats": guard_v(|| show(&<[T; N] as SumSufficientStats<[T; N]>>::sum_sufficient_stats(r.iter().copied()))),
               "zero": guard_v(|| show(&default_array::<T, N>()))})
    }
    let n = rows.first().map_or(0, Vec::len);
    let mut o = match n {
        0 => arr::<T, 0>(rows),
        1 => arr::<T, 1>(rows),
        2 => arr::<T, 2>(rows),
        3 => arr::<T, 3>(rows),
        4 => arr::<T, 4>(rows),
        5 => arr::<T, 5>(rows),
        8 => arr::<T, 8>(rows),
        _ => arr::<T, 17>(rows),
    };
    let e = vec![];
    let (a, b) = (rows.first().unwrap_or(&e), rows.get(1).unwrap_or(&e));
    if a.len() == b.len() {
        o["vdot"] = guard_f(|| a.dot(b));
    }
    o
}
pub fn vecs(cse: &Value) -> Value {
    let rows: Vec<Vec<f64>> = cse["rows"].as_array().unwrap().iter().map(floats).collect();
    if cse["w"] == json!("f64") {
        vec_go(&rows)
    } else {
        vec_go(&rows.iter().map(|r| r.iter().map(|&x| x as f32).collect::<Vec<f32>>()).collect::<Vec<_>>())
    }
}
