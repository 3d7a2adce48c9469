//! Differentiable transforms and log-densities over automatic-differentiation numbers.
use crate::util::*;
use ad_trait::forward_ad::adfn::adfn;
use ad_trait::reverse_ad::adr::adr;
use ad_trait::AD;
use measures_combinators::measures::combinators::transform::*;
use measures_core::core::autodiff::{constructors, AutoDiffMeasure, LogDensityAD};
use measures_core::*;
use serde_json::{json, Value};

type Lin<T> = LinearTransform<T>;
type Cw<T> = ComponentwiseTransform<T, fn(T) -> T>;
/// every stage is held by a transformed measure and asked through it
enum Stage<T: AD> {
    L(TransformedMeasure<LebesgueMeasure<T>, T, Lin<T>>),
    C(TransformedMeasure<Quad, T, Cw<T>>),
}
fn function<T: AD>(f: &str) -> fn(T) -> T {
    match f {
        "square" => |x| x * x,
        "affine" => |x| x * T::constant(3.0) - T::constant(1.0),
        _ => |x| -x,
    }
}
fn stage<T: AD>(s: &Value) -> Stage<T> {
    let n = s["n"].as_u64().unwrap() as usize;
    let m = s["m"].as_u64().unwrap() as usize;
    if s["k"] == json!("lin") {
        Stage::L(TransformedMeasure::new(LebesgueMeasure::new(), LinearTransform::new(floats(&s["a"]), floats(&s["b"]), n, m)))
    } else {
        let t = TransformedMeasure::new(Quad(1.0, 2.0, n as f64), ComponentwiseTransform::new(function(s["f"].as_str().unwrap()), n));
        let q = t.base_measure();
        assert!([q.0, q.1, q.2] == [1.0, 2.0, n as f64], "the base measure changed");
        Stage::C(t)
    }
}
impl<T: AD> Stage<T> {
    fn get(&self) -> &dyn DifferentiableTransform<T> {
        match self {
            Stage::L(l) => l.transformation(),
            Stage::C(c) => c.transformation(),
        }
    }
}
/// images after every stage, and the volume factor of every stage
fn run<T: AD>(stages: &Value, x: Vec<T>) -> (Vec<Vec<T>>, Vec<T>, Vec<[usize; 2]>) {
    let (mut at, mut vol, mut dims) = (vec![x], vec![], vec![]);
    for s in stages.as_array().unwrap() {
        let t = stage::<T>(s);
        let x = at.last().unwrap().clone();
        vol.push(t.get().log_abs_det_jacobian(&x[0]));
        dims.push([t.get().input_dim(), t.get().output_dim()]);
        at.push(t.get().transform(&x));
    }
    at.remove(0);
    (at, vol, dims)
}
fn values<T: AD>(v: &[T]) -> Value {
    v.iter().map(|x| bits(x.to_constant())).collect()
}
fn show<T: AD>(r: &(Vec<Vec<T>>, Vec<T>, Vec<[usize; 2]>)) -> Value {
    json!({"at": r.0.iter().map(|v| values(v)).collect::<Vec<_>>(), "vol": values(&r.1), "dims": r.2})
}
pub fn chain(cse: &Value) -> Value {
    let xs = floats(&cse["x"]);
    let st = &cse["stages"];
    guard_v(|| {
        let plain = run::<f64>(st, xs.clone());
        let single = run::<f32>(st, xs.iter().map(|&x| x as f32).collect());
        // forward mode: one lane per input coordinate (at most 7)
        let fwd = run::<adfn<8>>(st, xs.iter().enumerate().map(|(i, &x)| {
            let mut t = [0.0; 8];
            t[i] = 1.0;
            adfn::new(x, t)
        }).collect());
        let out = fwd.0.last().unwrap();
        let fjac: Vec<Value> = (0..xs.len()).map(|j| out.iter().map(|y| bits(y.tangent()[j])).collect()).collect();
        // reverse mode
        let vars: Vec<adr> = xs.iter().enumerate().map(|(i, &x)| adr::new_variable(x, i == 0)).collect();
        let rev = run::<adr>(st, vars.clone());
        let grads: Vec<_> = rev.0.last().unwrap().iter().map(|y| if y.is_constant() { None } else { Some(y.get_backwards_mode_grad()) }).collect();
        let rjac: Vec<Value> = vars.iter().map(|v| grads.iter().map(|g| bits(g.as_ref().map_or(0.0, |g| g.wrt(v)))).collect()).collect();
        json!({"f64": show(&plain), "f32": show(&single), "forward": show(&fwd), "reverse": show(&rev), "fjac": fjac, "rjac": rjac})
    })
}
pub fn shape(cse: &Value) -> Value {
    let u = |k: &str| cse[k].as_u64().unwrap() as usize;
    let made = guard(|| LinearTransform::<f64>::new(vec![1.0; u("la")], vec![0.5; u("lb")], u("n"), u("m")));
    let l = match made {
        Err(_) => json!("rejected"),
        Ok(t) => match guard(|| t.transform(&vec![1.0; u("lx")])) {
            Err(_) => json!("input rejected"),
            Ok(y) => json!(y.len()),
        },
    };
    let c = ComponentwiseTransform::new(function::<f64>("affine"), u("n"));
    let c = match guard(|| c.transform(&vec![1.0; u("lx")])) {
        Err(_) => json!("input rejected"),
        Ok(y) => json!(y.len()),
    };
    json!({"linear": l, "componentwise": c})
}

/// a measure written once for every number type: exp(-(a x^2 + b x) + c) dx
#[derive(Clone)]
struct Quad(f64, f64, f64);
impl MeasureMarker for Quad {
    type IsPrimitive = False;
    type IsExponentialFamily = False;
}
impl<T: AD> Measure<T> for Quad {
    type RootMeasure = LebesgueMeasure<T>;
    fn in_support(&self, _: T) -> bool { true }
    fn root_measure(&self) -> LebesgueMeasure<T> { LebesgueMeasure::new() }
}
impl<T: AD> HasLogDensity<T, T> for Quad {
    fn log_density_wrt_root(&self, x: &T) -> T {
        -(*x * *x * T::constant(self.0) + *x * T::constant(self.1)) + T::constant(self.2)
    }
}
fn quad(v: &Value) -> Quad {
    let q = floats(v);
    Quad(q[0], q[1], q[2])
}
pub fn dens(cse: &Value) -> Value {
    let (m, b, x) = (quad(&cse["m"]), quad(&cse["b"]), unbits(&cse["x"]));
    guard_v(|| {
        let mut out = serde_json::Map::new();
        // values: alone and relative, through at and at_ad, in every number type
        fn vals<T: AD>(m: &Quad, b: &Quad, x: T) -> Vec<T> {
            let alone = <Quad as AutoDiffMeasure<T>>::ad_log_density(m);
            let plain = LogDensity::<T, Quad, LebesgueMeasure<T>>::new(m.clone());
            let rel = LogDensity::<T, Quad, LebesgueMeasure<T>>::new(m.clone()).wrt(b.clone());
            vec![alone.at_ad(&x), plain.at_ad(&x), plain.at(&x), rel.at_ad(&x), rel.at(&x)]
        }
        out.insert("f64".into(), values(&vals(&m, &b, x)));
        out.insert("f32".into(), values(&vals(&m, &b, x as f32)));
        let f = vals(&m, &b, adfn::<2>::new(x, [1.0, -2.0]));
        out.insert("forward".into(), values(&f));
        out.insert("fd".into(), f.iter().map(|v| bits(v.tangent()[0])).collect());
        out.insert("fd2".into(), f.iter().map(|v| bits(v.tangent()[1])).collect());
        let v = adr::new_variable(x, true);
        let r = vals(&m, &b, v);
        out.insert("reverse".into(), values(&r));
        out.insert("rd".into(), r.iter().map(|y| bits(if y.is_constant() { 0.0 } else { y.get_backwards_mode_grad().wrt(&v) })).collect());
        let (a, d) = LogDensity::<adr, Quad, LebesgueMeasure<adr>>::new(m.clone()).value_and_grad(&adr::new_variable(x, true));
        out.insert("vag".into(), json!([bits(a), bits(d)]));
        let (w, u) = (constructors::with_reverse_ad(m.clone()), constructors::with_forward_ad::<_, 3>(m.clone()));
        out.insert("with".into(), json!([bits(HasLogDensity::<f64, f64>::log_density_wrt_root(&w, &x)), bits(HasLogDensity::<f64, f64>::log_density_wrt_root(&u, &x))]));
        Value::Object(out)
    })
}
