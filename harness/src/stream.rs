//! Pipelines given as data, built of the real stages and run push-based.
use crate::val::*;
use matchit::generator::adapter::AdapterTrait;
use matchit::generator::generator::Generator;
use matchit::generator::reducer::ReducerTrait;
use serde_json::{json, Value};
use std::ops::ControlFlow;

type Step<T> = ControlFlow<(), Option<T>>;

trait ObjA {
    fn adapt(&mut self, v: V) -> Step<V>;
    fn finalize(&mut self) -> Step<V>;
}

struct Flat<A>(A);
impl<A: AdapterTrait<Input = V, Output = V>> ObjA for Flat<A> {
    fn adapt(&mut self, v: V) -> Step<V> { self.0.adapt(v) }
    fn finalize(&mut self) -> Step<V> { self.0.finalize() }
}

struct Paired<A>(A);
fn paired(s: Step<(V, V)>) -> Step<V> {
    match s {
        ControlFlow::Continue(Some((a, b))) => ControlFlow::Continue(Some(pair(a, b))),
        ControlFlow::Continue(None) => ControlFlow::Continue(None),
        ControlFlow::Break(()) => ControlFlow::Break(()),
    }
}
impl<A: AdapterTrait<Input = V, Output = (V, V)>> ObjA for Paired<A> {
    fn adapt(&mut self, v: V) -> Step<V> { paired(self.0.adapt(v)) }
    fn finalize(&mut self) -> Step<V> { paired(self.0.finalize()) }
}

pub struct DynA(Box<dyn ObjA>);
impl AdapterTrait for DynA {
    type Input = V;
    type Output = V;
    fn adapt(&mut self, v: V) -> Step<V> { self.0.adapt(v) }
    fn finalize(&mut self) -> Step<V> { self.0.finalize() }
}

fn flat(a: impl AdapterTrait<Input = V, Output = V> + 'static) -> DynA { DynA(Box::new(Flat(a))) }
fn pairing(a: impl AdapterTrait<Input = V, Output = (V, V)> + 'static) -> DynA { DynA(Box::new(Paired(a))) }

trait ObjR {
    fn next(&mut self, v: V);
    fn finalize(self: Box<Self>) -> Value;
}
struct Red<R, F>(R, F);
impl<R: ReducerTrait<Input = V>, F: Fn(R::Reduced) -> Value> ObjR for Red<R, F> {
    fn next(&mut self, v: V) { self.0.next(v) }
    fn finalize(self: Box<Self>) -> Value { (self.1)(self.0.finalize()) }
}
pub struct DynR(Box<dyn ObjR>);
impl ReducerTrait for DynR {
    type Input = V;
    type Reduced = Value;
    fn next(&mut self, v: V) { self.0.next(v) }
    fn finalize(self) -> Value { self.0.finalize() }
}
/// Takes pairs as they come out of a groupby.
struct PairR(DynR);
impl ReducerTrait for PairR {
    type Input = (V, V);
    type Reduced = Value;
    fn next(&mut self, v: (V, V)) { self.0.next(pair(v.0, v.1)) }
    fn finalize(self) -> Value { self.0.finalize() }
}

fn red<R: ReducerTrait<Input = V> + 'static>(r: R, f: impl Fn(R::Reduced) -> Value + 'static) -> DynR
where R::Reduced: 'static { DynR(Box::new(Red(r, f))) }

fn chain(stages: &[Value]) -> Option<DynA> {
    let (last, before) = stages.split_last()?;
    let a = |i: usize| last[i].as_str().unwrap();
    Some(match (chain(before), a(0)) {
        (None, "filter") => flat(Generator::<V>::filter(pred(a(1)))),
        (None, "map") => flat(Generator::<V>::map(mapf(a(1)))),
        (None, "groupby") => pairing(Generator::<V>::groupby(rel(a(1)))),
        (None, "merge") => flat(Generator::<V>::merge(crit(a(1)), key(a(2)))),
        (Some(d), "filter") => flat(d.filter(pred(a(1)))),
        (Some(d), "map") => flat(d.map(mapf(a(1)))),
        (Some(d), "groupby") => pairing(d.groupby(rel(a(1)))),
        (Some(d), "merge") => flat(d.merge(crit(a(1)), key(a(2)))),
        (_, s) => panic!("stage {}", s),
    })
}

fn step(acc: i64, v: &V) -> i64 { (acc * 3 + v.w() + 1) % 1000 }

fn keyed(m: std::collections::BTreeMap<(i64, i64), Value>) -> Value {
    m.into_iter().map(|(k, v)| json!([[k.0, k.1], v])).collect()
}
fn n(x: usize) -> Value { json!(x) }

/// The end of a pipeline behind an adapter that gives values.
macro_rules! end_flat { ($a:expr, $end:expr) => {{
    let e = $end;
    match e[0].as_str().unwrap() {
        "count" => red($a.count(), n),
        "sum" => red($a.sum(), n),
        "collect" => red($a.collect(), |l: Vec<V>| l.iter().map(|v| v.json()).collect()),
        _ => end_any($a, e),
    }
}}}

/// The ends that every adapter that gives values has.
fn end_any(a: impl AdapterTrait<Input = V, Output = V> + 'static, e: &Value) -> DynR {
    match e[0].as_str().unwrap() {
        "fold" => red(a.fold(7i64, |acc: i64, v: V| step(acc, &v)), |x| json!(x)),
        "fork" => red(a.fork(build(&e[1]), build(&e[2])), |(x, y)| json!([x, y])),
        "split" => {
            let p = e[2].clone();
            red(a.split(key(e[1].as_str().unwrap()), move |_| build(&p)), keyed)
        }
        x => panic!("end {}", x),
    }
}

/// The end of a pipeline behind a groupby.
macro_rules! end_pairs { ($a:expr, $end:expr) => {{
    let e = $end;
    match e[0].as_str().unwrap() {
        "count" => red($a.count(), n),
        "collect" => red($a.collect(), |l: Vec<(V, V)>| l.iter().map(|v| json!([v.0.json(), v.1.json()])).collect()),
        "fold" => red($a.fold(7i64, |acc: i64, v: (V, V)| step(acc, &pair(v.0, v.1))), |x| json!(x)),
        "split" => {
            let p = e[2].clone();
            let k = key(e[1].as_str().unwrap());
            red($a.split(move |v: &(V, V)| k(&pair(v.0, v.1)), move |_| PairR(build(&p))), keyed)
        }
        // a fork takes the type of the input: behind an adapter that hides the groupby
        "fork" => end_any(pairing($a), e),
        x => panic!("end {}", x),
    }
}}}

pub fn build(pipe: &Value) -> DynR {
    let stages = pipe["stages"].as_array().unwrap();
    let e = &pipe["end"];
    let Some((last, before)) = stages.split_last() else {
        return match e[0].as_str().unwrap() {
            "count" => red(Generator::<V>::count(), n),
            "sum" => red(Generator::<V>::sum(), n),
            "fold" => red(Generator::<V>::fold(7i64, |acc: i64, v: V| step(acc, &v)), |x| json!(x)),
            "fork" => red(Generator::<V>::fork(build(&e[1]), build(&e[2])), |(x, y)| json!([x, y])),
            "split" => {
                let p = e[2].clone();
                red(Generator::<V>::split(key(e[1].as_str().unwrap()), move |_: &(i64, i64)| build(&p)), keyed)
            }
            x => panic!("end {}", x),
        };
    };
    let a = |i: usize| last[i].as_str().unwrap();
    match (chain(before), a(0)) {
        (None, "filter") => end_flat!(Generator::<V>::filter(pred(a(1))), e),
        (None, "map") => end_flat!(Generator::<V>::map(mapf(a(1))), e),
        (None, "groupby") => end_pairs!(Generator::<V>::groupby(rel(a(1))), e),
        (None, "merge") => end_flat!(Generator::<V>::merge(crit(a(1)), key(a(2))), e),
        (Some(d), "filter") => end_flat!(d.filter(pred(a(1))), e),
        (Some(d), "map") => end_flat!(d.map(mapf(a(1))), e),
        (Some(d), "groupby") => end_pairs!(d.groupby(rel(a(1))), e),
        (Some(d), "merge") => end_flat!(d.merge(crit(a(1)), key(a(2))), e),
        (_, s) => panic!("stage {}", s),
    }
}

/// Runs every pipeline of "pipes" on every sequence of "seqs".
pub fn run(case: &Value) -> Value {
    let seqs: Vec<Vec<V>> = case["seqs"].as_array().unwrap().iter()
        .map(|s| s.as_array().unwrap().iter().map(V::parse).collect()).collect();
    case["pipes"].as_array().unwrap().iter().map(|p| {
        seqs.iter().map(|s| {
            let mut r = build(p);
            for v in s { r.next(*v); }
            r.finalize()
        }).collect::<Value>()
    }).collect()
}
