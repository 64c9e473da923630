//! Stages applied to iterators.
use crate::val::*;
use matchit::fromgenerator::{FromAdaptFn, FromAdaptFnCall};
use matchit::generator::adapter::{AdaptFnTrait, Filter, Map};
use matchit::generator::groupby::{GroupBy, Merge};
use serde_json::{json, Value};
use std::cell::Cell;
use std::ops::ControlFlow;
use std::rc::Rc;

/// A stage that holds back every value, and stops the stream at a value of weight `at`;
/// it gives what it holds at the end, in order.
struct Hold { at: i64, held: std::collections::VecDeque<V>, pass: bool, stopped: bool }
impl AdaptFnTrait for Hold {
    type Input = V;
    type Output = V;
    fn adapt(&mut self, v: V) -> ControlFlow<(), Option<V>> {
        if v.w() == self.at && !self.stopped { self.stopped = true; return ControlFlow::Break(()) }
        if self.pass { return ControlFlow::Continue(Some(v)) }
        self.held.push_back(v);
        ControlFlow::Continue(None)
    }
    fn finalize(&mut self) -> ControlFlow<(), Option<V>> {
        match self.held.pop_front() { Some(v) => ControlFlow::Continue(Some(v)), None => ControlFlow::Break(()) }
    }
}

/// Gives every second value of what it holds only at the end, with empty answers in between.
struct Gaps { held: std::collections::VecDeque<V>, gap: bool }
impl AdaptFnTrait for Gaps {
    type Input = V;
    type Output = V;
    fn adapt(&mut self, v: V) -> ControlFlow<(), Option<V>> {
        if v.w() % 2 == 0 { return ControlFlow::Continue(Some(v)) }
        self.held.push_back(v);
        ControlFlow::Continue(None)
    }
    fn finalize(&mut self) -> ControlFlow<(), Option<V>> {
        self.gap = !self.gap;
        if self.gap && !self.held.is_empty() { return ControlFlow::Continue(None) }
        match self.held.pop_front() { Some(v) => ControlFlow::Continue(Some(v)), None => ControlFlow::Break(()) }
    }
}

type It = Box<dyn Iterator<Item = V>>;

fn stage(it: It, s: &Value) -> It {
    let a = |i: usize| s[i].as_str().unwrap();
    match a(0) {
        "filter" => Box::new(FromAdaptFn::new(Filter::new(pred(a(1))), it)),
        "map" => Box::new(FromAdaptFn::new(Map::new(mapf(a(1))), it)),
        "groupby" => Box::new(FromAdaptFnCall::groupby(it, rel(a(1))).map(|(a, b)| pair(a, b))),
        "groupbyfn" => Box::new(FromAdaptFn::new(GroupBy::new(rel(a(1))), it).map(|(a, b)| pair(a, b))),
        "merge" => Box::new(FromAdaptFn::new(Merge::new(crit(a(1)), key(a(2))), it)),
        "hold" | "pass" => Box::new(FromAdaptFn::new(
            Hold { at: s[1].as_i64().unwrap(), held: Default::default(), pass: a(0) == "pass", stopped: false }, it)),
        "gaps" => Box::new(FromAdaptFn::new(Gaps { held: Default::default(), gap: false }, it)),
        x => panic!("stage {}", x),
    }
}

fn one(stages: &[Value], split: &Value, seq: &[V]) -> Value {
    let taken = Rc::new(Cell::new(0usize));
    let t = taken.clone();
    let mut it: It = Box::new(seq.to_vec().into_iter().inspect(move |_| t.set(t.get() + 1)));
    for s in stages { it = stage(it, s); }
    if let Some(k) = split[0].as_str() {
        let p = split[1].clone();
        let m = it.split(key(k), move |_: &(i64, i64)| crate::stream::build(&p));
        return m.into_iter().map(|(k, v)| json!([[k.0, k.1], v])).collect();
    }
    // every value with the number of items consumed so far
    let mut out = vec![];
    while out.len() < 3 * seq.len() + 5 {
        match it.next() {
            Some(v) => out.push(json!([v.json(), taken.get()])),
            None => {
                let at_end = taken.get();
                let again = (0..3).filter(|_| it.next().is_some()).count();
                return json!([out, at_end, again]);
            }
        }
    }
    json!([out, "runaway"])
}

pub fn run(case: &Value) -> Value {
    let seqs: Vec<Vec<V>> = case["seqs"].as_array().unwrap().iter()
        .map(|s| s.as_array().unwrap().iter().map(V::parse).collect()).collect();
    case["pipes"].as_array().unwrap().iter().map(|p| {
        seqs.iter().map(|s| one(p["stages"].as_array().unwrap(), &p["split"], s)).collect::<Value>()
    }).collect()
}
