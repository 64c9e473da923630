//! Values that flow through pipelines, and the functions of the stages, as in spec/Values.tla:
//! a number n is [n], a pair of values [a, b].
use serde_json::{json, Value};

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum V {
    I(i64),
    P(&'static (V, V)),
}

pub fn pair(a: V, b: V) -> V { V::P(Box::leak(Box::new((a, b)))) }

impl V {
    pub fn parse(v: &Value) -> V {
        if v[1].is_null() { V::I(v[0].as_i64().unwrap()) } else { pair(V::parse(&v[0]), V::parse(&v[1])) }
    }
    pub fn json(&self) -> Value {
        match self { V::I(n) => json!([n]), V::P(p) => json!([p.0.json(), p.1.json()]) }
    }
    /// The weight of a value.
    pub fn w(&self) -> i64 {
        match self { V::I(n) => *n, V::P(p) => p.0.w() + 2 * p.1.w() }
    }
}

impl std::ops::Add<usize> for V {
    type Output = usize;
    fn add(self, o: usize) -> usize { self.w() as usize + o }
}

pub fn pred(n: &str) -> Box<dyn Fn(&V) -> bool> {
    match n {
        "odd" => Box::new(|v| v.w() % 2 == 1),
        "ne0" => Box::new(|v| v.w() != 0),
        "lt3" => Box::new(|v| v.w() < 3),
        _ => panic!("predicate {}", n),
    }
}

pub fn mapf(n: &str) -> Box<dyn Fn(&V) -> V> {
    match n {
        "inc" => Box::new(|v| V::I(v.w() + 1)),
        "mod2" => Box::new(|v| V::I(v.w() % 2)),
        "w" => Box::new(|v| V::I(v.w())),
        "dup" => Box::new(|v| pair(*v, *v)),
        "to3" => Box::new(|v| pair(V::I(v.w()), V::I(v.w() + 1))),
        "fst" => Box::new(|v| match v { V::P(p) => p.0, v => *v }),
        "snd" => Box::new(|v| match v { V::P(p) => p.1, v => *v }),
        _ => panic!("map {}", n),
    }
}

pub fn rel(n: &str) -> Box<dyn Fn(&V, &V) -> bool> {
    match n {
        "ge" => Box::new(|a, b| b.w() >= a.w()),
        "gt" => Box::new(|a, b| b.w() > a.w()),
        "eq" => Box::new(|a, b| b.w() == a.w()),
        "succ" => Box::new(|a, b| b.w() == a.w() + 1),
        "near" => Box::new(|a, b| (b.w() - a.w()).abs() <= 1),
        "sumodd" => Box::new(|a, b| (a.w() + b.w()) % 2 == 1),
        "pos" => Box::new(|a, _| a.w() > 0),
        "never" => Box::new(|_, _| false),
        "always" => Box::new(|_, _| true),
        _ => panic!("relation {}", n),
    }
}

fn iv(v: &V) -> (i64, i64) {
    match v { V::P(p) => (p.0.w(), p.1.w()), V::I(n) => (*n, *n) }
}

pub fn crit(n: &str) -> Box<dyn Fn(&V, &V) -> Option<V>> {
    match n {
        "same" => Box::new(|a, b| if a.w() == b.w() { Some(*a) } else { None }),
        "parity" => Box::new(|a, b| if a.w() % 2 == b.w() % 2 { Some(if a.w() >= b.w() { *a } else { *b }) } else { None }),
        // what two values give decides with what they can be merged next
        "near" => Box::new(|a, b| if (a.w() - b.w()).abs() <= 1 { Some(if a.w() >= b.w() { *a } else { *b }) } else { None }),
        // overlapping intervals; intervals that overlap or touch
        "union" | "touch" => {
            let g = if n == "union" { 0 } else { 1 };
            Box::new(move |a, b| {
                let (x, y) = (iv(a), iv(b));
                if x.0.max(y.0) <= x.1.min(y.1) + g {
                    Some(pair(V::I(x.0.min(y.0)), V::I(x.1.max(y.1))))
                } else { None }
            })
        }
        _ => panic!("criterion {}", n),
    }
}

/// Keys tell values apart that cannot be merged.
pub fn key(n: &str) -> Box<dyn Fn(&V) -> (i64, i64)> {
    match n {
        "w" => Box::new(|v| (v.w(), 0)),
        "iv" => Box::new(iv),
        "mod2" => Box::new(|v| (v.w() % 2, 0)),
        "rev" => Box::new(|v| (-v.w(), 0)),
        _ => panic!("key {}", n),
    }
}
