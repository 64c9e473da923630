use crate::types::{Field, Mini, Pair, Tick, Trio, Word};
use matchit::readit::ReadIterator;
use matchit::searchable::grepit::{GrepIterator, RegExMatcherIterator};
use matchit::searchable::readfallbackit::ReadFallbackIterator;
use matchit::searchable::searchit::{RevSearchIterator, SearchIterator};
use matchit::searchable::{search_last_marker, search_marker, SearchableMarkerTrait};
use matchit::{partition_from, ContainedBySearch, FromBytesReadableTrait, NoOffsetIterator, TIterator, WithOffset};
use rapiddlt::dlt_v1::{dltit, dltit_offset, DltEntry, DltStorageEntry};
use serde_json::{json, Value};

pub fn hex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// Number or "max" (usize::MAX) or "max-N".
fn num(v: &Value) -> usize {
    match v.as_str() {
        Some("max") => usize::MAX,
        Some(s) => usize::MAX - s[4..].parse::<usize>().unwrap(),
        None => v.as_u64().unwrap() as usize,
    }
}

/// Collects an iterator that may not end, and asks three more times behind its end.
fn drain<I: Iterator>(mut it: I, cap: usize, f: impl Fn(I::Item) -> Value) -> Value {
    let mut items = vec![];
    while items.len() < cap {
        match it.next() {
            Some(i) => items.push(f(i)),
            None => {
                let again = (0..3).filter(|_| it.next().is_some()).count();
                return json!([items, again]);
            }
        }
    }
    json!([items, "runaway"])
}

fn pl<'b, T: FromBytesReadableTrait<'b>>((o, t): WithOffset<T>) -> Value { json!([o, t.len()]) }

fn opt<'b, T: FromBytesReadableTrait<'b>>(r: Option<(usize, T)>) -> Value {
    match r { Some((o, t)) => json!([o, t.len()]), None => json!([]) }
}

/// Readers of messages that have no marker.
fn bare<'b, T: FromBytesReadableTrait<'b>>(b: &'b [u8], op: &Value) -> Value {
    let cap = b.len() + 3;
    match op[0].as_str().unwrap() {
        "strict" => drain(ReadIterator::<T>::new(b, num(&op[1])), cap, pl),
        "strictt" => drain(<ReadIterator<T> as TIterator>::new(b, num(&op[1])), cap, pl),
        "nooff" => drain(NoOffsetIterator::new(ReadIterator::<T>::new(b, num(&op[1]))), cap, |t: T| json!(t.len())),
        o => panic!("unknown operation {}", o),
    }
}

fn op<'b, T: SearchableMarkerTrait<'b>>(b: &'b [u8], op: &Value) -> Value {
    let cap = b.len() + 3;
    match op[0].as_str().unwrap() {
        "scan" => drain(ReadFallbackIterator::<T>::new(b, num(&op[1])), cap, pl),
        "scant" => drain(<ReadFallbackIterator<T> as TIterator>::new(b, num(&op[1])), cap, pl),
        "strict" => drain(ReadIterator::<T>::new(b, num(&op[1])), cap, pl),
        "strictt" => drain(<ReadIterator<T> as TIterator>::new(b, num(&op[1])), cap, pl),
        "nooff" => drain(NoOffsetIterator::new(ReadFallbackIterator::<T>::new(b, num(&op[1]))), cap, |t: T| json!(t.len())),
        "fwd" => drain(SearchIterator::<T>::new(b, num(&op[1])), cap, pl),
        "rev" => drain(RevSearchIterator::<T>::new(b, num(&op[1])), cap, pl),
        // single questions to a searcher that was made for the start of the buffer
        "fwd1" => opt(SearchIterator::<T>::new(b, 0).search(b, num(&op[1]))),
        "rev1" => opt(RevSearchIterator::<T>::new(b, 0).search(b, num(&op[1]))),
        "grep1" => opt(GrepIterator::<T>::new(op[1].as_str().unwrap(), b, 0).search(b, num(&op[2]))),
        "capture1" => match RegExMatcherIterator::<T>::new(op[1].as_str().unwrap(), b, 0).capture(b, num(&op[2])) {
            Some((o, r)) => json!([o, r.0, r.1]),
            None => json!([]),
        },
        "mark1" => match search_marker::<T>(&b[num(&op[1])..]) { Some(p) => json!([num(&op[1]) + p]), None => json!([]) },
        "last1" => match search_last_marker::<T>(&b[..num(&op[1])]) { Some(p) => json!([p]), None => json!([]) },
        "tryread" => opt(T::try_read(&b[num(&op[1])..])),
        "grep" => drain(GrepIterator::<T>::new(op[1].as_str().unwrap(), b, num(&op[2])), cap, pl),
        "capture" => drain(RegExMatcherIterator::<T>::new(op[1].as_str().unwrap(), b, num(&op[2])), cap, |(o, r)| json!([o, r.0, r.1])),
        "contain" => {
            let search = ContainedBySearch::<T>::new();
            op[1].as_array().unwrap().iter().map(|r| opt(search.contained_by(b, (num(&r[0]), num(&r[1]))))).collect()
        }
        "part" => parts(b, partition_from::<T>(b, num(&op[1]))),
        // by the method of a file's buffer
        "partbuf" => {
            let f = Box::into_raw(Box::new(rapiddlt::dltbuffer::DltBuffer::Read(b.to_vec())));
            // the messages in it have the lifetime of b
            let answer = { let f: &'b _ = unsafe { &*f }; parts(f.as_slice(), f.partition::<T>(num(&op[1]))) };
            drop(unsafe { Box::from_raw(f) });
            answer
        }
        "partread" => {
            // reading the partitions one after the other
            let mut all = vec![];
            for p in partition_from::<T>(b, num(&op[1])) {
                let base = p.as_ptr() as usize - b.as_ptr() as usize;
                all.extend(ReadFallbackIterator::<T>::new(p, 0).take(cap).map(|(o, t)| json!([base + o, t.len()])));
            }
            json!(all)
        }
        o => panic!("unknown operation {}", o),
    }
}

pub fn parts(b: &[u8], p: Vec<&[u8]>) -> Value {
    p.iter().map(|s| json!([s.as_ptr() as usize - b.as_ptr() as usize, s.len()])).collect()
}

fn u32v(v: u32) -> Value { json!([v >> 16, v & 0xffff]) }
fn some<T>(v: Option<T>, f: impl Fn(T) -> Value) -> Value {
    match v { Some(x) => json!([f(x)]), None => json!([]) }
}

pub fn entry(e: &DltEntry) -> Value {
    use zerocopy::AsBytes;
    let h = &e.header.header_type;
    json!({
        "hdr": e.header.as_bytes(),
        "flags": [h.is_extended_header(), h.is_msb_first(), h.is_with_ecu_id(), h.is_with_session_id(), h.is_with_timestamp()],
        "version": h.version(),
        "hlen": e.header.length(),
        "len": e.len(),
        "tail": e.tail,
        "ecu_id": some(e.ecu_id(), u32v),
        "timestamp": some(e.timestamp(), u32v),
        "ext": some(e.extended_header(), |x| json!({
            "bytes": x.as_bytes(),
            "verbose": x.msin.info().0,
            "type": some(x.msin.info().1, |t| json!(crate::hdr::type_name(&t))),
            "noar": x.noar, "apid": x.apid, "ctid": x.ctid})),
        "payload": some(e.payload(), |p| json!(p)),
    })
}

pub fn fields(e: &DltStorageEntry) -> Value {
    let s = e.storage_header;
    json!({
        "len": e.len(),
        "pattern": s.pattern, "secs": u32v(s.secs.get()), "usecs": u32v(s.msecs.get() as u32), "ecu": s.ecu,
        "dlt": entry(&e.dlt),
    })
}

fn dlt_op(b: &[u8], o: &Value) -> Value {
    let cap = b.len() + 3;
    match o[0].as_str().unwrap() {
        "fields" => match DltStorageEntry::try_read(&b[num(&o[1])..]) {
            Some((n, e)) => json!([n, fields(&e)]),
            None => json!([]),
        },
        "entry" => match DltEntry::try_read(&b[num(&o[1])..]) {
            Some((n, e)) => json!([n, entry(&e)]),
            None => json!([]),
        },
        "valid" => match DltStorageEntry::try_read_valid_marker(&b[num(&o[1])..]) {
            Some((n, e)) => json!([n, fields(&e)]),
            None => json!([]),
        },
        "scanfields" => drain(dltit_offset(b), cap, |(p, e)| json!([p, fields(&e)])),
        "dltit" => drain(dltit(b), cap, |e| json!(e.len())),
        _ => op::<DltStorageEntry>(b, o),
    }
}

/// Puts runs of zeros into a buffer; the memory of long runs is never written.
fn stretch(b: &[u8], gaps: &[Value]) -> Box<[u8]> {
    let total: usize = gaps.iter().map(|g| num(&g[1])).sum();
    let mut out = vec![0u8; b.len() + total].into_boxed_slice();
    let (mut from, mut at) = (0, 0);
    for g in gaps {
        let p = num(&g[0]);
        out[at..at + p - from].copy_from_slice(&b[from..p]);
        at += p - from + num(&g[1]);
        from = p;
    }
    out[at..].copy_from_slice(&b[from..]);
    out
}

/// Repeats a block of a buffer: [position, length, number of copies].
fn repeat(b: &[u8], c: &[Value]) -> Box<[u8]> {
    let (p, n, k) = (num(&c[0]), num(&c[1]), num(&c[2]));
    let mut out = Vec::with_capacity(b.len() + (k - 1) * n);
    out.extend_from_slice(&b[..p]);
    for _ in 0..k { out.extend_from_slice(&b[p..p + n]); }
    out.extend_from_slice(&b[p + n..]);
    out.into_boxed_slice()
}

pub fn run(case: &Value) -> Value {
    let b = hex(case["b"].as_str().unwrap());
    // exact allocation: reads beyond the end are not hidden by spare capacity
    let b: Box<[u8]> = match case["gaps"].as_array() {
        Some(g) => stretch(&b, g),
        None => match case["copies"].as_array() {
            Some(c) => repeat(&b, c),
            None => b.into_boxed_slice(),
        },
    };
    case["ops"].as_array().unwrap().iter().map(|o| match case["t"].as_str().unwrap() {
        "mini" => op::<Mini>(&b, o),
        "tick" => op::<Tick>(&b, o),
        "trio" => op::<Trio>(&b, o),
        "word" => op::<Word>(&b, o),
        "dlt" => dlt_op(&b, o),
        "entry" => bare::<DltEntry>(&b, o),
        "field" => bare::<Field>(&b, o),
        "pair" => bare::<Pair>(&b, o),
        t => panic!("unknown type {}", t),
    }).collect()
}

/// Large generated buffers: answers are [number of items, positions strictly monotone, items behind the end].
pub fn big(case: &Value) -> Value {
    let pat = hex(case["pat"].as_str().unwrap());
    let n = case["n"].as_u64().unwrap() as usize;
    let mut b = hex(case["pre"].as_str().unwrap());
    for _ in 0..n { b.extend_from_slice(&pat); }
    b.extend(hex(case["post"].as_str().unwrap()));
    case["ops"].as_array().unwrap().iter().map(|o| match case["t"].as_str().unwrap() {
        "mini" => big_op::<Mini>(&b, o),
        "tick" => big_op::<Tick>(&b, o),
        "trio" => big_op::<Trio>(&b, o),
        "word" => big_op::<Word>(&b, o),
        "dlt" => if o[0] == "fields" {
            let (mut n, mut pay) = (0usize, 0usize);
            for e in dltit(&b).take(b.len() + 3) {
                n += 1;
                pay += e.dlt.payload().map_or(0, |p| p.len()) + e.dlt.extended_header().is_some() as usize
                    + e.dlt.ecu_id().is_some() as usize + e.dlt.timestamp().is_some() as usize;
            }
            json!([n, pay])
        } else { big_op::<DltStorageEntry>(&b, o) },
        t => panic!("unknown type {}", t),
    }).collect()
}

fn summary(mut it: impl Iterator<Item = usize>, cap: usize, up: bool) -> Value {
    let (mut n, mut last, mut mono) = (0usize, None, true);
    while n < cap {
        match it.next() {
            Some(p) => {
                if let Some(l) = last { mono &= if up { p > l } else { p < l } }
                last = Some(p);
                n += 1;
            }
            None => return json!([n, mono, (0..3).filter(|_| it.next().is_some()).count()]),
        }
    }
    json!([n, mono, "runaway"])
}

fn big_op<'b, T: SearchableMarkerTrait<'b>>(b: &'b [u8], op: &Value) -> Value {
    let cap = b.len() + 3;
    match op[0].as_str().unwrap() {
        "scan" => summary(ReadFallbackIterator::<T>::new(b, 0).map(|x| x.0), cap, true),
        "strict" => summary(ReadIterator::<T>::new(b, 0).map(|x| x.0), cap, true),
        "fwd" => summary(SearchIterator::<T>::new(b, 0).map(|x| x.0), cap, true),
        "rev" => summary(RevSearchIterator::<T>::new(b, b.len()).map(|x| x.0), cap, false),
        "grep" => summary(GrepIterator::<T>::new(op[1].as_str().unwrap(), b, 0).map(|x| x.0), cap, true),
        "capture" => summary(RegExMatcherIterator::<T>::new(op[1].as_str().unwrap(), b, 0).map(|x| x.0), cap, true),
        // op[1]: distance of the range from the end, op[2]: its length
        "contain" => {
            let s = b.len() - num(&op[1]);
            opt(ContainedBySearch::<T>::new().contained_by(b, (s, s + num(&op[2]))))
        }
        "part" => {
            let p = partition_from::<T>(b, num(&op[1]));
            let mut at = b.as_ptr() as usize;
            let mut joined = true;
            for s in &p { joined &= s.as_ptr() as usize == at && !s.is_empty(); at += s.len(); }
            joined &= at == b.as_ptr() as usize + b.len();
            let sum: usize = p.iter().map(|s| ReadFallbackIterator::<T>::new(s, 0).count()).sum();
            json!([joined, sum])
        }
        o => panic!("unknown operation {}", o),
    }
}
