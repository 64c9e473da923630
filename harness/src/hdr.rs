use rapiddlt::dlt_v1::*;
use serde_json::{json, Value};
use zerocopy::{AsBytes, FromBytes};

pub fn type_name(t: &DltMessageType) -> &'static str {
    use DltControlMessageTypeInfo::*;
    use DltLogMessageTypeInfo::*;
    use DltNetworkMessageTypeInfo::*;
    use DltTraceMessageTypeInfo::*;
    match t {
        DltMessageType::DltTypeLog(i) => match i {
            DltLogFatal => "LogFatal", DltLogDltError => "LogError", DltLogWarn => "LogWarn",
            DltLogInfo => "LogInfo", DltLogDebug => "LogDebug", DltLogVerbose => "LogVerbose",
        },
        DltMessageType::DltTypeAppTrace(i) => match i {
            DltTraceVariable => "TraceVariable", DltTraceFunctionIn => "TraceFunctionIn",
            DltTraceFunctionOut => "TraceFunctionOut", DltTraceState => "TraceState", DltTraceVfb => "TraceVfb",
        },
        DltMessageType::DltTypeNwTrace(i) => match i {
            DltNwTraceIpc => "NwIpc", DltNwTraceCan => "NwCan", DltNwTraceFlexray => "NwFlexray",
            DltNwTraceMost => "NwMost", DltNwTraceEthernet => "NwEthernet", DltNwTraceSomeip => "NwSomeip",
        },
        DltMessageType::DltTypeControl(i) => match i {
            DltControlRequest => "ControlRequest", DltControlResponse => "ControlResponse",
        },
    }
}

fn all_types() -> Vec<DltMessageType> {
    use DltControlMessageTypeInfo::*;
    use DltLogMessageTypeInfo::*;
    use DltNetworkMessageTypeInfo::*;
    use DltTraceMessageTypeInfo::*;
    let mut v: Vec<DltMessageType> = vec![];
    v.extend([DltLogFatal, DltLogDltError, DltLogWarn, DltLogInfo, DltLogDebug, DltLogVerbose].map(DltMessageType::DltTypeLog));
    v.extend([DltTraceVariable, DltTraceFunctionIn, DltTraceFunctionOut, DltTraceState, DltTraceVfb].map(DltMessageType::DltTypeAppTrace));
    v.extend([DltNwTraceIpc, DltNwTraceCan, DltNwTraceFlexray, DltNwTraceMost, DltNwTraceEthernet, DltNwTraceSomeip].map(DltMessageType::DltTypeNwTrace));
    v.extend([DltControlRequest, DltControlResponse].map(DltMessageType::DltTypeControl));
    v
}

fn by_name(n: &str) -> DltMessageType { all_types().into_iter().find(|t| type_name(t) == n).expect("type name") }

fn b4(v: &Value) -> [u8; 4] {
    let a: Vec<u8> = v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
    a.try_into().unwrap()
}

fn u32p(v: &Value) -> u32 { ((v[0].as_u64().unwrap() as u32) << 16) | v[1].as_u64().unwrap() as u32 }

fn msg(m: &MessageType) -> Value {
    let (v, t) = m.info();
    json!({"byte": m.as_bytes()[0], "verbose": m.is_verbose(), "iverbose": v,
           "type": m.message_type().map_or(json!([]), |t| json!([type_name(&t)])),
           "itype": t.map_or(json!([]), |t| json!([type_name(&t)]))})
}

fn htyp(h: &DltHTyp) -> Value {
    json!({"byte": h.as_bytes()[0], "version": h.version(),
           "flags": [h.is_extended_header(), h.is_msb_first(), h.is_with_ecu_id(), h.is_with_session_id(), h.is_with_timestamp()]})
}

pub fn run(case: &Value) -> Value {
    let a = &case["a"];
    let f = |i: usize| a["flags"][i].as_bool().unwrap();
    let mk = || DltHTyp::new(f(0), f(1), f(2), f(3), f(4), a["version"].as_u64().unwrap() as u8);
    match case["op"].as_str().unwrap() {
        "mkhtyp" => htyp(&mk()),
        "rdhtyp" => htyp(DltHTyp::ref_from_prefix(&[a["byte"].as_u64().unwrap() as u8]).unwrap()),
        "mkmsg" => msg(&MessageType::create_message_type(a["verbose"].as_bool().unwrap(), by_name(a["type"].as_str().unwrap()))),
        "rdmsg" => msg(MessageType::ref_from_prefix(&[a["byte"].as_u64().unwrap() as u8]).unwrap()),
        "mkstd" => {
            let h = DltStandardHeader::new(mk(), a["counter"].as_u64().unwrap() as u8, a["length"].as_u64().unwrap() as u16);
            json!({"bytes": h.as_bytes(), "length": h.length()})
        }
        "mksto" => {
            let h = DltStorageHeader::new(b4(&a["pattern"]), u32p(&a["secs"]), u32p(&a["usecs"]) as i32, b4(&a["ecu"]));
            json!({"bytes": h.as_bytes()})
        }
        "mkext" => {
            let m = MessageType::create_message_type(a["verbose"].as_bool().unwrap(), by_name(a["type"].as_str().unwrap()));
            let h = DltExtendedHeader::new(m, a["noar"].as_u64().unwrap() as u8, b4(&a["apid"]), b4(&a["ctid"]));
            json!({"bytes": h.as_bytes()})
        }
        o => panic!("unknown operation {}", o),
    }
}
