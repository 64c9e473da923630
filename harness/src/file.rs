use rapiddlt::dlt_v1::DltStorageEntry;
use rapiddlt::dltbuffer::DltBuffer;
use serde_json::{json, Value};

fn crc32(b: &[u8]) -> u32 {
    let mut t = [0u32; 256];
    for i in 0..256u32 {
        let mut c = i;
        for _ in 0..8 { c = if c & 1 != 0 { 0xedb88320 ^ (c >> 1) } else { c >> 1 } }
        t[i as usize] = c;
    }
    !b.iter().fold(!0u32, |c, x| t[((c ^ *x as u32) & 0xff) as usize] ^ (c >> 8))
}

pub fn run(case: &Value) -> Value {
    let path = case["path"].as_str().unwrap();
    let r = match case["method"].as_str().unwrap() {
        "mmap" => DltBuffer::mmap_file(path),
        _ => DltBuffer::read_file(path),
    };
    match r {
        Ok(buf) => {
            let b = buf.as_slice();
            let mut o = json!({"ok": true, "len": buf.len(), "slice": b.len()});
            // all bytes, single ones, or a checksum
            if case["hex"].as_bool() == Some(true) {
                o["hex"] = b.iter().map(|x| format!("{:02x}", x)).collect::<String>().into();
            } else if let Some(at) = case["at"].as_array() {
                o["at"] = at.iter().map(|p| b.get(p.as_u64().unwrap() as usize).copied()).collect::<Vec<_>>().into();
            } else {
                o["crc"] = crc32(b).into();
            }
            if let Some(n) = case["part"].as_u64() {
                o["parts"] = crate::buf::parts(buf.as_slice(), buf.partition::<DltStorageEntry>(n as usize));
            }
            o
        }
        Err(e) => json!({"ok": false, "err": e.raw_os_error()}),
    }
}
