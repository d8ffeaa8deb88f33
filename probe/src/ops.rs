// Shared by the probe and the harness: one request line, one reply line.
use std::fmt::Debug;

#[allow(dead_code)]
pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2 + 1);
    s.push('.');
    for x in b {
        s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    let d: Vec<u8> = s[1..].chars().map(|c| c.to_digit(16).unwrap() as u8).collect();
    d.chunks(2).map(|c| c[0] << 4 | c[1]).collect()
}
fn text(s: &str) -> String {
    String::from_utf8(unhex(s)).unwrap()
}
fn show<T: Debug>(r: Result<T, impl Debug>) -> String {
    // Debug output can be long: keep a hash of it and the beginning
    let s = match r {
        Ok(v) => format!("Ok {:?}", v),
        Err(e) => format!("Err {:?}", e),
    };
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    format!("{:016x} {}", h, s.chars().take(160).collect::<String>())
}

/// `op rule cddl data`; the last three in hex with a leading dot.
pub fn answer(line: &str) -> String {
    let f: Vec<&str> = line.split(' ').collect();
    let cddl = text(f[2]);
    #[allow(unused_variables)]
    let (rule, data) = (text(f[1]), unhex(f[3]));
    let r = match f[0] {
        "parse" => show(cddl_cat::parse_cddl(&cddl)),
        "flatten" => show(cddl_cat::flatten::flatten_from_str(&cddl)),
        "slices" => {
            let ast = cddl_cat::parser::slice_parse_cddl(&cddl);
            let mut s = match &ast {
                Ok(a) => show::<_>(cddl_cat::flatten::slice_flatten(a)),
                Err(_) => String::new(),
            };
            s.push_str(&show(ast));
            s
        }
        #[cfg(feature = "json")]
        "json" => {
            let t = String::from_utf8(data).unwrap();
            let a = show(cddl_cat::validate_json_str(&rule, &cddl, &t));
            let v: Result<serde_json::Value, _> = serde_json::from_str(&t);
            let b = match (cddl_cat::flatten::flatten_from_str(&cddl), v) {
                (Ok(rules), Ok(v)) => {
                    let ctx = cddl_cat::context::BasicContext::new(rules);
                    match ctx.rules.get(&rule) {
                        Some(d) => show(cddl_cat::validate_json(d, &v, &ctx)),
                        None => "no rule".into(),
                    }
                }
                _ => "not ready".into(),
            };
            format!("{} | {}", a, b)
        }
        #[cfg(feature = "cbor")]
        "cbor" => {
            let a = show(cddl_cat::validate_cbor_bytes(&rule, &cddl, &data));
            let v: Result<ciborium::Value, _> = ciborium::from_reader(&data[..]);
            let b = match (cddl_cat::flatten::flatten_from_str(&cddl), v) {
                (Ok(rules), Ok(v)) => {
                    let ctx = cddl_cat::context::BasicContext::new(rules);
                    match ctx.rules.get(&rule) {
                        Some(d) => show(cddl_cat::validate_cbor(d, &v, &ctx)),
                        None => "no rule".into(),
                    }
                }
                _ => "not ready".into(),
            };
            format!("{} | {}", a, b)
        }
        o => format!("no such operation {}", o),
    };
    r.replace('\n', " ")
}
