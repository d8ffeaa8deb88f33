//! The harness's own data model, its CBOR and JSON encoders (with varied
//! forms) and an independent CBOR decoder.
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub enum Val {
    Null,
    Bool(bool),
    Int(i128),
    Float(f64),
    Bytes(Vec<u8>),
    Text(String),
    Arr(Vec<Val>),
    Map(Vec<(Val, Val)>),
}

pub fn veq(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::Null, Val::Null) => true,
        (Val::Bool(x), Val::Bool(y)) => x == y,
        (Val::Int(x), Val::Int(y)) => x == y,
        (Val::Float(x), Val::Float(y)) => x.to_bits() == y.to_bits(),
        (Val::Bytes(x), Val::Bytes(y)) => x == y,
        (Val::Text(x), Val::Text(y)) => x == y,
        (Val::Arr(x), Val::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| veq(p, q)),
        (Val::Map(x), Val::Map(y)) => {
            x.len() == y.len() && x.iter().all(|(k, v)| y.iter().any(|(k2, v2)| veq(k, k2) && veq(v, v2)))
        }
        _ => false,
    }
}

pub fn has_dup_keys(m: &[(Val, Val)]) -> bool {
    m.iter().enumerate().any(|(i, (k, _))| m[..i].iter().any(|(k2, _)| veq(k, k2)))
}

impl Val {
    pub fn json_ok(&self) -> bool {
        match self {
            Val::Null | Val::Bool(_) | Val::Text(_) => true,
            Val::Int(i) => *i >= i128::from(i64::MIN) && *i <= i128::from(u64::MAX),
            Val::Float(f) => f.is_finite(),
            Val::Bytes(_) => false,
            Val::Arr(a) => a.iter().all(Val::json_ok),
            Val::Map(m) => m.iter().all(|(k, v)| matches!(k, Val::Text(_)) && v.json_ok()),
        }
    }
    /// Whether the JSON decoder in use reads this value's text back exactly
    /// (it may be one unit off for some floats), and within its nesting limit.
    pub fn json_text_ok(&self) -> bool {
        fn go(v: &Val) -> bool {
            match v {
                Val::Float(f) => serde_json::from_str::<f64>(&format!("{:?}", f)).ok() == Some(*f),
                Val::Arr(a) => a.iter().all(go),
                Val::Map(m) => m.iter().all(|e| go(&e.1)),
                _ => true,
            }
        }
        self.json_ok() && self.depth() < 100 && go(self)
    }
    pub fn depth(&self) -> usize {
        match self {
            Val::Arr(a) => 1 + a.iter().map(Val::depth).max().unwrap_or(0),
            Val::Map(m) => 1 + m.iter().map(|(k, v)| k.depth().max(v.depth())).max().unwrap_or(0),
            _ => 0,
        }
    }
    pub fn size(&self) -> usize {
        match self {
            Val::Arr(a) => 1 + a.iter().map(Val::size).sum::<usize>(),
            Val::Map(m) => 1 + m.iter().map(|(k, v)| k.size() + v.size()).sum::<usize>(),
            _ => 1,
        }
    }
    pub fn to_ciborium(&self) -> ciborium::Value {
        use ciborium::Value as C;
        match self {
            Val::Null => C::Null,
            Val::Bool(b) => C::Bool(*b),
            Val::Int(i) => C::Integer(ciborium::value::Integer::try_from(*i).expect("cbor int")),
            Val::Float(f) => C::Float(*f),
            Val::Bytes(b) => C::Bytes(b.clone()),
            Val::Text(t) => C::Text(t.clone()),
            Val::Arr(a) => C::Array(a.iter().map(Val::to_ciborium).collect()),
            Val::Map(m) => C::Map(m.iter().map(|(k, v)| (k.to_ciborium(), v.to_ciborium())).collect()),
        }
    }
    pub fn to_json_value(&self) -> serde_json::Value {
        use serde_json::Value as J;
        match self {
            Val::Null => J::Null,
            Val::Bool(b) => J::Bool(*b),
            Val::Int(i) => {
                if *i >= 0 {
                    J::from(*i as u64)
                } else {
                    J::from(*i as i64)
                }
            }
            Val::Float(f) => J::from(*f),
            Val::Bytes(_) => unreachable!(),
            Val::Text(t) => J::String(t.clone()),
            Val::Arr(a) => J::Array(a.iter().map(Val::to_json_value).collect()),
            Val::Map(m) => J::Object(
                m.iter()
                    .map(|(k, v)| match k {
                        Val::Text(t) => (t.clone(), v.to_json_value()),
                        _ => unreachable!(),
                    })
                    .collect(),
            ),
        }
    }
}

// ---- CBOR ---------------------------------------------------------------
fn head(out: &mut Vec<u8>, major: u8, n: u64, rng: &mut Option<&mut Rng>) {
    let min: usize = if n < 24 {
        0
    } else if n < 0x100 {
        1
    } else if n < 0x1_0000 {
        2
    } else if n < 0x1_0000_0000 {
        3
    } else {
        4
    };
    let w = match rng {
        Some(r) => {
            if r.pct(30) {
                r.range(min, 4)
            } else {
                min
            }
        }
        None => min,
    };
    let m = major << 5;
    match w {
        0 => out.push(m | n as u8),
        1 => {
            out.push(m | 24);
            out.push(n as u8);
        }
        2 => {
            out.push(m | 25);
            out.extend_from_slice(&(n as u16).to_be_bytes());
        }
        3 => {
            out.push(m | 26);
            out.extend_from_slice(&(n as u32).to_be_bytes());
        }
        _ => {
            out.push(m | 27);
            out.extend_from_slice(&n.to_be_bytes());
        }
    }
}

/// f64 -> f16 bits if exactly representable.
pub fn f16_exact(f: f64) -> Option<u16> {
    for s in [0u16, 0x8000] {
        // cheap: compute the candidate directly
        let a = f.abs();
        if (s != 0) != f.is_sign_negative() {
            continue;
        }
        if f.is_nan() {
            return None;
        }
        if a.is_infinite() {
            return Some(s | 0x7c00);
        }
        if a == 0.0 {
            return Some(s);
        }
        for e in 1..31u16 {
            let unit = 2f64.powi(i32::from(e) - 25);
            let m = a / unit;
            if (1024.0..2048.0).contains(&m) && m.fract() == 0.0 {
                return Some(s | (e << 10) | (m as u16 - 1024));
            }
        }
        let m = a / 2f64.powi(-24);
        if m < 1024.0 && m.fract() == 0.0 {
            return Some(s | m as u16);
        }
    }
    None
}

pub fn f16_to_f64(h: u16) -> f64 {
    let s = if h & 0x8000 != 0 { -1.0 } else { 1.0 };
    let e = i32::from((h >> 10) & 31);
    let m = f64::from(h & 1023);
    match e {
        0 => s * m * 2f64.powi(-24),
        31 => {
            if m == 0.0 {
                s * f64::INFINITY
            } else {
                f64::NAN
            }
        }
        _ => s * (1024.0 + m) * 2f64.powi(e - 25),
    }
}

/// `rng: None` gives the preferred (shortest definite) encoding.
pub fn cbor(v: &Val, out: &mut Vec<u8>, rng: &mut Option<&mut Rng>) {
    fn chance(rng: &mut Option<&mut Rng>, p: u32) -> bool {
        match rng {
            Some(r) => r.pct(p),
            None => false,
        }
    }
    match v {
        Val::Null => out.push(0xf6),
        Val::Bool(b) => out.push(if *b { 0xf5 } else { 0xf4 }),
        Val::Int(i) => {
            if *i >= 0 {
                head(out, 0, *i as u64, rng);
            } else {
                head(out, 1, (-1 - *i) as u64, rng);
            }
        }
        Val::Float(f) => {
            let h = f16_exact(*f);
            let s = {
                let g = *f as f32;
                if f64::from(g).to_bits() == f.to_bits() && !f.is_nan() {
                    Some(g)
                } else {
                    None
                }
            };
            if let (Some(h), false) = (h, chance(rng, 50)) {
                out.push(0xf9);
                out.extend_from_slice(&h.to_be_bytes());
            } else if let (Some(s), false) = (s, chance(rng, 50)) {
                out.push(0xfa);
                out.extend_from_slice(&s.to_be_bytes());
            } else {
                out.push(0xfb);
                out.extend_from_slice(&f.to_be_bytes());
            }
        }
        Val::Bytes(b) => {
            if chance(rng, 20) {
                out.push(0x5f);
                let mut rest = &b[..];
                while !rest.is_empty() {
                    let n = 1 + rng.as_mut().unwrap().below(rest.len());
                    head(out, 2, n as u64, rng);
                    out.extend_from_slice(&rest[..n]);
                    rest = &rest[n..];
                }
                out.push(0xff);
            } else {
                head(out, 2, b.len() as u64, rng);
                out.extend_from_slice(b);
            }
        }
        Val::Text(t) => {
            if chance(rng, 20) {
                out.push(0x7f);
                let cs: Vec<char> = t.chars().collect();
                let mut i = 0;
                while i < cs.len() {
                    let n = 1 + rng.as_mut().unwrap().below(cs.len() - i);
                    let s: String = cs[i..i + n].iter().collect();
                    head(out, 3, s.len() as u64, rng);
                    out.extend_from_slice(s.as_bytes());
                    i += n;
                }
                out.push(0xff);
            } else {
                head(out, 3, t.len() as u64, rng);
                out.extend_from_slice(t.as_bytes());
            }
        }
        Val::Arr(a) => {
            let indef = chance(rng, 20);
            if indef {
                out.push(0x9f);
            } else {
                head(out, 4, a.len() as u64, rng);
            }
            for x in a {
                cbor(x, out, rng);
            }
            if indef {
                out.push(0xff);
            }
        }
        Val::Map(m) => {
            let indef = chance(rng, 20);
            if indef {
                out.push(0xbf);
            } else {
                head(out, 5, m.len() as u64, rng);
            }
            let mut idx: Vec<usize> = (0..m.len()).collect();
            if let Some(r) = rng {
                r.shuffle(&mut idx);
            }
            for i in idx {
                cbor(&m[i].0, out, rng);
                cbor(&m[i].1, out, rng);
            }
            if indef {
                out.push(0xff);
            }
        }
    }
}

pub fn cbor_bytes(v: &Val) -> Vec<u8> {
    let mut o = vec![];
    cbor(v, &mut o, &mut None);
    o
}
pub fn cbor_bytes_var(v: &Val, rng: &mut Rng) -> Vec<u8> {
    let mut o = vec![];
    cbor(v, &mut o, &mut Some(rng));
    o
}

/// Result of independently decoding CBOR bytes.
#[derive(Clone, Debug)]
pub enum Dec {
    Val(Val),
    /// Not exactly one well-formed data item.
    Bad,
    /// Well-formed, but uses features outside the data model (tags, other
    /// simple values, duplicate keys, ...).
    Other,
    /// Well-formed, but holds a tag or a simple value that has no place in the
    /// data model.
    /// True if it's tags, and nothing else.
    Unrep(bool),
}

/// Some decoders tolerate this.
const UNSURE: u8 = 2;
const UNREP: u8 = 4;
const TAG: u8 = 8;

pub fn decode(b: &[u8]) -> Dec {
    let mut p = 0;
    let mut other = 0;
    match item(b, &mut p, 0, &mut other) {
        Some(v) if p == b.len() => {
            if other == UNREP || other == TAG || other == UNREP | TAG {
                Dec::Unrep(other == TAG)
            } else if other != 0 {
                Dec::Other
            } else {
                Dec::Val(v)
            }
        }
        _ if other & UNSURE != 0 => Dec::Other,
        _ => Dec::Bad,
    }
}

fn arg(b: &[u8], p: &mut usize, ai: u8) -> Option<u64> {
    let n = match ai {
        0..=23 => return Some(u64::from(ai)),
        24 => 1,
        25 => 2,
        26 => 4,
        27 => 8,
        _ => return None,
    };
    let s = b.get(*p..*p + n)?;
    *p += n;
    Some(s.iter().fold(0u64, |a, x| (a << 8) | u64::from(*x)))
}

fn item(b: &[u8], p: &mut usize, depth: usize, other: &mut u8) -> Option<Val> {
    if depth > 120 {
        *other |= UNSURE;
        return None;
    }
    let ib = *b.get(*p)?;
    *p += 1;
    let (mt, ai) = (ib >> 5, ib & 31);
    match mt {
        0 => Some(Val::Int(i128::from(arg(b, p, ai)?))),
        1 => Some(Val::Int(-1 - i128::from(arg(b, p, ai)?))),
        2 | 3 => {
            let mut data = vec![];
            if ai == 31 {
                loop {
                    let c = *b.get(*p)?;
                    *p += 1;
                    if c == 0xff {
                        break;
                    }
                    if c >> 5 == mt && c & 31 == 31 {
                        *other |= UNSURE;
                        return None;
                    }
                    if c >> 5 != mt {
                        return None;
                    }
                    let n = usize::try_from(arg(b, p, c & 31)?).ok()?;
                    let s = b.get(*p..p.checked_add(n)?)?;
                    if mt == 3 {
                        std::str::from_utf8(s).ok()?;
                    }
                    data.extend_from_slice(s);
                    *p += n;
                }
            } else {
                let n = usize::try_from(arg(b, p, ai)?).ok()?;
                data.extend_from_slice(b.get(*p..p.checked_add(n)?)?);
                *p += n;
            }
            if mt == 2 {
                Some(Val::Bytes(data))
            } else {
                Some(Val::Text(String::from_utf8(data).ok()?))
            }
        }
        4 => {
            let mut a = vec![];
            if ai == 31 {
                while *b.get(*p)? != 0xff {
                    a.push(item(b, p, depth + 1, other)?);
                }
                *p += 1;
            } else {
                let n = arg(b, p, ai)?;
                for _ in 0..n {
                    a.push(item(b, p, depth + 1, other)?);
                }
            }
            Some(Val::Arr(a))
        }
        5 => {
            let mut m = vec![];
            if ai == 31 {
                while *b.get(*p)? != 0xff {
                    let k = item(b, p, depth + 1, other)?;
                    let v = item(b, p, depth + 1, other)?;
                    m.push((k, v));
                }
                *p += 1;
            } else {
                let n = arg(b, p, ai)?;
                for _ in 0..n {
                    let k = item(b, p, depth + 1, other)?;
                    let v = item(b, p, depth + 1, other)?;
                    m.push((k, v));
                }
            }
            if has_dup_keys(&m) {
                *other |= 1;
            }
            Some(Val::Map(m))
        }
        6 => {
            // Bignums may be taken as the integers they stand for.
            *other |= if matches!(arg(b, p, ai)?, 2 | 3) { 1 } else { TAG };
            item(b, p, depth + 1, other)
        }
        _ => match ai {
            20 => Some(Val::Bool(false)),
            21 => Some(Val::Bool(true)),
            22 => Some(Val::Null),
            25 => {
                let n = arg(b, p, 25)?;
                let f = f16_to_f64(n as u16);
                if f.is_nan() {
                    *other |= 1;
                }
                Some(Val::Float(f))
            }
            26 => {
                let n = arg(b, p, 26)?;
                let f = f64::from(f32::from_bits(n as u32));
                if f.is_nan() {
                    *other |= 1;
                }
                Some(Val::Float(f))
            }
            27 => {
                let f = f64::from_bits(arg(b, p, 27)?);
                if f.is_nan() {
                    *other |= 1;
                }
                Some(Val::Float(f))
            }
            28..=31 => None,
            24 => {
                let n = arg(b, p, 24)?;
                *other |= UNREP;
                if n < 32 {
                    *other |= UNSURE;
                    None
                } else {
                    Some(Val::Null)
                }
            }
            // "undefined" may be taken as null.
            23 => {
                *other |= 1;
                Some(Val::Null)
            }
            _ => {
                *other |= UNREP;
                Some(Val::Null)
            }
        },
    }
}

// ---- JSON ---------------------------------------------------------------
fn json_ws(out: &mut String, rng: &mut Option<&mut Rng>) {
    if let Some(r) = rng {
        if r.pct(20) {
            out.push_str(r.pick(&[" ", "\n", "\t", "\r\n", "   "]));
        }
    }
}

fn json_str(t: &str, out: &mut String, rng: &mut Option<&mut Rng>) {
    out.push('"');
    for c in t.chars() {
        let esc = match rng {
            Some(r) => r.pct(8),
            None => false,
        };
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 || esc => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    out.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

pub fn json(v: &Val, out: &mut String, rng: &mut Option<&mut Rng>) {
    json_ws(out, rng);
    match v {
        Val::Null => out.push_str("null"),
        Val::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        Val::Int(i) => out.push_str(&i.to_string()),
        Val::Float(f) => {
            let s = format!("{:?}", f);
            let alt = match rng {
                Some(r) => r.below(4),
                None => 9,
            };
            let t = match alt {
                0 => format!("{:e}", f),
                1 => format!("{:E}", f),
                2 if !s.contains('e') => format!("{}0", s),
                _ => s.clone(),
            };
            // serde_json's own reading of a float can be off by one in the last place,
            // depending on the spelling; use only a spelling it reads exactly.
            let exact = serde_json::from_str::<f64>(&t).ok() == Some(*f);
            out.push_str(if exact { &t } else { &s });
        }
        Val::Bytes(_) => unreachable!(),
        Val::Text(t) => json_str(t, out, rng),
        Val::Arr(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                json(x, out, rng);
            }
            json_ws(out, rng);
            out.push(']');
        }
        Val::Map(m) => {
            out.push('{');
            let mut idx: Vec<usize> = (0..m.len()).collect();
            if let Some(r) = rng {
                r.shuffle(&mut idx);
            }
            for (n, i) in idx.into_iter().enumerate() {
                if n > 0 {
                    out.push(',');
                }
                json_ws(out, rng);
                match &m[i].0 {
                    Val::Text(t) => json_str(t, out, rng),
                    _ => unreachable!(),
                }
                json_ws(out, rng);
                out.push(':');
                json(&m[i].1, out, rng);
            }
            json_ws(out, rng);
            out.push('}');
        }
    }
    json_ws(out, rng);
}

pub fn json_text(v: &Val) -> String {
    let mut o = String::new();
    json(v, &mut o, &mut None);
    o
}
pub fn json_text_var(v: &Val, rng: &mut Rng) -> String {
    let mut o = String::new();
    json(v, &mut o, &mut Some(rng));
    o
}
