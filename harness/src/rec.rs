//! An independent recursive-descent recognizer for the CDDL grammar the
//! library documents (the RFC 8610 subset of its README), producing the
//! harness's own tree.  It shares nothing with the code under test.
//!
//! Like RFC 8610's PEG, choices are ordered and never revisited.
use crate::s::*;

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum E {
    /// this alternative does not apply
    No,
    /// a malformed literal: nothing else applies either
    Fail,
}
type R<T> = Result<T, E>;

pub struct Rec<'a> {
    b: &'a [u8],
    s: &'a str,
    i: usize,
    depth: u32,
    pub max_depth: u32,
    /// Nested further than any limit a parser may reasonably have.
    pub too_deep: bool,
    pub work: u64,
    /// The malformed literal that ended it: its kind and where it stands.
    fault: Option<(&'static str, usize, usize)>,
    /// Where reading stopped, after at least one rule.
    rest: Option<usize>,
}

/// The tree of `s`, or None when it is not CDDL.  The second result is true
/// when the input is nested so deeply that a parser may refuse it.
pub fn recognize(s: &str) -> (Option<Schema>, bool) {
    let d = diagnose(s);
    (d.schema, d.too_deep)
}

pub struct Diag {
    pub schema: Option<Schema>,
    pub too_deep: bool,
    pub fault: Option<(&'static str, usize, usize)>,
    pub rest: Option<usize>,
}

/// The tree, or what is wrong with the text.
pub fn diagnose(s: &str) -> Diag {
    let mut r = Rec { b: s.as_bytes(), s, i: 0, depth: 0, max_depth: 0, too_deep: false, work: 0, fault: None, rest: None };
    let schema = r.cddl().ok();
    Diag { schema, too_deep: r.too_deep, fault: r.fault, rest: r.rest }
}

fn ealpha(c: u8) -> bool {
    c.is_ascii_alphabetic() || matches!(c, b'@' | b'_' | b'$')
}

impl<'a> Rec<'a> {
    fn peek(&self) -> u8 {
        self.b.get(self.i).copied().unwrap_or(0)
    }
    fn tag(&mut self, t: &str) -> bool {
        if self.b[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn need(&mut self, t: &str) -> R<()> {
        if self.tag(t) {
            Ok(())
        } else {
            Err(E::No)
        }
    }
    /// Optional: restores the position when it does not apply.
    fn opt<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<Option<T>> {
        let i = self.i;
        match f(self) {
            Ok(v) => Ok(Some(v)),
            Err(E::No) => {
                self.i = i;
                Ok(None)
            }
            Err(E::Fail) => Err(E::Fail),
        }
    }

    fn ws(&mut self) {
        loop {
            match self.peek() {
                b' ' | b'\t' | b'\r' | b'\n' if self.i < self.b.len() => self.i += 1,
                b';' => {
                    let rest = &self.b[self.i..];
                    match rest.iter().position(|c| *c == b'\n' || *c == b'\r') {
                        None => self.i = self.b.len(),
                        Some(p) if rest[p] == b'\n' || rest.get(p + 1) == Some(&b'\n') => self.i += p,
                        // a bare carriage return does not end a comment
                        Some(_) => return,
                    }
                }
                _ => return,
            }
        }
    }

    fn cddl(&mut self) -> R<Schema> {
        self.ws();
        let mut rules = vec![];
        while let Some(r) = self.opt(|p| {
            let r = p.rule()?;
            p.ws();
            Ok(r)
        })? {
            rules.push(r);
        }
        if !rules.is_empty() {
            self.rest = Some(self.i);
        }
        if rules.is_empty() || self.i < self.b.len() {
            return Err(E::No);
        }
        Ok(Schema(rules))
    }

    fn ident(&mut self) -> R<String> {
        let st = self.i;
        if !ealpha(self.peek()) {
            return Err(E::No);
        }
        while ealpha(self.peek()) {
            self.i += 1;
        }
        loop {
            let mut j = self.i;
            while matches!(self.b.get(j), Some(b'-') | Some(b'.')) {
                j += 1;
            }
            match self.b.get(j) {
                Some(c) if ealpha(*c) || c.is_ascii_digit() => self.i = j + 1,
                _ => break,
            }
        }
        Ok(self.s[st..self.i].to_string())
    }

    fn rule(&mut self) -> R<Rule> {
        let name = self.ident()?;
        let params = self
            .opt(|p| {
                p.need("<")?;
                p.ws();
                let mut v = vec![];
                loop {
                    v.push(p.ident()?);
                    p.ws();
                    if p.tag(">") {
                        return Ok(v);
                    }
                    p.need(",")?;
                    p.ws();
                }
            })?
            .unwrap_or_default();
        self.ws();
        self.need("=")?;
        self.ws();
        let v = match self.opt(|p| p.ty())? {
            Some(t) => RV::T(t),
            None => RV::G(self.grpent()?),
        };
        Ok(Rule { name, params, v })
    }

    fn ty(&mut self) -> R<Ty> {
        let first = self.t1()?;
        self.ty_rest(first)
    }
    fn ty_rest(&mut self, first: T1) -> R<Ty> {
        let mut v = vec![first];
        while let Some(t) = self.opt(|p| {
            p.ws();
            p.need("/")?;
            p.ws();
            p.t1()
        })? {
            v.push(t);
        }
        Ok(Ty(v))
    }
    fn t1(&mut self) -> R<T1> {
        let a = self.t2()?;
        self.t1_tail(a)
    }
    fn t1_tail(&mut self, a: T2) -> R<T1> {
        enum Op {
            R(bool),
            C(String),
        }
        let tail = self.opt(|p| {
            p.ws();
            let op = if p.tag("...") {
                Op::R(false)
            } else if p.tag("..") {
                Op::R(true)
            } else {
                p.need(".")?;
                Op::C(p.ident()?)
            };
            p.ws();
            Ok((op, p.t2()?))
        })?;
        Ok(match tail {
            None => T1::S(a),
            Some((Op::R(incl), b)) => T1::R(a, incl, b),
            Some((Op::C(op), b)) => T1::C(a, op, b),
        })
    }

    fn enter<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        self.work += 1;
        self.depth += 1;
        self.max_depth = self.max_depth.max(self.depth);
        let r = if self.depth > 48 {
            self.too_deep = true;
            Err(E::Fail)
        } else {
            f(self)
        };
        self.depth -= 1;
        r
    }

    fn t2(&mut self) -> R<T2> {
        self.enter(|p| p.t2_inner())
    }
    fn t2_inner(&mut self) -> R<T2> {
        if let Some(l) = self.opt(|p| p.value())? {
            return Ok(T2::Lit(l));
        }
        if ealpha(self.peek()) {
            let (n, a) = self.name_generic()?;
            return Ok(T2::Name(n, a));
        }
        match self.peek() {
            b'(' => {
                self.i += 1;
                self.ws();
                let t = self.ty()?;
                self.ws();
                self.need(")")?;
                Ok(T2::Paren(t))
            }
            b'{' => {
                self.i += 1;
                let g = self.group_ws()?;
                self.need("}")?;
                Ok(T2::Map(g))
            }
            b'[' => {
                self.i += 1;
                let g = self.group_ws()?;
                self.need("]")?;
                Ok(T2::Arr(g))
            }
            b'~' => {
                self.i += 1;
                self.ws();
                let (n, a) = self.name_generic()?;
                Ok(T2::Unwrap(n, a))
            }
            b'&' => {
                self.i += 1;
                self.ws();
                if self.tag("(") {
                    let g = self.group_ws()?;
                    self.need(")")?;
                    return Ok(T2::ChIn(g));
                }
                let (n, a) = self.name_generic()?;
                Ok(T2::Ch(n, a))
            }
            _ => Err(E::No),
        }
    }

    fn name_generic(&mut self) -> R<(String, Vec<T1>)> {
        let n = self.ident()?;
        let a = self.opt(|p| {
            p.need("<")?;
            p.ws();
            let mut v = vec![];
            loop {
                v.push(p.t1()?);
                p.ws();
                if p.tag(">") {
                    return Ok(v);
                }
                p.need(",")?;
                p.ws();
            }
        })?;
        Ok((n, a.unwrap_or_default()))
    }

    // ---- groups ---------------------------------------------------------
    fn group_ws(&mut self) -> R<Grp> {
        self.ws();
        let first = self.grpchoice()?;
        let g = self.group_rest(first)?;
        self.ws();
        Ok(g)
    }
    fn group_rest(&mut self, first: Vec<Ent>) -> R<Grp> {
        let mut v = vec![first];
        while let Some(c) = self.opt(|p| {
            p.ws();
            p.need("//")?;
            p.ws();
            p.grpchoice()
        })? {
            v.push(c);
        }
        Ok(Grp(v))
    }
    fn optcom(&mut self) {
        self.ws();
        if self.tag(",") {
            self.ws();
        }
    }
    fn grpchoice(&mut self) -> R<Vec<Ent>> {
        let mut v = vec![];
        while let Some(e) = self.opt(|p| p.grpent())? {
            v.push(e);
            self.optcom();
        }
        Ok(v)
    }
    fn occur(&mut self) -> R<Occ> {
        if self.tag("+") {
            return Ok(Occ::Plus);
        }
        if self.tag("?") {
            return Ok(Occ::Opt);
        }
        let lo = self.opt(|p| {
            let st = p.i;
            let (d, b) = p.uint()?;
            p.need("*")?;
            u64::from_str_radix(&d, b).map_err(|_| p.malformed("MalformedInteger", st))
        })?;
        if lo.is_none() {
            self.need("*")?;
        }
        let hi = self.opt(|p| {
            let st = p.i;
            let (d, b) = p.uint()?;
            u64::from_str_radix(&d, b).map_err(|_| p.malformed("MalformedInteger", st))
        })?;
        Ok(match (lo, hi) {
            (None, None) => Occ::Star,
            (l, h) => Occ::N(l.unwrap_or(0) as usize, h.map_or(usize::MAX, |h| h as usize)),
        })
    }
    fn grpent(&mut self) -> R<Ent> {
        let occ = self.opt(|p| {
            let o = p.occur()?;
            p.ws();
            Ok(o)
        })?;
        let v = if self.peek() == b'(' { self.enter(|p| p.parens())? } else { self.member()? };
        Ok(Ent { occ, v })
    }
    fn parens(&mut self) -> R<EV> {
        self.need("(")?;
        self.ws();
        let first = self.opt(|p| p.grpent())?;
        let closed = self
            .opt(|p| {
                p.ws();
                p.need(")")
            })?
            .is_some();
        match (first, closed) {
            (Some(Ent { occ: None, v: EV::M(None, t) }), true) => {
                let t1 = self.t1_tail(T2::Paren(t))?;
                self.member_tail(t1)
            }
            (f, true) => Ok(EV::G(Grp(vec![f.into_iter().collect()]))),
            (f, false) => {
                let mut c = vec![];
                if let Some(f) = f {
                    c.push(f);
                    self.optcom();
                    c.extend(self.grpchoice()?);
                }
                let g = self.group_rest(c)?;
                self.ws();
                self.need(")")?;
                Ok(EV::G(g))
            }
        }
    }
    fn member(&mut self) -> R<EV> {
        let t = self.t1()?;
        self.member_tail(t)
    }
    fn member_tail(&mut self, t: T1) -> R<EV> {
        // whitespace after an entry belongs to it
        self.ws();
        let i = self.i;
        if matches!(&t, T1::S(T2::Lit(_)) | T1::S(T2::Name(..))) && self.tag(":") {
            self.ws();
            if let Some(v) = self.opt(|p| p.ty())? {
                return match t {
                    T1::S(T2::Lit(l)) => Ok(EV::M(Some(Key::Lit(l)), v)),
                    T1::S(T2::Name(n, a)) if a.is_empty() => Ok(EV::M(Some(Key::Bare(n)), v)),
                    _ => Err(E::Fail),
                };
            }
            self.i = i;
        }
        let mut cut = false;
        if self.tag("^") {
            cut = true;
            self.ws();
        }
        if self.tag("=>") {
            self.ws();
            if let Some(v) = self.opt(|p| p.ty())? {
                return Ok(EV::M(Some(Key::T(t, cut)), v));
            }
        }
        self.i = i;
        self.ty_rest(t).map(|t| EV::M(None, t))
    }

    // ---- literals -------------------------------------------------------
    fn digits(&mut self, f: impl Fn(u8) -> bool) -> String {
        let st = self.i;
        while self.i < self.b.len() && f(self.b[self.i]) {
            self.i += 1;
        }
        self.s[st..self.i].to_string()
    }
    fn uint(&mut self) -> R<(String, u32)> {
        let i = self.i;
        if self.tag("0x") {
            let d = self.digits(|c| c.is_ascii_hexdigit());
            if !d.is_empty() {
                return Ok((d, 16));
            }
        }
        self.i = i;
        if self.tag("0b") {
            let d = self.digits(|c| c == b'0' || c == b'1');
            if !d.is_empty() {
                return Ok((d, 2));
            }
        }
        self.i = i;
        match self.peek() {
            b'0' => {
                self.i += 1;
                Ok(("0".into(), 10))
            }
            b'1'..=b'9' => Ok((self.digits(|c| c.is_ascii_digit()), 10)),
            _ => Err(E::No),
        }
    }
    fn malformed(&mut self, kind: &'static str, st: usize) -> E {
        if self.fault.is_none() {
            self.fault = Some((kind, st, self.i));
        }
        E::Fail
    }
    fn value(&mut self) -> R<Lit> {
        let st = self.i;
        let first = self.peek();
        match self.value_inner() {
            Err(E::Fail) => {
                let kind = match first {
                    b'"' | b'\'' => "MalformedText",
                    b'h' => "MalformedHex",
                    b'b' => "MalformedBase64",
                    _ => {
                        let t = &self.s[st..self.i];
                        let digits = t.trim_start_matches('-');
                        let hex = digits.starts_with("0x");
                        if t.contains('.') || (!hex && t.contains('e')) {
                            "MalformedFloat"
                        } else {
                            "MalformedInteger"
                        }
                    }
                };
                Err(self.malformed(kind, st))
            }
            o => o,
        }
    }
    fn value_inner(&mut self) -> R<Lit> {
        let st = self.i;
        match self.peek() {
            b'-' | b'0'..=b'9' => {
                let neg = self.tag("-");
                let (d, base) = self.uint()?;
                let mut float = false;
                let j = self.i;
                if self.tag(".") {
                    if self.digits(|c| c.is_ascii_digit()).is_empty() {
                        self.i = j;
                    } else {
                        float = true;
                    }
                }
                let j = self.i;
                if self.tag("e") {
                    let _ = self.tag("+") || self.tag("-");
                    if self.digits(|c| c.is_ascii_digit()).is_empty() {
                        self.i = j;
                    } else {
                        float = true;
                    }
                }
                if float {
                    // only decimal notation can have a fraction or exponent
                    if base != 10 {
                        return Err(E::Fail);
                    }
                    return self.s[st..self.i].parse::<f64>().map(Lit::F).map_err(|_| E::Fail);
                }
                let n = u64::from_str_radix(&d, base).map_err(|_| E::Fail)?;
                if !neg {
                    Ok(Lit::U(n))
                } else if n <= 1 << 63 {
                    Ok(Lit::N((n as i64).wrapping_neg()))
                } else {
                    Err(E::Fail)
                }
            }
            b'"' => {
                self.i += 1;
                let raw = self.quoted(b'"')?;
                unescape(&raw, '"').map(Lit::T).ok_or(E::Fail)
            }
            b'\'' => {
                self.i += 1;
                let raw = self.quoted(b'\'')?;
                unescape(&raw, '\'').map(|s| Lit::B(s.into_bytes())).ok_or(E::Fail)
            }
            b'h' if self.tag("h'") => {
                let raw = self.quoted(b'\'')?;
                let h: Vec<u8> = raw.bytes().filter(|c| !c.is_ascii_whitespace()).collect();
                if h.len() % 2 != 0 {
                    return Err(E::Fail);
                }
                let mut out = vec![];
                for c in h.chunks(2) {
                    let d = |x: u8| (x as char).to_digit(16).ok_or(E::Fail);
                    out.push((d(c[0])? * 16 + d(c[1])?) as u8);
                }
                Ok(Lit::B(out))
            }
            b'b' if self.tag("b64'") => {
                let raw = self.quoted(b'\'')?;
                unb64(&raw).map(Lit::B).ok_or(E::Fail)
            }
            _ => Err(E::No),
        }
    }
    /// The raw text up to the closing quote.
    fn quoted(&mut self, q: u8) -> R<String> {
        let st = self.i;
        let mut it = self.s[st..].char_indices();
        while let Some((p, c)) = it.next() {
            if c == q as char {
                self.i = st + p + 1;
                return Ok(self.s[st..st + p].to_string());
            }
            if c == '\\' {
                if it.next().is_none() {
                    return Err(E::No);
                }
                continue;
            }
            let v = c as u32;
            if v < 0x20 || v == 0x7f || v > 0x10FFFD {
                return Err(E::No);
            }
        }
        Err(E::No)
    }
}

fn unescape(s: &str, q: char) -> Option<String> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = String::new();
    let hex4 = |i: usize| -> Option<u32> {
        if i + 4 > c.len() {
            return None;
        }
        let mut v = 0;
        for x in &c[i..i + 4] {
            v = v * 16 + x.to_digit(16)?;
        }
        Some(v)
    };
    while i < c.len() {
        if c[i] != '\\' {
            out.push(c[i]);
            i += 1;
            continue;
        }
        let e = *c.get(i + 1)?;
        i += 2;
        match e {
            '"' | '\\' | '/' => out.push(e),
            '\'' if q == '\'' => out.push(e),
            'b' => out.push('\u{8}'),
            'f' => out.push('\u{c}'),
            'n' => out.push('\n'),
            'r' => out.push('\r'),
            't' => out.push('\t'),
            'u' => {
                let u = hex4(i)?;
                i += 4;
                if (0xD800..0xDC00).contains(&u) {
                    if c.get(i) != Some(&'\\') || c.get(i + 1) != Some(&'u') {
                        return None;
                    }
                    let l = hex4(i + 2)?;
                    if !(0xDC00..0xE000).contains(&l) {
                        return None;
                    }
                    i += 6;
                    out.push(char::from_u32(0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00))?);
                } else {
                    out.push(char::from_u32(u)?);
                }
            }
            _ => return None,
        }
    }
    Some(out)
}

pub fn unb64(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 4 != 0 {
        return None;
    }
    let val = |c: u8| -> Option<u32> {
        Some(u32::from(match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'-' => 62,
            b'_' => 63,
            _ => return None,
        }))
    };
    let mut out = vec![];
    for (n, ch) in b.chunks(4).enumerate() {
        let last = (n + 1) * 4 == b.len();
        let pad = if !last {
            0
        } else if ch[2] == b'=' && ch[3] == b'=' {
            2
        } else if ch[3] == b'=' {
            1
        } else {
            0
        };
        let mut v = 0;
        for c in &ch[..4 - pad] {
            v = v << 6 | val(*c)?;
        }
        v <<= 6 * pad;
        // bits that do not belong to any byte must be zero
        if pad > 0 && v & ((1 << (8 * pad)) - 1) != 0 {
            return None;
        }
        out.push((v >> 16) as u8);
        if pad < 2 {
            out.push((v >> 8) as u8);
        }
        if pad < 1 {
            out.push(v as u8);
        }
    }
    Some(out)
}
