//! Purely syntactic generators: trees that print as valid CDDL whether or not
//! they mean anything, token soup, and damaged text.
use crate::gen::{pick_bytes, pick_float, pick_lit, pick_text};
use crate::rng::Rng;
use crate::s::*;

pub struct Syn<'r> {
    pub r: &'r mut Rng,
    pub budget: i32,
}

const NAMES: &[&str] = &[
    "a", "b", "int", "tstr", "h", "b64", "x1", "_", "$", "@", "$$x", "a-b", "a.b", "a--b.c", "e5", "true", "nil", "h2", "x-1.y", "A", "Zz9", "foo.bar-baz_", "@a.1", "ee", "b0", "x0", "a..b", "any",
];
const OPS: &[&str] = &["size", "lt", "le", "gt", "ge", "regexp", "cbor", "and", "within", "default", "x", "bits", "a-b", "eq.1", "ne", "$", "cborseq"];

impl Syn<'_> {
    pub fn name(&mut self) -> String {
        if self.r.pct(80) {
            return self.r.pick(NAMES).to_string();
        }
        if self.r.pct(10) {
            return self.r.pick(crate::dict::idents()).clone();
        }
        if self.r.pct(3) {
            let n = *self.r.pick(&crate::dict::small(400)) as usize;
            return format!("n{}", self.r.pick(&["x", "-1", ".b", "_"]).repeat(n));
        }
        let mut s = String::new();
        const A: &[u8] = b"abcXYZ@_$";
        const D: &[u8] = b"0123456789abxE_";
        s.push(*self.r.pick(A) as char);
        for _ in 0..self.r.below(6) {
            if self.r.pct(25) {
                for _ in 0..self.r.range(1, 2) {
                    s.push(*self.r.pick(b"-.") as char);
                }
            }
            s.push(*self.r.pick(D) as char);
        }
        s
    }
    pub fn lit(&mut self) -> Lit {
        match self.r.below(10) {
            0 => Lit::U(*self.r.pick(&[0, 1, 9, 10, 255, 256, 1 << 31, 1 << 32, i64::MAX as u64, 1 << 63, u64::MAX])),
            1 => Lit::N(*self.r.pick(&[0, -1, -10, -255, i64::MIN, i64::MIN + 1, -(1 << 53)])),
            2 => Lit::U(self.r.u64() >> self.r.below(64)),
            3 => Lit::N(-((self.r.u64() >> self.r.range(1, 63)) as i64)),
            4 => Lit::F(pick_float(self.r)),
            5 => {
                let f = f64::from_bits(self.r.u64());
                Lit::F(if f.is_finite() { f } else { 0.5 })
            }
            6 => Lit::T(pick_text(self.r)),
            7 => Lit::B(pick_bytes(self.r)),
            8 => {
                let n = self.r.below(6);
                Lit::T((0..n).map(|_| wild_char(self.r)).collect())
            }
            _ => match pick_lit(self.r, false) {
                Lit::F(f) if !f.is_finite() => Lit::F(1.5),
                l => l,
            },
        }
    }
    fn args(&mut self, d: usize) -> Vec<T1> {
        if d == 0 || !self.r.pct(12) {
            return vec![];
        }
        (0..crate::dict::count(self.r, 1, 3, 5, 40)).map(|_| self.t1(d - 1)).collect()
    }
    pub fn t2(&mut self, d: usize) -> T2 {
        self.budget -= 1;
        let k = if d == 0 || self.budget < 0 { self.r.below(8) } else { self.r.below(16) };
        match k {
            0..=2 => T2::Lit(self.lit()),
            3..=5 => {
                let a = self.args(d);
                T2::Name(self.name(), a)
            }
            6 => {
                let a = self.args(d);
                T2::Unwrap(self.name(), a)
            }
            7 => {
                let a = self.args(d);
                T2::Ch(self.name(), a)
            }
            8 | 9 => T2::Paren(self.ty(d - 1)),
            10 | 11 => T2::Map(self.grp(d - 1)),
            12 | 13 => T2::Arr(self.grp(d - 1)),
            14 => T2::ChIn(self.grp(d - 1)),
            _ => T2::Name(self.name(), vec![]),
        }
    }
    pub fn t1(&mut self, d: usize) -> T1 {
        match self.r.below(12) {
            0 => T1::R(self.t2(d), self.r.pct(50), self.t2(d)),
            1 => {
                let op = self.r.pick(OPS).to_string();
                T1::C(self.t2(d), op, self.t2(d))
            }
            _ => T1::S(self.t2(d)),
        }
    }
    pub fn ty(&mut self, d: usize) -> Ty {
        let n = if self.r.pct(20) { crate::dict::count(self.r, 2, 4, 2, 70) } else { 1 };
        Ty((0..n).map(|_| self.t1(d)).collect())
    }
    pub fn grp(&mut self, d: usize) -> Grp {
        let n = if self.r.pct(15) { crate::dict::count(self.r, 2, 3, 2, 40) } else { 1 };
        Grp((0..n)
            .map(|_| {
                let m = if self.r.pct(1) { crate::dict::count(self.r, 5, 9, 50, 70) } else { *self.r.pick(&[0, 1, 1, 1, 2, 2, 3, 4]) };
                (0..m).map(|_| self.ent(d)).collect()
            })
            .collect())
    }
    pub fn occ(&mut self, rule_level: bool) -> Occ {
        match self.r.below(6) {
            0 | 1 => Occ::Opt,
            2 => Occ::Star,
            3 => Occ::Plus,
            _ if rule_level => Occ::N(0, self.r.below(9)),
            4 => Occ::N(self.r.below(4), self.r.below(6)),
            _ => Occ::N(*self.r.pick(&[0, 1, 300, usize::MAX]), *self.r.pick(&[0, 1, 7, 1 << 40, usize::MAX])),
        }
    }
    pub fn ent(&mut self, d: usize) -> Ent {
        let occ = if self.r.pct(35) { Some(self.occ(false)) } else { None };
        Ent { occ, v: self.ev(d) }
    }
    fn ev(&mut self, d: usize) -> EV {
        match self.r.below(10) {
            0 if d > 0 => EV::G(self.grp(d - 1)),
            1 | 2 => EV::M(Some(Key::Bare(self.name())), self.ty(d)),
            3 => EV::M(Some(Key::Lit(self.lit())), self.ty(d)),
            4 | 5 => {
                let k = self.t1(d.min(2));
                EV::M(Some(Key::T(k, self.r.pct(50))), self.ty(d))
            }
            _ => EV::M(None, self.ty(d)),
        }
    }
    pub fn rule(&mut self, d: usize) -> Rule {
        let name = self.name();
        let params = if self.r.pct(15) { (0..crate::dict::count(self.r, 1, 3, 5, 40)).map(|_| self.name()).collect() } else { vec![] };
        let v = match self.r.below(8) {
            0 => RV::G(Ent { occ: Some(self.occ(true)), v: self.ev(d) }),
            1 => {
                // not a parenthesized type
                let mut g = self.grp(d);
                if g.0.len() == 1 && g.0[0].len() == 1 && g.0[0][0].occ.is_none() {
                    if let EV::M(None, _) = g.0[0][0].v {
                        g.0[0].push(Ent { occ: None, v: EV::M(None, tyname("z")) });
                    }
                }
                RV::G(Ent { occ: None, v: EV::G(g) })
            }
            _ => RV::T(self.ty(d)),
        };
        Rule { name, params, v }
    }
    pub fn schema(&mut self, d: usize) -> Schema {
        if self.r.pct(1) {
            let n = crate::dict::count(self.r, 5, 20, 70, 300);
            return Schema((0..n).map(|_| self.rule(0)).collect());
        }
        let n = self.r.range(1, 4);
        Schema((0..n).map(|_| self.rule(d)).collect())
    }
}

pub fn wild_char(r: &mut Rng) -> char {
    match r.below(9) {
        0 => *r.pick(&['"', '\\', '\'', '/', '\n', '\r', '\t', '\u{8}', '\u{c}', '\0', '\u{7f}', '\u{80}', ';', ' ']),
        1 => *r.pick(&['\u{10FFFD}', '\u{10FFFE}', '\u{10FFFF}', '\u{FFFF}', '\u{10000}', '\u{D7FF}', '\u{E000}', '\u{2028}', '\u{feff}', '\u{85}', '\u{a0}']),
        2 => char::from_u32(r.below(0x80) as u32).unwrap(),
        3 => char::from_u32(r.below(0x110000) as u32).unwrap_or('\u{fffd}'),
        _ => (b'a' + r.below(26) as u8) as char,
    }
}

pub const TOKENS: &[&str] = &[
    "a", "b", "int", "h", "e", "x", "0", "1", "12", "0x", "0x1F", "0b", "0b10", "-", "-1", "1.5", "1e3", ".5", "1.", "e5", "(", ")", "[", "]", "{", "}", "<", ">", "=", "=>", "^", ":", "/", "//", ",", "*", "+",
    "?", "2*3", "1*", "*4", "~", "&", "..", "...", ".", ".size", ".x", "\"", "\"s\"", "\"\\n\"", "\"\\x\"", "'", "'q'", "h'00'", "h'0'", "h'", "b64'AA=='", "b64'A'", "b64'AB=='", ";", "; c\n", "\n", " ", "  ", "\t",
    "\r\n", "\r", "é", "#", "#6", "/=", "//=", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "\"\\ud83d\\ude00\"", "\"\\ud83d\"", "'\\''", "'\"'", "a = int", "= int",
    "a = ", "a<b>", "a<", "<b>", "$x", "@", "_", "true",
];

pub fn soup(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(*r.pick(TOKENS));
        if r.pct(30) {
            s.push(' ');
        }
    }
    s
}

/// A few small edits of CDDL text.
pub fn edit(t: &str, r: &mut Rng, k: usize) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..k {
        let i = r.below(c.len() + 1);
        match r.below(8) {
            0 | 1 if i < c.len() => {
                c.remove(i);
            }
            2 => {
                let t: Vec<char> = r.pick(TOKENS).chars().collect();
                c.splice(i..i, t);
            }
            3 if i < c.len() => c[i] = wild_char(r),
            4 if i + 1 < c.len() => c.swap(i, i + 1),
            5 if i < c.len() => {
                // replace one character with a token
                let t: Vec<char> = r.pick(TOKENS).chars().collect();
                c.splice(i..=i, t);
            }
            6 if i < c.len() => {
                // copy a piece elsewhere
                let e = (i + r.range(1, 6)).min(c.len());
                let p: Vec<char> = c[i..e].to_vec();
                let j = r.below(c.len() + 1);
                c.splice(j..j, p);
            }
            7 if i < c.len() => {
                if r.pct(20) {
                    c.truncate(i);
                } else {
                    let e = (i + r.range(1, 5)).min(c.len());
                    c.drain(i..e);
                }
            }
            _ => c.insert(i, *r.pick(&[' ', '\n', ',', '\t'])),
        }
    }
    c.into_iter().collect()
}
