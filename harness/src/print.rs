//! Prints a schema as CDDL text, with either canonical or randomized
//! formatting.  Randomized formatting never changes the meaning.
use crate::rng::Rng;
use crate::s::*;

pub struct Printer<'r> {
    pub out: String,
    rng: Option<&'r mut Rng>,
    /// Whether to vary the spelling of literals.
    lits: bool,
    /// Byte range of each rule in `out`.
    pub spans: Vec<(usize, usize)>,
}

fn identish(c: char) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, '@' | '_' | '$')
}

pub fn canon(s: &Schema) -> String {
    let mut p = Printer { out: String::new(), rng: None, lits: false, spans: vec![] };
    p.schema(s);
    p.out
}

pub fn random(s: &Schema, rng: &mut Rng) -> String {
    let mut p = Printer { out: String::new(), rng: Some(rng), lits: true, spans: vec![] };
    p.schema(s);
    p.out
}

pub fn random_spans(s: &Schema, rng: &mut Rng) -> (String, Vec<(usize, usize)>) {
    let mut p = Printer { out: String::new(), rng: Some(rng), lits: true, spans: vec![] };
    p.schema(s);
    (p.out, p.spans)
}

pub fn t1_text(t: &T1) -> String {
    let mut p = Printer { out: String::new(), rng: None, lits: false, spans: vec![] };
    p.t1(t);
    p.out
}

impl Printer<'_> {
    fn pct(&mut self, n: u32) -> bool {
        match &mut self.rng {
            Some(r) => r.pct(n),
            None => false,
        }
    }
    fn below(&mut self, n: usize) -> usize {
        match &mut self.rng {
            Some(r) => r.below(n),
            None => 0,
        }
    }

    /// At least one whitespace (or comment + newline).
    fn sp(&mut self) {
        if self.rng.is_none() {
            self.out.push(' ');
            return;
        }
        match self.below(14) {
            0 => self.out.push('\n'),
            1 => self.out.push_str("\r\n"),
            2 => self.out.push('\t'),
            3 => self.out.push_str("  \n "),
            4 => self.comment(),
            5 => {
                self.out.push(' ');
                self.comment();
                self.out.push(' ');
            }
            _ => self.out.push(' '),
        }
    }
    fn comment(&mut self) {
        const C: &[&str] = &[
            "", " note", " a = int", " \"unterminated", " [ { (", " é😀", ";;", " 'x", " // ~ & => ^", " 0x", " h'", " \\",
        ];
        self.out.push(';');
        let i = self.below(C.len());
        self.out.push_str(C[i]);
        let nl = if self.pct(25) { "\r\n" } else { "\n" };
        self.out.push_str(nl);
    }
    /// Optional whitespace; canonical form prints none.
    fn ows(&mut self) {
        if self.pct(22) {
            self.sp();
        }
    }
    /// Optional whitespace; canonical form prints one space.
    fn ows1(&mut self) {
        if self.rng.is_none() || self.pct(70) {
            self.sp();
        }
    }

    pub fn schema(&mut self, s: &Schema) {
        self.ows();
        for (i, r) in s.0.iter().enumerate() {
            if i > 0 {
                if self.rng.is_none() {
                    self.out.push('\n');
                } else {
                    self.sp();
                }
            }
            let a = self.out.len();
            self.rule(r);
            let b = self.out.len();
            self.spans.push((a, b));
        }
        if self.rng.is_none() {
            self.out.push('\n');
        } else {
            self.ows();
            if self.pct(10) {
                self.out.push_str("; the end");
            }
        }
    }

    fn rule(&mut self, r: &Rule) {
        self.out.push_str(&r.name);
        if !r.params.is_empty() {
            self.out.push('<');
            self.ows();
            for (i, p) in r.params.iter().enumerate() {
                if i > 0 {
                    self.out.push(',');
                    self.ows1();
                }
                self.out.push_str(p);
                self.ows();
            }
            self.out.push('>');
        }
        self.ows1();
        self.out.push('=');
        self.ows1();
        match &r.v {
            RV::T(t) => self.ty(t),
            RV::G(e) => self.ent(e, true),
        }
    }

    fn ty(&mut self, t: &Ty) {
        for (i, t1) in t.0.iter().enumerate() {
            if i > 0 {
                self.ows1();
                self.out.push('/');
                self.ows1();
            }
            self.t1(t1);
        }
    }

    pub fn t1(&mut self, t: &T1) {
        match t {
            T1::S(t) => self.t2(t),
            T1::R(a, incl, b) => {
                self.t2(a);
                self.op_gap();
                self.out.push_str(if *incl { ".." } else { "..." });
                self.ows();
                self.t2(b);
            }
            T1::C(a, op, b) => {
                self.t2(a);
                self.op_gap();
                self.out.push('.');
                self.out.push_str(op);
                self.sp_if_glued(b);
                self.t2(b);
            }
        }
    }
    /// Space before ".." or ".op": needed after a name (which could swallow
    /// the dots); optional after anything else.
    fn op_gap(&mut self) {
        let last = self.out.chars().last().unwrap_or(' ');
        if identish(last) {
            // a number also ends with an ident-ish character, and there the
            // space is optional for ranges, but it is always allowed.
            let tok: String = self.out.chars().rev().take_while(|c| identish(*c) || *c == '.' || *c == '-').collect();
            let first = tok.chars().last().unwrap_or('a');
            if (first.is_ascii_digit() || first == '-') && self.pct(50) {
                return;
            }
            self.sp();
        } else {
            self.ows1();
        }
    }
    fn sp_if_glued(&mut self, next: &T2) {
        // the operator name is an identifier, so anything that starts with an
        // identifier character (or that could extend it) needs a space.
        let glue_ok = matches!(next, T2::Paren(_) | T2::Map(_) | T2::Arr(_) | T2::Lit(Lit::T(_)));
        if glue_ok {
            self.ows1();
        } else {
            self.sp();
        }
    }

    fn args(&mut self, a: &[T1]) {
        if a.is_empty() {
            return;
        }
        self.out.push('<');
        self.ows();
        for (i, t) in a.iter().enumerate() {
            if i > 0 {
                self.out.push(',');
                self.ows1();
            }
            self.t1(t);
            self.ows();
        }
        self.out.push('>');
    }

    pub fn t2(&mut self, t: &T2) {
        match t {
            T2::Lit(l) => self.lit(l),
            T2::Name(n, a) => {
                self.out.push_str(n);
                self.args(a);
            }
            T2::Paren(t) => {
                self.out.push('(');
                self.ows();
                self.ty(t);
                self.ows();
                self.out.push(')');
            }
            T2::Map(g) => {
                self.out.push('{');
                self.ows1();
                self.group(g);
                self.ows1();
                self.out.push('}');
            }
            T2::Arr(g) => {
                self.out.push('[');
                self.ows();
                self.group(g);
                self.ows();
                self.out.push(']');
            }
            T2::Unwrap(n, a) => {
                self.out.push('~');
                self.ows();
                self.out.push_str(n);
                self.args(a);
            }
            T2::Ch(n, a) => {
                self.out.push('&');
                self.ows();
                self.out.push_str(n);
                self.args(a);
            }
            T2::ChIn(g) => {
                self.out.push('&');
                self.ows();
                self.out.push('(');
                self.ows();
                self.group(g);
                self.ows();
                self.out.push(')');
            }
        }
    }

    pub fn group(&mut self, g: &Grp) {
        for (i, c) in g.0.iter().enumerate() {
            if i > 0 {
                self.ows1();
                self.out.push_str("//");
                self.ows1();
            }
            for (j, e) in c.iter().enumerate() {
                if j > 0 {
                    // separator: comma and/or whitespace
                    if self.rng.is_none() {
                        self.out.push_str(", ");
                    } else {
                        match self.below(6) {
                            0 => self.sp(),
                            1 => {
                                self.sp();
                                self.out.push(',');
                                self.ows();
                            }
                            _ => {
                                self.out.push(',');
                                self.ows1();
                            }
                        }
                    }
                }
                self.ent(e, false);
            }
            if !c.is_empty() && self.pct(12) {
                self.ows();
                self.out.push(',');
            }
        }
    }

    fn uint(&mut self, n: u64) {
        if self.lits {
            match self.below(6) {
                0 => {
                    let s = format!("0x{:x}", n);
                    self.out.push_str(&s);
                    return;
                }
                1 => {
                    let s = format!("0x{:X}", n);
                    self.out.push_str(&s);
                    return;
                }
                2 => {
                    let s = format!("0b{:b}", n);
                    self.out.push_str(&s);
                    return;
                }
                3 => {
                    let s = format!("0x00{:x}", n);
                    self.out.push_str(&s);
                    return;
                }
                _ => {}
            }
        }
        self.out.push_str(&n.to_string());
    }

    /// `rule_level` is true for the right-hand side of `name = grpent`.
    fn ent(&mut self, e: &Ent, rule_level: bool) {
        if let Some(o) = &e.occ {
            match o {
                Occ::Opt => self.out.push('?'),
                Occ::Star => self.out.push('*'),
                Occ::Plus => self.out.push('+'),
                Occ::N(lo, hi) => {
                    // "0*" and "*" would be different trees, so an unlimited
                    // upper bound needs an explicit lower one.
                    let need_lo = *lo != 0 || *hi == usize::MAX;
                    if need_lo && rule_level {
                        panic!("rule-level occurrence with lower bound");
                    }
                    if need_lo || (!rule_level && self.pct(50)) {
                        self.uint(*lo as u64);
                    }
                    self.out.push('*');
                    if *hi != usize::MAX {
                        self.uint(*hi as u64);
                    } else if self.pct(10) {
                        self.uint(*hi as u64);
                    }
                }
            }
            // whitespace is needed whenever the following token could extend
            // the occurrence; printing one is always allowed.
            if matches!(o, Occ::Opt | Occ::Plus) {
                self.ows1();
            } else {
                self.sp();
            }
        }
        match &e.v {
            EV::M(None, t) => self.ty(t),
            EV::M(Some(k), t) => {
                match k {
                    Key::Bare(s) => {
                        self.out.push_str(s);
                        self.ows();
                        self.out.push(':');
                        self.ows1();
                    }
                    Key::Lit(l) => {
                        self.lit(l);
                        self.ows();
                        self.out.push(':');
                        self.ows1();
                    }
                    Key::T(t, cut) => {
                        self.t1(t);
                        self.ows1();
                        if *cut {
                            self.out.push('^');
                            self.ows1();
                        }
                        self.out.push_str("=>");
                        self.ows1();
                    }
                }
                self.ty(t);
            }
            EV::G(g) => {
                self.out.push('(');
                self.ows();
                self.group(g);
                // `(type)` is a parenthesized type, not a group; a trailing
                // comma makes it a group.
                if g.0.len() == 1
                    && g.0[0].len() == 1
                    && g.0[0][0].occ.is_none()
                    && matches!(g.0[0][0].v, EV::M(None, _))
                    && !self.out.ends_with(',')
                {
                    self.out.push(',');
                }
                self.ows();
                self.out.push(')');
            }
        }
    }

    pub fn lit(&mut self, l: &Lit) {
        match l {
            Lit::U(u) => self.uint(*u),
            Lit::N(n) => {
                self.out.push('-');
                self.uint(n.unsigned_abs());
            }
            Lit::F(f) => {
                let s = self.float(*f);
                self.out.push_str(&s);
            }
            Lit::T(t) => self.text(t),
            Lit::B(b) => self.bytes(b),
        }
    }

    fn float(&mut self, f: f64) -> String {
        let canon = format!("{:?}", f); // shortest round-trip form
        if !self.lits {
            return canon;
        }
        let k = self.below(6);
        match k {
            0 => format!("{:e}", f), // 1.5e0
            1 => {
                // 1.5e+0
                let s = format!("{:e}", f);
                if s.contains("e-") {
                    s
                } else {
                    s.replace('e', "e+")
                }
            }
            2 if f.abs() < 1e15 && f.abs() > 1e-3 => {
                let mut s = format!("{}", f);
                if !s.contains('.') {
                    s.push_str(".0");
                }
                s.push_str("00");
                s
            }
            3 => {
                let s = format!("{:e}", f);
                // leading zeros in the exponent are allowed (DIGIT+)
                if let Some(p) = s.find('e') {
                    let (m, e) = s.split_at(p);
                    let e = &e[1..];
                    match e.strip_prefix('-') {
                        Some(d) => format!("{}e-0{}", m, d),
                        None => format!("{}e0{}", m, e),
                    }
                } else {
                    s
                }
            }
            _ => canon,
        }
    }

    fn esc_u(&mut self, c: char) {
        let mut buf = [0u16; 2];
        for u in c.encode_utf16(&mut buf) {
            let s = if self.pct(50) { format!("\\u{:04x}", u) } else { format!("\\u{:04X}", u) };
            self.out.push_str(&s);
        }
    }

    fn chars(&mut self, t: &str, quote: char) {
        for c in t.chars() {
            let cv = c as u32;
            let plain = (0x20..=0x7e).contains(&cv) || (0x80..=0x10FFFD).contains(&cv);
            if c == '\\' {
                if self.pct(30) {
                    self.esc_u(c);
                } else {
                    self.out.push_str("\\\\");
                }
            } else if c == quote {
                if !self.pct(30) {
                    self.out.push('\\');
                    self.out.push(c);
                } else {
                    self.esc_u(c);
                }
            } else if !plain {
                match c {
                    '\n' if !self.pct(30) => self.out.push_str("\\n"),
                    '\r' if !self.pct(30) => self.out.push_str("\\r"),
                    '\t' if !self.pct(30) => self.out.push_str("\\t"),
                    '\u{8}' if !self.pct(30) => self.out.push_str("\\b"),
                    '\u{c}' if !self.pct(30) => self.out.push_str("\\f"),
                    _ => self.esc_u(c),
                }
            } else if self.lits && c == '/' && self.pct(30) {
                self.out.push_str("\\/");
            } else if self.lits && self.pct(4) {
                self.esc_u(c);
            } else {
                self.out.push(c);
            }
        }
    }

    fn text(&mut self, t: &str) {
        self.out.push('"');
        self.chars(t, '"');
        self.out.push('"');
    }

    fn bytes(&mut self, b: &[u8]) {
        let form = if self.lits { self.below(4) } else { 0 };
        match (form, std::str::from_utf8(b)) {
            (1, Ok(t)) => {
                self.out.push('\'');
                self.chars(t, '\'');
                self.out.push('\'');
            }
            (2, _) => {
                self.out.push_str("b64'");
                let s = b64url(b);
                self.out.push_str(&s);
                self.out.push('\'');
            }
            (f, _) => {
                self.out.push_str("h'");
                for x in b {
                    let s = if f == 3 { format!("{:02X}", x) } else { format!("{:02x}", x) };
                    for ch in s.chars() {
                        self.out.push(ch);
                        if self.lits && self.pct(8) {
                            self.out.push(' ');
                        }
                    }
                }
                self.out.push('\'');
            }
        }
    }
}

pub fn b64url(b: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let mut o = String::new();
    for c in b.chunks(3) {
        let n = (u32::from(c[0]) << 16) | (u32::from(*c.get(1).unwrap_or(&0)) << 8) | u32::from(*c.get(2).unwrap_or(&0));
        o.push(A[(n >> 18) as usize & 63] as char);
        o.push(A[(n >> 12) as usize & 63] as char);
        o.push(if c.len() > 1 { A[(n >> 6) as usize & 63] as char } else { '=' });
        o.push(if c.len() > 2 { A[n as usize & 63] as char } else { '=' });
    }
    o
}
