//! Schema generator and schema-directed data generator.
use crate::dict;
use crate::print::b64url;
use crate::rng::Rng;
use crate::s::*;
use crate::val::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    /// any type
    T,
    /// array type `[...]`
    A,
    /// map type `{...}`
    M,
    /// group for use in arrays
    GA,
    /// group for use in maps
    GM,
    /// integer literal
    C,
    /// alias of an integer prelude type (control operator target)
    NumAlias,
    /// group whose members are all single values (for `&`)
    GE,
    /// group whose members' values are map groups (for `&` in a map)
    GC,
}

#[derive(Clone, Debug)]
pub struct Sig {
    pub name: String,
    pub k: K,
    pub params: Vec<(String, K)>,
    pub recursive: bool,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    /// nesting budget
    pub depth: usize,
    pub rules: (usize, usize),
    pub root: K,
    pub w_lit: u32,
    pub w_pre: u32,
    pub w_name: u32,
    pub w_paren: u32,
    pub w_arr: u32,
    pub w_map: u32,
    pub w_range: u32,
    pub w_ctl: u32,
    pub w_regexp: u32,
    pub w_cbor: u32,
    pub w_choiceify: u32,
    /// percentage of map members that are a group-to-choice conversion
    pub map_choiceify: u32,
    /// percentage of rules with generic parameters
    pub generics: u32,
    pub unwrap: u32,
    /// percentages
    pub choice: u32,
    pub grp_choice: u32,
    pub nested_grp: u32,
    pub occ: u32,
    pub cut: u32,
    pub lit_key: u32,
    pub recursion: u32,
    /// only data that JSON can represent
    pub json: bool,
    pub odd_names: u32,
    /// chance (percent) of oversized pieces
    pub big: u32,
}

impl Cfg {
    pub fn base() -> Cfg {
        Cfg {
            depth: 4,
            rules: (1, 6),
            root: K::T,
            w_lit: 20,
            w_pre: 34,
            w_name: 22,
            w_paren: 5,
            w_arr: 12,
            w_map: 12,
            w_range: 4,
            w_ctl: 5,
            w_regexp: 1,
            w_cbor: 1,
            w_choiceify: 2,
            map_choiceify: 2,
            generics: 15,
            unwrap: 8,
            choice: 25,
            grp_choice: 20,
            nested_grp: 22,
            occ: 38,
            cut: 50,
            lit_key: 55,
            recursion: 8,
            json: false,
            odd_names: 6,
            big: 4,
        }
    }

    /// More of what the sources mention more often than they used to.  What
    /// a property leaves out stays out.
    fn boosted(&self) -> Cfg {
        let mut c = self.clone();
        let up = |w: &mut u32, words: &[&str], max: u32| {
            if dict::any_hot(words) {
                *w = (*w * 4).min(max.max(*w));
            }
        };
        up(&mut c.w_lit, &["Literal"], 100);
        up(&mut c.w_pre, &["PreludeType"], 100);
        up(&mut c.w_name, &["Rule", "Typename", "Context"], 100);
        up(&mut c.w_paren, &["Parethesized"], 60);
        up(&mut c.w_arr, &["Array"], 60);
        up(&mut c.w_map, &["Map", "KeyValue"], 60);
        up(&mut c.w_range, &["Range"], 60);
        up(&mut c.w_ctl, &["Control", "Size", "Lt", "Le", "Gt", "Ge", "CtlOpSize"], 60);
        up(&mut c.w_regexp, &["Regexp", "RegexBuilder"], 30);
        up(&mut c.w_cbor, &["Cbor", "CtlOpCbor"], 30);
        up(&mut c.w_choiceify, &["Choiceify", "ChoiceifyInline"], 40);
        up(&mut c.map_choiceify, &["Choiceify", "ChoiceifyInline"], 30);
        up(&mut c.generics, &["GenericError", "GenericMap"], 60);
        up(&mut c.unwrap, &["Unwrap"], 40);
        up(&mut c.choice, &["Choice", "Type"], 70);
        up(&mut c.grp_choice, &["Choice", "GrpChoice", "Group"], 60);
        up(&mut c.nested_grp, &["Group", "Parenthesized"], 60);
        up(&mut c.occ, &["Occur", "OccurLimit", "Numbered"], 80);
        up(&mut c.cut, &["MapCut"], 80);
        c
    }
}

pub fn pick_int(r: &mut Rng, json: bool) -> i128 {
    match r.below(20) {
        0..=13 => i128::from(r.irange(-3, 6)),
        14..=16 => {
            let n = i128::from(*r.pick(dict::nums()));
            if r.pct(25) {
                let m = -n;
                if m < i128::from(i64::MIN) && json {
                    n
                } else {
                    m
                }
            } else {
                n
            }
        }
        _ => {
            const B: &[i128] = &[
                0, 1, -1, 23, 24, 25, -24, -25, 127, 128, 255, 256, 257, -255, -256, -257, 65535, 65536, 65537, -65536, -65537,
                (1 << 31) - 1, 1 << 31, -(1 << 31), -(1 << 31) - 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, -(1 << 32), -(1 << 32) - 1,
                (1 << 53) - 1, 1 << 53, (1 << 53) + 1, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, (1 << 64) - 1, -(1 << 63), -(1 << 63) + 1,
                (1 << 16) * 3, (1 << 24) - 1, 1 << 24, (1 << 40) - 1, 1 << 40, (1 << 48) - 1, 1 << 48, (1 << 56) - 1, 1 << 56,
            ];
            *r.pick(B)
        }
    }
}
/// Within what a literal can express.
pub fn pick_lit_int(r: &mut Rng) -> i128 {
    pick_int(r, true)
}
/// Data can also be below i64::MIN in CBOR.
pub fn pick_val_int(r: &mut Rng, json: bool) -> i128 {
    if !json && r.pct(2) {
        return *r.pick(&[-(1i128 << 64), -(1i128 << 64) + 1, -(1i128 << 63) - 1, -(1i128 << 63) - 2, -(1i128 << 63)]);
    }
    pick_int(r, json)
}

pub fn pick_float(r: &mut Rng) -> f64 {
    match r.below(8) {
        0..=4 => r.irange(-24, 40) as f64 / 8.0 + 0.0,
        5 => *r.pick(&[1.0, 0.0, -1.0, 0.5, 1.5, 2.0]),
        6 => *r.pick(&[65504.0, 65505.0, 100000.0, 3.4028234663852886e38, 5.960464477539063e-8, 16777217.0]),
        _ => match r.below(4) {
            0 => {
                let f = f64::from_bits(r.u64());
                if f.is_finite() && f.abs() > 1e-290 {
                    f
                } else {
                    0.1
                }
            }
            1 => format!("{}e{}", r.irange(-999, 999), r.irange(-30, 40)).parse::<f64>().unwrap() + 0.0,
            _ => *r.pick(&[1e10, 1e-3, 9007199254740993.0, 18446744073709551616.0, 4294967296.5, -9223372036854775808.0, 1e300, 2.5e-5]),
        },
    }
}

pub fn pick_text(r: &mut Rng) -> String {
    match r.below(16) {
        0..=10 => r.pick(&["a", "b", "c", "d", "", "ab", "aa", "k1"]).to_string(),
        11 => r.pick(&["é", "日本", "😀", "a\"b", "\\", "/", "\n", "\u{7f}", "\u{e000}", "x\u{0}y", "tab\t", "\u{10FFFD}", " ", "'", ";"]).to_string(),
        12 => r.pick(&["int", "tstr", "foo", "true", "null", "1", "-1", "1.0", "0x1", "h'00'"]).to_string(),
        13 => {
            let n = r.range(1, 6);
            (0..n).map(|_| *r.pick(&['a', 'b', 'c', 'x', '0', '1', 'é', 'Z'])).collect()
        }
        14 => {
            let s = r.pick(dict::strs()).clone();
            match r.below(6) {
                0 => s + "a",
                1 => "a".to_string() + &s,
                2 => format!("a{}b", s),
                _ => s,
            }
        }
        _ => {
            let max = if r.pct(10) { 3000 } else { 400 };
            let n = *r.pick(&dict::small(max)) as usize;
            let c = *r.pick(&['a', 'b', 'é', '😀']);
            let s: String = std::iter::repeat(c).take(n / c.len_utf8()).collect();
            let pad = n - s.len();
            s + &"z".repeat(pad)
        }
    }
}

pub fn pick_bytes(r: &mut Rng) -> Vec<u8> {
    match r.below(10) {
        0..=5 => r.pick(&[&b""[..], b"a", b"b", b"\x00", b"\x01", b"\xff\xfe", b"abc", b"\x83\x01\x02\x03"]).to_vec(),
        6 => cbor_bytes(&Val::Int(i128::from(r.irange(-3, 6)))),
        7 => {
            let n = *r.pick(&dict::small(400)) as usize;
            (0..n).map(|i| i as u8).collect()
        }
        _ => {
            let n = r.range(0, 9);
            (0..n).map(|_| r.u64() as u8).collect()
        }
    }
}

pub fn pick_key_name(r: &mut Rng) -> String {
    match r.below(12) {
        0..=8 => r.pick(&["a", "b", "c", "d", "e"]).to_string(),
        9 => r.pick(&["int", "tstr", "any", "foo", "x-y", "a.b", "@q", "_z", "$d", "true", "false", "bool", "null", "nil", "uint", "float"]).to_string(),
        10 if r.pct(90) => r.pick(dict::idents()).clone(),
        10 => "k".repeat(*r.pick(&dict::small(300)) as usize + 1),
        _ => format!("k{}", r.below(40)),
    }
}

/// A literal for a key.
pub fn pick_key_lit(r: &mut Rng, json: bool) -> Lit {
    match r.below(if json { 4 } else { 10 }) {
        0..=1 => Lit::T(pick_text(r)),
        2..=3 => Lit::T(pick_key_name(r)),
        4..=6 => int(pick_lit_int(r)),
        7..=8 => Lit::F(pick_float(r) + 0.0),
        _ => Lit::B(pick_bytes(r)),
    }
}

pub fn pick_lit(r: &mut Rng, json: bool) -> Lit {
    match r.below(if json { 8 } else { 10 }) {
        0..=3 => int(pick_lit_int(r)),
        4..=6 => Lit::T(pick_text(r)),
        7 => {
            let mut f = pick_float(r);
            if f == 0.0 {
                f = 0.0;
            }
            Lit::F(f)
        }
        _ => Lit::B(pick_bytes(r)),
    }
}

pub struct Gen<'r> {
    pub r: &'r mut Rng,
    pub cfg: Cfg,
    pub sigs: Vec<Sig>,
    cur: usize,
    params: Vec<(String, K)>,
    arg_depth: usize,
}

/// A limit near a power of two.
fn huge(r: &mut Rng) -> usize {
    let b = 1usize << *r.pick(&[7, 8, 10, 15, 16, 20, 24, 31, 32, 33, 48, 52, 53, 62, 63]);
    match r.below(5) {
        0 => b - 1,
        1 | 2 => b,
        3 => b + r.range(1, 4),
        _ => usize::MAX - r.below(3),
    }
}

fn occ_gen(r: &mut Rng, big: u32) -> Occ {
    match r.below(10) {
        0..=2 => Occ::Opt,
        3..=4 => Occ::Star,
        5 => Occ::Plus,
        _ => {
            if r.pct(big) {
                let a = *r.pick(&dict::small(300)) as usize;
                let b = match r.below(3) {
                    0 => a,
                    1 => a + r.below(3),
                    _ => usize::MAX,
                };
                return if r.pct(50) { Occ::N(a, b) } else { Occ::N(0, a) };
            }
            if r.pct(4) {
                let h = huge(r);
                return match r.below(4) {
                    0 => Occ::N(h, usize::MAX),
                    1 => Occ::N(h, huge(r)),
                    _ => Occ::N(r.range(0, 2), h),
                };
            }
            match r.below(10) {
                0 => Occ::N(0, r.range(0, 3)),
                1 => Occ::N(r.range(0, 3), usize::MAX),
                2 => Occ::N(r.range(1, 3), r.range(0, 2)),
                3 => {
                    let n = r.range(0, 4);
                    Occ::N(n, n)
                }
                _ => {
                    let a = r.range(0, 3);
                    Occ::N(a, a + r.range(0, 3))
                }
            }
        }
    }
}

impl Gen<'_> {
    fn name_for(r: &mut Rng, i: usize, odd: u32) -> String {
        if r.pct(odd) {
            if r.pct(8) {
                return format!("n{}{}", "x".repeat(*r.pick(&dict::small(300)) as usize), i);
            }
            if r.pct(20) {
                let d = r.pick(dict::idents());
                // never the name of another rule or of a parameter
                let sep = if d.len() < 3 || d.ends_with(|c: char| c.is_ascii_digit()) { "_" } else { "" };
                let n = format!("{}{}{}", d, sep, i);
                if matches!(crate::model::prelude(&n), crate::model::Pre::NotPrelude) {
                    return n;
                }
            }
            let pre = r.pick(&["my-type", "a.b", "@at", "_under", "$sock", "int8", "tstring", "X", "t--1", "nulls", "anything", "b64", "h"]);
            format!("{}{}", pre, i)
        } else {
            format!("t{}", i)
        }
    }

    /// Generate a schema whose root rule is `t0` (or an odd name); returns
    /// the schema (in random rule order) and the root's name.
    pub fn schema(r: &mut Rng, cfg: &Cfg) -> (Schema, String, Vec<Sig>) {
        let cfg = &if r.pct(40) { cfg.boosted() } else { cfg.clone() };
        let n = if r.pct(cfg.big) { r.range(cfg.rules.1, cfg.rules.1 * 4 + 4) } else { r.range(cfg.rules.0, cfg.rules.1) };
        let mut sigs = vec![];
        for i in 0..n {
            let k = if i == 0 {
                cfg.root
            } else {
                let ch = if cfg.w_choiceify > 0 { 6 } else { 0 };
                let un = if cfg.unwrap > 0 { 10 } else { 4 };
                let gc = if cfg.map_choiceify == 0 { 0 } else { 1 + cfg.map_choiceify / 3 };
                kind(r, un, ch, gc)
            };
            let name = Self::name_for(r, i, cfg.odd_names);
            let mut params = vec![];
            if i > 0 && k != K::C && k != K::NumAlias && r.pct(cfg.generics) {
                let np = if r.pct(8) { dict::count(r, 3, 6, 20, 14) } else { r.range(1, 2) };
                for j in 0..np {
                    let pk = *r.pick(&[K::T, K::T, K::T, K::C, K::GA, K::GM, K::A, K::M]);
                    params.push((format!("p{}", j), pk));
                }
                if r.pct(30) {
                    // sometimes a parameter hides a rule of the same name
                    let j = r.below(params.len());
                    let other = format!("t{}", r.below(n));
                    if params.iter().all(|p| p.0 != other) {
                        params[j].0 = other;
                    }
                }
            }
            let recursive = r.pct(cfg.recursion);
            sigs.push(Sig { name, k, params, recursive });
        }
        let mut g = Gen { r, cfg: cfg.clone(), sigs: sigs.clone(), cur: 0, params: vec![], arg_depth: 0 };
        let mut rules = vec![];
        for i in 0..n {
            rules.push(g.rule(i));
        }
        let root = sigs[0].name.clone();
        g.r.shuffle(&mut rules);
        (Schema(rules), root, sigs)
    }

    fn rule(&mut self, i: usize) -> Rule {
        self.cur = i;
        let sig = self.sigs[i].clone();
        self.params = sig.params.clone();
        let d = self.cfg.depth;
        if i == 0 && self.cfg.generics > 50 && self.r.pct(65) {
            if let Some(t) = self.uses(sig.k) {
                return self.fin(sig, RV::T(ty1(T1::S(t))));
            }
        }
        let v = match sig.k {
            K::T => RV::T(self.ty(d)),
            K::A => {
                if self.r.pct(12) {
                    if let Some(t) = self.named(K::A) {
                        return self.fin(sig, RV::T(ty1(T1::S(t))));
                    }
                }
                RV::T(ty1(T1::S(T2::Arr(self.agrp(d)))))
            }
            K::M => {
                if self.r.pct(12) {
                    if let Some(t) = self.named(K::M) {
                        return self.fin(sig, RV::T(ty1(T1::S(t))));
                    }
                }
                RV::T(ty1(T1::S(T2::Map(self.mgrp(d)))))
            }
            K::GA => {
                let mut e = Ent { occ: None, v: EV::G(self.agrp(d)) };
                if self.r.pct(8) {
                    e.occ = Some(self.rule_occ());
                    if self.r.pct(40) {
                        e.v = EV::M(None, self.ty(1));
                    }
                }
                RV::G(e)
            }
            K::GM => {
                let mut e = Ent { occ: None, v: EV::G(self.mgrp(d)) };
                if self.r.pct(8) {
                    e.occ = Some(self.rule_occ());
                }
                RV::G(e)
            }
            K::C => {
                let v = if self.r.pct(60) { i128::from(self.r.irange(0, 6)) } else { pick_lit_int(self.r) };
                RV::T(ty1(tlit(int(v))))
            }
            K::NumAlias => {
                let n = *self.r.pick(&["int", "uint", "nint", "tstr", "bstr"]);
                RV::T(tyname(n))
            }
            K::GE => {
                let n = self.r.range(1, 4);
                let mut es = vec![];
                for _ in 0..n {
                    let v = self.value_ty(1);
                    let sub = if self.r.pct(25) { self.named(K::GE) } else { None };
                    es.push(match sub {
                        Some(t) => member(T1::S(t)),
                        None if self.r.pct(33) => member(self.leaf()),
                        None => kv(self.enum_key(), v),
                    });
                }
                RV::G(grp(es))
            }
            K::GC => {
                if self.r.pct(15) {
                    if let Some(t) = self.named(K::GC) {
                        return self.fin(sig, RV::T(ty1(T1::S(t))));
                    }
                }
                RV::G(Ent { occ: None, v: EV::G(self.gcgrp(2)) })
            }
        };
        self.fin(sig, v)
    }
    /// What a group-to-choice conversion in a map is applied to.
    /// The key of a member that stands for its value.
    fn enum_key(&mut self) -> Key {
        let json = self.cfg.json;
        match self.r.below(8) {
            0 | 1 => Key::T(tlit(pick_key_lit(self.r, json)), self.r.pct(40)),
            2 => Key::T(self.leaf(), self.r.pct(40)),
            3 => Key::Lit(pick_key_lit(self.r, json)),
            _ => Key::Bare(pick_key_name(self.r)),
        }
    }
    fn gcgrp(&mut self, d: usize) -> Grp {
        let n = self.r.range(1, 5);
        let mut es = vec![];
        for _ in 0..n {
            let t = if self.r.pct(15) {
                match self.named(K::M) {
                    Some(T2::Name(n, a)) => Some(T2::Unwrap(n, a)),
                    _ => None,
                }
            } else {
                self.named(K::GM)
            };
            es.push(match t {
                Some(t) => {
                    let mut ts = vec![T1::S(t)];
                    if self.r.pct(15) {
                        ts.extend(self.named(K::GM).map(T1::S));
                    }
                    if self.r.pct(10) {
                        ts = vec![T1::S(T2::Paren(Ty(ts)))];
                    }
                    kv(self.enum_key(), Ty(ts))
                }
                None => Ent { occ: None, v: EV::G(self.mgrp(d.saturating_sub(1))) },
            });
        }
        Grp(vec![es])
    }
    /// A type made of nothing but uses of names.
    fn uses(&mut self, k: K) -> Option<T2> {
        let n = self.r.range(1, 3);
        match k {
            K::T if n == 1 => self.named(K::T),
            K::T => Some(T2::Paren(Ty((0..n).filter_map(|_| self.named(K::T).map(T1::S)).collect()))).filter(|t| !matches!(t, T2::Paren(t) if t.0.is_empty())),
            K::A => {
                let mut es = vec![];
                for _ in 0..n {
                    let m = match self.r.below(4) {
                        0 | 1 => self.named(K::T),
                        2 => self.named(K::GA),
                        _ => self.named(K::A).map(|t| match t {
                            T2::Name(n, a) => T2::Unwrap(n, a),
                            t => t,
                        }),
                    };
                    if let Some(t) = m {
                        let e = member(T1::S(t));
                        es.push(if self.r.pct(40) { occ(occ_gen(self.r, 0), e) } else { e });
                    }
                }
                (!es.is_empty()).then_some(T2::Arr(Grp(vec![es])))
            }
            K::M => {
                let mut es = vec![];
                for _ in 0..n {
                    let e = match self.r.below(5) {
                        0 | 1 => self.named(K::T).map(|t| kv(Key::Bare(pick_key_name(self.r)), ty1(T1::S(t)))),
                        2 => match (self.named(K::T), self.named(K::T)) {
                            (Some(a), Some(b)) => Some(kv(Key::T(T1::S(a), self.r.pct(50)), ty1(T1::S(b)))),
                            _ => None,
                        },
                        3 => self.named(K::GM).map(|t| member(T1::S(t))),
                        _ => self.named(K::M).map(|t| {
                            member(T1::S(match t {
                                T2::Name(n, a) => T2::Unwrap(n, a),
                                t => t,
                            }))
                        }),
                    };
                    if let Some(e) = e {
                        es.push(if self.r.pct(40) { occ(occ_gen(self.r, 0), e) } else { e });
                    }
                }
                (!es.is_empty()).then_some(T2::Map(Grp(vec![es])))
            }
            _ => None,
        }
    }
    fn fin(&self, sig: Sig, v: RV) -> Rule {
        Rule { name: sig.name, params: sig.params.into_iter().map(|p| p.0).collect(), v }
    }
    fn rule_occ(&mut self) -> Occ {
        match self.r.below(4) {
            0 => Occ::Opt,
            1 => Occ::Star,
            2 => Occ::Plus,
            _ => Occ::N(0, self.r.range(0, 3)),
        }
    }

    /// A reference to a rule or parameter of the given kind, if any is usable.
    fn named(&mut self, k: K) -> Option<T2> {
        let ps: Vec<String> = self.params.iter().filter(|p| p.1 == k).map(|p| p.0.clone()).collect();
        let shadow: Vec<String> = self.params.iter().map(|p| p.0.clone()).collect();
        let rs: Vec<usize> = (0..self.sigs.len())
            .filter(|i| {
                let s = &self.sigs[*i];
                (*i > self.cur || (self.sigs[self.cur].recursive && matches!(k, K::T | K::A | K::M) && s.params.is_empty()))
                    && (s.k == k || (k == K::T && matches!(s.k, K::A | K::M | K::C | K::NumAlias)))
                    && !shadow.contains(&s.name)
                    && (self.arg_depth < 3 || s.params.is_empty())
            })
            .collect();
        if !ps.is_empty() && (rs.is_empty() || self.r.pct(70)) {
            return Some(name(self.r.pick(&ps).as_str()));
        }
        if rs.is_empty() {
            return None;
        }
        let mut i = *self.r.pick(&rs);
        if self.cfg.generics > 50 && self.r.pct(60) {
            // prefer rules with parameters
            let gs: Vec<usize> = rs.iter().copied().filter(|i| !self.sigs[*i].params.is_empty()).collect();
            if !gs.is_empty() {
                i = *self.r.pick(&gs);
            }
        }
        let s = self.sigs[i].clone();
        let mut args = vec![];
        self.arg_depth += 1;
        for (_, pk) in &s.params {
            match self.arg(*pk) {
                Some(a) => args.push(a),
                None => {
                    self.arg_depth -= 1;
                    return None;
                }
            }
        }
        self.arg_depth -= 1;
        Some(T2::Name(s.name, args))
    }
    fn arg(&mut self, k: K) -> Option<T1> {
        match k {
            K::T => Some(match self.r.below(8) {
                0 => T1::S(T2::Arr(Grp(vec![vec![occ(Occ::Star, member(self.leaf()))]]))),
                1 => T1::S(T2::Paren(Ty(vec![self.leaf(), self.leaf()]))),
                2 => T1::S(T2::Map(Grp(vec![vec![kv(Key::Bare(pick_key_name(self.r)), ty1(self.leaf()))]]))),
                3 => match self.named(K::T) {
                    Some(t) => T1::S(t),
                    None => self.leaf(),
                },
                4 if self.arg_depth < 2 => self.t1(1),
                _ => self.leaf(),
            }),
            K::C => Some(match self.named(K::C) {
                Some(t) if self.r.pct(40) => T1::S(t),
                _ => tlit(int(i128::from(self.r.irange(0, 6)))),
            }),
            k => Some(T1::S(self.named(k)?)),
        }
    }

    pub fn leaf(&mut self) -> T1 {
        let json = self.cfg.json;
        if self.r.pct(40) {
            tlit(pick_lit(self.r, json))
        } else {
            T1::S(self.prelude())
        }
    }
    fn prelude(&mut self) -> T2 {
        if self.r.pct(25) {
            let json = self.cfg.json;
            let mut n: Vec<&str> = vec![];
            for (w, names) in [(&["Nil", "Null"][..], &["nil"][..]), (&["Bool"], &["bool", "true", "false"]), (&["Uint"], &["uint"]), (&["Nint"], &["nint"]), (&["Int", "Integer"], &["int"]), (&["Float"], &["float"]), (&["Tstr", "Text"], &["tstr"]), (&["Bstr", "Bytes"], &["bstr"]), (&["Any"], &["any"])] {
                if dict::any_hot(w) && !(json && names[0] == "bstr") {
                    n.extend(names);
                }
            }
            if !n.is_empty() {
                return name(self.r.pick(&n));
            }
        }
        let n = match self.r.below(20) {
            0..=3 => "int",
            4..=5 => "uint",
            6 => "nint",
            7..=10 => *self.r.pick(&["tstr", "text"]),
            11 => {
                if self.cfg.json {
                    "bool"
                } else {
                    *self.r.pick(&["bstr", "bytes"])
                }
            }
            12 => "bool",
            13 => *self.r.pick(&["nil", "null"]),
            14 => *self.r.pick(&["float", "float16", "float32", "float64", "float16-32", "float32-64"]),
            15 => "any",
            16 => *self.r.pick(&["true", "false"]),
            17 => *self.r.pick(&["tdate", "uri", "b64url", "encoded-cbor", "eb16", "biguint", "regexp"]),
            _ => "int",
        };
        name(n)
    }

    /// A type (possibly a choice) for a single value.
    pub fn value_ty(&mut self, d: usize) -> Ty {
        self.ty(d)
    }
    pub fn ty(&mut self, d: usize) -> Ty {
        let n = if self.r.pct(self.cfg.choice) {
            if self.r.pct(10) {
                if self.r.pct(15) {
                    return self.wide_ty();
                }
                self.r.range(4, 8)
            } else {
                self.r.range(2, 3)
            }
        } else {
            1
        };
        Ty((0..n).map(|_| self.t1(d)).collect())
    }
    /// A choice of many small alternatives.
    fn wide_ty(&mut self) -> Ty {
        let n = dict::count(self.r, 9, 20, 60, 70);
        let mut v: Vec<T1> = (0..n).map(|i| if self.r.pct(70) { tlit(int(i as i128)) } else { tlit(pick_lit(self.r, self.cfg.json)) }).collect();
        if self.r.pct(50) {
            self.r.shuffle(&mut v);
        }
        Ty(v)
    }
    pub fn t1(&mut self, d: usize) -> T1 {
        if d == 0 {
            return self.leaf();
        }
        let c = &self.cfg;
        let ws = [
            c.w_lit, c.w_pre, c.w_name, c.w_paren, c.w_arr, c.w_map, c.w_range, c.w_ctl, c.w_regexp, c.w_cbor, c.w_choiceify,
        ];
        let json = c.json;
        match self.r.weighted(&ws) {
            0 => tlit(pick_lit(self.r, json)),
            1 => T1::S(self.prelude()),
            2 => match self.named(K::T) {
                Some(t) => T1::S(t),
                None => self.leaf(),
            },
            3 => T1::S(T2::Paren(self.ty(d - 1))),
            4 => T1::S(T2::Arr(self.agrp(d - 1))),
            5 => T1::S(T2::Map(self.mgrp(d - 1))),
            6 => self.range(),
            7 => self.ctl(),
            8 => self.regexp(),
            9 => {
                if json {
                    return self.leaf();
                }
                let a = match self.r.below(4) {
                    0 => T2::Paren(self.ty(d - 1)),
                    1 => T2::Arr(self.agrp(d - 1)),
                    2 => T2::Map(self.mgrp(d - 1)),
                    _ => match self.named(K::T) {
                        Some(t) => t,
                        None => self.prelude(),
                    },
                };
                T1::C(name(self.r.pick(&["bstr", "bytes"])), "cbor".into(), a)
            }
            _ => match self.named(K::GE) {
                Some(T2::Name(n, a)) if self.r.pct(70) => T1::S(T2::Ch(n, a)),
                _ => {
                    let n = self.r.range(1, 4);
                    let mut es = vec![];
                    for _ in 0..n {
                        let v = self.ty(d - 1);
                        let sub = if self.r.pct(25) { self.named(K::GE) } else { None };
                        es.push(match sub {
                            Some(t) => member(T1::S(t)),
                            None if self.r.pct(33) => tlit_ent(pick_lit(self.r, json)),
                            None => {
                                let k = self.enum_key();
                                kv(k, v)
                            }
                        });
                    }
                    T1::S(T2::ChIn(Grp(vec![es])))
                }
            },
        }
    }

    fn const_t2(&mut self, v: i128) -> T2 {
        if self.r.pct(25) {
            if let Some(t) = self.named(K::C) {
                return t;
            }
        }
        T2::Lit(int(v))
    }
    pub fn range(&mut self) -> T1 {
        let incl = self.r.pct(60);
        if self.r.pct(20) {
            let a = pick_float(self.r);
            let b = if self.r.pct(80) { a + self.r.below(20) as f64 / 8.0 } else { pick_float(self.r) };
            let (a, b) = (a + 0.0, b + 0.0);
            return T1::R(T2::Lit(Lit::F(a)), incl, T2::Lit(Lit::F(b)));
        }
        let a = pick_lit_int(self.r);
        let b = if self.r.pct(75) {
            (a + i128::from(self.r.irange(0, 5))).min(i128::from(u64::MAX))
        } else {
            pick_lit_int(self.r)
        };
        T1::R(self.const_t2(a), incl, self.const_t2(b))
    }
    pub fn ctl(&mut self) -> T1 {
        let json = self.cfg.json;
        match self.r.below(10) {
            0..=4 => {
                let tgt = if json {
                    *self.r.pick(&["tstr", "text", "uint"])
                } else {
                    *self.r.pick(&["tstr", "bstr", "uint", "bytes", "text"])
                };
                let lim = |r: &mut Rng| -> i128 {
                    if r.pct(80) {
                        i128::from(r.irange(0, 5))
                    } else if r.pct(70) {
                        i128::from(*r.pick(&dict::small(400)))
                    } else {
                        *r.pick(&[8, 9, 16, 17, 255, (1 << 64) - 1, 1 << 63])
                    }
                };
                let a = lim(self.r);
                let arg = match self.r.below(4) {
                    0 => {
                        let b = if self.r.pct(80) { (a + i128::from(self.r.irange(0, 4))).min((1 << 64) - 1) } else { lim(self.r) };
                        T2::Paren(ty1(T1::R(T2::Lit(int(a)), self.r.pct(60), T2::Lit(int(b)))))
                    }
                    1 => T2::Lit(int(a)),
                    _ => self.const_t2(a),
                };
                // A constant rule may be negative; that is a schema error,
                // so use a literal half of the time.
                let arg = match arg {
                    T2::Name(..) if self.r.pct(50) => T2::Lit(int(a)),
                    x => x,
                };
                let tgt = self.ctl_target(name(tgt));
                T1::C(tgt, "size".into(), arg)
            }
            _ => {
                let op = *self.r.pick(&["lt", "le", "gt", "ge"]);
                let tgt = name(self.r.pick(&["int", "uint", "nint"]));
                let v = pick_lit_int(self.r);
                let arg = self.const_t2(v);
                let tgt = self.ctl_target(tgt);
                T1::C(tgt, op.into(), arg)
            }
        }
    }
    fn ctl_target(&mut self, t: T2) -> T2 {
        if self.r.pct(15) {
            if let Some(t) = self.named(K::NumAlias) {
                return t;
            }
        }
        t
    }
    pub fn regexp(&mut self) -> T1 {
        let p = regex_pattern(self.r, 2);
        T1::C(name(self.r.pick(&["tstr", "text"])), "regexp".into(), T2::Lit(Lit::T(p)))
    }

    // ---- array groups --------------------------------------------------------
    pub fn agrp(&mut self, d: usize) -> Grp {
        let n = if self.r.pct(self.cfg.grp_choice) {
            if self.r.pct(2) {
                let n = dict::count(self.r, 4, 12, 50, 40);
                return Grp((0..n).map(|_| vec![self.aent(0)]).collect());
            }
            self.r.range(2, 3)
        } else {
            1
        };
        Grp((0..n).map(|_| self.aseq(d)).collect())
    }
    fn seq_len(&mut self) -> usize {
        if self.r.pct(self.cfg.big) {
            return dict::count(self.r, 4, 12, 8, 40);
        }
        match self.r.below(20) {
            0 => 0,
            1..=7 => 1,
            8..=13 => 2,
            14..=17 => 3,
            _ => 4,
        }
    }
    fn aseq(&mut self, d: usize) -> Vec<Ent> {
        let n = self.seq_len();
        (0..n).map(|_| self.aent(d)).collect()
    }
    fn aent(&mut self, d: usize) -> Ent {
        let o = if self.r.pct(self.cfg.occ) { Some(occ_gen(self.r, self.cfg.big)) } else { None };
        let v = if d > 0 && self.r.pct(self.cfg.nested_grp) {
            match self.r.below(4) {
                0..=1 => EV::G(self.agrp(d - 1)),
                2 => match self.named(K::GA) {
                    Some(t) => EV::M(None, ty1(T1::S(t))),
                    None => EV::G(self.agrp(d - 1)),
                },
                _ => match (self.named(K::GA), self.named(K::GA)) {
                    (Some(a), Some(b)) => {
                        let mut ts = vec![T1::S(a), T1::S(b)];
                        if self.r.pct(40) {
                            ts.push(self.leaf());
                            self.r.shuffle(&mut ts);
                        }
                        if self.r.pct(40) {
                            EV::M(None, ty1(T1::S(T2::Paren(Ty(ts)))))
                        } else {
                            EV::M(None, Ty(ts))
                        }
                    }
                    _ => EV::G(self.agrp(d - 1)),
                },
            }
        } else if self.r.pct(self.cfg.unwrap) {
            match self.named(K::A) {
                Some(T2::Name(n, a)) => {
                    let mut ts = vec![T1::S(T2::Unwrap(n, a))];
                    if self.r.pct(25) {
                        if let Some(T2::Name(n, a)) = self.named(K::A) {
                            ts.push(T1::S(T2::Unwrap(n, a)));
                        } else {
                            ts.push(self.leaf());
                        }
                    }
                    EV::M(None, Ty(ts))
                }
                _ => EV::M(None, self.ty(d.saturating_sub(1))),
            }
        } else if self.r.pct(15) {
            let k = if self.r.pct(80) { Key::Bare(pick_key_name(self.r)) } else { Key::T(self.leaf(), self.r.pct(50)) };
            EV::M(Some(k), self.ty(d.saturating_sub(1)))
        } else {
            EV::M(None, self.ty(d.saturating_sub(1)))
        };
        Ent { occ: o, v }
    }

    // ---- map groups -------------------------------------------------------
    pub fn mgrp(&mut self, d: usize) -> Grp {
        let n = if self.r.pct(self.cfg.grp_choice) {
            if self.r.pct(2) {
                let n = dict::count(self.r, 4, 12, 50, 40);
                return Grp((0..n).map(|_| vec![self.ment(0)]).collect());
            }
            self.r.range(2, 3)
        } else {
            1
        };
        Grp((0..n).map(|_| self.mseq(d)).collect())
    }
    fn mseq(&mut self, d: usize) -> Vec<Ent> {
        let n = self.seq_len();
        (0..n).map(|_| self.ment(d)).collect()
    }
    fn key(&mut self) -> Key {
        let json = self.cfg.json;
        let cut = self.r.pct(self.cfg.cut);
        if self.r.pct(self.cfg.lit_key) {
            match self.r.below(10) {
                0..=5 => Key::Bare(pick_key_name(self.r)),
                6 => Key::Lit(Lit::T(pick_key_name(self.r))),
                7 => Key::Lit(pick_key_lit(self.r, json)),
                8 => Key::T(tlit(Lit::T(pick_key_name(self.r))), cut),
                _ => Key::T(tlit(pick_key_lit(self.r, json)), cut),
            }
        } else {
            let t = match self.r.below(12) {
                0..=4 => tname("tstr"),
                5 => tname("any"),
                6 if !json => tname(self.r.pick(&["int", "uint", "nint", "bstr", "float", "bool", "nil"])),
                7 if !json => self.range(),
                8 => match self.named(K::T) {
                    Some(t) => T1::S(t),
                    None => tname("tstr"),
                },
                9 => {
                    let n = self.r.range(2, 3);
                    T1::S(T2::Paren(Ty((0..n).map(|_| tlit(Lit::T(pick_key_name(self.r)))).collect())))
                }
                10 if !json => T1::S(T2::Arr(Grp(vec![vec![member(self.leaf())]]))),
                11 => T1::C(name("tstr"), "size".into(), T2::Lit(int(i128::from(self.r.irange(0, 2))))),
                _ => tname("tstr"),
            };
            Key::T(t, cut)
        }
    }
    fn ment(&mut self, d: usize) -> Ent {
        let mut o = if self.r.pct(self.cfg.occ) { Some(occ_gen(self.r, self.cfg.big)) } else { None };
        let v = if d > 0 && self.r.pct(self.cfg.map_choiceify) {
            let t = match self.named(K::GC) {
                Some(T2::Name(n, a)) if self.r.pct(60) => T2::Ch(n, a),
                _ => T2::ChIn(self.gcgrp(d - 1)),
            };
            EV::M(None, ty1(T1::S(t)))
        } else if d > 0 && self.r.pct(self.cfg.nested_grp) {
            match self.r.below(4) {
                0..=1 => EV::G(self.mgrp(d - 1)),
                2 => match self.named(K::GM) {
                    Some(t) => EV::M(None, ty1(T1::S(t))),
                    None => EV::G(self.mgrp(d - 1)),
                },
                _ => match (self.named(K::GM), self.named(K::GM)) {
                    (Some(a), Some(b)) => EV::M(None, Ty(vec![T1::S(a), T1::S(b)])),
                    _ => EV::G(self.mgrp(d - 1)),
                },
            }
        } else if self.r.pct(self.cfg.unwrap) && self.named(K::M).is_some() {
            match self.named(K::M) {
                Some(T2::Name(n, a)) => {
                    let mut t = vec![T1::S(T2::Unwrap(n, a))];
                    // a choice of several unwraps and named groups
                    if self.r.pct(35) {
                        for _ in 0..1 + self.r.below(3) {
                            let k = if self.r.pct(75) { K::M } else { K::GM };
                            match (k, self.named(k)) {
                                (K::M, Some(T2::Name(n, a))) => t.push(T1::S(T2::Unwrap(n, a))),
                                (_, Some(g)) => t.push(T1::S(g)),
                                _ => {}
                            }
                        }
                        self.r.shuffle(&mut t);
                    }
                    EV::M(None, Ty(t))
                }
                _ => EV::M(Some(self.key()), self.ty(d.saturating_sub(1))),
            }
        } else {
            let k = self.key();
            if matches!(&k, Key::T(t, _) if !matches!(t, T1::S(T2::Lit(_)))) && self.r.pct(55) {
                // tables are usually written with an occurrence
                o = Some(match self.r.below(4) {
                    0..=1 => Occ::Star,
                    2 => Occ::Plus,
                    _ => occ_gen(self.r, self.cfg.big),
                });
            }
            EV::M(Some(k), self.ty(d.saturating_sub(1)))
        };
        Ent { occ: o, v }
    }
}

fn tlit_ent(l: Lit) -> Ent {
    member(tlit(l))
}

/// Choose a rule kind with the given weights for arrays/maps and enums.
fn kind(r: &mut Rng, am: u32, ge: u32, gc: u32) -> K {
    const KS: [K; 9] = [K::T, K::A, K::M, K::GA, K::GM, K::C, K::NumAlias, K::GE, K::GC];
    KS[r.weighted(&[28, am, am, 16, 16, 7, 3, ge, gc])]
}

// ---- regular expressions ----------------------------------------------------
pub fn regex_pattern(r: &mut Rng, d: usize) -> String {
    let n = if r.pct(20) { 2 } else { 1 };
    let mut alts = vec![];
    for _ in 0..n {
        let m = r.range(0, 3) + usize::from(d == 2);
        let mut s = String::new();
        for _ in 0..m {
            s.push_str(&match r.below(10) {
                0..=3 if r.pct(12) => r.pick(&[" ", "\t", "\n", "#", "A", "\u{a0}", "/", "~", "%", "&", "<", "\"", "'", ",", ";", "_", "😀"]).to_string(),
                0..=3 => r.pick(&["a", "b", "c", "0", "1", "é", "-"]).to_string(),
                4 => ".".to_string(),
                5 => r.pick(&["[ab]", "[a-c]", "[^a]", "[0-9]", "[^0-9]"]).to_string(),
                6 if d > 0 => format!("({}{})", r.pick(&["", "", "", "?:"]), regex_pattern(r, d - 1)),
                7 => r.pick(&["\\d", "\\.", "\\w", "\\s", "\\D", "\\W", "\\S", "\\/", "\\-", "\\*", "\\n", "\\t", "\\x41", "\\u00e9"]).to_string(),
                _ => r.pick(&["ab", "x"]).to_string(),
            });
            if r.pct(30) {
                s.push_str(r.pick(&["*", "+", "?", "{2}", "{1,2}", "{0,1}", "{2,}"]));
                if r.pct(10) {
                    s.push('?');
                }
            }
        }
        if d == 2 && r.pct(4) {
            let n = *r.pick(&dict::small(150)) as usize;
            s.insert_str(0, &"ab".repeat(n / 2));
            s.push_str(&"a".repeat(n % 2));
        }
        if d == 2 && r.pct(35) {
            s.insert(0, '^');
        }
        if d == 2 && r.pct(35) {
            s.push('$');
        }
        alts.push(s);
    }
    alts.join("|")
}

/// Text that has a fair chance of matching the pattern.
pub fn regex_sample(r: &mut Rng, p: &str) -> String {
    let mut out = String::new();
    if r.pct(20) {
        out.push_str(r.pick(&["a", "x", " ", "zz"]));
    }
    let cs: Vec<char> = p.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            '^' | '$' | '(' | ')' | '*' | '+' | '?' => {}
            '|' => {
                if r.pct(50) {
                    break;
                }
                out.clear();
            }
            '{' => {
                while i < cs.len() && cs[i] != '}' {
                    i += 1;
                }
                if let Some(c) = out.chars().last() {
                    if r.pct(70) {
                        out.push(c);
                    }
                }
            }
            '[' => {
                while i < cs.len() && cs[i] != ']' {
                    i += 1;
                }
                out.push(*r.pick(&['a', 'b', 'c', '0', '5', '\r', 'A']));
            }
            '.' => out.push(*r.pick(&['a', 'z', '0', '\n', 'é', '\r', '\u{85}', '\u{2028}', '\0'])),
            '\\' => {
                i += 1;
                out.push(match cs.get(i) {
                    Some('d') => '7',
                    Some('w') => *r.pick(&['w', 'W', '_', '0', 'é']),
                    Some('s') => *r.pick(&[' ', '\t', '\n', '\u{a0}']),
                    Some('D') | Some('W') | Some('S') => *r.pick(&['-', ' ', 'a', '7']),
                    Some('n') => '\n',
                    Some('t') => '\t',
                    Some('x') => {
                        i += 2;
                        'A'
                    }
                    Some('u') => {
                        i += 4;
                        'é'
                    }
                    Some(c) => *c,
                    None => 'a',
                });
            }
            c => out.push(c),
        }
        i += 1;
    }
    if r.pct(20) {
        out.push_str(r.pick(&["a", "x", "\n", "0"]));
    }
    match r.below(24) {
        0 => out = out.to_uppercase(),
        1 => {
            // one letter in the other case
            let i = r.below(out.chars().count() + 1);
            out = out.chars().enumerate().map(|(j, c)| if i == j { c.to_ascii_uppercase() } else { c }).collect();
        }
        _ => {}
    }
    out
}

// ---- data -----------------------------------------------------------------
#[derive(Clone)]
struct SEnv<'a>(Option<Rc<(Vec<(&'a str, &'a T1)>, SEnv<'a>)>>);

pub struct Sampler<'a, 'r> {
    pub r: &'r mut Rng,
    rules: HashMap<&'a str, &'a Rule>,
    budget: i32,
    fuel: i32,
    depth: u32,
    json: bool,
    big: u32,
}

enum Tg<'a> {
    T1(&'a T1, SEnv<'a>),
    T(&'a Ty, SEnv<'a>),
    G(&'a Ent, SEnv<'a>),
    None,
}

pub fn junk(r: &mut Rng, d: usize, json: bool) -> Val {
    if r.pct(20) {
        if dict::any_hot(&["Nil", "Null"]) {
            return Val::Null;
        }
        if dict::hot("Bool") {
            return Val::Bool(r.pct(50));
        }
        if dict::hot("Float") {
            return Val::Float(pick_float(r) + 0.0);
        }
        if dict::any_hot(&["Bytes", "Bstr"]) && !json {
            return Val::Bytes(pick_bytes(r));
        }
    }
    match r.below(if d == 0 { 8 } else { 11 }) {
        0..=2 => Val::Int(pick_val_int(r, json)),
        3..=4 => Val::Text(pick_text(r)),
        5 => Val::Bool(r.pct(50)),
        6 => {
            if r.pct(50) || json {
                Val::Null
            } else {
                Val::Bytes(pick_bytes(r))
            }
        }
        7 => Val::Float(pick_float(r) + 0.0),
        8..=9 => {
            let n = r.range(0, 3);
            Val::Arr((0..n).map(|_| junk(r, d - 1, json)).collect())
        }
        _ => {
            let n = r.range(0, 3);
            let mut m: Vec<(Val, Val)> = vec![];
            for _ in 0..n {
                let k = junk_key(r, json);
                if !m.iter().any(|e| veq(&e.0, &k)) {
                    let v = junk(r, d - 1, json);
                    m.push((k, v));
                }
            }
            Val::Map(m)
        }
    }
}
fn junk_key(r: &mut Rng, json: bool) -> Val {
    if json || r.pct(75) {
        Val::Text(pick_key_name(r))
    } else {
        junk(r, 1, false)
    }
}

impl<'a, 'r> Sampler<'a, 'r> {
    pub fn new(s: &'a Schema, r: &'r mut Rng, json: bool, big: u32) -> Sampler<'a, 'r> {
        let mut rules = HashMap::new();
        for x in &s.0 {
            rules.insert(x.name.as_str(), x);
        }
        Sampler { r, rules, budget: 400, fuel: 5000, depth: 0, json, big }
    }

    /// A value that the rule would likely accept.
    pub fn sample(&mut self, rule: &str) -> Val {
        self.budget = 400;
        self.fuel = 5000;
        let Some(r) = self.rules.get(rule).copied() else {
            return junk(self.r, 2, self.json);
        };
        let e = SEnv(None);
        match &r.v {
            RV::T(t) => self.ty(t, &e),
            RV::G(g) => self.single(g, &e),
        }
    }
    fn single(&mut self, g: &'a Ent, e: &SEnv<'a>) -> Val {
        match &g.v {
            EV::M(_, t) => self.ty(t, e),
            EV::G(g) => {
                let c = self.r.below(g.0.len());
                match g.0[c].first() {
                    Some(x) => self.single(x, e),
                    None => Val::Null,
                }
            }
        }
    }
    fn resolve(&self, n: &'a str, args: &'a [T1], e: &SEnv<'a>) -> Tg<'a> {
        if let Some(b) = &e.0 {
            if let Some((_, t)) = b.0.iter().rev().find(|x| x.0 == n) {
                return Tg::T1(t, b.1.clone());
            }
        }
        let Some(r) = self.rules.get(n).copied() else {
            return Tg::None;
        };
        let m = r.params.iter().map(|p| p.as_str()).zip(args.iter()).collect();
        let e = SEnv(Some(Rc::new((m, e.clone()))));
        match &r.v {
            RV::T(t) => Tg::T(t, e),
            RV::G(g) => Tg::G(g, e),
        }
    }
    fn ty(&mut self, t: &'a Ty, e: &SEnv<'a>) -> Val {
        let i = self.r.below(t.0.len());
        self.t1(&t.0[i], e)
    }
    fn lit_of(&self, t: &'a T2, e: &SEnv<'a>, d: u32) -> Option<Val> {
        if d > 20 {
            return None;
        }
        match t {
            T2::Lit(l) => Some(crate::model::litval(l)),
            T2::Paren(t) if t.0.len() == 1 => match &t.0[0] {
                T1::S(t) => self.lit_of(t, e, d + 1),
                _ => None,
            },
            T2::Name(n, a) => match self.resolve(n, a, e) {
                Tg::T1(T1::S(t), e) => self.lit_of(t, &e, d + 1),
                Tg::T(t, e) if t.0.len() == 1 => match &t.0[0] {
                    T1::S(t) => self.lit_of(t, &e, d + 1),
                    _ => None,
                },
                _ => None,
            },
            _ => None,
        }
    }
    fn near(&mut self, lo: i128, hi: i128) -> i128 {
        let (a, b) = if lo <= hi { (lo, hi) } else { (hi, lo) };
        let v = match self.r.below(7) {
            0 => a - 1,
            1 => a,
            2 => a + 1,
            3 => b - 1,
            4 => b,
            5 => b + 1,
            _ => a + (b - a) / 2,
        };
        let min = if self.json { i128::from(i64::MIN) } else { -(1i128 << 64) };
        v.clamp(min, i128::from(u64::MAX))
    }
    fn t1(&mut self, t: &'a T1, e: &SEnv<'a>) -> Val {
        self.budget -= 1;
        self.fuel -= 1;
        if self.budget <= 0 || self.fuel <= 0 || self.depth > 45 {
            return junk(self.r, 0, self.json);
        }
        self.depth += 1;
        let v = self.t1_(t, e);
        self.depth -= 1;
        v
    }
    fn t1_(&mut self, t: &'a T1, e: &SEnv<'a>) -> Val {
        match t {
            T1::S(t) => self.t2(t, e),
            T1::R(a, _, b) => match (self.lit_of(a, e, 0), self.lit_of(b, e, 0)) {
                (Some(Val::Int(a)), Some(Val::Int(b))) => Val::Int(self.near(a, b)),
                (Some(Val::Float(a)), Some(Val::Float(b))) => Val::Float(match self.r.below(6) {
                    0 => a,
                    1 => b,
                    2 => a - 0.125,
                    3 => b + 0.125,
                    4 => (a + b) / 2.0 + 0.0,
                    _ => {
                        if a.fract() == 0.0 && a.abs() < 1e9 && self.r.pct(30) {
                            return Val::Int(a as i128);
                        }
                        a + 0.125
                    }
                }),
                _ => junk(self.r, 0, self.json),
            },
            T1::C(tgt, op, arg) => match op.as_str() {
                "size" => {
                    let (lo, hi) = match arg {
                        T2::Paren(t) => match &t.0[0] {
                            T1::R(a, _, b) => (self.lit_of(a, e, 0), self.lit_of(b, e, 0)),
                            T1::S(t) => {
                                let l = self.lit_of(t, e, 0);
                                (l.clone(), l)
                            }
                            _ => (None, None),
                        },
                        a => {
                            let l = self.lit_of(a, e, 0);
                            (l.clone(), l)
                        }
                    };
                    let (Some(Val::Int(lo)), Some(Val::Int(hi))) = (lo, hi) else {
                        return junk(self.r, 0, self.json);
                    };
                    let n = self.near(lo, hi).clamp(0, 500) as usize;
                    let tn = match tgt {
                        T2::Name(n, _) => n.as_str(),
                        _ => "tstr",
                    };
                    match tn {
                        "uint" => {
                            let n = n.min(9) as u32;
                            let v = match self.r.below(4) {
                                0 => (1i128 << (8 * n.min(8))) - 1,
                                1 => (1i128 << (8 * n.min(8))).min(i128::from(u64::MAX)),
                                2 => (1i128 << (8 * n.saturating_sub(1).min(8))).min(i128::from(u64::MAX)),
                                _ => (1i128 << (8 * n.saturating_sub(1).min(8))) - 1,
                            };
                            Val::Int(v.clamp(0, i128::from(u64::MAX)))
                        }
                        "bstr" | "bytes" if !self.json => Val::Bytes(vec![7; n]),
                        _ => {
                            let c = *self.r.pick(&['a', 'é', '日', '😀', 'x']);
                            let k = if self.r.pct(30) { n } else { n / c.len_utf8() };
                            let mut s: String = std::iter::repeat(c).take(k).collect();
                            while s.len() < n {
                                s.push('z');
                            }
                            Val::Text(s)
                        }
                    }
                }
                "regexp" => match arg {
                    T2::Lit(Lit::T(p)) => Val::Text(regex_sample(self.r, p)),
                    _ => Val::Text("a".into()),
                },
                "cbor" => {
                    if self.json {
                        return junk(self.r, 0, true);
                    }
                    let v = self.t2(arg, e);
                    let mut b = if self.r.pct(50) { cbor_bytes(&v) } else { cbor_bytes_var(&v, self.r) };
                    match self.r.below(20) {
                        0 => {
                            b.push(self.r.u64() as u8);
                        }
                        1 => {
                            b.pop();
                        }
                        2 => {
                            if !b.is_empty() {
                                let i = self.r.below(b.len());
                                b[i] ^= 1 << self.r.below(8);
                            }
                        }
                        3 => {
                            // a tag, which has no place in the data model
                            let t = *self.r.pick(&[&[0xd9, 0xd9, 0xf7][..], &[0xc0], &[0xc1], &[0xc4], &[0xd8, 24], &[0xd8, 32], &[0xd9, 1, 0], &[0xd9, 0xd9, 0xf6], &[0xda, 0, 0, 0xd9, 0xf7]]);
                            b.splice(0..0, t.iter().copied());
                        }
                        _ => {}
                    }
                    Val::Bytes(b)
                }
                _ => match self.lit_of(arg, e, 0) {
                    Some(Val::Int(i)) => Val::Int(self.near(i, i)),
                    _ => junk(self.r, 0, self.json),
                },
            },
        }
    }
    fn t2(&mut self, t: &'a T2, e: &SEnv<'a>) -> Val {
        self.budget -= 1;
        if self.budget <= 0 {
            return junk(self.r, 0, self.json);
        }
        match t {
            T2::Lit(l) => crate::model::litval(l),
            T2::Paren(t) => self.ty(t, e),
            T2::Arr(g) => {
                let mut v = vec![];
                self.agrp(g, e, &mut v);
                Val::Arr(v)
            }
            T2::Map(g) => {
                let mut m = vec![];
                self.mgrp(g, e, &mut m);
                Val::Map(m)
            }
            T2::Name(n, a) => {
                if let Some(v) = self.prelude(n) {
                    return v;
                }
                match self.resolve(n, a, e) {
                    Tg::T1(t, e) => self.t1(t, &e),
                    Tg::T(t, e) => self.ty(t, &e),
                    Tg::G(g, e) => self.single(g, &e),
                    Tg::None => junk(self.r, 1, self.json),
                }
            }
            T2::Unwrap(n, a) => match self.resolve(n, a, e) {
                Tg::T(t, e) => self.ty(t, &e),
                Tg::T1(t, e) => self.t1(t, &e),
                _ => junk(self.r, 1, self.json),
            },
            T2::ChIn(g) => self.enum_member(g, e, 0),
            T2::Ch(n, a) => self.enum_name(n, a, e, 0),
        }
    }
    fn enum_name(&mut self, n: &'a str, a: &'a [T1], e: &SEnv<'a>, d: u32) -> Val {
        if d > 10 {
            return Val::Null;
        }
        match self.resolve(n, a, e) {
            Tg::G(Ent { v: EV::G(g), .. }, e) => self.enum_member(g, &e, d + 1),
            Tg::T(t, e) => match &t.0[0] {
                T1::S(T2::Name(n, a)) => self.enum_name(n, a, &e, d + 1),
                t => self.t1(t, &e),
            },
            _ => junk(self.r, 1, self.json),
        }
    }
    fn enum_member(&mut self, g: &'a Grp, e: &SEnv<'a>, d: u32) -> Val {
        let c = self.r.below(g.0.len());
        let c = &g.0[c];
        if c.is_empty() {
            return junk(self.r, 0, self.json);
        }
        let i = self.r.below(c.len());
        match &c[i].v {
            EV::M(None, t) => match &t.0[0] {
                T1::S(T2::Name(n, a)) if t.0.len() == 1 && self.prelude(n).is_none() => self.enum_name(n, a, e, d + 1),
                _ => self.ty(t, e),
            },
            EV::M(_, t) => self.ty(t, e),
            EV::G(g) => self.enum_member(g, e, d),
        }
    }
    fn prelude(&mut self, n: &str) -> Option<Val> {
        use crate::model::{prelude, Pre, P};
        let j = self.json;
        Some(match prelude(n) {
            Pre::NotPrelude => return None,
            Pre::Lit(b) => Val::Bool(b),
            Pre::Unsupported => junk(self.r, 1, j),
            Pre::Ty(p) => match p {
                P::Any => junk(self.r, 2, j),
                P::Nil => Val::Null,
                P::Bool => Val::Bool(self.r.pct(50)),
                P::Int => Val::Int(pick_val_int(self.r, j)),
                P::Uint => Val::Int(pick_lit_int(self.r).abs().min(i128::from(u64::MAX))),
                P::Nint => {
                    let v = pick_val_int(self.r, j);
                    Val::Int(if v < 0 { v } else { (-1 - v).max(if j { i128::from(i64::MIN) } else { -(1i128 << 64) }) })
                }
                P::Float => Val::Float(pick_float(self.r) + 0.0),
                P::Tstr => Val::Text(pick_text(self.r)),
                P::Bstr => {
                    if j {
                        Val::Null
                    } else {
                        Val::Bytes(pick_bytes(self.r))
                    }
                }
            },
        })
    }
    fn count(&mut self, o: &Option<Occ>) -> usize {
        let (lo, hi) = match o {
            None => return 1,
            Some(Occ::Opt) => (0, 1),
            Some(Occ::Star) => (0, usize::MAX),
            Some(Occ::Plus) => (1, usize::MAX),
            Some(Occ::N(a, b)) => (*a, *b),
        };
        let big = self.big;
        // Nobody can write that many; what matters is how few will do.
        let lo = if lo > 700 { self.r.below(4) } else { lo };
        let hi = if hi > 700 { usize::MAX } else { hi };
        let n = if hi == usize::MAX {
            if self.r.pct(big) {
                lo + *self.r.pick(&dict::small(200)) as usize
            } else if self.r.pct(8) && lo > 0 {
                lo - 1
            } else {
                lo + self.r.below(4)
            }
        } else {
            match self.r.below(12) {
                0 => lo.saturating_sub(1),
                1 => hi.saturating_add(1),
                2..=4 => lo,
                5..=7 => hi,
                _ => {
                    if hi > lo {
                        self.r.range(lo, hi)
                    } else {
                        lo
                    }
                }
            }
        };
        n.min(700)
    }
    fn agrp(&mut self, g: &'a Grp, e: &SEnv<'a>, out: &mut Vec<Val>) {
        let i = self.r.below(g.0.len());
        for x in &g.0[i] {
            self.aent(x, e, out);
        }
    }
    fn aent(&mut self, x: &'a Ent, e: &SEnv<'a>, out: &mut Vec<Val>) {
        let n = self.count(&x.occ);
        for k in 0..n {
            if k < 3 {
                self.budget -= 1;
            } else if k == 3 && self.fuel > 0 {
                self.budget = self.budget.max(20);
            }
            if self.budget <= -50 || out.len() > 900 {
                return;
            }
            match &x.v {
                EV::M(Some(_), t) => {
                    let v = self.ty(t, e);
                    out.push(v);
                }
                EV::M(None, t) => self.aty(t, e, out),
                EV::G(g) => self.agrp(g, e, out),
            }
        }
    }
    fn aty(&mut self, t: &'a Ty, e: &SEnv<'a>, out: &mut Vec<Val>) {
        let i = self.r.below(t.0.len());
        self.at1(&t.0[i], e, out);
    }
    fn at1(&mut self, t: &'a T1, e: &SEnv<'a>, out: &mut Vec<Val>) {
        self.budget -= 1;
        if self.budget <= -50 {
            return;
        }
        match t {
            T1::S(T2::Paren(t)) => self.aty(t, e, out),
            T1::S(T2::Name(n, a)) if matches!(crate::model::prelude(n), crate::model::Pre::NotPrelude) => {
                match self.resolve(n, a, e) {
                    Tg::T1(t, e) => self.at1(t, &e, out),
                    Tg::T(t, e) => self.aty(t, &e, out),
                    Tg::G(g, e) => self.aent(g, &e, out),
                    Tg::None => {}
                }
            }
            T1::S(T2::Unwrap(..)) => {
                let v = self.t1(t, e);
                match v {
                    Val::Arr(a) => out.extend(a),
                    v => out.push(v),
                }
            }
            t => {
                let v = self.t1(t, e);
                out.push(v);
            }
        }
    }
    fn put(out: &mut Vec<(Val, Val)>, k: Val, v: Val) {
        if !out.iter().any(|x| veq(&x.0, &k)) {
            out.push((k, v));
        }
    }
    fn mgrp(&mut self, g: &'a Grp, e: &SEnv<'a>, out: &mut Vec<(Val, Val)>) {
        let i = self.r.below(g.0.len());
        for x in &g.0[i] {
            self.ment(x, e, out);
        }
    }
    fn ment(&mut self, x: &'a Ent, e: &SEnv<'a>, out: &mut Vec<(Val, Val)>) {
        let mut n = self.count(&x.occ);
        n = n.min(60);
        for _ in 0..n {
            self.budget -= 1;
            if self.budget <= -20 {
                return;
            }
            match &x.v {
                EV::M(Some(k), t) => {
                    for _try in 0..3 {
                        let key = match k {
                            Key::Bare(s) => Val::Text(s.clone()),
                            Key::Lit(l) => crate::model::litval(l),
                            Key::T(t, _) => self.t1(t, e),
                        };
                        if self.json && !matches!(key, Val::Text(_)) {
                            continue;
                        }
                        if !out.iter().any(|x| veq(&x.0, &key)) {
                            let v = self.ty(t, e);
                            Self::put(out, key, v);
                            break;
                        }
                        if matches!(k, Key::Bare(_) | Key::Lit(_)) {
                            break;
                        }
                    }
                }
                EV::M(None, t) => {
                    let i = self.r.below(t.0.len());
                    self.mt1(&t.0[i], e, out);
                }
                EV::G(g) => self.mgrp(g, e, out),
            }
        }
    }
    /// One of the alternatives of a group-to-choice conversion in a map.
    fn mch(&mut self, g: &'a Grp, e: &SEnv<'a>, out: &mut Vec<(Val, Val)>) {
        let es: Vec<&'a Ent> = g.0.iter().flatten().collect();
        if es.is_empty() {
            return;
        }
        match &es[self.r.below(es.len())].v {
            EV::M(_, t) => {
                let i = self.r.below(t.0.len());
                self.mt1(&t.0[i], e, out)
            }
            EV::G(g) => self.mgrp(g, e, out),
        }
    }
    fn mt1(&mut self, t: &'a T1, e: &SEnv<'a>, out: &mut Vec<(Val, Val)>) {
        self.budget -= 1;
        if self.budget <= -20 {
            return;
        }
        match t {
            T1::S(T2::Paren(t)) => {
                let i = self.r.below(t.0.len());
                self.mt1(&t.0[i], e, out);
            }
            T1::S(T2::Name(n, a)) => match self.resolve(n, a, e) {
                Tg::T1(t, e) => self.mt1(t, &e, out),
                Tg::T(t, e) => {
                    let i = self.r.below(t.0.len());
                    self.mt1(&t.0[i], &e, out);
                }
                Tg::G(g, e) => self.ment(g, &e, out),
                Tg::None => {}
            },
            T1::S(T2::Unwrap(..)) => {
                if let Val::Map(m) = self.t1(t, e) {
                    for (k, v) in m {
                        Self::put(out, k, v);
                    }
                }
            }
            T1::S(T2::ChIn(g)) => self.mch(g, e, out),
            T1::S(T2::Ch(n, a)) => {
                // through aliases to the group
                let (mut n, mut a, mut e) = (n.as_str(), &a[..], e.clone());
                for _ in 0..10 {
                    match self.resolve(n, a, &e) {
                        Tg::G(Ent { v: EV::G(g), .. }, e) => return self.mch(g, &e, out),
                        Tg::T(t, e2) => match &t.0[..] {
                            [T1::S(T2::Name(n2, a2))] => (n, a, e) = (n2, a2, e2),
                            _ => return,
                        },
                        Tg::T1(T1::S(T2::Name(n2, a2)), e2) => (n, a, e) = (n2, a2, e2),
                        _ => return,
                    }
                }
            }
            _ => {}
        }
    }
}

/// Change a value a little, somewhere.
pub fn mutate(v: &Val, r: &mut Rng, json: bool) -> Val {
    let mut v = v.clone();
    let n = v.size();
    let mut at = r.below(n);
    mut_at(&mut v, &mut at, r, json);
    v
}

fn mut_at(v: &mut Val, at: &mut usize, r: &mut Rng, json: bool) -> bool {
    if *at == 0 {
        mut_here(v, r, json);
        return true;
    }
    *at -= 1;
    match v {
        Val::Arr(a) => {
            for x in a {
                if mut_at(x, at, r, json) {
                    return true;
                }
                if *at == usize::MAX {
                    return false;
                }
            }
            false
        }
        Val::Map(m) => {
            for i in 0..m.len() {
                let mut k = m[i].0.clone();
                if mut_at(&mut k, at, r, json) {
                    if (!json || matches!(k, Val::Text(_))) && !m.iter().any(|e| veq(&e.0, &k)) {
                        m[i].0 = k;
                    }
                    return true;
                }
                if mut_at(&mut m[i].1, at, r, json) {
                    return true;
                }
            }
            false
        }
        _ => false,
    }
}

fn mut_here(v: &mut Val, r: &mut Rng, json: bool) {
    match v {
        Val::Int(i) => match r.below(5) {
            0 if *i < i128::from(u64::MAX) => *i += 1,
            1 if *i > i128::from(i64::MIN) => *i -= 1,
            2 => *v = Val::Text(i.to_string()),
            3 => *v = Val::Float(*i as f64 + 0.0),
            _ => *i = pick_val_int(r, json),
        },
        Val::Float(f) => match r.below(3) {
            0 => *f += 0.125,
            1 if f.fract() == 0.0 && f.abs() < 1e15 => *v = Val::Int(*f as i128),
            _ => *f = pick_float(r) + 0.0,
        },
        Val::Text(t) => match r.below(6) {
            0 => t.push('a'),
            1 => {
                t.pop();
            }
            2 if !json => *v = Val::Bytes(t.clone().into_bytes()),
            3 => t.insert(0, '\n'),
            4 => *v = junk(r, 1, json),
            _ => *t = pick_text(r),
        },
        Val::Bytes(b) => match r.below(4) {
            0 => b.push(0),
            1 => {
                b.pop();
            }
            2 => *v = Val::Text(b64url(b)),
            _ => *b = pick_bytes(r),
        },
        Val::Bool(b) => {
            if r.pct(60) {
                *b = !*b;
            } else {
                *v = junk(r, 1, json);
            }
        }
        Val::Null => *v = junk(r, 1, json),
        Val::Arr(a) => match r.below(9) {
            0 if !a.is_empty() => {
                let i = r.below(a.len());
                a.remove(i);
            }
            1 if !a.is_empty() => {
                a.pop();
            }
            2 => {
                let x = junk(r, 1, json);
                let i = r.below(a.len() + 1);
                a.insert(i, x);
            }
            3 if !a.is_empty() => {
                let i = r.below(a.len());
                let x = a[i].clone();
                a.insert(i, x);
            }
            4 if a.len() > 1 => {
                let i = r.below(a.len() - 1);
                a.swap(i, i + 1);
            }
            5 if a.len() > 1 => {
                let i = r.below(a.len());
                a.truncate(i);
            }
            6 if !a.is_empty() => {
                let x = a[r.below(a.len())].clone();
                a.push(x);
            }
            7 => *v = Val::Arr(vec![v.clone()]),
            _ => {
                let x = junk(r, 1, json);
                a.push(x);
            }
        },
        Val::Map(m) => match r.below(7) {
            0 | 1 if !m.is_empty() => {
                let i = r.below(m.len());
                m.remove(i);
            }
            2 if m.len() > 1 => {
                let (i, j) = (r.below(m.len()), r.below(m.len()));
                let t = m[i].1.clone();
                m[i].1 = m[j].1.clone();
                m[j].1 = t;
            }
            3 if !m.is_empty() => {
                let i = r.below(m.len());
                m[i].1 = junk(r, 1, json);
            }
            4 if !m.is_empty() => {
                let i = r.below(m.len());
                let k = junk_key(r, json);
                if !m.iter().any(|e| veq(&e.0, &k)) {
                    m[i].0 = k;
                }
            }
            _ => {
                let k = junk_key(r, json);
                if !m.iter().any(|e| veq(&e.0, &k)) {
                    let val = junk(r, 1, json);
                    m.push((k, val));
                }
            }
        },
    }
}
