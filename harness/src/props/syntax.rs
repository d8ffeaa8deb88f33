//! Properties of the parser: trees, rejection, literals.
use super::diff::show_val;
use crate::dict;
use crate::fw::*;
use crate::gen::*;
use crate::print;
use crate::rec;
use crate::rng::{hash_bytes, Rng};
use crate::run::{self, Kind, Out};
use crate::s::*;
use crate::syn::*;
use crate::val::*;
use serde_json::json;

fn tree(t: &cddl_cat::ast::Cddl) -> String {
    format!("{:?}", t)
}
fn cut(s: &str) -> String {
    if s.len() <= 1500 {
        return s.into();
    }
    s.chars().take(1500).collect::<String>() + "…"
}

/// Parse, expecting exactly this tree (or a rejection).
fn expect(text: &str, want: Option<&cddl_cat::ast::Cddl>) -> Result<(), Viol> {
    let got = match run::parse(text) {
        Ok(g) => g,
        Err(p) => return viol(format!("the parser panics: {}", p), json!({"cddl": cut(text)})),
    };
    match (got, want) {
        (Ok(g), Some(w)) => {
            // compare the printed trees too: 0.0 and -0.0 are different
            if g == *w && tree(&g) == tree(w) {
                Ok(())
            } else {
                viol("the parsed tree is not the one written", json!({"cddl": cut(text), "expected": cut(&tree(w)), "got": cut(&tree(&g))}))
            }
        }
        (Err(_), None) => Ok(()),
        (Ok(g), None) => viol("text that is not CDDL is accepted", json!({"cddl": cut(text), "got": cut(&tree(&g))})),
        (Err(e), Some(w)) => viol(format!("valid CDDL is rejected: {}", cut(&e)), json!({"cddl": cut(text), "expected": cut(&tree(w))})),
    }
}

// ---- C14 ------------------------------------------------------------------
fn round_trip(cx: &mut Cx) -> Res {
    let d = cx.r.range(1, 6);
    let budget = cx.r.range(5, 80) as i32;
    let sc = if cx.r.pct(10) { chain(&mut cx.r) } else { Syn { r: &mut cx.r, budget }.schema(d) };
    let want = a_schema(&sc);
    let mut texts = vec![print::canon(&sc)];
    for _ in 0..3 {
        texts.push(print::random(&sc, &mut cx.r));
    }
    for t in &texts {
        expect(t, Some(&want))?;
        cx.st.evals += 1;
    }
    cx.st.nontrivial(hash_bytes(texts[0].as_bytes()));
    count(&sc, cx);
    cx.st.max("text_bytes", texts.iter().map(String::len).max().unwrap() as u64);
    cx.sample(|| json!({"cddl": texts[1], "tree": cut(&tree(&want))}));
    Ok(())
}
/// Valid CDDL text that need not mean anything.
pub fn any_schema_text(r: &mut Rng) -> String {
    let d = r.range(1, 5);
    let budget = r.range(5, 60) as i32;
    let sc = Syn { r, budget }.schema(d);
    print::random(&sc, r)
}
/// Deep (but permitted) nesting of one or several kinds.
fn chain(r: &mut Rng) -> Schema {
    let mut t = T1::S(T2::Lit(Lit::U(7)));
    let k = r.below(7);
    // each level costs at most two of the parser's permitted levels
    for _ in 0..r.range(3, 22) {
        let which = if k == 6 { r.below(6) } else { k };
        t = T1::S(match which {
            0 => T2::Paren(ty1(t)),
            1 => T2::Arr(Grp(vec![vec![member(t)]])),
            2 => T2::Map(Grp(vec![vec![kv(Key::Bare("k".into()), ty1(t))]])),
            3 => T2::Name("g".into(), vec![t]),
            4 => T2::ChIn(Grp(vec![vec![member(t)]])),
            _ => T2::Arr(Grp(vec![vec![grp(vec![member(t), member(tname("x"))])]])),
        });
    }
    Schema(vec![rule_t("a", ty1(t))])
}

fn count(sc: &Schema, cx: &mut Cx) {
    let dbg = format!("{:?}", sc);
    for (n, pat) in [
        ("with_text_literals", "T(\""),
        ("with_byte_literals", "B(["),
        ("with_floats", "F("),
        ("with_occurrences", "Some(N("),
        ("with_cut_keys", ", true)), Ty"),
        ("with_uncut_keys", ", false)), Ty"),
        ("with_ranges", "R("),
        ("with_controls", "C("),
        ("with_unwrap", "Unwrap("),
        ("with_inline_choiceify", "ChIn("),
        ("with_groups", "G(Grp"),
        ("with_maps", "Map("),
        ("with_arrays", "Arr("),
        ("with_parens", "Paren("),
    ] {
        if dbg.contains(pat) {
            cx.st.inc(n);
        }
    }
    if sc.0.iter().any(|r| !r.params.is_empty()) {
        cx.st.inc("with_generic_rules");
    }
}

// ---- C15 ------------------------------------------------------------------
fn rejection(cx: &mut Cx) -> Res {
    let n = if cx.idx % 4 == 0 { 24 } else { 6 };
    for _ in 0..n {
        let text = match cx.r.below(10) {
            0 => {
                let n = cx.r.range(1, 5);
                format!("a={}", soup(&mut cx.r, n))
            }
            1 => {
                let n = cx.r.range(1, 9);
                let (o, c) = *cx.r.pick(&[("[", "]"), ("{", "}"), ("(", ")"), ("&(", ")"), ("x<", ">"), ("[? ", "]"), ("{a: ", "}"), ("int .size (", ")")]);
                format!("a = {}{}{}", o, soup(&mut cx.r, n), c)
            }
            2 => {
                let n = cx.r.range(1, 12);
                soup(&mut cx.r, n)
            }
            _ => {
                let d = cx.r.range(0, 3);
                let sc = Syn { r: &mut cx.r, budget: 12 }.schema(d);
                let t = if cx.r.pct(50) { print::canon(&sc) } else { print::random(&sc, &mut cx.r) };
                let k = cx.r.range(1, 3);
                edit(&t, &mut cx.r, k)
            }
        };
        one_text(cx, &text)?;
    }
    Ok(())
}
fn one_text(cx: &mut Cx, text: &str) -> Res {
    let (rec, deep) = rec::recognize(text);
    if deep {
        cx.st.inc("undecided_too_deep");
        return Ok(());
    }
    cx.st.evals += 1;
    match &rec {
        None => {
            cx.st.inc("not_cddl");
            expect(text, None)?
        }
        Some(s) => {
            cx.st.inc("still_cddl");
            expect(text, Some(&a_schema(s)))?
        }
    }
    // The other ways in must see the same thing.
    if cx.r.pct(10) {
        let whole = rec.is_some();
        let sl = run::guard(|| cddl_cat::parser::slice_parse_cddl(text).is_ok());
        if sl != Ok(whole) {
            return viol(format!("slice_parse_cddl gives {:?}, parse_cddl {:?}", sl, whole), json!({"cddl": cut(text)}));
        }
        if !whole {
            for (n, o) in [("validate_cbor_bytes", run::cbor_bytes("a", text, &[1])), ("validate_json_str", run::json_str("a", text, "1"))] {
                if !matches!(o, Out::Fatal(Kind::Parse, _)) {
                    return viol(format!("{} with text that is not CDDL: {}", n, o.show()), json!({"cddl": cut(text)}));
                }
            }
            cx.st.inc("not_cddl_via_validators");
        }
    }
    cx.st.nontrivial(hash_bytes(text.as_bytes()));
    cx.sample(|| json!({"cddl": text, "is_cddl": rec.is_some()}));
    Ok(())
}

// ---- C16 ------------------------------------------------------------------
#[derive(Debug)]
enum Spell {
    Ok(Lit),
    /// malformed: must be rejected, wherever it stands
    Bad(&'static str),
}

fn big_dec(r: &mut Rng) -> String {
    // around the limits of what fits
    let base: i128 = *r.pick(&[1i128 << 64, 1 << 63, 1 << 65, 1 << 66, 10_i128.pow(19), 10_i128.pow(20), i128::from(u64::MAX) * 10, 1 << 32, 1 << 53]);
    let n = base + i128::from(r.irange(-3, 3));
    n.to_string()
}

fn spell(r: &mut Rng) -> (String, Spell) {
    let int = |s: String, v: Option<u64>| -> (String, Spell) {
        match v {
            Some(v) => (s, Spell::Ok(Lit::U(v))),
            None => (s, Spell::Bad("MalformedInteger")),
        }
    };
    match r.below(18) {
        0 => {
            let d = big_dec(r);
            let v = d.parse().ok();
            int(d, v)
        }
        1 => {
            // negative, around the limits
            let d = big_dec(r);
            let n: i128 = d.parse().unwrap();
            if n <= 1 << 63 {
                (format!("-{}", d), Spell::Ok(Lit::N((-n) as i64)))
            } else {
                (format!("-{}", d), Spell::Bad("MalformedInteger"))
            }
        }
        2 => {
            let digits = r.range(1, 20);
            let d: String = (0..digits).map(|_| *r.pick(b"0123456789abcdefABCDEF") as char).collect();
            let v = u128::from_str_radix(&d, 16).unwrap();
            int(format!("0x{}", d), u64::try_from(v).ok())
        }
        3 => {
            let digits = *r.pick(&[1, 2, 8, 31, 32, 33, 62, 63, 64, 65, 70]);
            let d: String = (0..digits).map(|_| if r.pct(60) { '1' } else { '0' }).collect();
            let v = u128::from_str_radix(&d, 2).unwrap();
            int(format!("0b{}", d), u64::try_from(v).ok())
        }
        4 => {
            let hex = r.pct(50);
            let v = *r.pick(&[0u64, 1, 255, 1 << 62, i64::MAX as u64, 1 << 63, (1 << 63) + 1, u64::MAX]);
            let s = if hex { format!("-0x{:x}", v) } else { format!("-0b{:b}", v) };
            if v <= 1 << 63 {
                (s, Spell::Ok(Lit::N((v as i64).wrapping_neg())))
            } else {
                (s, Spell::Bad("MalformedInteger"))
            }
        }
        5 => {
            let v = r.u64() >> r.below(64);
            int(v.to_string(), Some(v))
        }
        6 | 7 => {
            // floats, every accepted form
            let mut f = f64::from_bits(r.u64());
            if !f.is_finite() || r.pct(50) {
                f = pick_float(r);
            }
            let s = match r.below(5) {
                0 => format!("{:e}", f),
                1 => format!("{:e}", f).replace("e", "e+").replace("e+-", "e-"),
                2 => format!("{:?}", f),
                3 => format!("{:.20}", f),
                _ => format!("{:.17e}", f),
            };
            let s = if !s.contains('.') && !s.contains('e') { s + ".0" } else { s };
            let v: f64 = s.parse().unwrap();
            (s, Spell::Ok(Lit::F(v)))
        }
        8 => {
            // written digit by digit
            let mut s = String::new();
            if r.pct(30) {
                s.push('-');
            }
            let n = r.range(1, 25);
            let i: String = (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect();
            let i = i.trim_start_matches('0');
            s.push_str(if i.is_empty() { "0" } else { i });
            let frac = r.pct(70);
            if frac {
                s.push('.');
                for _ in 0..r.range(1, 25) {
                    s.push((b'0' + r.below(10) as u8) as char);
                }
            }
            if !frac || r.pct(50) {
                s.push('e');
                s.push_str(*r.pick(&["", "+", "-"]));
                s.push_str(&r.below(300).to_string());
            }
            let v: f64 = s.parse().unwrap();
            if v.is_finite() {
                (s, Spell::Ok(Lit::F(v)))
            } else {
                ("1.5".into(), Spell::Ok(Lit::F(1.5)))
            }
        }
        9 => (
            r.pick(&["0x1.5", "0x1F.0", "0b1.0", "0b1e5", "-0x2.5", "-0b1e1", "0b101.5e3"]).to_string(),
            Spell::Bad("MalformedFloat"),
        ),
        10 | 11 => {
            // text, character by character
            let mut raw = String::from("\"");
            let mut val = String::new();
            for _ in 0..r.below(9) {
                esc_char(r, '"', &mut raw, &mut val);
            }
            raw.push('"');
            (raw, Spell::Ok(Lit::T(val)))
        }
        12 => {
            let bad = bad_escape(r);
            let a = pick_plain(r);
            let b: String = pick_plain(r).chars().filter(|c| !c.is_ascii_hexdigit()).collect();
            (format!("\"{}{}{}\"", a, bad, b), Spell::Bad("MalformedText"))
        }
        13 => {
            let mut raw = String::from("'");
            let mut val = String::new();
            for _ in 0..r.below(9) {
                esc_char(r, '\'', &mut raw, &mut val);
            }
            raw.push('\'');
            (raw, Spell::Ok(Lit::B(val.into_bytes())))
        }
        14 => {
            let bad = bad_escape(r);
            let a = pick_plain(r);
            (format!("'{}{}'", a, bad), Spell::Bad("MalformedText"))
        }
        15 => {
            let b = pick_bytes(r);
            let mut s = String::from("h'");
            for x in &b {
                for c in (if r.pct(50) { format!("{:02x}", x) } else { format!("{:02X}", x) }).chars() {
                    if r.pct(12) {
                        s.push_str(if r.pct(50) { " " } else { "  " });
                    }
                    s.push(c);
                }
            }
            if r.pct(10) {
                s.push(' ');
            }
            if r.pct(25) {
                // an odd digit, or something that is not one
                let at = 2 + r.below(s.len() - 1);
                s.insert_str(at, *r.pick(&["0", "f", "g", "00x", "-", "0x", "é0", ":", "_"]));
                s.push('\'');
                let inner: Vec<char> = s[2..s.len() - 1].chars().filter(|c| *c != ' ').collect();
                if inner.len() % 2 == 0 && inner.iter().all(char::is_ascii_hexdigit) {
                    return ("h''".into(), Spell::Ok(Lit::B(vec![])));
                }
                return (s, Spell::Bad("MalformedHex"));
            }
            s.push('\'');
            (s, Spell::Ok(Lit::B(b)))
        }
        16 => {
            let b = if r.pct(50) { pick_bytes(r) } else { (0..r.below(12)).map(|_| r.u64() as u8).collect() };
            let s = print::b64url(&b);
            if r.pct(30) {
                let mut c: Vec<char> = s.chars().collect();
                let at = r.below(c.len() + 1);
                match r.below(3) {
                    0 => c.insert(at, *r.pick(&['+', '/', '=', '*', 'A', ' '])),
                    1 if at < c.len() => {
                        c.remove(at);
                    }
                    _ if at < c.len() => c[at] = *r.pick(&['+', '=', '!', 'é', 'b']),
                    _ => c.push('='),
                }
                let t: String = c.into_iter().collect();
                return match rec::unb64(&t) {
                    Some(v) => (format!("b64'{}'", t), Spell::Ok(Lit::B(v))),
                    None => (format!("b64'{}'", t), Spell::Bad("MalformedBase64")),
                };
            }
            (format!("b64'{}'", s), Spell::Ok(Lit::B(b)))
        }
        _ => {
            let v = *r.pick(dict::nums());
            let k = r.below(4);
            let s = match k {
                0 => format!("0x{:x}", v),
                1 => format!("0b{:b}", v),
                2 => format!("0x{:016X}", v),
                _ => v.to_string(),
            };
            int(s, Some(v))
        }
    }
}
/// A malformed literal and the kind of error it is.
pub fn spell_bad(r: &mut Rng) -> (String, &'static str) {
    loop {
        if let (s, Spell::Bad(k)) = spell(r) {
            return (s, k);
        }
    }
}
fn pick_plain(r: &mut Rng) -> String {
    (0..r.below(4)).map(|_| *r.pick(&['a', ' ', '0', 'u', 'é', 'n', '😀'])).collect()
}
fn bad_escape(r: &mut Rng) -> String {
    r.pick(&[
        "\\x41", "\\a", "\\0", "\\u", "\\u12", "\\u123g", "\\uD800", "\\ud800x", "\\uDC00", "\\udfff", "\\ud83d\\n", "\\ud83d\\u0041", "\\ud83d\\ud83d", "\\U0041", "\\e", "\\ ", "\\é", "\\u{41}", "\\N", "\\v", "\\u00", "\\u-001", "\\u+041", "\\u 041",
    ])
    .to_string()
}
fn esc_char(r: &mut Rng, q: char, raw: &mut String, val: &mut String) {
    match r.below(5) {
        0 => {
            let (e, c) = *r.pick(&[("\\n", '\n'), ("\\r", '\r'), ("\\t", '\t'), ("\\b", '\u{8}'), ("\\f", '\u{c}'), ("\\/", '/'), ("\\\\", '\\'), ("\\\"", '"')]);
            raw.push_str(e);
            val.push(c);
        }
        1 => {
            let c = wild_char(r);
            let mut buf = [0u16; 2];
            for u in c.encode_utf16(&mut buf) {
                raw.push_str(&if r.pct(50) { format!("\\u{:04x}", u) } else { format!("\\u{:04X}", u) });
            }
            val.push(c);
        }
        2 => {
            raw.push('\\');
            raw.push(q);
            val.push(q);
        }
        3 => {
            // the other quote needs no escape
            let o = if q == '"' { '\'' } else { '"' };
            raw.push(o);
            val.push(o);
        }
        _ => {
            let mut c = wild_char(r);
            let v = c as u32;
            if v < 0x20 || v == 0x7f || v > 0x10FFFD || c == q || c == '\\' {
                c = 'z';
            }
            raw.push(c);
            val.push(c);
        }
    }
}

fn literals(cx: &mut Cx) -> Res {
    let (s, what) = spell(&mut cx.r);
    // Where the literal stands, and the tree around it.
    let l = match &what {
        Spell::Ok(l) => l.clone(),
        Spell::Bad(_) => Lit::U(0),
    };
    let t1 = tlit(l.clone());
    let spots: Vec<(String, Schema)> = vec![
        (format!("a = {}", s), Schema(vec![rule_t("a", ty1(t1.clone()))])),
        (format!("a = [{}]", s), Schema(vec![rule_t("a", ty1(T1::S(T2::Arr(Grp(vec![vec![member(t1.clone())]])))))])),
        (
            format!("a = {{ {}: int }}", s),
            Schema(vec![rule_t("a", ty1(T1::S(T2::Map(Grp(vec![vec![kv(Key::Lit(l.clone()), tyname("int"))]])))))]),
        ),
        (
            format!("a = {{{} => {}}}", s, s),
            Schema(vec![rule_t("a", ty1(T1::S(T2::Map(Grp(vec![vec![kv(Key::T(t1.clone(), false), ty1(t1.clone()))]])))))]),
        ),
        (
            format!("a = {}..{} / {}", s, s, s),
            Schema(vec![rule_t("a", Ty(vec![T1::R(T2::Lit(l.clone()), true, T2::Lit(l.clone())), t1.clone()]))]),
        ),
        (
            format!("a = x .eq {} / g<{}>", s, s),
            Schema(vec![rule_t("a", Ty(vec![T1::C(name("x"), "eq".into(), T2::Lit(l.clone())), T1::S(T2::Name("g".into(), vec![t1.clone()]))]))]),
        ),
    ];
    let n = cx.r.below(spots.len());
    let pick: Vec<usize> = if n == 0 { vec![0] } else { vec![0, n] };
    for i in pick {
        let (text, sc) = &spots[i];
        match &what {
            Spell::Ok(_) => expect(text, Some(&a_schema(sc)))?,
            Spell::Bad(k) => {
                expect(text, None)?;
                if i == 0 {
                    // standing alone, the error says what is malformed
                    let got = run::guard(|| cddl_cat::parse_cddl(text).err().map(|e| format!("{:?}", e.kind)));
                    if got != Ok(Some(k.to_string())) {
                        return viol(format!("the error for a malformed literal is {:?}, not {}", got, k), json!({"cddl": text}));
                    }
                }
            }
        }
        cx.st.evals += 1;
    }
    cx.st.nontrivial(hash_bytes(s.as_bytes()));
    match &what {
        Spell::Bad(k) => cx.st.inc(&format!("malformed_{}", k)),
        Spell::Ok(l) => {
            cx.st.inc(match l {
                Lit::U(_) => "uint_literals",
                Lit::N(_) => "nint_literals",
                Lit::F(_) => "float_literals",
                Lit::T(_) => "text_literals",
                Lit::B(_) => "byte_literals",
            });
            // The schema accepts exactly the value it names.
            let v = crate::model::litval(l);
            let text = &spots[0].0;
            let ok = run::cbor_bytes("a", text, &cbor_bytes(&v));
            if ok != Out::Ok {
                return viol(format!("the value a literal names is not accepted: {}", ok.show()), json!({"cddl": text, "value": show_val(&v)}));
            }
            for near in neighbours(&v, &mut cx.r) {
                if veq(&near, &v) {
                    continue;
                }
                let o = run::cbor_bytes("a", text, &cbor_bytes(&near));
                if !matches!(o, Out::Mis(_)) {
                    return viol(format!("a value a literal does not name: {}", o.show()), json!({"cddl": text, "value": show_val(&near)}));
                }
                cx.st.inc("near_values_rejected");
            }
        }
    }
    cx.sample(|| json!({"spelling": s, "means": format!("{:?}", what)}));
    Ok(())
}

fn neighbours(v: &Val, r: &mut Rng) -> Vec<Val> {
    match v {
        Val::Int(i) => {
            let mut o: Vec<i128> = vec![i + 1, i - 1, -i, i & 0xffff_ffff, -1 - i, i128::from(*i as i64), *i ^ (1 << r.below(63))];
            o.retain(|n| *n >= -(1i128 << 64) && *n < 1i128 << 64);
            let mut o: Vec<Val> = o.into_iter().map(Val::Int).collect();
            o.push(Val::Float(*i as f64));
            o.push(Val::Text(i.to_string()));
            o
        }
        Val::Float(f) => {
            let b = f.to_bits();
            let mut o: Vec<f64> = vec![f64::from_bits(b ^ 1), -f, f64::from_bits(b ^ (1 << r.below(63)))];
            o.push(f64::from(*f as f32));
            o.retain(|x| !x.is_nan() && *x != *f);
            let mut o: Vec<Val> = o.into_iter().map(Val::Float).collect();
            if f.abs() < 1e15 {
                o.push(Val::Int(*f as i128));
            }
            o
        }
        Val::Text(t) => {
            let mut o = vec![Val::Bytes(t.clone().into_bytes()), Val::Text(format!("{} ", t)), Val::Text(format!("{}\0", t))];
            if !t.is_empty() {
                let mut c: Vec<char> = t.chars().collect();
                c.remove(r.below(c.len()));
                o.push(Val::Text(c.into_iter().collect()));
                o.push(Val::Text(t.to_uppercase()));
            }
            o
        }
        Val::Bytes(b) => {
            let mut x = b.clone();
            x.push(0);
            let mut o = vec![Val::Bytes(x)];
            if let Ok(t) = String::from_utf8(b.clone()) {
                o.push(Val::Text(t));
            }
            if !b.is_empty() {
                o.push(Val::Bytes(b[1..].to_vec()));
                let mut y = b.clone();
                let i = r.below(y.len());
                y[i] ^= 1 << r.below(8);
                o.push(Val::Bytes(y));
            }
            o
        }
        _ => vec![],
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C14",
            quick: 180_000,
            thorough: 2_000_000,
            rule: "Each case builds a random syntax tree over every supported construct (whether or not it means anything), prints it canonically and with three random layouts (spaces, tabs, line ends, comments, optional commas, number bases, escapes, byte-string forms) and compares the library's tree with the one printed. Distinct: canonical text.",
            run: round_trip,
            stack: 64 << 20,
            shards: 8,
            assumptions: &["the harness printer follows RFC 8610's grammar; ambiguous spellings (such as a name directly followed by '..') are printed with the separating space the grammar needs"],
        },
        Prop {
            id: "C15",
            quick: 180_000,
            thorough: 2_000_000,
            rule: "Each case takes edited CDDL (character and token edits of generated text) or token soup; an independent recursive-descent recognizer decides whether it is CDDL and which tree it has, and the library must agree on both. Distinct: text.",
            run: rejection,
            stack: 64 << 20,
            shards: 8,
            assumptions: &["the recognizer implements the supported subset of RFC 8610's grammar with ordered choice; text nested over 48 levels is left undecided"],
        },
        Prop {
            id: "C16",
            quick: 1_000_000,
            thorough: 4_000_000,
            rule: "Each case spells one literal (integers in three bases around every limit, floats in every form, text and three byte-string forms with every escape, and malformed ones), puts it in up to two of six positions, and checks the parsed value; the schema must accept exactly that value and reject neighbouring ones. Distinct: spelling.",
            run: literals,
            stack: 64 << 20,
            shards: 8,
            assumptions: &["Rust's standard float parser gives the value of a decimal float"],
        },
    ]
}
