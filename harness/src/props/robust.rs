//! Properties about hostile input: no panic, no crash, no hang, no blow-up,
//! and malformed data is never accepted.
use super::diff::show_val;
use super::sem::{text_of, values, FUEL};
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use crate::print;
use crate::rng::{hash_bytes, mix, Rng};
use crate::run::{self, Kind, Out};
use crate::s::*;
use crate::san;
use crate::syn::*;
use crate::val::*;
use super::api::hex;
use cddl_cat::ast;
use cddl_cat::context::BasicContext;
use cddl_cat::ivt::{self, Node};
use serde_json::json;

fn short(s: &str) -> String {
    if s.len() <= 700 {
        return s.into();
    }
    format!("{}… ({} bytes)", s.chars().take(700).collect::<String>(), s.len())
}

// ---- C13 ------------------------------------------------------------------
/// Memory a call may hold: generous, but related to the size of its input.
fn mem_limit(input: usize) -> u64 {
    (64 << 20) + 20_000 * input as u64
}

fn no_panic<T>(cx: &mut Cx, what: &str, input: usize, data: &dyn Fn() -> serde_json::Value, f: impl FnOnce() -> T) -> Result<T, Viol> {
    if cx.verbose {
        println!("{}", what);
    }
    let s0 = san::steps();
    let (r, peak) = san::with_peak(|| run::guard(f));
    cx.st.max("steps_in_one_call", san::steps() - s0);
    cx.st.max("bytes_in_one_call", peak);
    cx.st.evals += 1;
    match r {
        Err(p) => viol(format!("{} panics: {}", what, short(&p)), data()),
        Ok(_) if peak > mem_limit(input) => viol(format!("{} held {} bytes for {} bytes of input", what, peak, input), data()),
        Ok(v) => Ok(v),
    }
}

/// Every entry point that takes text.
fn all_entry_points(cx: &mut Cx, text: &str, rule: &str, cb: &[u8], js: &str) -> Res {
    let n = text.len() + cb.len() + js.len();
    let d = || json!({"cddl": short(text), "rule": rule, "cbor": short(&hex(cb)), "json": short(js)});
    let p = no_panic(cx, "parse_cddl", n, &d, || {
        let r = cddl_cat::parse_cddl(text);
        match &r {
            Ok(t) => format!("{:?}", t).len(),
            Err(e) => format!("{} {:?}", e, e).len(),
        };
        r.is_ok()
    })?;
    no_panic(cx, "slice_parse_cddl", n, &d, || cddl_cat::parser::slice_parse_cddl(text).is_ok())?;
    let f = no_panic(cx, "flatten_from_str", n, &d, || match cddl_cat::flatten::flatten_from_str(text) {
        Ok(r) => {
            for d in r.values() {
                let _ = format!("{} {:?} {:?}", d.node, d.node, d.generic_parms);
            }
            true
        }
        Err(e) => {
            let _ = format!("{} {:?}", e, e);
            false
        }
    })?;
    no_panic(cx, "slice_flatten_from_str", n, &d, || cddl_cat::flatten::slice_flatten_from_str(text).is_ok())?;
    let o = no_panic(cx, "validate_cbor_bytes", n, &d, || show_res(cddl_cat::validate_cbor_bytes(rule, text, cb)))?;
    let o2 = no_panic(cx, "validate_json_str", n, &d, || show_res(cddl_cat::validate_json_str(rule, text, js)))?;
    cx.st.inc(if p { "text_parses" } else { "text_does_not_parse" });
    if f {
        cx.st.inc("text_flattens");
    }
    cx.st.inc(&format!("cbor_{}", o));
    cx.st.inc(&format!("json_{}", o2));
    Ok(())
}
fn show_res(r: cddl_cat::ValidateResult) -> String {
    match r {
        Ok(()) => "ok".into(),
        Err(e) => {
            let _ = format!("{} {:?}", e, e);
            run::classify(&e).class()
        }
    }
}

fn data_bytes(r: &mut Rng) -> Vec<u8> {
    match r.below(6) {
        0 => (0..r.below(40)).map(|_| r.u64() as u8).collect(),
        1 => {
            // nested without end
            let n = *r.pick(&[10, 100, 200, 255, 256, 257, 300, 1000, 20_000]);
            let mut b = vec![*r.pick(&[0x81u8, 0x9f, 0xa1, 0xbf, 0xc1, 0xd8, 0x82]); n];
            if b[0] == 0xa1 || b[0] == 0xbf {
                // key 0, then nest in the value
                b = b.iter().flat_map(|x| [*x, 0]).collect();
            }
            if r.pct(50) {
                b.push(1);
            }
            b
        }
        2 => {
            // absurd lengths
            let mt = *r.pick(&[0x40u8, 0x60, 0x80, 0xa0]);
            let mut b = match r.below(3) {
                0 => vec![mt | 27, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff],
                1 => vec![mt | 26, 0xff, 0xff, 0xff, 0xff],
                _ => vec![mt | 27, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff],
            };
            b.extend((0..r.below(10)).map(|_| r.u64() as u8));
            b
        }
        _ => {
            let v = junk(r, 3, false);
            let mut b = cbor_bytes_var(&v, r);
            for _ in 0..r.below(4) {
                damage_bytes(&mut b, r);
            }
            b
        }
    }
}
fn damage_bytes(b: &mut Vec<u8>, r: &mut Rng) {
    if b.is_empty() {
        b.push(r.u64() as u8);
        return;
    }
    let i = r.below(b.len());
    match r.below(7) {
        0 => b[i] ^= 1 << r.below(8),
        1 => b[i] = r.u64() as u8,
        2 => {
            b.remove(i);
        }
        3 => b.insert(i, *r.pick(&[0xff, 0x00, 0xf6, 0x5f, 0x7f, 0x9f, 0xbf, 0xc2, 0xfb, 0x1f, 0x3f, 0xf8, 0xfc, 0x61, 0x80])),
        4 => b.truncate(i),
        5 => {
            let e = (i + r.range(1, 5)).min(b.len());
            let p = b[i..e].to_vec();
            let j = r.below(b.len() + 1);
            b.splice(j..j, p);
        }
        _ => b.extend((0..r.range(1, 3)).map(|_| r.u64() as u8)),
    }
}
fn json_data(r: &mut Rng) -> String {
    match r.below(5) {
        0 => {
            let n = *r.pick(&[10, 100, 127, 128, 129, 500, 20_000]);
            let o = *r.pick(&["[", "{\"a\":", "[[],", "[1,"]);
            let mut s = o.repeat(n);
            if r.pct(50) {
                s.push('1');
            }
            s
        }
        1 => r.pick(&["1e999", "-1e999", "1e-999", "18446744073709551616", "-9223372036854775809", "1E400", "0.1e-400", "123456789012345678901234567890", "\"\\ud800\"", "\"\\u0000\"", "", " ", "nul", "[1,]", "{\"a\":1,}", "01", "+1", ".5", "1.", "NaN", "'a'", "\u{feff}1"]).to_string(),
        _ => {
            let v = junk(r, 3, true);
            let t = json_text_var(&v, r);
            let k = r.below(3);
            edit(&t, r, k)
        }
    }
}

const OPEN: &[(&str, &str)] = &[
    ("(", ")"),
    ("[", "]"),
    ("{", "}"),
    ("[a: ", "]"),
    ("{a: ", "}"),
    ("{a => ", "}"),
    ("&(", ")"),
    ("a<", ">"),
    ("[(", ")]"),
    ("[?(", ")]"),
    ("(a, ", ")"),
    ("[1*2 ", "]"),
    ("(int / ", ")"),
    ("[int // ", "]"),
    ("int .size (", ")"),
    ("1..(", ")"),
    ("~a<", ">"),
    ("&a<", ">"),
    ("{ * [", "] => int }"),
    ("; (\n[", "]"),
    ("((", "))"),
    ("[~", "]"),
    ("bstr .cbor [", "]"),
];

fn nest(r: &mut Rng) -> String {
    let n = match r.below(40) {
        0..=17 => r.range(1, 40),
        18..=33 => r.range(40, 130),
        34..=38 => r.range(130, 3000),
        _ => 20_000,
    };
    let mixed = r.pct(30);
    let pat = r.below(OPEN.len());
    let mut o = String::from("a = ");
    let mut c = vec![];
    for _ in 0..n {
        let (x, y) = if mixed { *r.pick(OPEN) } else { OPEN[pat] };
        o.push_str(x);
        c.push(y);
    }
    o.push_str(*r.pick(&["int", "1", "a", "\"x", "0x", ""]));
    if r.pct(75) {
        for y in c.into_iter().rev() {
            o.push_str(y);
        }
    }
    o
}
fn long(r: &mut Rng) -> String {
    let n = *r.pick(&[1, 2, 3, 10, 60, 64, 65, 100, 130, 300, 1000]) * if r.pct(5) { 30 } else { 1 };
    let (head, unit, tail) = *r.pick(&[
        ("a = int", " / int", ""),
        ("a = [int", ", int", "]"),
        ("a = [int", " int", "]"),
        ("a = {", "b: int, ", "}"),
        ("a = {", "? b => int, ", "}"),
        ("a = [int", " // int", "]"),
        ("a = int", "; c\n", ""),
        ("a = int", "\nb = int", ""),
        ("a = b<int", ", int", ">"),
        ("a<b", ", b", "> = int"),
        ("a = \"", "x", "\""),
        ("a = \"", "\\n", "\""),
        ("a = '", "\\'", "'"),
        ("a = h'", "00", "'"),
        ("a = b64'", "AAAA", "'"),
        ("a = ", "0", ""),
        ("a = 1", "1", ""),
        ("a = 0x", "f", ""),
        ("a = 1.", "1", ""),
        ("a = 1e", "9", ""),
        ("a = b", "-b", ""),
        ("a = b", "-.", "c"),
        ("a = b", "-", ""),
        ("a = ", "~", "b"),
        ("a = ", "&", "b"),
        ("a = [", "*", "int]"),
        ("a = [", "? int ", "]"),
        ("a = int", " .size 1", ""),
        ("a = 1", "..2", ""),
        ("", "\n", "a = int"),
        ("", ";", "\na = int"),
        ("a = [", "(),", "]"),
        ("a = [", "* (),", "]"),
        ("a = tstr .regexp \"", "(a|b)*", "\""),
        ("a = tstr .regexp \"", "(a", "\""),
        ("a = tstr .regexp \"a", "{2,9}", "\""),
        ("a = tstr .regexp \"a", "{100}", "\""),
        ("a = &(", "a: 1, ", ")"),
    ]);
    format!("{}{}{}", head, unit.repeat(n), tail)
}

/// Rules that refer to themselves, and huge counts.
const TRAPS: &[&str] = &[
    "a = a",
    "a = b b = a",
    "a = [a]",
    "a = [* a]",
    "a = [? a]",
    "a = [a, a]",
    "a = [+ a, * a]",
    "a = {a}",
    "a = {* a}",
    "a = {a: a}",
    "a = {? x: a}",
    "a = {* tstr => a}",
    "a = {* a => a}",
    "a = {a => int}",
    "a = (a)",
    "a = (a, a)",
    "a = [b] b = (b)",
    "a = [b] b = (int, b)",
    "a = [b] b = (? int, ? b)",
    "a = [b] b = (b // int)",
    "a = [b] b = (int // b)",
    "a = {b} b = (? x: int, b)",
    "a = {b} b = (* tstr => any, ? b)",
    "a = [~a]",
    "a = [~b] b = [~a]",
    "a = {~a}",
    "a = {~b} b = {~b, x: int}",
    "a = &a",
    "a = &b b = (b)",
    "a = &b b = (x: &b)",
    "a = &(a)",
    "a = &(x: a)",
    "a = a / a",
    "a = int / a",
    "a = a / int",
    "a = (a) / [a] / {x: a}",
    "a = a .size 3",
    "a = bstr .cbor a",
    "a = bstr .size a",
    "a = a .. a",
    "a = 1 .. a",
    "a = a .lt a",
    "a = int .lt b b = b",
    "a = g<a> g<t> = t",
    "a = g<int> g<t> = g<t>",
    "a = g<int> g<t> = g<[t]>",
    "a = g<int> g<t> = [g<[t]>]",
    "a = g<int> g<t> = [? g<{x: t}>]",
    "a = g<int> g<t> = g<g<t>>",
    "a = g<int> g<t> = t / g<[* t]>",
    "a = g<g> g<t> = t<t>",
    "a = g<g<g<int>>> g<t> = [* t]",
    "a = g<int, int> g<t> = t",
    "a = g g<t> = t",
    "a = g<int> g = [int]",
    "a = t g<t> = t",
    "a = g<b> b<t> = t g<t> = t",
    "a = g<t> g<t> = t",
    "a<t> = t",
    "a<a> = a",
    "a = [* ()]",
    "a = [+ ()]",
    "a = [18446744073709551615* ()]",
    "a = [* (* ())]",
    "a = [* (? int)]",
    "a = [* (* int)]",
    "a = [+ (* int, * tstr)]",
    "a = {* ()}",
    "a = {* (? x: int)}",
    "a = {* (* tstr => int)}",
    "a = [18446744073709551615*18446744073709551615 int]",
    "a = [0*18446744073709551615 int]",
    "a = [18446744073709551615*0 int]",
    "a = [5*2 int]",
    "a = {18446744073709551615*18446744073709551615 tstr => int}",
    "a = {5*2 tstr => any}",
    "a = 18446744073709551615 .. 0",
    "a = 0 ... 0",
    "a = 0 .. 18446744073709551615",
    "a = -9223372036854775808 .. 18446744073709551615",
    "a = -9223372036854775808 ... -9223372036854775808",
    "a = 1.5 .. 1e308",
    "a = 1e400 .. -1e400",
    "a = uint .size 18446744073709551615",
    "a = uint .size 16",
    "a = uint .size 15",
    "a = uint .size 8",
    "a = uint .size 0",
    "a = int .size 16",
    "a = nint .size 16",
    "a = uint .size (0..18446744073709551615)",
    "a = uint .size (1..16)",
    "a = uint .size (18446744073709551615..1)",
    "a = uint .size (5..2)",
    "a = uint .size (0...0)",
    "a = bstr .size (0...0)",
    "a = bstr .size (-5..5)",
    "a = bstr .size -1",
    "a = bstr .size 1.5",
    "a = tstr .size 18446744073709551615",
    "a = tstr .size (18446744073709551615...0)",
    "a = int .lt 18446744073709551615",
    "a = int .le -9223372036854775808",
    "a = int .gt 1.5",
    "a = int .ge \"x\"",
    "a = tstr .regexp \"(((((a*)*)*)*)*)*$\"",
    "a = tstr .regexp \"\\\\\"",
    "a = tstr .regexp \"[\"",
    "a = tstr .regexp \"(?i)\\\\p{Greek}{1000}\"",
    "a = tstr .regexp 5",
    "a = tstr .regexp b b = \"x\"",
    "a = bstr .cbor bstr",
    "a = bstr .cbor (bstr .cbor (bstr .cbor int))",
    "a = tstr .cbor int",
    "a = {[1] => int, {x: 1} => int, 1.5 => int, h'00' => int, nil => int}",
    "a = {* [* any] => {* any => any}}",
    "a = {1..5 => int, ~b} b = [int]",
    "a = [~b] b = {x: int}",
    "a = [~b] b = int",
    "a = [&b] b = (x: 1, y: [int], z: {w: 1})",
    "a = [&(1, \"x\", b)] b = (y: 2)",
    "a = {&(1, 2) => int}",
    "a = {x: int, x: tstr}",
    "a = {(int,)}",
    "a = {int}",
    "a = {()}",
    "a = [()]",
    "a = ()",
    "a = ? int",
    "a = * [* a]",
    "a = any a = int",
    "any = int a = any",
    "int = tstr a = int",
    "true = false a = true",
    "a = $x",
    "a = {$$x}",
];

fn hostile_ctx(cx: &mut Cx) -> Res {
    // hand-built trees, not limited to what the parser produces
    let a = ast::Cddl { rules: (0..cx.r.range(1, 4)).map(|i| wild_rule(&mut cx.r, i)).collect() };
    let shown = || json!({"ast": short(&format!("{:?}", a))});
    let flat = no_panic(cx, "flatten of a hand-built tree", 1000, &shown, || match cddl_cat::flatten::flatten(&a) {
        Ok(r) => {
            for d in r.values() {
                let _ = format!("{} {:?}", d.node, d.node);
            }
            Some(r)
        }
        Err(e) => {
            let _ = format!("{} {:?}", e, e);
            None
        }
    })?;
    if let Some(rules) = flat {
        cx.st.inc("hand_built_trees_flattened");
        let ctx = BasicContext::new(rules);
        try_values(cx, &ctx, &shown)?;
    }
    cx.st.nontrivial(hash_bytes(format!("{:?}", a).as_bytes()));
    Ok(())
}
fn hostile_ivt(cx: &mut Cx) -> Res {
    let mut rules = ivt::RulesByName::new();
    for i in 0..cx.r.range(1, 4) {
        let ps: Vec<String> = if cx.r.pct(20) { vec!["p".into()] } else { vec![] };
        rules.insert(["a", "b", "c", "d"][i].to_string(), ivt::RuleDef { generic_parms: ps, node: wild_node(&mut cx.r, 3) });
    }
    let ctx = BasicContext::new(rules);
    let shown = format!("{:?}", ctx.rules);
    try_values(cx, &ctx, &|| json!({"rules": short(&shown)}))?;
    cx.st.inc("hand_built_nodes");
    cx.st.nontrivial(hash_bytes(shown.as_bytes()));
    Ok(())
}
fn try_values(cx: &mut Cx, ctx: &BasicContext, shown: &dyn Fn() -> serde_json::Value) -> Res {
    let defs: Vec<_> = ctx.rules.values().cloned().collect();
    for d in defs {
        for _ in 0..3 {
            let v = wild_value(&mut cx.r, 3);
            let o = no_panic(cx, "validate_cbor", 2000, &|| json!({"schema": shown(), "value": short(&format!("{:?}", v))}), || {
                show_res(cddl_cat::cbor::validate_cbor(&d, &v, ctx))
            })?;
            cx.st.inc(&format!("hand_built_{}", o));
            let j = junk(&mut cx.r, 3, true).to_json_value();
            no_panic(cx, "validate_json", 2000, &|| json!({"schema": shown(), "value": short(&j.to_string())}), || show_res(cddl_cat::json::validate_json(&d, &j, ctx)))?;
        }
    }
    Ok(())
}

/// A decoded CBOR value, including what cannot be encoded plainly.
fn wild_value(r: &mut Rng, d: usize) -> ciborium::Value {
    use ciborium::Value as C;
    if d == 0 || r.pct(55) {
        return match r.below(12) {
            0 => C::Tag(*r.pick(&[0, 2, 3, 55799, u64::MAX]), Box::new(C::Bytes(vec![255; r.below(20)]))),
            1 => C::Float(*r.pick(&[f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, f64::MIN_POSITIVE, 5e-324, f64::MAX])),
            2 => C::Integer(u64::MAX.into()),
            3 => C::Integer(ciborium::value::Integer::try_from(-(1i128 << 64)).unwrap()),
            4 => C::Integer(i64::MIN.into()),
            _ => junk(r, 1, false).to_ciborium(),
        };
    }
    if r.pct(50) {
        C::Array((0..r.below(4)).map(|_| wild_value(r, d - 1)).collect())
    } else {
        C::Map((0..r.below(4)).map(|_| (wild_value(r, d - 1), wild_value(r, d - 1))).collect())
    }
}

fn wild_name(r: &mut Rng) -> String {
    if r.pct(6) {
        return r.pick(&["", "no such", "é"]).to_string();
    }
    r.pick(&["a", "b", "c", "d", "p", "int", "uint", "tstr", "bstr", "any", "nil", "true", "float"]).to_string()
}
fn wild_occ(r: &mut Rng) -> ast::Occur {
    match r.below(6) {
        0 => ast::Occur::Optional,
        1 => ast::Occur::ZeroOrMore,
        2 => ast::Occur::OneOrMore,
        3 => ast::Occur::Numbered(r.below(4), r.below(4)),
        4 => ast::Occur::Numbered(usize::MAX, usize::MAX),
        _ => ast::Occur::Numbered(*r.pick(&[0, 1, usize::MAX - 1]), *r.pick(&[0, 1, usize::MAX, usize::MAX - 1])),
    }
}
fn wild_lit(r: &mut Rng) -> ast::Value {
    match r.below(8) {
        0 => ast::Value::Nint(*r.pick(&[5, 0, i64::MAX, i64::MIN, -1])),
        1 => ast::Value::Float(*r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, 1e308])),
        2 => ast::Value::Uint(*r.pick(&[0, 1, 16, 17, 127, 128, u64::MAX, 1 << 63])),
        _ => a_lit(&pick_lit(r, false)),
    }
}
fn wild_ng(r: &mut Rng, d: usize) -> ast::NameGeneric {
    let n = if d > 0 && r.pct(20) { r.range(1, 2) } else { 0 };
    ast::NameGeneric { name: wild_name(r), generic_args: (0..n).map(|_| wild_t1(r, d - 1)).collect() }
}
fn wild_t2(r: &mut Rng, d: usize) -> ast::Type2 {
    match if d == 0 { r.below(7) } else { r.below(12) } {
        0 | 1 => ast::Type2::Value(wild_lit(r)),
        2..=4 => ast::Type2::Typename(wild_ng(r, d)),
        5 => ast::Type2::Unwrap(wild_ng(r, d)),
        6 => ast::Type2::Choiceify(wild_ng(r, d)),
        7 => ast::Type2::Parethesized(wild_ty(r, d - 1)),
        8 => ast::Type2::Map(wild_grp(r, d - 1)),
        9 | 10 => ast::Type2::Array(wild_grp(r, d - 1)),
        _ => ast::Type2::ChoiceifyInline(wild_grp(r, d - 1)),
    }
}
fn wild_t1(r: &mut Rng, d: usize) -> ast::Type1 {
    match r.below(8) {
        0 => ast::Type1::Range(ast::TypeRange { start: wild_t2(r, d), end: wild_t2(r, d), inclusive: r.pct(50) }),
        1 => ast::Type1::Control(ast::TypeControl {
            target: wild_t2(r, d),
            arg: wild_t2(r, d),
            op: r.pick(&["size", "lt", "le", "gt", "ge", "regexp", "cbor", "size", "lt", "le", "gt", "ge", "regexp", "cbor", "eq", "", "é"]).to_string(),
        }),
        _ => ast::Type1::Simple(wild_t2(r, d)),
    }
}
fn wild_ty(r: &mut Rng, d: usize) -> ast::Type {
    // no alternatives at all is possible too
    let n = *r.pick(&[0, 1, 1, 1, 1, 1, 2, 3]);
    ast::Type((0..n).map(|_| wild_t1(r, d)).collect())
}
fn wild_grp(r: &mut Rng, d: usize) -> ast::Group {
    let n = *r.pick(&[0, 1, 1, 1, 1, 2]);
    ast::Group((0..n).map(|_| ast::GrpChoice((0..r.below(4)).map(|_| wild_ent(r, d)).collect())).collect())
}
fn wild_ent(r: &mut Rng, d: usize) -> ast::GrpEnt {
    let val = match r.below(8) {
        0 => ast::GrpEntVal::Groupname(wild_name(r)),
        1 if d > 0 => ast::GrpEntVal::Parenthesized(wild_grp(r, d - 1)),
        _ => ast::GrpEntVal::Member(ast::Member {
            key: if r.pct(45) {
                Some(ast::MemberKey {
                    val: match r.below(3) {
                        0 => ast::MemberKeyVal::Bareword(wild_name(r)),
                        1 => ast::MemberKeyVal::Value(wild_lit(r)),
                        _ => ast::MemberKeyVal::Type1(wild_t1(r, d.min(1))),
                    },
                    cut: r.pct(50),
                })
            } else {
                None
            },
            value: wild_ty(r, d),
        }),
    };
    ast::GrpEnt { occur: if r.pct(30) { Some(wild_occ(r)) } else { None }, val }
}
fn wild_rule(r: &mut Rng, i: usize) -> ast::Rule {
    ast::Rule {
        name: if r.pct(95) { ["a", "b", "c", "d"][i].into() } else { wild_name(r) },
        generic_parms: if r.pct(20) { (0..r.range(1, 2)).map(|_| wild_name(r)).collect() } else { vec![] },
        val: if r.pct(75) { ast::RuleVal::AssignType(wild_ty(r, 3)) } else { ast::RuleVal::AssignGroup(wild_ent(r, 3)) },
    }
}

fn wild_inode(r: &mut Rng, d: usize) -> Box<Node> {
    Box::new(wild_node(r, d))
}
fn wild_ilit(r: &mut Rng) -> ivt::Literal {
    match r.below(7) {
        0 => ivt::Literal::Bool(r.pct(50)),
        1 => ivt::Literal::Int(*r.pick(&[0, 1, -1, 16, 1 << 64, i128::MAX, i128::MIN, 1 << 100, -(1 << 100), i128::MAX - 1])),
        2 => ivt::Literal::Float(*r.pick(&[f64::NAN, f64::INFINITY, 0.0, -0.0, 1.5])),
        3 => ivt::Literal::Text(pick_text(r)),
        4 => ivt::Literal::Bytes(pick_bytes(r)),
        _ => ivt::Literal::Int(i128::from(r.irange(-5, 20))),
    }
}
fn wild_irule(r: &mut Rng, d: usize) -> ivt::Rule {
    ivt::Rule { name: wild_name(r), generic_args: if d > 0 && r.pct(15) { vec![wild_node(r, d - 1)] } else { vec![] } }
}
fn wild_nodes(r: &mut Rng, d: usize) -> Vec<Node> {
    (0..r.below(4)).map(|_| wild_node(r, d)).collect()
}
fn wild_node(r: &mut Rng, d: usize) -> Node {
    use ivt::PreludeType as P;
    if d == 0 {
        return match r.below(4) {
            0 => Node::Literal(wild_ilit(r)),
            1 => Node::Rule(wild_irule(r, 0)),
            _ => Node::PreludeType(*r.pick(&[P::Any, P::Nil, P::Bool, P::Int, P::Uint, P::Nint, P::Float, P::Tstr, P::Bstr])),
        };
    }
    match r.below(17) {
        0 => Node::Literal(wild_ilit(r)),
        1 | 2 => Node::Rule(wild_irule(r, d)),
        3 => Node::Choice(ivt::Choice { options: wild_nodes(r, d - 1) }),
        4 | 5 => Node::Map(ivt::Map { members: wild_nodes(r, d - 1) }),
        6 | 7 => Node::Array(ivt::Array { members: wild_nodes(r, d - 1) }),
        8 => Node::Group(ivt::Group { members: wild_nodes(r, d - 1) }),
        9 | 10 => Node::KeyValue(ivt::KeyValue { key: wild_inode(r, d - 1), value: wild_inode(r, d - 1), cut: r.pct(50) }),
        11 => Node::Occur(ivt::Occur { limit: wild_occ(r), node: wild_inode(r, d - 1) }),
        12 => Node::Unwrap(wild_irule(r, d)),
        13 => Node::Range(ivt::Range { start: wild_inode(r, d - 1), end: wild_inode(r, d - 1), inclusive: r.pct(50) }),
        14 => {
            let t = wild_inode(r, d - 1);
            let a = wild_inode(r, d - 1);
            Node::Control(match r.below(5) {
                0 => ivt::Control::Size(ivt::CtlOpSize { target: t, size: a }),
                1 => ivt::Control::Lt(ivt::CtlOpLt { target: t, lt: a }),
                2 => ivt::Control::Le(ivt::CtlOpLe { target: t, le: a }),
                3 => ivt::Control::Gt(ivt::CtlOpGt { target: t, gt: a }),
                _ => ivt::Control::Ge(ivt::CtlOpGe { target: t, ge: a }),
            })
        }
        15 => Node::Choiceify(wild_irule(r, d)),
        _ => Node::ChoiceifyInline(ivt::Array { members: wild_nodes(r, d - 1) }),
    }
}

fn totality(cx: &mut Cx) -> Res {
    let cls = cx.idx % 8;
    match cls {
        0 => {
            let text = if cx.r.pct(50) { nest(&mut cx.r) } else { long(&mut cx.r) };
            let (b, j) = (data_bytes(&mut cx.r), json_data(&mut cx.r));
            cx.st.inc("nested_or_long_text");
            cx.st.max("text_bytes", text.len() as u64);
            all_entry_points(cx, &text, "a", &b, &j)?;
            cx.st.nontrivial(hash_bytes(text.as_bytes()));
        }
        1 => {
            let n = cx.r.range(0, 60);
            let text: String = if cx.r.pct(50) { (0..n).map(|_| wild_char(&mut cx.r)).collect() } else { soup(&mut cx.r, n) };
            let (b, j) = (data_bytes(&mut cx.r), json_data(&mut cx.r));
            cx.st.inc("random_text");
            all_entry_points(cx, &text, "a", &b, &j)?;
            cx.st.nontrivial(hash_bytes(text.as_bytes()));
        }
        2 => {
            let mut text = cx.r.pick(TRAPS).to_string();
            for _ in 0..cx.r.below(3) {
                // combine a few
                let t = cx.r.pick(TRAPS).replace('a', "q");
                text = if cx.r.pct(50) { format!("{}\n{}", text, t) } else { format!("{}\n{}", text.replace("int", "q"), t) };
            }
            if cx.r.pct(20) {
                text = edit(&text, &mut cx.r, 1);
            }
            let b = data_bytes(&mut cx.r);
            let v = junk(&mut cx.r, 3, true);
            cx.st.inc("trap_schemas");
            all_entry_points(cx, &text, "a", &b, &json_text(&v))?;
            let b = cbor_bytes(&junk(&mut cx.r, 3, false));
            let j = json_data(&mut cx.r);
            all_entry_points(cx, &text, "a", &b, &j)?;
            cx.st.nontrivial(hash_bytes(text.as_bytes()));
        }
        3 => hostile_ctx(cx)?,
        4 => hostile_ivt(cx)?,
        5 => {
            // nonsense that parses
            let sc = Syn { r: &mut cx.r, budget: 30 }.schema(3);
            let mut sc = sc;
            sc.0[0].name = "a".into();
            let text = print::canon(&sc);
            let (b, j) = (cbor_bytes(&junk(&mut cx.r, 3, false)), json_text(&junk(&mut cx.r, 3, true)));
            cx.st.inc("nonsense_schemas");
            all_entry_points(cx, &text, "a", &b, &j)?;
            cx.st.nontrivial(hash_bytes(text.as_bytes()));
        }
        _ => {
            // sensible schemas, hostile data
            let mut c = Cfg::base();
            c.depth = cx.r.range(1, 3);
            let (sc, root, _) = Gen::schema(&mut cx.r, &c);
            let text = if cx.r.pct(60) {
                text_of(&sc, &mut cx.r)
            } else {
                let t = print::canon(&sc);
                edit(&t, &mut cx.r, 2)
            };
            for v in values(&sc, &root, &mut cx.r, false, 0, 2) {
                let mut b = cbor_bytes_var(&v, &mut cx.r);
                let js = if v.json_ok() { json_text(&v) } else { json_data(&mut cx.r) };
                let k = cx.r.below(3);
                let js = edit(&js, &mut cx.r, k);
                for _ in 0..cx.r.below(3) {
                    damage_bytes(&mut b, &mut cx.r);
                }
                if b.len() > 600 || decide(&sc, &root, &v, FUEL).0 == Verdict::Undecided {
                    continue;
                }
                cx.st.inc("damaged_data");
                all_entry_points(cx, &text, &root, &b, &js)?;
                cx.st.nontrivial(hash_bytes(text.as_bytes()) ^ mix(hash_bytes(&b)));
            }
        }
    }
    cx.sample(|| json!({"class": cls, "note": "see the counters for what each class exercised"}));
    Ok(())
}

// ---- C24 ------------------------------------------------------------------
/// Whether `s` is exactly one JSON text (RFC 8259).  None: grammatical, but
/// outside what a decoder must handle (numbers out of range, lone surrogates,
/// very deep nesting).
fn json_valid(s: &str) -> Option<bool> {
    struct P<'a> {
        b: &'a [u8],
        i: usize,
        odd: bool,
        d: usize,
    }
    impl P<'_> {
        fn pk(&self) -> u8 {
            self.b.get(self.i).copied().unwrap_or(0)
        }
        fn ws(&mut self) {
            while matches!(self.b.get(self.i), Some(b' ' | b'\t' | b'\n' | b'\r')) {
                self.i += 1;
            }
        }
        fn digits(&mut self) -> bool {
            let st = self.i;
            while self.pk().is_ascii_digit() {
                self.i += 1;
            }
            self.i > st
        }
        fn num(&mut self) -> bool {
            let st = self.i;
            if self.pk() == b'-' {
                self.i += 1;
            }
            match self.pk() {
                b'0' => self.i += 1,
                b'1'..=b'9' => {
                    self.digits();
                }
                _ => return false,
            }
            if self.pk() == b'.' {
                self.i += 1;
                if !self.digits() {
                    return false;
                }
            }
            if matches!(self.pk(), b'e' | b'E') {
                self.i += 1;
                if matches!(self.pk(), b'+' | b'-') {
                    self.i += 1;
                }
                if !self.digits() {
                    return false;
                }
            }
            let t = std::str::from_utf8(&self.b[st..self.i]).unwrap();
            if !t.parse::<f64>().is_ok_and(f64::is_finite) {
                self.odd = true;
            }
            true
        }
        fn hex4(&mut self) -> Option<u32> {
            let mut v = 0;
            for _ in 0..4 {
                v = v * 16 + (self.pk() as char).to_digit(16)?;
                self.i += 1;
            }
            Some(v)
        }
        fn string(&mut self) -> bool {
            self.i += 1;
            loop {
                let Some(c) = self.b.get(self.i).copied() else { return false };
                self.i += 1;
                match c {
                    b'"' => return true,
                    0..=0x1f => return false,
                    b'\\' => {
                        let e = self.pk();
                        self.i += 1;
                        match e {
                            b'"' | b'\\' | b'/' | b'b' | b'f' | b'n' | b'r' | b't' => {}
                            b'u' => {
                                let Some(u) = self.hex4() else { return false };
                                if (0xD800..0xDC00).contains(&u) {
                                    if self.pk() == b'\\' && self.b.get(self.i + 1) == Some(&b'u') {
                                        self.i += 2;
                                        let Some(l) = self.hex4() else { return false };
                                        if !(0xDC00..0xE000).contains(&l) {
                                            self.odd = true;
                                        }
                                    } else {
                                        self.odd = true;
                                    }
                                } else if (0xDC00..0xE000).contains(&u) {
                                    self.odd = true;
                                }
                            }
                            _ => return false,
                        }
                    }
                    _ => {}
                }
            }
        }
        fn val(&mut self) -> bool {
            self.ws();
            self.d += 1;
            if self.d > 100 {
                self.odd = true;
                return false;
            }
            let ok = match self.pk() {
                b'n' => self.word("null"),
                b't' => self.word("true"),
                b'f' => self.word("false"),
                b'"' => self.string(),
                b'[' => {
                    self.i += 1;
                    self.ws();
                    if self.pk() == b']' {
                        self.i += 1;
                        true
                    } else {
                        loop {
                            if !self.val() {
                                break false;
                            }
                            self.ws();
                            let c = self.pk();
                            self.i += 1;
                            match c {
                                b',' => {}
                                b']' => break true,
                                _ => break false,
                            }
                        }
                    }
                }
                b'{' => {
                    self.i += 1;
                    self.ws();
                    if self.pk() == b'}' {
                        self.i += 1;
                        true
                    } else {
                        loop {
                            self.ws();
                            if self.pk() != b'"' || !self.string() {
                                break false;
                            }
                            self.ws();
                            if self.pk() != b':' {
                                break false;
                            }
                            self.i += 1;
                            if !self.val() {
                                break false;
                            }
                            self.ws();
                            let c = self.pk();
                            self.i += 1;
                            match c {
                                b',' => {}
                                b'}' => break true,
                                _ => break false,
                            }
                        }
                    }
                }
                _ => self.num(),
            };
            self.d -= 1;
            ok
        }
        fn word(&mut self, w: &str) -> bool {
            let ok = self.b[self.i..].starts_with(w.as_bytes());
            self.i += w.len();
            ok
        }
    }
    let mut p = P { b: s.as_bytes(), i: 0, odd: false, d: 0 };
    let ok = p.val();
    if p.odd {
        return None;
    }
    if !ok {
        return Some(false);
    }
    p.ws();
    Some(p.i == s.len())
}

/// Every CBOR input of one or two bytes, and some of three.
fn short_cbor(cx: &mut Cx) -> Res {
    let text = *cx.r.pick(&["a = any", "a = null / bool / int / float / tstr / bstr / [* any] / { * any => any }"]);
    for k in 0..=SHORT_STEP {
        let n = cx.idx as usize * SHORT_STEP + k;
        let b = if k == SHORT_STEP {
            vec![*cx.r.pick(&[0xf9, 0x82, 0xa1, 0x61, 0x62, 0x81, 0x9f, 0xbf, 0xc1, 0xd8, 0x19, 0x39, 0x7f, 0x5f]), cx.r.below(256) as u8, cx.r.below(256) as u8]
        } else if n < 256 {
            vec![n as u8]
        } else {
            vec![((n - 256) >> 8) as u8, (n - 256) as u8]
        };
        let o = run_bytes(cx, "a", text, &b)?;
        cx.st.evals += 1;
        let ok = match decode(&b) {
            Dec::Bad | Dec::Unrep(_) => matches!(o, Out::Fatal(Kind::Value, _)),
            Dec::Other => !matches!(o, Out::Panic(_)),
            Dec::Val(_) => matches!(o, Out::Ok),
        };
        if !ok {
            return viol(format!("short input: {}", o.show()), json!({"cddl": text, "rule": "a", "cbor": hex(&b)}));
        }
        cx.st.inc("short_inputs");
    }
    cx.st.nontrivial(mix(cx.idx ^ 0x5407));
    Ok(())
}
const SHORT_STEP: usize = 64;

fn malformed(cx: &mut Cx) -> Res {
    if (cx.idx as usize) * SHORT_STEP < 256 + 65536 {
        return short_cbor(cx);
    }
    // A schema with the value it describes, and damaged encodings of it.
    let (text, root, sc, v) = if cx.r.pct(40) {
        ("a = any".to_string(), "a".to_string(), Schema(vec![rule_t("a", tyname("any"))]), junk(&mut cx.r, 3, cx.idx % 2 == 0))
    } else {
        let mut c = Cfg::base();
        c.depth = cx.r.range(1, 3);
        c.json = cx.idx % 2 == 0;
        let (sc, root, _) = Gen::schema(&mut cx.r, &c);
        let v = values(&sc, &root, &mut cx.r, c.json, 0, 1).pop();
        let Some(v) = v else { return Ok(()) };
        (print::canon(&sc), root, sc, v)
    };
    if decide(&sc, &root, &v, FUEL).0 == Verdict::Undecided || v.size() > 200 {
        return Ok(());
    }
    for i in 0..6 {
        let mut b = cbor_bytes_var(&v, &mut cx.r);
        match i {
            0 if !b.is_empty() => {
                let n = cx.r.below(b.len());
                b.truncate(n);
            }
            1 => b.push(*cx.r.pick(&[0, 0xf6, 0xff, 0x80, 0x01])),
            2 => {
                let w = cbor_bytes(&junk(&mut cx.r, 1, false));
                b.extend(w);
            }
            _ => {
                for _ in 0..cx.r.range(1, 2) {
                    damage_bytes(&mut b, &mut cx.r);
                }
            }
        }
        if b.len() > 3000 {
            continue;
        }
        let o = run_bytes(cx, &root, &text, &b)?;
        let data = || json!({"cddl": text, "rule": root, "cbor": hex(&b)});
        cx.st.evals += 1;
        match decode(&b) {
            Dec::Bad => {
                cx.st.inc("malformed_cbor");
                if !matches!(o, Out::Fatal(Kind::Value, _)) {
                    return viol(format!("bytes that are not one CBOR item: {}", o.show()), data());
                }
            }
            Dec::Other => cx.st.inc("unusual_cbor"),
            Dec::Unrep(_) => {
                cx.st.inc("unrepresentable_cbor");
                if !matches!(o, Out::Fatal(Kind::Value, _)) {
                    return viol(format!("an item with no place in the data model: {}", o.show()), data());
                }
            }
            Dec::Val(w) => {
                cx.st.inc("still_wellformed_cbor");
                let (verd, _) = decide(&sc, &root, &w, FUEL);
                if verd == Verdict::Undecided && !matches!(o, Out::Panic(_)) {
                    cx.st.inc("undecided");
                } else if !super::diff::agrees(&verd, &o) {
                    return viol(format!("bytes that encode another value: {} (expected {:?})", o.show(), verd), json!({"cddl": text, "rule": root, "cbor": hex(&b), "value": show_val(&w)}));
                }
            }
        }
        cx.st.nontrivial(hash_bytes(&b) ^ mix(hash_bytes(text.as_bytes())));
    }
    if v.json_text_ok() {
        for i in 0..6 {
            let mut j = json_text_var(&v, &mut cx.r);
            match i {
                0 => j.push_str(*cx.r.pick(&["1", " 1", "]", ",", "}", "null", "\0", "\u{a0}", "//", "\"", "x"])),
                1 => {
                    let mut n = cx.r.below(j.len());
                    while !j.is_char_boundary(n) {
                        n -= 1;
                    }
                    j.truncate(n);
                }
                _ => {
                    let k = cx.r.range(1, 2);
                    j = edit(&j, &mut cx.r, k);
                }
            }
            let o = run::json_str(&root, &text, &j);
            cx.st.evals += 1;
            match json_valid(&j) {
                Some(false) => {
                    cx.st.inc("malformed_json");
                    if !matches!(o, Out::Fatal(Kind::Value, _)) {
                        return viol(format!("text that is not JSON: {}", o.show()), json!({"cddl": text, "rule": root, "json": j}));
                    }
                }
                Some(true) => {
                    cx.st.inc("still_wellformed_json");
                    if matches!(o, Out::Fatal(..)) && root == "a" && text == "a = any" || matches!(o, Out::Panic(_)) {
                        return viol(format!("well-formed JSON: {}", o.show()), json!({"cddl": text, "rule": root, "json": j}));
                    }
                }
                None => cx.st.inc("unusual_json"),
            }
            cx.st.nontrivial(hash_bytes(j.as_bytes()) ^ mix(hash_bytes(text.as_bytes())));
        }
    }
    cx.sample(|| json!({"cddl": text, "rule": root, "value": show_val(&v)}));
    Ok(())
}
fn run_bytes(cx: &mut Cx, root: &str, text: &str, b: &[u8]) -> Result<Out, Viol> {
    let _ = cx;
    Ok(run::cbor_bytes(root, text, b))
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C13",
            quick: 130_000,
            thorough: 2_500_000,
            rule: "Eight classes of hostile input, in turn: nested and long text, random text, recursive and overflowing schemas, hand-built trees, hand-built prepared schemas, nonsense that parses, and (twice) damaged data for sensible schemas; every public entry point runs on a 2 MiB stack under a step budget and a memory meter. Distinct: inputs by content.",
            run: totality,
            stack: 2 << 20,
            shards: 8,
            assumptions: &["the code under test is compiled with overflow checks and debug assertions", "a call that needs over 400 million instrumented edges is a hang"],
        },
        Prop {
            id: "C24",
            quick: 130_000,
            thorough: 2_000_000,
            rule: "All CBOR inputs of one and two bytes, then each case damages encodings of a value (truncation, trailing bytes, byte and token edits); independent CBOR and JSON recognizers decide whether it is still well formed. Malformed data must be an error of the data, never a match; bytes that now encode another value must get that value's verdict. Distinct: schema and encoding.",
            run: malformed,
            stack: 16 << 20,
            shards: 8,
            assumptions: &["tags, NaN, duplicate keys, other simple values, numbers out of range, lone surrogates and very deep nesting are left undecided"],
        },
    ]
}
