//! What errors say.
use super::diff::show_val;
use super::syntax::spell_bad;
use crate::dict;
use crate::fw::*;
use crate::gen::*;
use crate::print;
use crate::rec;
use crate::rng::{hash_bytes, Rng};
use crate::run::{self, Kind, Out};
use crate::s::*;
use crate::syn::*;
use crate::val::*;
use serde_json::json;

fn cut(s: &str) -> String {
    s.chars().take(1500).collect()
}

// ---- every literal in a tree -------------------------------------------------
fn lits_grp<'a>(g: &'a mut Grp, o: &mut Vec<&'a mut Lit>) {
    for e in g.0.iter_mut().flatten() {
        lits_ent(e, o);
    }
}
fn lits_ent<'a>(e: &'a mut Ent, o: &mut Vec<&'a mut Lit>) {
    match &mut e.v {
        EV::G(g) => lits_grp(g, o),
        EV::M(k, t) => {
            match k {
                Some(Key::Lit(l)) => o.push(l),
                Some(Key::T(t, _)) => lits_t1(t, o),
                _ => {}
            }
            lits_ty(t, o);
        }
    }
}
fn lits_ty<'a>(t: &'a mut Ty, o: &mut Vec<&'a mut Lit>) {
    for x in &mut t.0 {
        lits_t1(x, o);
    }
}
fn lits_t1<'a>(t: &'a mut T1, o: &mut Vec<&'a mut Lit>) {
    match t {
        T1::S(a) => lits_t2(a, o),
        T1::R(a, _, b) | T1::C(a, _, b) => {
            lits_t2(a, o);
            lits_t2(b, o);
        }
    }
}
fn lits_t2<'a>(t: &'a mut T2, o: &mut Vec<&'a mut Lit>) {
    match t {
        T2::Lit(l) => o.push(l),
        T2::Paren(t) => lits_ty(t, o),
        T2::Map(g) | T2::Arr(g) | T2::ChIn(g) => lits_grp(g, o),
        T2::Name(_, a) | T2::Unwrap(_, a) | T2::Ch(_, a) => a.iter_mut().for_each(|x| lits_t1(x, o)),
    }
}

const MARK: &str = "zqMARKqz";

/// A valid schema with one literal replaced by a malformed one.
fn with_bad_literal(r: &mut Rng) -> Option<String> {
    let d = r.range(1, 5);
    let mut sc = Syn { r, budget: 25 }.schema(d);
    {
        let mut v = vec![];
        for x in &mut sc.0 {
            match &mut x.v {
                RV::T(t) => lits_ty(t, &mut v),
                RV::G(e) => lits_ent(e, &mut v),
            }
        }
        if v.is_empty() {
            return None;
        }
        let at = r.below(v.len());
        *v[at] = Lit::T(MARK.into());
    }
    let t = if r.pct(50) { print::canon(&sc) } else { print::random(&sc, r) };
    let m = format!("\"{}\"", MARK);
    if !t.contains(&m) {
        return None;
    }
    let (bad, _) = spell_bad(r);
    Some(t.replacen(&m, &bad, 1))
}

fn parse_errors(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let text = match r.below(10) {
        0..=4 => match with_bad_literal(r) {
            Some(t) => t,
            None => return Ok(()),
        },
        5 => {
            let n = r.range(1, 9);
            let (o, c) = *r.pick(&[("[", "]"), ("{", "}"), ("(", ")"), ("&(", ")"), ("x<", ">"), ("[? ", "]"), ("{a: ", "}"), ("int .size (", ")")]);
            format!("a = {}{}{}", o, soup(r, n), c)
        }
        k => {
            let base = if k == 6 { with_bad_literal(r) } else { None };
            let t = base.unwrap_or_else(|| {
                let d = r.range(0, 3);
                let sc = Syn { r: &mut *r, budget: 12 }.schema(d);
                if r.pct(50) {
                    print::canon(&sc)
                } else {
                    print::random(&sc, r)
                }
            });
            let k = r.range(1, 3);
            edit(&t, r, k)
        }
    };
    let d = rec::diagnose(&text);
    if d.too_deep {
        cx.st.inc("undecided_too_deep");
        return Ok(());
    }
    if d.schema.is_some() {
        cx.st.inc("still_cddl");
        return Ok(());
    }
    cx.st.evals += 1;
    let got = run::guard(|| cddl_cat::parse_cddl(&text).err().map(|e| (format!("{:?}", e.kind), e.ctx.clone(), format!("{}", e))));
    let (kind, ctx, shown) = match got {
        Ok(Some(x)) => x,
        o => return viol(format!("text that is not CDDL: {:?}", o), json!({"cddl": cut(&text)})),
    };
    let data = |want: &str| json!({"cddl": cut(&text), "expected": want, "kind": kind, "quoted": cut(&ctx)});
    if shown != format!("{}({})", kind, ctx) {
        return viol("the message does not show the kind and the quoted text", data(&shown));
    }
    match d.fault {
        Some((k, a, b)) => {
            let squeeze = |s: &str| s.chars().filter(|c| !c.is_ascii_whitespace()).collect::<String>();
            if kind != k {
                return viol(format!("the error for a malformed literal is {}, not {}", kind, k), data(&text[a..b]));
            }
            if ctx.is_empty() || !squeeze(&text[a..b]).contains(&squeeze(&ctx)) {
                return viol("the error does not quote the malformed literal", data(&text[a..b]));
            }
            cx.st.inc(&format!("named_{}", k));
        }
        None => {
            if kind != "Unparseable" {
                return viol(format!("the error is {}, but every literal is well formed", kind), data("Unparseable"));
            }
            if let Some(p) = d.rest {
                // complete rules before the fault are not blamed, and the
                // text from there on is quoted; unless something is refused
                // that was read in full (arguments on a bareword)
                if ctx == text[p..] {
                    cx.st.inc("place_of_error_exact");
                } else if ctx.is_empty() || text.contains(ctx.as_str()) {
                    return viol("the error does not quote the place where reading stopped", data(&text[p..]));
                } else {
                    cx.st.inc("place_not_quoted");
                }
            } else if text.ends_with(ctx.as_str()) {
                cx.st.inc("place_in_first_rule");
            }
            cx.st.inc("unparseable");
        }
    }
    // the same error whichever way the text comes in
    if cx.r.pct(25) {
        let sl = run::guard(|| cddl_cat::parser::slice_parse_cddl(&text).err().map(|e| format!("{}", e)));
        let fl = run::guard(|| cddl_cat::flatten::flatten_from_str(&text).err().map(|e| format!("{}", e)));
        if sl != Ok(Some(shown.clone())) || fl != Ok(Some(shown.clone())) {
            return viol(format!("another error from another entry point: {:?}, {:?}", sl, fl), data(&shown));
        }
        for o in [run::cbor_bytes("a", &text, &[1]), run::json_str("a", &text, "1")] {
            if o != Out::Fatal(Kind::Parse, shown.clone()) {
                return viol(format!("another error from another entry point: {}", o.show()), data(&shown));
            }
        }
        cx.st.inc("entry_points_compared");
    }
    cx.st.nontrivial(hash_bytes(text.as_bytes()));
    cx.sample(|| json!({"cddl": cut(&text), "error": shown}));
    Ok(())
}

// ---- names -----------------------------------------------------------------
/// Schemas that meet the name N, the data, and whether the name stands where a
/// type may stand.
fn meets(r: &mut Rng) -> (&'static str, Val, bool) {
    let one = Val::Int(1);
    let arr = |v: Vec<Val>| Val::Arr(v);
    let k = || Val::Text("k".into());
    let map = |k: Val, v: Val| Val::Map(vec![(k, v)]);
    match r.below(30) {
        0 => ("a = N", one, true),
        1 => ("a = [N]", arr(vec![one]), true),
        2 => ("a = { k: N }", map(k(), one), true),
        3 => ("a = tstr / N", one, true),
        4 => ("a = N / tstr", k(), true),
        5 => ("a = [* N]", arr(vec![one]), true),
        6 => ("a = [? int, N]", arr(vec![one.clone(), one]), true),
        7 => ("a = g<N> g<t> = [t]", arr(vec![one]), true),
        8 => ("a = g<N> g<t> = { k: t }", map(k(), one), true),
        9 => ("a = { N => int }", map(k(), one), true),
        10 => ("a = { * N => int }", map(k(), one), true),
        11 => ("a = { ? k: N }", map(k(), one), true),
        12 => ("a = [(tstr // N)]", arr(vec![one]), true),
        13 => ("a = (N)", one, true),
        14 => ("a = &(x: tstr, y: N)", one, true),
        15 => ("a = b b = c c = N", one, true),
        16 => ("a = [~b] b = [N]", arr(vec![one]), true),
        17 => ("a = { ~b } b = { k: N }", map(k(), one), true),
        18 => ("a = [b] b = (tstr // N)", arr(vec![one]), true),
        19 => ("a = &b b = (x: tstr, y: N)", one, true),
        20 => ("a = [{ k: [N] }]", arr(vec![map(k(), arr(vec![one]))]), true),
        21 => ("a = bstr .cbor N", Val::Bytes(vec![1]), true),
        22 => ("a = [~N]", arr(vec![one]), false),
        23 => ("a = { ~N }", map(k(), one), false),
        24 => ("a = &N", one, false),
        25 => ("a = 1..N", one, false),
        26 => ("a = N .. 3", one, false),
        27 => ("a = uint .size N", one, false),
        28 => ("a = uint .lt N", one, false),
        _ => ("a = int .ge N", one, false),
    }
}

const UNSUPPORTED: &[&str] = &["time", "number", "integer", "unsigned", "bigint", "decfrac", "bigfloat", "undefined"];

fn undefined_names(cx: &mut Cx) -> Res {
    let (t, v, plain) = meets(&mut cx.r);
    let n = if cx.r.pct(40) { cx.r.pick(dict::idents()).clone() } else { Syn { r: &mut cx.r, budget: 1 }.name() };
    let n = if cx.r.pct(30) { format!("n.{}", n) } else { n };
    if !matches!(crate::model::prelude(&n), crate::model::Pre::NotPrelude) || ["a", "b", "c", "g", "t", "x", "y", "k"].contains(&n.as_str()) {
        return Ok(());
    }
    let unsupported = plain && cx.r.pct(20);
    let n = if unsupported { cx.r.pick(UNSUPPORTED).to_string() } else { n };
    let text = t.replace('N', &n);
    cx.st.evals += 1;
    let o = run::cbor_bytes("a", &text, &cbor_bytes(&v));
    let data = || json!({"cddl": text, "rule": "a", "value": show_val(&v)});
    if unsupported {
        if !matches!(&o, Out::Fatal(Kind::Unsupported, m) if m.contains(&format!("'{}'", n))) {
            return viol(format!("the unsupported predefined name {} is not named: {}", n, o.show()), data());
        }
        cx.st.inc("unsupported_named");
    } else {
        if o != Out::Fatal(Kind::Missing, n.clone()) {
            return viol(format!("the undefined rule {} is not named: {}", n, o.show()), data());
        }
        cx.st.inc("undefined_named");
        if let Some(j) = json_of(&v) {
            let o = run::json_str("a", &text, &j);
            if o != Out::Fatal(Kind::Missing, n.clone()) {
                return viol(format!("the undefined rule {} is not named (JSON): {}", n, o.show()), data());
            }
        }
        let defined = t.replace('N', "int");
        for o in [run::cbor_bytes(&n, &defined, &[1]), run::json_str(&n, &defined, "1")] {
            if plain && o != Out::Fatal(Kind::Missing, n.clone()) {
                return viol(format!("the missing top rule {} is not named: {}", n, o.show()), json!({"cddl": defined, "rule": n}));
            }
        }
    }
    cx.st.nontrivial(hash_bytes(text.as_bytes()));
    cx.sample(|| json!({"cddl": text, "error": o.show()}));
    Ok(())
}
fn json_of(v: &Val) -> Option<String> {
    v.json_text_ok().then(|| json_text(v))
}

// ---- what was expected --------------------------------------------------------
fn expected(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let (t, want): (String, String) = match r.below(6) {
        0 | 1 => {
            let (n, w) = *r.pick(&[
                ("nil", "nil"),
                ("null", "nil"),
                ("bool", "bool"),
                ("true", "true"),
                ("false", "false"),
                ("int", "int"),
                ("uint", "uint"),
                ("nint", "nint"),
                ("float", "float"),
                ("tstr", "tstr"),
                ("text", "tstr"),
                ("bstr", "bstr"),
                ("bytes", "bstr"),
            ]);
            (n.into(), w.into())
        }
        2 => {
            let i = pick_lit_int(r);
            (i.to_string(), i.to_string())
        }
        3 => {
            let s = pick_text(r);
            let l = print::t1_text(&tlit(Lit::T(s.clone())));
            (l, format!("\"{}\"", s))
        }
        4 => {
            if r.pct(40) {
                let (a, b) = (pick_float(r), pick_float(r));
                if !a.is_finite() || !b.is_finite() {
                    return Ok(());
                }
                let op = *r.pick(&["..", "..."]);
                let lit = |f| print::t1_text(&tlit(Lit::F(f)));
                (format!("{} {} {}", lit(a), op, lit(b)), format!("{}{}{}", a, op, b))
            } else {
            let (a, b) = (pick_lit_int(r), pick_lit_int(r));
            let op = *r.pick(&["..", "..."]);
            (format!("{} {} {}", a, op, b), format!("{}{}{}", a, op, b))
            }
        }
        _ => {
            let f = pick_float(r);
            if !f.is_finite() {
                return Ok(());
            }
            (print::t1_text(&tlit(Lit::F(f))), format!("{}", f))
        }
    };
    let text = match r.below(5) {
        0 => format!("a = {}", t),
        1 => format!("a = b b = c c = {}", t),
        2 => format!("a = g<{}> g<t> = t", t),
        3 => format!("a = ({})", t),
        _ => format!("a = b b = {}", t),
    };
    let ctx = match run::compile(&text) {
        Ok(c) => c,
        Err(o) => return viol(format!("a valid schema is refused: {}", o.show()), json!({"cddl": text})),
    };
    for _ in 0..4 {
        let v = junk(&mut cx.r, 1, false);
        let o = run::cbor(&ctx, "a", &v.to_ciborium());
        cx.st.evals += 1;
        match &o {
            Out::Ok => cx.st.inc("accepted"),
            Out::Mis(m) if *m == format!("Mismatch(expected {})", want) => cx.st.inc("expectation_named"),
            _ => return viol(format!("the error does not say that {} was expected: {}", want, o.show()), json!({"cddl": text, "rule": "a", "value": show_val(&v)})),
        }
    }
    cx.st.nontrivial(hash_bytes(text.as_bytes()));
    Ok(())
}

/// A control on a type, or with a limit, that it is not for.
fn bad_controls(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let ctl = *r.pick(&["size", "lt", "le", "gt", "ge"]);
    // types, and how they are shown
    let mut other: Vec<(String, String)> = [("bool", "bool"), ("nil", "nil"), ("null", "nil"), ("true", "true"), ("false", "false")].map(|(a, b)| (a.into(), b.into())).to_vec();
    if ctl == "size" {
        other.extend([("int", "int"), ("nint", "nint"), ("float", "float")].map(|(a, b)| (a.into(), b.into())));
    } else {
        other.extend([("tstr", "tstr"), ("text", "tstr"), ("bstr", "bstr"), ("bytes", "bstr")].map(|(a, b)| (a.into(), b.into())));
    }
    let i = pick_lit_int(r);
    other.push((i.to_string(), i.to_string()));
    let f = pick_float(r);
    if f.is_finite() {
        other.push((print::t1_text(&tlit(Lit::F(f))), format!("{}", f)));
    }
    let s = pick_text(r);
    other.push((print::t1_text(&tlit(Lit::T(s.clone()))), format!("\"{}\"", s)));
    let (t, shown) = r.pick(&other).clone();
    let (good, k) = (*r.pick(if ctl == "size" { &["uint", "tstr", "bstr"] } else { &["uint", "int", "nint"] }), r.below(9));
    // the limit of a comparison must be an integer
    let arg = ctl != "size" && t.parse::<i128>().is_err() && r.pct(40);
    let c = match arg {
        true => format!("{} .{} {}", good, ctl, t),
        false => format!("{} .{} {}", t, ctl, k),
    };
    let form = r.below(6);
    let text = match form {
        0 => format!("a = {}", c),
        1 => format!("a = b b = {}", c),
        2 if arg => format!("a = {} .{} b b = {}", good, ctl, t),
        2 => format!("a = b .{} c b = {} c = {}", ctl, t, k),
        3 => format!("a = g<{}> g<t> = {}", t, if arg { format!("{} .{} t", good, ctl) } else { format!("t .{} {}", ctl, k) }),
        4 => format!("a = ({}) / any", c),
        _ => format!("a = nil .. nil / {}", c).replace("nil .. nil", "\"no\""),
    };
    let v = *r.pick(&[Val::Int(3), Val::Int(-1), Val::Int(20)].each_ref());
    let v = v.clone();
    let ctx = match run::compile(&text) {
        Ok(c) => c,
        // the limit was written in place
        Err(Out::Fatal(Kind::Unsupported, m)) if arg && !(2..=3).contains(&form) && m.contains(&format!(".{} ", ctl)) => {
            cx.st.evals += 1;
            cx.st.inc("limits_named");
            return Ok(());
        }
        Err(o) => return viol(format!("a valid schema is refused: {}", o.show()), json!({"cddl": text})),
    };
    let o = run::cbor(&ctx, "a", &v.to_ciborium());
    cx.st.evals += 1;
    if !matches!(&o, Out::Fatal(Kind::Structural, m) if m.contains(&format!(".{} ", ctl)) && m.to_lowercase().contains(&format!("({})", shown).to_lowercase())) {
        return viol(format!("the error does not name the control .{} and the type {}: {}", ctl, shown, o.show()), json!({"cddl": text, "rule": "a", "value": show_val(&v)}));
    }
    cx.st.inc("controls_named");
    cx.st.nontrivial(hash_bytes(text.as_bytes()));
    Ok(())
}

fn errors(cx: &mut Cx) -> Res {
    match cx.idx % 10 {
        0..=5 => {
            for _ in 0..4 {
                parse_errors(cx)?;
            }
            Ok(())
        }
        6 | 7 => undefined_names(cx),
        8 if cx.r.pct(50) => bad_controls(cx),
        _ => expected(cx),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        quick: 300_000,
        thorough: 4_000_000,
        rule: "Each case makes text that is not CDDL (a malformed literal anywhere in a valid schema, edits, token soup) and compares the error's kind and quoted text with an independent recognizer's diagnosis; or uses an undefined or unsupported name in one of thirty places and requires the error to name it; or validates values against a leaf type and requires the rejection to name the type; or puts a size or comparison control on a type it is not for and requires the error to name both. Distinct: text.",
        run: errors,
        stack: 64 << 20,
        shards: 8,
        assumptions: &["the recognizer diagnoses the first malformed literal; the place quoted for other errors is checked when at least one complete rule precedes it"],
    }]
}
