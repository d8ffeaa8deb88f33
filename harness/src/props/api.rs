//! Properties of the library's entry points: agreement between encodings and
//! entry points, error reporting, purity, lookups, preserved text.
use super::diff::*;
use super::sem::{text_of, values, FUEL};
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use crate::print;
use crate::rng::{hash_bytes, mix, Rng};
use crate::run::{self, Kind, Out};
use crate::s::*;
use crate::val::*;
use cddl_cat::context::{BasicContext, LookupContext};
use cddl_cat::flatten::{flatten, flatten_from_str, slice_flatten, slice_flatten_from_str};
use cddl_cat::ivt::RuleDef;
use cddl_cat::value::Value as LV;
use cddl_cat::ValidateError;
use serde_json::json;
use std::cell::{Cell, RefCell};
use std::convert::TryFrom;

pub fn cfg(r: &mut Rng) -> Cfg {
    let mut c = Cfg::base();
    c.root = *r.pick(&[K::T, K::T, K::A, K::M]);
    c.depth = r.range(1, 4);
    c
}
fn h(text: &str, v: &Val) -> u64 {
    hash_bytes(text.as_bytes()) ^ mix(hash_bytes(show_val(v).as_bytes()))
}
/// Whether validating this is known to be cheap.
pub fn cheap(sc: &Schema, root: &str, v: &Val) -> bool {
    decide(sc, root, v, FUEL).0 != Verdict::Undecided
}

// ---- C12 ----------------------------------------------------------------
pub fn lib_value(v: &Val) -> LV {
    match v {
        Val::Null => LV::Null,
        Val::Bool(b) => LV::Bool(*b),
        Val::Int(i) => LV::Integer(*i),
        Val::Float(f) => LV::Float(float_ord::FloatOrd(*f)),
        Val::Bytes(b) => LV::Bytes(b.clone()),
        Val::Text(t) => LV::Text(t.clone()),
        Val::Arr(a) => LV::Array(a.iter().map(lib_value).collect()),
        Val::Map(m) => LV::Map(m.iter().map(|(k, v)| (lib_value(k), lib_value(v))).collect()),
    }
}

/// Damage the text in some small way.
pub fn damage(t: &str, r: &mut Rng) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..r.range(1, 3) {
        let i = r.below(c.len() + 1);
        match r.below(4) {
            0 if i < c.len() => {
                c.remove(i);
            }
            1 if i < c.len() => c.truncate(i),
            2 => c.insert(i, *r.pick(&['(', ')', '[', ']', '{', '}', '"', '\'', ',', '/', '=', '>', '<', '.', '~', '&', '*', '^', ';', '0', 'z', ' ', '\n', 'é', '-', '#'])),
            _ if i < c.len() => c[i] = *r.pick(&['(', ']', '"', '\'', '/', '=', '.', ':', '9', 'e', '?', '+', ' ']),
            _ => {}
        }
    }
    c.into_iter().collect()
}

/// A map with the same key twice: whatever is made of it, it is made of it
/// both by the entry point that takes bytes and by the one that takes a value
/// somebody else decoded from those bytes.
fn repeated_keys(cx: &mut Cx, sc: &Schema, rule: &str, text: &str, ctx: &Result<BasicContext, Out>, v: &Val) -> Res {
    fn visit(v: &mut Val, r: &mut Rng, done: &mut bool) {
        match v {
            Val::Arr(a) => a.iter_mut().for_each(|x| visit(x, r, done)),
            Val::Map(m) => {
                for (_, x) in m.iter_mut() {
                    visit(x, r, done);
                }
                if !m.is_empty() && (!*done || r.pct(20)) {
                    for _ in 0..r.range(1, 2) {
                        let k = m[r.below(m.len())].0.clone();
                        let x = if r.pct(50) { m[r.below(m.len())].1.clone() } else { junk(r, 1, false) };
                        m.insert(r.below(m.len() + 1), (k, x));
                    }
                    *done = true;
                }
            }
            _ => {}
        }
    }
    let Ok(ctx) = ctx else { return Ok(()) };
    let mut w = v.clone();
    let mut done = false;
    visit(&mut w, &mut cx.r, &mut done);
    if !done {
        return Ok(());
    }
    // the cost depends on which of the entries counts
    let plain = |w: &Val, last: bool| {
        fn go(v: &Val, last: bool) -> Val {
            match v {
                Val::Arr(a) => Val::Arr(a.iter().map(|x| go(x, last)).collect()),
                Val::Map(m) => {
                    let mut out: Vec<(Val, Val)> = vec![];
                    for (k, x) in m {
                        match out.iter_mut().find(|e| veq(&e.0, k)) {
                            Some(e) if last => e.1 = go(x, last),
                            Some(_) => {}
                            None => out.push((k.clone(), go(x, last))),
                        }
                    }
                    Val::Map(out)
                }
                v => v.clone(),
            }
        }
        go(w, last)
    };
    if !cheap(sc, rule, &plain(&w, false)) || !cheap(sc, rule, &plain(&w, true)) {
        return Ok(());
    }
    let a = run::cbor(ctx, rule, &w.to_ciborium());
    let b = run::cbor_bytes(rule, text, &cbor_bytes(&w));
    cx.st.inc("repeated_keys");
    cx.st.evals += 2;
    if a.class() != b.class() {
        return viol(
            format!("a map with a repeated key gives \"{}\" as a decoded value but \"{}\" as bytes", a.show(), b.show()),
            json!({"cddl": text, "rule": rule, "value": show_val(&w)}),
        );
    }
    Ok(())
}

fn agreement(cx: &mut Cx) -> Res {
    let mut c = cfg(&mut cx.r);
    c.json = cx.r.pct(70);
    let (sc, root, _) = Gen::schema(&mut cx.r, &c);
    let mut text = text_of(&sc, &mut cx.r);
    let broken = cx.r.pct(6);
    let vals = values(&sc, &root, &mut cx.r, c.json, c.big, 5);
    let mut rule = root.clone();
    if broken {
        // a bad schema or a missing rule: the entry points must still agree
        if cx.r.pct(30) {
            rule = "no-such-rule".into();
        } else {
            text = damage(&text, &mut cx.r);
        }
    } else if cx.r.pct(6) {
        // a rule not meant as the root
        rule = cx.r.pick(&sc.0).name.clone();
    }
    let ctx = run::compile(&text);
    for v in vals {
        if v.depth() > 100 || (!broken && !cheap(&sc, &rule, &v)) {
            cx.st.inc("skipped_costly");
            continue;
        }
        if broken && ctx.is_ok() && rule == root {
            continue;
        }
        if !broken && cx.r.pct(20) {
            repeated_keys(cx, &sc, &rule, &text, &ctx, &v)?;
        }
        let prepared = |f: &dyn Fn(&BasicContext) -> Out| match &ctx {
            Ok(c) => f(c),
            Err(o) => o.clone(),
        };
        let mut outs: Vec<(String, Out)> = vec![];
        let cv = v.to_ciborium();
        outs.push(("a decoded CBOR value".into(), prepared(&|c| run::cbor(c, &rule, &cv))));
        outs.push(("CBOR bytes (shortest form)".into(), run::cbor_bytes(&rule, &text, &cbor_bytes(&v))));
        for _ in 0..2 {
            let b = cbor_bytes_var(&v, &mut cx.r);
            if cx.verbose {
                println!("cbor {}", hex(&b));
            }
            outs.push((format!("CBOR bytes {}", hex(&b)), run::cbor_bytes(&rule, &text, &b)));
        }
        if cx.r.pct(8) {
            tagged(cx, &rule, &text, &ctx, &cv)?;
        }
        let mut jv = None;
        if v.json_ok() {
            let j = v.to_json_value();
            outs.push(("a decoded JSON value".into(), prepared(&|c| run::json(c, &rule, &j))));
            jv = Some(j);
            cx.st.inc("values_json_can_hold");
        }
        if v.json_text_ok() {
            outs.push(("JSON text".into(), run::json_str(&rule, &text, &json_text(&v))));
            let t = json_text_var(&v, &mut cx.r);
            outs.push((format!("JSON text {}", t), run::json_str(&rule, &text, &t)));
        }
        cx.st.evals += outs.len() as u64;
        cx.st.nontrivial(h(&text, &v));
        cx.st.inc(&format!("outcome_{}", outs[0].1.class()));
        if let Some(o) = outs.iter().find(|o| o.1.class() != outs[0].1.class()) {
            return viol(
                format!("the same data gives \"{}\" from {} but \"{}\" from {}", outs[0].1.show(), outs[0].0, o.1.show(), o.0),
                json!({"cddl": text, "rule": rule, "value": show_val(&v)}),
            );
        }
        // the library's own form of the data, however it got there
        let want = lib_value(&v);
        let mut forms = vec![("CBOR", LV::try_from(&cv)), ("CBOR (owned)", LV::try_from(cv.clone()))];
        if let Some(j) = &jv {
            forms.push(("JSON", LV::try_from(j)));
            forms.push(("JSON (owned)", LV::try_from(j.clone())));
        }
        for (n, f) in forms {
            match f {
                Ok(x) if x == want => {}
                x => return viol(format!("converting {} data gives {:?} instead of {:?}", n, x, want), json!({"value": show_val(&v)})),
            }
        }
        cx.sample(|| json!({"cddl": text, "rule": rule, "value": show_val(&v), "outcome": outs[0].1.show(), "entry_points": outs.len()}));
    }
    Ok(())
}

/// Data with a tag somewhere: decoded or encoded, the answer is the same.
fn tagged(cx: &mut Cx, rule: &str, text: &str, ctx: &Result<BasicContext, Out>, cv: &ciborium::Value) -> Res {
    use ciborium::Value as C;
    fn nodes(v: &C) -> usize {
        1 + match v {
            C::Array(a) => a.iter().map(nodes).sum(),
            C::Map(m) => m.iter().map(|(k, x)| nodes(k) + nodes(x)).sum(),
            _ => 0,
        }
    }
    let mut t = cv.clone();
    let n = nodes(cv);
    let at = if cx.r.pct(40) { 0 } else { cx.r.below(n) };
    let tag = *cx.r.pick(&[0, 1, 4, 24, 32, 55799, 55799, 55800, 258, 1 << 40]);
    fn put(v: &mut C, at: usize, seen: &mut usize, tag: u64) {
        if *seen == at {
            *seen += 1;
            let old = std::mem::replace(v, C::Null);
            *v = C::Tag(tag, Box::new(old));
            return;
        }
        *seen += 1;
        match v {
            C::Array(a) => a.iter_mut().for_each(|x| put(x, at, seen, tag)),
            C::Map(m) => m.iter_mut().for_each(|(k, x)| {
                put(k, at, seen, tag);
                put(x, at, seen, tag);
            }),
            _ => {}
        }
    }
    put(&mut t, at, &mut 0, tag);
    let mut b = vec![];
    ciborium::ser::into_writer(&t, &mut b).unwrap();
    let x = match ctx {
        Ok(c) => run::cbor(c, rule, &t),
        Err(o) => o.clone(),
    };
    let y = run::cbor_bytes(rule, text, &b);
    cx.st.evals += 2;
    cx.st.inc("tagged_data");
    if x.class() != y.class() || LV::try_from(&t).is_ok() != LV::try_from(t.clone()).is_ok() {
        return viol(format!("the same tagged data gives \"{}\" decoded but \"{}\" encoded", x.show(), y.show()), json!({"cddl": text, "rule": rule, "cbor": hex(&b)}));
    }
    Ok(())
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

// ---- C17 ----------------------------------------------------------------
/// A context that reports an error at the k-th lookup.
struct Faulty<'a> {
    inner: &'a BasicContext,
    at: u64,
    n: Cell<u64>,
    kind: u8,
}
fn inject(k: u8) -> ValidateError {
    match k {
        0 => ValidateError::MissingRule("injected".into()),
        1 => ValidateError::Structural("injected".into()),
        2 => ValidateError::Unsupported("injected".into()),
        3 => ValidateError::ValueError("injected".into()),
        4 => ValidateError::GenericError,
        _ => flatten_from_str("injected = ").unwrap_err(),
    }
}
impl LookupContext for Faulty<'_> {
    fn lookup_rule<'a>(&'a self, name: &str) -> Result<&'a RuleDef, ValidateError> {
        self.n.set(self.n.get() + 1);
        if self.n.get() == self.at {
            return Err(inject(self.kind));
        }
        self.inner.lookup_rule(name)
    }
}

fn injected(cx: &mut Cx) -> Res {
    let mut c = cfg(&mut cx.r);
    c.w_name = 60;
    c.rules = (2, 7);
    let (sc, root, _) = Gen::schema(&mut cx.r, &c);
    let text = text_of(&sc, &mut cx.r);
    let vals = values(&sc, &root, &mut cx.r, false, c.big, 4);
    let ctx = load(cx, &text)?;
    let def = &ctx.rules[&root];
    for v in vals {
        if !cheap(&sc, &root, &v) {
            cx.st.inc("skipped_costly");
            continue;
        }
        let cv = v.to_ciborium();
        let f = Faulty { inner: &ctx, at: u64::MAX, n: Cell::new(0), kind: 0 };
        let clean = run::cbor_ctx(&f, def, &cv);
        let n = f.n.get();
        cx.st.add("lookups_seen", n);
        if n == 0 {
            cx.st.inc("no_lookups");
            continue;
        }
        let mut at: Vec<u64> = (1..=n.min(6)).collect();
        for _ in 0..4 {
            at.push(1 + cx.r.u64() % n);
        }
        at.push(n);
        for k in at {
            let kind = cx.r.below(6) as u8;
            let f = Faulty { inner: &ctx, at: k, n: Cell::new(0), kind };
            let got = run::cbor_ctx(&f, def, &cv);
            cx.st.evals += 1;
            let want = run::classify(&inject(kind));
            cx.st.inc(&format!("injected_{}", want.class()));
            cx.st.nontrivial(h(&text, &v) ^ mix(k * 8 + u64::from(kind)));
            if f.n.get() < k {
                return viol("the same validation looks up fewer rules the second time", json!({"cddl": text, "rule": root, "value": show_val(&v)}));
            }
            if got != want {
                return viol(
                    format!("rule lookup {} of {} failed with \"{}\", yet the answer is \"{}\" (without the failure: \"{}\")", k, n, want.show(), got.show(), clean.show()),
                    json!({"cddl": text, "rule": root, "value": show_val(&v)}),
                );
            }
        }
    }
    Ok(())
}

/// Put a defect somewhere in the schema.
fn break_schema(sc: &mut Schema, r: &mut Rng) -> &'static str {
    let mut n = 0;
    let k = r.below(7);
    let gen: Vec<(String, usize)> = sc.0.iter().map(|r| (r.name.clone(), r.params.len())).collect();
    let other = r.pick(&gen).clone();
    let lits = || T1::S(T2::Arr(Grp(vec![vec![]])));
    let (what, bad): (&'static str, T1) = match k {
        0..=2 => ("reference to a missing rule", tname("no-such-rule")),
        3 => ("wrong number of generic arguments", T1::S(T2::Name(other.0, (0..other.1 + r.range(1, 2)).map(|_| lits()).collect()))),
        4 if other.1 > 0 => ("wrong number of generic arguments", T1::S(T2::Name(other.0, (0..other.1 - 1).map(|_| lits()).collect()))),
        5 => ("missing rule as range end", T1::R(T2::Lit(Lit::U(0)), true, name("no-such-rule"))),
        6 => ("missing rule as control argument", T1::C(name("int"), "le".into(), name("no-such-rule"))),
        _ => ("reference to a missing rule with arguments", T1::S(T2::Name("no-such-rule".into(), vec![lits()]))),
    };
    fn ty(t: &mut Ty, n: &mut isize, bad: &T1, r: &mut Rng) {
        for t in &mut t.0 {
            match t {
                T1::S(T2::Paren(t)) => ty(t, n, bad, r),
                T1::S(T2::Map(g) | T2::Arr(g) | T2::ChIn(g)) => grp(g, n, bad, r),
                _ => {}
            }
            if *n == 0 {
                *t = bad.clone();
            }
            *n -= 1;
        }
        if *n == 0 {
            let at = r.below(t.0.len() + 1);
            t.0.insert(at, bad.clone());
        }
        *n -= 1;
    }
    fn grp(g: &mut Grp, n: &mut isize, bad: &T1, r: &mut Rng) {
        for s in &mut g.0 {
            for e in s.iter_mut() {
                ent(e, n, bad, r);
            }
            if *n == 0 {
                let at = r.below(s.len() + 1);
                s.insert(at, if r.pct(50) { member(bad.clone()) } else { kv(Key::Bare("a".into()), ty1(bad.clone())) });
            }
            *n -= 1;
        }
    }
    fn ent(e: &mut Ent, n: &mut isize, bad: &T1, r: &mut Rng) {
        match &mut e.v {
            EV::M(k, t) => {
                if let Some(Key::T(t, _)) = k {
                    if *n == 0 {
                        *t = bad.clone();
                    }
                    *n -= 1;
                }
                ty(t, n, bad, r);
            }
            EV::G(g) => grp(g, n, bad, r),
        }
    }
    let go = |sc: &mut Schema, n: &mut isize, r: &mut Rng| {
        for x in &mut sc.0 {
            match &mut x.v {
                RV::T(t) => ty(t, n, &bad, r),
                RV::G(Ent { v: EV::M(_, t), .. }) => ty(t, n, &bad, r),
                RV::G(Ent { v: EV::G(g), .. }) => grp(g, n, &bad, r),
            }
        }
    };
    let mut count = isize::MAX;
    go(&mut sc.clone(), &mut count, r);
    n += isize::MAX - count;
    let mut pick = r.below(n.max(1) as usize) as isize;
    go(sc, &mut pick, r);
    what
}

fn unimplemented(cx: &mut Cx) -> Res {
    // something the library does not implement, somewhere in a good schema
    const BAD: &[(&str, &str)] = &[
        ("time", "Unsupported"), ("number", "Unsupported"), ("integer", "Unsupported"), ("unsigned", "Unsupported"), ("bigint", "Unsupported"),
        ("decfrac", "Unsupported"), ("bigfloat", "Unsupported"), ("undefined", "Unsupported"),
        ("int .eq 5", "Unsupported"), ("int .ne 5", "Unsupported"), ("bstr .bits int", "Unsupported"), ("bstr .cborseq int", "Unsupported"),
        ("int .within int", "Unsupported"), ("int .and int", "Unsupported"), ("int .default 5", "Unsupported"), ("tstr .pcre \"a\"", "Unsupported"),
        ("tstr .size tstr", "Unsupported"), ("int .lt 1.5", "Unsupported"), ("int .ge \"a\"", "Unsupported"), ("int .gt int", "Unsupported"), ("int .le h'00'", "Unsupported"),
        ("tstr .regexp \"(\"", "Structural"), ("tstr .regexp \"[a\"", "Structural"), ("tstr .regexp \"a{2,1}\"", "Structural"), ("tstr .regexp 5", "Structural"),
        ("bstr .regexp \"a\"", "Structural"), ("int .regexp \"a\"", "Structural"), ("tstr .cbor int", "Structural"), ("int .cbor int", "Structural"),
        ("1..[2]", "Structural"), ("1 .. int", "Structural"), ("1..(2)", "Structural"), ("{}..4", "Structural"),
        ("~int", "Unsupported|Structural|Generic"), ("~tstr", "Unsupported|Structural|Generic"), ("&int", "Unsupported|Structural|Generic"),
        ("#6.1(int)", "Parse"), ("#", "Parse"), ("#7.25", "Parse"), ("0x1.8p1", "Parse"), ("int<int>", "Generic"), ("tstr<a>", "Generic"),
    ];
    let c = cfg(&mut cx.r);
    let (sc, root, _) = Gen::schema(&mut cx.r, &c);
    let (bad, want) = *cx.r.pick(BAD);
    let mut lines: Vec<String> = print::canon(&sc).lines().map(String::from).collect();
    let form = match cx.r.below(8) {
        0 => format!("zz = {}", bad),
        1 => format!("zz = [int, {}]", bad),
        2 => format!("zz = {{ a: {} }}", bad),
        3 => format!("zz = {{ {} => int }}", bad),
        4 => format!("zz = [ (? int, * {}) ]", bad),
        5 => format!("zz = int / {}", bad),
        6 => format!("zz = ({})", bad),
        _ => format!("zz<p> = [p // {}]", bad),
    };
    let form = if cx.r.pct(10) { (*cx.r.pick(&["zz /= int", "zz //= (int)", "zz = int zz /= tstr"])).to_string() } else { form };
    let want = if form.contains("/=") { "Parse" } else { want };
    let at = cx.r.below(lines.len() + 1);
    lines.insert(at, form.clone());
    let text = lines.join("\n");
    // whatever rule is asked for, and whatever the data
    let v = values(&sc, &root, &mut cx.r, false, c.big, 1).pop().unwrap_or(Val::Null);
    let outs = [
        run::compile(&text).err().unwrap_or(Out::Ok),
        run::cbor_bytes(&root, &text, &cbor_bytes(&v)),
        run::json_str(&root, &text, "1"),
    ];
    cx.st.evals += 3;
    cx.st.inc(&format!("unimplemented_{}", want));
    cx.st.nontrivial(hash_bytes(text.as_bytes()));
    for o in outs {
        let ok = matches!(o, Out::Fatal(..)) && want.split('|').any(|w| o.class() == w);
        if !ok {
            return viol(
                format!("\"{}\" is not something the library implements; expected an error ({}), got \"{}\"", form, want, o.show()),
                json!({"cddl": text, "rule": root}),
            );
        }
    }
    Ok(())
}

fn faults(cx: &mut Cx) -> Res {
    match cx.idx % 4 {
        0 => return injected(cx),
        1 => return unimplemented(cx),
        _ => {}
    }
    let mut c = cfg(&mut cx.r);
    c.generics = 30;
    let (sc0, root, _) = Gen::schema(&mut cx.r, &c);
    let mut sc = sc0.clone();
    let mut what = vec![break_schema(&mut sc, &mut cx.r)];
    if cx.r.pct(20) {
        what.push(break_schema(&mut sc, &mut cx.r));
    }
    for w in &what {
        cx.st.inc(w);
    }
    let text = text_of(&sc, &mut cx.r);
    // data made for the intact schema, and for the broken one
    let mut vals = values(&sc0, &root, &mut cx.r, false, c.big, 5);
    vals.extend(values(&sc, &root, &mut cx.r, false, c.big, 3));
    let o = Opts { fuel: FUEL, nontrivial: |_, v| matches!(v, Verdict::Fatal(_)), json: false };
    diff(cx, &sc, &root, &text, &vals, &o)?;
    if cx.r.pct(25) {
        other_roots(cx, &sc, &text, &vals, &o)?;
    }
    Ok(())
}

// ---- C18 ----------------------------------------------------------------
fn purity(cx: &mut Cx) -> Res {
    let mut c = cfg(&mut cx.r);
    if cx.r.pct(15) {
        c.w_regexp = 20;
        c.generics = 40;
    }
    if cx.r.pct(10) {
        c.recursion = 60;
    }
    let (sc, root, _) = Gen::schema(&mut cx.r, &c);
    let mut sc = sc;
    if cx.r.pct(12) {
        // errors must leave nothing behind either
        break_schema(&mut sc, &mut cx.r);
    }
    let text = text_of(&sc, &mut cx.r);
    let vals: Vec<Val> = values(&sc, &root, &mut cx.r, false, c.big, 8).into_iter().filter(|v| v.depth() < 100 && cheap(&sc, &root, v)).collect();
    if vals.is_empty() {
        return Ok(());
    }
    let cvs: Vec<ciborium::Value> = vals.iter().map(Val::to_ciborium).collect();
    let ctx = match run::compile(&text) {
        Ok(c) => c,
        Err(_) => return Ok(()),
    };
    let before = ctx.rules.clone();
    let base: Vec<Out> = cvs.iter().map(|v| run::cbor(&ctx, &root, v)).collect();
    let th = hash_bytes(text.as_bytes());
    let differ = |how: &str, i: usize, o: &Out| -> Res {
        viol(
            format!("the same validation first gave \"{}\" and then, {}, \"{}\"", base[i].show(), how, o.show()),
            json!({"cddl": text, "rule": root, "value": show_val(&vals[i])}),
        )
    };
    // again, in another order, mixed with other rules of the same schema
    let names: Vec<String> = ctx.rules.keys().cloned().collect();
    for _ in 0..vals.len() * 2 {
        let i = cx.r.below(vals.len());
        if cx.r.pct(20) {
            let n = cx.r.pick(&names).clone();
            if cheap(&sc, &n, &vals[i]) {
                let _ = run::cbor(&ctx, &n, &cvs[i]);
            }
        }
        let o = run::cbor(&ctx, &root, &cvs[i]);
        cx.st.evals += 1;
        cx.st.nontrivial(th ^ mix(i as u64));
        if o != base[i] {
            return differ("repeated on the same prepared schema", i, &o);
        }
    }
    if ctx.rules != before {
        return viol("validating changed the prepared schema", json!({"cddl": text}));
    }
    // from a schema prepared anew
    match run::compile(&text) {
        Ok(c2) => {
            if c2.rules != before {
                return viol("preparing the same schema twice gives different results", json!({"cddl": text}));
            }
            for i in (0..vals.len()).rev() {
                let o = run::cbor(&c2, &root, &cvs[i]);
                cx.st.evals += 1;
                if o != base[i] {
                    return differ("on the same schema prepared again", i, &o);
                }
            }
        }
        Err(o) => return viol(format!("preparing the same schema a second time fails: {}", o.show()), json!({"cddl": text})),
    }
    // from several threads at once
    if cx.r.pct(25) {
        let (ctx, cvs, root, base) = (&ctx, &cvs, &root, &base);
        let text = &text;
        let barrier = std::sync::Barrier::new(4);
        let seed = cx.r.u64();
        let bad: Option<(usize, Out)> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..4u64)
                .map(|t| {
                    let barrier = &barrier;
                    std::thread::Builder::new()
                        .stack_size(32 << 20)
                        .spawn_scoped(s, move || {
                            let mut r = Rng::new(seed ^ t);
                            let own = if t % 2 == 1 { run::compile(text).ok() } else { None };
                            barrier.wait();
                            for _ in 0..10 {
                                let i = r.below(cvs.len());
                                let o = run::cbor(own.as_ref().unwrap_or(ctx), root, &cvs[i]);
                                if o != base[i] {
                                    return Some((i, o));
                                }
                            }
                            None
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().filter_map(|h| h.join().unwrap()).next()
        });
        cx.st.add("threaded_validations", 40);
        cx.st.evals += 40;
        if let Some((i, o)) = bad {
            return differ("from another thread", i, &o);
        }
    }
    // after work on a schema that differs from this one in one detail
    let mut sib = sc.clone();
    if let Some(what) = super::rewrite::sibling(&mut sib, &mut cx.r) {
        let stext = text_of(&sib, &mut cx.r);
        let mut svals = values(&sib, &root, &mut cx.r, false, c.big, 5);
        svals.extend(vals.iter().take(4).cloned());
        svals.retain(|v| v.depth() < 100);
        if let Ok(sctx) = run::compile(&stext) {
            cx.st.inc(&format!("sibling_{}", what.replace(' ', "_")));
            let mut suspects = 0;
            for v in &svals {
                let (verdict, _) = decide(&sib, &root, v, FUEL);
                if verdict == Verdict::Undecided {
                    continue;
                }
                let o = run::cbor(&sctx, &root, &v.to_ciborium());
                cx.st.evals += 1;
                cx.st.nontrivial(hash_bytes(stext.as_bytes()) ^ mix(hash_bytes(show_val(v).as_bytes())));
                // the reference semantics only say where to look; another
                // process decides
                if !agrees(&verdict, &o) && suspects < 3 {
                    suspects += 1;
                    let got = fresh(cx, &stext, &root, v);
                    if got != o.show() {
                        return viol(
                            format!("this process, which has seen a similar schema, says \"{}\", a fresh one says \"{}\"", o.show(), got),
                            json!({"cddl": stext, "seen before": text, "rule": root, "value": show_val(v)}),
                        );
                    }
                }
            }
            for i in 0..cvs.len() {
                let o = run::cbor(&ctx, &root, &cvs[i]);
                cx.st.evals += 1;
                if o != base[i] {
                    return differ("after using a similar schema", i, &o);
                }
            }
        }
    }
    // in a process that has done nothing else
    if cx.idx % 12 == 0 {
        let i = cx.r.below(vals.len());
        let got = fresh(cx, &text, &root, &vals[i]);
        if got != base[i].show() {
            return viol(
                format!("this process says \"{}\", a fresh one says \"{}\"", base[i].show(), got),
                json!({"cddl": text, "rule": root, "value": show_val(&vals[i])}),
            );
        }
    }
    cx.sample(|| json!({"cddl": text, "values": vals.len(), "first": base[0].show()}));
    Ok(())
}

/// The outcome of one validation in a process that has done nothing else.
fn fresh(cx: &mut Cx, text: &str, root: &str, v: &Val) -> String {
    let f = cx.dir.join(format!("fresh.{}", cx.idx));
    let j = json!({"cddl": text, "rule": root, "cbor": hex(&cbor_bytes(v))});
    std::fs::write(&f, j.to_string()).unwrap();
    let o = std::process::Command::new(std::env::current_exe().unwrap()).args(["aux", "fresh"]).arg(&f).output().unwrap();
    let _ = std::fs::remove_file(&f);
    cx.st.evals += 1;
    cx.st.inc("fresh_processes");
    String::from_utf8_lossy(&o.stdout).into_owned()
}

pub fn aux_fresh(path: &str) -> i32 {
    let j: serde_json::Value = serde_json::from_slice(&std::fs::read(path).unwrap()).unwrap();
    let s = j["cbor"].as_str().unwrap();
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    let rule = j["rule"].as_str().unwrap().to_string();
    let text = j["cddl"].as_str().unwrap().to_string();
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            run::quiet_panics();
            let v: ciborium::Value = ciborium::from_reader(&b[..]).unwrap();
            match run::compile(&text) {
                Ok(c) => run::cbor(&c, &rule, &v),
                Err(o) => o,
            }
        })
        .unwrap();
    print!("{}", h.join().unwrap().show());
    0
}

// ---- C19 ----------------------------------------------------------------
fn slices(cx: &mut Cx) -> Res {
    let c = cfg(&mut cx.r);
    let (sc, _, _) = Gen::schema(&mut cx.r, &c);
    let mut sc = sc;
    if cx.r.pct(10) {
        break_schema(&mut sc, &mut cx.r);
    }
    let (text, spans) = print::random_spans(&sc, &mut cx.r);
    cx.st.evals += 1;
    let bad = |m: String| -> Res { viol(m, json!({"cddl": text})) };
    let g = run::guard(|| (cddl_cat::parse_cddl(&text), cddl_cat::parser::slice_parse_cddl(&text)));
    let (whole, sliced) = match g {
        Ok((Ok(a), Ok(b))) => (a, b),
        Ok((a, b)) => return bad(format!("a well-formed schema was refused: {:?} / {:?}", a.err(), b.err())),
        Err(p) => return bad(format!("panic: {}", p)),
    };
    cx.st.add("rules", whole.rules.len() as u64);
    cx.st.nontrivial(hash_bytes(text.as_bytes()));
    if whole != a_schema(&sc) {
        return bad("the parsed rules are not the ones written".into());
    }
    if sliced.rules.len() != whole.rules.len() || sliced.rules.iter().zip(&whole.rules).any(|(a, b)| a.0 != *b) {
        return bad("parsing with and without the text gives different rules".into());
    }
    for (i, (rule, s)) in sliced.rules.iter().enumerate() {
        let (a, b) = spans[i];
        // space or a comment after the rule may be kept with it
        if !s.starts_with(&text[a..b]) || !text[a..].starts_with(s.as_str()) || !blank(&s[b - a..]) {
            return bad(format!("the text kept for rule {} is {:?}, the rule is written {:?}", rule.name, s, &text[a..b]));
        }
        match run::guard(|| cddl_cat::parse_cddl(s)) {
            Ok(Ok(c)) if c.rules.len() == 1 && c.rules[0] == *rule => {}
            o => return bad(format!("the text kept for rule {} ({:?}) does not parse to that rule: {:?}", rule.name, s, o)),
        }
    }
    let flat = run::guard(|| (flatten_from_str(&text), slice_flatten_from_str(&text), flatten(&whole), slice_flatten(&sliced), flatten(&a_schema(&sc))));
    let cls = |e: ValidateError| run::classify(&e).class();
    match flat {
        Err(p) => return bad(format!("panic: {}", p)),
        Ok((a, b, c, d, e)) => {
            let a = a.map_err(cls);
            let text_of = |n: &str| sc.0.iter().rposition(|r| r.name == n).map(|i| text[spans[i].0..spans[i].1].to_string());
            for (how, x) in [("flatten(parse)", c), ("flatten(hand-built tree)", e)] {
                if x.map_err(cls) != a {
                    return bad(format!("{} and flatten_from_str disagree", how));
                }
            }
            for (how, x) in [("slice_flatten_from_str", b), ("slice_flatten", d)] {
                let x = x.map_err(cls);
                let stripped = x.as_ref().map(|m| m.iter().map(|(k, v)| (k.clone(), v.0.clone())).collect()).map_err(Clone::clone);
                if stripped != a {
                    return bad(format!("{} and flatten_from_str disagree", how));
                }
                if let Ok(m) = x {
                    for (k, v) in m {
                        if !text_of(&k).is_some_and(|t| v.1.starts_with(&t) && blank(&v.1[t.len()..])) {
                            return bad(format!("{} keeps {:?} as the text of rule {}", how, v.1, k));
                        }
                    }
                }
            }
            if let Ok(a) = &a {
                let names: Vec<&String> = a.keys().collect();
                let mut want: Vec<&String> = sc.0.iter().map(|r| &r.name).collect();
                want.sort();
                want.dedup();
                if names != want {
                    return bad(format!("the schema defines {:?}, the prepared form has {:?}", want, names));
                }
                if let Some(r) = sc.0.iter().find(|r| a[&r.name].generic_parms != r.params) {
                    return bad(format!("rule {} has lost or changed its parameters", r.name));
                }
            }
        }
    }
    // and on damaged text the two parsers must agree as well
    for _ in 0..3 {
        let t = damage(&text, &mut cx.r);
        let g = run::guard(|| (cddl_cat::parse_cddl(&t), cddl_cat::parser::slice_parse_cddl(&t), slice_flatten_from_str(&t), flatten_from_str(&t)));
        cx.st.evals += 1;
        match g {
            Err(p) => return viol(format!("panic: {}", p), json!({"cddl": t})),
            Ok((a, b, c, d)) => {
                cx.st.inc(if a.is_ok() { "damaged_still_parses" } else { "damaged_refused" });
                let same = match (&a, &b) {
                    (Ok(a), Ok(b)) => a.rules.len() == b.rules.len() && a.rules.iter().zip(&b.rules).all(|(x, y)| *x == y.0),
                    (Err(a), Err(b)) => a.kind == b.kind,
                    _ => false,
                };
                let same2 = match (&c, &d) {
                    (Ok(c), Ok(d)) => c.len() == d.len() && c.iter().zip(d).all(|((n, (r, _)), (m, s))| n == m && r == s),
                    (Err(c), Err(d)) => run::classify(c).class() == run::classify(d).class(),
                    _ => false,
                };
                if !same || !same2 {
                    return viol(format!("the entry points disagree: {:?} / {:?}", a.map(|_| ()), b.map(|_| ())), json!({"cddl": t}));
                }
                if let Ok(b) = b {
                    // the kept texts appear in order, separated by nothing but
                    // space and comments
                    let mut pos = 0;
                    for (r, s) in &b.rules {
                        let Some(at) = t[pos..].find(s.as_str()) else {
                            return viol(format!("the text kept for rule {} does not appear in the schema", r.name), json!({"cddl": t, "text": s}));
                        };
                        if !blank(&t[pos..pos + at]) {
                            return viol(format!("{:?} before rule {} belongs to no rule", &t[pos..pos + at], r.name), json!({"cddl": t, "text": s}));
                        }
                        pos += at + s.len();
                    }
                    if !blank(&t[pos..]) {
                        return viol(format!("{:?} after the last rule belongs to no rule", &t[pos..]), json!({"cddl": t}));
                    }
                }
            }
        }
    }
    Ok(())
}
fn blank(s: &str) -> bool {
    s.lines().all(|l| {
        let l = l.trim_matches([' ', '\t', '\r']);
        l.is_empty() || l.starts_with(';')
    })
}

// ---- C23 ----------------------------------------------------------------
/// Rules held in several layers; the first layer that knows a name wins.
struct Stack<'a> {
    layers: Vec<&'a BasicContext>,
    asked: RefCell<Vec<String>>,
    /// a name this object refuses to resolve, in its own words
    locked: RefCell<Option<(String, u8)>>,
    /// it refuses it only the first time
    once: Cell<bool>,
}
impl LookupContext for Stack<'_> {
    fn lookup_rule<'a>(&'a self, name: &str) -> Result<&'a RuleDef, ValidateError> {
        self.asked.borrow_mut().push(name.to_string());
        let refused = self.locked.borrow().as_ref().filter(|l| l.0 == name).map(|l| l.1);
        if let Some(k) = refused {
            if self.once.get() {
                *self.locked.borrow_mut() = None;
            }
            return Err(inject(k));
        }
        for l in &self.layers {
            if let Some(r) = l.rules.get(name) {
                return Ok(r);
            }
        }
        Err(ValidateError::MissingRule(name.into()))
    }
}

/// A name that is almost `n`.
fn near_name(n: &str, r: &mut Rng) -> String {
    let mut cs: Vec<char> = n.chars().collect();
    match r.below(12) {
        0 => return n.to_uppercase(),
        1 => return n.to_lowercase(),
        2..=4 => {
            let i = r.below(cs.len());
            cs[i] = if cs[i].is_uppercase() { cs[i].to_ascii_lowercase() } else { cs[i].to_ascii_uppercase() };
        }
        5 => cs.push(*r.pick(&['0', 'a', '_', '$'])),
        6 => cs.insert(0, *r.pick(&['a', '_', '$', '@', 'Z'])),
        7 => {
            cs.pop();
        }
        8 => {
            cs.remove(0);
        }
        9 => cs.extend(["-0", ".x", "-a", "__"][r.below(4)].chars()),
        10 => {
            for c in &mut cs {
                *c = match *c {
                    '-' => '_',
                    '_' => '-',
                    '.' => '-',
                    c => c,
                };
            }
        }
        _ => return format!("{}{}", n, n),
    }
    cs.into_iter().collect()
}

/// The library's own lookup objects know exactly the names they hold.
fn exact_names(cx: &mut Cx, ctxs: &[BasicContext], texts: &[String]) -> Res {
    for (ctx, text) in ctxs.iter().zip(texts) {
        let mut names: Vec<String> = ctx.rules.keys().cloned().collect();
        for n in names.clone() {
            for _ in 0..3 {
                names.push(near_name(&n, &mut cx.r));
            }
        }
        names.extend(["", "int", "tstr", "any", " ", "\u{e9}"].map(String::from));
        for n in names {
            cx.st.evals += 1;
            let bad = match (ctx.lookup_rule(&n), ctx.rules.get(&n)) {
                (Ok(d), Some(e)) => !std::ptr::eq(d, e),
                (Err(ValidateError::MissingRule(m)), None) => m != n,
                _ => true,
            };
            if bad {
                return viol(format!("BasicContext does not answer for exactly the rules it holds: {:?}", n), json!({"cddl": text, "name": n, "holds": ctx.rules.keys().collect::<Vec<_>>()}));
            }
        }
    }
    Ok(())
}

fn lookups(cx: &mut Cx) -> Res {
    let mut c = cfg(&mut cx.r);
    c.w_name = 60;
    c.rules = (2, 9);
    c.generics = 30;
    c.unwrap = 20;
    c.w_choiceify = 8;
    let (sc, root, _) = Gen::schema(&mut cx.r, &c);
    let mut sc = sc;
    if cx.r.pct(10) {
        break_schema(&mut sc, &mut cx.r);
    }
    if cx.r.pct(25) {
        // one reference misspelt
        let names: std::collections::HashSet<String> = sc.0.iter().flat_map(|r| r.params.iter().chain([&r.name]).cloned()).collect();
        let mut k = 0;
        super::rewrite::all_refs(&mut sc, &mut |n, _| k += usize::from(names.contains(n)));
        if k > 0 {
            let at = cx.r.below(k);
            let mut i = 0;
            let r = &mut cx.r;
            super::rewrite::all_refs(&mut sc, &mut |n, _| {
                if names.contains(n) {
                    if i == at {
                        let m = near_name(n, r);
                        if !m.is_empty() && !names.contains(&m) && m.starts_with(|c: char| c.is_alphabetic() || "$@_".contains(c)) && matches!(prelude(&m), Pre::NotPrelude) {
                            *n = m;
                        }
                    }
                    i += 1;
                }
            });
            cx.st.inc("misspelt_references");
        }
    }
    // spread the rules over layers; some names get another meaning in a
    // lower layer, where nothing should find it
    let nl = cx.r.range(1, 4);
    let mut parts: Vec<Vec<Rule>> = vec![vec![]; nl];
    for r in &sc.0 {
        let i = cx.r.below(nl);
        parts[i].push(r.clone());
        if i + 1 < nl && cx.r.pct(25) {
            let j = cx.r.range(i + 1, nl - 1);
            parts[j].push(rule_t(&r.name, tlit(Lit::T("a shadowed rule".into())).into()));
        }
    }
    let mut ctxs = vec![];
    let mut texts = vec![];
    for p in &parts {
        if p.is_empty() {
            ctxs.push(BasicContext::new(Default::default()));
            texts.push(String::new());
            continue;
        }
        let t = text_of(&Schema(p.clone()), &mut cx.r);
        ctxs.push(load(cx, &t)?);
        texts.push(t);
    }
    let stack = Stack { layers: ctxs.iter().collect(), asked: RefCell::default(), locked: RefCell::default(), once: Cell::new(false) };
    exact_names(cx, &ctxs, &texts)?;
    let vals = values(&sc, &root, &mut cx.r, false, c.big, 6);
    let known: std::collections::HashSet<String> = {
        let mut s = std::collections::HashSet::new();
        refs(&sc, &mut s);
        s
    };
    let def = stack.lookup_rule(&root).unwrap();
    for v in vals {
        let (verdict, ev) = decide(&sc, &root, &v, FUEL);
        if verdict == Verdict::Undecided {
            cx.st.inc("undecided");
            continue;
        }
        stack.asked.borrow_mut().clear();
        let out = run::cbor_ctx(&stack, def, &v.to_ciborium());
        let asked = stack.asked.borrow().clone();
        cx.st.evals += 1;
        cx.st.add("lookups", asked.len() as u64);
        if ev.derefs > 0 {
            cx.st.nontrivial(hash_bytes(texts.join("|").as_bytes()) ^ mix(hash_bytes(show_val(&v).as_bytes())));
        }
        if !agrees(&verdict, &out) {
            return viol(
                format!("with its rules supplied by a lookup object of {} layers the schema gives \"{}\", expected {:?}", nl, out.show(), verdict),
                json!({"layers": texts, "rule": root, "value": show_val(&v), "asked": asked}),
            );
        }
        if let Some(n) = asked.iter().find(|n| !known.contains(*n)) {
            return viol(format!("a rule named {:?} is looked up, which the schema does not mention", n), json!({"layers": texts, "rule": root, "value": show_val(&v)}));
        }
        // one name that the object refuses, with an error of its own
        if !asked.is_empty() {
            let n = cx.r.pick(&asked).clone();
            let kind = cx.r.below(6) as u8;
            *stack.locked.borrow_mut() = Some((n.clone(), kind));
            stack.once.set(cx.r.pct(50));
            let got = run::cbor_ctx(&stack, def, &v.to_ciborium());
            *stack.locked.borrow_mut() = None;
            cx.st.evals += 1;
            cx.st.inc("refused_lookups");
            let want = run::classify(&inject(kind));
            if got != want {
                return viol(
                    format!("the lookup object refused {:?} with \"{}\", yet the answer is \"{}\"", n, want.show(), got.show()),
                    json!({"layers": texts, "rule": root, "value": show_val(&v)}),
                );
            }
        }
        cx.sample(|| json!({"layers": texts, "rule": root, "value": show_val(&v), "verdict": format!("{:?}", verdict), "asked": asked}));
    }
    Ok(())
}
impl From<T1> for Ty {
    fn from(t: T1) -> Ty {
        ty1(t)
    }
}
fn refs(s: &Schema, out: &mut std::collections::HashSet<String>) {
    let mut s = s.clone();
    super::rewrite::all_refs(&mut s, &mut |n, _| {
        out.insert(n.clone());
    });
}

pub fn props() -> Vec<Prop> {
    let p = |id, quick, thorough, rule, run, assumptions| Prop { id, quick, thorough, rule, run, stack: 64 << 20, shards: 8, assumptions };
    vec![
        p(
            "C12", 55_000, 2_500_000,
            "a distinct (schema text, value) pair given to every entry point in several encodings",
            agreement, &["floats whose JSON text the JSON decoder itself reads back one unit off are only given as decoded values", "data nests at most 100 deep, within the decoders' own limits"],
        ),
        p(
            "C17", 350_000, 3_000_000,
            "a distinct (schema, value, injected lookup failure) triple, (broken schema, value) pair whose evaluation meets the defect, or schema using an unimplemented feature",
            faults, &["alternatives are tried in the order written, so a defect after a matching alternative is not met", "a defect found while preparing a schema is reported for the whole schema"],
        ),
        p(
            "C18", 80_000, 900_000,
            "a distinct (schema text, value) pair validated repeatedly: same context, fresh context, other threads, fresh processes",
            purity, &["thread interleavings are those the scheduler produces (the crate forbids unsafe code, so data races are excluded by the compiler)"],
        ),
        p(
            "C19", 80_000, 2_500_000,
            "a distinct schema text parsed and flattened through every entry point, then damaged and compared again",
            slices, &["space and comments that follow a rule may be kept with its text"],
        ),
        p(
            "C23", 260_000, 2_500_000,
            "a distinct (rule layers, value) pair whose validation resolves at least one reference",
            lookups, &["a lookup object answers the same name the same way throughout a validation"],
        ),
    ]
}

const _: Option<Kind> = None;
