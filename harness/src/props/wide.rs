//! Large but plain inputs: the members, options, rules, parameters, repetitions
//! and lengths are counted in the thousands, so that limits that nothing
//! documents (a narrower counter, a fixed table) show. What is expected follows
//! from how the input was made; no model is involved.
use super::diff::show_val;
use crate::fw::*;
use crate::rng::{hash_bytes, Rng};
use crate::run::{self, Out};
use crate::val::*;
use serde_json::json;

/// A count near the limits of small counters, at most `max`.
pub fn count(r: &mut Rng, max: usize) -> usize {
    const NEAR: [usize; 12] = [64, 100, 128, 256, 512, 1000, 1024, 4096, 10_000, 16384, 32768, 65536];
    loop {
        let n = match r.below(4) {
            0 => r.range(40, 400),
            1 if max >= 65540 => 65536,
            _ => *r.pick(&NEAR),
        };
        let n = n + r.below(5) - 2;
        if n <= max {
            return n;
        }
    }
}

fn short(s: &str) -> String {
    if s.len() > 600 {
        let cut = |i: usize| (i..).find(|i| s.is_char_boundary(*i)).unwrap();
        format!("{} ... {} ({} bytes)", &s[..cut(300)], &s[cut(s.len() - 200)..], s.len())
    } else {
        s.to_string()
    }
}

/// One large schema and the values it has to take or refuse.
struct Big {
    what: &'static str,
    text: String,
    root: String,
    vals: Vec<(Val, bool)>,
}

fn judge(cx: &mut Cx, b: Big) -> Res {
    if cx.verbose {
        println!("{}: {}", b.what, short(&b.text));
    }
    let replay = |v: Option<&Val>| {
        // the whole text, as long as it's of a reasonable size
        json!({"large": b.what, "cddl": if b.text.len() < 2_000_000 { b.text.clone() } else { short(&b.text) }, "rule": b.root, "value": v.map(show_val)})
    };
    let ctx = match run::compile(&b.text) {
        Ok(c) => c,
        Err(o) => return viol(format!("a large well-formed schema ({}) was refused: {}", b.what, o.show()), replay(None)),
    };
    cx.st.inc("large_schemas");
    for (v, want) in &b.vals {
        let mut outs = vec![run::cbor(&ctx, &b.root, &v.to_ciborium())];
        if jsonable(v) {
            outs.push(run::json(&ctx, &b.root, &v.to_json_value()));
        }
        for o in outs {
            cx.st.evals += 1;
            cx.st.inc(if *want { "large_accepted" } else { "large_refused" });
            if !matches!((&o, want), (Out::Ok, true) | (Out::Mis(_), false)) {
                return viol(format!("{}: {} expected, but the validator says {}", b.what, if *want { "a match" } else { "a mismatch" }, short(&o.show())), replay(Some(v)));
            }
        }
        cx.st.nontrivial(hash_bytes(b.text.as_bytes()) ^ hash_bytes(&cbor_bytes(v)));
    }
    Ok(())
}

fn jsonable(v: &Val) -> bool {
    match v {
        Val::Bytes(_) => false,
        Val::Int(i) => *i >= i128::from(i64::MIN) && *i <= i128::from(u64::MAX),
        Val::Arr(a) => a.iter().all(jsonable),
        Val::Map(m) => m.iter().all(|(k, v)| matches!(k, Val::Text(_)) && jsonable(v)),
        _ => true,
    }
}

fn ints(n: usize) -> Vec<Val> {
    (1..=n as i128).map(Val::Int).collect()
}
fn list(n: usize, sep: &str, f: impl Fn(usize) -> String) -> String {
    (1..=n).map(f).collect::<Vec<_>>().join(sep)
}
fn int(i: usize) -> Val {
    Val::Int(i as i128)
}
fn text(s: impl Into<String>) -> Val {
    Val::Text(s.into())
}
/// Positions worth looking at among 1..=n.
fn spots(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v = vec![1, n, n / 2 + 1, 1 + r.below(n), 1 + r.below(n)];
    v.extend([127, 128, 255, 256, 257, 32768, 65535, 65536, 65537].iter().filter(|x| **x <= n));
    v
}

/// A choice of many options.
pub fn choices(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let n = count(r, 70_000);
    let mut vals: Vec<(Val, bool)> = vec![];
    let form = r.below(6);
    let txt = match form {
        0 => format!("a = {}", list(n, " / ", |i| i.to_string())),
        1 => format!("a = ({})", list(n, " / ", |i| i.to_string())),
        2 => format!("a = [] / [{}]", list(n, " / ", |i| i.to_string())),
        3 => format!("a = &({})", list(n, ", ", |i| format!("k{}: {}", i, i))),
        4 => format!("a = tstr / bool / nil / {}", list(n, " / ", |i| format!("{}..{}", i, i))),
        _ => format!("a = {}", list(n, " / ", |i| format!("\"s{}\"", i))),
    };
    let w = |i: usize| match form {
        5 => text(format!("s{}", i)),
        2 => Val::Arr(vec![int(i)]),
        _ => int(i),
    };
    for i in spots(r, n) {
        vals.push((w(i), true));
    }
    for i in [0, n + 1, n + 256, n + 65536] {
        vals.push((w(i), false));
    }
    vals.push((Val::Bytes(vec![]), false));
    vals.push((Val::Bool(true), form == 4));
    judge(cx, Big { what: "a choice of many options", text: txt, root: "a".into(), vals })
}

/// An array of many members.
pub fn arrays(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let n = count(r, 70_000);
    let mut full = ints(n);
    let form = r.below(5);
    let txt = match form {
        0 => format!("a = [{}]", list(n, ", ", |i| i.to_string())),
        1 => format!("a = [(0 // {})]", list(n, ", ", |i| i.to_string())),
        2 => format!("a = [g]\ng = ({})", list(n, ", ", |i| format!("n{}: {}", i, i))),
        3 => format!("a = [? 0, {}, ? 0]", list(n, ", ", |i| i.to_string())),
        _ => format!("a = [({}) // tstr]", list(n, ", ", |i| format!("{} / \"{}\"", i, i))),
    };
    let mut vals = vec![(Val::Arr(full.clone()), true)];
    let short = full[..n - 1].to_vec();
    vals.push((Val::Arr(short), false));
    for i in spots(r, n) {
        let mut x = full.clone();
        x[i - 1] = int(i + 1);
        vals.push((Val::Arr(x), false));
        if r.pct(30) {
            let mut x = full.clone();
            x.remove(i - 1);
            vals.push((Val::Arr(x), false));
        }
    }
    full.push(int(n + 1));
    vals.push((Val::Arr(full), false));
    vals.push((Val::Arr(vec![]), false));
    vals.truncate(7);
    judge(cx, Big { what: "an array of many members", text: txt, root: "a".into(), vals })
}

/// A map of many members, or a table of many entries.
pub fn maps(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let table = r.pct(50);
    let n = count(r, if table { 70_000 } else { 1500 });
    let by_text = r.pct(50);
    let key = |i: usize| if by_text { text(format!("k{}", i)) } else { int(i) };
    let mut full: Vec<(Val, Val)> = (1..=n).map(|i| (key(i), int(i))).collect();
    let mut vals = vec![];
    let txt;
    if table {
        let k = if by_text { "tstr" } else { "int" };
        txt = match r.below(3) {
            0 => format!("a = {{ * {} => uint }}", k),
            1 => format!("a = {{ + {} => uint, ? nil => bool }}", k),
            _ => format!("a = {{ {}*{} {} => uint }}", n, n, k),
        };
        let exact = txt.contains(&format!("{}*", n));
        vals.push((Val::Map(full.clone()), true));
        let sp = spots(r, n);
        let i = *r.pick(&sp);
        let mut x = full.clone();
        x[i - 1].1 = Val::Bool(true);
        vals.push((Val::Map(x), false));
        let mut x = full.clone();
        x.remove(i - 1);
        vals.push((Val::Map(x), !exact));
        let mut x = full.clone();
        x[i - 1].0 = Val::Float(0.5);
        vals.push((Val::Map(x), false));
        full.push((key(0), int(0)));
        vals.push((Val::Map(full), !exact));
    } else {
        let f = |i: usize| if by_text { format!("k{}: {}", i, i) } else { format!("{}: {}", i, i) };
        txt = match r.below(4) {
            0 => format!("a = {{{}}}", list(n, ", ", f)),
            1 => format!("a = {{(g)}}\ng = ({})", list(n, ", ", f)),
            2 => format!("a = {{~b}}\nb = {{{}}}", list(n, ", ", f)),
            _ => format!("a = {{ zz: 1 // {} }}", list(n, ", ", f)),
        };
        r.shuffle(&mut full);
        vals.push((Val::Map(full.clone()), true));
        for _ in 0..3 {
            let i = r.below(n);
            let mut x = full.clone();
            x[i].1 = int(n + 1);
            vals.push((Val::Map(x), false));
            let mut x = full.clone();
            x.remove(i);
            vals.push((Val::Map(x), false));
        }
        full.push((key(n + 1), int(n + 1)));
        vals.push((Val::Map(full), false));
    }
    judge(cx, Big { what: "a map of many members", text: txt, root: "a".into(), vals })
}

/// Many entries after a cut, or many cuts.
pub fn cuts(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let n = count(r, 1500);
    let txt = match r.below(3) {
        0 => format!("a = {{ {}, * tstr => bool }}", list(n, ", ", |i| format!("? k{}: uint", i))),
        1 => format!("a = {{ {}, * tstr => bool }}", list(n, ", ", |i| format!("? \"k{}\" ^ => uint", i))),
        _ => format!("a = {{ ({}), * tstr => bool }}", list(n, ", ", |i| format!("? k{}: uint", i))),
    };
    let full: Vec<(Val, Val)> = (1..=n).map(|i| (text(format!("k{}", i)), int(i))).collect();
    let mut vals = vec![(Val::Map(full.clone()), true)];
    for _ in 0..3 {
        // cut, so that the table doesn't take it
        let i = r.below(n);
        let mut x = full.clone();
        x[i].1 = Val::Bool(true);
        vals.push((Val::Map(x), false));
        vals.push((Val::Map(vec![(full[i].0.clone(), Val::Bool(true))]), false));
        // not cut: another key
        let mut x = full.clone();
        x[i] = (text(format!("x{}", i)), Val::Bool(true));
        vals.push((Val::Map(x), true));
        let mut x = full.clone();
        x[i] = (text(format!("x{}", i)), int(1));
        vals.push((Val::Map(x), false));
    }
    judge(cx, Big { what: "many cuts", text: txt, root: "a".into(), vals })
}

/// Repetitions of one member, counted.
pub fn occurs(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let n = count(r, 140_000);
    let lo = r.below(n + 1);
    let (o, lo, hi) = match r.below(6) {
        0 => ("*".to_string(), 0, usize::MAX),
        1 => ("+".to_string(), 1, usize::MAX),
        2 => (format!("{}*", lo), lo, usize::MAX),
        3 => (format!("*{}", n), 0, n),
        4 => (format!("{}*{}", n, n), n, n),
        _ => (format!("{}*{}", lo, n), lo, n),
    };
    let pair = r.pct(25);
    let inner = if pair { "(int, tstr)" } else { "int" };
    let tail = r.pct(50);
    let txt = match r.below(3) {
        0 => format!("a = [{} {}{}]", o, inner, if tail { ", * bool" } else { "" }),
        1 => format!("a = [{} g{}]\ng = ({})", o, if tail { ", * bool" } else { "" }, inner),
        _ => format!("a = [(nil // {} {}){}]", o, inner, if tail { ", * bool" } else { "" }),
    };
    let mut vals = vec![];
    let mut ks = vec![n, n + 1, n - 1, lo, lo.saturating_sub(1), 0, 65535, 65536];
    r.shuffle(&mut ks);
    ks.truncate(4);
    for k in ks {
        let mut a: Vec<Val> = vec![];
        for i in 0..k {
            a.push(int(i));
            if pair {
                a.push(text("t"));
            }
        }
        let ok = (lo..=hi).contains(&k);
        vals.push((Val::Arr(a.clone()), ok));
        if tail && r.pct(50) {
            a.extend((0..count(r, 300)).map(|_| Val::Bool(false)));
            vals.push((Val::Arr(a), ok));
        } else {
            a.push(text("x"));
            vals.push((Val::Arr(a), false));
        }
    }
    judge(cx, Big { what: "many repetitions", text: txt, root: "a".into(), vals })
}

/// Long text and byte strings.
pub fn sizes(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let n = if r.pct(10) { (1 << 24) + r.below(3) - 1 } else { count(r, 140_000) };
    let lo = r.below(n);
    let bytes = r.pct(50);
    let t = if bytes { "bstr" } else { "tstr" };
    let (c, lo, hi) = match r.below(3) {
        0 => (format!("{}", n), n, n),
        1 => (format!("({}..{})", lo, n), lo, n),
        _ => (format!("({}...{})", lo, n), lo, n - 1),
    };
    let txt = if r.pct(50) { format!("a = {} .size {}", t, c) } else { format!("a = b .size {}\nb = {}", c, t) };
    let mut vals = vec![];
    for k in [n, n - 1, n + 1, lo, lo.saturating_sub(1), n & 0xff, n & 0xffff] {
        let ok = (lo..=hi).contains(&k);
        vals.push((if bytes { Val::Bytes(vec![7; k]) } else { text("x".repeat(k)) }, ok));
        // the size of text is counted in bytes
        if !bytes && k % 2 == 0 && r.pct(50) {
            vals.push((text("é".repeat(k / 2)), ok));
        }
    }
    judge(cx, Big { what: "long strings", text: txt, root: "a".into(), vals })
}

/// Long expressions that begin alike, and long text.
pub fn regexps(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let n = r.range(1, 300);
    let base: String = (0..n).map(|_| *r.pick(&['a', 'b', 'c', '0', 'é'])).collect();
    // expressions of one length and with one beginning
    let ends: Vec<char> = vec!['x', 'y', 'z', 'w'];
    let k = r.range(2, 4);
    let forms = r.below(3);
    let txt = match forms {
        0 => list(k, "\n", |i| format!("r{} = tstr .regexp \"{}{}\"", i, base, ends[i - 1])),
        1 => list(k, "\n", |i| format!("r{} = tstr .regexp \"{}{}\"", i, ends[i - 1], base)),
        _ => list(k, "\n", |i| format!("r{} = tstr .regexp \"{}{}{}\"", i, base, ends[i - 1], base)),
    };
    let of = |i: usize| match forms {
        0 => format!("{}{}", base, ends[i]),
        1 => format!("{}{}", ends[i], base),
        _ => format!("{}{}{}", base, ends[i], base),
    };
    for i in 0..k {
        let pad = "-".repeat(r_count(cx));
        let vals = (0..k).flat_map(|j| [(text(of(j)), i == j), (text(format!("{}{}", pad, of(j))), i == j), (text(format!("{}{}", of(j), pad)), i == j)]).collect();
        judge(cx, Big { what: "expressions that are alike", text: txt.clone(), root: format!("r{}", i + 1), vals })?;
    }
    Ok(())
}
fn r_count(cx: &mut Cx) -> usize {
    count(&mut cx.r, 70_000)
}

/// Large embedded items.
pub fn embedded(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let n = count(r, 70_000);
    let txt = match r.below(3) {
        0 => "a = bstr .cbor b\nb = [* uint]".to_string(),
        1 => "a = bstr .cbor ([* uint])".to_string(),
        _ => format!("a = bstr .cbor b\nb = [{}*{} uint]", n, n),
    };
    let exact = txt.contains(&format!("[{}*", n));
    let mut vals = vec![];
    let full = ints(n);
    let emb = |v: Vec<Val>| Val::Bytes(cbor_bytes(&Val::Arr(v)));
    vals.push((emb(full.clone()), true));
    let sp = spots(r, n);
    let i = *r.pick(&sp);
    let mut x = full.clone();
    x[i - 1] = Val::Int(-1);
    vals.push((emb(x), false));
    vals.push((emb(full[1..].to_vec()), !exact));
    if let Val::Bytes(b) = emb(full) {
        // cut short, and with something after the item
        let mut c = b.clone();
        c.truncate(b.len() - 1);
        vals.push((Val::Bytes(c), false));
        let mut c = b.clone();
        c.push(0);
        vals.push((Val::Bytes(c), false));
        vals.push((Val::Bytes(b), true));
    }
    judge(cx, Big { what: "large embedded items", text: txt, root: "a".into(), vals })
}

/// Many parameters, or many uses.
pub fn generics(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let n = count(r, 1500);
    let order: Vec<usize> = {
        let mut o: Vec<usize> = (1..=n).collect();
        r.shuffle(&mut o);
        o
    };
    let params = list(n, ", ", |i| format!("p{}", i));
    let args = list(n, ", ", |i| i.to_string());
    let body = order.iter().map(|i| format!("p{}", i)).collect::<Vec<_>>();
    let good: Vec<Val> = order.iter().map(|i| int(*i)).collect();
    let mut vals = vec![];
    let txt = match r.below(3) {
        0 | 1 => {
            let t = if r.pct(50) { format!("a = g<{}>\ng<{}> = [{}]", args, params, body.join(", ")) } else { format!("a = [g<{}>]\ng<{}> = ({})", args, params, body.join(", ")) };
            vals.push((Val::Arr(good.clone()), true));
            for _ in 0..4 {
                let (i, j) = (r.below(n), r.below(n));
                let mut x = good.clone();
                x.swap(i, j);
                vals.push((Val::Arr(x), i == j));
            }
            t
        }
        _ => {
            // one parameter, many arguments
            let t = format!("a = [{}]\ng<p> = p / [p]", list(n, ", ", |i| format!("g<{}>", i)));
            let ok: Vec<Val> = (1..=n).map(|i| if r.pct(50) { int(i) } else { Val::Arr(vec![int(i)]) }).collect();
            for _ in 0..3 {
                let i = r.below(n);
                let mut x = ok.clone();
                x[i] = int(i);
                vals.push((Val::Arr(x), false));
            }
            vals.push((Val::Arr(ok), true));
            t
        }
    };
    judge(cx, Big { what: "many parameters", text: txt, root: "a".into(), vals })
}

/// Unwrapped arrays, and choices made of groups, with many members.
pub fn unwraps(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let n = count(r, 70_000);
    let mut vals = vec![];
    let txt;
    if r.pct(50) {
        txt = format!("a = [0, ~b, 0]\nb = [{}]", list(n, ", ", |i| i.to_string()));
        let mut v = vec![int(0)];
        v.extend(ints(n));
        v.push(int(0));
        for _ in 0..3 {
            let mut x = v.clone();
            x[1 + r.below(n)] = int(n + 1);
            vals.push((Val::Arr(x), false));
        }
        let mut x = v.clone();
        x.pop();
        vals.push((Val::Arr(x), false));
        vals.push((Val::Arr(v), true));
    } else {
        txt = match r.below(3) {
            0 => format!("a = &({})", list(n, ", ", |i| format!("k{}: {}", i, i))),
            1 => format!("a = &g\ng = ({})", list(n, ", ", |i| format!("k{}: {}", i, i))),
            _ => format!("a = [&g]\ng = ({})", list(n, ", ", |i| i.to_string())),
        };
        let w = |v: Val| if txt.contains("[&g]") { Val::Arr(vec![v]) } else { v };
        for i in spots(r, n) {
            vals.push((w(int(i)), true));
        }
        for i in [0, n + 1, n + 256, n + 65536] {
            vals.push((w(int(i)), false));
        }
    }
    judge(cx, Big { what: "a large unwrap or group choice", text: txt, root: "a".into(), vals })
}

/// Many rules.
pub fn rules(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let n = count(r, 20_000);
    let long = if r.pct(30) { "n".repeat(count(r, 5000)) } else { "r".into() };
    let n = if long.len() > 1 { n.min(300) } else { n };
    let mut order: Vec<usize> = (1..=n).collect();
    r.shuffle(&mut order);
    // rules refer to each other in groups of a few, before and after
    let txt = order
        .iter()
        .map(|i| if i % 7 == 0 { format!("{}{} = {}", long, i, i) } else { format!("{}{} = {} / [{}{}]", long, i, i, long, (i / 7 * 7).max(1)) })
        .collect::<Vec<_>>()
        .join("\n");
    let sp = spots(r, n);
    let i = *r.pick(&sp);
    let j = (i / 7 * 7).max(1);
    let vals = vec![(int(i), true), (int(i + 1), false), (int(0), false), (Val::Arr(vec![int(j)]), i % 7 != 0), (Val::Arr(vec![int(n + 1)]), false)];
    judge(cx, Big { what: "many rules", text: txt, root: format!("{}{}", long, i), vals })
}
