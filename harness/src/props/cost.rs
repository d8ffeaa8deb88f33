//! How the work grows with the size of the input, counted in instrumented
//! steps (so the result does not depend on the machine).
use crate::fw::*;
use crate::gen::{junk, Cfg, Gen, Sampler, K};
use crate::print;
use crate::rng::hash_bytes;
use crate::run;
use crate::s::*;
use crate::san;
use crate::syn::*;
use crate::val::*;
use serde_json::json;

#[derive(Clone, Copy, PartialEq, Debug)]
enum G {
    /// proportional to the size
    Lin,
    /// at most the square of the size
    Quad,
}

struct Fam {
    name: &'static str,
    g: G,
    n: u64,
    schema: fn(usize) -> String,
    data: fn(usize) -> Val,
}

fn ints(n: usize) -> Val {
    Val::Arr((0..n).map(|i| Val::Int(i as i128)).collect())
}
fn strs(n: usize) -> Val {
    Val::Arr((0..n).map(|i| Val::Text(format!("s{}", i))).collect())
}
fn map(n: usize) -> Val {
    Val::Map((0..n).map(|i| (Val::Text(format!("k{:06}", i)), Val::Int(i as i128))).collect())
}
fn wrap(n: usize) -> Val {
    let mut v = Val::Int(1);
    for _ in 0..n {
        v = Val::Arr(vec![v]);
    }
    v
}
fn wrapm(n: usize) -> Val {
    let mut v = Val::Int(1);
    for _ in 0..n {
        v = Val::Map(vec![(Val::Text("k".into()), v)]);
    }
    v
}
fn rep(h: &str, u: &str, n: usize, t: &str) -> String {
    format!("{}{}{}", h, u.repeat(n), t)
}
fn nested(o: &str, n: usize, core: &str, c: &str) -> String {
    format!("a = {}{}{}", o.repeat(n), core, c.repeat(n))
}
fn numbered(head: &str, unit: impl Fn(usize) -> String, sep: &str, n: usize, tail: &str) -> String {
    format!("{}{}{}", head, (0..n).map(unit).collect::<Vec<_>>().join(sep), tail)
}

const FAMS: &[Fam] = &[
    Fam { name: "many integers, * int", g: G::Lin, n: 3200, schema: |_| "a = [* int]".into(), data: ints },
    Fam { name: "many integers, choice", g: G::Lin, n: 3200, schema: |_| "a = [* (tstr / bstr / nil / int)]".into(), data: ints },
    Fam { name: "many integers, group choice", g: G::Lin, n: 3200, schema: |_| "a = [* (tstr // int, int)]".into(), data: |n| ints(n * 2) },
    Fam { name: "many integers, backtracking group choice", g: G::Lin, n: 2400, schema: |_| "a = [* (int, int, tstr // int, int, bstr // int, int)]".into(), data: |n| ints(n * 2) },
    Fam { name: "many integers, mismatch at the end", g: G::Lin, n: 2400, schema: |_| "a = [* int, tstr]".into(), data: ints },
    Fam { name: "several occurrences compete", g: G::Lin, n: 2400, schema: |_| "a = [* int, * int, ? int, * int, tstr]".into(), data: ints },
    Fam { name: "nested occurrences", g: G::Lin, n: 2400, schema: |_| "a = [* (* (* int))]".into(), data: ints },
    Fam { name: "nested occurrences, mismatch", g: G::Lin, n: 300, schema: |_| "a = [* (* (* int)), tstr]".into(), data: ints },
    Fam { name: "counted occurrence", g: G::Lin, n: 2400, schema: |n| format!("a = [{}*{} int]", n, n), data: ints },
    Fam { name: "huge counts", g: G::Lin, n: 300, schema: |_| "a = [0*18446744073709551615 int]".into(), data: ints },
    Fam { name: "one element per position", g: G::Lin, n: 1600, schema: |n| rep("a = [", "int, ", n, "]"), data: ints },
    Fam { name: "optional elements", g: G::Quad, n: 150, schema: |n| rep("a = [", "? tstr, ", n, "* int]"), data: ints },
    Fam { name: "many alternatives", g: G::Lin, n: 2400, schema: |n| numbered("a = ", |i| format!("{}", i), " / ", n, ""), data: |n| Val::Int(n as i128) },
    Fam { name: "many alternatives, each a rule", g: G::Quad, n: 100, schema: |n| format!("{}\n{}", numbered("a = ", |i| format!("r{}", i), " / ", n, ""), numbered("", |i| format!("r{} = {}", i, i), "\n", n, "")), data: |n| Val::Int(n as i128) },
    Fam { name: "map, * tstr => int", g: G::Quad, n: 150, schema: |_| "a = {* tstr => int}".into(), data: map },
    Fam { name: "map, two wildcards", g: G::Quad, n: 150, schema: |_| "a = {* tstr => tstr, * tstr => int}".into(), data: map },
    Fam { name: "map, a literal per key", g: G::Quad, n: 120, schema: |n| numbered("a = {", |i| format!("k{:06}: int", i), ", ", n, "}"), data: map },
    Fam { name: "map, optional literals that miss", g: G::Quad, n: 120, schema: |n| numbered("a = {", |i| format!("? m{:06}: int", i), ", ", n, ", * tstr => int}"), data: map },
    Fam { name: "map, group choices", g: G::Quad, n: 60, schema: |n| numbered("a = {", |i| format!("x{}: int", i), " // ", n, " // * tstr => int}"), data: map },
    Fam { name: "map, wildcard that mismatches", g: G::Quad, n: 120, schema: |_| "a = {* tstr => tstr}".into(), data: map },
    Fam { name: "long text", g: G::Lin, n: 24000, schema: |_| "a = tstr .size (0..100000)".into(), data: |n| Val::Text("x".repeat(n)) },
    Fam { name: "long text, regular expression", g: G::Lin, n: 24000, schema: |_| "a = tstr .regexp \"^(x*)*$\"".into(), data: |n| Val::Text("x".repeat(n)) },
    Fam { name: "long bytes, embedded", g: G::Lin, n: 2400, schema: |_| "a = bstr .cbor [* int]".into(), data: |n| Val::Bytes(cbor_bytes(&ints(n))) },
    Fam { name: "records", g: G::Lin, n: 640, schema: |_| "a = [* r] r = {id: uint, ? name: tstr, kind: 1 / 2 / 3}".into(), data: |n| Val::Arr((0..n).map(|i| Val::Map(vec![(Val::Text("id".into()), Val::Int(i as i128)), (Val::Text("kind".into()), Val::Int(3))])).collect()) },
    Fam { name: "generic records", g: G::Lin, n: 640, schema: |_| "a = [* p<int, tstr>] p<x, y> = [x, ? y]".into(), data: |n| Val::Arr((0..n).map(|i| Val::Arr(vec![Val::Int(i as i128)])).collect()) },
    Fam { name: "unwrapped elements", g: G::Lin, n: 640, schema: |_| "a = [* (~p)] p = [int, int]".into(), data: |n| ints(2 * n) },
    Fam { name: "choices from a group", g: G::Lin, n: 800, schema: |_| "a = [* &g] g = (x: 1, y: 2, z: int)".into(), data: ints },
    // nested data
    Fam { name: "nested arrays", g: G::Quad, n: 11, schema: |_| "a = [a] / int".into(), data: wrap },
    Fam { name: "nested arrays, int first", g: G::Quad, n: 11, schema: |_| "a = int / [a]".into(), data: wrap },
    Fam { name: "nested arrays, repeated", g: G::Quad, n: 11, schema: |_| "a = int / [* a]".into(), data: wrap },
    Fam { name: "nested arrays, in groups", g: G::Quad, n: 6, schema: |_| "a = [g] g = (int // a)".into(), data: wrap },
    Fam { name: "nested arrays, one or more", g: G::Quad, n: 11, schema: |_| "a = int / [+ a]".into(), data: wrap },
    Fam { name: "nested arrays, optional", g: G::Quad, n: 11, schema: |_| "a = int / [? a]".into(), data: wrap },
    Fam { name: "nested maps", g: G::Quad, n: 11, schema: |_| "a = int / {k: a}".into(), data: wrapm },
    Fam { name: "nested maps, wildcard", g: G::Quad, n: 11, schema: |_| "a = int / {* tstr => a}".into(), data: wrapm },
    Fam { name: "nested maps, optional cut", g: G::Quad, n: 11, schema: |_| "a = int / {? k: a}".into(), data: wrapm },
    Fam { name: "nested maps, keys ^ =>", g: G::Quad, n: 11, schema: |_| "a = int / {? tstr ^ => a}".into(), data: wrapm },
    Fam { name: "nested maps, one or more", g: G::Quad, n: 11, schema: |_| "a = int / {+ tstr => a}".into(), data: wrapm },
    Fam { name: "nested arrays written out", g: G::Quad, n: 11, schema: |n| nested("[", n, "int", "]"), data: wrap },
    Fam { name: "nested maps written out", g: G::Quad, n: 11, schema: |n| nested("{k: ", n, "int", "}"), data: wrapm },
    Fam { name: "parentheses written out", g: G::Quad, n: 11, schema: |n| nested("(", n, "int", ")"), data: |_| Val::Int(1) },
    Fam { name: "nested groups written out", g: G::Quad, n: 11, schema: |n| format!("a = [{}int, int{}]", "(".repeat(n), ")".repeat(n)), data: |_| ints(2) },
    Fam { name: "nested groups, mismatch", g: G::Quad, n: 11, schema: |n| format!("a = [{}int, int{}]", "(".repeat(n), ")".repeat(n)), data: |_| ints(1) },
    Fam { name: "nested optional groups", g: G::Quad, n: 11, schema: |n| format!("a = [{}int, int{}]", "? (".repeat(n), ")".repeat(n)), data: |_| ints(2) },
    Fam { name: "nested optional map groups", g: G::Quad, n: 11, schema: |n| format!("a = {{{}x: int{}}}", "? (".repeat(n), ")".repeat(n)), data: |_| Val::Map(vec![(Val::Text("x".into()), Val::Int(1))]) },
    Fam { name: "aliases", g: G::Quad, n: 11, schema: |n| format!("a = r0\n{}\nr{} = int", numbered("", |i| format!("r{} = r{}", i, i + 1), "\n", n, ""), n), data: |_| Val::Int(1) },
    Fam { name: "nested generic arguments", g: G::Quad, n: 11, schema: |n| format!("g<t> = [t] {}", nested("g<", n, "int", ">")), data: wrap },
    Fam { name: "nested embedded CBOR", g: G::Quad, n: 8, schema: |n| nested("(bstr .cbor ", n, "int", ")"), data: |n| { let mut v = Val::Int(1); for _ in 0..n { v = Val::Bytes(cbor_bytes(&v)); } v } },
    Fam { name: "nested unwraps", g: G::Quad, n: 11, schema: |n| format!("a = [~r0]\n{}\nr{} = [int]", numbered("", |i| format!("r{} = [~r{}]", i, i + 1), "\n", n, ""), n), data: |_| ints(1) },
    Fam { name: "many unused rules", g: G::Lin, n: 2000, schema: |n| numbered("a = int\n", |i| format!("r{} = [int, tstr]", i), "\n", n, ""), data: |_| Val::Int(1) },
    Fam { name: "long comments", g: G::Lin, n: 20_000, schema: |n| format!("a = int ;{}\n", "x".repeat(n)), data: |_| Val::Int(1) },
    Fam { name: "many comments", g: G::Lin, n: 2000, schema: |n| rep("a = int", "; c\n", n, ""), data: |_| Val::Int(1) },
    Fam { name: "whitespace in a map", g: G::Lin, n: 5000, schema: |n| format!("a = {{{}x: int{}}}", " ".repeat(n), " ".repeat(n)), data: |_| Val::Map(vec![(Val::Text("x".into()), Val::Int(1))]) },
    // schemas whose parts stand side by side
    Fam { name: "many members", g: G::Lin, n: 2000, schema: |n| format!("a = int\n{}", numbered("b = [", |i| format!("m{}: int", i), ", ", n, "]")), data: |_| Val::Int(1) },
    Fam { name: "many map members", g: G::Lin, n: 2000, schema: |n| format!("a = int\n{}", numbered("b = {", |i| format!("? m{}: int", i), ", ", n, "}")), data: |_| Val::Int(1) },
    Fam { name: "many map members, literal keys", g: G::Lin, n: 2000, schema: |n| format!("a = int\n{}", numbered("b = {", |i| format!("\"m{}\" => int", i), ", ", n, "}")), data: |_| Val::Int(1) },
    Fam { name: "many members without commas", g: G::Lin, n: 2000, schema: |n| format!("a = int\n{}", numbered("b = (", |i| format!("m{}: int", i), " ", n, ")")), data: |_| Val::Int(1) },
    Fam { name: "many options", g: G::Lin, n: 2000, schema: |n| format!("a = int\n{}", numbered("b = ", |i| format!("r{}", i), " / ", n, "")), data: |_| Val::Int(1) },
    Fam { name: "many options in parentheses", g: G::Lin, n: 2000, schema: |n| format!("a = int\n{}", numbered("b = (", |i| format!("{}..{}", i, i), " / ", n, ")")), data: |_| Val::Int(1) },
    Fam { name: "many group options", g: G::Lin, n: 2000, schema: |n| format!("a = int\n{}", numbered("b = [", |i| format!("m{}: int", i), " // ", n, "]")), data: |_| Val::Int(1) },
    Fam { name: "many parameters", g: G::Lin, n: 2000, schema: |n| format!("a = int\n{}", numbered("b<", |i| format!("p{}", i), ", ", n, "> = int")), data: |_| Val::Int(1) },
    Fam { name: "many arguments", g: G::Lin, n: 2000, schema: |n| format!("a = int\n{}", numbered("b = g<", |i| format!("[{}]", i), ", ", n, ">")), data: |_| Val::Int(1) },
    Fam { name: "many groups", g: G::Lin, n: 1500, schema: |n| format!("a = int\n{}", numbered("b = [", |i| format!("(m{}: int)", i), ", ", n, "]")), data: |_| Val::Int(1) },
    Fam { name: "many group rules", g: G::Lin, n: 1500, schema: |n| format!("a = int\n{}", numbered("", |i| format!("g{} = (x: int, y: tstr)", i), "\n", n, "")), data: |_| Val::Int(1) },
    Fam { name: "many generic rules", g: G::Lin, n: 1500, schema: |n| format!("a = int\n{}", numbered("", |i| format!("g{}<t> = [t]", i), "\n", n, "")), data: |_| Val::Int(1) },
    Fam { name: "many rules, each used by the next", g: G::Lin, n: 1500, schema: |n| format!("a = int\n{}", numbered("", |i| format!("g{} = [g{}]", i, i + 1), "\n", n, "")), data: |_| Val::Int(1) },
    Fam { name: "many rules of one name", g: G::Lin, n: 1500, schema: |n| rep("a = int\n", "b = [int]\n", n, ""), data: |_| Val::Int(1) },
    Fam { name: "many controls", g: G::Lin, n: 1500, schema: |n| format!("a = int\n{}", numbered("", |i| format!("g{} = tstr .size {}", i, i), "\n", n, "")), data: |_| Val::Int(1) },
    Fam { name: "a long name", g: G::Lin, n: 20_000, schema: |n| format!("a = int\n{} = int", "n".repeat(n)), data: |_| Val::Int(1) },
    Fam { name: "a long string", g: G::Lin, n: 20_000, schema: |n| format!("a = int\nb = \"{}\"", "n\\n".repeat(n)), data: |_| Val::Int(1) },
    Fam { name: "a long byte string", g: G::Lin, n: 20_000, schema: |n| format!("a = int\nb = h'{}'", "0f ".repeat(n)), data: |_| Val::Int(1) },
    Fam { name: "a long base64 byte string", g: G::Lin, n: 20_000, schema: |n| format!("a = int\nb = b64'{}'", "AAAA".repeat(n)), data: |_| Val::Int(1) },
    Fam { name: "a long number", g: G::Lin, n: 5_000, schema: |n| format!("a = int\nb = 0.{}", "1".repeat(n)), data: |_| Val::Int(1) },
    Fam { name: "blank lines", g: G::Lin, n: 5_000, schema: |n| format!("a = int{}b = int", "\n ".repeat(n)), data: |_| Val::Int(1) },
];

/// Steps and peak memory of the whole call.
fn measure(text: &str, v: &Val) -> Result<(u64, u64, String), Viol> {
    let b = cbor_bytes(v);
    let s0 = san::steps();
    let (o, mem) = san::with_peak(|| run::cbor_bytes("a", text, &b));
    if let run::Out::Panic(p) = &o {
        return viol(format!("panic: {}", p), json!({"cddl": text}));
    }
    Ok((san::steps() - s0, mem, o.class()))
}

fn limit(g: G, doublings: u32) -> f64 {
    // what the growth class allows, half as much again, and no less than
    // needed to tell it from exponential growth
    let per: f64 = match g {
        G::Lin => 2.0,
        G::Quad => 4.0,
    };
    per.powi(doublings as i32) * 1.6
}

fn growth(what: &str, g: G, sizes: &[u64], cost: &[u64], data: serde_json::Value) -> Res {
    // an additive allowance keeps constant overheads from mattering
    let first = cost[0].max(2000) as f64;
    for (i, c) in cost.iter().enumerate().skip(1) {
        if *c as f64 > first * limit(g, i as u32) + 20_000.0 {
            return viol(
                format!("{}: {} for size {}, {} for size {}: more than {:?} growth", what, cost[0], sizes[0], c, sizes[i], g),
                json!({"sizes": sizes, "cost": cost, "case": data}),
            );
        }
    }
    Ok(())
}

fn families(cx: &mut Cx) -> Res {
    let f = &FAMS[(cx.idx / 2) as usize % FAMS.len()];
    let jitter = cx.r.range(80, 120) as u64;
    let base = (f.n * jitter / 100).max(2);
    let sizes: Vec<u64> = if cx.idx < 2 * FAMS.len() as u64 { vec![f.n, 2 * f.n, 4 * f.n] } else { vec![base, 2 * base, 4 * base] };
    let mut steps = vec![];
    let mut mem = vec![];
    let mut out = String::new();
    for n in &sizes {
        let t = (f.schema)(*n as usize);
        let v = (f.data)(*n as usize);
        let (s, m, o) = measure(&t, &v)?;
        steps.push(s);
        mem.push(m);
        out = o;
        cx.st.evals += 1;
        // stop as soon as it is too much: the next size may never end
        growth(&format!("steps for \"{}\"", f.name), f.g, &sizes, &steps, json!({"schema_for_size_3": (f.schema)(3)}))?;
    }
    if cx.verbose {
        println!("{} {:?} steps {:?} mem {:?} {}", f.name, sizes, steps, mem, out);
    }
    let sample = (f.schema)(3);
    growth(&format!("steps for \"{}\"", f.name), f.g, &sizes, &steps, json!({"schema_for_size_3": sample}))?;
    growth(&format!("bytes held for \"{}\"", f.name), f.g, &sizes, &mem, json!({"schema_for_size_3": sample}))?;
    cx.st.inc(&format!("families_ending_{}", out));
    cx.st.nontrivial(hash_bytes(f.name.as_bytes()) ^ base);
    cx.st.max("steps", *steps.last().unwrap());
    cx.sample(|| json!({"family": f.name, "sizes": sizes, "steps": steps, "bytes": mem, "outcome": out}));
    Ok(())
}

/// Random repetition: prefix unit* core suffix*, parsed at growing sizes.
fn random_text(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let k = r.range(1, 4);
    let unit = soup(r, k);
    let k = r.below(3);
    let core = soup(r, k);
    let close: String = if r.pct(60) {
        unit.chars()
            .rev()
            .filter_map(|c| match c {
                '(' => Some(')'),
                '[' => Some(']'),
                '{' => Some('}'),
                '<' => Some('>'),
                _ => None,
            })
            .collect()
    } else {
        String::new()
    };
    let head = *r.pick(&["a = ", "a = [", "a = {", "a = (", "a = int / ", ""]);
    let tail = match head {
        "a = [" => "]",
        "a = {" => "}",
        "a = (" => ")",
        _ => "",
    };
    let sizes = [10u64, 20, 40];
    let mut steps = vec![];
    let mut mem = vec![];
    for n in sizes {
        let n = n as usize;
        let t = format!("{}{}{}{}{}", head, unit.repeat(n), core, close.repeat(n), tail);
        let s0 = san::steps();
        let (p, m) = san::with_peak(|| run::parse(&t));
        if let Err(p) = p {
            return viol(format!("the parser panics: {}", p), json!({"cddl": t}));
        }
        steps.push(san::steps() - s0);
        mem.push(m);
        cx.st.evals += 1;
        growth("steps to parse repeated text", G::Quad, &sizes, &steps, json!({"head": head, "unit": unit, "core": core, "close": close}))?;
    }
    growth("steps to parse repeated text", G::Quad, &sizes, &steps, json!({"head": head, "unit": unit, "core": core, "close": close}))?;
    growth("bytes held to parse repeated text", G::Quad, &sizes, &mem, json!({"head": head, "unit": unit, "core": core, "close": close}))?;
    cx.st.inc("repeated_texts");
    cx.st.nontrivial(hash_bytes(format!("{}|{}|{}|{}", head, unit, core, close).as_bytes()));
    Ok(())
}

/// Ways to put a type inside another piece of CDDL: what comes before and
/// after it.
const NEST: &[(&str, &str)] = &[
    ("(", ")"),
    ("(", ")..2"),
    ("(", ")...x"),
    ("(", ") .size 3"),
    ("(", ") .cbor x"),
    ("(bstr .cbor ", ")"),
    ("(1..", ")"),
    ("(", " / int)"),
    ("(int / ", ")"),
    ("(", " // int)"),
    ("(int // ", ")"),
    ("(", ", int)"),
    ("(int, ", ")"),
    ("(int ", " int)"),
    ("[", "]"),
    ("[? ", "]"),
    ("[* (", ")]"),
    ("[(", "), int]"),
    ("[(", ") int]"),
    ("[int, ", "]"),
    ("[", " // int]"),
    ("[", ".. 3]"),
    ("[k: ", "]"),
    ("[2*3 ", "]"),
    ("[", " => int]"),
    ("{k: ", "}"),
    ("{? k: ", ", l: int}"),
    ("{", " => int}"),
    ("{* ", " ^ => int}"),
    ("{* int => ", "}"),
    ("{(", ")}"),
    ("{(", ") => int}"),
    ("{(k: ", " // l: int)}"),
    ("{(", " / int) ^ => int}"),
    ("{\"k\": ", "}"),
    ("{1 => ", "}"),
    ("&(", ")"),
    ("&(k: ", ")"),
    ("& ( ", " , l: 2)"),
    ("g<", ">"),
    ("g<int, ", ">"),
    ("g<", ", int>"),
    ("~g<", ">"),
    ("&g<", ">"),
    ("( ; c\n", " ; c\n)"),
    ("(((", ")))"),
    ("[", ""),
    ("(", ""),
    ("g<", ""),
    ("{", ""),
    ("", ")"),
    ("", "..2"),
    ("", " .size 3"),
    ("~", ""),
    ("& ", ""),
];

/// Pieces of CDDL nested in one another, parsed at growing depths.
fn nested_text(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let mut open = String::new();
    let mut close = String::new();
    for _ in 0..r.range(1, 4) {
        let (o, c) = *r.pick(NEST);
        let c = if r.pct(15) { r.pick(NEST).1 } else { c };
        open.push_str(o);
        close.insert_str(0, c);
    }
    let head = *r.pick(&["a = ", "a = ", "a = [", "a = {", "a = (", "a = int / ", "a<x> = ", "a = 1.."]);
    let tail = match head {
        "a = [" => "]",
        "a = {" => "}",
        "a = (" => ")",
        _ => "",
    };
    let core = *r.pick(&["int", "1", "1..2", "", "k: int", "int => int", "k: 1 // l: 2", "\"x\"", "#", "h''", "? int"]);
    let end = *r.pick(&["", "", "", " }", " x", ";", " = int", "\nb = "]);
    let sizes = [7u64, 14, 28];
    let mut steps = vec![];
    let mut mem = vec![];
    for n in sizes {
        let n = n as usize;
        let t = format!("{}{}{}{}{}{}", head, open.repeat(n), core, close.repeat(n), tail, end);
        let s0 = san::steps();
        let (p, m) = san::with_peak(|| run::parse(&t));
        steps.push(san::steps() - s0);
        mem.push(m);
        cx.st.evals += 1;
        let case = || json!({"head": head, "open": open, "core": core, "close": close, "end": format!("{}{}", tail, end)});
        match p {
            Err(p) => return viol(format!("the parser panics: {}", p), case()),
            Ok(Ok(_)) => cx.st.inc("nested_texts_accepted"),
            Ok(Err(_)) => {}
        }
        growth("steps to parse nested text", G::Quad, &sizes, &steps, case())?;
        growth("bytes held to parse nested text", G::Quad, &sizes, &mem, case())?;
    }
    cx.st.inc("nested_texts");
    cx.st.nontrivial(hash_bytes(format!("{}|{}|{}|{}|{}", head, open, core, close, end).as_bytes()));
    Ok(())
}

/// A random sensible schema inside an array of growing length.
fn random_schema(cx: &mut Cx) -> Res {
    let mut c = Cfg::base();
    c.depth = cx.r.range(1, 3);
    c.big = 0;
    c.recursion = 0;
    c.w_cbor = 0;
    let (mut sc, root, _) = Gen::schema(&mut cx.r, &c);
    let n0 = sc.0.iter().position(|r| r.name == "wrap0").is_some();
    if n0 {
        return Ok(());
    }
    let mut e = member(tname(&root));
    e.occ = Some(Occ::Star);
    sc.0.push(rule_t("wrap0", ty1(T1::S(T2::Arr(Grp(vec![vec![e]]))))));
    let text = print::canon(&sc);
    let elem = if cx.r.pct(70) { Sampler::new(&sc, &mut cx.r, false, 0).sample(&root) } else { junk(&mut cx.r, 2, false) };
    if elem.size() > 60 || crate::model::decide(&sc, &root, &elem, 20_000).0 == crate::model::Verdict::Undecided {
        return Ok(());
    }
    let Ok(ctx) = run::compile(&text) else {
        return Ok(());
    };
    let sizes = [8u64, 16, 32];
    let mut steps = vec![];
    let mut mem = vec![];
    let mut out = String::new();
    for n in sizes {
        let v = Val::Arr(vec![elem.clone(); n as usize]).to_ciborium();
        let s0 = san::steps();
        let (o, m) = san::with_peak(|| run::cbor(&ctx, "wrap0", &v));
        steps.push(san::steps() - s0);
        mem.push(m);
        out = o.class();
        cx.st.evals += 1;
    }
    // each element costs the same as the one before it
    growth("steps to validate equal elements", G::Lin, &sizes, &steps, json!({"cddl": text, "element": super::diff::show_val(&elem)}))?;
    growth("bytes held to validate equal elements", G::Lin, &sizes, &mem, json!({"cddl": text, "element": super::diff::show_val(&elem)}))?;
    cx.st.inc("repeated_elements");
    cx.st.inc(&format!("repeated_elements_{}", out));
    cx.st.nontrivial(hash_bytes(text.as_bytes()));
    Ok(())
}

/// A random group repeated in an array, over more and more of what it
/// matches (or nearly does).  The reference model does the same matching:
/// where its work is proportional to the data, the library's has to be too.
fn random_group(cx: &mut Cx) -> Res {
    let mut c = Cfg::base();
    c.depth = cx.r.range(1, 2);
    c.big = 0;
    c.recursion = 0;
    c.w_cbor = 0;
    c.root = K::A;
    c.rules = (1, 4);
    let in_map = cx.r.pct(20);
    let (mut sc, root, _) = Gen::schema(&mut cx.r, &c);
    let Some(at) = sc.0.iter().position(|r| r.name == root) else { return Ok(()) };
    let RV::T(t) = &sc.0[at].v else { return Ok(()) };
    let Ty(ts) = t;
    let [T1::S(T2::Arr(g))] = &ts[..] else { return Ok(()) };
    let unit = match Sampler::new(&sc, &mut cx.r, false, 0).sample(&root) {
        Val::Arr(a) if !a.is_empty() && a.len() < 8 => a,
        _ => return Ok(()),
    };
    // sometimes what follows is one that does not fit
    let odd = cx.r.pct(30).then(|| junk(&mut cx.r, 1, false));
    if Val::Arr(unit.clone()).size() > 40 {
        return Ok(());
    }
    let rep = Ent { occ: Some(if cx.r.pct(80) { Occ::Star } else { Occ::Plus }), v: EV::G(g.clone()) };
    let mut es = vec![rep];
    if cx.r.pct(25) {
        let mut e = member(tname("any"));
        e.occ = Some(Occ::Star);
        es.push(e);
    }
    sc.0.push(rule_t("wrap0", ty1(T1::S(if in_map {
        T2::Arr(Grp(vec![vec![member(T1::S(T2::Map(Grp(vec![vec![kv(Key::Bare("k".into()), ty1(T1::S(T2::Arr(Grp(vec![es])))))]]))))]]))
    } else {
        T2::Arr(Grp(vec![es]))
    }))));
    let text = print::canon(&sc);
    let Ok(ctx) = run::compile(&text) else { return Ok(()) };
    let sizes = [40u64, 80, 160];
    let (mut steps, mut mem, mut model) = (vec![], vec![], vec![]);
    let mut out = String::new();
    for n in sizes {
        let mut a: Vec<Val> = vec![];
        for _ in 0..n {
            a.extend(unit.iter().cloned());
        }
        a.extend(odd.clone());
        let mut v = Val::Arr(a);
        if in_map {
            v = Val::Arr(vec![Val::Map(vec![(Val::Text("k".into()), v)])]);
        }
        let (verdict, ev) = crate::model::decide(&sc, "wrap0", &v, 300_000);
        if verdict == crate::model::Verdict::Undecided {
            return Ok(());
        }
        model.push(ev.work as u64);
        let v = v.to_ciborium();
        let s0 = san::steps();
        let (o, m) = san::with_peak(|| run::cbor(&ctx, "wrap0", &v));
        steps.push(san::steps() - s0);
        mem.push(m);
        out = o.class();
        cx.st.evals += 1;
    }
    if cx.verbose {
        println!("{}\nunit {} odd {:?}: steps {:?} model {:?} {}", text, super::diff::show_val(&Val::Arr(unit.clone())), odd, steps, model, out);
    }
    let lin = model[2] <= model[0] * 5 + 100;
    cx.st.inc(if lin { "groups_linear" } else { "groups_not_linear" });
    if !lin {
        return Ok(());
    }
    let case = || json!({"cddl": text, "unit": super::diff::show_val(&Val::Arr(unit.clone())), "after": odd.as_ref().map(super::diff::show_val), "steps of the model": model});
    growth("steps to validate a repeated group", G::Lin, &sizes, &steps, case())?;
    growth("bytes held to validate a repeated group", G::Lin, &sizes, &mem, case())?;
    cx.st.inc(&format!("repeated_groups_{}", out));
    cx.st.nontrivial(hash_bytes(text.as_bytes()));
    Ok(())
}

fn cost(cx: &mut Cx) -> Res {
    if cx.idx % 2 == 0 && cx.idx < 8 * FAMS.len() as u64 {
        families(cx)
    } else if cx.r.pct(30) {
        nested_text(cx)
    } else if cx.r.pct(50) {
        random_text(cx)
    } else if cx.r.pct(35) {
        random_group(cx)
    } else {
        random_schema(cx)
    }
}


pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C22",
        quick: 400_000,
        thorough: 12_000_000,
        rule: "Families of schemas and data are run at three sizes (n, 2n, 4n), and random repeated text and repeated elements likewise; the work is counted in instrumented steps and peak bytes held, and must stay within the family's growth class (linear or quadratic). Distinct: families and sizes, repeated pieces, schemas.",
        run: cost,
        stack: 64 << 20,
        shards: 8,
        assumptions: &["edges executed in the library and its parser dependency measure the work; other dependencies are not counted", "alternatives that fail deep inside nested data may legitimately multiply; the families avoid that"],
    }]
}
