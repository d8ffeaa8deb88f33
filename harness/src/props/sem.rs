//! Properties decided by comparing with the reference semantics on generated
//! schemas and data.
use super::diff::*;
use super::wide;
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use crate::print;
use crate::rng::Rng;
use crate::s::*;
use crate::val::*;
use serde_json::json;

pub const FUEL: i64 = 60_000;

pub fn values(sc: &Schema, root: &str, r: &mut Rng, json: bool, big: u32, n: usize) -> Vec<Val> {
    let mut out: Vec<Val> = vec![];
    for i in 0..n {
        let base = if !out.is_empty() && i % 3 == 2 && r.pct(50) {
            r.pick(&out).clone()
        } else {
            Sampler::new(sc, r, json, big).sample(root)
        };
        let k = match r.below(10) {
            0..=4 => 0,
            5..=7 => 1,
            8 => 2,
            _ => 4,
        };
        let mut v = base;
        for _ in 0..k {
            v = mutate(&v, r, json);
        }
        if v.size() <= 1500 {
            out.push(v);
        }
    }
    if r.pct(10) {
        out.push(junk(r, 2, json));
    }
    out
}

pub fn text_of(sc: &Schema, r: &mut Rng) -> String {
    if r.pct(60) {
        print::canon(sc)
    } else {
        print::random(sc, r)
    }
}

fn profile(r: &mut Rng, c: &mut Cfg) {
    match r.below(20) {
        0 => c.depth += 4,
        1 => {
            c.big = 40;
            c.depth = c.depth.min(2);
        }
        2 => {
            c.rules = (8, 24);
        }
        3 => {
            c.depth = 1;
            c.rules = (1, 3);
        }
        4 => {
            c.nested_grp = 60;
            c.depth += 2;
        }
        _ => {}
    }
}

/// The same schema with one argument too many or too few at one or two places.
fn wrong_arity(cx: &mut Cx, sc: &Schema, root: &str, vals: &[Val], o: &Opts) -> Res {
    let mut sc = sc.clone();
    let names: Vec<String> = sc.0.iter().map(|r| r.name.clone()).collect();
    for _ in 0..cx.r.range(1, 2) {
        let mut n = 0;
        super::rewrite::all_refs(&mut sc, &mut |x, _| n += usize::from(names.contains(x)));
        if n == 0 {
            return Ok(());
        }
        let mut at = cx.r.below(n);
        let r = &mut cx.r;
        super::rewrite::all_refs(&mut sc, &mut |x, a| {
            if !names.contains(x) {
                return;
            }
            if at == 0 {
                if !a.is_empty() && r.pct(60) {
                    a.remove(r.below(a.len()));
                } else {
                    a.insert(r.below(a.len() + 1), tname(r.pick(&["int", "tstr", "any"])));
                }
            }
            at = at.wrapping_sub(1);
        });
    }
    let text = text_of(&sc, &mut cx.r);
    cx.st.inc("wrong_arity");
    let vals: Vec<Val> = vals.iter().take(4).cloned().collect();
    diff(cx, &sc, root, &text, &vals, o)
}

fn run_cfg(cx: &mut Cx, mut c: Cfg, nontrivial: fn(&Events, &Verdict) -> bool, nvals: usize) -> Res {
    if cx.r.pct(20) {
        c.json = true;
    }
    profile(&mut cx.r, &mut c);
    let (sc, root, _) = Gen::schema(&mut cx.r, &c);
    let text = text_of(&sc, &mut cx.r);
    let vals = values(&sc, &root, &mut cx.r, c.json, c.big, nvals);
    let o = Opts { fuel: FUEL, nontrivial, json: c.json };
    diff(cx, &sc, &root, &text, &vals, &o)?;
    if c.generics > 50 && cx.r.pct(25) {
        other_roots(cx, &sc, &text, &vals, &o)?;
    }
    if c.generics > 50 && cx.r.pct(25) {
        wrong_arity(cx, &sc, &root, &vals, &o)?;
    }
    Ok(())
}

fn arrays(cx: &mut Cx) -> Res {
    if cx.idx % 197 == 41 {
        return wide::arrays(cx);
    }
    let mut c = Cfg::base();
    c.root = K::A;
    c.w_arr = 20;
    c.w_map = 4;
    run_cfg(cx, c, |e, _| e.rewinds + e.occ_stops + e.zero_progress + e.unwraps > 0, 10)
}

fn maps(cx: &mut Cx) -> Res {
    if cx.idx % 197 == 41 {
        return wide::maps(cx);
    }
    let mut c = Cfg::base();
    c.root = K::M;
    c.w_arr = 4;
    c.w_map = 20;
    if cx.r.pct(20) {
        c.json = true;
    }
    profile(&mut cx.r, &mut c);
    let (sc, root, _) = Gen::schema(&mut cx.r, &c);
    let text = text_of(&sc, &mut cx.r);
    let mut vals = values(&sc, &root, &mut cx.r, c.json, c.big, 8);
    // the same entries in another order
    let pick = vals.iter().position(|v| {
        // only where the model can follow the whole evaluation: what it
        // gives up on may also take the implementation exponential time
        v.size() > 3 && !matches!(decide(&sc, &root, v, FUEL).0, Verdict::Undecided)
    });
    if let Some(i) = pick {
        let mut v = vals[i].clone();
        shuffle_maps(&mut v, &mut cx.r);
        let ctx = load(cx, &text)?;
        let a = crate::run::cbor(&ctx, &root, &vals[i].to_ciborium());
        let b = crate::run::cbor(&ctx, &root, &v.to_ciborium());
        cx.st.inc("reordered_inputs");
        if a.class() != b.class() {
            return viol(
                "reordering the entries of a map in the data changes the verdict",
                json!({"cddl": text, "rule": root, "value": show_val(&vals[i]), "got": a.show(), "reordered": show_val(&v), "then": b.show()}),
            );
        }
        vals.push(v);
    }
    diff(cx, &sc, &root, &text, &vals, &Opts { fuel: FUEL, nontrivial: |e, v| e.map_takes > 1 || matches!(v, Verdict::Accept), json: c.json })
}

fn shuffle_maps(v: &mut Val, r: &mut Rng) {
    match v {
        Val::Arr(a) => a.iter_mut().for_each(|x| shuffle_maps(x, r)),
        Val::Map(m) => {
            r.shuffle(m);
            m.iter_mut().for_each(|x| {
                shuffle_maps(&mut x.0, r);
                shuffle_maps(&mut x.1, r);
            });
        }
        _ => {}
    }
}

/// A map whose members cut, reached in one of many ways, in a place where
/// there is something else to try.
fn cut_places(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let key = |s: &str| Key::Bare(s.into());
    let m1 = |t: T1| member(t);
    let leaf = |r: &mut Rng| match r.below(5) {
        0 => tname("tstr"),
        1 => tlit(int(1)),
        2 => tname("bool"),
        _ => tname("int"),
    };
    let some = |r: &mut Rng, e: Ent| match r.below(5) {
        0 => occ(Occ::Opt, e),
        1 => occ(Occ::Star, e),
        2 => occ(Occ::Plus, e),
        _ => e,
    };
    let mut rules: Vec<Rule> = vec![];
    // the members that cut
    let n = r.range(1, 2);
    let mut es = vec![];
    for k in ["x", "y"].iter().take(n) {
        let l = leaf(r);
        let k = match r.below(4) {
            0 => Key::T(tlit(Lit::T(k.to_string())), r.pct(70)),
            1 => Key::Lit(Lit::T(k.to_string())),
            2 if r.pct(40) => Key::T(tname("tstr"), r.pct(70)),
            _ => key(k),
        };
        let e = kv(k, ty1(l));
        es.push(if r.pct(30) { some(r, e) } else { e });
    }
    if r.pct(30) {
        es.push(occ(Occ::Star, kv(Key::T(tname("tstr"), r.pct(30)), tyname("any"))));
    }
    // wrapped up in a few layers
    let mut n = 0;
    for _ in 0..r.range(0, 3) {
        n += 1;
        let nm = format!("r{}", n);
        let e = match r.below(8) {
            0 => grp(es),
            1 => {
                rules.push(rule_g(&nm, grp(es)));
                m1(tname(&nm))
            }
            2 | 3 => {
                rules.push(rule_t(&nm, ty1(T1::S(T2::Map(Grp(vec![es]))))));
                m1(T1::S(T2::Unwrap(nm, vec![])))
            }
            4 => {
                rules.push(rule_g(&nm, grp(es)));
                m1(T1::S(T2::ChIn(Grp(vec![vec![kv(key("k"), tyname(&nm))]]))))
            }
            5 => {
                let other = vec![kv(key("z"), ty1(leaf(r)))];
                let mut alts = vec![es, other];
                if r.pct(30) {
                    alts.swap(0, 1);
                }
                Ent { occ: None, v: EV::G(Grp(alts)) }
            }
            6 => {
                rules.push(Rule { name: nm.clone(), params: vec!["p".into()], v: RV::G(grp(vec![m1(tname("p"))])) });
                rules.push(rule_g(&format!("{}g", nm), grp(es)));
                m1(T1::S(T2::Name(nm.clone(), vec![tname(&format!("{}g", nm))])))
            }
            _ => {
                rules.push(rule_g(&nm, grp(es)));
                Ent { occ: None, v: EV::M(None, Ty(vec![tname(&nm), tname("zg")])) }
            }
        };
        es = vec![if r.pct(25) { some(r, e) } else { e }];
    }
    if r.pct(25) {
        es.push(occ(Occ::Opt, kv(key("w"), tyname("int"))));
    }
    // the place
    let any = || tname("any");
    let inner_map = T1::S(T2::Map(Grp(vec![es.clone()])));
    let inner = if r.pct(50) {
        rules.push(rule_t("inner", ty1(inner_map)));
        tname("inner")
    } else {
        inner_map
    };
    let tk = |r: &mut Rng| match r.below(3) {
        0 => Key::T(tname("tstr"), r.pct(20)),
        1 => Key::T(T1::S(T2::Paren(Ty(vec![tlit(Lit::T("a".into())), tlit(Lit::T("b".into()))]))), r.pct(20)),
        _ => Key::T(tlit(Lit::T("a".into())), r.pct(20)),
    };
    let star = |e| occ(Occ::Star, e);
    let root = match r.below(12) {
        0 => {
            let (a, b) = (tk(r), tk(r));
            T2::Map(Grp(vec![vec![some(r, kv(a, ty1(inner))), star(kv(b, ty1(any())))]]))
        }
        1 => {
            let (a, b) = (tk(r), tk(r));
            T2::Map(Grp(vec![vec![some(r, kv(a, ty1(inner)))], vec![star(kv(b, ty1(any())))]]))
        }
        2 => {
            let a = tk(r);
            T2::Map(Grp(vec![vec![some(r, grp(vec![kv(a, ty1(inner))])), star(kv(Key::T(tname("tstr"), false), ty1(any())))]]))
        }
        3 => T2::Arr(Grp(vec![vec![some(r, m1(inner)), star(m1(any()))]])),
        4 => T2::Arr(Grp(vec![vec![m1(inner)], vec![m1(any())]])),
        5 => T2::Arr(Grp(vec![vec![some(r, grp(vec![m1(inner)])), star(m1(any()))]])),
        6 => T2::Paren(Ty(vec![inner, any()])),
        7 => T2::Map(Grp(vec![vec![star(kv(Key::T(inner, r.pct(30)), ty1(tname("int")))), star(kv(Key::T(any(), false), ty1(any())))]])),
        8 => T2::ChIn(Grp(vec![vec![kv(key("p"), ty1(inner)), kv(key("q"), tyname("any"))]])),
        9 => T2::Paren(Ty(vec![T1::S(T2::Arr(Grp(vec![vec![some(r, m1(inner))]]))), any()])),
        // in the map itself
        10 => {
            es.push(star(kv(Key::T(tname("tstr"), false), ty1(any()))));
            T2::Map(Grp(vec![es]))
        }
        _ => {
            let z = star(kv(Key::T(tname("tstr"), false), ty1(any())));
            T2::Map(Grp(vec![es, vec![z]]))
        }
    };
    rules.push(rule_t("root", ty1(T1::S(root))));
    rules.push(rule_g("zg", grp(vec![kv(key("z"), tyname("int"))])));
    r.shuffle(&mut rules);
    let sc = Schema(rules);
    let text = print::canon(&sc);
    let vals = values(&sc, "root", r, false, 0, 8);
    cx.st.inc("cut_places");
    diff(cx, &sc, "root", &text, &vals, &Opts { fuel: FUEL, nontrivial: |e, _| e.cuts + e.value_retry > 0, json: false })
}

fn cuts(cx: &mut Cx) -> Res {
    if cx.idx % 197 == 41 {
        return wide::cuts(cx);
    }
    if cx.r.pct(35) {
        return cut_places(cx);
    }
    let mut c = Cfg::base();
    c.root = K::M;
    c.depth = 3;
    c.w_arr = 2;
    c.w_map = 10;
    c.w_lit = 40;
    c.lit_key = 60;
    c.nested_grp = 35;
    c.grp_choice = 35;
    c.occ = 45;
    c.cut = 55;
    if cx.r.pct(30) {
        // maps within maps, by name
        c.unwrap = 35;
        c.w_name = 80;
        c.rules = (3, 8);
    }
    run_cfg(cx, c, |e, _| e.cuts + e.value_retry > 0, 12)
}

fn occurs(cx: &mut Cx) -> Res {
    if cx.idx % 197 == 41 {
        return wide::occurs(cx);
    }
    let mut c = Cfg::base();
    c.root = if cx.r.pct(60) { K::A } else { K::M };
    c.depth = 3;
    c.occ = 85;
    c.nested_grp = 35;
    c.big = if cx.r.pct(15) { 40 } else { 6 };
    c.w_lit = 40;
    run_cfg(cx, c, |e, _| e.occ_stops + e.zero_progress > 0, 10)
}

pub fn numeric_cfg() -> Cfg {
    let mut c = Cfg::base();
    c.root = K::T;
    c.depth = 1;
    c.w_lit = 2;
    c.w_pre = 2;
    c.w_name = 12;
    c.w_paren = 3;
    c.w_arr = 1;
    c.w_map = 1;
    c.w_range = 40;
    c.w_ctl = 60;
    c.w_regexp = 0;
    c.w_cbor = 0;
    c.w_choiceify = 0;
    c.choice = 12;
    c.rules = (1, 4);
    c
}

fn ranges(cx: &mut Cx) -> Res {
    if cx.idx % 997 == 41 {
        return wide::sizes(cx);
    }
    let mut c = numeric_cfg();
    if cx.r.pct(20) {
        c.json = true;
    }
    let (sc, root, _) = Gen::schema(&mut cx.r, &c);
    let text = text_of(&sc, &mut cx.r);
    let mut vals = values(&sc, &root, &mut cx.r, c.json, c.big, 16);
    if !c.json && cx.r.pct(30) {
        for f in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0] {
            vals.push(Val::Float(f));
        }
    }
    for _ in 0..2 {
        vals.push(junk(&mut cx.r, 1, c.json));
    }
    diff(cx, &sc, &root, &text, &vals, &Opts { fuel: FUEL, nontrivial: |e, _| e.limits > 0, json: c.json })
}

/// A pattern of the whole expression language, valid or not.
fn wide_pattern(r: &mut Rng, d: usize) -> String {
    const ATOMS: &[&str] = &[
        "a", "b", "A", "é", "Z", "0", "9", "_", " ", "-", "/", "\"", "'", "#", "ß", "σ", "ς", "K", "k", "😀", ".", ".", "^", "$", "\\b", "\\B",
        "\\A", "\\z", "\\d", "\\D", "\\w", "\\W", "\\s", "\\S", "\\n", "\\r", "\\t", "\\f", "\\v", "\\a", "\\.", "\\*", "\\[", "\\]", "\\(", "\\)", "\\{", "\\}",
        "\\|", "\\+", "\\?", "\\^", "\\$", "\\\\", "\\/", "\\-", "\\#", "\\&", "\\~", "\\ ", "\\x41", "\\x{e9}", "\\u00E9", "\\u{1F600}", "\\U0001F600", "\\pL",
        "\\p{Lu}", "\\P{Lu}", "\\p{Greek}", "[ab]", "[^ab]", "[a-c0-9]", "[^a-c]", "[[:alpha:]]", "[[:^digit:]]", "[a-z&&[^b]]", "[a-z--b]", "[\\d-]",
        "[-a]", "[\\]]", "[]a]", "[\\n\\r]", "[^\\n]", "[é-ü]", "(?i)", "(?s)", "(?m)", "(?x)", "(?U)", "(?-i)", "(?R)", "(?i:a)", "(?s:.)", "(?x: a b )", "(?m:^a$)",
        "(?-u:a)", "(?P<n>a)", "(?<m>b)",
    ];
    // these are not expressions
    const BAD: &[&str] = &[
        "(", ")", "[", "*", "+", "?", "{", "a{2,1}", "a{", "a{,3}", "a{x}", "[b-a]", "[a", "[]", "[^]", "\\", "\\1", "\\8", "\\141", "\\07", "\\q", "\\y", "\\e", "\\c", "\\Z", "\\G",
        "\\x", "\\x4", "\\xg1", "\\u12", "\\u{110000}", "\\ud800", "\\p{Nope}", "\\p", "(?=a)", "(?!a)", "(?<=a)", "(?<!a)", "(?>a)", "(?P<n>a)(?P<n>b)", "(?P=n)", "(?q)", "(?",
        "(?:", "(?P<>a)", "(?i", "\\k<n>", "(?-u:\\xff)", "(?-u:.)", "[[:nope:]]", "[z-\\d]", "(a", "a)", "a**?+", "\\Q", "\\E", "a{99999999999}",
    ];
    let mut alts = vec![];
    for _ in 0..if r.pct(20) { 2 } else { 1 } {
        let mut s = String::new();
        for _ in 0..r.range(0, 3) + usize::from(d == 2) {
            let a = match r.below(12) {
                0 | 1 if d > 0 => format!("({}{})", r.pick(&["", "", "?:", "?i:", "?s:", "?m:", "?x:"]), wide_pattern(r, d - 1)),
                2 if d == 2 && r.pct(25) => r.pick(BAD).to_string(),
                _ => r.pick(ATOMS).to_string(),
            };
            s.push_str(&a);
            if r.pct(25) && !a.starts_with("(?") {
                s.push_str(r.pick(&["*", "+", "?", "{2}", "{1,2}", "{0,1}", "{2,}", "{0}", "*?", "+?", "??", "{1,3}?"]));
            }
        }
        alts.push(s);
    }
    let mut s = alts.join("|");
    if d == 2 {
        if r.pct(30) {
            s.insert(0, '^');
        }
        if r.pct(30) {
            s.push('$');
        }
    }
    s
}

/// The whole expression language, compared with the expression library on its own.
fn wide_regexps(cx: &mut Cx) -> Res {
    for _ in 0..6 {
        let p = wide_pattern(&mut cx.r, 2);
        let t = print::t1_text(&T1::C(T2::Name("tstr".into(), vec![]), "regexp".into(), T2::Lit(Lit::T(p.clone()))));
        let text = match cx.r.below(4) {
            0 => format!("a = {}", t),
            1 => format!("a = b\nb = ({})", t),
            2 => format!("a = g<{}>\ng<t> = t", t),
            _ => format!("a = h'' / {}", t),
        };
        let oracle = regex::RegexBuilder::new(&p).size_limit(1 << 18).build();
        let ctx = match (crate::run::compile(&text), &oracle) {
            (Ok(c), Ok(_)) => c,
            // large, but not too large
            (_, Err(regex::Error::CompiledTooBig(_))) => continue,
            (Err(o), Err(_)) => {
                cx.st.evals += 1;
                cx.st.inc("invalid_expressions");
                if !matches!(&o, crate::run::Out::Fatal(..)) {
                    return viol(format!("an invalid expression gives {}", o.show()), json!({"cddl": text, "expression": p}));
                }
                continue;
            }
            (Ok(_), Err(e)) => return viol(format!("an invalid expression is accepted: {}", e), json!({"cddl": text, "expression": p})),
            (Err(o), Ok(_)) => return viol(format!("a valid expression is refused: {}", o.show()), json!({"cddl": text, "expression": p})),
        };
        let re = oracle.unwrap();
        cx.st.inc("wide_expressions");
        for _ in 0..4 {
            let mut s = if cx.r.pct(50) { regex_sample(&mut cx.r, &p) } else { String::new() };
            for _ in 0..cx.r.below(4) {
                let c = *cx.r.pick(&['a', 'b', 'A', 'é', 'É', '0', '٣', '_', ' ', '-', '\n', '\r', '\t', '\u{85}', '\u{2028}', '\0', 'ß', 'Σ', 'σ', 'ς', 'k', '\u{212a}', '😀', 'Z', '\u{a0}', '"', '\\', '#', '/']);
                let at = s.char_indices().map(|x| x.0).chain([s.len()]).nth(cx.r.below(s.chars().count() + 1)).unwrap();
                s.insert(at, c);
            }
            let want = re.is_match(&s);
            let v = Val::Text(s);
            let o = if cx.r.pct(50) { crate::run::cbor(&ctx, "a", &v.to_ciborium()) } else { crate::run::json(&ctx, "a", &v.to_json_value()) };
            cx.st.evals += 1;
            cx.st.inc(if want { "wide_matching" } else { "wide_not_matching" });
            let ok = matches!((&o, want), (crate::run::Out::Ok, true) | (crate::run::Out::Mis(_), false));
            if !ok {
                return viol(format!("the expression {} but the validator says {}", if want { "matches" } else { "does not match" }, o.show()), json!({"cddl": text, "rule": "a", "value": show_val(&v), "expression": p}));
            }
            cx.st.nontrivial(crate::rng::hash_bytes(format!("{}{}", text, show_val(&v)).as_bytes()));
        }
    }
    Ok(())
}

fn regexps(cx: &mut Cx) -> Res {
    if cx.idx % 197 == 41 {
        return wide::regexps(cx);
    }
    if cx.idx % 5 == 4 {
        return wide_regexps(cx);
    }
    let mut c = Cfg::base();
    c.root = K::T;
    c.depth = 2;
    c.w_lit = 2;
    c.w_pre = 2;
    c.w_arr = 3;
    c.w_map = 3;
    c.w_regexp = 60;
    c.w_range = 0;
    c.w_ctl = 1;
    c.w_cbor = 0;
    c.rules = (1, 3);
    run_cfg(cx, c, |e, _| e.regexps > 0, 16)
}

fn embedded(cx: &mut Cx) -> Res {
    if cx.idx % 197 == 41 {
        return wide::embedded(cx);
    }
    let mut c = Cfg::base();
    c.root = K::T;
    c.depth = 3;
    c.w_lit = 10;
    c.w_pre = 16;
    c.w_cbor = 50;
    c.rules = (1, 5);
    profile(&mut cx.r, &mut c);
    let (sc, root, _) = Gen::schema(&mut cx.r, &c);
    let text = text_of(&sc, &mut cx.r);
    let vals = values(&sc, &root, &mut cx.r, false, c.big, 10);
    diff(cx, &sc, &root, &text, &vals, &Opts { fuel: FUEL, nontrivial: |e, _| e.embedded > 0, json: false })
}

fn generics(cx: &mut Cx) -> Res {
    if cx.idx % 197 == 41 {
        return wide::generics(cx);
    }
    let mut c = Cfg::base();
    c.root = *cx.r.pick(&[K::T, K::A, K::M]);
    c.generics = 85;
    c.rules = (3, 9);
    c.w_name = 90;
    if cx.r.pct(60) {
        c.w_lit = 6;
        c.w_pre = 8;
    }
    c.depth = 3;
    c.nested_grp = 35;
    run_cfg(cx, c, |e, _| e.args > 0, 10)
}

fn unwraps(cx: &mut Cx) -> Res {
    if cx.idx % 197 == 41 {
        return wide::unwraps(cx);
    }
    let mut c = Cfg::base();
    c.root = *cx.r.pick(&[K::T, K::A, K::M]);
    c.rules = (3, 8);
    c.depth = 3;
    c.unwrap = 45;
    c.w_choiceify = 25;
    c.map_choiceify = 18;
    run_cfg(cx, c, |e, _| e.unwraps + e.choiceify > 0, 10)
}

// ---- literals and prelude types ---------------------------------------------
const PRELUDE: &[&str] = &[
    "any", "uint", "nint", "int", "bstr", "bytes", "tstr", "text", "tdate", "time", "number", "biguint", "bignint", "bigint", "integer",
    "unsigned", "decfrac", "bigfloat", "eb64url", "eb64legacy", "eb16", "encoded-cbor", "uri", "b64url", "b64legacy", "regexp",
    "mime-message", "cbor-any", "float16", "float32", "float64", "float16-32", "float32-64", "float", "false", "true", "bool", "nil",
    "null", "undefined",
];

fn tyint(x: u64) -> Ty {
    ty1(T1::S(T2::Lit(Lit::U(x))))
}

fn palette() -> Vec<Val> {
    let mut v = vec![Val::Null, Val::Bool(true), Val::Bool(false)];
    for i in [
        0, 1, 2, 10, 23, 24, 255, 256, 65535, 65536, (1 << 32) - 1, 1 << 32, (1 << 53) + 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, -1, -2, -24,
        -25, -256, -257, -65536, -65537, -(1 << 32), -(1 << 53) - 1, -(1 << 63) + 1, -(1 << 63), -(1 << 63) - 1, -(1 << 64),
    ] {
        v.push(Val::Int(i));
    }
    for f in [
        0.0, 1.0, -1.0, 0.5, 1.5, 10.0, 1e3, 65504.0, 1e38, 1e300, -2.5e-5, 3.4028234663852886e38, 5e-324, 1.1, 9007199254740993.0,
        18446744073709551616.0, -9223372036854775808.0,
    ] {
        v.push(Val::Float(f));
    }
    for t in ["", "a", "b", "A", "1", "true", "null", "int", "é", "e\u{301}", "😀", "a\u{0}", "ab", "1.0", "\u{10FFFF}"] {
        v.push(Val::Text(t.into()));
    }
    for b in [&b""[..], b"a", b"b", b"\x00", b"\x01", b"\xff", b"ab", b"1", b"\xc3\xa9"] {
        v.push(Val::Bytes(b.to_vec()));
    }
    v.push(Val::Arr(vec![]));
    v.push(Val::Arr(vec![Val::Int(1)]));
    v.push(Val::Arr(vec![Val::Null, Val::Text("a".into())]));
    v.push(Val::Map(vec![]));
    v.push(Val::Map(vec![(Val::Text("a".into()), Val::Int(1))]));
    v.push(Val::Map(vec![(Val::Int(1), Val::Int(1)), (Val::Float(1.0), Val::Null)]));
    v
}
fn odd_floats() -> Vec<Val> {
    [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0].iter().map(|f| Val::Float(*f)).collect()
}
/// The literals a schema can hold.
fn literals() -> Vec<Lit> {
    palette()
        .into_iter()
        .filter_map(|v| match v {
            Val::Int(i) if i >= -(1 << 63) => Some(int(i)),
            Val::Float(f) => Some(Lit::F(f)),
            Val::Text(t) => Some(Lit::T(t)),
            Val::Bytes(b) => Some(Lit::B(b)),
            _ => None,
        })
        .collect()
}

const WRAPS: usize = 14;
/// Use the type in some position; returns the schema and how data is wrapped.
fn wrap(t: T1, w: usize) -> (Schema, Box<dyn Fn(&Val) -> Option<Val>>) {
    let bare = |v: &Val| Some(v.clone());
    let arr = |v: &Val| Some(Val::Arr(vec![v.clone()]));
    let root = |t: Ty| vec![rule_t("r", t)];
    let map = |m: Vec<Ent>| ty1(T1::S(T2::Map(Grp(vec![m]))));
    let ar = |m: Vec<Ent>| ty1(T1::S(T2::Arr(Grp(vec![m]))));
    let q = || Val::Text("q".into());
    match w {
        0 => (Schema(root(ty1(t))), Box::new(bare)),
        1 => (Schema(vec![rule_t("r", tyname("s")), rule_t("s", ty1(t))]), Box::new(bare)),
        2 => (Schema(vec![rule_t("r", tyname("s")), rule_t("s", tyname("u")), rule_t("u", ty1(t))]), Box::new(bare)),
        3 => (Schema(root(ty1(T1::S(T2::Paren(ty1(t)))))), Box::new(bare)),
        4 => (Schema(root(Ty(vec![tlit(Lit::T("zzz".into())), t]))), Box::new(bare)),
        5 => (Schema(root(Ty(vec![t, tlit(Lit::T("zzz".into()))]))), Box::new(bare)),
        6 => (Schema(root(ar(vec![member(t)]))), Box::new(arr)),
        7 => (Schema(root(ar(vec![occ(Occ::Star, member(t))]))), Box::new(|v| Some(Val::Arr(vec![v.clone(), v.clone()])))),
        8 => (Schema(root(map(vec![kv(Key::Bare("q".into()), ty1(t))]))), Box::new(move |v| Some(Val::Map(vec![(q(), v.clone())])))),
        9 => (
            Schema(root(map(vec![kv(Key::T(t, true), tyname("nil"))]))),
            Box::new(|v| Some(Val::Map(vec![(v.clone(), Val::Null)]))),
        ),
        10 => (
            Schema(root(map(vec![occ(Occ::Star, kv(Key::T(t, false), tyname("nil")))]))),
            Box::new(|v| Some(Val::Map(vec![(v.clone(), Val::Null)]))),
        ),
        11 => {
            let g = Rule { name: "g".into(), params: vec!["p".into()], v: RV::T(tyname("p")) };
            (Schema(vec![rule_t("r", ty1(T1::S(T2::Name("g".into(), vec![t])))), g]), Box::new(bare))
        }
        12 => (
            Schema(vec![rule_t("r", ar(vec![member(tname("g"))])), rule_g("g", grp(vec![ment(Ty(vec![t, tlit(Lit::T("zzz".into()))]))]))]),
            Box::new(arr),
        ),
        _ => (
            Schema(root(ty1(T1::C(name("bstr"), "cbor".into(), T2::Paren(ty1(t)))))),
            Box::new(|v| Some(Val::Bytes(cbor_bytes(v)))),
        ),
    }
}

fn leaves(cx: &mut Cx) -> Res {
    let lits = literals();
    let n_types = PRELUDE.len() + lits.len();
    let matrix = (n_types * WRAPS) as u64;
    if cx.idx < matrix {
        let i = cx.idx as usize / WRAPS;
        let w = cx.idx as usize % WRAPS;
        let (t, is_lit) = match PRELUDE.get(i) {
            Some(n) => (tname(n), false),
            None => (tlit(lits[i - PRELUDE.len()].clone()), true),
        };
        let (sc, f) = wrap(t, w);
        let mut vals: Vec<Val> = palette().iter().filter_map(&f).collect();
        if !is_lit {
            vals.extend(odd_floats().iter().filter_map(&f));
        }
        let text = print::canon(&sc);
        cx.st.inc("matrix_cells");
        if let Some(Pre::Unsupported) = PRELUDE.get(i).map(|n| prelude(n)) {
            for v in vals {
                let o = crate::run::cbor_bytes("r", &text, &cbor_bytes(&v));
                cx.st.evals += 1;
                if !matches!(o, crate::run::Out::Fatal(crate::run::Kind::Unsupported, _)) {
                    return viol(
                        format!("an unimplemented prelude type gives \"{}\"", o.show()),
                        json!({"cddl": text, "value": show_val(&v)}),
                    );
                }
            }
            return Ok(());
        }
        return diff(cx, &sc, "r", &text, &vals, &Opts { fuel: FUEL, nontrivial: |_, _| true, json: false });
    }
    if cx.idx % 197 == 41 {
        return wide::choices(cx);
    }
    let mut c = Cfg::base();
    c.root = K::T;
    c.depth = 2;
    c.w_lit = 40;
    c.w_pre = 50;
    c.rules = (1, 4);
    c.choice = 45;
    c.w_arr = 5;
    c.w_map = 5;
    run_cfg(cx, c, |_, _| true, 16)
}

// ---- recursion --------------------------------------------------------------
/// A chain of `n` rules, each referring to the next in some way, that ends in
/// a leaf or goes back to an earlier rule.
fn chains(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let n = match r.below(6) {
        0 => r.range(1, 30),
        1..=3 => r.range(40, 60),
        _ => r.range(1, 120),
    };
    let cycle = r.pct(35);
    let mixed = r.pct(60);
    let fixed = r.below(9);
    // where the chain is used: as a type, or as a group in an array or a map
    let place = r.below(3);
    let mut rules = vec![];
    let mut wraps: Vec<u8> = vec![];
    for i in 0..n {
        let last = i + 1 == n;
        let me = format!("c{}", i);
        let next = if last { format!("c{}", if cycle { r.below(n) } else { n }) } else { format!("c{}", i + 1) };
        let form = if mixed { r.below(9) } else { fixed };
        if place == 0 {
            let (t, w) = match form {
                0..=2 => (tyname(&next), 0),
                3 => (ty1(T1::S(T2::Paren(tyname(&next)))), 0),
                4 => (Ty(vec![tlit(Lit::T("zz".into())), tname(&next)]), 0),
                5 => (ty1(T1::S(T2::Arr(Grp(vec![vec![member(tname(&next))]])))), 1),
                6 => (ty1(T1::S(T2::Map(Grp(vec![vec![kv(Key::Bare("k".into()), tyname(&next))]])))), 2),
                7 => (ty1(T1::S(T2::Arr(Grp(vec![vec![occ(Occ::Star, member(tname(&next)))]])))), 1),
                _ => (ty1(T1::S(T2::Name("id".into(), vec![tname(&next)]))), 0),
            };
            wraps.push(w);
            rules.push(rule_t(&me, t));
        } else {
            let e = match form {
                0..=2 => member(tname(&next)),
                3 => occ(Occ::Opt, member(tname(&next))),
                4 => grp(vec![member(tname(&next))]),
                5 => occ(Occ::Plus, grp(vec![member(tname(&next))])),
                6 if place == 2 => kv(Key::Bare("z".into()), tyname("nil")),
                _ => member(T1::S(T2::Name("id".into(), vec![tname(&next)]))),
            };
            rules.push(rule_g(&me, grp(vec![e])));
        }
    }
    if place == 0 {
        rules.push(rule_t(&format!("c{}", n), tyname("int")));
        rules.push(Rule { name: "id".into(), params: vec!["p".into()], v: RV::T(tyname("p")) });
        rules.push(rule_t("r", tyname("c0")));
    } else {
        let leaf = if place == 1 { member(tname("int")) } else { kv(Key::Bare("k".into()), tyname("int")) };
        rules.push(rule_g(&format!("c{}", n), grp(vec![leaf])));
        rules.push(Rule { name: "id".into(), params: vec!["p".into()], v: RV::G(grp(vec![member(tname("p"))])) });
        let g = Grp(vec![vec![member(tname("c0"))]]);
        rules.push(rule_t("r", ty1(T1::S(if place == 1 { T2::Arr(g) } else { T2::Map(g) }))));
    }
    let mut vals = vec![];
    let build = |m: usize, leaf: Val| {
        let mut v = leaf;
        for w in wraps.iter().cycle().take(m).collect::<Vec<_>>().into_iter().rev() {
            v = match w {
                0 => v,
                1 => Val::Arr(vec![v]),
                _ => Val::Map(vec![(Val::Text("k".into()), v)]),
            };
        }
        v
    };
    match place {
        0 => {
            vals.push(build(n, Val::Int(3)));
            vals.push(build(n, Val::Text("x".into())));
            vals.push(build(r.below(n + 1), Val::Text("zz".into())));
            vals.push(build(r.below(n + 1), Val::Arr(vec![])));
            vals.push(build((n + r.below(60)).min(200), Val::Int(3)));
        }
        1 => {
            vals.push(Val::Arr(vec![Val::Int(3)]));
            vals.push(Val::Arr(vec![]));
            vals.push(Val::Arr(vec![Val::Int(3), Val::Int(3)]));
            vals.push(Val::Arr(vec![Val::Text("zz".into())]));
        }
        _ => {
            vals.push(Val::Map(vec![(Val::Text("k".into()), Val::Int(3))]));
            vals.push(Val::Map(vec![(Val::Text("k".into()), Val::Null)]));
            vals.push(Val::Map(vec![]));
            vals.push(Val::Map(vec![(Val::Text("z".into()), Val::Null), (Val::Text("k".into()), Val::Int(1))]));
        }
    }
    let sc = Schema(rules);
    let text = print::canon(&sc);
    diff(cx, &sc, "r", &text, &vals, &Opts { fuel: 400_000, nontrivial: |e, _| e.max_depth >= 40, json: false })
}

/// A chain of aliases about as long as the limit, used at one of the places
/// where a name may stand.
fn chain_uses(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let n = if r.pct(85) { r.range(42, 56) } else { r.range(1, 110) };
    let outer = if r.pct(60) { r.below(4) } else { r.range(0, 40).min(n) };
    let n = n - outer.min(n - 1);
    let u = |x: u64| T1::S(T2::Lit(Lit::U(x)));
    let c0 = T2::Name("c0".into(), vec![]);
    let t = |s: &str| Val::Text(s.into());
    let ctl = |a: T2, op: &str, b: T2| T1::C(a, op.into(), b);
    let lit = |x: u64| T2::Lit(Lit::U(x));
    let arr = |es: Vec<Ent>| T1::S(T2::Arr(Grp(vec![es])));
    let map = |es: Vec<Ent>| T1::S(T2::Map(Grp(vec![es])));
    let ints = |n: i128| Val::Arr((0..n).map(Val::Int).collect());
    let kmap = |v: Val| Val::Map(vec![(t("k"), v)]);
    let cmp = *r.pick(&["lt", "le", "gt", "ge"]);
    let num = *r.pick(&["int", "uint"]);
    // (how it is used, what it stands for in the end, values)
    let (body, leaf, vals): (T1, T1, Vec<Val>) = match r.below(21) {
        0 => (ctl(c0, "size", lit(3)), tname("tstr"), vec![t("abc"), t("ab")]),
        1 => (ctl(name("tstr"), "size", c0), u(3), vec![t("abc"), t("ab")]),
        2 => (ctl(name("bstr"), "size", c0), T1::R(lit(1), true, lit(2)), vec![Val::Bytes(vec![1]), Val::Bytes(vec![])]),
        3 => (ctl(c0, cmp, lit(3)), tname(num), vec![Val::Int(2), Val::Int(3), Val::Int(4)]),
        4 => (ctl(name(num), cmp, c0), u(3), vec![Val::Int(2), Val::Int(3), Val::Int(4)]),
        5 => (T1::R(c0, r.pct(50), lit(5)), u(3), vec![Val::Int(3), Val::Int(2), Val::Int(5)]),
        6 => (T1::R(lit(1), r.pct(50), c0), u(3), vec![Val::Int(3), Val::Int(2), Val::Int(5)]),
        7 => (ctl(name("bstr"), "cbor", c0), tname("int"), vec![Val::Bytes(vec![1]), Val::Bytes(vec![0x60]), Val::Bytes(vec![])]),
        8 => (arr(vec![member(T1::S(T2::Unwrap("c0".into(), vec![])))]), arr(vec![member(tname("int"))]), vec![ints(1), ints(0), ints(2)]),
        9 => (map(vec![member(T1::S(T2::Unwrap("c0".into(), vec![])))]), map(vec![kv(Key::Bare("k".into()), tyname("int"))]), vec![kmap(Val::Int(1)), kmap(Val::Null)]),
        10 => (T1::S(T2::Ch("c0".into(), vec![])), tname("zg"), vec![Val::Int(7), Val::Int(8)]),
        11 => (arr(vec![occ(Occ::Star, member(T1::S(c0)))]), tname("int"), vec![ints(2), ints(0), Val::Arr(vec![t("x")])]),
        12 => (arr(vec![member(T1::S(c0))]), tname("zg"), vec![ints(1), Val::Arr(vec![Val::Int(7)]), ints(2)]),
        13 => (map(vec![member(T1::S(c0))]), tname("zg"), vec![Val::Map(vec![(t("x"), Val::Int(7))]), Val::Map(vec![])]),
        14 => (map(vec![occ(Occ::Star, kv(Key::T(T1::S(c0), r.pct(50)), tyname("int")))]), tname("tstr"), vec![kmap(Val::Int(1)), kmap(Val::Null), Val::Map(vec![(Val::Int(1), Val::Int(1))])]),
        15 => (map(vec![kv(Key::Bare("k".into()), Ty(vec![tname("nil"), T1::S(c0)]))]), tname("int"), vec![kmap(Val::Int(1)), kmap(Val::Null), kmap(t("x"))]),
        16 => (T1::S(T2::ChIn(Grp(vec![vec![kv(Key::Bare("p".into()), tyname("nil")), kv(Key::Bare("q".into()), ty1(T1::S(c0)))]]))), tname("int"), vec![Val::Int(1), Val::Null, t("x")]),
        17 => (map(vec![member(T1::S(T2::Ch("c0".into(), vec![])))]), tname("zc"), vec![Val::Map(vec![(t("x"), Val::Int(7))]), Val::Map(vec![])]),
        18 => (
            map(vec![occ(Occ::Star, member(T1::S(T2::ChIn(Grp(vec![vec![kv(Key::Bare("p".into()), tyname("zg")), kv(Key::Bare("q".into()), ty1(T1::S(c0)))]])))))]),
            tname("zh"),
            vec![Val::Map(vec![(t("y"), Val::Int(8))]), Val::Map(vec![(t("x"), Val::Int(7)), (t("y"), Val::Int(8))]), Val::Map(vec![])],
        ),
        19 => (arr(vec![member(T1::S(T2::Ch("c0".into(), vec![])))]), tname("zg"), vec![ints(1), Val::Arr(vec![Val::Int(7)])]),
        _ => (T1::S(T2::Name("id".into(), vec![T1::S(T2::Name("id".into(), vec![T1::S(c0)]))])), tname("int"), vec![Val::Int(1), t("x")]),
    };
    let value_choice = matches!(&body, T1::S(T2::Ch(..))) || matches!(&body, T1::S(T2::Arr(g)) if matches!(&g.0[0][0].v, EV::M(None, t) if matches!(t.0[0], T1::S(T2::Ch(..)))));
    let grp_leaf = ["zg", "zh", "zc"].iter().any(|n| leaf == tname(n));
    let mut rules = vec![];
    for i in 0..n {
        let to = if i + 1 < n { tname(&format!("c{}", i + 1)) } else { leaf.clone() };
        let to = if r.pct(5) && i + 1 < n && !grp_leaf { T1::S(T2::Name("id".into(), vec![to])) } else { to };
        if value_choice && r.pct(20) {
            // a group that includes the next one
            let mut es = vec![member(to)];
            if r.pct(50) {
                es.insert(r.below(2), kv(Key::Bare("n".into()), tyint(99)));
            }
            rules.push(rule_g(&format!("c{}", i), grp(es)));
            continue;
        }
        rules.push(rule_t(&format!("c{}", i), ty1(to)));
    }
    if grp_leaf {
        rules.push(rule_g("zg", grp(vec![kv(Key::Bare("x".into()), tyint(7))])));
        rules.push(rule_g("zh", grp(vec![kv(Key::Bare("y".into()), tyint(8))])));
        rules.push(rule_g("zc", grp(vec![kv(Key::Bare("q".into()), tyname("zg"))])));
    }
    for i in 0..outer {
        let to = if i + 1 < outer { tname(&format!("o{}", i + 1)) } else { body.clone() };
        rules.push(rule_t(&format!("o{}", i), ty1(to)));
    }
    rules.push(Rule { name: "id".into(), params: vec!["p".into()], v: RV::T(tyname("p")) });
    rules.push(rule_t("r", ty1(if outer > 0 { tname("o0") } else { body })));
    let sc = Schema(rules);
    let text = print::canon(&sc);
    diff(cx, &sc, "r", &text, &vals, &Opts { fuel: 400_000, nontrivial: |e, _| e.max_depth >= 40, json: false })
}

fn recursion(cx: &mut Cx) -> Res {
    if cx.idx % 197 == 41 {
        return wide::rules(cx);
    }
    match cx.idx % 4 {
        0 => {}
        1 => return chain_uses(cx),
        _ => return chains(cx),
    }
    let mut c = Cfg::base();
    c.root = *cx.r.pick(&[K::T, K::A, K::M]);
    c.recursion = 70;
    c.w_name = 70;
    c.w_lit = 8;
    c.w_pre = 12;
    c.depth = 2;
    c.rules = (2, 6);
    run_cfg(cx, c, |e, _| e.max_depth >= 3, 6)
}

const MODEL: &str = "the reference model (harness/src/model.rs) reads RFC 8610 as the crate documents it: PEG-style ordered choice and greedy occurrences, in arrays and maps alike";
const ORDER: &str = "a case whose answer depends on which of several matching map entries is taken first is left undecided (counted as undecided)";
const PRELUDE_A: &str = "prelude names outside those the crate implements are expected to give an Unsupported error; tagged data is out of scope";

pub fn props() -> Vec<Prop> {
    let p = |id, quick, thorough, rule, run, assumptions| Prop { id, quick, thorough, rule, run, stack: 64 << 20, shards: 8, assumptions };
    vec![
        p(
            "C01", 150_000, 1_500_000,
            "a (schema, value) pair validated and compared with the reference model: all prelude names and boundary literals in every position against the whole value palette, then random leaf schemas",
            leaves, &[MODEL, PRELUDE_A],
        ),
        p(
            "C02", 120_000, 3_000_000,
            "a distinct (schema text, value) pair where the reference model rewound a choice, stopped an occurrence, matched nothing or unwrapped while matching an array",
            arrays, &[MODEL],
        ),
        p(
            "C03", 90_000, 2_500_000,
            "a distinct (schema text, value) pair that is accepted, or where map members took at least two entries",
            maps, &[MODEL, ORDER],
        ),
        p(
            "C04", 110_000, 3_000_000,
            "a distinct (schema text, value) pair where the reference model applied a cut, or retried another key after a value mismatch",
            cuts, &[MODEL, ORDER],
        ),
        p(
            "C05", 45_000, 2_500_000,
            "a distinct (schema text, value) pair where an occurrence loop stopped on a mismatch or on zero progress",
            occurs, &[MODEL, ORDER],
        ),
        p(
            "C06", 500_000, 3_000_000,
            "a distinct (schema text, value) pair where a range or size/lt/le/gt/ge was evaluated",
            ranges, &[MODEL],
        ),
        p(
            "C07", 90_000, 2_500_000,
            "a distinct (schema text, value) pair where a regular expression was matched against text",
            regexps, &[MODEL, "regular expressions are drawn from a subset (literals, classes, repetition, groups, alternation, anchors) with an independent matcher"],
        ),
        p(
            "C08", 100_000, 2_500_000,
            "a distinct (schema text, value) pair where a byte string was decoded for .cbor",
            embedded, &[MODEL, ORDER],
        ),
        p(
            "C09", 90_000, 2_500_000,
            "a distinct (schema text, value) pair where at least one generic parameter was looked up",
            generics, &[MODEL, ORDER],
        ),
        p(
            "C10", 90_000, 2_500_000,
            "a distinct (schema text, value) pair where an unwrap or a group-to-choice conversion took place",
            unwraps, &[MODEL, ORDER, "in a map, a group-to-choice conversion stands for a choice between what its members' values stand for; members that are bare names, occurrences or group choices have no defined meaning there and are left undecided"],
        ),
        p(
            "C21", 160_000, 1_500_000,
            "a distinct (schema text, value) pair where rule references nested at least 40 deep (chains), or 3 deep (random recursive schemas)",
            recursion, &[MODEL, "the limit is the documented 50 nested rule references"],
        ),
    ]
}
