//! What compares equal, how data is ordered, and prepared schemas put together by hand.
use super::api::lib_value;
use super::rewrite::sibling;
use crate::fw::*;
use crate::gen::*;
use crate::print;
use crate::rng::{hash_bytes, Rng};
use crate::run;
use crate::s::{a_schema, Ent, Grp, Schema, Ty, EV, RV, T1, T2};
use crate::syn::*;
use crate::val::*;
use cddl_cat::context::BasicContext;
use cddl_cat::flatten::{flatten, flatten_from_str};
use cddl_cat::ivt::*;
use cddl_cat::value::Value as LV;
use serde_json::json;
use std::cmp::Ordering;
use std::collections::BTreeMap;

fn cut(s: &str) -> String {
    s.chars().take(1500).collect()
}

// ---- data values --------------------------------------------------------------
/// Equal to the last bit.
fn veq(a: &LV, b: &LV) -> bool {
    match (a, b) {
        (LV::Null, LV::Null) => true,
        (LV::Bool(x), LV::Bool(y)) => x == y,
        (LV::Integer(x), LV::Integer(y)) => x == y,
        (LV::Float(x), LV::Float(y)) => x.0.to_bits() == y.0.to_bits(),
        (LV::Bytes(x), LV::Bytes(y)) => x == y,
        (LV::Text(x), LV::Text(y)) => x == y,
        (LV::Array(x), LV::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| veq(a, b)),
        (LV::Map(x), LV::Map(y)) => x.len() == y.len() && x.iter().zip(y).all(|((a, b), (c, d))| veq(a, c) && veq(b, d)),
        _ => false,
    }
}

/// A value close to another.
fn near(v: &Val, r: &mut Rng) -> Val {
    let mut v = v.clone();
    match &mut v {
        Val::Int(i) => match r.below(3) {
            0 => return Val::Float(*i as f64),
            1 => *i += 1,
            _ => return Val::Text(i.to_string()),
        },
        Val::Float(f) => match r.below(3) {
            0 => return Val::Int(*f as i128),
            1 => *f = -*f,
            _ => *f = f64::from_bits(f.to_bits().wrapping_add(1)),
        },
        Val::Text(t) => match r.below(4) {
            0 => return Val::Bytes(t.clone().into_bytes()),
            1 => t.push('\0'),
            2 => *t = if t.to_uppercase() == *t { t.to_lowercase() } else { t.to_uppercase() },
            _ => {
                t.pop();
            }
        },
        Val::Bytes(b) => match r.below(3) {
            0 => b.push(0),
            1 => {
                b.pop();
            }
            _ => b.iter_mut().take(1).for_each(|x| *x = x.wrapping_add(1)),
        },
        Val::Arr(a) => match a.len() {
            0 => return Val::Map(vec![]),
            n => {
                let i = r.below(n);
                if r.pct(25) {
                    a.remove(i);
                } else {
                    a[i] = near(&a[i], r);
                }
            }
        },
        Val::Map(m) => match m.len() {
            0 => return Val::Arr(vec![]),
            n => {
                let i = r.below(n);
                match r.below(4) {
                    0 => {
                        m.remove(i);
                    }
                    1 => m[i].0 = near(&m[i].0, r),
                    _ => m[i].1 = near(&m[i].1, r),
                }
            }
        },
        Val::Bool(b) => *b = !*b,
        Val::Null => return Val::Bool(false),
    }
    v
}

fn values(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let mut vs: Vec<Val> = vec![];
    for _ in 0..3 {
        let v = if r.pct(10) { Val::Float(*r.pick(&[f64::NAN, -f64::NAN, 0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE / 2.0])) } else { junk(r, 3, false) };
        let w = near(&v, r);
        if r.pct(30) {
            vs.push(v.clone());
        }
        if r.pct(40) {
            let t = near(&w, r);
            vs.push(t);
        }
        vs.push(v);
        vs.push(w);
    }
    let l: Vec<LV> = vs.iter().map(lib_value).collect();
    let data = |i: usize, j: usize| json!({"values": [format!("{:?}", vs[i]), format!("{:?}", vs[j])]});
    for i in 0..l.len() {
        for j in 0..l.len() {
            let (a, b) = (&l[i], &l[j]);
            let same = veq(a, b);
            let o = a.cmp(b);
            cx.st.evals += 1;
            cx.st.inc(if same { "equal_pairs" } else { "unequal_pairs" });
            #[allow(clippy::partialeq_ne_impl)]
            if (a == b) != same || (a != b) == same {
                return viol(format!("two values that are {} compare as {}", if same { "the same" } else { "different" }, if same { "different" } else { "the same" }), data(i, j));
            }
            if (o == Ordering::Equal) != same || b.cmp(a) != o.reverse() || a.partial_cmp(b) != Some(o) || (a < b) != (o == Ordering::Less) {
                return viol("the order of values does not agree with itself or with equality", data(i, j));
            }
            for c in &l {
                if o != Ordering::Greater && b.cmp(c) != Ordering::Greater && a.cmp(c) == Ordering::Greater {
                    return viol("the order of values is not transitive", json!({"values": [format!("{:?}", a), format!("{:?}", b), format!("{:?}", c)]}));
                }
            }
            // shown the same only if the same, apart from what is shown without its kind
            if same && format!("{:?}", a) != format!("{:?}", b) {
                return viol("one value is shown in two ways", data(i, j));
            }
        }
        if !veq(&l[i].clone(), &l[i]) {
            return viol("a copy differs from its original", data(i, i));
        }
    }
    // as the keys of a map, which is how the library looks them up
    let m: BTreeMap<LV, usize> = l.iter().cloned().enumerate().map(|(i, k)| (k, i)).collect();
    for (i, k) in l.iter().enumerate() {
        match m.get(k) {
            Some(j) if veq(&l[*j], k) => {}
            _ => return viol("a value is not found as the key of a map", data(i, i)),
        }
    }
    cx.st.nontrivial(hash_bytes(format!("{:?}", vs).as_bytes()));
    Ok(())
}

// ---- prepared schemas -----------------------------------------------------------
fn all(a: &[Node], b: &[Node]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b))
}
fn same_rule(a: &Rule, b: &Rule) -> bool {
    a.name == b.name && all(&a.generic_args, &b.generic_args)
}
/// The same in every public part. The operands of .regexp and .cbor are not
/// public: what is shown of them counts.
fn same(a: &Node, b: &Node) -> bool {
    match (a, b) {
        (Node::Literal(x), Node::Literal(y)) => match (x, y) {
            (Literal::Bool(x), Literal::Bool(y)) => x == y,
            (Literal::Int(x), Literal::Int(y)) => x == y,
            (Literal::Float(x), Literal::Float(y)) => x == y,
            (Literal::Text(x), Literal::Text(y)) => x == y,
            (Literal::Bytes(x), Literal::Bytes(y)) => x == y,
            _ => false,
        },
        (Node::PreludeType(x), Node::PreludeType(y)) => std::mem::discriminant(x) == std::mem::discriminant(y),
        (Node::Rule(x), Node::Rule(y)) | (Node::Unwrap(x), Node::Unwrap(y)) | (Node::Choiceify(x), Node::Choiceify(y)) => same_rule(x, y),
        (Node::Choice(x), Node::Choice(y)) => all(&x.options, &y.options),
        (Node::Map(x), Node::Map(y)) => all(&x.members, &y.members),
        (Node::Array(x), Node::Array(y)) | (Node::ChoiceifyInline(x), Node::ChoiceifyInline(y)) => all(&x.members, &y.members),
        (Node::Group(x), Node::Group(y)) => all(&x.members, &y.members),
        (Node::KeyValue(x), Node::KeyValue(y)) => same(&x.key, &y.key) && same(&x.value, &y.value) && x.cut == y.cut,
        (Node::Occur(x), Node::Occur(y)) => {
            let k = |o: &Occur| match o.limit {
                OccurLimit::Optional => (1, 0, 0),
                OccurLimit::ZeroOrMore => (2, 0, 0),
                OccurLimit::OneOrMore => (3, 0, 0),
                OccurLimit::Numbered(a, b) => (4, a, b),
            };
            k(x) == k(y) && same(&x.node, &y.node)
        }
        (Node::Range(x), Node::Range(y)) => same(&x.start, &y.start) && same(&x.end, &y.end) && x.inclusive == y.inclusive,
        (Node::Control(x), Node::Control(y)) => match (x, y) {
            (Control::Size(x), Control::Size(y)) => same(&x.target, &y.target) && same(&x.size, &y.size),
            (Control::Lt(x), Control::Lt(y)) => same(&x.target, &y.target) && same(&x.lt, &y.lt),
            (Control::Le(x), Control::Le(y)) => same(&x.target, &y.target) && same(&x.le, &y.le),
            (Control::Gt(x), Control::Gt(y)) => same(&x.target, &y.target) && same(&x.gt, &y.gt),
            (Control::Ge(x), Control::Ge(y)) => same(&x.target, &y.target) && same(&x.ge, &y.ge),
            (x, y) => std::mem::discriminant(x) == std::mem::discriminant(y) && format!("{:?}", x) == format!("{:?}", y),
        },
        _ => false,
    }
}
/// Not everything about this can be seen from outside.
fn hidden(n: &Node) -> bool {
    format!("{:?}", n).contains("CtlOpCbor")
}

/// The same node made anew with what the library offers for it.
fn rebuild(n: &Node) -> Node {
    let v = |x: &[Node]| x.iter().map(rebuild).collect::<Vec<_>>();
    let b = |x: &Node| Box::new(rebuild(x));
    let rule = |x: &Rule| if x.generic_args.is_empty() { Rule::new_name(&x.name) } else { Rule::new(&x.name, v(&x.generic_args)) };
    match n {
        Node::Literal(Literal::Bool(x)) => literal_bool(*x),
        Node::Literal(Literal::Int(x)) => match (i8::try_from(*x), i64::try_from(*x), u64::try_from(*x)) {
            (Ok(y), _, _) => literal_int(y),
            (_, Ok(y), _) => literal_int(y),
            (_, _, Ok(y)) => literal_int(y),
            _ => literal_int(*x),
        },
        Node::Literal(Literal::Float(x)) => {
            if f64::from(*x as f32) == *x {
                literal_float(*x as f32)
            } else {
                literal_float(*x)
            }
        }
        Node::Literal(Literal::Text(x)) => literal_text(x.as_str()),
        Node::Literal(Literal::Bytes(x)) => literal_bytes(&x[..]),
        Node::PreludeType(x) => Node::PreludeType(*x),
        Node::Rule(x) => Node::Rule(rule(x)),
        Node::Unwrap(x) => Node::Unwrap(rule(x)),
        Node::Choiceify(x) => Node::Choiceify(rule(x)),
        Node::Choice(x) => Node::Choice(Choice { options: v(&x.options) }),
        Node::Map(x) => Node::Map(Map { members: v(&x.members) }),
        Node::Array(x) => Node::Array(Array { members: v(&x.members) }),
        Node::ChoiceifyInline(x) => Node::ChoiceifyInline(Array { members: v(&x.members) }),
        Node::Group(x) => Node::Group(Group { members: v(&x.members) }),
        Node::KeyValue(x) => Node::KeyValue(KeyValue::new(rebuild(&x.key), rebuild(&x.value), x.cut)),
        Node::Occur(x) => Node::Occur(Occur::new(x.limit.clone(), rebuild(&x.node))),
        Node::Range(x) => Node::Range(Range { start: b(&x.start), end: b(&x.end), inclusive: x.inclusive }),
        Node::Control(x) => Node::Control(match x {
            Control::Size(x) => Control::Size(CtlOpSize { target: b(&x.target), size: b(&x.size) }),
            Control::Lt(x) => Control::Lt(CtlOpLt { target: b(&x.target), lt: b(&x.lt) }),
            Control::Le(x) => Control::Le(CtlOpLe { target: b(&x.target), le: b(&x.le) }),
            Control::Gt(x) => Control::Gt(CtlOpGt { target: b(&x.target), gt: b(&x.gt) }),
            Control::Ge(x) => Control::Ge(CtlOpGe { target: b(&x.target), ge: b(&x.ge) }),
            x => x.clone(),
        }),
    }
}

fn each<'a>(n: &'a Node, out: &mut Vec<&'a Node>) {
    out.push(n);
    let mut list = |x: &'a [Node]| x.iter().for_each(|x| each(x, out));
    match n {
        Node::Rule(x) | Node::Unwrap(x) | Node::Choiceify(x) => list(&x.generic_args),
        Node::Choice(x) => list(&x.options),
        Node::Map(x) => list(&x.members),
        Node::Array(x) | Node::ChoiceifyInline(x) => list(&x.members),
        Node::Group(x) => list(&x.members),
        Node::KeyValue(x) => {
            each(&x.key, out);
            each(&x.value, out);
        }
        Node::Occur(x) => each(&x.node, out),
        Node::Range(x) => {
            each(&x.start, out);
            each(&x.end, out);
        }
        _ => {}
    }
}

/// What a node is shown as, where that is CDDL, is read back as that node.
fn shown(cx: &mut Cx, n: &Node) -> Res {
    let t = match n {
        Node::Occur(o) => {
            let text = format!("a = [{} int]", o.symbol());
            let back = match flatten_from_str(&text) {
                Ok(m) => match &m["a"].node {
                    Node::Array(x) => match &x.members[..] {
                        [Node::Occur(b)] => b.limits(),
                        _ => (1, 1),
                    },
                    _ => (9, 9),
                },
                Err(e) => return viol(format!("an occurrence is shown as something else: {}", e), json!({"occurrence": format!("{:?}", o.limit), "shown": o.symbol()})),
            };
            cx.st.inc("occurrences_shown");
            if back != o.limits() {
                return viol("an occurrence is shown as another", json!({"occurrence": format!("{:?}", o.limit), "shown": o.symbol()}));
            }
            return Ok(());
        }
        Node::Literal(Literal::Int(_)) => format!("{}", n),
        Node::Range(x) => {
            let int = |n: &Node| matches!(n, Node::Literal(Literal::Int(_)));
            if !int(&x.start) || !int(&x.end) {
                return Ok(());
            }
            format!("{}", x)
        }
        _ => return Ok(()),
    };
    cx.st.inc("nodes_shown");
    // "1...2" is not a float with something behind it
    match flatten_from_str(&format!("a = {}", t.replace("...", " ... "))) {
        Ok(m) if same(&m["a"].node, n) => Ok(()),
        x => viol("what is shown of a node is not that node", json!({"node": format!("{:?}", n), "shown": t, "read": format!("{:?}", x.map(|m| m["a"].clone()))})),
    }
}

/// Change the schema in one place.
fn change(sc: &mut Schema, r: &mut Rng) -> Option<&'static str> {
    if r.pct(70) {
        return sibling(sc, r);
    }
    let n = sc.0.len();
    let i = r.below(n);
    match r.below(6) {
        0 if n > 1 => {
            let j = r.below(n);
            sc.0.swap(i, j);
            Some("rules swapped")
        }
        1 => {
            sc.0[i].name.push('x');
            Some("rule renamed")
        }
        2 => {
            sc.0[i].params.push("pp".into());
            Some("parameter added")
        }
        3 => {
            sc.0.remove(i);
            Some("rule removed")
        }
        _ => match &mut sc.0[i].v {
            RV::T(t) => {
                let k = r.below(t.0.len());
                match r.below(3) {
                    0 if t.0.len() > 1 => {
                        t.0.remove(k);
                        Some("option removed")
                    }
                    1 => {
                        let x = t.0[k].clone();
                        t.0.push(x);
                        Some("option added")
                    }
                    _ => {
                        let x = t.0[k].clone();
                        t.0[k] = T1::S(T2::Arr(Grp(vec![vec![Ent { occ: None, v: EV::M(None, Ty(vec![x])) }]])));
                        Some("option put in an array")
                    }
                }
            }
            RV::G(_) => None,
        },
    }
}

fn trees(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let (sc, root) = if r.pct(60) {
        let c = super::api::cfg(r);
        let (s, root, _) = Gen::schema(r, &c);
        (s, Some(root))
    } else {
        let d = r.range(1, 4);
        (Syn { r, budget: 25 }.schema(d), None)
    };
    let mut other = sc.clone();
    let mut what = vec![];
    for _ in 0..if r.pct(70) { 1 } else { 2 } {
        if other.0.is_empty() {
            break;
        }
        what.extend(change(&mut other, r));
    }
    let (t1, t2) = (print::random(&sc, r), print::random(&sc, r));
    let t3 = print::random(&other, r);
    let data = || json!({"cddl": cut(&t1), "again": cut(&t2), "changed": cut(&t3), "change": what});
    // syntax trees
    let p = |t: &str| run::parse(t).ok().and_then(|x| x.ok());
    let (Some(a), Some(b)) = (p(&t1), p(&t2)) else {
        return Ok(());
    };
    cx.st.evals += 2;
    if a != b || b != a || a != a_schema(&sc) {
        return viol("the trees of one schema compare as different", data());
    }
    let c = p(&t3);
    if let Some(c) = &c {
        let same = sc == other;
        if (a == *c) != same || (*c == a) != same || (a != *c) == same {
            return viol(if same { "equal trees compare as different" } else { "different trees compare as equal" }, data());
        }
        cx.st.inc(if same { "same_trees" } else { "different_trees" });
    }
    // prepared schemas
    let (Ok(x), Ok(y)) = (run::guard(|| flatten(&a)), run::guard(|| flatten(&b))) else {
        return Ok(());
    };
    let (Ok(x), Ok(y)) = (x, y) else {
        cx.st.inc("not_prepared");
        return Ok(());
    };
    if x != y || y != x {
        return viol("one schema prepared twice compares as different", data());
    }
    let z = match c.map(|c| run::guard(|| flatten(&c))) {
        Some(Ok(Ok(z))) => z,
        _ => x.clone(),
    };
    for (n, d) in &x {
        if d.clone() != *d {
            return viol("a copy of a rule compares as different", data());
        }
        let mine = rebuild(&d.node);
        cx.st.evals += 1;
        if mine != d.node || d.node != mine || !same(&mine, &d.node) {
            return viol(format!("rule {} made by hand compares as different, or is", n), data());
        }
        let Some(e) = z.get(n) else { continue };
        let eq = same(&d.node, &e.node) && d.generic_parms == e.generic_parms;
        if eq && hidden(&d.node) {
            // may differ in what is not shown
            cx.st.inc("hidden");
        } else if (d == e) != eq || (e == d) != eq {
            return viol(format!("rule {} and the changed one compare as {}", n, if eq { "different" } else { "equal" }), data());
        }
        cx.st.inc(if eq { "same_rules" } else { "different_rules" });
    }
    let mut nodes = vec![];
    x.values().for_each(|d| each(&d.node, &mut nodes));
    for _ in 0..3 {
        let n = *cx.r.pick(&nodes);
        shown(cx, n)?;
        // two parts of one schema
        let m = *cx.r.pick(&nodes);
        let eq = same(n, m);
        if (n == m) != eq && !(eq && hidden(n)) {
            return viol("two parts of a prepared schema compare wrongly", json!({"nodes": [cut(&format!("{:?}", n)), cut(&format!("{:?}", m))], "cddl": cut(&t1)}));
        }
    }
    // what is made by hand gives the same answers
    if let Some(root) = root {
        let mine: BTreeMap<String, RuleDef> = x.iter().map(|(n, d)| (n.clone(), RuleDef { generic_parms: d.generic_parms.clone(), node: rebuild(&d.node) })).collect();
        let (c1, c2) = (BasicContext::new(x), BasicContext::new(mine));
        for v in super::sem::values(&sc, &root, &mut cx.r, false, 5, 2) {
            if v.depth() > 100 || !super::api::cheap(&sc, &root, &v) {
                continue;
            }
            let cv = v.to_ciborium();
            let (a, b) = (run::cbor(&c1, &root, &cv), run::cbor(&c2, &root, &cv));
            cx.st.evals += 1;
            cx.st.inc(&format!("by_hand_{}", a.class()));
            if a.class() != b.class() {
                return viol(format!("a schema made by hand gives \"{}\", but \"{}\" when read", b.show(), a.show()), json!({"cddl": cut(&t1), "rule": root, "value": format!("{:?}", v)}));
            }
        }
    }
    cx.st.nontrivial(hash_bytes(t1.as_bytes()) ^ hash_bytes(t3.as_bytes()));
    cx.sample(data);
    Ok(())
}

fn equal(cx: &mut Cx) -> Res {
    if cx.idx % 3 == 0 {
        values(cx)
    } else {
        trees(cx)
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C27",
        quick: 150_000,
        thorough: 2_000_000,
        rule: "Each case compares random data values, near ones and copies, pairwise and in triples; or two readings of one schema, a schema changed in one place, and the same prepared schema made by hand with the public constructors, as trees, as prepared rules and in use. Distinct: sets of values, pairs of texts.",
        run: equal,
        stack: 64 << 20,
        shards: 8,
        assumptions: &["the operands of .regexp and .cbor are not public; equality of rules that hold .cbor is only required where a difference shows"],
    }]
}
