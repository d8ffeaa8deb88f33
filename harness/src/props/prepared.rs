//! Prepared schemas, compared with the tree they were made from.
use super::syntax::any_schema_text;
use crate::fw::*;
use crate::gen::*;
use crate::model::{prelude, Pre, P};
use crate::print;
use crate::rec;
use crate::rng::{hash_bytes, Rng};
use crate::run::{self, Kind};
use crate::s::*;
use crate::syn::*;
use cddl_cat::context::{BasicContext, LookupContext};
use cddl_cat::flatten::{flatten, flatten_from_str, slice_flatten_from_str};
use cddl_cat::ivt::{Control, Literal, Node, PreludeType, RuleDef};
use cddl_cat::ValidateError;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

fn cut(s: &str) -> String {
    s.chars().take(1500).collect()
}

// ---- what a schema may be refused for -------------------------------------------
struct Faults {
    kinds: BTreeSet<Kind>,
    /// not known whether it is a fault
    maybe: BTreeSet<Kind>,
}
impl Faults {
    fn name(&mut self, n: &str, a: &[T1]) {
        match prelude(n) {
            Pre::NotPrelude => a.iter().for_each(|x| self.t1(x)),
            Pre::Unsupported => {
                self.kinds.insert(Kind::Unsupported);
            }
            _ => {
                if !a.is_empty() {
                    self.kinds.insert(Kind::Generic);
                }
            }
        }
    }
    fn rule_name(&mut self, n: &str, a: &[T1]) {
        match prelude(n) {
            Pre::NotPrelude => {
                // a fault in an argument is not told apart here
                let mut f = Faults { kinds: BTreeSet::new(), maybe: BTreeSet::new() };
                a.iter().for_each(|x| f.t1(x));
                if !f.kinds.is_empty() || !f.maybe.is_empty() {
                    let to = if f.kinds.is_empty() { &mut self.maybe } else { &mut self.kinds };
                    to.extend(f.kinds.iter().chain(&f.maybe));
                    to.insert(Kind::Generic);
                }
            }
            _ => {
                self.kinds.insert(Kind::Generic);
                self.kinds.insert(Kind::Unsupported);
            }
        }
    }
    fn ty(&mut self, t: &Ty) {
        t.0.iter().for_each(|x| self.t1(x));
    }
    fn t1(&mut self, t: &T1) {
        match t {
            T1::S(t) => self.t2(t),
            T1::R(a, _, b) => {
                for e in [a, b] {
                    match e {
                        T2::Lit(_) => {}
                        T2::Name(n, a) => {
                            // true and false are literals
                            if !matches!(prelude(n), Pre::NotPrelude | Pre::Lit(_)) {
                                self.kinds.insert(Kind::Structural);
                            }
                            self.name(n, a);
                        }
                        _ => {
                            self.kinds.insert(Kind::Structural);
                        }
                    }
                }
            }
            T1::C(a, op, b) => {
                let op = op.as_str();
                if !["size", "lt", "le", "gt", "ge", "regexp", "cbor"].contains(&op) {
                    self.kinds.insert(Kind::Unsupported);
                    return;
                }
                self.t2(a);
                self.t2(b);
                match op {
                    "regexp" => {
                        if !matches!(simple(a), Some(T2::Name(n, _)) if matches!(prelude(n), Pre::Ty(P::Tstr))) {
                            self.kinds.insert(Kind::Structural);
                        }
                        match simple(b) {
                            // may be malformed
                            Some(T2::Lit(Lit::T(_))) => {
                                self.maybe.insert(Kind::Structural);
                            }
                            _ => {
                                self.kinds.insert(Kind::Structural);
                            }
                        }
                    }
                    "cbor" => {
                        if !matches!(simple(a), Some(T2::Name(n, _)) if matches!(prelude(n), Pre::Ty(P::Bstr))) {
                            self.kinds.insert(Kind::Structural);
                        }
                    }
                    _ => {
                        let ok = match b {
                            T2::Paren(t) if t.0.len() == 1 && op == "size" && matches!(t.0[0], T1::R(..)) => true,
                            _ => match simple(b) {
                                Some(T2::Lit(Lit::U(_) | Lit::N(_))) => true,
                                Some(T2::Name(n, _)) => matches!(prelude(n), Pre::NotPrelude),
                                _ => op == "size" && range_inside(b),
                            },
                        };
                        if !ok {
                            self.kinds.insert(Kind::Unsupported);
                        }
                    }
                }
            }
        }
    }
    fn t2(&mut self, t: &T2) {
        match t {
            T2::Lit(_) => {}
            T2::Name(n, a) => self.name(n, a),
            T2::Paren(t) => self.ty(t),
            T2::Map(g) | T2::Arr(g) | T2::ChIn(g) => self.grp(g),
            T2::Unwrap(n, a) | T2::Ch(n, a) => self.rule_name(n, a),
        }
    }
    fn grp(&mut self, g: &Grp) {
        g.0.iter().flatten().for_each(|e| self.ent(e));
    }
    fn ent(&mut self, e: &Ent) {
        match &e.v {
            EV::G(g) => self.grp(g),
            EV::M(k, t) => {
                if let Some(Key::T(k, _)) = k {
                    self.t1(k);
                }
                self.ty(t);
            }
        }
    }
}
/// Without parentheses around it.
fn simple(t: &T2) -> Option<&T2> {
    match t {
        T2::Paren(t) => match t.0.as_slice() {
            [T1::S(t)] => simple(t),
            _ => None,
        },
        t => Some(t),
    }
}
fn range_inside(t: &T2) -> bool {
    match t {
        T2::Paren(t) => match t.0.as_slice() {
            [T1::S(t)] => range_inside(t),
            [T1::R(..)] => true,
            _ => false,
        },
        _ => false,
    }
}

// ---- comparing -------------------------------------------------------------------
type Same = Result<(), String>;
fn no(n: &Node, what: impl std::fmt::Debug) -> Same {
    Err(format!("{} stands for {}", cut(&format!("{:?}", n)), cut(&format!("{:?}", what))))
}

fn s_lit(n: &Node, l: &Lit) -> Same {
    let ok = match (n, l) {
        (Node::Literal(Literal::Int(i)), Lit::U(u)) => *i == i128::from(*u),
        (Node::Literal(Literal::Int(i)), Lit::N(u)) => *i == i128::from(*u),
        (Node::Literal(Literal::Float(i)), Lit::F(u)) => i.to_bits() == u.to_bits(),
        (Node::Literal(Literal::Text(i)), Lit::T(u)) => i == u,
        (Node::Literal(Literal::Bytes(i)), Lit::B(u)) => i == u,
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        no(n, l)
    }
}
fn s_rule(n: &Node, r: &cddl_cat::ivt::Rule, name: &str, args: &[T1]) -> Same {
    if r.name != name || r.generic_args.len() != args.len() {
        return no(n, (name, args));
    }
    r.generic_args.iter().zip(args).try_for_each(|(x, a)| s_t1(x, a))
}
fn s_name(n: &Node, name: &str, args: &[T1]) -> Same {
    let p = match prelude(name) {
        Pre::Ty(p) => p,
        Pre::Lit(b) => return if *n == Node::Literal(Literal::Bool(b)) { Ok(()) } else { no(n, name) },
        Pre::Unsupported => return no(n, name),
        Pre::NotPrelude => {
            return match n {
                Node::Rule(r) => s_rule(n, r, name, args),
                _ => no(n, name),
            }
        }
    };
    let want = match p {
        P::Any => PreludeType::Any,
        P::Nil => PreludeType::Nil,
        P::Bool => PreludeType::Bool,
        P::Int => PreludeType::Int,
        P::Uint => PreludeType::Uint,
        P::Nint => PreludeType::Nint,
        P::Float => PreludeType::Float,
        P::Tstr => PreludeType::Tstr,
        P::Bstr => PreludeType::Bstr,
    };
    if *n == Node::PreludeType(want) {
        Ok(())
    } else {
        no(n, name)
    }
}
fn s_ty(n: &Node, t: &Ty) -> Same {
    if t.0.len() == 1 {
        return s_t1(n, &t.0[0]);
    }
    match n {
        Node::Choice(c) if c.options.len() == t.0.len() => c.options.iter().zip(&t.0).try_for_each(|(x, t)| s_t1(x, t)),
        _ => no(n, t),
    }
}
fn s_t1(n: &Node, t: &T1) -> Same {
    match (t, n) {
        (T1::S(t), _) => s_t2(n, t),
        (T1::R(a, incl, b), Node::Range(r)) if r.inclusive == *incl => {
            s_t2(&r.start, a)?;
            s_t2(&r.end, b)
        }
        (T1::C(a, op, b), Node::Control(c)) => {
            let (x, y) = match (op.as_str(), c) {
                ("size", Control::Size(c)) => (&c.target, &c.size),
                ("lt", Control::Lt(c)) => (&c.target, &c.lt),
                ("le", Control::Le(c)) => (&c.target, &c.le),
                ("gt", Control::Gt(c)) => (&c.target, &c.gt),
                ("ge", Control::Ge(c)) => (&c.target, &c.ge),
                ("regexp", Control::Regexp(_)) | ("cbor", Control::Cbor(_)) => return s_alone(n, t, b),
                _ => return no(n, t),
            };
            s_t2(x, a)?;
            s_t2(y, b)
        }
        _ => no(n, t),
    }
}
/// The parts of these two are not public: what they show must be what the
/// operand, prepared on its own, shows.
fn s_alone(n: &Node, t: &T1, arg: &T2) -> Same {
    let shown = format!("{:?}", n);
    let want = match simple(arg) {
        Some(T2::Lit(Lit::T(s))) if matches!(n, Node::Control(Control::Regexp(_))) => format!("{:?}", s),
        _ => {
            let one = Schema(vec![rule_t("x", ty1(T1::S(arg.clone())))]);
            match flatten(&a_schema(&one)) {
                Ok(r) => {
                    // and that is compared too
                    s_t2(&r["x"].node, arg)?;
                    format!("{:?}", r["x"].node)
                }
                Err(e) => return Err(format!("{:?} alone: {}", arg, e)),
            }
        }
    };
    if shown.contains(&want) {
        Ok(())
    } else {
        no(n, t)
    }
}
fn s_t2(n: &Node, t: &T2) -> Same {
    match (t, n) {
        (T2::Lit(l), _) => s_lit(n, l),
        (T2::Name(name, a), _) => s_name(n, name, a),
        (T2::Paren(t), _) => s_ty(n, t),
        (T2::Map(g), Node::Map(m)) => s_grp(n, &m.members, g),
        (T2::Arr(g), Node::Array(m)) => s_grp(n, &m.members, g),
        (T2::ChIn(g), Node::ChoiceifyInline(m)) => s_grp(n, &m.members, g),
        (T2::Unwrap(name, a), Node::Unwrap(r)) => s_rule(n, r, name, a),
        (T2::Ch(name, a), Node::Choiceify(r)) => s_rule(n, r, name, a),
        _ => no(n, t),
    }
}
fn s_grp(n: &Node, m: &[Node], g: &Grp) -> Same {
    if let [es] = g.0.as_slice() {
        return s_ents(n, m, es);
    }
    match m {
        [Node::Choice(c)] if c.options.len() == g.0.len() => c.options.iter().zip(&g.0).try_for_each(|(o, es)| match o {
            Node::Group(x) => s_ents(o, &x.members, es),
            _ => no(o, es),
        }),
        _ => no(n, g),
    }
}
fn s_ents(n: &Node, m: &[Node], es: &[Ent]) -> Same {
    if m.len() != es.len() {
        return no(n, es);
    }
    m.iter().zip(es).try_for_each(|(x, e)| s_ent(x, e))
}
fn s_ent(n: &Node, e: &Ent) -> Same {
    match (&e.occ, n) {
        (None, _) => s_ev(n, &e.v),
        (Some(o), Node::Occur(x)) => {
            let want = match o {
                Occ::Opt => (0, 1),
                Occ::Star => (0, usize::MAX),
                Occ::Plus => (1, usize::MAX),
                Occ::N(a, b) => (*a, *b),
            };
            if x.limits() != want {
                return no(n, o);
            }
            s_ev(&x.node, &e.v)
        }
        _ => no(n, e),
    }
}
fn s_ev(n: &Node, v: &EV) -> Same {
    match (v, n) {
        (EV::G(g), Node::Group(m)) => s_grp(n, &m.members, g),
        (EV::M(None, t), _) => s_ty(n, t),
        (EV::M(Some(k), t), Node::KeyValue(kv)) => {
            let cut = match k {
                Key::Bare(s) => {
                    s_lit(&kv.key, &Lit::T(s.clone()))?;
                    true
                }
                Key::Lit(l) => {
                    s_lit(&kv.key, l)?;
                    true
                }
                Key::T(t, cut) => {
                    s_t1(&kv.key, t)?;
                    *cut
                }
            };
            if kv.cut != cut {
                return no(n, format!("a member whose cut is {}", cut));
            }
            s_ty(&kv.value, t)
        }
        _ => no(n, v),
    }
}
fn s_def(d: &RuleDef, r: &Rule) -> Same {
    if d.generic_parms != r.params {
        return Err(format!("parameters {:?} for {:?}", d.generic_parms, r.params));
    }
    match &r.v {
        RV::T(t) => s_ty(&d.node, t),
        RV::G(e) => s_ent(&d.node, e),
    }
}

// ---- workload --------------------------------------------------------------------
/// Give most ranges and controls operands they may have.
fn sensible(t: &mut T1, r: &mut Rng) {
    let end = |t: &mut T2, r: &mut Rng| {
        if !matches!(t, T2::Lit(_)) && r.pct(92) {
            *t = if r.pct(50) { T2::Lit(int(pick_lit_int(r))) } else { T2::Name("lim".into(), vec![]) };
        }
    };
    match t {
        T1::S(_) => {}
        T1::R(a, _, b) => {
            end(a, r);
            end(b, r);
        }
        T1::C(a, op, b) => {
            if r.pct(90) {
                *op = r.pick(&["size", "lt", "le", "gt", "ge", "regexp", "cbor"]).to_string();
            }
            if r.pct(8) {
                return;
            }
            match op.as_str() {
                "regexp" => {
                    *a = name(*r.pick(&["tstr", "text", "uri"]));
                    *b = T2::Lit(Lit::T(regex_pattern(r, 2)));
                }
                "cbor" => *a = name(*r.pick(&["bstr", "bytes", "encoded-cbor"])),
                "size" if r.pct(30) => {
                    let (x, y) = (r.below(9), r.below(20));
                    *b = T2::Paren(ty1(T1::R(T2::Lit(int(x as i128)), r.pct(50), T2::Lit(int(y as i128)))));
                }
                _ => end(b, r),
            }
        }
    }
    match t {
        T1::S(t) => sensible2(t, r),
        T1::R(a, _, b) | T1::C(a, _, b) => {
            sensible2(a, r);
            sensible2(b, r);
        }
    }
}
fn sensible2(t: &mut T2, r: &mut Rng) {
    match t {
        T2::Lit(_) => {}
        T2::Name(n, a) | T2::Unwrap(n, a) | T2::Ch(n, a) => {
            if !a.is_empty() && !matches!(prelude(n), Pre::NotPrelude) && r.pct(90) {
                *n = "gen".into();
            }
            a.iter_mut().for_each(|x| sensible(x, r));
            if matches!(t, T2::Unwrap(..) | T2::Ch(..)) {
                if let T2::Unwrap(n, _) | T2::Ch(n, _) = t {
                    if !matches!(prelude(n), Pre::NotPrelude) && r.pct(92) {
                        *n = "grp".into();
                    }
                }
            }
        }
        T2::Paren(t) => t.0.iter_mut().for_each(|x| sensible(x, r)),
        T2::Map(g) | T2::Arr(g) | T2::ChIn(g) => sensible_g(g, r),
    }
}
fn sensible_g(g: &mut Grp, r: &mut Rng) {
    g.0.iter_mut().flatten().for_each(|e| sensible_e(e, r));
}
fn sensible_e(e: &mut Ent, r: &mut Rng) {
    match &mut e.v {
        EV::G(g) => sensible_g(g, r),
        EV::M(k, t) => {
            if let Some(Key::T(k, _)) = k {
                sensible(k, r);
            }
            t.0.iter_mut().for_each(|x| sensible(x, r));
        }
    }
}

fn prepared(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let sc = match r.below(8) {
        0 => {
            let c = super::api::cfg(r);
            Gen::schema(r, &c).0
        }
        1 => match rec::recognize(&any_schema_text(r)).0 {
            Some(s) => s,
            None => return Ok(()),
        },
        k => {
            let d = r.range(1, 5);
            let budget = r.range(3, 30) as i32;
            let mut sc = Syn { r, budget }.schema(d);
            if k > 2 {
                for x in &mut sc.0 {
                    match &mut x.v {
                        RV::T(t) => t.0.iter_mut().for_each(|x| sensible(x, r)),
                        RV::G(e) => sensible_e(e, r),
                    }
                }
            }
            sc
        }
    };
    // The pattern has to be one of those that fit in a text literal as they are.
    let text = if r.pct(50) { print::canon(&sc) } else { print::random(&sc, r) };
    let mut f = Faults { kinds: BTreeSet::new(), maybe: BTreeSet::new() };
    for x in &sc.0 {
        match &x.v {
            RV::T(t) => f.ty(t),
            RV::G(e) => f.ent(e),
        }
    }
    let data = |t: &str| json!({"cddl": cut(t)});
    let kind = |e: &ValidateError| match run::classify(e) {
        run::Out::Fatal(k, _) => k,
        _ => Kind::Unknown,
    };
    cx.st.evals += 1;
    let got = match run::guard(|| flatten_from_str(&text)) {
        Ok(g) => g,
        Err(p) => return viol(format!("preparing panics: {}", p), data(&text)),
    };
    let tree = match run::guard(|| flatten(&a_schema(&sc))) {
        Ok(g) => g,
        Err(p) => return viol(format!("preparing panics: {}", p), data(&text)),
    };
    match (&got, &tree) {
        (Ok(a), Ok(b)) if format!("{:?}", a) == format!("{:?}", b) => {}
        (Err(a), Err(b)) if format!("{:?}", a) == format!("{:?}", b) => {}
        _ => return viol("preparing the text and preparing its tree give different results", data(&text)),
    }
    let got = match got {
        Err(e) => {
            let k = kind(&e);
            if !f.kinds.contains(&k) && !f.maybe.contains(&k) {
                return viol(format!("a schema is refused ({}); its faults are {:?} {:?}", e, f.kinds, f.maybe), data(&text));
            }
            cx.st.inc(&format!("refused_{:?}", k));
            return Ok(());
        }
        Ok(g) => g,
    };
    if !f.kinds.is_empty() {
        return viol(format!("a schema with faults ({:?}) is prepared", f.kinds), data(&text));
    }
    // Every rule, and no other; the last of those with the same name.
    let want: BTreeMap<&str, &Rule> = sc.0.iter().map(|r| (r.name.as_str(), r)).collect();
    let names: Vec<&str> = got.keys().map(String::as_str).collect();
    if names != want.keys().copied().collect::<Vec<_>>() {
        return viol(format!("the prepared rules are {:?}", names), data(&text));
    }
    for (n, r) in &want {
        if let Err(m) = s_def(&got[*n], r) {
            return viol(format!("rule {} is prepared as something else: {}", n, m), data(&text));
        }
        cx.st.inc("rules_compared");
    }
    if cx.r.pct(30) {
        let kept = match run::guard(|| slice_flatten_from_str(&text)) {
            Ok(Ok(k)) => k,
            _ => return viol("refused when the text of the rules is kept", data(&text)),
        };
        let ctx = BasicContext::new(got.clone());
        for (n, d) in &got {
            let k = kept.get(n).map(|k| format!("{:?}", k.0));
            let l = ctx.lookup_rule(n).ok().map(|k| format!("{:?}", k));
            let d = Some(format!("{:?}", d));
            if k != d || l != d {
                return viol(format!("rule {} differs by the way it was obtained", n), data(&text));
            }
        }
        if kept.len() != got.len() {
            return viol("rules differ when their text is kept", data(&text));
        }
        cx.st.inc("obtained_in_three_ways");
    }
    cx.st.nontrivial(hash_bytes(text.as_bytes()));
    cx.sample(|| json!({"cddl": cut(&text), "prepared": cut(&format!("{:?}", got))}));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C26",
        quick: 400_000,
        thorough: 4_000_000,
        rule: "Each case prepares a random schema (syntactic and meaningful, from text in a random layout and from its tree) and compares the prepared rules with the tree that was written, node by node; a schema is refused exactly when it holds something that cannot be prepared, with an error of that kind. Distinct: text.",
        run: prepared,
        stack: 64 << 20,
        shards: 8,
        assumptions: &["the operands of .regexp and .cbor are compared by what the prepared node shows, because they are not public"],
    }]
}
